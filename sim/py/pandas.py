# Stand-in for pandas (not installed here): the few table operations posidonius.analysis.history
# uses on a list of rows, on top of numpy. Anything else raises StubMissing, which the check
# treats as "no answer", never as a violation.
import numpy as np


class StubMissing(Exception):
    pass


class _ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.df[i]
        if isinstance(i, (int, np.integer)):
            return {c: self.df._a[c][i] for c in self.df.columns}
        raise StubMissing("iloc[%r]" % (i,))


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, _a=None, _i=None):
        if _a is not None:
            self._a, self._i = _a, _i
        else:
            columns = list(columns) if columns is not None else list(data.dtype.names)
            rows = data if data is not None else []
            n = len(rows)
            dt = []
            for k, c in enumerate(columns):
                dt.append((c, np.int64 if n and isinstance(rows[0][k], (int, np.integer)) else np.float64))
            self._a = np.array([tuple(r) for r in rows], dtype=dt)
            self._i = np.arange(n) if index is None else np.asarray(index)
        self.columns = list(self._a.dtype.names)

    def __len__(self):
        return len(self._a)

    @property
    def shape(self):
        return (len(self._a), len(self.columns))

    @property
    def empty(self):
        return len(self._a) == 0

    @property
    def index(self):
        return self._i

    @property
    def iloc(self):
        return _ILoc(self)

    def head(self, n=5):
        return self[:n]

    def tail(self, n=5):
        return self[len(self) - n:] if n else self[:0]

    def copy(self):
        return DataFrame(_a=self._a.copy(), _i=self._i.copy())

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._a[k]
        if isinstance(k, slice):
            return DataFrame(_a=self._a[k], _i=self._i[k])
        k = np.asarray(k)
        if k.dtype == bool:
            return DataFrame(_a=self._a[k], _i=self._i[k])
        raise StubMissing("[%r]" % (k,))

    def to_records(self, index=True):
        if not index:
            return np.rec.array(self._a.copy())
        out = np.empty(len(self._a), dtype=[("index", np.int64)] + [(c, self._a.dtype[c]) for c in self.columns])
        out["index"] = self._i
        for c in self.columns:
            out[c] = self._a[c]
        return np.rec.array(out)

    def __getattr__(self, name):
        a = self.__dict__.get("_a")
        if a is not None and a.dtype.names and name in a.dtype.names:
            return a[name]
        raise StubMissing(name)


def __getattr__(name):
    raise StubMissing(name)
