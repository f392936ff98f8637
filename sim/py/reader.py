# Reads history files with the repository's own posidonius.analysis.history.read and prints what it saw.
import importlib.util
import struct
import sys
import types

import pandas  # the stand-in beside this file

# Load the package without its plotting parts: only history.py and what it imports.
root = "/repo/posidonius"
for name, path in (("posidonius", root), ("posidonius.analysis", root + "/analysis"), ("posidonius.particles", root + "/particles")):
    m = types.ModuleType(name)
    m.__path__ = [path]
    sys.modules[name] = m
# The stellar model tables are not shipped; reading a history does not need them.
import os
_exists = os.path.exists
os.path.exists = lambda p: True if str(p).endswith("/input/") else _exists(p)
import posidonius.analysis.history as H  # noqa
os.path.exists = _exists

FIELDS = ('current_time', 'time_step', 'particle', 'position_x', 'position_y', 'position_z', 'spin_x', 'spin_y', 'spin_z', 'velocity_x', 'velocity_y', 'velocity_z', 'mass', 'radius', 'radius_of_gyration_2', 'love_number', 'scaled_dissipation_factor', 'lag_angle', 'denergy_dt', 'migration_timescale')


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return h


for line in open(sys.argv[1]):
    f = line.strip()
    try:
        n, d = H.read(f)
    except pandas.StubMissing as e:
        print("STUB", e)
        continue
    except Exception as e:
        print("FAIL", type(e).__name__, e)
        continue
    b = bytearray()
    try:
        cols = [d[c] for c in FIELDS]
        for row in zip(*cols):
            b += struct.pack("<ddi17d", row[0], row[1], int(row[2]), *[float(x) for x in row[3:]])
    except Exception as e:
        print("FAIL", type(e).__name__, e)
        continue
    print("OK", int(n), len(d), "%016x" % fnv(b))
