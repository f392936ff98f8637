// libsim.so: the deterministic environment of one simulated posidonius process.
//
// Loaded with LD_PRELOAD into the real, unmodified release binary. Every source of
// nondeterminism the program meets goes through libc and is answered here from a plan file
// (pure function of the plan and of the calls made): clocks, randomness, file creation, writes,
// renames, truncation, fsync, reads, stat, stdout, large allocations, process death.
//
// Only files below SIM_ROOT are simulated storage. Every mutation of simulated storage gets a
// number (op k), is appended to the trace, and may be failed, shortened, torn or made the last
// thing the process ever does. No real clock is read and no libc PRNG is used.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#define MAXF 256
#define MAXFD 1024
enum { F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_MID, F_ERR, F_ERRFROM, F_SHORT, F_EINTR,
       F_RERR, F_REINTR, F_STATERR, F_OUTERR, F_OUTCRASH, F_OOM, F_RTJUMP, F_MONOJUMP, F_OUTSHORT, F_OTHER, F_OTHERSTAT };
struct fault { int kind; long at; long arg; };
static struct fault faults[MAXF];
static int nfaults;
static int active;
static char root[PATH_MAX];
static size_t rootlen;
static char grave[PATH_MAX];
static int tracefd = -1;
static long opno, readno, statno, outno, allocno, graveno;
static long budget = -1;              // bytes of simulated storage left, -1: unlimited
static uint64_t rnd_seed, rnd_ctr;
static int tty;
static long cpus = 1;
static int gatefd = -1; // where to wait for a turn, when several processes share the storage
static long who;        // which of them
static long asked; // what variables nobody has set say, 0: nothing
static int64_t rt_now, mono_now;      // ns
static int64_t rt_per_read, mono_per_read, per_out, per_op;
static long chop_p, chop_max, rchop_p, rchop_max; // permille, bytes
static uint64_t chop_state, rchop_state;
static char tracked[MAXFD];           // 1: simulated storage, writable; 2: read only
static char fdname[MAXFD][64];

static long ioctl_tcgets(int fd, void *t) { return syscall(SYS_ioctl, fd, 0x5401, t); }
static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static void tr(const char *fmt, ...) {
  if (tracefd < 0) return;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, tracefd, b, n);
}
static void die(const char *why, long k) {
  tr("X %s %ld\n", why, k);
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) syscall(SYS_pause);
}
static struct { const char *n; int k; } kinds[] = {
  {"crash_before", F_CRASH_BEFORE}, {"crash_after", F_CRASH_AFTER}, {"crash_mid", F_CRASH_MID},
  {"err", F_ERR}, {"errfrom", F_ERRFROM}, {"short", F_SHORT}, {"eintr", F_EINTR},
  {"rerr", F_RERR}, {"reintr", F_REINTR}, {"staterr", F_STATERR}, {"outerr", F_OUTERR},
  {"outcrash", F_OUTCRASH}, {"oom", F_OOM}, {"rtjump", F_RTJUMP}, {"monojump", F_MONOJUMP},
  {"outshort", F_OUTSHORT}, {"other", F_OTHER}, {"otherstat", F_OTHERSTAT}, {0, 0}};

static void parse_plan(char *p) {
  char *save = 0;
  for (char *l = strtok_r(p, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
    char name[32];
    long a = 0, b = 0, c = 0;
    int n = sscanf(l, "%31s %ld %ld %ld", name, &a, &b, &c);
    if (n < 1) continue;
    if (!strcmp(name, "rt")) { rt_now = a; rt_per_read = b; }
    else if (!strcmp(name, "mono")) { mono_now = a; mono_per_read = b; }
    else if (!strcmp(name, "per_out")) per_out = a;
    else if (!strcmp(name, "per_op")) per_op = a;
    else if (!strcmp(name, "seed")) rnd_seed = (uint64_t)a;
    else if (!strcmp(name, "budget")) budget = a;
    else if (!strcmp(name, "tty")) tty = (int)a;
    else if (!strcmp(name, "cpus")) cpus = a;
    else if (!strcmp(name, "asked")) asked = a;
    else if (!strcmp(name, "chop")) { chop_p = a; chop_max = b; chop_state = (uint64_t)c; }
    else if (!strcmp(name, "rchop")) { rchop_p = a; rchop_max = b; rchop_state = (uint64_t)c; }
    else for (int i = 0; kinds[i].n; i++)
      if (!strcmp(name, kinds[i].n) && nfaults < MAXF) {
        faults[nfaults].kind = kinds[i].k; faults[nfaults].at = a; faults[nfaults].arg = b; nfaults++;
      }
  }
}
__attribute__((constructor)) static void init(void) {
  const char *r = getenv("SIM_ROOT"), *p = getenv("SIM_PLAN"), *t = getenv("SIM_TRACE"), *g = getenv("SIM_GRAVE");
  if (!r || !p || !t) return;
  snprintf(root, sizeof root, "%s/", r);
  rootlen = strlen(root);
  if (g) snprintf(grave, sizeof grave, "%s", g);
  const char *gn = getenv("SIM_GRAVE_NO");
  if (gn) graveno = atol(gn); // versions buried by earlier processes keep their numbers
  static char plan[65536];
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) _exit(97);
  ssize_t n = syscall(SYS_read, fd, plan, sizeof plan - 1);
  syscall(SYS_close, fd);
  if (n < 0) _exit(97);
  plan[n] = 0;
  int tfd = syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
  if (tfd < 0) _exit(97);
  tracefd = syscall(SYS_fcntl, tfd, F_DUPFD_CLOEXEC, 900);
  if (tracefd < 0) tracefd = tfd; else syscall(SYS_close, tfd);
  parse_plan(plan);
  // A runaway process is ended by the kernel, not by a wall clock: one simulated process needs
  // well under a second of CPU and a few megabytes of storage.
  struct rlimit c = {60, 65}, f = {256u << 20, 256u << 20}, z = {0, 0};
  syscall(SYS_prlimit64, 0, RLIMIT_CPU, &c, 0);
  syscall(SYS_prlimit64, 0, RLIMIT_FSIZE, &f, 0);
  syscall(SYS_prlimit64, 0, RLIMIT_CORE, &z, 0);
  const char *gf = getenv("SIM_GATE"), *wh = getenv("SIM_WHO");
  if (gf) gatefd = atoi(gf);
  if (wh) who = atol(wh);
  active = 1;
}
// One of several processes: nothing that touches the storage goes on before the simulator says so.
static void gate(void) {
  if (gatefd < 0) return;
  int e = errno;
  char c = 'r';
  while (syscall(SYS_write, gatefd, &c, 1) < 0 && errno == EINTR) ;
  while (syscall(SYS_read, gatefd, &c, 1) < 0 && errno == EINTR) ;
  errno = e;
}
// Relative path below root, or NULL if the path is not simulated storage.
static const char *simpath(const char *path, char *buf) {
  if (!active || !path) return 0;
  if (path[0] != '/') {
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    const char *q = path;
    while (q[0] == '.' && q[1] == '/') q += 2;
    if (snprintf(buf, PATH_MAX, "%s/%s", cwd, q) >= PATH_MAX) return 0;
  } else snprintf(buf, PATH_MAX, "%s", path);
  // /x/../ and /./ away
  char *o = buf, *i = buf;
  while (*i) {
    if (i[0] == '/' && i[1] == '.' && (i[2] == '/' || !i[2])) { i += 2; continue; }
    if (i[0] == '/' && i[1] == '.' && i[2] == '.' && (i[3] == '/' || !i[3])) { i += 3; while (o > buf && *--o != '/') ; continue; }
    *o++ = *i++;
  }
  *o = 0;
  if (strncmp(buf, root, rootlen)) return 0;
  return buf + rootlen;
}
static int64_t pending_jump; // takes effect once the operation it is tied to is over
static void jump_now(void) { rt_now += pending_jump; pending_jump = 0; }
static void advance(int64_t ns) { mono_now += ns; rt_now += ns; }
static int find(int kind, long at, long *arg) {
  for (int i = 0; i < nfaults; i++)
    if (faults[i].kind == kind && faults[i].at == at) { if (arg) *arg = faults[i].arg; return 1; }
  return 0;
}
// Another process gets the processor here and runs to its end before this one goes on.
static void other(void) {
  const char *cmd = getenv("SIM_OTHER");
  if (!cmd) return;
  pid_t p = fork();
  if (p == 0) { active = 0; char *av[] = {"sh", (char *)cmd, 0}, *ev[] = {0}; execve("/bin/sh", av, ev); _exit(98); }
  int st;
  while (p > 0 && waitpid(p, &st, 0) < 0 && errno == EINTR) ;
}
// Called at the start of a storage mutation. Returns 0 to go on, or an errno to fail with.
static int op_begin(long k, int is_write) {
  long a;
  gate();
  jump_now();
  advance(per_op);
  if (find(F_RTJUMP, k, &a)) { pending_jump += a * 1000000000LL; tr("J rt %ld %ld\n", k, a); }
  if (find(F_OTHER, k, &a)) { tr("F other %ld\n", k); other(); }
  if (find(F_CRASH_BEFORE, k, &a)) die("crash_before", k);
  if (is_write && find(F_EINTR, k, &a)) { tr("F eintr %ld\n", k); return EINTR; }
  if (find(F_ERR, k, &a)) { tr("F err %ld %ld\n", k, a); return (int)a; }
  for (int i = 0; i < nfaults; i++)
    if (faults[i].kind == F_ERRFROM && k >= faults[i].at) { tr("F errfrom %ld %ld\n", k, faults[i].arg); return (int)faults[i].arg; }
  return 0;
}
static void op_end(long k) { long a; if (find(F_CRASH_AFTER, k, &a)) die("crash_after", k); }
static void bury(const char *abspath, long k) {
  // Keep the inode that is about to lose its name or its content, for the durable-state model.
  if (!grave[0]) return;
  struct stat st;
  if (syscall(SYS_newfstatat, AT_FDCWD, abspath, &st, 0) != 0 || !S_ISREG(st.st_mode)) return;
  const char *base = strrchr(abspath, '/');
  char dst[PATH_MAX * 2];
  snprintf(dst, sizeof dst, "%s/%06ld.%s", grave, graveno++, base ? base + 1 : abspath);
  if (syscall(SYS_linkat, AT_FDCWD, abspath, AT_FDCWD, dst, 0) == 0) tr("B %ld %s\n", k, strrchr(dst, '/') + 1);
}
static void bury_copy(int fd, long k) {
  // The content of an open file is about to be cut: keep a copy.
  if (!grave[0]) return;
  char dst[PATH_MAX * 2];
  snprintf(dst, sizeof dst, "%s/%06ld.%s", grave, graveno++, fdname[fd]);
  int o = syscall(SYS_openat, AT_FDCWD, dst, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (o < 0) return;
  char proc[64], b[65536];
  snprintf(proc, sizeof proc, "/proc/self/fd/%d", fd);
  int in = syscall(SYS_openat, AT_FDCWD, proc, O_RDONLY, 0);
  ssize_t n;
  if (in >= 0) { while ((n = syscall(SYS_read, in, b, sizeof b)) > 0) syscall(SYS_write, o, b, n); syscall(SYS_close, in); }
  syscall(SYS_close, o);
  tr("B %ld %s\n", k, strrchr(dst, '/') + 1);
}
#define FAIL(e) do { errno = (e); return -1; } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char buf[PATH_MAX];
  const char *sp = (dirfd == AT_FDCWD || (path && path[0] == '/')) ? simpath(path, buf) : 0;
  if (!sp) {
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
      // the data directory itself, opened to force its changes to the disk
      struct stat d, o;
      char at[PATH_MAX];
      snprintf(at, sizeof at, "%.*s", (int)rootlen - 1, root);
      tracked[fd] = active && syscall(SYS_fstat, fd, &o) == 0 && S_ISDIR(o.st_mode) && syscall(SYS_newfstatat, AT_FDCWD, at, &d, 0) == 0 && d.st_ino == o.st_ino && d.st_dev == o.st_dev ? 4 : 0;
      if (tracked[fd]) snprintf(fdname[fd], sizeof fdname[fd], ".");
    }
    return fd;
  }
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  struct stat st;
  int exists = syscall(SYS_newfstatat, AT_FDCWD, buf, &st, 0) == 0;
  int mut = wr && ((flags & O_TRUNC) || ((flags & O_CREAT) && !exists));
  long k = -1;
  if (mut) {
    k = opno++;
    int e = op_begin(k, 0);
    exists = syscall(SYS_newfstatat, AT_FDCWD, buf, &st, 0) == 0;
    if (e) { tr("O %ld %s ex=%d tr=%d -%d\n", k, sp, exists, !!(flags & O_TRUNC), e); FAIL(e); }
    if (exists && (flags & O_TRUNC) && st.st_size > 0) {
      int t = syscall(SYS_openat, AT_FDCWD, buf, O_RDONLY | O_CLOEXEC, 0);
      if (t >= 0 && t < MAXFD) { snprintf(fdname[t], sizeof fdname[t], "%s", sp); bury_copy(t, k); syscall(SYS_close, t); }
    }
  } else {
    long r = readno++;
    long a;
    gate();
    if (find(F_RERR, r, &a)) { tr("F rerr %ld %ld\n", r, a); FAIL((int)a); }
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < MAXFD) {
    tracked[fd] = wr ? 1 : 2;
    snprintf(fdname[fd], sizeof fdname[fd], "%s", sp);
  }
  if (mut) {
    struct stat s2 = {0};
    if (fd >= 0) syscall(SYS_fstat, fd, &s2);
    if (fd < 0) tr("O %ld %s ex=%d tr=%d -%d\n", k, sp, exists, !!(flags & O_TRUNC), e);
    else tr("O %ld %s ex=%d tr=%d ino=%lu rt=%ld\n", k, sp, exists, !!(flags & O_TRUNC), (unsigned long)s2.st_ino, (long)(rt_now / 1000000000LL));
    op_end(k);
  } else tr("I %s wr=%d fd=%d\n", sp, wr, fd >= 0 ? 1 : -e);
  errno = e;
  return fd;
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static ssize_t sim_write(int fd, const void *buf, size_t n, long off, int has_off) {
  long k = opno++;
  long a;
  int e = op_begin(k, 1);
  if (e) { tr("W %ld %s %zu -%d\n", k, fdname[fd], n, e); FAIL(e); }
  size_t want = n;
  int mid = 0;
  if (find(F_CRASH_MID, k, &a)) { want = n * (size_t)a / 1000; mid = 1; }
  else if (find(F_SHORT, k, &a)) { size_t s = n * (size_t)a / 1000; if (s < 1) s = 1; if (s < n) { want = s; tr("F short %ld\n", k); } }
  else if (chop_p > 0 && n > 1 && (long)(splitmix(&chop_state) % 1000) < chop_p) {
    size_t m = chop_max > 0 ? (size_t)chop_max : n;
    if (m > n - 1) m = n - 1;
    want = 1 + splitmix(&chop_state) % m;
    if (splitmix(&chop_state) % 5 == 0) { tr("F eintr %ld\nW %ld %s %zu -%d\n", k, k, fdname[fd], n, EINTR); FAIL(EINTR); }
    tr("F short %ld\n", k);
  }
  if (budget >= 0 && (long)want > budget) {
    tr("F full %ld\n", k);
    want = (size_t)budget;
    if (want == 0 && n > 0) { tr("W %ld %s %zu -%d\n", k, fdname[fd], n, ENOSPC); FAIL(ENOSPC); }
  }
  ssize_t r = has_off ? syscall(SYS_pwrite64, fd, buf, want, off) : syscall(SYS_write, fd, buf, want);
  e = errno;
  if (r > 0 && budget >= 0) budget -= r;
  tr("W %ld %s %zu %zd\n", k, fdname[fd], n, r);
  if (mid) die("crash_mid", k);
  op_end(k);
  errno = e;
  return r;
}
static ssize_t out_write(const void *buf, size_t n) {
  long o = outno++;
  long a;
  advance(per_out);
  if (find(F_MONOJUMP, o, &a)) { advance(a * 1000000LL); tr("J mono %ld %ld\n", o, a); }
  if (find(F_OUTCRASH, o, &a)) die("outcrash", o);
  for (int i = 0; i < nfaults; i++)
    if (faults[i].kind == F_OUTERR && o >= faults[i].at) { tr("F outerr %ld %ld\n", o, faults[i].arg); FAIL((int)faults[i].arg); }
  if (find(F_OUTSHORT, o, &a) && n > 1) { tr("F outshort %ld\n", o); n = 1; }
  tr("P %ld\n", o);
  return syscall(SYS_write, 1, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (active && fd == 1) return out_write(buf, n);
  if (active && fd >= 0 && fd < MAXFD && tracked[fd] == 1) return sim_write(fd, buf, n, 0, 0);
  return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (active && fd >= 0 && fd < MAXFD && (fd == 1 || tracked[fd] == 1)) {
    size_t tot = 0;
    for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
    char *b = malloc(tot ? tot : 1);
    size_t o = 0;
    for (int i = 0; i < cnt; i++) { memcpy(b + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t r = write(fd, b, tot);
    int e = errno;
    free(b);
    errno = e;
    return r;
  }
  return syscall(SYS_writev, fd, iov, cnt);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  if (active && fd >= 0 && fd < MAXFD && tracked[fd] == 1) return sim_write(fd, buf, n, off, 1);
  return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return pwrite(fd, buf, n, off); }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (active) FAIL(ENOSYS);
  return syscall(SYS_copy_file_range, a, b, c, d, e, f);
}
ssize_t sendfile(int a, int b, off_t *c, size_t d) { if (active) FAIL(ENOSYS); return syscall(SYS_sendfile, a, b, c, d); }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { if (active) FAIL(ENOSYS); return syscall(SYS_sendfile, a, b, c, d); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { if (active) FAIL(ENOSYS); return syscall(SYS_splice, a, b, c, d, e, f); }

static int do_rename(const char *from, const char *to, unsigned flags) {
  char b1[PATH_MAX], b2[PATH_MAX];
  const char *s1 = simpath(from, b1), *s2 = simpath(to, b2);
  if (!s1 && !s2) return syscall(SYS_renameat2, AT_FDCWD, from, AT_FDCWD, to, flags);
  long k = opno++;
  int e = op_begin(k, 0);
  if (e) { tr("R %ld %s %s -%d\n", k, s1 ? s1 : from, s2 ? s2 : to, e); FAIL(e); }
  bury(b2, k);
  int r = syscall(SYS_renameat2, AT_FDCWD, from, AT_FDCWD, to, flags);
  int re = errno;
  if (r == 0 && s1 && s2) for (int i = 0; i < MAXFD; i++) if (tracked[i] && !strcmp(fdname[i], s1)) snprintf(fdname[i], sizeof fdname[i], "%s", s2); // open files go along
  errno = re;
  e = errno;
  tr("R %ld %s %s %d rt=%ld\n", k, s1 ? s1 : from, s2 ? s2 : to, r, (long)(rt_now / 1000000000LL));
  op_end(k);
  errno = e;
  return r;
}
int rename(const char *a, const char *b) { return do_rename(a, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { (void)da; (void)db; return do_rename(a, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { (void)da; (void)db; return do_rename(a, b, f); }
static int do_unlink(int d, const char *p, int fl) {
  char b[PATH_MAX];
  const char *s = simpath(p, b);
  if (!s) return syscall(SYS_unlinkat, d, p, fl);
  long k = opno++;
  int e = op_begin(k, 0);
  if (e) FAIL(e);
  bury(b, k);
  int r = syscall(SYS_unlinkat, d, p, fl);
  e = errno;
  tr("U %ld %s %d\n", k, s, r);
  op_end(k);
  errno = e;
  return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
static int do_link(const char *a, const char *b, int flags) {
  char b1[PATH_MAX], b2[PATH_MAX];
  const char *s1 = simpath(a, b1), *s2 = simpath(b, b2);
  if (!s1 && !s2) return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, flags);
  long k = opno++;
  int e = op_begin(k, 0);
  if (e) FAIL(e);
  int r = syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, flags);
  e = errno;
  tr("L %ld %s %s %d\n", k, s1 ? s1 : a, s2 ? s2 : b, r);
  op_end(k);
  errno = e;
  return r;
}
int link(const char *a, const char *b) { return do_link(a, b, 0); }
int linkat(int da, const char *a, int db, const char *b, int f) { (void)da; (void)db; return do_link(a, b, f); }
int ftruncate(int fd, off_t len) {
  if (!(active && fd >= 0 && fd < MAXFD && tracked[fd] == 1)) return syscall(SYS_ftruncate, fd, len);
  struct stat st = {0};
  syscall(SYS_fstat, fd, &st);
  long k = opno++;
  int e = op_begin(k, 0);
  if (e) { tr("T %ld %s %ld -%d\n", k, fdname[fd], (long)len, e); FAIL(e); }
  if (st.st_size > len) bury_copy(fd, k);
  int r = syscall(SYS_ftruncate, fd, len);
  e = errno;
  tr("T %ld %s %ld %ld %d\n", k, fdname[fd], (long)st.st_size, (long)len, r);
  op_end(k);
  errno = e;
  return r;
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
static int do_sync(int fd, int data) {
  if (!(active && fd >= 0 && fd < MAXFD && tracked[fd])) return syscall(data ? SYS_fdatasync : SYS_fsync, fd);
  long k = opno++;
  int e = op_begin(k, 0);
  if (e) { tr("S %ld %s -%d\n", k, fdname[fd], e); FAIL(e); }
  tr("S %ld %s 0\n", k, fdname[fd]); // durable in the model; the real disk need not be waited for
  op_end(k);
  return 0;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }
int close(int fd) {
  if (active && fd >= 0 && fd < MAXFD && tracked[fd]) { tr("C %s %d\n", fdname[fd], tracked[fd]); tracked[fd] = 0; }
  if (active && (fd == tracefd || fd == gatefd)) return 0;
  return syscall(SYS_close, fd);
}
static ssize_t sim_read(int fd, void *buf, size_t n, long off, int has_off) {
  long r0 = readno++;
  long a;
  gate();
  if (find(F_RERR, r0, &a)) { tr("F rerr %ld %ld\n", r0, a); FAIL((int)a); }
  if (find(F_REINTR, r0, &a)) { tr("F reintr %ld\n", r0); FAIL(EINTR); }
  size_t want = n;
  if (rchop_p > 0 && n > 1 && (long)(splitmix(&rchop_state) % 1000) < rchop_p) {
    size_t m = rchop_max > 0 ? (size_t)rchop_max : n;
    if (m > n) m = n;
    want = 1 + splitmix(&rchop_state) % m;
    tr("F rshort %ld\n", r0);
  }
  return has_off ? syscall(SYS_pread64, fd, buf, want, off) : syscall(SYS_read, fd, buf, want);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (active && fd >= 0 && fd < MAXFD && tracked[fd]) return sim_read(fd, buf, n, 0, 0);
  return syscall(SYS_read, fd, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  if (active && fd >= 0 && fd < MAXFD && tracked[fd]) return sim_read(fd, buf, n, off, 1);
  return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return pread(fd, buf, n, off); }
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict st) {
  char b[PATH_MAX];
  if (active && p[0] && simpath(p, b)) {
    long s = statno++;
    long a;
    gate();
    if (find(F_OTHERSTAT, s, &a)) { tr("F otherstat %ld\n", s); other(); }
    if (find(F_STATERR, s, &a)) { tr("F staterr %ld %ld %s\n", s, a, b + rootlen); FAIL((int)a); }
    tr("Q %ld %s\n", s, b + rootlen);
  }
  return syscall(SYS_statx, d, p, fl, mask, st);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active) return syscall(SYS_clock_gettime, c, ts);
  int64_t v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) { jump_now(); rt_now += rt_per_read; v = rt_now; }
  else { mono_now += mono_per_read; v = mono_now; tr("M %ld\n", (long)v); }
  ts->tv_sec = v / 1000000000LL;
  ts->tv_nsec = v % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!active) return syscall(SYS_getrandom, buf, n, fl);
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i++) { uint64_t s = rnd_seed + 0x1234567ULL * rnd_ctr++; p[i] = (unsigned char)splitmix(&s); }
  return (ssize_t)n;
}
// Failing allocations: the plan names the n-th large one.
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
#define BIG 4096
static int oom(size_t n) {
  if (!active || n < BIG) return 0;
  long k = allocno++;
  long a;
  if (find(F_OOM, k, &a)) { tr("F oom %ld %zu\n", k, n); return 1; }
  return 0;
}
void *malloc(size_t n) { if (oom(n)) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (oom(a * b)) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (oom(n)) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t al, size_t n) { if (oom(n)) return ENOMEM; *p = __libc_memalign(al, n); return *p ? 0 : ENOMEM; }
void *aligned_alloc(size_t al, size_t n) { if (oom(n)) { errno = ENOMEM; return 0; } return __libc_memalign(al, n); }
__attribute__((destructor)) static void fini(void) {
  if (active) tr("E ops=%ld reads=%ld stats=%ld outs=%ld allocs=%ld mono=%ld\n", opno, readno, statno, outno, allocno, (long)mono_now);
}

// What the process can see of the machine.
int isatty(int fd) {
  if (active && fd >= 0 && fd <= 2) { if (!tty) errno = ENOTTY; return tty; }
  struct { char b[128]; } t;
  return ioctl_tcgets(fd, &t) == 0;
}
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
  if (active) { memset(set, 0, size); for (long i = 0; i < cpus && (size_t)i < size * 8; i++) ((unsigned char *)set)[i / 8] |= 1 << (i % 8); return 0; }
  long r = syscall(SYS_sched_getaffinity, pid, size, set);
  return r < 0 ? -1 : 0;
}

pid_t getpid(void) { return active ? (pid_t)(who ? 40000 + who : 1000 + asked % 30000) : (pid_t)syscall(SYS_getpid); }
int gethostname(char *name, size_t len) { snprintf(name, len, "node%ld", asked % 1000); return 0; }
extern char **environ;
char *getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (!active || !asked || !strncmp(name, "SIM_", 4) || !strncmp(name, "LD_", 3) || !strncmp(name, "RUST_", 5)) return 0;
  static char *says[] = {"1", "0", "", "/nonexistent", "true"};
  unsigned long h = asked;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)name[i]) * 1099511628211ul;
  h ^= h >> 29;
  return h % 8 < 5 ? says[h % 8] : 0;
}
