/* simio: the storage seam.  An LD_PRELOAD interposer over the libc calls that
 * CPython, HDF5 and netCDF use to change files.  It is inert until sim_enable()
 * is called (through ctypes, from the simulator).  While enabled, every mutating
 * operation on a file below the given prefix gets a sequence number, is
 * journalled, and may have a planned fault applied to it.  No clock, no
 * randomness: the plan decides everything.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_CRASH = 1, K_TORN = 2, K_EIO = 3, K_ENOSPC = 4, K_SHORT = 5, K_EINTR = 6, K_READ_EIO = 7 };
enum { OP_CREATE = 1, OP_WRITE = 2, OP_TRUNC = 3, OP_RENAME = 4, OP_UNLINK = 5, OP_FSYNC = 6, OP_LINK = 7, OP_MKDIR = 8 };

#define MAXFD 4096
#define MAXFAULT 64
static int enabled;
static char prefix[PATH_MAX];
static size_t plen;
static int jfd = -1;
static long opno, readno, fired[16];
static int nfault;
static struct { long at; int kind; long arg; } faults[MAXFAULT];
static int nospace;              /* sticky: the disk is full */
static long budget = -1;         /* bytes left on the simulated disk, -1 = no limit */
static char *fdpath[MAXFD];
static unsigned char fdappend[MAXFD];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static ssize_t rwrite(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); return real(fd, b, n); }

static void jput(const void *b, size_t n) {
  const char *p = b;
  while (n && jfd >= 0) { ssize_t k = rwrite(jfd, p, n); if (k <= 0) return; p += k; n -= k; }
}
/* record: op kind, sequence number, offset/length, two strings, data */
static void journal(int op, int64_t off, const char *a, const char *b, const void *data, int64_t n) {
  if (jfd < 0) return;
  int64_t h[6] = { op, opno, off, a ? (int64_t)strlen(a) : 0, b ? (int64_t)strlen(b) : 0, n };
  size_t tot = sizeof h + h[3] + h[4] + (data ? n : 0);
  char *buf = malloc(tot), *p = buf;
  memcpy(p, h, sizeof h); p += sizeof h;
  if (a) { memcpy(p, a, h[3]); p += h[3]; }
  if (b) { memcpy(p, b, h[4]); p += h[4]; }
  if (data) memcpy(p, data, n);
  jput(buf, tot);
  free(buf);
}

void sim_enable(const char *pre, int journal_fd) {
  snprintf(prefix, sizeof prefix, "%s", pre); plen = strlen(prefix);
  jfd = journal_fd; opno = readno = 0; nfault = 0; nospace = 0; budget = -1;
  memset(fired, 0, sizeof fired);
  enabled = 1;
}
void sim_disable(void) { enabled = 0; }
void sim_fault(long at, int kind, long arg) { if (nfault < MAXFAULT) { faults[nfault].at = at; faults[nfault].kind = kind; faults[nfault].arg = arg; nfault++; } }
void sim_clear_faults(void) { nfault = 0; nospace = 0; budget = -1; }
void sim_set_budget(long b) { budget = b; }
long sim_ops(void) { return opno; }
long sim_reads(void) { return readno; }
long sim_fired(int kind) { return fired[kind & 15]; }
int sim_present(void) { return 42; }

static int under(const char *abs) { return enabled && plen && !strncmp(abs, prefix, plen) && (abs[plen] == '/' || abs[plen] == 0); }
static int absname(int dirfd, const char *path, char *out) {
  if (!enabled || !path) return 0;
  if (path[0] == '/') snprintf(out, PATH_MAX, "%s", path);
  else {
    char cwd[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t k = readlink(l, cwd, sizeof cwd - 1); if (k < 0) return 0; cwd[k] = 0; }
    size_t a = strlen(cwd), b = strlen(path);
    if (a + b + 2 > PATH_MAX) return 0;
    memcpy(out, cwd, a); out[a] = '/'; memcpy(out + a + 1, path, b + 1);
  }
  return under(out);
}

/* returns the fault kind planned for the operation with number opno (already incremented) */
static int planned(long *arg) {
  for (int i = 0; i < nfault; i++)
    if (faults[i].at == opno) { *arg = faults[i].arg; return faults[i].kind; }
  return 0;
}
static void die(void) { _exit(137); }

/* turnstile: with several simulated processes, each file operation waits for the scheduler */
static int grfd = -1, gwfd = -1;
void sim_turnstile(int rfd, int wfd) { grfd = rfd; gwfd = wfd; }
static ssize_t rread(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); return real(fd, b, n); }
static void turn(char what) {
  if (gwfd < 0) return;
  int e = errno;
  char c = what;
  if (rwrite(gwfd, &c, 1) != 1) _exit(98);
  ssize_t k;
  do k = rread(grfd, &c, 1); while (k < 0 && errno == EINTR);
  if (k != 1) _exit(97);
  if (c == 'X') die();
  errno = e;
}

/* gate for an operation without data; returns 1 when the call must fail with errno set */
static int gate(int extends) {
  long arg = 0;
  turn('m');
  opno++;
  int k = planned(&arg);
  if (k) fired[k]++;
  switch (k) {
    case K_CRASH: case K_TORN: die();
    case K_EIO: errno = EIO; return 1;
    case K_ENOSPC: nospace = (int)arg; errno = ENOSPC; return 1;
    default: break;
  }
  if (nospace && extends) { errno = ENOSPC; fired[K_ENOSPC]++; return 1; }
  return 0;
}

static int doopen(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, "openat64", int, const char *, int, mode_t);
  char abs[PATH_MAX];
  int mine = absname(dirfd, path, abs);
  int creates = 0, truncs = 0;
  if (mine) turn('o');
  if (mine && (flags & (O_CREAT | O_TRUNC)) && (flags & O_ACCMODE) != O_RDONLY) {
    struct stat st;
    int exists = !stat(abs, &st);
    creates = (flags & O_CREAT) && !exists;
    truncs = (flags & O_TRUNC) && exists && st.st_size > 0;
    if (creates || truncs) { if (gate(creates)) return -1; }
  }
  int fd = real(dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) {
    if (fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    if (mine) {
      fdpath[fd] = strdup(abs); fdappend[fd] = !!(flags & O_APPEND);
      if (creates) journal(OP_CREATE, 0, abs, 0, 0, 0);
      if (truncs) journal(OP_TRUNC, 0, abs, 0, 0, 0);
    }
  }
  return fd;
}
#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODEARG return doopen(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODEARG return doopen(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODEARG return doopen(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODEARG return doopen(d, path, flags | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return doopen(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return doopen(AT_FDCWD, path, flags, 0); }
int __openat_2(int d, const char *path, int flags) { return doopen(d, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return doopen(d, path, flags, 0); }
int creat(const char *path, mode_t mode) { return doopen(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
  REAL(int, "close", int);
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
  return real(fd);
}

static int tracked(int fd) { return enabled && fd >= 0 && fd < MAXFD && fdpath[fd]; }

typedef ssize_t (*wfn)(int, const void *, size_t, off_t);
static ssize_t rpw(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off_t); return real(fd, b, n, o); }

static ssize_t dowrite(int fd, const void *buf, size_t n, off_t off, int positional) {
  turn('w');
  off_t at = positional ? off : (fdappend[fd] ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR));
  long arg = 0;
  size_t m = n;
  int crash = 0;
  opno++;
  int k = planned(&arg);
  if (k) fired[k]++;
  switch (k) {
    case K_CRASH: die();
    case K_TORN: m = n ? (size_t)((unsigned long)arg % n) : 0; crash = 1; break;
    case K_EIO: errno = EIO; return -1;
    case K_ENOSPC: nospace = 1; break;
    case K_SHORT: if (n > 1) m = 1 + (size_t)((unsigned long)arg % (n - 1)); break;
    case K_EINTR: errno = EINTR; return -1;
    default: break;
  }
  struct stat st;
  if (!fstat(fd, &st) && at + (off_t)m > st.st_size) {      /* extends the file */
    if (nospace) { fired[K_ENOSPC]++; 
      if (k == K_ENOSPC && n > 1 && arg > 0) m = (size_t)((unsigned long)arg % n); else m = 0;
      if (m == 0) { errno = ENOSPC; return -1; } }
    else if (budget >= 0) {
      off_t grow = at + (off_t)m - st.st_size;
      if (grow > budget) { long room = budget - (long)(at > st.st_size ? at - st.st_size : 0); budget = 0; nospace = 1; fired[K_ENOSPC]++;
        off_t inside = st.st_size > at ? st.st_size - at : 0;
        if (room < 0) room = 0;
        m = (size_t)(inside + room);
        if (m == 0) { errno = ENOSPC; return -1; } }
      else budget -= grow;
    }
  }
  ssize_t r = m ? (positional ? rpw(fd, buf, m, off) : rwrite(fd, buf, m)) : 0;
  if (r > 0) journal(OP_WRITE, at, fdpath[fd], 0, buf, r);
  if (crash) die();
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { if (!tracked(fd)) return rwrite(fd, b, n); return dowrite(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!tracked(fd)) return rpw(fd, b, n, o); return dowrite(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (!tracked(fd)) return rpw(fd, b, n, o); return dowrite(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  if (!tracked(fd)) return real(fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return dowrite(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}

static int rftr(int fd, off_t n) { REAL(int, "ftruncate64", int, off_t); return real(fd, n); }
static int doftr(int fd, off_t n) {
  if (!tracked(fd)) return rftr(fd, n);
  struct stat st; int ext = !fstat(fd, &st) && n > st.st_size;
  if (gate(ext)) return -1;
  int r = rftr(fd, n);
  if (!r) journal(OP_TRUNC, n, fdpath[fd], 0, 0, 0);
  return r;
}
int ftruncate(int fd, off_t n) { return doftr(fd, n); }
int ftruncate64(int fd, off_t n) { return doftr(fd, n); }

static int rren(int a, const char *p, int b, const char *q) { REAL(int, "renameat", int, const char *, int, const char *); return real(a, p, b, q); }
static int doren(int a, const char *p, int b, const char *q) {
  char x[PATH_MAX], y[PATH_MAX];
  int m1 = absname(a, p, x), m2 = absname(b, q, y);
  if (!(m1 && m2)) return rren(a, p, b, q);
  if (gate(0)) return -1;
  int r = rren(a, p, b, q);
  if (!r) {
    journal(OP_RENAME, 0, x, y, 0, 0);
    for (int i = 0; i < MAXFD; i++) if (fdpath[i] && !strcmp(fdpath[i], x)) { free(fdpath[i]); fdpath[i] = strdup(y); }
  }
  return r;
}
int rename(const char *p, const char *q) { return doren(AT_FDCWD, p, AT_FDCWD, q); }
int renameat(int a, const char *p, int b, const char *q) { return doren(a, p, b, q); }

static int doul(int d, const char *p, int fl) {
  REAL(int, "unlinkat", int, const char *, int);
  char x[PATH_MAX];
  if (!absname(d, p, x)) return real(d, p, fl);
  if (gate(0)) return -1;
  int r = real(d, p, fl);
  if (!r) journal(OP_UNLINK, 0, x, 0, 0, 0);
  return r;
}
int unlink(const char *p) { return doul(AT_FDCWD, p, 0); }
int remove(const char *p) { struct stat st; if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return rmdir(p); return doul(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return doul(d, p, fl); }

int link(const char *p, const char *q) {
  REAL(int, "link", const char *, const char *);
  char x[PATH_MAX], y[PATH_MAX];
  if (!(absname(AT_FDCWD, p, x) && absname(AT_FDCWD, q, y))) return real(p, q);
  if (gate(0)) return -1;
  int r = real(p, q);
  if (!r) journal(OP_LINK, 0, x, y, 0, 0);
  return r;
}

static int dosync(int fd, int data) {
  static int (*rs)(int); if (!rs) rs = dlsym(RTLD_NEXT, "fsync");
  static int (*rd)(int); if (!rd) rd = dlsym(RTLD_NEXT, "fdatasync");
  if (!tracked(fd)) return data ? rd(fd) : rs(fd);
  if (gate(0)) return -1;
  journal(OP_FSYNC, 0, fdpath[fd], 0, 0, 0);   /* the simulated disk makes it durable; no real sync needed */
  return 0;
}
int fsync(int fd) { return dosync(fd, 0); }
int fdatasync(int fd) { return dosync(fd, 1); }

/* reads: only counted, and failed with EIO when planned */
static int readgate(int fd) {
  turn('r');
  readno++;
  for (int i = 0; i < nfault; i++)
    if (faults[i].kind == K_READ_EIO && faults[i].at == -readno) { fired[K_READ_EIO]++; errno = EIO; return 1; }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); if (tracked(fd) && readgate(fd)) return -1; return real(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off_t); if (tracked(fd) && readgate(fd)) return -1; return real(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off_t); if (tracked(fd) && readgate(fd)) return -1; return real(fd, b, n, o); }

/* copies inside the kernel: as a read and a write */
static ssize_t copy(int out, off_t *oo, int in, off_t *io, size_t n) {
  char buf[65536];
  if (n > sizeof buf) n = sizeof buf;
  ssize_t r = io ? pread(in, buf, n, *io) : read(in, buf, n);
  if (r <= 0) return r;
  ssize_t w = dowrite(out, buf, (size_t)r, oo ? *oo : 0, oo != 0);
  ssize_t done = w > 0 ? w : 0;
  if (!io && done < r) lseek(in, done - r, SEEK_CUR);
  if (io) *io += done;
  if (oo) *oo += done;
  return w;
}
ssize_t sendfile(int out, int in, off_t *io, size_t n) {
  REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
  if (!tracked(out)) return real(out, in, io, n);
  return copy(out, 0, in, io, n);
}
ssize_t sendfile64(int out, int in, off_t *io, size_t n) { return sendfile(out, in, io, n); }
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl) {
  REAL(ssize_t, "copy_file_range", int, off_t *, int, off_t *, size_t, unsigned);
  if (!tracked(out)) return real(in, io, out, oo, n, fl);
  return copy(out, oo, in, io, n);
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) {
  REAL(ssize_t, "pwritev", int, const struct iovec *, int, off_t);
  if (!tracked(fd)) return real(fd, v, c, o);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return dowrite(fd, v[i].iov_base, v[i].iov_len, o, 1);
  return 0;
}
ssize_t pwritev64(int fd, const struct iovec *v, int c, off_t o) { return pwritev(fd, v, c, o); }
static int dotr(const char *p, off_t n) {
  REAL(int, "truncate64", const char *, off_t);
  char x[PATH_MAX];
  if (!absname(AT_FDCWD, p, x)) return real(p, n);
  struct stat st; int ext = !stat(p, &st) && n > st.st_size;
  if (gate(ext)) return -1;
  int r = real(p, n);
  if (!r) journal(OP_TRUNC, n, x, 0, 0, 0);
  return r;
}
int truncate(const char *p, off_t n) { return dotr(p, n); }
int truncate64(const char *p, off_t n) { return dotr(p, n); }
