/* Simulated I/O: an LD_PRELOAD shim that owns the file system calls below one directory.
 *
 * Every tracked operation gets a number; a plan maps numbers to faults (EIO, ENOSPC, a full disk,
 * EINTR, short transfers, death of the process with a torn last write), and a seeded generator can
 * sprinkle short and interrupted transfers.  Outside the tracked directory, and while disabled,
 * calls go straight through.  FILE streams on tracked files are built with fopencookie on top of
 * the same layer, so glibc's own buffering sits above the faults as it does in reality.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_CLOSE, K_TRUNC, K_UNLINK, K_RENAME, K_MKDIR, K_SYNC, K_STAT, K_NKINDS };
enum { A_NONE = 0, A_EIO, A_ENOSPC, A_FULL, A_EINTR, A_SHORT, A_CRASH, A_EIOS, A_EACCES, A_EMFILE, A_NACTS };

typedef struct { int32_t kind, path, req, res, err, act, fd, extra; } Entry;

#define NFD 4096
#define NPATH 4096
#define NLOG 65536
#define NPLAN 256
static int fd_path[NFD];               /* 0 = not tracked, else path number + 1 */
static char fd_write[NFD], fd_stream[NFD];
static char* paths[NPATH];
static int npaths;
static char prefix[PATH_MAX];
static size_t nprefix;
static int enabled, yield_fd = -1;
static Entry logbuf[NLOG];
static long nops;                      /* operations since the last reset */
static long plan_op[NPLAN];
static int plan_act[NPLAN], plan_arg[NPLAN], plan_n;
static int disk_full, bad_path = -1;
static uint64_t rnd_state;
static int rnd_short, rnd_eintr;       /* per mille */
static long counts[K_NKINDS][A_NACTS];
static long nyields;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside;

#define NEXT(ret, name, args) \
    static ret (*p_##name) args; \
    if (!p_##name) p_##name = (ret (*) args) dlsym(RTLD_NEXT, #name)

/* raw calls, so that nothing of ours is re-entered */
static ssize_t raw_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }

/* ---------------------------------------------------------------- control, called by ctypes */
void simio_reset(void)
{
    pthread_mutex_lock(&mu);
    nops = 0; plan_n = 0; disk_full = 0; bad_path = -1; rnd_short = rnd_eintr = 0;
    memset(counts, 0, sizeof(counts));
    pthread_mutex_unlock(&mu);
}
void simio_track(const char* dir)
{
    strncpy(prefix, dir, sizeof(prefix) - 2);
    nprefix = strlen(prefix);
    if (nprefix && prefix[nprefix-1] != '/') { prefix[nprefix++] = '/'; prefix[nprefix] = 0; }
}
void simio_enable(int on) { enabled = on; }
int simio_plan(long op, int act, int arg)
{
    if (plan_n >= NPLAN) return -1;
    plan_op[plan_n] = op; plan_act[plan_n] = act; plan_arg[plan_n] = arg; ++plan_n;
    return 0;
}
void simio_random(uint64_t seed, int pshort, int peintr)
{ rnd_state = seed * 0x9E3779B97F4A7C15ull + 0x1234567; rnd_short = pshort; rnd_eintr = peintr; }
void simio_yield(int fd) { yield_fd = fd; }
long simio_nops(void) { return nops; }
long simio_nyields(void) { return nyields; }
const Entry* simio_log(void) { return logbuf; }
const char* simio_path(int i) { return i >= 0 && i < npaths ? paths[i] : ""; }
int simio_npaths(void) { return npaths; }
long simio_count(int k, int a) { return counts[k][a]; }
int simio_is_full(void) { return disk_full; }
/* How many tracked descriptors are open (leaks). */
int simio_open_fds(void) { int n = 0; for (int i = 0; i < NFD; ++i) n += fd_path[i] != 0; return n; }

static uint32_t rnd(void)
{
    uint64_t z = (rnd_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (uint32_t)((z ^ (z >> 31)) >> 32);
}

/* ---------------------------------------------------------------- bookkeeping */
static int path_number(const char* path)
{
    if (!nprefix || !path) return -1;
    char buf[PATH_MAX];
    if (path[0] != '/') {
        if (syscall(SYS_getcwd, buf, sizeof(buf)) < 0) return -1;
        size_t n = strlen(buf);
        if (n + strlen(path) + 2 >= sizeof(buf)) return -1;
        buf[n] = '/'; strcpy(buf + n + 1, path);
        path = buf;
    }
    if (strncmp(path, prefix, nprefix)) return -1;
    path += nprefix;
    for (int i = 0; i < npaths; ++i) if (!strcmp(paths[i], path)) return i;
    if (npaths >= NPATH) return -1;
    paths[npaths] = strdup(path);
    return npaths++;
}

static void yield_point(void)
{
    if (yield_fd < 0) return;
    char b[9] = {'Y', 0, 0, 0, 0, 0, 0, 0, 0};
    ++nyields;
    if (raw_write(yield_fd, b, 9) != 9) _exit(79);
    size_t got = 0;
    while (got < 9) {
        ssize_t n = raw_read(yield_fd, b + got, 9 - got);
        if (n <= 0) _exit(79);
        got += n;
    }
    int64_t len;
    memcpy(&len, b + 1, 8);
    char junk[256];
    while (len > 0) {
        ssize_t n = raw_read(yield_fd, junk, len < 256 ? len : 256);
        if (n <= 0) _exit(79);
        len -= n;
    }
}

/* What to do with the next operation.  *arg: per mille of a transfer that happens. */
static int decide(int kind, int path, long req, int interruptible, long* op, int* arg)
{
    int act = A_NONE;
    *arg = 0;
    pthread_mutex_lock(&mu);
    long k = *op = nops++;
    for (int i = 0; i < plan_n; ++i)
        if (plan_op[i] == k) { act = plan_act[i]; *arg = plan_arg[i]; }
    if (act == A_NONE && disk_full &&
        (kind == K_WRITE || kind == K_MKDIR || (kind == K_OPEN && req) || (kind == K_TRUNC && req)))
        act = A_ENOSPC;
    if (act == A_NONE && bad_path == path && path >= 0 && kind == K_READ) act = A_EIO;
    if (act == A_NONE && (rnd_short || rnd_eintr) && (kind == K_READ || kind == K_WRITE)) {
        int x = rnd() % 1000;
        if (x < rnd_short) { act = A_SHORT; *arg = rnd() % 1000; }
        else if (interruptible && x < rnd_short + rnd_eintr) act = A_EINTR;
    }
    /* faults that cannot happen to this kind of operation do not */
    if (act == A_EINTR && (!interruptible || !(kind == K_READ || kind == K_WRITE || kind == K_OPEN)))
        act = A_NONE;
    if (act == A_SHORT && !((kind == K_READ || kind == K_WRITE) && req > 1)) act = A_NONE;
    if ((act == A_ENOSPC || act == A_FULL) &&
        !(kind == K_WRITE || kind == K_MKDIR || kind == K_CLOSE || (kind == K_OPEN && req) ||
          (kind == K_TRUNC && req) || kind == K_SYNC)) act = A_NONE;
    if ((act == A_EACCES || act == A_EMFILE) && kind != K_OPEN) act = A_NONE;
    if (act == A_FULL) disk_full = 1;
    if (act == A_EIOS) { bad_path = path; act = kind == K_READ ? A_EIO : A_NONE; }
    counts[kind][act]++;
    pthread_mutex_unlock(&mu);
    return act;
}

static void note(long op, int kind, int path, long req, long res, int err, int act, int fd)
{
    if (op < NLOG) {
        Entry* e = &logbuf[op];
        e->kind = kind; e->path = path; e->req = (int32_t)req; e->res = (int32_t)res;
        e->err = err; e->act = act; e->fd = fd; e->extra = 0;
    }
}

static int err_of(int act)
{
    switch (act) {
      case A_EIO: return EIO;
      case A_ENOSPC: case A_FULL: return ENOSPC;
      case A_EINTR: return EINTR;
      case A_EACCES: return EACCES;
      case A_EMFILE: return EMFILE;
    }
    return 0;
}

static int tracked(int fd) { return enabled && fd >= 0 && fd < NFD && fd_path[fd]; }

/* ---------------------------------------------------------------- the operations */
static int do_open(int dirfd, const char* path, int flags, mode_t mode, int stream)
{
    int p = enabled && (dirfd == AT_FDCWD || (path && path[0] == '/')) ? path_number(path) : -1;
    if (p < 0) return syscall(SYS_openat, dirfd, path, flags, mode);
    yield_point();
    long op; int arg;
    int creates = (flags & O_CREAT) != 0;
    int act = decide(K_OPEN, p, creates, !stream, &op, &arg);
    if (act == A_CRASH) _exit(137);
    if (act) {
        int e = err_of(act);
        note(op, K_OPEN, p, creates, -1, e, act, -1);
        errno = e;
        return -1;
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < NFD) {
        fd_path[fd] = p + 1;
        fd_write[fd] = (flags & O_ACCMODE) != O_RDONLY;
        fd_stream[fd] = stream;
    }
    note(op, K_OPEN, p, creates, fd >= 0 ? 0 : -1, fd >= 0 ? 0 : e, act, fd);
    errno = e;
    return fd;
}

static ssize_t do_io(int kind, int fd, char* buf, size_t n, int64_t off, int interruptible)
{
    yield_point();
    int p = fd_path[fd] - 1;
    long op; int arg;
    int act = decide(kind, p, (long)n, interruptible, &op, &arg);
    size_t m = n;
    int fail = 0;
    if (act == A_SHORT) { m = 1 + (size_t)((double)(n - 1) * arg / 1000.); if (m >= n) m = n - 1; }
    else if (act == A_CRASH) {
        if (kind == K_WRITE) { m = (size_t)((double)n * arg / 1000.); if (m > n) m = n; } else _exit(137);
    }
    else if (act == A_FULL) { m = (size_t)((double)n * arg / 1000.); if (m == 0) fail = 1; }
    else if (act) fail = 1;
    if (fail) {
        int e = err_of(act);
        note(op, kind, p, (long)n, -1, e, act, fd);
        errno = e;
        return -1;
    }
    ssize_t r;
    if (kind == K_READ)
        r = off >= 0 ? syscall(SYS_pread64, fd, buf, m, off) : syscall(SYS_read, fd, buf, m);
    else if (m == 0 && n > 0) r = 0;
    else r = off >= 0 ? syscall(SYS_pwrite64, fd, buf, m, off) : syscall(SYS_write, fd, buf, m);
    if (act == A_CRASH) _exit(137);
    int e = errno;
    note(op, kind, p, (long)n, (long)r, r < 0 ? e : 0, act, fd);
    errno = e;
    return r;
}

static int do_close(int fd)
{
    if (!(fd >= 0 && fd < NFD && fd_path[fd])) return syscall(SYS_close, fd);
    int p = fd_path[fd] - 1, act = A_NONE, arg;
    long op = -1;
    if (enabled) {
        yield_point();
        act = decide(K_CLOSE, p, fd_write[fd], 0, &op, &arg);
        if (act == A_CRASH) _exit(137);
        if (!fd_write[fd]) act = A_NONE;      /* closing a file that was only read cannot lose data */
    }
    fd_path[fd] = 0;
    if (act) {                            /* the last of the data could not be stored */
        struct stat st;
        if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0) {
            long keep = (long)((double)st.st_size * arg / 1000.);
            if (keep >= st.st_size) keep = st.st_size - 1;
            if (syscall(SYS_ftruncate, fd, keep)) {}
        }
    }
    int r = syscall(SYS_close, fd);
    if (act) { r = -1; errno = err_of(act); }
    if (op >= 0) { int e = errno; note(op, K_CLOSE, p, fd_write[fd], r, r < 0 ? e : 0, act, fd); errno = e; }
    return r;
}

/* Operations on names, and truncation: call(...) is the real one. */
#define SIMPLE(kind, p, req, fd_, call) \
    yield_point(); \
    long op; int arg; \
    int act = decide(kind, p, req, 0, &op, &arg); \
    if (act == A_CRASH) _exit(137); \
    long r; \
    if (act) { r = -1; errno = err_of(act); } else r = (call); \
    int e = errno; \
    note(op, kind, p, req, r, r < 0 ? e : 0, act, fd_); \
    errno = e; \
    return r

int open(const char* path, int flags, ...)
{ va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
  return do_open(AT_FDCWD, path, flags, m, 0); }
int open64(const char* path, int flags, ...)
{ va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
  return do_open(AT_FDCWD, path, flags, m, 0); }
int openat(int d, const char* path, int flags, ...)
{ va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
  return do_open(d, path, flags, m, 0); }
int openat64(int d, const char* path, int flags, ...)
{ va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
  return do_open(d, path, flags, m, 0); }
int creat(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }
int creat64(const char* path, mode_t m) { return creat(path, m); }

ssize_t read(int fd, void* b, size_t n)
{ return tracked(fd) ? do_io(K_READ, fd, b, n, -1, 1) : raw_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n)
{ return tracked(fd) ? do_io(K_WRITE, fd, (char*)b, n, -1, 1) : raw_write(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o)
{ return tracked(fd) ? do_io(K_READ, fd, b, n, o, 1) : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{ return tracked(fd) ? do_io(K_WRITE, fd, (char*)b, n, o, 1) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int n)
{ if (!tracked(fd)) return syscall(SYS_readv, fd, v, n);
  return n > 0 ? do_io(K_READ, fd, v[0].iov_base, v[0].iov_len, -1, 1) : 0; }
ssize_t writev(int fd, const struct iovec* v, int n)
{ if (!tracked(fd)) return syscall(SYS_writev, fd, v, n);
  return n > 0 ? do_io(K_WRITE, fd, v[0].iov_base, v[0].iov_len, -1, 1) : 0; }
int close(int fd) { return do_close(fd); }

static int do_trunc(int fd, off_t len)
{
    if (!tracked(fd)) return syscall(SYS_ftruncate, fd, len);
    struct stat st;
    int grows = fstat(fd, &st) == 0 && len > st.st_size;
    int p = fd_path[fd] - 1;
    SIMPLE(K_TRUNC, p, grows, fd, syscall(SYS_ftruncate, fd, len));
}
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off_t len) { return do_trunc(fd, len); }
int fsync(int fd)
{ if (!tracked(fd)) return syscall(SYS_fsync, fd);
  int p = fd_path[fd] - 1;
  SIMPLE(K_SYNC, p, 0, fd, 0); }
int fdatasync(int fd) { return fsync(fd); }

int unlink(const char* path)
{ int p = enabled ? path_number(path) : -1;
  if (p < 0) return syscall(SYS_unlink, path);
  SIMPLE(K_UNLINK, p, 0, -1, syscall(SYS_unlink, path)); }
int remove(const char* path)
{ int p = enabled ? path_number(path) : -1;
  if (p < 0) { NEXT(int, remove, (const char*)); return p_remove(path); }
  SIMPLE(K_UNLINK, p, 0, -1, syscall(SYS_unlink, path)); }
int unlinkat(int d, const char* path, int flags)
{ int p = enabled && d == AT_FDCWD && !flags ? path_number(path) : -1;
  if (p < 0) return syscall(SYS_unlinkat, d, path, flags);
  SIMPLE(K_UNLINK, p, 0, -1, syscall(SYS_unlinkat, d, path, flags)); }
int rename(const char* a, const char* b)
{ int p = enabled ? path_number(b) : -1;
  if (p < 0) return syscall(SYS_rename, a, b);
  SIMPLE(K_RENAME, p, 0, -1, syscall(SYS_rename, a, b)); }
int renameat(int da, const char* a, int db, const char* b)
{ int p = enabled && db == AT_FDCWD ? path_number(b) : -1;
  if (p < 0) return syscall(SYS_renameat, da, a, db, b);
  SIMPLE(K_RENAME, p, 0, -1, syscall(SYS_renameat, da, a, db, b)); }
int mkdir(const char* path, mode_t m)
{ int p = enabled ? path_number(path) : -1;
  if (p < 0) return syscall(SYS_mkdir, path, m);
  SIMPLE(K_MKDIR, p, 1, -1, syscall(SYS_mkdir, path, m)); }
int mkdirat(int d, const char* path, mode_t m)
{ int p = enabled && d == AT_FDCWD ? path_number(path) : -1;
  if (p < 0) return syscall(SYS_mkdirat, d, path, m);
  SIMPLE(K_MKDIR, p, 1, -1, syscall(SYS_mkdirat, d, path, m)); }

/* Looking at names cannot fail here, but it is a point where other processes may run. */
#define LOOK(path) if (enabled && yield_fd >= 0 && path_number(path) >= 0) yield_point()
int stat(const char* path, struct stat* st)
{ NEXT(int, stat, (const char*, struct stat*)); LOOK(path); return p_stat(path, st); }
int stat64(const char* path, struct stat64* st)
{ NEXT(int, stat64, (const char*, struct stat64*)); LOOK(path); return p_stat64(path, st); }
int access(const char* path, int m) { LOOK(path); return syscall(SYS_access, path, m); }

/* ---------------------------------------------------------------- FILE streams */
typedef struct { int fd; FILE* fp; } Cookie;
#define NSTREAM 256
static Cookie* streams[NSTREAM];

static ssize_t ck_read(void* c, char* b, size_t n)
{ int fd = ((Cookie*)c)->fd; return tracked(fd) ? do_io(K_READ, fd, b, n, -1, 0) : raw_read(fd, b, n); }
/* glibc's own write loop goes on after a short write; an error ends it. */
static ssize_t ck_write(void* c, const char* b, size_t n)
{
    int fd = ((Cookie*)c)->fd;
    size_t done = 0;
    while (done < n) {
        ssize_t r = tracked(fd) ? do_io(K_WRITE, fd, (char*)b + done, n - done, -1, 0)
                                : raw_write(fd, b + done, n - done);
        if (r < 0) break;
        done += r;
    }
    return done;
}
static int ck_seek(void* c, off64_t* o, int whence)
{ off64_t r = lseek(((Cookie*)c)->fd, *o, whence); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c)
{
    Cookie* k = c;
    int fd = k->fd;
    for (int i = 0; i < NSTREAM; ++i) if (streams[i] == k) streams[i] = 0;
    free(k);
    return do_close(fd);
}

static FILE* do_fopen(const char* path, const char* mode, FILE* (*real)(const char*, const char*))
{
    if (!enabled || path_number(path) < 0) return real(path, mode);
    int slot = -1;
    for (int i = 0; i < NSTREAM; ++i) if (!streams[i]) { slot = i; break; }
    if (slot < 0) return real(path, mode);
    int flags = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') flags |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') flags |= O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) flags |= O_EXCL;
    if (strchr(mode, 'e')) flags |= O_CLOEXEC;
    int fd = do_open(AT_FDCWD, path, flags, 0666, 1);
    if (fd < 0) return 0;
    Cookie* k = malloc(sizeof(Cookie));
    k->fd = fd;
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    FILE* fp = fopencookie(k, mode, f);
    if (!fp) { free(k); do_close(fd); return 0; }
    /* the block size a real stream would use */
    setvbuf(fp, 0, _IOFBF, 4096);
    k->fp = fp;
    streams[slot] = k;
    return fp;
}
FILE* fopen(const char* path, const char* mode)
{ NEXT(FILE*, fopen, (const char*, const char*)); return do_fopen(path, mode, p_fopen); }
FILE* fopen64(const char* path, const char* mode)
{ NEXT(FILE*, fopen64, (const char*, const char*)); return do_fopen(path, mode, p_fopen64); }
int fileno(FILE* fp)
{
    for (int i = 0; i < NSTREAM; ++i) if (streams[i] && streams[i]->fp == fp) return streams[i]->fd;
    NEXT(int, fileno, (FILE*));
    return p_fileno(fp);
}
