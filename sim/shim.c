/* LD_PRELOAD seam between the simulated library and the operating system.
 *
 * Every file operation on a path below the run's scratch root is reported to a
 * callback (the Python scheduler) *before* it happens; the callback answers how
 * it ends: pass, at most N bytes (short transfer), or -errno.  Operations
 * outside the root, operations issued by the callback itself and operations
 * while the seam is disabled go straight to libc.  stdio streams opened by
 * C extensions (numpy.tofile / numpy.fromfile) are replaced by fopencookie
 * streams so that their transfers go through the same seam.
 * getrandom/getentropy deliver a seeded stream when sim_entropy() was called.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_TRUNC, OP_SYNC, OP_RENAME, OP_UNLINK };

typedef long (*sim_cb)(int op, int fid, long size, long pos, int flags);

#define MAXFD 4096
static volatile sim_cb cb;
static volatile int enabled;
static char root[4096];
static size_t rootlen;
static int fdfid[MAXFD];           /* fid+1, 0 = not tracked */
static int nextfid;
static __thread int busy;
static __thread int incookie;         /* transfer issued by a stdio stream: no EINTR there */
static int ent_on;
static uint64_t ent_state;
static long open_tracked;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    static void load_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)
REAL(FILE *, fdopen, int, const char *)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pread, int, void *, size_t, off_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(off_t, lseek, int, off_t, int)
REAL(int, close, int)
REAL(int, fcntl, int, int, ...)
REAL(int, fcntl64, int, int, ...)
REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(int, dup3, int, int, int)
REAL(int, ftruncate, int, off_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, rename, const char *, const char *)
REAL(int, unlink, const char *)
REAL(ssize_t, getrandom, void *, size_t, unsigned)
REAL(int, getentropy, void *, size_t)

void sim_config(const char *r, sim_cb c) {
    if (r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
    cb = c;
}
void sim_enable(int on) { enabled = on; }
int sim_enabled(void) { return enabled; }
void sim_reset(void) { nextfid = 0; memset(fdfid, 0, sizeof fdfid); open_tracked = 0; }
long sim_open_tracked(void) { return open_tracked; }
void sim_entropy(int on, uint64_t seed) { ent_on = on; ent_state = seed; }
void sim_busy(int on) { busy += on ? 1 : -1; }
int sim_fid_of(int fd) { return fd >= 0 && fd < MAXFD ? fdfid[fd] - 1 : -1; }

static int mine(const char *p) {
    if (!(enabled && !busy && cb && rootlen && p)) return 0;
    if (p[0] == '/') return strncmp(p, root, rootlen) == 0;
    char cwd[4096];                     /* relative to a directory below the scratch root */
    int e = errno;
    if (!getcwd(cwd, sizeof cwd - 1)) { errno = e; return 0; }
    strcat(cwd, "/");
    return strncmp(cwd, root, rootlen) == 0;
}
static int tracked(int fd) {
    return enabled && !busy && cb && fd >= 0 && fd < MAXFD && fdfid[fd];
}
static long ask(int op, int fid, long size, long pos, int flags) {
    int e = errno; long r;
    busy++;
    r = cb(op, fid, size, pos, flags);
    busy--;
    errno = e;
    return r;
}
static void track(int fd) { if (fd >= 0 && fd < MAXFD) { fdfid[fd] = ++nextfid; open_tracked++; } }
static void trackdup(int from, int to) {
    if (to >= 0 && to < MAXFD) { int f = from >= 0 && from < MAXFD ? fdfid[from] : 0;
        if (f) { if (!fdfid[to]) open_tracked++; fdfid[to] = f; } }
}

#define OPENBODY(callexpr) \
    int m = mine(path); \
    if (m) { long d = ask(OP_OPEN, nextfid, flags, 0, flags); if (d < 0) { errno = (int)-d; return -1; } } \
    int fd = callexpr; \
    if (m && fd >= 0) track(fd); \
    return fd;
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | 020000000)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }

int open(const char *path, int flags, ...) { load_open(); GETMODE; OPENBODY(real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { load_open64(); GETMODE; OPENBODY(real_open64(path, flags, mode)) }
int openat(int dir, const char *path, int flags, ...) { load_openat(); GETMODE; OPENBODY(real_openat(dir, path, flags, mode)) }
int openat64(int dir, const char *path, int flags, ...) { load_openat64(); GETMODE; OPENBODY(real_openat64(dir, path, flags, mode)) }

ssize_t read(int fd, void *b, size_t n) {
    load_read();
    if (tracked(fd)) { load_lseek();
        long d = ask(OP_READ, fdfid[fd] - 1, (long)n, real_lseek(fd, 0, SEEK_CUR), incookie);
        if (d < 0) { errno = (int)-d; return -1; }
        if ((size_t)d < n) n = (size_t)d;
    }
    return real_read(fd, b, n);
}
static ssize_t pread_(int fd, void *b, size_t n, off_t o) {
    load_pread();
    if (tracked(fd)) {
        long d = ask(OP_READ, fdfid[fd] - 1, (long)n, o, 0);
        if (d < 0) { errno = (int)-d; return -1; }
        if ((size_t)d < n) n = (size_t)d;
    }
    return real_pread(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread_(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread_(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    load_readv();
    if (tracked(fd) && c > 0) return read(fd, v[0].iov_base, v[0].iov_len);
    return real_readv(fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
    load_write();
    if (tracked(fd)) { load_lseek();
        long d = ask(OP_WRITE, fdfid[fd] - 1, (long)n, real_lseek(fd, 0, SEEK_CUR), incookie);
        if (d < 0) { errno = (int)-d; return -1; }
        if ((size_t)d < n) n = (size_t)d;
    }
    return real_write(fd, b, n);
}
static ssize_t pwrite_(int fd, const void *b, size_t n, off_t o) {
    load_pwrite();
    if (tracked(fd)) {
        long d = ask(OP_WRITE, fdfid[fd] - 1, (long)n, o, 0);
        if (d < 0) { errno = (int)-d; return -1; }
        if ((size_t)d < n) n = (size_t)d;
    }
    return real_pwrite(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite_(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite_(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    load_writev();
    if (tracked(fd) && c > 0) return write(fd, v[0].iov_base, v[0].iov_len);
    return real_writev(fd, v, c);
}
static off_t seek_(int fd, off_t o, int w) {
    load_lseek();
    if (tracked(fd)) {
        long d = ask(OP_SEEK, fdfid[fd] - 1, (long)o, w, 0);
        if (d < 0) { errno = (int)-d; return -1; }
    }
    return real_lseek(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return seek_(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return seek_(fd, o, w); }

static int truncate_(int fd, off_t n) {
    load_ftruncate();
    if (tracked(fd)) { long d = ask(OP_TRUNC, fdfid[fd] - 1, (long)n, 0, 0); if (d < 0) { errno = (int)-d; return -1; } }
    return real_ftruncate(fd, n);
}
int ftruncate(int fd, off_t n) { return truncate_(fd, n); }
int ftruncate64(int fd, off_t n) { return truncate_(fd, n); }
int fsync(int fd) { load_fsync();
    if (tracked(fd)) { long d = ask(OP_SYNC, fdfid[fd] - 1, 0, 0, 0); if (d < 0) { errno = (int)-d; return -1; } return 0; }
    return real_fsync(fd); }
int fdatasync(int fd) { load_fdatasync();
    if (tracked(fd)) { long d = ask(OP_SYNC, fdfid[fd] - 1, 0, 0, 0); if (d < 0) { errno = (int)-d; return -1; } return 0; }
    return real_fdatasync(fd); }

/* flags of the close report: number of descriptors that still share the file */
int close(int fd) {
    load_close();
    if (fd >= 0 && fd < MAXFD && fdfid[fd]) {
        int fid = fdfid[fd] - 1; long d = 0;
        if (tracked(fd)) d = ask(OP_CLOSE, fid, fd, 0, 0);
        fdfid[fd] = 0; open_tracked--;
        if (d < 0) {
            /* a failed close (EIO/ENOSPC at writeback) still releases the descriptor;
             * d below -100000 additionally loses the last -d/100000 - 1 bytes written */
            long lost = (-d) / 100000; int e = (int)((-d) % 100000);
            if (lost > 1) { struct stat st; load_ftruncate();
                if (!fstat(fd, &st)) { off_t k = st.st_size > lost - 1 ? st.st_size - (lost - 1) : 0;
                    if (real_ftruncate(fd, k)) {} } }
            real_close(fd);
            errno = e;
            return -1;
        }
    }
    return real_close(fd);
}
static int fcntl_common(int (*f)(int, int, ...), int fd, int cmd, void *arg) {
    int r = f(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) trackdup(fd, r);
    return r;
}
int fcntl(int fd, int cmd, ...) { load_fcntl(); va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return fcntl_common(real_fcntl, fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { load_fcntl64(); if (!real_fcntl64) { load_fcntl(); real_fcntl64 = real_fcntl; } va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return fcntl_common(real_fcntl64, fd, cmd, p); }
int dup(int fd) { load_dup(); int r = real_dup(fd); if (r >= 0) trackdup(fd, r); return r; }
int dup2(int fd, int to) { load_dup2(); if (to >= 0 && to < MAXFD && to != fd) fdfid[to] = 0; int r = real_dup2(fd, to); if (r >= 0) trackdup(fd, r); return r; }
int dup3(int fd, int to, int f) { load_dup3(); if (to >= 0 && to < MAXFD) fdfid[to] = 0; int r = real_dup3(fd, to, f); if (r >= 0) trackdup(fd, r); return r; }
int rename(const char *a, const char *b) { load_rename();
    if (mine(b)) { long d = ask(OP_RENAME, -1, 0, 0, 0); if (d < 0) { errno = (int)-d; return -1; } }
    return real_rename(a, b); }
int unlink(const char *a) { load_unlink();
    if (mine(a)) { long d = ask(OP_UNLINK, -1, 0, 0, 0); if (d < 0) { errno = (int)-d; return -1; } }
    return real_unlink(a); }

/* stdio: cookie streams over the seam's read/write/seek/close */
static ssize_t ck_read(void *c, char *b, size_t n) { incookie = 1; ssize_t r = read((int)(intptr_t)c, b, n); incookie = 0; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {                 /* like glibc's _IO_new_file_write */
        incookie = 1;
        ssize_t r = write((int)(intptr_t)c, b + done, n - done);
        incookie = 0;
        if (r < 0) break;
        done += (size_t)r;
    }
    return (ssize_t)done;              /* short count marks the stream in error */
}
static int ck_seek(void *c, off64_t *o, int w) {
    off_t r = seek_((int)(intptr_t)c, *o, w);
    if (r < 0) return -1;
    *o = r; return 0;
}
static int ck_close(void *c) { return close((int)(intptr_t)c); }
static FILE *cookie(int fd, const char *mode) {
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    FILE *s = fopencookie((void *)(intptr_t)fd, mode, f);
    return s;
}
FILE *fdopen(int fd, const char *mode) {
    load_fdopen();
    if (tracked(fd)) return cookie(fd, mode);
    return real_fdopen(fd, mode);
}
static int modeflags(const char *m) {
    int plus = strchr(m, '+') != 0;
    if (m[0] == 'r') return plus ? O_RDWR : O_RDONLY;
    if (m[0] == 'w') return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
}
static FILE *fopen_(const char *path, const char *mode) {
    int fd = open(path, modeflags(mode) | O_CLOEXEC, 0666);
    if (fd < 0) return NULL;
    return cookie(fd, mode);
}
FILE *fopen(const char *path, const char *mode) { load_fopen(); if (mine(path)) return fopen_(path, mode); return real_fopen(path, mode); }
FILE *fopen64(const char *path, const char *mode) { load_fopen64(); if (mine(path)) return fopen_(path, mode); return real_fopen64(path, mode); }

static uint64_t splitmix(void) {
    uint64_t z = (ent_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    load_getrandom();
    if (!ent_on) return real_getrandom(b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)splitmix();
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
    load_getentropy();
    if (!ent_on) return real_getentropy(b, n);
    return getrandom(b, n, 0) < 0 ? -1 : 0;
}
