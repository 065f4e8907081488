// File-system seam of the co-simulation simulator (LD_PRELOADed into the check's own Python).
//
// Every file operation below a scratch root is an event of the simulated execution. When armed, the
// simulator decides at a given event: kill the process (before, after or in the middle of it), fail it
// with an errno, fill the disk from there on, cut a write short, interrupt it, lose the data which was
// not yet flushed when a file is closed, or let "someone else" be faster. Directory listings are
// returned in a seeded order. Operations which would modify anything outside of the scratch root are
// refused and recorded.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN_R, OP_CREATE, OP_WRITE, OP_CLOSE, OP_UNLINK, OP_RMDIR, OP_MKDIR, OP_RENAME, OP_LISTDIR,
       OP_TRUNC, OP_SYNC, OP_N };
enum { M_NONE, M_KILL_BEFORE, M_KILL_AFTER, M_TORN, M_ERR, M_FULL, M_SHORT, M_EINTR, M_SIGINT, M_RACED,
       M_LATE };

#define LOGN 200000
typedef struct {
    int armed;
    int mode;
    int fired;              // 0 or 1 + op at which the fault fired
    int err;
    int64_t target;         // event index at which the fault becomes due
    int64_t arg;
    uint64_t seed;          // of directory orders
    int64_t events;
    int64_t fired_at;
    int64_t escapes;
    int64_t errors;         // error results returned
    int64_t written;        // bytes written
    int64_t counts[16];
    char escape_path[512];
    char root[512];
    char fired_path[512];
    uint8_t log[LOGN];
} state_t;

static state_t *S;
static char fdw[4096];
static off_t fdbase[4096];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void *fs_state(void) {
    if (!S) {
        S = mmap(0, sizeof(state_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset(S, 0, sizeof *S);
    }
    return S;
}
void fs_fresh(void) { S = 0; memset(fdw, 0, sizeof fdw); fs_state(); }
void fs_arm(const char *root, int mode, int64_t target, int err, int64_t arg, uint64_t seed) {
    fs_state();
    memset(S, 0, offsetof(state_t, log));
    strncpy(S->root, root, sizeof S->root - 1);
    S->mode = mode; S->target = target; S->err = err; S->arg = arg; S->seed = seed;
    memset(fdw, 0, sizeof fdw);
    S->armed = 1;
}
void fs_disarm(void) { if (S) S->armed = 0; }
void fs_pause(int on) { if (S && S->root[0]) S->armed = !on; }      // the harness itself is at work
int64_t fs_get(int what) {
    if (!S) return 0;
    switch (what) {
        case 0: return S->events;
        case 1: return S->fired;
        case 2: return S->fired_at;
        case 3: return S->escapes;
        case 4: return S->errors;
        case 5: return S->written;
        default: return what >= 100 && what < 116 ? S->counts[what - 100] : 0;
    }
}
const char *fs_str(int what) { return what ? S->escape_path : S->fired_path; }
const uint8_t *fs_log(void) { return S->log; }

// Absolute, physical path of (dirfd, path): the parent directory is resolved, the last part is not.
static int where(int dirfd, const char *path, char *out) {
    char tmp[PATH_MAX * 2], link[64];
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else if (dirfd == AT_FDCWD) {
        if (!getcwd(tmp, PATH_MAX)) return -1;
        strcat(tmp, "/"); strncat(tmp, path, PATH_MAX - 2);
    } else {
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, tmp, PATH_MAX - 1);
        if (n < 0) return -1;
        tmp[n] = 0; strcat(tmp, "/"); strncat(tmp, path, PATH_MAX - 2);
    }
    size_t l = strlen(tmp);
    while (l > 1 && tmp[l - 1] == '/') tmp[--l] = 0;
    char *s = strrchr(tmp, '/');
    char real[PATH_MAX];
    if (s == tmp) { snprintf(out, PATH_MAX, "%s", tmp); return 0; }
    *s = 0;
    if (!realpath(tmp, real)) snprintf(real, sizeof real, "%s", tmp);
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", real, s + 1);
    return 0;
}
static int inside(const char *p) {
    size_t n = strlen(S->root);
    return strncmp(p, S->root, n) == 0 && (p[n] == '/' || p[n] == 0);
}
static int ignored(const char *p) { return strstr(p, "__pycache__") != 0; }

// Returns 0: go on; 1: fail with errno; 2: perform, then die; 3: lose data (close); 4: perform, then fail.
static int event(int op, const char *path) {
    int64_t n = S->events++;
    if (n < LOGN) S->log[n] = (uint8_t)op;
    S->counts[op]++;
    if (n < S->target || S->mode == M_NONE) return 0;
    if (S->fired && S->mode != M_FULL) return 0;
    int due = 0, res = 0;
    static const int errs[OP_N][4] = {
        {EIO, EMFILE, EACCES, ENFILE}, {ENOSPC, EMFILE, EACCES, EIO}, {ENOSPC, EIO, EDQUOT, EFBIG},
        {EIO, EIO, EIO, EIO}, {EIO, EACCES, EBUSY, EROFS}, {EBUSY, EIO, EACCES, ENOTEMPTY},
        {ENOSPC, EIO, EACCES, EROFS}, {EIO, ENOSPC, EACCES, EROFS}, {EIO, EMFILE, EACCES, ENOMEM},
        {EIO, ENOSPC, EROFS, EINVAL}, {EIO, EIO, EIO, EIO}};
    switch (S->mode) {
        case M_KILL_BEFORE: S->fired = 1 + op; S->fired_at = n; strncpy(S->fired_path, path, 511); _exit(137);
        case M_KILL_AFTER: due = 1; res = 2; break;
        case M_TORN: if (op == OP_WRITE) { due = 1; res = 2; } break;
        case M_ERR: if (op != OP_CLOSE) { due = 1; res = 1; errno = errs[op][S->err & 3]; } break;
        case M_FULL: if (op == OP_WRITE || op == OP_MKDIR) { due = 1; res = 1; errno = S->err & 1 ? EDQUOT : ENOSPC; } break;
        case M_SHORT: if (op == OP_WRITE) { due = 1; res = 5; } break;
        case M_EINTR: if (op == OP_WRITE || op == OP_CREATE || op == OP_OPEN_R) { due = 1; res = 1; errno = EINTR; } break;
        case M_SIGINT: due = 1; res = 6; break;
        case M_RACED: if (op == OP_UNLINK || op == OP_RMDIR) { due = 1; res = 4; errno = ENOENT; } break;
        case M_LATE: if (op == OP_CLOSE) { due = 1; res = 3; errno = EIO; } break;
    }
    if (due) {
        if (!S->fired) { S->fired = 1 + op; S->fired_at = n; strncpy(S->fired_path, path, 511); }
        if (res == 1 || res == 4 || res == 3) S->errors++;
        if (res == 6) { raise(SIGINT); return 0; }
        return res;
    }
    return 0;
}
static int escape(const char *p) {
    S->escapes++;
    strncpy(S->escape_path, p, 511);
    errno = EACCES;
    return -1;
}
static int exempt(const char *p) { return strncmp(p, "/dev/", 5) == 0 ? strncmp(p, "/dev/shm", 8) != 0 : strncmp(p, "/proc/", 6) == 0; }

static int do_open(int (*fn)(int, const char *, int, mode_t), int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX];
    if (!S || !S->armed || where(dirfd, path, p)) return fn(dirfd, path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!inside(p)) {
        if (wr && !exempt(p)) return escape(p);
        return fn(dirfd, path, flags, mode);
    }
    if (ignored(p)) return fn(dirfd, path, flags, mode);
    int r = event(flags & O_DIRECTORY ? OP_LISTDIR : wr ? OP_CREATE : OP_OPEN_R, p);
    if (r == 1) return -1;
    int fd = fn(dirfd, path, flags, mode);
    if (fd >= 0 && fd < 4096) {
        fdw[fd] = wr ? 1 : 0;
        if (wr) { struct stat st; fdbase[fd] = fstat(fd, &st) ? 0 : st.st_size; }
    }
    if (r == 2) _exit(137);
    return fd;
}
static int raw_openat(int d, const char *p, int f, mode_t m) {
    REAL(int, openat64, int, const char *, int, ...);
    return real_openat64(d, p, f, m);
}
#define GETMODE mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *p, int f, ...) { GETMODE return do_open(raw_openat, AT_FDCWD, p, f, m); }
int open(const char *p, int f, ...) { GETMODE return do_open(raw_openat, AT_FDCWD, p, f, m); }
int openat64(int d, const char *p, int f, ...) { GETMODE return do_open(raw_openat, d, p, f, m); }
int openat(int d, const char *p, int f, ...) { GETMODE return do_open(raw_openat, d, p, f, m); }
int creat64(const char *p, mode_t m) { return do_open(raw_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat(const char *p, mode_t m) { return creat64(p, m); }

static int watched(int fd) { return S && S->armed && fd >= 0 && fd < 4096 && fdw[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!watched(fd)) return real_write(fd, b, n);
    int r = event(OP_WRITE, "(write)");
    if (r == 1) {
        // A full disk takes what still fits.
        if (S->mode == M_FULL && S->fired_at == S->events - 1 && n > 1 && S->arg % 2) {
            ssize_t k = real_write(fd, b, 1 + (size_t)(S->arg % (int64_t)(n - 1)));
            if (k > 0) { S->written += k; return k; }
        }
        return -1;
    }
    if (r == 2) {
        size_t k = n;
        if (S->mode == M_TORN && n) k = (size_t)(S->arg % (int64_t)n);
        if (k) { ssize_t d = real_write(fd, b, k); (void)d; }
        _exit(137);
    }
    if (r == 5 && n > 1) n = 1 + (size_t)(S->arg % (int64_t)(n - 1));
    ssize_t k = real_write(fd, b, n);
    if (k > 0) S->written += k;
    return k;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!watched(fd)) return real_writev(fd, v, c);
    return c ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    if (watched(fd)) {
        int r = event(OP_WRITE, "(pwrite)");
        if (r == 1) return -1;
        if (r == 2) _exit(137);
    }
    return real_pwrite64(fd, b, n, o);
}
int close(int fd) {
    REAL(int, close, int);
    if (!watched(fd)) return real_close(fd);
    int r = event(OP_CLOSE, "(close)");
    fdw[fd] = 0;
    if (r == 3) {
        // Delayed write-back fails: part of what was written since the file was opened is lost.
        struct stat st;
        if (!fstat(fd, &st) && st.st_size > fdbase[fd]) {
            off_t keep = fdbase[fd] + (st.st_size - fdbase[fd]) * (S->arg % 100) / 100;
            int e = ftruncate(fd, keep); (void)e;
        }
        real_close(fd);
        errno = EIO;
        return -1;
    }
    int e = real_close(fd);
    if (r == 2) _exit(137);
    return e;
}
int fsync(int fd) {
    REAL(int, fsync, int);
    if (watched(fd)) { int r = event(OP_SYNC, "(fsync)"); if (r == 1) return -1; if (r == 2) _exit(137); }
    return real_fsync(fd);
}
int fdatasync(int fd) {
    REAL(int, fdatasync, int);
    if (watched(fd)) { int r = event(OP_SYNC, "(fdatasync)"); if (r == 1) return -1; if (r == 2) _exit(137); }
    return real_fdatasync(fd);
}
int ftruncate64(int fd, off_t l) {
    REAL(int, ftruncate64, int, off_t);
    if (watched(fd)) { int r = event(OP_TRUNC, "(ftruncate)"); if (r == 1) return -1; int e = real_ftruncate64(fd, l); if (r == 2) _exit(137); return e; }
    return real_ftruncate64(fd, l);
}
ssize_t sendfile64(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
    if (watched(out)) { int r = event(OP_WRITE, "(sendfile)"); if (r == 1) return -1; ssize_t k = real_sendfile64(out, in, o, n > 1 && (r == 2 || r == 5) ? 1 + (size_t)(S->arg % (int64_t)(n > 4096 ? 4096 : n)) : n); if (r == 2) _exit(137); return k; }
    return real_sendfile64(out, in, o, n);
}
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
    if (watched(out)) { int r = event(OP_WRITE, "(copy_file_range)"); if (r == 1) return -1; ssize_t k = real_copy_file_range(in, oi, out, oo, n, f); if (r == 2) _exit(137); return k; }
    return real_copy_file_range(in, oi, out, oo, n, f);
}

#define MUT(op, dirfd, path, call) do { \
        char p_[PATH_MAX]; \
        if (!S || !S->armed || where(dirfd, path, p_)) return call; \
        if (!inside(p_)) { if (exempt(p_)) return call; return escape(p_); } \
        if (ignored(p_)) return call; \
        int r_ = event(op, p_); \
        if (r_ == 1) return -1; \
        int e_ = call; \
        if (r_ == 2) _exit(137); \
        if (r_ == 4) { errno = ENOENT; return -1; } \
        return e_; \
    } while (0)

int unlink(const char *p) { REAL(int, unlink, const char *); MUT(OP_UNLINK, AT_FDCWD, p, real_unlink(p)); }
int unlinkat(int d, const char *p, int f) {
    REAL(int, unlinkat, int, const char *, int);
    MUT(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, p, real_unlinkat(d, p, f));
}
int remove(const char *p) { REAL(int, remove, const char *); MUT(OP_UNLINK, AT_FDCWD, p, real_remove(p)); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); MUT(OP_RMDIR, AT_FDCWD, p, real_rmdir(p)); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); MUT(OP_MKDIR, AT_FDCWD, p, real_mkdir(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); MUT(OP_MKDIR, d, p, real_mkdirat(d, p, m)); }
int truncate64(const char *p, off_t l) { REAL(int, truncate64, const char *, off_t); MUT(OP_TRUNC, AT_FDCWD, p, real_truncate64(p, l)); }
int symlink(const char *t, const char *p) { REAL(int, symlink, const char *, const char *); MUT(OP_CREATE, AT_FDCWD, p, real_symlink(t, p)); }
int link(const char *t, const char *p) { REAL(int, link, const char *, const char *); MUT(OP_CREATE, AT_FDCWD, p, real_link(t, p)); }

static int both(int d1, const char *a, int d2, const char *b) {
    char p1[PATH_MAX], p2[PATH_MAX];
    if (where(d1, a, p1) || where(d2, b, p2)) return 0;
    if (!inside(p1)) return escape(p1);
    if (!inside(p2)) return escape(p2);
    return 0;
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (S && S->armed && both(AT_FDCWD, a, AT_FDCWD, b)) return -1;
    MUT(OP_RENAME, AT_FDCWD, b, real_rename(a, b));
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (S && S->armed && both(d1, a, d2, b)) return -1;
    MUT(OP_RENAME, d2, b, real_renameat(d1, a, d2, b));
}

// ---- directory order ----
typedef struct slurp { DIR *d; struct dirent64 *e; size_t n, i; struct slurp *next; } slurp_t;
static slurp_t *dirs;
static uint64_t mix(uint64_t h, const char *s) {
    h ^= 0x9e3779b97f4a7c15ull;
    while (*s) { h ^= (uint8_t)*s++; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h;
}
static int cmp(const void *a, const void *b) {
    const struct dirent64 *x = a, *y = b;
    uint64_t hx = mix(S->seed, x->d_name), hy = mix(S->seed, y->d_name);
    return hx < hy ? -1 : hx > hy ? 1 : strcmp(x->d_name, y->d_name);
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char q[PATH_MAX];
    if (S && S->armed && !where(AT_FDCWD, p, q) && inside(q) && !ignored(q)) {
        int r = event(OP_LISTDIR, q);
        if (r == 1) return 0;
        if (r == 2) _exit(137);
    }
    return real_opendir(p);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    if (!S || !S->armed) return real_readdir64(d);
    slurp_t *s = dirs;
    while (s && s->d != d) s = s->next;
    if (!s) {
        s = calloc(1, sizeof *s);
        s->d = d; s->next = dirs; dirs = s;
        size_t cap = 0;
        struct dirent64 *e;
        errno = 0;
        while ((e = real_readdir64(d))) {
            if (s->n == cap) s->e = realloc(s->e, (cap = cap ? cap * 2 : 64) * sizeof *e);
            memcpy(&s->e[s->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        if (s->n) qsort(s->e, s->n, sizeof *s->e, cmp);
    }
    if (s->i < s->n) return &s->e[s->i++];
    errno = 0;
    return 0;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
static void forget(DIR *d) {
    for (slurp_t **p = &dirs; *p; p = &(*p)->next)
        if ((*p)->d == d) { slurp_t *s = *p; *p = s->next; free(s->e); free(s); return; }
}
void rewinddir(DIR *d) { REAL(void, rewinddir, DIR *); forget(d); real_rewinddir(d); }
int closedir(DIR *d) { REAL(int, closedir, DIR *); forget(d); return real_closedir(d); }
