// LD_PRELOAD seam for the simulator: seeded getrandom(), and storage operations below one
// scratch prefix with planned faults (errno, short reads, permuted directory order) and planned
// concurrent-writer actions executed immediately before the n-th matching operation.
// Inactive (pure pass-through) until armed through the exported shim_* functions.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(ret, name, args) \
    static ret (*real_##name) args = 0; \
    if (!real_##name) real_##name = (ret (*) args)dlsym(RTLD_NEXT, #name)

// ---------------------------------------------------------------- randomness
static volatile int rand_on = 0;
static uint64_t rand_state = 0;
static volatile long rand_calls = 0;
static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void shim_rand(int on, uint64_t seed) { rand_on = on; rand_state = seed; }
long shim_rand_calls(void) { return rand_calls; }
ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
    REAL(ssize_t, getrandom, (void *, size_t, unsigned int));
    if (!rand_on) return real_getrandom(buf, n, flags);
    rand_calls++;
    unsigned char *p = buf;
    size_t i = 0;
    while (i < n) {
        uint64_t v = splitmix(&rand_state);
        for (int k = 0; k < 8 && i < n; k++, i++) { p[i] = (unsigned char)v; v >>= 8; }
    }
    return (ssize_t)n;
}

// ---------------------------------------------------------------- storage
enum { C_OPEN = 1, C_STAT = 2, C_SCAN = 4, C_READDIR = 8, C_READ = 16 };
enum { A_FAIL = 1, A_SHORT = 2, A_RENAME = 3, A_UNLINK = 4, A_WRITE = 5, A_MKDIR = 6, A_RMDIR = 7 };
#define MAXPLAN 64
static struct plan { int mask, nth, count, action; long n; char a[512], b[512]; char *data; long dlen; int seen, fired; } plans[MAXPLAN];
static int nplans = 0;
static volatile int armed = 0;
static char prefix[512];
static size_t plen = 0;
static long opno = 0;
static uint64_t dirseed = 0;      // 0: keep the order of the file system
static char *logbuf = 0;
static size_t loglen = 0, logcap = 0;
static __thread int inside = 0;

static void logf_(const char *fmt, ...) {
    char line[1024];
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(line, sizeof line, fmt, ap);
    va_end(ap);
    if (k < 0) return;
    if (k >= (int)sizeof line) k = sizeof line - 1;
    if (loglen + k + 1 > logcap) { logcap = (logcap + k + 1) * 2 + 4096; logbuf = realloc(logbuf, logcap); }
    memcpy(logbuf + loglen, line, k);
    loglen += k;
    logbuf[loglen] = 0;
}
void shim_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
void shim_clear(void) { for (int i = 0; i < nplans; i++) free(plans[i].data); memset(plans, 0, sizeof plans); nplans = 0; opno = 0; loglen = 0; if (logbuf) logbuf[0] = 0; }
void shim_dirseed(uint64_t s) { dirseed = s; }
void shim_arm(int on) { armed = on; }
int shim_fired(int i) { return i < nplans ? plans[i].fired : 0; }
long shim_ops(void) { return opno; }
const char *shim_log(void) { return logbuf ? logbuf : ""; }
int shim_plan(int mask, int nth, int count, int action, long n, const char *a, const char *b, const char *data, long dlen) {
    if (nplans >= MAXPLAN) return -1;
    struct plan *p = &plans[nplans];
    memset(p, 0, sizeof *p);
    p->mask = mask; p->nth = nth; p->count = count; p->action = action; p->n = n;
    if (a) strncpy(p->a, a, sizeof p->a - 1);
    if (b) strncpy(p->b, b, sizeof p->b - 1);
    if (data) { p->data = malloc(dlen + 1); memcpy(p->data, data, dlen); p->dlen = dlen; }
    return nplans++;
}

#define MAXFD 4096
static char *fdpath[MAXFD];
static int under(const char *p) { return plen && p && !strncmp(p, prefix, plen) && (p[plen] == '/' || p[plen] == 0); }

static void do_action(struct plan *p) {
    int e = errno, r = 0;
    switch (p->action) {
    case A_RENAME: r = rename(p->a, p->b); break;
    case A_UNLINK: r = unlink(p->a); break;
    case A_MKDIR: r = mkdir(p->a, 0755); break;
    case A_RMDIR: r = rmdir(p->a); break;
    case A_WRITE: {
        REAL(int, open64, (const char *, int, ...));
        int fd = real_open64(p->a, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (fd < 0) { r = -1; break; }
        long off = 0;
        while (off < p->dlen) { ssize_t k = write(fd, p->data + off, p->dlen - off); if (k <= 0) break; off += k; }
        REAL(int, close, (int));
        real_close(fd);
        break; }
    }
    logf_("   writer action=%d %s %s r=%d\n", p->action, p->a + (under(p->a) ? plen : 0), p->b[0] && under(p->b) ? p->b + plen : "", r);
    errno = e;
}

// Called before each storage operation below the prefix. Returns the plan index of a fault to
// apply to this operation, or -1.
static int step(int cls, const char *name, const char *path) {
    int hit = -1;
    inside++;
    opno++;
    logf_("%ld %s %s\n", opno, name, under(path) ? path + plen : path);
    for (int i = 0; i < nplans; i++) {
        struct plan *p = &plans[i];
        if (!(p->mask & cls)) continue;
        if (p->b[0] && p->action <= A_SHORT && !strstr(path, p->b)) continue;   // b: substring filter for faults
        int k = p->seen++;
        if (k < p->nth || k >= p->nth + p->count) continue;
        p->fired++;
        if (p->action >= A_RENAME) do_action(p);
        else if (hit < 0) hit = i;
    }
    if (hit >= 0) logf_("   fault action=%d n=%ld\n", plans[hit].action, plans[hit].n);
    inside--;
    return hit;
}
#define ACTIVE (armed && !inside)
#define FAULT_ERRNO(h, failval) if ((h) >= 0 && plans[h].action == A_FAIL) { errno = (int)plans[h].n; return failval; }

static void track(int fd, const char *path) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = path ? strdup(path) : 0;
}
static const char *fdp(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
static const char *atpath(int dirfd, const char *path, char *buf) {
    if (!path) return 0;
    if (path[0] == '/') return path;
    if (dirfd == AT_FDCWD) { // relative to the cwd
        if (!getcwd(buf, 512)) return 0;
        strncat(buf, "/", 1023 - strlen(buf)); strncat(buf, path, 1023 - strlen(buf));
        return buf;
    }
    const char *d = fdp(dirfd);
    if (!d) return 0;
    snprintf(buf, 1024, "%s/%s", d, path);
    return buf;
}

static int open_common(int (*fn)(const char *, int, ...), const char *path, int flags, mode_t mode, const char *full, const char *name) {
    int h = step(C_OPEN, name, full);
    FAULT_ERRNO(h, -1);
    int fd = fn(path, flags, mode);
    if (fd >= 0) track(fd, full);
    return fd;
}
#define OPENLIKE(fname) \
int fname(const char *path, int flags, ...) { \
    REAL(int, fname, (const char *, int, ...)); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    if (!ACTIVE) return real_##fname(path, flags, mode); \
    char buf[1024]; const char *full = atpath(AT_FDCWD, path, buf); \
    if (!under(full)) return real_##fname(path, flags, mode); \
    return open_common(real_##fname, path, flags, mode, full, "open"); \
}
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(fname) \
int fname(int dirfd, const char *path, int flags, ...) { \
    REAL(int, fname, (int, const char *, int, ...)); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    if (!ACTIVE) return real_##fname(dirfd, path, flags, mode); \
    char buf[1024]; const char *full = atpath(dirfd, path, buf); \
    if (!under(full)) return real_##fname(dirfd, path, flags, mode); \
    int h = step(C_OPEN, "openat", full); \
    FAULT_ERRNO(h, -1); \
    int fd = real_##fname(dirfd, path, flags, mode); \
    if (fd >= 0) track(fd, full); \
    return fd; \
}
OPENATLIKE(openat)
OPENATLIKE(openat64)

int close(int fd) {
    REAL(int, close, (int));
    if (!inside && fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, 0);
    return real_close(fd);
}
#define READLIKE(fname, decl, call, lenexpr) \
ssize_t fname decl { \
    REAL(ssize_t, fname, decl); \
    if (!ACTIVE || !fdp(fd)) return real_##fname call; \
    int h = step(C_READ, "read", fdp(fd)); \
    FAULT_ERRNO(h, -1); \
    if (h >= 0 && plans[h].action == A_SHORT && n > (size_t)plans[h].n && plans[h].n > 0) n = plans[h].n; \
    return real_##fname call; \
}
READLIKE(read, (int fd, void *buf, size_t n), (fd, buf, n), n)
READLIKE(pread64, (int fd, void *buf, size_t n, off64_t o), (fd, buf, n, o), n)

#define STATLIKE(fname, stype) \
int fname(const char *path, struct stype *st) { \
    REAL(int, fname, (const char *, struct stype *)); \
    if (!ACTIVE) return real_##fname(path, st); \
    char buf[1024]; const char *full = atpath(AT_FDCWD, path, buf); \
    if (!under(full)) return real_##fname(path, st); \
    int h = step(C_STAT, "stat", full); \
    FAULT_ERRNO(h, -1); \
    return real_##fname(path, st); \
}
STATLIKE(stat, stat)
STATLIKE(stat64, stat64)
STATLIKE(lstat, stat)
STATLIKE(lstat64, stat64)
int fstatat64(int dirfd, const char *path, struct stat64 *st, int flags) {
    REAL(int, fstatat64, (int, const char *, struct stat64 *, int));
    if (!ACTIVE) return real_fstatat64(dirfd, path, st, flags);
    char buf[1024]; const char *full = atpath(dirfd, path, buf);
    if (!under(full)) return real_fstatat64(dirfd, path, st, flags);
    int h = step(C_STAT, "fstatat", full);
    FAULT_ERRNO(h, -1);
    return real_fstatat64(dirfd, path, st, flags);
}
int fstat64(int fd, struct stat64 *st) {
    REAL(int, fstat64, (int, struct stat64 *));
    if (!ACTIVE || !fdp(fd)) return real_fstat64(fd, st);
    int h = step(C_STAT, "fstat", fdp(fd));
    FAULT_ERRNO(h, -1);
    return real_fstat64(fd, st);
}
int access(const char *path, int mode) {
    REAL(int, access, (const char *, int));
    if (!ACTIVE) return real_access(path, mode);
    char buf[1024]; const char *full = atpath(AT_FDCWD, path, buf);
    if (!under(full)) return real_access(path, mode);
    int h = step(C_STAT, "access", full);
    FAULT_ERRNO(h, -1);
    return real_access(path, mode);
}

// Directory streams: the whole directory is read at the first readdir (what another process does
// afterwards is not seen by this scan, as the kernel allows) and handed out in a seeded order.
#define MAXDIR 64
static struct dirst { DIR *d; char path[512]; struct dirent64 *e; int n, pos, loaded; } dirs[MAXDIR];
static struct dirst *finddir(DIR *d) { for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) return &dirs[i]; return 0; }
static void adddir(DIR *d, const char *full) {
    if (!d) return;
    for (int i = 0; i < MAXDIR; i++) if (!dirs[i].d) {
        memset(&dirs[i], 0, sizeof dirs[i]);
        dirs[i].d = d; strncpy(dirs[i].path, full, 511);
        return;
    }
}
DIR *opendir(const char *path) {
    REAL(DIR *, opendir, (const char *));
    if (!ACTIVE) return real_opendir(path);
    char buf[1024]; const char *full = atpath(AT_FDCWD, path, buf);
    if (!under(full)) return real_opendir(path);
    int h = step(C_SCAN, "opendir", full);
    FAULT_ERRNO(h, NULL);
    inside++;
    DIR *d = real_opendir(path);
    inside--;
    adddir(d, full);
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, (int));
    if (!ACTIVE || !fdp(fd)) return real_fdopendir(fd);
    int h = step(C_SCAN, "fdopendir", fdp(fd));
    FAULT_ERRNO(h, NULL);
    char full[1024]; snprintf(full, sizeof full, "%s", fdp(fd));
    inside++;
    DIR *d = real_fdopendir(fd);
    inside--;
    adddir(d, full);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, (DIR *));
    struct dirst *s = d ? finddir(d) : 0;
    if (!s || !ACTIVE) return real_readdir64(d);
    int h = step(C_READDIR, "readdir", s->path);
    FAULT_ERRNO(h, NULL);
    if (!s->loaded) {
        s->loaded = 1;
        struct dirent64 *e;
        int cap = 0;
        inside++;
        while ((e = real_readdir64(d))) {
            if (s->n == cap) { cap = cap * 2 + 16; s->e = realloc(s->e, cap * sizeof *s->e); }
            s->e[s->n++] = *e;
        }
        inside--;
        // canonical order first (the file system's own order is not ours to rely on), then a seeded one
        for (int i = 1; i < s->n; i++) for (int j = i; j > 0 && strcmp(s->e[j - 1].d_name, s->e[j].d_name) > 0; j--) {
            struct dirent64 t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t;
        }
        if (dirseed) {
            uint64_t st = dirseed;
            for (const char *c = s->path + (under(s->path) ? plen : 0); *c; c++) st = st * 31 + (unsigned char)*c;
            for (int i = s->n - 1; i > 0; i--) {
                int j = splitmix(&st) % (i + 1);
                struct dirent64 t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
            }
        }
    }
    errno = 0;
    if (s->pos >= s->n) return NULL;
    return &s->e[s->pos++];
}
int closedir(DIR *d) {
    REAL(int, closedir, (DIR *));
    struct dirst *s = d ? finddir(d) : 0;
    if (s) { free(s->e); memset(s, 0, sizeof *s); }
    return real_closedir(d);
}
