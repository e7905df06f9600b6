/* libsim: the operating-system seam of the simulator.
 *
 * LD_PRELOADed into the check process.  Inert until a control block is attached
 * and activated; then, for paths below the run's scratch root, every file
 * operation is numbered in shared memory, may be the point where the scheduler
 * preempts the process, and may be made to fail, tear or crash according to the
 * run's fault plan.  Also: virtual wall clock and sleep, directory enumeration
 * order, getrandom() and erand48() streams.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN_R, K_OPEN_W, K_READ, K_WRITE, K_CLOSE_W, K_MKDIR, K_RENAME,
       K_UNLINK, K_RMDIR, K_FSYNC, K_OPENDIR, K_LINE, K_TASK, K_LINK, K_NKINDS = 16 };
enum { A_NONE, A_ERRNO, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN, A_EINTR,
       A_STALL, A_KILLSELF, A_RAISE, A_SHORTREAD };

#define NPLAN 16
#define NJUMP 16
#define NLOG 6000
#define PATHLEN 104

struct plan { uint32_t kind, nth, action, arg, fired, sub; };
struct jump { uint32_t at; uint32_t fired; int64_t delta; };
struct ent { uint8_t kind, act; uint16_t who; uint32_t no; char path[PATHLEN]; };

struct ctl {
    uint32_t active, rel_ok, rootlen, nplan;
    char root[256];
    uint64_t opno;
    uint32_t kcount[K_NKINDS];
    struct plan plans[NPLAN];
    uint32_t clock_on, clock_reads, njumps, pad0;
    int64_t now_ns, tick_ns;
    struct jump jumps[NJUMP];
    uint32_t rand_mode, rand_calls;
    uint64_t rand_state;
    uint32_t dir_on, pad1;
    uint64_t dir_seed;
    uint64_t rnd_state;               /* getrandom */
    uint32_t log_on, nlog;
    uint32_t maxops, overrun;
    uint32_t stalls, pad2;
    uint64_t slept_ns;
    struct ent log[NLOG];
};

static struct ctl *C;
static int who, y_rfd = -1, y_wfd = -1;
static int64_t budget = -1;           /* <0: no preemption */
static uint32_t pending_raise;
static unsigned char fdflag[4096];    /* 1 tracked, 2 opened for writing, 4 dead (next write fails) */

#define REAL(name) ({ static __typeof__(&name) _f; if (!_f) _f = dlsym(RTLD_NEXT, #name); _f; })

size_t sim_ctl_size(void) { return sizeof(struct ctl); }
size_t sim_off(const char *f) {
#define O(x) if (!strcmp(f, #x)) return __builtin_offsetof(struct ctl, x)
    O(active); O(rel_ok); O(rootlen); O(nplan); O(root); O(opno); O(kcount); O(plans);
    O(clock_on); O(clock_reads); O(njumps); O(now_ns); O(tick_ns); O(jumps);
    O(rand_mode); O(rand_calls); O(rand_state); O(dir_on); O(dir_seed); O(rnd_state);
    O(log_on); O(nlog); O(log); O(maxops); O(overrun); O(stalls); O(slept_ns);
    return (size_t)-1;
}
void sim_attach(void *p) { C = p; }
void sim_process(int w, int rfd, int wfd) { who = w; y_rfd = rfd; y_wfd = wfd; budget = -1; pending_raise = 0; }
void sim_budget(int64_t b) { budget = b; }
void sim_fds_clear(void) { memset(fdflag, 0, sizeof fdflag); }

static void die_group(void) {
    syscall(SYS_kill, 0, SIGKILL);
    for (;;) pause();
}

static void full_write(int fd, const void *b, size_t n) {
    const char *p = b;
    while (n) { ssize_t k = syscall(SYS_write, fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(97); } p += k; n -= k; }
}
static int full_read(int fd, void *b, size_t n) {
    char *p = b;
    while (n) { ssize_t k = syscall(SYS_read, fd, p, n); if (k == 0) return 0; if (k < 0) { if (errno == EINTR) continue; return 0; } p += k; n -= k; }
    return 1;
}

/* A preemption point: give the processor back to the scheduler when the slice is used up. */
static void maybe_yield(int kind) {
    if (y_wfd < 0 || budget < 0) return;
    if (budget > 0) { budget--; return; }
    unsigned char m[5] = {'Y', (unsigned char)kind, 0, 0, 0};
    full_write(y_wfd, m, 5);
    unsigned char r[9];
    if (!full_read(y_rfd, r, 9)) _exit(98);
    int64_t b; memcpy(&b, r + 1, 8);
    budget = b;
}

/* Number the operation; return the planned action (A_NONE mostly). */
static uint32_t op(int kind, const char *path, uint32_t *arg) {
    if (!C || !C->active) return A_NONE;
    int save = errno;
    maybe_yield(kind);
    C->opno++;
    if (C->maxops && C->opno > C->maxops) C->overrun = 1;
    uint32_t n = C->kcount[kind]++;
    uint32_t act = A_NONE;
    for (uint32_t i = 0; i < C->nplan && i < NPLAN; i++) {
        struct plan *p = &C->plans[i];
        if (p->kind == (uint32_t)kind && p->nth == n && !p->fired) {
            if (p->action == A_KILLSELF && !who) { p->nth++; continue; }   /* workers only */ act = p->action; *arg = p->arg; p->fired = 1; p->sub = who; break; }
    }
    if (C->log_on && kind != K_LINE && C->nlog < NLOG) {
        struct ent *e = &C->log[C->nlog++];
        e->kind = kind; e->act = act; e->who = who; e->no = n;
        const char *s = path ? path : "";
        if (!strncmp(s, C->root, C->rootlen)) s += C->rootlen;
        size_t l = strlen(s); if (l >= PATHLEN) s += l - PATHLEN + 1;
        strncpy(e->path, s, PATHLEN - 1); e->path[PATHLEN - 1] = 0;
    }
    if (act == A_STALL) { C->now_ns += (int64_t)*arg * 1000000000LL; C->stalls++; act = A_NONE; }
    else if (act == A_CRASH_BEFORE) die_group();
    else if (act == A_KILLSELF) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    else if (act == A_RAISE) { pending_raise = *arg; act = A_NONE; }
    errno = save;
    return act;
}

/* Called from Python: line events (K_LINE) and task boundaries (K_TASK). Nonzero: raise this. */
int sim_point(int kind) {
    uint32_t arg = 0;
    pending_raise = 0;
    uint32_t a = op(kind, "", &arg);
    if (a == A_CRASH_AFTER) die_group();
    return (int)pending_raise;
}

static int under(const char *p) {
    if (!C || !C->active || !p) return 0;
    if (p[0] != '/') return C->rel_ok;
    return C->rootlen && !strncmp(p, C->root, C->rootlen);
}
static void track(int fd, int wr) { if (fd >= 0 && fd < 4096) fdflag[fd] = 1 | (wr ? 2 : 0); }
static int tr(int fd) { return C && C->active && fd >= 0 && fd < 4096 && (fdflag[fd] & 1); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!under(path) || (dirfd != AT_FDCWD && path[0] != '/')) {
        int fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0 && fd < 4096) fdflag[fd] = 0;
        return fd;
    }
    if (flags & O_DIRECTORY) return syscall(SYS_openat, dirfd, path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    uint32_t arg = 0, a = op(wr ? K_OPEN_W : K_OPEN_R, path, &arg);
    if (a == A_ERRNO) { errno = arg; return -1; }
    if (a == A_EINTR) { errno = EINTR; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (a == A_CRASH_AFTER) die_group();
    track(fd, wr);
    return fd;
}
#define OPENBODY(DIRFD) va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(DIRFD, path, flags, m)
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int openat(int dirfd, const char *path, int flags, ...) { OPENBODY(dirfd); }
int openat64(int dirfd, const char *path, int flags, ...) { OPENBODY(dirfd); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *path, const char *mode, FILE *(*real)(const char *, const char *)) {
    if (!under(path)) { FILE *f = real(path, mode); if (f && fileno(f) < 4096) fdflag[fileno(f)] = 0; return f; }
    int wr = strpbrk(mode, "wa+") != NULL;
    uint32_t arg = 0, a = op(wr ? K_OPEN_W : K_OPEN_R, path, &arg);
    if (a == A_ERRNO || a == A_EINTR) { errno = a == A_ERRNO ? (int)arg : EACCES; return NULL; }
    FILE *f = real(path, mode);
    if (a == A_CRASH_AFTER) die_group();
    if (f) track(fileno(f), wr);
    return f;
}
FILE *fopen(const char *path, const char *mode) { return do_fopen(path, mode, REAL(fopen)); }
FILE *fopen64(const char *path, const char *mode) { return do_fopen(path, mode, REAL(fopen64)); }

ssize_t write(int fd, const void *buf, size_t n) {
    if (!tr(fd)) return syscall(SYS_write, fd, buf, n);
    if (fdflag[fd] & 4) { errno = ENOSPC; return -1; }
    uint32_t arg = 0, a = op(K_WRITE, "", &arg);
    if (a == A_ERRNO) { errno = arg; return -1; }
    if (a == A_EINTR) { errno = EINTR; return -1; }
    if (a == A_SHORT && n > 1) { size_t k = n * (arg % 100) / 100; if (!k) k = 1; fdflag[fd] |= 4; return syscall(SYS_write, fd, buf, k); }
    if (a == A_TORN) { size_t k = n * (arg % 100) / 100; if (k) full_write(fd, buf, k); die_group(); }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (a == A_CRASH_AFTER) die_group();
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    if (tr(fd)) {
        uint32_t arg = 0, a = op(K_WRITE, "", &arg);
        if (a == A_ERRNO) { errno = arg; return -1; }
        if (a == A_TORN || a == A_CRASH_AFTER) { syscall(SYS_pwrite64, fd, buf, a == A_TORN ? n / 2 : n, o); die_group(); }
    }
    return syscall(SYS_pwrite64, fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return pwrite(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (tr(fd)) {
        uint32_t arg = 0, a = op(K_WRITE, "", &arg);
        if (a == A_ERRNO) { errno = arg; return -1; }
        if (a == A_TORN || a == A_CRASH_AFTER) { syscall(SYS_writev, fd, v, a == A_TORN ? (c > 1 ? c - 1 : 0) : c); die_group(); }
    }
    return syscall(SYS_writev, fd, v, c);
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) {
    int fd = f ? fileno(f) : -1;
    if (!tr(fd)) return REAL(fwrite)(p, sz, n, f);
    if (fdflag[fd] & 4) { errno = ENOSPC; return 0; }
    uint32_t arg = 0, a = op(K_WRITE, "", &arg);
    if (a == A_ERRNO) { errno = arg; return 0; }
    if (a == A_SHORT) { fdflag[fd] |= 4; size_t k = n / 2; if (k) REAL(fwrite)(p, sz, k, f); errno = ENOSPC; return k; }
    if (a == A_TORN) { size_t k = n * (arg % 100) / 100; if (k) REAL(fwrite)(p, sz, k, f); fflush(f); die_group(); }
    size_t r = REAL(fwrite)(p, sz, n, f);
    if (a == A_CRASH_AFTER) { fflush(f); die_group(); }
    return r;
}
int fclose(FILE *f) {
    int fd = f ? fileno(f) : -1;
    if (tr(fd)) {
        if (fdflag[fd] & 2) { 
            uint32_t arg = 0, a = op(K_CLOSE_W, "", &arg);
            if (a == A_ERRNO) {               /* the buffered end cannot be written */
                struct stat st;
                fflush(f);
                if (!fstat(fd, &st) && S_ISREG(st.st_mode) && ftruncate(fd, st.st_size / 2)) { }
            }
            int r = REAL(fclose)(f);
            fdflag[fd] = 0;
            if (a == A_ERRNO) { errno = arg; return EOF; }
            if (a == A_CRASH_AFTER) die_group();
            return r;
        }
        fdflag[fd] = 0;
    }
    return REAL(fclose)(f);
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!tr(fd)) return syscall(SYS_read, fd, buf, n);
    uint32_t arg = 0, a = op(K_READ, "", &arg);
    if (a == A_ERRNO) { errno = arg; return -1; }
    if (a == A_EINTR) { errno = EINTR; return -1; }
    if (a == A_SHORTREAD && n > 1) { n = n * (1 + arg % 60) / 100; if (!n) n = 1; }
    return syscall(SYS_read, fd, buf, n);
}
int close(int fd) {
    if (tr(fd)) {
        unsigned char fl = fdflag[fd];
        fdflag[fd] = 0;
        if (fl & 2) {
            uint32_t arg = 0, a = op(K_CLOSE_W, "", &arg);
            if (a == A_ERRNO) {               /* write-back failed: the end of the file is lost */
                struct stat st;
                if (!fstat(fd, &st) && S_ISREG(st.st_mode) && ftruncate(fd, st.st_size / 2)) { }
            }
            int r = syscall(SYS_close, fd);
            if (a == A_CRASH_AFTER) die_group();
            if (a == A_ERRNO) { errno = arg; return -1; }
            return r;
        }
    }
    return syscall(SYS_close, fd);
}
static int fcntl_any(int fd, int cmd, long arg) {
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < 4096) fdflag[r] = (fd >= 0 && fd < 4096) ? fdflag[fd] : 0;
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_any(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_any(fd, cmd, a); }
int dup(int fd) { int r = syscall(SYS_dup, fd); if (r >= 0 && r < 4096) fdflag[r] = (fd >= 0 && fd < 4096) ? fdflag[fd] : 0; return r; }
int dup2(int fd, int t) { int r = REAL(dup2)(fd, t); if (r >= 0 && r < 4096) fdflag[r] = (fd >= 0 && fd < 4096) ? fdflag[fd] : 0; return r; }
int fsync(int fd) {
    if (tr(fd)) { uint32_t arg = 0, a = op(K_FSYNC, "", &arg); if (a == A_ERRNO) { errno = arg; return -1; } }
    return syscall(SYS_fsync, fd);
}
int mkdir(const char *path, mode_t m) {
    if (under(path)) {
        uint32_t arg = 0, a = op(K_MKDIR, path, &arg);
        if (a == A_ERRNO) { errno = arg; return -1; }
        int r = syscall(SYS_mkdir, path, m); int e = errno;
        if (a == A_CRASH_AFTER) die_group();
        errno = e; return r;
    }
    return syscall(SYS_mkdir, path, m);
}
int rename(const char *o, const char *n) {
    if (under(n)) {
        uint32_t arg = 0, a = op(K_RENAME, n, &arg);
        if (a == A_ERRNO) { errno = arg; return -1; }
        int r = syscall(SYS_rename, o, n); int e = errno;
        if (a == A_CRASH_AFTER) die_group();
        errno = e; return r;
    }
    return syscall(SYS_rename, o, n);
}
int renameat(int a, const char *o, int b, const char *n) { if (a == AT_FDCWD && b == AT_FDCWD) return rename(o, n); return syscall(SYS_renameat, a, o, b, n); }
int unlink(const char *p) {
    if (under(p)) {
        uint32_t arg = 0, a = op(K_UNLINK, p, &arg);
        if (a == A_ERRNO) { errno = arg; return -1; }
        int r = syscall(SYS_unlink, p); int e = errno;
        if (a == A_CRASH_AFTER) die_group();
        errno = e; return r;
    }
    return syscall(SYS_unlink, p);
}
int rmdir(const char *p) {
    if (under(p)) { uint32_t arg = 0, a = op(K_RMDIR, p, &arg); if (a == A_ERRNO) { errno = arg; return -1; } }
    return syscall(SYS_rmdir, p);
}
int symlink(const char *t, const char *p) {
    if (under(p)) { uint32_t arg = 0, a = op(K_LINK, p, &arg); if (a == A_ERRNO) { errno = arg; return -1; } }
    return syscall(SYS_symlink, t, p);
}

/* ---- directory enumeration order ---- */
struct shuf { DIR *d; int n, i, cap; struct dirent *e; struct shuf *next; };
static struct shuf *shufs;
static uint64_t splitmix(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static int cmpname(const void *a, const void *b) { return strcmp(((const struct dirent *)a)->d_name, ((const struct dirent *)b)->d_name); }
static struct dirent *real_readdir(DIR *d) { return (struct dirent *)REAL(readdir64)(d); }
static void shuf_open(DIR *d, const char *path) {
    struct shuf *s = calloc(1, sizeof *s);
    s->d = d;
    struct dirent *e;
    while ((e = real_readdir(d))) {
        if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 32; s->e = realloc(s->e, s->cap * sizeof *s->e); }
        s->e[s->n++] = *e;
    }
    qsort(s->e, s->n, sizeof *s->e, cmpname);
    if (C->dir_seed) {
        uint64_t h = C->dir_seed;
        const char *p = path + (strncmp(path, C->root, C->rootlen) ? 0 : C->rootlen);
        while (*p) h = h * 1099511628211ULL + (unsigned char)*p++;
        for (int i = s->n - 1; i > 0; i--) { int j = splitmix(&h) % (i + 1); struct dirent t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t; }
    }
    s->next = shufs; shufs = s;
}
DIR *opendir(const char *path) {
    if (under(path)) {
        uint32_t arg = 0, a = op(K_OPENDIR, path, &arg);
        if (a == A_ERRNO) { errno = arg; return NULL; }
    }
    DIR *d = REAL(opendir)(path);
    if (d && under(path) && C->dir_on) shuf_open(d, path);
    return d;
}
static struct dirent *do_readdir(DIR *d, int *hit) {
    for (struct shuf *s = shufs; s; s = s->next) if (s->d == d) { *hit = 1; return s->i < s->n ? &s->e[s->i++] : NULL; }
    *hit = 0; return NULL;
}
struct dirent *readdir(DIR *d) { int h; struct dirent *e = do_readdir(d, &h); return h ? e : real_readdir(d); }
struct dirent64 *readdir64(DIR *d) { int h; struct dirent *e = do_readdir(d, &h); return (struct dirent64 *)(h ? e : real_readdir(d)); }
int closedir(DIR *d) {
    for (struct shuf **pp = &shufs; *pp; pp = &(*pp)->next) if ((*pp)->d == d) { struct shuf *s = *pp; *pp = s->next; free(s->e); free(s); break; }
    return REAL(closedir)(d);
}

/* ---- time ---- */
static void clock_step(void) {
    uint32_t n = C->clock_reads++;
    C->now_ns += C->tick_ns;
    for (uint32_t i = 0; i < C->njumps && i < NJUMP; i++) if (C->jumps[i].at == n) { C->now_ns += C->jumps[i].delta; C->jumps[i].fired = 1; }
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (C && C->active && C->clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        clock_step(); ts->tv_sec = C->now_ns / 1000000000LL; ts->tv_nsec = C->now_ns % 1000000000LL; return 0;
    }
    return REAL(clock_gettime)(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (C && C->active && C->clock_on) { clock_step(); tv->tv_sec = C->now_ns / 1000000000LL; tv->tv_usec = C->now_ns % 1000000000LL / 1000; return 0; }
    return REAL(gettimeofday)(tv, tz);
}
time_t time(time_t *t) {
    if (C && C->active && C->clock_on) { clock_step(); time_t v = C->now_ns / 1000000000LL; if (t) *t = v; return v; }
    return REAL(time)(t);
}
int64_t sim_now(void) { return C ? C->now_ns : 0; }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
    if (C && C->active && C->clock_on) {
        /* CPython sleeps on an absolute CLOCK_MONOTONIC deadline */
        int64_t ns = rq->tv_sec * 1000000000LL + rq->tv_nsec;
        if (fl & TIMER_ABSTIME) { struct timespec n; REAL(clock_gettime)(id, &n); ns -= n.tv_sec * 1000000000LL + n.tv_nsec; }
        if (ns > 0) { ns = (ns + 999999) / 1000000 * 1000000; C->now_ns += ns; C->slept_ns += ns; }
        return 0;
    }
    return REAL(clock_nanosleep)(id, fl, rq, rm);
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (C && C->active && C->clock_on) { int64_t ns = rq->tv_sec * 1000000000LL + rq->tv_nsec; C->now_ns += ns; C->slept_ns += ns; return 0; }
    return REAL(nanosleep)(rq, rm);
}

/* ---- randomness ---- */
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (C && C->active) { unsigned char *p = buf; for (size_t i = 0; i < n; i++) p[i] = splitmix(&C->rnd_state) >> 24; return n; }
    return syscall(SYS_getrandom, buf, n, fl);
}
double erand48(unsigned short x[3]) {
    if (!C || !C->active || !C->rand_mode) return REAL(erand48)(x);
    C->rand_calls++;
    double u = (double)(splitmix(&C->rand_state) >> 11) / 9007199254740992.0;
    switch (C->rand_mode) {
    case 1: return u;
    case 2: return u * 1e-9;                       /* always the low end */
    case 3: return 1.0 - 1.0 / 9007199254740992.0 * (1 + (C->rand_state & 7)); /* always the high end */
    case 4: return (C->rand_calls & 1) ? u * 1e-6 : 1.0 - u * 1e-6 - 1e-15;
    case 5: return 0.5 * u + 0.25;
    default: { static const double g = 0.6180339887498949; double v = g * C->rand_calls; return v - (uint64_t)v; }
    }
}
