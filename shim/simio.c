/* simio: the I/O half of the simulator.
 *
 * Interposes the libc entry points through which the code under test reaches the file system
 * (LD_PRELOAD for Python and Rust, preloaded or linked for the C++ drivers).  Only paths below the
 * active scratch prefix are simulated; everything else passes through untouched.
 *
 * One run = sim_begin(prefix) .. sim_end().  Every intercepted call gets a global operation index.
 * A plan (rules added with sim_rule) says what happens at which operation: an errno, a short or
 * torn write, a full disk, a failing stat/mmap/close, or a crash: the disk freezes with only the first
 * `arg` bytes of the operation applied, and everything the "dead" process does later has no effect.
 * With the scheduler on, every intercepted call is a yield point and a seeded choice (or a recorded
 * schedule) decides which simulated process runs next.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

enum { OPEN_R = 1, OPEN_W = 2, READ = 4, WRITE = 8, SEEK = 16, CLOSE = 32, STAT = 64, MKDIR = 128,
       MMAP = 256, UNLINK = 512, RENAME = 1024, OPENDIR = 2048, TRUNC = 4096, SYNC = 8192 };
enum { A_ERRNO = 1, A_SHORT = 2, A_CRASH = 3, A_TORN_ERR = 4, A_CORRUPT = 5 };

#define MAXFD 4096
#define MAXPROC 16
#define MAXRULE 64

struct rule { long index; int klass; int action; long arg; int err; long count; char sub[128]; long skip; long hits; };

static char g_prefix[512];
static size_t g_plen;
static volatile int g_on;
static long g_ops;                 /* operation counter of the run */
static struct rule g_rules[MAXRULE];
static int g_nrules;
static long g_capacity = -1;       /* bytes the "disk" still accepts, -1 = unlimited */
static int g_frozen[MAXPROC];      /* per simulated process: its disk is frozen (it crashed) */
static char* g_fdpath[MAXFD];
static int g_fdproc[MAXFD];
static char* g_log; static size_t g_loglen, g_logcap;
static long g_kind_count[32];      /* how often each fault kind fired */
static long g_mutations;           /* ops that changed the disk */
static __thread int t_proc;        /* simulated process of this thread */
static __thread int t_sched = -1;  /* scheduler slot, -1 = not scheduled */
static __thread int t_in;          /* reentrancy guard */

#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })

/* ---------------------------------------------------------------- log */
static void logf_(const char* fmt, ...)
{
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (g_loglen + n + 1 > g_logcap) {
        size_t nc = g_logcap ? g_logcap * 2 : 65536;
        while (nc < g_loglen + n + 1) nc *= 2;
        char* p = realloc(g_log, nc);
        if (!p) return;
        g_log = p; g_logcap = nc;
    }
    memcpy(g_log + g_loglen, buf, n + 1);
    g_loglen += n;
}

/* ---------------------------------------------------------------- scheduler */
#define MAXT 16
static pthread_mutex_t s_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t s_cv = PTHREAD_COND_INITIALIZER;
static int s_on, s_n, s_cur = -1, s_alive[MAXT], s_arrived;
static uint64_t s_rng; static int s_switch_permille;
static int* s_plan; static long s_plan_len, s_plan_pos;
static int s_trace[1 << 20]; static long s_trace_len;

static uint64_t rnd(void)
{
    s_rng ^= s_rng << 13; s_rng ^= s_rng >> 7; s_rng ^= s_rng << 17;
    return s_rng * 0x2545F4914F6CDD1Dull;
}
static int pick(int self)
{
    int alive[MAXT], n = 0;
    for (int i = 0; i < s_n; i++) if (s_alive[i]) alive[n++] = i;
    if (!n) return -1;
    int c;
    if (s_plan_len >= 0) {
        c = -1;
        if (s_plan_pos < s_plan_len) { c = s_plan[s_plan_pos]; }
        if (c < 0 || c >= s_n || !s_alive[c]) c = (self >= 0 && s_alive[self]) ? self : alive[0];
    } else if (self >= 0 && s_alive[self] && (int)(rnd() % 1000) >= s_switch_permille) c = self;
    else c = alive[rnd() % n];
    s_plan_pos++;
    if (s_trace_len < (long)(sizeof s_trace / sizeof *s_trace)) s_trace[s_trace_len++] = c;
    return c;
}
/* remote mode: this process is one of several simulated processes; the scheduler is the parent, which
 * lets it take one step at a time ('g') or kills it */
static int g_rin = -1, g_rout = -1;
void sim_remote(int out, int in) { g_rout = out; g_rin = in; }
static void remote_say(const char* tag, int klass, const char* path, const char* more)
{
    char b[900];
    int n = snprintf(b, sizeof b, "%s %d %s %s\n", tag, klass, path, more);
    if (n >= (int)sizeof b) { n = sizeof b; b[n - 1] = '\n'; }
    syscall(SYS_write, g_rout, b, n);
}
void thr_io_yield(void) __attribute__((weak));         /* thread simulator (cpp/thread_rt.c), if linked */
void* thr_mmap_hint(size_t) __attribute__((weak));
static void yield_point(int klass, const char* path)
{
    if (thr_io_yield) { thr_io_yield(); return; }
    if (g_rout >= 0) {
        char c = 0;
        remote_say("Y", klass, path + g_plen, "");
        if (syscall(SYS_read, g_rin, &c, 1) != 1 || c != 'g') _exit(137);
        return;
    }
    if (!s_on || t_sched < 0) return;
    pthread_mutex_lock(&s_mu);
    s_cur = pick(t_sched);
    if (s_cur != t_sched) {
        pthread_cond_broadcast(&s_cv);
        while (s_cur != t_sched) pthread_cond_wait(&s_cv, &s_mu);
    }
    pthread_mutex_unlock(&s_mu);
}
/* plan == NULL: seeded; otherwise replay of a recorded schedule */
void sim_sched_begin(int n, uint64_t seed, int switch_permille, const int* plan, long plan_len)
{
    s_n = n; s_rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!s_rng) s_rng = 1;
    for (int i = 0; i < 8; i++) rnd();
    s_switch_permille = switch_permille;
    free(s_plan); s_plan = NULL; s_plan_len = -1; s_plan_pos = 0;
    if (plan) {
        s_plan = malloc(sizeof(int) * (plan_len + 1)); memcpy(s_plan, plan, sizeof(int) * plan_len);
        s_plan_len = plan_len;
    }
    s_trace_len = 0; s_arrived = 0; s_cur = -1; s_on = 1;
    for (int i = 0; i < n; i++) s_alive[i] = 1;
}
void sim_thread_start(int slot)
{
    t_sched = slot; t_proc = slot;
    pthread_mutex_lock(&s_mu);
    s_arrived++;
    if (s_arrived == s_n) { s_cur = pick(-1); pthread_cond_broadcast(&s_cv); }
    while (s_cur != slot) pthread_cond_wait(&s_cv, &s_mu);
    pthread_mutex_unlock(&s_mu);
}
void sim_thread_end(void)
{
    pthread_mutex_lock(&s_mu);
    s_alive[t_sched] = 0;
    s_cur = pick(-1);
    t_sched = -1; t_proc = 0;
    pthread_cond_broadcast(&s_cv);
    pthread_mutex_unlock(&s_mu);
}
long sim_sched_end(void) { s_on = 0; return s_trace_len; }
const int* sim_sched_trace(void) { return s_trace; }

/* ---------------------------------------------------------------- run control */
void sim_begin(const char* prefix)
{
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix);
    g_plen = strlen(g_prefix);
    g_ops = 0; g_nrules = 0; g_capacity = -1; g_loglen = 0; g_mutations = 0;
    if (g_log) g_log[0] = 0;
    memset(g_frozen, 0, sizeof g_frozen);
    memset(g_kind_count, 0, sizeof g_kind_count);
    t_proc = 0;
    g_on = 1;
}
void sim_end(void) { g_on = 0; }
void sim_pause(int p) { if (g_plen) g_on = !p; }
void sim_proc(int p) { t_proc = p; }
void sim_capacity(long bytes) { g_capacity = bytes; }
void sim_rule(long index, int klass, const char* sub, long skip, int action, long arg, int err, long count)
{
    if (g_nrules >= MAXRULE) return;
    struct rule* r = &g_rules[g_nrules++];
    memset(r, 0, sizeof *r);
    r->index = index; r->klass = klass; r->action = action; r->arg = arg; r->err = err;
    r->count = count; r->skip = skip;
    snprintf(r->sub, sizeof r->sub, "%s", sub ? sub : "");
}
void sim_clear_rules(void) { g_nrules = 0; g_capacity = -1; }
void sim_thaw(void) { memset(g_frozen, 0, sizeof g_frozen); }
void sim_freeze(int p) { g_frozen[p] = 1; }
long sim_ops(void) { return g_ops; }
long sim_mutations(void) { return g_mutations; }
int sim_frozen(int p) { return g_frozen[p]; }
const char* sim_log(void) { return g_log ? g_log : ""; }
long sim_kind(int k) { return g_kind_count[k]; }

static int mine(const char* path)
{
    return g_on && path && g_plen && !t_in && strncmp(path, g_prefix, g_plen) == 0
           && (path[g_plen] == '/' || path[g_plen] == 0);
}
static const char* rel(const char* p) { return p[g_plen] ? p + g_plen + 1 : "."; }
static const char* fdp(int fd) { return g_on && !t_in && fd >= 0 && fd < MAXFD ? g_fdpath[fd] : NULL; }

/* decide what happens to this operation; returns matching rule or NULL */
static struct rule* step(int klass, const char* path, long* idx)
{
    yield_point(klass, path);
    *idx = g_ops++;
    struct rule* hit = NULL;
    for (int i = 0; i < g_nrules; i++) {
        struct rule* r = &g_rules[i];
        if (r->index >= 0) {
            if (*idx < r->index || *idx >= r->index + (r->count > 0 ? r->count : 1000000000L)) continue;
            if (r->klass && !(r->klass & klass)) continue;
        } else {
            if (!(r->klass & klass)) continue;
            if (r->sub[0] && !strstr(path, r->sub)) continue;
            long h = r->hits++;
            if (h < r->skip) continue;
            if (r->count > 0 && h >= r->skip + r->count) continue;
        }
        if (!hit) hit = r;
    }
    return hit;
}
static int frozen(int fd)
{
    int p = fd >= 0 && fd < MAXFD && g_fdpath[fd] ? g_fdproc[fd] : t_proc;
    return p >= 0 && p < MAXPROC && g_frozen[p];
}
static const char* kname(int k)
{
    switch (k) {
    case OPEN_R: return "open"; case OPEN_W: return "create"; case READ: return "read"; case WRITE: return "write";
    case SEEK: return "seek"; case CLOSE: return "close"; case STAT: return "stat"; case MKDIR: return "mkdir";
    case MMAP: return "mmap"; case UNLINK: return "unlink"; case RENAME: return "rename";
    case OPENDIR: return "opendir"; case TRUNC: return "truncate"; case SYNC: return "fsync"; }
    return "?";
}
static void note(long idx, int k, const char* path, long a, long res, const char* what)
{
    logf_("%ld %d %s %s %ld %ld%s%s\n", idx, t_proc, kname(k), rel(path), a, res, what[0] ? " !" : "", what);
}
/* generic "call either fails with an errno, crashes before taking effect, or happens" */
static int fail_simple(int klass, const char* path, long a, long* idx)
{
    struct rule* r = step(klass, path, idx);
    if (frozen(-1)) return 0;
    if (!r) return 0;
    if (r->action == A_CRASH) {
        g_frozen[t_proc] = 1; g_kind_count[A_CRASH]++;
        note(*idx, klass, path, a, 0, "CRASH");
        if (g_rout >= 0) { remote_say("C", klass, path + g_plen, "before"); _exit(137); }
        return 0;
    }
    if (r->action == A_ERRNO || r->action == A_TORN_ERR) {
        g_kind_count[r->err == EINTR ? 20 : A_ERRNO]++;
        char b[32]; snprintf(b, sizeof b, "errno=%d", r->err);
        note(*idx, klass, path, a, -1, b);
        errno = r->err;
        return -1;
    }
    return 0;
}

/* ---------------------------------------------------------------- open */
static void track(int fd, const char* path)
{
    if (fd < 0 || fd >= MAXFD) return;
    free(g_fdpath[fd]);
    g_fdpath[fd] = path ? strdup(path) : NULL;
    g_fdproc[fd] = t_proc;
}
static int real_open(const char* path, int flags, mode_t mode)
{
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
static int sim_open(const char* path, int flags, mode_t mode)
{
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    int k = w ? OPEN_W : OPEN_R;
    long idx;
    if (fail_simple(k, path, flags, &idx) < 0) return -1;
    if (frozen(-1) && w) {
        int fd = real_open("/dev/null", O_RDWR | (flags & O_CLOEXEC), 0);
        track(fd, path);
        return fd;
    }
    int fd = real_open(path, flags, mode);
    int e = errno;
    if (fd >= 0) { track(fd, path); if (w) g_mutations++; }
    note(idx, k, path, 0, fd < 0 ? -1 : 0, "");
    errno = e;
    return fd;
}
#define OPEN_BODY(NAME)                                                    \
    mode_t mode = 0;                                                       \
    if (flags & (O_CREAT | O_TMPFILE)) {                                   \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
    }
int open(const char* path, int flags, ...) { OPEN_BODY() if (mine(path)) return sim_open(path, flags, mode); return real_open(path, flags, mode); }
int open64(const char* path, int flags, ...) { OPEN_BODY() if (mine(path)) return sim_open(path, flags, mode); return real_open(path, flags, mode); }
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int openat(int d, const char* path, int flags, ...) { OPEN_BODY() if (mine(path)) return sim_open(path, flags, mode); return (int)syscall(SYS_openat, d, path, flags, mode); }
int openat64(int d, const char* path, int flags, ...) { OPEN_BODY() if (mine(path)) return sim_open(path, flags, mode); return (int)syscall(SYS_openat, d, path, flags, mode); }

static FILE* sim_fopen(const char* path, const char* m)
{
    int flags = 0, plus = strchr(m, '+') != NULL;
    if (m[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'e')) flags |= O_CLOEXEC;
    if (strchr(m, 'x')) flags |= O_EXCL;
    int fd = sim_open(path, flags, 0666);
    if (fd < 0) return NULL;
    return fdopen(fd, m);
}
FILE* fopen(const char* path, const char* m) { if (mine(path)) return sim_fopen(path, m); return REAL(fopen)(path, m); }
FILE* fopen64(const char* path, const char* m) { if (mine(path)) return sim_fopen(path, m); return REAL(fopen64)(path, m); }

static int close_fault(int fd, const char* p)
{
    long idx;
    int bad = fail_simple(CLOSE, p, 0, &idx) < 0 ? errno : 0;
    if (!frozen(fd) && !bad) note(idx, CLOSE, p, 0, 0, "");
    free(g_fdpath[fd]); g_fdpath[fd] = NULL;
    return bad;
}
int fclose(FILE* f)
{
    int fd = fileno(f);
    const char* p = fdp(fd);
    if (!p && fd >= 0 && fd < MAXFD && g_fdpath[fd] && !g_on) { free(g_fdpath[fd]); g_fdpath[fd] = NULL; }
    int bad = p ? close_fault(fd, p) : 0;
    int r = REAL(fclose)(f);
    if (bad) { errno = bad; return EOF; }
    return r;
}
int close(int fd)
{
    const char* p = fdp(fd);
    if (!p && fd >= 0 && fd < MAXFD && g_fdpath[fd] && !g_on) { free(g_fdpath[fd]); g_fdpath[fd] = NULL; }
    int bad = p ? close_fault(fd, p) : 0;
    int r = (int)syscall(SYS_close, fd);
    if (bad) { errno = bad; return -1; }
    return r;
}

/* ---------------------------------------------------------------- write */
static ssize_t raw_write(int fd, const void* b, size_t n, off_t off)
{
    return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
}
static ssize_t sim_write(int fd, const char* p, const char* b, size_t n, off_t off)
{
    long idx;
    struct rule* r = step(WRITE, p, &idx);
    if (frozen(fd)) return n;
    size_t lim = n; int err = 0; const char* what = "";
    char buf[64];
    if (r) switch (r->action) {
        case A_ERRNO: lim = 0; err = r->err; g_kind_count[err == EINTR ? 20 : A_ERRNO]++; snprintf(buf, sizeof buf, "errno=%d", err); what = buf; break;
        case A_TORN_ERR: lim = (size_t)r->arg < n ? (size_t)r->arg : n; err = r->err; g_kind_count[A_TORN_ERR]++;
            snprintf(buf, sizeof buf, "torn@%zu,errno=%d", lim, err); what = buf; break;
        case A_SHORT: if (n > 1) { lim = (size_t)r->arg < n ? (size_t)r->arg : n - 1; if (!lim) lim = 1; g_kind_count[A_SHORT]++; what = "short"; } break;
        case A_CRASH: lim = (size_t)r->arg < n ? (size_t)r->arg : n; g_kind_count[A_CRASH]++;
            snprintf(buf, sizeof buf, "CRASH@%zu", lim); what = buf; break;
    }
    if (g_capacity >= 0 && (long)lim > g_capacity && n) {
        lim = (size_t)g_capacity; g_kind_count[16]++;
        if (!lim) err = ENOSPC;
        what = "diskfull";
    }
    ssize_t w = 0;
    if (lim || !n) {
        w = raw_write(fd, b, lim, off);
        if (w > 0) { g_mutations++; if (g_capacity >= 0) g_capacity -= w; }
    }
    note(idx, WRITE, p, (long)n, err ? -1 : w, what);
    if (r && r->action == A_CRASH && g_rout >= 0) { remote_say("C", WRITE, p + g_plen, what); _exit(137); }
    if (r && r->action == A_CRASH) { g_frozen[g_fdproc[fd]] = 1; return n; }
    if (err) {
        /* like the kernel: a write which fails does not move the file offset */
        if (w > 0 && off < 0) syscall(SYS_lseek, fd, -w, SEEK_CUR);
        errno = err; return -1;
    }
    return w;
}
ssize_t write(int fd, const void* b, size_t n)
{
    const char* p = fdp(fd);
    return p ? sim_write(fd, p, b, n, -1) : syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off)
{
    const char* p = fdp(fd);
    return p ? sim_write(fd, p, b, n, off) : syscall(SYS_pwrite64, fd, b, n, off);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t off) { return pwrite(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
    const char* p = fdp(fd);
    if (!p) return syscall(SYS_writev, fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char* b = malloc(n + 1); size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = sim_write(fd, p, b, n, -1);
    int e = errno; free(b); errno = e;
    return r;
}

/* ---------------------------------------------------------------- read, seek, truncate, sync */
ssize_t read(int fd, void* b, size_t n)
{
    const char* p = fdp(fd);
    if (!p) return syscall(SYS_read, fd, b, n);
    long idx;
    struct rule* r = step(READ, p, &idx);
    if (r && !frozen(fd)) {
        if (r->action == A_ERRNO) { g_kind_count[r->err == EINTR ? 20 : A_ERRNO]++; note(idx, READ, p, n, -1, "errno"); errno = r->err; return -1; }
        if (r->action == A_SHORT && n > 1) { n = (size_t)r->arg < n && r->arg > 0 ? (size_t)r->arg : 1; g_kind_count[A_SHORT]++; }
    }
    ssize_t w = syscall(SYS_read, fd, b, n);
    note(idx, READ, p, n, w, "");
    return w;
}
static int fd_simple(int fd, int k, long a)  /* -1 errno set, 0 do it, 1 skip (frozen) */
{
    long idx; const char* p = g_fdpath[fd];
    if (fail_simple(k, p, a, &idx) < 0) return -1;
    if (frozen(fd)) return 1;
    note(idx, k, p, a, 0, "");
    return 0;
}
off_t lseek(int fd, off_t o, int wh)
{
    if (fdp(fd)) { int r = fd_simple(fd, SEEK, o); if (r < 0) return -1; if (r == 1) return wh == SEEK_SET ? o : 0; }
    return syscall(SYS_lseek, fd, o, wh);
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
int ftruncate(int fd, off_t l)
{
    if (fdp(fd)) { int r = fd_simple(fd, TRUNC, l); if (r < 0) return -1; if (r == 1) return 0; g_mutations++; }
    return (int)syscall(SYS_ftruncate, fd, l);
}
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int truncate(const char* path, off_t l)
{
    if (mine(path)) { long i; if (fail_simple(TRUNC, path, l, &i) < 0) return -1; if (frozen(-1)) return 0; note(i, TRUNC, path, l, 0, ""); g_mutations++; }
    return (int)syscall(SYS_truncate, path, l);
}
int truncate64(const char* path, off64_t l) { return truncate(path, l); }
int fsync(int fd) { if (fdp(fd)) { int r = fd_simple(fd, SYNC, 0); if (r) return r < 0 ? -1 : 0; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (fdp(fd)) { int r = fd_simple(fd, SYNC, 0); if (r) return r < 0 ? -1 : 0; } return (int)syscall(SYS_fdatasync, fd); }

/* ---------------------------------------------------------------- metadata */
int mkdir(const char* path, mode_t m)
{
    if (!mine(path)) return (int)syscall(SYS_mkdir, path, m);
    long idx;
    if (fail_simple(MKDIR, path, m, &idx) < 0) return -1;
    if (frozen(-1)) return 0;
    int r = (int)syscall(SYS_mkdir, path, m);
    int e = errno; if (!r) g_mutations++;
    note(idx, MKDIR, path, 0, r, ""); errno = e;
    return r;
}
int unlink(const char* path)
{
    if (!mine(path)) return (int)syscall(SYS_unlink, path);
    long idx;
    if (fail_simple(UNLINK, path, 0, &idx) < 0) return -1;
    if (frozen(-1)) return 0;
    int r = (int)syscall(SYS_unlink, path); int e = errno; if (!r) g_mutations++;
    note(idx, UNLINK, path, 0, r, ""); errno = e;
    return r;
}
int rmdir(const char* path)
{
    if (!mine(path)) return (int)syscall(SYS_rmdir, path);
    long idx;
    if (fail_simple(UNLINK, path, 0, &idx) < 0) return -1;
    if (frozen(-1)) return 0;
    int r = (int)syscall(SYS_rmdir, path); int e = errno; if (!r) g_mutations++;
    note(idx, UNLINK, path, 0, r, ""); errno = e;
    return r;
}
int remove(const char* path)
{
    if (!mine(path)) return REAL(remove)(path);
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) return rmdir(path);
    return unlink(path);
}
int rename(const char* a, const char* b)
{
    if (!mine(b) && !mine(a)) return (int)syscall(SYS_rename, a, b);
    long idx; const char* p = mine(b) ? b : a;
    if (fail_simple(RENAME, p, 0, &idx) < 0) return -1;
    if (frozen(-1)) return 0;
    int r = (int)syscall(SYS_rename, a, b); int e = errno; if (!r) g_mutations++;
    note(idx, RENAME, p, 0, r, ""); errno = e;
    return r;
}
static int stat_fault(const char* path, long* idx, int isfd)
{
    return fail_simple(STAT, path, isfd, idx);
}
#define STAT_FN(NAME, TYPE, FLAGS)                                                     \
    int NAME(const char* path, struct TYPE* st)                                        \
    {                                                                                  \
        long i = 0; int m = mine(path);                                                \
        if (m && stat_fault(path, &i, 0) < 0) return -1;                               \
        int r = (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, FLAGS);               \
        if (m && !frozen(-1)) { int e = errno; note(i, STAT, path, 0, r, ""); errno = e; } \
        return r;                                                                      \
    }
STAT_FN(stat, stat, 0)
STAT_FN(stat64, stat64, 0)
STAT_FN(lstat, stat, AT_SYMLINK_NOFOLLOW)
STAT_FN(lstat64, stat64, AT_SYMLINK_NOFOLLOW)
#define FSTATAT_FN(NAME, TYPE)                                                         \
    int NAME(int d, const char* path, struct TYPE* st, int fl)                         \
    {                                                                                  \
        long i = 0; int m = mine(path);                                                \
        if (m && stat_fault(path, &i, 0) < 0) return -1;                               \
        int r = (int)syscall(SYS_newfstatat, d, path, st, fl);                         \
        if (m && !frozen(-1)) { int e = errno; note(i, STAT, path, 0, r, ""); errno = e; } \
        return r;                                                                      \
    }
FSTATAT_FN(fstatat, stat)
FSTATAT_FN(fstatat64, stat64)
#define FSTAT_FN(NAME, TYPE)                                                           \
    int NAME(int fd, struct TYPE* st)                                                  \
    {                                                                                  \
        long i = 0; const char* p = fdp(fd);                                           \
        if (p && stat_fault(p, &i, 1) < 0) return -1;                                  \
        int r = (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);               \
        if (p && !frozen(fd)) { int e = errno; note(i, STAT, p, 1, r, ""); errno = e; } \
        return r;                                                                      \
    }
FSTAT_FN(fstat, stat)
FSTAT_FN(fstat64, stat64)
int statx(int d, const char* path, int fl, unsigned mask, struct statx* st)
{
    long i = 0; int m = mine(path);
    if (m && stat_fault(path, &i, 0) < 0) return -1;
    int r = (int)syscall(SYS_statx, d, path, fl, mask, st);
    if (m && !frozen(-1)) { int e = errno; note(i, STAT, path, 0, r, ""); errno = e; }
    return r;
}
int access(const char* path, int mode)
{
    long i = 0; int m = mine(path);
    if (m && stat_fault(path, &i, 0) < 0) return -1;
    int r = (int)syscall(SYS_access, path, mode);
    if (m && !frozen(-1)) { int e = errno; note(i, STAT, path, 0, r, ""); errno = e; }
    return r;
}
DIR* opendir(const char* path)
{
    if (mine(path)) {
        long idx;
        if (fail_simple(OPENDIR, path, 0, &idx) < 0) return NULL;
        if (!frozen(-1)) note(idx, OPENDIR, path, 0, 0, "");
    }
    return REAL(opendir)(path);
}

/* ---------------------------------------------------------------- mmap */
static void* sim_mmap(void* a, size_t l, int prot, int fl, int fd, off_t o)
{
    const char* p = fd >= 0 && !(fl & MAP_ANONYMOUS) ? fdp(fd) : NULL;
    if (p) {
        long idx;
        int keep = s_on; s_on = 0;   /* callers may hold an interpreter lock here: not a yield point */
        int bad = fail_simple(MMAP, p, (long)l, &idx) < 0;
        s_on = keep;
        if (bad) return MAP_FAILED;
        if (!frozen(fd)) note(idx, MMAP, p, (long)l, 0, "");
    }
    if (!a && thr_mmap_hint) a = thr_mmap_hint(l);
    return (void*)syscall(SYS_mmap, a, l, prot, fl, fd, o);
}
void* mmap(void* a, size_t l, int prot, int fl, int fd, off_t o) { return sim_mmap(a, l, prot, fl, fd, o); }
void* mmap64(void* a, size_t l, int prot, int fl, int fd, off64_t o) { return sim_mmap(a, l, prot, fl, fd, o); }

/* ---------------------------------------------------------------- clock and host name (SIM_CLOCK_SKEW, SIM_HOST) */
static long skew(void)
{
    static long v; static int known;
    if (!known) { const char* e = getenv("SIM_CLOCK_SKEW"); v = e ? atol(e) : 0; known = 1; }
    return v;
}
int clock_gettime(clockid_t c, struct timespec* t)
{
    int r = (int)syscall(SYS_clock_gettime, c, t);
    if (!r && c == CLOCK_REALTIME) t->tv_sec += skew();
    return r;
}
int gettimeofday(struct timeval* restrict t, void* restrict z)
{
    int r = (int)syscall(SYS_gettimeofday, t, z);
    if (!r) t->tv_sec += skew();
    return r;
}
time_t time(time_t* t)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
int gethostname(char* b, size_t n)
{
    const char* e = getenv("SIM_HOST");
    if (!e) return REAL(gethostname)(b, n);
    snprintf(b, n, "%s", e);
    return 0;
}
int uname(struct utsname* u)
{
    int r = (int)syscall(SYS_uname, u);
    const char* e = getenv("SIM_HOST");
    if (!r && e) snprintf(u->nodename, sizeof u->nodename, "%s", e);
    return r;
}
