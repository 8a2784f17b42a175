/* Thread simulator: the instrumentation runtime of programs compiled with -fsanitize=thread (and linked
 * without it).  Every instrumented memory access, atomic, lock and file operation is a point at which a
 * seeded scheduler may switch threads; exactly one thread runs at any time.  A vector clock race detector
 * watches every access, freed memory is never reused, and locks are simulated so that deadlocks show. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#ifdef THR_FUTEX
/* programs whose locks wait in the kernel directly (the Rust library): syscall is interposed below */
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
#define RAW6(n, a, b, c, d, e, f, ...) raw_syscall((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define rsyscall(...) RAW6(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)
#else
#define rsyscall syscall
#endif

#define MAXT 7
enum { UNUSED, RUNNABLE, BLOCKED, DONE };
struct thr {
    int id, state, ignore, prio;
    volatile int go;
    void* wait;
    uint32_t vc[MAXT];
    char *lo, *hi;
    pthread_t handle;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    uint32_t stack[64];
    int depth;
};
static struct thr g_thr[MAXT];
static int g_nthr;
static __thread struct thr* self __attribute__((tls_model("initial-exec")));
static int g_on;
static struct thr* g_cur;
static uint64_t g_step, g_since, g_budget = 200000000;
extern char __executable_start;

/* ---------------------------------------------------------------- findings */
static int g_rt;          /* the runtime itself is at work */
static char g_found[4096];
static int g_nfound;
static void found(const char* fmt, ...)
{
    if (g_nfound++ >= 4) return;
    g_rt++;
    va_list ap; va_start(ap, fmt);
    size_t n = strlen(g_found);
    vsnprintf(g_found + n, sizeof g_found - n, fmt, ap);
    va_end(ap);
    n = strlen(g_found);
    if (n + 2 < sizeof g_found) strcpy(g_found + n, "\n");
    g_rt--;
}
const char* thr_found(void) { return g_found; }
static void put(const char* s)
{
    size_t n = strlen(s);
    while (n) { long k = rsyscall(SYS_write, 1, s, n); if (k <= 0) _exit(3); s += k; n -= k; }
}
static void print_plan(void);
static void fatal(const char* fmt, ...)
{
    char b[2048];
    g_rt++;
    va_list ap; va_start(ap, fmt);
    int n = snprintf(b, sizeof b, "@fatal ");
    n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
    va_end(ap);
    strcpy(b + (n < (int)sizeof b - 2 ? n : (int)sizeof b - 2), "\n");
    put(g_found);
    put(b);
    print_plan();
    _exit(9);
}

/* ---------------------------------------------------------------- random and plan */
static uint64_t g_rng = 1;
static uint64_t rnd(void)
{
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return g_rng * 0x2545F4914F6CDD1Dull;
}
static int g_mode;                       /* 0 random, 1 priorities, 2 plan */
static uint64_t g_pmem, g_psync;         /* switch probability, in 2^-32 */
static uint64_t g_change[64]; static int g_nchange, g_changed; static int g_low;
static uint64_t* g_plan; static long g_nplan, g_planpos;
#define MAXTRACE 20000
static uint64_t g_tr_step[MAXTRACE]; static int g_tr_to[MAXTRACE]; static long g_ntr; static uint64_t g_switches, g_sig = 1469598103934665603ull;

void thr_schedule(int mode, uint64_t seed, uint64_t pmem, uint64_t psync, int changes, uint64_t horizon)
{
    g_mode = mode; g_pmem = pmem; g_psync = psync;
    g_rng = seed * 0x9E3779B97F4A7C15ull + 0x7654321; if (!g_rng) g_rng = 1;
    for (int i = 0; i < 8; i++) rnd();
    if (changes > 64) changes = 64;
    g_nchange = changes; g_changed = 0;
    for (int i = 0; i < changes; i++) g_change[i] = rnd() % (horizon ? horizon : 1);
    for (int i = 0; i < changes; i++)
        for (int j = i + 1; j < changes; j++)
            if (g_change[j] < g_change[i]) { uint64_t t = g_change[i]; g_change[i] = g_change[j]; g_change[j] = t; }
}
void thr_plan(const uint64_t* p, long n)
{
    g_mode = 2; g_planpos = 0; g_nplan = n;
    g_plan = malloc(sizeof(uint64_t) * (n + 1));
    for (long i = 0; i < n; i++) g_plan[i] = p[i];
}
static void print_plan(void)
{
    char b[80];
    snprintf(b, sizeof b, "@steps %llu %llu %llu\n", (unsigned long long)g_step, (unsigned long long)g_switches, (unsigned long long)g_sig);
    put(b);
    if (g_ntr >= MAXTRACE) { put("@plan -\n"); return; }
    size_t cap = g_ntr * 24 + 32, n = 0;
    char* o = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    n += snprintf(o, cap, "@plan");
    for (long i = 0; i < g_ntr; i++) n += snprintf(o + n, cap - n, " %llu:%d", (unsigned long long)g_tr_step[i], g_tr_to[i]);
    snprintf(o + n, cap - n, "\n");
    put(o);
}
void thr_report(void) { put(g_found); print_plan(); }

/* ---------------------------------------------------------------- scheduler */
static void fwait(volatile int* f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) rsyscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); *f = 0; }
static void fwake(volatile int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); rsyscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static struct thr* best(void)
{
    struct thr* b = NULL;
    for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].state == RUNNABLE && (!b || g_thr[i].prio > b->prio)) b = &g_thr[i];
    return b;
}
static struct thr* any(struct thr* not)
{
    struct thr* c[MAXT]; int n = 0;
    for (int i = 0; i < g_nthr; i++) if (g_thr[i].state == RUNNABLE && &g_thr[i] != not) c[n++] = &g_thr[i];
    return n ? c[rnd() % n] : NULL;
}
static void who_waits(void)
{
    char b[512]; int n = 0;
    for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].state == BLOCKED) n += snprintf(b + n, sizeof b - n, " thread %d waits", i);
    fatal("deadlock: no thread can run;%s", b);
}
/* forced: the running thread cannot go on */
static void reschedule(int sync, int forced, int hint)
{
    struct thr *me = self, *next = me;
    uint64_t step = ++g_step;
    if (step > g_budget) fatal("livelock: no end after %llu steps", (unsigned long long)step);
    if (g_mode == 2) {
        while (g_planpos < g_nplan && g_plan[2 * g_planpos] < step) g_planpos++;
        if (g_planpos < g_nplan && g_plan[2 * g_planpos] == step) {
            uint64_t t = g_plan[2 * g_planpos++ + 1];
            if (t < (uint64_t)g_nthr && g_thr[t].state == RUNNABLE) next = &g_thr[t];
        }
        if (next->state != RUNNABLE || (hint && next == me)) {
            struct thr* o = NULL;
            for (int k = 1; k <= g_nthr && !o; k++) { struct thr* c = &g_thr[(me->id + k) % g_nthr]; if (c->state == RUNNABLE && c != me) o = c; }
            if (o) next = o;
        }
    } else if (g_mode == 1) {
        if (g_changed < g_nchange && step >= g_change[g_changed]) { g_changed++; me->prio = --g_low; }
        if (hint || g_since > 3000000) { me->prio = --g_low; g_since = 0; }
        next = best();
    } else {
        if (forced || hint) next = any(me);
        else if ((rnd() >> 32) < (sync ? g_psync : g_pmem)) next = any(NULL);
        if (!next && me->state == RUNNABLE) next = me;
    }
    if (!next || next->state != RUNNABLE) who_waits();
    g_since++;
    if (next == me) return;
    g_since = 0;
    g_switches++;
    g_sig = (g_sig ^ (step * 8 + next->id)) * 1099511628211ull;
    if (g_ntr < MAXTRACE) { g_tr_step[g_ntr] = step; g_tr_to[g_ntr++] = next->id; }
    g_cur = next;
    int done = me->state == DONE;
    fwake(&next->go);
    if (!done) fwait(&me->go);
}
static void block_on(void* what) { self->state = BLOCKED; self->wait = what; reschedule(1, 1, 0); }
static void wake(void* what)
{
    for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].state == BLOCKED && g_thr[i].wait == what) g_thr[i].state = RUNNABLE;
}
#define SIM (g_on && self)
static void sync_point(void) { if (SIM) reschedule(1, 0, 0); }
void thr_io_yield(void) { sync_point(); }

/* ---------------------------------------------------------------- clocks */
struct obj { void* key; int owner, depth; uint32_t readers; int state; uint32_t vc[MAXT]; };
#define NOBJ (1 << 20)
static long g_nobj;
static struct obj* g_obj;
static struct obj* obj(void* p)
{
    uint64_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 44;
    for (;; h = (h + 1) % NOBJ) {
        if (g_obj[h].key == p) return &g_obj[h];
        if (!g_obj[h].key) { if (++g_nobj > NOBJ - 16) fatal("harness: too many objects"); g_obj[h].key = p; g_obj[h].owner = -1; return &g_obj[h]; }
    }
}
static void join_vc(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(struct obj* o) { join_vc(self->vc, o->vc); }
static void release(struct obj* o) { join_vc(o->vc, self->vc); self->vc[self->id]++; }

/* ---------------------------------------------------------------- shadow memory */
struct cell {
    uint32_t rc[MAXT], wc[MAXT], ac[MAXT], rp[MAXT], wp[MAXT];
    uint8_t rm[MAXT], wm[MAXT], am[MAXT];
    uint8_t freed;
    uint32_t freepc;
};
#define NPAGE (1 << 17)
static struct { uintptr_t page; struct cell* c; } *g_page;
static char* g_shadow; static size_t g_shadow_used;
#define SHADOW_SIZE (24ull << 30)
static struct cell* cell(uintptr_t a)
{
    uintptr_t pg = a >> 12;
    uint64_t h = (pg * 0x9E3779B97F4A7C15ull) >> 47;
    for (;; h = (h + 1) % NPAGE) {
        if (g_page[h].page == pg) break;
        if (!g_page[h].page) {
            size_t sz = sizeof(struct cell) * 512;
            if (g_shadow_used + sz > SHADOW_SIZE) fatal("harness: out of shadow memory");
            g_page[h].page = pg; g_page[h].c = (struct cell*)(g_shadow + g_shadow_used); g_shadow_used += sz;
            break;
        }
    }
    return &g_page[h].c[(a & 4095) >> 3];
}
static void stack_text(char* b, size_t n)
{
    size_t k = 0;
    b[0] = 0;
    for (int i = self->depth - 1, j = 0; i >= 0 && j < 6; i--, j++) k += snprintf(b + k, n - k, " %x", i < 64 ? self->stack[i] : 0);
}
static void race(const char* what, int other, uint32_t pc, uint32_t otherpc)
{
    char st[128];
    if (g_nfound >= 4) return;
    stack_text(st, sizeof st);
    found("@race %s thread %d at pc %x stack%s with thread %d pc %x", what, self->id, pc, st, other, otherpc);
}
static uint64_t g_accesses;
static void access_cell(uintptr_t a, uint8_t mask, int write, int atomic, uint32_t pc)
{
    struct cell* c = cell(a);
    int me = self->id;
    if (c->freed) {
        char st[128];
        if (g_nfound < 4) { stack_text(st, sizeof st); found("@freed %s thread %d at pc %x stack%s freed at pc %x", write ? "write" : "read", me, pc, st, c->freepc); }
        c->freed = 0;
    }
    for (int t = 0; t < g_nthr; t++) {
        if (t == me) continue;
        if (c->wc[t] > self->vc[t] && (c->wm[t] & mask)) { race(atomic ? "atomic access after unordered plain write," : write ? "write after unordered write," : "read after unordered write,", t, pc, c->wp[t]); c->wm[t] = 0; }
        if (write && c->rc[t] > self->vc[t] && (c->rm[t] & mask)) { race(atomic ? "atomic write after unordered plain read," : "write after unordered read,", t, pc, c->rp[t]); c->rm[t] = 0; }
        if (!atomic && c->ac[t] > self->vc[t] && (c->am[t] & mask)) { race("plain access after unordered atomic write,", t, pc, 0); c->am[t] = 0; }
    }
    uint32_t clk = self->vc[me];
    if (atomic) { if (write) { if (c->ac[me] != clk) { c->ac[me] = clk; c->am[me] = 0; } c->am[me] |= mask; } return; }
    if (write) { if (c->wc[me] != clk) { c->wc[me] = clk; c->wm[me] = 0; } c->wm[me] |= mask; c->wp[me] = pc; }
    else { if (c->rc[me] != clk) { c->rc[me] = clk; c->rm[me] = 0; } c->rm[me] |= mask; c->rp[me] = pc; }
}
static void record(uintptr_t a, size_t n, int write, int atomic, uint32_t pc)
{
    if (!n) return;
    if (n > 65536) { record(a, 32768, write, atomic, pc); record(a + n - 32768, 32768, write, atomic, pc); return; }
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t next = (a & ~(uintptr_t)7) + 8, to = next < e ? next : e;
        uint8_t mask = (uint8_t)(((1u << (to - a)) - 1) << (a & 7));
        access_cell(a, mask, write, atomic, pc);
        a = to;
    }
}
#define OWNSTACK(a) ((char*)(a) >= self->lo && (char*)(a) < self->hi)
#define WATCH(a) (g_on && self && !self->ignore && !OWNSTACK(a))
#define PC ((uint32_t)((char*)__builtin_return_address(0) - &__executable_start))
static inline void touch(void* a, size_t n, int write, uint32_t pc)
{
    if (!WATCH(a)) return;
    g_accesses++;
    reschedule(0, 0, 0);
    record((uintptr_t)a, n, write, 0, pc);
}
void thr_note(void* a, size_t n, int write) { if (WATCH(a)) record((uintptr_t)a, n, write, 0, PC); }

#define RW(n) \
    void __tsan_read##n(void* a) { touch(a, n, 0, PC); } \
    void __tsan_write##n(void* a) { touch(a, n, 1, PC); } \
    void __tsan_read_write##n(void* a) { touch(a, n, 0, PC); touch(a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void* a) { touch(a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void* a) { touch(a, n, 1, PC); } \
    void __tsan_unaligned_read_write##n(void* a) { touch(a, n, 0, PC); touch(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void* a) { touch(a, n, 0, PC); } \
    void __tsan_volatile_write##n(void* a) { touch(a, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { touch(a, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { touch(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { touch(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { touch(a, n, 1, PC); }
void __tsan_vptr_read(void** a) { touch(a, 8, 0, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) touch(a, 8, 1, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void* pc)
{
    if (!self) return;
    if (self->depth < 64) self->stack[self->depth] = (uint32_t)((char*)pc - &__executable_start);
    self->depth++;
}
void __tsan_func_exit(void) { if (self && self->depth > 0) self->depth--; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

static void* (*real_memcpy)(void*, const void*, size_t);
static void* (*real_memmove)(void*, const void*, size_t);
static void* (*real_memset)(void*, int, size_t);
static int (*real_memcmp)(const void*, const void*, size_t);
static size_t (*real_strlen)(const char*);
static void note2(void* d, const void* s, size_t n, uint32_t pc)
{
    if (!g_on || g_rt || !self || self->ignore) return;
    if (s && !OWNSTACK(s)) record((uintptr_t)s, n, 0, 0, pc);
    if (d && !OWNSTACK(d)) record((uintptr_t)d, n, 1, 0, pc);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (SIM && !self->ignore) { if (!OWNSTACK(d) || !OWNSTACK(s)) reschedule(0, 0, 0); note2(d, s, n, PC); } return real_memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (SIM && !self->ignore) { if (!OWNSTACK(d) || !OWNSTACK(s)) reschedule(0, 0, 0); note2(d, s, n, PC); } return real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (SIM && !self->ignore) { if (!OWNSTACK(d)) reschedule(0, 0, 0); note2(d, NULL, n, PC); } return real_memset(d, c, n); }

void* memcpy(void* d, const void* s, size_t n) { note2(d, s, n, PC); if (real_memcpy) return real_memcpy(d, s, n); for (size_t i = 0; i < n; i++) { ((volatile char*)d)[i] = ((const char*)s)[i]; } return d; }
void* memmove(void* d, const void* s, size_t n)
{
    note2(d, s, n, PC);
    if (real_memmove) return real_memmove(d, s, n);
    if ((char*)d < (const char*)s) { for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = ((const char*)s)[i]; }
    else { for (size_t i = n; i--;) ((volatile char*)d)[i] = ((const char*)s)[i]; }
    return d;
}
void* memset(void* d, int c, size_t n) { note2(d, NULL, n, PC); if (real_memset) return real_memset(d, c, n); for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = (char)c; return d; }
int memcmp(const void* a, const void* b, size_t n)
{
    note2(NULL, a, n, PC); note2(NULL, b, n, PC);
    if (real_memcmp) return real_memcmp(a, b, n);
    for (size_t i = 0; i < n; i++) { int x = ((const volatile unsigned char*)a)[i], y = ((const volatile unsigned char*)b)[i]; if (x != y) return x - y; }
    return 0;
}
size_t strlen(const char* s)
{
    size_t n = 0;
    if (real_strlen) n = real_strlen(s); else while (((const volatile char*)s)[n]) n++;
    note2(NULL, s, n + 1, PC);
    return n;
}

/* ---------------------------------------------------------------- atomics */
#define ISACQ(o) ((o) == __ATOMIC_ACQUIRE || (o) == __ATOMIC_CONSUME || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)
#define ISREL(o) ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)
static int at_before(void* a, size_t n, int write, uint32_t pc)
{
    if (!g_on || !self || self->ignore) return 0;
    reschedule(1, 0, 0);
    if (!OWNSTACK(a)) record((uintptr_t)a, n, write, 1, pc);
    return 1;
}
static void at_order(void* a, int load, int store, int mo)
{
    if (!g_on || !self) return;
    struct obj* o = obj(a);
    if (load && ISACQ(mo)) acquire(o);
    if (store && ISREL(mo)) release(o);
    else if (store && !load) for (int i = 0; i < MAXT; i++) o->vc[i] = 0;      /* a relaxed store ends the release sequence */
}
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int mo) { at_before((void*)a, sizeof(T), 0, PC); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_order((void*)a, 1, 0, mo); return r; } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 0, 1, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { at_before((void*)a, sizeof(T), 1, PC); at_order((void*)a, 1, 1, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    static int cas##n(volatile T* a, T* c, T v, int mo, int fmo, uint32_t pc) \
    { \
        at_before((void*)a, sizeof(T), 1, pc); \
        int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) at_order((void*)a, 1, 1, mo); else at_order((void*)a, 1, 0, fmo); \
        return ok; \
    } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##n(a, c, v, mo, fmo, PC); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##n(a, c, v, mo, fmo, PC); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas##n(a, &c, v, mo, fmo, PC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(__ATOMIC_SEQ_CST); if (SIM) { struct obj* o = obj(&g_fence); acquire(o); release(o); } }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- locks */
#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })
static uint64_t g_contended, g_locks;
static int lock_ex(void* m, int recursive, int try)
{
    sync_point();
    struct obj* o = obj(m);
    g_locks++;
    if (o->owner == self->id && recursive) { o->depth++; return 0; }
    if (o->owner == self->id && !try) fatal("deadlock: thread %d locks a mutex it holds", self->id);
    if (o->owner >= 0 || o->readers) g_contended++;
    while (o->owner >= 0 || o->readers) {
        if (try) return EBUSY;
        if (o->readers & (1u << self->id)) fatal("deadlock: thread %d locks a mutex it holds shared", self->id);
        block_on(m);
    }
    o->owner = self->id; o->depth = 1;
    acquire(o);
    return 0;
}
static int unlock_any(void* m)
{
    struct obj* o = obj(m);
    if (o->owner == self->id) {
        if (--o->depth) return 0;
        release(o); o->owner = -1;
    } else if (o->readers & (1u << self->id)) { o->readers &= ~(1u << self->id); release(o); }
    else { found("@race unlock of a mutex that thread %d does not hold, at pc 0 stack with thread -1 pc 0", self->id); return EPERM; }
    wake(m);
    sync_point();
    return 0;
}
static int lock_sh(void* m, int try)
{
    sync_point();
    struct obj* o = obj(m);
    g_locks++;
    if (o->owner == self->id) fatal("deadlock: thread %d locks a mutex shared that it holds", self->id);
    if (o->owner >= 0) g_contended++;
    while (o->owner >= 0) { if (try) return EBUSY; block_on(m); }
    o->readers |= 1u << self->id;
    join_vc(self->vc, o->vc);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!SIM) return REAL(pthread_mutex_lock)(m); return lock_ex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!SIM) return REAL(pthread_mutex_trylock)(m); return lock_ex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, 1); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { if (!SIM) return REAL(pthread_mutex_timedlock)(m, t); return lock_ex(m, 0, 0); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!SIM) return REAL(pthread_mutex_unlock)(m); return unlock_any(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!SIM) return REAL(pthread_rwlock_rdlock)(m); return lock_sh(m, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!SIM) return REAL(pthread_rwlock_tryrdlock)(m); return lock_sh(m, 1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!SIM) return REAL(pthread_rwlock_wrlock)(m); return lock_ex(m, 0, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!SIM) return REAL(pthread_rwlock_trywrlock)(m); return lock_ex(m, 0, 1); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!SIM) return REAL(pthread_rwlock_unlock)(m); return unlock_any(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!SIM) return REAL(pthread_cond_wait)(c, m);
    unlock_any(m);
    block_on(c);
    return lock_ex(m, 0, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (!SIM) return REAL(pthread_cond_timedwait)(c, m, t);
    unlock_any(m);
    reschedule(1, 0, 1);                     /* wakes up spuriously: the caller has to check */
    lock_ex(m, 0, 0);
    return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!SIM) return REAL(pthread_cond_signal)(c); wake(c); sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!SIM) return REAL(pthread_cond_broadcast)(c); wake(c); sync_point(); return 0; }
int sched_yield(void) { if (!SIM) return (int)rsyscall(SYS_sched_yield); reschedule(1, 0, 1); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!SIM) return (int)rsyscall(SYS_nanosleep, a, b); reschedule(1, 0, 1); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (!SIM) return REAL(clock_nanosleep)(c, f, a, b); reschedule(1, 0, 1); return 0; }
int usleep(useconds_t u) { if (!SIM) return REAL(usleep)(u); reschedule(1, 0, 1); return 0; }

#ifdef THR_FUTEX
static int g_futex_waits;
long syscall(long n, ...)
{
    long a[6];
    va_list ap; va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n != SYS_futex || !SIM) return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    int op = (int)a[1] & FUTEX_CMD_MASK;
    void* f = (void*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        sync_point();
        if (__atomic_load_n((volatile int*)f, __ATOMIC_SEQ_CST) != (int)a[2]) { acquire(obj(f)); errno = EAGAIN; return -1; }
        g_contended++;
        block_on(f);
        acquire(obj(f));       /* what the lock's slow path, which is not instrumented, takes over */
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        int k = 0;
        release(obj(f));
        for (int i = 0; i < g_nthr; i++) k += g_thr[i].state == BLOCKED && g_thr[i].wait == f;
        wake(f);               /* waking more threads than asked for is allowed: they look again */
        sync_point();
        return k;
    }
    return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
#endif

int pthread_once(pthread_once_t* c, void (*f)(void))
{
    if (!SIM) return REAL(pthread_once)(c, f);
    sync_point();
    struct obj* o = obj(c);
    if (*(volatile int*)c & 2) { acquire(o); return 0; }
    while (o->state == 1) block_on(c);
    if (*(volatile int*)c & 2) { acquire(o); return 0; }
    o->state = 1;
    f();
    o->state = 0;
    *(volatile int*)c |= 2;
    release(o);
    wake(c);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    if (!SIM) return *(volatile char*)g ? 0 : 1;
    sync_point();
    struct obj* o = obj(g);
    while (!*(volatile char*)g && o->state == 1) block_on(g);
    if (*(volatile char*)g) { acquire(o); return 0; }
    o->state = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    *(volatile char*)g = 1;
    if (!SIM) return;
    struct obj* o = obj(g);
    o->state = 0;
    release(o);
    wake(g);
    sync_point();
}
void __cxa_guard_abort(uint64_t* g)
{
    if (!SIM) return;
    struct obj* o = obj(g);
    o->state = 0;
    release(o);
    wake(g);
}

/* ---------------------------------------------------------------- threads */
static void finish(struct thr* t)
{
    struct obj* o = obj(t);
    release(o);
    t->state = DONE;
    wake(t);
    reschedule(1, 1, 0);     /* hands over and does not come back */
    self = NULL;
}
static void* body(void* p)
{
    struct thr* t = p;
    char* here = __builtin_frame_address(0);
    t->lo = here - (1 << 20) + (1 << 16); t->hi = here + 8192;
    fwait(&t->go);
    self = t;
    t->ret = t->fn(t->arg);
    static void (*dtors)(void);
    if (!dtors) dtors = dlsym(RTLD_DEFAULT, "__call_tls_dtors");
    if (dtors) dtors();
    finish(t);
    return t->ret;
}
static int spawn(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg, int ignore)
{
    int slot = -1;
    for (int i = 0; i < MAXT && slot < 0; i++) if (g_thr[i].state == UNUSED) slot = i;
    if (slot < 0) return EAGAIN;
    struct thr* t = &g_thr[slot];
    t->id = slot; t->fn = fn; t->arg = arg; t->ignore = ignore; t->go = 0;
    for (int i = 0; i < MAXT; i++) t->vc[i] = self->vc[i];
    t->vc[slot] = 1;
    self->vc[self->id]++;
    t->prio = (int)(rnd() % 1000000) + 1;
    int on = g_on;
    g_on = 0;
    pthread_attr_t own;
    if (!at) { pthread_attr_init(&own); at = &own; pthread_attr_setstacksize(&own, 1 << 20); }
    int r = REAL(pthread_create)(&t->handle, at, body, t);
    g_on = on;
    if (r) return r;
    *h = t->handle;
    if (slot >= g_nthr) g_nthr = slot + 1;
    t->state = RUNNABLE;
    return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!SIM) return REAL(pthread_create)(h, at, fn, arg);
    sync_point();
    int r = spawn(h, at, fn, arg, 0);
    if (!r) sync_point();
    return r;
}
static void wait_for(struct thr* t)
{
    while (t->state != DONE) block_on(t);
    acquire(obj(t));
}
int pthread_join(pthread_t h, void** ret)
{
    if (!SIM) return REAL(pthread_join)(h, ret);
    for (int i = 0; i < MAXT; i++)
        if (g_thr[i].state != UNUSED && g_thr[i].handle == h) {
            wait_for(&g_thr[i]);
            int on = g_on;
            g_on = 0;
            int r = REAL(pthread_join)(h, ret);
            g_on = on;
            return r;
        }
    return REAL(pthread_join)(h, ret);
}

/* ---------------------------------------------------------------- heap: nothing is reused */
static char* g_arena; static size_t g_arena_used; static int g_arena_on;
#define ARENA ((char*)0x100000000000)
#define ARENA_SIZE (32ull << 30)
static char g_boot[65536]; static size_t g_boot_used;
static char* g_map = (char*)0x200000000000;
void* thr_mmap_hint(size_t n) { if (!g_arena_on) return NULL; char* r = g_map; g_map += ((n + 4095) & ~(size_t)4095) + 4096; return r; }
static void* (*r_malloc)(size_t); static void (*r_free)(void*); static void* (*r_realloc)(void*, size_t); static void* (*r_calloc)(size_t, size_t); static void* (*r_aligned)(size_t, size_t);
static int g_resolving;
static void resolve(void)
{
    if (r_malloc || g_resolving) return;
    g_resolving = 1;
    void* m = dlsym(RTLD_NEXT, "malloc");
    r_free = dlsym(RTLD_NEXT, "free"); r_realloc = dlsym(RTLD_NEXT, "realloc"); r_calloc = dlsym(RTLD_NEXT, "calloc"); r_aligned = dlsym(RTLD_NEXT, "aligned_alloc");
    real_memcpy = dlsym(RTLD_NEXT, "memcpy"); real_memmove = dlsym(RTLD_NEXT, "memmove"); real_memset = dlsym(RTLD_NEXT, "memset");
    real_memcmp = dlsym(RTLD_NEXT, "memcmp"); real_strlen = dlsym(RTLD_NEXT, "strlen");
    r_malloc = m;
    g_resolving = 0;
}
static void* bump(size_t n, size_t al)
{
    uintptr_t p = (uintptr_t)g_arena + g_arena_used + 16;
    p = (p + al - 1) & ~(uintptr_t)(al - 1);
    size_t end = p - (uintptr_t)g_arena + n;
    if (end > ARENA_SIZE) fatal("harness: out of arena");
    ((size_t*)p)[-1] = n;
    g_arena_used = (end + 15) & ~(size_t)15;
    return (void*)p;
}
static void* boot(size_t n) { size_t k = (g_boot_used + 15) & ~(size_t)15; if (k + n + 16 > sizeof g_boot) _exit(97); *(size_t*)(g_boot + k) = n; g_boot_used = k + 16 + n; return g_boot + k + 16; }
#define IN_ARENA(p) ((char*)(p) >= ARENA && (char*)(p) < ARENA + ARENA_SIZE)
#define IN_BOOT(p) ((char*)(p) >= g_boot && (char*)(p) < g_boot + sizeof g_boot)
void* malloc(size_t n)
{
    if (g_arena_on) return bump(n ? n : 1, 16);
    resolve();
    return r_malloc ? r_malloc(n) : boot(n);
}
void* calloc(size_t a, size_t b)
{
    if (g_arena_on) { if (b && a > (size_t)-1 / b) return NULL; return bump(a * b ? a * b : 1, 16); }   /* fresh memory is zero */
    resolve();
    return r_calloc ? r_calloc(a, b) : boot(a * b);
}
static void drop(void* p, uint32_t pc)
{
    size_t n = ((size_t*)p)[-1];
    if (g_on && self) {
        if (!self->ignore && !OWNSTACK(p)) record((uintptr_t)p, n, 1, 0, pc);
        for (size_t i = 0; i < n && i < 65536; i += 8) { struct cell* c = cell((uintptr_t)p + i); c->freed = 1; c->freepc = pc; }
    }
    if (n > (1 << 20)) madvise((void*)(((uintptr_t)p + 4095) & ~(uintptr_t)4095), n - 4096, MADV_DONTNEED);
}
void free(void* p)
{
    if (!p || IN_BOOT(p)) return;
    if (IN_ARENA(p)) { drop(p, PC); return; }
    resolve();
    r_free(p);
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (IN_ARENA(p) || IN_BOOT(p) || g_arena_on) {
        size_t old = IN_ARENA(p) ? ((size_t*)p)[-1] : IN_BOOT(p) ? ((size_t*)p)[-2] : n;
        if (!IN_ARENA(p) && !IN_BOOT(p)) { size_t (*us)(void*) = dlsym(RTLD_NEXT, "malloc_usable_size"); old = us(p); }
        void* q = malloc(n);
        real_memcpy(q, p, old < n ? old : n);
        free(p);
        return q;
    }
    resolve();
    return r_realloc(p, n);
}
void* aligned_alloc(size_t al, size_t n) { if (g_arena_on) return bump(n ? n : 1, al < 16 ? 16 : al); resolve(); return r_aligned(al, n); }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = aligned_alloc(al, n); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p)
{
    if (!p) return 0;
    if (IN_ARENA(p)) return ((size_t*)p)[-1];
    if (IN_BOOT(p)) return ((size_t*)p)[-2];
    static size_t (*us)(void*);
    if (!us) us = dlsym(RTLD_NEXT, "malloc_usable_size");
    return us(p);
}
/* the child process that runs one scenario calls this first */
void thr_arena(void)
{
    resolve();
    g_arena = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    g_shadow = mmap(NULL, SHADOW_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_page = mmap(NULL, sizeof *g_page * NPAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_obj = mmap(NULL, sizeof *g_obj * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena != ARENA || g_shadow == MAP_FAILED || g_page == MAP_FAILED || g_obj == MAP_FAILED) { put("@fatal harness: no memory\n"); _exit(9); }
    g_arena_on = 1;
}

/* ---------------------------------------------------------------- harness */
/* runs fn(arg[i]) in n threads under the scheduler; returns when all are done */
void thr_parallel(int n, void* (*fn)(void*), void** args)
{
    struct thr* m = &g_thr[0];
    pthread_t h[MAXT];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    memset(m, 0, sizeof *m);
    m->state = RUNNABLE; m->vc[0] = 1; m->ignore = 1; m->prio = -1000000000;
    g_nthr = 1; self = m; g_cur = m;
    for (int i = 0; i < n; i++) if (spawn(&h[i], &at, fn, args[i], 1)) { put("@fatal harness: no thread\n"); _exit(9); }
    g_on = 1;
    for (int i = 0; i < n; i++) wait_for(&g_thr[i + 1]);
    g_on = 0;
    for (int i = 0; i < n; i++) REAL(pthread_join)(h[i], NULL);
    self = NULL;
}
int thr_in_lib(int enter) { if (!self) return 0; int o = self->ignore; self->ignore = enter ? 0 : 1; return o; }
void thr_stats(uint64_t* o) { o[0] = g_step; o[1] = g_switches; o[2] = g_accesses; o[3] = g_locks; o[4] = g_contended; o[5] = g_sig; }

/* red-black tree rebalancing lives in libstdc++: what it writes is noted here */
#define RB1 _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
void RB1(_Bool l, void* x, void* p, void* h)
{
    static void (*f)(_Bool, void*, void*, void*);
    if (!f) f = dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    thr_note(x, 32, 1); thr_note(p, 32, 1); thr_note(h, 32, 1);
    f(l, x, p, h);
}
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h)
{
    static void* (*f)(void*, void*);
    if (!f) f = dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    thr_note(z, 32, 1); thr_note(h, 32, 1);
    return f(z, h);
}
#define STEP(sym) \
    void* sym(void* x) \
    { \
        static void* (*f)(void*); \
        if (!f) f = dlsym(RTLD_NEXT, #sym); \
        thr_note(x, 32, 0); \
        return f(x); \
    }
STEP(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
