/* Deterministic simulation runtime.
 *
 * Linked into the harness binary, it takes over every source of
 * nondeterminism of the process while a simulation is active:
 *   - threads:   pthread_create / pthread_join; exactly one simulated thread
 *                runs at a time (baton passing), everyone else is parked;
 *   - schedule:  every atomic operation of the instrumented code (the compiler
 *                emits __tsan_* calls which are implemented here), every
 *                futex, sleep, yield and thread start is a scheduling point;
 *   - clocks:    clock_gettime / gettimeofday / time read simulated time;
 *   - timers:    nanosleep / clock_nanosleep / futex timeouts wake on
 *                simulated time, which only advances when nobody can run;
 *   - entropy:   getrandom (HashMap seeds) comes from the run's seed;
 *   - disk:      paths below /simdisk/ live on a simulated disk with a volatile
 *                cache, torn writes, crashes and injected errors.
 *
 * Everything is decided by xorshift generators that derive from one seed, or,
 * in replay mode, by the recorded list of non default decisions.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

/* ------------------------------------------------------------------ raw syscalls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ------------------------------------------------------------------ threads */
enum { S_FREE = 0, S_RUN, S_FUTEX, S_SLEEP, S_JOIN, S_DONE };
#define MAXT 64
struct thr {
    int state;
    int baton;            /* real futex word */
    uint64_t wake;        /* S_SLEEP / S_FUTEX with timeout, ~0 = never */
    uint64_t stalled;     /* not schedulable before this simulated time */
    const void *addr;     /* S_FUTEX */
    int join;             /* S_JOIN: target */
    int timed_out;
    int vruns;
    pthread_t tid;
    void *(*fn)(void *);
    void *arg;
    char name[16];
};
static struct thr T[MAXT];
static int nthr;
static volatile int cur = -1;
static volatile int active;
static __thread int me = -1;
static __thread int rt_depth;      /* >0: inside an audio callback */
static __thread int nopreempt;     /* >0: no scheduling points (harness code) */
static pthread_key_t exit_key;

static uint64_t now_ns;
static uint64_t realtime_base = 1650000000ull * 1000000000ull;
static int64_t realtime_skew;
static uint64_t step;              /* scheduling points so far */
static uint64_t max_steps = 40u * 1000 * 1000;
/* seen by the parent process: the run makes progress */
static volatile uint64_t *beat;
void sim_beat(volatile uint64_t *b) { beat = b; }
static uint64_t switches;
static uint64_t ihash;             /* hash of the interleaving */

/* ------------------------------------------------------------------ randomness */
static uint64_t rs_sched, rs_hash;
static uint64_t nextr(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

/* schedule configuration */
static uint32_t p_atomic;          /* preemption probability at an atomic op, /65536 */
static uint32_t p_op;              /* probability at explicit operation boundaries, /65536 */
static int replay;                 /* replay mode: follow rec[] */
struct dec { uint64_t step; int target; };
#define MAXDEC 200000
static struct dec *rec; static int nrec, irec;     /* replay input */
static struct dec *outd; static int noutd;         /* recorded non default decisions */

/* implemented in Rust: ends the run, does not return */
extern void sim_rust_fail(const char *cls, const char *msg);

static void fail(const char *cls, const char *fmt, ...) {
    char buf[512];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    active = 0;
    sim_rust_fail(cls, buf);
    _exit(97);
}
void sim_fail_c(const char *cls, const char *msg) { fail(cls, "%s", msg); }

static void park(int id) {
    while (__atomic_load_n(&T[id].baton, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)&T[id].baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&T[id].baton, 0, __ATOMIC_RELEASE);
}
static void unpark(int id) {
    __atomic_store_n(&T[id].baton, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&T[id].baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void wake_due(void) {
    for (int i = 0; i < nthr; i++) {
        struct thr *t = &T[i];
        if ((t->state == S_SLEEP || t->state == S_FUTEX) && t->wake <= now_ns) {
            if (t->state == S_FUTEX) t->timed_out = 1;
            t->state = S_RUN;
        }
    }
}
static void record(int target) {
    if (!outd) outd = malloc(sizeof(struct dec) * MAXDEC);
    if (noutd < MAXDEC) { outd[noutd].step = step; outd[noutd].target = target; noutd++; }
}

/* The next point in time at which a sleeping thread becomes runnable. */
static uint64_t next_timer(int *who) {
    uint64_t t = ~0ull;
    if (who) *who = -1;
    for (int i = 0; i < nthr; i++) {
        uint64_t w = ~0ull;
        if (T[i].state == S_SLEEP || T[i].state == S_FUTEX) { w = T[i].wake; if (w != ~0ull && T[i].stalled > w) w = T[i].stalled; }
        else if (T[i].state == S_RUN && T[i].stalled > now_ns) w = T[i].stalled;
        if (w < t) { t = w; if (who) *who = i; }
    }
    return t;
}

/* Chooses who runs next. may_stay: the caller itself is runnable. */
static int pick(int may_stay, uint32_t p) {
    int cand[MAXT], n = 0;
    step++;
    if (beat) *beat = step;
    if (step > max_steps) fail("no-progress", "more than %llu scheduling points", (unsigned long long)max_steps);
    if (may_stay && !replay && (p == 0 || (uint32_t)(nextr(&rs_sched) & 0xffff) >= p)) return me;
    if (may_stay && replay) {
        while (irec < nrec && rec[irec].step < step) irec++;
        if (irec >= nrec || rec[irec].step != step) return me;
    }
    for (;;) {
        n = 0;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == S_RUN && T[i].stalled <= now_ns) cand[n++] = i;
        if (n) break;
        /* nobody can run: jump the clock to the next timer */
        uint64_t t = next_timer(NULL);
        if (t == ~0ull) {
            char b[400]; int o = 0;
            for (int i = 0; i < nthr && o < 360; i++)
                o += snprintf(b + o, sizeof b - o, " %s=%d", T[i].name[0] ? T[i].name : "worker", T[i].state);
            fail("deadlock", "no thread can ever run again:%s", b);
        }
        if (t > now_ns) now_ns = t;
        wake_due();
    }
    int def = may_stay ? me : cand[0];
    int chosen = def;
    if (replay) {
        while (irec < nrec && rec[irec].step < step) irec++;
        if (irec < nrec && rec[irec].step == step) {
            int tg = rec[irec].target;
            for (int i = 0; i < n; i++) if (cand[i] == tg) chosen = tg;
            if (chosen != tg && may_stay && tg >= 0 && tg < nthr) { int s; uint64_t t = next_timer(&s); if (s == tg && t != ~0ull) { if (t > now_ns) now_ns = t; wake_due(); chosen = tg; } }
            irec++;
        }
    } else if (may_stay) {
        /* preempted: another runnable thread runs, or the caller is kept off the
           CPU until the next timer expires (code takes time to execute) */
        int s; uint64_t t = next_timer(&s);
        uint32_t k = (uint32_t)(nextr(&rs_sched) % (uint64_t)(n + 1));
        if (k < (uint32_t)n) chosen = cand[k];
        else if (t != ~0ull && t <= now_ns + 400000000ull) { if (t > now_ns) now_ns = t; wake_due(); chosen = s; }
    } else if (n > 1) {
        chosen = cand[nextr(&rs_sched) % n];
    }
    if (chosen != def) record(chosen);
    return chosen;
}

static void switch_to(int id) {
    if (id == me) return;
    switches++;
    ihash = (ihash ^ (uint64_t)(id + 1)) * 0x100000001b3ull + step;
    int self = me;
    cur = id;
    unpark(id);
    park(self);
}

static void yield_p(uint32_t p) {
    if (!active || me < 0 || nopreempt) return;
    switch_to(pick(1, p));
}
static inline void ypoint(void) {
    if (__builtin_expect(!active || me < 0 || nopreempt, 0)) return;
    if (!replay && p_atomic == 0) { step++; return; }
    switch_to(pick(1, p_atomic));
}
static void block_here(void) { /* T[me].state already set */
    switch_to(pick(0, 65536));
}

/* ------------------------------------------------------------------ RT section bookkeeping */
static char rt_what[256];
void sim_rust_rt_where(void);
static uint64_t rt_events;
static void rt_event(const char *what) {
    if (rt_depth > 0 && active) {
        int first = !rt_events;
        rt_events++;
        if (first) { snprintf(rt_what, sizeof rt_what, "%s", what); sim_rust_rt_where(); }
    }
}
void sim_rt_enter(void) { rt_depth++; }
void sim_rt_leave(void) { rt_depth--; }
int sim_rt_depth(void) { return rt_depth; }
void sim_rt_pause(int v) { rt_depth += v ? -1000 : 1000; }
uint64_t sim_rt_events(void) { return rt_events; }
const char *sim_rt_what(void) { return rt_what; }
void sim_rt_note(const char *w) { rt_event(w); }
void sim_rt_reset(void) { rt_events = 0; rt_what[0] = 0; }

/* ------------------------------------------------------------------ control API for Rust */
uint64_t sim_now(void) { return now_ns; }
uint64_t sim_steps(void) { return step; }
uint64_t sim_switches(void) { return switches; }
uint64_t sim_ihash(void) { return ihash; }
int sim_me(void) { return me; }
int sim_nthreads(void) { return nthr; }
int sim_live_threads(void) { int n = 0; for (int i = 0; i < nthr; i++) if (T[i].state != S_DONE) n++; return n; }
void sim_nopreempt(int d) { nopreempt += d; }
void sim_op_point(void) { yield_p(p_op); }
void sim_set_max_steps(uint64_t m) { max_steps = m; }
void sim_clock_jump(int64_t d) { realtime_skew += d; }
void sim_name(const char *n) { if (me >= 0) snprintf(T[me].name, sizeof T[me].name, "%s", n); }
void sim_stall(int id, uint64_t ns) { if (id >= 0 && id < nthr) { uint64_t u = now_ns + ns; if (u > T[id].stalled) T[id].stalled = u; } }
int sim_decisions(uint64_t *buf, int max) {
    int n = noutd < max ? noutd : max;
    for (int i = 0; i < n; i++) { buf[2 * i] = outd[i].step; buf[2 * i + 1] = (uint64_t)outd[i].target; }
    return n;
}
static void thread_exit_dtor(void *p);

void sim_begin(uint64_t seed, uint32_t pa, uint32_t po, int rep, const uint64_t *decs, int ndecs) {
    memset(T, 0, sizeof T);
    nthr = 1; cur = 0; me = 0; now_ns = 1000000000ull; step = switches = 0; ihash = 0xcbf29ce484222325ull;
    T[0].state = S_RUN; snprintf(T[0].name, sizeof T[0].name, "main");
    rs_sched = seed ^ 0x5ced5ced5cedull; rs_hash = seed ^ 0xabcdef12345ull;
    realtime_base = (1650000000ull + (seed % 10000019)) * 1000000000ull + (seed * 7919) % 1000000000ull;
    realtime_skew = 0;
    p_atomic = pa; p_op = po; replay = rep; noutd = 0; irec = 0; nrec = 0;
    if (rep && ndecs > 0) {
        rec = malloc(sizeof(struct dec) * ndecs); nrec = ndecs;
        for (int i = 0; i < ndecs; i++) { rec[i].step = decs[2 * i]; rec[i].target = (int)decs[2 * i + 1]; }
    }
    pthread_key_create(&exit_key, thread_exit_dtor);
    rt_events = 0; rt_what[0] = 0;
    active = 1;
}
void sim_end(void) { active = 0; }
int sim_active(void) { return active; }

void sim_sleep_ns(uint64_t ns) {
    if (!active || me < 0) return;
    T[me].state = S_SLEEP; T[me].wake = now_ns + (ns ? ns : 1);
    block_here();
}

/* ------------------------------------------------------------------ pthread */
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*pj_t)(pthread_t, void **);
static pc_t r_create; static pj_t r_join;
static int (*r_clock_gettime)(clockid_t, struct timespec *);
__attribute__((constructor)) static void resolve(void) {
    r_create = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    r_join = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
    r_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
}

static void thread_exit_dtor(void *p) {
    struct thr *t = p;
    if (!active) return;
    int id = (int)(t - T);
    t->state = S_DONE;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == S_JOIN && T[i].join == id) T[i].state = S_RUN;
    nopreempt = 1;
    int n = pick(0, 65536);
    switches++;
    ihash = (ihash ^ (uint64_t)(n + 1)) * 0x100000001b3ull + step;
    cur = n;
    me = -1;
    unpark(n);
}

static void *tramp(void *p) {
    struct thr *t = p;
    me = (int)(t - T);
    park(me);
    pthread_setspecific(exit_key, t);
    return t->fn(t->arg);
}

int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    rt_event("pthread_create");
    if (!r_create) resolve();
    if (!active || me < 0) return r_create(th, at, fn, arg);
    if (nthr >= MAXT) return EAGAIN;
    int id = nthr;
    struct thr *t = &T[id];
    memset(t, 0, sizeof *t);
    t->fn = fn; t->arg = arg; t->wake = ~0ull;
    int r = r_create(th, at, tramp, t);
    if (r) return r;
    t->tid = *th;
    t->state = S_RUN;
    nthr++;
    yield_p(p_op);
    return 0;
}

int pthread_join(pthread_t th, void **ret) {
    rt_event("pthread_join");
    if (!r_join) resolve();
    if (active && me >= 0) {
        for (int i = 0; i < nthr; i++)
            if (T[i].tid == th && T[i].fn && T[i].vruns == 0) {
                while (T[i].state != S_DONE) {
                    T[me].state = S_JOIN; T[me].join = i;
                    block_here();
                }
                T[i].vruns = 1;
                break;
            }
    }
    return r_join(th, ret);
}

/* ------------------------------------------------------------------ time */
static void ts_of(uint64_t ns, struct timespec *ts) { ts->tv_sec = ns / 1000000000ull; ts->tv_nsec = ns % 1000000000ull; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!active || me < 0) return (int)ret_errno(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ts_of((uint64_t)((int64_t)(realtime_base + now_ns) + realtime_skew), ts);
    else ts_of(now_ns, ts);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec *req, struct timespec *rem) {
    rt_event("sleep");
    if (!active || me < 0) return (int)ret_errno(raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0));
    sim_sleep_ns((uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
    rt_event("sleep");
    if (!active || me < 0) return (int)-raw6(SYS_clock_nanosleep, c, flags, (long)req, (long)rem, 0, 0);
    uint64_t ns = (uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec;
    if (flags & TIMER_ABSTIME) { uint64_t base = (c == CLOCK_REALTIME) ? realtime_base : 0; ns = ns > base + now_ns ? ns - base - now_ns : 0; }
    sim_sleep_ns(ns);
    return 0;
}
int sched_yield(void) {
    rt_event("sched_yield");
    if (!active || me < 0) return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
    yield_p(65536);
    return 0;
}

/* ------------------------------------------------------------------ entropy */
static void fill_rand(void *b, size_t n) { uint8_t *p = b; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(nextr(&rs_hash) >> 24); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!active || me < 0) return ret_errno(raw6(SYS_getrandom, (long)b, n, fl, 0, 0, 0));
    fill_rand(b, n);
    return (ssize_t)n;
}

/* ------------------------------------------------------------------ futex & co */
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active && me >= 0) {
        if (n == SYS_getrandom) { fill_rand((void *)a, (size_t)b); return b; }
        if (n == SYS_futex) {
            int op = (int)b & FUTEX_CMD_MASK;
            uint32_t *addr = (uint32_t *)a;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                rt_event("futex wait (blocked on a lock)");
                if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
                struct timespec *ts = (struct timespec *)d;
                uint64_t w = ~0ull;
                if (ts) {
                    uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
                    if (op == FUTEX_WAIT) w = now_ns + v;
                    else if (b & FUTEX_CLOCK_REALTIME) w = v > realtime_base ? v - realtime_base : 0;
                    else w = v;
                    if (w < now_ns) w = now_ns;
                }
                T[me].state = S_FUTEX; T[me].addr = addr; T[me].wake = w; T[me].timed_out = 0;
                block_here();
                if (T[me].timed_out) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                long woken = 0;
                for (int i = 0; i < nthr && woken < c; i++)
                    if (T[i].state == S_FUTEX && T[i].addr == addr) { T[i].state = S_RUN; T[i].timed_out = 0; woken++; }
                yield_p(p_op);
                return woken;
            }
        }
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

/* ------------------------------------------------------------------ atomics (ThreadSanitizer ABI) */
#define LOADSTORE(W, TY) \
    TY __tsan_atomic##W##_load(const volatile TY *a, int mo) { (void)mo; ypoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##W##_store(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_exchange(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_fetch_add(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_fetch_sub(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_fetch_and(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_fetch_or(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_fetch_xor(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_fetch_nand(volatile TY *a, TY v, int mo) { (void)mo; ypoint(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##W##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { (void)mo; (void)fmo; ypoint(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
    int __tsan_atomic##W##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { (void)mo; (void)fmo; ypoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##W##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { (void)mo; (void)fmo; ypoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
LOADSTORE(8, uint8_t)
LOADSTORE(16, uint16_t)
LOADSTORE(32, uint32_t)
LOADSTORE(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; ypoint(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}

