/* Deterministic thread/time/randomness runtime.
 *
 * Linked into the harness executable, it takes the place of the libc entry points through
 * which Rust's standard library and tokio reach the operating system: thread creation and
 * joining, futex waits and wakes, sleeping, clocks, randomness and yielding.  Simulated
 * threads are real OS threads, but exactly one of them holds the baton at any time; every
 * decision about who runs next, when it is preempted, who is woken, what time it is and which
 * fault strikes comes from three recorded choice streams (workload, schedule, fault).
 * A run is a pure function of those streams.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "simrt.h"

#define MAXT 160

enum { T_FREE = 0, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };

typedef struct {
    int id, state;
    _Atomic uint32_t go;
    uint32_t *faddr;
    uint32_t fmask;
    uint64_t deadline; /* 0 = none */
    int wake_result;   /* 0 woken, 1 timed out, 2 spurious */
    int join_target;
    pthread_t real;
    int preemptible; /* library code is running and may be interrupted at any basic block */
    int nopoint;     /* >0: no scheduling at explicit points (harness code) */
    int prio;
    void *(*fn)(void *);
    void *arg;
    int detached;
    uint64_t stalled_until;
    uint32_t gap; /* private part: basic blocks left until the next preemption */
} sthread;

static sthread T[MAXT];
static int nthreads;
static __thread sthread *self;
static int cur = -1;
static int sim_on;
simrt_shared *S; /* shared with the supervising process */
static uint64_t rng[3];
static int replaying;
static uint64_t now_ns;
static pthread_key_t done_key;
static _Atomic uint32_t finished;
static uint32_t *extra_guard_base;

ssize_t getrandom(void *buf, size_t n, unsigned flags);
static uint64_t os_rng;

static long (*real_syscall)(long, ...);
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);
static int (*real_clock_gettime)(clockid_t, struct timespec *);
static int (*real_nanosleep)(const struct timespec *, struct timespec *);
static int (*real_clock_nanosleep)(clockid_t, int, const struct timespec *, struct timespec *);
static ssize_t (*real_getrandom)(void *, size_t, unsigned);
static int (*real_sched_yield)(void);

static void resolve(void) {
    if (real_syscall) return;
    real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
    real_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    real_nanosleep = dlsym(RTLD_NEXT, "nanosleep");
    real_clock_nanosleep = dlsym(RTLD_NEXT, "clock_nanosleep");
    real_getrandom = dlsym(RTLD_NEXT, "getrandom");
    real_sched_yield = dlsym(RTLD_NEXT, "sched_yield");
    real_syscall = dlsym(RTLD_NEXT, "syscall");
}
__attribute__((constructor)) static void ctor(void) { resolve(); }

static long rfutex(_Atomic uint32_t *a, int op, uint32_t v) {
    return real_syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, NULL, NULL, 0);
}

/* ---------------------------------------------------------------- choices */
static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void hash_in(uint64_t v) {
    S->hash = (S->hash ^ v) * 0x100000001B3ull;
    S->hash ^= S->hash >> 29;
}

/* A recorded choice.  `v` is what the generator wants; on replay the recorded value is used
 * and everything past the end of the recording is 0, the least disturbing option. */
static uint32_t record(int st, uint32_t v, uint32_t n) {
    stream *q = &S->st[st];
    uint32_t pos = q->len_used;
    if (pos >= STREAM_CAP) return 0;
    q->len_used++;
    if (replaying) {
        v = pos < q->len_in ? q->v[pos] : 0;
        if (n) v = v < n ? v : v % n;
        q->v[pos] = v;
        if (pos >= q->len_in) q->v[pos] = 0;
    } else {
        q->v[pos] = v;
    }
    hash_in(((uint64_t)st << 40) ^ v);
    return v;
}

uint32_t simrt_choose(int st, uint32_t n) {
    if (n <= 1) return 0;
    return record(st, replaying ? 0 : (uint32_t)(mix(&rng[st]) % n), n);
}
/* 1 with probability num/den */
uint32_t simrt_chance(int st, uint32_t num, uint32_t den) {
    if (num == 0) return 0;
    return record(st, replaying ? 0 : (mix(&rng[st]) % den) < num, 2);
}
/* weighted: the generator's value is already computed by the caller */
uint32_t simrt_record(int st, uint32_t v, uint32_t n) { return record(st, v, n); }
uint64_t simrt_rng(int st) { return replaying ? 0 : mix(&rng[st]); }

/* ---------------------------------------------------------------- ending a run */
static void finish(int status) {
    if (S->status == ST_RUNNING) {
        S->status = status;
        S->sim_ns = now_ns;
    }
    _exit(status == ST_OK ? 0 : 3);
}

void simrt_fail(const char *cls, const char *msg, size_t len) {
    if (S->status == ST_RUNNING) {
        S->status = ST_VIOLATION;
        snprintf(S->cls, sizeof S->cls, "%s", cls);
        if (len >= sizeof S->msg) len = sizeof S->msg - 1;
        memcpy(S->msg, msg, len);
        S->msg[len] = 0;
        S->sim_ns = now_ns;
    }
    _exit(3);
}
static void failc(const char *cls, const char *msg) { simrt_fail(cls, msg, strlen(msg)); }

/* ---------------------------------------------------------------- scheduling */
static int runnable(int *out) {
    int n = 0;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == T_RUN) out[n++] = i;
    return n;
}

static void wake_thread(sthread *t, int result) {
    t->state = T_RUN;
    t->wake_result = result;
    t->deadline = 0;
    t->faddr = 0;
}

/* the earliest pending deadline, 0 if none */
static uint64_t next_deadline(void) {
    uint64_t best = 0;
    for (int i = 0; i < nthreads; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline &&
            (!best || T[i].deadline < best))
            best = T[i].deadline;
    return best;
}

static void fire_deadlines(void) {
    for (int i = 0; i < nthreads; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline &&
            T[i].deadline <= now_ns)
            wake_thread(&T[i], 1);
}

static uint32_t draw_gap(void) {
    uint32_t v = 0;
    if (!replaying && S->cfg.gap_mean) {
        uint64_t r = mix(&rng[ST_S]);
        if ((r & 1023) < S->cfg.gap_zero) {
            v = 0;
        } else {
            /* roughly log-uniform around the run's mean */
            uint64_t span = 2ull * S->cfg.gap_mean;
            v = 1 + (uint32_t)((r >> 16) % span);
            if ((r >> 11) & 1) v = 1 + v / 8;
        }
        if (S->steps > S->cfg.calm_after) v = 0;
    }
    return record(ST_S, v, 0);
}

static int pick(int *c, int n) {
    uint32_t v = 0;
    if (n == 1) return c[0];
    if (!replaying) {
        if (S->cfg.strategy == STRAT_PCT && S->steps <= S->cfg.calm_after) {
            int best = 0;
            for (int i = 1; i < n; i++)
                if (T[c[i]].prio > T[c[best]].prio) best = i;
            v = best;
        } else {
            v = mix(&rng[ST_S]) % n;
        }
    }
    v = record(ST_S, v, n);
    return c[v];
}

static void note_switch(int from, int to) {
    S->switches++;
    S->sched_hash = (S->sched_hash ^ ((uint64_t)to * 0x9E3779B9u + S->last_guard * 0x85EBCA6Bu)) * 0x100000001B3ull;
    uint32_t h = (S->last_guard * 2654435761u) ^ (uint32_t)(from * 40503u + to * 69069u);
    h ^= h >> 15;
    S->bitmap[(h >> 3) & (BITMAP_BYTES - 1)] |= 1u << (h & 7);
    simrt_event("switch", from, to);
}

/* Hand the baton on.  The caller has set its own state; returns when it holds the baton again. */
static void reschedule(int voluntary) {
    int c[MAXT], n;
    sthread *me = self;
    (void)voluntary;
    S->sched_points++;
    for (;;) {
        n = runnable(c);
        uint64_t d = next_deadline();
        if (n && d && S->cfg.p_time && S->steps <= S->cfg.calm_after &&
            simrt_chance(ST_F, S->cfg.p_time, 1024)) {
            /* slow machine: a timer expires although somebody could still run */
            S->faults[F_TIME]++;
            simrt_event("time-passes", (int64_t)(d > now_ns ? d - now_ns : 0), 0);
            if (d > now_ns) now_ns = d;
            fire_deadlines();
            continue;
        }
        if (n) break;
        if (!d) {
            char b[600];
            int o = snprintf(b, sizeof b, "no thread can run and no timer is pending:");
            for (int i = 0; i < nthreads && o < 500; i++)
                if (T[i].state == T_FUTEX)
                    o += snprintf(b + o, sizeof b - o, " t%d waits on a lock or signal", i);
                else if (T[i].state == T_JOIN)
                    o += snprintf(b + o, sizeof b - o, " t%d joins t%d", i, T[i].join_target);
            failc("deadlock", b);
        }
        if (d > now_ns) now_ns = d;
        S->idle_advances++;
        if (now_ns > S->cfg.max_sim_ns) failc("stuck", "simulated time limit passed without the run finishing");
        fire_deadlines();
    }
    int t = pick(c, n);
    T[t].gap = draw_gap();
    if (t == cur) return;
    note_switch(cur, t);
    cur = t;
    atomic_store(&T[t].go, 1);
    rfutex(&T[t].go, FUTEX_WAKE, 1);
    if (!me || me->state == T_DONE) return;
    while (atomic_load(&me->go) == 0) rfutex(&me->go, FUTEX_WAIT, 0);
    atomic_store(&me->go, 0);
}

static void wait_first_go(sthread *me) {
    while (atomic_load(&me->go) == 0) rfutex(&me->go, FUTEX_WAIT, 0);
    atomic_store(&me->go, 0);
}

static inline int simulated(void) { return self && sim_on && self->state != T_DONE; }

static void preempt(void) {
    sthread *me = self;
    S->preemptions++;
    if (S->cfg.strategy == STRAT_PCT) me->prio = -(int)S->preemptions;
    if (S->cfg.p_stall && S->steps <= S->cfg.calm_after && simrt_chance(ST_F, S->cfg.p_stall, 1024)) {
        /* stall: this thread does not run again until simulated time has passed */
        uint64_t d = 1000ull * (1 + simrt_choose(ST_F, 1000));
        S->faults[F_STALL]++;
        me->state = T_SLEEP;
        me->deadline = now_ns + d;
        simrt_event("stall", me->id, (int64_t)d);
    }
    reschedule(0);
}

/* called at every basic block of instrumented code */
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    sthread *me = self;
    if (!me || !me->preemptible) return;
    S->last_guard = (uint32_t)(g - extra_guard_base);
    uint64_t s = ++S->steps;
    if (me->gap && --me->gap == 0) {
        preempt();
    }
    if (s > S->cfg.max_steps) failc("livelock", "step limit passed: library code keeps running without finishing");
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    (void)b;
    if (!extra_guard_base || a < extra_guard_base) extra_guard_base = a;
}

/* explicit scheduling point inside harness callbacks */
void simrt_point(void) {
    if (!simulated() || self->nopoint) return;
    S->steps++;
    if (S->cfg.gap_mean == 0) return;
    uint32_t y = record(ST_S, replaying ? 0 : (mix(&rng[ST_S]) % 1024) < S->cfg.p_point, 2);
    if (y) preempt();
}
void simrt_yield(void) {
    if (simulated()) reschedule(1);
}

int simrt_set_preemptible(int on) {
    if (!self) return 0;
    int o = self->preemptible;
    self->preemptible = on;
    return o;
}
/* harness code: neither preemption nor scheduling points */
int simrt_set_nopoint(int v) {
    if (!self) return 0;
    int o = self->nopoint;
    self->nopoint = v;
    return o;
}
int simrt_tid(void) { return self ? self->id : -1; }
uint64_t simrt_now(void) { return now_ns; }
void simrt_advance(uint64_t ns) {
    now_ns += ns;
    fire_deadlines();
}
uint64_t simrt_steps(void) { return S->steps; }
int simrt_nothing_else_runnable(void) {
    int c[MAXT];
    return runnable(c) <= 1;
}
void simrt_fault(int kind) { S->faults[kind]++; }

void simrt_event(const char *what, int64_t a, int64_t b) {
    hash_in((uint64_t)a * 31 + (uint64_t)b);
    uint32_t i = S->nev;
    if (i < EV_CAP) {
        event *e = &S->ev[i];
        e->what = what;
        e->a = a;
        e->b = b;
        e->step = (uint32_t)S->steps;
        e->thread = self ? self->id : -1;
        e->ns = now_ns;
        S->nev = i + 1;
    } else
        S->ev_lost++;
}

/* ---------------------------------------------------------------- threads */
static void on_thread_exit(void *v) {
    uintptr_t k = (uintptr_t)v;
    if (k < 4 && self) { /* run last among all key destructors */
        pthread_setspecific(done_key, (void *)(k + 1));
        if (k < 3) return;
    }
    sthread *me = self;
    if (!me || me->state == T_DONE) return;
    me->preemptible = 0;
    me->state = T_DONE;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == T_JOIN && T[i].join_target == me->id) wake_thread(&T[i], 0);
    simrt_event("thread-end", me->id, 0);
    reschedule(1);
}

static void *trampoline(void *p) {
    sthread *me = p;
    self = me;
    pthread_setspecific(done_key, (void *)1);
    wait_first_go(me);
    return me->fn(me->arg);
}

static sthread *new_thread(void *(*fn)(void *), void *arg) {
    if (nthreads >= MAXT) return NULL;
    sthread *t = &T[nthreads];
    memset(t, 0, sizeof *t);
    t->id = nthreads++;
    t->state = T_RUN;
    t->fn = fn;
    t->arg = arg;
    t->join_target = -1;
    t->prio = replaying ? 0 : (int)(mix(&rng[ST_S]) % 1000000);
    return t;
}

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    resolve();
    if (!simulated()) return real_pthread_create(out, attr, fn, arg);
    if (S->cfg.p_spawn_fail && simrt_chance(ST_F, S->cfg.p_spawn_fail, 1024)) {
        S->faults[F_SPAWN]++;
        simrt_event("spawn-fails", 0, 0);
        return EAGAIN;
    }
    sthread *t = new_thread(fn, arg);
    if (!t) return EAGAIN;
    int r = real_pthread_create(&t->real, attr, trampoline, t);
    if (r) {
        t->state = T_DONE;
        return r;
    }
    *out = t->real;
    S->threads++;
    simrt_event("spawn", t->id, 0);
    if (self->gap == 0 && self->preemptible) self->gap = draw_gap();
    if (S->cfg.gap_mean && !self->nopoint) simrt_point();
    return 0;
}

int pthread_join(pthread_t th, void **ret) {
    resolve();
    if (simulated()) {
        for (int i = 0; i < nthreads; i++)
            if (T[i].real == th && T[i].id != self->id && !T[i].detached) {
                if (T[i].state != T_DONE) {
                    self->state = T_JOIN;
                    self->join_target = i;
                    reschedule(1);
                }
                T[i].detached = 1;
                break;
            }
    }
    return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
    resolve();
    if (simulated())
        for (int i = 0; i < nthreads; i++)
            if (T[i].real == th) T[i].detached = 1;
    return real_pthread_detach(th);
}

/* ---------------------------------------------------------------- futex */
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }

static long sim_futex_wait(uint32_t *addr, uint32_t val, uint64_t deadline, uint32_t mask) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
        errno = EAGAIN;
        return -1;
    }
    if (deadline && deadline <= now_ns) {
        errno = ETIMEDOUT;
        return -1;
    }
    S->futex_waits++;
    if (S->cfg.p_spurious && S->steps <= S->cfg.calm_after && simrt_chance(ST_F, S->cfg.p_spurious, 1024)) {
        S->faults[F_SPURIOUS]++;
        simrt_event("spurious-wake", self->id, 0);
        reschedule(1);
        return 0;
    }
    sthread *me = self;
    me->state = T_FUTEX;
    me->faddr = addr;
    me->fmask = mask;
    me->deadline = deadline;
    reschedule(1);
    if (me->wake_result == 1) {
        errno = ETIMEDOUT;
        return -1;
    }
    return 0;
}

static long sim_futex_wake(uint32_t *addr, int n, uint32_t mask) {
    long woken = 0;
    while (n-- > 0) {
        int c[MAXT], k = 0;
        for (int i = 0; i < nthreads; i++)
            if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].fmask & mask)) c[k++] = i;
        if (!k) break;
        uint32_t v = 0;
        if (k > 1) v = simrt_choose(ST_S, k);
        wake_thread(&T[c[v]], 0);
        woken++;
    }
    if (woken && S->cfg.gap_mean) simrt_point();
    return woken;
}

static uint64_t real_base = REAL_BASE; /* moved by wall-clock jumps */
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    resolve();
    if (simulated()) {
        if (nr == SYS_futex) {
            int op = (int)b & FUTEX_CMD_MASK;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                uint64_t dl = 0;
                if (d) {
                    dl = ts_ns((struct timespec *)d);
                    if (op == FUTEX_WAIT) dl += now_ns;
                    else {
                        /* absolute times are on the simulated clocks */
                        uint64_t base = ((int)b & FUTEX_CLOCK_REALTIME) ? real_base : MONO_BASE;
                        dl = dl > base ? dl - base : 1;
                    }
                    if (!dl) dl = 1;
                }
                return sim_futex_wait((uint32_t *)a, (uint32_t)c, dl, op == FUTEX_WAIT ? ~0u : (uint32_t)f);
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
                return sim_futex_wake((uint32_t *)a, (int)c, op == FUTEX_WAKE ? ~0u : (uint32_t)f);
        } else if (nr == SYS_getrandom) {
            return getrandom((void *)a, (size_t)b, (unsigned)c);
        }
    }
    return real_syscall(nr, a, b, c, d, e, f);
}

/* ---------------------------------------------------------------- time */
int clock_gettime(clockid_t id, struct timespec *ts) {
    resolve();
    if (!simulated() || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_BOOTTIME &&
                         id != CLOCK_MONOTONIC_COARSE && id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC_RAW))
        return real_clock_gettime(id, ts);
    now_ns += 200; /* looking at the clock takes a moment, so polling loops see time pass */
    int wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
    if (wall && S->cfg.p_jump && simrt_chance(ST_F, S->cfg.p_jump, 1024)) {
        /* somebody has set the clock since it was last looked at */
        static const uint64_t by[] = {1000000ull, 1000000000ull, 60000000000ull, 86400000000000ull};
        uint32_t k = simrt_choose(ST_F, 8);
        real_base += (k & 1) ? -by[k >> 1] : by[k >> 1];
        S->faults[F_JUMP]++;
        simrt_event("wall-clock-set", (int64_t)(real_base - REAL_BASE), 0);
    }
    uint64_t t = now_ns + (wall ? real_base : MONO_BASE);
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}

/* returns remaining ns (0 when slept to the end) */
static uint64_t sim_sleep_until(uint64_t dl) {
    sthread *me = self;
    if (dl <= now_ns) {
        reschedule(1);
        return 0;
    }
    if (S->cfg.p_eintr && simrt_chance(ST_F, S->cfg.p_eintr, 1024)) {
        uint64_t part = (dl - now_ns) * simrt_choose(ST_F, 8) / 8;
        S->faults[F_EINTR]++;
        simrt_event("sleep-interrupted", (int64_t)part, 0);
        me->state = T_SLEEP;
        me->deadline = now_ns + part + 1;
        reschedule(1);
        return dl > now_ns ? dl - now_ns : 0;
    }
    me->state = T_SLEEP;
    me->deadline = dl;
    reschedule(1);
    return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    resolve();
    if (!simulated()) return real_nanosleep(req, rem);
    uint64_t left = sim_sleep_until(now_ns + ts_ns(req));
    if (left) {
        if (rem) rem->tv_sec = left / 1000000000ull, rem->tv_nsec = left % 1000000000ull;
        errno = EINTR;
        return -1;
    }
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    resolve();
    if (!simulated()) return real_clock_nanosleep(id, flags, req, rem);
    uint64_t base = id == CLOCK_REALTIME ? real_base : MONO_BASE, dl;
    if (flags & TIMER_ABSTIME) {
        uint64_t t = ts_ns(req);
        dl = t > base ? t - base : 0;
    } else
        dl = now_ns + ts_ns(req);
    uint64_t left = sim_sleep_until(dl);
    if (left) {
        if (rem && !(flags & TIMER_ABSTIME)) rem->tv_sec = left / 1000000000ull, rem->tv_nsec = left % 1000000000ull;
        return EINTR;
    }
    return 0;
}
int usleep(useconds_t us) {
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    return nanosleep(&t, NULL);
}
int sched_yield(void) {
    resolve();
    if (!simulated()) return real_sched_yield();
    S->steps++;
    if (S->steps > S->cfg.max_steps) failc("livelock", "step limit passed: a thread keeps yielding");
    reschedule(1);
    return 0;
}

/* ---------------------------------------------------------------- randomness */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    resolve();
    if (!simulated()) return real_getrandom(buf, n, flags);
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(mix(&os_rng) >> 24);
    S->randoms++;
    return (ssize_t)n;
}

/* ---------------------------------------------------------------- running */
struct start {
    void (*fn)(void *);
    void *arg;
};
static void *root_main(void *p) {
    struct start *s = p;
    s->fn(s->arg);
    finish(ST_OK);
    return NULL;
}

/* Runs fn(arg) as simulated thread 0; never returns. */
void simrt_run(simrt_shared *sh, uint64_t seed, int replay, void (*fn)(void *), void *arg) {
    resolve();
    S = sh;
    replaying = replay;
    for (int i = 0; i < 3; i++) {
        uint64_t s = seed * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull + 0x1234567;
        mix(&s);
        rng[i] = s ^ (s << 13);
        S->st[i].len_used = 0;
    }
    os_rng = 0x5DEECE66Dull; /* hash seeds: the same in every run, replays included */
    now_ns = 1;
    pthread_key_create(&done_key, on_thread_exit);
    static struct start st;
    st.fn = fn;
    st.arg = arg;
    sthread *t = new_thread(root_main, &st);
    sim_on = 1;
    cur = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 16u << 20);
    if (real_pthread_create(&t->real, &at, trampoline, t)) _exit(4);
    atomic_store(&t->go, 1);
    rfutex(&t->go, FUTEX_WAKE, 1);
    for (;;) rfutex(&finished, FUTEX_WAIT, 0);
}
