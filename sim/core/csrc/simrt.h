#ifndef SIMRT_H
#define SIMRT_H
#include <stddef.h>
#include <stdint.h>
#define STREAM_CAP (1u << 17)
#define EV_CAP (1u << 14)
#define BITMAP_BYTES (1u << 15)
#define MONO_BASE 1000000000000ull
#define REAL_BASE 1700000000000000000ull
enum { ST_W = 0, ST_S = 1, ST_F = 2 };
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2 };
enum { STRAT_RANDOM = 0, STRAT_PCT = 1 };
enum { F_TIME = 0, F_STALL, F_SPURIOUS, F_EINTR, F_SPAWN, F_PANIC, F_CLONE_PANIC, F_CANCEL, F_SPURIOUS_POLL,
       F_STALE_WAKE, F_ERR, F_DELAYED_WAKE, F_SLOW, F_JUMP, F_N = 16 };
typedef struct {
    uint32_t len_in, len_used;
    uint32_t v[STREAM_CAP];
} stream;
typedef struct {
    const char *what;
    int64_t a, b;
    uint64_t ns;
    uint32_t step;
    int32_t thread;
} event;
typedef struct {
    uint32_t strategy;
    uint32_t gap_mean;  /* 0: no preemption */
    uint32_t gap_zero;  /* of 1024: a scheduling that runs until it blocks */
    uint32_t p_point;   /* of 1024 */
    uint32_t p_stall, p_time, p_spurious, p_eintr, p_spawn_fail;
    uint32_t fault_scale; /* of 1024: intensity of the scenario's own faults, 0 = none */
    uint32_t p_jump;      /* of 1024: the wall clock has been set when it is looked at */
    uint32_t pad;
    uint64_t calm_after, max_steps, max_sim_ns;
} simcfg;
typedef struct {
    volatile uint32_t status;
    uint32_t nev, ev_lost, threads;
    char cls[64];
    char msg[4000];
    simcfg cfg;
    uint64_t steps, switches, preemptions, sched_points, idle_advances, futex_waits, randoms, sim_ns, hash, sched_hash;
    uint32_t last_guard, nontrivial;
    uint64_t faults[F_N];
    uint64_t user[16];
    char desc[4000];
    stream st[3];
    event ev[EV_CAP];
    uint8_t bitmap[BITMAP_BYTES];
} simrt_shared;
uint32_t simrt_choose(int st, uint32_t n);
uint32_t simrt_chance(int st, uint32_t num, uint32_t den);
uint32_t simrt_record(int st, uint32_t v, uint32_t n);
uint64_t simrt_rng(int st);
void simrt_fail(const char *cls, const char *msg, size_t len);
void simrt_point(void);
void simrt_yield(void);
int simrt_set_preemptible(int on);
int simrt_set_nopoint(int v);
int simrt_tid(void);
uint64_t simrt_now(void);
void simrt_advance(uint64_t ns);
uint64_t simrt_steps(void);
void simrt_fault(int kind);
void simrt_event(const char *what, int64_t a, int64_t b);
void simrt_run(simrt_shared *sh, uint64_t seed, int replay, void (*fn)(void *), void *arg);
#endif
