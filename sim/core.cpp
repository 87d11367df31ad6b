// Simulator core: deterministic scheduler, interposed runtime (threads, memory, clock, entropy,
// files), vector-clock race detector. Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <random>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" char __executable_start, _end;

namespace sim {

const char *kind_names[K_NKINDS] = {"spurious_wakeup", "signal_pick", "trylock_fail", "thread_create_fail",
    "alloc_fail", "open_fail", "read_fault", "write_fault", "close_fail", "meta_fail", "crash", "clock_jump", "early_timeout",
    "user1", "user2"};
Shared *sh = nullptr;
Config cfg;

static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
static inline long esys(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
#define FATAL(...) do { char b_[512]; int n_ = snprintf(b_, sizeof b_, __VA_ARGS__); rsys(SYS_write, 2, (long)b_, n_); if (sh) { sh->status = ST_ERROR; memcpy(sh->msg, b_, n_ + 1); } rsys(SYS_exit_group, 97); } while (0)

// ------------------------------------------------------------------ rng
static inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t mix2(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ULL + b + 0x1234567; return splitmix(s); }
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ULL; return h; }

static uint64_t sched_rng, fault_rng;
static inline double u01(uint64_t &s) { return (splitmix(s) >> 11) * (1.0 / 9007199254740992.0); }

// ------------------------------------------------------------------ memory regions
enum : uintptr_t { ARENA_BASE = 0x100000000000ULL, ARENA_SIZE = 1ULL << 30,
                   STACK_BASE = 0x110000000000ULL, STACK_SIZE = 512 << 10, MAXT = 2048,
                   INT_BASE = 0x120000000000ULL, INT_SIZE = 8ULL << 30,
                   SHADOW_A = 0x130000000000ULL, SHADOW_S = 0x138000000000ULL, SHADOW_G = 0x13F000000000ULL,
                   AMAP_BASE = 0x140000000000ULL };
struct Gran { uint64_t cell[4]; uint32_t pc[4]; };

static uintptr_t g_lo, g_hi;
static uintptr_t int_top = INT_BASE;
static void *int_alloc(size_t n) { n = (n + 15) & ~15ULL; void *p = (void *)int_top; int_top += n; if (int_top > INT_BASE + INT_SIZE) FATAL("internal arena exhausted\n"); return p; }

static void map_at(uintptr_t at, size_t n) {
    void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)at) FATAL("mmap of %zu bytes at %lx failed (errno %d)\n", n, (long)at, errno);
}

// ------------------------------------------------------------------ threads
enum TState { T_RUNNABLE, T_BLOCKED, T_SLEEP, T_DONE };
struct VC { uint32_t n, cap; uint32_t *c; };
struct TlsDtor { void (*fn)(void *); void *obj; TlsDtor *next; };
struct Thr {
    int id; int go; int state; int quiet; int oracle;
    void *wait_obj; int wait_kind; bool has_deadline; uint64_t deadline; bool timed_out;
    uint64_t tstep, preempt_at, slice; int spin_obj; uint32_t spin_n;
    VC vc; uint32_t clk;
    pthread_t real; void *(*fn)(void *); void *arg; void *ret; bool joined, detached;
    uint64_t prio; uint64_t wseq;
    const Dev *rd, *rd_end;             // replayed deviations of this thread
    TlsDtor *dtors;
    int waiting_join;
    const char *name;
};
static Thr *thr = nullptr;              // [MAXT]
static int nthr = 0;
static bool active = false;             // simulation running in this process
static __thread Thr *cur __attribute__((tls_model("initial-exec"))) = nullptr;
static uint64_t g_steps, g_seq, clock_off, clock_base = 1700000000ULL * 1000000000ULL, last_now;
static uint64_t entropy_state = 42;
static int nprocs_val = 4;
static bool faults_on = true;
static bool race_on = false;
static RaceFilter race_filter = nullptr;
static int heap_fill = 2;
static int64_t crash_at = -1, crash_torn = 0;
static uint64_t mut_count = 0;
static bool io_on = true;
static IoStat iostat_;

int self() { return cur ? cur->id : -1; }
uint64_t event_seq() { return ++g_seq; }
uint64_t state_hash() { return sh->hash; }
static inline uint64_t raw_now() { return clock_base + clock_off + g_steps * 50; }
uint64_t now_ns() { return g_steps * 50 + clock_off; }

static inline void mixh(uint64_t x) { sh->hash = mix2(sh->hash, x); }
static void vlog(const char *fmt, va_list ap) {
    if (!cfg.trace || sh->loglen + 600 > LOGSZ) return;
    int n = vsnprintf(sh->log + sh->loglen, 512, fmt, ap);
    if (n > 511) n = 511;
    sh->loglen += n; sh->log[sh->loglen++] = '\n'; sh->log[sh->loglen] = 0;
}
static void tlog(const char *fmt, ...) { if (!cfg.trace) return; va_list ap; va_start(ap, fmt); vlog(fmt, ap); va_end(ap); }

[[noreturn]] static void end_process(int code) {
    sh->steps += g_steps; g_steps = 0;
    rsys(SYS_exit_group, code); __builtin_unreachable();
}
static void export_stats() { sh->sim_ns += g_steps * 50 + clock_off; sh->threads += nthr; }

void fail(const char *cls, const char *fmt, ...) {
    if (sh->status != ST_VIOLATION) {
        sh->status = ST_VIOLATION;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
        tlog("VIOLATION [%s] %s", sh->cls, sh->msg);
        mixh(hstr(sh->cls));
    }
    export_stats();
    end_process(1);
}
void note(const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    mixh(hstr(b)); tlog("[t%d] %s", self(), b);
}
void probe(int i, uint64_t n) { sh->probes[i] += n; }
void known_finding(const char *t) { sh->races_known++; snprintf(sh->known, sizeof sh->known, "%s", t); }
void finish_ok() {
    if (sh->status == ST_NONE) sh->status = ST_OK;
    export_stats();
    end_process(0);
}

// ------------------------------------------------------------------ plan
static const Pick *find_over(const char *name) {
    for (int i = 0; i < cfg.nover; i++) if (!strcmp(cfg.over[i].name, name)) return &cfg.over[i];
    return nullptr;
}
static int64_t record_pick(const char *name, int64_t v, int64_t lo = 0) {
    for (int i = 0; i < sh->npicks; i++) if (!strcmp(sh->picks[i].name, name)) { return sh->picks[i].value; }
    if (sh->npicks < MAX_PICKS) {
        snprintf(sh->picks[sh->npicks].name, sizeof sh->picks[0].name, "%s", name);
        sh->picks[sh->npicks].lo = lo; sh->picks[sh->npicks++].value = v;
    }
    mixh(mix2(hstr(name), (uint64_t)v));
    return v;
}
uint64_t derive(const char *name) { return mix2(cfg.seed, hstr(name)); }
int64_t pick(const char *name, int64_t lo, int64_t hi) {
    if (hi < lo) hi = lo;
    const Pick *o = find_over(name);
    int64_t v = o ? o->value : lo + (int64_t)(derive(name) % (uint64_t)(hi - lo + 1));
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return record_pick(name, v, lo);
}
int64_t pick_w(const char *name, std::initializer_list<int> w) {
    int n = (int)w.size(); const Pick *o = find_over(name);
    int64_t v = 0;
    if (o) { v = o->value < 0 ? 0 : o->value >= n ? n - 1 : o->value; }
    else { int tot = 0; for (int x : w) tot += x; int64_t r = (int64_t)(derive(name) % (uint64_t)tot); for (int x : w) { if (r < x) break; r -= x; v++; } }
    return record_pick(name, v);
}
bool pick_p(const char *name, double p) {
    const Pick *o = find_over(name);
    int64_t v = o ? (o->value != 0) : ((derive(name) >> 11) * (1.0 / 9007199254740992.0) < p);
    return record_pick(name, v) != 0;
}
double pick_d(const char *name, double lo, double hi) { return lo + (hi - lo) * (double)pick(name, 0, 1000000) / 1e6; }

// ------------------------------------------------------------------ fault choices
static double fprob[K_NKINDS];
static uint32_t fidx[K_NKINDS];
struct Planned { int kind; uint32_t index, value; };
static Planned planned[64]; static int nplanned = 0;
void set_fault_prob(int k, double p) { fprob[k] = p; }
void set_fault_at(int k, uint32_t i, uint32_t v) { if (nplanned < 64) planned[nplanned++] = {k, i, v}; }
void clear_planned_faults() { nplanned = 0; }
uint32_t fault_index(int k) { return fidx[k]; }
void enable_faults(bool on) { faults_on = on; }
uint32_t choose(int kind, uint32_t n) {
    if (n <= 1 || !active || !cur || cur->quiet || !faults_on) return 0;
    uint32_t idx = fidx[kind]++;
    sh->fault_opps[kind]++;
    uint32_t v = 0;
    for (int i = 0; i < nplanned; i++) if (planned[i].kind == kind && planned[i].index == idx) { v = planned[i].value % n; goto out; }
    if (cfg.replay) {
        for (int i = 0; i < cfg.ndevs; i++) { const Dev &d = cfg.devs[i]; if (d.type == 'F' && d.inc == sh->inc && d.a == kind && d.b == idx) { v = d.v % n; break; } }
    } else if (fprob[kind] > 0 && u01(fault_rng) < fprob[kind]) {
        v = 1 + (uint32_t)(splitmix(fault_rng) % (n - 1));
        if (sh->ndevs < MAX_DEVS) sh->devs[sh->ndevs++] = Dev{'F', (uint8_t)sh->inc, (uint16_t)kind, idx, v, 0};
    }
out:
    if (v) { sh->fault_fired[kind]++; mixh(mix2(kind * 1000003ULL + idx, v)); tlog("[t%d] fault %s#%u = %u", cur->id, kind_names[kind], idx, v); }
    return v;
}

// ------------------------------------------------------------------ vector clocks
static void vc_reserve(VC &v, uint32_t n) {
    if (n <= v.cap) return;
    uint32_t cap = v.cap ? v.cap : 8; while (cap < n) cap *= 2;
    uint32_t *c = (uint32_t *)int_alloc(cap * 4);
    if (v.n) memcpy(c, v.c, v.n * 4);
    v.c = c; v.cap = cap;
}
static void vc_join(VC &a, const VC &b) {
    if (b.n > a.n) { vc_reserve(a, b.n); for (uint32_t i = a.n; i < b.n; i++) a.c[i] = 0; a.n = b.n; }
    for (uint32_t i = 0; i < b.n; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static void vc_set(VC &a, uint32_t i, uint32_t v) {
    if (i >= a.n) { vc_reserve(a, i + 1); for (uint32_t k = a.n; k <= i; k++) a.c[k] = 0; a.n = i + 1; }
    a.c[i] = v;
}
static inline uint32_t vc_get(const VC &a, uint32_t i) { return i < a.n ? a.c[i] : 0; }
static inline void tick(Thr *t) { t->clk++; vc_set(t->vc, t->id, t->clk); }

// ------------------------------------------------------------------ sync objects
struct Obj { uintptr_t key; int id; int owner; int depth; VC vc; int waiters; };
enum { OBJ_BITS = 18 };
static Obj *objs; static int nobj = 0;
static Obj *obj_of(const volatile void *p) {
    uintptr_t k = (uintptr_t)p;
    uint64_t h = (k * 0x9E3779B97F4A7C15ULL) >> (64 - OBJ_BITS);
    for (;;) {
        Obj &o = objs[h];
        if (o.key == k) return &o;
        if (!o.key) { o.key = k; o.id = ++nobj; o.owner = -1; if (nobj > (1 << OBJ_BITS) * 3 / 4) FATAL("too many sync objects\n"); return &o; }
        h = (h + 1) & ((1 << OBJ_BITS) - 1);
    }
}
static inline void acquire(Thr *t, Obj *o) { vc_join(t->vc, o->vc); }
static inline void release(Thr *t, Obj *o) { vc_join(o->vc, t->vc); tick(t); }

// ------------------------------------------------------------------ scheduler
enum Strat { S_WALK, S_PCT, S_STARVE, S_BLOCK };
static int strat = S_WALK;
static double p_sync = 0.1, p_atomic = 0.02, p_hot = 0.0; static double mem_mean = 0;  // 0: never
static int victim = -1;
static uint64_t pct_points[32]; static int npct = 0, pct_i = 0; static uint64_t pct_low = 1ULL << 48;
static const uint64_t SLICE = 3000000;
static const uint32_t SPIN = 400;       // atomic operations in a row on one object that count as a busy wait
static int starved = 0;                 // times in a row that a thread gave way while the victim was kept waiting
static bool timed_seen = false;

static void set_preempt(Thr *t) {
    if (cfg.replay) {
        while (t->rd < t->rd_end && t->rd->b <= t->tstep) t->rd++;
        t->preempt_at = t->rd < t->rd_end ? t->rd->b : ~0ULL;
    } else if (mem_mean > 0) {
        double u = u01(sched_rng); uint64_t d = 1 + (uint64_t)(-mem_mean * __builtin_log(1 - u));
        t->preempt_at = t->tstep + d;
    } else t->preempt_at = ~0ULL;
}
static void wait_go(Thr *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) rsys(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void hand(Thr *n) { __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); rsys(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1); }

static int runnable_list(int *out, int except) {
    int n = 0;
    for (int i = 0; i < nthr; i++) if (i != except && thr[i].state == T_RUNNABLE) out[n++] = i;
    return n;
}
static void describe_blocked(char *b, size_t n) {
    size_t o = 0; b[0] = 0;
    for (int i = 0; i < nthr && o + 80 < n; i++) if (thr[i].state == T_BLOCKED)
        o += snprintf(b + o, n - o, " t%d:%s", i, thr[i].wait_kind == 1 ? "mutex" : thr[i].wait_kind == 2 ? "condvar" : thr[i].wait_kind == 3 ? "join" : thr[i].wait_kind == 4 ? "futex" : "other");
}
static int rr_next(const int *l, int n, int from) { for (int i = 0; i < n; i++) if (l[i] > from) return l[i]; return l[0]; }

static int explore_target(Thr *t, const int *l, int n, bool gave_way = false) {
    if (strat == S_PCT) { int b = l[0]; for (int i = 1; i < n; i++) if (thr[l[i]].prio > thr[b].prio) b = l[i]; return b; }
    if (strat == S_STARVE && n > 1 && (!gave_way || ++starved < 40)) { int m = 0; int c[MAXT]; for (int i = 0; i < n; i++) if (l[i] != victim) c[m++] = l[i]; if (m) return c[splitmix(sched_rng) % m]; }
    return l[splitmix(sched_rng) % n];
}
static void switch_to(Thr *t, int target) {
    sh->switches++;
    mixh(mix2(((uint64_t)t->id << 32) | target, t->tstep)); tlog("switch t%d@%lu -> t%d", t->id, (unsigned long)t->tstep, target);
    t->slice = 0; thr[target].slice = 0;
    if (target == victim) starved = 0;
    Thr *n = &thr[target];
    hand(n);
    if (t->state != T_DONE) { wait_go(t); }
}
static void record_dev(Thr *t, int target) { if (sh->ndevs < MAX_DEVS) sh->devs[sh->ndevs++] = Dev{'S', (uint8_t)sh->inc, (uint16_t)t->id, (uint32_t)t->tstep, (uint32_t)target, 0}; }

static bool fire_timers(bool force) {
    // wake the earliest sleeper/timed waiter; with force, jump the clock
    Thr *b = nullptr;
    for (int i = 0; i < nthr; i++) { Thr *t = &thr[i]; if ((t->state == T_SLEEP || t->state == T_BLOCKED) && t->has_deadline && (!b || t->deadline < b->deadline)) b = t; }
    if (!b) return false;
    if (b->deadline > raw_now()) { if (!force) return false; clock_off += b->deadline - raw_now(); }
    b->timed_out = true; b->has_deadline = false; b->state = T_RUNNABLE;
    return true;
}
// t cannot continue: give the processor to somebody else
static void forced_switch(Thr *t) {
    static int l[MAXT];
    int n;
    if (t->has_deadline) timed_seen = true;
    while ((n = runnable_list(l, -1)) == 0) {
        if (!fire_timers(true)) {
            char b[600]; describe_blocked(b, sizeof b);
            fail("deadlock", "no thread can run:%s", b);
        }
    }
    int def = rr_next(l, n, t->id), tgt = def;
    if (n > 1) {
        if (cfg.replay) { while (t->rd < t->rd_end && t->rd->b < t->tstep) t->rd++; if (t->rd < t->rd_end && t->rd->b == t->tstep) { int w = t->rd->v; for (int i = 0; i < n; i++) if (l[i] == w) tgt = w; } }
        else { tgt = explore_target(t, l, n); if (tgt != def) record_dev(t, tgt); }
    }
    if (tgt == t->id) { sh->switches++; return; }
    switch_to(t, tgt);
}
static void voluntary_switch(Thr *t, bool by_default) {
    static int l[MAXT];
    int n = runnable_list(l, t->id);
    if (!n) return;
    int tgt;
    if (cfg.replay) {
        tgt = -1;
        while (t->rd < t->rd_end && t->rd->b < t->tstep) t->rd++;
        if (t->rd < t->rd_end && t->rd->b == t->tstep) { int w = t->rd->v; for (int i = 0; i < n; i++) if (l[i] == w) tgt = w; }
        if (tgt < 0) { if (!by_default) return; tgt = rr_next(l, n, t->id); }
    } else {
        if (by_default && strat == S_PCT) t->prio = --pct_low;   // it waits for somebody: everybody else comes first
        tgt = explore_target(t, l, n, by_default);
        if (strat == S_PCT && !by_default && thr[tgt].prio < t->prio) return;
        if (!by_default || tgt != rr_next(l, n, t->id)) record_dev(t, tgt);
    }
    switch_to(t, tgt);
}
static inline void step_accounting(Thr *t) {
    t->tstep++; g_steps++; 
    if (__builtin_expect(++t->slice > SLICE, 0)) { t->slice = 0; sh->sliced++; voluntary_switch(t, true); if (cfg.replay) set_preempt(t); t->tstep++; }
    if (__builtin_expect(g_steps > cfg.step_budget, 0)) {
        char b[600]; describe_blocked(b, sizeof b);
        fail("no-progress", "step budget of %lu exhausted in thread t%d; blocked:%s", (unsigned long)cfg.step_budget, t->id, b);
    }
}
// A scheduling point at a synchronisation operation.
static void sync_point(Thr *t, int op, Obj *o, double p) {
    if (t->quiet) return;
    step_accounting(t);
    sh->syncs++;
    mixh(mix2(((uint64_t)op << 40) | ((uint64_t)t->id << 20) | (uint64_t)(o ? o->id : 0), t->tstep));
    if (cfg.trace > 1) tlog("[t%d] sync op %d obj %d (%lx) step %lu", t->id, op, o ? o->id : 0, o ? (long)o->key : 0, (unsigned long)t->tstep);
    sh->ileave_hash = mix2(sh->ileave_hash, ((uint64_t)op << 40) | ((uint64_t)t->id << 20) | (uint64_t)(o ? o->id : 0));
    if (__builtin_expect(timed_seen, 0)) {   // time may pass while the others run
        bool any = false; for (int i = 0; i < nthr && !any; i++) any = thr[i].has_deadline && (thr[i].state == T_SLEEP || thr[i].state == T_BLOCKED);
        if (!any) timed_seen = false; else if (choose(K_TIMER, 2)) fire_timers(true);
    }
    bool sw = false;
    if (cfg.replay) sw = t->tstep == t->preempt_at;
    else if (strat == S_PCT) {
        if (pct_i < npct && g_steps >= pct_points[pct_i]) { pct_i++; t->prio = --pct_low; }
        for (int i = 0; i < nthr; i++) if (thr[i].state == T_RUNNABLE && thr[i].prio > t->prio) { sw = true; break; }
    }
    else if (strat == S_STARVE && t->id == victim) sw = true;
    else if (strat == S_BLOCK) sw = false;
    else sw = u01(sched_rng) < p;
    if (sw) voluntary_switch(t, false);
    if (cfg.replay) set_preempt(t);
}
void yield_point() { if (active && cur && !cur->quiet) sync_point(cur, 30, nullptr, p_sync); }

static void block_on(Thr *t, void *o, int kind) {
    t->state = T_BLOCKED; t->wait_obj = o; t->wait_kind = kind; t->wseq = ++g_seq;
    t->tstep++; g_steps++;
    forced_switch(t);
    if (cfg.replay) set_preempt(t);
}
static void wake_all(void *o, int kind) { for (int i = 0; i < nthr; i++) if (thr[i].state == T_BLOCKED && thr[i].wait_obj == o && thr[i].wait_kind == kind) { thr[i].state = T_RUNNABLE; thr[i].has_deadline = false; } }

void reseed_schedule(uint64_t s) { sched_rng = mix2(s, 77); fault_rng = mix2(s, 78); }
void sequential_schedule() { strat = S_BLOCK; p_sync = p_atomic = p_hot = 0; mem_mean = 0; for (int i = 0; i < K_NKINDS; i++) fprob[i] = 0; }
void default_schedule() {
    int s = (int)pick_w("strat", {50, 25, 15, 10});
    strat = s;
    static const double ps[] = {0.02, 0.1, 0.3, 0.6};
    p_sync = ps[pick("p_sync", 0, 3)]; p_atomic = p_sync / 8;
    static const double mm[] = {0, 100000, 5000, 300, 40};
    mem_mean = strat == S_BLOCK ? 0 : mm[pick_w("p_mem", {3, 2, 3, 3, 1})];
    static const double ph[] = {0, 0.01, 0.1, 0.4};
    p_hot = strat == S_BLOCK ? 0 : ph[pick_w("p_hot", {3, 2, 2, 1})];
    victim = strat == S_STARVE ? (int)pick("victim", 0, 6) : -1;
    if (strat == S_PCT) {
        npct = (int)pick("pct_d", 0, 6); pct_i = 0;
        uint64_t r = derive("pct"); double scale = 100 * __builtin_pow(10.0, (double)pick("pct_scale", 0, 4));
        for (int i = 0; i < npct; i++) pct_points[i] = g_steps + (uint64_t)(u01(r) * scale);
        for (int i = 0; i < npct; i++) for (int j = i + 1; j < npct; j++) if (pct_points[j] < pct_points[i]) { uint64_t x = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = x; }
        mem_mean = 0;
    }
    if (cur) set_preempt(cur);
    fprob[K_SPURIOUS] = pick_w("p_spur", {2, 1, 1}) * 0.15;
    fprob[K_SIGNAL_PICK] = pick_w("p_sig", {1, 1}) * 0.5;
    fprob[K_TRYLOCK] = pick_w("p_try", {2, 1}) * 0.05;
    fprob[K_TIMER] = pick_w("p_timer", {1, 1, 1}) * 0.04;
    fprob[K_CLOCK] = pick_w("p_clock", {1, 1}) * 0.2;
}
// ------------------------------------------------------------------ Quiet scopes
Quiet::Quiet() { if (cur) cur->quiet++; }
Quiet::~Quiet() { if (cur) { cur->quiet--; } }
Oracle::Oracle() { if (cur) cur->quiet++; }
Oracle::~Oracle() { if (cur) cur->quiet--; }

Sut::Sut() { saved = cur ? cur->quiet : 0; if (cur) { cur->quiet = 0; set_preempt(cur); } }
Sut::~Sut() { if (cur) cur->quiet = saved; }

void set_heap_fill(int m) { heap_fill = m; }
void set_clock_base(uint64_t ns) { clock_base = ns; }
void set_entropy(uint64_t s) { entropy_state = s; }
void set_nprocs(int n) { nprocs_val = n; }
void set_race_detection(bool on) { race_on = on; }
void set_race_filter(RaceFilter f) { race_filter = f; }
void set_crash_at(int64_t m, int64_t torn) { crash_at = m; crash_torn = torn; }
uint64_t mutations() { return mut_count; }
void io_track(bool on) { io_on = on; }
IoStat io_stat() { return iostat_; }
void set_thread_name(const char *n) { if (cur) cur->name = n; }
int live_threads() { int n = 0; for (int i = 0; i < nthr; i++) if (thr[i].state != T_DONE) n++; return n; }
int unjoined_threads() { int n = 0; for (int i = 0; i < nthr; i++) if (!thr[i].joined && !thr[i].detached) n++; return n; }
int created_threads() { return nthr; }

// ------------------------------------------------------------------ thread creation
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static FILE *(*real_fopen)(const char *, const char *);
static int (*real_fclose)(FILE *);

static void *tramp(void *p) {
    Thr *t = (Thr *)p;
    cur = t;
    wait_go(t);
    set_preempt(t);
    t->ret = t->fn(t->arg);
    while (t->dtors) { TlsDtor *d = t->dtors; t->dtors = d->next; d->fn(d->obj); }
    sync_point(t, 20, nullptr, p_sync);
    t->quiet = 1;
    tick(t);
    t->state = T_DONE;
    wake_all(t, 3);
    t->tstep++;
    tlog("[t%d] ends", t->id);
    if (t->id == 0) finish_ok();
    forced_switch(t);
    return t->ret;
}
static Thr *new_thread(void *(*fn)(void *), void *arg) {
    if (nthr >= (int)MAXT) fail("error:too-many-threads", "more than %d threads", (int)MAXT);
    Thr *t = &thr[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr++; t->fn = fn; t->arg = arg; t->state = T_RUNNABLE;
    t->prio = (1ULL << 48) + 2000 + (mix2(derive("prio"), t->id) >> 8) % 1000000;
    if (cur) { vc_join(t->vc, cur->vc); t->quiet = cur->quiet; t->oracle = cur->oracle; }
    tick(t);
    if (cur) tick(cur);
    t->rd = t->rd_end = cfg.devs;
    if (cfg.replay) {   // devs are sorted by (type, inc, tid, step)
        const Dev *e = cfg.devs + cfg.ndevs, *p = cfg.devs;
        while (p < e && !(p->type == 'S' && p->inc == sh->inc && p->a == t->id)) p++;
        const Dev *q = p; while (q < e && q->type == 'S' && q->inc == sh->inc && q->a == t->id) q++;
        t->rd = p; t->rd_end = q;
    }
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)(STACK_BASE + (uintptr_t)t->id * STACK_SIZE), STACK_SIZE);
    Thr *me = cur; int q = 0;
    if (me) { q = me->oracle; me->oracle = 1; }   // host allocator for glibc internals
    int r = real_create(&t->real, &at, tramp, t);
    if (me) me->oracle = q;
    pthread_attr_destroy(&at);
    if (r) FATAL("real pthread_create failed: %d\n", r);
    return t;
}

static void on_signal(int sig, siginfo_t *si, void *) {
    if (sh && sh->status != ST_VIOLATION) {
        sh->status = ST_VIOLATION;
        snprintf(sh->cls, sizeof sh->cls, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
        snprintf(sh->msg, sizeof sh->msg, "signal %d in thread t%d", sig, self());
    }
    export_stats();
    end_process(1);
}
static bool term_exits = false;
void set_terminate_exits(bool on) { term_exits = on; }
static void on_terminate() {
    char b[600] = "std::terminate called";
    if (std::type_info *ti = abi::__cxa_current_exception_type()) {
        const char *what = "";
        try { throw; } catch (const std::exception &e) { what = e.what(); } catch (...) { }
        snprintf(b, sizeof b, "std::terminate: uncaught %s: %s (thread t%d)", ti->name(), what, self());
    }
    if (term_exits) { tlog("[t%d] %s", self(), b); sh->scratch[63] = 134; if (sh->status == ST_NONE) sh->status = ST_OK; export_stats(); end_process(0); }
    fail("terminate", "%s", b);
}

void init_process() {
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_fopen = (decltype(real_fopen))dlsym(RTLD_NEXT, "fopen");
    real_fclose = (decltype(real_fclose))dlsym(RTLD_NEXT, "fclose");
    g_lo = (uintptr_t)&__executable_start & ~4095ULL; g_hi = ((uintptr_t)&_end + 4095) & ~4095ULL;
    map_at(ARENA_BASE, ARENA_SIZE); map_at(STACK_BASE, STACK_SIZE * MAXT); map_at(INT_BASE, INT_SIZE);
    map_at(SHADOW_A, ARENA_SIZE / 8 * sizeof(Gran)); map_at(SHADOW_S, STACK_SIZE * MAXT / 8 * sizeof(Gran));
    map_at(SHADOW_G, (g_hi - g_lo) / 8 * sizeof(Gran)); map_at(AMAP_BASE, ARENA_SIZE / 16);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) FATAL("mmap shared\n");
    thr = (Thr *)int_alloc(sizeof(Thr) * MAXT);
    objs = (Obj *)int_alloc(sizeof(Obj) << OBJ_BITS);
}

void reset_shared() {
    memset((void *)sh, 0, offsetof(Shared, picks));
    sh->npicks = 0; sh->ndevs = 0; memset(sh->scratch, 0, sizeof sh->scratch); sh->scratch_str[0] = 0; sh->known[0] = 0;
    sh->loglen = 0; sh->log[0] = 0;
}
void run_in_child(void (*fn)(void *), void *arg) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    if (!cfg.step_budget) cfg.step_budget = 400000000;
    uint64_t s = mix2(cfg.seed, 1000 + sh->inc);
    sched_rng = mix2(s, 1); fault_rng = mix2(s, 2);
    struct A { void (*fn)(void *); void *arg; };
    static A a; a = A{fn, arg};
    active = true;
    Thr *t = new_thread([](void *p) -> void * { A *x = (A *)p; x->fn(x->arg); return nullptr; }, &a);
    t->quiet = 1; t->name = "main";
    hand(t);
    for (;;) rsys(SYS_pause);
}
int run_incarnation(void (*fn)(void *), void *arg, int *code) {
    sh->status = ST_NONE;
    int pid = (int)rsys(SYS_fork);
    if (pid == 0) run_in_child(fn, arg);
    int st = 0;
    while (rsys(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
    if (sh->status == ST_VIOLATION) rsys(SYS_exit_group, 1);
    int r = sh->status == ST_CRASHPOINT ? INC_CRASHED : INC_DONE;
    if (sh->status == ST_NONE) {
        if (WIFEXITED(st)) { r = INC_EXITED; if (code) *code = WEXITSTATUS(st); }
        else { sh->status = ST_VIOLATION; snprintf(sh->cls, 64, "crash:signal"); snprintf(sh->msg, 200, "incarnation killed by signal %d", WTERMSIG(st)); rsys(SYS_exit_group, 1); }
    } else if (code) *code = (int)sh->scratch[63];
    sh->status = ST_NONE; sh->inc++;
    return r;
}

// ------------------------------------------------------------------ race detector
static inline Gran *gran_of(uintptr_t a) {
    if (a - ARENA_BASE < ARENA_SIZE) return (Gran *)SHADOW_A + ((a - ARENA_BASE) >> 3);
    if (a - STACK_BASE < STACK_SIZE * MAXT) return (Gran *)SHADOW_S + ((a - STACK_BASE) >> 3);
    if (a - g_lo < g_hi - g_lo) return (Gran *)SHADOW_G + ((a - g_lo) >> 3);
    return nullptr;
}
// cell: tid:12 | clk:32 | mask:8 | write:1 | atomic:1 | valid:1
static inline uint64_t mkcell(int tid, uint32_t clk, uint8_t mask, bool w, bool at) { return (uint64_t)tid << 52 | (uint64_t)clk << 20 | (uint64_t)mask << 12 | (uint64_t)w << 2 | (uint64_t)at << 1 | 1; }
static void report_race(Thr *t, uintptr_t a, bool w, uintptr_t pc, uint64_t cell, uint32_t ppc) {
    int pt = (int)(cell >> 52);
    sh->races_seen++;
    if (race_filter && race_filter(a, t->id, pt)) { return; }
    if (!race_on) return;
    snprintf(sh->where, sizeof sh->where, "%lx %x", (unsigned long)pc, ppc);
    fail("race", "data race: t%d %s (pc %lx) vs earlier t%d %s (pc %x), address region %s", t->id, w ? "writes" : "reads", (unsigned long)pc,
         pt, (cell >> 2) & 1 ? "write" : "read", ppc, a - ARENA_BASE < ARENA_SIZE ? "heap" : a - STACK_BASE < STACK_SIZE * MAXT ? "stack" : "global");
}
// returns true if the location is shared with a conflicting access of another thread
static inline bool shadow_access(Thr *t, uintptr_t a, unsigned size, bool w, bool at, uintptr_t pc) {
    Gran *g = gran_of(a);
    if (!g) return false;
    unsigned off = a & 7;
    uint8_t mask = (uint8_t)(((1u << size) - 1) << off);   // size <= 8 - off
    uint64_t mine = mkcell(t->id, t->clk, mask, w, at);
    bool conflict = false; int slot = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t c = g->cell[i];
        if (!(c & 1)) { if (slot < 0) slot = i; continue; }
        int ct = (int)(c >> 52);
        uint8_t cm = (uint8_t)(c >> 12);
        if (ct == t->id) { if (cm == mask && (w || !((c >> 2) & 1)) && (!at || ((c >> 1) & 1))) slot = i; else if (cm == mask && slot < 0 && (c >> 20 & 0xffffffff) == t->clk && ((c >> 2) & 1) && !w && (at || !((c >> 1) & 1))) slot = -2; continue; }
        if (!(cm & mask)) continue;
        bool cw = (c >> 2) & 1, ca = (c >> 1) & 1;
        if (!(w || cw)) continue;
        conflict = true;
        if (at && ca) continue;
        uint32_t cc = (uint32_t)(c >> 20);
        if (vc_get(t->vc, ct) < cc) report_race(t, a, w, pc, c, g->pc[i]);
        else if (w && (cm & ~mask) == 0 && slot < 0) slot = i;     // ordered before this write: may be replaced
    }
    if (slot == -2) return conflict;
    if (slot < 0) slot = (int)((t->tstep ^ (a >> 3)) & 3);
    g->cell[slot] = mine; g->pc[slot] = (uint32_t)pc;
    return conflict;
}

// ------------------------------------------------------------------ heap
enum { A_NONE = 0, A_LIVE = 1, A_FREED = 2, A_HEAD = 3 };
static uint8_t *const amap = (uint8_t *)AMAP_BASE;
static uintptr_t arena_top = ARENA_BASE;
struct Head { uint64_t size; uint32_t magic; uint32_t seq; };
static uint32_t alloc_seq = 0;
enum { STALE = 4096 }; static uintptr_t stale[STALE];
static inline bool in_arena(const void *p) { return (uintptr_t)p - ARENA_BASE < ARENA_SIZE; }
static void *arena_alloc(size_t size, size_t align) {
    if (align < 16) align = 16;
    uintptr_t p = (arena_top + 16 + align - 1) & ~(uintptr_t)(align - 1);
    size_t r = (size + 15) & ~15ULL;
    if (size > ARENA_SIZE || p + r + 32 > ARENA_BASE + ARENA_SIZE) return nullptr;
    arena_top = p + r;
    Head *h = (Head *)(p - 16); h->size = size; h->magic = 0xA110CA7E; h->seq = ++alloc_seq;
    uintptr_t m = (p - ARENA_BASE) >> 4;
    amap[m - 1] = A_HEAD; memset(amap + m, A_LIVE, r >> 4);
    if (heap_fill == 1) memset((void *)p, 0xFF, size);
    else if (heap_fill == 3) { uintptr_t o = r / 16 < STALE ? stale[r / 16] : 0; if (o) memcpy((void *)p, (void *)o, r); }
    else if (heap_fill >= 2) { uint64_t s = mix2(h->seq, heap_fill); uint64_t x = splitmix(s); for (size_t i = 0; i + 8 <= r; i += 8) { *(uint64_t *)(p + i) = x; x = x * 6364136223846793005ULL + 1442695040888963407ULL; } }
    return (void *)p;
}
static void arena_free(void *p) {
    Head *h = (Head *)((uintptr_t)p - 16);
    if (((uintptr_t)p & 15) || h->magic != 0xA110CA7E) {
        if (h->magic == 0xF4EED000) fail("memory:double-free", "double free in thread t%d", self());
        fail("memory:bad-free", "free of an invalid pointer in thread t%d", self());
    }
    h->magic = 0xF4EED000;
    size_t r = (h->size + 15) & ~15ULL;
    memset(amap + (((uintptr_t)p - ARENA_BASE) >> 4), A_FREED, r >> 4);
    if (heap_fill == 3 && r / 16 < STALE) stale[r / 16] = (uintptr_t)p; else memset(p, 0xDD, h->size);
}
static inline bool use_arena() { return active && cur && !cur->oracle; }
static void mem_error(Thr *t, uintptr_t a, bool w, uintptr_t pc, int st) {
    snprintf(sh->where, sizeof sh->where, "%lx", (unsigned long)pc);
    fail("memory:access", "%s of %s heap memory in thread t%d (pc %lx)", w ? "write" : "read", st == A_FREED ? "freed" : "unallocated", t->id, (unsigned long)pc);
}

static inline void mem_access(uintptr_t a, unsigned size, bool w, uintptr_t pc) {
    Thr *t = cur;
    if (!t || !active) return;
    if (a - ARENA_BASE < ARENA_SIZE) {
        uint8_t s0 = amap[(a - ARENA_BASE) >> 4], s1 = amap[(a + size - 1 - ARENA_BASE) >> 4];
        if (__builtin_expect(s0 != A_LIVE || s1 != A_LIVE, 0)) mem_error(t, a, w, pc, s0 != A_LIVE ? s0 : s1);
    }
    if (t->quiet) return;
    step_accounting(t);
    sh->accesses++;
    bool hot = false;
    unsigned off = a & 7;
    if (off + size <= 8) hot = shadow_access(t, a, size, w, false, pc);
    else {
        uintptr_t e = a + size;
        while (a < e) { unsigned n = 8 - (a & 7); if (n > e - a) n = (unsigned)(e - a); hot |= shadow_access(t, a, n, w, false, pc); a += n; }
    }
    bool sw = t->tstep >= t->preempt_at;
    if (hot) { sh->hot++; if (!cfg.replay && p_hot > 0 && !sw && strat != S_PCT) sw = u01(sched_rng) < p_hot; }
    if (__builtin_expect(!cfg.replay && strat == S_PCT && pct_i < npct && g_steps >= pct_points[pct_i], 0)) { pct_i++; t->prio = --pct_low; sw = true; }
    if (__builtin_expect(sw, 0)) { if (!cfg.replay || t->tstep == t->preempt_at) voluntary_switch(t, false); set_preempt(t); }
}
static void mem_range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    Thr *t = cur;
    if (!t || !active || !n) return;
    if (a - ARENA_BASE < ARENA_SIZE) for (uintptr_t p = a & ~15ULL; p < a + n; p += 16) { uint8_t s = amap[(p - ARENA_BASE) >> 4]; if (s != A_LIVE) mem_error(t, p, w, pc, s); }
    if (t->quiet) return;
    step_accounting(t);
    sh->accesses++;
    uintptr_t e = a + n; bool hot = false;
    while (a < e) { unsigned k = 8 - (a & 7); if (k > e - a) k = (unsigned)(e - a); hot |= shadow_access(t, a, k, w, false, pc); a += k; }
    bool sw = t->tstep >= t->preempt_at;
    if (hot) { sh->hot++; if (!cfg.replay && p_hot > 0 && !sw && strat != S_PCT) sw = u01(sched_rng) < p_hot; }
    if (sw) { if (!cfg.replay || t->tstep == t->preempt_at) voluntary_switch(t, false); set_preempt(t); }
}

// ------------------------------------------------------------------ atomics
enum { MO_RELAXED = 0, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static void atomic_pre(const volatile void *p, unsigned size, bool w, int mo, bool load, bool store, uintptr_t pc) {
    Thr *t = cur;
    if (!t || !active) return;
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA_BASE < ARENA_SIZE) { uint8_t s = amap[(a - ARENA_BASE) >> 4]; if (s != A_LIVE) mem_error(t, a, w, pc, s); }
    Obj *o = obj_of(p);
    sync_point(t, 10, o, p_atomic);
    if (o->id != t->spin_obj) { t->spin_obj = o->id; t->spin_n = 0; }
    else if (++t->spin_n > SPIN && !t->quiet) { t->spin_n = 0; t->tstep++; voluntary_switch(t, true); if (cfg.replay) set_preempt(t); }
    if (!t->quiet && (a & 7) + size <= 8) shadow_access(t, a, size, w, true, pc);
    mo &= 0xff;
    if (load && (mo == MO_ACQUIRE || mo == MO_CONSUME || mo == MO_ACQ_REL || mo == MO_SEQ_CST)) acquire(t, o);
    if (store && (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST)) release(t, o);
}

// ------------------------------------------------------------------ mutex operations
static int m_lock(void *m, bool recursive) {
    Thr *t = cur; Obj *o = obj_of(m);
    sync_point(t, 1, o, p_sync);
    if (o->owner == t->id) { if (recursive) { o->depth++; return 0; } fail("deadlock", "t%d locks a mutex it already holds", t->id); }
    while (o->owner >= 0) { o->waiters++; block_on(t, m, 1); o->waiters--; }
    o->owner = t->id; o->depth = 1;
    acquire(t, o);
    return 0;
}
static int m_trylock(void *m, bool recursive) {
    Thr *t = cur; Obj *o = obj_of(m);
    sync_point(t, 2, o, p_sync);
    if (o->owner == t->id && recursive) { o->depth++; return 0; }
    if (o->owner >= 0) { // let the holder run, so that try-lock loops progress
        t->tstep++; voluntary_switch(t, true); if (cfg.replay) set_preempt(t);
        return EBUSY;
    }
    if (choose(K_TRYLOCK, 2)) return EBUSY;
    o->owner = t->id; o->depth = 1; acquire(t, o);
    return 0;
}
static void m_unlock_raw(Thr *t, void *m, Obj *o) {
    if (o->owner != t->id) fail("mutex-misuse", "t%d unlocks a mutex held by %d", t->id, o->owner);
    if (--o->depth > 0) return;
    o->owner = -1; release(t, o);
    if (o->waiters) wake_all(m, 1);
}
static int m_unlock(void *m) { Thr *t = cur; Obj *o = obj_of(m); m_unlock_raw(t, m, o); sync_point(t, 3, o, p_sync); return 0; }

static int c_wait(void *c, void *m, bool timed, uint64_t deadline) {
    Thr *t = cur; Obj *oc = obj_of(c), *om = obj_of(m);
    sync_point(t, 4, oc, p_sync);
    if (om->owner != t->id) fail("mutex-misuse", "t%d waits on a condition without holding its mutex", t->id);
    int depth = om->depth; om->depth = 1;
    m_unlock_raw(t, m, om);
    int ret = 0;
    bool spur = choose(K_SPURIOUS, 2);
    if (spur) { t->tstep++; voluntary_switch(t, true); if (cfg.replay) set_preempt(t); }
    else {
        t->timed_out = false; t->has_deadline = timed; t->deadline = deadline;
        block_on(t, c, 2);
        if (t->timed_out) { ret = ETIMEDOUT; t->timed_out = false; }
    }
    while (om->owner >= 0) { om->waiters++; block_on(t, m, 1); om->waiters--; }
    om->owner = t->id; om->depth = depth; acquire(t, om);
    return ret;
}
static void c_signal(void *c, bool all) {
    Thr *t = cur; Obj *o = obj_of(c);
    sync_point(t, all ? 6 : 5, o, p_sync);
    Thr *w[256]; int n = 0;
    for (int i = 0; i < nthr && n < 256; i++) if (thr[i].state == T_BLOCKED && thr[i].wait_obj == c && thr[i].wait_kind == 2) w[n++] = &thr[i];
    if (!n) return;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[j]->wseq < w[i]->wseq) { Thr *x = w[i]; w[i] = w[j]; w[j] = x; }
    if (all) { for (int i = 0; i < n; i++) { w[i]->state = T_RUNNABLE; w[i]->has_deadline = false; } }
    else { int k = (int)choose(K_SIGNAL_PICK, n); w[k]->state = T_RUNNABLE; w[k]->has_deadline = false; }
}

// ------------------------------------------------------------------ simulated disk (fault shim)
enum { MAXFD = 256 };
static uint8_t fd_sim[MAXFD]; static char fd_path[MAXFD][128];
static uint8_t fd_full[MAXFD], fd_wr[MAXFD];
// files opened for writing whose closing completed, one path per line (survives a simulated crash)
static void completed(int fd) { if (fd < 0 || fd >= MAXFD || !fd_wr[fd]) return; size_t n = strlen(sh->scratch_str); snprintf(sh->scratch_str + n, sizeof sh->scratch_str - n, "%s\n", fd_path[fd]); }
static inline bool tracked(int fd) { return active && cur && io_on && fd >= 0 && fd < MAXFD && fd_sim[fd]; }
// a mutating operation is about to happen; returns true if the crash comes here
static bool mutation_crash() {
    if (cur->quiet) return false;
    uint64_t m = mut_count++;
    if (crash_at >= 0 && (int64_t)m == crash_at) return true;
    return false;
}
[[noreturn]] static void crash_now() {
    sh->fault_fired[K_CRASH]++; tlog("[t%d] simulated crash", cur->id); mixh(0xC4A54);
    sh->status = ST_CRASHPOINT; export_stats(); end_process(0);
}
static int open_fault() {
    static const int e[] = {0, EACCES, EMFILE, EIO, ENOSPC};
    int v = choose(K_OPEN, 5); return e[v];
}
// a finished file that gets another name is finished under that name
static void renamed(const char *a, const char *b) { char pat[160]; snprintf(pat, sizeof pat, "%s\n", a); const char *f = strstr(sh->scratch_str, pat); if (!f || (f != sh->scratch_str && f[-1] != '\n')) return; size_t n = strlen(sh->scratch_str); snprintf(sh->scratch_str + n, sizeof sh->scratch_str - n, "%s\n", b); }
static void register_fd(int fd, const char *path, bool wr) { if (fd >= 0 && fd < MAXFD) { fd_sim[fd] = 1; fd_full[fd] = 0; fd_wr[fd] = wr; snprintf(fd_path[fd], sizeof fd_path[0], "%s", path); } }
static int sim_open(const char *path, int flags, int mode) {
    if (!active || !cur || !io_on || cur->quiet || !strncmp(path, "/proc", 5) || !strncmp(path, "/sys", 4) || !strncmp(path, "/dev", 4))
        return (int)esys(rsys(SYS_openat, AT_FDCWD, (long)path, flags, mode));
    iostat_.opens++;
    sync_point(cur, 40, nullptr, p_sync);
    bool mut = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (mut && mutation_crash()) { if (crash_torn > 0) { long fd = rsys(SYS_openat, AT_FDCWD, (long)path, flags, mode); (void)fd; } crash_now(); }
    int e = open_fault(); if (e) { errno = e; return -1; }
    int fd = (int)esys(rsys(SYS_openat, AT_FDCWD, (long)path, flags, mode));
    register_fd(fd, path, mut);
    tlog("[t%d] open %s -> %s", cur->id, path, fd >= 0 ? "ok" : "error");
    return fd;
}
static ssize_t sim_read(int fd, void *b, size_t n) {
    if (!tracked(fd) || cur->quiet) return esys(rsys(SYS_read, fd, (long)b, n));
    iostat_.reads++;
    sync_point(cur, 41, nullptr, p_sync);
    int v = choose(K_READ, 4);
    if (v == 1) { errno = EINTR; return -1; }
    if (v == 2) { errno = EIO; return -1; }
    if (v == 3 && n > 1) n = 1 + mix2(derive("shortread"), fidx[K_READ]) % (n - 1);
    ssize_t r = esys(rsys(SYS_read, fd, (long)b, n));
    tlog("[t%d] read %s %zu -> %zd", cur->id, fd_path[fd], n, r);
    return r;
}
static ssize_t sim_write_iov(int fd, const struct iovec *iov, int cnt) {
    size_t n = 0; for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
    if (!tracked(fd) || cur->quiet) return esys(rsys(SYS_writev, fd, (long)iov, cnt));
    iostat_.writes++;
    sync_point(cur, 42, nullptr, p_sync);
    size_t lim = n; bool crash = mutation_crash(); int err = 0;
    if (crash) lim = (size_t)crash_torn < n ? (size_t)crash_torn : n;
    else {
        if (fd_full[fd]) { errno = ENOSPC; return -1; }
        int v = choose(K_WRITE, 6);
        if (v == 1) { errno = EINTR; return -1; }
        if (v == 2) { errno = EIO; return -1; }
        if (v == 3 && n > 1) lim = 1 + mix2(derive("shortwrite"), fidx[K_WRITE]) % (n - 1);
        if (v == 4) { errno = ENOSPC; fd_full[fd] = 1; return -1; }
        if (v == 5) { fd_full[fd] = 1; if (n > 1) lim = 1 + mix2(derive("shortwrite"), fidx[K_WRITE]) % (n - 1); else { errno = ENOSPC; return -1; } }   // fills up in the middle
    }
    size_t done = 0;
    for (int i = 0; i < cnt && done < lim; i++) {
        size_t k = iov[i].iov_len; if (k > lim - done) k = lim - done;
        size_t o = 0;
        while (o < k) { long r = rsys(SYS_write, fd, (long)iov[i].iov_base + o, k - o); if (r <= 0) { err = (int)-r; break; } o += r; }
        done += o; if (err) break;
    }
    tlog("[t%d] write %s %zu -> %zu%s", cur->id, fd_path[fd], n, done, crash ? " (crash)" : "");
    if (crash) crash_now();
    if (!done && err) { errno = err; return -1; }
    return (ssize_t)done;
}
static int sim_close(int fd) {
    if (!tracked(fd)) return (int)esys(rsys(SYS_close, fd));
    fd_sim[fd] = 0;
    if (cur->quiet) return (int)esys(rsys(SYS_close, fd));
    iostat_.closes++;
    sync_point(cur, 43, nullptr, p_sync);
    if (mutation_crash()) crash_now();
    int v = choose(K_CLOSE, 3);
    int r = (int)esys(rsys(SYS_close, fd));
    if (v) { errno = v == 1 ? EIO : ENOSPC; return -1; }
    if (!r) completed(fd);
    return r;
}
static int meta_pre() {
    if (!active || !cur || !io_on || cur->quiet) return 0;
    iostat_.meta++;
    sync_point(cur, 44, nullptr, p_sync);
    if (mutation_crash()) crash_now();
    static const int e[] = {0, EIO, ENOSPC, EACCES};
    return e[choose(K_META, 4)];
}
}  // namespace sim

using namespace sim;
#define IN_SIM (active && cur)
#define EXP extern "C" __attribute__((visibility("default")))
#define PC ((uintptr_t)__builtin_return_address(0))

// ================================================================== interposed: threads
EXP int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!IN_SIM) { if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create"); return real_create(out, at, fn, arg); }
    sync_point(cur, 50, nullptr, p_sync);
    if (choose(K_THREAD, 2)) return EAGAIN;
    Thr *t = new_thread(fn, arg);
    *out = t->real;
    tlog("[t%d] creates t%d", cur->id, t->id);
    if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); if (ds == PTHREAD_CREATE_DETACHED) t->detached = true; }
    sync_point(cur, 51, nullptr, p_sync);
    return 0;
}
static Thr *by_real(pthread_t p) { for (int i = nthr - 1; i >= 0; i--) if (pthread_equal(thr[i].real, p) && !thr[i].joined) return &thr[i]; return nullptr; }
EXP int pthread_join(pthread_t p, void **ret) {
    if (!IN_SIM) { if (!real_join) real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join"); return real_join(p, ret); }
    Thr *t = by_real(p);
    sync_point(cur, 52, nullptr, p_sync);
    if (!t) return ESRCH;
    if (t == cur) return EDEADLK;
    while (t->state != T_DONE) block_on(cur, t, 3);
    vc_join(cur->vc, t->vc); tick(cur);
    t->joined = true;
    int q = cur->oracle; cur->oracle = 1;
    real_join(p, nullptr);
    cur->oracle = q;
    if (ret) *ret = t->ret;
    tlog("[t%d] joined t%d", cur->id, t->id);
    return 0;
}
EXP int pthread_detach(pthread_t p) {
    if (!IN_SIM) { static int (*r)(pthread_t); if (!r) r = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return r(p); }
    Thr *t = by_real(p); if (!t) return ESRCH; t->detached = true; return 0;
}
// ================================================================== interposed: mutexes
static inline bool rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
EXP int pthread_mutex_lock(pthread_mutex_t *m) { if (!IN_SIM) return 0; return m_lock(m, rec(m)); }
EXP int pthread_mutex_trylock(pthread_mutex_t *m) { if (!IN_SIM) return 0; return m_trylock(m, rec(m)); }
EXP int pthread_mutex_unlock(pthread_mutex_t *m) { if (!IN_SIM) return 0; return m_unlock(m); }
EXP int pthread_mutex_destroy(pthread_mutex_t *m) { if (IN_SIM) { Obj *o = obj_of(m); if (o->owner >= 0) fail("mutex-misuse", "a locked mutex is destroyed"); } return 0; }
EXP int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { if (!IN_SIM) return 0; return m_lock(m, rec(m)); }
EXP int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { if (!IN_SIM) return 0; return m_lock(m, rec(m)); }
EXP int pthread_spin_lock(pthread_spinlock_t *m) { if (!IN_SIM) return 0; return m_lock((void *)m, false); }
EXP int pthread_spin_unlock(pthread_spinlock_t *m) { if (!IN_SIM) return 0; return m_unlock((void *)m); }
// rwlocks: modelled as exclusive locks for writers, shared count for readers
static int rw_lock(void *m, bool wr, bool tryl) {
    Thr *t = cur; Obj *o = obj_of(m);
    sync_point(t, wr ? 8 : 7, o, p_sync);
    while (o->owner >= 0 || (wr && o->depth > 0)) { if (tryl) return EBUSY; o->waiters++; block_on(t, m, 1); o->waiters--; }
    if (wr) o->owner = t->id; else o->depth++;
    acquire(t, o); return 0;
}
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return IN_SIM ? rw_lock(m, false, false) : 0; }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return IN_SIM ? rw_lock(m, true, false) : 0; }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return IN_SIM ? rw_lock(m, false, true) : 0; }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return IN_SIM ? rw_lock(m, true, true) : 0; }
EXP int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!IN_SIM) return 0;
    Obj *o = obj_of(m); if (o->owner == cur->id) o->owner = -1; else if (o->depth > 0) o->depth--; else fail("mutex-misuse", "rwlock unlocked twice");
    release(cur, o); if (o->waiters) wake_all(m, 1); sync_point(cur, 9, o, p_sync); return 0;
}
// ================================================================== interposed: condition variables
static uint64_t to_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec; }
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!IN_SIM) return 0; return c_wait(c, m, false, 0); }
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!IN_SIM) return ETIMEDOUT; return c_wait(c, m, true, to_ns(ts)); }
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { if (!IN_SIM) return ETIMEDOUT; return c_wait(c, m, true, to_ns(ts)); }
EXP int pthread_cond_signal(pthread_cond_t *c) { if (IN_SIM) c_signal(c, false); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t *c) { if (IN_SIM) c_signal(c, true); return 0; }
EXP int pthread_cond_destroy(pthread_cond_t *c) {
    if (IN_SIM) for (int i = 0; i < nthr; i++) if (thr[i].state == T_BLOCKED && thr[i].wait_obj == c && thr[i].wait_kind == 2) fail("mutex-misuse", "a condition variable with waiters is destroyed");
    return 0;
}
// ================================================================== interposed: once, guards, tls dtors
EXP int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    int *s = (int *)o;
    if (*s == 2) { if (IN_SIM) acquire(cur, obj_of(o)); return 0; }
    if (IN_SIM) { while (*s == 1) { block_on(cur, (void *)o, 5); } if (*s == 2) { acquire(cur, obj_of(o)); return 0; } }
    *s = 1;
    try { fn(); } catch (...) { *s = 0; if (IN_SIM) wake_all((void *)o, 5); throw; }
    *s = 2;
    if (IN_SIM) { release(cur, obj_of(o)); wake_all((void *)o, 5); }
    return 0;
}
EXP int __cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *)g;
    if (b[0]) { if (IN_SIM) acquire(cur, obj_of(g)); return 0; }
    if (IN_SIM) { sync_point(cur, 55, obj_of(g), p_sync); while (b[1]) block_on(cur, g, 5); if (b[0]) { acquire(cur, obj_of(g)); return 0; } }
    b[1] = 1; return 1;
}
EXP void __cxa_guard_release(uint64_t *g) { uint8_t *b = (uint8_t *)g; b[1] = 0; b[0] = 1; if (IN_SIM) { release(cur, obj_of(g)); wake_all(g, 5); } }
EXP void __cxa_guard_abort(uint64_t *g) { uint8_t *b = (uint8_t *)g; b[1] = 0; if (IN_SIM) wake_all(g, 5); }
extern "C" int __cxa_thread_atexit_impl(void (*)(void *), void *, void *);
EXP int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
    if (!IN_SIM || cur->id == 0) return IN_SIM ? 0 : __cxa_thread_atexit_impl(fn, obj, dso);
    TlsDtor *d = (TlsDtor *)int_alloc(sizeof *d); d->fn = fn; d->obj = obj; d->next = cur->dtors; cur->dtors = d; return 0;
}
// ================================================================== interposed: time, cpu count, entropy
static uint64_t sim_clock() {
    uint32_t v = choose(K_CLOCK, 4);
    if (v == 1) clock_off += 1000000ULL; else if (v == 2) clock_off += 3600ULL * 1000000000ULL; else if (v == 3) clock_off += 7;
    g_steps++;
    return raw_now();
}
EXP int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!IN_SIM) return (int)esys(rsys(SYS_clock_gettime, id, (long)ts));
    uint64_t n = sim_clock(); ts->tv_sec = n / 1000000000ULL; ts->tv_nsec = n % 1000000000ULL; return 0;
}
EXP int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXP time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXP clock_t clock(void) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_nsec / 1000; }
static int sim_sleep(uint64_t ns) {
    Thr *t = cur; t->state = T_SLEEP; t->has_deadline = true; t->deadline = raw_now() + ns; t->tstep++; g_steps++;
    forced_switch(t); t->has_deadline = false; t->state = T_RUNNABLE; if (cfg.replay) set_preempt(t); return 0;
}
EXP int nanosleep(const struct timespec *a, struct timespec *b) { if (!IN_SIM) return (int)esys(rsys(SYS_nanosleep, (long)a, (long)b)); return sim_sleep(to_ns(a)); }
EXP int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (!IN_SIM) return (int)-rsys(SYS_clock_nanosleep, c, fl, (long)a, (long)b);
    uint64_t d = to_ns(a); if (fl & TIMER_ABSTIME) { uint64_t n = raw_now(); d = d > n ? d - n : 0; } return sim_sleep(d);
}
EXP int usleep(useconds_t u) { if (!IN_SIM) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)esys(rsys(SYS_nanosleep, (long)&ts, 0)); } return sim_sleep((uint64_t)u * 1000); }
EXP int sched_yield(void) {
    if (!IN_SIM) return (int)rsys(SYS_sched_yield);
    Thr *t = cur; if (t->quiet) return 0;
    step_accounting(t);
    voluntary_switch(t, true); if (cfg.replay) set_preempt(t); return 0;
}
EXP int get_nprocs(void) { return IN_SIM ? nprocs_val : 8; }
EXP int get_nprocs_conf(void) { return IN_SIM ? nprocs_val : 8; }
EXP long sysconf(int name) {
    if (IN_SIM && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return nprocs_val;
    static long (*r)(int); if (!r) r = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); return r(name);
}
static void fill_entropy(void *b, size_t n) { uint8_t *p = (uint8_t *)b; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)splitmix(entropy_state); }
EXP ssize_t getrandom(void *b, size_t n, unsigned f) { if (!IN_SIM) return esys(rsys(SYS_getrandom, (long)b, n, f)); fill_entropy(b, n); return n; }
EXP int getentropy(void *b, size_t n) { if (!IN_SIM) { rsys(SYS_getrandom, (long)b, n, 0); return 0; } fill_entropy(b, n); return 0; }
EXP uint32_t arc4random(void) { uint32_t x; getentropy(&x, 4); return x; }
std::random_device::result_type std::random_device::_M_getval() { uint32_t x; getentropy(&x, 4); return x; }
EXP pid_t getpid(void) { return IN_SIM ? (pid_t)(1000 + entropy_state % 1000) : (pid_t)rsys(SYS_getpid); }
EXP int rand(void) { static uint64_t s = 1; if (IN_SIM) return (int)(splitmix(entropy_state) & 0x7fffffff); return (int)(splitmix(s) & 0x7fffffff); }
EXP long random(void) { return rand(); }

EXP long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (IN_SIM && n == SYS_futex) {
        int op = (int)a[1] & 127; int *u = (int *)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(cur, 60, obj_of(u), p_sync);
            if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            if (a[3]) { cur->has_deadline = true; cur->deadline = to_ns((struct timespec *)a[3]) + (op == FUTEX_WAIT ? raw_now() : 0); cur->timed_out = false; }
            block_on(cur, u, 4);
            if (cur->timed_out) { cur->timed_out = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { sync_point(cur, 61, obj_of(u), p_sync); int k = 0; for (int i = 0; i < nthr && k < (int)a[2]; i++) if (thr[i].state == T_BLOCKED && thr[i].wait_obj == u && thr[i].wait_kind == 4) { thr[i].state = T_RUNNABLE; thr[i].has_deadline = false; k++; } return k; }
    }
    return esys(rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
// ================================================================== interposed: memory
// Failing allocations are injected into operator new and the libraries' own requests, not into Eigen's
// buffers: Eigen 3.4 itself is not exception safe there (DenseStorage::resize frees before it allocates).
extern "C" char __executable_start, etext;
EXP void *malloc(size_t n) {
    if (!use_arena()) return __libc_malloc(n);
    uintptr_t ra = (uintptr_t)__builtin_return_address(0);
    if (!(ra >= (uintptr_t)&__executable_start && ra < (uintptr_t)&etext) && choose(K_ALLOC, 2)) { errno = ENOMEM; return nullptr; }
    void *p = arena_alloc(n, 16); if (!p) errno = ENOMEM; return p;
}
EXP void free(void *p) {
    if (!p) return;
    if (in_arena(p)) { if (active) arena_free(p); return; }
    __libc_free(p);
}
EXP void *calloc(size_t a, size_t b) {
    if (!use_arena()) return __libc_calloc(a, b);
    if (b && a > SIZE_MAX / b) return nullptr;
    void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
EXP void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!in_arena(p)) { if (!use_arena()) return __libc_realloc(p, n); }
    size_t old;
    if (in_arena(p)) { Head *h = (Head *)((uintptr_t)p - 16); if (h->magic != 0xA110CA7E) fail("memory:bad-free", "realloc of an invalid pointer"); old = h->size; }
    else { static size_t (*mus)(void *); if (!mus) mus = (size_t (*)(void *))dlsym(RTLD_NEXT, "malloc_usable_size"); old = mus(p); }
    void *q = malloc(n); if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n); free(p); return q;
}
EXP void *memalign(size_t al, size_t n) {
    if (!use_arena()) return __libc_memalign(al, n);
    return arena_alloc(n, al);
}
EXP void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXP int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
EXP size_t malloc_usable_size(void *p) {
    if (!p) return 0;
    if (in_arena(p)) return ((Head *)((uintptr_t)p - 16))->size;
    static size_t (*mus)(void *); if (!mus) mus = (size_t (*)(void *))dlsym(RTLD_NEXT, "malloc_usable_size"); return mus(p);
}
// ================================================================== interposed: files
static FILE *fsim[64]; 
static FILE *do_fopen(const char *path, const char *mode) {
    if (!real_fopen) real_fopen = (decltype(real_fopen))dlsym(RTLD_NEXT, "fopen");
    if (!IN_SIM || !io_on || cur->quiet || !strncmp(path, "/proc", 5) || !strncmp(path, "/sys", 4) || !strncmp(path, "/dev", 4)) {
        int q = 0; if (cur) { q = cur->oracle; cur->oracle = 1; }
        FILE *f = real_fopen(path, mode); if (cur) cur->oracle = q; return f;
    }
    iostat_.opens++;
    sync_point(cur, 40, nullptr, p_sync);
    bool mut = mode[0] != 'r' || strchr(mode, '+');
    if (mut && mutation_crash()) { if (crash_torn > 0) { cur->oracle++; FILE *f = real_fopen(path, mode); (void)f; } crash_now(); }
    int e = open_fault(); if (e) { errno = e; return nullptr; }
    cur->oracle++;
    FILE *f = real_fopen(path, mode);
    cur->oracle--;
    int er = errno;
    tlog("[t%d] fopen %s %s -> %s", cur->id, path, mode, f ? "ok" : "error");
    if (f) { register_fd(fileno(f), path, mut); for (auto &s : fsim) if (!s) { s = f; break; } }
    errno = er;
    return f;
}
EXP FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
EXP FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
EXP int fclose(FILE *f) {
    if (!real_fclose) real_fclose = (decltype(real_fclose))dlsym(RTLD_NEXT, "fclose");
    bool mine = false; if (f) for (auto &s : fsim) if (s == f) { s = nullptr; mine = true; break; }
    int v = 0;
    int cfd = -1;
    if (mine && IN_SIM) {
        int fd = fileno(f); cfd = fd; if (fd >= 0 && fd < MAXFD) fd_sim[fd] = 0;
        if (!cur->quiet && io_on) { iostat_.closes++; sync_point(cur, 43, nullptr, p_sync); if (mutation_crash()) crash_now(); v = choose(K_CLOSE, 3); }
    }
    int q = 0; if (cur) { q = cur->oracle; cur->oracle = 1; }
    int r = real_fclose(f);
    if (cur) cur->oracle = q;
    if (v) { errno = v == 1 ? EIO : ENOSPC; return EOF; }
    if (!r && cfd >= 0) completed(cfd);
    return r;
}
EXP int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(p, fl, m); }
EXP int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(p, fl, m); }
EXP int creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXP int close(int fd) { return sim_close(fd); }
EXP ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n); }
EXP ssize_t write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; if (!tracked(fd)) return esys(rsys(SYS_write, fd, (long)b, n)); return sim_write_iov(fd, &v, 1); }
EXP ssize_t writev(int fd, const struct iovec *v, int n) { return sim_write_iov(fd, v, n); }
EXP int rename(const char *a, const char *b) { int e = meta_pre(); if (e) { errno = e; return -1; } int r = (int)esys(rsys(SYS_rename, (long)a, (long)b)); if (!r && cur && io_on) renamed(a, b); return r; }
EXP int renameat(int ad, const char *a, int bd, const char *b) { if (ad == AT_FDCWD && bd == AT_FDCWD) return rename(a, b); return (int)esys(rsys(SYS_renameat, ad, (long)a, bd, (long)b)); }
EXP int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (d == AT_FDCWD) return sim_open(p, fl, m); return (int)esys(rsys(SYS_openat, d, (long)p, fl, m)); }
EXP int mkstemp(char *t) { size_t n = strlen(t); if (n < 6) { errno = EINVAL; return -1; } for (int i = 0; i < 100; i++) { snprintf(t + n - 6, 7, "t%05d", i); int fd = sim_open(t, O_CREAT | O_EXCL | O_RDWR, 0600); if (fd >= 0 || errno != EEXIST) return fd; } return -1; }
EXP int unlink(const char *a) { int e = meta_pre(); if (e) { errno = e; return -1; } return (int)esys(rsys(SYS_unlink, (long)a)); }
EXP int remove(const char *a) { return unlink(a); }
EXP int fsync(int fd) { if (!tracked(fd)) return (int)esys(rsys(SYS_fsync, fd)); int e = meta_pre(); if (e) { errno = e; return -1; } return 0; }
EXP int ftruncate(int fd, off_t n) { if (tracked(fd)) { int e = meta_pre(); if (e) { errno = e; return -1; } } return (int)esys(rsys(SYS_ftruncate, fd, n)); }
EXP void exit(int code) {
    if (IN_SIM) { fflush(stdout); sh->scratch[63] = code; if (sh->status == ST_NONE) sh->status = ST_OK; export_stats(); end_process(0); }
    static void (*r)(int); if (!r) r = (void (*)(int))dlsym(RTLD_NEXT, "exit"); r(code); __builtin_unreachable();
}
EXP void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (IN_SIM) fail("assertion", "assertion failed: %.300s (%s:%u)", e, f, l);
    FATAL("assertion failed outside the simulation: %s %s:%u\n", e, f, l);
}
EXP void *__wrap_memcpy(void *d, const void *s, size_t n) { mem_range((uintptr_t)s, n, false, PC); mem_range((uintptr_t)d, n, true, PC); return __builtin_memcpy(d, s, n); }
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
EXP void *__wrap_memmove(void *d, const void *s, size_t n) { mem_range((uintptr_t)s, n, false, PC); mem_range((uintptr_t)d, n, true, PC); return __real_memmove(d, s, n); }
// what goes through the streams of the C++ library is read and written there, out of sight
extern "C" void *__real__ZNSo5writeEPKcl(void *, const char *, long); extern "C" void *__real__ZNSi4readEPcl(void *, char *, long);
EXP void *__wrap__ZNSo5writeEPKcl(void *o, const char *p, long n) { if (n > 0) mem_range((uintptr_t)p, n, false, PC); return __real__ZNSo5writeEPKcl(o, p, n); }
EXP void *__wrap__ZNSi4readEPcl(void *o, char *p, long n) { void *r = __real__ZNSi4readEPcl(o, p, n); if (n > 0) mem_range((uintptr_t)p, n, true, PC); return r; }
EXP void *__wrap_memset(void *d, int c, size_t n) { mem_range((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }

// ================================================================== __tsan_* runtime
EXP void __tsan_init(void) {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit(void) {}
#define RW(n) \
    EXP void __tsan_read##n(void *a) { mem_access((uintptr_t)a, n, false, PC); } \
    EXP void __tsan_write##n(void *a) { mem_access((uintptr_t)a, n, true, PC); } \
    EXP void __tsan_unaligned_read##n(void *a) { mem_access((uintptr_t)a, n, false, PC); } \
    EXP void __tsan_unaligned_write##n(void *a) { mem_access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void *a, size_t n) { mem_range((uintptr_t)a, n, false, PC); }
EXP void __tsan_write_range(void *a, size_t n) { mem_range((uintptr_t)a, n, true, PC); }
EXP void __tsan_vptr_update(void **p, void *v) { mem_access((uintptr_t)p, 8, *p != v, PC); }   // one step whatever the memory held before
EXP void __tsan_vptr_read(void **p) { mem_access((uintptr_t)p, 8, false, PC); }

#define AT(bits, T) \
    EXP T __tsan_atomic##bits##_load(const volatile void *a, int mo) { atomic_pre(a, bits / 8, false, mo, true, false, PC); return __atomic_load_n((const volatile T *)a, __ATOMIC_SEQ_CST); } \
    EXP void __tsan_atomic##bits##_store(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, false, true, PC); __atomic_store_n((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_exchange(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_exchange_n((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_fetch_add(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_fetch_add((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_fetch_sub(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_fetch_sub((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_fetch_and(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_fetch_and((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_fetch_or(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_fetch_or((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_fetch_xor(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_fetch_xor((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_fetch_nand(volatile void *a, T v, int mo) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_fetch_nand((volatile T *)a, v, __ATOMIC_SEQ_CST); } \
    EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile void *a, void *c, T v, int mo, int) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_compare_exchange_n((volatile T *)a, (T *)c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile void *a, void *c, T v, int mo, int) { atomic_pre(a, bits / 8, true, mo, true, true, PC); return __atomic_compare_exchange_n((volatile T *)a, (T *)c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    EXP T __tsan_atomic##bits##_compare_exchange_val(volatile void *a, T c, T v, int mo, int) { atomic_pre(a, bits / 8, true, mo, true, true, PC); __atomic_compare_exchange_n((volatile T *)a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) { if (IN_SIM) { static int f; Obj *o = obj_of(&f); acquire(cur, o); release(cur, o); } }
EXP void __tsan_atomic_signal_fence(int) {}
