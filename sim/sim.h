// Public interface of the simulator core, used by scenarios and by the runner.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- choice kinds (faults)
enum Kind {
    K_SPURIOUS,      // spurious condition variable wake-up
    K_SIGNAL_PICK,   // which waiter a signal wakes
    K_TRYLOCK,       // spurious trylock failure
    K_THREAD,        // pthread_create fails
    K_ALLOC,         // allocation fails
    K_OPEN,          // open fails
    K_READ,          // read fault
    K_WRITE,         // write fault
    K_CLOSE,         // close fault
    K_META,          // rename/unlink/fsync/truncate/mkdir fault
    K_CRASH,         // crash at a mutating I/O operation
    K_CLOCK,         // clock jump
    K_TIMER,         // a timed wait or a sleep ends while other threads can still run
    K_USER1,         // scenario defined
    K_USER2,
    K_NKINDS
};
extern const char *kind_names[K_NKINDS];

struct Pick { char name[40]; int64_t value, lo; };
struct Dev  { uint8_t type; uint8_t inc; uint16_t a; uint32_t b; uint32_t v; uint32_t pad; };  // 'S': a=tid b=tstep v=target; 'F': a=kind b=index v=value

enum { MAX_PICKS = 512, MAX_DEVS = 200000, LOGSZ = 1 << 20 };

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_CRASHPOINT = 3, ST_ERROR = 4 };

// Lives in MAP_SHARED memory: survives the simulated process.
struct Shared {
    int32_t status;
    int32_t inc;                    // incarnation
    char cls[64];                   // violation class
    char msg[4096];
    char where[512];
    uint64_t hash;                  // event log hash
    uint64_t steps, syncs, switches, accesses, hot, sliced;
    uint64_t sim_ns;
    uint64_t threads;
    uint64_t races_seen, races_known;
    uint64_t fault_opps[K_NKINDS], fault_fired[K_NKINDS];
    uint64_t probes[64];
    uint64_t ileave_hash;           // hash over the order of sync operations only
    int32_t npicks; Pick picks[MAX_PICKS];
    int32_t ndevs;  Dev devs[MAX_DEVS];
    // scenario scratch space that survives a simulated crash
    int64_t scratch[64];
    char scratch_str[4096];
    char known[1024];
    uint32_t loglen; char log[LOGSZ];
};
extern Shared *sh;

struct Config {
    uint64_t seed = 1;
    bool replay = false;            // choices come from the tables below, defaults otherwise
    int trace = 0;                  // textual log (2: synchronisation operations too)
    const Pick *over = nullptr; int nover = 0;   // plan overrides
    const Dev *devs = nullptr; int ndevs = 0;    // replayed deviations
    uint64_t step_budget = 0;
};
extern Config cfg;

// ---------------------------------------------------------------- running
void reset_shared();
void set_terminate_exits(bool on);                // an uncaught exception ends the incarnation with status 134
void init_process();                              // once in the runner, before forking
void run_in_child(void (*fn)(void *), void *arg); // runs fn as simulated thread 0; never returns
// For crash scenarios: run fn in a forked incarnation; returns true if it crashed at a crash point,
// false if it completed. Any violation inside ends the whole run. To be called outside the
// simulation (from a "coordinator" scenario).
enum IncResult { INC_DONE, INC_CRASHED, INC_EXITED };
int run_incarnation(void (*fn)(void *), void *arg, int *exit_code);

// ---------------------------------------------------------------- plan and choices
int64_t pick(const char *name, int64_t lo, int64_t hi);           // uniform, named, shrinkable to lo
int64_t pick_w(const char *name, std::initializer_list<int> weights);   // weighted index
bool pick_p(const char *name, double p);
double pick_d(const char *name, double lo, double hi);
uint64_t derive(const char *name);                                // 64-bit from the seed
void set_fault_prob(int kind, double p);                          // probability per opportunity
void set_fault_at(int kind, uint32_t index, uint32_t value);      // one planned fault
void clear_planned_faults();
uint32_t fault_index(int kind);                                   // opportunities so far
uint32_t choose(int kind, uint32_t n);                            // 0 = default
void enable_faults(bool on);

// scheduler knobs (normally chosen by default_schedule())
void default_schedule();
void sequential_schedule();                                       // deterministic run-to-block
void reseed_schedule(uint64_t s);

// ---------------------------------------------------------------- violations and logging
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // into the event log (hashed)
void probe(int i, uint64_t n = 1);
void known_finding(const char *text);
[[noreturn]] void finish_ok();

// ---------------------------------------------------------------- threads
int self();                     // simulated thread id (-1 outside)
int live_threads();             // simulated threads started and not finished
int unjoined_threads();
int created_threads();
uint64_t now_ns();
uint64_t event_seq();           // global sequence number (monotone)
void yield_point();             // explicit scheduling point (scenario threads)

// Quiet: no voluntary preemption, no faults, no race bookkeeping.
struct Quiet { Quiet(); ~Quiet(); };
// Oracle: the checking code of a scenario (scheduled like Quiet).
struct Oracle { Oracle(); ~Oracle(); };
// Sut: the opposite of Quiet for the calling thread (scenario bodies start quiet).
struct Sut { int saved; Sut(); ~Sut(); };
// Sync: hide the steps of harness stubs but keep them schedulable
// ---------------------------------------------------------------- environment
void set_heap_fill(int mode);   // 0 zero, 1 0xFF, 2 pseudo random, 3 what the last freed block of that size held
void set_clock_base(uint64_t ns);
void set_entropy(uint64_t s);
void set_nprocs(int n);
void set_race_detection(bool on);
typedef int (*RaceFilter)(uintptr_t addr, int tid_now, int tid_prev);
void set_race_filter(RaceFilter f);
void set_crash_at(int64_t mut_index, int64_t torn_bytes);   // -1: never
uint64_t mutations();           // mutating I/O operations so far
void io_track(bool on);
uint64_t state_hash();
void set_thread_name(const char *);
struct IoStat { uint64_t opens, reads, writes, closes, meta; };
IoStat io_stat();
}
