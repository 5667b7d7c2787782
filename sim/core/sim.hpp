// Deterministic simulator core: public interface used by shims and harnesses.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { PLAN = 0, NET = 1, FAULT = 2, NSTREAM = 3 };   // (scheduling has its own sparse streams)

/// uniform choice in [0,n); 0 is the "simplest" outcome.  Recorded / replayed.
uint32_t choose(Stream s, uint32_t n);
/// biased coin: true with probability num/den.  Recorded as 0/1.
bool chance(Stream s, uint32_t num, uint32_t den);
inline uint32_t plan(uint32_t n) { return choose(PLAN, n); }
inline bool planp(uint32_t num, uint32_t den) { return chance(PLAN, num, den); }
/// inclusive range
inline int plan_range(int lo, int hi) { return lo + (int)choose(PLAN, (uint32_t)(hi - lo + 1)); }
/// A fault site: fires with probability num/den if the kind is enabled in this run
/// (swarm selection), counts what fired under "fault.<kind>".
bool fault(const char *kind, uint32_t num, uint32_t den);
/// allow/disallow all fault() sites (harness turns faults off for the recovery phase)
void set_faults(bool on);
bool faults_on();

// ---------------------------------------------------------------- reporting
/// Records a violation of class `cls` and ends the run.
void violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/// ends the run normally (no violation), e.g. a run that cannot proceed further
void end_run(const char *why) __attribute__((noreturn));
/// event log: hashed always, printed with --trace
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_event(uint64_t v);
uint64_t *counter(const char *name);
#define SIM_COUNT(name) do { static uint64_t *c_ = ::sim::counter(name); ++*c_; } while (0)
#define SIM_COUNT_N(name, n) do { static uint64_t *c_ = ::sim::counter(name); *c_ += (uint64_t)(n); } while (0)
#define SIM_PROBE(name) SIM_COUNT("probe." name)
bool tracing();
const char *property();        ///< property id this process is checking
std::string scratch_dir();     ///< scratch directory of this run (created on demand)

// ---------------------------------------------------------------- time (microseconds)
uint64_t now();                ///< simulated monotonic time
int64_t wall();                ///< simulated wall clock, us since epoch (may jump)
void wall_jump(int64_t delta_us);
void at(uint64_t when, std::function<void()> fn);           ///< event at simulated time
inline void after(uint64_t delay, std::function<void()> fn) { at(now() + delay, std::move(fn)); }

// ---------------------------------------------------------------- fibers
int self();                                    ///< id of the running fiber
int spawn(const char *name, std::function<void()> fn);   ///< harness fiber (starts Quiet)
void join(int id);
bool done(int id);
void sleep(uint64_t us);
void yield();                                  ///< a plain scheduling point
/// blocks the running fiber until pred() is true (re-evaluated at every step) or the timeout passes
bool wait_until(const std::function<bool()> &pred, uint64_t timeout_us);
/// low-level block/wake on an object
bool block(const void *obj, uint64_t deadline = ~0ull);   ///< false if timed out
void wake_all(const void *obj);
void wake_one(const void *obj);
int waiters(const void *obj);
void sync_point(unsigned kind);
int live_fibers();                             ///< fibers not finished
int live_threads();                            ///< pthread fibers not finished
void set_name(const char *n);
const char *name_of(int id);
uint64_t steps();

/// harness code inside fibers that run library code: no preemption, no tracing
struct Quiet { Quiet(); ~Quiet(); };
/// library calls made from harness fibers: tracing and preemption back on
struct Loud { Loud(); ~Loud(); int saved; };
/// runs f with tracing on
template <class F> auto loud(F f) -> decltype(f()) { Loud l; return f(); }

// ---------------------------------------------------------------- happens-before edges for shims
void hb_release(const void *key);
void hb_acquire(const void *key);
void hb_forget(const void *key);
struct HbToken { std::vector<uint32_t> vc; };
void hb_capture(HbToken &t);
void hb_apply(const HbToken &t);

// memory checks (no-ops without the instrumented runtime)
void check_range(const void *p, size_t n, bool write, const char *what);
size_t live_bytes();
size_t live_blocks();

// ---------------------------------------------------------------- run parameters (drawn per run, not replayed)
struct Params {
    uint32_t sync_num, sync_den;      // preemption probability at synchronisation points
    uint32_t mem_mean;                // mean memory accesses between preemptions (0 = never)
    uint32_t stall_num, stall_den;    // probability that a thread stalls at a sync point
    uint64_t stall_us;
    uint32_t spurious_num, spurious_den;
    uint64_t max_sync, max_mem;
};
extern Params params;
bool replaying();

} // namespace sim

// implemented by each harness
void harness_run();
void harness_init();     ///< optional: process initialisation before the first run
#endif
