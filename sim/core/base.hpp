// internal interface between base.cpp and fiber.cpp / rt.cpp
#ifndef VERIF_SIM_BASE_HPP
#define VERIF_SIM_BASE_HPP
#include "sim.hpp"
namespace sim {
struct Rng {
    uint64_t s;
    uint64_t next() {   // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 11) % n); }
};
struct Sparse { uint64_t at; uint32_t v; };
/// scheduling decision at synchronisation point (n alternatives, 0 = continue/first)
uint32_t sched_choice(uint32_t n, bool forced);
/// memory-access preemption: number of accesses until the next one, and its target
uint64_t mem_next(uint64_t cur_index);
uint32_t mem_choice(uint64_t index, uint32_t n);
void hash_sched(uint64_t v);
void report_fatal(const char *cls, const char *msg);     // async-signal-safe-ish; does not return
// provided by fiber.cpp (or lite stubs in base.cpp)
void run_main_fiber();
void reset_fibers();
void *real_sym(const char *name);
}
#endif
