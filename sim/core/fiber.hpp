#ifndef VERIF_FIBER_HPP
#define VERIF_FIBER_HPP
#include "sim.hpp"
namespace sim {
enum { MAXF = 120, MAXKEY = 64 };
enum { F_FREE = 0, F_RUN, F_BLOCK, F_DONE };
struct Fiber {
    int id; int state; void *sp; char *stack; char name[32];
    const void *wait; const void *wait_mutex; Fiber *join_target; bool timed_out; uint64_t ticket;
    const std::function<bool()> *pred;
    void *eh_caught; unsigned eh_uncaught; int err;
    void *tls[MAXKEY];
    void *(*start)(void *); void *arg; void *ret; std::function<void()> fn;
    bool is_thread, detached, joined;
    int quiet; const char *what;
};
extern Fiber g_f[MAXF];
extern Fiber *g_cur;
extern int g_nf;
extern bool g_active;
extern uint64_t g_nmem, g_mem_target;
void mem_preempt();
void yield_cpu();
void hb_fork(int child);
void rt_start();
}
#endif
