// Fibers, deterministic scheduler, discrete-event time, interposed pthread/clock API.
#include "base.hpp"
#include "fiber.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <queue>

namespace sim {

static const size_t STACK_SIZE = 512 * 1024;
struct EhGlobals { void *caught; unsigned int uncaught; };

Fiber g_f[MAXF];
Fiber *g_cur = &g_f[0];
int g_nf = 1;
bool g_active = false;
static uint64_t g_now = 0;
static int64_t g_wall_off = 1400000000000000ll;   // 2014-05-13
static uint64_t g_nsync, g_switches;
uint64_t g_nmem;
struct Ev { uint64_t t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Ev> g_ev; static uint64_t g_evseq;
static bool g_in_events = false;

uint64_t steps_sync() { return g_nsync; }
uint64_t steps_mem() { return g_nmem; }
uint64_t n_switches() { return g_switches; }
uint64_t steps() { return g_nsync; }
uint64_t now() { return g_now; }
int64_t wall() { return g_wall_off + (int64_t)g_now; }
int self() { return g_cur->id; }
const char *name_of(int id) { return g_f[id].name; }
void set_name(const char *n) { snprintf(g_cur->name, sizeof g_cur->name, "%s", n); }

void at(uint64_t when, std::function<void()> fn) {
    g_ev.push_back(Ev{ when < g_now ? g_now : when, g_evseq++, std::move(fn) });
    std::push_heap(g_ev.begin(), g_ev.end(), EvCmp());
}
static void fire_due() {
    if (g_in_events) return;
    g_in_events = true;
    while (!g_ev.empty() && g_ev.front().t <= g_now) {
        std::pop_heap(g_ev.begin(), g_ev.end(), EvCmp());
        Ev e = std::move(g_ev.back()); g_ev.pop_back();
        ++g_cur->quiet; e.fn(); --g_cur->quiet;
    }
    g_in_events = false;
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void switch_to(Fiber *t) {
    if (t == g_cur) return;
    Fiber *f = g_cur;
    EhGlobals *eh = (EhGlobals *)abi::__cxa_get_globals();
    f->eh_caught = eh->caught; f->eh_uncaught = eh->uncaught; f->err = errno;
    eh->caught = t->eh_caught; eh->uncaught = t->eh_uncaught;
    g_cur = t; ++g_switches;
    hash_sched(0x5000 + t->id);
    sim_switch(&f->sp, t->sp);
    errno = g_cur->err;
}

static void fiber_exit() __attribute__((noreturn));
static void fiber_entry() {
    Fiber *f = g_cur;
    {
        if (f->start) f->ret = f->start(f->arg);
        else f->fn();
    }
    fiber_exit();
}

struct Key { bool used; void (*dtor)(void *); };
static Key g_keys[MAXKEY];

static int runnable_others(Fiber **out) {
    int n = 0;
    for (int k = 1; k <= g_nf; ++k) { Fiber *f = &g_f[(g_cur->id + k) % g_nf]; if (f != g_cur && f->state == F_RUN) out[n++] = f; }
    return n;
}
static void deadlock() {
    std::string m = "no fiber can run and no event is pending:";
    for (int i = 0; i < g_nf; ++i) if (g_f[i].state == F_BLOCK) { char b[120]; snprintf(b, sizeof b, " [%d %s: %s]", i, g_f[i].name, g_f[i].what ? g_f[i].what : "blocked"); m += b; }
    violation("deadlock", "%s", m.c_str());
}
static bool eval_preds() {
    bool any = false;
    for (int i = 0; i < g_nf; ++i) { Fiber *f = &g_f[i];
        if (f->state == F_BLOCK && f->pred) { ++g_cur->quiet; bool r = (*f->pred)(); --g_cur->quiet; if (r) { f->state = F_RUN; f->timed_out = false; any = true; } } }
    return any;
}
static int g_npred = 0;
// switches away from the current (not runnable) fiber
static void pick_next() {
    Fiber *r[MAXF]; int n;
    for (;;) {
        if (g_npred) eval_preds();
        n = runnable_others(r);
        if (g_cur->state == F_RUN) { return; }   // became runnable again through an event
        if (n) break;
        if (g_ev.empty()) deadlock();
        if (g_ev.front().t > g_now) g_now = g_ev.front().t;
        fire_due();
    }
    switch_to(r[sched_choice(n, true)]);
}
static void fiber_exit() {
    Fiber *f = g_cur;
    for (int pass = 0; pass < 4; ++pass) {
        bool any = false;
        for (int k = 0; k < MAXKEY; ++k) if (f->tls[k] && g_keys[k].used && g_keys[k].dtor) { void *v = f->tls[k]; f->tls[k] = 0; any = true; g_keys[k].dtor(v); }
        if (!any) break;
    }
    f->quiet = 1;
    hb_release(f);
    f->state = F_DONE;
    hash_sched(0x6000 + f->id);
    wake_all(f);
    pick_next();
    __builtin_unreachable();
}

void sync_point(unsigned kind) {
    if (!g_active || g_in_events) return;
    ++g_nsync; g_now += 1;
    if (g_nsync > params.max_sync) violation("no-progress", "step budget of %llu synchronisation steps exceeded", (unsigned long long)params.max_sync);
    if (g_cur->quiet) return;
    hash_sched(kind + 31 * g_cur->id);
    fire_due();
    if (g_npred) eval_preds();
    if (params.stall_num) {      // (a run parameter: the same when replaying)
        if (fault("thread-stall", params.stall_num, params.stall_den)) {
            uint64_t d = params.stall_us / 8 * (1 + choose(FAULT, 8));
            Fiber *f = g_cur; f->state = F_BLOCK; f->wait = 0; f->what = "stalled"; uint64_t tk = ++f->ticket;
            at(g_now + (d ? d : 1), [f, tk] { if (f->state == F_BLOCK && f->ticket == tk) f->state = F_RUN; });
            pick_next(); f->what = 0;
            return;
        }
    }
    Fiber *r[MAXF]; int n = runnable_others(r);
    uint32_t c = sched_choice(n + 1, false);
    if (c) switch_to(r[c - 1]);
}
void yield_cpu() {
    if (!g_active || g_in_events) return;
    ++g_nsync; g_now += 1;
    if (g_nsync > params.max_sync) violation("no-progress", "step budget exceeded");
    fire_due();
    if (g_npred) eval_preds();
    Fiber *r[MAXF]; int n = runnable_others(r);
    if (n) switch_to(r[sched_choice(n, true)]);
    else if (!g_ev.empty()) { g_now = std::max(g_now, std::min(g_ev.front().t, g_now + 1000)); fire_due(); }
    else g_now += 50;
}
void yield() { Quiet q; yield_cpu(); }

void mem_preempt() {
    // called by the instrumented runtime when the access counter reaches the next preemption
    Fiber *r[MAXF]; int n = runnable_others(r);
    uint32_t c = mem_choice(g_nmem, n + 1);
    g_mem_target = mem_next(g_nmem);
    if (c) { hash_sched(0x7000); switch_to(r[c - 1]); }
}
uint64_t g_mem_target = ~0ull;

bool block(const void *obj, uint64_t deadline) {
    Fiber *f = g_cur;
    if (g_in_events) violation("harness-error", "block inside event");
    f->state = F_BLOCK; f->wait = obj; f->timed_out = false; uint64_t tk = ++f->ticket;
    ++g_nsync; g_now += 1;
    if (g_nsync > params.max_sync) violation("no-progress", "step budget exceeded");
    if (deadline != ~0ull)
        at(deadline, [f, tk] { if (f->state == F_BLOCK && f->ticket == tk) { f->state = F_RUN; f->timed_out = true; } });
    fire_due();
    if (f->state != F_RUN) pick_next();
    f->wait = 0; f->what = 0;
    return !f->timed_out;
}
int waiters(const void *obj) { int n = 0; for (int i = 0; i < g_nf; ++i) if (g_f[i].state == F_BLOCK && g_f[i].wait == obj) ++n; return n; }
void wake_all(const void *obj) { for (int i = 0; i < g_nf; ++i) if (g_f[i].state == F_BLOCK && g_f[i].wait == obj) g_f[i].state = F_RUN; }
void wake_one(const void *obj) {
    Fiber *w[MAXF]; int n = 0;
    for (int i = 0; i < g_nf; ++i) if (g_f[i].state == F_BLOCK && g_f[i].wait == obj) w[n++] = &g_f[i];
    if (n) w[sched_choice(n, true)]->state = F_RUN;
}
void sleep(uint64_t us) { Fiber *f = g_cur; const char *w = f->what; f->what = "sleep"; block(&f->sp, g_now + us); f->what = w; }
// a harness fiber that sees others finished is ordered after them
static void hb_done() { for (int i = 0; i < g_nf; ++i) if (!g_f[i].is_thread && g_f[i].state == F_DONE) hb_acquire(&g_f[i]); }
bool wait_until(const std::function<bool()> &pred, uint64_t timeout) {
    { Quiet q; if (pred()) { hb_done(); return true; } }
    Fiber *f = g_cur; f->pred = &pred; ++g_npred; f->what = "wait_until";
    bool r = block(&f->pred, timeout == ~0ull ? ~0ull : g_now + timeout);
    f->pred = 0; --g_npred; hb_done();
    if (!r) { Quiet q; if (pred()) return true; }
    return r;
}

static Fiber *new_fiber(const char *name) {
    if (g_nf >= MAXF) end_run("too-many-threads");
    Fiber *f = &g_f[g_nf]; f->id = g_nf; ++g_nf;
    snprintf(f->name, sizeof f->name, "%s", name);
    char *st = (char *)mmap(0, STACK_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (st == MAP_FAILED) end_run("no-stack");
    mprotect(st, 4096, PROT_NONE);
    f->stack = st;
    void **sp = (void **)(st + STACK_SIZE + 4096 - 64);
    sp = (void **)((uintptr_t)sp & ~15ull);
    *--sp = 0;                       // fake return address (stack bottom, keeps alignment)
    *--sp = (void *)fiber_entry;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp; f->state = F_RUN; f->err = 0; f->eh_caught = 0; f->eh_uncaught = 0;
    hb_fork(f->id);
    return f;
}
int spawn(const char *name, std::function<void()> fn) {
    Fiber *f = new_fiber(name); f->fn = std::move(fn); f->quiet = 1; f->is_thread = false;
    return f->id;
}
bool done(int id) { return g_f[id].state == F_DONE; }
void join(int id) { while (g_f[id].state != F_DONE) { g_cur->what = "sim::join"; block(&g_f[id]); } hb_acquire(&g_f[id]); }
int live_fibers() { int n = 0; for (int i = 0; i < g_nf; ++i) if (g_f[i].state != F_DONE) ++n; return n; }
int live_threads() { int n = 0; for (int i = 0; i < g_nf; ++i) if (g_f[i].is_thread && g_f[i].state != F_DONE) ++n; return n; }

Quiet::Quiet() { ++g_cur->quiet; } Quiet::~Quiet() { --g_cur->quiet; }
Loud::Loud() { saved = g_cur->quiet; g_cur->quiet = 0; } Loud::~Loud() { g_cur->quiet = saved; }

void wall_jump(int64_t d) { g_wall_off += d; log("wall clock jumps by %lld us", (long long)d); at(g_now, [] {}); }

void run_main_fiber() {
    snprintf(g_f[0].name, sizeof g_f[0].name, "main"); g_f[0].state = F_RUN; g_f[0].quiet = 1;
    rt_start();
    g_active = true;
    g_mem_target = mem_next(0);
    harness_run();
    g_active = false;
}

void *real_sym(const char *name) { return dlsym(RTLD_NEXT, name); }

// ------------------------------------------------------------------ mutexes
struct SMutex { int locked; unsigned count; int owner; unsigned nusers; int kind; };
static SMutex *M(pthread_mutex_t *m) { return (SMutex *)m; }

static void check_cycle(Fiber *f) {
    // follow owner chain of mutexes; a cycle is a deadlock that no event can resolve
    int hops = 0; Fiber *x = f; std::string chain;
    while (x && x->wait_mutex && hops++ < MAXF) {
        SMutex *m = (SMutex *)x->wait_mutex;
        if (!m->locked) return;
        Fiber *o = &g_f[m->owner];
        char b[100]; snprintf(b, sizeof b, "[%d %s waits for a mutex held by %d %s] ", x->id, x->name, o->id, o->name); chain += b;
        if (o == f) violation("deadlock", "lock cycle: %s", chain.c_str());
        if (o->state == F_DONE) violation("deadlock", "mutex held by a finished thread: %s", chain.c_str());
        if (o->join_target && o->state == F_BLOCK) {
            Fiber *j = o->join_target;
            snprintf(b, sizeof b, "[%d %s joins %d %s] ", o->id, o->name, j->id, j->name); chain += b;
            if (j == f) violation("deadlock", "lock/join cycle: %s", chain.c_str());
            x = j; continue;
        }
        x = o;
    }
}
static void check_join_cycle(Fiber *f) {
    int hops = 0; Fiber *x = f->join_target;
    while (x && hops++ < MAXF) {
        if (x == f) violation("deadlock", "thread %d %s joins itself (directly or through a lock/join cycle)", f->id, f->name);
        if (x->state != F_BLOCK) return;
        if (x->wait_mutex && ((SMutex *)x->wait_mutex)->locked) x = &g_f[((SMutex *)x->wait_mutex)->owner];
        else if (x->join_target) x = x->join_target;
        else return;
    }
}
static int lock_mutex(pthread_mutex_t *pm, uint64_t deadline) {
    SMutex *m = M(pm); Fiber *f = g_cur;
    if (!g_active) { m->locked = 1; m->owner = f->id; m->count++; return 0; }
    check_range(pm, sizeof(SMutex), true, "mutex lock");
    if (g_in_events) { if (m->locked) violation("harness-error", "lock contended inside event"); m->locked = 1; m->owner = f->id; m->count = 1; return 0; }
    sync_point(1);
    if (m->locked && m->owner == f->id) {
        if ((m->kind & 3) == 1) { ++m->count; return 0; }
        if ((m->kind & 3) == 2) return EDEADLK;
        if (deadline == ~0ull) violation("deadlock", "fiber %d %s locks a mutex it already holds", f->id, f->name);
    }
    while (m->locked) {
        f->wait_mutex = m; f->what = "mutex";
        if (deadline == ~0ull) check_cycle(f);
        bool ok = block(m, deadline);
        f->wait_mutex = 0;
        if (!ok && m->locked) return ETIMEDOUT;
        check_range(pm, sizeof(SMutex), true, "mutex lock");
    }
    m->locked = 1; m->owner = f->id; m->count = 1;
    hb_acquire(m);
    return 0;
}
static int unlock_mutex(pthread_mutex_t *pm, bool point) {
    SMutex *m = M(pm);
    if (!g_active) { if (m->count && --m->count == 0) m->locked = 0; return 0; }
    check_range(pm, sizeof(SMutex), true, "mutex unlock");
    if (m->locked && m->owner != g_cur->id && !g_in_events) violation("lock-misuse", "mutex unlocked by fiber %d but held by %d", g_cur->id, m->owner);
    if (!m->locked) violation("lock-misuse", "unlock of a mutex that is not locked");
    if (--m->count) return 0;
    hb_release(m);
    m->locked = 0;
    wake_all(m);
    if (point) sync_point(2);
    return 0;
}
static uint64_t abs_deadline(int clk, const struct timespec *ts) {
    int64_t t = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    int64_t cur = clk == CLOCK_REALTIME ? wall() : (int64_t)g_now;
    int64_t d = t - cur; if (d < 0) d = 0;
    return g_now + (uint64_t)d;
}
struct SCond { int clock; };
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *pm, uint64_t deadline) {
    if (!g_active) return 0;
    check_range(c, sizeof *c, true, "condition wait");
    sync_point(3);
    SMutex *m = M(pm); unsigned cnt = m->count;
    hb_release(m); m->locked = 0; m->count = 0; wake_all(m);
    if (fault("spurious-wakeup", params.spurious_num, params.spurious_den)) {
        Fiber *f = g_cur; uint64_t tk = f->ticket + 1; uint64_t d = 1 + choose(FAULT, 2000);
        at(g_now + d, [f, tk, c] { if (f->state == F_BLOCK && f->ticket == tk && f->wait == c) f->state = F_RUN; });
    }
    g_cur->what = "condition";
    bool ok = block(c, deadline);
    check_range(c, sizeof *c, true, "condition wait");
    Fiber *f = g_cur;
    while (m->locked) { f->wait_mutex = m; f->what = "mutex"; check_cycle(f); block(m); f->wait_mutex = 0; }
    m->locked = 1; m->owner = f->id; m->count = cnt; hb_acquire(m);
    return ok ? 0 : ETIMEDOUT;
}

struct Rw { int writer; int readers; };
static std::map<void *, Rw> *g_rw;
} // namespace sim

using namespace sim;
#define EXP extern "C" __attribute__((visibility("default")))

EXP int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) throw() {
    memset(m, 0, sizeof *m); if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); M(m)->kind = t; }
    hb_forget(m); return 0;
}
EXP int pthread_mutex_destroy(pthread_mutex_t *m) throw() {
    if (g_active) {
        check_range(m, sizeof(SMutex), true, "mutex destroy");
        if (M(m)->locked && !g_cur->quiet) violation("lock-misuse", "mutex destroyed while fiber %d %s holds it", M(m)->owner, g_f[M(m)->owner].name);
        if (waiters(M(m))) violation("lock-misuse", "mutex destroyed while a thread waits for it");
        hb_forget(m);
    }
    return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t *m) throw() { return lock_mutex(m, ~0ull); }
EXP int pthread_mutex_trylock(pthread_mutex_t *m) throw() {
    sync_point(4);
    SMutex *s = M(m);
    if (s->locked) { if (s->owner == g_cur->id && (s->kind & 3) == 1) { ++s->count; return 0; } return EBUSY; }
    s->locked = 1; s->owner = g_cur->id; s->count = 1; hb_acquire(s); return 0;
}
EXP int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) throw() { return lock_mutex(m, abs_deadline(CLOCK_REALTIME, ts)); }
EXP int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) throw() { return lock_mutex(m, abs_deadline(c, ts)); }
EXP int pthread_mutex_unlock(pthread_mutex_t *m) throw() { return unlock_mutex(m, true); }

EXP int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) throw() {
    memset(c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); ((SCond *)c)->clock = k; return 0;
}
EXP int pthread_cond_destroy(pthread_cond_t *c) throw() {
    if (g_active) { check_range(c, sizeof *c, true, "condition destroy"); if (waiters(c)) violation("lock-misuse", "condition variable destroyed while a thread waits on it"); }
    return 0;
}
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, ~0ull); }
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait(c, m, abs_deadline(((SCond *)c)->clock, ts)); }
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return cond_wait(c, m, abs_deadline(k, ts)); }
EXP int pthread_cond_signal(pthread_cond_t *c) throw() { if (!g_active) return 0; check_range(c, sizeof *c, true, "condition signal"); sync_point(5); wake_one(c); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t *c) throw() { if (!g_active) return 0; check_range(c, sizeof *c, true, "condition broadcast"); sync_point(6); wake_all(c); return 0; }

EXP int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) throw() {
    if (!g_active) { fprintf(stderr, "pthread_create outside simulation\n"); abort(); }
    if (fault("thread-create", 0, 1)) return EAGAIN;
    int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds);
    Fiber *f = new_fiber("thread"); f->start = fn; f->arg = arg; f->is_thread = true; f->detached = ds == PTHREAD_CREATE_DETACHED; f->quiet = 0;
    snprintf(f->name, sizeof f->name, "T%d", f->id);
    *t = (pthread_t)f;
    SIM_COUNT("threads");
    sync_point(7);
    return 0;
}
EXP int pthread_join(pthread_t t, void **ret) {
    Fiber *f = (Fiber *)t;
    if (f == g_cur) return EDEADLK;
    sync_point(8);
    while (f->state != F_DONE) { g_cur->what = "pthread_join"; g_cur->join_target = f; check_join_cycle(g_cur); block(f); g_cur->join_target = 0; }
    hb_acquire(f); f->joined = true;
    if (ret) *ret = f->ret;
    return 0;
}
EXP int pthread_detach(pthread_t t) throw() { ((Fiber *)t)->detached = true; return 0; }
EXP pthread_t pthread_self(void) throw() { return (pthread_t)g_cur; }
EXP void pthread_exit(void *r) { g_cur->ret = r; fiber_exit(); }
EXP int pthread_setname_np(pthread_t, const char *) throw() { return 0; }
EXP int sched_yield(void) throw() { yield_cpu(); return 0; }

EXP int pthread_key_create(pthread_key_t *k, void (*d)(void *)) throw() {
    for (int i = 0; i < MAXKEY; ++i) if (!g_keys[i].used) { g_keys[i].used = true; g_keys[i].dtor = d; for (int j = 0; j < MAXF; ++j) g_f[j].tls[i] = 0; *k = i; return 0; }
    return EAGAIN;
}
EXP int pthread_key_delete(pthread_key_t k) throw() { if (k < MAXKEY) g_keys[k].used = false; return 0; }
EXP void *pthread_getspecific(pthread_key_t k) throw() { return k < MAXKEY ? g_cur->tls[k] : 0; }
EXP int pthread_setspecific(pthread_key_t k, const void *v) throw() { if (k >= MAXKEY) return EINVAL; g_cur->tls[k] = (void *)v; return 0; }
EXP int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    int *s = (int *)o;
    if (g_active) sync_point(9);
    while (*s == 1) { g_cur->what = "once"; block(o); }
    if (*s == 2) { hb_acquire(o); return 0; }
    *s = 1;
    try { fn(); } catch (...) { *s = 0; wake_all(o); throw; }
    *s = 2; hb_release(o); wake_all(o);
    return 0;
}
// read/write locks
static Rw &rw(void *p) { Quiet q; if (!g_rw) g_rw = new std::map<void *, Rw>(); return (*g_rw)[p]; }     // (quiet: the keys may be heap addresses of an uninstrumented library, their order varies)
EXP int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) throw() { Rw &r = rw(l); r.writer = 0; r.readers = 0; return 0; }
EXP int pthread_rwlock_destroy(pthread_rwlock_t *) throw() { return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *l) throw() { sync_point(1); while (rw(l).writer) { g_cur->what = "rdlock"; block(l); } ++rw(l).readers; hb_acquire(l); return 0; }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *l) throw() { sync_point(1); while (rw(l).writer || rw(l).readers) { g_cur->what = "wrlock"; block(l); } rw(l).writer = 1; hb_acquire(l); return 0; }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) throw() { sync_point(1); if (rw(l).writer) return EBUSY; ++rw(l).readers; hb_acquire(l); return 0; }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t *l) throw() { sync_point(1); if (rw(l).writer || rw(l).readers) return EBUSY; rw(l).writer = 1; hb_acquire(l); return 0; }
EXP int pthread_rwlock_unlock(pthread_rwlock_t *l) throw() { Rw &r = rw(l); if (r.writer) r.writer = 0; else if (r.readers) --r.readers; hb_release(l); wake_all(l); sync_point(2); return 0; }

// ------------------------------------------------------------------ clocks
static bool use_sim() { return g_active; }
EXP int clock_gettime(clockid_t c, struct timespec *ts) throw() {
    if (!use_sim()) return (int)syscall(SYS_clock_gettime, c, ts);
    int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : (int64_t)now();
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}
EXP int gettimeofday(struct timeval *tv, void *) throw() {
    if (!use_sim()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    int64_t t = wall(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
EXP time_t time(time_t *o) throw() { struct timeval tv; gettimeofday(&tv, 0); if (o) *o = tv.tv_sec; return tv.tv_sec; }
EXP int nanosleep(const struct timespec *r, struct timespec *) {
    if (!use_sim()) return (int)syscall(SYS_nanosleep, r, 0);
    uint64_t us = (uint64_t)r->tv_sec * 1000000 + r->tv_nsec / 1000; sim::sleep(us ? us : 1); return 0;
}
EXP int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *) {
    if (!use_sim()) return (int)syscall(SYS_clock_nanosleep, c, flags, r, 0);
    if (flags & TIMER_ABSTIME) { uint64_t d = abs_deadline(c, r); if (d > now()) sim::sleep(d - now()); else yield_cpu(); }
    else nanosleep(r, 0);
    return 0;
}
EXP int usleep(useconds_t us) { if (!use_sim()) { struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return (int)syscall(SYS_nanosleep, &t, 0); } sim::sleep(us ? us : 1); return 0; }
EXP unsigned int sleep(unsigned int s) { struct timespec t = { (time_t)s, 0 }; nanosleep(&t, 0); return 0; }

// ------------------------------------------------------------------ static local initialisation
EXP int __cxa_guard_acquire(long *g) {
    unsigned char *b = (unsigned char *)g;
    if (b[0]) { hb_acquire(g); return 0; }
    while (b[1]) { if (g_cur->what == 0) g_cur->what = "static init"; block(g); if (b[0]) { hb_acquire(g); return 0; } }
    b[1] = 1; return 1;
}
EXP void __cxa_guard_release(long *g) { unsigned char *b = (unsigned char *)g; hb_release(g); b[0] = 1; b[1] = 0; wake_all(g); if (g_active) sync_point(10); }
EXP void __cxa_guard_abort(long *g) { ((unsigned char *)g)[1] = 0; wake_all(g); }
