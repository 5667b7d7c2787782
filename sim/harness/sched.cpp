// P01 / P02: schedulers
#include "common.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/make_shared.hpp>
#include <boost/exception/all.hpp>
#include <boost/function.hpp>
#include <pion/scheduler.hpp>
#include <stdexcept>
#include <cstring>
using namespace sim; using namespace hx;

namespace {
struct my_boost_exc : virtual boost::exception, virtual std::exception {};
enum Behave { NORMAL, THROW_STD, THROW_INT, THROW_CSTR, THROW_BOOST, SLEEP, NEST, NEST_THROW, NBEHAVE };
struct Task { int runs = 0; int runner = -1; Behave b = NORMAL; bool posted = false; uint64_t nap = 0; };

pion::scheduler *S; pion::single_service_scheduler *SS; pion::one_to_one_scheduler *OO;
std::vector<Task> *T; int g_posted, g_exec; int g_main; 
bool shutdown_returned = false;

int new_task(Behave b, uint64_t nap) { Task t; t.b = b; t.nap = nap; T->push_back(t); return (int)T->size() - 1; }
void do_post(int id, bool direct);
struct Fn {   // the function handed to the scheduler
    int id; explicit Fn(int i) : id(i) {}
    void operator()() const {
        Behave b; int nested = -1;
        {
            Quiet q;
            Task &t = (*T)[id];
            ++t.runs; ++g_exec; t.runner = self();
            log("exec %d", id);
            if (t.runs > 1) violation("executed-twice", "posted function %d ran %d times", id, t.runs);
            b = t.b;
            if (b == NEST || b == NEST_THROW) nested = new_task(plan(3) ? NORMAL : THROW_STD, 0);
            if (b == SLEEP) { Loud l; sim::sleep((*T)[id].nap); }
        }
        if (nested >= 0) do_post(nested, false);
        switch (b) {
        case THROW_STD: case NEST_THROW: SIM_COUNT("fault.handler-throws-std"); throw std::runtime_error("task");
        case THROW_INT: SIM_COUNT("fault.handler-throws-int"); throw 42;
        case THROW_CSTR: SIM_COUNT("fault.handler-throws-cstr"); throw "text";
        case THROW_BOOST: SIM_COUNT("fault.handler-throws-boost"); BOOST_THROW_EXCEPTION(my_boost_exc());
        default: break;
        }
    }
};
void do_post(int id, bool direct) {
    { Quiet q; (*T)[id].posted = true; ++g_posted; log("post %d", id); }
    if (direct) S->get_io_service().post(Fn(id)); else S->post(Fn(id));
}
void make(int kind) { if (kind) S = OO = new pion::one_to_one_scheduler(); else S = SS = new pion::single_service_scheduler(); }

void p01() {
    int kind = plan(2), n = plan_range(1, 4); make(kind);
    loud([&] { S->set_num_threads(n); if (plan(2)) S->startup(); else S->add_active_user(); });
    int posters = plan_range(1, 4); std::vector<int> f;
    bool long_idle = plan(4) == 3;
    for (int p = 0; p < posters; ++p) {
        int m = plan_range(1, 8);
        f.push_back(spawn("poster", [=] {
            for (int i = 0; i < m; ++i) {
                Behave b = (Behave)plan(NBEHAVE); uint64_t nap = b == SLEEP ? 1 + plan(2000000) : 0;
                int id = new_task(b, nap); bool direct = plan(4) == 3;
                { Loud l; do_post(id, direct); }
                if (plan(3) == 2) sim::sleep(1 + plan(long_idle ? 14000000 : 3000));
            }
        }));
    }
    for (int x : f) join(x);
    auto all = [&] { for (auto &t : *T) if (t.posted && t.runs == 0) return false; return true; };
    if (!wait_until(all, 600 * SEC)) {
        int miss = -1; for (size_t i = 0; i < T->size(); ++i) if ((*T)[i].runs == 0) { miss = (int)i; break; }
        violation("work-lost", "posted function %d of %zu never ran (600 s simulated after the last post; kind %d, %d threads, %d live)", miss, T->size(), kind, n, live_threads());
    }
    // after an idle period longer than the keep-alive timer the pool still works and still has all its workers
    sim::sleep(plan(3) == 2 ? 11 * SEC : 1000);
    CHECK(live_threads() == n, "worker-lost", "%d of %d worker threads left", live_threads(), n);
    if (kind == 0) {
        // all n workers can run handlers at the same time
        static int inside; inside = 0; int need = n; static bool failed; failed = false;
        struct Bar { int need; void operator()() const { Quiet q; ++inside; if (!wait_until([this] { return inside >= need; }, 300 * SEC)) failed = true; } };
        for (int i = 0; i < n; ++i) { Loud l; Bar b; b.need = need; S->post(b); }
        wait_until([&] { return inside >= need || failed; }, 400 * SEC);
        CHECK(inside >= need && !failed, "worker-lost", "only %d of %d workers take work", inside, n);
    }
    for (int i = 0; i < 2 * n; ++i) { int id = new_task(NORMAL, 0); Loud l; do_post(id, false); }
    CHECK(wait_until(all, 600 * SEC), "work-lost", "function posted after exceptions never ran");
    for (auto &t : *T) if (t.posted) CHECK(t.runs == 1, "executed-twice", "function ran %d times", t.runs);
    for (auto &t : *T) if (t.posted) CHECK(t.runner > 0 && std::strncmp(name_of(t.runner), "T", 1) == 0, "wrong-thread", "function ran on fiber %s", name_of(t.runner));
    *counter("evals") += T->size();
}

// ---------------------------------------------------------------- P02
// work that is never finished: a timer that keeps re-arming itself on one of the scheduler's services
struct Tick : boost::enable_shared_from_this<Tick> {
    boost::asio::deadline_timer t; int us; Tick(boost::asio::io_service &io, int u) : t(io), us(u) {}
    void arm() { t.expires_from_now(boost::posix_time::microseconds(us)); t.async_wait(boost::bind(&Tick::go, shared_from_this(), _1)); }
    void go(const boost::system::error_code &ec) { if (ec) return; { Quiet q; ++g_exec; log("tick"); } arm(); }
};
bool g_surely_running; int g_sd_calls;
int g_starts, g_starting; int g_sd_active;    // starts begun; starts in progress
struct UserSpan { bool on = false; };
void p02() {
    int kind = plan(2), n = plan_range(1, 3); make(kind);
    loud([&] { S->set_num_threads(n); });
    int fibers = plan_range(2, 5); std::vector<int> f, joiners;
    auto *spans = new std::vector<UserSpan>();
    auto do_start = [&] { ++g_starts; ++g_starting; log("startup"); int sd0 = g_sd_calls; bool idle = !g_sd_active; loud([] { S->startup(); }); --g_starting; if (idle && g_sd_calls == sd0) g_surely_running = true; };
    auto do_join = [&] {
        bool sure = g_surely_running; int sd0 = g_sd_calls; loud([] { S->join(); }); log("join returned");
        CHECK(!sure || g_sd_calls != sd0, "join-early", "join() returned although the scheduler was running all the time and nobody shut it down"); ++*counter("evals");
    };
    auto do_shutdown = [&] {
        int starts0 = g_starts; bool in_flight = g_starting > 0;   // a start that overlaps the shutdown may take effect after it
        std::vector<int> reg; for (size_t i = 0; i < spans->size(); ++i) if ((*spans)[i].on) reg.push_back((int)i);
                ++g_sd_active; ++g_sd_calls; g_surely_running = false; log("shutdown begin (%zu users)", reg.size());
        loud([] { S->shutdown(); });
        --g_sd_active; log("shutdown end");
        // a user registered during the whole call must have kept a running scheduler from stopping
        for (int r : reg) CHECK(!(*spans)[r].on, "stopped-under-user", "shutdown returned although an active user was registered all the time");
        if (!in_flight && g_starts == starts0) {
            CHECK(live_threads() == 0, "worker-survives-shutdown", "%d worker threads alive after shutdown returned", live_threads());
            int e = g_exec; sim::sleep(1 + plan(2) * 6000000);
            if (g_starts == starts0) CHECK(g_exec == e, "runs-after-shutdown", "work ran after shutdown returned");
        }
        ++*counter("evals");
    };
    for (int k = 0; k < fibers; ++k) {
        int ops = plan_range(1, 5);
        f.push_back(spawn("ctl", [=] {
            for (int i = 0; i < ops; ++i) {
                switch (plan(6)) {
                case 0: do_start(); break;
                case 1: do_shutdown(); break;
                case 2: case 3: {   // an active user: its work must run however many shutdowns are pending
                    ++g_starts; ++g_starting; log("add user");
                    int sd0 = g_sd_calls; bool idle = !g_sd_active; loud([] { S->add_active_user(); }); --g_starting; if (idle && g_sd_calls == sd0) g_surely_running = true;
                    size_t sp = spans->size(); { UserSpan u; u.on = true; spans->push_back(u); }
                    log("user registered");
                    int m = plan_range(0, 3); std::vector<int> ids;
                    for (int j = 0; j < m; ++j) { int id = new_task(plan(3) == 0 ? (Behave)plan(NBEHAVE) : NORMAL, 1000); ids.push_back(id); { Loud l; do_post(id, false); } if (plan(3) == 2) sim::sleep(plan(3000000)); }
                    if (plan(6) == 5) { SIM_PROBE("unfinished-work"); int us = plan(2) ? 1000000 : 500000000; loud([&] { boost::make_shared<Tick>(boost::ref(S->get_io_service()), us)->arm(); }); }
                    if (m && !wait_until([&] { for (int id : ids) if (!(*T)[id].runs) return false; return true; }, 120 * SEC))
                        violation("user-work-stalled", "work posted by a registered active user did not run (running=%d, live workers %d, shutdowns pending %d)", (int)S->is_running(), live_threads(), g_sd_active);
                    ++*counter("evals");
                    (*spans)[sp].on = false; log("remove user");
                    loud([] { S->remove_active_user(); });
                    break; }
                case 4: sim::sleep(1 + plan(20000)); break;
                default: sim::sleep(1 + plan(200000)); break;
                }
            }
        }));
    }
    int nj = plan_range(0, 2);
    for (int k = 0; k < nj; ++k) joiners.push_back(spawn("joiner", [=] { sim::sleep(plan(100000)); for (int r = 0; r < 2; ++r) { do_join(); if (plan(2)) sim::sleep(plan(300000)); } }));
    auto finished = [&](std::vector<int> &v) { for (int x : v) if (!done(x)) return false; return true; };
    // shutdowns issued by the fibers complete once users have left: every fiber ends
    if (!wait_until([&] { return finished(f); }, 3000 * SEC)) {
        std::string w; for (int x : f) if (!done(x)) { w += " "; w += name_of(x); }
        violation("shutdown-hangs", "start/shutdown/user calls did not complete although all users have left");
    }
    do_shutdown();
    CHECK(wait_until([&] { return finished(joiners); }, 300 * SEC), "join-hangs", "join() not released after shutdown");
    // restart: everything works again
    if (plan(2)) {
        do_start();
        int id = new_task(NORMAL, 0); loud([&] { do_post(id, false); });
        CHECK(wait_until([&] { return (*T)[id].runs == 1; }, 120 * SEC), "restart-broken", "work posted after a restart does not run");
        bool jd = false; int j = spawn("joiner", [&] { loud([] { S->join(); }); jd = true; });
        sim::sleep(plan(100000));
        do_shutdown();
        CHECK(wait_until([&] { return jd; }, 300 * SEC), "join-hangs", "join() not released after restart and shutdown");
        join(j);
    }
    loud([] { delete S; });
    for (auto &t : *T) CHECK(t.runs <= 1, "executed-twice", "function ran %d times", t.runs);
}
}
void harness_run() {
    quiet_logging(); T = new std::vector<Task>(); T->reserve(4096);
    if (std::string(property()) == "P01") p01(); else p02();
}
