// P03 / P04 / P05: the TCP server (start, stop, join, accept, finish, connection count)
#include "common.hpp"
#include "core/net.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/tcp/server.hpp>
#include <pion/scheduler.hpp>
#include <map>
#include <set>
#include <stdexcept>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr;

namespace {
bool P(const char *id) { return std::string(property()) == id; }
struct Rec {            // one connection object seen by the handler
    boost::weak_ptr<connection> w; unsigned short port = 0; int entries = 0;
    bool want_entry = false;      // finish() with keep-alive called: exactly one more entry may follow
    bool serving = false;         // inside the handler's responsibility: not yet finished, dropped or thrown away
    bool ended = false;           // finish() with close returned / dropped and gone
    bool orphan = false;
};
struct Cli { unsigned short port = 0; int handled = 0; bool bad_ssl = false, gave_up = false, relentless = false, must_finish = false, replied = false, in_request = false, fault_reset = false; int req = 0, cut = -1; uint64_t at = 0; simnet::EndP end; };
std::vector<std::shared_ptr<Rec> > *R; std::map<unsigned short, std::shared_ptr<Cli> > *C; std::vector<std::shared_ptr<Cli> > *ALLC;
std::vector<connection_ptr> *HELD;            // connections kept by "somebody outside the server"
bool g_ssl, g_stopped, g_rude_stop; int g_starts, g_stops_in_flight, g_starts_in_flight, g_stop_calls; int g_hi_extra; int g_connects;
int g_entries; bool g_sync_ok, g_drop_ok;
uint16_t g_port;

struct Srv;
Srv *SRV;
void answer(const connection_ptr &c, std::shared_ptr<Rec> r, const std::string &req);

struct Srv : pion::tcp::server {
    explicit Srv(unsigned int p) : pion::tcp::server(p) {}
    Srv(pion::scheduler &s, unsigned int p) : pion::tcp::server(s, p) {}
    int before = 0, after = 0;
    virtual void before_starting() { Quiet q; ++before; }
    virtual void after_stopping() { Quiet q; ++after; }
    virtual void handle_connection(const connection_ptr &c);
};
std::shared_ptr<Rec> rec_of(const connection_ptr &c) {
    for (auto &r : *R) { boost::shared_ptr<connection> p = r->w.lock(); if (p == c) return r; }
    auto r = std::make_shared<Rec>(); r->w = c; R->push_back(r); return r;
}
void do_finish(const connection_ptr &c, std::shared_ptr<Rec> r, connection::lifecycle_type l) {
    { Quiet q; r->serving = false; r->want_entry = l != connection::LIFECYCLE_CLOSE; log("finish %d life %d", r->port, (int)l); }
    c->set_lifecycle(l); c->finish();
    { Quiet q; if (l == connection::LIFECYCLE_CLOSE) r->ended = true; }
}
struct Exch : boost::enable_shared_from_this<Exch> {       // asynchronous request/reply
    connection_ptr c; std::shared_ptr<Rec> r; std::string in, out; connection::lifecycle_type life;
    void read() { c->async_read_some(boost::bind(&Exch::got, shared_from_this(), boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)); }
    void got(const boost::system::error_code &e, std::size_t n) {
        if (e) { do_finish(c, r, connection::LIFECYCLE_CLOSE); return; }
        bool more; { Quiet q; in.append(c->get_read_buffer().data(), n); more = in.find('\n') == std::string::npos; }
        if (more) { read(); return; }
        answer(c, r, in);
    }
    void write(const std::string &s, connection::lifecycle_type l) { { Quiet q; out = s; life = l; } c->async_write(boost::asio::buffer(out), boost::bind(&Exch::sent, shared_from_this(), boost::asio::placeholders::error)); }
    void sent(const boost::system::error_code &e) { do_finish(c, r, e ? connection::LIFECYCLE_CLOSE : life); }
};
void reply(const connection_ptr &c, std::shared_ptr<Rec> r, const std::string &req, connection::lifecycle_type l) {
    boost::shared_ptr<Exch> x; std::string s; { Quiet q; x.reset(new Exch); x->c = c; x->r = r; s = "R" + req; }
    x->write(s, l);
}
void answer(const connection_ptr &c, std::shared_ptr<Rec> r, const std::string &req) {
    char op; { Quiet q; op = req[0]; auto it = C->find(r->port); if (it != C->end()) it->second->in_request = true; }
    switch (op) {
    case 'E': reply(c, r, req, connection::LIFECYCLE_KEEPALIVE); break;
    case 'P': reply(c, r, req, connection::LIFECYCLE_PIPELINED); break;
    case 'S': { uint64_t t; { Quiet q; t = 1 + plan(3000000); } sim::sleep(t); reply(c, r, req, connection::LIFECYCLE_CLOSE); break; }
    case 'D': { Quiet q; r->serving = false; r->orphan = true; SIM_COUNT("fault.handler-drops-connection"); break; }
    case 'T': { Quiet q; r->serving = false; r->orphan = true; SIM_COUNT("fault.handler-throws"); } throw std::runtime_error("handler");
    case 'H': {   // another thread finishes the connection later
        Quiet q; connection_ptr cc = c; size_t slot = HELD->size(); HELD->push_back(c); std::string rq = req;
        spawn("holder", [cc, r, rq, slot] { sim::sleep(1 + plan(4000000)); loud([&] { reply(cc, r, rq, connection::LIFECYCLE_CLOSE); }); (*HELD)[slot].reset(); const_cast<connection_ptr &>(cc).reset(); });
        break; }
    default: reply(c, r, req, connection::LIFECYCLE_CLOSE); break;
    }
}
void Srv::handle_connection(const connection_ptr &c) {
    std::shared_ptr<Rec> r; int mode;
    {
        Quiet q; ++g_entries;
        CHECK(!(P("P03") && g_stopped), "handler-after-stop", "the connection handler was entered after stop() had returned");
        r = rec_of(c); unsigned short port = c->get_remote_port(); if (!r->port) r->port = port;
        log("handle %d entry %d", r->port, r->entries + 1);
        if (r->entries++ == 0) {
            auto it = C->find(r->port);
            if (it != C->end()) {
                auto &k = it->second; ++k->handled;
                if (P("P04")) CHECK(k->handled == 1, "handled-twice", "connection of client port %d handed to the handler %d times", r->port, k->handled);
                if (P("P04") && g_ssl) CHECK(!k->bad_ssl, "handshake-bypassed", "connection handled although its SSL handshake never succeeded");
            }
        } else if (P("P04")) CHECK(r->want_entry, "handled-twice", "connection of client port %d handled again without having been finished with keep-alive", r->port);
        r->want_entry = false; r->serving = true;
        mode = plan(g_drop_ok ? 12 : 8); if (!g_sync_ok && mode == 1) mode = 0;
        { auto it = C->find(r->port); if (it != C->end() && it->second->relentless) mode = 0; }
        if (mode == 10) { r->serving = false; r->orphan = true; SIM_COUNT("fault.handler-throws"); }
        if (mode == 11) { r->serving = false; r->orphan = true; SIM_COUNT("fault.handler-drops-connection"); }
    }
    switch (mode) {
    case 1: {   // blocking exchange on the worker thread
        std::string in; boost::system::error_code ec;
        for (;;) { std::size_t n = c->read_some(ec); if (ec) { do_finish(c, r, connection::LIFECYCLE_CLOSE); return; } Quiet q; in.append(c->get_read_buffer().data(), n); if (in.find('\n') != std::string::npos) break; }
        answer(c, r, in); break; }
    case 2: if (r->entries > 1) { do_finish(c, r, connection::LIFECYCLE_CLOSE); return; }   // finishes at once
        /* fall through */
    default: { boost::shared_ptr<Exch> x; { Quiet q; x.reset(new Exch); x->c = c; x->r = r; } x->read(); break; }
    case 10: throw 7;
    case 11: break;
    }
}
int live_conns() { int n = 0; for (auto &r : *R) if (!r->w.expired()) ++n; return n; }
int held() { int n = 0; for (auto &h : *HELD) if (h) ++n; return n; }

// ---------------------------------------------------------------- queries (P05)
void query() {
    int lo = 0, hi = 0; std::vector<std::shared_ptr<Rec> > sv;
    for (auto &r : *R) if (r->serving && !r->w.expired()) sv.push_back(r);
    int ended0 = 0; for (auto &r : *R) if (r->ended) ++ended0;
    int stops0 = g_stop_calls; bool listening_like = !g_stopped;
    (void)listening_like;
    std::size_t n = loud([] { return SRV->get_connections(); });
    for (auto &r : sv) if (r->serving && !r->w.expired()) ++lo;
    hi = g_connects - ended0 + 1;        // + a failed accept whose object is still being released
    if (g_stops_in_flight || g_stop_calls != stops0) hi += 1;      // the pending accept, counted once the server no longer listens
    if (g_starts_in_flight) hi += 1;
    log("count %zu in [%d,%d]", n, lo, hi);
    ++*counter("evals");
    CHECK(n < 1000000, "count-wrapped", "get_connections() returned %zu", n);
    CHECK((int)n >= lo, "count-low", "get_connections() returned %zu while %d connections are being served", n, lo);
    CHECK((int)n <= hi, "count-high", "get_connections() returned %zu, at most %d can exist", n, hi);
}
// ---------------------------------------------------------------- clients
// kinds: 0 good, 1 bad ssl / garbage, 2 reset early, 3 half request then close, 4 idle until closed
void client(int kind, uint64_t idle) {
    auto k = std::make_shared<Cli>(); ALLC->push_back(k);
    simnet::Client c;
    int st0 = g_starts; bool stopped0 = g_stopped || g_stops_in_flight; int calls0 = g_stop_calls;
    ++g_connects;
    k->bad_ssl = g_ssl && kind == 1; k->gave_up = kind == 2; k->relentless = kind == 5;
    // the port becomes known at connect time; the handler may run before this fiber resumes
    {
        bool ok = c.connect(g_port);
        if (!ok) { --g_connects; k->gave_up = true; return; }
    }
    k->end = c.end; k->port = c.end->local.port; k->at = sim::now();
    if (C->count(k->port)) violation("harness", "port reuse");
    (*C)[k->port] = k;
    for (auto &r : *R) if (r->port == k->port && r->entries) { ++k->handled; if (P("P04") && g_ssl && k->bad_ssl) violation("handshake-bypassed", "connection handled although its SSL handshake never succeeded"); }
    (void)st0; (void)stopped0; (void)calls0;
    auto lost = [&] { return c.rst || c.eof || (c.end && c.end->rx_rst); };
    if (kind == 2) { if (plan(2)) sim::sleep(plan(3000)); c.reset(); return; }
    if (g_ssl) {
        if (kind == 1) {
            switch (plan(4)) {
            case 0: c.send("GET / HTTP/1.0\r\n\r\n"); c.recv_eof(20 * SEC); break;
            case 1: c.send(std::string(simnet::SSL_CH, plan(simnet::SSL_LEN))); c.shutdown(); c.recv_eof(20 * SEC); break;
            case 2: c.send(std::string(simnet::SSL_CH, simnet::SSL_LEN)); c.recv_until([](const std::string &s) { return s.size() >= simnet::SSL_LEN; }, 20 * SEC); c.send("\x16" "BADBADBA"); c.recv_eof(20 * SEC); break;
            default: c.send(std::string(simnet::SSL_CH, 4)); sim::sleep(plan(100000)); c.reset(); break;
            }
            c.close(); return;
        }
        if (!c.ssl_handshake(60 * SEC)) { k->gave_up = true; c.close(); return; }
    } else if (kind == 1) { c.send("garbage without a newline"); sim::sleep(plan(50000)); if (plan(2)) c.reset(); else c.close(); return; }
    if (kind == 3) { c.send("C12"); if (plan(2)) sim::sleep(plan(100000)); c.close(); return; }
    if (kind == 4) { c.recv_eof(idle); c.close(); return; }
    if (kind == 5) {   // keeps its connection busy for as long as the server lets it
        for (int i = 0; i < 3000; ++i) { c.in.clear(); if (!c.send("E" + std::to_string(i) + "\n")) break; if (!c.recv_until([&](const std::string &s) { return s.find('\n') != std::string::npos; }, 60 * SEC)) break; sim::sleep(100000 + plan(300000)); if (sim::now() - k->at > idle) break; }
        c.close(); return;
    }
    int reqs = plan_range(1, 3);
    for (int i = 0; i < reqs; ++i) {
        static const char ops[] = "ECSHPEDT"; char op = ops[plan(g_drop_ok ? 8 : 6)]; if (i + 1 == reqs && (op == 'E' || op == 'P')) op = 'C';
        std::string id = std::to_string(k->port) + "." + std::to_string(i) + "\n", rq = std::string(1, op) + id;
        c.in.clear(); k->req = i; k->replied = false; k->in_request = false; k->must_finish = op != 'D' && op != 'T';
        if (!c.send(rq)) { k->cut = i; k->must_finish = false; break; }
        bool got = c.recv_until([&](const std::string &s) { return s.find('\n') != std::string::npos; }, op == 'D' || op == 'T' ? 3 * SEC : 60 * SEC);
        log("client %d req %d op %c got %d lost %d", k->port, i, op, (int)got, (int)lost());
        if (got) { k->replied = true; k->must_finish = false;
            if (P("P04")) CHECK(c.in == "R" + rq, "wrong-reply", "client %d got an answer that is not its own: '%s'", k->port, c.in.substr(0, 30).c_str()); }
        else { if (k->must_finish) k->cut = i; if (P("P04") && c.timed_out && op != 'D' && op != 'T' && !g_drop_ok && !g_stop_calls) violation("not-served", "client %d connected and sent a request, and got neither an answer nor a close in 60 s", k->port); break; }
        if (op != 'E' && op != 'P') break;
        if (plan(3) == 2) sim::sleep(plan(400000));
    }
    if (plan(2)) c.recv_eof(plan(2) ? 5 * SEC : 1000);
    k->must_finish = false;
    if (plan(4) == 3) c.reset(); else c.close();
}
// ---------------------------------------------------------------- control
bool do_start() {
    ++g_starts; ++g_starts_in_flight; g_stopped = false; bool ok = true; log("start");
    try { loud([] { SRV->start(); }); } catch (std::exception &e) { ok = false; log("start failed: %s", e.what()); SIM_COUNT("fault.start-failed"); }
    --g_starts_in_flight; if (ok) g_port = (uint16_t)SRV->get_port();
    log("start done %d", (int)ok); return ok;
}
void check_stopped(int s0) {
    // afterwards: nothing tracked, every socket released unless somebody outside holds it, no handler entered
    if (!P("P03") || g_starts != s0) return;
    std::size_t n = loud([] { return SRV->get_connections(); });
    if (g_starts != s0) return;
    CHECK(n == 0, "tracked-after-stop", "stop() returned and %zu connections are still tracked", n);
    auto quiet = [&] { return live_conns() <= held(); };
    if (!wait_until([&] { return quiet() || g_starts != s0; }, 30 * SEC)) violation("leaked-after-stop", "%d connection objects alive 30 s after stop() returned (%d held outside)", live_conns(), held());
    if (g_starts != s0) return;
    auto open_ends = [&] { int n = 0; for (auto &e : simnet::server_ends()) if (e->server_side && !e->closed) { bool h = false; for (auto &x : *HELD) if (x && x->is_open() && x->get_remote_port() == e->remote.port) h = true; if (!h) ++n; } return n; };
    if (!wait_until([&] { return open_ends() == 0 || g_starts != s0; }, 30 * SEC)) violation("socket-open-after-stop", "%d accepted sockets still open 30 s after stop() returned", open_ends());
    ++*counter("evals");
}
void do_stop(bool wait) {
    bool was = SRV->is_listening(); int s0 = g_starts; bool inflight = g_starts_in_flight > 0;
    std::vector<std::pair<std::shared_ptr<Cli>, int> > busy;
    if (wait && !g_rude_stop) for (auto &k : *ALLC) if (k->must_finish && k->in_request && k->handled && !k->replied && k->end && !k->end->closed && !k->end->rx_rst) busy.push_back(std::make_pair(k, k->req));
    if (!wait) g_rude_stop = true;
    ++g_stop_calls; ++g_stops_in_flight; uint64_t t0 = sim::now(); log("stop wait=%d was=%d", (int)wait, (int)was);
    loud([&] { SRV->stop(wait); });
    --g_stops_in_flight; log("stop done");
    uint64_t dt = sim::now() - t0;
    if (P("P03") && was && !g_stops_in_flight && !inflight && g_starts == s0) {
        CHECK(!SRV->is_listening(), "listening-after-stop", "stop() returned and the server still listens");
        g_stopped = true;
        if (wait) CHECK(dt < 150 * SEC, "stop-slow", "stop(true) took %llu s although every request in progress ends within seconds", (unsigned long long)(dt / SEC));
        if (!wait) CHECK(dt < 60 * SEC, "stop-slow", "stop(false) took %llu s although it closes the connections", (unsigned long long)(dt / SEC));
        if (!g_rude_stop) { sim::sleep(10 * SEC); for (auto &k : busy) { CHECK(k.first->cut != k.second, "request-cut-off", "stop(true) cut off the request that client %d had in progress", k.first->port); SIM_PROBE("request-finished-in-stop"); } }
        check_stopped(s0);
    }
}
void scenario() {
    simnet::random_config(); g_ssl = plan(4) == 3; bool life = P("P03"), acc = P("P04"), cnt = P("P05");
    g_sync_ok = plan(3) == 2; g_drop_ok = plan(3) == 2;
    int sched = plan(3), n = plan_range(1, 3); g_port = plan(2) ? 8080 : 0;
    pion::scheduler *S = 0;
    if (sched == 1) S = new pion::single_service_scheduler(); else if (sched == 2) S = new pion::one_to_one_scheduler();
    loud([&] { if (S) { S->set_num_threads(n); SRV = new Srv(*S, g_port); } else SRV = new Srv(g_port); if (g_ssl) SRV->set_ssl_flag(true); });
    auto start_retry = [&] { for (int i = 0; i < 12; ++i) { if (do_start()) return; CHECK(!SRV->is_listening(), "listening-after-failure", "start() threw but the server claims to listen"); if (i == 8) set_faults(false); } violation("start-unusable", "start() keeps failing after one failed start although the port is free"); };
    start_retry(); set_faults(true);
    CHECK(SRV->is_listening(), "not-listening", "start() returned and the server does not listen");
    int cycles = life ? plan_range(1, 3) : 1;
    for (int cy = 0; cy < cycles; ++cy) {
        g_rude_stop = false;
        bool final_wait = plan(2) == 0; bool messy = (life || cnt) && plan(3) == 2;      // several threads start and stop at the same time
        int nc = plan_range(1, 6); std::vector<int> f, ctl; std::vector<bool> *joined = new std::vector<bool>();
        for (int i = 0; i < nc; ++i) { int kind = plan(9); if (kind > 5 || (kind == 5 && (!life || i > 1))) kind = 0; if (kind == 4 && final_wait) kind = 0; uint64_t idle = 200 * SEC; uint64_t d = plan(3) == 2 ? plan(2000000) : plan(3000);
            if (kind == 4 && !life) idle = 5 * SEC;
            f.push_back(spawn("client", [=] { sim::sleep(d); client(kind, idle); })); }
        std::vector<int> qs; int stop_query = 0; bool *qstop = new bool(false); (void)stop_query;
        if (cnt || plan(4) == 3) qs.push_back(spawn("query", [=] { for (int i = 0; i < 60 && !*qstop; ++i) { if (cnt) query(); else loud([] { SRV->get_connections(); }); sim::sleep(1 + plan(i < 30 ? 2000 : 300000)); } }));
        if (life) { int nj = plan(3); for (int j = 0; j < nj; ++j) { joined->push_back(false); size_t ix = joined->size() - 1; ctl.push_back(spawn("joiner", [=] { uint64_t d = plan(50000); sim::sleep(d); int st = g_stop_calls; loud([] { SRV->join(); }); (*joined)[ix] = true; if (P("P03")) CHECK(g_stop_calls > st || st > 0 || !SRV->is_listening() || messy, "join-early", "join() returned although nobody stopped the server"); })); } }
        if (messy) { int m = plan_range(1, 2); for (int j = 0; j < m; ++j) f.push_back(spawn("ctl", [=] { for (int i = 0; i < 3; ++i) { sim::sleep(1 + plan(200000)); if (plan(2)) do_stop(false); else do_start(); } })); }
        int sdn = -1; bool sdown = false;
        if (life && sched == 1 && plan(4) == 3) sdn = spawn("sched-shutdown", [&] { sim::sleep(plan(300000)); loud([&] { S->shutdown(); }); sdown = true; });
        bool early = life && plan(2);
        auto fin = [&](std::vector<int> &v) { for (int x : v) if (!done(x)) return false; return true; };
        if (early) sim::sleep(1 + plan(plan(2) ? 5000 : 2000000));
        else if (!wait_until([&] { return fin(f); }, 900 * SEC)) violation(messy ? "stop-hangs" : "stuck", "clients or start/stop calls did not complete in 900 s");
        if (acc) {
            // everybody who connected and stayed was handled exactly once
            auto missing = [&] { for (auto &k : *ALLC) if (k->port && !k->gave_up && !k->bad_ssl && !k->handled && k->end && !k->end->rx_rst && !(k->end->peer.lock() && k->end->peer.lock()->tag == "accept-fault")) return (int)k->port; return 0; };
            if (!wait_until([&] { return missing() == 0; }, 60 * SEC)) violation("never-handled", "client %d connected to the listening server and its connection was never handled", missing());
            // the server still accepts and serves
            set_faults(false); bool drop = g_drop_ok; g_drop_ok = false; g_sync_ok = false; 
            for (int i = 0; i < 3; ++i) { simnet::Client c; bool ok = c.connect(g_port); if (ok) { ++g_connects; auto k = std::make_shared<Cli>(); k->port = c.end->local.port; k->end = c.end; (*C)[k->port] = k; }
                ok = ok && (!g_ssl || c.ssl_handshake(60 * SEC)) && c.send("Clast\n") && c.recv_until([](const std::string &s) { return s.find('\n') != std::string::npos; }, 60 * SEC);
                CHECK(ok && c.in == "RClast\n", "stops-accepting", "after the faults ended a new client is not served (connect/handshake/answer failed)"); ++*counter("evals"); }
            g_drop_ok = drop; 
        }
        *qstop = true; for (int q : qs) join(q);
        if (cnt && !messy) {
            // all clients are gone: the count returns to zero and every finished connection object is released
            set_faults(false); g_drop_ok = false; sim::sleep(15 * SEC);   // stalled workers wake up and enter the handlers they owe
            auto gone = [&] { for (auto &r : *R) if (!r->w.expired() && !r->orphan) return false; return held() == 0; };
            if (!wait_until(gone, 60 * SEC)) violation("connection-leak", "%d connection objects alive 60 s after all clients had gone", live_conns());
            auto orphans = [] { for (auto &r : *R) if (r->orphan) return true; return false; };   // a stalled worker may enter the handler only now
            if (!orphans()) {   // nobody dropped a connection: everything is released without any help (failed handshakes included)
                SIM_PROBE("released-without-help");
                std::size_t left = 1;
                for (int i = 0; i < 60 && left && !orphans(); ++i) { left = loud([] { return SRV->get_connections(); }); if (left) sim::sleep(1 * SEC); }
                CHECK(left == 0 || orphans(), "count-not-zero", "all clients have gone for 60 s and get_connections() returns %zu", left);
                CHECK(wait_until([&] { int n = 0; for (auto &e : simnet::server_ends()) if (e->server_side && !e->closed) ++n; return n == 0 || orphans(); }, 30 * SEC), "socket-leak", "accepted sockets are still open after all clients had gone");
            }
            // dropped connections are released when the server next accepts
            std::size_t c = 1;
            for (int i = 0; i < 6; ++i) {
                sim::sleep(i ? 20 * SEC : 1000); c = loud([] { return SRV->get_connections(); });
                if (c == 0 && live_conns() == 0) break;
                simnet::Client k; ++g_connects; if (k.connect(g_port)) { if (g_ssl) k.ssl_handshake(); k.send("Cx\n"); k.recv_eof(60 * SEC); k.close(); }
            }
            CHECK(live_conns() == 0, "connection-leak", "%d dropped connection objects were not released by later accepts", live_conns());
            CHECK(c == 0, "count-not-zero", "all clients are gone and get_connections() returns %zu", c);
            auto open = [] { int n = 0; for (auto &e : simnet::server_ends()) if (e->server_side && !e->closed) ++n; return n; };
            CHECK(wait_until([&] { return open() == 0; }, 30 * SEC), "socket-leak", "%d accepted sockets still open after all clients had gone", open());
            ++*counter("evals");
        }
        bool sd = false; int sf = spawn("stopper", [&] { do_stop(final_wait); sd = true; });
        if (!wait_until([&] { return sd; }, 900 * SEC)) violation("stop-hangs", "stop(%s) did not return in 900 s", final_wait ? "true" : "false");
        join(sf);
        if (!wait_until([&] { return fin(f); }, 900 * SEC)) violation("stuck", "clients or start/stop calls did not complete in 900 s");
        if (messy && SRV->is_listening()) { do_stop(false); }
        if (sdn >= 0) { if (!wait_until([&] { return sdown; }, 300 * SEC)) violation("shutdown-hangs", "the scheduler's shutdown does not complete although its server is stopped"); join(sdn); }
        if (!wait_until([&] { return fin(ctl); }, 60 * SEC)) violation("join-hangs", "join() was not released by stop()");
        if (cnt) { std::size_t c = loud([] { return SRV->get_connections(); }); CHECK(c == 0, "count-not-zero", "the server is stopped and get_connections() returns %zu", c); }
        set_faults(true); g_drop_ok = g_drop_ok && life;
        if (cy + 1 < cycles || (life && plan(2))) {
            start_retry(); set_faults(false); bool d = g_drop_ok; g_drop_ok = false;
            simnet::Client c; bool ok = c.connect(g_port); if (ok) ++g_connects;
            ok = ok && (!g_ssl || c.ssl_handshake(60 * SEC)) && c.send("Cagain\n") && c.recv_until([](const std::string &s) { return s.find('\n') != std::string::npos; }, 60 * SEC);
            if (P("P03")) CHECK(ok && c.in == "RCagain\n", "restart-broken", "after stop() and start() a client is not served");
            c.close(); g_drop_ok = d; set_faults(true); ++*counter("evals");
            if (cy + 1 == cycles) do_stop(plan(2));
        }
    }
    bool gone = false; int df = spawn("destroyer", [&] { loud([&] { delete SRV; SRV = 0; if (S) { S->shutdown(); delete S; } }); gone = true; });
    if (!wait_until([&] { return gone; }, 900 * SEC)) violation("stop-hangs", "destroying the stopped server did not complete");
    join(df);
    if (!P("P04")) CHECK(live_conns() <= held(), "connection-leak", "%d connection objects outlive the server", live_conns());
}
}
void harness_run() {
    quiet_logging(); R = new std::vector<std::shared_ptr<Rec> >(); C = new std::map<unsigned short, std::shared_ptr<Cli> >(); ALLC = new std::vector<std::shared_ptr<Cli> >(); HELD = new std::vector<connection_ptr>(); HELD->reserve(4096);
    scenario();
}
