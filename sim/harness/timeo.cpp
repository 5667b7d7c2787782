// P07: read timeouts of the HTTP readers
#include "httpx.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/http/server.hpp>
#include <pion/tcp/server.hpp>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr; using pion::http::request_ptr; using pion::http::response_ptr;

namespace {
const uint64_t SLACK = 2500000;      // network delays, injected stalls and scheduling
int g_T; bool g_ssl, g_exact; uint16_t g_port;
std::map<unsigned short, uint64_t> *AWAIT; std::map<unsigned short, int> *NAWAIT; std::vector<std::string> *HANDLED;       // when the server last began to wait for a new message on that connection
std::vector<boost::weak_ptr<connection> > *CONNS;
void respond(const connection_ptr &c, const request_ptr &r) {
    std::string s; { Quiet q; s = "I=" + r->get_header("X-Id") + ";" + filler(3, atoi(r->get_header("X-Size").c_str())); }
    pion::http::response_writer_ptr w(pion::http::response_writer::create(c, *r, boost::bind(&connection::finish, c))); w << s; w->send();
}
void handle(const request_ptr &r, const connection_ptr &c) {
    uint64_t d; { Quiet q; d = strtoull(r->get_header("X-Delay").c_str(), 0, 10); CONNS->push_back(c); HANDLED->push_back(r->get_header("X-Id")); log("handler id %s delay %llu", r->get_header("X-Id").c_str(), (unsigned long long)d); }
    if (!d) { respond(c, r); return; }
    Quiet q; connection_ptr *cc = new connection_ptr(c); request_ptr *rr = new request_ptr(r);
    spawn("answerer", [=] { sim::sleep(d); loud([&] { respond(*cc, *rr); delete cc; delete rr; }); });
}
struct Tsrv : pion::tcp::server {
    Tsrv(pion::scheduler &s) : pion::tcp::server(s, 0) {}
    virtual void handle_connection(const connection_ptr &c) {
        { Quiet q; (*AWAIT)[c->get_remote_port()] = sim::now(); ++(*NAWAIT)[c->get_remote_port()]; }
        pion::http::request_reader_ptr r(pion::http::request_reader::create(c, boost::bind(&Tsrv::done, this, _1, _2, _3))); r->set_timeout(g_T); r->receive();
    }
    void done(const request_ptr &r, const connection_ptr &c, const boost::system::error_code &ec) {
        { Quiet q; log("read done ec %d valid %d", ec.value(), (int)r->is_valid()); }
        if (ec || !r->is_valid()) { c->set_lifecycle(connection::LIFECYCLE_CLOSE); c->finish(); return; }
        handle(r, c);
    }
};
struct Hsrv : pion::http::server {
    Hsrv(pion::scheduler &s) : pion::http::server(s, 0) {}
    virtual void handle_connection(const connection_ptr &c) { { Quiet q; (*AWAIT)[c->get_remote_port()] = sim::now(); ++(*NAWAIT)[c->get_remote_port()]; } pion::http::server::handle_connection(c); }
};
uint64_t short_gap() { return 1 + plan((uint32_t)(g_T ? g_T * SEC - 2000000 : 20 * SEC)); }
/// waits for the end of the connection; checks that it comes when the timeout says
void expect_timeout(simnet::Client &c, uint64_t from_lo, uint64_t from_hi, size_t had, const char *what) {
    if (!g_T) {
        c.timed_out = false; c.recv_some(200 * SEC); { simnet::EndP p = c.end->peer.lock(); if (p && p->tag == "accept-fault") return; }
        CHECK(!c.eof && !c.rst, "gave-up-without-timeout", "connection closed after %llu ms of silence (%s) although the timeout is disabled", (unsigned long long)((sim::now() - from_lo) / 1000), what);
        ++*counter("evals"); return;
    }
    c.timed_out = false; c.recv_eof(g_T * SEC + 60 * SEC); uint64_t t = sim::now();
    (void)had; { simnet::EndP p = c.end->peer.lock(); if (p && p->tag == "accept-fault") return; }      // never reached the server
    CHECK(c.eof || c.rst, "never-gave-up", "connection still open %llu ms after the last data (%s) with a read timeout of %d s", (unsigned long long)((t - from_hi) / 1000), what, g_T);
    CHECK(t >= from_lo + g_T * SEC, "gave-up-early", "connection given up %llu ms after the last data (%s) with a read timeout of %d s", (unsigned long long)((t - from_lo) / 1000), what, g_T);
    CHECK(t <= from_hi + g_T * SEC + SLACK, "gave-up-late", "connection given up only %llu ms after the last data (%s) with a read timeout of %d s", (unsigned long long)((t - from_hi) / 1000), what, g_T);
    SIM_PROBE("timed-out"); ++*counter("evals");
}
void server_client(int cid) {
    simnet::Client c; bool ok = false;
    for (int i = 0; i < 20 && !ok; ++i) { ok = c.connect(g_port) && (!g_ssl || c.ssl_handshake(60 * SEC)); if (!ok) { c.close(); c = simnet::Client(); sim::sleep(1000); } }
    if (!ok) return;
    unsigned short port = c.end->local.port; int rounds = plan_range(0, 3);
    auto fault_lost = [&] { simnet::EndP p = c.end->peer.lock(); return p && p->tag == "accept-fault"; };
    for (int k = 0; k < rounds; ++k) {
        std::string id = std::to_string(cid) + "." + std::to_string(k), body = filler(9, plan(40)), w = "POST /a HTTP/1.1\r\nX-Id: " + id + "\r\n"; size_t size = plan(3) ? 0 : 1 + plan(3000); bool delayed = plan(3) == 2;
        w += "X-Size: " + std::to_string(size) + "\r\nX-Delay: " + std::to_string(delayed ? 1 + plan((uint32_t)(g_T ? g_T : 5) * 2200000) : 0) + "\r\n";
        if (plan(2)) w += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; else { char b[16]; snprintf(b, sizeof b, "%zx", body.size()); w += "Transfer-Encoding: chunked\r\n\r\n"; if (!body.empty()) w += std::string(b) + "\r\n" + body + "\r\n"; w += "0\r\n\r\n"; }
        int pieces = plan_range(1, 6); size_t off = 0; bool give = plan(6) == 5; int at = give ? (int)plan(pieces) : -1; uint64_t t0 = sim::now(); bool edge = g_T && !give && plan(3) == 2, edged = false;
        for (int p = 0; p < pieces; ++p) {
            size_t n = p + 1 == pieces ? w.size() - off : std::min<size_t>(w.size() - off, plan((uint32_t)(w.size() / pieces * 2))); if (!n) continue;
            if (p == at) {    // falls silent in the middle
                if (off == 0) break;
                expect_timeout(c, t0, t0, off, "in the middle of a request"); c.close(); return;
            }
            if (edge && !edged && (off || AWAIT->count(port)) && (p + 1 == pieces || plan(2))) {      // arrives just when the timer expires
                uint64_t from = off ? t0 + (g_exact ? 52 : 0) : (*AWAIT)[port], to = g_exact ? from + g_T * SEC - 56 + plan(20) : from + g_T * SEC - 400 + plan(600); if (to > sim::now()) sim::sleep(to - sim::now()); edged = true; SIM_PROBE("at-the-edge");
            } else if (off && plan(3)) { uint64_t g = short_gap(); c.timed_out = false; c.recv_some(g); if (g > 10000) SIM_PROBE("slow-peer"); if (c.eof || c.rst) { if (fault_lost() || edged) return; violation("cut-off", "connection closed after %zu bytes of a request although every gap was shorter than the timeout of %d s", off, g_T); } }
            if (!c.send(w.substr(off, n))) { if (fault_lost() || edged) return; violation("cut-off", "connection closed while a request was being sent (%zu bytes, timeout %d s)", off, g_T); }
            off += n; t0 = sim::now();
        }
        if (off < w.size()) { if (!c.send(w.substr(off))) { if (fault_lost()) return; violation("cut-off", "connection closed while a request was being sent"); } }
        bool lazy = k + 1 == rounds && size && plan(2); if (lazy) sim::sleep(plan((uint32_t)(g_T ? g_T : 5) * 2000000));      // does not read the answer for a while
        size_t base = c.in.size(); Resp a; int st = 0; uint64_t dl = sim::now() + 100 * SEC;
        for (;;) { st = c.in.size() > base ? parse_resp(c.in, base, false, c.eof, a) : 0; if (st || c.eof || c.rst || sim::now() >= dl) break; c.timed_out = false; c.recv_some(dl - sim::now()); }
        if (st != 1 && fault_lost()) return;
        if (st != 1 && edged && std::find(HANDLED->begin(), HANDLED->end(), id) == HANDLED->end()) { ++*counter("evals"); return; }      // it was too late
        if (edged) SIM_PROBE("edge-in-time");
        CHECK(st == 1 && a.code == 200 && a.body == "I=" + id + ";" + filler(3, size), "exchange-disturbed", "request %s was not answered correctly (got %zu bytes, closed %d, timeout %d s)", id.c_str(), c.in.size() - base, (int)(c.eof || c.rst), g_T);
        c.in.clear(); ++*counter("evals"); if (lazy) { SIM_PROBE("lazy-reader"); c.close(); return; }
        if (k + 1 < rounds && plan(2)) { uint64_t g = short_gap(); c.timed_out = false; c.recv_some(g); if (c.eof || c.rst) { if (fault_lost()) return; violation("cut-off", "keep-alive connection closed although the next request came within the timeout of %d s", g_T); } }
    }
    if (plan(2)) { c.close(); return; }
    // idle: given up after the timeout
    if (rounds == 0) wait_until([&] { return AWAIT->count(port) || c.end->rx_rst; }, 30 * SEC);
    if (!AWAIT->count(port)) { c.close(); return; }
    uint64_t from = (*AWAIT)[port]; if (rounds) { if (!wait_until([&] { return (*NAWAIT)[port] > rounds; }, 3 * SEC)) { c.close(); return; } from = (*AWAIT)[port]; }
    expect_timeout(c, from, std::max(from, (*AWAIT)[port]), 0, rounds ? "idle after an exchange" : "nothing sent at all");
    c.close();
}
void server_side() {
    pion::single_service_scheduler *S = new pion::single_service_scheduler(); int nt = plan_range(1, 3); pion::tcp::server *srv = 0; bool http = plan(3) == 2; if (http) g_T = 10;
    loud([&] { S->set_num_threads(nt); if (http) { Hsrv *h = new Hsrv(*S); h->add_resource("/", &handle); srv = h; } else srv = new Tsrv(*S); if (g_ssl) srv->set_ssl_flag(true);
        for (int i = 0;; ++i) { try { srv->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); } } });
    set_faults(true); g_port = (uint16_t)srv->get_port(); std::vector<int> f; int nc = plan_range(1, 3);
    for (int i = 0; i < nc; ++i) { uint64_t d = plan(2) ? 0 : plan(3000000); f.push_back(spawn("client", [=] { sim::sleep(d); server_client(i); })); }
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 5000 * SEC)) violation("stuck", "clients did not finish");
    set_faults(false);
    auto open = [] { int n = 0; for (auto &e : simnet::server_ends()) if (e->server_side && !e->closed) ++n; return n; };
    CHECK(wait_until([&] { return open() == 0; }, 60 * SEC), "socket-held", "%d sockets still open 60 s after their connections ended or timed out", open());
    bool sd = false; int sf = spawn("stopper", [&] { loud([&] { srv->stop(true); delete srv; S->shutdown(); delete S; }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stop did not return"); join(sf);
}
// ---------------------------------------------------------------- the library as client
struct Cl : boost::enable_shared_from_this<Cl> {
    connection_ptr c; request_ptr rq; int writes = 0, reads = 0; bool ok = false, valid = false; boost::system::error_code wec, rec; uint64_t t_done = 0, t_begin = 0; std::string body; HbToken hb;
    void go() { rq.reset(new pion::http::request("/x")); pion::http::request_writer_ptr w(pion::http::request_writer::create(c, rq, boost::bind(&Cl::written, shared_from_this(), _1))); w->send(); }
    void written(const boost::system::error_code &ec) { { Quiet q; ++writes; wec = ec; t_begin = sim::now(); log("written %d", ec.value()); } if (ec) return;
        pion::http::response_reader_ptr r(pion::http::response_reader::create(c, *rq, boost::bind(&Cl::got, shared_from_this(), _1, _2, _3))); r->set_timeout(g_T); r->receive(); }
    void got(const response_ptr &r, const connection_ptr &, const boost::system::error_code &ec) { Quiet q; ++reads; rec = ec; valid = !ec && r->is_valid(); t_done = sim::now(); if (valid) body.assign(r->get_content(), r->get_content_length()); hb_capture(hb); log("got ec %d valid %d", ec.value(), (int)valid); }
};
void client_side() {
    pion::single_service_scheduler *S = new pion::single_service_scheduler(); int nt = plan_range(1, 3); loud([&] { S->set_num_threads(nt); S->add_active_user(); });
    uint16_t port = 9100; boost::system::error_code ec; simnet::ListenerP l = simnet::listen(port, ec);
    {
        connection_ptr c; loud([&] { c.reset(new connection(S->get_io_service(), false)); }); boost::system::error_code e1;
        for (int i = 0; i < 30; ++i) { e1 = loud([&] { return c->connect(boost::asio::ip::address_v4(0x7f000001), port); }); if (!e1) break; if (i == 20) set_faults(false); } set_faults(true); CHECK(!e1, "connect", "cannot connect");
        CHECK(wait_until([&] { return !l->backlog.empty(); }, 30 * SEC), "connect", "no connection"); simnet::Client peer; peer.end = l->backlog.front(); l->backlog.pop_front();
        int rounds = plan_range(1, 3);
        for (int k = 0; k < rounds; ++k) {
            struct Hold { boost::shared_ptr<Cl> p; ~Hold() { if (p) { hb_apply(p->hb); loud([&] { p.reset(); }); } } } hold; boost::shared_ptr<Cl> &x = hold.p; { Quiet q; x.reset(new Cl); x->c = c; } loud([&] { x->go(); });
            peer.in.clear(); if (!peer.recv_until([](const std::string &s) { return s.find("\r\n\r\n") != std::string::npos; }, 60 * SEC)) violation("exchange-disturbed", "the request of round %d never arrived (write result %d)", k, x->wec.value());
            std::string body = filler(k, plan(60)), w = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; int pieces = plan_range(1, 5); size_t off = 0; bool silent = plan(4) == 3; int at = silent ? (int)plan(pieces) : -1; uint64_t last = sim::now(); bool stopped = false, edge = g_T && !silent && plan(3) == 2, edged = false;
            CHECK(wait_until([&] { return x->writes == 1; }, 60 * SEC), "exchange-disturbed", "the write never completed");
            if (x->wec) violation("exchange-disturbed", "the request of round %d could not be written: error %d", k, x->wec.value());
            uint64_t from = x->t_begin;
            for (int p = 0; p < pieces; ++p) {
                size_t n = p + 1 == pieces ? w.size() - off : std::min<size_t>(w.size() - off, 1 + plan((uint32_t)(w.size() / pieces * 2)));
                if (p == at) { stopped = true; break; }
                if (edge && !edged && plan(2)) { uint64_t to = g_exact ? from + g_T * SEC - 56 + plan(20) + (off ? 50 : 0) : from + g_T * SEC - 400 + plan(600); if (to > sim::now()) sim::sleep(to - sim::now()); edged = true; SIM_PROBE("at-the-edge"); }
                else if (plan(3)) sim::sleep(short_gap());
                if (x->reads) break;
                if (n) { peer.send(w.substr(off, n)); off += n; last = sim::now(); from = last; }
            }
            if (stopped && off < w.size()) {
                if (!g_T) { bool r = wait_until([&] { return x->reads > 0; }, 200 * SEC); CHECK(!r, "gave-up-without-timeout", "read ended although the timeout is disabled"); loud([&] { c->close(); }); wait_until([&] { return x->reads > 0; }, 30 * SEC); ++*counter("evals"); break; }
                CHECK(wait_until([&] { return x->reads > 0; }, g_T * SEC + 60 * SEC), "never-gave-up", "the read was not given up %d s after the last data with a timeout of %d s", g_T + 60, g_T);
                CHECK(!x->valid && x->rec, "timeout-not-reported", "the read timed out and was reported as a success");
                CHECK(x->t_done >= std::min(from, last) + g_T * SEC, "gave-up-early", "the read was given up %llu ms after the last data with a timeout of %d s", (unsigned long long)((x->t_done - last) / 1000), g_T);
                CHECK(x->t_done <= std::max(from, last) + g_T * SEC + SLACK, "gave-up-late", "the read was given up only %llu ms after the last data with a timeout of %d s", (unsigned long long)((x->t_done - last) / 1000), g_T);
                SIM_PROBE("timed-out"); ++*counter("evals"); break;
            }
            CHECK(wait_until([&] { return x->reads > 0; }, 60 * SEC), "exchange-disturbed", "the response of round %d was sent completely and never reported", k);
            if (edged && !x->valid) { CHECK(!!x->rec, "timeout-not-reported", "the read timed out and was reported as a success"); ++*counter("evals"); break; }
            if (edged) SIM_PROBE("edge-in-time");
            CHECK(x->valid && x->body == body, "exchange-disturbed", "round %d: the response was cut off (error %d after %zu of %zu bytes) although every gap was shorter than the timeout of %d s", k, x->rec.value(), off, w.size(), g_T);
            ++*counter("evals");
            if (plan(2)) sim::sleep(plan((uint32_t)(g_T ? g_T : 5) * 2200000));     // the timer of the completed read expires meanwhile
        }
        loud([&] { c->close(); c.reset(); }); peer.close();
    }
    simnet::close_listener(l);
    bool sd = false; int sf = spawn("stopper", [&] { loud([&] { S->remove_active_user(); S->shutdown(); delete S; }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "shutdown did not return"); join(sf);
}
}
void harness_run() {
    quiet_logging(); AWAIT = new std::map<unsigned short, uint64_t>(); NAWAIT = new std::map<unsigned short, int>(); HANDLED = new std::vector<std::string>(); CONNS = new std::vector<boost::weak_ptr<connection> >();
    simnet::random_config(); if (simnet::cfg.stall_num) simnet::cfg.stall_us = 100000; if (simnet::cfg.capacity < 100) simnet::cfg.capacity = 100; if (params.stall_us > 30000) params.stall_us = 30000;
    g_exact = plan(3) == 2; if (g_exact) { simnet::cfg.delay_min = simnet::cfg.delay_max = 50; simnet::cfg.stall_num = 0; simnet::cfg.seg_mode = 0; simnet::cfg.capacity = 65536; }
    g_T = plan(6) == 5 ? 0 : plan_range(3, 6); g_ssl = plan(5) == 4;
    if (plan(3) == 2) client_side(); else server_side();
}
