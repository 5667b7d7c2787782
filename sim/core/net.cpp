#include "net.hpp"
#include "base.hpp"
#include "fiber.hpp"
#include <boost/asio/error.hpp>
#include <cstring>
#include <map>
#include <set>

using sim::choose; using sim::chance; using sim::fault; using sim::NET;
namespace err = boost::asio::error;

namespace simnet {
Config cfg;
static int g_ids = 0;
static std::map<uint16_t, ListenerP> g_listen;
static std::vector<EndP> g_server_ends;
static uint16_t g_eport = 40000;
std::vector<EndP> &server_ends() { return g_server_ends; }

void random_config() {
    cfg.delay_min = sim::plan(2) ? 1 : 20;
    static const uint64_t dm[] = { 200, 50, 2000, 20000, 200000 };
    cfg.delay_max = dm[sim::plan(5)]; if (cfg.delay_max < cfg.delay_min) cfg.delay_max = cfg.delay_min;
    cfg.seg_mode = sim::plan(3);
    static const size_t caps[] = { 65536, 4096, 600, 100, 17 };
    cfg.capacity = caps[sim::plan(5)];
    if (sim::plan(4) == 3) { cfg.stall_num = 1; cfg.stall_den = 30; cfg.stall_us = 1000000; } else cfg.stall_num = 0;
}
static uint64_t delay() {
    uint64_t d = cfg.delay_min + choose(NET, (uint32_t)(cfg.delay_max - cfg.delay_min + 1));
    if (cfg.stall_num && fault("net-stall", cfg.stall_num, cfg.stall_den)) d += cfg.stall_us / 4 * (1 + choose(NET, 8));
    return d;
}
static void poke(const EndP &e) { if (e->ready) { std::function<void()> f = e->ready; f(); } }
static void send_rst(const EndP &from);

static void deliver_at(const EndP &to, std::function<void()> fn) {
    uint64_t t = sim::now() + delay();
    if (t <= to->last_delivery) t = to->last_delivery + 1;
    to->last_delivery = t;
    sim::at(t, std::move(fn));
}
long end_send(const EndP &e, const char *p, size_t n, ec_t &ec) {
    ec = ec_t();
    if (e->closed) { ec = err::bad_descriptor; return 0; }
    if (e->rx_rst) { ec = err::connection_reset; return 0; }
    if (e->tx_shut) { ec = err::broken_pipe; return 0; }
    if (n == 0) return 0;
    EndP to = e->peer.lock(); if (!to) { ec = err::connection_reset; return 0; }
    size_t room = to->unread_total < cfg.capacity ? cfg.capacity - to->unread_total : 0;
    if (to->closed) room = n;                 // goes to a dead peer, answered by a reset
    size_t k = n < room ? n : room;
    if (k == 0) return 0;
    if (k > 1 && fault("net-partial-write", 1, 6)) k = 1 + choose(NET, (uint32_t)(k - 1));
    size_t off = 0; int segs = 0;
    while (off < k) {
        size_t m = k - off;
        if (cfg.seg_mode && segs < 40 && m > 1) {
            uint32_t lim = cfg.seg_mode == 2 ? 9 : (uint32_t)(m < 2000 ? m : 2000);
            uint32_t c = choose(NET, lim + 1);           // 0 = everything
            if (c && c < m) { m = c; SIM_COUNT("net.split"); }
        }
        ++segs;
        std::string data(p + off, m); off += m;
        to->unread_total += m; EndP from = e;
        deliver_at(to, [to, from, data] {
            SIM_COUNT("net.segments");
            if (to->closed) { send_rst(to); return; }
            if (to->rx_rst) return;
            to->rx += data; to->total_in += data.size();
            sim::hash_event(0xD0000 + data.size() + 4096ull * to->id);
            poke(to);
        });
    }
    e->total_out += k;
    return (long)k;
}
long end_recv(const EndP &e, char *p, size_t n, ec_t &ec) {
    ec = ec_t();
    if (e->closed) { ec = err::bad_descriptor; return 0; }
    if (!e->rx.empty() && !e->rx_shut) {
        size_t k = n < e->rx.size() ? n : e->rx.size();
        if (k > 1 && fault("net-short-read", 1, 8)) k = 1 + choose(NET, (uint32_t)(k - 1));
        memcpy(p, e->rx.data(), k); e->rx.erase(0, k); e->unread_total -= k; e->total_read += k;
        EndP pe = e->peer.lock(); if (pe) { uint64_t d = 1; sim::after(d, [pe] { poke(pe); }); }
        return (long)k;
    }
    if (e->rx_rst) { ec = err::connection_reset; return 0; }
    if (e->rx_fin || e->rx_shut) { ec = err::eof; return 0; }
    return 0;
}
static void send_fin(const EndP &e) {
    EndP to = e->peer.lock(); if (!to) return;
    deliver_at(to, [to] { if (!to->closed) { to->rx_fin = true; sim::hash_event(0xF1F1 + to->id); poke(to); } });
}
static void send_rst(const EndP &e) {
    EndP to = e->peer.lock(); if (!to) return;
    deliver_at(to, [to] { if (!to->closed) { to->rx_rst = true; sim::hash_event(0xF2F2 + to->id); poke(to); } });
}
void end_shutdown(const EndP &e) {
    if (e->closed) return;
    e->rx_shut = true;
    if (!e->tx_shut && !e->rx_rst) { e->tx_shut = true; send_fin(e); }
    poke(e);
}
void end_close(const EndP &e) {
    if (e->closed) return;
    bool unread = !e->rx.empty();
    e->closed = true; e->ready = nullptr;
    if (e->rx_rst) return;
    if (unread) send_rst(e); else if (!e->tx_shut) send_fin(e);
    e->rx.clear();
}
void end_reset(const EndP &e) {
    if (e->closed) return;
    e->closed = true; e->ready = nullptr; send_rst(e); SIM_COUNT("fault.client-reset");
}
ListenerP listen(uint16_t &port, ec_t &ec) {
    ec = ec_t();
    if (port == 0) { port = g_eport++; }
    if (g_listen.count(port) && g_listen[port]->open) { ec = err::address_in_use; return ListenerP(); }
    ListenerP l = std::make_shared<Listener>(); l->port = port; l->open = true; g_listen[port] = l;
    return l;
}
void close_listener(const ListenerP &l) {
    if (!l->open) return;
    l->open = false; l->ready = nullptr;
    for (auto &e : l->backlog) { e->closed = true; send_rst(e); }
    l->backlog.clear();
    if (g_listen.count(l->port) && g_listen[l->port] == l) g_listen.erase(l->port);
}
bool strict_reconnect = false;
std::vector<std::pair<uint32_t, int> > &addresses() { static auto *v = new std::vector<std::pair<uint32_t, int> >; return *v; }
std::vector<std::pair<std::string, std::vector<uint32_t> > > &hosts() { static auto *v = new std::vector<std::pair<std::string, std::vector<uint32_t> > >; return *v; }
std::vector<Attempt> &attempts() { static auto *v = new std::vector<Attempt>; return *v; }
static int addr_mode(uint32_t ip) { for (auto &a : addresses()) if (a.first == ip) return a.second; return ip == (uint32_t)LOOPBACK ? ADDR_UP : ADDR_UNREACHABLE; }
void connect(uint16_t port, std::function<void(EndP, ec_t)> cb, uint32_t ip) {
    uint16_t cport = g_eport++; int mode = addr_mode(ip);
    if (mode == ADDR_UNREACHABLE) { SIM_COUNT("fault.address-unreachable"); sim::after(delay(), [cb] { cb(EndP(), ec_t(err::host_unreachable)); }); return; }
    if (mode == ADDR_SILENT) { SIM_COUNT("fault.address-silent"); sim::after(127000000, [cb] { cb(EndP(), ec_t(err::timed_out)); }); return; }
    sim::after(delay(), [port, cport, cb, ip, mode] {
        if (mode == ADDR_REFUSED) { SIM_COUNT("fault.address-refused"); cb(EndP(), ec_t(err::connection_refused)); return; }
        auto it = g_listen.find(port);
        if (it == g_listen.end() || !it->second->open) { cb(EndP(), ec_t(err::connection_refused)); return; }
        ListenerP l = it->second;
        if (fault("connect-refused", 1, 40)) { cb(EndP(), ec_t(err::connection_refused)); return; }
        EndP c = std::make_shared<End>(), s = std::make_shared<End>();
        c->id = ++g_ids; s->id = ++g_ids; c->peer = s; s->peer = c;
        c->local = Addr{ 0x7f000001, cport }; c->remote = Addr{ ip, port }; s->local = c->remote; s->remote = c->local;
        s->server_side = true; g_server_ends.push_back(s); g_server_ends.push_back(c);   // keep both alive
        l->backlog.push_back(s);
        cb(c, ec_t());
        if (l->ready) { auto f = l->ready; f(); }
    });
}

// ---------------------------------------------------------------- blocking client
bool Client::connect(uint16_t port, uint64_t to) {
    bool fin = false; EndP got; ec_t e; auto self = std::make_shared<int>(0); std::weak_ptr<int> w = self;
    simnet::connect(port, [&, w](EndP x, ec_t ee) { if (w.expired()) { if (x) end_reset(x); return; } got = x; e = ee; fin = true; });
    if (!sim::wait_until([&] { return fin; }, to)) { timed_out = true; return false; }
    end = got; ec = e; return !!end;
}
bool Client::send(const std::string &s0, uint64_t to) {
    if (!end) return false;
    std::string s = s0; if (ssl) for (auto &c : s) c ^= SSL_KEY;
    size_t off = 0; uint64_t dl = sim::now() + to;
    while (off < s.size()) {
        long n = end_send(end, s.data() + off, s.size() - off, ec);
        if (ec) return false;
        if (n > 0) { off += n; continue; }
        if (sim::now() >= dl) { timed_out = true; return false; }
        EndP e = end;
        sim::wait_until([e] { EndP p = e->peer.lock(); return e->rx_rst || e->closed || !p || p->closed || p->unread_total < cfg.capacity; }, dl - sim::now());
    }
    return true;
}
bool Client::recv_some(uint64_t to) {
    if (!end) return false;
    EndP e = end;
    if (!sim::wait_until([e] { return !e->rx.empty() || e->rx_fin || e->rx_rst || e->closed; }, to)) { timed_out = true; return false; }
    char b[4096]; long n = end_recv(end, b, sizeof b, ec);
    if (ec) { if (ec == err::eof) eof = true; else rst = true; return false; }
    if (ssl) for (long i = 0; i < n; ++i) b[i] ^= SSL_KEY;
    in.append(b, n); return true;
}
bool Client::recv_until(const std::function<bool(const std::string &)> &p, uint64_t to) {
    uint64_t dl = sim::now() + to;
    while (!p(in)) { if (sim::now() >= dl) { timed_out = true; return false; } if (!recv_some(dl - sim::now())) return p(in); }
    return true;
}
bool Client::recv_eof(uint64_t to) {
    uint64_t dl = sim::now() + to;
    while (recv_some(sim::now() < dl ? dl - sim::now() : 1)) {}
    return eof || rst;
}
void Client::shutdown() { if (end && !end->closed && !end->tx_shut) { end->tx_shut = true; send_fin(end); } }
void Client::close() { if (end) end_close(end); }
void Client::reset() { if (end) end_reset(end); }
bool Client::ssl_handshake(uint64_t to) {
    if (!send(std::string(SSL_CH, SSL_LEN), to)) return false;
    std::string save = in; in.clear();
    bool ok = recv_until([](const std::string &s) { return s.size() >= SSL_LEN; }, to) && in.compare(0, SSL_LEN, SSL_SH, SSL_LEN) == 0;
    if (ok) in.erase(0, SSL_LEN);
    if (!ok) return false;
    if (!send(std::string(SSL_FI, SSL_LEN), to)) return false;
    ssl = true; return true;
}
} // namespace simnet

// =============================================================================================
namespace simasio {
using simnet::EndP;
static int g_open = 0;
int sockets_open() { return g_open; }

Service::Service() {}
Service::~Service() {
    check("io_service destructor");
    if (!running.empty()) sim::violation("asio-misuse", "io_service destroyed while %zu thread(s) are inside run()", running.size());
    // destroy everything still queued or pending without invoking it
    stopped = true;
    while (!at_shutdown.empty()) { auto f = at_shutdown.back(); at_shutdown.pop_back(); f(); }
    while (!q.empty()) { OpBase *op = q.front().op; q.pop_front(); delete op; }
    alive = false; magic = 0xdead;
}
void Service::check(const char *what) const {
    sim::check_range(this, sizeof *this, false, what);
    if (magic != 0x5e41ce) sim::violation("asio-misuse", "%s on a destroyed io_service", what);
}
void Service::work_started() { ++work; }
void Service::work_finished() { if (--work == 0) { stopped = true; sim::wake_all(this); } }
void Service::post(OpBase *op, const ec_t &ec, size_t n) { check("post"); ++work; sim::hb_capture(op->hb); q.push_back(Item{ op, ec, n }); sim::wake_all(this); sim::sync_point(40); }
void Service::post_pending(OpBase *op, const ec_t &ec, size_t n) { q.push_back(Item{ op, ec, n }); sim::wake_all(this); }
bool Service::in_this_thread() const { for (int f : running) if (f == sim::self()) return true; return false; }
void Service::stop() { check("stop"); sim::sync_point(41); stopped = true; sim::wake_all(this); sim::sync_point(42); }
void Service::reset() { check("reset"); sim::sync_point(43); stopped = false; }
size_t Service::run(size_t max, bool wait) {
    check("run");
    sim::sync_point(44);
    if (work == 0) { stopped = true; sim::wake_all(this); return 0; }
    struct InRun { Service *s; InRun(Service *x) : s(x) { s->running.push_back(sim::self()); } ~InRun() { for (size_t i = s->running.size(); i-- > 0;) if (s->running[i] == sim::self()) { s->running.erase(s->running.begin() + i); break; } } } ir(this);
    size_t n = 0;
    while (n < max) {
        if (stopped) break;
        if (q.empty()) { if (!wait) break; sim::g_cur->what = "io_service::run"; sim::block(this); continue; }
        Item it = q.front(); q.pop_front();
        struct Fin { Service *s; ~Fin() { s->work_finished(); } } fin = { this };
        sim::hb_apply(it.op->hb);
        SIM_COUNT("asio.handlers");
        sim::sync_point(45);
        ++n;
        it.op->complete(it.ec, it.n);
        sim::sync_point(46);
    }
    return n;
}

// ---------------------------------------------------------------- socket
Socket::Socket(Service *s) : svc(s), life(std::make_shared<int>(0)) {
    s->check("socket constructor");
    std::weak_ptr<int> w = life; Socket *me = this;
    s->at_shutdown.push_back([w, me] { if (w.expired()) return;     // service shutdown destroys pending operations
        auto drop = [](OpBase *&o) { OpBase *x = o; o = 0; delete x; };
        std::deque<PendingIo> a, b; a.swap(me->rd); b.swap(me->wr); OpBase *c = me->conn, *h = me->hs; me->conn = me->hs = 0;
        (void)drop; for (auto &p : a) delete p.op; for (auto &p : b) delete p.op; delete c; delete h; });
}
Socket::~Socket() {
    if (open || !rd.empty() || !wr.empty()) { ec_t e; close(e); }
    life.reset();
}
void Socket::attach(EndP e) { sim::Quiet q_; 
    end = e; open = true; ++g_open; std::weak_ptr<int> w = life; Socket *me = this;
    e->ready = [w, me] { if (!w.expired()) { me->pump(); sim::wake_all(me); } };
}
static size_t total(const std::vector<Buf> &b) { size_t n = 0; for (auto &x : b) n += x.n; return n; }
static long recv_into(EndP e, const std::vector<Buf> &b, bool ssl, ec_t &ec) {
    sim::Quiet q;
    size_t got = 0; ec = ec_t();
    for (auto &x : b) {
        if (!x.n) continue;
        sim::check_range(x.p, x.n, true, "socket read buffer");
        long n = simnet::end_recv(e, x.p, x.n, ec);
        if (ec) { if (got) ec = ec_t(); break; }
        if (ssl) for (long i = 0; i < n; ++i) x.p[i] ^= simnet::SSL_KEY;
        got += n; if ((size_t)n < x.n) break;
    }
    return (long)got;
}
static long send_from(EndP e, const std::vector<Buf> &b, bool ssl, ec_t &ec) {
    sim::Quiet q;
    std::string s; for (auto &x : b) { sim::check_range(x.p, x.n, false, "socket write buffer"); s.append(x.p, x.n); }
    if (ssl) for (auto &c : s) c ^= simnet::SSL_KEY;
    return simnet::end_send(e, s.data(), s.size(), ec);
}
void Socket::pump() {
    sim::Quiet q;                 // network internals are atomic for the threads of the system under test
    if (hs) { ec_t ec; bool done = false; try_handshake(ec, done); if (done) { OpBase *o = hs; hs = 0; svc->post_pending(o, ec, 0); } }
    while (!rd.empty()) {
        PendingIo &p = rd.front(); ec_t ec; long n = recv_into(end, p.bufs, p.ssl, ec);
        if (n == 0 && !ec) break;
        OpBase *o = p.op; rd.pop_front(); svc->post_pending(o, ec, n);
    }
    while (!wr.empty()) {
        PendingIo &p = wr.front(); ec_t ec; long n = send_from(end, p.bufs, p.ssl, ec);
        if (n == 0 && !ec) break;
        OpBase *o = p.op; wr.pop_front(); svc->post_pending(o, ec, n);
    }
}
void Socket::start_read(const std::vector<Buf> &b, bool ssl, OpBase *op) {
    svc->check("async_read"); svc->work_started(); sim::hb_capture(op->hb);
    { sim::Quiet q;
    if (!open) svc->post_pending(op, err::bad_descriptor, 0);
    else if (total(b) == 0) svc->post_pending(op, ec_t(), 0);
    else { rd.push_back(PendingIo{ op, b, ssl }); pump(); }
    }
    sim::sync_point(47);
}
void Socket::start_write(const std::vector<Buf> &b, bool ssl, OpBase *op) {
    svc->check("async_write"); svc->work_started(); sim::hb_capture(op->hb);
    { sim::Quiet q;
    if (!open) svc->post_pending(op, err::bad_descriptor, 0);
    else if (total(b) == 0) svc->post_pending(op, ec_t(), 0);
    else { wr.push_back(PendingIo{ op, b, ssl }); pump(); }
    }
    sim::sync_point(48);
}
size_t Socket::read(const std::vector<Buf> &b, bool ssl, ec_t &ec) {
    sim::sync_point(49); ec = ec_t();
    for (;;) {
        if (!open) { ec = err::bad_descriptor; return 0; }
        if (total(b) == 0) return 0;
        long n = recv_into(end, b, ssl, ec);
        if (n || ec) return n;
        sim::g_cur->what = "socket read"; sim::block(this);
    }
}
size_t Socket::write(const std::vector<Buf> &b, bool ssl, ec_t &ec) {
    sim::sync_point(50); ec = ec_t();
    for (;;) {
        if (!open) { ec = err::bad_descriptor; return 0; }
        if (total(b) == 0) return 0;
        long n = send_from(end, b, ssl, ec);
        if (n || ec) return n;
        sim::g_cur->what = "socket write"; sim::block(this);
    }
}
static ec_t reconnect_error(Socket &s, uint32_t ip) {
    uint32_t f = ip >> 24 == 0xfd ? 6 : 4;
    if (s.fam && s.fam != f) return err::address_family_not_supported;
    if (s.spent && simnet::strict_reconnect) return err::invalid_argument;
    s.fam = f; return ec_t();
}
void Socket::start_connect(uint16_t port, OpBase *op, uint32_t ip) {
    svc->check("async_connect"); svc->work_started(); sim::hb_capture(op->hb);
    if (!open) { open = true; ++g_open; fam = 0; spent = false; }
    size_t ix; { sim::Quiet q; ix = simnet::attempts().size(); simnet::attempts().push_back(simnet::Attempt{ ip, port, sim::now(), false, ec_t() }); }
    ec_t bad = end || conn ? ec_t(err::already_connected) : reconnect_error(*this, ip);
    if (bad) { sim::Quiet q; simnet::attempts()[ix].done = true; simnet::attempts()[ix].ec = bad; svc->post_pending(op, bad, 0); sim::sync_point(51); return; }
    conn = op; std::weak_ptr<int> w = life; Socket *me = this;
    simnet::connect(port, [w, me, ix, op](EndP e, ec_t ec) {
        if (w.expired() || me->conn != op) { if (e) simnet::end_reset(e); return; }
        OpBase *o = me->conn; me->conn = 0; simnet::attempts()[ix].done = true; simnet::attempts()[ix].ec = ec; me->spent = !e;
        if (e) { --g_open; me->attach(e); }
        me->svc->post_pending(o, ec, 0);
    }, ip);
    sim::sync_point(51);
}
void Socket::connect(uint16_t port, ec_t &ec, uint32_t ip) {
    sim::sync_point(52);
    size_t ix; { sim::Quiet q; ix = simnet::attempts().size(); simnet::attempts().push_back(simnet::Attempt{ ip, port, sim::now(), false, ec_t() }); }
    auto out = [&] { sim::Quiet q; simnet::attempts()[ix].done = true; simnet::attempts()[ix].ec = ec; };
    if (open && end) { ec = err::already_connected; out(); return; }
    if (!open) { open = true; ++g_open; fam = 0; spent = false; }
    ec = reconnect_error(*this, ip); if (ec) { out(); return; }
    bool fin = false; EndP got; ec_t res; std::weak_ptr<int> w = life; Socket *me = this;
    auto tok = std::make_shared<int>(0); std::weak_ptr<int> tw = tok;
    simnet::connect(port, [&, w, tw, me](EndP e, ec_t x) { if (tw.expired() || w.expired()) { if (e) simnet::end_reset(e); return; } fin = true; got = e; res = x; sim::wake_all(me); }, ip);
    while (!fin) { sim::g_cur->what = "connect"; sim::block(this); if (!open) { ec = err::operation_aborted; out(); return; } }
    ec = res; spent = !got; out(); if (got) { --g_open; attach(got); }
}
bool Socket::try_handshake(ec_t &ec, bool &done) { sim::Quiet q_; 
    // minimal three-message exchange; anything else on the wire is a handshake failure
    for (;;) {
        if (!open || !end) { ec = err::operation_aborted; done = true; return false; }
        if (hs_server) {
            if (hs_stage == 0 || hs_stage == 2) {
                char c; ec_t e; long n = simnet::end_recv(end, &c, 1, e);
                if (e) { ec = e; done = true; return false; }
                if (n == 0) return false;
                const char *want = hs_stage == 0 ? simnet::SSL_CH : simnet::SSL_FI;
                if (c != want[hs_in.size()]) { ec = ec_t(0x140B, err::get_misc_category()); ec = ec_t(err::fault); done = true; return false; }
                hs_in += c;
                if (hs_in.size() == simnet::SSL_LEN) { hs_in.clear(); ++hs_stage; if (hs_stage == 3) { done = true; ec = ec_t(); return true; } }
            } else { ec_t e; long n = simnet::end_send(end, simnet::SSL_SH + hs_in.size(), simnet::SSL_LEN - hs_in.size(), e); if (e) { ec = e; done = true; return false; } if (!n) return false; hs_in.append(n, 'x'); if (hs_in.size() == simnet::SSL_LEN) { hs_in.clear(); ++hs_stage; } }
        } else {
            if (hs_stage == 1) {
                char c; ec_t e; long n = simnet::end_recv(end, &c, 1, e);
                if (e) { ec = e; done = true; return false; }
                if (n == 0) return false;
                if (c != simnet::SSL_SH[hs_in.size()]) { ec = ec_t(err::fault); done = true; return false; }
                hs_in += c; if (hs_in.size() == simnet::SSL_LEN) { hs_in.clear(); ++hs_stage; }
            } else { const char *m = hs_stage == 0 ? simnet::SSL_CH : simnet::SSL_FI; ec_t e; long n = simnet::end_send(end, m + hs_in.size(), simnet::SSL_LEN - hs_in.size(), e); if (e) { ec = e; done = true; return false; } if (!n) return false; hs_in.append(n, 'x');
                if (hs_in.size() == simnet::SSL_LEN) { hs_in.clear(); if (hs_stage == 2) { done = true; ec = ec_t(); return true; } hs_stage = 1; } }
        }
    }
}
void Socket::start_handshake(bool server, OpBase *op) {
    svc->check("async_handshake"); svc->work_started(); sim::hb_capture(op->hb);
    if (!open) svc->post_pending(op, err::bad_descriptor, 0);
    else { sim::Quiet q; hs = op; hs_server = server; hs_stage = 0; hs_in.clear(); pump(); }
    sim::sync_point(53);
}
void Socket::handshake(bool server, ec_t &ec) {
    sim::sync_point(54); hs_server = server; hs_stage = 0; hs_in.clear();
    if (!open) { ec = err::bad_descriptor; return; }
    for (;;) { bool done = false; try_handshake(ec, done); if (done) return; sim::g_cur->what = "handshake"; sim::block(this); }
}
void Socket::fail_all(const ec_t &e) { sim::Quiet q_; 
    std::deque<PendingIo> a, b; a.swap(rd); b.swap(wr); OpBase *c = conn, *h = hs; conn = hs = 0;
    for (auto &p : a) svc->post_pending(p.op, e, 0);
    for (auto &p : b) svc->post_pending(p.op, e, 0);
    if (c) svc->post_pending(c, e, 0);
    if (h) svc->post_pending(h, e, 0);
}
void Socket::cancel(ec_t &ec) { sim::sync_point(55); if (!open) { ec = err::bad_descriptor; return; } ec = ec_t(); svc->check("cancel"); fail_all(err::operation_aborted); }
void Socket::shutdown(ec_t &ec) { sim::sync_point(56); if (!open || !end) { ec = open ? err::not_connected : err::bad_descriptor; return; } ec = ec_t(); sim::Quiet q; if (end->rx_rst) { ec = err::not_connected; return; } simnet::end_shutdown(EndP(end)); }
void Socket::close(ec_t &ec) {
    ec = ec_t();
    if (!open) return;
    svc->check("socket close");
    open = false; --g_open;
    { sim::Quiet q; if (end) { simnet::end_close(end); end.reset(); }
    fail_all(err::operation_aborted);
    sim::wake_all(this); }
    sim::sync_point(57);
}
size_t Socket::available(ec_t &ec) { if (!open || !end) { ec = err::bad_descriptor; return 0; } ec = ec_t(); return end->rx.size(); }

// ---------------------------------------------------------------- acceptor
Acceptor::Acceptor(Service *s) : svc(s), life(std::make_shared<int>(0)) {
    s->check("acceptor constructor");
    std::weak_ptr<int> w = life; Acceptor *me = this;
    s->at_shutdown.push_back([w, me] { if (w.expired()) return; auto p = me->pend; me->pend.clear(); for (auto &x : p) delete x.second; });
}
Acceptor::~Acceptor() { ec_t e; close(e); life.reset(); }
void Acceptor::bind(uint16_t p, ec_t &ec) {
    ec = ec_t(); if (!open) { ec = err::bad_descriptor; return; }
    if (fault("bind-error", 1, 12)) { ec = err::address_in_use; return; }
    port = p; ec = ec_t(); uint16_t q = p; l = simnet::listen(q, ec);
    if (ec) return;
    port = q; bound = true;
}
void Acceptor::listen(ec_t &ec) {
    ec = ec_t(); if (!open || !bound) { ec = err::bad_descriptor; return; }
    std::weak_ptr<int> w = life; Acceptor *me = this;
    l->ready = [w, me] { if (!w.expired()) { me->pump(); sim::wake_all(me); } };
}
void Acceptor::pump() { sim::Quiet q_; 
    while (l && !pend.empty() && !l->backlog.empty()) {
        auto p = pend.front(); pend.pop_front();
        if (fault("accept-error", 1, 8)) {
            if (choose(sim::FAULT, 2) == 0) { EndP e = l->backlog.front(); l->backlog.pop_front(); e->tag = "accept-fault"; simnet::end_reset(e); svc->post_pending(p.second, err::connection_aborted, 0); }
            else svc->post_pending(p.second, err::no_descriptors, 0);
            continue;
        }
        EndP e = l->backlog.front(); l->backlog.pop_front();
        p.first->attach(e);
        SIM_COUNT("net.accepted");
        svc->post_pending(p.second, ec_t(), 0);
    }
}
void Acceptor::start_accept(Socket *s, OpBase *op) {
    svc->check("async_accept"); svc->work_started(); sim::hb_capture(op->hb);
    if (!open) svc->post_pending(op, err::bad_descriptor, 0);
    else if (s->open) svc->post_pending(op, err::already_open, 0);
    else { pend.push_back(std::make_pair(s, op)); pump(); }
    sim::sync_point(58);
}
void Acceptor::accept(Socket *s, ec_t &ec) {
    sim::sync_point(59);
    for (;;) {
        if (!open) { ec = err::bad_descriptor; return; }
        if (!l->backlog.empty()) { EndP e = l->backlog.front(); l->backlog.pop_front(); s->attach(e); ec = ec_t(); return; }
        sim::g_cur->what = "accept"; sim::block(this);
    }
}
void Acceptor::cancel(ec_t &ec) { ec = ec_t(); auto p = pend; pend.clear(); for (auto &x : p) svc->post_pending(x.second, err::operation_aborted, 0); }
void Acceptor::close(ec_t &ec) {
    ec = ec_t(); if (!open) return;
    svc->check("acceptor close");
    open = bound = false; if (l) { simnet::close_listener(l); l.reset(); }
    cancel(ec); sim::wake_all(this); sim::sync_point(60);
}

// ---------------------------------------------------------------- timer
static std::set<Timer *> g_timers;
Timer::Timer(Service *s) : svc(s), life(std::make_shared<int>(0)) {
    s->check("timer constructor");
    std::weak_ptr<int> w = life; Timer *me = this;
    s->at_shutdown.push_back([w, me] { if (w.expired()) return; auto x = me->waits; me->waits.clear(); ++me->gen; for (auto *o : x) delete o; });
}
Timer::~Timer() { if (!waits.empty()) cancel(); life.reset(); }
size_t Timer::cancel() { svc->check("timer cancel"); ++gen; auto x = waits; waits.clear(); for (auto *o : x) svc->post_pending(o, err::operation_aborted, 0); sim::sync_point(61); return x.size(); }
size_t Timer::set_expiry(int64_t w) { sim::Quiet q_;  size_t n = waits.empty() ? 0 : cancel(); expiry = w; return n; }
void Timer::arm() { sim::Quiet q_; 
    uint64_t g = gen; std::weak_ptr<int> w = life; Timer *me = this; int64_t d = expiry - sim::wall(); if (d < 0) d = 0;
    sim::after((uint64_t)d, [w, me, g] { if (w.expired() || me->gen != g || me->waits.empty()) return; if (sim::wall() < me->expiry) me->arm(); else me->fire(); });
}
void Timer::fire() { sim::Quiet q_;  ++gen; auto x = waits; waits.clear(); for (auto *o : x) svc->post_pending(o, ec_t(), 0); SIM_COUNT("timer.fired"); }
void Timer::start_wait(OpBase *op) { svc->check("timer async_wait"); svc->work_started(); sim::hb_capture(op->hb); waits.push_back(op); arm(); sim::sync_point(62); }
void Timer::wait() { while (sim::wall() < expiry) sim::sleep((uint64_t)(expiry - sim::wall())); }
}
