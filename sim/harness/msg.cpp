// P13: messages sent and received by the library at both ends, through a proxy that cuts, resets and stalls
#include "httpx.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/tcp/server.hpp>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr; using pion::http::request_ptr; using pion::http::response_ptr;
namespace ph = pion::http;

namespace {
enum { TMO = 5 };
enum How { BY_LENGTH, IN_MESSAGE, CHUNKS, NHOW };
struct Msg {
    std::string method, resource, query, content, reason; int status = 200, minor = 1; std::vector<std::pair<std::string, std::string> > headers, cookies; int how = 0; std::vector<size_t> pieces; bool until_close = false;
};
struct Ex { Msg q, s; };
typedef std::vector<Ex> Conn;
std::vector<Conn> *XPLAN; std::vector<int> *SEEN;          // requests the server saw, per connection
struct Cut { int dir = -1, kind = 0; size_t at = 0; bool done = false, lost = false; int close_at = -1; };   // kind 0 FIN, 1 RST, 2 stall
std::vector<Cut> *CUTS; bool g_ssl; int g_pipe;
struct Op { const char *what; int c, k, n = 0; };
std::vector<Op *> *OPS;
Op *op(const char *what, int c, int k) { Quiet q; Op *o = new Op{ what, c, k }; OPS->push_back(o); return o; }
void once(Op *o) { Quiet q; ++o->n; CHECK(o->n == 1, "callback-twice", "the completion callback of %s of exchange %d.%d ran %d times", o->what, o->c, o->k, o->n); }

std::string some_content(size_t max) {
    size_t n = 0;
    switch (plan(8)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = plan(20); break; case 3: case 4: n = plan(600); break; case 5: n = 8180 + plan(24); break; case 6: n = plan(20000); break; default: n = 1 + plan(60); }
    if (n > max) n = max;
    std::string s = filler(plan(1000), n); if (n && plan(3) == 2) s[0] = '\0'; if (n > 2 && plan(4) == 3) { s[0] = '\r'; s[1] = '\n'; }
    return s;
}
std::string word() { static const char *w[] = { "a", "b1", "value", "x-y", "long-word-with-a-tail-0123456789", "Z", "q.r", "42" }; return w[plan(8)]; }
void gen(Msg &m, bool rq, bool last, size_t max) {
    int nh = plan(4); for (int i = 0; i < nh; ++i) { std::string v = plan(6) ? word() + (plan(3) ? "" : " " + word()) : ""; m.headers.push_back(std::make_pair(std::string("X-") + (char)('A' + plan(3)), v)); }
    if (rq) { int nc = plan(6) == 5 ? plan_range(1, 2) : 0; for (int i = 0; i < nc; ++i) m.cookies.push_back(std::make_pair(std::string(1, (char)('m' + i)), word())); }
    m.content = some_content(max); m.how = plan(NHOW); m.minor = rq && last && plan(6) == 5 ? 0 : 1;
    size_t off = 0; while (off < m.content.size()) { size_t n = plan(2) ? m.content.size() - off : 1 + plan((uint32_t)(m.content.size() - off)); m.pieces.push_back(n); off += n; if (m.pieces.size() > 5) { m.pieces.back() += m.content.size() - off; break; } }
    if (rq) {
        static const char *me[] = { "GET", "POST", "PUT", "HEAD", "DELETE", "WEIRD" }; m.method = me[plan(6)]; m.resource = "/" + word() + (plan(2) ? "/" + word() : ""); if (plan(3) == 2) m.query = "k=" + word() + (plan(2) ? "&z=" + word() : "");
        if (m.minor == 0 && m.how == CHUNKS) m.how = BY_LENGTH;
    } else {
        static const int st[] = { 200, 404, 500, 204, 304, 201, 299 }; m.status = st[plan(4) ? 0 : plan(7)]; static const char *re[] = { "OK", "Some Reason Here", "x" }; m.reason = re[plan(3)];
        if (last && plan(4) == 3) m.until_close = true;
        if (m.until_close && m.how == CHUNKS) m.how = BY_LENGTH;
    }
}
bool no_content(const Ex &e) { return e.q.method == "HEAD" || e.s.status == 204 || e.s.status == 304; }
void fill(ph::request &r, const Msg &m, int c, int k) {
    r.set_method(m.method); r.set_resource(m.resource); if (!m.query.empty()) r.set_query_string(m.query); if (m.minor == 0) r.set_version_minor(0);
    for (auto &h : m.headers) r.add_header(h.first, h.second); for (auto &h : m.cookies) r.add_cookie(h.first, h.second);
    r.add_header("X-Id", std::to_string(c) + "." + std::to_string(k));
}
void fill(ph::response &r, const Msg &m) { r.set_status_code(m.status); r.set_status_message(m.reason); for (auto &h : m.headers) r.add_header(h.first, h.second); if (m.until_close) r.set_do_not_send_content_length(); }
void same_headers(ph::message &r, const Msg &m, const char *what, int c, int k) {
    std::map<std::string, std::vector<std::string> > want, got; for (auto &h : m.headers) want[h.first].push_back(h.second);
    for (auto i = r.get_headers().begin(); i != r.get_headers().end(); ++i) if (i->first.size() == 3 && i->first[0] == 'X') got[i->first].push_back(i->second);
    for (auto &p : want) std::sort(p.second.begin(), p.second.end()); for (auto &p : got) std::sort(p.second.begin(), p.second.end());
    CHECK(want == got, "headers-differ", "%s %d.%d: the headers received are not the ones that were sent", what, c, k);
}
void same_content(const ph::message &r, const std::string &want, const char *what, int c, int k, bool prefix_ok) {
    size_t n = r.get_content_length(); std::string got(r.get_content(), n);
    if (prefix_ok && n < want.size() && want.compare(0, n, got) == 0) { SIM_PROBE("prefix-until-close"); return; }
    CHECK(got == want, "content-differs", "%s %d.%d: reported complete and valid with %zu content bytes (%s) while %zu bytes (%s) were sent", what, c, k, got.size(), show(got, 20).c_str(), want.size(), show(want, 20).c_str());
}
// server side: a valid request arrived
bool arrived(ph::request &r, int &c, int &k) {
    std::string id = r.get_header("X-Id"); CHECK(sscanf(id.c_str(), "%d.%d", &c, &k) == 2 && c >= 0 && c < (int)XPLAN->size() && k < (int)(*XPLAN)[c].size(), "message-invented", "a valid request arrived that was never sent (id '%s')", show(id).c_str());
    log("request %d.%d arrived", c, k);
    CHECK((*SEEN)[c] == k, "out-of-order", "request %d.%d arrived as number %d of its connection", c, k, (*SEEN)[c]); ++(*SEEN)[c];
    const Msg &m = (*XPLAN)[c][k].q;
    CHECK(r.get_method() == m.method && r.get_resource() == m.resource && r.get_query_string() == m.query && r.get_version_major() == 1 && r.get_version_minor() == m.minor, "start-line-differs", "request %d.%d: %s %s?%s HTTP/%d.%d instead of %s %s?%s HTTP/1.%d", c, k, r.get_method().c_str(), r.get_resource().c_str(), r.get_query_string().c_str(), r.get_version_major(), r.get_version_minor(), m.method.c_str(), m.resource.c_str(), m.query.c_str(), m.minor);
    same_headers(r, m, "request", c, k); for (auto &x : m.cookies) CHECK(r.get_cookie(x.first) == x.second, "headers-differ", "request %d.%d: cookie %s is '%s' instead of '%s'", c, k, x.first.c_str(), r.get_cookie(x.first).c_str(), x.second.c_str());
    same_content(r, m.content, "request", c, k, false); ++*counter("evals"); return true;
}
void check_response(ph::response &r, int c, int k) {
    const Ex &e = (*XPLAN)[c][k]; const Msg &m = e.s; log("response %d.%d arrived", c, k);
    CHECK((int)r.get_status_code() == m.status && r.get_status_message() == m.reason, "start-line-differs", "response %d.%d: %u %s instead of %d %s", c, k, r.get_status_code(), r.get_status_message().c_str(), m.status, m.reason.c_str());
    same_headers(r, m, "response", c, k); bool unframed = m.until_close || (m.how == CHUNKS && e.q.minor == 0);
    if (no_content(e)) CHECK(r.get_content_length() == 0 || !r.is_content_buffer_allocated(), "content-differs", "response %d.%d cannot have content and was reported with %zu bytes", c, k, r.get_content_buffer_size());
    else same_content(r, m.content, "response", c, k, unframed && (*CUTS)[c].done && (*CUTS)[c].kind == 0);
    ++*counter("evals");
}
// -------------------------------------------------------------------- asynchronous sending
template <class W> void put(W &w, const Msg &m, size_t i, size_t off) {      // one piece, in one of the three ways
    const char *p = m.content.data() + off; size_t n = m.pieces[i];
    switch ((n + i) % 3) { case 0: w->write(p, n); break; case 1: w->write(std::string(p, n)); break; default: w->write_no_copy((void *)p, n); }
}
template <class W> struct Chunker : boost::enable_shared_from_this<Chunker<W> > {
    W w; const Msg &m; size_t i = 0, off = 0; boost::function1<void, const boost::system::error_code &> fin;
    Chunker(const W &w_, const Msg &m_, boost::function1<void, const boost::system::error_code &> f) : w(w_), m(m_), fin(f) {}
    void go() {
        bool last = i + 1 >= m.pieces.size(); if (i < m.pieces.size()) { put(w, m, i, off); off += m.pieces[i]; ++i; }
        if (last && (m.content.size() & 1)) { w->send_final_chunk(); return; }
        if (last && i >= m.pieces.size()) { if (final_) { w->send_final_chunk(); return; } final_ = true; }
        w->send_chunk(boost::bind(&Chunker::sent, this->shared_from_this(), _1));
    }
    void sent(const boost::system::error_code &ec) { if (ec) { fin(ec); return; } w->clear(); if (final_) w->send_final_chunk(); else go(); }
    bool final_ = false;
};
template <class W> void send_async(const W &w, const Msg &m, boost::function1<void, const boost::system::error_code &> fin) {
    if (m.how == CHUNKS) { boost::shared_ptr<Chunker<W> > x(new Chunker<W>(w, m, fin)); x->go(); return; }
    if (m.how == BY_LENGTH) { size_t off = 0; for (size_t i = 0; i < m.pieces.size(); ++i) { put(w, m, i, off); off += m.pieces[i]; } }
    w->send();
}
// -------------------------------------------------------------------- servers
struct Srv : pion::tcp::server {
    Srv(pion::scheduler &s) : pion::tcp::server(s, 0) {}
    virtual void handle_connection(const connection_ptr &c) { Op *o = op("the reading of a request", -1, -1); ph::request_reader_ptr r(ph::request_reader::create(c, boost::bind(&Srv::done, this, o, _1, _2, _3))); r->set_timeout(TMO); r->receive(); }
    void done(Op *o, const request_ptr &r, const connection_ptr &c, const boost::system::error_code &ec) {
        once(o); int ci = 0, k = 0; { Quiet q; log("server read ec %d valid %d", ec.value(), (int)r->is_valid()); CHECK(ec || r->is_valid(), "error-not-reported", "an incomplete or invalid request was reported without an error"); if (!ec && r->is_valid()) arrived(*r, ci, k); else { c->set_lifecycle(connection::LIFECYCLE_CLOSE); } }
        if (ec || !r->is_valid()) { c->finish(); return; }
        const Ex &e = (*XPLAN)[ci][k]; const Msg &m = e.s; Op *s = op("the sending of a response", ci, k); ph::response_writer_ptr w;
        boost::function1<void, const boost::system::error_code &> fin = boost::bind(&Srv::sent, this, s, c, _1);
        if (m.how == IN_MESSAGE) { response_ptr p(new ph::response(*r)); { Quiet q; fill(*p, m); p->set_content(m.content); } w = ph::response_writer::create(c, p, fin); }
        else { w = ph::response_writer::create(c, *r, fin); Quiet q; fill(w->get_response(), m); }
        if (m.until_close) c->set_lifecycle(connection::LIFECYCLE_CLOSE);
        if ((*CUTS)[ci].close_at == k) { { Quiet q; SIM_PROBE("send-on-closed"); (*CUTS)[ci].lost = true; } c->close(); }
        send_async(w, m, fin);
    }
    void sent(Op *s, const connection_ptr &c, const boost::system::error_code &ec) { once(s); { Quiet q; CHECK(ec || s->k != (*CUTS)[s->c].close_at, "error-not-reported", "a response sent on a closed connection was reported as sent"); } { Quiet q; log("response sent ec %d", ec.value()); } if (ec) c->set_lifecycle(connection::LIFECYCLE_CLOSE); c->finish(); }
};
void blocking_server(connection_ptr c) {           // runs as an application thread
    boost::system::error_code ec; boost::shared_ptr<ph::request> rp(new ph::request);
    if (c->get_ssl_flag()) { c->handshake_server(); }
    for (;;) {
        if (c->get_lifecycle() == connection::LIFECYCLE_CLOSE) {}
        rp->receive(*c, ec); int ci = 0, k = 0; bool valid = !ec && rp->is_valid(); { Quiet q; log("server receive ec %d valid %d", ec.value(), (int)rp->is_valid()); CHECK(ec || rp->is_valid(), "error-not-reported", "receive() of an incomplete or invalid request set no error"); if (valid) arrived(*rp, ci, k); } if (!valid) break;
        const Msg &m = (*XPLAN)[ci][k].s; { ph::response s(*rp); { Quiet q; fill(s, m); s.ph::message::set_content(m.content); } if (m.until_close) c->set_lifecycle(connection::LIFECYCLE_CLOSE); s.send(*c, ec); { Quiet q; log("server send ec %d", ec.value()); } }
        if (ec || !c->get_keep_alive()) break;
    }
    c->close();
}
// -------------------------------------------------------------------- clients
struct Acl : boost::enable_shared_from_this<Acl> {        // asynchronous client
    connection_ptr c; int ci, wk = 0, rk = 0; bool finished = false, failed = false; std::vector<request_ptr> rq; bool pipe;
    void next_write() {
        int n = (int)(*XPLAN)[ci].size(); if (wk >= n) { if (pipe) next_read(); return; }
        const Msg &m = (*XPLAN)[ci][wk].q; request_ptr r; ph::request_writer_ptr w; Op *s = op("the sending of a request", ci, wk); boost::function1<void, const boost::system::error_code &> fin = boost::bind(&Acl::written, shared_from_this(), s, _1);
        if (m.how == IN_MESSAGE) { { Quiet q; r.reset(new ph::request); fill(*r, m, ci, wk); r->set_content(m.content); } w = ph::request_writer::create(c, r, fin); }
        else { { Quiet q; r.reset(new ph::request); fill(*r, m, ci, wk); } w = ph::request_writer::create(c, r, fin); }
        { Quiet q; rq.push_back(r); } ++wk; send_async(w, m, fin);
    }
    void written(Op *s, const boost::system::error_code &ec) { once(s); { Quiet q; log("client wrote ec %d", ec.value()); } if (ec) { end(true); return; } if (pipe) next_write(); else next_read(); }
    void next_read() {
        if (rk >= (int)(*XPLAN)[ci].size()) { end(false); return; }
        Op *o = op("the reading of a response", ci, rk); ph::response_reader_ptr r(ph::response_reader::create(c, *rq[rk], boost::bind(&Acl::got, shared_from_this(), o, _1, _2, _3))); r->set_timeout(TMO); r->receive();
    }
    void got(Op *o, const response_ptr &r, const connection_ptr &, const boost::system::error_code &ec) {
        once(o); bool valid = !ec && r->is_valid(); { Quiet q; log("client read ec %d valid %d", ec.value(), (int)r->is_valid()); CHECK(ec || r->is_valid(), "error-not-reported", "an incomplete or invalid response was reported without an error"); if (valid) check_response(*r, ci, rk); } if (!valid) { end(true); return; }
        ++rk; if (rk < (int)(*XPLAN)[ci].size() && !c->get_keep_alive()) { end(true); return; }
        if (pipe) next_read(); else if (rk >= (int)(*XPLAN)[ci].size()) end(false); else next_write();
    }
    HbToken hb; void end(bool f) { Quiet q; hb_capture(hb); failed = f; finished = true; }
};
bool blocking_client(const connection_ptr &c, int ci) {   // an application thread; true if everything succeeded
    boost::system::error_code ec; Conn &P = (*XPLAN)[ci]; size_t w = 0; std::vector<boost::shared_ptr<ph::request> > rq; boost::shared_ptr<ph::response> reuse;
    for (size_t k = 0; k < P.size(); ++k) {
        while (w < P.size() && (w <= k || g_pipe)) { boost::shared_ptr<ph::request> r; { Quiet q; r.reset(new ph::request); fill(*r, P[w].q, ci, (int)w); if (!P[w].q.content.empty()) r->set_content(P[w].q.content); rq.push_back(r); } r->send(*c, ec); { Quiet q; log("client send ec %d", ec.value()); } if (ec) return false; ++w; }
        bool again = P[k].q.content.size() & 1; boost::shared_ptr<ph::response> s; { Quiet q; if (again && reuse) { s = reuse; s->update_request_info(*rq[k]); } else s.reset(new ph::response(*rq[k])); reuse = s; }
        bool last = k + 1 == P.size(); const Msg &m = P[k].s;
        if (last && (m.content.size() % 5) == 4 && m.how != CHUNKS && !m.until_close && !no_content(P[k])) {       // headers first, content by hand
            s->receive(*c, ec, true); std::string got; if (ec || !s->is_valid()) return false;
            const char *a, *b; if (c->get_pipelined() || !c->get_keep_alive()) { c->load_read_pos(a, b); Quiet q; got.assign(a, b - a); }
            while (got.size() < m.content.size()) { size_t n = c->read_some(ec); if (ec) return false; Quiet q; got.append(c->get_read_buffer().data(), n); }
            Quiet q; CHECK(got == m.content, "content-differs", "response %d.%zu: content after a headers-only receive differs", ci, k); same_headers(*s, m, "response", ci, (int)k); SIM_PROBE("headers-only"); ++*counter("evals"); return true;
        }
        s->receive(*c, ec); bool valid = !ec && s->is_valid(); { Quiet q; log("client receive ec %d valid %d", ec.value(), (int)s->is_valid()); CHECK(ec || s->is_valid(), "error-not-reported", "receive() of an incomplete or invalid response set no error"); if (valid) check_response(*s, ci, (int)k); } if (!valid) return false;
        if (!last && !c->get_keep_alive()) return false;
    }
    return true;
}
// -------------------------------------------------------------------- the proxy
void relay(simnet::Client *from, simnet::Client *to, Cut *cut, int dir, uint64_t *n) {
    for (;;) {
        from->in.clear(); bool ok = from->recv_some(600 * SEC); std::string d = from->in;
        if (cut->done) return;
        if (!ok) { if (from->rst) to->reset(); else if (from->eof) to->shutdown(); return; }
        if (cut->dir == dir && *n + d.size() >= cut->at) {
            d.resize(cut->at - *n); to->send(d, 60 * SEC); *n += d.size(); cut->done = true; SIM_COUNT(cut->kind == 0 ? "fault.cut-fin" : cut->kind == 1 ? "fault.cut-reset" : "fault.cut-stall"); log("cut dir %d at %llu kind %d", dir, (unsigned long long)*n, cut->kind);
            if (cut->kind == 2) sim::sleep(TMO * 3 * SEC);
            if (cut->kind) { to->reset(); from->reset(); } else { to->close(); from->close(); }
            return;
        }
        *n += d.size(); if (!to->send(d, 60 * SEC)) { if (!cut->done) { from->reset(); } return; }
    }
}
void over_network() {
    int nc = plan_range(1, 2); int server_kind = plan(2); g_pipe = plan(4) == 3;
    simnet::random_config(); if (simnet::cfg.stall_num) simnet::cfg.stall_us = 100000; if (simnet::cfg.capacity < 100) simnet::cfg.capacity = 100; if (g_pipe) simnet::cfg.capacity = 65536; if (params.stall_us > 30000) params.stall_us = 30000;
    g_ssl = plan(5) == 4; size_t max = g_pipe ? 400 : simnet::cfg.seg_mode == 2 || simnet::cfg.capacity < 1000 ? 1500 : 20000;
    for (int c = 0; c < nc; ++c) { Conn v; int n = plan_range(1, 4); for (int k = 0; k < n; ++k) { Ex e; gen(e.q, true, k + 1 == n, max); gen(e.s, false, k + 1 == n, max); v.push_back(e); } XPLAN->push_back(v); SEEN->push_back(0); }
    std::vector<int> ckind; for (int c = 0; c < nc; ++c) { Cut cu; if (plan(3) == 2) { cu.dir = plan(2); cu.kind = plan(3); cu.at = plan(3) ? plan(500) : plan(12000); } else if (!server_kind && plan(8) == 7) cu.close_at = plan((uint32_t)(*XPLAN)[c].size()); CUTS->push_back(cu); ckind.push_back(plan(2)); }
    // only the asynchronous writers can send chunks
    for (int c = 0; c < nc; ++c) for (auto &e : (*XPLAN)[c]) { if (ckind[c] && e.q.how == CHUNKS) e.q.how = IN_MESSAGE; if (server_kind && e.s.how == CHUNKS) e.s.how = IN_MESSAGE; }
    pion::single_service_scheduler *S = new pion::single_service_scheduler(); int nt = plan_range(1, 3); loud([&] { S->set_num_threads(nt); S->add_active_user(); });
    Srv *srv = 0; uint16_t sport = 9300; boost::asio::ip::tcp::acceptor *acc = 0; std::vector<int> sf, cf, pf; bool *closing = new bool(false); int af = -1;
    if (server_kind == 0) { loud([&] { srv = new Srv(*S); if (g_ssl) srv->set_ssl_flag(true); for (int i = 0;; ++i) { try { srv->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); } } }); set_faults(true); sport = (uint16_t)srv->get_port(); }
    else { acc = new boost::asio::ip::tcp::acceptor(S->get_io_service()); set_faults(false); acc->open(boost::asio::ip::tcp::v4()); acc->bind(boost::asio::ip::tcp::endpoint(boost::asio::ip::tcp::v4(), sport)); acc->listen(); set_faults(true);
        std::vector<int> *psf = &sf;
        af = spawn("acceptor", [=] { for (int i = 0; i < nc; ++i) { connection_ptr *c = new connection_ptr; boost::system::error_code ec; loud([&] { c->reset(new connection(S->get_io_service(), g_ssl)); ec = (*c)->accept(*acc); }); log("accept ec %d", ec.value()); if (ec) { delete c; if (!acc->is_open()) return; continue; } psf->push_back(spawn("server-thread", [=] { loud([&] { blocking_server(*c); delete c; }); })); } }); }
    uint16_t pport = 9400; boost::system::error_code lec; simnet::ListenerP l = simnet::listen(pport, lec);
    std::vector<char> *ok = new std::vector<char>(nc, 0), *tried = new std::vector<char>(nc, 0); std::vector<simnet::Client *> ends; 
    for (int c = 0; c < nc; ++c) {
        cf.push_back(spawn("client", [=] {
            connection_ptr con; boost::system::error_code e1;
            for (int i = 0; i < 30; ++i) { loud([&] { con.reset(new connection(S->get_io_service(), g_ssl)); }); e1 = loud([&] { return con->connect(boost::asio::ip::address_v4(0x7f000001), pport); }); if (!e1) break; sim::sleep(1000); } 
            if (e1) { (*CUTS)[c].lost = true; return; }
            // the proxy handles connections in order: pair by source port
            simnet::EndP pe; { unsigned short lp = 0; (void)lp; } 
            while (l->backlog.empty()) sim::sleep(1); 
            simnet::Client *a = new simnet::Client, *b = new simnet::Client; { simnet::EndP mine; for (size_t i = 0; i < l->backlog.size(); ++i) if (l->backlog[i]->remote.port == con->get_socket().local_endpoint().port()) { mine = l->backlog[i]; l->backlog.erase(l->backlog.begin() + i); break; } CHECK(!!mine, "harness", "connection not found"); a->end = mine; }
            bool up = false; for (int i = 0; i < 30 && !up; ++i) { up = b->connect(sport); if (!up) { b->end.reset(); sim::sleep(1000); } } if (!up) { (*CUTS)[c].lost = true; a->close(); loud([&] { con->close(); con.reset(); }); return; }
            uint64_t *n0 = new uint64_t(0), *n1 = new uint64_t(0); Cut *cu = &(*CUTS)[c]; int r0 = spawn("relay-up", [=] { relay(a, b, cu, 0, n0); }), r1 = spawn("relay-down", [=] { relay(b, a, cu, 1, n1); });
            bool hs = true; if (g_ssl) { e1 = loud([&] { return con->handshake_client(); }); hs = !e1; }
            (*tried)[c] = 1;
            if (hs) {
                if ((*XPLAN)[c].size() > 1) loud([&] { con->set_lifecycle(connection::LIFECYCLE_KEEPALIVE); });
                if (ckind[c] == 0) { boost::shared_ptr<Acl> x; loud([&] { x.reset(new Acl); }); x->c = con; x->ci = c; x->pipe = g_pipe; loud([&] { x->next_write(); }); CHECK(wait_until([&] { return x->finished; }, 3000 * SEC), "stuck", "client %d: an asynchronous exchange never completed (%d written, %d read)", c, x->wk, x->rk); (*ok)[c] = !x->failed; hb_apply(x->hb); loud([&] { x.reset(); }); }
                else (*ok)[c] = loud([&] { return blocking_client(con, c); });
            }
            simnet::EndP be = b->end->peer.lock(); if (be && be->tag == "accept-fault") (*CUTS)[c].lost = true;
            loud([&] { con->close(); con.reset(); });
            join(r0); join(r1); be = b->end->peer.lock(); if (be && be->tag == "accept-fault") (*CUTS)[c].lost = true; a->close(); b->close(); 
            delete a; delete b; delete n0; delete n1;
        }));
    }
    if (!wait_until([&] { for (int x : cf) if (!done(x)) return false; return true; }, 5000 * SEC)) violation("stuck", "a send or receive never completed although the connection ended");
    for (int c = 0; c < nc; ++c) if (!(*ok)[c]) CHECK((*CUTS)[c].done || (*CUTS)[c].lost, "exchange-failed", "client %d: an exchange failed although the connection was never disturbed (%d of %zu requests arrived)", c, (*SEEN)[c], (*XPLAN)[c].size());
    set_faults(false);
    if (acc) { loud([&] { acc->close(); }); if (!wait_until([&] { if (!done(af)) return false; for (int x : sf) if (!done(x)) return false; return true; }, 200 * SEC)) violation("stuck", "a server thread never returned from receive or send after its connection ended"); join(af); for (int x : sf) join(x); delete acc; }
    bool sd = false; int st = spawn("stopper", [&] { loud([&] { if (srv) { srv->stop(true); delete srv; } S->remove_active_user(); S->shutdown(); delete S; }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stuck", "stop did not return"); join(st); simnet::close_listener(l);
    for (Op *o : *OPS) CHECK(o->n == 1, "callback-never", "the completion callback of %s of exchange %d.%d never ran", o->what, o->c, o->k);
}
// -------------------------------------------------------------------- iostreams
struct Sink : std::streambuf { std::string d; size_t limit; int overflow(int c) { if (d.size() >= limit) return -1; d += (char)c; return c; } std::streamsize xsputn(const char *p, std::streamsize n) { std::streamsize k = std::min<size_t>(n, limit - std::min(limit, d.size())); d.append(p, k); return k; } };
void over_streams() {
    int n = plan_range(1, 4); Conn v; for (int k = 0; k < n; ++k) { Ex e; gen(e.q, true, false, 9000); gen(e.s, false, k + 1 == n, 9000); v.push_back(e); } XPLAN->push_back(v); CUTS->push_back(Cut()); SEEN->push_back(0);
    bool rq = plan(2); Sink sink; sink.limit = plan(4) == 3 ? plan(3000) : (size_t)-1; std::ostream out(&sink); std::vector<size_t> ends; boost::system::error_code ec; bool wfail = false;
    for (int k = 0; k < n; ++k) {
        size_t before = sink.d.size(), r;
        if (rq) { ph::request q; fill(q, v[k].q, 0, k); if (!v[k].q.content.empty()) q.set_content(v[k].q.content); r = q.write(out, ec); }
        else { ph::request q("/"); q.set_method(v[k].q.method); ph::response s(q); fill(s, v[k].s); s.ph::message::set_content(v[k].s.content); r = s.write(out, ec); }
        if (ec) { CHECK(sink.limit != (size_t)-1, "exchange-failed", "writing a message to a stream failed"); wfail = true; SIM_PROBE("stream-write-error"); SIM_COUNT("fault.stream-full"); break; }
        CHECK(sink.d.size() - before == r && sink.d.size() <= sink.limit && out.good(), "error-not-reported", "write() reported success and %zu bytes, the stream took %zu", r, sink.d.size() - before);
        ends.push_back(sink.d.size()); ++*counter("evals");
    }
    size_t cut = plan(3) == 2 ? plan((uint32_t)sink.d.size() + 1) : sink.d.size(); if (cut < sink.d.size()) SIM_COUNT("fault.stream-truncated"); std::istringstream in(sink.d.substr(0, cut)); (void)wfail;
    boost::shared_ptr<ph::request> q(new ph::request); boost::shared_ptr<ph::response> s;
    for (int k = 0; k < n; ++k) {
        bool whole = k < (int)ends.size() && cut >= ends[k]; bool valid; bool until = !rq && v[k].s.until_close; size_t start = k ? (k <= (int)ends.size() ? ends[k - 1] : cut) : 0; if (start > cut) break;
        if (rq) { q->read(in, ec); valid = !ec && q->is_valid(); } else { ph::request rqm("/"); rqm.set_method(v[k].q.method); if (s && plan(2)) s->update_request_info(rqm); else s.reset(new ph::response(rqm)); s->read(in, ec); valid = !ec && s->is_valid(); }
        log("read %d: ec %d valid %d whole %d", k, ec.value(), (int)valid, (int)whole);
        if (!valid) { CHECK(!whole, "exchange-failed", "message %d was completely in the stream and could not be read (error %d)", k, ec.value()); break; }
        if (until && !whole) { (*CUTS)[0].done = true; (*CUTS)[0].kind = 0; } else CHECK(whole, "cut-reported-complete", "message %d was cut short and was reported complete and valid", k);
        if (rq) { int c, kk; arrived(*q, c, kk); } else check_response(*s, 0, k);
        if (!whole) break;
    }
}
// -------------------------------------------------------------------- messages passed on: origin (raw) -> relay (library) -> final recipient (library)
struct Fwd { std::string method, resource, reason, content; int status; std::vector<std::pair<std::string, std::string> > headers, cookies; };
void forwarding() {
    simnet::random_config(); if (simnet::cfg.capacity < 100) simnet::cfg.capacity = 100; if (simnet::cfg.stall_num) simnet::cfg.stall_us = 100000;
    bool rq = plan(2); int n = plan_range(1, 4); std::vector<Fwd> v; std::string wire; bool open = false;
    for (int k = 0; k < n; ++k) {
        Fwd f; f.method = plan(2) ? "POST" : "PUT"; f.resource = "/" + word(); f.status = plan(3) ? 200 : plan(2) ? 404 : 299; f.reason = plan(2) ? "OK" : "Some Reason"; f.content = some_content(3000);
        int nh = plan(4); for (int i = 0; i < nh; ++i) f.headers.push_back(std::make_pair(std::string("X-") + (char)('A' + plan(3)), word()));
        std::string w = rq ? f.method + " " + f.resource + " HTTP/1.1\r\n" : "HTTP/1.1 " + std::to_string(f.status) + " " + f.reason + "\r\n", tail;
        for (auto &h : f.headers) w += h.first + ": " + h.second + "\r\n";
        if (rq && plan(3) == 0) { std::string val = plan(2) ? word() : "a" + std::string(1, ";, '="[plan(5)]) + word(); f.cookies.push_back(std::make_pair("m", val)); w += "Cookie: m=" + (plan(2) || val.find_first_of(";, '") != std::string::npos ? "\"" + val + "\"" : val) + "\r\n"; }
        int how = (int)plan(rq || k + 1 < n ? 3 : 4); if (how == 3) open = true;
        if (how == 3) tail = "\r\n" + f.content;
        else if (how) { w += std::string(plan(2) ? "Transfer-Encoding: chunked\r\n" : "transfer-encoding: Chunked\r\n"); size_t p = 0; tail = "\r\n"; char b[24]; while (p < f.content.size()) { size_t c = std::min<size_t>(f.content.size() - p, 1 + plan(2000)); snprintf(b, sizeof b, "%zx\r\n", c); tail += b + f.content.substr(p, c) + "\r\n"; p += c; } tail += "0\r\n"; if (plan(3) == 0) { f.headers.push_back(std::make_pair("X-T", "trailer")); tail += "X-T: trailer\r\n"; } tail += "\r\n"; SIM_PROBE("forward-chunked"); }
        else tail = "Content-Length: " + std::to_string(f.content.size()) + "\r\n\r\n" + f.content;
        wire += w + tail; v.push_back(f);
    }
    pion::single_service_scheduler *S = new pion::single_service_scheduler(); boost::asio::io_service &io = S->get_io_service();
    set_faults(false); boost::asio::ip::tcp::acceptor *a1 = new boost::asio::ip::tcp::acceptor(io), *a2 = new boost::asio::ip::tcp::acceptor(io);
    for (int i = 0; i < 2; ++i) { boost::asio::ip::tcp::acceptor *a = i ? a2 : a1; a->open(boost::asio::ip::tcp::v4()); a->bind(boost::asio::ip::tcp::endpoint(boost::asio::ip::tcp::v4(), (uint16_t)(9500 + i))); a->listen(); }
    int origin = spawn("origin", [&] { simnet::Client c; if (!c.connect(9500)) return; c.send(wire, 200 * SEC); if (open) c.shutdown(); c.recv_eof(300 * SEC); });
    int relay_f = spawn("relay", [&] { loud([&] {
        connection in(io, false), out(io, false); boost::system::error_code ec; ec = in.accept(*a1); if (!ec) ec = out.connect(boost::asio::ip::address_v4(0x7f000001), 9501); if (ec) violation("harness", "no connection");
        out.set_lifecycle(connection::LIFECYCLE_KEEPALIVE);
        for (int k = 0; k < n; ++k) {
            ph::request q; ph::response r("GET"); ph::message &m = rq ? (ph::message &)q : (ph::message &)r; m.receive(in, ec); { Quiet z; CHECK(!ec && m.is_valid(), "exchange-failed", "message %d to be passed on was not received (error %d)", k, ec.value()); }
            m.send(out, ec); { Quiet z; CHECK(!ec, "exchange-failed", "message %d was not passed on (error %d)", k, ec.value()); }
        }
        out.close(); in.close(); }); });
    int final_f = spawn("final", [&] { loud([&] {
        connection c(io, false); boost::system::error_code ec = c.accept(*a2); if (ec) violation("harness", "no connection");
        for (int k = 0; k < n; ++k) {
            ph::request q; ph::response r("GET"); ph::message &m = rq ? (ph::message &)q : (ph::message &)r; m.receive(c, ec); Quiet z; const Fwd &f = v[k]; ++*counter("evals");
            CHECK(!ec && m.is_valid(), "exchange-failed", "%s %d of %d that had been passed on could not be received (error %d)", rq ? "request" : "response", k, n, ec.value());
            if (rq) CHECK(q.get_method() == f.method && q.get_resource() == f.resource, "start-line-differs", "request %d passed on: %s %s", k, q.get_method().c_str(), q.get_resource().c_str());
            else CHECK((int)r.get_status_code() == f.status && r.get_status_message() == f.reason, "start-line-differs", "response %d passed on: %u %s", k, r.get_status_code(), r.get_status_message().c_str());
            Msg w; w.headers = f.headers; same_headers(m, w, "passed on", 0, k); same_content(m, f.content, "passed on", 0, k, false);
            for (auto &x : f.cookies) { auto e = m.get_cookies().equal_range(x.first); int cnt = 0; for (auto i = e.first; i != e.second; ++i, ++cnt) CHECK(i->second == x.second, "headers-differ", "cookie %s was '%s' and arrives as '%s'", x.first.c_str(), x.second.c_str(), i->second.c_str()); CHECK(cnt, "headers-differ", "cookie %s is lost", x.first.c_str()); CHECK(cnt == (int)m.get_cookies().size(), "headers-differ", "a cookie that nobody sent arrives"); }
        }
        c.close(); }); });
    if (!wait_until([&] { return done(origin) && done(relay_f) && done(final_f); }, 3000 * SEC)) violation("stuck", "passing on %d messages never ended", n);
    join(origin); join(relay_f); join(final_f); SIM_PROBE("forwarded"); delete a1; delete a2; loud([&] { delete S; });
}
}
void harness_run() {
    quiet_logging(); XPLAN = new std::vector<Conn>; SEEN = new std::vector<int>; CUTS = new std::vector<Cut>; OPS = new std::vector<Op *>;
    int scenario = plan(10); if (scenario >= 8) over_streams(); else if (scenario == 7) forwarding(); else over_network();
}
