// P11 / P12 / P14: the HTTP server (one response per request, containment of errors, routing)
#include "httpx.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <boost/exception/all.hpp>
#include <pion/http/server.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/scheduler.hpp>
#include <set>
#include <stdexcept>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr; using pion::http::request_ptr; using pion::http::response_writer; using pion::http::response_writer_ptr;

namespace {
bool P(const char *id) { return std::string(property()) == id; }
typedef pion::http::server Srv;
Srv *SRV; bool g_ssl; uint16_t g_port; int g_inhandler; bool g_custom;

// ---------------------------------------------------------------- what the handlers answer
std::string answer_of(const std::string &tag, const std::string &method, const std::string &res, const std::string &query, const std::string &id, const std::string &body, size_t size) {
    std::string s = tag + "|" + method + "|" + res + "|" + query + "|" + id + "|" + std::to_string(body.size()) + "|" + hex64(fnv(body)) + "|";
    if (s.size() < size) s += filler(fnv(id), size - s.size());
    return s;
}
std::string answer_to(const std::string &tag, pion::http::request &r) {
    std::string body; if (r.get_content_length()) body.assign(r.get_content(), r.get_content_length());
    return answer_of(tag, r.get_method(), r.get_resource(), r.get_query_string(), r.get_header("X-Id"), body, atoi(r.get_header("X-Size").c_str()));
}
struct boosty : virtual boost::exception {};
struct Chunky : boost::enable_shared_from_this<Chunky> {     // sends a body in several chunks
    response_writer_ptr w; std::string body; size_t off = 0; int left = 0; bool final_with_data = false, done = false; connection_ptr c;
    void next(const boost::system::error_code &ec, std::size_t) {
        if (ec) { fin(ec); return; }
        bool last; std::string piece; int how;
        { Quiet q; last = left <= 0; size_t n = last ? body.size() - off : std::min(body.size() - off, (size_t)plan(200)); if (last && !final_with_data && n) { last = false; } piece = body.substr(off, n); off += n; --left; how = plan(3); }
        w->clear();
        if (how == 0) w << piece; else if (how == 1) w->write(piece.data(), piece.size()); else { w->write(piece.data(), piece.size() / 2); w << piece.substr(piece.size() / 2); }
        if (last) { if (how == 2) w->send_final_chunk(boost::bind(&Chunky::fin, shared_from_this(), _1)); else w->send_final_chunk(); }
        else w->send_chunk(boost::bind(&Chunky::next, shared_from_this(), _1, _2));
    }
    void fin(const boost::system::error_code &ec) { if (ec) c->set_lifecycle(connection::LIFECYCLE_CLOSE); c->finish(); c.reset(); response_writer_ptr x; x.swap(w); }     // (breaks the reference cycle)
};
struct Keep : boost::enable_shared_from_this<Keep> { connection_ptr c; std::string a, b; void fin(const boost::system::error_code &) { c->finish(); } };
void send_plain(const connection_ptr &c, const request_ptr &r, const std::string &s, int how) {
    if (how == 1) {   // not copied: the strings live as long as the exchange
        boost::shared_ptr<Keep> k; { Quiet q; k.reset(new Keep); k->c = c; k->a = s.substr(0, s.size() / 3); k->b = s.substr(s.size() / 3); }
        response_writer_ptr w(response_writer::create(c, *r, boost::bind(&Keep::fin, k, _1)));
        if (k->a.size() & 1) w << k->a; else w->write_no_copy(k->a); w->write_no_copy((void *)k->b.data(), k->b.size()); w->send(); return;
    }
    if (how == 2) {   // a response object that carries its content
        pion::http::response_ptr p(new pion::http::response(*r)); p->set_content(s);
        response_writer_ptr w(response_writer::create(c, p, boost::bind(&connection::finish, c))); w->send(); return;
    }
    response_writer_ptr w(response_writer::create(c, *r, boost::bind(&connection::finish, c)));
    if (how == 0) w << s; else { w << s.substr(0, s.size() / 2); w->write(s.data() + s.size() / 2, s.size() - s.size() / 2); }
    w->send();
}
void respond(const connection_ptr &c, const request_ptr &r, const std::string &s) {
    int kind; { Quiet q; kind = plan(7); log("respond kind %d", kind); }
    if (kind == 5) {      // blocking send
        pion::http::response p(*r); boost::system::error_code ec; p.set_content(s); p.send(*c, ec, r->get_method() == "HEAD"); if (ec) c->set_lifecycle(connection::LIFECYCLE_CLOSE); c->finish(); return;
    }
    if (kind == 6) {
        boost::shared_ptr<Chunky> k; { Quiet q; k.reset(new Chunky); k->c = c; k->body = s; k->left = plan(4); k->final_with_data = plan(2); SIM_PROBE("chunked-answer"); }
        k->w = response_writer::create(c, *r, boost::bind(&Chunky::fin, k, _1));
        k->next(boost::system::error_code(), 0); return;
    }
    send_plain(c, r, s, kind % 4);
}
void handler(const request_ptr &r, const connection_ptr &c, std::string tag) {
    std::string s; int how;
    { Quiet q; s = answer_to(tag, *r); how = plan(4); log("handler %s id %s", tag.c_str(), r->get_header("X-Id").c_str()); }
    if (how == 3) {          // another thread answers later
        Quiet q; connection_ptr *cc = new connection_ptr(c); request_ptr *rr = new request_ptr(r);
        spawn("answerer", [=] { sim::sleep(1 + plan(plan(2) ? 2000 : 1500000)); loud([&] { respond(*cc, *rr, s); delete cc; delete rr; }); }); SIM_PROBE("answered-by-other-thread");
        return;
    }
    respond(c, r, s);
}
void thrower(const request_ptr &r, const connection_ptr &, int what) {
    { Quiet q; SIM_COUNT("fault.handler-throws"); log("thrower %d %s", what, r->get_resource().c_str()); }
    switch (what) { case 0: throw std::runtime_error("handler <failed> & died"); case 1: throw boosty() << boost::errinfo_errno(5); case 2: throw 42; default: throw std::string("text"); }
}
void custom_error(const request_ptr &r, const connection_ptr &c, int code) {
    response_writer_ptr w(response_writer::create(c, *r, boost::bind(&connection::finish, c)));
    w->get_response().set_status_code(code); w->get_response().set_status_message("Custom"); w << "custom " << code; w->send();
}
void custom_500(const request_ptr &r, const connection_ptr &c, const std::string &) { custom_error(r, c, 500); }

// ---------------------------------------------------------------- requests
struct Req { std::string wire, body, id; bool head = false, close = false; int code = 200; bool malformed = false; };
Req make_req(const std::string &id, bool last, bool errors, bool may_head = true) {
    Req q; q.id = id; static const char *const M[] = { "GET", "POST", "PUT", "HEAD", "DELETE" }; std::string m = M[plan(5)]; if (!may_head && m == "HEAD") m = "GET"; q.head = m == "HEAD";
    int v10 = plan(8) == 7; q.close = v10; std::string hdr;
    static const char *const R[] = { "/a", "/a/b/c", "/s/x", "/s/x/y/z" }; static const char *const T[] = { "a", "a", "sx", "sx" };
    int k = plan(4); std::string res = R[k], tag = T[k], wres = res;
    if (plan(4) == 3) { wres = "/old"; res = "/a/moved"; tag = "a"; }
    else if (plan(4) == 3) { wres += "/"; res += "/"; }
    std::string qs = plan(3) ? "" : "n=" + std::to_string(plan(1000)) + "&w=x%20y"; size_t size = plan(3) ? 0 : plan(3) ? plan(300) : plan(5000);
    if (simnet::cfg.capacity < 100 && size > 600) size = 600;
    if (errors) switch (plan(6)) {
        case 0: wres = "/nope/" + id; q.code = 404; break;
        case 1: wres = "/boom" + std::to_string(plan(4)); q.code = 500; break;
        case 2: wres = "/loop"; q.code = 500; break;
        default: break;
    }
    std::string body; bool has_body = (m == "POST" || m == "PUT" || (m == "DELETE" && plan(2))); 
    if (has_body) body = filler(fnv(id) + 7, plan(3) ? plan(60) : plan(1500));
    if (simnet::cfg.capacity < 100 && body.size() > 300) body.resize(300);
    std::string w = m + " " + wres + (qs.empty() ? "" : "?" + qs) + (v10 ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n");
    w += "Host: sim\r\nX-Id: " + id + "\r\nX-Size: " + std::to_string(size) + "\r\n";
    if (!q.close && (last ? plan(2) == 0 : plan(12) == 11)) { q.close = true; w += plan(2) ? "Connection: close\r\n" : "connection: close\r\n"; }
    if (has_body && !v10 && plan(3) == 2) {
        w += "Transfer-Encoding: chunked\r\n\r\n"; size_t o = 0; char b[24];
        while (o < body.size()) { size_t n = 1 + plan((uint32_t)std::min<size_t>(body.size() - o, 300)); if (n > body.size() - o) n = body.size() - o; snprintf(b, sizeof b, "%zx\r\n", n); w += b; w += body.substr(o, n) + "\r\n"; o += n; }
        w += "0\r\n\r\n";
    } else { if (has_body) w += "Content-Length: " + std::to_string(body.size()) + "\r\n"; w += "\r\n" + body; }
    if (q.code == 200) q.body = answer_of(tag, m, res, qs, id, body, size);
    q.wire = w; return q;
}
Req make_malformed() {
    Req q; q.malformed = true; q.close = true; q.code = 400;
    static const char *const W[] = { "GET / HTTX/1.1\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: 12x\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: -5\r\n\r\n", "\x01\x02\x03 / HTTP/1.1\r\n\r\n", "G(T / HTTP/1.1\r\n\r\n",
        "POST /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "GET / HTTP/x.1\r\n\r\n", "GET / HTTP/1.1\r\nbad\x01header: x\r\n\r\n", "POST /a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcdeXX\r\n0\r\n\r\n" };
    q.wire = W[plan(9)]; return q;
}
// ---------------------------------------------------------------- clients
bool open_client(simnet::Client &c) {
    for (int i = 0; i < 20; ++i) { if (c.connect(g_port)) { if (!g_ssl || c.ssl_handshake(60 * SEC)) return true; c.close(); c = simnet::Client(); } sim::sleep(1000 + plan(100000)); }
    return false;
}
bool faulted(simnet::Client &c) { simnet::EndP p = c.end ? c.end->peer.lock() : simnet::EndP(); return p && p->tag == "accept-fault"; }
/// sends the requests and checks the answers; returns false when the connection was lost to an injected fault
bool exchange(simnet::Client &c, std::vector<Req> &rq, bool pipelined, bool vanish, int cid) {
    size_t pos = 0; int sender = -1; std::shared_ptr<bool> stop = std::make_shared<bool>(false), sfail = std::make_shared<bool>(false);
    if (pipelined) {
        std::string all; for (auto &r : rq) all += r.wire;
        simnet::Client *cp = &c; int style = plan(3);
        sender = spawn("sender", [=] { size_t o = 0; while (o < all.size() && !*stop) { size_t n = style == 0 ? all.size() : style == 1 ? 1 + plan(40) : 1 + plan(400); if (!cp->send(all.substr(o, n), 120 * SEC)) { *sfail = true; break; } o += n; if (style && plan(6) == 5) sim::sleep(plan(300000)); } });
    }
    auto leave = [&] { *stop = true; if (sender >= 0) join(sender); };
    int cut = vanish ? (int)plan((uint32_t)rq.size() + 1) : -1;
    for (size_t i = 0; i < rq.size(); ++i) {
        Req &r = rq[i]; uint64_t t_bad = 0;
        if ((int)i == cut) { if (pipelined && plan(2)) sim::sleep(plan(20000)); if (!pipelined) c.send(r.wire.substr(0, plan((uint32_t)r.wire.size()))); SIM_COUNT("fault.client-vanishes"); if (plan(2)) c.reset(); else c.close(); leave(); return false; }
        if (!pipelined) {
            if (i && plan(3) == 2) sim::sleep(plan(2000000));
            size_t o = 0; int style = plan(3);
            while (o < r.wire.size()) { size_t n = style == 0 ? r.wire.size() : 1 + plan(60); if (!c.send(r.wire.substr(o, n), 120 * SEC)) break; o += n; if (style == 2 && plan(5) == 4) sim::sleep(plan(500000)); }
        }
        Resp a; std::string why; int st = 0;
        uint64_t dl = sim::now() + 120 * SEC;
        for (;;) {
            bool over = c.eof || (c.rst && r.close && i + 1 < rq.size());      // (closing with unread pipelined bytes resets)
            st = pos < c.in.size() || over ? parse_resp(c.in, pos, r.head, over, a, &why) : 0;
            if (st || c.eof || c.rst) break;
            if (sim::now() >= dl) break;
            c.timed_out = false; c.recv_some(dl - sim::now());
        }
        log("client %d req '%s' got '%s'", cid, show(r.wire, 300).c_str(), show(c.in.substr(pos), 300).c_str()); log("client %d req %zu st %d code %d eof %d rst %d in %zu", cid, i, st, a.code, (int)c.eof, (int)c.rst, c.in.size() - pos);
        if (st < 0) violation("response-garbled", "client %d: response %zu is malformed (%s): '%s'", cid, i, why.c_str(), show(c.in.substr(pos)).c_str());
        if (r.malformed) {
            if (st == 1) CHECK(a.code == 400, "malformed-accepted", "malformed request '%s' was answered with %d", show(r.wire).c_str(), a.code);
            else if (!c.eof && !c.rst) violation("malformed-ignored", "malformed request '%s' was neither answered nor was the connection closed in 120 s", show(r.wire).c_str());
            else { leave(); return true; }
            SIM_PROBE("bad-request-answered"); t_bad = sim::now();
        } else {
            if (st == 0) { if (faulted(c)) { leave(); return false; }
                if (c.eof || c.rst) violation("response-missing", "client %d: the connection ended after %zu bytes of response %zu (of %zu) although the request '%s' was complete", cid, c.in.size() - pos, i, rq.size(), show(r.wire).c_str());
                violation("response-missing", "client %d: no (complete) response to request %zu '%s' in 120 s; got %zu bytes: '%s'", cid, i, show(r.wire, 200).c_str(), c.in.size() - pos, show(c.in.substr(pos), 200).c_str()); }
            if (a.code != r.code) violation(r.code == 200 ? "wrong-response" : "wrong-status", "client %d: request '%s' was answered with %d instead of %d", cid, show(r.wire).c_str(), a.code, r.code);
            if (r.code == 200 && !r.head && a.body != r.body) violation("wrong-response", "client %d: response %zu carries %zu bytes '%s' instead of %zu bytes '%s'", cid, i, a.body.size(), show(a.body).c_str(), r.body.size(), show(r.body).c_str());
            if (!r.close && a.until_close) violation("keep-alive-broken", "client %d: response %zu to a keep-alive request is delimited by close", cid, i);
            if (r.code == 200 && r.head && a.get("content-length") && *a.get("content-length") != std::to_string(r.body.size())) violation("wrong-response", "client %d: HEAD response announces %s bytes instead of %zu", cid, a.get("content-length")->c_str(), r.body.size());
            CHECK(a.close == r.close, "keep-alive-wrong", "client %d: response %zu says '%s' but the request negotiated %s", cid, i, a.close ? "close" : "keep-alive", r.close ? "close" : "keep-alive");
        }
        pos = a.end; ++*counter("evals");
        if (r.close) {
            // nothing more may follow, and the connection is closed
            leave(); size_t keep = pos; c.timed_out = false; c.recv_eof(60 * SEC);
            CHECK(c.in.size() == keep, "extra-bytes", "client %d: %zu bytes follow the last response: '%s'", cid, c.in.size() - keep, show(c.in.substr(keep)).c_str());
            CHECK(!t_bad || sim::now() < t_bad + 8 * SEC, "not-closed", "client %d: connection left open for %llu us after a malformed request was refused", cid, (unsigned long long)(sim::now() - t_bad));
            CHECK(c.eof || c.rst, "not-closed", "client %d: connection still open 60 s after a response that ends it", cid);
            return true;
        }
    }
    if (sender >= 0) join(sender);
    // keep-alive: the connection stays open and silent
    uint64_t t = plan(2) ? 0 : 1 + plan(3000000); if (t) { c.timed_out = false; c.recv_some(t); }
    CHECK(c.in.size() == pos, "extra-bytes", "client %d: %zu bytes follow the last response: '%s'", cid, c.in.size() - pos, show(c.in.substr(pos)).c_str());
    if ((c.eof || c.rst) && !faulted(c)) violation("keep-alive-broken", "client %d: keep-alive connection closed %llu us after the response", cid, (unsigned long long)t);
    if (plan(3) == 2) { Req r = make_req(std::to_string(cid) + ".z", true, false); std::vector<Req> v(1, r); c.in.clear(); return exchange(c, v, false, false, cid); }
    return true;
}
void good_client(int cid, bool errors, bool vanish) {
    simnet::Client c; if (!open_client(c)) { if (!g_ssl) violation("not-serving", "client %d cannot connect", cid); return; }
    int n = plan_range(1, 5); std::vector<Req> rq;
    for (int i = 0; i < n; ++i) { rq.push_back(make_req(std::to_string(cid) + "." + std::to_string(i), i + 1 == n, errors)); if (rq.back().close) { if (plan(2)) break; if (i + 1 < n) { rq.push_back(make_req("never", true, false)); break; } } }
    bool pipe = plan(2);
    if (errors && plan(3) == 2) { if (!rq.back().close) { rq.push_back(make_malformed()); if (plan(2)) { Req r = make_req("smuggled", true, false); rq.push_back(r); } } }     // (what follows a malformed request is not a request)
    exchange(c, rq, pipe, vanish, cid);
    if (plan(2)) c.reset(); else c.close();
}
void chaos_client(int cid) {
    simnet::Client c; if (!open_client(c)) return;
    std::string w = make_req("chaos", false, true).wire; SIM_COUNT("fault.chaos-client");
    switch (plan(5)) {
    case 0: w.resize(plan((uint32_t)w.size())); break;
    case 1: for (int i = 0, n = plan_range(1, 5); i < n; ++i) w[plan((uint32_t)w.size())] = (char)plan(256); break;
    case 2: w = filler(plan(100000), 1 + plan(500)); break;
    case 3: w += w.substr(0, plan((uint32_t)w.size())); break;
    default: w = "POST /a HTTP/1.1\r\nContent-Length: 999999\r\n\r\nshort"; break;
    }
    c.send(w, 20 * SEC);
    switch (plan(4)) { case 0: c.reset(); return; case 1: c.close(); return; case 2: c.shutdown(); /* fall through */
    default: if (!c.recv_eof(60 * SEC)) { if (P("P12") && c.in.empty()) violation("vanished-client-held", "client %d sent part of a request and then nothing: neither an answer nor a close in 60 s", cid); } c.close(); }
}
void serve() {
    simnet::random_config(); if (params.stall_us > 500000) params.stall_us = 500000;
    g_ssl = plan(5) == 4; g_custom = plan(4) == 3; bool errors = P("P12");
    int sched = plan(3), n = plan_range(1, 4); pion::scheduler *S = 0;
    if (sched == 1) S = new pion::single_service_scheduler(); else if (sched == 2) S = new pion::one_to_one_scheduler();
    loud([&] {
        if (S) { S->set_num_threads(n); SRV = new Srv(*S, 0); } else SRV = new Srv((unsigned)0);
        if (g_ssl) SRV->set_ssl_flag(true);
        SRV->add_resource("/a", boost::bind(&handler, _1, _2, std::string("a")));
        SRV->add_resource("/s/x/", boost::bind(&handler, _1, _2, std::string("sx")));
        for (int i = 0; i < 4; ++i) SRV->add_resource("/boom" + std::to_string(i), boost::bind(&thrower, _1, _2, i));
        SRV->add_redirect("/old", "/a/moved"); SRV->add_redirect("/loop", "/loop2"); SRV->add_redirect("/loop2", "/loop");
        if (g_custom) { SRV->set_not_found_handler(boost::bind(&custom_error, _1, _2, 404)); SRV->set_bad_request_handler(boost::bind(&custom_error, _1, _2, 400)); SRV->set_error_handler(&custom_500); }
        for (int i = 0;; ++i) { try { SRV->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); if (i == 12) violation("start", "cannot start"); } }
    });
    set_faults(true); g_port = (uint16_t)SRV->get_port();
    std::vector<int> f; int nc = plan_range(1, 5), nx = plan(3);
    for (int i = 0; i < nc; ++i) { uint64_t d = plan(2) ? 0 : plan(50000); bool v = plan(6) == 5; f.push_back(spawn("client", [=] { sim::sleep(d); good_client(i, errors, v); })); }
    for (int i = 0; i < nx; ++i) { uint64_t d = plan(2) ? 0 : plan(50000); f.push_back(spawn("chaos", [=] { sim::sleep(d); chaos_client(100 + i); })); }
    auto fin = [&] { for (int x : f) if (!done(x)) return false; return true; };
    if (!wait_until(fin, 3000 * SEC)) violation("stuck", "clients did not finish in 3000 s");
    set_faults(false);
    for (int i = 0; i < 2; ++i) { simnet::Client c; if (!open_client(c)) violation("not-serving", "after the faults ended a new client cannot connect"); std::vector<Req> v(1, make_req("last", true, false)); exchange(c, v, false, false, 900 + i); c.close(); }
    bool sd = false; int sf = spawn("stopper", [&] { loud([] { SRV->stop(true); }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stop(true) did not return in 300 s after all clients had left");
    join(sf);
    loud([&] { delete SRV; SRV = 0; if (S) { S->shutdown(); delete S; } });
}
// ---------------------------------------------------------------- P14: routing under reconfiguration
struct Reg { std::string key; int id; uint64_t ab = 0, ae = ~0ull, rb = ~0ull, re = ~0ull; };
struct Rdr { std::string from, to; uint64_t ab = 0, ae = ~0ull; };
std::vector<std::shared_ptr<Reg> > *REG; std::vector<std::shared_ptr<Rdr> > *RDR; uint64_t g_seq; std::map<std::string, uint64_t> *ENTER;
void route_handler(const request_ptr &r, const connection_ptr &c, int id) {
    std::string s; { Quiet q; s = "id=" + std::to_string(id) + ";r=" + r->get_resource() + ";o=" + r->get_original_resource() + ";"; (*ENTER)[r->get_header("X-Id")] = ++g_seq; log("route %d for %s", id, r->get_resource().c_str()); }
    response_writer_ptr w(response_writer::create(c, *r, boost::bind(&connection::finish, c))); w << s; w->send();
}
std::string strip(std::string s) { if (!s.empty() && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }
bool seg_prefix(const std::string &k, const std::string &r) { return r.compare(0, k.size(), k) == 0 && (r.size() == k.size() || r[k.size()] == '/'); }
void finals(const std::string &res, uint64_t s, uint64_t e, std::set<std::string> &out, int depth = 0) {
    if (depth > 12) return;
    bool surely = false;
    for (auto &d : *RDR) if (d->from == res && d->ab < e) { if (d->ae < s) surely = true; finals(d->to, s, e, out, depth + 1); }
    if (!surely) out.insert(res);
}
/// is `id` (or 404: -1) an answer for `res` at some single moment in [s,e]?
bool routable(const std::string &res, int id, uint64_t s, uint64_t e) {
    std::set<uint64_t> ts; ts.insert(s); ts.insert(e);
    for (auto &r : *REG) { uint64_t x[] = { r->ab, r->ae, r->rb, r->re }; for (uint64_t t : x) { if (t > s && t < e) ts.insert(t); if (t != ~0ull && t + 1 > s && t + 1 < e) ts.insert(t + 1); } }
    for (uint64_t t : ts) {
        size_t len = 0; bool have = id < 0;
        for (auto &r : *REG) if (r->id == id) { have = seg_prefix(r->key, res) && r->ab <= t && t <= r->re; len = r->key.size() + 1; }
        if (!have) continue;
        bool ok = true;
        for (auto &r : *REG) if (seg_prefix(r->key, res) && r->key.size() + 1 > len && r->id != id && r->ae <= t && t < r->rb) ok = false;
        if (ok) return true;
    }
    return false;
}
bool routable_any(const std::string &res, int id, uint64_t s, uint64_t e, std::string &which, const std::string *told = 0) {
    std::set<std::string> f; finals(strip(res), s, e, f);
    for (auto &x : f) { if (told && strip(*told) != x) continue; if (id >= 0) { bool m = false; for (auto &r : *REG) if (r->id == id && r->ab < e && seg_prefix(r->key, x)) m = true; if (!m) continue; } if (routable(x, id, s, e)) { which = x; return true; } }
    return false;
}
std::string rpath(int maxd) { static const char *const S[] = { "a", "ab", "a-b", "b", "a.b", "a!" }; std::string p; int d = plan_range(1, maxd); for (int i = 0; i < d; ++i) p += std::string("/") + S[plan(6)]; return p; }
void routing() {
    simnet::random_config(); simnet::cfg.delay_max = plan(3) ? 40 : 2000; simnet::cfg.capacity = 4096; simnet::cfg.stall_num = 0; simnet::cfg.seg_mode = plan(4) == 3; if (params.stall_us > 200000) params.stall_us = 200000;
    REG = new std::vector<std::shared_ptr<Reg> >(); RDR = new std::vector<std::shared_ptr<Rdr> >(); ENTER = new std::map<std::string, uint64_t>(); g_seq = 1; g_ssl = false;
    pion::single_service_scheduler *S = new pion::single_service_scheduler(); int nt = plan_range(1, 4);
    loud([&] { S->set_num_threads(nt); SRV = new Srv(*S, 0); for (int i = 0;; ++i) { try { SRV->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); } } });
    set_faults(true); g_port = (uint16_t)SRV->get_port(); int next_id = 0;
    auto add = [&](const std::string &k) { auto r = std::make_shared<Reg>(); r->key = k; r->id = next_id++; REG->push_back(r); r->ab = ++g_seq; bool sl = plan(3) == 2; log("add %s = %d", k.c_str(), r->id); loud([&] { SRV->add_resource(k + (sl ? "/" : k.empty() ? "/" : ""), boost::bind(&route_handler, _1, _2, r->id)); }); r->ae = ++g_seq; log("added %d", r->id); return r; };
    auto rem = [&](std::shared_ptr<Reg> r) { r->rb = ++g_seq; bool sl = plan(3) == 2; log("remove %s = %d", r->key.c_str(), r->id); loud([&] { SRV->remove_resource(r->key + (sl ? "/" : "")); }); r->re = ++g_seq; log("removed %d", r->id); };
    auto redir = [&](const std::string &f, const std::string &t) { auto d = std::make_shared<Rdr>(); d->from = f; d->to = t; RDR->push_back(d); d->ab = ++g_seq; log("redirect %s -> %s", f.c_str(), t.c_str()); loud([&] { SRV->add_redirect(f + (plan(2) ? "/" : ""), t + (plan(2) ? "/" : "")); }); d->ae = ++g_seq; };
    std::set<std::string> keys; int nk = plan_range(1, 7); for (int i = 0; i < nk; ++i) keys.insert(rpath(3)); if (plan(3) == 2) keys.insert("");
    std::vector<std::string> fixed, moving; for (auto &k : keys) if (plan(2)) fixed.push_back(k); else moving.push_back(k);
    for (auto &k : fixed) add(k);
    std::vector<std::pair<std::string, std::string> > rd; int nr = plan(4);
    for (int i = 0; i < nr; ++i) rd.push_back(std::make_pair("/r" + std::to_string(i), i && plan(3) == 2 ? "/r" + std::to_string(i - 1) : rpath(3)));
    size_t early = rd.size() ? plan((uint32_t)rd.size() + 1) : 0; for (size_t i = 0; i < early; ++i) redir(rd[i].first, rd[i].second);
    std::vector<int> f; std::shared_ptr<bool> over = std::make_shared<bool>(false); int na = moving.empty() ? 0 : 1 + plan(2);
    for (int a = 0; a < na; ++a) f.push_back(spawn("admin", [&, a] {
        std::vector<std::pair<std::string, std::shared_ptr<Reg> > > mine; for (size_t i = a; i < moving.size(); i += na) mine.push_back(std::make_pair(moving[i], std::shared_ptr<Reg>()));
        if (mine.empty()) return;
        for (int i = 0, n = plan_range(2, 14); i < n; ++i) { auto &m = mine[plan((uint32_t)mine.size())]; if (m.second) { rem(m.second); m.second.reset(); } else m.second = add(m.first); if (plan(3)) sim::sleep(plan(300)); }
    }));
    if (early < rd.size()) f.push_back(spawn("redirector", [&] { for (size_t i = early; i < rd.size(); ++i) { sim::sleep(plan(500)); redir(rd[i].first, rd[i].second); } }));
    int nc = plan_range(1, 3);
    auto client = [&](int ci, int n) {
        simnet::Client c; if (!open_client(c)) return;
        for (int i = 0; i < n; ++i) {
            std::string res = plan(4) == 3 && nr ? "/r" + std::to_string(plan(nr)) : plan(2) && !keys.empty() ? *std::next(keys.begin(), plan((uint32_t)keys.size())) + (plan(2) ? "" : rpath(1)) : rpath(4); if (res.empty()) res = "/";
            std::string id = std::to_string(ci) + "." + std::to_string(i), w = res + (plan(3) == 2 && res != "/" ? "/" : "");
            uint64_t s = ++g_seq; c.in.clear();
            if (!c.send("GET " + w + (plan(3) ? "" : "?q=1") + " HTTP/1.1\r\nX-Id: " + id + "\r\n\r\n")) { if (faulted(c)) return; violation("response-missing", "send failed"); }
            Resp a; int st = 0; uint64_t dl = sim::now() + 60 * SEC;
            for (;;) { st = c.in.empty() ? 0 : parse_resp(c.in, 0, false, c.eof, a); if (st || c.eof || c.rst || sim::now() >= dl) break; c.recv_some(dl - sim::now()); }
            if (st != 1) { if (faulted(c)) return; violation("response-missing", "request for '%s' got no response", w.c_str()); }
            int got = -1; std::string body = a.body; uint64_t e = ++g_seq;
            if (a.code == 200) { got = atoi(body.c_str() + 3); e = (*ENTER)[id]; } else CHECK(a.code == 404, "wrong-status", "request for '%s' answered with %d", w.c_str(), a.code);
            std::string which; bool ok = routable_any(w, got, s, e, which); log("req %s -> %d [%llu,%llu] %d", w.c_str(), got, (unsigned long long)s, (unsigned long long)e, (int)ok);
            if (!ok) { std::string key = "?"; for (auto &r : *REG) if (r->id == got) key = r->key; violation(got < 0 ? "not-found-wrong" : "wrong-handler", "request for '%s' was answered by %s, which no moment of its processing justifies", w.c_str(), got < 0 ? "404" : ("the handler of '" + key + "/' (registration " + std::to_string(got) + ")").c_str()); }
            if (got >= 0) {      // the handler is told where the request ended up, and where it was addressed to
                size_t ir = body.find(";r="), io = body.find(";o="); std::string rr = body.substr(ir + 3, io - ir - 3), oo = body.substr(io + 3); if (!oo.empty()) oo.resize(oo.size() - 1);
                CHECK(oo == w, "wrong-resource", "the handler was told that request '%s' was addressed to '%s'", w.c_str(), oo.c_str());
                CHECK(routable_any(w, got, s, e, which, &rr), "wrong-resource", "the handler of request '%s' was told that its resource is '%s', which no moment of its processing justifies", w.c_str(), rr.c_str());
            }
            ++*counter("evals"); if (got >= 0) SIM_PROBE("routed"); else SIM_PROBE("not-found");
            if (plan(4) == 3) sim::sleep(plan(400));
        }
        c.close();
    };
    for (int i = 0; i < nc; ++i) { int n = plan_range(3, 14); f.push_back(spawn("client", [&, i, n] { client(i, n); })); }
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 600 * SEC)) violation("stuck", "clients or reconfiguration did not finish");
    set_faults(false); client(90, 8);      // quiescent: exact answers
    bool sd = false; int sf = spawn("stopper", [&] { loud([&] { SRV->stop(false); delete SRV; SRV = 0; S->shutdown(); delete S; }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stop did not return"); join(sf);
}
}
void harness_run() { quiet_logging(); if (P("P14")) routing(); else serve(); }
