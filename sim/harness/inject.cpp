// P29: text that a client supplies cannot forge parts of a response (shipped services, error pages, authentication answers)
#include "httpx.hpp"
#include "core/fs.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <boost/filesystem/fstream.hpp>
#include "FileService.hpp"
#include "CookieService.hpp"
#include "EchoService.hpp"
#include "HelloService.hpp"
#include "AllowNothingService.hpp"
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/scheduler.hpp>
#include <algorithm>
#include <set>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr; using pion::http::request_ptr; using pion::http::response_writer; using pion::http::response_writer_ptr;

namespace {
pion::http::plugin_server *SRV; uint16_t g_port; int g_auth; bool g_writable, g_redirect; int g_id;
void boom(const request_ptr &r, const connection_ptr &) { throw std::runtime_error("cannot do " + r->get_resource() + " " + r->get_query("q")); }
/// an application that puts request text into headers
void mirror(const request_ptr &r, const connection_ptr &c) {
    response_writer_ptr w(response_writer::create(c, *r, boost::bind(&connection::finish, c)));
    w->get_response().add_header("X-Mirror", r->get_query("q")); if (r->has_query("loc")) w->get_response().change_header("Location", r->get_query("loc")); if (r->has_query("ck")) w->get_response().set_cookie("ck", r->get_query("ck"));
    if (r->has_query("type")) w->get_response().set_content_type(r->get_query("type")); w << "mirrored"; w->send();
}
std::string pct(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (isalnum(c) && plan(6)) o += (char)c; else { snprintf(b, sizeof b, plan(2) ? "%%%02X" : "%%%02x", c); o += b; } } return o; }
/// a nasty piece of text (decoded form); the markers are 'evil', '<scr' and 'onx'
std::string nasty() {
    static const char *const N[] = { "\r\nX-Evil: 1", "\nX-Evil: 2", "\r\n\r\nHTTP/1.1 200 OK\r\nX-Evil: 3\r\nContent-Length: 5\r\n\r\nevil!", "\rX-Evil: 4", "\r\nSet-Cookie: evil=1", "<script>evil</script>", "\"onx=evil ", "'onx=evil ", "\"><scr>", "\r\nContent-Length: 0\r\n\r\n", "\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "\r\n evil", "\n", "\r", "\r\n\r\n", "\xc3\xa9<script>", "\xc3<script>", "&lt;script&gt;", "plain", "a b", "\xff\xfe<scr" };
    return N[plan(21)];
}
std::string text() { std::string s; int n = plan_range(1, 3); for (int i = 0; i < n; ++i) s += plan(3) ? nasty() : "ok" + std::to_string(plan(100)); return s; }
struct Rq { std::string wire, what, method, res; bool head, close, odd, echo; std::vector<std::string> lines; int cookies; std::string id; };
std::string raw_ok(const std::string &s) { std::string o; for (char c : s) if (c > 0x20 && c < 0x7f) o += c; return o; }
Rq make() {
    Rq q; q.head = q.close = q.odd = q.echo = false; q.cookies = 0; q.id = std::to_string(++g_id); static const char *const M[] = { "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH" }; q.method = M[plan(8)];
    static const char *const B[] = { "/cookie", "/cookie", "/echo", "/echo", "/hello", "/none", "/files", "/files", "/boom", "/mirror", "/mirror", "/nope", "/secret", "/login", "/logout", "/login" }; q.res = B[plan(16)]; q.head = q.method == "HEAD";
    std::string path = q.res, query, body, hdr; bool plain_echo = q.res == "/echo" && plan(2);
    if (q.res == "/echo" && plain_echo) q.echo = true;
    if (!q.echo && plan(2)) { path += "/"; std::string t = text(); path += plan(3) ? pct(t) : raw_ok(t); for (auto &c : path) if (c == '?' || c == '#') c = '_'; }
    if (!q.echo && plan(6) == 5) { path += "/<script>evil"; }
    if (q.res == "/files" && plan(3) == 2) path = plan(2) ? "/files/%3Cscr%3E.html" : "/files/<scr>.html";
    std::vector<std::pair<std::string, std::string> > qs;
    if (q.res == "/cookie") { if (plan(4)) { int a = plan(3); qs.push_back(std::make_pair("action", a == 0 ? "Add Cookie" : a == 1 ? "delete" : text())); qs.push_back(std::make_pair("cookie_name", plan(2) ? text() : "n")); if (plan(4)) qs.push_back(std::make_pair("cookie_value", text())); } }
    else if (q.res == "/login" || q.res == "/logout") { if (plan(5)) { qs.push_back(std::make_pair("user", "joe")); qs.push_back(std::make_pair("pass", plan(4) ? "pw" : text())); } if (plan(4)) qs.push_back(std::make_pair("url", "/x" + text())); }
    else if (q.res == "/mirror") { qs.push_back(std::make_pair("q", text())); if (plan(3) == 0) qs.push_back(std::make_pair("loc", text())); if (plan(3) == 0) qs.push_back(std::make_pair("ck", text())); if (plan(4) == 0) qs.push_back(std::make_pair("type", text())); }
    else if (q.res == "/boom") qs.push_back(std::make_pair("q", text()));
    else if (q.echo) { int n = plan(4); for (int i = 0; i < n; ++i) qs.push_back(std::make_pair("k" + std::to_string(plan(3)), "v " + std::to_string(plan(100)) + "&=%+/")); }
    for (auto &p : qs) { if (!query.empty()) query += '&'; std::string v; for (unsigned char c : p.second) { char b[8]; if (c == ' ' && plan(2)) v += '+'; else if (isalnum(c) && plan(8)) v += (char)c; else { snprintf(b, sizeof b, "%%%02X", c); v += b; } } query += p.first + "=" + v; }
    bool form = !qs.empty() && !q.echo && q.method == "POST" && plan(2);
    if (form) { body = query; query.clear(); hdr += "Content-Type: application/x-www-form-urlencoded\r\n"; }
    else if (q.method[0] == 'P' && plan(3)) { body = q.echo ? filler((uint64_t)g_id, plan(3) ? plan(50) : plan(4000)) : text(); }
    std::string cookie; if (plan(3) == 0) { if (q.echo) cookie = "c1=x" + std::to_string(plan(9)) + "; c2=y"; else { cookie = "n" + raw_ok(text()) + "=" + raw_ok(text()) + "; <scr=\"onx"; } }
    if (!q.echo && plan(4) == 0) hdr += "X-Any: " + raw_ok(text()) + "\r\n"; if (!q.echo && plan(6) == 0) hdr += "Authorization: Basic " + raw_ok(text()) + "\r\n"; if (!q.echo && plan(8) == 0) hdr += "If-Modified-Since: " + raw_ok(text()) + "\r\n";
    q.close = plan(8) == 7; bool chunk = !body.empty() && plan(4) == 3;
    std::string target = path + (query.empty() ? "" : "?" + query); q.what = q.method + " " + target;
    q.wire = q.method + " " + target + " HTTP/1.1\r\nHost: sim\r\n" + hdr + (cookie.empty() ? "" : "Cookie: " + cookie + "\r\n") + (q.close ? "Connection: close\r\n" : "");
    if (chunk) { q.wire += "Transfer-Encoding: chunked\r\n\r\n"; size_t p = 0; while (p < body.size()) { size_t n = 1 + plan((uint32_t)std::min<size_t>(body.size() - p, 700)); char b[20]; snprintf(b, sizeof b, "%zx\r\n", n); q.wire += b + body.substr(p, n) + "\r\n"; p += n; } q.wire += "0\r\n\r\n"; }
    else { bool cl = !body.empty() || q.method == "POST" || q.method == "PUT"; if (cl) q.wire += "Content-Length: " + std::to_string(body.size()) + "\r\n"; q.wire += "\r\n" + body; }
    if (q.res == "/cookie" || q.res == "/login" || q.res == "/logout" || q.res == "/mirror") q.cookies = 1;
    if (q.echo) {
        auto &l = q.lines; l.push_back("[Request Echo]"); l.push_back(""); l.push_back("Request method: " + q.method); l.push_back("Resource originally requested: " + path); l.push_back("Resource delivered: " + path); l.push_back("Query string: " + query); l.push_back("HTTP version: 1.1");
        l.push_back("Content length: " + std::to_string(body.size())); l.push_back(""); l.push_back("[Request Headers]"); l.push_back("");
        std::vector<std::string> h; h.push_back("Host: sim"); if (!cookie.empty()) h.push_back("Cookie: " + cookie); if (q.close) h.push_back("Connection: close"); if (chunk) h.push_back("Transfer-Encoding: chunked"); else if (!body.empty() || q.method == "POST" || q.method == "PUT") h.push_back("Content-Length: " + std::to_string(body.size()));
        std::sort(h.begin(), h.end()); for (auto &x : h) l.push_back(x); l.push_back(""); l.push_back("[Query Parameters]"); l.push_back(""); std::vector<std::string> v; for (auto &p : qs) v.push_back(p.first + ": " + p.second); std::sort(v.begin(), v.end()); for (auto &x : v) l.push_back(x); l.push_back("");
        l.push_back("[Cookie Parameters]"); l.push_back(""); if (!cookie.empty()) { l.push_back("c1: " + cookie.substr(3, 2)); l.push_back("c2: y"); } l.push_back(""); l.push_back("[POST Content]"); l.push_back(""); if (!body.empty()) { l.push_back("\x01" + body); l.push_back(""); }
    }
    return q;
}
bool faulted(simnet::Client &c) { simnet::EndP p = c.end ? c.end->peer.lock() : simnet::EndP(); return p && p->tag == "accept-fault"; }
void check_echo(const Rq &q, const std::string &body) {
    // sections whose order of lines is open are compared as sets
    size_t p = 0; const std::vector<std::string> &l = q.lines; std::vector<std::string> got; size_t n = l.size(), i = 0;
    auto bad = [&](const char *w) { violation("echo-wrong", "the echo of '%s' is wrong (%s): '%s'", show(q.wire, 200).c_str(), w, show(body, 400).c_str()); };
    for (i = 0; i < n; ++i) {
        if (!l[i].empty() && l[i][0] == '\x01') { std::string b = l[i].substr(1); if (body.compare(p, b.size(), b) != 0) bad("content"); p += b.size(); if (body.compare(p, 2, "\r\n") != 0) bad("end of content"); p += 2; got.push_back(l[i]); continue; }
        size_t e = body.find("\r\n", p); if (e == std::string::npos) bad("too short"); got.push_back(body.substr(p, e - p)); p = e + 2;
    }
    if (p != body.size()) bad("too long");
    size_t a = 0; while (a < n) { size_t b = a; while (b < n && !got[b].empty()) ++b; std::sort(got.begin() + (long)a, got.begin() + (long)b); a = b + 1; }
    std::vector<std::string> w(l); a = 0; while (a < n) { size_t b = a; while (b < n && !w[b].empty()) ++b; std::sort(w.begin() + (long)a, w.begin() + (long)b); a = b + 1; }
    for (i = 0; i < n; ++i) if (got[i] != w[i]) violation("echo-wrong", "the echo of '%s' has '%s' instead of '%s'", show(q.wire, 200).c_str(), show(got[i]).c_str(), show(w[i]).c_str());
    SIM_PROBE("echo-exact");
}
void judge(const Rq &q, const Resp &a) {
    ++*counter("evals"); log("answer to #%s: %d, %zu bytes", q.id.c_str(), a.code, a.body.size()); const char *w = q.what.c_str();
    static const char *const OK[] = { "connection", "content-length", "content-type", "transfer-encoding", "location", "set-cookie", "allow", "last-modified", "www-authenticate", "cache-control", "date", "server", "expires", "pragma", "x-mirror", "etag", "vary" };
    for (auto &h : a.h) {
        bool ok = false; for (auto n : OK) if (h.first == n) ok = true; if (h.first == "x-mirror") ok = q.res == "/mirror";
        if (!ok) violation("header-forged", "the response to '%s' has a header '%s: %s'", w, show(h.first).c_str(), show(h.second).c_str());
        if (h.second.find_first_of("\r\n") != std::string::npos) violation("header-forged", "header %s of the response to '%s' holds a line break: '%s'", h.first.c_str(), w, show(h.second).c_str());
    }
    CHECK(a.count("set-cookie") <= q.cookies, "header-forged", "the response to '%s' sets %d cookies", w, a.count("set-cookie"));
    CHECK(a.count("location") <= 1 && a.count("content-type") <= 1, "header-forged", "the response to '%s' has repeated headers", w);
    if (a.first.find("evil") != std::string::npos || a.first.find_first_of("\r\n") != std::string::npos) violation("status-forged", "status line '%s'", show(a.first).c_str());
    const std::string *ct = a.get("content-type"); bool html = !ct || ct->compare(0, 9, "text/html") == 0; static const char *const X[] = { "<scr", "\"onx", "'onx" };
    if (html && q.res != "/mirror" && !(a.code == 200 && q.res == "/files")) for (auto x : X) { size_t p = a.body.find(x); if (p != std::string::npos) violation("text-unescaped", "the HTML response (%d) to '%s' holds its text unescaped: '%s'", a.code, w, show(a.body.substr(p > 20 ? p - 20 : 0, 60)).c_str()); }
    if (q.echo && a.code == 200 && !q.head) check_echo(q, a.body);
    if (q.echo) CHECK(a.code == 200, "wrong-status", "'%s' was answered with %d", w, a.code);
    if (q.res == "/hello" && q.what.find('/', q.method.size() + 2) == std::string::npos) CHECK(a.code == 200 && (q.head || a.body == "<html><body>Hello World!</body></html>\r\n\r\n"), "wrong-status", "'%s' was answered with %d", w, a.code);
    if (q.res == "/none") CHECK(a.code == 405 && a.get("allow"), "wrong-status", "'%s' was answered with %d", w, a.code);
    if (a.code == 302) SIM_PROBE("redirected"); if (a.count("set-cookie")) SIM_PROBE("cookie-set"); if (a.code >= 400) SIM_PROBE("error-page");
}
void client(int n, uint64_t pause) {
    simnet::Client c;
    while (n > 0) {
        if (pause) sim::sleep(plan((uint32_t)pause)); int burst = plan(3) ? 1 : plan_range(2, 4); std::vector<Rq> v; for (int i = 0; i < burst && n > 0; ++i, --n) { v.push_back(make()); if (v.back().close) { --n; break; } }
        bool fresh = !c.end || c.eof || c.rst; if (fresh) { int t = 0; do { c.close(); c = simnet::Client(); if (++t > 40) violation("not-serving", "cannot connect"); } while (!c.connect(g_port) && (sim::sleep(1000 + plan(50000)), true)); }
        std::string all; for (auto &q : v) { all += q.wire; log("send #%s '%s'", q.id.c_str(), show(q.wire, 200).c_str()); }
        size_t pos = c.in.size(); int style = plan(3); simnet::Client *cp = &c; std::shared_ptr<bool> stop = std::make_shared<bool>(false);
        int snd = spawn("sender", [=] { size_t o = 0; while (o < all.size() && !*stop) { size_t k = style == 0 ? all.size() : style == 1 ? 1 + plan(30) : 1 + plan(300); if (!cp->send(all.substr(o, k), 60 * SEC)) break; o += k; if (plan(5) == 4) sim::sleep(plan(3000)); } });
        struct Leave { std::shared_ptr<bool> s; int f; void operator()() { *s = true; if (f >= 0) join(f); f = -1; } } leave = { stop, snd };
        for (size_t i = 0; i < v.size(); ++i) {
            Resp a; int st = 0; uint64_t dl = sim::now() + 100 * SEC; std::string why; for (;;) { st = c.in.size() > pos ? parse_resp(c.in, pos, v[i].head, c.eof, a, &why) : 0; if (st || c.eof || c.rst || sim::now() >= dl) break; c.timed_out = false; c.recv_some(dl - sim::now()); }
            if (st < 0) violation("response-broken", "the response to '%s' cannot be parsed: %s; '%s'", v[i].what.c_str(), why.c_str(), show(c.in.substr(pos), 300).c_str());
            if (st == 0) { if (faulted(c) && (c.eof || c.rst)) { leave(); c.close(); c = simnet::Client(); break; } violation("no-answer", "'%s' gets no answer (%s)", show(v[i].what, 200).c_str(), c.eof ? "closed" : c.rst ? "reset" : "nothing"); }
            judge(v[i], a); pos = a.end;
            if (a.close || v[i].close) { if (a.close && !v[i].close && a.code != 400) violation("closed-early", "the server closes after '%s'", v[i].what.c_str()); c.recv_eof(60 * SEC); if (c.in.size() > pos && (v[i].close || a.code == 400)) violation("extra-bytes", "%zu bytes follow the last response: '%s'", c.in.size() - pos, show(c.in.substr(pos)).c_str()); leave(); c.close(); c = simnet::Client(); break; }
        }
        leave();
        if (c.end && !c.eof && !c.rst) { if (plan(3) == 0) { c.recv_some(5000); } if (c.in.size() > pos) violation("extra-bytes", "%zu bytes follow the last response: '%s'", c.in.size() - pos, show(c.in.substr(pos)).c_str()); if (plan(6) == 5) { c.close(); c = simnet::Client(); } }
    }
    c.close();
}
}
void harness_run() {
    quiet_logging(); simnet::random_config(); simnet::cfg.delay_max = plan(3) ? 100 : 3000; simnet::cfg.stall_num = 0; if (simnet::cfg.capacity < 2048) simnet::cfg.capacity = 2048; if (params.stall_us > 300000) params.stall_us = 300000;
    simfs::enable("/srv"); simfs::mkdirs("/srv/www"); simfs::put("/srv/www/a.txt", "content"); simfs::put("/srv/www/<scr>.html", "x"); g_id = 0; g_auth = plan(3); g_writable = plan(2); g_redirect = plan(3) == 2;
    pion::single_service_scheduler *S = 0; int nt = plan_range(1, 4); pion::http::auth_ptr *A = 0;
    loud([&] {
        S = new pion::single_service_scheduler(); S->set_num_threads(nt); SRV = new pion::http::plugin_server(*S, 0);
        SRV->add_service("/cookie", new pion::plugins::CookieService()); SRV->add_service("/echo", new pion::plugins::EchoService()); SRV->add_service("/hello", new pion::plugins::HelloService()); SRV->add_service("/none", new pion::plugins::AllowNothingService());
        SRV->add_service("/files", new pion::plugins::FileService()); SRV->set_service_option("/files", "directory", "/srv/www"); if (g_writable) SRV->set_service_option("/files", "writable", "true");
        SRV->add_resource("/boom", boom); SRV->add_resource("/mirror", mirror);
        if (g_auth) { pion::user_manager_ptr um(new pion::user_manager()); A = new pion::http::auth_ptr(); if (g_auth == 1) A->reset(new pion::http::basic_auth(um)); else A->reset(new pion::http::cookie_auth(um, "/login", "/logout", g_redirect ? "/hello" : "")); (*A)->add_user("joe", "pw"); (*A)->add_restrict("/secret"); SRV->set_authentication(*A); }
    });
    if (plan(3) == 2) { simfs::cfg.unlink_err = 300; simfs::cfg.open_err = 100; simfs::cfg.read_err = 50; simfs::cfg.write_err = 100; }
    loud([&] { for (int i = 0;; ++i) { try { SRV->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); if (i == 12) violation("start", "cannot start"); } } });
    set_faults(true); g_port = (uint16_t)SRV->get_port(); int nc = plan_range(1, 3), n = plan_range(2, 14); uint64_t pause = plan(2) ? 0 : 5000; std::vector<int> f; for (int i = 0; i < nc; ++i) f.push_back(spawn("client", [=] { client(n, pause); }));
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 20000 * SEC)) violation("stuck", "clients did not finish");
    set_faults(false); bool sd = false; int sf = spawn("stopper", [&] { loud([&] { delete SRV; SRV = 0; S->shutdown(); delete S; delete A; }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stop did not return"); join(sf);
}
