// P15 / P16 / P17: access control of the HTTP server (basic and cookie authentication)
#include "httpx.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/http/server.hpp>
#include <pion/scheduler.hpp>
#include <set>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr; using pion::http::request_ptr; using pion::http::response_writer; using pion::http::response_writer_ptr;

namespace {
bool P(const char *id) { return std::string(property()) == id; }
typedef unsigned long long ull;
const uint64_t INF = ~0ull; const int64_t S64 = 1000000;
const int64_t BASIC_DEAD = 603 * S64, SESS_ALIVE = 3598 * S64, SESS_DEAD = 7203 * S64;   // lifetimes: 300 s resp. 3600 s, doubled, plus rounding
pion::http::server *SRV; pion::http::auth *AUTH; uint16_t g_port; bool g_cookie; std::string g_redirect, g_realm; uint64_t g_seq; int64_t g_maxwall;
int64_t maxwall() { g_maxwall = std::max(g_maxwall, sim::wall()); return g_maxwall; }
bool seg_prefix(const std::string &k, const std::string &r) { return r.compare(0, k.size(), k) == 0 && (r.size() == k.size() || r[k.size()] == '/'); }
std::string strip(std::string s) { if (!s.empty() && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }

// ---------------------------------------------------------------- model: users over time (one administrator per user name)
struct State { bool present; std::string pass; uint64_t b, e; int64_t end_max; uint64_t nb, ne; };     // holds possibly from b, certainly from e, certainly until nb, possibly until ne
std::map<std::string, std::vector<State> > *USERS; std::string *g_pw_hint;
void init_user(const std::string &u, bool present, const std::string &p) { State s = { present, p, 0, 0, INT64_MAX, INF, INF }; (*USERS)[u].push_back(s); }
bool overlap(const State &s, uint64_t a, uint64_t b) { return s.b <= b && s.ne >= a; }
bool possible(const std::string &u, const std::string &p, uint64_t a, uint64_t b) { auto i = USERS->find(u); if (i == USERS->end()) return false; for (auto &s : i->second) if (s.present && s.pass == p && overlap(s, a, b)) return true; return false; }
bool certain(const std::string &u, const std::string &p, uint64_t a, uint64_t b) { auto i = USERS->find(u); if (i == USERS->end()) return false; for (auto &s : i->second) if (overlap(s, a, b) && !(s.present && s.pass == p)) return false; return true; }
bool some_user_throughout(uint64_t a, uint64_t b) { for (auto &u : *USERS) { bool ok = true; for (auto &s : u.second) if (overlap(s, a, b) && !s.present) ok = false; if (ok) return true; } return false; }
bool no_user_throughout(uint64_t a, uint64_t b) { for (auto &u : *USERS) for (auto &s : u.second) if (overlap(s, a, b) && s.present) return false; return true; }
void change_user(const std::string &u, int what, const std::string &p) {     // 0 add, 1 update, 2 remove
    auto &v = (*USERS)[u]; State &cur = v.back(); bool expect = what == 0 ? !cur.present : cur.present;
    uint64_t b = ++g_seq; size_t i = v.size() - 1;
    if (expect) { v[i].nb = b; State s = { what != 2, what == 2 ? "" : p, b, INF, INT64_MAX, INF, INF }; v.push_back(s); }
    log("user %s: %s '%s'", u.c_str(), what == 0 ? "add" : what == 1 ? "update" : "remove", show(p).c_str());
    bool r = loud([&] { return what == 0 ? AUTH->add_user(u, p) : what == 1 ? AUTH->update_user(u, p) : AUTH->remove_user(u); });
    uint64_t e = ++g_seq; CHECK(r == expect, "user-change", "changing user %s (%d) returned %d", u.c_str(), what, (int)r); log("user %s: done", u.c_str());
    if (expect) { auto &w = (*USERS)[u]; w[i].ne = e; w[i].end_max = maxwall(); w[i + 1].e = e; SIM_PROBE("user-changed"); }
}
// ---------------------------------------------------------------- model: restrictions (only ever added)
struct Entry { std::string path; uint64_t b, e; bool permit; };
std::vector<Entry> *ENT; std::map<std::string, std::string> *REDIR;
void add_entry(const std::string &p, bool permit) { size_t i = ENT->size(); Entry n = { p, ++g_seq, INF, permit }; ENT->push_back(n); std::string w = p + (plan(3) == 2 ? "/" : ""); log("%s %s", permit ? "permit" : "restrict", w.c_str()); loud([&] { if (permit) AUTH->add_permit(w); else AUTH->add_restrict(w); }); (*ENT)[i].e = ++g_seq; }
bool must_auth(const std::string &r, uint64_t a, uint64_t b) {
    if (!some_user_throughout(a, b)) return false;
    if (g_cookie && !g_redirect.empty() && r == g_redirect) return false;
    bool restr = false; for (auto &x : *ENT) if (seg_prefix(x.path, r)) { if (x.permit && x.b <= b) return false; if (!x.permit && x.e <= a) restr = true; }
    return restr;
}
bool must_skip(const std::string &r, uint64_t a, uint64_t b) {
    if (no_user_throughout(a, b)) return true;
    if (g_cookie && !g_redirect.empty() && r == g_redirect) return true;
    bool restr = false; for (auto &x : *ENT) if (seg_prefix(x.path, r)) { if (x.permit && x.e <= a) return true; if (!x.permit && x.b <= b) restr = true; }
    return !restr;
}
std::string resolve(std::string r) { r = strip(r); for (int i = 0; i < 10; ++i) { auto it = REDIR->find(r); if (it == REDIR->end()) break; r = it->second; } return r; }

// ---------------------------------------------------------------- requests
enum Kind { PAGE, LOGIN, LOGOUT };
struct Rq { std::string id, wire, res, user, pass, cookie, url; Kind kind = PAGE; bool creds = false, canonical = false, head = false; uint64_t s = 0, e = INF; int64_t ws = 0, minw = 0, endw = INT64_MAX; bool done = false, refused = false, lost = false; int ran = 0; std::string seen; bool unissued = false; std::string url_raw; };
typedef std::shared_ptr<Rq> RqP;
std::vector<RqP> *RQ; std::map<std::string, RqP> *BYID;
struct Sess { std::string cookie, user; RqP login; };
std::map<std::string, Sess> *SESS;
void jump(int64_t d) { maxwall(); sim::wall_jump(d); maxwall(); int64_t w = sim::wall(); for (auto &q : *RQ) if (q->s && !q->done) q->minw = std::min(q->minw, w); SIM_COUNT("fault.clock-jump"); log("clock jumps by %lld s", (long long)(d / S64)); }

bool cached_possible(const Rq &q, uint64_t now) {
    for (auto &x : *RQ) {
        if (x->kind != PAGE || x.get() == &q || !x->creds || x->user != q.user || x->pass != q.pass || !x->s || x->s >= now || (x->done && x->refused)) continue;
        uint64_t xe = x->done && !x->lost ? x->e : now; int64_t xw = x->done && !x->lost ? x->endw : maxwall();
        auto i = USERS->find(q.user); if (i == USERS->end()) continue;
        for (auto &s : i->second) if (s.present && s.pass == q.pass && overlap(s, x->s, xe)) { int64_t m = std::min(xw, s.end_max); if (m == INT64_MAX || m + BASIC_DEAD >= q.minw) return true; }
    }
    return false;
}
/// may the request act as user `u` at this moment?
bool legit(const Rq &q, const std::string &u, uint64_t now, std::string &why) {
    if (!g_cookie) {
        if (!q.creds) { why = "it carries no usable credentials"; return false; }
        if (u != q.user) { why = "its credentials are those of " + q.user; return false; }
        if (possible(u, q.pass, q.s, now) || cached_possible(q, now)) return true;
        why = "its credentials were not valid at any moment since it was sent, nor can they be cached any longer"; return false;
    }
    auto i = SESS->find(q.cookie);
    if (i == SESS->end()) { why = "its session cookie '" + show(q.cookie) + "' was never issued"; return false; }
    if (i->second.user != u) { why = "its session belongs to " + i->second.user; return false; }
    int64_t last = i->second.login->endw;
    for (auto &x : *RQ) {
        if (x->cookie != q.cookie || !x->s || x.get() == &q) continue;
        if (x->kind == LOGOUT && x->done && !x->lost && x->e < q.s) { why = "its session was logged out"; return false; }
        if (x->kind == PAGE && x->done && x->refused && x->e < q.s) { why = "its session was refused earlier"; return false; }
        if (x->kind == PAGE && !(x->done && x->refused)) last = std::max(last, x->done && !x->lost ? x->endw : maxwall());
    }
    if (last + SESS_DEAD < q.minw) { why = "its session was idle for " + std::to_string((q.minw - last) / S64) + " s"; return false; }
    return true;
}
bool must_accept(const Rq &q, uint64_t now, std::string &why) {
    if (!g_cookie) { why = "its credentials are valid"; return q.canonical && certain(q.user, q.pass, q.s, now); }
    auto i = SESS->find(q.cookie); if (i == SESS->end()) return false;
    int64_t best = INT64_MIN;
    for (auto &x : *RQ) {
        if (x->kind == LOGOUT && x->cookie == q.cookie && x->s && x->s < now) return false;
        bool use = x == i->second.login || (x->kind == PAGE && x->cookie == q.cookie && x->ran && !x->seen.empty());
        if (!use || !x->done || x->lost || x->e >= q.s) continue;
        int64_t m = x->minw;        // (a later use with an earlier clock reading takes over)
        for (auto &y : *RQ) if (y->kind == PAGE && y->cookie == q.cookie && y->s && y.get() != &q && !(y->done && y->refused) && (!y->done || y->lost || y->e > x->s)) m = std::min(m, y->minw);
        best = std::max(best, m);
    }
    why = "its session was issued and used in time"; return best != INT64_MIN && maxwall() - best < SESS_ALIVE;
}
void handler(const request_ptr &r, const connection_ptr &c) {
    pion::user_ptr u = r->get_user(); std::string name = u ? u->get_username() : std::string(), body;
    {
        Quiet q; std::string id = r->get_header("X-Id"); auto i = BYID->find(id); if (i == BYID->end()) violation("alien-request", "the handler got a request with id '%s'", id.c_str());
        Rq &k = *i->second; ++k.ran; k.seen = name; uint64_t now = ++g_seq; log("handler for %s as '%s'", id.c_str(), name.c_str()); std::string why;
        if (k.kind != PAGE) violation("login-handled", "a login or logout request reached a request handler");
        if (name.empty()) { if (must_auth(k.res, k.s, now)) violation("unprotected", "the handler of the protected resource '%s' ran for request %s without any authenticated user; %s", k.res.c_str(), id.c_str(), legit(k, k.user, now, why) ? "it has credentials" : why.c_str()); SIM_PROBE("served-open"); }
        else { if (!legit(k, name, now, why)) violation("bad-login", "request %s for '%s' was served as user '%s' although %s", id.c_str(), k.res.c_str(), name.c_str(), why.c_str()); SIM_PROBE("served-protected"); if (!g_cookie && !possible(name, k.pass, k.s, now)) SIM_PROBE("served-from-cache-only"); }
        body = "U=" + name + ";R=" + r->get_resource() + ";I=" + id;
    }
    response_writer_ptr w(response_writer::create(c, *r, boost::bind(&connection::finish, c))); w << body; w->send();
}
std::string b64(const std::string &s, bool pad = true) {
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0); o += A[v >> 18]; o += A[(v >> 12) & 63]; if (i + 1 < s.size()) o += A[(v >> 6) & 63]; else if (pad) o += '='; if (i + 2 < s.size()) o += A[v & 63]; else if (pad) o += '='; }
    return o;
}
bool unb64(const std::string &s, std::string &o) {     // lenient: ends at the first '='
    static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; unsigned v = 0; int n = 0; o.clear();
    for (char c : s) { if (c == '=') break; size_t k = A.find(c); if (k == std::string::npos) return false; v = v << 6 | (unsigned)k; n += 6; if (n >= 8) { n -= 8; o += (char)(v >> n); } }
    return true;
}
std::string pct(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) if (isalnum(c) || c == '-' || c == '.') o += (char)c; else if (c == ' ' && plan(2)) o += '+'; else { snprintf(b, sizeof b, "%%%02X", c); o += b; } return o; }

std::vector<std::string> *NAMES, *PWS;
std::string rpath() {
    static const char *const R[] = { "/sec", "/sec/x", "/open", "/sec/pub", "/sec/pub/y", "/secret2", "/sec/pubx", "/se", "/a", "/a/b", "/a/bc", "/a/b/c/d", "/dyn0", "/dyn0/free", "/dyn1/x", "/dyn1/free/z", "/", "/go", "/g2", "/old-sec", "/sec//x", "//sec", "/Sec", "/a/b/../../sec", "/loginpage", "/loginpage/x", "/loginpagex", "/login2/sec" };
    std::string p = R[plan(P("P15") ? 28 : 2)];
    if (plan(6) == 5 && p != "/" && p != "/loginpage") p += "/"; if (plan(6) == 5) p += p[p.size() - 1] == '/' ? "k" : "/k";
    return p;
}
std::pair<std::string, std::string> pick_creds() {
    std::string u = (*NAMES)[plan((uint32_t)NAMES->size())], p; auto &v = (*USERS)[u];
    const State *s = &v.back(); if (plan(3) == 2) s = &v[plan((uint32_t)v.size())];
    p = s->present ? s->pass : (*PWS)[plan((uint32_t)PWS->size())];
    if (plan(8) == 7) p = (*PWS)[plan((uint32_t)PWS->size())];
    return std::make_pair(u, p);
}
uint64_t g_idn;
RqP new_rq() { RqP q = std::make_shared<Rq>(); q->id = "q" + std::to_string(g_idn++); RQ->push_back(q); (*BYID)[q->id] = q; return q; }
void auth_headers(Rq &q, std::string &h, const std::pair<std::string, std::string> *fixed) {
    if (!g_cookie) {
        if (!fixed && plan(6) == 5) return;
        std::pair<std::string, std::string> c = fixed ? *fixed : pick_creds(); std::string raw = c.first + ":" + c.second, e = b64(raw), scheme = "Basic "; q.canonical = true;
        if (!fixed && plan(5) == 4) switch (plan(9)) {
            case 0: e = b64(c.first); q.canonical = false; break;
            case 1: e = b64(raw, false); q.canonical = false; break;
            case 2: for (int i = 0, n = plan_range(1, 3); i < n && !e.empty(); ++i) { char ch = (char)(plan(2) ? 128 + plan(128) : 33 + plan(94)); e[plan((uint32_t)e.size())] = ch; } q.canonical = false; break;
            case 3: e.resize(plan((uint32_t)e.size() + 1)); q.canonical = false; break;
            case 4: e = "===="; q.canonical = false; break;
            case 5: scheme = plan(2) ? "basic " : "Bearer "; q.canonical = false; break;
            case 6: e = raw; q.canonical = false; break;
            case 7: e += e; q.canonical = false; break;
            default: e = b64(":" + c.second); q.canonical = false; break;
        }
        h += "Authorization: " + scheme + e + "\r\n";
        std::string d; size_t k; if (unb64(e, d) && (k = d.find(':')) != std::string::npos && k) { q.creds = true; q.user = d.substr(0, k); q.pass = d.substr(k + 1); if (!q.canonical) SIM_PROBE("odd-credentials"); }
        return;
    }
}
void cookie_header(Rq &q, std::string &h, std::string cookie) {
    if (cookie.empty()) return;
    q.cookie = cookie; int k = plan(4);
    if (k == 3) h += "Cookie: other=1; pion_session_id=\"" + cookie + "\"\r\n"; else h += "Cookie: pion_session_id=\"" + cookie + "\"" + (k == 2 ? "; theme=\"dark\"" : "") + "\r\n";
}
std::string pick_cookie() {
    if (SESS->empty() || plan(8) == 7) return plan(2) ? "" : b64(filler(plan(100000), 20));
    auto i = std::next(SESS->begin(), plan((uint32_t)SESS->size())); std::string c = i->first;
    if (plan(7) == 6) { switch (plan(4)) { case 0: c[plan((uint32_t)c.size())] = "Ab0+"[plan(4)]; break; case 1: c.resize(plan((uint32_t)c.size())); break; case 2: c += "A"; break; default: c = lower(c); } }
    return c;
}
RqP page(const std::pair<std::string, std::string> *fixed = 0, const std::string *cookie = 0) {
    RqP q = new_rq(); std::string p = fixed || cookie ? "/sec/x" : rpath(), h; q->res = resolve(p); static const char *const M[] = { "GET", "POST", "HEAD", "PUT" }; std::string m = M[plan(3) ? 0 : plan(4)]; q->head = m == "HEAD";
    auth_headers(*q, h, fixed); if (g_cookie) cookie_header(*q, h, cookie ? *cookie : pick_cookie());
    std::string body; if (m == "POST" || m == "PUT") body = filler(g_idn, plan(200));
    q->wire = m + " " + p + (plan(4) == 3 ? "?a=1&user=root&pass=x" : "") + " HTTP/1.1\r\nHost: sim\r\nX-Id: " + q->id + "\r\n" + h + (body.empty() ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body;
    return q;
}
RqP login(const std::pair<std::string, std::string> *fixed = 0) {
    RqP q = new_rq(); q->kind = LOGIN; std::pair<std::string, std::string> c = fixed ? *fixed : pick_creds(); q->user = c.first; q->pass = c.second; q->creds = true;
    std::string qs = "user=" + pct(c.first) + "&pass=" + pct(c.second); if (plan(4) == 3) { q->url = "/welcome?a=" + std::to_string(plan(9)); qs += "&url=" + pct(q->url); }
    std::string old; { Rq dummy; if (plan(3) == 2) cookie_header(dummy, old, pick_cookie()); }     // (a browser still sends the cookie it has)
    std::string body, m = "GET"; if (plan(5) == 4) { m = "POST"; body = qs; }
    q->wire = m + " /login" + (plan(5) == 4 ? "/" : "") + (body.empty() ? "?" + qs : "") + " HTTP/1.1\r\nHost: sim\r\nX-Id: " + q->id + "\r\n" + old + (body.empty() ? "" : "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body;
    return q;
}
RqP logout(const std::string &cookie) {
    RqP q = new_rq(); q->kind = LOGOUT; std::string h; cookie_header(*q, h, cookie); if (plan(5) == 4) q->url = "/bye";
    q->wire = std::string("GET /logout") + (q->url.empty() ? "" : "?url=" + pct(q->url)) + " HTTP/1.1\r\nHost: sim\r\nX-Id: " + q->id + "\r\n" + h + "\r\n"; return q;
}
bool faulted(simnet::Client &c) { simnet::EndP p = c.end ? c.end->peer.lock() : simnet::EndP(); return p && p->tag == "accept-fault"; }
std::string session_of(const Resp &a) { const std::string *s = a.get("set-cookie"); if (!s || s->compare(0, 17, "pion_session_id=\"") != 0) return ""; size_t e = s->find('"', 17); return e == std::string::npos ? "" : s->substr(17, e - 17); }
void judge(RqP q, const Resp &a) {
    q->e = ++g_seq; q->endw = maxwall(); q->done = true; std::string why; ++*counter("evals");
    bool unauth = a.code == 401 || (g_cookie && !g_redirect.empty() && q->kind != LOGOUT && a.code == 302 && a.get("location") && *a.get("location") == g_redirect);
    log("answer to %s: %d%s", q->id.c_str(), a.code, unauth ? " (refused)" : "");
    if (unauth && !g_redirect.empty() && g_cookie) CHECK(a.code == 302, "refusal-form", "request %s was refused with 401 instead of being sent to the login page", q->id.c_str());
    if (unauth && !g_cookie) { const std::string *w = a.get("www-authenticate"); CHECK(w && *w == "Basic realm=\"" + g_realm + "\"", "refusal-form", "refusal of %s has no proper WWW-Authenticate header", q->id.c_str()); }
    if (unauth && a.get("set-cookie")) violation("refusal-form", "a refused request was given a cookie");
    if (q->kind == PAGE) {
        q->refused = unauth;
        if (unauth) {
            if (q->ran) violation("refused-but-served", "request %s for '%s' was refused but its handler ran", q->id.c_str(), q->res.c_str());
            if (must_skip(q->res, q->s, q->e)) violation("open-refused", "request %s for '%s', which needs no authentication, was refused", q->id.c_str(), q->res.c_str());
            if (must_accept(*q, q->e, why)) violation("valid-refused", "request %s for '%s' (user '%s') was refused although %s", q->id.c_str(), q->res.c_str(), q->user.c_str(), why.c_str());
            SIM_PROBE("refused");
        } else {
            CHECK(a.code == 200, "wrong-status", "request %s was answered with %d", q->id.c_str(), a.code); CHECK(q->ran == 1, "handler-count", "the handler of %s ran %d times", q->id.c_str(), q->ran);
            if (!q->head && a.body.compare(0, q->seen.size() + 3, "U=" + q->seen + ";") != 0) violation("wrong-response", "request %s got '%s'", q->id.c_str(), show(a.body).c_str());
        }
    } else if (q->kind == LOGIN) {
        if (unauth) { q->refused = true; if (certain(q->user, q->pass, q->s, q->e)) violation("login-refused", "login %s of '%s' was refused although the password is right", q->id.c_str(), q->user.c_str()); SIM_PROBE("login-refused"); return; }
        if (!possible(q->user, q->pass, q->s, q->e)) violation("login-accepted", "login %s of '%s' with password '%s' was accepted (%d)", q->id.c_str(), q->user.c_str(), show(q->pass).c_str(), a.code);
        CHECK(a.code == (q->url.empty() ? 204 : 302), "wrong-status", "login answered with %d", a.code); if (!q->url.empty()) CHECK(a.get("location") && *a.get("location") == q->url, "wrong-redirect", "login redirects to '%s' instead of '%s'", a.get("location") ? a.get("location")->c_str() : "(none)", q->url.c_str());
        std::string c = session_of(a); CHECK(c.size() >= 16, "no-session", "a successful login was given no session (Set-Cookie '%s')", a.get("set-cookie") ? a.get("set-cookie")->c_str() : "(none)");
        CHECK(!SESS->count(c), "session-not-unique", "logins %s of '%s' and %s of '%s' were given the same session", (*SESS)[c].login ? (*SESS)[c].login->id.c_str() : "?", (*SESS)[c].user.c_str(), q->id.c_str(), q->user.c_str());
        Sess s; s.cookie = c; s.user = q->user; s.login = q; (*SESS)[c] = s; q->cookie = c; SIM_PROBE("login");
    } else {
        CHECK(a.code == (q->url.empty() ? 204 : 302), "wrong-status", "logout answered with %d", a.code); CHECK(a.get("set-cookie") && session_of(a).empty(), "logout-form", "logout does not delete the cookie"); SIM_PROBE("logout");
    }
}
/// sends the requests (at once or one by one) over one connection
void exchange(simnet::Client &c, std::vector<RqP> v, bool pipelined) {
    for (int tries = 0; !c.end || c.eof || c.rst; ++tries) { c.close(); c = simnet::Client(); if (c.connect(g_port)) break; if (tries > 20) violation("not-serving", "cannot connect"); sim::sleep(1000 + plan(50000)); }
    size_t pos = c.in.size(); std::string all; bool lost = false;
    auto begin = [&](RqP q) { q->s = ++g_seq; q->ws = q->minw = sim::wall(); maxwall(); log("send %s: '%s'", q->id.c_str(), show(q->wire, 160).c_str()); };
    if (pipelined) { for (auto &q : v) { begin(q); all += q->wire; } c.send(all, 60 * SEC); }
    for (auto &q : v) {
        if (!pipelined && !lost) { begin(q); c.send(q->wire, 60 * SEC); }
        Resp a; int st = 0; uint64_t dl = sim::now() + 60 * SEC;
        while (!lost) { st = c.in.size() > pos ? parse_resp(c.in, pos, q->head, c.eof, a) : 0; if (st || c.eof || c.rst || sim::now() >= dl) break; c.timed_out = false; c.recv_some(dl - sim::now()); }
        if (st != 1) { lost = true; if (!q->s) continue; q->done = q->lost = true; q->e = ++g_seq; q->endw = maxwall(); if (faulted(c)) continue; violation("response-missing", "request %s got no response", q->id.c_str()); }
        pos = a.end; judge(q, a);
    }
}
std::vector<int> *FIB; bool g_jumps; bool over() { for (int x : *FIB) if (!done(x)) return false; return true; }
std::string new_pw() { if (plan(3) == 2) return (*PWS)[plan((uint32_t)PWS->size())]; std::string p = "pw" + std::to_string(g_idn++); if (plan(2)) PWS->push_back(p); return p; }
void admin(std::string u, int n, uint64_t pause) {
    for (int i = 0; i < n; ++i) {
        if (pause) sim::sleep(plan((uint32_t)std::min<uint64_t>(pause, 4000000000u)));
        auto &v = (*USERS)[u]; bool pr = v.back().present; int k = plan(8);
        change_user(u, k == 7 ? plan(3) : pr ? (k < 4 ? 1 : 2) : 0, new_pw());
    }
}
/// in some runs everybody acts at the same moments
bool g_aligned; void rest(uint64_t d, uint64_t pause) { if (g_aligned && d > SEC) { uint64_t t = (sim::now() / pause + 1) * pause; d = t - sim::now(); } sim::sleep(d); }
void client(int n, uint64_t pause) {
    simnet::Client c; uint64_t key = plan(1000); (void)key;
    std::string mine;       // a session of its own
    for (int i = 0; i < n;) {
        std::vector<RqP> v; int k = plan(3) ? 1 : plan_range(1, 3); bool pipe = plan(3) == 2;
        if (k > 1 || plan(2)) { for (int j = 0; j < k; ++j) v.push_back(g_cookie && plan(3) == 2 ? login() : g_cookie && plan(9) == 8 ? logout(pick_cookie()) : page()); }
        else if (!g_cookie) v.push_back(page());
        else if (mine.empty() || plan(12) == 11) v.push_back(login());
        else if (plan(15) == 14) { v.push_back(logout(mine)); mine.clear(); }
        else v.push_back(page(0, &mine));
        i += (int)v.size(); exchange(c, v, pipe);
        for (auto &q : v) if (q->kind == LOGIN && !q->refused && !q->cookie.empty() && plan(2)) mine = q->cookie;
        if (plan(3)) { uint64_t d = pause ? plan((uint32_t)pause) : 0; if (d > 5 * SEC || (g_aligned && d > SEC) || plan(3) == 2) { c.close(); c = simnet::Client(); } if (d) rest(d, pause); }
    }
    c.close();
}
/// keeps using the same credentials (or session) whatever happens to them
void stubborn(int n, uint64_t pause) {
    simnet::Client c; std::pair<std::string, std::string> cr = pick_creds(); std::string ck;
    for (int i = 0; i < n; ++i) {
        std::vector<RqP> v;
        if (!g_cookie) v.push_back(page(&cr)); else if (ck.empty()) v.push_back(login(&cr)); else v.push_back(page(0, &ck));
        exchange(c, v, false); if (g_cookie && ck.empty() && !v[0]->refused) ck = v[0]->cookie;
        c.close(); c = simnet::Client(); rest(plan(3) ? pause / 2 + plan((uint32_t)pause / 2) : plan((uint32_t)pause), pause);
    }
}
}
void harness_run() {
    quiet_logging(); simnet::random_config(); simnet::cfg.delay_max = plan(3) ? 100 : 3000; simnet::cfg.stall_num = 0; if (simnet::cfg.capacity < 2048) simnet::cfg.capacity = 2048; if (params.stall_us > 300000) params.stall_us = 300000;
    USERS = new std::map<std::string, std::vector<State> >(); ENT = new std::vector<Entry>(); REDIR = new std::map<std::string, std::string>(); RQ = new std::vector<RqP>(); BYID = new std::map<std::string, RqP>(); SESS = new std::map<std::string, Sess>(); FIB = new std::vector<int>(); g_seq = 1; g_idn = 0; g_maxwall = 0; maxwall();
    NAMES = new std::vector<std::string>(); PWS = new std::vector<std::string>(); static const char *const N[] = { "ann", "bob", "an", "c:d", "Ann", "bob " }; static const char *const W[] = { "secret", "", "p:q", "Secret", "p&= %+", "secret " };
    bool long_run = !P("P15"); g_cookie = P("P17") || (P("P15") && plan(2)); g_jumps = long_run && plan(3) == 2; g_aligned = long_run && plan(3) == 2;
    for (auto w : W) PWS->push_back(w);
    int nu = plan_range(1, 4); for (int i = 0; i < nu; ++i) { std::string n = N[plan(3) ? i : plan(6)]; if (n == "c:d" && !g_cookie) n = "cd"; bool dup = false; for (auto &x : *NAMES) if (x == n) dup = true; if (!dup) NAMES->push_back(n); }
    bool root = long_run || plan(4);
    pion::user_manager_ptr um; pion::http::auth_ptr ap; pion::single_service_scheduler *S = 0; int nt = plan_range(1, 4); g_redirect = g_cookie && plan(3) == 2 ? "/loginpage" : ""; g_realm = plan(2) ? "PION" : "my realm";
    loud([&] {
        um.reset(new pion::user_manager); S = new pion::single_service_scheduler(); S->set_num_threads(nt); SRV = new pion::http::server(*S, 0);
        if (g_cookie) ap.reset(new pion::http::cookie_auth(um, "/login", "/logout", g_redirect)); else { pion::http::basic_auth *b = new pion::http::basic_auth(um); ap.reset(b); b->set_option("realm", g_realm); }
        AUTH = ap.get(); SRV->set_authentication(ap); SRV->add_resource("", &handler);
        const char *const rd[][2] = { { "/go", "/sec/x" }, { "/g2", "/go" }, { "/old-sec", "/open" } };
        for (auto &r : rd) { SRV->add_redirect(r[0], r[1]); Quiet q; (*REDIR)[r[0]] = r[1]; }
    });
    if (root) { init_user("root", false, ""); change_user("root", 0, "toor"); if (plan(2)) NAMES->push_back("root"); }
    for (auto &n : *NAMES) if (n != "root") { init_user(n, false, ""); if (plan(3)) change_user(n, 0, (*PWS)[plan((uint32_t)PWS->size())]); }
    add_entry("/sec", false); std::vector<std::pair<std::string, bool> > later;
    if (P("P15")) { static const char *const E[] = { "/sec/pub", "/a/b", "/a/b/c", "/dyn0", "/dyn0/free", "/dyn1", "/dyn1/free", "" }; static const bool PE[] = { true, false, true, false, true, false, true, false };
        for (int i = 0; i < 8; ++i) { if (i == 7 && plan(3)) continue; int k = plan(3); if (k == 0) add_entry(E[i], PE[i]); else if (k == 1) later.push_back(std::make_pair(std::string(E[i]), PE[i])); } }
    loud([&] { for (int i = 0;; ++i) { try { SRV->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); if (i == 12) violation("start", "cannot start"); } } });
    set_faults(true); g_port = (uint16_t)SRV->get_port();
    uint64_t pause = !long_run ? (plan(2) ? 0 : 3000) : P("P16") ? (uint64_t)plan_range(20, 350) * SEC : (uint64_t)plan_range(100, 3900) * SEC; int nc = plan_range(1, 4), n = plan_range(4, long_run ? 16 : 14);
    for (auto &u : *NAMES) if (u != "root" && plan(3)) { int k = plan_range(1, 8); std::string uu = u; FIB->push_back(spawn("admin", [=] { admin(uu, k, long_run ? pause * 3 : pause ? pause : 300); })); }
    if (!later.empty()) FIB->push_back(spawn("perm-admin", [&] { for (auto &x : later) { sim::sleep(plan(2000)); add_entry(x.first, x.second); } }));
    for (int i = 0; i < nc; ++i) FIB->push_back(spawn("client", [=] { client(n, pause); }));
    if (long_run) { int ns = plan_range(1, 2); for (int i = 0; i < ns; ++i) FIB->push_back(spawn("stubborn", [=] { stubborn(plan_range(6, 24), pause); })); }
    else if (g_cookie && plan(3) == 2) for (int i = 0, k = plan_range(2, 6); i < k; ++i) FIB->push_back(spawn("login-rush", [=] { simnet::Client c; std::vector<RqP> v(1, login()); exchange(c, v, false); }));
    if (g_jumps) FIB->push_back(spawn("clock", [=] { for (int i = 0, k = plan_range(1, 4); i < k; ++i) { sim::sleep(plan(2) ? plan(1000) * SEC : plan((uint32_t)4000) * SEC); int64_t d = (1 + plan(plan(2) ? 500 : 8000)) * S64; jump(plan(3) == 2 ? -d : d); } }));
    if (!wait_until(&over, 2000000 * SEC)) violation("stuck", "clients did not finish");
    set_faults(false);
    { simnet::Client c; for (auto &u : *NAMES) { State &s = (*USERS)[u].back(); if (!s.present) continue; std::pair<std::string, std::string> cr(u, s.pass); std::vector<RqP> v(1, g_cookie ? login(&cr) : page(&cr)); exchange(c, v, false); if (g_cookie && !v[0]->cookie.empty()) { std::vector<RqP> w(1, page(0, &v[0]->cookie)); exchange(c, w, false); CHECK(w[0]->seen == u, "bad-login", "session of %s acts as '%s'", u.c_str(), w[0]->seen.c_str()); } } c.close(); }
    bool sd = false; int sf = spawn("stopper", [&] { loud([&] { SRV->stop(false); delete SRV; SRV = 0; S->shutdown(); delete S; ap.reset(); um.reset(); }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stop did not return"); join(sf);
}
