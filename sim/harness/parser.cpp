// P08 segmentation independence, P09 damaged input, P10 gaps - HTTP parser fed by a simulated (lossy, fragmenting) transport
#include <strings.h>
#include "common.hpp"
#include <boost/asio.hpp>
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <algorithm>
#include <cstring>
#include <new>
using namespace sim; using namespace hx; using namespace pion;
typedef std::vector<std::pair<std::string, std::string> > Pairs;

// allocation seam: huge requests fail like on a real machine (ASan still guards what malloc returns)
#ifdef SIM_LITE
void *operator new(size_t n) { if (n > (48u << 20)) { SIM_COUNT("fault.alloc-fails"); throw std::bad_alloc(); } void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

namespace {
enum Framing { NOBODY, LENGTH, CHUNKED, UNTIL_CLOSE, IMPLIED };
const char *FN[] = { "none", "length", "chunked", "until-close", "implied" };
struct Span { size_t at, n; };
struct Msg {
    bool req = true; std::string wire; size_t head = 0; Pairs headers, footers, queries, cookies;
    std::string method, resource, query, reason, asked; int status = 0, vmaj = 1, vmin = 1;
    Framing framing = NOBODY; std::string content; std::vector<Span> spans; bool form = false;
};
std::string rnd(const char *alpha, int lo, int hi) { size_t k = strlen(alpha); int n = plan_range(lo, hi); std::string s; for (int i = 0; i < n; ++i) s += alpha[plan((uint32_t)k)]; return s; }
std::string blob(int n) { std::string s; int k = plan(4); if (n > 4000) { uint32_t x = plan(1u << 30) | 1; for (int i = 0; i < n; ++i) { s += (char)(k == 0 ? x >> 24 : k == 1 ? "\r\n0 ;:a"[x >> 28 & 7] : 'a' + x % 26); x = x * 1664525u + 1013904223u; } return s; } for (int i = 0; i < n; ++i) s += k == 0 ? (char)plan(256) : k == 1 ? "\r\n0 ;:a"[plan(8)] : (char)('a' + plan(26)); return s; }
const char *TOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
std::string pct(const std::string &s) { std::string o; char b[4]; for (unsigned char c : s) { if (isalnum(c)) o += (char)c; else if (c == ' ' && plan(2)) o += '+'; else { snprintf(b, 4, plan(2) ? "%%%02X" : "%%%02x", c); o += b; } } return o; }
std::string b64(const std::string &s) { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0; for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += T[v & 63]; } if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; o += T[v >> 18]; o += T[v >> 12 & 63]; o += "=="; } else if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += "="; } return o; }
std::string anyval(int hi) { std::string s; int n = plan_range(0, hi); for (int i = 0; i < n; ++i) s += plan(3) ? (char)(32 + plan(95)) : (char)(1 + plan(255)); return s; }
int bodylen(size_t big) { int k = plan(8); return k == 0 ? 0 : k < 4 ? 1 + plan(12) : k < 7 ? 1 + plan(200) : 1 + plan((uint32_t)big); }

std::string pairs_enc(Pairs &out, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) {
        std::string k = rnd(TOK, 1, 6), v = anyval(8); if (!s.empty()) s += '&';
        s += pct(k); if (plan(8) == 0) { v.clear(); } else s += '=' + pct(v);
        out.push_back(std::make_pair(k, v));
    }
    return s;
}
// a well-formed message; `crlf` "\r\n"
Msg build(bool req, size_t big, bool allow_close) {
    Msg m; m.req = req; std::string L = "\r\n", w;
    if (req) {
        static const char *ms[] = { "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "M-SEARCH" };
        m.method = ms[plan(7)]; m.resource = "/" + rnd("abcxyz/._-~%20@!$'()*,;:&=", 0, 20);
        m.vmin = plan(4) ? 1 : 0;
        w = m.method + " " + m.resource;
        if (plan(2)) { Pairs q; std::string s = pairs_enc(q, plan_range(1, 4)); m.query = s; m.queries = q; w += "?" + s; }
        w += " HTTP/1." + std::to_string(m.vmin) + L;
        m.framing = (Framing)(plan(3) == 0 ? NOBODY : plan(2) ? LENGTH : CHUNKED);
    } else {
        static const int st[] = { 200, 404, 500, 301, 100, 204, 205, 304, 206 };
        m.status = st[plan(9)]; m.reason = plan(6) ? rnd("abcdefg HIJ-()", 1, 16) : "";
        m.vmin = plan(4) ? 1 : 0; m.asked = plan(5) == 0 ? "HEAD" : "GET";
        w = "HTTP/1." + std::to_string(m.vmin) + " " + std::to_string(m.status);
        if (!m.reason.empty()) w += " " + m.reason; else if (plan(2)) w += " ";
        w += L;
        bool implied = m.asked == "HEAD" || m.status < 200 || m.status == 204 || m.status == 205 || m.status == 304;
        m.framing = implied ? IMPLIED : allow_close && plan(4) == 0 ? UNTIL_CLOSE : plan(2) ? LENGTH : CHUNKED;
    }
    Pairs h;
    int n = plan_range(0, 6);
    for (int i = 0; i < n; ++i) {
        std::string k = plan(6) ? "X-" + rnd(TOK, 1, 8) : rnd("AaBb", 1, 2), v;
        if (plan(5)) { v = rnd("abc XYZ09;:,=/\"'()\x80\xff\t", 0, 18); size_t a = v.find_first_not_of(" \t"); v = a == std::string::npos ? "" : v.substr(a); }
        h.push_back(std::make_pair(k, v));
    }
    if (req && plan(2)) {
        std::string c; int k = plan_range(1, 4);
        for (int i = 0; i < k; ++i) {
            std::string a = rnd(TOK, 1, 5), v = rnd("abcXYZ0189/+=.", 0, 8);
            if (i) c += plan(2) ? "; " : ";";
            if (plan(4) == 0) { std::string qv = rnd("abc ;,=", 0, 6); c += a + "=\"" + qv + "\""; m.cookies.push_back(std::make_pair(a, qv)); }
            else { c += a + "=" + v; m.cookies.push_back(std::make_pair(a, v)); }
        }
        h.push_back(std::make_pair("Cookie", c));
    }
    if (!req && plan(3) == 0) {
        std::string a = "c" + rnd(TOK, 1, 5), v = rnd("abcXYZ0189/+", 1, 8);
        h.push_back(std::make_pair("Set-Cookie", a + "=" + v + "; Path=/; HttpOnly; Max-Age=10"));
        m.cookies.push_back(std::make_pair(a, v));
    }
    if (m.framing == LENGTH || m.framing == CHUNKED || m.framing == UNTIL_CLOSE) {
        if (req && plan(3) == 0) {
            m.form = true;
            if (plan(2)) {
                m.content = pairs_enc(m.queries, plan_range(1, 5));
                h.push_back(std::make_pair("Content-Type", std::string("application/x-www-form-urlencoded") + (plan(2) ? "; charset=UTF-8" : "")));
            } else {
                std::string b = "B" + rnd(TOK, 3, 12); int k = plan_range(1, 4); std::string c;
                for (int i = 0; i < k; ++i) {
                    std::string a = rnd(TOK, 1, 6), v; { int ln = plan(3) ? plan_range(0, 12) : 0; for (int j = 0; j < ln; ++j) v += "abcd \r\n-=&%"[plan(11)]; }
                    std::string type; if (plan(3) == 0) { static const char *const TY[] = { "text/plain", "text/html; charset=x", "application/octet-stream", "image/png", "Text/Plain" }; type = TY[plan(5)]; }
                    if (!type.empty() && strncasecmp(type.c_str(), "text/", 5)) { int ln = plan_range(0, 12); for (int j = 0; j < ln; ++j) v += (char)plan(256); size_t z; while ((z = v.find("--" + b)) != std::string::npos) v[z] = 'x'; }
                    std::string cd = "Content-Disposition: form-data; name=\"" + a + "\"" + L, ct = type.empty() ? "" : "Content-Type: " + type + L;
                    c += "--" + b + L + (plan(2) ? cd + ct : ct + cd) + L + v + L;
                    m.queries.push_back(std::make_pair(a, type.empty() || !strncasecmp(type.c_str(), "text/", 5) ? v : "data:" + type + "; base64, " + b64(v)));
                }
                c += "--" + b + "--" + L; m.content = c;
                h.push_back(std::make_pair("Content-Type", "multipart/form-data; boundary=" + b));
            }
        } else m.content = blob(bodylen(big));
    }
    if (m.framing == LENGTH) h.push_back(std::make_pair(plan(3) ? "Content-Length" : "content-length", std::to_string(m.content.size())));
    if (m.framing == CHUNKED) h.push_back(std::make_pair("Transfer-Encoding", plan(3) ? "chunked" : "Chunked")); if (m.framing == CHUNKED && plan(8) == 7) { static const char *const CL[] = { "0", "1", "17", "99999", "x" }; h.push_back(std::make_pair("Content-Length", CL[plan(5)])); }     // (to be ignored)
    if (m.framing == IMPLIED && plan(2)) { if (plan(2)) h.push_back(std::make_pair("Content-Length", std::to_string(plan(100)))); else h.push_back(std::make_pair("Transfer-Encoding", "chunked")); }
    for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[plan((uint32_t)i)]);
    for (auto &x : h) {
        w += x.first + ":"; if (!x.second.empty() || plan(2)) w += " ";
        w += x.second + L;
    }
    m.headers = h; w += L; m.head = w.size();
    if (m.framing == LENGTH || m.framing == UNTIL_CLOSE) { m.spans.push_back(Span{ w.size(), m.content.size() }); w += m.content; }
    if (m.framing == CHUNKED) {
        size_t p = 0;
        while (p < m.content.size()) {
            size_t k = plan(3) == 0 ? 1 + plan(4) : 1 + plan((uint32_t)(m.content.size() - p)); k = std::min(k, m.content.size() - p);
            char b[24]; snprintf(b, sizeof b, plan(2) ? "%zx" : "%zX", k);
            if (plan(8) == 0) w += "0"; w += b;
            if (plan(6) == 0) w += plan(2) ? " " : "\t "; else if (plan(6) == 0) w += ";name=\"v;\""; w += L;
            m.spans.push_back(Span{ w.size(), k }); w += m.content.substr(p, k) + L; p += k;
        }
        w += plan(4) ? "0" : "000"; if (plan(8) == 0) w += ";ext"; w += L;
        if (plan(3) == 0) { int k = plan_range(1, 3); for (int i = 0; i < k; ++i) { std::string a = "T-" + rnd(TOK, 1, 5), v = rnd("abcXYZ", 0, 6); w += a + ": " + v + L; m.footers.push_back(std::make_pair(a, v)); } }
        w += L;
    }
    m.wire = w;
    return m;
}

struct Out {
    int verdict = 2;          // 0 error, 1 complete, 2 needs more
    bool threw = false; std::string what; int ec = 0;
    size_t consumed = 0; std::string payload; bool stalled = false;
};
std::string esc(const std::string &s, size_t max = 200) { std::string o; char b[6]; for (unsigned char c : s) { if (o.size() > max) { o += "..."; break; } if (c >= 32 && c < 127 && c != '\\') o += (char)c; else { snprintf(b, 6, "\\x%02x", c); o += b; } } return o; }

struct Session {      // one parser + message
    bool req; std::unique_ptr<http::parser> p; http::request rq; http::response rs; std::string payload; bool handler;
    Session(bool r, const std::string &asked, size_t max, bool h) : req(r), p(LIB(new http::parser(r, max))), rs(asked), handler(h) {
        if (h) { http::parser::payload_handler_t f = [this](const char *d, size_t n) { payload.append(d, n); }; p->set_payload_handler(f); }
    }
    http::message &msg() { return req ? (http::message &)rq : (http::message &)rs; }
};
// delivers bytes in segments to the parser; stops at a verdict
void deliver(Session &s, Out &o, const char *d, size_t n, int style) {
    size_t p = 0;
    while (p < n && o.verdict == 2) {
        size_t k = style == 0 ? n : style == 1 ? 1 : style == 2 ? 1 + plan(5) : 1 + plan((uint32_t)std::min<size_t>(n - p, 400));
        k = std::min(k, n - p);
        char *seg = (char *)malloc(k); memcpy(seg, d + p, k);       // an exact heap block: ASan sees any step outside
        s.p->set_read_buffer(seg, k);
        boost::system::error_code ec; boost::tribool rc = boost::indeterminate;
        size_t before = s.p->get_total_bytes_read();
        try { rc = LIB(s.p->parse(s.msg(), ec)); }
        catch (std::exception &e) { o.threw = true; o.what = e.what(); }
        catch (...) { o.threw = true; o.what = "unknown exception"; }
        const char *rp, *re; s.p->load_read_pos(rp, re);
        size_t used = (size_t)(rp - seg);
        CHECK(rp >= seg && re == seg + k && used <= k, "read-position", "read position outside the buffer (%zd of %zu)", (ssize_t)(rp - seg), k);
        if (o.threw) { o.verdict = 0; free(seg); return; }
        o.verdict = boost::indeterminate(rc) ? 2 : rc ? 1 : 0; o.ec = ec.value();
        if (o.verdict == 2) CHECK(used == k, "no-progress", "the parser asks for more but left %zu of %zu bytes unread", k - used, k);
        if (o.verdict != 0) {
            CHECK(s.p->gcount() == used, "byte-count", "gcount() reports %zu bytes, the read position moved by %zu", s.p->gcount(), used);
            CHECK(s.p->get_total_bytes_read() - before == used, "byte-count", "total bytes read moved by %zu, the read position by %zu", s.p->get_total_bytes_read() - before, used);
            CHECK(s.p->bytes_available() == k - used && s.p->eof() == (k == used), "byte-count", "bytes_available()/eof() disagree with the read position");
        }
        o.consumed += used; p += k;
        s.p->set_read_buffer(0, 0);
        free(seg);
    }
}
Pairs sorted(const pion::ihash_multimap &m, bool lower) { Pairs v; for (auto &x : m) { std::string k = x.first; if (lower) for (auto &c : k) c = (char)tolower(c); v.push_back(std::make_pair(k, x.second)); } std::sort(v.begin(), v.end()); return v; }
Pairs sorted(Pairs v, bool lower) { if (lower) for (auto &x : v) for (auto &c : x.first) c = (char)tolower(c); std::sort(v.begin(), v.end()); return v; }
std::string show(const Pairs &p) { std::string s; for (auto &x : p) s += "[" + esc(x.first) + "=" + esc(x.second) + "]"; return s; }
void same(const char *what, const pion::ihash_multimap &got, Pairs want, const Msg &m) {
    Pairs g = sorted(got, true), w = sorted(want, true);
    CHECK(g == w, "wrong-fields", "%s differ: parsed %s, sent %s in %s", what, show(g).c_str(), show(w).c_str(), esc(m.wire, 900).c_str());
}
std::string content(http::message &m) { return m.get_content_length() ? std::string(m.get_content(), m.get_content_length()) : std::string(); }

void compare(Session &s, const Out &o, const Msg &m, size_t max, bool form_parsed, const std::string *gapped = 0) {
    http::message &g = s.msg(); ++*counter("evals");
    const std::string &want = gapped ? *gapped : m.content;
    CHECK(g.is_valid(), "wrong-verdict", "complete message not marked valid: %s", esc(m.wire, 900).c_str());
    CHECK(g.get_version_major() == m.vmaj && g.get_version_minor() == m.vmin, "wrong-fields", "version %d.%d", g.get_version_major(), g.get_version_minor());
    if (m.req) {
        CHECK(s.rq.get_method() == m.method && s.rq.get_resource() == m.resource && s.rq.get_original_resource() == m.resource && s.rq.get_query_string() == m.query, "wrong-fields", "request line %s %s?%s differs from %s", esc(s.rq.get_method()).c_str(), esc(s.rq.get_resource()).c_str(), esc(s.rq.get_query_string()).c_str(), esc(m.wire, 300).c_str());
        if (form_parsed) same("query parameters", s.rq.get_queries(), m.queries, m);
    } else CHECK((int)s.rs.get_status_code() == m.status && s.rs.get_status_message() == m.reason, "wrong-fields", "status line %u %s differs from %s", s.rs.get_status_code(), esc(s.rs.get_status_message()).c_str(), esc(m.wire, 300).c_str());
    Pairs h = m.headers; h.insert(h.end(), m.footers.begin(), m.footers.end());
    same("headers", g.get_headers(), h, m);
    same("cookies", g.get_cookies(), m.cookies, m);
    if (s.handler) CHECK(s.payload == want, "wrong-content", "payload handler got %s, sent %s", esc(s.payload).c_str(), esc(want).c_str());
    else {
        std::string c = content(g), w = want.substr(0, max);
        CHECK(c == w, "wrong-content", "content (%zu bytes) %s differs from what was sent (%zu bytes) %s; message %s", c.size(), esc(c).c_str(), w.size(), esc(w).c_str(), esc(m.wire, 700).c_str());
        if (g.get_content_length()) CHECK(g.get_content()[g.get_content_length()] == 0, "wrong-content", "content is not terminated");
    }
    CHECK(g.is_chunked() == (m.framing == CHUNKED || (m.framing == IMPLIED && g.is_chunked())), "wrong-fields", "is_chunked() is %d for framing %s", g.is_chunked(), FN[m.framing]);
}

void p08() {
    int rounds = plan_range(3, 8);
    for (int r = 0; r < rounds; ++r) {
        bool req = plan(2), handler = plan(5) == 0, reuse = plan(2); int style = plan(4), n = plan_range(1, 4);
        size_t max = plan(4) ? 1u << 20 : plan(300);
        std::vector<Msg> ms; std::string wire;
        for (int i = 0; i < n; ++i) { ms.push_back(build(req, plan(6) == 0 ? (plan(6) ? 20000 : 200000) : 300, i == n - 1)); wire += ms.back().wire; }
        log("%s x%d style=%d handler=%d max=%zu bytes=%zu", req ? "request" : "response", n, style, handler, max, wire.size());
        // the whole keep-alive stream is one sequence of segments; a segment may hold the end of one message and the start of the next
        std::string buf; size_t fed = 0, at = 0; std::unique_ptr<Session> s;
        for (int i = 0; i < n; ++i) {
            const Msg &m = ms[i];
            if (!s || !reuse) s.reset(new Session(req, m.asked, max, handler));
            else { s->p->reset(); s->payload.clear(); s->rq.clear(); s->rs = http::response(m.asked); }
            if (plan(6) == 0) s->p->set_save_raw_headers(true); else s->p->set_save_raw_headers(false);
            bool raw = s->p->get_save_raw_headers(), headers_only = !handler && plan(8) == 0 && m.framing != NOBODY && m.framing != IMPLIED;
            s->p->parse_headers_only(headers_only);
            Out o;
            auto pump = [&](size_t limit) {
                size_t start = at; (void)start;
                while (o.verdict == 2 && at < limit) {
                    size_t k = style == 0 ? wire.size() - at : style == 1 ? 1 : style == 2 ? 1 + plan(5) : 1 + plan(400);
                    k = std::min(k, wire.size() - at); size_t c0 = o.consumed;
                    deliver(*s, o, wire.data() + at, k, 0);
                    at += o.consumed - c0;
                    if (o.verdict != 2) break;
                }
            };
            size_t start = at; fed = wire.size(); pump(fed);
            CHECK(!o.threw, "exception", "the parser threw %s on %s", o.what.c_str(), esc(m.wire, 900).c_str());
            bool cl0 = m.framing == LENGTH && m.content.empty();
            if (headers_only) {
                CHECK(o.verdict == 1 && at - start == m.head, "wrong-extent", "headers-only parsing gave verdict %d after %zu bytes, the headers have %zu: %s", o.verdict, at - start, m.head, esc(m.wire, 700).c_str());
                SIM_PROBE("headers-only");
                Session s2(req, m.asked, max, false); s2.msg() = s->msg();       // content with a second parser
                if (!cl0) {
                    s2.p->skip_header_parsing(s2.msg()); Out o2; size_t rest = wire.size() - at;
                    if (rest) deliver(s2, o2, wire.data() + at, rest, style);
                    size_t want = m.wire.size() - m.head;
                    if (m.framing == UNTIL_CLOSE) { if (want) CHECK(o2.verdict == 2 && o2.consumed == want, "wrong-extent", "until-close content consumed %zu of %zu", o2.consumed, want); s2.p->check_premature_eof(s2.msg()); }
                    else CHECK(o2.verdict == 1 && o2.consumed == want, "wrong-extent", "content parsing gave verdict %d after %zu bytes, the content has %zu: %s", o2.verdict, o2.consumed, want, esc(m.wire, 700).c_str());
                    CHECK(content(s2.msg()) == m.content.substr(0, max), "wrong-content", "content parsed with a second parser differs");
                }
                ++*counter("evals");
                at = start + m.wire.size();
                s.reset();
                continue;
            }
            if (m.framing == UNTIL_CLOSE) {
                CHECK(o.verdict == 2, "wrong-verdict", "verdict %d for a message that ends with the connection", o.verdict);
                CHECK(!s->p->check_premature_eof(s->msg()), "wrong-verdict", "end of connection is not the end of until-close content");
            } else CHECK(o.verdict == 1, "wrong-verdict", "verdict %d (error %d) for a complete well-formed message (framing %s, style %d, max %zu): %s", o.verdict, o.ec, FN[m.framing], style, max, esc(m.wire, 900).c_str());
            CHECK(at - start == m.wire.size(), "wrong-extent", "consumed %zu bytes of a message of %zu (framing %s, handler %d, max %zu): %s", at - start, m.wire.size(), FN[m.framing], handler, max, esc(m.wire, 900).c_str());
            CHECK(s->p->get_total_bytes_read() == m.wire.size(), "byte-count", "total bytes read %zu of %zu", s->p->get_total_bytes_read(), m.wire.size());
            if (raw) { std::string rh = s->p->get_raw_headers(); CHECK(rh.compare(0, m.head - 1, m.wire, 0, m.head - 1) == 0, "raw-headers", "raw headers differ: %s from %s", esc(rh).c_str(), esc(m.wire).c_str()); }
            bool fits = m.content.size() <= max;
            compare(*s, o, m, max, (!m.form || (!handler && fits)));
            CHECK(s->msg().get_status() == http::message::STATUS_OK && !s->msg().has_missing_packets(), "wrong-status", "status %d of a complete message", s->msg().get_status());
        }
        // arbitrary bytes: any two segmentations agree
        std::string d = wire; int muts = plan_range(0, 6);
        for (int i = 0; i < muts && !d.empty(); ++i) { size_t q = plan((uint32_t)d.size()); switch (plan(5)) { case 0: d[q] = (char)plan(256); break; case 1: d[q] ^= (char)(1 << plan(8)); break; case 2: d.erase(q, 1 + plan(4)); break; case 3: d.insert(q, 1, "\r\n :;0fF=?\t-"[plan(12)]); break; default: d.insert(q, d.substr(plan((uint32_t)d.size()), 1 + plan(10))); } }
        if (!d.empty()) {
            Session a(req, "GET", max, handler), b(req, "GET", max, handler); Out oa, ob;
            deliver(a, oa, d.data(), d.size(), 0); deliver(b, ob, d.data(), d.size(), 1 + plan(3));
            CHECK(oa.verdict == ob.verdict && oa.ec == ob.ec && (oa.verdict == 0 || oa.consumed == ob.consumed), "segmentation", "in one piece: verdict %d error %d consumed %zu; in pieces: verdict %d error %d consumed %zu for %s", oa.verdict, oa.ec, oa.consumed, ob.verdict, ob.ec, ob.consumed, esc(d, 1200).c_str());
            if (oa.verdict == 2) { bool ea = a.p->check_premature_eof(a.msg()), eb = b.p->check_premature_eof(b.msg()); CHECK(ea == eb, "segmentation", "premature end %d vs %d", ea, eb); }
            CHECK(a.payload == b.payload && sorted(a.msg().get_headers(), 1) == sorted(b.msg().get_headers(), 1) && sorted(a.msg().get_cookies(), 1) == sorted(b.msg().get_cookies(), 1) && a.msg().is_valid() == b.msg().is_valid(), "segmentation", "results depend on the segmentation of %s", esc(d, 1200).c_str());
            if (oa.verdict == 1) CHECK(content(a.msg()) == content(b.msg()), "segmentation", "content depends on the segmentation of %s", esc(d, 1200).c_str());
            if (oa.verdict == 1 && req) CHECK(a.rq.get_method() == b.rq.get_method() && a.rq.get_resource() == b.rq.get_resource() && sorted(a.rq.get_queries(), 1) == sorted(b.rq.get_queries(), 1), "segmentation", "request depends on the segmentation of %s", esc(d, 1200).c_str());
            ++*counter("evals"); SIM_COUNT("differential");
        }
    }
}

std::string hostile(bool req) {
    std::string w; int k = plan(9); std::string first = req ? "POST /x HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n";
    if (k == 0) { w = blob(1 + plan(300)); }
    else if (k == 1) { w = first + "Content-Length: "; static const char *v[] = { "-1", "18446744073709551615", "99999999999999999999999", "0x10", "", " 5 ", "+3", "4294967296", "1e3", "9223372036854775807", "3,3", "5\t" }; w += v[plan(12)]; w += "\r\n\r\n" + blob(plan(60)); }
    else if (k == 2) { w = first + "Transfer-Encoding: chunked\r\n\r\n"; static const char *v[] = { "FFFFFFFFFFFFFFFF", "7FFFFFFFFFFFFFFF", "80000000", "ffffffffffffffffffffffffff", "0", "5", "-1", "g", "00000000000000000000000000000001" }; int n = plan_range(1, 4); for (int i = 0; i < n; ++i) { w += v[plan(9)]; w += "\r\n" + blob(plan(12)) + (plan(2) ? "\r\n" : ""); } }
    else if (k == 3) { std::string b = plan(4) ? "B" + rnd(TOK, 0, 4) : ""; w = "";
        int n = plan_range(1, 5); for (int i = 0; i < n; ++i) { if (plan(4)) w += "--" + b; if (plan(3)) w += plan(4) ? "\r\n" : "\n"; if (plan(2)) w += "Content-Disposition: form-data; name=\"" + rnd("ab\"", 0, 3) + (plan(3) ? "\"" : ""); if (plan(3)) w += "\r\n"; if (plan(3) == 0) w += "Content-Type: image/x\r\n"; if (plan(3)) w += plan(4) ? "\r\n" : "\n"; if (plan(2)) w += blob(plan(8)); if (plan(3) == 0) w += "\r\n"; }
        if (plan(2)) w += "--" + b + "--";
        w = "POST /x HTTP/1.1\r\nContent-Type: multipart/form-data; " + std::string(plan(8) ? "boundary=" : "") + b + "\r\nContent-Length: " + std::to_string(w.size()) + "\r\n\r\n" + w; }
    else if (k == 4) { w = "GET /" + rnd("ab%?&=+,", 0, 30) + "?" + rnd("ab%0=&,+\x01\x7f\xff", 0, 40) + " HTTP/1.1\r\nCookie: " + rnd("ab=;,\"'$ \x7f", 0, 40) + "\r\n\r\n"; if (!req) w = "HTTP/1.1 200 OK\r\nSet-Cookie: " + rnd("ab=;,\"'$ ", 0, 40) + "\r\nSet-Cookie: Path\r\nContent-Length: 0\r\n\r\n"; }
    else if (k == 5) { std::string big(plan(3) ? 900 + plan(400) : 1500, 'a'); int j = plan(4); w = j == 0 ? big + " / HTTP/1.1\r\n\r\n" : j == 1 ? first + big + ": v\r\n\r\n" : j == 2 ? "GET /?" + big + "=1 HTTP/1.1\r\n\r\n" : "HTTP/1.1 200 " + big + "\r\n\r\n"; }
    else { Msg m = build(req, 300, true); w = m.wire; int muts = plan_range(1, 8); for (int i = 0; i < muts && !w.empty(); ++i) { size_t q = plan((uint32_t)w.size()); switch (plan(6)) { case 0: w[q] = (char)plan(256); break; case 1: w[q] ^= (char)(1 << plan(8)); break; case 2: w.erase(q, 1 + plan(6)); break; case 3: w.insert(q, 1, "\r\n :;0fF=?\t-"[plan(12)]); break; case 4: w.resize(q); break; default: w.insert(q, w.substr(plan((uint32_t)w.size()), 1 + plan(10))); } } SIM_COUNT("fault.corruption"); }
    return w;
}
void p09() {
    int rounds = plan_range(4, 12);
    for (int r = 0; r < rounds; ++r) {
        bool req = plan(3) != 0, handler = plan(6) == 0; int kind = plan(3); size_t max = plan(3) == 0 ? plan(40) : plan(2) ? plan(2000) : plan(4) ? 1u << 20 : (size_t)-1; ++*counter("evals");
        if (plan(50) == 49) {       // parts longer than any limit: refused, or kept within the limit
            static const size_t LIM[] = { 1024, 262144, 1048576, 1024, 1048576, 1024 }; int part = plan(req ? 5 : 6); if (!req && part < 3) part = 3 + plan(3); if (req && part == 5) part = 4;
            size_t len = LIM[part] - 3 + plan(2) * plan(3000) + plan(6); std::string big(len, 'a'), first = req ? "GET / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n", w;
            switch (part) { case 0: w = big + " / HTTP/1.1\r\n\r\n"; break; case 1: w = "GET /" + big + " HTTP/1.1\r\n\r\n"; break; case 2: w = "GET /?" + big + " HTTP/1.1\r\n\r\n"; break; case 3: w = first + big + ": v\r\nContent-Length: 0\r\n\r\n"; break; case 4: w = first + "X-H: " + big + "\r\nContent-Length: 0\r\n\r\n"; break; default: w = "HTTP/1.1 200 " + big + "\r\nContent-Length: 0\r\n\r\n"; }
            Session s(req, "GET", max, false); Out o; log("long part %d of %zu", part, len); SIM_PROBE("long-part"); deliver(s, o, w.data(), w.size(), plan(2) ? 0 : 3);
            CHECK(!o.threw && o.verdict != 2, "exception", "long part %d: verdict %d, threw %d", part, o.verdict, (int)o.threw);
            if (o.verdict == 0) { CHECK(o.ec != 0, "no-error-code", "refused without an error code"); CHECK(len + 1 > LIM[part], "refused-within-limit", "part %d of %zu bytes refused although the limit is %zu", part, len, LIM[part]); continue; }
            size_t kept = part == 0 ? s.rq.get_method().size() : part == 1 ? s.rq.get_resource().size() : part == 2 ? s.rq.get_query_string().size() : part == 5 ? s.rs.get_status_message().size() : 0;
            for (auto &x : s.msg().get_headers()) kept = std::max(kept, part == 3 ? x.first.size() : part == 4 ? x.second.size() : 0);
            CHECK(kept <= LIM[part], "too-much-kept", "%zu bytes of part %d kept (limit %zu)", kept, part, LIM[part]);
            continue;
        }
        if (kind == 0) {            // hostile or corrupted bytes, cut anywhere
            std::string w = hostile(req); Session s(req, plan(4) ? "GET" : "HEAD", max, handler); Out o;
            if (plan(3) == 0) { std::string tail = hostile(req); w += tail; }
            if (w.empty()) continue;
            log("hostile %zu bytes", w.size());
            deliver(s, o, w.data(), w.size(), plan(4));
            CHECK(!o.threw, "exception", "the parser threw %s on %s", o.what.c_str(), esc(w, 1500).c_str());
            CHECK(o.verdict != 0 || o.ec != 0, "no-error-code", "the parser refuses without an error code: %s", esc(w, 1200).c_str());
            try {
                int end = plan(3);
                if (o.verdict == 2 && end == 1) { bool early = s.p->check_premature_eof(s.msg()); if (early) s.p->finish(s.msg()); }
                else if (o.verdict == 2 && end == 2) s.p->finish(s.msg());
            } catch (std::exception &e) { violation("exception", "finishing threw %s on %s", e.what(), esc(w, 1500).c_str()); }
            http::message &g = s.msg();
            if (!handler) {
                CHECK(g.get_content_length() <= max && g.get_content_buffer_size() <= max && g.get_chunk_cache().size() <= max, "too-much-content", "content length %zu, buffer %zu, chunk cache %zu exceed the maximum %zu: %s", g.get_content_length(), g.get_content_buffer_size(), g.get_chunk_cache().size(), max, esc(w, 1200).c_str());
            }
            if (g.get_content_length() && g.get_content_buffer_size()) { CHECK(g.get_content_length() <= g.get_content_buffer_size(), "too-much-content", "content length %zu with a buffer of %zu", g.get_content_length(), g.get_content_buffer_size()); volatile char x = 0; for (size_t i = 0; i < g.get_content_length(); i += 7) x = g.get_content()[i]; (void)x; }
        } else if (kind == 1) {     // larger than the limit: ends where it ends, stores the beginning
            Msg m = build(req, 3000, false), nx = build(req, 100, false); size_t lim = m.content.empty() ? 0 : plan((uint32_t)m.content.size() + 1);
            std::string w = m.wire + nx.wire; Session s(req, m.asked, lim, handler); Out o; SIM_PROBE("oversized");
            log("oversized %zu of %zu", lim, m.content.size());
            deliver(s, o, w.data(), w.size(), plan(4));
            size_t end = m.wire.size();
            CHECK(o.verdict == 1, "oversized-message", "verdict %d (error %d) for a message with %zu bytes of content and a limit of %zu: %s", o.verdict, o.ec, m.content.size(), lim, esc(m.wire, 1200).c_str());
            CHECK(s.p->get_total_bytes_read() == end, "oversized-message", "message of %zu bytes ended after %zu: content %zu limit %zu framing %s", end, s.p->get_total_bytes_read(), m.content.size(), lim, FN[m.framing]);
            if (m.framing == LENGTH && !m.content.empty()) CHECK(s.p->get_content_bytes_read() == m.content.size(), "byte-count", "%zu content bytes counted of %zu", s.p->get_content_bytes_read(), m.content.size());
            CHECK(s.msg().get_content_length() <= std::max(lim, (size_t)0) || handler, "too-much-content", "%zu bytes stored with a limit of %zu", s.msg().get_content_length(), lim);
            if (!handler) CHECK(content(s.msg()) == m.content.substr(0, lim), "wrong-content", "stored content is not the beginning of what was sent");
        } else {                    // cut short
            Msg m = build(req, 300, true); size_t cut = plan((uint32_t)m.wire.size()); Session s(req, m.asked, max, handler); Out o; SIM_COUNT("fault.truncation");
            log("cut %zu of %zu", cut, m.wire.size());
            if (!cut) continue;
            deliver(s, o, m.wire.data(), cut, plan(4));
            CHECK(o.verdict == 2, "truncated-verdict", "verdict %d (error %d) for %zu of %zu bytes: %s", o.verdict, o.ec, cut, m.wire.size(), esc(m.wire.substr(0, cut), 1200).c_str());
            bool in_close = m.framing == UNTIL_CLOSE && cut >= m.head;
            if (plan(2)) {
                bool early = s.p->check_premature_eof(s.msg());
                CHECK(early == !in_close, "truncated-verdict", "check_premature_eof() says %d after %zu of %zu bytes (headers %zu, framing %s)", early, cut, m.wire.size(), m.head, FN[m.framing]);
                CHECK(!early || !s.msg().is_valid(), "truncated-valid", "a message cut at byte %zu of %zu is marked valid (framing %s)", cut, m.wire.size(), FN[m.framing]);
            } else {
                s.p->finish(s.msg());
                bool chunk_boundary = m.framing == CHUNKED;      // (finish() accepts a chunked message that ends between two chunks)
                if (chunk_boundary) { size_t last = m.head; for (auto &x : m.spans) if (x.at + x.n + 2 <= cut) last = x.at + x.n + 2; chunk_boundary = cut == last; }
                CHECK(!s.msg().is_valid() || in_close || chunk_boundary, "truncated-valid", "a message cut at byte %zu of %zu is marked valid (framing %s)", cut, m.wire.size(), FN[m.framing]);
                if (!handler && m.framing == LENGTH && cut > m.head && max >= m.content.size()) CHECK(content(s.msg()) == m.content.substr(0, cut - m.head), "wrong-content", "content of a message cut short is not what arrived");
            }
            CHECK(handler || (s.msg().get_content_length() <= max), "too-much-content", "%zu bytes stored with a limit of %zu", s.msg().get_content_length(), max);
        }
    }
}

void p10() {
    int rounds = plan_range(3, 10);
    for (int r = 0; r < rounds; ++r) {
        bool req = plan(2), handler = plan(4) == 0; Msg m = build(req, 400, true), nx = build(req, 60, false); m.form = false;
        bool tail = m.framing != UNTIL_CLOSE; std::string w = m.wire + (tail ? nx.wire : "");
        size_t max = plan(3) ? 1u << 20 : plan(400);
        Session s(req, m.asked, max, handler); Out o; std::string want = m.content;
        int gaps = plan(5) == 0 ? 0 : plan(3) ? 1 : 2; size_t at = 0; bool refused = false, data_after = false, gap_seen = false; int ngaps = 0, style = plan(4);
        log("%s gaps=%d bytes=%zu content=%zu framing=%s", req ? "request" : "response", gaps, w.size(), m.content.size(), FN[m.framing]);
        bool last_was_gap = false;
        for (int gi = 0; gi <= gaps && o.verdict == 2; ++gi) {
            size_t stop = m.wire.size();
            size_t len = 0; bool inside = false;
            if (gi < gaps) {
                if (!m.spans.empty() && plan(5)) {   // aim at content
                    const Span &sp = m.spans[plan((uint32_t)m.spans.size())];
                    stop = sp.at + plan((uint32_t)sp.n + 1); if (stop < at) stop = at;
                    size_t room = sp.at + sp.n > stop ? sp.at + sp.n - stop : 0;
                    int k = plan(6); len = k == 0 ? room + 1 + plan(4) : k == 1 ? room : room ? 1 + plan((uint32_t)room) : 1;
                } else { stop = at + plan((uint32_t)(m.wire.size() - at) + 1); len = 1 + plan(30); }
                if (!len) len = 1;
                for (auto &sp : m.spans) if (stop >= sp.at && stop + len <= sp.at + sp.n) inside = true;
                if (m.framing == UNTIL_CLOSE && stop >= m.head) inside = stop + len <= m.wire.size() ? true : true;
            }
            if (stop > at) {
                bool had = s.msg().has_missing_packets();
                size_t c0 = o.consumed;
                deliver(s, o, w.data() + at, gi < gaps ? stop - at : w.size() - at, style);
                CHECK(!o.threw, "exception", "the parser threw %s", o.what.c_str());
                at += o.consumed - c0; if (had) { data_after = true; } last_was_gap = false;
                if (gi == gaps || o.verdict != 2) break;
            }
            if (gi == gaps) break;
            if (m.framing == UNTIL_CLOSE && stop + len > m.wire.size()) { if (stop >= m.head) { want.resize(std::max(want.size(), stop - m.head + len)); gaps = gi + 1; } }
            boost::system::error_code ec; size_t t0 = s.p->get_total_bytes_read();
            boost::tribool rc = s.p->parse_missing_data(s.msg(), len, ec); SIM_COUNT("fault.lost-bytes"); ++ngaps; ++*counter("evals");
            log("gap of %zu at %zu -> %d", len, stop, boost::indeterminate(rc) ? 2 : rc ? 1 : 0);
            gap_seen = true; last_was_gap = true;
            CHECK(s.msg().has_missing_packets(), "gap-not-flagged", "a message with a gap is not flagged");
            if (rc == false) { CHECK((bool)ec, "no-error-code", "gap refused without an error code"); refused = true; o.verdict = 0; 
                CHECK(!inside || m.framing == NOBODY, "gap-refused", "a gap of %zu bytes at %zu inside the content (framing %s, content %zu, headers %zu) was refused", len, stop, FN[m.framing], m.content.size(), m.head); break; }
            CHECK(inside, "gap-shifted", "a gap of %zu bytes at offset %zu that covers framing was accepted (framing %s): %s", len, stop, FN[m.framing], esc(m.wire, 900).c_str());
            CHECK(s.p->get_total_bytes_read() == t0 + len, "gap-shifted", "a gap of %zu bytes was counted as %zu", len, s.p->get_total_bytes_read() - t0);
            // mark the lost bytes in the expected content
            size_t off = 0; for (auto &sp : m.spans) { if (stop >= sp.at && stop < sp.at + sp.n) for (size_t i = 0; i < len && off + stop - sp.at + i < want.size(); ++i) want[off + stop - sp.at + i] = 'X'; off += sp.n; }
            if (m.framing == UNTIL_CLOSE) for (size_t i = stop - m.head; i < stop - m.head + len && i < want.size(); ++i) want[i] = 'X';
            at = stop + len;
            if (m.framing == UNTIL_CLOSE && at > w.size()) { at = w.size(); }
            if (rc == true) o.verdict = 1;
        }
        http::message::data_status_t st;
        if (refused) {
            st = s.msg().get_status();
            CHECK(st == http::message::STATUS_TRUNCATED || st == http::message::STATUS_PARTIAL, "wrong-status", "status %d after a refused gap", st);
            if (!data_after) CHECK(st == http::message::STATUS_TRUNCATED, "wrong-status", "status %d, nothing followed the gap", st);
            continue;
        }
        if (m.framing == UNTIL_CLOSE) { CHECK(o.verdict == 2, "wrong-verdict", "verdict %d for until-close content", o.verdict); CHECK(!s.p->check_premature_eof(s.msg()), "wrong-verdict", "until-close content does not end"); }
        else {
            CHECK(o.verdict == 1, "gap-shifted", "verdict %d (error %d) with %d gaps accounted for: %s", o.verdict, o.ec, ngaps, esc(m.wire, 900).c_str());
            CHECK(at == m.wire.size() && s.p->get_total_bytes_read() == m.wire.size(), "gap-shifted", "message of %zu bytes ended at %zu (%zu counted) with %d gaps", m.wire.size(), at, s.p->get_total_bytes_read(), ngaps);
        }
        compare(s, o, m, max, false, &want);
        st = s.msg().get_status();
        if (!gap_seen) CHECK(st == http::message::STATUS_OK && !s.msg().has_missing_packets(), "wrong-status", "message without gaps has status %d", st);
        else if (!data_after) CHECK(st == http::message::STATUS_TRUNCATED, "wrong-status", "status %d although nothing followed the gap", st);
        else if (!last_was_gap) CHECK(st == http::message::STATUS_PARTIAL, "wrong-status", "status %d although data followed the gap", st);
        else CHECK(st == http::message::STATUS_PARTIAL || st == http::message::STATUS_TRUNCATED, "wrong-status", "status %d for a message with gaps", st);
    }
}
// ---------------------------------------------------------------- P31: messages kept in streams
struct FullBuf : std::streambuf {          // takes bytes until the device is full or fails
    std::string &d; size_t room; bool throws, fired = false;
    FullBuf(std::string &disk, size_t r, bool t) : d(disk), room(r), throws(t) {}
    void fail() { fired = true; if (throws) throw std::ios_base::failure("device error"); }
    int overflow(int c) override { if (c == traits_type::eof()) return 0; if (!room) { fail(); return traits_type::eof(); } d += (char)c; --room; return c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { size_t k = std::min<size_t>(room, (size_t)n); d.append(p, k); room -= k; if (k < (size_t)n) fail(); return (std::streamsize)k; }
};
struct DiskBuf : std::streambuf {          // hands out bytes in pieces; may fail at a position
    const std::string &d; size_t at = 0, bad; bool fired = false; char piece[64];
    DiskBuf(const std::string &disk, size_t bad_at) : d(disk), bad(bad_at) {}
    int underflow() override {
        if (at >= bad) { fired = true; throw std::ios_base::failure("read error"); }
        size_t k = std::min<size_t>(std::min<size_t>(d.size(), bad) - at, 1 + plan(sizeof piece)); if (!k) { if (at >= d.size()) return traits_type::eof(); }
        memcpy(piece, d.data() + at, k); at += k; setg(piece, piece, piece + k); return (unsigned char)piece[0];
    }
    size_t pos() const { return at - (size_t)(egptr() - gptr()); }
};
struct Rec { int kind; Msg m; size_t start, end, head; };      // 0: written by others, 1: received and kept, 2: made here
bool special(const std::string &h) { static const char *const S[] = { "connection", "content-length", "transfer-encoding", "cookie", "set-cookie" }; std::string l; for (char c : h) l += (char)tolower(c); for (auto x : S) if (l == x) return true; return false; }
Pairs plain(const Pairs &p) { Pairs o; for (auto &x : p) if (!special(x.first)) o.push_back(x); return o; }
Pairs plain(const pion::ihash_multimap &p) { Pairs o; for (auto &x : p) if (!special(x.first)) o.push_back(x); return o; }
Pairs uniq(Pairs p) { p = sorted(p, true); p.erase(std::unique(p.begin(), p.end()), p.end()); return p; }
Pairs list(const pion::ihash_multimap &p) { Pairs o; for (auto &x : p) o.push_back(x); return o; }
Msg made(bool req, http::request &q, http::response &r) {       // a message made through the interface
    Msg m; m.req = req; m.asked = "GET"; http::message &g = req ? (http::message &)q : (http::message &)r;
    if (req) { static const char *ms[] = { "GET", "POST", "PUT", "DELETE" }; m.method = ms[plan(4)]; m.resource = "/" + rnd("abcxyz/._-", 0, 20); q.set_method(m.method); q.set_resource(m.resource); if (plan(2)) { m.query = pairs_enc(m.queries, plan_range(1, 3)); q.set_query_string(m.query); } }
    else { m.status = 200 + plan(4) * 100 + (plan(4) ? 0 : 4); m.reason = rnd("abcdefg HIJ", 1, 16); r.set_status_code((unsigned)m.status); r.set_status_message(m.reason); }
    if (plan(5) == 0) { m.vmin = 0; g.set_version_minor(0); }
    int k = plan_range(0, 4); for (int i = 0; i < k; ++i) { std::string a = "X-" + rnd(TOK, 1, 6), v = rnd("abcXYZ 01;,", 0, 12); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v[v.size() - 1] == ' ') v.resize(v.size() - 1); g.add_header(a, v); m.headers.push_back(std::make_pair(a, v)); }
    bool implied = !req && (m.status == 204 || m.status == 304); std::string c = plan(4) ? blob(bodylen(3000)) : "";
    if (!c.empty()) { if (plan(2)) { g.set_content_length(c.size()); memcpy(g.create_content_buffer(), c.data(), c.size()); } else if (req) q.set_content(c); else r.set_content(c); }
    if (!implied) m.content = c;
    m.framing = LENGTH; return m;
}
void compare_kept(http::message &g, const http::request &q, const http::response &r, const Msg &m, int kind, const std::string &disk) {
    ++*counter("evals"); std::string w = esc(disk, 700);
    if (m.req) CHECK(q.get_method() == m.method && q.get_resource() == m.resource && q.get_query_string() == m.query, "wrong-fields", "kept request line %s %s?%s read back from %s", m.method.c_str(), m.resource.c_str(), m.query.c_str(), w.c_str());
    else CHECK((int)r.get_status_code() == m.status && r.get_status_message() == m.reason, "wrong-fields", "kept status %d %s read back as %u %s from %s", m.status, m.reason.c_str(), r.get_status_code(), r.get_status_message().c_str(), w.c_str());
    CHECK(g.get_version_major() == m.vmaj && g.get_version_minor() == m.vmin, "wrong-fields", "kept version %d.%d read back as %d.%d", m.vmaj, m.vmin, g.get_version_major(), g.get_version_minor());
    Pairs want = m.headers; want.insert(want.end(), m.footers.begin(), m.footers.end());
    Pairs a = sorted(plain(g.get_headers()), true), b = sorted(plain(want), true);
    CHECK(a == b, "wrong-fields", "headers of a kept message differ: %s, were %s in %s", show(a).c_str(), show(b).c_str(), w.c_str());
    if (kind == 1) { a = uniq(list(g.get_cookies())); b = uniq(m.cookies); CHECK(a == b, "wrong-fields", "cookies of a kept message differ: %s, were %s in %s", show(a).c_str(), show(b).c_str(), w.c_str()); }
    CHECK(content(g) == m.content, "wrong-content", "content of a kept message (%zu bytes) %s differs from what it was (%zu bytes) %s: %s", g.get_content_length(), esc(content(g)).c_str(), m.content.size(), esc(m.content).c_str(), w.c_str());
    CHECK(g.is_valid(), "wrong-verdict", "a complete message read back is not valid");
}
void p31() {
    bool req = plan(2); int n = plan_range(1, 6); std::string disk; std::vector<Rec> recs; bool full = false, open_end = false;
    for (int i = 0; i < n && !full && !open_end; ++i) {
        Rec r; r.start = disk.size(); r.kind = (int)plan(3);
        if (r.kind == 0) { r.m = build(req, 300, i == n - 1); disk += r.m.wire; r.head = r.m.head; open_end = r.m.framing == UNTIL_CLOSE; }
        else {
            std::unique_ptr<Session> s; http::request q; http::response rs("GET"); http::message *g = 0;
            if (r.kind == 1) {
                r.m = build(req, 300, true); s.reset(new Session(req, r.m.asked, 1u << 20, false)); Out o; deliver(*s, o, r.m.wire.data(), r.m.wire.size(), plan(4));
                if (o.verdict == 2 && r.m.framing == UNTIL_CLOSE) { s->p->check_premature_eof(s->msg()); o.verdict = 1; }
                if (o.verdict != 1) violation("wrong-verdict", "a complete message was not accepted: %s", esc(r.m.wire, 700).c_str());
                g = &s->msg();
            } else { r.m = made(req, q, rs); g = req ? (http::message *)&q : (http::message *)&rs; }
            if (plan(5) == 0) full = true;         // this one will not fit
            size_t room = ~(size_t)0 >> 1; if (full) room = plan(4) ? plan(300) : plan(20);
            FullBuf fb(disk, room, plan(2)); std::ostream out(&fb); boost::system::error_code ec; size_t k = 0;
            bool stale = plan(2); if (stale) ec = boost::system::errc::make_error_code(boost::system::errc::timed_out);      // (left over from an earlier operation)
            try { k = g->write(out, ec, false); } catch (std::exception &e) { violation("exception", "write() threw %s", e.what()); }
            if (fb.fired) { SIM_COUNT("fault.device-full"); CHECK((bool)ec, "unreported", "write() reported success although only %zu bytes could be written", disk.size() - r.start); CHECK(k <= disk.size() - r.start, "byte-count", "write() counted %zu bytes of %zu written", k, disk.size() - r.start); }
            else { full = false; CHECK(!ec, "wrong-verdict", "write() reports error %d (%s) although everything was written", ec.value(), ec.message().c_str()); CHECK(k == disk.size() - r.start, "byte-count", "write() counted %zu bytes, %zu were written", k, disk.size() - r.start); SIM_PROBE("kept"); }
            r.head = 0; size_t h = disk.find("\r\n\r\n", r.start); if (h != std::string::npos) r.head = h + 4 - r.start;
            ++*counter("evals");
        }
        r.end = disk.size(); if (full) { r.kind = 3; } recs.push_back(r);
    }
    // reading it all back; the device may have lost the end or fail on the way
    size_t cut = disk.size(), bad = ~(size_t)0; int fk = plan(5);
    if (fk == 0 && !disk.empty()) { cut = plan((uint32_t)disk.size()); disk.resize(cut); SIM_COUNT("fault.torn"); } else if (fk == 1) { bad = plan((uint32_t)disk.size() + 1); }
    DiskBuf db(disk, bad); std::istream in(&db); size_t stop = std::min(cut, bad); log("%zu messages, %zu bytes, cut %zu, bad %zd", recs.size(), disk.size(), cut, (ssize_t)bad);
    for (auto &r : recs) {
        size_t max = r.kind == 0 && plan(4) == 0 ? plan(300) : 1u << 20; Session s(req, r.m.asked, max, false); boost::system::error_code ec; size_t k = 0; bool shortcut = plan(3) == 0, headers_only = plan(6) == 0 && r.head && r.head < r.end - r.start && r.kind != 3;
        if (plan(4) == 0) { s.rq.add_header("Old", "x"); s.rs.add_header("Old", "x"); s.msg().set_content_length(5); s.msg().create_content_buffer(); }     // a used object
        if (plan(2)) ec = boost::system::errc::make_error_code(boost::system::errc::timed_out);
        try { if (shortcut) k = s.msg().read(in, ec, headers_only, max); else { s.p->parse_headers_only(headers_only); k = s.msg().read(in, ec, *s.p); } }
        catch (std::exception &e) { violation("exception", "read() threw %s", e.what()); }
        size_t end = headers_only ? r.start + r.head : r.end; bool eof = r.kind == 0 && r.m.framing == UNTIL_CLOSE && !headers_only;
        bool whole = r.kind != 3 && stop >= end && !(eof && bad != ~(size_t)0 && bad <= disk.size());
        if (!whole && eof && cut < r.end && bad == ~(size_t)0 && cut >= r.start + r.head) { SIM_PROBE("open-end"); CHECK(!ec && content(s.msg()) == r.m.content.substr(0, std::min(max, cut - r.start - r.head)), "wrong-content", "content that ends with the stream was not read (error %d)", ec.value()); break; }
        if (!whole) {
            if (db.fired) SIM_COUNT("fault.read-error");
            CHECK((bool)ec, "unreported", "read() reported success for a message of which only %zu of %zu bytes could be read (%s, framing %s): %s", stop > r.start ? stop - r.start : 0, end - r.start, bad != ~(size_t)0 ? "device error" : "end of the stream", FN[r.m.framing], esc(disk.substr(std::min(r.start, disk.size()), 500), 500).c_str());
            ++*counter("evals"); SIM_PROBE("reported"); break;
        }
        CHECK(!ec, "wrong-verdict", "read() reports error %d (%s) for a complete message (kind %d framing %s): %s", ec.value(), ec.message().c_str(), r.kind, FN[r.m.framing], esc(disk.substr(r.start, r.end - r.start), 900).c_str());
        CHECK(k == end - r.start, "byte-count", "read() counted %zu bytes of a message of %zu", k, end - r.start);
        CHECK(db.pos() == end, "wrong-extent", "after a message that ends at %zu the stream is at %zu", end, db.pos());
        if (headers_only) { std::string rest(r.end - end, 0); in.read(&rest[0], (std::streamsize)rest.size()); if ((size_t)in.gcount() < rest.size()) break; CHECK(rest == disk.substr(end, rest.size()), "wrong-extent", "content after headers-only reading differs"); SIM_PROBE("headers-only"); continue; }
        if (r.kind == 0) { Out o; compare(s, o, r.m, max, !r.m.form || r.m.content.size() <= max); }
        else compare_kept(s.msg(), s.rq, s.rs, r.m, r.kind, disk.substr(r.start, r.end - r.start));
        CHECK(s.msg().get_header("Old").empty(), "wrong-fields", "a header of the object's previous message is still there");
        SIM_PROBE("read-back");
    }
    // nothing more to read: no message
    for (int i = plan_range(1, 3); i > 0; --i) {
        Session s(req, "GET", 1000, false); boost::system::error_code ec; std::string rest; 
        in.clear(); { char c; while (in.get(c)) rest += c; } if (plan(2)) in.clear();
        s.msg().read(in, ec, false, 1000); ++*counter("evals");
        CHECK((bool)ec && !s.msg().is_valid(), "unreported", "read() from a stream that has ended reports a message");
    }
}
}
#ifndef SIM_LITE
void parser_task() { p08(); }     // (see multi.cpp)
#else
void harness_run() {
    quiet_logging();
    std::string p = property();
    if (p == "P08") p08(); else if (p == "P09") p09(); else if (p == "P31") p31(); else p10();
}
#endif
