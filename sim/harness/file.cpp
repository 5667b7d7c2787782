// P21 / P22 / P23: the file service behind a real HTTP server, on a simulated file system
#include "httpx.hpp"
#include "core/fs.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <boost/filesystem/fstream.hpp>
#include "FileService.hpp"
#include <pion/http/server.hpp>
#include <pion/scheduler.hpp>
#include <ctime>
#include <set>
using namespace sim; using namespace hx;

namespace {
bool P(const char *id) { return std::string(property()) == id; }
typedef unsigned long long ull;
const uint64_t INF = ~0ull;
const char *const DIR = "/srv/www";
pion::http::server *SRV; pion::plugins::FileService *SVC; uint16_t g_port; uint64_t g_seq = 1; int g_idn;
int g_cache, g_scan; unsigned long g_chunk; bool g_writable; std::string g_file, g_res; bool g_dirset; uint64_t g_start_faults; bool g_known_ok = true;
bool policy_cached() { return g_cache > 0 || g_scan > 1; }

// ---------------------------------------------------------------- versions of every file
struct Ver { bool present; std::string data; int64_t mt; uint64_t b, e; bool shrunk; };
struct File { std::string rel, path; std::vector<Ver> v; bool known; int inflight; std::vector<std::shared_ptr<struct Op> > cluster; std::string c0; bool p0; File() : known(false), inflight(0), p0(false) {} };
std::vector<File *> *FILES; int g_verno;
File *file_of(const std::string &rel) { for (auto f : *FILES) if (f->rel == rel) return f; return 0; }
void note_version(File *f, bool shrunk = false) {
    const std::string *d = simfs::data(f->path); Ver n; n.present = d != 0; if (d) n.data = *d; n.mt = simfs::mtime(f->path) / 1000000; n.b = ++g_seq; n.e = INF; n.shrunk = shrunk;
    if (!f->v.empty()) f->v.back().e = g_seq; f->v.push_back(n);
}
void add_file(const std::string &rel, const char *data, size_t n) {
    File *f = new File(); f->rel = rel; f->path = std::string(DIR) + "/" + rel; if (data) simfs::put(f->path, std::string(data, n)); FILES->push_back(f); note_version(f); f->v.back().b = 0;
}
std::string content(size_t n) { std::string id = "<" + std::to_string(++g_verno) + ">"; std::string s = filler((uint64_t)g_verno, n); for (size_t i = 0; i < n && i < id.size(); ++i) s[i] = id[i]; return s; }
size_t some_size0(const File *f) {
    if (f && !f->v.empty() && f->v.back().present && plan(3) == 0) return f->v.back().data.size();
    switch (plan(7)) { case 0: return 300; case 1: return plan(3); case 2: return (size_t)plan_range(1, 40); case 3: return g_chunk ? g_chunk * plan(4) + plan(3) : plan(5000); case 4: return plan(3000); case 5: return 8190 + plan(5); default: return plan(20000); }
}
size_t some_size(const File *f) { size_t n = some_size0(f); return g_chunk && n > g_chunk * 40 ? n % (g_chunk * 40) : n; }     // (not too many chunks)
void edit(File *f) {
    Quiet q; bool p = f->v.back().present; int k = plan(p ? 8 : 2);
    if (!p || k < 5) { size_t n = some_size(f); simfs::replace(f->path, content(n)); log("edit: %s is replaced, %zu bytes", f->rel.c_str(), n); note_version(f); SIM_PROBE("edit-replace"); }
    else if (k == 5 || f->v.back().data.empty()) { simfs::erase(f->path); log("edit: %s is removed", f->rel.c_str()); note_version(f); SIM_PROBE("edit-remove"); }
    else { size_t n = plan((uint32_t)f->v.back().data.size()); simfs::truncate_to(f->path, n); log("edit: %s is cut to %zu bytes", f->rel.c_str(), n); note_version(f, true); SIM_PROBE("edit-shrink"); }
}
std::string mime(const std::string &rel) {
    static const char *const M[][2] = { { "js", "text/javascript" }, { "txt", "text/plain" }, { "xml", "text/xml" }, { "css", "text/css" }, { "html", "text/html" }, { "htm", "text/html" }, { "png", "image/png" } };
    size_t d = rel.rfind('.'); std::string e = lower(d == std::string::npos ? rel : rel.substr(d + 1)); for (auto &m : M) if (e == m[0]) return m[1]; return "application/octet-stream";
}
std::string date(int64_t t) { time_t tt = (time_t)t; struct tm m; gmtime_r(&tt, &m); char b[64]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &m); return b; }
bool overlap(const Ver &v, uint64_t s, uint64_t e) { return v.b <= e && v.e >= s; }
/// may a response to a request running in [s, e] be based on version v?
bool allowed(const File *f, const Ver &v, uint64_t s, uint64_t e) {
    if (!v.present || v.b > e) return false; if (overlap(v, s, e)) return true; if (!policy_cached()) return false; if (g_cache == 2) return true;
    for (auto &w : f->v) if (w.present && overlap(w, s, e) && w.data.size() == v.data.size() && w.mt == v.mt) return true;     // (whole-second time stamps cannot tell them apart)
    return false;
}
bool absent_in(const File *f, uint64_t s, uint64_t e) { for (auto &v : f->v) if (!v.present && overlap(v, s, e)) return true; return false; }
bool shrunk_in(const File *f, uint64_t s, uint64_t e) { for (auto &v : f->v) if (v.shrunk && v.b >= s && v.b <= e) return true; return false; }

// ---------------------------------------------------------------- requests
struct Op { std::string id, method, rel, wire, body, ims; File *f; bool v10, done, lost, write; int code; uint64_t s, e, fs, fe; Op() : f(0), v10(false), done(false), lost(false), write(false), code(0), s(0), e(0), fs(0), fe(0) {} };
typedef std::shared_ptr<Op> OpP;
bool faulted(simnet::Client &c) { simnet::EndP p = c.end ? c.end->peer.lock() : simnet::EndP(); return p && p->tag == "accept-fault"; }
OpP get_op(File *f) {
    OpP o(new Op()); o->id = std::to_string(++g_idn); o->f = f; o->rel = f->rel; o->method = plan(6) == 5 ? "HEAD" : "GET"; o->v10 = plan(6) == 5;
    if (plan(5) == 4) { std::vector<const Ver *> c; for (auto &v : f->v) if (v.present) c.push_back(&v); if (!c.empty()) o->ims = date(c[plan((uint32_t)c.size())]->mt); }
    std::string url = g_res + "/" + f->rel; if (!g_file.empty() && f->path == g_file && plan(2)) url = g_res; else if (plan(8) == 7) url = g_res + "/%" + [&] { char b[4]; snprintf(b, 4, "%02x", (unsigned char)f->rel[0]); return std::string(b); }() + f->rel.substr(1);
    if (!g_dirset) url = g_res; if (url.empty()) url = "/";
    o->wire = o->method + " " + url + (o->v10 ? " HTTP/1.0" : " HTTP/1.1") + "\r\nHost: sim\r\n" + (o->ims.empty() ? "" : "If-Modified-Since: " + o->ims + "\r\n") + (o->v10 && plan(2) ? "Connection: Keep-Alive\r\n" : "") + "\r\n"; return o;
}
OpP write_op(File *f) {
    OpP o(new Op()); o->id = std::to_string(++g_idn); o->f = f; o->rel = f->rel; o->write = true; static const char *const M[] = { "PUT", "POST", "PUT", "POST", "DELETE" }; o->method = M[plan(5)];
    bool ch = plan(5) == 4; if (o->method[0] == 'P') o->body = content(plan(3) ? (size_t)plan_range(0, 60) : some_size(f));
    o->wire = o->method + " " + g_res + "/" + f->rel + " HTTP/1.1\r\nHost: sim\r\n";
    if (o->method[0] == 'P' && !ch) o->wire += "Content-Length: " + std::to_string(o->body.size()) + "\r\n\r\n" + o->body;
    else if (ch && o->method[0] == 'P') { o->wire += "Transfer-Encoding: chunked\r\n\r\n"; size_t p = 0; while (p < o->body.size()) { size_t n = 1 + plan((uint32_t)(o->body.size() - p)); char b[20]; snprintf(b, sizeof b, "%zx\r\n", n); o->wire += b + o->body.substr(p, n) + "\r\n"; p += n; } o->wire += "0\r\n\r\n"; }
    else o->wire += "\r\n";
    return o;
}
// ---------------------------------------------------------------- P23: do the writes that were made explain the file?
struct Pat { bool present; std::vector<std::pair<std::string, bool> > seg; };        // (text, only a beginning of it)
bool match(const std::vector<std::pair<std::string, bool> > &s, size_t i, const std::string &t, size_t p) {
    if (i == s.size()) return p == t.size();
    const std::string &x = s[i].first;
    if (!s[i].second) return t.compare(p, x.size(), x) == 0 && match(s, i + 1, t, p + x.size());
    size_t n = 0; while (n <= x.size() && p + n <= t.size()) { if (match(s, i + 1, t, p + n)) return true; if (n == x.size() || p + n == t.size() || x[n] != t[p + n]) break; ++n; }
    // (a stream flushes what it still holds once more when it is closed: after the beginning, a piece of the text may come again)
    for (size_t m = 1; n && m <= x.size() && p + n + m <= t.size(); ++m) if (match(s, i + 1, t, p + n + m) && x.find(t.substr(p + n, m)) != std::string::npos) return true;
    return false;
}
bool good(const OpP &o) { return o->code >= 200 && o->code < 300; }
bool explain(std::vector<OpP> &left, const Pat &st, bool present, const std::string &data, int &budget) {
    if (--budget < 0) return true;
    if (left.empty()) return st.present == present && (!present || match(st.seg, 0, data, 0));
    for (size_t i = 0; i < left.size(); ++i) {
        OpP o = left[i]; bool first = true; for (auto &x : left) if (x != o && x->e < o->s) first = false; if (!first) continue;
        std::vector<OpP> rest(left); rest.erase(rest.begin() + (long)i); bool ok = good(o), refused = o->code >= 400 && o->code < 500;
        if (!ok || refused) { if (!(o->code == 404 && o->method == "DELETE" && st.present) && explain(rest, st, present, data, budget)) return true; if (refused) continue; }     // no effect (a deletion that found nothing saw no file)
        Pat n;
        if (o->method == "PUT") { n.present = true; n.seg.push_back(std::make_pair(o->body, !ok)); }
        else if (o->method == "POST") { n = st; if (!n.present) n.seg.clear(); n.present = true; n.seg.push_back(std::make_pair(o->body, !ok)); }
        else { n.present = false; }
        if (explain(rest, n, present, data, budget)) return true;
    }
    return false;
}
void check_cluster(File *f) {
    const std::string *d = simfs::data(f->path); std::vector<OpP> ops = f->cluster; f->cluster.clear(); if (ops.empty()) return;
    Pat st; st.present = f->p0; st.seg.push_back(std::make_pair(f->c0, false)); int budget = 20000; ++*counter("evals");
    bool ok = explain(ops, st, d != 0, d ? *d : std::string(), budget);
    std::string what; for (auto &o : ops) what += " " + o->method + "#" + o->id + "(" + std::to_string(o->body.size()) + ")=" + (o->lost ? "lost" : std::to_string(o->code));
    if (!ok) violation("write-not-done", "file %s: was %s, after%s it is %s, which these results do not explain", f->rel.c_str(), f->p0 ? ("'" + show(f->c0, 20) + "' (" + std::to_string(f->c0.size()) + ")").c_str() : "absent", what.c_str(), d ? ("'" + show(*d, 20) + "' (" + std::to_string(d->size()) + ")").c_str() : "absent");
    if (ops.size() > 1) SIM_PROBE("overlapping-writes");
}
void begin(const OpP &o) {
    o->s = ++g_seq; o->fs = simfs::faults_fired(); log("send #%s: '%s'", o->id.c_str(), show(o->wire, 100).c_str());
    if (o->write) { File *f = o->f; if (!f->inflight++) { const std::string *d = simfs::data(f->path); f->p0 = d != 0; f->c0 = d ? *d : ""; } f->cluster.push_back(o); }
}
void end_op(const OpP &o) { o->e = ++g_seq; o->fe = simfs::faults_fired(); o->done = true; if (o->write && --o->f->inflight == 0) check_cluster(o->f); }
bool writes_overlap(const OpP &o) {
    for (auto &x : o->f->cluster) if (x != o) return true; if (o->f->inflight) return true; return false;
}
std::vector<OpP> *WRITES;
bool write_overlapped(const OpP &o) { for (auto &w : *WRITES) if (w != o && w->f == o->f && w->s && w->s <= o->e && (!w->done || w->e >= o->s)) return true; return false; }

void judge(const OpP &o, const Resp &a) {
    o->code = a.code; end_op(o); File *f = o->f; bool flt = o->fe != o->fs; ++*counter("evals"); log("answer to #%s: %d, %zu bytes", o->id.c_str(), a.code, a.body.size());
    const char *id = o->id.c_str();
    if (o->write) {
        if (!g_writable) { CHECK(a.code == 405 || a.code == 403 || (a.code == 500 && flt), "read-only", "%s %s on a read-only service was answered with %d", o->method.c_str(), o->rel.c_str(), a.code); return; }
        bool alone = !write_overlapped(o); bool nodir = o->rel.compare(0, 6, "nodir/") == 0;
        if (nodir && o->method != "DELETE") CHECK(a.code >= 400, "write-not-done", "%s to %s, whose directory does not exist, was answered with %d", o->method.c_str(), o->rel.c_str(), a.code);
        if (alone && !flt && !nodir) {
            bool had = f->p0; if (o->method == "DELETE") CHECK(a.code == (had ? 204 : 404), "write-refused", "DELETE of %s (%s) was answered with %d", o->rel.c_str(), had ? "present" : "absent", a.code);
            else CHECK(a.code == (had ? 204 : 201), "write-refused", "%s of %s (%s) was answered with %d", o->method.c_str(), o->rel.c_str(), had ? "present" : "absent", a.code);
        }
        if (!good(o)) SIM_PROBE("write-refused"); return;
    }
    if (P("P23")) {
        if (write_overlapped(o)) return; const std::string *d = simfs::data(f->path);
        if (a.code == 200) { CHECK(d, "read-misses-write", "GET #%s got %s although it has been deleted", id, o->rel.c_str()); if (o->method == "GET" && !(a.until_close && flt && d->compare(0, a.body.size(), a.body) == 0)) CHECK(a.body == *d, "read-misses-write", "GET #%s of %s got '%s' (%zu bytes), the file holds '%s' (%zu)", id, o->rel.c_str(), show(a.body, 20).c_str(), a.body.size(), show(*d, 20).c_str(), d->size()); }
        else if (a.code == 304) CHECK(d && date(simfs::mtime(f->path) / 1000000) == o->ims, "not-modified", "GET #%s of %s was told 304", id, o->rel.c_str());
        else { bool unknown = (g_scan == 1 || g_scan == 3) && (!f->known || !g_known_ok); CHECK(a.code == 404 || a.code == 500, "wrong-status", "GET of %s was answered with %d", o->rel.c_str(), a.code); if (d && !flt && !unknown) violation("read-misses-write", "GET #%s of %s, which exists, was answered with %d", id, o->rel.c_str(), a.code); }
        return;
    }
    if (a.code == 200 || a.code == 304) {
        const std::string *lm = a.get("last-modified"), *ct = a.get("content-type"); bool whole = false; int64_t newest = -1; bool anyv = false;
        CHECK(lm, "no-last-modified", "response %s has no Last-Modified header", id);
        for (auto &v : f->v) { if (!allowed(f, v, o->s, o->e)) continue; anyv = true; if (a.code == 200 && o->method == "GET") { if (v.data == a.body) { whole = true; newest = std::max(newest, v.mt); } else if (a.until_close && (flt || shrunk_in(f, o->s, o->e)) && v.data.compare(0, a.body.size(), a.body) == 0) { whole = true; newest = std::max(newest, v.mt); } } else if (date(v.mt) == *lm) { whole = true; newest = std::max(newest, v.mt); } }
        CHECK(anyv, "file-is-gone", "request %s for %s was answered with %d although there is no such file", id, o->rel.c_str(), a.code);
        if (!whole && o->method == "GET" && a.code == 200) violation("wrong-bytes", "request %s for %s (cache=%d scan=%d chunk=%lu) got %zu bytes '%s' that are no version of the file (now %zu bytes '%s')", id, o->rel.c_str(), g_cache, g_scan, g_chunk, a.body.size(), show(a.body, 24).c_str(), f->v.back().data.size(), show(f->v.back().data, 24).c_str());
        if (!whole) violation("wrong-date", "request %s for %s: Last-Modified '%s' belongs to no version of the file", id, o->rel.c_str(), lm->c_str());
        if (a.code == 304) { CHECK(*lm == o->ims, "not-modified", "request %s was told 304 with a date other than the one it gave", id); SIM_PROBE("not-modified"); }
        else {
            bool okd = false; for (auto &v : f->v) if (v.present && v.b <= o->e && v.mt <= newest && date(v.mt) == *lm) okd = true;
            CHECK(okd, "wrong-date", "request %s for %s: Last-Modified '%s' is not that of the version sent (%s), nor of an earlier one", id, o->rel.c_str(), lm->c_str(), date(newest).c_str());
            CHECK(ct && *ct == mime(f->path), "wrong-type", "request %s for %s got type '%s'", id, o->rel.c_str(), ct ? ct->c_str() : "(none)");
            if (o->method == "GET") { SIM_PROBE("file-served"); if (a.nchunks > 1) SIM_PROBE("file-in-chunks"); }
        }
        return;
    }
    CHECK(a.code == 404 || a.code == 500, "wrong-status", "request %s for %s was answered with %d", id, o->rel.c_str(), a.code);
    if (absent_in(f, o->s, o->e) || flt) { SIM_PROBE("error-reported"); return; }
    if (a.code == 404 && (g_scan == 1 || g_scan == 3) && (!f->known || !g_known_ok)) { SIM_PROBE("unknown-file"); return; }
    if (a.code == 500 && shrunk_in(f, o->s, o->e)) { SIM_PROBE("error-reported"); return; }
    violation("file-refused", "request %s for %s (cache=%d scan=%d), which was there all the time, was answered with %d", id, o->rel.c_str(), g_cache, g_scan, a.code);
}
/// the connection ended before the response was complete
void cut_short(simnet::Client &c, const OpP &o, size_t pos) {
    o->lost = true; o->code = 0; end_op(o); if (faulted(c)) return; File *f = o->f; bool flt = o->fe != o->fs; SIM_PROBE("cut-short");
    log("answer to #%s is cut short: '%s'", o->id.c_str(), show(c.in.substr(pos), 40).c_str());
    if (o->write) { violation("no-answer", "request %s got no answer", o->id.c_str()); }
    if (c.in.size() == pos && !o->write) violation("no-answer", "request %s for %s: the connection ended without an answer", o->id.c_str(), o->rel.c_str());
    if (P("P23") && write_overlapped(o)) return;
    if (!flt && !shrunk_in(f, o->s, o->e)) violation("file-cut-short", "request %s for %s (cache=%d scan=%d chunk=%lu): the connection ended in the middle of the response for no reason", o->id.c_str(), o->rel.c_str(), g_cache, g_scan, g_chunk);
}
void exchange(simnet::Client &c, std::vector<OpP> v, bool pipelined) {
    for (auto &o : v) if (o->write) WRITES->push_back(o);
    for (int tries = 0; !c.end || c.eof || c.rst; ++tries) { c.close(); c = simnet::Client(); if (c.connect(g_port)) break; if (tries > 20) violation("not-serving", "cannot connect"); sim::sleep(1000 + plan(50000)); }
    size_t pos = c.in.size(); bool lost = false; std::string all;
    if (pipelined) { for (auto &o : v) { begin(o); all += o->wire; } c.send(all, 60 * SEC); }
    for (auto &o : v) {
        if (lost) { if (o->s) { o->lost = true; end_op(o); } continue; }
        if (!pipelined) { begin(o); c.send(o->wire, 60 * SEC); }
        Resp a; int st = 0; uint64_t dl = sim::now() + 300 * SEC; std::string why;
        for (;;) { st = c.in.size() > pos ? parse_resp(c.in, pos, o->method == "HEAD", c.eof, a, &why) : 0; if (st || c.eof || c.rst || sim::now() >= dl) break; c.timed_out = false; c.recv_some(dl - sim::now()); }
        if (st < 0) violation("malformed", "response to %s: %s: '%s'", o->id.c_str(), why.c_str(), show(c.in.substr(pos), 60).c_str());
        if (st == 1) { pos = a.end; judge(o, a); if (a.close && c.in.size() == pos) { c.recv_eof(60 * SEC); if (!c.eof && !c.rst) violation("not-closed", "the connection stays open after a response that announced its end"); lost = true; } continue; }
        if (!c.eof && !c.rst) violation("hang", "request %s for %s gets no (complete) answer and the connection stays open", o->id.c_str(), o->rel.c_str());
        cut_short(c, o, pos); lost = true;
    }
}
std::vector<int> *FIB; bool over() { for (int x : *FIB) if (!done(x)) return false; return true; }
File *pick() { if (!g_dirset) return file_of(g_file.substr(strlen(DIR) + 1)); return (*FILES)[plan((uint32_t)FILES->size())]; }
void client(int n, uint64_t pause, uint32_t wr) {
    simnet::Client c;
    for (int i = 0; i < n;) {
        std::vector<OpP> v; int k = plan(4) == 3 ? plan_range(2, 4) : 1; for (int j = 0; j < k; ++j) { bool w = wr && plan(100) < wr && g_dirset; File *f = pick(); if (w) v.push_back(write_op(f)); else { OpP o = get_op(f); if (k > 1 && o->v10) o = get_op(f); if (o->v10) k = j; v.push_back(o); } }
        i += (int)v.size(); bool pipe = plan(3) == 2; bool wrt = false; for (auto &o : v) if (o->write) wrt = true; if (wrt && P("P23")) pipe = false;
        exchange(c, v, pipe); if (plan(4) == 3) { c.close(); c = simnet::Client(); } if (pause && plan(2)) sim::sleep(plan((uint32_t)pause));
    }
    c.close();
}
/// asks for a file and goes away before it has it all
void impatient(int n, uint64_t pause) {
    for (int i = 0; i < n; ++i) { simnet::Client c; if (!c.connect(g_port)) { sim::sleep(1000); continue; } OpP o = get_op(pick()); log("send #%s and leave: '%s'", o->id.c_str(), show(o->wire, 100).c_str()); c.send(o->wire, SEC); if (plan(2)) c.recv_some(1 + plan(5000)); if (plan(2)) sim::sleep(plan(3000)); if (plan(2)) c.reset(); else c.close(); SIM_PROBE("client-left"); if (pause) sim::sleep(plan((uint32_t)pause)); }
}
void editor(int n, uint64_t pause) { for (int i = 0; i < n; ++i) { if (pause) sim::sleep(plan((uint32_t)pause)); else sim::yield(); edit(pick()); } }

// ---------------------------------------------------------------- P22: paths
std::string pct_decode(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) { o += (char)strtoul(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i] == '+' ? ' ' : s[i]; } return o; }
/// where does a path, taken relative to the directory, point?
std::string where(const std::string &rel) {
    std::vector<std::string> st; for (const std::string &part : { std::string(DIR), rel }) { size_t i = 0; while (i <= part.size()) { size_t j = part.find('/', i); if (j == std::string::npos) j = part.size(); std::string s = part.substr(i, j - i); i = j + 1; if (s.empty() || s == ".") continue; if (s == "..") { if (!st.empty()) st.pop_back(); } else st.push_back(s); } }
    std::string o; for (auto &s : st) o += "/" + s; return o.empty() ? "/" : o;
}
bool inside(const std::string &p) { size_t n = strlen(DIR); return g_dirset && p.compare(0, n, DIR) == 0 && (p.size() == n || p[n] == '/'); }
std::string wild() {
    static const char *const S[] = { "a.txt", "..", "sub", "www-secret", "x.txt", "%2e%2e", ".", "www2", "", "www", "secret.txt", ".%2E", "deep", "nosuch", "srv", "etc", "passwd", "..%2f", "%2fetc%2fpasswd", "%00", "a.txt%00.html", "..%00", "..%5c", "...", "..a", "~root", "%2e", "..%2fwww-secret%2fx.txt", "..;", "%252e%252e", "wwww", "one.txt" };
    std::string s; int n = plan_range(1, 6); for (int i = 0; i < n; ++i) { s += plan(9) == 8 ? "%2f" : plan(12) == 11 ? "//" : "/"; s += S[plan(plan(2) ? 8 : (uint32_t)(sizeof S / sizeof *S))]; } return s;
}
void prober(int n) {
    simnet::Client c;
    for (int i = 0; i < n; ++i) {
        static const char *const M[] = { "GET", "DELETE", "PUT", "POST", "HEAD", "PATCH" }; std::string m = M[plan(6)], rel = wild(), body = m[0] == 'P' ? content(plan(30)) : "", url = g_res + rel;
        for (int tries = 0; !c.end || c.eof || c.rst; ++tries) { c.close(); c = simnet::Client(); if (c.connect(g_port)) break; if (tries > 20) violation("not-serving", "cannot connect"); sim::sleep(1000 + plan(50000)); }
        size_t pos = c.in.size(); log("send '%s %s'", m.c_str(), url.c_str()); uint64_t a0 = simfs::faults_fired();
        c.send(m + " " + url + " HTTP/1.1\r\nHost: sim\r\n" + (body.empty() ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body, 60 * SEC);
        Resp a; int st = 0; uint64_t dl = sim::now() + 300 * SEC;
        for (;;) { st = c.in.size() > pos ? parse_resp(c.in, pos, m == "HEAD", c.eof, a) : 0; if (st || c.eof || c.rst || sim::now() >= dl) break; c.timed_out = false; c.recv_some(dl - sim::now()); }
        if (st != 1) { if (c.eof || c.rst) { if (faulted(c) || simfs::faults_fired() != a0 || (g_writable && c.in.size() > pos)) { c.close(); continue; } } violation("no-answer", "'%s %s' gets no answer", m.c_str(), url.c_str()); }
        ++*counter("evals"); std::string w = where(pct_decode(rel.substr(1)));
        if (!inside(w)) { SIM_PROBE("points-outside"); if (a.code < 400 && !(w == DIR && !g_file.empty())) { bool empty_rel = url.size() <= g_res.size() + 1; if (!empty_rel) violation("outside-not-refused", "'%s %s' points to %s, outside the directory, and was answered with %d", m.c_str(), url.c_str(), w.c_str(), a.code); } }
        else if (a.code < 400) SIM_PROBE("inside-served");
        if (!g_writable && m != "GET" && m != "HEAD" && a.code < 400) violation("read-only", "'%s %s' on a read-only service was answered with %d", m.c_str(), url.c_str(), a.code);
    }
    c.close();
}
std::map<std::string, std::string> snapshot(bool out) { std::map<std::string, std::string> m; for (auto &p : simfs::all_files()) if ((inside(p) || p == g_file) != out) m[p] = *simfs::data(p); return m; }
void faults(bool io) {
    simfs::cfg = simfs::Cfg(); if (!io) return; uint32_t k = plan(4); if (k == 0) return; int r = k == 1 ? 20 : k == 2 ? 60 : 200;
    simfs::Cfg &f = simfs::cfg; if (plan(2)) f.open_err = r; if (plan(2)) f.read_err = r; if (plan(2)) f.read_short = r * 2; if (plan(2)) f.stat_err = r / 3; if (plan(2)) f.close_err = r; if (plan(2)) f.write_err = r; if (plan(2)) f.write_short = r * 2; if (plan(2)) f.unlink_err = r;
}
}
void harness_run() {
    quiet_logging(); simnet::random_config(); simnet::cfg.delay_max = plan(3) ? 100 : 3000; simnet::cfg.stall_num = 0; if (simnet::cfg.capacity < 512) simnet::cfg.capacity = 512; if (params.stall_us > 300000) params.stall_us = 300000;
    FILES = new std::vector<File *>(); FIB = new std::vector<int>(); WRITES = new std::vector<OpP>(); g_idn = 0;
    simfs::enable("/srv"); simfs::mkdirs(DIR);
    g_cache = plan(3); g_scan = plan(3) ? 0 : plan(4); g_chunk = plan(2) ? 0 : plan(3) ? (unsigned long)plan_range(40, 3000) : (unsigned long)plan_range(1, 60); g_res = plan(4) ? "/files" : plan(2) ? "" : "/f/g"; g_writable = P("P21") ? false : P("P22") ? plan(3) != 0 : plan(6) != 0;
    auto init = [&](const char *rel, bool there) { size_t n = some_size(0); std::string d = content(n); add_file(rel, there ? d.c_str() : 0, n); };
    init("a.txt", true); init("b.html", plan(3) != 0); init("sub/d.js", true); simfs::mkdirs("/srv/www/sub/deep"); if (P("P23")) init("n.bin", false); else { init("sub/a.txt", plan(3) != 0); init("c.PNG", plan(2)); init("noext", plan(2)); }
    if (P("P23") && plan(4) == 3) { add_file("nodir/z.txt", 0, 0); }
    simfs::put("/srv/www-secret/x.txt", "secret of the neighbour"); simfs::put("/srv/www2/a.txt", "neighbour"); simfs::put("/srv/secret.txt", "secret"); simfs::put("/etc/passwd", "root"); simfs::put("/srv/wwww", "w"); simfs::put("/srv/one.txt", "single"); simfs::put("/srv/a.txt", "parent"); simfs::put("/x.txt", "top");
    g_dirset = plan(8) != 7 || P("P23"); if (!g_dirset || plan(3) == 2) g_file = g_dirset || plan(2) || P("P21") ? "/srv/www/a.txt" : "/srv/one.txt";
    pion::single_service_scheduler *S = 0; int nt = plan_range(1, 4); std::string dirname = DIR; switch (plan(5)) { case 3: dirname = "/srv/./www"; break; case 4: dirname = "www"; break; case 2: dirname = "/srv/x/../www"; break; default: break; }
    if (dirname == "/srv/x/../www") simfs::mkdirs("/srv/x"); bool relative = dirname == "www"; (void)relative;
    size_t acc0 = 0; uint64_t h0 = (uint64_t)simfs::open_handles();
    loud([&] {
        S = new pion::single_service_scheduler(); S->set_num_threads(nt); SRV = new pion::http::server(*S, 0); SVC = new pion::plugins::FileService();
        { Quiet q; acc0 = simfs::accesses.size(); }
        SVC->set_resource(g_res); if (g_dirset) SVC->set_option("directory", dirname); if (!g_file.empty()) SVC->set_option("file", g_file); SVC->set_option("cache", std::to_string(g_cache)); SVC->set_option("scan", std::to_string(g_scan)); SVC->set_option("max_chunk_size", std::to_string(g_chunk)); SVC->set_option("writable", g_writable ? "true" : "false");
        SRV->add_resource(g_res, boost::ref(*SVC));
    });
    bool io = plan(3) != 0; for (auto f : *FILES) f->known = f->v.back().present && (g_dirset || f->path == g_file);
    faults(io); uint64_t nf = simfs::faults_fired();
    loud([&] { for (int i = 0;; ++i) { try { SVC->start(); break; } catch (std::exception &) { if (simfs::faults_fired() == nf) violation("start", "the service cannot start"); if (i == 8) set_faults(false); SVC->stop(); } } });
    if (simfs::faults_fired() != nf) g_known_ok = false;
    loud([&] { for (int i = 0;; ++i) { try { SRV->start(); break; } catch (std::exception &) { if (i == 8) set_faults(false); if (i == 12) violation("start", "cannot start"); } } });
    set_faults(true); g_port = (uint16_t)SRV->get_port(); if (io && P("P23") && plan(4) == 3) { uint64_t u = 0; for (auto &p : simfs::all_files()) u += simfs::data(p)->size(); simfs::cfg.capacity = u + plan(12000); }
    auto out0 = snapshot(true), in0 = snapshot(false); uint64_t pause = plan(2) ? 0 : plan(2) ? 3000 : 1500000; int nc = plan_range(1, 4), n = plan_range(3, 14);
    if (P("P22")) { for (int i = 0; i < nc; ++i) FIB->push_back(spawn("prober", [=] { prober(n * 2); })); }
    else {
        for (int i = 0; i < nc; ++i) FIB->push_back(spawn("client", [=] { client(n, pause, P("P23") ? 60 : 0); }));
        if (P("P21")) { if (plan(4)) FIB->push_back(spawn("editor", [=] { editor(plan_range(1, 12), pause ? pause : 400); })); if (plan(3) == 2) FIB->push_back(spawn("impatient", [=] { impatient(plan_range(1, 6), pause); })); }
    }
    if (!wait_until(&over, 20000 * SEC)) violation("stuck", "clients did not finish");
    set_faults(false); simfs::cfg = simfs::Cfg();
    if (!P("P22")) { // without faults everything that is there can be had
        simnet::Client c; for (auto f : *FILES) { if (!g_dirset && f->path != g_file) continue; OpP o = get_op(f); std::vector<OpP> v(1, o); exchange(c, v, false); } c.close();
    }
    for (int i = 0; (SRV->get_connections() || (uint64_t)simfs::open_handles() != h0) && i < 40; ++i) sim::sleep(SEC);       // (a connection that was kept open is closed by its read timeout)
    if (SRV->get_connections()) violation("connection-leaked", "%zu connections are left after all clients have gone", (size_t)SRV->get_connections());
    if ((uint64_t)simfs::open_handles() != h0) violation("file-leaked", "%d files are still open after all clients have gone", simfs::open_handles());
    bool sd = false; int sf = spawn("stopper", [&] { loud([&] { SRV->stop(false); SVC->stop(); delete SRV; SRV = 0; S->shutdown(); delete S; delete SVC; }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stop did not return"); join(sf);
    for (size_t i = acc0; i < simfs::accesses.size(); ++i) { const simfs::Access &a = simfs::accesses[i]; if (!inside(a.path) && a.path != g_file) violation("touched-outside", "the service %s %s, which is outside its directory", a.kind == simfs::STAT ? "looked at" : a.kind == simfs::OPEN_R ? "opened" : a.kind == simfs::OPEN_W ? "opened for writing" : a.kind == simfs::LIST ? "listed" : a.kind == simfs::UNLINK ? "removed" : "changed", a.path.c_str()); }
    if (snapshot(true) != out0) violation("changed-outside", "files outside the directory have changed");
    if (!g_writable && !P("P21") && snapshot(false) != in0) violation("read-only", "files of a read-only service have changed");
}
