// P27: web services of the plug-in server: loading, options, start and stop, requests, destruction, configuration files
#include "httpx.hpp"
#include "core/fs.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <dlfcn.h>
#include <pion/http/plugin_server.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/scheduler.hpp>
#include <set>
using namespace sim; using namespace hx;
using pion::tcp::connection; using pion::tcp::connection_ptr; using pion::http::request_ptr; using pion::http::response_writer; using pion::http::response_writer_ptr;
#define GUARD(...) do { Quiet q; __VA_ARGS__ } while (0)

namespace {
const uint64_t INF = ~0ull; uint64_t g_seq = 1; uint16_t g_port; pion::http::plugin_server *SRV;
struct Lib { const char *name, *path; bool loadable; int loads, unloads; void *handle; };
Lib L[] = { { "alpha", "/plug/alpha.so", true }, { "beta", "/plug/beta.so", true }, { "broken", "/plug/broken.so", false } }; const int NL = 3;
bool loaded(int l) { return L[l].loads > L[l].unloads; }
enum St { STOPPED, STARTED };
struct Svc;
struct Rec { int serial, lib; std::string key; uint64_t rb, re, ub, ue; std::vector<std::string> opts; bool alive, expected_start; St st; int starts, stops, inside; long served; Svc *p; };     // registered possibly from rb, surely from re, surely until ub, possibly until ue
std::vector<Rec *> *RECS; Rec *g_pending;      // g_pending: the record of the registration being made (one at a time per loader; see reg())
int g_srv_state; /* 0 stopped, 1 starting, 2 running, 3 stopping */ bool g_start_throws; int g_epoch;
void adopt(Rec *r);
struct Svc : public pion::http::plugin_service {
    Rec *r;
    explicit Svc(int lib) { Quiet q; r = new Rec(); r->serial = (int)RECS->size() + 1; r->lib = lib; r->rb = r->re = r->ub = r->ue = INF; r->alive = true; r->st = STOPPED; r->p = this; RECS->push_back(r); log("service %d created by %d", r->serial, lib); }
    virtual ~Svc() {
        Quiet q; CHECK(r->alive, "destroyed-twice", "service %d destroyed twice", r->serial); CHECK(r->inside == 0, "destroyed-in-use", "service %d (%s) is destroyed while %d requests are inside it", r->serial, r->key.c_str(), r->inside);
        CHECK(r->st == STOPPED, "destroyed-started", "service %d (%s) is destroyed without having been stopped", r->serial, r->key.c_str());
        if (r->lib >= 0) CHECK(loaded(r->lib), "library-gone", "service %d is destroyed after its library was unloaded", r->serial);
        r->alive = false; log("service %d destroyed", r->serial); ++*counter("evals");
    }
    void usable(const char *what) { CHECK(r->alive, "used-after-destroy", "%s of service %d after it was destroyed", what, r->serial); if (r->lib >= 0) CHECK(loaded(r->lib), "library-gone", "%s of service %d whose library is not loaded", what, r->serial); }
    virtual void set_option(const std::string &n, const std::string &v) { GUARD(usable("set_option()"); log("service %d option '%s'='%s'", r->serial, show(n).c_str(), show(v).c_str());); if (n == "bad") plugin_service::set_option(n, v); GUARD(r->opts.push_back(n + "=" + v);); }
    virtual void start() {
        GUARD(usable("start()"); log("service %d start", r->serial); CHECK(g_srv_state == 1, "started-outside-start", "service %d is started while the server is not being started", r->serial); CHECK(r->st == STOPPED, "started-twice", "service %d (%s) is started again without having been stopped", r->serial, r->key.c_str()););
        sim::yield(); bool t; { Quiet q; t = g_start_throws && fault("service-start-throws", 1, 4); if (t) log("service %d: start throws", r->serial); } if (t) throw std::runtime_error("cannot start");
        GUARD(r->st = STARTED; ++r->starts;);
    }
    virtual void stop() {
        GUARD(usable("stop()"); log("service %d stop", r->serial); CHECK(r->inside == 0, "stopped-in-use", "service %d (%s) is stopped while %d requests are inside it", r->serial, r->key.c_str(), r->inside);
              CHECK(r->st == STARTED || !r->expected_start, "stopped-twice", "service %d (%s) is stopped though it is not started", r->serial, r->key.c_str()););
        sim::yield(); GUARD(r->st = STOPPED; ++r->stops; r->expected_start = false;);
    }
    virtual void operator()(const request_ptr &rq, const connection_ptr &c) {
        std::string rel, res; int how; { Quiet q; usable("a request"); ++r->inside; if (r->rb == INF) adopt(r); }
        rel = get_relative_resource(rq->get_resource()); res = get_resource();
        {
            Quiet q; ++r->served; std::string want = rq->get_resource(); if (want.size() > 1 && want[want.size() - 1] == '/') want.resize(want.size() - 1); if (want == "/") want = "";
            log("service %d (%s) gets %s", r->serial, r->key.c_str(), rq->get_resource().c_str());
            CHECK(r->rb != INF, "not-registered", "service %d gets a request although it was never registered", r->serial);
            CHECK(res == r->key, "wrong-resource", "service %d registered as '%s' handles a request while its resource is '%s'", r->serial, r->key.c_str(), show(res).c_str());
            CHECK(want.compare(0, r->key.size(), r->key) == 0 && (want.size() == r->key.size() || want[r->key.size()] == '/'), "foreign-request", "service %d registered as '%s' gets a request for %s", r->serial, r->key.c_str(), rq->get_resource().c_str());
            CHECK(r->st == STARTED || !r->expected_start, "request-before-start", "service %d (%s) gets a request although it has not been started%s", r->serial, r->key.c_str(), r->stops ? " again" : "");
            how = plan(6); ++*counter("evals"); SIM_PROBE("request-served");
        }
        if (how == 4) { Quiet q; sim::sleep(plan(plan(2) ? 3000 : 2000000)); } else if (how == 5) sim::yield();
        bool boom = rq->has_query("boom"); int serial; { Quiet q; usable("a request"); serial = r->serial; }
        if (boom) { GUARD(SIM_COUNT("fault.handler-throws"); --r->inside;); throw std::runtime_error("handler died"); }
        response_writer_ptr w(response_writer::create(c, *rq, boost::bind(&connection::finish, c)));
        { Quiet q; --r->inside; }      // from here on the service may go
        w << serial << ' ' << rel; w->send();
    }
};
bool g_create_throws;
template <int l> Svc *create_fn() { { sim::sync_point(1302); Quiet q; CHECK(loaded(l), "library-gone", "create function of an unloaded library"); if (g_create_throws && fault("create-throws", 1, 6)) throw std::runtime_error("cannot create"); } return new Svc(l); }
template <int l> void destroy_fn(Svc *o) { { sim::sync_point(1303); Quiet q; CHECK(loaded(l), "library-gone", "destroy function of an unloaded library"); CHECK(o->r->lib == l, "wrong-destroyer", "service of library %d destroyed by %d", o->r->lib, l); } delete o; }
const char *g_dlerr;
}
extern "C" {
void *sim_dlopen(const char *path, int) {
    sim::sync_point(1310); Quiet q;
    for (int l = 0; l < NL; ++l) if (!strcmp(path, L[l].path)) {
        if (!L[l].loadable || fault("dlopen-fails", 1, 6)) { log("dlopen %s fails", L[l].name); g_dlerr = "cannot load"; return 0; }
        CHECK(!loaded(l), "loaded-twice", "library %s loaded twice", L[l].name); ++L[l].loads; L[l].handle = (void *)new int(l); log("dlopen %s", L[l].name); return L[l].handle;
    }
    g_dlerr = "no such file"; return 0;
}
void *sim_dlsym(void *h, const char *s) {
    sim::sync_point(1312); Quiet q; int l = -1; for (int i = 0; i < NL; ++i) if (L[i].handle == h) l = i; CHECK(h && l >= 0, "stale-handle", "dlsym on a handle that is not open");
    if (std::string("pion_create_") + L[l].name == s) return l == 0 ? (void *)&create_fn<0> : (void *)&create_fn<1>;
    if (std::string("pion_destroy_") + L[l].name == s) return l == 0 ? (void *)&destroy_fn<0> : (void *)&destroy_fn<1>;
    g_dlerr = "undefined symbol"; return 0;
}
int sim_dlclose(void *h) { sim::sync_point(1313); Quiet q; int l = -1; for (int i = 0; i < NL; ++i) if (L[i].handle == h) l = i; CHECK(h && l >= 0, "unloaded-twice", "dlclose on a handle that is not open"); for (auto r : *RECS) CHECK(!(r->alive && r->lib == l), "library-gone", "library %s is unloaded while service %d lives", L[l].name, r->serial); ++L[l].unloads; L[l].handle = 0; log("dlclose %s", L[l].name); return 0; }
char *sim_dlerror(void) { const char *e = g_dlerr; g_dlerr = 0; return (char *)e; }
}
namespace {
std::string strip(std::string s) { if (!s.empty() && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }
const char *const KEYS[] = { "/a", "/a/b", "/a-x", "/c", "" }; const int NKEY = 5;
bool match(const std::string &k, const std::string &r) { return r.compare(0, k.size(), k) == 0 && (r.size() == k.size() || r[k.size()] == '/'); }
bool faulted(simnet::Client &c) { simnet::EndP p = c.end ? c.end->peer.lock() : simnet::EndP(); return p && p->tag == "accept-fault"; }

// ---------------------------------------------------------------- administration
Rec *live_rec(const std::string &key) { for (auto r : *RECS) if (r->key == key && r->rb != INF && r->ub == INF) return r; return 0; }
struct Reg { std::string key; uint64_t rb; int lib; };
std::vector<Reg> *PENDING;          // registrations under way: the service object is made inside the call
/// called first thing for any service that shows up: binds it to the registration under way
void adopt(Rec *r) { for (auto &p : *PENDING) if (p.lib == r->lib && p.rb != INF) { r->key = p.key; r->rb = p.rb; return; } }
/// registers a service; false when refused
bool reg(const std::string &key, int lib, bool slash) {
    std::string w = key + (slash ? "/" : ""); Rec *there = live_rec(key); bool sure = there && there->re != INF; uint64_t f0 = simfs::faults_fired(); int st0 = g_srv_state; int ep0 = g_epoch;
    log("%s '%s' with %d", lib < 0 ? "add" : "load", w.c_str(), lib); bool ok = false, dup = false; Rec *r = 0; size_t n0 = RECS->size(); Svc *mine = 0; uint64_t rb = ++g_seq;
    if (lib < 0) { { Loud l; mine = new Svc(-1); } r = mine->r; r->key = key; r->rb = rb; }
    else { Reg p = { key, rb, lib }; PENDING->push_back(p); }
    uint64_t df0 = *counter("fault.dlopen-fails") + *counter("fault.create-throws");
    try { Loud l; if (lib < 0) SRV->add_service(w, mine); else SRV->load_service(w, L[lib].name); ok = true; }
    catch (pion::error::duplicate_plugin &) { dup = true; } catch (std::exception &e) { log("refused"); }
    if (lib >= 0) { for (size_t i = 0; i < PENDING->size(); ++i) if ((*PENDING)[i].rb == rb) { PENDING->erase(PENDING->begin() + (long)i); break; } for (size_t i = n0; i < RECS->size(); ++i) if ((*RECS)[i]->lib == lib && (*RECS)[i]->alive && ((*RECS)[i]->rb == INF || (*RECS)[i]->rb == rb)) r = (*RECS)[i]; }
    ++*counter("evals");
    if (sure) CHECK(!ok && dup, "duplicate-accepted", "a second service for '%s' was accepted", key.c_str());
    if (!ok && !there && lib >= 0 && !dup && L[lib].loadable && f0 == simfs::faults_fired() && df0 == *counter("fault.dlopen-fails") + *counter("fault.create-throws")) violation("load-refused", "loading %s as '%s' failed without a fault", L[lib].name, key.c_str());
    if (ok && lib == 2) violation("failure-not-reported", "loading a library that cannot be loaded succeeded");
    if (!ok) { if (r && r->alive) { if (lib < 0) { CHECK(r->p->r->served == 0 || there == 0, "failure-not-reported", "service of a refused registration served requests"); r->rb = INF; Loud l; delete mine; } else violation("service-leaked", "loading '%s' failed but its service %d lives on", key.c_str(), r->serial); } log("refused%s", dup ? " (duplicate)" : ""); SIM_PROBE("registration-refused"); return false; }
    CHECK(r, "no-service", "'%s' was registered but no service was made", key.c_str()); r->key = key; r->rb = rb; r->re = ++g_seq;
    r->expected_start = st0 == 0 && g_srv_state == 0 && ep0 == g_epoch ? true : false;      // (one that joins a running server is not started)
    SIM_PROBE("service-registered"); return true;
}
void option(const std::string &key, const std::string &n, const std::string &v) {
    Rec *r = live_rec(key); if (r && r->re == INF) r = 0; size_t before = r ? r->opts.size() : 0; bool ok = false, nf = false, bad = false; log("option '%s' %s=%s", key.c_str(), n.c_str(), v.c_str());
    try { Loud l; SRV->set_service_option(key + (plan(3) ? "" : "/"), n, v); ok = true; } catch (pion::error::plugin_not_found &) { nf = true; } catch (pion::error::bad_arg &) { bad = true; }
    ++*counter("evals"); if (!r) {  bool pend = live_rec(key) != 0; for (auto &p : *PENDING) if (p.key == key) pend = true; CHECK(nf || pend, "option-lost", "setting an option of '%s', where there is no service, did not fail", key.c_str()); return; }
    if (n == "bad") CHECK(bad, "option-lost", "the refusal of an option was not reported"); else CHECK(ok && r->opts.size() > before && std::find(r->opts.begin() + (long)before, r->opts.end(), n + "=" + v) != r->opts.end(), "option-lost", "option %s of '%s' did not arrive", n.c_str(), key.c_str());
}
void random_reg() { int k = plan(NKEY); int lib = plan(8) == 7 ? 2 : plan(3) - 1; if (k == 4 && plan(3)) k = 0; reg(KEYS[k], lib, plan(4) == 3); }
bool start_server(int tries) {
    for (int i = 0; i < tries; ++i) {
        ++g_epoch; g_srv_state = 1; bool ok = false; for (auto r : *RECS) if (r->alive && r->re != INF && r->ub == INF) r->expected_start = true;
        uint64_t f0 = *counter("fault.service-start-throws") + *counter("fault.bind"), all0 = 0; (void)all0; log("start"); bool threw = false;
        try { Loud l; SRV->start(); ok = true; } catch (std::exception &) { threw = true; }
        ++*counter("evals"); log("start %s", ok ? "done" : "failed");
        if (ok) { for (auto r : *RECS) if (r->alive && r->expected_start && r->ub == INF) CHECK(r->st == STARTED, "not-started", "service %d (%s) has not been started with the server", r->serial, r->key.c_str()); g_srv_state = 2; g_port = (uint16_t)SRV->get_port(); SIM_PROBE("server-started"); return true; }
        (void)f0; (void)threw; g_srv_state = 0; SIM_PROBE("server-start-failed");
        for (auto r : *RECS) if (r->alive) { CHECK(r->st == STOPPED, "left-started", "starting the server failed, but service %d (%s) is left started", r->serial, r->key.c_str()); if (r->ub == INF && r->re != INF) r->expected_start = true; }
    }
    return false;
}
void after_stop() { g_srv_state = 0; for (auto r : *RECS) if (r->alive) { CHECK(r->st == STOPPED, "not-stopped", "the server has stopped, but service %d (%s) has not been", r->serial, r->key.c_str()); CHECK(r->inside == 0, "stopped-in-use", "the server has stopped but requests are inside service %d", r->serial); if (r->ub == INF && r->re != INF) r->expected_start = true; } }
void stop_server(bool wait) { if (g_srv_state != 2) return; g_srv_state = 3; log("stop(%d)", (int)wait); loud([&] { SRV->stop(wait); }); log("stopped"); after_stop(); SIM_PROBE("server-stopped"); }
void clear_server() {
    log("clear"); bool run = g_srv_state == 2; if (run) g_srv_state = 3; uint64_t b = ++g_seq; for (auto r : *RECS) if (r->rb != INF && r->ub == INF) r->ub = b;
    loud([&] { SRV->clear(); }); uint64_t e = ++g_seq; for (auto r : *RECS) if (r->ub == b) r->ue = e; g_srv_state = 0;
    for (auto r : *RECS) CHECK(!r->alive, "not-destroyed", "the server was cleared but service %d (%s) lives", r->serial, r->key.c_str()); SIM_PROBE("server-cleared"); log("cleared");
}
// ---------------------------------------------------------------- clients
bool g_over, g_hot;
void client(int n, uint64_t pause) {
    simnet::Client c; int failed = 0, ec = 0;
    for (int i = 0; i < n && !g_over; ++i) {
        static const char *const R[] = { "/a", "/a/", "/a/x", "/a/b", "/a/b/y%41/z", "/ab", "/a-x/1", "/c/d", "/z", "/a/bb", "/" }; static const char *const D[] = { "", "", "x", "", "yA/z", "", "1", "d", "", "bb", "" }; (void)D;
        int k = plan(g_hot ? 3 : 11); std::string res = R[k], want = strip(res); bool boom = plan(10) == 9; if (pause) sim::sleep(plan((uint32_t)pause));
        bool fresh = !c.end || c.eof || c.rst; if (fresh) { c.close(); c = simnet::Client(); ec = g_srv_state == 2 ? g_epoch : -1; if (!g_port || !c.connect(g_port)) { if (++failed > 60) return; --i; sim::sleep(1000 + plan(60000)); continue; } }
        size_t pos = c.in.size(); uint64_t s = ++g_seq; int e0 = g_epoch, st0 = g_srv_state; log("send %s", res.c_str());
        bool close = plan(4) == 3; c.send("GET " + res + (boom ? "?boom=1" : "") + " HTTP/1.1\r\nHost: s\r\n" + (close ? "Connection: close\r\n" : "") + "\r\n", 60 * SEC);
        Resp a; int st = 0; uint64_t dl = sim::now() + 60 * SEC; std::string why;
        for (;;) { st = c.in.size() > pos ? parse_resp(c.in, pos, false, c.eof, a, &why) : 0; if (st || c.eof || c.rst || sim::now() >= dl) break; c.timed_out = false; c.recv_some(dl - sim::now()); }
        uint64_t e = ++g_seq; CHECK(st >= 0, "bad-response", "bad response: %s", why.c_str());
        if (st == 0) { // cut off: by the end of the server, or by an accept fault
            bool calm = e0 == g_epoch && ec == g_epoch && st0 == 2 && g_srv_state == 2; if (calm && !faulted(c) && fresh && (c.eof || c.rst)) violation("no-answer", "a request for %s got no answer though the server kept running", res.c_str());
            if (!(c.eof || c.rst)) violation("no-answer", "a request for %s is neither answered nor cut off", res.c_str()); c.close(); c = simnet::Client(); SIM_PROBE("request-cut-off"); continue; }
        log("answer %d '%s'", a.code, show(a.body).c_str()); ++*counter("evals"); if (close || a.close) { c.close(); c = simnet::Client(); }
        Rec *best_sure = 0; for (auto r : *RECS) if (r->re <= s && r->ub >= e && match(r->key, want) && (!best_sure || r->key.size() > best_sure->key.size())) best_sure = r;
        if (a.code == 404) { CHECK(!best_sure, "service-not-found", "%s was answered with 404 although '%s' is offered by service %d", res.c_str(), best_sure->key.c_str(), best_sure->serial); SIM_PROBE("not-found"); continue; }
        if (a.code == 500) { CHECK(boom, "wrong-status", "%s was answered with 500", res.c_str()); continue; }
        CHECK(a.code == 200 && !boom, "wrong-status", "%s was answered with %d", res.c_str(), a.code);
        size_t sp = a.body.find(' '); int serial = atoi(a.body.c_str()); CHECK(sp != std::string::npos && serial >= 1 && serial <= (int)RECS->size(), "bad-answer", "body '%s'", show(a.body).c_str()); Rec *r = (*RECS)[(size_t)serial - 1];
        CHECK(match(r->key, want), "foreign-request", "%s was answered by service %d ('%s')", res.c_str(), serial, r->key.c_str());
        CHECK(r->rb <= e && r->ue >= s, "not-registered", "%s was answered by service %d which was not offered at the time", res.c_str(), serial);
        CHECK(!best_sure || r->key.size() >= best_sure->key.size(), "shadowed", "%s was answered by '%s' although '%s' is offered", res.c_str(), r->key.c_str(), best_sure->key.c_str());
        std::string rel = res.size() <= r->key.size() + 1 ? "" : res.substr(r->key.size() + 1); size_t pc = rel.find("%41"); if (pc != std::string::npos) rel.replace(pc, 3, "A");
        CHECK(a.body.substr(sp + 1) == rel, "wrong-resource", "service '%s' took the rest of %s for '%s'", r->key.c_str(), res.c_str(), show(a.body.substr(sp + 1)).c_str());
    }
    c.close();
}
// ---------------------------------------------------------------- configuration files
struct Want { bool bad = false; std::map<std::string, std::pair<int, std::vector<std::string> > > svc; int auth = 0; std::vector<std::string> restr; std::map<std::string, std::string> users; };
std::string spaces() { return plan(3) ? " " : plan(2) ? "\t" : "  \t "; }
std::string cased(std::string s) { if (plan(4) == 3) for (auto &c : s) if (plan(2) && islower((unsigned char)c)) c = (char)(c - 32); return s; }
std::string make_config(Want &w) {
    std::string t; int n = plan_range(1, 9); bool heavy = plan(3) == 2; if (heavy) n += 4; static const char *const EOL[] = { "\n", "\r\n", "\n\n", "\n\r\n" }; bool noeol = false;
    if (plan(5)) t += cased("path") + spaces() + "/plug\n"; else if (plan(2)) { t += "path /nosuchdir\n"; loud([] { pion::plugin::add_plugin_directory("/plug"); }); } else loud([] { pion::plugin::add_plugin_directory("/plug"); });
    for (int i = 0; i < n && !w.bad; ++i) {
        std::string line; int k = plan(12); if (heavy) { if (!w.auth) k = plan(3) ? 6 : 0; else if (w.svc.empty()) k = 0; else if (k < 6) k = 6 + plan(3); } int lib = plan(2); std::string key = KEYS[plan(4)], wk = key + (plan(5) == 4 ? "/" : "");
        switch (k) {
        case 0: case 1: case 2: line = cased("service") + spaces() + wk + spaces() + L[lib].name; if (w.svc.count(key)) w.bad = true; else w.svc[key].first = lib; break;
        case 3: case 4: case 5: { if (w.svc.empty() && plan(6)) { --n; continue; } if (!w.svc.count(key) && !w.svc.empty()) { key = w.svc.begin()->first; wk = key; } std::string nm = plan(12) == 11 ? "bad" : "opt" + std::to_string(plan(3)), v = plan(3) ? "v" + std::to_string(plan(100)) : plan(2) ? "a b = c " : "";
                  line = cased("option") + spaces() + wk + spaces() + nm + "=" + v; if (!w.svc.count(key) || nm == "bad") w.bad = true; else w.svc[key].second.push_back(nm + "=" + v); break; }
        case 6: if (w.auth) break; w.auth = plan(2) ? 1 : 2; line = cased("auth") + spaces() + (w.auth == 1 ? "basic" : "cookie"); break;
        case 7: if (!w.auth && plan(4)) break; line = cased("restrict") + spaces() + key; if (!w.auth) w.bad = true; else w.restr.push_back(key); break;
        case 8: { if (!w.auth && plan(4)) break; std::string u = "u" + std::to_string(plan(3)); if (w.users.count(u)) break; line = cased("user") + spaces() + u + spaces() + "pw " + u; if (!w.auth) w.bad = true; else w.users[u] = "pw " + u; break; }
        case 9: line = plan(2) ? "# comment service /a nothing" : "#"; break;
        case 10: line = plan(2) ? "path\t/plug" : ""; break;
        default: {
            if (plan(2)) break; w.bad = true; static const char *const B[] = { "service /x", "service", "option /a name", "frobnicate /a x", "auth digest", "1service /x alpha", "service /x nosuchplugin", "service /x broken", "user joe", " service /x alpha", "path ", "ser-vice /x alpha", "auth", "option /nosuch a=b", "service /x ", "x", "service /x alpha trailing", "-" };
            line = B[plan(18)]; break; }
        }
        if (line.empty() && k != 10) continue;
        bool last = w.bad || i == n - 1; noeol = last && plan(2); t += line + (noeol ? "" : EOL[plan(4)]);
        if (noeol) SIM_PROBE("no-newline-at-end");
    }
    return t;
}
const uint64_t TRIES = 40;
/// one request on a connection of its own; status 0: no connection
int probe(const std::string &res, const std::string &hdr, std::string &body) {
    for (uint64_t i = 0; i < TRIES; ++i) {
        simnet::Client c; if (!c.connect(g_port)) { sim::sleep(20000); continue; } c.send("GET " + res + " HTTP/1.1\r\nHost: s\r\n" + hdr + "Connection: close\r\n\r\n", 60 * SEC); c.recv_eof(200 * SEC); Resp a; int st = parse_resp(c.in, 0, false, true, a);
        if (st == 1) { body = a.body; return a.code; } if (!faulted(c)) violation("no-answer", "no answer to %s", res.c_str());
    }
    return 0;
}
std::string b64(const std::string &s) { static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0; for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned)((unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]); o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += T[v & 63]; }
    if (i + 1 == s.size()) { unsigned v = (unsigned)(unsigned char)s[i] << 16; o += T[v >> 18]; o += T[v >> 12 & 63]; o += "=="; } else if (i + 2 == s.size()) { unsigned v = (unsigned)((unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8); o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += '='; } return o; }
void config_run() {
    Want w; std::string t = make_config(w); simfs::put("/etc/pion/web.conf", t); log("config: '%s' (%s)", show(t, 400).c_str(), w.bad ? "bad" : "good");
    bool missing = plan(20) == 19; simfs::Cfg &f = simfs::cfg; if (plan(2)) { int r = plan(2) ? 100 : 400; if (plan(3)) f.read_err = r; if (plan(2)) f.read_short = r; if (plan(3) == 2) f.open_err = r; if (plan(3) == 2) f.stat_err = r / 4; if (plan(3) == 2) f.close_err = r; }
    uint64_t f0 = simfs::faults_fired(), d0 = *counter("fault.dlopen-fails") + *counter("fault.create-throws"); bool ok = false; std::string what;
    for (auto &s : w.svc) { (void)s; } 
    try { Loud l; SRV->load_service_config(missing ? "/etc/pion/none.conf" : "/etc/pion/web.conf"); ok = true; } catch (std::exception &e) { what = e.what(); }
    bool flt = simfs::faults_fired() != f0 || *counter("fault.dlopen-fails") + *counter("fault.create-throws") != d0; f = simfs::Cfg(); set_faults(false); ++*counter("evals"); log("config: %s (%s)", ok ? "loaded" : "refused", what.c_str());
    if (missing || w.bad) { CHECK(!ok, "bad-config-accepted", "%s was accepted: '%s'", missing ? "a configuration file that does not exist" : "a malformed configuration file", show(t, 300).c_str()); SIM_PROBE("bad-config-refused"); return; }
    if (!ok) { if (!flt) violation("config-refused", "a correct configuration file was refused: '%s'", show(t, 300).c_str()); SIM_PROBE("config-fault-reported"); return; }
    if (flt) SIM_PROBE("config-loaded-despite-fault"); SIM_PROBE("config-loaded"); if (t.empty()) return;
    // everything in the file is in effect
    std::map<std::string, Rec *> got; for (auto r : *RECS) if (r->alive) { r->key = loud([&] { return std::string(r->p->get_resource()); }); CHECK(!got.count(r->key), "config-partial", "two services for '%s'", r->key.c_str()); got[r->key] = r; r->rb = r->re = g_seq; r->expected_start = true; }
    for (auto &s : w.svc) { CHECK(got.count(s.first), "config-partial", "the configuration was accepted but service '%s' was not loaded: '%s'", s.first.c_str(), show(t, 300).c_str()); Rec *r = got[s.first]; CHECK(r->lib == s.second.first, "config-wrong", "'%s' was loaded from %d", s.first.c_str(), r->lib);
        std::string a, b; for (auto &o : s.second.second) a += o + ";"; for (auto &o : r->opts) b += o + ";"; CHECK(a == b, "config-partial", "service '%s' should have options '%s', has '%s'", s.first.c_str(), show(a).c_str(), show(b).c_str()); }
    CHECK(got.size() == w.svc.size(), "config-wrong", "%zu services were loaded, the configuration has %zu", got.size(), w.svc.size());
    if (!start_server(12)) violation("start", "the server does not start");
    for (auto &s : w.svc) {
        bool restricted = false; if (w.auth && !w.users.empty()) for (auto &k : w.restr) if (match(k, s.first)) restricted = true; std::string body; int code = probe(s.first, "", body);
        if (restricted) {
            CHECK(code == 401, "config-partial", "'%s' should be restricted but answers %d without credentials", s.first.c_str(), code); SIM_PROBE("config-restricts");
            if (w.auth == 1) { auto u = w.users.begin(); for (int i = plan(3); i > 0 && std::next(u) != w.users.end(); --i) ++u; code = probe(s.first, "Authorization: Basic " + b64(u->first + ":" + u->second) + "\r\n", body); CHECK(code == 200, "config-partial", "user '%s' of the configuration is refused (%d)", u->first.c_str(), code); code = probe(s.first, "Authorization: Basic " + b64(u->first + ":wrong") + "\r\n", body); CHECK(code == 401, "config-partial", "a wrong password is accepted"); }
        } else { CHECK(code == 200, "config-wrong", "'%s' answers %d", s.first.c_str(), code); CHECK(atoi(body.c_str()) == got[s.first]->serial, "config-wrong", "'%s' is answered by service %s", s.first.c_str(), body.c_str()); }
    }
}
}
void harness_run() {
    quiet_logging(); simnet::random_config(); simnet::cfg.delay_max = plan(3) ? 100 : 3000; simnet::cfg.stall_num = 0; if (simnet::cfg.capacity < 512) simnet::cfg.capacity = 512; if (params.stall_us > 300000) params.stall_us = 300000;
    RECS = new std::vector<Rec *>(); PENDING = new std::vector<Reg>(); for (auto &l : L) { l.loads = l.unloads = 0; l.handle = 0; } g_port = 0;
    simfs::enable("/srv"); for (auto &l : L) simfs::put(l.path, "ELF");
    pion::single_service_scheduler *S1 = 0; pion::one_to_one_scheduler *S2 = 0; bool one = plan(4) == 3; int nt = plan_range(1, 4);
    loud([&] { if (one) { S2 = new pion::one_to_one_scheduler(); S2->set_num_threads(nt); } else { S1 = new pion::single_service_scheduler(); S1->set_num_threads(nt); } SRV = new pion::http::plugin_server(one ? (pion::scheduler &)*S2 : (pion::scheduler &)*S1, 0); });
    bool conf = plan(3) == 2; std::vector<int> f; g_create_throws = plan(4) == 3; g_start_throws = plan(4) == 3;
    if (conf) config_run();
    else {
        loud([] { pion::plugin::add_plugin_directory("/plug"); });
        g_hot = plan(3) == 2; int n0 = g_hot ? 0 : plan_range(0, 3); for (int i = 0; i < n0; ++i) { random_reg(); if (plan(3) == 2) option(KEYS[plan(4)], plan(8) ? "o" + std::to_string(i) : "bad", "v"); }
        if (!start_server(1)) { set_faults(false); if (!start_server(1)) violation("start", "the server does not start although nothing fails"); set_faults(true); }
        uint64_t pause = plan(2) ? 0 : plan(2) ? 5000 : 800000; int nc = plan_range(1, 3), n = plan_range(3, g_hot ? 20 : 12); if (g_hot) pause = 0;
        for (int i = 0; i < nc; ++i) f.push_back(spawn("client", [=] { client(n, pause); }));
        static bool busy, hold; busy = hold = false;
        if (plan(3) == 2) f.push_back(spawn("loader", [=] { int m = plan_range(1, 5); for (int i = 0; i < m; ++i) { if (pause) sim::sleep(plan((uint32_t)pause)); else sim::yield(); while (hold && !g_over) sim::sleep(1000); if (g_over) return; busy = true; int k = plan(4); if (plan(3) == 2) option(KEYS[k], "l" + std::to_string(i), "w"); else reg(KEYS[k], 1, false); busy = false; } }));
        int ops = plan_range(1, g_hot ? 10 : 7);
        for (int i = 0; i < ops; ++i) {
            if (pause) sim::sleep(plan((uint32_t)pause * 3)); else for (int y = plan(g_hot ? 90 : 30); y > 0; --y) { if (g_hot) sim::sleep(5); else sim::yield(); }
            auto exclusive = [&] { hold = true; wait_until([&] { return !busy; }, 600 * SEC); };
            switch (g_hot ? i % 2 ? 7 : 0 : plan(8)) {
            case 0: case 1: case 2: { int k = g_hot ? 0 : plan(4); reg(KEYS[k], plan(3) == 2 ? -1 : 0, plan(4) == 3); break; }
            case 3: option(KEYS[plan(4)], plan(8) ? "p" + std::to_string(i) : "bad", "x"); break;
            case 4: case 5: exclusive(); if (g_srv_state == 2) stop_server(plan(2)); else start_server(1); hold = false; break;
            case 6: exclusive(); if (g_srv_state == 2) { stop_server(plan(2)); start_server(1); } else start_server(1); hold = false; break;
            default: exclusive(); clear_server(); if (g_hot) start_server(1); hold = false; break;
            }
        }
        bool early = plan(2); if (early) { hold = true; if (!wait_until([&] { return !busy; }, 600 * SEC)) violation("stuck", "loading never ends"); g_over = true; SIM_PROBE("deleted-with-clients"); }
        else {
            set_faults(false); hold = true; wait_until([&] { return !busy; }, 600 * SEC); if (g_srv_state == 0 && !start_server(1)) violation("start", "the server does not start although nothing fails"); hold = false;
            if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 20000 * SEC)) violation("stuck", "clients did not finish");
        }
    }
    set_faults(false); bool sd = false; int mode = plan(3); if (g_srv_state == 2) g_srv_state = 3;
    int sf = spawn("stopper", [&] { loud([&] { if (mode == 0) SRV->stop(false); else if (mode == 1) SRV->clear(); }); uint64_t b = ++g_seq; for (auto r : *RECS) if (r->ub == INF) r->ub = b; loud([&] { delete SRV; SRV = 0; if (S1) { S1->shutdown(); delete S1; } else { S2->shutdown(); delete S2; } }); sd = true; });
    if (!wait_until([&] { return sd; }, 300 * SEC)) violation("stop-hangs", "stopping and deleting the server did not return"); join(sf); g_over = true;
    for (auto r : *RECS) CHECK(!r->alive, "not-destroyed", "the server is gone but service %d (%s) lives", r->serial, r->key.c_str());
    for (int l = 0; l < NL; ++l) CHECK(!loaded(l), "library-leaked", "library %s is still loaded", L[l].name);
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 20000 * SEC)) violation("stuck", "clients did not finish");
}
