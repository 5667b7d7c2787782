// P19 plug-in libraries, P20 plug-in manager.  dlopen & co. are replaced by a model of four libraries.
#include "common.hpp"
#include "core/fs.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <dlfcn.h>
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
using namespace sim; using namespace hx;
namespace {
struct Lib { const char *name, *path; bool has_create, has_destroy, loadable; int loads, unloads, gen, certain; void *handle; };
Lib L[] = {
    { "alpha", "/plug1/alpha.so", true, true, true }, { "beta", "/plug1/beta.so", true, true, true }, { "gamma", "/plug2/gamma.so", true, true, true },
    { "nocreate", "/plug1/nocreate.so", false, true, true }, { "nodestroy", "/plug2/nodestroy.so", true, false, true }, { "broken", "/plug1/broken.so", true, true, false } };
const int NL = 6, STATIC_LIB = 6; const int NG = 8;
bool loaded(int l) { return L[l].loads > L[l].unloads; }
int g_objs; int g_live; std::map<const void *, long> *g_serial;   // object address -> serial (addresses are never reused)
long serial_of(const void *o) { return o ? (*g_serial)[o] : 0; } bool g_create_faults;
struct Obj {
    int lib, gen, serial, inside; bool alive, by_lib; uint64_t val;
    Obj(int l = -1, int g = 0) : lib(l), gen(g), inside(0), alive(true), by_lib(false), val(7) { Quiet q; serial = ++g_objs; (*g_serial)[this] = serial; ++g_live; log("object %d created by %d", serial, lib); }
    virtual ~Obj() {
        Quiet q;
        CHECK(alive, "object-destroyed-twice", "plug-in object %d destroyed twice", serial);
        CHECK(inside == 0, "object-destroyed-in-use", "plug-in object %d destroyed while a function runs on it", serial);
        if (lib >= 0 && lib < NL) { CHECK(by_lib, "object-wrong-destroyer", "object %d made by plug-in %s was deleted without its library's destroy function", serial, L[lib].name); CHECK(loaded(lib), "object-outlives-library", "object destroyed after its library was unloaded"); }
        alive = false; --g_live; log("object %d destroyed", serial); ++*counter("evals");
    }
    virtual void touch() { { Quiet q; CHECK(alive, "object-used-after-destroy", "object used after it was destroyed"); if (lib >= 0 && lib < NL) CHECK(loaded(lib), "code-unloaded", "object %d of plug-in %s is used but its library is not loaded", serial, L[lib].name); ++inside; } sim::yield(); sim::sync_point(1201); { Quiet q; --inside; } }
};
template <int l, int g> Obj *create_fn() {
    { sim::sync_point(1202); Quiet q; if (l < NL) CHECK(loaded(l) && L[l].gen % NG == g, "code-unloaded", "create function of plug-in %d called after its library was unloaded", l);
      if (g_create_faults && fault("create-throws", 1, 6)) { log("create throws"); throw std::runtime_error("cannot create"); } }
    return new Obj(l, g);
}
template <int l, int g> void destroy_fn(Obj *o) {
    { sim::sync_point(1203); Quiet q; if (l < NL) CHECK(loaded(l) && L[l].gen % NG == g, "code-unloaded", "destroy function of plug-in %d called after its library was unloaded", l);
      CHECK(o->lib == l, "object-wrong-destroyer", "object of plug-in %d destroyed by plug-in %d", o->lib, l); o->by_lib = true; }
    delete o;
}
typedef void *(*sym_t)(bool);
template <int l> void *sym(bool cr, int g) {
    switch (g) {
#define S(n) case n: return cr ? (void *)&create_fn<l, n> : (void *)&destroy_fn<l, n>;
    S(0) S(1) S(2) S(3) S(4) S(5) S(6) default: return cr ? (void *)&create_fn<l, 7> : (void *)&destroy_fn<l, 7>; }
}
void *sym_of(int l, bool cr, int g) { switch (l) { case 0: return sym<0>(cr, g); case 1: return sym<1>(cr, g); case 2: return sym<2>(cr, g); case 3: return sym<3>(cr, g); case 4: return sym<4>(cr, g); case 5: return sym<5>(cr, g); default: return sym<6>(cr, g); } }
const char *g_dlerr;
}
extern "C" {
void *sim_dlopen(const char *path, int) {
    sim::sync_point(1210); Quiet q;
    for (int l = 0; l < NL; ++l) if (!std::strcmp(path, L[l].path)) {
        if (!L[l].loadable || fault("dlopen-fails", 1, 6)) { log("dlopen %s fails", L[l].name); g_dlerr = "cannot load"; return 0; }
        CHECK(!loaded(l), "loaded-twice", "library %s loaded while it is loaded already", L[l].name);
        ++L[l].loads; ++L[l].gen; L[l].handle = (void *)new int(l); log("dlopen %s", L[l].name); return L[l].handle;
    }
    g_dlerr = "no such file"; log("dlopen of unknown %s", path); return 0;
}
void *sim_dlsym(void *h, const char *s) {
    sim::sync_point(1212); Quiet q;
    int l = -1; for (int i = 0; i < NL; ++i) if (L[i].handle == h) l = i;
    CHECK(h && l >= 0, "stale-handle", "dlsym on a handle that is not open");
    std::string cr = std::string("pion_create_") + L[l].name, de = std::string("pion_destroy_") + L[l].name;
    if (cr == s && L[l].has_create) return sym_of(l, true, L[l].gen % NG);
    if (de == s && L[l].has_destroy) return sym_of(l, false, L[l].gen % NG);
    g_dlerr = "undefined symbol"; return 0;
}
int sim_dlclose(void *h) {
    sim::sync_point(1213); Quiet q;
    int l = -1; for (int i = 0; i < NL; ++i) if (L[i].handle == h) l = i;
    CHECK(h && l >= 0, "unloaded-twice", "dlclose on a handle that is not open");
    CHECK(L[l].certain == 0, "unloaded-in-use", "library %s unloaded while %d handles refer to it", L[l].name, L[l].certain);
    ++L[l].unloads; L[l].handle = 0; log("dlclose %s", L[l].name); return 0;
}
char *sim_dlerror(void) { const char *e = g_dlerr; g_dlerr = 0; return (char *)e; }
}
namespace {
typedef pion::plugin_ptr<Obj> PP;
struct Handle { PP *p; int lib; };     // lib: -1 closed (model)
void setup_fs() { simfs::enable("/srv"); for (auto &l : L) simfs::put(l.path, "ELF"); simfs::put("/plug1/readme.txt", "x"); simfs::mkdirs("/plug2/dir.so"); }
int lib_by_name(const std::string &n) { for (int i = 0; i < NL; ++i) if (n == L[i].name) return i; return n == "stat" ? STATIC_LIB : -1; }
void hold(int l, int d) { if (l >= 0 && l < NL) L[l].certain += d; }
bool dir_churn;
void check_loaded(Handle &h) { if (h.lib >= 0 && h.lib < NL) CHECK(loaded(h.lib), "unloaded-in-use", "a handle refers to %s but its library is not loaded", L[h.lib].name); }
void settle(Handle &h) { // reads back what a handle refers to after an operation that may have failed
    bool o; std::string n; { Loud l; o = h.p->is_open(); n = h.p->get_plugin_name(); }
    h.lib = o ? lib_by_name(n) : -1; hold(h.lib, 1); check_loaded(h);
}
void p19() {
    setup_fs(); bool with_static = plan(3) == 0;
    loud([&] { pion::plugin::add_plugin_directory("/plug1"); pion::plugin::add_plugin_directory("/plug2"); if (with_static) pion::plugin::add_static_entry_point("stat", sym_of(STATIC_LIB, true, 0), sym_of(STATIC_LIB, false, 0)); });
    dir_churn = plan(6) == 5;
    Handle common = { 0, -1 };
    if (plan(2)) { { Loud l; common.p = new PP(); try { common.p->open("alpha"); } catch (pion::exception &) {} } settle(common); }
    int n = plan_range(1, 4), npl = plan_range(1, 3); std::vector<int> f;
    for (int t = 0; t < n; ++t) {
        int ops = plan_range(2, 9);
        f.push_back(spawn("user", [=] {
            std::vector<Handle> hs; std::vector<std::pair<Obj *, int>> objs;
            for (int i = 0; i < 3; ++i) { Loud l; Handle h = { new PP(), -1 }; hs.push_back(h); }
            for (int i = 0; i < ops; ++i) {
                Handle &h = hs[plan(3)]; Handle &h2 = hs[plan(3)];
                int what = plan(11); 
                switch (what) {
                case 0: case 1: case 2: case 3: {   // open by name / file
                    int pick = plan(8); int l = pick < 4 ? (int)plan((uint32_t)npl) : pick == 4 ? 3 : pick == 5 ? 4 : pick == 6 ? 5 : with_static ? STATIC_LIB : 0;
                    bool missing = plan(12) == 11; bool by_file = l != STATIC_LIB && plan(3) == 2;
                    std::string name = missing ? "missing" : l == STATIC_LIB ? "stat" : by_file ? L[l].path : L[l].name;
                    hold(h.lib, -1); int r = 0; log("open %s", name.c_str());
                    try { Loud lo; if (by_file) h.p->open_file(name); else h.p->open(name); r = 1; }
                    catch (pion::error::plugin_not_found &) { r = 2; } catch (pion::error::open_plugin &) { r = 3; } catch (pion::error::plugin_missing_symbol &) { r = 4; }
                    log("open=%d", r); settle(h);
                    if (r == 1) CHECK(h.lib == l && !missing, "wrong-plugin", "open(%s) succeeded but refers to %d", name.c_str(), h.lib);
                    if (!missing && r == 2 && !dir_churn) violation("spurious-open-failure", "plug-in %s was not found though its file exists", name.c_str());
                    if (r == 3 && L[l].loadable && !faults_on()) violation("spurious-open-failure", "loading %s failed without a fault", name.c_str());
                    if (r == 4 && l < 3) violation("spurious-open-failure", "symbol missing in %s", name.c_str());
                    if (r == 1 && (l == 3 || l == 4)) violation("failure-not-reported", "opening %s, which lacks a symbol, succeeded", name.c_str());
                    break; }
                case 4: hold(h.lib, -1); log("close"); loud([&] { h.p->close(); }); h.lib = -1; CHECK(!loud([&] { return h.p->is_open(); }), "still-open", "handle open after close()"); break;
                case 5: case 6: { hold(h.lib, -1); int tl = &h == &h2 ? h.lib : h2.lib; if (&h == &h2) hold(h.lib, 1); log("assign"); loud([&] { *h.p = *h2.p; }); if (&h != &h2) { h.lib = tl; hold(tl, 1); }
                    CHECK(loud([&] { return h.p->is_open(); }) == (h.lib >= 0), "assignment-wrong", "after an assignment%s the handle is %s", &h == &h2 ? " to itself" : "", h.lib >= 0 ? "closed although the source was open" : "open although the source was closed"); break; }
                case 7: { log("copy"); PP *c; { Loud l; c = new PP(*h2.p); } int o = h.lib; hold(h2.lib, 1); hold(o, -1); loud([&] { delete h.p; }); h.p = c; h.lib = h2.lib; if (&h == &h2) { h.lib = o; } break; }
                case 8: if (common.p) { hold(h.lib, -1); loud([&] { *h.p = *common.p; }); h.lib = common.lib; hold(h.lib, 1); } break;
                case 9: if (h.lib >= 0) { Obj *o = 0; try { Loud l; o = h.p->create(); } catch (std::runtime_error &) {} if (o) { CHECK(o->lib == h.lib, "wrong-plugin", "object made by plug-in %d from a handle to %d", o->lib, h.lib); { Loud l; o->touch(); h.p->destroy(o); } } }
                        else { bool thrown = false; try { Loud l; h.p->create(); } catch (pion::error::plugin_undefined &) { thrown = true; } CHECK(thrown, "failure-not-reported", "create() on a closed plug-in did not fail"); } break;
                default: if (plan(2)) { std::vector<std::string> v; { Loud l; pion::plugin::get_all_plugin_names(v); } if (!dir_churn) { Quiet q; std::set<std::string> s(v.begin(), v.end()); for (int l = 0; l < NL; ++l) CHECK(s.count(L[l].name), "names-wrong", "plug-in %s is not listed", L[l].name); CHECK(!s.count("dir") && !s.count("readme"), "names-wrong", "something that is no plug-in is listed"); CHECK(s.count("stat") == (size_t)with_static, "names-wrong", "the static plug-in is %s", with_static ? "not listed" : "listed"); CHECK(v.size() == s.size(), "names-wrong", "a plug-in is listed twice"); } }
                         else if (dir_churn && plan(2)) loud([] { pion::plugin::reset_plugin_directories(); pion::plugin::add_plugin_directory("/plug1"); pion::plugin::add_plugin_directory("/plug2"); });
                         else sim::sleep(1 + plan(50)); break;
                }
                for (auto &x : hs) { check_loaded(x); CHECK(loud([&] { return x.p->is_open(); }) == (x.lib >= 0), "handle-wrong", "handle is %s, should be %s", x.lib >= 0 ? "closed" : "open", x.lib >= 0 ? "open" : "closed"); }
                ++*counter("evals");
            }
            for (auto &x : hs) { hold(x.lib, -1); loud([&] { delete x.p; }); }
        }));
    }
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 600 * SEC)) violation("plugin-blocked", "a plug-in operation never returns");
    if (common.p) { hold(common.lib, -1); loud([&] { delete common.p; }); }
    for (int l = 0; l < NL; ++l) CHECK(!loaded(l), "library-leaked", "library %s is still loaded although nothing refers to it (loads %d, unloads %d)", L[l].name, L[l].loads, L[l].unloads);
    // and it can be loaded again
    set_faults(false);
    for (int l = 0; l < 3; ++l) { PP *p; { Loud lo; p = new PP(); p->open_file(L[l].path); } CHECK(loaded(l), "handle-wrong", "open handle without a loaded library"); { Loud lo; Obj *o = p->create(); o->touch(); p->destroy(o); delete p; } CHECK(!loaded(l), "library-leaked", "library still loaded after the last handle went away"); }
    CHECK(g_live == 0, "object-leaked", "%d objects alive", g_live);
    ++*counter("evals");
}

// ---------------------------------------------------------------- P20
typedef pion::plugin_manager<Obj> PM;
enum Op { LOAD, ADD, REMOVE, REPLACE, GET, FIND, RUNID, STAT, STATID, RUNALL, CLEAR, EMPTY, LIBPTR, NOPS };
const char *opn[] = { "load", "add", "remove", "replace", "get", "find", "run", "stat", "stat", "run_all", "clear", "empty", "lib" };
const char *ids[] = { "/a", "/a/b", "/a-x", "/c", "/c/d" }; const int NID = 5; const int id_lib[] = { 0, 1, 0, -1, -1 };
const char *res_[] = { "/a", "/a/b", "/a/bc", "/a/c", "/a/b/x", "/ab", "/c", "/c/d/e", "/z", "/", "/a-x/1", "/c/dd" };
struct Ev { Op op; int id; int arg; uint64_t inv, res; long r; };  // r: object serial; 0 none; -1 refused; -2 failed without effect
std::vector<Ev> *H; uint64_t g_tick;
long apply(const Ev &e, std::vector<long> &st) {
    long &s = st[e.id];
    switch (e.op) {
    case LOAD: if (e.r == -2) return -2; if (s) return -1; s = e.r; return e.r;
    case ADD: if (s) return -1; s = e.arg; return e.arg;
    case REMOVE: if (!s) return -1; s = 0; return 1;
    case REPLACE: if (e.r == -2) return -2; if (!s) return -1; s = e.arg; return e.arg;
    case GET: return s;
    case RUNID: case STATID: return s ? s : -1;
    case LIBPTR: return s && id_lib[e.id] >= 0 ? 1 : 0;
    case FIND: { long best = 0; size_t bl = 0; std::string r = res_[e.arg]; for (int i = 0; i < NID; ++i) { std::string k = ids[i]; if (st[i] && r.compare(0, k.size(), k) == 0 && (r.size() == k.size() || r[k.size()] == '/') && k.size() >= bl) { bl = k.size(); best = st[i]; } } return best; }
    case STAT: case RUNALL: { long n = 0; for (long x : st) n += x ? 1 : 0; return n; }
    case CLEAR: for (long &x : st) x = 0; return 0;
    case EMPTY: for (long x : st) if (x) return 0; return 1;
    default: return 0;
    }
}
bool linearise(uint32_t donem, std::vector<long> st, std::set<std::pair<uint32_t, std::vector<long>>> &seen) {
    size_t n = H->size(); if (donem == (1ull << n) - 1) return true;
    if (!seen.insert(std::make_pair(donem, st)).second) return false;
    uint64_t lim = ~0ull; for (size_t i = 0; i < n; ++i) if (!(donem >> i & 1)) lim = std::min(lim, (*H)[i].res);
    for (size_t i = 0; i < n; ++i) { if (donem >> i & 1 || (*H)[i].inv > lim) continue; std::vector<long> s2 = st; if (apply((*H)[i], s2) != (*H)[i].r) continue; if (linearise(donem | 1u << i, s2, seen)) return true; }
    return false;
}
long seen_serial; int seen_count;
struct Toucher { void operator()(Obj *o) const { { Quiet q; seen_serial = o->serial; ++seen_count; } o->touch(); } };
void p20() {
    setup_fs(); H->reserve(64); g_create_faults = plan(3) == 0;
    loud([&] { pion::plugin::add_plugin_directory("/plug1"); pion::plugin::add_plugin_directory("/plug2"); });
    static PM *M; { Loud l; M = new PM(); }
    std::vector<PP *> keep; bool keepers = plan(2);
    set_faults(false); if (keepers) { g_create_faults = false; for (int l = 0; l < 2; ++l) { Loud lo; PP *p = new PP(); p->open(L[l].name); keep.push_back(p); } } set_faults(true);
    int nid = plan_range(1, NID), threads = plan_range(1, 4), total = 0; std::vector<int> f; int nops = plan(4) ? (int)CLEAR : (int)NOPS;
    for (int t = 0; t < threads; ++t) {
        int ops = plan_range(1, 7); if (total + ops > 22) ops = 1; total += ops;
        f.push_back(spawn("client", [=] {
            for (int i = 0; i < ops; ++i) {
                Ev e; e.op = plan(3) ? (Op)plan(3) : (Op)plan((uint32_t)nops); e.id = plan((uint32_t)nid); e.arg = 0; e.r = 0;
                bool fromlib = id_lib[e.id] >= 0;
                if (e.op == LOAD && !fromlib) e.op = ADD; if (e.op == ADD && fromlib) e.op = LOAD;
                if (e.op == FIND) { e.arg = plan(12); }
                std::string id = ids[e.id]; Obj *mine = 0;
                if (e.op == REPLACE) {   // the documented way: clone, then replace (the plug-in type of an identifier never changes here)
                    if (fromlib) { if (!keepers) continue; try { Loud l; mine = M->clone(id); } catch (pion::error::plugin_not_found &) { continue; } CHECK(mine->lib == id_lib[e.id], "wrong-plugin", "clone of %s made by plug-in %d", id.c_str(), mine->lib); }
                    else { Loud l; mine = new Obj(); }
                    e.arg = mine->serial;
                }
                if (e.op == ADD) { Loud l; mine = new Obj(); e.arg = mine->serial; }
                if (e.op == LOAD && plan(10) == 9) e.arg = 1;     // asks for a plug-in that cannot be loaded
                size_t n = H->size(); e.res = ~0ull; e.inv = ++g_tick; H->push_back(e);
                long r = 0; 
                try {
                    switch (e.op) {
                    case LOAD: { Obj *o; { Loud l; o = M->load(id, e.arg ? (plan(2) ? "nodestroy" : "missing") : L[id_lib[e.id]].name); } r = serial_of(o); break; }   // (the object may already be gone again)
                    case ADD: { Loud l; M->add(id, mine); } r = e.arg; mine = 0; break;
                    case REMOVE: { Loud l; M->remove(id); } r = 1; break;
                    case REPLACE: { Loud l; M->replace(id, mine); } r = e.arg; mine = 0; break;
                    case GET: { Obj *o; { Loud l; o = M->get(id); } r = serial_of(o); break; }
                    case FIND: { Obj *o; { Loud l; o = M->find(res_[e.arg]); } r = serial_of(o); break; }
                    case RUNID: { long s = 0; struct F { long *s; void operator()(Obj *o) const { { Quiet q; *s = o->serial; } o->touch(); } } fn = { &s }; { Loud l; M->run(id, fn); } r = s; break; }
                    case STATID: { long s = 0; struct F { long *s; uint64_t operator()(const Obj *o) const { { Quiet q; *s = o->serial; } const_cast<Obj *>(o)->touch(); return 1; } } fn = { &s }; { Loud l; M->get_statistic(id, fn); } r = s; break; }
                    case STAT: { struct F { uint64_t operator()(const Obj *o) const { const_cast<Obj *>(o)->touch(); return 1; } } fn; { Loud l; r = (long)M->get_statistic(fn); } break; }
                    case RUNALL: { long c = 0; struct F { long *c; void operator()(Obj *o) const { { Quiet q; ++*c; } o->touch(); } } fn = { &c }; { Loud l; M->run(fn); } r = c; break; }
                    case CLEAR: { Loud l; M->clear(); } break;
                    case EMPTY: { Loud l; r = M->empty(); } break;
                    case LIBPTR: { bool o; { Loud l; PP p = M->get_lib_ptr(id); o = p.is_open(); if (o) { Quiet q; CHECK(loaded(id_lib[e.id]), "code-unloaded", "library pointer to an unloaded library"); } } r = o; break; }
                    default: break;
                    }
                } catch (pion::error::duplicate_plugin &) { r = -1; } catch (pion::error::plugin_not_found &) { r = e.op == LOAD ? -2 : -1; }
                catch (pion::error::open_plugin &) { r = -2; } catch (pion::error::plugin_missing_symbol &) { r = -2; } catch (std::runtime_error &) { r = -2; }
                if (e.op == LOAD && r == -2 && !e.arg && !faults_on()) violation("spurious-load-failure", "load failed without a fault");
                if (e.op == LOAD && e.arg && r > 0) violation("failure-not-reported", "loading a plug-in that cannot be loaded succeeded");
                if (mine && mine->alive) { if (mine->lib >= 0) { Loud l; keep[mine->lib]->destroy(mine); } else { Loud l; delete mine; } }   // refused: still ours
                (*H)[n].r = r; (*H)[n].res = ++g_tick; log("%s(%s,%d)=%ld", opn[e.op], ids[e.id], e.arg, r);
                if (plan(4) == 3) sim::sleep(1 + plan(20));
            }
        }));
    }
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 600 * SEC)) violation("manager-blocked", "a plug-in manager operation never returns");
    for (int i = 0; i < nid; ++i) { Ev e; e.op = GET; e.id = i; e.arg = 0; e.inv = ++g_tick; Obj *o = loud([&] { return M->get(ids[i]); }); e.r = o ? o->serial : 0; if (o) loud([&] { o->touch(); }); e.res = ++g_tick; H->push_back(e); }
    std::set<std::pair<uint32_t, std::vector<long>>> seen;
    if (!linearise(0, std::vector<long>(NID, 0), seen)) {
        std::string s; char b[120]; for (auto &e : *H) { snprintf(b, sizeof b, " [%llu-%llu]%s(%s,%d)=%ld", (unsigned long long)e.inv, (unsigned long long)e.res, opn[e.op], e.op == FIND ? res_[e.arg] : ids[e.id], e.arg, e.r); s += b; }
        violation("not-linearizable", "no order of these plug-in manager operations explains their results (object serials; -1 refused, -2 failed):%s", s.c_str());
    }
    *counter("evals") += H->size();
    int expected = 0; { struct F { uint64_t operator()(const Obj *) const { return 1; } } fn; Loud l; expected = (int)M->get_statistic(fn); }
    CHECK(g_live == expected, "object-leaked", "%d objects alive but %d are managed", g_live, expected);
    loud([] { delete M; });
    CHECK(g_live == 0, "object-leaked", "%d objects alive after the manager is gone", g_live);
    for (auto *p : keep) loud([&] { delete p; });
    for (int l = 0; l < NL; ++l) CHECK(!loaded(l), "library-leaked", "library %s still loaded at the end", L[l].name);
}
// plugin_instance_ptr: one owner, sequential use, failing loads
void p20_instance() {
    setup_fs(); loud([&] { pion::plugin::add_plugin_directory("/plug1"); pion::plugin::add_plugin_directory("/plug2"); });
    g_create_faults = plan(2);
    { pion::plugin_instance_ptr<Obj> *ip; { Loud l; ip = new pion::plugin_instance_ptr<Obj>(); }
      int n = plan_range(1, 6);
      for (int i = 0; i < n; ++i) {
        switch (plan(4)) {
        case 0: { log("reset"); Loud l; ip->reset(); break; }
        case 1: { log("touch"); if (!ip->empty()) { Loud l; (*ip)->touch(); } break; }
        default: { int l = plan(6); log("create %s", L[l].name); try { Loud lo; ip->create(L[l].name); } catch (pion::exception &) {} catch (std::runtime_error &) {} break; }
        }
        CHECK(g_live <= 1, "object-leaked", "%d objects alive", g_live); ++*counter("evals");
      }
      loud([&] { delete ip; }); }
    CHECK(g_live == 0, "object-leaked", "%d objects alive at the end", g_live);
    for (int l = 0; l < NL; ++l) CHECK(!loaded(l), "library-leaked", "library %s still loaded at the end", L[l].name);
}
}
void harness_run() {
    quiet_logging(); H = new std::vector<Ev>(); g_serial = new std::map<const void *, long>();
    if (std::string(property()) == "P19") p19(); else if (plan(8) == 7) p20_instance(); else p20();
}
