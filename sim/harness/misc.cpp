// P26 process shutdown signal, P28 administrator rights, P18 user directory
#include "common.hpp"
#include "httpx.hpp"
#include "core/fs.hpp"
#include <boost/asio.hpp>
#include <pion/process.hpp>
#include <pion/admin_rights.hpp>
#include <pion/user.hpp>
#include <algorithm>
#include <cerrno>
#include <map>
#include <set>
#include <stdexcept>
#include <unistd.h>
using namespace sim; using namespace hx;
void harness_init() { unsigned char d[64]; SHA256((const unsigned char *)"x", 1, d); SHA1((const unsigned char *)"x", 1, d); }   // OpenSSL's one-time setup

// ================================================================ P26
namespace {
void p26() {
    int waiters = plan_range(1, 5), downs = plan_range(1, 3);
    bool requested = false; int released = 0; std::vector<int> f, g;
    for (int i = 0; i < waiters; ++i) {
        uint64_t d = plan(3) ? plan(30) : plan(2000000); bool twice = plan(2);
        f.push_back(spawn("waiter", [=, &requested, &released] {
            if (d) sim::sleep(d);
            for (int k = 0; k < (twice ? 2 : 1); ++k) {
                uint64_t t = now(); bool before = requested;
                loud([] { pion::process::wait_for_shutdown(); });
                log("released");
                CHECK(requested, "released-early", "wait_for_shutdown() returned before any shutdown was requested");
                if (before && k) CHECK(now() - t < 60 * SEC, "late-release", "waiting after shutdown did not return at once");
                ++*counter("evals");
            }
            ++released;
        }));
    }
    bool never_first = plan(4) == 0;
    for (int i = 0; i < downs; ++i) {
        uint64_t d = never_first ? 3600 * SEC : plan(3) ? plan(30) : plan(2000000);
        int times = plan_range(1, 2);
        g.push_back(spawn("requester", [=, &requested] {
            if (d) sim::sleep(d);
            for (int k = 0; k < times; ++k) { log("shutdown"); requested = true; loud([] { pion::process::shutdown(); }); }
        }));
    }
    if (never_first) { sim::sleep(3000 * SEC); CHECK(released == 0, "released-early", "%d waiters released without a request", released); ++*counter("evals"); }
    CHECK(wait_until([&] { for (int x : g) if (!done(x)) return false; return true; }, 8000 * SEC), "shutdown-blocks", "process::shutdown() did not return");
    CHECK(wait_until([&] { return released == waiters; }, 300 * SEC), "signal-lost", "%d of %d waiters were never released after shutdown was requested", waiters - released, waiters);
    bool again = false;
    int x = spawn("late", [&] { loud([] { pion::process::wait_for_shutdown(); }); again = true; });
    CHECK(wait_until([&] { return again; }, 300 * SEC), "signal-lost", "waiting after shutdown blocks");
    join(x); ++*counter("evals");
}

// ================================================================ P28
uid_t c_ruid = 1000, c_euid = 1000, c_suid = 0; bool cred_active = false;
int g_setfail_raise, g_setfail_restore;
}
// stand-ins for the system calls: they only touch this model
extern "C" uid_t geteuid(void) noexcept { if (sim::self() >= 0) sim::sync_point(1001); return c_euid; }
extern "C" uid_t getuid(void) noexcept { return c_ruid; }
static int g_uid_refused;
static int cred_set_(uid_t u);
static int cred_set(uid_t u) { int r = cred_set_(u); if (r) ++g_uid_refused; return r; }
static int cred_set_(uid_t u) {
    if (u == (uid_t)-1) { errno = EINVAL; return -1; }
    sim::sync_point(1002);
    if (cred_active && u != c_euid) {
        bool raise = u == 0;
        if (raise ? sim::fault("seteuid-raise", 1, 5) : sim::fault("seteuid-restore", 1, 8)) { ++(raise ? g_setfail_raise : g_setfail_restore); sim::log("seteuid(%u) fails", u); errno = EAGAIN; return -1; }
    }
    if (c_euid != 0 && u != c_ruid && u != c_suid && u != c_euid) { errno = EPERM; return -1; }
    c_euid = u; sim::log("euid=%u", u);
    sim::sync_point(1003);
    return 0;
}
extern "C" int seteuid(uid_t u) noexcept { return cred_set(u); }
extern "C" int setuid(uid_t) noexcept { errno = EPERM; return -1; }
extern "C" int setreuid(uid_t, uid_t e) noexcept { return e == (uid_t)-1 ? 0 : cred_set(e); }
extern "C" int setresuid(uid_t, uid_t e, uid_t) noexcept { return e == (uid_t)-1 ? 0 : cred_set(e); }
namespace { gid_t c_rgid = 100, c_egid = 100; int g_setgid_refused, g_set_refused; }
extern "C" gid_t getegid(void) noexcept { return c_egid; }
extern "C" gid_t getgid(void) noexcept { return c_rgid; }
extern "C" int setegid(gid_t g) noexcept {
    sim::sync_point(1004);
    if (g == (gid_t)-1) { ++g_setgid_refused; errno = EINVAL; return -1; }
    if (c_euid != 0 && g != c_rgid && g != c_egid) { ++g_setgid_refused; errno = EPERM; return -1; }
    if (cred_active && sim::fault("setegid", 1, 8)) { ++g_setgid_refused; errno = EAGAIN; return -1; }
    c_egid = g; sim::log("egid=%u", g); return 0;
}
extern "C" int setgid(gid_t) noexcept { errno = EPERM; return -1; }
namespace {
struct ErrBuf : std::streambuf {   // counts error lines of the library's log
    std::map<int, std::string> cur; int errors = 0;     // threads may log at the same time
    int overflow(int c) override { sim::Quiet q; std::string &l = cur[sim::self()]; if (c == '\n') { if (l.find("ERROR") != std::string::npos) ++errors; l.clear(); } else l += (char)c; return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) overflow((unsigned char)s[i]); return n; }
};
void p28() {
    static ErrBuf eb; std::cerr.clear(); std::cerr.rdbuf(&eb); pion::logger::m_priority = pion::logger::LOG_LEVEL_ERROR;
    static const uid_t ids[] = { 1000, 1, 65534, 32768, 40000, 100000, 0x7ffffffe, 4294967293u, 0 };
    c_ruid = c_euid = ids[plan(9)]; c_suid = 0;
    if (plan(4) == 3) { c_ruid = 0; c_suid = plan(2) ? 0 : c_euid; SIM_PROBE("root-that-stepped-down"); }
    uid_t orig = c_euid;
    cred_active = true; bool keep = plan(2);
    int n = plan_range(1, 5), inside = 0, holding = 0; std::vector<int> f;
    bool nolog = plan(6) == 5; int silent = 0; (void)silent;
    for (int i = 0; i < n; ++i) {
        int rounds = plan_range(1, 3);
        f.push_back(spawn("holder", [=, &inside, &holding] {
            for (int r = 0; r < rounds; ++r) {
                int mode = plan(4); uint64_t hold = plan(2) ? plan(40) : plan(50000);
                try {
                    int fr = g_setfail_raise;
                    pion::admin_rights *ar; { Loud l; ar = new pion::admin_rights(!nolog); }
                    struct Del { pion::admin_rights *p; bool kept; ~Del() { if (kept) return; Loud l; delete p; } } del = { ar, false };
                    // having rights: nobody else may have them, and they last until we let go
                    bool have = true;
                    if (g_setfail_raise != fr) have = false;      // (somebody's attempt failed in between: possibly ours)
                    if (c_euid == 0 || have) {
                        if (have) {
                            ++holding; ++inside;
                            CHECK(inside == 1, "shared-rights", "%d threads hold administrator rights at once", inside);
                            uint64_t end = now() + hold;
                            do {
                                CHECK(c_euid == 0, "rights-lost", "effective uid is %u while administrator rights are held", c_euid);
                                CHECK(inside == 1, "shared-rights", "%d threads hold administrator rights at once", inside);
                                ++*counter("evals");
                                if (hold) sim::sleep(1 + hold / 3); else sim::yield();
                            } while (now() < end);
                            CHECK(c_euid == 0, "rights-lost", "effective uid is %u while administrator rights are held", c_euid);
                            --inside;
                        }
                    }
                    if (mode == 1) { Loud l; ar->release(); }
                    else if (mode == 2) { Loud l; ar->release(); ar->release(); }
                    if (keep && (mode == 1 || mode == 2) && plan(2)) { SIM_PROBE("released-object-kept"); del.kept = true; }   // an object that has let go holds nobody up
                    if (mode == 3) { SIM_COUNT("fault.exception-while-holding"); throw std::runtime_error("x"); }
                } catch (std::runtime_error &) {}
                if (plan(2)) sim::sleep(plan(2000));
            }
        }));
    }
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 600 * SEC))
        violation("rights-blocked", "a thread asking for administrator rights is blocked although everybody has let go");
    // previous identity in force again unless the system refused to restore it
    if (g_setfail_restore == 0) CHECK(c_euid == orig, "identity-not-restored", "effective uid is %u after everybody let go, was %u before", c_euid, orig);
    if (!nolog && g_setfail_raise + g_setfail_restore > 0)
        CHECK(eb.errors >= g_setfail_raise + g_setfail_restore, "failure-not-reported", "%d failures to raise and %d to restore rights, %d errors reported", g_setfail_raise, g_setfail_restore, eb.errors);
    // whatever failed before, rights can be asked for again
    set_faults(false);
    bool got = false;
    int x = spawn("late", [&] { uid_t before = c_euid; { pion::admin_rights *ar; { Loud l; ar = new pion::admin_rights(false); } CHECK(c_euid == 0, "rights-lost", "rights not raised"); { Loud l; delete ar; } } CHECK(c_euid == before, "identity-not-restored", "effective uid is %u after release, was %u", c_euid, before); got = true; });
    CHECK(wait_until([&] { return got; }, 300 * SEC), "rights-blocked", "rights cannot be acquired any more after %d failed raises, %d failed restores", g_setfail_raise, g_setfail_restore);
    join(x); ++*counter("evals");
}

// ================================================================ P32
struct Entry { std::string line, name; long long id; };     // id -1: no usable one
std::vector<std::string> *FILES[2];                          // versions of /etc/passwd and /etc/group
/// the identity a version of the file gives to a name: the third field of its first line
long long lookup(const std::string &file, const std::string &name) {
    size_t i = 0;
    while (i < file.size()) {
        size_t e = file.find('\n', i); if (e == std::string::npos) e = file.size();
        std::string l = file.substr(i, e - i); i = e + 1;
        std::vector<std::string> f; size_t a = 0;
        for (;;) { size_t b = l.find(':', a); f.push_back(l.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
        if (f[0] != name) continue;
        if (f.size() < 3 || f[2].empty() || f[2].find_first_not_of("0123456789") != std::string::npos || f[2].size() > 12) return -1;
        long long v = atoll(f[2].c_str());
        return v < 0xffffffffll ? v : -1;
    }
    return -1;
}
const char *inames[] = { "bob", "alice", "ali", "www-data", "wheel", "Bob", "svc_1", "nobody" };
std::string id_file(bool group) {
    static const char *ids[] = { "0", "1000", "1", "65534", "40000", "2147483648", "4294967294", "10", "100", "7777", "x", "", "12a", "-5", "99999999999", "007" };
    std::string out; int n = plan(12);
    for (int i = 0; i < n; ++i) {
        switch (plan(10)) { case 9: out += "\n"; break; case 8: out += "# " + std::string(inames[plan(8)]) + ":x:0:0\n"; break; default: break; }
        std::string l = inames[plan(8)];
        if (plan(12) == 11) l = " " + l;
        static const char *pw[] = { "x", "", "*", "!!", "$6$salt$hash" };
        int fields = plan(14) == 13 ? plan(3) : 7;
        if (fields > 0) l += std::string(":") + pw[plan(5)];
        if (fields > 1) l += std::string(":") + ids[plan(3) ? plan(10) : plan(16)];
        if (fields > 2) { if (group) l += plan(2) ? ":bob,alice" : ":"; else l += std::string(":") + ids[plan(10)] + (plan(2) ? "::" : ":Some Body:") + (plan(2) ? "/home/x" : "") + ":/bin/sh"; }
        if (plan(20) == 19) l += std::string(plan(9000), 'g');
        out += l + "\n";
    }
    if (!out.empty() && plan(4) == 3) out.pop_back();
    return out;
}
const char *IDF[] = { "/etc/passwd", "/etc/group" };
void p32() {
    pion::logger::m_priority = pion::logger::LOG_LEVEL_FATAL;
    simfs::enable("/");
    simfs::mkdirs("/etc");
    for (int k = 0; k < 2; ++k) { FILES[k] = new std::vector<std::string>(); if (plan(10) == 9) FILES[k]->push_back(""); else { FILES[k]->push_back(id_file(k)); simfs::put(IDF[k], FILES[k]->back()); } }
    if (plan(2)) { simfs::cfg.open_err = plan(3) ? 0 : 200; simfs::cfg.read_err = plan(2) ? 0 : 200; simfs::cfg.read_short = plan(2) ? 0 : 500; }
    static const uid_t o[] = { 1000, 0, 65534, 40000 };
    c_ruid = c_euid = o[plan(4)]; c_suid = 0; cred_active = plan(2); uid_t orig = c_euid;
    int n = plan_range(1, 3); std::vector<int> f; bool edits = plan(3) == 2, stop = false;
    int inside = 0;
    for (int i = 0; i < n; ++i) {
        int rounds = plan_range(1, 4);
        f.push_back(spawn("runner", [=, &inside] {
            for (int r = 0; r < rounds; ++r) {
                bool admin = n > 1 || plan(5), have = false;
                pion::admin_rights *ar = 0;
                if (admin) { Loud l; int fr = g_setfail_raise; ar = new pion::admin_rights(false); have = g_setfail_raise == fr; }
                if (n > 1 && !have) { Loud l; delete ar; continue; }      // nothing keeps the others away then
                ++inside;
                for (int k = 0; k < 2; ++k) {
                    bool grp = k == 0; if (plan(4) == 0) continue;
                    std::string name = plan(4) ? inames[plan(8)] : plan(3) ? std::to_string(plan(3) ? plan(70000) : 4294967294u - plan(3)) : std::string(plan(2) ? "99999999999" : "4294967296");
                    unsigned before = grp ? c_egid : c_euid; size_t v0 = FILES[grp]->size() - 1; uint64_t ff = simfs::faults_fired(); int rf = grp ? g_setgid_refused : g_uid_refused;
                    long ret = -2; bool threw = false;
                    try { Loud l; ret = grp ? pion::admin_rights::run_as_group(name) : pion::admin_rights::run_as_user(name); } catch (std::exception &) { threw = true; }
                    unsigned after = grp ? c_egid : c_euid; bool io = simfs::faults_fired() != ff, refused = (grp ? g_setgid_refused : g_uid_refused) != rf;
                    log("%s(%s) = %ld%s, was %u is %u", grp ? "group" : "user", name.c_str(), ret, threw ? " threw" : "", before, after);
                    bool num = name.find_first_not_of("0123456789") == std::string::npos;
                    std::set<long long> want; bool range = false;
                    if (num) { long long v = atoll(name.c_str()); want.insert(v < 0xffffffffll ? v : -1); }
                    else for (size_t v = v0; v < FILES[grp]->size(); ++v) want.insert(lookup((*FILES[grp])[v], name));
                    if (want.count(-1)) range = true;
                    ++*counter("evals");
                    const char *w = grp ? "group" : "user";
                    if (after != before) {
                        CHECK(want.count(after), "wrong-identity", "running as %s '%s' took on the identity %u, the system has %lld: %s", w, name.c_str(), after, *want.rbegin(), show((*FILES[grp])[v0], 300).c_str());
                        CHECK(!threw && ret == (long)after, "wrong-result", "running as %s '%s' took on the identity %u and returned %ld", w, name.c_str(), after, ret);
                        SIM_PROBE("identity-changed");
                    } else {
                        if (threw) CHECK(range, "threw", "running as %s '%s' threw", w, name.c_str());
                        else if (ret != -1) CHECK(ret == (long)after, "wrong-result", "running as %s '%s' returned %ld although the identity is %u", w, name.c_str(), ret, after);
                        else CHECK(refused || io || range, "wrong-result", "running as %s '%s' failed for no reason", w, name.c_str());
                        if (!range && !io && !refused && !want.count(before)) violation("not-taken", "running as %s '%s' (%lld) left the identity at %u and returned %ld: %s", w, name.c_str(), *want.begin(), after, ret, show((*FILES[grp])[v0], 300).c_str());
                        if (refused && !io && !range) { CHECK(ret == -1, "not-reported", "running as %s '%s' was refused by the system and returned %ld", w, name.c_str(), ret); SIM_PROBE("refused"); }
                    }
                    if (plan(2)) sim::sleep(plan(100));
                }
                --inside;
                if (ar) { Loud l; delete ar; }
                if (plan(2)) sim::sleep(plan(300));
            }
        }));
    }
    int ed = spawn("editor", [&] {
        while (edits && !stop) {
            sim::sleep(1 + plan(400)); int k = plan(2);
            std::string d = id_file(k); FILES[k]->push_back(d); simfs::replace(IDF[k], d);
        }
    });
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 600 * SEC)) violation("rights-blocked", "running as a user never returns");
    stop = true; join(ed); (void)orig;
    CHECK(simfs::open_handles() == 0, "file-leaked", "%d system files are still open", simfs::open_handles());
}

// ================================================================ P18
enum Op { ADD, ADDH, UPD, UPDH, DEL, GET, GETP, EMPTY, NOP };
const char *opn[] = { "add", "add_hash", "update", "update_hash", "remove", "get", "get_pw", "empty" };
struct Ev { Op op; int u, p; bool bad; uint64_t inv, res; int r; };   // r: 0/1, 2 = exception
std::vector<Ev> *H; uint64_t g_tick;
// sequential specification: state = password index per user (0 = absent)
int apply(const Ev &e, std::vector<int> &st) {
    int &s = st[e.u];
    switch (e.op) {
    case ADD: case ADDH: if (s) return 0; if (e.bad) return 2; s = e.p + 1; return 1;
    case UPD: case UPDH: if (!s) return 0; if (e.bad) return 2; s = e.p + 1; return 1;
    case DEL: if (!s) return 0; s = 0; return 1;
    case GET: return s ? 1 : 0;
    case GETP: return s && s == e.p + 1 ? 1 : 0;
    case EMPTY: for (int x : st) if (x) return 0; return 1;
    default: return 0;
    }
}
bool linearise(uint32_t donem, std::vector<int> st, std::set<std::pair<uint32_t, std::vector<int>>> &seen, const std::vector<int> *final_state) {
    size_t n = H->size();
    if (donem == (n == 32 ? ~0u : (1u << n) - 1)) return !final_state || *final_state == st;
    if (!seen.insert(std::make_pair(donem, st)).second) return false;
    uint64_t lim = ~0ull;
    for (size_t i = 0; i < n; ++i) if (!(donem >> i & 1)) lim = std::min(lim, (*H)[i].res);
    for (size_t i = 0; i < n; ++i) {
        if (donem >> i & 1 || (*H)[i].inv > lim) continue;
        std::vector<int> s2 = st;
        if (apply((*H)[i], s2) != (*H)[i].r) continue;
        if (linearise(donem | 1u << i, s2, seen, final_state)) return true;
    }
    return false;
}
const char *users[] = { "ann", "bob", "" };
const char *pws[] = { "secret", "hunter2", "" };
const char *sha256_of[] = { "2bb80d537b1da3e38bd30361aa855686bde0eacd7162fef6a25fe97bf527a25b", "f52fbd32b2b3b86ff88ef6c490628285f482af15ddcb29541f94bcf526a3f6c7", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855" };
const char *sha1_of[] = { "e5e9fa1ba31ecd1ae84f75caaa474f3a663f05f4", "f3bbbd66a63d4bf1747940578ec3d0103530e21d", "da39a3ee5e6b4b0d3255bfef95601890afd80709" };
void p18() {
    static pion::user_manager *M = new pion::user_manager();
    int nu = plan_range(1, 2), threads = plan_range(1, 4); std::vector<int> f;
    static std::vector<std::pair<int, pion::user_ptr>> kept, keptobj; static std::vector<int> objpw; H->reserve(64);
    int total = 0;
    for (int t = 0; t < threads; ++t) {
        int ops = plan_range(1, 6); if (total + ops > 22) ops = 1; total += ops;
        f.push_back(spawn("client", [=] {
            for (int i = 0; i < ops; ++i) {
                Ev e; e.op = (Op)plan(NOP); e.u = plan(nu); e.p = plan(3); e.bad = false;
                int form = plan(6); // hash form: 0,1 sha256 2 sha1 3 upper-case 4 damaged 5 of another password
                std::string u = users[e.u], p = pws[e.p], h = form == 2 ? sha1_of[e.p] : sha256_of[e.p];
                if (form == 3) for (auto &c : h) c = (char)toupper(c);
                if (form == 4 && (e.op == ADDH || e.op == UPDH)) { h.resize(h.size() - 1 - plan(20)); if (h.size() == 40) h.resize(39); e.bad = true; }
                if (form == 5 && (e.op == ADDH || e.op == UPDH)) { h = (plan(2) ? sha1_of : sha256_of)[e.p]; h[h.size() - 1 - plan(h.size())] ^= 1; e.p = 7; }   // (0-9 and a-f change into each other)
                size_t id = H->size(); e.res = ~0ull; e.r = -1; e.inv = ++g_tick; H->push_back(e);
                int r = 0; pion::user_ptr up; bool ptr = false;
                try {
                    Loud l;
                    switch (e.op) {
                    case ADD: r = M->add_user(u, p); break;
                    case UPD: r = M->update_user(u, p); break;
                    case ADDH: r = M->add_user_hash(u, h); break;
                    case UPDH: r = M->update_user_hash(u, h); break;
                    case DEL: r = M->remove_user(u); break;
                    case GET: up = M->get_user(u); ptr = true; break;
                    case GETP: up = M->get_user(u, p); ptr = true; break;
                    case EMPTY: r = M->empty(); break;
                    default: break;
                    }
                } catch (pion::error::bad_password_hash &) { r = 2; }
                if (ptr) r = up ? 1 : 0;
                (*H)[id].r = r; (*H)[id].res = ++g_tick;
                log("%s(%d,%d)=%d", opn[e.op], e.u, e.p, r);
                if (threads == 1) {
                    static int cur[3];
                    if ((e.op == ADD || e.op == ADDH) && r == 1) { cur[e.u] = (int)objpw.size(); objpw.push_back(e.p + 1); }
                    else if ((e.op == UPD || e.op == UPDH) && r == 1) objpw[cur[e.u]] = e.p + 1;
                    if (up) keptobj.push_back(std::make_pair(cur[e.u], up));
                }
                if (up) { CHECK(up->get_username() == users[e.u], "wrong-user", "lookup of '%s' returned '%s'", users[e.u], up->get_username().c_str()); if (plan(2)) kept.push_back(std::make_pair(e.u, up)); }
                if (plan(3) == 2) sim::sleep(1 + plan(20));
            }
        }));
    }
    if (!wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 300 * SEC)) violation("directory-blocked", "an operation on the user directory never returns");
    // read back the final state, as further operations of the history
    for (int u = 0; u < nu; ++u) for (int p = 0; p < 3; ++p) {
        Ev e; e.op = GETP; e.u = u; e.p = p; e.bad = false; e.inv = ++g_tick;
        e.r = loud([&] { return M->get_user(users[u], pws[p]); }) ? 1 : 0; e.res = ++g_tick; H->push_back(e);
    }
    { Ev e; e.op = EMPTY; e.u = 0; e.p = 0; e.bad = false; e.inv = ++g_tick; e.r = loud([&] { return M->empty(); }); e.res = ++g_tick; H->push_back(e); }
    std::set<std::pair<uint32_t, std::vector<int>>> seen;
    if (!linearise(0, std::vector<int>(3, 0), seen, 0)) {
        std::string s; char b[120];
        for (auto &e : *H) { snprintf(b, sizeof b, " [%llu-%llu]%s(%s,%d%s)=%d", (unsigned long long)e.inv, (unsigned long long)e.res, opn[e.op], users[e.u], e.p, e.bad ? ",damaged" : "", e.r); s += b; }
        violation("not-linearizable", "no order of these user directory operations explains their results:%s", s.c_str());
    }
    *counter("evals") += H->size();
    // objects handed out stay usable after the directory is gone
    if (plan(2)) { Loud l; delete M; }
    for (auto &k : keptobj) for (int p = 0; p < 3; ++p)
        CHECK(loud([&] { return k.second->match_password(pws[p]); }) == (objpw[k.first] == p + 1), "stale-user-damaged", "a user object handed out has another password than its user had (%d, %d)", objpw[k.first], p);
    for (auto &k : kept) {
        CHECK(loud([&] { return k.second->get_username(); }) == users[k.first], "stale-user-damaged", "a user object handed out changed its name");
        loud([&] { k.second->match_password("secret"); });
        ++*counter("evals");
    }
}
}
void harness_run() {
    quiet_logging(); H = new std::vector<Ev>();
    std::string p = property();
    if (p == "P26") p26(); else if (p == "P28") p28(); else if (p == "P32") p32(); else p18();
}
