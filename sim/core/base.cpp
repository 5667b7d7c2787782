// Choice streams, result reporting, worker / replay / minimise driver.
#include "base.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:handle_abort=0:symbolize=0:allocator_may_return_null=0:max_allocation_size_mb=256:quarantine_size_mb=16:detect_stack_use_after_return=0:print_legend=0";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:symbolize=0"; }
#endif

namespace sim {

// ------------------------------------------------------------------ result shared memory
enum { RS_NONE = 0, RS_OK = 1, RS_VIOLATION = 2, RS_ENDED = 3 };
struct Counter { char name[56]; uint64_t v; };
struct Result {
    volatile int status;
    char cls[96];
    char msg[4000];
    uint64_t ehash, shash, simtime, nsync, nmem, switches;
    uint32_t ncounters;
    Counter counters[320];
    uint32_t n[NSTREAM], nsched, nmemp;
    // payload follows: streams as uint32 / Sparse
};
static const size_t RES_SIZE = 24u << 20;
static Result *g_res;

// the recorder's memory must not come from the simulated heap: addresses have to be the same when replaying
template <class T> struct RawAlloc {
    typedef T value_type; RawAlloc() {} template <class U> RawAlloc(const RawAlloc<U> &) {}
    T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); }
    template <class U> bool operator==(const RawAlloc<U> &) const { return true; } template <class U> bool operator!=(const RawAlloc<U> &) const { return false; }
};
typedef std::vector<uint32_t, RawAlloc<uint32_t> > Values; typedef std::vector<Sparse, RawAlloc<Sparse> > Sparses;
static uint64_t g_ehash, g_shash;
static bool g_trace, g_trace2, g_replay, g_nofork;
static std::string g_prop, g_scratch;
static uint64_t g_seed, g_run;
static Values g_stream[NSTREAM];
static size_t g_pos[NSTREAM];
static Rng g_rng[NSTREAM], g_srng, g_mrng, g_prng;
static Sparses g_sched, g_memp;
static size_t g_schedpos, g_mempos;
static uint64_t g_schedidx;
static bool g_faults = true;
static bool g_fault_free;
Params params;

uint64_t steps_sync(); uint64_t steps_mem(); uint64_t n_switches();

bool tracing() { return g_trace; }
bool replaying() { return g_replay; }
const char *property() { return g_prop.c_str(); }

void hash_event(uint64_t v) { g_ehash = (g_ehash ^ v) * 0x100000001b3ull; g_ehash ^= g_ehash >> 29; }
void hash_sched(uint64_t v) { if (g_trace2) fprintf(stderr, "S %llu f%d t%llu m%llu i%llu\n", (unsigned long long)v, self(), (unsigned long long)now(), (unsigned long long)steps_mem(), (unsigned long long)g_schedidx); g_shash = (g_shash ^ v) * 0x100000001b3ull; g_shash ^= g_shash >> 31; hash_event(v); }

void log(const char *fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (const char *p = buf; *p; ++p) hash_event((unsigned char)*p);
    if (g_trace) { dprintf(2, "[%10.6f f%d %s] %s\n", now() / 1e6, self(), name_of(self()), buf); if (getenv("SIMDBG")) dprintf(2, "  sync %llu mem %llu idx %llu\n", (unsigned long long)steps_sync(), (unsigned long long)steps_mem(), (unsigned long long)g_schedidx); }
}

static Counter g_local_counters[320];
static uint32_t g_nlocal;
uint64_t *counter(const char *name) {
    Counter *t = g_res ? g_res->counters : g_local_counters;
    uint32_t &n = g_res ? g_res->ncounters : g_nlocal;
    for (uint32_t i = 0; i < n; ++i) if (!strncmp(t[i].name, name, sizeof t[i].name - 1)) return &t[i].v;
    if (n >= 320) { static uint64_t sink; return &sink; }
    snprintf(t[n].name, sizeof t[n].name, "%s", name);
    t[n].v = 0;
    return &t[n++].v;
}

uint32_t choose(Stream s, uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (g_replay) {
        v = g_pos[s] < g_stream[s].size() ? g_stream[s][g_pos[s]] % n : 0;
        ++g_pos[s];
    } else {
        v = g_rng[s].below(n);
        g_stream[s].push_back(v);
    }
    return v;
}
bool chance(Stream s, uint32_t num, uint32_t den) {
    bool v;
    if (g_replay) {
        v = g_pos[s] < g_stream[s].size() && g_stream[s][g_pos[s]] != 0;
        ++g_pos[s];
    } else {
        v = num != 0 && g_rng[s].below(den) < num;
        g_stream[s].push_back(v ? 1 : 0);
    }
    return v;
}

void set_faults(bool on) { g_faults = on; }
bool faults_on() { return g_faults; }
bool fault(const char *kind, uint32_t num, uint32_t den) {
    if (!g_faults) return false;
    if (!g_replay) {
        // swarm: per run every kind is disabled with probability 1/2 (derived from the run seed and the name)
        if (g_fault_free) num = 0;
        else {
            uint64_t h = g_seed * 0x9E3779B97F4A7C15ull ^ g_run * 0xC2B2AE3D27D4EB4Full;
            for (const char *p = kind; *p; ++p) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
            Rng r = { h };
            if (r.next() & 1) num = 0;
        }
    }
    if (!chance(FAULT, num, den)) return false;
    char nm[64]; snprintf(nm, sizeof nm, "fault.%s", kind);
    ++*counter(nm);
    hash_event(0xFA17);
    if (g_trace) dprintf(2, "[%10.6f f%d] FAULT %s\n", now() / 1e6, self(), kind);
    return true;
}

uint32_t sched_choice(uint32_t n, bool forced) {
    uint64_t idx = g_schedidx++;
    if (n <= 1) return 0;
    uint32_t v = 0;
    if (g_replay) {
        while (g_schedpos < g_sched.size() && g_sched[g_schedpos].at < idx) ++g_schedpos;
        if (g_schedpos < g_sched.size() && g_sched[g_schedpos].at == idx) v = g_sched[g_schedpos++].v % n;
    } else {
        if (forced) v = g_srng.below(n);
        else if (params.sync_num && g_srng.below(params.sync_den) < params.sync_num) v = g_srng.below(n);
        if (v) g_sched.push_back(Sparse{ idx, v });
    }
    return v;
}
uint64_t mem_next(uint64_t cur) {
    if (g_replay) {
        while (g_mempos < g_memp.size() && g_memp[g_mempos].at <= cur) ++g_mempos;
        return g_mempos < g_memp.size() ? g_memp[g_mempos].at : ~0ull;
    }
    if (!params.mem_mean) return ~0ull;
    // mixture: mostly around the mean, sometimes bursts of adjacent preemptions
    uint32_t r = g_mrng.below(8);
    uint32_t span = r == 0 ? 4 : r == 1 ? params.mem_mean * 4 : params.mem_mean * 2;
    return cur + 1 + g_mrng.below(span ? span : 1);
}
uint32_t mem_choice(uint64_t index, uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v = 0;
    if (g_replay) {
        if (g_mempos < g_memp.size() && g_memp[g_mempos].at == index) v = g_memp[g_mempos].v % n;
    } else {
        v = g_mrng.below(n);
        if (v) g_memp.push_back(Sparse{ index, v });
    }
    return v;
}

// ------------------------------------------------------------------ ending a run
static void flush_result(int status, const char *cls, const char *msg) {
    if (g_res->status != RS_NONE) return;
    if (cls) { snprintf(g_res->cls, sizeof g_res->cls, "%s", cls); }
    if (msg) { snprintf(g_res->msg, sizeof g_res->msg, "%s", msg); }
    g_res->ehash = g_ehash; g_res->shash = g_shash; g_res->simtime = now();
    g_res->nsync = steps_sync(); g_res->nmem = steps_mem(); g_res->switches = n_switches();
    if (status == RS_VIOLATION) {
        char *p = (char *)(g_res + 1), *end = (char *)g_res + RES_SIZE;
        for (int s = 0; s < NSTREAM; ++s) {
            size_t k = g_stream[s].size();
            if (g_replay && g_pos[s] < k) k = g_pos[s];
            if (p + k * 4 > end) k = 0;
            if (k) memcpy(p, &g_stream[s][0], k * 4);
            g_res->n[s] = (uint32_t)k; p += k * 4;
        }
        size_t k = g_sched.size(); if (p + k * sizeof(Sparse) > end) k = 0;
        if (k) memcpy(p, &g_sched[0], k * sizeof(Sparse));
        g_res->nsched = (uint32_t)k; p += k * sizeof(Sparse);
        k = g_memp.size(); if (p + k * sizeof(Sparse) > end) k = 0;
        if (k) memcpy(p, &g_memp[0], k * sizeof(Sparse));
        g_res->nmemp = (uint32_t)k;
    }
    __sync_synchronize();
    g_res->status = status;
}
static void leave() __attribute__((noreturn));
static void leave() { syscall(SYS_exit_group, 0); __builtin_unreachable(); }

void report_fatal(const char *cls, const char *msg) {
    if (g_trace) dprintf(2, "*** VIOLATION [%s] %s\n", cls, msg);
    flush_result(RS_VIOLATION, cls, msg);
    leave();
}
void violation(const char *cls, const char *fmt, ...) {
    char buf[3900];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    report_fatal(cls, buf);
    __builtin_unreachable();
}
void end_run(const char *why) {
    char nm[64]; snprintf(nm, sizeof nm, "ended.%s", why);
    ++*counter(nm);
    flush_result(RS_ENDED, 0, 0);
    leave();
}

static void on_signal(int sig) {
    const char *c = sig == SIGSEGV ? "crash-segv" : sig == SIGBUS ? "crash-bus" : sig == SIGFPE ? "crash-fpe" : sig == SIGABRT ? "crash-abort" : sig == SIGILL ? "crash-ill" : sig == SIGVTALRM ? "hang" : "crash";
    char m[120]; snprintf(m, sizeof m, "signal %d in fiber %d (%s)", sig, self(), name_of(self()));
    report_fatal(c, m);
}
static void on_terminate() {
    const char *what = "?"; char buf[400];
    std::type_info *t = abi::__cxa_current_exception_type();
    if (t) {
        try { throw; }
        catch (std::exception &e) { what = e.what(); }
        catch (...) { what = t->name(); }
    }
    snprintf(buf, sizeof buf, "uncaught exception / std::terminate: %s", what);
    report_fatal("terminate", buf);
}
#ifdef SIM_ASAN
static char g_asan_report[3600];
static void asan_cb(const char *rep) { snprintf(g_asan_report, sizeof g_asan_report, "%s", rep); }
static void asan_death() {
    const char *c = "memory-error";
    if (strstr(g_asan_report, "heap-use-after-free")) c = "memory-uaf";
    else if (strstr(g_asan_report, "stack-overflow")) c = "memory-stack-overflow";
    else if (strstr(g_asan_report, "allocation-size-too-big") || strstr(g_asan_report, "out-of-memory") || strstr(g_asan_report, "exceeds maximum supported size")) c = "memory-huge-allocation";
    else if (strstr(g_asan_report, "overflow") || strstr(g_asan_report, "negative-size-param")) c = "memory-overflow";
    report_fatal(c, g_asan_report);
}
#endif

std::string scratch_dir() {
    if (g_scratch.empty()) {
        char b[128]; snprintf(b, sizeof b, "/tmp/vsim.%d", (int)getpid());
        ::mkdir(b, 0700);
        g_scratch = b;
    }
    return g_scratch;
}

// ------------------------------------------------------------------ one run
static void setup_run(uint64_t seed, uint64_t run) {
    g_seed = seed; g_run = run;
    uint64_t base = seed * 0xD6E8FEB86659FD93ull + run * 0xA0761D6478BD642Full;
    for (const char *p = g_prop.c_str(); *p; ++p) base = (base ^ (unsigned char)*p) * 0x100000001b3ull;
    Rng r = { base };
    for (int s = 0; s < NSTREAM; ++s) g_rng[s].s = r.next();
    g_srng.s = r.next(); g_mrng.s = r.next(); g_prng.s = r.next();
    g_fault_free = g_prng.below(4) == 0;        // a quarter of all runs inject no fault() at all
    static const uint32_t sync_probs[][2] = { {0,1}, {1,40}, {1,12}, {1,5}, {1,3}, {1,2} };
    uint32_t k = g_prng.below(6);
    params.sync_num = sync_probs[k][0]; params.sync_den = sync_probs[k][1];
    static const uint32_t mems[] = { 0, 0, 2000, 500, 150, 50, 20 };
    params.mem_mean = mems[g_prng.below(7)];
    params.stall_num = g_prng.below(3) == 0 ? 1 : 0; params.stall_den = 60 + g_prng.below(400);
    params.stall_us = 1000u << g_prng.below(12);
    params.spurious_num = g_prng.below(2); params.spurious_den = 4 + g_prng.below(20);
    params.max_sync = 4000000; params.max_mem = 60000000;
}

static void child_body() __attribute__((noreturn));
static void child_body() {
    static char altstack[65536] __attribute__((aligned(16)));
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
#ifndef SIM_ASAN
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
#endif
    sigaction(SIGABRT, &sa, 0); sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20;
    setitimer(ITIMER_VIRTUAL, &it, 0);
    std::set_terminate(on_terminate);
#ifdef SIM_ASAN
    __asan_set_error_report_callback(asan_cb);
    __sanitizer_set_death_callback(asan_death);
#endif
    if (!g_trace) { int fd = open("/dev/null", O_RDWR); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); } }
    g_ehash = g_shash = 0xcbf29ce484222325ull;
    run_main_fiber();
    flush_result(RS_OK, 0, 0);
    leave();
}

static void rm_rf(const std::string &d) {
    // only ever called for /tmp/vsim.<pid>
    if (d.compare(0, 10, "/tmp/vsim.") != 0) return;
    std::string c = "rm -rf -- '" + d + "'";
    if (system(c.c_str())) {}
}

struct Streams { Values s[NSTREAM]; Sparses sched, memp; };

static void one_run(uint64_t seed, uint64_t run, const Streams *rep) {
    memset(g_res, 0, sizeof *g_res);
    pid_t pid = g_nofork ? 0 : fork();
    if (pid == 0) {
        setup_run(seed, run);
        for (int s = 0; s < NSTREAM; ++s) { g_stream[s].clear(); g_pos[s] = 0; }
        g_sched.clear(); g_memp.clear(); g_schedpos = g_mempos = 0; g_schedidx = 0;
        g_replay = rep != 0;
        if (rep) { for (int s = 0; s < NSTREAM; ++s) g_stream[s] = rep->s[s]; g_sched = rep->sched; g_memp = rep->memp; }
        child_body();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (g_res->status == RS_NONE) {
        snprintf(g_res->cls, sizeof g_res->cls, "crash-unreported");
        snprintf(g_res->msg, sizeof g_res->msg, "child ended with wait status 0x%x", st);
        g_res->status = RS_VIOLATION;
    }
    char d[64]; snprintf(d, sizeof d, "/tmp/vsim.%d", (int)pid);
    if (access(d, F_OK) == 0) rm_rf(d);
}
static void take_streams(Streams &o) {
    char *p = (char *)(g_res + 1);
    for (int s = 0; s < NSTREAM; ++s) { uint32_t *q = (uint32_t *)p; o.s[s].assign(q, q + g_res->n[s]); p += g_res->n[s] * 4; }
    Sparse *q = (Sparse *)p; o.sched.clear(); o.memp.clear();
    for (uint32_t i = 0; i < g_res->nsched; ++i) { Sparse x; memcpy(&x, (char *)q + i * sizeof(Sparse), sizeof x); o.sched.push_back(x); }
    p += g_res->nsched * sizeof(Sparse);
    for (uint32_t i = 0; i < g_res->nmemp; ++i) { Sparse x; memcpy(&x, p + i * sizeof(Sparse), sizeof x); o.memp.push_back(x); }
}
static void trim(Streams &s) {
    for (int i = 0; i < NSTREAM; ++i) while (!s.s[i].empty() && s.s[i].back() == 0) s.s[i].pop_back();
}
static const char *SN[] = { "PLAN", "NET", "FAULT" };
static void write_replay(const char *path, const Streams &s, const char *cls, const char *msg, uint64_t ehash) {
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fprintf(f, "property %s\nclass %s\nseed %llu\nrun %llu\nhash %016llx\n", g_prop.c_str(), cls, (unsigned long long)g_seed, (unsigned long long)g_run, (unsigned long long)ehash);
    std::string m = msg; for (size_t i = 0; i < m.size(); ++i) if (m[i] == '\n') m[i] = '|';
    fprintf(f, "message %s\n", m.c_str());
    for (int i = 0; i < NSTREAM; ++i) { fprintf(f, "%s", SN[i]); for (size_t k = 0; k < s.s[i].size(); ++k) fprintf(f, " %u", s.s[i][k]); fprintf(f, "\n"); }
    fprintf(f, "SCHED"); for (size_t k = 0; k < s.sched.size(); ++k) fprintf(f, " %llu:%u", (unsigned long long)s.sched[k].at, s.sched[k].v); fprintf(f, "\n");
    fprintf(f, "MEM"); for (size_t k = 0; k < s.memp.size(); ++k) fprintf(f, " %llu:%u", (unsigned long long)s.memp[k].at, s.memp[k].v); fprintf(f, "\n");
    fclose(f);
}
static bool read_replay(const char *path, Streams &s, std::string &cls, uint64_t &hash) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char *line = 0; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
        char *sp = strchr(line, ' '); char *rest = sp ? sp + 1 : (char *)"";
        if (sp) *sp = 0;
        if (!strcmp(line, "property")) g_prop = rest;
        else if (!strcmp(line, "class")) cls = rest;
        else if (!strcmp(line, "seed")) g_seed = strtoull(rest, 0, 10);
        else if (!strcmp(line, "run")) g_run = strtoull(rest, 0, 10);
        else if (!strcmp(line, "hash")) hash = strtoull(rest, 0, 16);
        else for (int i = 0; i < NSTREAM + 2; ++i) {
            const char *nm = i < NSTREAM ? SN[i] : i == NSTREAM ? "SCHED" : "MEM";
            if (strcmp(line, nm)) continue;
            for (char *t = strtok(rest, " "); t; t = strtok(0, " ")) {
                if (i < NSTREAM) s.s[i].push_back((uint32_t)strtoul(t, 0, 10));
                else { Sparse x; char *e; x.at = strtoull(t, &e, 10); x.v = *e == ':' ? (uint32_t)strtoul(e + 1, 0, 10) : 1; (i == NSTREAM ? s.sched : s.memp).push_back(x); }
            }
        }
    }
    free(line); fclose(f);
    return true;
}

static double realtime() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ minimisation
static bool still_fails(const Streams &s, const std::string &cls, Streams &actual, uint64_t seed, uint64_t run) {
    one_run(seed, run, &s);
    if (g_res->status == RS_VIOLATION && cls == g_res->cls) { take_streams(actual); return true; }
    return false;
}
template <class V> static V without(const V &v, size_t a, size_t b) {
    V r(v.begin(), v.begin() + a); r.insert(r.end(), v.begin() + b, v.end()); return r;
}
static int minimise(Streams cur, const std::string &cls, const char *out, double budget) {
    double t0 = realtime(); int tries = 0; Streams act;
    uint64_t seed = g_seed, run = g_run;
    if (!still_fails(cur, cls, act, seed, run)) { fprintf(stderr, "minimise: does not reproduce\n"); return 2; }
    trim(cur);
    bool progress = true;
    #define TRY(cand) (realtime() - t0 < budget && (++tries, still_fails(cand, cls, act, seed, run)))
    while (progress && realtime() - t0 < budget) {
        progress = false;
        // 1. drop scheduling decisions (chunks, halving)
        for (int w = 0; w < 2; ++w) {
            for (size_t len = (w ? cur.memp : cur.sched).size(); len >= 1; len /= 2) {
                for (size_t a = 0; a < (w ? cur.memp : cur.sched).size();) {
                    Streams c = cur; Sparses &v = w ? c.memp : c.sched;
                    v = without(v, a, std::min(a + len, v.size()));
                    if (TRY(c)) { cur = c; progress = true; } else a += len;
                    if (realtime() - t0 > budget) break;
                }
                if (len == 1) break;
            }
        }
        // 2. streams: truncate, zero chunks, delete chunks, reduce values
        for (int s = NSTREAM - 1; s >= 0; --s) {
            for (size_t len = cur.s[s].size(); len >= 1; len /= 2) {
                for (size_t a = 0; a < cur.s[s].size();) {
                    size_t b = std::min(a + len, cur.s[s].size());
                    bool allzero = true; for (size_t i = a; i < b; ++i) if (cur.s[s][i]) allzero = false;
                    Streams c = cur; c.s[s] = without(c.s[s], a, b);
                    if (TRY(c)) { cur = c; trim(cur); progress = true; continue; }
                    if (!allzero) { c = cur; for (size_t i = a; i < b; ++i) c.s[s][i] = 0; if (TRY(c)) { cur = c; trim(cur); progress = true; } }
                    a += len;
                    if (realtime() - t0 > budget) break;
                }
                if (len == 1) break;
            }
            for (size_t a = 0; a < cur.s[s].size() && realtime() - t0 < budget; ++a) {
                if (cur.s[s][a] > 1) { Streams c = cur; c.s[s][a] = 1; if (TRY(c)) { cur = c; progress = true; continue; }
                    c = cur; c.s[s][a] /= 2; if (TRY(c)) { cur = c; progress = true; } }
            }
        }
    }
    #undef TRY
    if (!still_fails(cur, cls, act, seed, run)) { fprintf(stderr, "minimise: lost the failure\n"); return 2; }
    g_seed = seed; g_run = run;
    write_replay(out, cur, g_res->cls, g_res->msg, g_res->ehash);
    size_t nz = 0; for (int s = 0; s < NSTREAM; ++s) nz += cur.s[s].size();
    printf("{\"tries\":%d,\"stream_values\":%zu,\"sched\":%zu,\"mem\":%zu}\n", tries, nz, cur.sched.size(), cur.memp.size());
    return 0;
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}

} // namespace sim
using namespace sim;

// one-time process initialisation (library caches) before the first simulated run
__attribute__((weak)) void harness_init() {}

#include <sys/single_threaded.h>
int main(int argc, char **argv) {
    __libc_single_threaded = 0;      // fibers preempt each other: libstdc++ must use its atomic reference counts
    std::map<std::string, std::string> o; std::string mode;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--trace") g_trace = true;
        else if (a == "--trace2") g_trace = g_trace2 = true;      // every scheduling step
        else if (a == "--nofork") g_nofork = true;
        else if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; if (a == "--replay" || a == "--minimise" || a == "--worker" || a == "--one") mode = a; ++i; }
    }
    setenv("TZ", "UTC", 1); tzset();
    if (o.count("prop")) g_prop = o["prop"];
    g_seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : 1;
    harness_init();
    g_res = (Result *)mmap(0, RES_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "--one") {
        g_run = strtoull(o["one"].c_str(), 0, 10);
        one_run(g_seed, g_run, 0);
        printf("status=%d class=%s hash=%016llx simtime=%.3fs sync=%llu mem=%llu\n%s\n", g_res->status, g_res->cls, (unsigned long long)g_res->ehash, g_res->simtime / 1e6, (unsigned long long)g_res->nsync, (unsigned long long)g_res->nmem, g_res->msg);
        for (uint32_t i = 0; i < g_res->ncounters; ++i) printf("  %s=%llu\n", g_res->counters[i].name, (unsigned long long)g_res->counters[i].v);
        return g_res->status == RS_VIOLATION;
    }
    if (mode == "--replay" || mode == "--minimise") {
        Streams s; std::string cls; uint64_t h = 0;
        if (!read_replay(o[mode.substr(2)].c_str(), s, cls, h)) { fprintf(stderr, "cannot read replay\n"); return 3; }
        if (mode == "--minimise") return minimise(s, cls, o["out"].c_str(), o.count("budget") ? atof(o["budget"].c_str()) : 30);
        one_run(g_seed, g_run, &s);
        bool same = g_res->status == RS_VIOLATION && cls == g_res->cls;
        printf("%s class=%s hash=%016llx expected_class=%s expected_hash=%016llx\n%s\n", g_res->status == RS_VIOLATION ? "VIOLATION" : "no violation", g_res->cls, (unsigned long long)g_res->ehash, cls.c_str(), (unsigned long long)h, g_res->msg);
        return g_res->status != RS_VIOLATION ? 0 : (same && g_res->ehash == h) ? 1 : 4;
    }
    if (mode != "--worker") { fprintf(stderr, "usage: --worker i/n | --replay f | --minimise f --out g | --one k\n"); return 3; }
    // ---------------------------------------------------------------- worker
    unsigned wi = 0, wn = 1; sscanf(o["worker"].c_str(), "%u/%u", &wi, &wn);
    double tmax = o.count("time") ? atof(o["time"].c_str()) : 5; uint64_t maxruns = o.count("runs") ? strtoull(o["runs"].c_str(), 0, 10) : ~0ull;
    std::string out = o["out"];
    std::map<std::string, uint64_t> cnt, fired_runs; std::set<uint64_t> eh, sh;
    uint64_t runs = 0, dup = 0, ended = 0, sync = 0, mem = 0, sw = 0, nontriv = 0; double simt = 0; bool nondet = false; std::string ndmsg;
    int viol = 0; Streams vs; std::string vcls, vmsg; uint64_t vhash = 0, vrun = 0;
    double t0 = realtime(), treal = 0;
    for (uint64_t k = wi; runs < maxruns && (treal = realtime() - t0) < tmax; k += wn) {
        one_run(g_seed, k, 0);
        uint64_t seed = g_seed;
        ++runs; simt += g_res->simtime / 1e6; sync += g_res->nsync; mem += g_res->nmem; sw += g_res->switches;
        if (g_res->status == RS_ENDED) ++ended;
        uint64_t e = g_res->ehash, sch = g_res->shash; int st = g_res->status;
        if (eh.size() < 3000000) { eh.insert(e); sh.insert(sch); }
        if (g_res->nsync > 20 || g_res->nmem > 0 || *counter("evals") > 0) ++nontriv;
        for (uint32_t i = 0; i < g_res->ncounters; ++i) { cnt[g_res->counters[i].name] += g_res->counters[i].v; if (g_res->counters[i].v) fired_runs[g_res->counters[i].name]++; }
        if (st == RS_VIOLATION) { viol = 1; take_streams(vs); vcls = g_res->cls; vmsg = g_res->msg; vhash = e; vrun = k; break; }
        if (runs <= 5 || runs % 64 == 0) {    // determinism: the same run again
            ++dup; std::string c1 = g_res->cls;
            one_run(seed, k, 0);
            if (g_res->ehash != e || g_res->status != st) { nondet = true; char b[200]; snprintf(b, sizeof b, "run %llu hash %016llx vs %016llx status %d vs %d %s", (unsigned long long)k, (unsigned long long)e, (unsigned long long)g_res->ehash, st, g_res->status, g_res->cls); ndmsg = b; break; }
        }
    }
    treal = realtime() - t0;
    if (viol) { g_run = vrun; write_replay((out + ".replay").c_str(), vs, vcls.c_str(), vmsg.c_str(), vhash); }
    // hashes for exact union over workers
    FILE *f = fopen((out + ".hash").c_str(), "wb");
    if (f) { for (std::set<uint64_t>::iterator i = eh.begin(); i != eh.end(); ++i) fwrite(&*i, 8, 1, f); fclose(f); }
    f = fopen((out + ".shash").c_str(), "wb");
    if (f) { for (std::set<uint64_t>::iterator i = sh.begin(); i != sh.end(); ++i) fwrite(&*i, 8, 1, f); fclose(f); }
    // the summary last and atomically: a worker may be terminated at any moment
    std::string part = out + ".part"; f = fopen(part.c_str(), "w"); if (!f) { perror(part.c_str()); return 3; }
    fprintf(f, "{\"runs\":%llu,\"ended\":%llu,\"repeat_checked\":%llu,\"wall\":%.3f,\"simtime\":%.3f,\"sync\":%llu,\"mem\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"distinct_exec\":%zu,\"distinct_sched\":%zu,\"nondet\":%s,\"ndmsg\":", (unsigned long long)runs, (unsigned long long)ended, (unsigned long long)dup, treal, simt, (unsigned long long)sync, (unsigned long long)mem, (unsigned long long)sw, (unsigned long long)nontriv, eh.size(), sh.size(), nondet ? "true" : "false");
    json_str(f, ndmsg.c_str());
    fprintf(f, ",\"violation\":%s,\"class\":", viol ? "true" : "false"); json_str(f, vcls.c_str());
    fprintf(f, ",\"message\":"); json_str(f, vmsg.c_str());
    fprintf(f, ",\"vrun\":%llu,\"counters\":{", (unsigned long long)vrun);
    bool first = true;
    for (std::map<std::string, uint64_t>::iterator i = cnt.begin(); i != cnt.end(); ++i) { if (!first) fputc(',', f); first = false; json_str(f, i->first.c_str()); fprintf(f, ":[%llu,%llu]", (unsigned long long)i->second, (unsigned long long)fired_runs[i->first]); }
    fprintf(f, "}}\n"); fclose(f); rename(part.c_str(), out.c_str());
    return 0;
}

#ifdef SIM_LITE
// single-threaded variant (parser harnesses under ASan): no fibers, a plain simulated clock
namespace sim {
static uint64_t g_now; static uint64_t g_steps;
uint64_t steps_sync() { return g_steps; } uint64_t steps_mem() { return 0; } uint64_t n_switches() { return 0; }
uint64_t now() { return g_now; }
int64_t wall() { return 1400000000000000ll + (int64_t)g_now; }
void sleep(uint64_t us) { g_now += us; ++g_steps; }
int self() { return 0; } const char *name_of(int) { return "main"; }
uint64_t steps() { return g_steps; }
Quiet::Quiet() {} Quiet::~Quiet() {} Loud::Loud() {} Loud::~Loud() {}
void run_main_fiber() { harness_run(); }
void check_range(const void *, size_t, bool, const char *) {}
}
#endif
