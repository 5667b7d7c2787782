// Instrumentation runtime: memory-access preemption points, happens-before race detection,
// use-after-free / overflow detection on a never-reused arena, interposed libstdc++ tree/list primitives.
#include "base.hpp"
#include "fiber.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <sys/mman.h>
#include <unordered_map>
#include <map>
#include <bits/stl_tree.h>
#include <boost/thread/once.hpp>

extern "C" char __data_start, _end, edata;

namespace sim {

// ------------------------------------------------------------------ vector clocks
struct VC { uint32_t c[MAXF]; VC() { memset(c, 0, sizeof c); } };
static VC *g_vc[MAXF];
static uint32_t g_epoch_dummy;
template <class T> struct Mal {   // malloc based allocator: simulator tables stay out of the arena
    typedef T value_type; Mal() {} template <class U> Mal(const Mal<U> &) {}
    T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); }
    template <class U> bool operator==(const Mal<U> &) const { return true; } template <class U> bool operator!=(const Mal<U> &) const { return false; }
};
typedef std::unordered_map<uintptr_t, VC *, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Mal<std::pair<const uintptr_t, VC *> > > HbMap;
static HbMap *g_hb;
static HbMap &hbm() { if (!g_hb) { g_hb = (HbMap *)malloc(sizeof(HbMap)); new (g_hb) HbMap(); } return *g_hb; }
static VC *newvc() { VC *v = (VC *)malloc(sizeof(VC)); new (v) VC(); return v; }
static VC &vc(int i) { if (!g_vc[i]) { g_vc[i] = newvc(); g_vc[i]->c[i] = 1; } return *g_vc[i]; }

void hb_release(const void *k) {
    if (!g_active) return;
    VC *&v = hbm()[(uintptr_t)k]; if (!v) v = newvc();
    VC &m = vc(g_cur->id);
    for (int i = 0; i < g_nf; ++i) if (m.c[i] > v->c[i]) v->c[i] = m.c[i];
    ++m.c[g_cur->id];
}
void hb_acquire(const void *k) {
    if (!g_active) return;
    HbMap::iterator it = hbm().find((uintptr_t)k); if (it == hbm().end()) return;
    VC &m = vc(g_cur->id), &v = *it->second;
    for (int i = 0; i < g_nf; ++i) if (v.c[i] > m.c[i]) m.c[i] = v.c[i];
}
void hb_forget(const void *k) { HbMap::iterator it = hbm().find((uintptr_t)k); if (it != hbm().end()) { free(it->second); hbm().erase(it); } }
void hb_capture(HbToken &t) { VC &m = vc(g_cur->id); t.vc.assign(m.c, m.c + g_nf); ++m.c[g_cur->id]; }
void hb_apply(const HbToken &t) { VC &m = vc(g_cur->id); for (size_t i = 0; i < t.vc.size(); ++i) if (t.vc[i] > m.c[i]) m.c[i] = t.vc[i]; }
void hb_fork(int child) { VC &p = vc(g_cur->id); VC &c = vc(child); for (int i = 0; i < MAXF; ++i) if (p.c[i] > c.c[i]) c.c[i] = p.c[i]; c.c[child] = 1; ++p.c[g_cur->id]; }

// ------------------------------------------------------------------ arena
static char *const ARENA = (char *)0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 31;
static uint8_t *g_addr;               // per 8-byte granule: 0 wilderness, 1..8 addressable bytes, 0xFA redzone, 0xFD freed
static char *g_bump;
static size_t g_live_bytes, g_live_blocks;
struct Slot { uint64_t e; };          // clock<<24 | mask<<16 | write<<8 | fiber
static uint64_t *g_shadow; static uint32_t *g_pc; static uint8_t *g_sz;
static uint64_t *g_gshadow; static uint32_t *g_gpc; static uint8_t *g_gsz; static char *g_gbase; static size_t g_gsize;
static bool g_arena_on, g_rt_on;

static void *big(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }
void rt_start() {
    void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA) { perror("arena"); _exit(3); }
    g_addr = (uint8_t *)big(ARENA_SIZE / 8);
    g_shadow = (uint64_t *)big(ARENA_SIZE / 8 * 4 * 8); g_pc = (uint32_t *)big(ARENA_SIZE / 8 * 4 * 4); g_sz = (uint8_t *)big(ARENA_SIZE / 8 * 4);
    g_gbase = (char *)((uintptr_t)&__data_start & ~7ull); g_gsize = ((size_t)(&_end - g_gbase) + 15) & ~7ull;
    g_gshadow = (uint64_t *)big(g_gsize * 4 + 64); g_gpc = (uint32_t *)big(g_gsize * 2 + 64); g_gsz = (uint8_t *)big(g_gsize / 2 + 64);
    g_bump = ARENA + 64; g_arena_on = true; g_rt_on = true;
}
static inline bool in_arena(const void *p) { return (uintptr_t)p - (uintptr_t)ARENA < ARENA_SIZE; }
size_t live_bytes() { return g_live_bytes; }
size_t live_blocks() { return g_live_blocks; }

static void *arena_new(size_t n) {
    size_t a = (n + 15) & ~15ull; if (a == 0) a = 16;
    if (n > (64u << 20)) throw std::bad_alloc();
    char *h = g_bump; g_bump += a + 32;            // 16 header + 16 trailing redzone
    if (g_bump > ARENA + ARENA_SIZE - 4096) end_run("arena-exhausted");
    size_t g = (size_t)(h - ARENA) / 8;
    g_addr[g] = g_addr[g + 1] = 0xFA;
    size_t full = n / 8, i = g + 2;
    memset(g_addr + i, 8, full); i += full;
    if (n % 8) g_addr[i++] = (uint8_t)(n % 8);
    size_t endg = (size_t)(g_bump - ARENA) / 8;
    while (i < endg) g_addr[i++] = 0xFA;
    *(size_t *)h = n; *(size_t *)(h + 8) = 0xA110CA7Eull;
    memset(h + 16, 0xCD, n);
    g_live_bytes += n; ++g_live_blocks;
    return h + 16;
}
static void race_access(const void *p, size_t n, bool write, bool atomic, void *pc, size_t asz);
static void arena_delete(void *p, void *pc) {
    char *h = (char *)p - 16; size_t g = (size_t)(h - ARENA) / 8;
    if (*(size_t *)(h + 8) != 0xA110CA7Eull || g_addr[g] != 0xFA) violation("memory-invalid-free", "delete of %p which is not a block start (pc %p)", p, pc);
    if (g_addr[g + 2] == 0xFD) violation("memory-double-free", "double delete of block %p (pc %p)", p, pc);
    size_t n = *(size_t *)h;
    if (g_active && !g_cur->quiet) race_access(p, n, true, false, pc, 8);
    size_t a = (n + 15) & ~15ull; if (a == 0) a = 16;
    memset(g_addr + g + 2, 0xFD, a / 8);
    memset(p, 0xDD, n);
    g_live_bytes -= n; --g_live_blocks;
}

static const char *addr_state(const void *p, size_t n) {
    // 0 if [p,p+n) is addressable arena memory
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uint8_t s = g_addr[(a - (uintptr_t)ARENA) / 8];
        size_t off = a & 7, k = 8 - off; if (k > e - a) k = e - a;
        if (s == 8) { a += k; continue; }
        if (s == 0xFD) return "use-after-free";
        if (s >= 1 && s < 8 && off + k <= s) { a += k; continue; }
        return "out-of-bounds";
    }
    return 0;
}
void check_range(const void *p, size_t n, bool write, const char *what) {
    if (!g_rt_on || !n) return;
    if (in_arena(p)) { const char *s = addr_state(p, n); if (s) violation(s[0] == 'u' ? "memory-uaf" : "memory-overflow", "%s: %s of %zu bytes at %p in fiber %d %s", what, s, n, p, g_cur->id, g_cur->name); }
}

// ------------------------------------------------------------------ race detection
static inline uint64_t enc(uint64_t clk, unsigned mask, bool w, int tid) { return clk << 24 | (uint64_t)mask << 16 | (uint64_t)(w ? 1 : 0) << 8 | (unsigned)tid; }
static unsigned g_rot;
static void race_cell(uint64_t *s, uint32_t *pcs, uint8_t *szs, unsigned mask, bool write, bool atomic, uint32_t pc, uint8_t sz, const void *addr) {
    int tid = g_cur->id; VC &me = vc(tid); uint64_t mine = enc(me.c[tid], mask, write, tid);
    int put = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t o = s[i];
        if (!o) { if (put < 0) put = i; continue; }
        int ot = (int)(o & 0xff); unsigned om = (o >> 16) & 0xff; bool ow = (o >> 8) & 1; uint32_t oc = (uint32_t)(o >> 24);
        if (ot == tid) { if (om == mask && (write || !ow)) put = i; else if (o == mine) return; continue; }
        bool ordered = me.c[ot] >= oc;
        if (!(om & mask)) { continue; }
        if (ordered) { if (put < 0 && (write || !ow)) put = i; continue; }
        if (!write && !ow) continue;
        bool oat = szs[i] & 0x80;
        if (atomic && oat) continue;
        unsigned osz = szs[i] & 0x7f;
        if (sz < 8 && osz < 8) { SIM_COUNT("smallrace"); continue; }    // flags/counters: judged by their effects, not by the race
        violation("data-race", "data race at %p: %s%s of %u bytes by fiber %d %s (pc 0x%x) is unordered with an earlier %s%s of %u bytes by fiber %d %s (pc 0x%x)",
            addr, atomic ? "atomic " : "", write ? "write" : "read", sz, tid, g_cur->name, pc, oat ? "atomic " : "", ow ? "write" : "read", osz, ot, g_f[ot].name, pcs[i]);
    }
    if (put < 0) put = (g_rot++) & 3;
    s[put] = mine; pcs[put] = pc; szs[put] = sz | (atomic ? 0x80 : 0);
}
static void race_access(const void *p, size_t n, bool write, bool atomic, void *pc, size_t asz) {
    uintptr_t a = (uintptr_t)p, e = a + n;
    uint64_t *sh; uint32_t *pcs; uint8_t *szs; uintptr_t base;
    if (in_arena(p)) { sh = g_shadow; pcs = g_pc; szs = g_sz; base = (uintptr_t)ARENA; }
    else if (a - (uintptr_t)g_gbase < g_gsize) { sh = g_gshadow; pcs = g_gpc; szs = g_gsz; base = (uintptr_t)g_gbase; }
    else return;
    while (a < e) {
        size_t off = a & 7, k = 8 - off; if (k > e - a) k = e - a;
        unsigned mask = ((1u << k) - 1) << off; size_t g = (a - base) / 8;
        race_cell(sh + g * 4, pcs + g * 4, szs + g * 4, mask, write, atomic, (uint32_t)(uintptr_t)pc, (uint8_t)(asz > 16 ? 16 : asz), (void *)a);
        a += k;
    }
}
static inline void access(const void *p, size_t n, bool write, void *pc) {
    if (!g_active || g_cur->quiet) return;
    bool ar = in_arena(p);
    if (!ar && (uintptr_t)p - (uintptr_t)g_gbase >= g_gsize) return;
    if (++g_nmem >= g_mem_target) mem_preempt();
    if (g_nmem > params.max_mem) violation("no-progress", "memory step budget exceeded");
    if (ar) { const char *s = addr_state(p, n); if (s) violation(s[0] == 'u' ? "memory-uaf" : "memory-overflow", "%s: %s of %zu bytes at %p by fiber %d %s (pc %p)", s, write ? "write" : "read", n, p, g_cur->id, g_cur->name, pc); }
    race_access(p, n, write, false, pc, n);
}
static inline void atomic_point(const void *p, size_t n, void *pc) {
    if (!g_active || g_cur->quiet) return;
    sync_point(20);
    if (in_arena(p)) { const char *s = addr_state(p, n); if (s) violation(s[0] == 'u' ? "memory-uaf" : "memory-overflow", "%s: atomic access of %zu bytes at %p by fiber %d %s (pc %p)", s, n, p, g_cur->id, g_cur->name, pc); }
}
static inline void atomic_hb(const void *p, size_t n, bool rd, bool wr, int mo, void *pc) {
    if (!g_active || g_cur->quiet) return;
    race_access(p, n, wr, true, pc, n);
    // memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
    if (rd && (mo == 1 || mo == 2 || mo >= 4)) hb_acquire(p);
    if (wr && mo >= 3) hb_release(p);
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
#define EXP extern "C" __attribute__((visibility("default")))

// operator new / delete
void *operator new(size_t n) { if (g_arena_on) return arena_new(n); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void operator delete(void *p) noexcept { if (!p) return; if (in_arena(p)) arena_delete(p, PC); else free(p); }
void operator delete[](void *p) noexcept { if (!p) return; if (in_arena(p)) arena_delete(p, PC); else free(p); }
void operator delete(void *p, size_t) noexcept { if (!p) return; if (in_arena(p)) arena_delete(p, PC); else free(p); }
void operator delete[](void *p, size_t) noexcept { if (!p) return; if (in_arena(p)) arena_delete(p, PC); else free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
#define RW(n) EXP void __tsan_read##n(void *p) { access(p, n, false, PC); } EXP void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    EXP void __tsan_read_write##n(void *p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) EXP void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } EXP void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    EXP void __tsan_unaligned_read_write##n(void *p) { access(p, n, false, PC); access(p, n, true, PC); }
URW(2) URW(4) URW(8) URW(16)
#define VRW(n) EXP void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } EXP void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
    EXP void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } EXP void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
VRW(1) VRW(2) VRW(4) VRW(8) VRW(16)
EXP void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); else access(p, 8, false, PC); }
EXP void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
EXP void __tsan_read_range(void *p, unsigned long n) { if (n) access(p, n, false, PC); }
EXP void __tsan_write_range(void *p, unsigned long n) { if (n) access(p, n, true, PC); }
EXP void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
EXP void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
EXP void *__tsan_memset(void *d, int c, size_t n) { if (n) access(d, n, true, PC); return memset(d, c, n); }
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}

#define ATOM(bits, T) \
EXP T __tsan_atomic##bits##_load(const volatile T *a, int mo) { atomic_point((void *)a, sizeof(T), PC); T v = *a; atomic_hb((void *)a, sizeof(T), true, false, mo, PC); return v; } \
EXP void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); *a = v; atomic_hb((void *)a, sizeof(T), false, true, mo, PC); } \
EXP T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = o + v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = o - v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = o & v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = o | v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = o ^ v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; *a = ~(o & v); atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return o; } \
EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { atomic_point((void *)a, sizeof(T), PC); T o = *a; if (o == *c) { *a = v; atomic_hb((void *)a, sizeof(T), true, true, mo, PC); return 1; } *c = o; atomic_hb((void *)a, sizeof(T), true, false, fmo, PC); return 0; } \
EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) { sync_point(21); }
EXP void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ libstdc++ out-of-line container primitives
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    typedef void (*F)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &);
    static F f = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    access(x, 32, true, PC); access(p, 32, true, PC); access(&h, 32, true, PC);
    f(left, x, p, h);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    typedef _Rb_tree_node_base *(*F)(_Rb_tree_node_base *, _Rb_tree_node_base &);
    static F f = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    access(z, 32, true, PC); access(&h, 32, true, PC);
    return f(z, h);
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    typedef _Rb_tree_node_base *(*F)(_Rb_tree_node_base *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
    access(x, 32, false, PC); return f(x);
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
    typedef const _Rb_tree_node_base *(*F)(const _Rb_tree_node_base *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
    access(x, 32, false, PC); return f(x);
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    typedef _Rb_tree_node_base *(*F)(_Rb_tree_node_base *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
    access(x, 32, false, PC); return f(x);
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {
    typedef const _Rb_tree_node_base *(*F)(const _Rb_tree_node_base *);
    static F f = (F)dlsym(RTLD_NEXT, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
    access(x, 32, false, PC); return f(x);
}
}
// std::list hook/unhook
struct ListNode { ListNode *n, *p; };
EXP void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListNode *self, ListNode *pos) { access(self, 16, true, PC); access(pos, 16, true, PC); self->n = pos; self->p = pos->p; pos->p->n = self; pos->p = self; }
EXP void _ZNSt8__detail15_List_node_base9_M_unhookEv(ListNode *self) { access(self, 16, true, PC); ListNode *n = self->n, *p = self->p; p->n = n; n->p = p; }

// ------------------------------------------------------------------ boost::call_once
namespace boost { namespace thread_detail {
bool enter_once_region(once_flag &flag) BOOST_NOEXCEPT {
    unsigned *s = (unsigned *)&flag;
    if (g_active) { if (!g_cur->quiet) sync_point(22); }
    while (*s == 1) { g_cur->what = "call_once"; block(&flag); }
    if (*s == 2) { hb_acquire(&flag); return false; }
    *s = 1; return true;
}
void commit_once_region(once_flag &flag) BOOST_NOEXCEPT { hb_release(&flag); *(unsigned *)&flag = 2; wake_all(&flag); if (g_active && !g_cur->quiet) sync_point(23); }
void rollback_once_region(once_flag &flag) BOOST_NOEXCEPT { *(unsigned *)&flag = 0; wake_all(&flag); }
} }

// ------------------------------------------------------------------ C time functions with a shared result
#include <time.h>
#include <locale.h>
static struct tm g_shared_tm;
EXP struct tm *gmtime(const time_t *t) throw() {
    struct tm m; if (!gmtime_r(t, &m)) return 0;
    access(&g_shared_tm, 16, true, PC); g_shared_tm = m;
    if (g_active && !g_cur->quiet) sync_point(24);
    return &g_shared_tm;
}
EXP struct tm *localtime(const time_t *t) throw() { return gmtime(t); }       // (TZ is UTC)
EXP size_t strftime(char *b, size_t n, const char *f, const struct tm *m) throw() {
    static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0);
    access(m, 16, false, PC);
    return strftime_l(b, n, f, m, c);
}

// ------------------------------------------------------------------ C formatting and string functions (their memory accesses count)
#include <stdarg.h>
EXP int sprintf(char *b, const char *f, ...) throw() { va_list a; va_start(a, f); int n = vsprintf(b, f, a); va_end(a); if (n >= 0) access(b, (size_t)n + 1, true, PC); return n; }
EXP int snprintf(char *b, size_t z, const char *f, ...) throw() { va_list a; va_start(a, f); int n = vsnprintf(b, z, f, a); va_end(a); if (n >= 0 && z) access(b, (size_t)n + 1 < z ? (size_t)n + 1 : z, true, PC); return n; }
