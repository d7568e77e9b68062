// Memory-access seam: our own runtime for code compiled with -fsanitize=thread.
// Every instrumented access is a possible preemption point and is checked for data
// races (vector clocks) and use after free.
#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <deque>
#include <malloc.h>
#include <sys/mman.h>

namespace sim {
bool g_race = true;
int64_t alloc_fail_after = -1, alloc_fail_count = 1;
bool alloc_fail_worker_only = false;
uint64_t alloc_count = 0;
void set_race_check(bool on) { g_race = on; }

struct Cell { uint64_t clk : 40, tid : 8, mask : 8, wr : 1, at : 1, used : 1, dead : 1; void* pc; };
static_assert(sizeof(Cell) == 16);
constexpr int NC = 4;
constexpr uintptr_t PSHIFT = 16, PBYTES = 1u << PSHIFT, GPP = PBYTES / 8;
struct Page { Cell c[GPP][NC]; };
constexpr size_t HB = 1 << 16;
struct Ent { uintptr_t key; Page* p; };
static Ent* table;
static uintptr_t lastkey = ~0ull; static Page* lastpage;
void shadow_reset() { if (!table) table = (Ent*)mmap(0, HB * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static Page* page(uintptr_t a, bool make) {
    uintptr_t k = (a >> PSHIFT) + 1;
    if (k == lastkey) return lastpage;
    size_t h = (k * 0x9E3779B97F4A7C15ull) >> 48;
    for (size_t i = 0; i < HB; ++i) {
        Ent& e = table[(h + i) & (HB - 1)];
        if (e.key == k) { lastkey = k; lastpage = e.p; return e.p; }
        if (!e.key) {
            if (!make) return nullptr;
            e.p = (Page*)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (e.p == MAP_FAILED) { g_race = false; e.p = nullptr; return nullptr; }
            e.key = k; lastkey = k; lastpage = e.p; return e.p;
        }
    }
    g_race = false; return nullptr;
}
static void shadow_fill(const void* p, size_t n, bool dead) {
    if (!table) return;
    uintptr_t a = (uintptr_t)p & ~7ull, e = ((uintptr_t)p + n + 7) & ~7ull;
    while (a < e) {
        uintptr_t pe = (a | (PBYTES - 1)) + 1; if (pe > e) pe = e;
        Page* pg = page(a, dead);
        if (pg) {
            size_t g0 = (a & (PBYTES - 1)) / 8, g1 = g0 + (pe - a) / 8;
            memset(pg->c[g0], 0, (g1 - g0) * sizeof(pg->c[0]));
            if (dead) for (size_t g = g0; g < g1; ++g) pg->c[g][0].dead = 1;
        }
        a = pe;
    }
}
void shadow_clear(const void* p, size_t n) { shadow_fill(p, n, false); }

static void report(const char* what, uintptr_t a, int n, const char* k1, void* pc1, const char* k2, void* pc2, int t1, int t2) {
    (void)a;
    // addresses of code are stable (non-PIE); the symboliser runs later, on the replay file
    violation("%s: %s of %d bytes by t%d at pc %p; earlier %s by t%d at pc %p", what, k1, n, t1, pc1, k2, t2, pc2);
}

static void check_granule(uintptr_t a, unsigned mask, int n, bool wr, bool at, void* pc) {
    Page* pg = page(a, true);
    if (!pg) return;
    Cell* c = pg->c[(a & (PBYTES - 1)) / 8];
    int me = g_cur; VC* vc = cur_vc();
    int slot = -1;
    if (c[0].dead) { t_rt++; report("use after free", a, n, wr ? "write" : "read", pc, "free", c[0].pc, me, 0); }
    for (int i = 0; i < NC; ++i) {
        Cell& x = c[i];
        if (!x.used) { if (slot < 0) slot = i; continue; }
        if (!(x.mask & mask)) continue;
        if ((int)x.tid == me) {
            // same thread: replace if this access subsumes it
            if ((x.mask & ~mask) == 0 && (wr || !x.wr) && (!at || x.at)) slot = i;
            continue;
        }
        bool ordered = x.clk <= vc->c[x.tid];
        if (!ordered && (wr || x.wr) && !(at && x.at)) { t_rt++; report("data race", a, n, at ? (wr ? "atomic write" : "atomic read") : (wr ? "write" : "read"), pc, x.at ? (x.wr ? "atomic write" : "atomic read") : (x.wr ? "write" : "read"), (void*)x.pc, me, x.tid); }
        if (ordered && slot < 0 && (x.mask & ~mask) == 0 && (wr || !x.wr)) slot = i;
    }
    if (slot < 0) slot = (int)(g_steps & (NC - 1));
    Cell& x = c[slot];
    x.clk = vc->c[me]; x.tid = me; x.mask = mask; x.wr = wr; x.at = at; x.used = 1; x.dead = 0; x.pc = pc;
}
static inline void check(void* p, size_t n, bool wr, bool at, void* pc) {
    uintptr_t a = (uintptr_t)p;
    while (n) {
        unsigned off = a & 7; size_t k = 8 - off; if (k > n) k = n;
        check_granule(a, ((1u << k) - 1) << off, (int)n, wr, at, pc);
        a += k; n -= k;
    }
}
static inline void access(void* p, int n, int wr, void* pc) {
    if (!g_active || t_rt) return;
    step_event();
    if (g_race) { t_rt++; check(p, n, wr, false, pc); t_rt--; }
}
static void access_range(void* p, size_t n, int wr, void* pc) {
    if (!g_active || t_rt || !n) return;
    step_event();
    if (g_race) { t_rt++; check(p, n, wr, false, pc); t_rt--; }
}
struct A {
    void* p; bool on;
    A(void* p, int n, int wr, int mo, void* pc) : p(p) {
        (void)mo;
        on = g_active && !t_rt;
        if (!on) return;
        step_event();
        t_rt++;
        if (live_threads() > 1) sync_point("atomic", p);
        if (g_race) check(p, n, wr, true, pc);
        t_rt--;
    }
    void acq(int mo) { if (on && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) { t_rt++; hb_acq(p); t_rt--; } }
    void rel(int mo) { if (on && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) { t_rt++; hb_rel(p); t_rt--; } }
};

// explicit access by a fake (network, DMA): race- and lifetime-checked, not a preemption point
void touch(const void* p, size_t n, bool wr) { if (!g_active || !g_race || !n) return; t_rt++; check((void*)p, n, wr, false, __builtin_return_address(0)); t_rt--; }

// ------------------------------------------------------------------ allocator
static std::deque<std::pair<void*, size_t>>* quarantine; static size_t qbytes;
void hb_erase(void* p, size_t n);
static void* sim_new(size_t n, bool nothrow) {
    if (g_active && !t_rt) {
        ++alloc_count;
        if (alloc_fail_after >= 0 && (!alloc_fail_worker_only || g_cur != 0)) {
            if (alloc_fail_after > 0) --alloc_fail_after;
            else { if (alloc_fail_count > 0 && --alloc_fail_count == 0) alloc_fail_after = -1; { Rt r; fault_mark("memory"); count_fault("bad_alloc"); event("bad_alloc"); } if (nothrow) return nullptr; throw std::bad_alloc(); }
        }
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void (*on_release)(void*);
static void sim_delete(void* p) {
    if (!p) return;
    if (on_release) on_release(p);
    if (g_active && g_race && !t_rt) {
        Rt r;
        size_t n = malloc_usable_size(p);
        hb_erase(p, n);
        if (!quarantine) quarantine = new std::deque<std::pair<void*, size_t>>;
        { Page* pg = page((uintptr_t)p, false); if (pg && pg->c[((uintptr_t)p & (PBYTES - 1)) / 8][0].dead) violation("double free: t%d", g_cur); }
        shadow_fill(p, n, true);
        quarantine->push_back({p, n}); qbytes += n;
        while (qbytes > (32u << 20)) { auto q = quarantine->front(); quarantine->pop_front(); qbytes -= q.second; shadow_clear(q.first, q.second); free(q.first); }
        return;
    }
    free(p);
}
}
using namespace sim;
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n, true); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
static void* sim_new_aligned(size_t n, std::align_val_t al, bool nothrow) {
    void* q = sim_new(1, nothrow); if (!q) return nullptr; sim_delete(q);            // counts, and may fail
    void* p = nullptr; if (posix_memalign(&p, (size_t)al < sizeof(void*) ? sizeof(void*) : (size_t)al, n ? n : 1)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
void* operator new(size_t n, std::align_val_t a) { return sim_new_aligned(n, a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new_aligned(n, a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return sim_new_aligned(n, a, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return sim_new_aligned(n, a, true); } catch (...) { return nullptr; } }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { sim_delete(p); }

// memory that changes hands below operator new (exception objects, C libraries): whoever gets it starts
// with an empty history
// blocks the program has allocated and not released (counted on request)
namespace sim {
static bool g_track; static uintptr_t* blk; constexpr size_t NBLK = 1 << 22; static uint64_t nlive, nbytes;
static inline size_t bslot(uintptr_t a) { return (a >> 4) * 0x9E3779B97F4A7C15ull >> 42; }
static void blk_del(void* p);
void track_blocks() { blk = (uintptr_t*)mmap(0, NBLK * sizeof *blk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_track = blk != MAP_FAILED; if (g_track) on_release = blk_del; }
uint64_t live_blocks() { return nlive; }
uint64_t live_bytes() { return nbytes; }
static void blk_add(void* p) { if (!p || nlive > NBLK / 2) return; size_t i = bslot((uintptr_t)p); while (blk[i]) { if (blk[i] == (uintptr_t)p) return; i = (i + 1) & (NBLK - 1); } blk[i] = (uintptr_t)p; ++nlive; nbytes += malloc_usable_size(p); }
static void blk_del(void* p) {
    size_t i = bslot((uintptr_t)p); while (blk[i] && blk[i] != (uintptr_t)p) i = (i + 1) & (NBLK - 1);
    if (!blk[i]) return;
    --nlive; nbytes -= malloc_usable_size(p); size_t j = i;
    for (;;) { blk[i] = 0; size_t k; do { j = (j + 1) & (NBLK - 1); if (!blk[j]) return; k = bslot(blk[j]); } while (i <= j ? (i < k && k <= j) : (i < k || k <= j)); blk[i] = blk[j]; i = j; }
}
}
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static inline void* fresh(void* p) { if (g_track && g_active && !t_rt) blk_add(p); if (p && g_active && g_race) { Rt r; shadow_clear(p, malloc_usable_size(p)); } return p; }
void* malloc(size_t n) { return fresh(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return fresh(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n) { if (g_track && p) blk_del(p); void* q = __libc_realloc(p, n); if (q == p && g_track && g_active && !t_rt) blk_add(q); return q == p ? q : fresh(q); }
void free(void* p) { if (g_track && p) blk_del(p); __libc_free(p); }
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n) { void* p = __libc_memalign(a, n); if (!p) return 12; *out = fresh(p); return 0; }
}

#include "tsan_abi.inc"

// memcpy & friends are not instrumented by the compiler: linked with --wrap
extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { void* pc = __builtin_return_address(0); access_range((void*)s, n, 0, pc); access_range(d, n, 1, pc); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { void* pc = __builtin_return_address(0); access_range((void*)s, n, 0, pc); access_range(d, n, 1, pc); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access_range(d, n, 1, __builtin_return_address(0)); return __real_memset(d, c, n); }
}
