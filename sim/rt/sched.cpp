// Thread seam: interposes pthreads + futex; real threads are parked and released one at a
// time by a seeded scheduler.
#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <map>
#include <vector>
#include <algorithm>
#include <exception>

namespace sim {

thread_local int t_rt = 0;
bool g_active = false;
int64_t g_countdown = INT64_MAX;
uint64_t g_steps = 0;
int g_cur = 0;
bool expect_deadlock_ok = false;
const char* hang_label = "no thread can make progress";
int clock_mode = 0;

long sys6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void raw_exit(int code) { sys6(SYS_exit_group, code); __builtin_unreachable(); }

enum TState { FREE = 0, RUNNABLE, BLOCKED, FINISHED };
struct Thread {
    TState st = FREE;
    int id = 0;
    int sem = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false, started = false, deferred = false;
    const void* key = nullptr;      // what we are blocked on
    const char* why = "";
    uint64_t deadline = 0;          // 0: none
    bool timed_out = false;
    int  prio = 0;
    bool harness = false;
};
static Thread T[MAXT];
static VC     TVC[MAXT];
static int    g_nmax = 1;           // slots in use: [0, g_nmax)
static SchedConfig C;
static uint64_t g_vtime = 1000000000ull * 1700000000ull;
static uint64_t g_since_switch = 0, g_last_switch_step = 0;
static std::vector<uint64_t>* g_changes;   // PCT change points (steps), descending
static int g_lowprio = -1;
static int g_victim = -1;
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

struct Mutex { int owner = -1; int count = 0; VC vc{}; bool vcset = false; };
struct RW { int writer = -1; int readers = 0; VC vc{}; };
struct Cond { VC vc{}; };
struct Once { int st = 0; VC vc{}; };
static std::map<const void*, Mutex>* g_mx;
static std::map<const void*, RW>* g_rw;
static std::map<const void*, Once>* g_once;

bool active() { return g_active; }
int self() { return g_cur; }
uint64_t steps() { return g_steps; }
uint64_t now_ns() { return g_vtime; }
void advance_ns(uint64_t d) { g_vtime += d; }
VC* cur_vc() { return &TVC[g_cur]; }
void vc_acquire(VC& from) { VC& me = TVC[g_cur]; for (int i = 0; i < g_nmax; ++i) if (from.c[i] > me.c[i]) me.c[i] = from.c[i]; }
void vc_release(VC& to) { VC& me = TVC[g_cur]; for (int i = 0; i < g_nmax; ++i) if (me.c[i] > to.c[i]) to.c[i] = me.c[i]; me.c[g_cur]++; }
static std::map<void*, VC>* g_hb;
void hb_acq(void* k) { auto i = g_hb->find(k); if (i != g_hb->end()) vc_acquire(i->second); }
void hb_rel(void* k) { auto r = g_hb->emplace(k, VC{}); vc_release(r.first->second); }
void hb_erase(void* p, size_t n) { if (!g_hb || g_hb->empty()) return; auto a = g_hb->lower_bound(p), b = g_hb->lower_bound((char*)p + n); g_hb->erase(a, b); }
void hb_release(void* k) { if (!g_active) return; Rt r; hb_rel(k); }
void hb_acquire(void* k) { if (!g_active) return; Rt r; hb_acq(k); }

int live_threads() { int n = 0; for (int i = 0; i < g_nmax; ++i) n += T[i].st == RUNNABLE || T[i].st == BLOCKED; return n; }

static void sem_up(Thread& t) { __atomic_store_n(&t.sem, 1, __ATOMIC_SEQ_CST); sys6(SYS_futex, (long)&t.sem, FUTEX_WAKE_PRIVATE, 1); }
static void sem_down(Thread& t) {
    while (!__atomic_load_n(&t.sem, __ATOMIC_SEQ_CST)) sys6(SYS_futex, (long)&t.sem, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(&t.sem, 0, __ATOMIC_SEQ_CST);
}

static void flush_stats() {
    if (SG) { SG->steps = g_steps; SG->vtime = g_vtime; }
}

static void arm() {
    // events until the next forced decision
    if (C.mode == 1) {
        uint64_t nxt = g_changes->empty() ? g_steps + 300000 : g_changes->back();
        g_countdown = nxt > g_steps ? (int64_t)(nxt - g_steps) : 1;
        if (g_countdown > 300000) g_countdown = 300000;
    } else if (C.mode == 3) {
        g_countdown = 300000;
    } else {
        // mean C.slice; 0 (default in a minimised trace) = run until blocked
        uint64_t v = choose(S, 2 * C.slice + 1);
        g_countdown = v == 0 ? 300000 : (int64_t)v;
    }
}

[[noreturn]] static void hang(int kind) {
    std::string m = hang_label; m += kind == Outcome::DEADLOCK ? ": deadlock;" : ": step budget exhausted;";
    for (int i = 0; i < g_nmax; ++i) {
        if (T[i].st == BLOCKED) m += strf(" t%d waits(%s)", i, T[i].why);
        if (T[i].st == RUNNABLE) m += strf(" t%d runnable", i);
    }
    stop_segment(kind, m.c_str());
}

static int runnable(int* out) {
    int n = 0;
    if (T[g_cur].st == RUNNABLE) out[n++] = g_cur;
    for (int i = 0; i < g_nmax; ++i) if (i != g_cur && T[i].st == RUNNABLE) out[n++] = i;
    return n;
}

static void switch_to(int id) {
    if (id == g_cur) return;
    Thread& me = T[g_cur]; Thread& to = T[id];
    if (SG) { SG->switches++; SG->nsig = (SG->nsig ^ (uint64_t)(id * 2654435761u + g_cur)) * 1099511628211ull; SG->hash = (SG->hash ^ (0x51ull << 56 | (uint64_t)id << 40 | (g_steps & 0xffffffffff))) * 1099511628211ull; }
    g_last_switch_step = g_steps;
    g_cur = id;
    bool dying = me.st == FINISHED || me.st == FREE;
    sem_up(to);
    if (!dying) sem_down(me);
}

// Choose who runs next.  forced_off: must not continue with the current thread.
static int pick_next(bool forced_off) {
    int r[MAXT]; int n = runnable(r);
    while (n == 0) {
        // only timed waiters left?
        int best = -1;
        for (int i = 0; i < g_nmax; ++i) if (T[i].st == BLOCKED && T[i].deadline && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
        if (best < 0) hang(Outcome::DEADLOCK);
        if (T[best].deadline > g_vtime) g_vtime = T[best].deadline;
        T[best].st = RUNNABLE; T[best].timed_out = true; T[best].key = nullptr;
        n = runnable(r);
    }
    if (n == 1) return r[0];
    if (forced_off && r[0] == g_cur) {
        // round robin
        int nxt = -1;
        for (int i = 1; i < n; ++i) if (r[i] > g_cur && (nxt < 0)) nxt = r[i];
        return nxt < 0 ? r[1] : nxt;
    }
    if (C.mode == 1) {
        int b = r[0];
        for (int i = 1; i < n; ++i) if (T[r[i]].prio > T[b].prio) b = r[i];
        return b;
    }
    if (C.mode == 2) {
        int q[MAXT]; int m = 0;
        for (int i = 0; i < n; ++i) if (r[i] != g_victim) q[m++] = r[i];
        if (m == 0) return r[0];
        if (m < n && choose(S, 64) == 63) return g_victim;
        return q[choose(S, m)];
    }
    return r[choose(S, n)];
}

void preempt_slow() {
    if (!g_active) { g_countdown = INT64_MAX; return; }
    Rt rt;
    flush_stats();
    if (g_steps > C.step_budget) hang(Outcome::BUDGET);
    bool force = g_steps - g_last_switch_step > 600000;
    if (C.mode == 1 && !g_changes->empty() && g_steps >= g_changes->back()) {
        g_changes->pop_back();
        T[g_cur].prio = g_lowprio--;
    }
    int nx = C.mode == 3 && !force ? g_cur : pick_next(force);
    arm();
    if (force) g_last_switch_step = g_steps;
    switch_to(nx);
}

void sync_point(const char* what, const void* obj) {
    (void)what; (void)obj;
    ++g_steps; g_vtime += 100;
    if (g_steps > C.step_budget) hang(Outcome::BUDGET);
    if (C.mode == 1) { int nx = pick_next(false); switch_to(nx); return; }
    int r[MAXT]; if (runnable(r) <= 1) return;
    if (chance(S, C.sync_num, C.sync_den)) switch_to(pick_next(false));
}

static void block_on(const void* key, const char* why, uint64_t deadline = 0) {
    Thread& me = T[g_cur];
    me.st = BLOCKED; me.key = key; me.why = why; me.deadline = deadline; me.timed_out = false;
    ++g_steps;
    int nx = pick_next(false);
    if (nx == g_cur) return;   // only possible after a time-out fired on ourselves
    switch_to(nx);
    me.deadline = 0;
}
static int wake(const void* key, int n, bool any) {
    int w[MAXT], m = 0, done = 0;
    for (int i = 0; i < g_nmax; ++i) if (T[i].st == BLOCKED && T[i].key == key) w[m++] = i;
    while (m > 0 && done < n) {
        int k = any && n < m ? (int)choose(S, m) : 0;
        T[w[k]].st = RUNNABLE; T[w[k]].key = nullptr; T[w[k]].deadline = 0;
        for (int j = k; j + 1 < m; ++j) w[j] = w[j + 1];
        --m; ++done;
    }
    return done;
}

void yield() { if (!g_active || t_rt) return; Rt r; sync_point("yield", nullptr); }
void yield_far() {
    if (!g_active) return; Rt r;
    ++g_steps; g_vtime += 1000;
    if (g_steps > C.step_budget) hang(Outcome::BUDGET);
    T[g_cur].prio = g_lowprio--;
    int q[MAXT]; int n = runnable(q);
    if (n <= 1) return;
    if (C.mode == 1) { switch_to(pick_next(false)); return; }
    std::sort(q, q + n);                            // 0 = round robin
    int at = 0; while (q[at] != g_cur) ++at;
    switch_to(q[(at + 1 + choose(S, n - 1)) % n]);
}

static char g_predkey;
void poke() { if (!g_active) return; Rt r; wake(&g_predkey, MAXT, false); }
void block_until(const char* why, const std::function<bool()>& pred) {
    Rt r;
    sync_point(why, nullptr);
    while (!pred()) block_on(&g_predkey, why);
}

static void* trampoline(void* p) {
    Thread* t = (Thread*)p;
    sem_down(*t);
    // first time scheduled
    {
        Rt rt;
        pthread_attr_t a; void* lo; size_t sz;
        if (pthread_getattr_np((pthread_t)sys6(SYS_arch_prctl, 0x1003 /*ARCH_GET_FS*/, (long)&lo) == 0 ? (pthread_t)lo : 0, &a) == 0) {
            if (pthread_attr_getstack(&a, &lo, &sz) == 0) shadow_clear(lo, sz);
            pthread_attr_destroy(&a);
        }
    }
    t->ret = t->fn(t->arg);
    {
        Rt rt;
        hb_rel(t);
        t->st = t->detached ? FREE : FINISHED;
        wake(t, MAXT, false);
        ++g_steps;
        int nx = pick_next(false);
        switch_to(nx);
    }
    // no longer the baton holder: leave the OS thread without touching anything shared
    return nullptr;
}

static int new_slot() {
    for (int i = 1; i < MAXT; ++i) if (T[i].st == FREE) { if (i >= g_nmax) g_nmax = i + 1; return i; }
    return -1;
}
static void launch(Thread& t) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstacksize(&a, 16u << 20);
    pthread_t real;
    int rc = -1;
    for (int k = 0; k < 200; ++k) { rc = real_create(&real, &a, trampoline, &t); if (rc != EAGAIN) break; struct timespec ts{0, 1000000}; sys6(SYS_nanosleep, (long)&ts, 0); }
    pthread_attr_destroy(&a);
    if (rc) stop_segment(Outcome::ERROR, "simulator: real pthread_create failed");
    t.started = true; t.deferred = false;
}

int64_t create_fail_after = -1, create_fail_count = 1;
SchedConfig random_sched() {
    SchedConfig c;
    static const uint64_t slices[] = {1000, 3, 10, 40, 200, 5000, 50000};
    c.mode = (int)choose(S, 4);
    c.slice = slices[choose(S, 7)];
    static const uint32_t sn[] = {1, 2, 3, 4};
    c.sync_num = sn[choose(S, 4)]; c.sync_den = 4;
    if (choose(F, 2)) { static const uint32_t sp[] = {2, 10, 40}; c.spurious_num = sp[choose(F, 3)]; }
    c.pct_depth = 1 + (int)choose(S, 5);
    static const uint64_t pl[] = {300, 2000, 10000, 100000};
    c.pct_len = pl[choose(S, 4)];
    return c;
}

void set_step_budget(uint64_t n) { C.step_budget = g_steps + n; }

void activate(const SchedConfig& c) {
    Rt rt;
    C = c;
    g_mx = new std::map<const void*, Mutex>; g_rw = new std::map<const void*, RW>; g_once = new std::map<const void*, Once>;
    g_hb = new std::map<void*, VC>;
    g_changes = new std::vector<uint64_t>;
    if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    g_cur = 0; T[0].st = RUNNABLE; T[0].id = 0; T[0].started = true;
    TVC[0].c[0] = 1;
    if (C.mode == 1) {
        T[0].prio = (int)choose(S, 1000);
        for (int i = 0; i < C.pct_depth; ++i) g_changes->push_back(1 + choose(S, C.pct_len));
        std::sort(g_changes->rbegin(), g_changes->rend());
    }
    if (C.mode == 2) g_victim = (int)choose(S, 6);
    g_active = true;
    g_steps = 0;
    shadow_reset();
    // threads created by static initialisers of the program under test
    for (int i = 1; i < g_nmax; ++i) if (T[i].deferred) {
        vc_new_thread(0, i);
        if (C.mode == 1) T[i].prio = (int)choose(S, 1000);
        T[i].st = RUNNABLE;
        launch(T[i]);
    }
    arm();
}
void vc_new_thread(int parent, int child) {
    uint64_t keep = TVC[child].c[child];
    TVC[child] = TVC[parent];
    TVC[child].c[child] = keep + 1;
    TVC[parent].c[parent]++;
}

static int do_create(pthread_t* out, bool detached, void* (*fn)(void*), void* arg, bool harness) {
    int s = new_slot();
    if (s < 0) return EAGAIN;
    Thread& t = T[s];
    t = Thread(); t.id = s; t.fn = fn; t.arg = arg; t.detached = detached; t.harness = harness;
    if (out) *out = (pthread_t)&t;
    if (!g_active) { t.deferred = true; t.st = BLOCKED; t.why = "not started"; return 0; }
    vc_new_thread(g_cur, s);
    if (C.mode == 1) t.prio = (int)choose(S, 1000);
    t.st = RUNNABLE;
    if (SG) SG->hash = (SG->hash ^ (0xc4eaull << 48 | s)) * 1099511628211ull;
    launch(t);
    sync_point("create", &t);
    return 0;
}

struct Fn { std::function<void()> f; };
static void* run_fn(void* p) { Fn* f = (Fn*)p; f->f(); delete f; return nullptr; }
int spawn(std::function<void()> fn) {
    Fn* f = new Fn{std::move(fn)};
    Rt r; pthread_t h;
    if (do_create(&h, false, run_fn, f, true)) stop_segment(Outcome::ERROR, "spawn failed");
    return ((Thread*)h)->id;
}
static bool is_ours(pthread_t h) { return (char*)h >= (char*)T && (char*)h < (char*)(T + MAXT); }
static int do_join(Thread& t, void** ret) {
    sync_point("join", &t);
    while (t.st != FINISHED) block_on(&t, "join");
    hb_acq(&t); g_hb->erase(&t);
    if (ret) *ret = t.ret;
    t.st = FREE;
    return 0;
}
void join(int id) { Rt r; do_join(T[id], nullptr); }

// ------------------------------------------------------------------ mutexes
static bool rec_kind(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static void mx_lock(pthread_mutex_t* m) {
    for (;;) {
        Mutex& x = (*g_mx)[m];
        if (x.owner < 0) { x.owner = g_cur; x.count = 1; vc_acquire(x.vc); return; }
        if (x.owner == g_cur && rec_kind(m)) { x.count++; return; }
        block_on(m, "mutex");
    }
}
static int mx_unlock(pthread_mutex_t* m) {
    Mutex& x = (*g_mx)[m];
    if (x.owner != g_cur) return EPERM;
    if (--x.count > 0) return 0;
    x.owner = -1; vc_release(x.vc);
    wake(m, MAXT, false);
    return 0;
}
static uint64_t to_deadline(const struct timespec* ts, int clk) {
    (void)clk;
    uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    return d <= g_vtime ? g_vtime + 1 : d;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    sync_point("cond_wait", c);
    mx_unlock(m);
    int rc = 0;
    if (C.spurious_num && chance(F, C.spurious_num, C.spurious_den)) {
        count_fault("spurious_wakeup");
        sync_point("spurious", c);
    } else {
        block_on(c, "condition", deadline);
        if (T[g_cur].timed_out) { rc = ETIMEDOUT; T[g_cur].timed_out = false; }
    }
    mx_lock(m);
    return rc;
}
} // namespace sim

using namespace sim;
#define SIMULATED (g_active && !t_rt)

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (t_rt) { if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create"); return real_create(out, attr, fn, arg); }
    Rt r;
    int ds = PTHREAD_CREATE_JOINABLE; if (attr) pthread_attr_getdetachstate(attr, &ds);
    if (g_active && C.create_fail_num && chance(F, C.create_fail_num, C.create_fail_den)) { count_fault("thread_create_EAGAIN"); return EAGAIN; }
    if (g_active && create_fail_after >= 0) {
        if (create_fail_after > 0) --create_fail_after;
        else { if (create_fail_count > 0 && --create_fail_count == 0) create_fail_after = -1; fault_mark("thread"); count_fault("thread_create_EAGAIN"); return EAGAIN; }
    }
    int rc = do_create(out, ds == PTHREAD_CREATE_DETACHED, fn, arg, false);
    if (g_active && SG) ++SG->creates;
    if (g_active) { uint64_t n = live_threads(); if (n > g_peak_threads) g_peak_threads = n; }
    return rc;
}
int pthread_join(pthread_t h, void** ret) {
    if (!is_ours(h)) return ESRCH;
    Rt r;
    Thread& t = *(Thread*)h;
    if (!g_active) return EINVAL;
    if (t.st == FREE) return ESRCH;
    if (t.id == g_cur) return EDEADLK;
    return do_join(t, ret);
}
int pthread_detach(pthread_t h) {
    if (!is_ours(h)) return 0;
    Rt r; Thread& t = *(Thread*)h; t.detached = true; if (t.st == FINISHED) t.st = FREE; return 0;
}
pthread_t pthread_self(void) noexcept {
    if (g_active) return (pthread_t)&T[g_cur];
    void* fs; asm("mov %%fs:0x10, %0" : "=r"(fs)); return (pthread_t)fs;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (g_active) { Rt r; g_mx->erase(m); }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (g_active) { Rt r; g_mx->erase(m); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!SIMULATED) return 0; Rt r; sync_point("lock", m); mx_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!SIMULATED) return 0; Rt r; sync_point("trylock", m);
    Mutex& x = (*g_mx)[m];
    if (x.owner >= 0 && !(x.owner == g_cur && rec_kind(m))) return EBUSY;
    mx_lock(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!SIMULATED) return 0; Rt r; int rc = mx_unlock(m); sync_point("unlock", m); return rc; }

int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { memset(m, 0, sizeof *m); if (g_active) { Rt r; g_rw->erase(m); } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept { if (g_active) { Rt r; g_rw->erase(m); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (!SIMULATED) return 0; Rt r; sync_point("rdlock", m);
    for (;;) { RW& x = (*g_rw)[m]; if (x.writer < 0) { x.readers++; vc_acquire(x.vc); return 0; } block_on(m, "rwlock"); }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (!SIMULATED) return 0; Rt r; sync_point("rdlock", m); RW& x = (*g_rw)[m]; if (x.writer >= 0) return EBUSY; x.readers++; vc_acquire(x.vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (!SIMULATED) return 0; Rt r; sync_point("wrlock", m);
    for (;;) { RW& x = (*g_rw)[m]; if (x.writer < 0 && x.readers == 0) { x.writer = g_cur; vc_acquire(x.vc); return 0; } block_on(m, "rwlock"); }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (!SIMULATED) return 0; Rt r; sync_point("wrlock", m); RW& x = (*g_rw)[m]; if (x.writer >= 0 || x.readers) return EBUSY; x.writer = g_cur; vc_acquire(x.vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (!SIMULATED) return 0; Rt r; RW& x = (*g_rw)[m];
    vc_release(x.vc);
    if (x.writer == g_cur) x.writer = -1; else if (x.readers > 0) x.readers--;
    wake(m, MAXT, false); sync_point("rwunlock", m); return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    // POSIX: undefined while somebody waits on it; glibc blocks until the waiters are gone.
    if (!SIMULATED) return 0; Rt r;
    for (;;) {
        bool w = false;
        for (int i = 0; i < g_nmax; ++i) if (T[i].st == BLOCKED && T[i].key == c) w = true;
        if (!w) return 0;
        static char k; block_on(&k, "cond_destroy with waiters");
    }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIMULATED) return 0; Rt r; return cond_wait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!SIMULATED) return ETIMEDOUT; Rt r; return cond_wait(c, m, to_deadline(ts, 0)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!SIMULATED) return ETIMEDOUT; Rt r; return cond_wait(c, m, to_deadline(ts, k)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!SIMULATED) return 0; Rt r; sync_point("signal", c); wake(c, 1, true); sync_point("signalled", c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!SIMULATED) return 0; Rt r; sync_point("broadcast", c); wake(c, MAXT, false); sync_point("broadcasted", c); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!SIMULATED) { if (*o == 2) return 0; fn(); *o = 2; return 0; }
    {
        Rt r; sync_point("once", o);
        if (*o == 2 && !g_once->count(o)) { return 0; }
        for (;;) {
            Once& x = (*g_once)[o];
            if (*o == 0 && x.st != 1) x = Once();      // fresh (or recycled) flag
            if (x.st == 2) { vc_acquire(x.vc); return 0; }
            if (x.st == 0) { x.st = 1; break; }
            block_on(o, "once");
        }
    }
    try { fn(); }
    catch (...) { { Rt r; (*g_once)[o].st = 0; wake(o, MAXT, false); } throw; }
    Rt r; Once& x = (*g_once)[o]; x.st = 2; *o = 2; vc_release(x.vc); wake(o, MAXT, false);
    return 0;
}

int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); *(volatile int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept { ++*(volatile int*)s; if (SIMULATED) { Rt r; hb_rel(s); wake(s, 1, true); sync_point("sem_post", s); } return 0; }
int sem_wait(sem_t* s) { if (!SIMULATED) return 0; Rt r; sync_point("sem_wait", s); while (*(volatile int*)s <= 0) block_on(s, "semaphore"); --*(volatile int*)s; hb_acq(s); return 0; }
int sem_trywait(sem_t* s) noexcept { if (*(volatile int*)s <= 0) { errno = EAGAIN; return -1; } --*(volatile int*)s; if (g_active) { Rt r; hb_acq(s); } return 0; }

int sched_yield(void) noexcept { if (SIMULATED) yield_far(); return 0; }
static int do_sleep(uint64_t ns) {
    if (!SIMULATED) { g_vtime += ns; return 0; }
    Rt r; static char k; block_on(&k, "sleep", g_vtime + (ns ? ns : 1)); T[g_cur].timed_out = false; return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) { if (rem) rem->tv_sec = rem->tv_nsec = 0; return do_sleep(ts->tv_sec * 1000000000ull + ts->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
    uint64_t d = ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (flags & TIMER_ABSTIME) d = d > g_vtime ? d - g_vtime : 0;
    return do_sleep(d);
}
int usleep(useconds_t u) { return do_sleep(u * 1000ull); }
unsigned sleep(unsigned s) { do_sleep(s * 1000000000ull); return 0; }

// std::future / std::atomic::wait go through syscall(SYS_futex, ...)
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && SIMULATED) {
        Rt r;
        int op = (int)b & 0x7f & ~FUTEX_CLOCK_REALTIME;
        int* addr = (int*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point("futex_wait", addr);
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
            if (C.spurious_num && chance(F, C.spurious_num, C.spurious_den)) { count_fault("futex_EINTR"); sync_point("spurious", addr); errno = EINTR; return -1; }
            uint64_t dl = 0;
            if (d) { auto ts = (const struct timespec*)d; uint64_t x = ts->tv_sec * 1000000000ull + ts->tv_nsec; dl = op == FUTEX_WAIT ? g_vtime + x : (x <= g_vtime ? g_vtime + 1 : x); }
            block_on(addr, "future", dl);
            if (T[g_cur].timed_out) { T[g_cur].timed_out = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_point("futex_wake", addr);
            int k = wake(addr, c > MAXT ? MAXT : (int)c, true);
            sync_point("futex_woken", addr);
            return k;
        }
    }
    long r = sys6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------------ clocks
static uint64_t read_clock() {
    g_vtime += 1000;
    if (SIMULATED && clock_mode) {
        Rt r;
        if (clock_mode == 3) { g_vtime -= 1000; return g_vtime; }
        if (chance(F, 1, 8)) {
            uint64_t j = (1 + choose(F, 1000000000ull)) * 1000;
            if (clock_mode == 2 && chance(F, 1, 2)) { count_fault("clock_backward"); static uint64_t base = 1000000000ull * 86400; if (g_vtime > base + j) g_vtime -= j; }
            else { count_fault("clock_forward"); g_vtime += j; }
        }
    }
    return g_vtime;
}
int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
    if (!g_active || t_rt) { long r = sys6(SYS_clock_gettime, k, (long)ts); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    uint64_t v = read_clock(); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    if (!g_active || t_rt) { sys6(SYS_gettimeofday, (long)tv, 0); return 0; }
    uint64_t v = read_clock(); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0;
}
time_t time(time_t* t) noexcept {
    uint64_t v; if (!g_active || t_rt) { struct timespec ts; sys6(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); v = ts.tv_sec; } else v = read_clock() / 1000000000ull;
    if (t) *t = v; return v;
}
clock_t clock(void) noexcept { if (!g_active) return 0; return read_clock() / 1000; }

// static local initialisation guards (the ABI's own use futexes inside libstdc++)
int __cxa_guard_acquire(uint64_t* g) {
    char* b = (char*)g;
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (SIMULATED) { Rt r; hb_acq(g); } return 0; }
    if (!SIMULATED) { return 1; }
    Rt r;
    sync_point("guard", g);
    while (b[1]) { if (b[0]) break; block_on(g, "static init guard"); }
    if (b[0]) { hb_acq(g); return 0; }
    b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { char* b = (char*)g; __atomic_store_n(b, 1, __ATOMIC_RELEASE); b[1] = 0; if (SIMULATED) { Rt r; hb_rel(g); wake(g, MAXT, false); } }
void __cxa_guard_abort(uint64_t* g) { char* b = (char*)g; b[1] = 0; if (SIMULATED) { Rt r; wake(g, MAXT, false); } }
}
