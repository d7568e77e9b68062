// Internal interface between the runtime's translation units.
#pragma once
#include "sim.hpp"
#include <pthread.h>

namespace sim {

constexpr int MAXT = 64;
constexpr size_t MAXCHOICE = 1u << 20;
constexpr int MAXSEG = 64;
constexpr size_t RESULT_MAX = 48u << 20;

struct VC { uint64_t c[MAXT]; };

struct SegShared {
    volatile int kind;               // Outcome::Kind or -1 (still running)
    volatile int finished;
    uint32_t n_held; uint64_t held[2048], held_bytes[2048];      // blocks held at each opening of a file for writing
    uint64_t end_blocks, end_bytes, end_threads, end_files, peak_threads;     // resources held when the program's main returned
    volatile int ended;              // the program ended with this non-zero code (0: not, or successfully)
    char msg[4096];
    uint64_t hash, steps, switches, vtime, race_checks;
    IoStats io;
    uint32_t n[NSTREAM];
    uint32_t ch[NSTREAM][MAXCHOICE];
    uint64_t result_len;
    uint64_t allocs, creates;
    uint32_t filelog_len;
    char filelog[1 << 16];
    uint64_t nsig;                   // schedule signature (hash of switch sequence)
};
struct CountSlot { char name[48]; uint64_t n; int fault; };
struct RunShared {
    CountSlot counts[256];
    int ncounts;
    char result[RESULT_MAX];
    SegShared seg[MAXSEG];
};
extern RunShared* RS;        // mapped shared by the driver
extern SegShared* SG;        // current segment (driver itself = seg 0)
extern thread_local int t_rt;
struct Rt { Rt() { ++t_rt; } ~Rt() { --t_rt; } };

// replay source: per segment, per stream sparse values
struct Replay { bool on = false; std::vector<std::vector<uint32_t>> v[NSTREAM]; };
extern Replay g_replay;
void streams_begin(int seg, uint64_t seed);
[[noreturn]] void raw_exit(int code);
[[noreturn]] void stop_segment(int kind, const char* msg);

// scheduler internals used by tsan/io/mpi
extern uint64_t g_peak_threads;
extern bool g_active;
extern int64_t g_countdown;
extern uint64_t g_steps;
extern int g_cur;
void preempt_slow();
void sync_point(const char* what, const void* obj);
VC*  cur_vc();
void vc_new_thread(int parent, int child);
void shadow_clear(const void* p, size_t n);
void shadow_reset();
void hb_acq(void* key);
void hb_rel(void* key);
void vc_acquire(VC& from);
void vc_release(VC& to);
extern bool g_race;

inline void step_event() {
    ++g_steps;
    if (--g_countdown <= 0) preempt_slow();
}
long sys6(long n, long a=0, long b=0, long c=0, long d=0, long e=0, long f=0);
}
