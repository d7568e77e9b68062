// Deterministic simulator: public interface for harnesses.
//
// One run = one (seed | replay trace).  Every decision (workload, schedule, fault)
// is one call of sim::choose() on one of three streams; a run is a pure function
// of the recorded choices and of the code under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

enum Stream { W = 0, S = 1, F = 2, NSTREAM = 3 };   // workload, schedule, faults

// Draw a value in [0, n).  0 is always the simplest / default choice.
uint64_t choose(Stream s, uint64_t n);
bool     chance(Stream s, uint32_t num, uint32_t den);      // default false
inline uint64_t range(Stream s, uint64_t lo, uint64_t hi) { return lo + choose(s, hi - lo + 1); }
template<class T> const T& pick(Stream s, const std::vector<T>& v) { return v[choose(s, v.size())]; }

// Probe / fault counters (aggregated over runs by the runner).
void count(const char* name, uint64_t n = 1);
void count_fault(const char* name, uint64_t n = 1);

// Event log (hashed; also textual when tracing).
void event(const char* kind, uint64_t a = 0, uint64_t b = 0);
void event_bytes(const char* kind, const void* p, size_t n);

[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();          // end this segment successfully, skipping destructors
[[noreturn]] void crash_now(int code);  // simulated process kill

// Result channel from a segment to the driver.
void result(const void* p, size_t n);
inline void result_str(const std::string& s) { result(s.data(), s.size()); }

// ---------------------------------------------------------------- scheduler
struct SchedConfig {
    int      mode = 0;          // 0 random walk, 1 PCT, 2 starve one thread, 3 sync points only
    uint64_t slice = 100;       // mean accesses between forced preemption points
    uint32_t sync_num = 1, sync_den = 2;  // chance of a scheduling decision at a sync point
    uint32_t spurious_num = 0, spurious_den = 100;
    uint32_t create_fail_num = 0, create_fail_den = 100;
    int      pct_depth = 3;
    uint64_t pct_len = 20000;
    uint64_t step_budget = 400000000ull;  // memory-access + sync events until "no progress"
};
SchedConfig random_sched();                 // swarm draw from S
void program_ended(int code);               // the program under test ended; what follows is exit handlers
void activate(const SchedConfig& c);        // turn this process into sim thread 0
bool active();
int  self();                                // sim thread id
int  live_threads();
void yield();                               // explicit scheduling point
void yield_far();                           // lower my priority and yield (used by pollers)
// Block the calling sim thread until pred() is true (re-evaluated whenever somebody pokes).
void block_until(const char* why, const std::function<bool()>& pred);
void poke();                                // state that block_until predicates read has changed
int  spawn(std::function<void()> fn);       // harness-owned sim thread
void join(int tid);
void hb_release(void* key);                 // explicit happens-before edges for fakes
void hb_acquire(void* key);
void touch(const void* p, size_t n, bool write);    // race/lifetime-checked access by a fake
uint64_t steps();
uint64_t now_ns();
void advance_ns(uint64_t d);
void set_race_check(bool on);
extern bool expect_deadlock_ok;
// Mark "everything from here on is bounded by n more steps" (liveness checks).
void set_step_budget(uint64_t n);
// what to call a deadlock / exhausted budget: the violation text prefix
extern const char* hang_label;

// clock faults: mode 0 = steady, 1 = jumps forwards, 2 = may step backwards, 3 = frozen
extern int clock_mode;

// ---------------------------------------------------------------- allocation faults
void track_blocks();                // count the blocks the program has allocated and not released
uint64_t live_blocks(), live_bytes();
extern int64_t alloc_fail_after;    // fail the n-th operator new of *any sim thread* from now (-1: never)
extern int64_t alloc_fail_count;    // and so many after it (-1: all)
extern bool    alloc_fail_worker_only;
extern int64_t create_fail_after, create_fail_count;     // the same for the creation of threads
void fault_mark(const char* what);  // note in the file log that something failed
extern uint64_t alloc_count;

// ---------------------------------------------------------------- I/O faults
struct IoPlan {
    int64_t  crash_at = -1;        // kill the process at tracked I/O op number n
    uint32_t torn = 0;             // if crash op is a write: this many 1/256 of it reach the disk
    int64_t  fail_from = -1, fail_to = -1;   // op range in which the error applies (by class counter)
    int      fail_errno = 0;       // ENOSPC, EIO ...
    uint32_t fail_mask = 0;        // op classes the error applies to
    bool     fail_partial = false; // ENOSPC after a short write
    uint32_t short_num = 0;        // /256 chance of a short read/write
    uint32_t eintr_num = 0;        // /256 chance of EINTR on read/write/open
    bool     lost_write = false;   // write reports success, data never reaches the disk (not used by default)
    int64_t  flip_read_at = -1;    // flip one bit in the n-th read
    int      max_open = 0;         // descriptor limit: opening more files at once fails with EMFILE
    bool     dir_shuffle = false;  // enumerate directories in a seeded order
    // interposed race: run this just before op number race_at of class race_mask
    int64_t  race_at = -1; uint32_t race_mask = 0; std::function<void()> race_fn;
};
enum IoClass { IO_OPEN=1, IO_WRITE=2, IO_READ=4, IO_TRUNC=8, IO_STAT=16, IO_CLOSE=32, IO_MKDIR=64, IO_UNLINK=128, IO_DIR=256, IO_SYNC=512, IO_RENAME=1024, IO_LOCK=2048, IO_ANY=0xffff };
void io_start(const IoPlan& p);     // begin tracking + injecting
void io_stop();
struct IoStats { uint64_t open_now, open_peak; uint64_t ops, writes, reads, opens, bytes_written, injected, mut; uint64_t by_class[16]; };
IoStats io_stats();
void enter_jail(const std::string& dir);    // user namespace + chroot: nothing outside dir is reachable

// ---------------------------------------------------------------- runs & segments
struct Outcome {
    enum Kind { OK = 0, VIOLATION, EXIT, SIGNAL, DEADLOCK, BUDGET, WATCHDOG, CRASHED, ERROR } kind = OK;
    int code = 0;                 // exit status / signal
    std::string msg;
    std::string out;              // captured stdout
    std::string err;
    std::vector<char> result;
    uint64_t hash = 0, steps = 0, switches = 0, vtime = 0;
    IoStats io{};
    std::string filelog;          // "O path", "C path" lines: files opened for writing / closed
    uint64_t allocs = 0, creates = 0;
    std::vector<uint64_t> held, held_bytes;   // blocks (bytes) held at each opening of a file for writing
    uint64_t end_blocks = 0, end_bytes = 0, end_threads = 0, end_files = 0, peak_threads = 0;     // held when main returned
    const char* kind_name() const;
};
struct Ctx {
    uint64_t seed = 0;
    std::map<std::string, std::string> params;
    std::string scratch;         // fresh private directory (removed by the runner)
    std::string param(const std::string& k, const std::string& d = "") const { auto i = params.find(k); return i == params.end() ? d : i->second; }
    int parami(const std::string& k, int d) const { auto i = params.find(k); return i == params.end() ? d : atoi(i->second.c_str()); }
    // fork a simulated process; fn runs in the child
    Outcome segment(const std::function<void()>& fn, double wall_limit = 60);
    // record a violation from the driver
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // human readable history
    bool failed = false;
    std::string violation_msg;
    std::vector<std::string> notes;
    std::string signature;      // what makes this run distinct / non-trivial
    bool trivial = false;
};
using Scenario = std::function<void(Ctx&)>;
struct Register { Register(const char* name, Scenario s); };
int sim_main(int argc, char** argv);

// utilities
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}
#define SIM_CHECK(cond, ...) do { if (!(cond)) ::sim::violation(__VA_ARGS__); } while (0)
