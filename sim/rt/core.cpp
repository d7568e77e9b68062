// Choice streams, runs, segments (simulated processes), minimisation, command line.
#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <fstream>
#include <sstream>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <ftw.h>

namespace sim {

RunShared* RS = nullptr;
SegShared* SG = nullptr;
Replay g_replay;
static int g_seg = 0;

struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
static Rng g_rng[NSTREAM];

uint64_t fnv(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }
std::string strf(const char* fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
static void mix(uint64_t v) { SG->hash = (SG->hash ^ v) * 1099511628211ull; SG->hash ^= SG->hash >> 29; }

void streams_begin(int seg, uint64_t seed) {
    g_seg = seg; SG = &RS->seg[seg];
    SG->kind = -1; SG->finished = 0; SG->ended = 0; SG->n_held = 0; SG->end_blocks = SG->end_bytes = SG->end_threads = SG->end_files = SG->peak_threads = 0; SG->msg[0] = 0; SG->hash = 1469598103934665603ull; SG->steps = SG->switches = SG->vtime = 0; SG->result_len = 0; SG->filelog_len = 0; SG->allocs = SG->creates = 0; SG->nsig = 1469598103934665603ull;
    memset(&SG->io, 0, sizeof SG->io);
    for (int s = 0; s < NSTREAM; ++s) { SG->n[s] = 0; g_rng[s].s = seed * 0xD1342543DE82EF95ull + (uint64_t)seg * 0x9E3779B97F4A7C15ull + (uint64_t)s * 0xA0761D6478BD642Full; g_rng[s].next(); g_rng[s].next(); }
}
uint64_t choose(Stream s, uint64_t n) {
    if (n <= 1) return 0;
    uint32_t i = SG->n[s];
    if (i >= MAXCHOICE) return 0;
    uint64_t v;
    if (g_replay.on) {
        auto& src = g_replay.v[s];
        v = g_seg < (int)src.size() && i < src[g_seg].size() ? src[g_seg][i] % n : 0;
    } else v = (g_rng[s].next() >> 11) % n;
    SG->ch[s][i] = (uint32_t)v; SG->n[s] = i + 1;
    mix(v * 4 + s);
    return v;
}
bool chance(Stream s, uint32_t num, uint32_t den) { return num && choose(s, den) >= den - num; }

static void bump(const char* name, uint64_t n, int fault) {
    int k = RS->ncounts;
    for (int i = 0; i < k; ++i) if (!strcmp(RS->counts[i].name, name)) { RS->counts[i].n += n; return; }
    if (k < 256) { strncpy(RS->counts[k].name, name, 47); RS->counts[k].n = n; RS->counts[k].fault = fault; RS->ncounts = k + 1; }
}
void count(const char* name, uint64_t n) { Rt r; bump(name, n, 0); }
void count_fault(const char* name, uint64_t n) { Rt r; bump(name, n, 1); }
static bool g_trace = false;
void event(const char* kind, uint64_t a, uint64_t b) {
    Rt r;
    mix(fnv(kind, strlen(kind))); mix(a); mix(b);
    if (g_trace) { char t[256]; int n = snprintf(t, sizeof t, "  [t%d step %lu] %s %lu %lu\n", self(), (unsigned long)steps(), kind, (unsigned long)a, (unsigned long)b); sys6(SYS_write, 198, (long)t, n); }
}
void event_bytes(const char* kind, const void* p, size_t n) { Rt r; event(kind, fnv(p, n), n); }

void stop_segment(int kind, const char* msg) {
    if (SG) { strncpy(SG->msg, msg, sizeof SG->msg - 1); SG->kind = kind; SG->steps = g_steps; SG->vtime = now_ns(); SG->io = io_stats(); SG->allocs = alloc_count; }
    raw_exit(99);
}
void violation(const char* fmt, ...) {
    t_rt++;
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    stop_segment(Outcome::VIOLATION, b);
}
void finish_ok() { t_rt++; SG->finished = 1; stop_segment(Outcome::OK, ""); }
uint64_t g_peak_threads;
void program_ended(int code) { if (SG) { SG->ended = code; SG->end_blocks = live_blocks(); SG->end_bytes = live_bytes(); SG->end_threads = live_threads(); SG->end_files = io_stats().open_now; SG->peak_threads = g_peak_threads; } }
void crash_now(int) { t_rt++; stop_segment(Outcome::CRASHED, "simulated process kill"); }
void result(const void* p, size_t n) {
    Rt r;
    if (SG->result_len + n > RESULT_MAX) stop_segment(Outcome::ERROR, "result buffer full");
    memcpy(RS->result + SG->result_len, p, n); SG->result_len += n;
}

const char* Outcome::kind_name() const { static const char* n[] = {"ok", "violation", "exit", "signal", "deadlock", "budget", "watchdog", "crashed", "error"}; return n[kind]; }

static std::string slurp_fd(int fd) { std::string s; char b[65536]; sys6(SYS_lseek, fd, 0, SEEK_SET); for (;;) { long n = sys6(SYS_read, fd, (long)b, sizeof b); if (n <= 0) break; s.append(b, n); } return s; }

static int g_segcount = 0;
static double g_wall_scale = 1;
Outcome Ctx::segment(const std::function<void()>& fn, double wall) {
    Outcome o;
    int driver_seg = g_seg; SegShared* driver_sg = SG; Rng keep[NSTREAM]; memcpy(keep, g_rng, sizeof keep);
    int seg = ++g_segcount;
    if (seg >= MAXSEG) { o.kind = Outcome::ERROR; o.msg = "too many segments"; return o; }
    streams_begin(seg, seed);
    int fo = (int)sys6(SYS_memfd_create, (long)"out", 0), fe = (int)sys6(SYS_memfd_create, (long)"err", 0);
    fflush(stdout); fflush(stderr);
    int pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (g_trace) sys6(SYS_dup2, 2, 198);
        sys6(SYS_dup2, fo, 1); sys6(SYS_dup2, fe, 2);
        sys6(SYS_close, fo); sys6(SYS_close, fe);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (getenv("SIM_AS_GB")) { struct rlimit ra; ra.rlim_cur = ra.rlim_max = (rlim_t)atoi(getenv("SIM_AS_GB")) << 30; setrlimit(RLIMIT_AS, &ra); }
        atexit([] { SG->steps = g_steps; SG->vtime = now_ns(); SG->allocs = alloc_count; });
        fn();
        finish_ok();
    }
    int pfd = (int)sys6(SYS_pidfd_open, pid, 0);
    struct pollfd pf{pfd, POLLIN, 0};
    int status = 0; bool timeout = false;
    int pr;
    // the time in which this process was able to run itself: a machine that stands still is no hang
    struct timespec t0, t1; sys6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t0);
    for (double elapsed = 0;;) {
        double left = wall * g_wall_scale - elapsed;
        if (left <= 0) { timeout = true; break; }
        pr = poll(&pf, 1, left < 1 ? (int)(left * 1000) + 1 : 1000);
        if (pr > 0) break;
        if (pr < 0 && errno != EINTR) break;
        sys6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1);
        double d = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec); t0 = t1;
        elapsed += d < 1.5 ? d : 1.5;
    }
    if (timeout) kill(pid, SIGKILL);
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    close(pfd);
    SegShared* g = SG;
    if (timeout) { o.kind = Outcome::WATCHDOG; o.msg = "did not terminate (wall-clock watchdog)"; }
    else if (g->kind >= 0) { o.kind = (Outcome::Kind)g->kind; o.msg = g->msg; o.code = 0; }
    else if (WIFEXITED(status)) { o.kind = Outcome::EXIT; o.code = WEXITSTATUS(status); }
    // HDF5 may crash in its exit handler once a file could not be closed: the program has failed visibly before
    else if (g->ended) { o.kind = Outcome::EXIT; o.code = g->ended; }
    else { o.kind = Outcome::SIGNAL; o.code = WTERMSIG(status); }
    o.held.assign(g->held, g->held + g->n_held); o.held_bytes.assign(g->held_bytes, g->held_bytes + g->n_held); o.end_bytes = g->end_bytes; o.end_blocks = g->end_blocks; o.end_threads = g->end_threads; o.end_files = g->end_files; o.peak_threads = g->peak_threads;
    o.hash = g->hash; o.steps = g->steps; o.switches = g->switches; o.vtime = g->vtime; o.io = g->io; o.allocs = g->allocs; o.creates = g->creates; o.filelog.assign(g->filelog, g->filelog_len);
    o.out = slurp_fd(fo); o.err = slurp_fd(fe);
    sys6(SYS_close, fo); sys6(SYS_close, fe);
    o.result.assign(RS->result, RS->result + g->result_len);
    memcpy(g_rng, keep, sizeof keep); g_seg = driver_seg; SG = driver_sg;
    mix(o.hash); mix((uint64_t)o.kind * 1000 + o.code); mix(fnv(o.out.data(), o.out.size())); mix(g->nsig);
    return o;
}
void Ctx::fail(const char* fmt, ...) {
    if (failed) return;
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    failed = true; violation_msg = b;
}
void Ctx::note(const char* fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    notes.push_back(b);
}

// ------------------------------------------------------------------ registry and runs
static std::map<std::string, Scenario>& reg() { static auto* r = new std::map<std::string, Scenario>; return *r; }
Register::Register(const char* n, Scenario s) { reg()[n] = s; }

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void rm_rf(const std::string& d) { if (d.find("/simscratch.") != std::string::npos) nftw(d.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS); }

struct RunResult {
    bool failed = false, error = false; std::string msg; uint64_t hash = 0, steps = 0, switches = 0, vtime = 0, nsig = 0, faults = 0; bool trivial = false;
    std::vector<std::vector<uint32_t>> tr[NSTREAM];
    std::vector<std::string> notes; std::string signature;
    std::vector<std::pair<std::string, std::pair<uint64_t, int>>> counts;
    int segs = 0;
};
static std::string g_scratch_base = "/dev/shm";
static int g_runno = 0;
static RunResult run_one(const std::string& name, uint64_t seed, const std::map<std::string, std::string>& params) {
    RunResult r;
    auto it = reg().find(name);
    if (it == reg().end()) { fprintf(stderr, "no scenario %s\n", name.c_str()); exit(2); }
    if (!RS) { RS = (RunShared*)mmap(0, sizeof(RunShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (RS == MAP_FAILED) { perror("mmap"); exit(2); } }
    RS->ncounts = 0;
    g_segcount = 0;
    streams_begin(0, seed);
    Ctx c; c.seed = seed; c.params = params;
    c.scratch = strf("%s/simscratch.%d.%d", g_scratch_base.c_str(), (int)getpid(), g_runno++);
    if (mkdir(c.scratch.c_str(), 0755)) { perror("mkdir scratch"); exit(2); }
    it->second(c);
    rm_rf(c.scratch);
    r.failed = c.failed; r.msg = c.violation_msg; r.trivial = c.trivial; r.notes = c.notes; r.signature = c.signature;
    r.segs = g_segcount; r.hash = RS->seg[0].hash;
    for (int g = 0; g <= g_segcount && g < MAXSEG; ++g) {
        r.steps += RS->seg[g].steps; r.switches += RS->seg[g].switches;
        if (g && RS->seg[g].vtime > 1000000000ull * 1700000000ull) r.vtime += RS->seg[g].vtime - 1000000000ull * 1700000000ull;
        r.nsig = r.nsig * 31 + RS->seg[g].nsig;
        for (int s = 0; s < NSTREAM; ++s) r.tr[s].emplace_back(RS->seg[g].ch[s], RS->seg[g].ch[s] + RS->seg[g].n[s]);
    }
    for (int i = 0; i < RS->ncounts; ++i) { r.counts.push_back({RS->counts[i].name, {RS->counts[i].n, RS->counts[i].fault}}); if (RS->counts[i].fault) r.faults += RS->counts[i].n; }
    if (r.failed && r.msg.compare(0, 6, "ERROR:") == 0) { r.failed = false; r.error = true; }
    return r;
}
static std::string klass(const std::string& m) { size_t k = m.find(':'); return m.substr(0, k == std::string::npos ? m.size() : k); }

// ------------------------------------------------------------------ replay files
static void write_replay(const std::string& path, const std::string& name, uint64_t seed, const std::map<std::string, std::string>& params, const RunResult& r) {
    std::ofstream f(path);
    f << "simreplay 1\nscenario " << name << "\nseed " << seed << "\n";
    for (auto& p : params) f << "param " << p.first << " " << p.second << "\n";
    f << "hash " << r.hash << "\nviolation " << r.msg << "\n";
    static const char* sn[] = {"W", "S", "F"};
    for (int s = 0; s < NSTREAM; ++s) for (size_t g = 0; g < r.tr[s].size(); ++g) {
        auto v = r.tr[s][g]; while (!v.empty() && v.back() == 0) v.pop_back();
        if (v.empty()) continue;
        f << "stream " << g << " " << sn[s] << " " << v.size();
        for (size_t i = 0; i < v.size(); ++i) if (v[i]) f << " " << i << ":" << v[i];
        f << "\n";
    }
    for (auto& n : r.notes) f << "# " << n << "\n";
    for (auto& c : r.counts) if (c.second.second) f << "# fault " << c.first << " x" << c.second.first << "\n";
}
static bool read_replay(const std::string& path, std::string& name, uint64_t& seed, std::map<std::string, std::string>& params, uint64_t& hash, std::string& msg, Replay& rp) {
    std::ifstream f(path); std::string line;
    if (!std::getline(f, line) || line.compare(0, 9, "simreplay")) return false;
    for (int s = 0; s < NSTREAM; ++s) rp.v[s].assign(MAXSEG, {});
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "scenario") is >> name; else if (k == "seed") is >> seed; else if (k == "hash") is >> hash;
        else if (k == "param") { std::string a, b; is >> a; std::getline(is, b); params[a] = b.empty() ? b : b.substr(1); }
        else if (k == "violation") { msg = line.substr(10); }
        else if (k == "stream") {
            size_t g, n; std::string s; is >> g >> s >> n; int si = s == "W" ? 0 : s == "S" ? 1 : 2;
            auto& v = rp.v[si][g]; v.assign(n, 0); std::string t;
            while (is >> t) { size_t c = t.find(':'); v[std::stoul(t.substr(0, c))] = (uint32_t)std::stoul(t.substr(c + 1)); }
        }
    }
    rp.on = true; return true;
}
static RunResult run_trace(const std::string& name, uint64_t seed, const std::map<std::string, std::string>& params, const std::vector<std::vector<uint32_t>>* tr) {
    g_replay.on = true;
    for (int s = 0; s < NSTREAM; ++s) { g_replay.v[s] = tr[s]; g_replay.v[s].resize(MAXSEG); }
    RunResult r = run_one(name, seed, params);
    g_replay.on = false;
    return r;
}
static double wall() { struct timespec t; sys6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static size_t tsize(const std::vector<std::vector<uint32_t>>* t) { size_t n = 0; for (int s = 0; s < NSTREAM; ++s) for (auto& v : t[s]) for (auto x : v) n += x != 0; return n; }
static RunResult minimise(const std::string& name, uint64_t seed, const std::map<std::string, std::string>& params, RunResult best, double budget, int& tries) {
    double t0 = wall(); std::string k = klass(best.msg); tries = 0;
    using Tr = std::vector<std::vector<uint32_t>>;
    auto attempt = [&](Tr* t) { if (wall() - t0 > budget) return false; ++tries; RunResult r = run_trace(name, seed, params, t); if (r.failed && klass(r.msg) == k && tsize(r.tr) <= tsize(best.tr)) { best = r; return true; } return false; };
    auto copy = [&](Tr* t) { for (int s = 0; s < NSTREAM; ++s) { t[s] = best.tr[s]; } };
    bool progress = true;
    for (int pass = 0; pass < 6 && progress && wall() - t0 < budget; ++pass) {
        progress = false;
        for (int s : {1, 2, 0}) for (size_t g = 0; g < best.tr[s].size(); ++g) {
            // drop everything after position p, then zero / delete chunks
            size_t n0 = best.tr[s][g].size();
            for (size_t chunk = n0 ? n0 : 0; chunk >= 1; chunk /= 2) {
                for (size_t p = 0; g < best.tr[s].size() && p < best.tr[s][g].size() && wall() - t0 < budget;) {
                    Tr t[NSTREAM]; copy(t); auto& v = t[s][g]; size_t e = std::min(v.size(), p + chunk);
                    bool nz = false; for (size_t i = p; i < e; ++i) nz |= v[i] != 0;
                    bool done = false;
                    if (nz) { for (size_t i = p; i < e; ++i) v[i] = 0; if (attempt(t)) { progress = done = true; } }
                    if (!done && s == 0) { copy(t); auto& u = t[s][g]; u.erase(u.begin() + p, u.begin() + std::min(u.size(), e)); if (attempt(t)) { progress = true; continue; } }
                    p += chunk;
                }
                if (chunk == 1) break;
            }
        }
        for (int s : {0, 2}) for (size_t g = 0; g < best.tr[s].size(); ++g)
            for (size_t i = 0; g < best.tr[s].size() && i < best.tr[s][g].size() && i < 400 && wall() - t0 < budget; ++i) {
                while (g < best.tr[s].size() && i < best.tr[s][g].size() && best.tr[s][g][i] > 1) { Tr t[NSTREAM]; copy(t); t[s][g][i] /= 2; if (!attempt(t)) break; progress = true; }
            }
    }
    return best;
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o; }

int sim_main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    if (access("/dev/shm", W_OK) != 0) g_scratch_base = "/tmp";
    if (getenv("SIM_SCRATCH")) g_scratch_base = getenv("SIM_SCRATCH");
    if (getenv("SIM_TRACE")) g_trace = true;
    if (getenv("SIM_WALL_SCALE")) g_wall_scale = atof(getenv("SIM_WALL_SCALE"));
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string scen, out, sigf, file; uint64_t seed0 = 1, count_ = 1, stride = 1; double tlimit = 1e9; int cpu = -1, maxviol = 3; double minb = 60;
    std::map<std::string, std::string> params;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--scenario") scen = nx(); else if (a == "--seed0") seed0 = std::stoull(nx()); else if (a == "--count") count_ = std::stoull(nx()); else if (a == "--stride") stride = std::stoull(nx());
        else if (a == "--time") tlimit = std::stod(nx()); else if (a == "--out") out = nx(); else if (a == "--sigs") sigf = nx(); else if (a == "--cpu") cpu = std::stoi(nx());
        else if (a == "--max-violations") maxviol = std::stoi(nx()); else if (a == "--min-budget") minb = std::stod(nx());
        else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = p.substr(e + 1); }
        else file = a;
    }
    if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    if (cmd == "list") { for (auto& s : reg()) puts(s.first.c_str()); return 0; }
    if (cmd == "run") {
        double t0 = wall(); uint64_t runs = 0, steps = 0, sw = 0, vt = 0, errors = 0, nontriv = 0, segs = 0, faulty = 0; std::set<uint64_t> sigs, inter; std::map<std::string, std::pair<uint64_t, int>> cnt; std::vector<std::string> samples; int viol = 0; std::string lasterr; double longest = 0; uint64_t longest_seed = 0;
        std::ofstream of(out);
        std::ofstream hf; if (getenv("SIM_HASHES")) hf.open(getenv("SIM_HASHES"));
        for (uint64_t i = 0; i < count_; ++i) {
            if (wall() - t0 > tlimit) break;
            uint64_t seed = seed0 + i * stride;
            double r0 = wall(); RunResult r = run_one(scen, seed, params); r0 = wall() - r0; if (r0 > longest) { longest = r0; longest_seed = seed; }
            ++runs; steps += r.steps; sw += r.switches; vt += r.vtime; segs += r.segs; faulty += r.faults > 0;
            if (hf) hf << seed << " " << r.hash << " " << (r.failed ? r.msg : "") << "\n";
            for (auto& c : r.counts) { cnt[c.first].first += c.second.first; cnt[c.first].second = c.second.second; }
            if (!r.trivial) { ++nontriv; sigs.insert(r.hash); }
            inter.insert(r.nsig);
            if (r.error) { ++errors; lasterr = r.msg; if (errors > 20) break; }
            if (samples.size() < 3 && !r.notes.empty() && !r.trivial) { std::string s = strf("seed %lu:", (unsigned long)seed); size_t k = 0; for (auto& n : r.notes) { if (k++ > 24) { s += " ..."; break; } s += " | " + n; } samples.push_back(s); }
            if (r.failed) {
                std::string p = out + strf(".v%d", viol);
                write_replay(p, scen, seed, params, r);
                of << "{\"type\":\"violation\",\"seed\":" << seed << ",\"replay\":\"" << jesc(p) << "\",\"msg\":\"" << jesc(r.msg) << "\"}\n"; of.flush();
                if (++viol >= maxviol) break;
            }
        }
        of << "{\"type\":\"summary\",\"runs\":" << runs << ",\"segments\":" << segs << ",\"errors\":" << errors << ",\"last_error\":\"" << jesc(lasterr) << "\",\"steps\":" << steps << ",\"switches\":" << sw << ",\"vtime_ns\":" << vt << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << sigs.size() << ",\"faulty_runs\":" << faulty << ",\"longest_run_s\":" << longest << ",\"longest_seed\":" << longest_seed << ",\"longest_run_s\":" << longest << ",\"longest_seed\":" << longest_seed << ",\"wall\":" << wall() - t0 << ",\"counts\":{";
        bool first = true; for (auto& c : cnt) { of << (first ? "" : ",") << "\"" << jesc(c.first) << "\":[" << c.second.first << "," << c.second.second << "]"; first = false; }
        of << "},\"samples\":["; first = true; for (auto& s : samples) { of << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
        of << "]}\n";
        if (!sigf.empty()) { std::ofstream sf(sigf, std::ios::binary); uint64_t n = sigs.size(); sf.write((char*)&n, 8); for (auto s : sigs) sf.write((char*)&s, 8); for (auto s : inter) sf.write((char*)&s, 8); }
        return 0;
    }
    std::string msg; uint64_t hash = 0, seed = 0; Replay rp;
    if (!read_replay(file, scen, seed, params, hash, msg, rp)) { fprintf(stderr, "cannot read replay %s\n", file.c_str()); return 2; }
    if (cmd == "replay") {
        g_replay = rp;
        RunResult r = run_one(scen, seed, params);
        for (auto& n : r.notes) printf("# %s\n", n.c_str());
        printf("{\"failed\":%d,\"same_hash\":%d,\"hash\":\"%lu\",\"class_match\":%d,\"msg\":\"%s\"}\n", r.failed, r.hash == hash, (unsigned long)r.hash, r.failed && klass(r.msg) == klass(msg), jesc(r.msg).c_str());
        return r.failed ? 1 : 0;
    }
    if (cmd == "minimise") {
        RunResult r = run_trace(scen, seed, params, rp.v);
        if (!r.failed) { printf("{\"reproduced\":0}\n"); return 2; }
        int tries = 0; size_t before = tsize(r.tr);
        RunResult b = minimise(scen, seed, params, r, minb, tries);
        // canonical: the trace as the final run recorded it
        RunResult c = run_trace(scen, seed, params, b.tr);
        if (c.failed && klass(c.msg) == klass(b.msg)) b = c;
        write_replay(out, scen, seed, params, b);
        printf("{\"reproduced\":1,\"tries\":%d,\"before\":%zu,\"after\":%zu,\"msg\":\"%s\"}\n", tries, before, tsize(b.tr), jesc(b.msg).c_str());
        return 0;
    }
    fprintf(stderr, "usage: list | run | replay FILE | minimise FILE --out F\n");
    return 2;
}
}
int main(int argc, char** argv) { int r = sim::sim_main(argc, argv); fflush(stdout); fflush(stderr); sim::raw_exit(r); }
