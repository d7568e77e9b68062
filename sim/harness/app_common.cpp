#include "app_common.hpp"
#include "rt.hpp"
#include <hdf5.h>
#include <memory>
#include "app_subprogram.hpp"
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <cmath>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <algorithm>

int mara_main(int argc, const char* argv[]);
// The unit-test subprogram is not part of the simulated program.
__attribute__((weak)) std::unique_ptr<mara::sub_program_t> make_subprog_test() { return nullptr; }

namespace app {
std::string join(const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + "/" + b; }
void make_dir(const std::string& p) { if (mkdir(p.c_str(), 0755) && errno != EEXIST) { perror(p.c_str()); exit(2); } }
std::string g17(double x) { return strf("%.10g", x); }
std::string read_file(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void write_file(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void walk(const std::string& dir, const std::string& rel, std::vector<std::string>& files, std::vector<std::string>* dirs = nullptr) {
    DIR* d = opendir(join(dir, rel).c_str()); if (!d) return;
    std::vector<std::string> names; while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        std::string r = join(rel, n); struct stat s;
        if (lstat(join(dir, r).c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode)) { if (dirs) dirs->push_back(r); walk(dir, r, files, dirs); } else files.push_back(r);
    }
}
void copy_tree(const std::string& from, const std::string& to) {
    std::vector<std::string> f, d; walk(from, "", f, &d); make_dir(to);
    for (auto& x : d) make_dir(join(to, x));
    for (auto& x : f) write_file(join(to, x), read_file(join(from, x)));
}
std::string norm(const std::string& path) {
    std::vector<std::string> v; std::string cur;
    for (size_t i = 0; i <= path.size(); ++i) if (i == path.size() || path[i] == '/') { if (cur == "..") { if (!v.empty()) v.pop_back(); } else if (!cur.empty() && cur != ".") v.push_back(cur); cur.clear(); } else cur += path[i];
    std::string r; for (auto& x : v) r = join(r, x); return r;
}
static void logstate(const std::string& l, std::map<std::string, int>& open, std::set<std::string>& seen) {
    size_t p = 0;
    while (p < l.size()) { size_t e = l.find('\n', p); if (e == std::string::npos) break; std::string n = norm(l.substr(p + 2, e - p - 2)); if (l[p] == 'O') { open[n]++; seen.insert(n); } else if (l[p] == 'C') open[n]--; else if (l[p] == 'X') open.erase(n); p = e + 1; }
}
std::set<std::string> at_rest(const std::string& l) { std::map<std::string, int> o; std::set<std::string> s, r; logstate(l, o, s); for (auto& x : o) if (x.second == 0) r.insert(x.first); return r; }
std::set<std::string> in_flight(const std::string& l) { std::map<std::string, int> o; std::set<std::string> s, r; logstate(l, o, s); for (auto& x : o) if (x.second != 0) r.insert(x.first); return r; }
std::string before_fault(const std::string& l) { size_t p = l.compare(0, 2, "F ") == 0 ? 0 : l.find("\nF "); return p == std::string::npos ? l : l.substr(0, p ? p + 1 : 0); }
std::set<std::string> opened(const std::string& l) { std::map<std::string, int> o; std::set<std::string> s; logstate(l, o, s); return s; }
static std::string base(const std::string& f) { size_t p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
bool is_kind(const std::string& f, const char* k) { std::string b = base(f), s = std::string(k) + "."; return b.compare(0, s.size(), s) == 0; }
int number_of(const std::string& f) { std::string b = base(f); size_t p = b.find('.'); if (p == std::string::npos || p + 1 >= b.size() || !isdigit(b[p + 1])) return -1; return atoi(b.c_str() + p + 1); }

// ------------------------------------------------------------------ workloads
Work draw_work(unsigned mask, bool longer) {
    std::vector<int> which; for (int i = 0; i < 6; ++i) if (mask & (1u << i)) which.push_back(i);
    Work w; int k = which[choose(W, which.size())];
    static const double mult[] = {3.3, 1.7, 0.6, 2.45, 5.2, 7.9, 1.0, 4.1, 40.0};
    auto iv = [&] { return mult[choose(W, 9)]; };
    static const char* dirs[] = {"data", "out/run1", "/abs/dir", "a.b/c_d", "./x", "nr=32/try=2", "my runs/no 1", "trailing space ", " leading"};
    w.outdir = dirs[choose(W, 9)];
    if (k == 0) {
        w.name = "sedov"; w.cfg_group = "run_config";
        int nr = 16 + 8 * (int)choose(W, 4); w.steps = 4 + (int)choose(W, 22);
        bool newt = choose(W, 2);
        double d = 1.5 / nr, dr = std::pow(10., -0.5) * (std::pow(10., d) - 1); w.dt = 0.4 * dr;
        w.args = {{"nr", std::to_string(nr)}, {"outer_radius", "10"}, {"newtonian", newt ? "1" : "0"}, {"outdir", w.outdir}, {"tfinal", g17(w.dt * (w.steps - 0.5))}, {"cpi", g17(w.dt * iv())}, {"dfi", g17(w.dt * iv())}, {"tsi", g17(w.dt * iv())}};
        if (choose(W, 3) == 2) w.args[newt ? "explosion_density" : "explosion_pressure"] = newt ? "4" : "10";
        if (choose(W, 4) == 3) w.args["density_index"] = choose(W, 2) ? "1" : "2.5";
        if (choose(W, 6) == 5) w.args[newt ? "explosion_pressure" : "explosion_density"] = "2";
    } else if (k == 1) {
        w.name = "boilerplate"; w.cfg_group = "run_config"; w.outdir = "";
        int n = 8 + 8 * (int)choose(W, 4); w.steps = 4 + (int)choose(W, 22); w.dt = 0.25 / (n + 1);
        w.args = {{"N", std::to_string(n)}, {"tfinal", g17(w.dt * (w.steps - 0.5))}, {"cpi", g17(w.dt * iv())}};
    } else if (k == 2) {
        w.name = "binary"; w.cfg_group = "run_config";
        int depth = 1 + (int)choose(W, 2), bs = 4 + 2 * (int)choose(W, 3); w.steps = 2 + (int)choose(W, 6);
        double dx = 24.0 / bs / (1 << depth);
        w.dt = 0.4 * dx / 2.2 / (2 * M_PI);      // orbits, roughly
        w.args = {{"depth", std::to_string(depth)}, {"block_size", std::to_string(bs)}, {"outdir", w.outdir}, {"tfinal", g17(w.dt * (w.steps - 0.5))}, {"cpi", g17(w.dt * iv())}, {"dfi", g17(w.dt * iv())}, {"tsi", g17(w.dt * iv())}, {"threaded", std::to_string(1 + choose(W, 3))}};
        if (choose(W, 2)) w.args["rk_order"] = "1";
        if (choose(W, 3) == 2) w.args["reconstruct_method"] = "pcm";
        if (choose(W, 3) == 2) w.args["conserve_linear_p"] = "0";
        if (choose(W, 3) == 2) w.args["fixed_dt"] = "1";
        if (choose(W, 4) == 3) w.args["eccentricity"] = "0.3";
        if (choose(W, 4) == 3) { static const char* q[] = {"0.5", "0.2", "0.05"}; w.args["mass_ratio"] = q[choose(W, 3)]; }
        if (choose(W, 4) == 3) w.args["begin_live_binary"] = choose(W, 2) ? "0" : g17(w.dt * 2 * M_PI * (0.4 + choose(W, w.steps)));
        if (choose(W, 4) == 3) { w.args["disk_radius"] = "0.5"; w.args["sink_radius"] = "0.5"; }
        static const char* more[][2] = {{"focus_factor", "1"}, {"focus_factor", "3.5"}, {"focus_index", "1"}, {"counter_rotate", "1"}, {"axisymmetric_cs2", "1"}, {"nu", "0.001"}, {"alpha", "0"}, {"alpha_cutoff_radius", "1"}, {"density_floor", "1e-5"}, {"no_accretion_force", "1"}, {"mach_number", "20"}, {"buffer_damping_rate", "100"}, {"source_term_softening", "2"}, {"softening_radius", "0.2"}, {"sink_rate", "8"}, {"plm_theta", "1.1"}, {"disk_mass", "0.1"}, {"ambient_density", "0.01"}, {"cfl_number", "0.25"}, {"mdot", "1e-8"}, {"domain_radius", "8"}, {"domain_radius", "20"}, {"separation", "1.5"}};
        static const int few[] = {0, 0, 1, 2, 3};
        for (int n = few[choose(W, 5)]; n > 0; --n) { auto& m = more[choose(W, 23)]; w.args[m[0]] = m[1]; }
    } else if (k == 3) {
        w.name = "cloud"; w.cfg_group = "config";
        int nr = 4 + 2 * (int)choose(W, 3); w.steps = 2 + (int)choose(W, 5);
        double dr = std::pow(10., 1.0 / nr) - 1; w.dt = 0.4 * dr;
        w.args = {{"nr", std::to_string(nr)}, {"num_decades", "1"}, {"outdir", w.outdir}, {"tfinal", g17(w.dt * (w.steps - 0.5))}, {"cpi", g17(w.dt * iv())}, {"dfi", g17(w.dt * iv())}, {"tsi", g17(w.dt * iv())}};
        if (choose(W, 2)) w.args["rk_order"] = "2";
        if (choose(W, 3) == 2) w.args["reconstruct_method"] = "1";
        static const char* more[][2] = {{"jet_delay_time", "0.05"}, {"jet_duration", "0.1"}, {"density_index", "1.5"}, {"jet_opening_angle", "0.4"}, {"jet_gamma_beta", "3"}, {"cloud_cutoff", "1e9"}, {"plm_theta", "1.8"}, {"cfl_number", "0.3"}, {"inner_radius", "1e8"}, {"density_index2", "4"}, {"jet_total_energy", "1e51"}, {"jet_structure_exp", "4"}, {"cloud_mass", "0.1"}, {"temperature_floor", "1e-4"}};
        static const int few[] = {0, 0, 1, 2};
        for (int n = few[choose(W, 4)]; n > 0; --n) { auto& m = more[choose(W, 14)]; w.args[m[0]] = m[1]; }
    } else if (k == 5) {
        w.name = "partdom"; w.restartable = false; w.outdir = ""; w.steps = 1; w.dt = 1;
        w.args = {{"N", std::to_string(7 + choose(W, 8))}, {"procs", std::to_string(1 + choose(W, 7))}};
    } else {
        w.name = "amrsand"; w.restartable = false;
        int depth = 1 + (int)choose(W, 2), bs = 4 + 2 * (int)choose(W, 2); w.steps = 2 + (int)choose(W, 5);
        w.dt = 2.0 / (bs + 1) / (1 << (depth + 1));
        w.args = {{"depth", std::to_string(depth)}, {"block_size", std::to_string(bs)}, {"outdir", w.outdir}, {"tfinal", g17(w.dt * (w.steps - 0.5))}, {"dfi", g17(w.dt * iv())}};
    }
    if (getenv("SIM_ARGS")) { fprintf(stderr, "ARGS %s", w.name.c_str()); for (auto& a : w.args) fprintf(stderr, " %s=%s", a.first.c_str(), a.second.c_str()); fprintf(stderr, "\n"); }
    // now and then a long run: many outputs, numbers of several digits (sedov speaks every hundredth step)
    unsigned often = k == 0 || (k == 2 && w.args["block_size"] == "4") ? 8 : 24;
    if (longer && w.args.count("tfinal") && choose(W, often) == often - 1 && !(w.args.count("depth") && w.args["depth"] != "1")) {
        w.steps *= k == 0 || k == 1 ? 8 : 4; if (k == 0) w.steps = std::max(w.steps, 104); if (k == 2 && w.args["block_size"] == "4") w.steps = 35 + (int)choose(W, 30); w.args["tfinal"] = g17(w.dt * (w.steps - 0.5)); count("long_runs");
    }
    return w;
}

// ------------------------------------------------------------------ processes
Outcome run_app(Ctx& c, const Spec& s, double wall) {
    make_dir(s.dir);
    std::string line = s.name; for (auto& a : s.args) line += " " + a.first + "=" + a.second; for (auto& a : s.extra) line += " " + a;
    Outcome o = c.segment([&] {
        std::vector<std::string> v{"mara", s.name}; for (auto& a : s.args) v.push_back(a.first + "=" + a.second); for (auto& a : s.extra) v.push_back(a);
        std::vector<const char*> argv; for (auto& x : v) argv.push_back(x.c_str());
        argv.push_back(nullptr);
        enter_jail(s.dir);
        SchedConfig sc; if (s.random_schedule) sc = random_sched();
        clock_mode = s.clock;
        hang_label = "the run hangs";
        if (s.track) { H5open(); track_blocks(); }
        setvbuf(stdout, nullptr, _IOLBF, 4096);     // as on a terminal
        activate(sc);
        io_start(s.io);
        alloc_fail_after = s.alloc_fail; alloc_fail_count = s.alloc_count; create_fail_after = s.create_fail; create_fail_count = s.create_count;
        int code = mara_main((int)v.size(), argv.data());
        alloc_fail_after = create_fail_after = -1;
        if (s.track) { H5garbage_collect(); usleep(1000000); }       // and let the workers come to rest
        program_ended(code);
        exit(code);
    }, wall);
    if (getenv("SIM_SHOW")) fprintf(stderr, "---- %s\n%s%s----\n", line.c_str(), o.out.c_str(), o.err.c_str());
    std::string fl; for (auto& f : in_flight(o.filelog)) fl += " " + f;
    c.note("%s -> %s%s%s", line.c_str(), show(o).c_str(), fl.empty() ? "" : ", being written:", fl.c_str());
    return o;
}
bool ok(const Outcome& o) { return o.kind == Outcome::EXIT && o.code == 0; }
bool loud(const Outcome& o) { return (o.kind == Outcome::EXIT && o.code != 0) || (o.kind == Outcome::SIGNAL && o.code == SIGABRT); }
bool killed(const Outcome& o) { return o.kind == Outcome::CRASHED; }
std::string show(const Outcome& o) {
    if (o.kind == Outcome::EXIT) return strf("exit %d", o.code);
    if (o.kind == Outcome::SIGNAL) { std::string e; size_t p = o.err.find("what():"); if (p != std::string::npos) { e = o.err.substr(p + 7, 160); e = ":" + e.substr(0, e.find('\n')); } return strf("signal %d%s", o.code, e.c_str()); }
    if (o.kind == Outcome::CRASHED) return strf("killed at file operation %lu", (unsigned long)o.io.mut);
    return strf("%s (%s)", o.kind_name(), o.msg.c_str());
}
bool sane(Ctx& c, const Outcome& o, const char* what) {
    if (ok(o) || loud(o) || killed(o)) return true;
    if (o.kind == Outcome::ERROR) c.fail("ERROR: %s", o.msg.c_str());
    else if (o.kind == Outcome::VIOLATION || o.kind == Outcome::DEADLOCK || o.kind == Outcome::BUDGET) c.fail("%s: during %s", o.msg.c_str(), what);
    else if (o.kind == Outcome::WATCHDOG) c.fail("the run hangs: %s", what);
    else c.fail("program crashed: signal %d during %s", o.code, what);
    return false;
}

// ------------------------------------------------------------------ reading HDF5 files back
static void put(std::string& s, const std::string& x) { uint32_t n = (uint32_t)x.size(); s.append((char*)&n, 4); s += x; }
static std::string get(const char*& p) { uint32_t n; memcpy(&n, p, 4); std::string s(p + 4, n); p += 4 + n; return s; }
static std::string type_text(hid_t t) {
    H5T_class_t k = H5Tget_class(t); size_t sz = H5Tget_size(t);
    if (k == H5T_COMPOUND) { std::string s = "{"; int n = H5Tget_nmembers(t); for (int i = 0; i < n; ++i) { char* m = H5Tget_member_name(t, i); hid_t mt = H5Tget_member_type(t, i); s += std::string(m) + ":" + type_text(mt) + ";"; H5free_memory(m); H5Tclose(mt); } return s + "}"; }
    if (k == H5T_ARRAY) { hid_t b = H5Tget_super(t); hsize_t d[32]; int n = H5Tget_array_dims2(t, d); std::string s = type_text(b) + "["; for (int i = 0; i < n; ++i) s += std::to_string(d[i]) + ","; H5Tclose(b); return s + "]"; }
    return strf("%s%zu", k == H5T_INTEGER ? "i" : k == H5T_FLOAT ? "f" : k == H5T_STRING ? "s" : "?", sz);
}
struct VisitCtx { std::string* out; bool bad; };
static herr_t visit(hid_t root, const char* name, const H5O_info_t* info, void* p) {
    VisitCtx* v = (VisitCtx*)p; std::string path = name[0] == '.' && !name[1] ? "" : std::string(name);
    if (info->type == H5O_TYPE_GROUP) { put(*v->out, "/" + path); put(*v->out, "group"); return 0; }
    if (info->type != H5O_TYPE_DATASET) { put(*v->out, "/" + path); put(*v->out, "?"); return 0; }
    hid_t d = H5Dopen2(root, name, H5P_DEFAULT); if (d < 0) { v->bad = true; return -1; }
    hid_t ft = H5Dget_type(d), t = H5Tget_native_type(ft, H5T_DIR_ASCEND), sp = H5Dget_space(d);
    hsize_t dims[32]; int nd = H5Sget_simple_extent_ndims(sp); H5Sget_simple_extent_dims(sp, dims, nullptr);
    size_t n = H5Sget_simple_extent_npoints(sp), sz = H5Tget_size(t);
    std::string desc = type_text(t); for (int i = 0; i < nd; ++i) desc += "x" + std::to_string(dims[i]);
    if (n * sz > (64u << 20)) { v->bad = true; return -1; }
    std::string buf(n * sz, 0);
    if (n && H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &buf[0]) < 0) v->bad = true;
    put(*v->out, "/" + path); put(*v->out, desc + std::string(1, 0) + buf);
    H5Sclose(sp); H5Tclose(t); H5Tclose(ft); H5Dclose(d);
    return v->bad ? -1 : 0;
}
std::vector<std::string> Dump::all() const { std::vector<std::string> v; for (auto& f : files) v.push_back(f.first); for (auto& f : unreadable) v.push_back(f); for (auto& f : other) v.push_back(f); std::sort(v.begin(), v.end()); return v; }
Dump dump(Ctx& c, const std::string& dir) {
    Dump D; std::vector<std::string> names; walk(dir, "", names);
    std::vector<std::string> todo;
    for (auto& n : names) if (n.size() > 3 && n.substr(n.size() - 3) == ".h5") todo.push_back(n); else D.other.insert(n);
    size_t start = 0;
    for (int attempt = 0; start < todo.size() && attempt < 6; ++attempt) {
        Outcome o = c.segment([&] {
            H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
            for (size_t i = start; i < todo.size(); ++i) {
                std::string s; VisitCtx v{&s, false};
                hid_t f = H5Fopen(join(dir, todo[i]).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                if (f < 0) v.bad = true; else { if (H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_INC, visit, &v, H5O_INFO_BASIC) < 0) v.bad = true; H5Fclose(f); }
                if (v.bad) s.clear();
                std::string h; put(h, todo[i]); h += v.bad ? '0' : '1'; put(h, s);
                result(h.data(), h.size());
            }
            finish_ok();
        }, 60);
        const char* p = o.result.data(); const char* e = p + o.result.size();
        while (p < e) {
            std::string n = get(p); bool good = *p++ == '1'; std::string s = get(p); ++start;
            if (!good) { D.unreadable.insert(n); continue; }
            Items& it = D.files[n]; const char* q = s.data(); const char* qe = q + s.size();
            while (q < qe) { std::string k = get(q); it[k] = get(q); }
        }
        if (o.kind == Outcome::OK) break;
        if (start < todo.size()) D.unreadable.insert(todo[start++]);      // HDF5 itself fell over this file
    }
    return D;
}
std::string raw(const Items& it, const std::string& path) { auto i = it.find(path); if (i == it.end()) return ""; size_t z = i->second.find('\0'); return z == std::string::npos ? "" : i->second.substr(z + 1); }
std::vector<double> nums(const Items& it, const std::string& path) {
    std::vector<double> r; auto i = it.find(path); if (i == it.end()) return r;
    std::string b = raw(it, path), d = i->second.substr(0, i->second.find('\0'));
    if (d[0] == 'f' && d[1] == '8') { r.resize(b.size() / 8); memcpy(r.data(), b.data(), r.size() * 8); }
    else if (d[0] == 'i' && d[1] == '4') for (size_t k = 0; k + 4 <= b.size(); k += 4) { int x; memcpy(&x, &b[k], 4); r.push_back(x); }
    return r;
}
double num(const Items& it, const std::string& path, double dflt) { auto v = nums(it, path); return v.empty() ? dflt : v[0]; }
std::string text(const Items& it, const std::string& path) { std::string s = raw(it, path); size_t z = s.find('\0'); return z == std::string::npos ? s : s.substr(0, z); }
std::string differ(const Items& a, const Items& b, const std::set<std::string>& ignore) {
    for (auto& x : a) if (!ignore.count(x.first)) { auto j = b.find(x.first); if (j == b.end()) return x.first + " missing"; if (j->second != x.second) {
        auto u = nums(a, x.first), v = nums(b, x.first); std::string s = x.first;
        if (u.size() != v.size()) s += strf(" (%zu values instead of %zu)", v.size(), u.size());
        else for (size_t k = 0; k < u.size(); ++k) if (u[k] != v[k] && !(u[k] != u[k] && v[k] != v[k])) { s += strf(" [%zu]: %.17g instead of %.17g", k, v[k], u[k]); break; }
        return s; } }
    for (auto& x : b) if (!ignore.count(x.first) && !a.count(x.first)) return x.first + " unexpected";
    return "";
}
// size of a type written by type_text (no padding: everything recorded is made of doubles)
static size_t type_size(const std::string& t, size_t& p) {
    size_t n = 0;
    if (t[p] == '{') { ++p; while (t[p] != '}') { p = t.find(':', p) + 1; n += type_size(t, p); ++p; } ++p; }
    else { ++p; while (p < t.size() && isdigit(t[p])) n = n * 10 + (t[p++] - '0'); }
    if (p < t.size() && t[p] == '[') { ++p; while (t[p] != ']') { size_t k = 0; while (isdigit(t[p])) k = k * 10 + (t[p++] - '0'); n *= k; if (t[p] == ',') ++p; } ++p; }
    return n;
}
std::vector<std::vector<double>> column(const Items& it, const std::string& path, const std::string& name) {
    std::vector<std::vector<double>> r; auto i = it.find(path); if (i == it.end()) return r;
    std::string b = raw(it, path), t = i->second.substr(0, i->second.find('\0'));
    if (t[0] != '{') return r;
    size_t p = 1, off = 0, at = 0, len = 0;
    while (t[p] != '}') { size_t c = t.find(':', p); std::string n = t.substr(p, c - p); p = c + 1; size_t s = type_size(t, p); ++p; if (n == name) { at = off; len = s; } off += s; }
    if (!len || !off) return r;
    for (size_t k = 0; k + off <= b.size(); k += off) { std::vector<double> v(len / 8); memcpy(v.data(), &b[k + at], len); r.push_back(v); }
    return r;
}
}
