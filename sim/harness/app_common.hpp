// Whole-program runs: the real subprograms (main included) as simulated processes in a jail
// directory, on the simulated scheduler, clock and disk; their HDF5 output read back generically.
#pragma once
#include "sim.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace app {
using namespace sim;
using Args = std::map<std::string, std::string>;

struct Work { std::string name; Args args; std::string outdir; double dt = 0; int steps = 0; bool restartable = true; std::string cfg_group; };
// Draw a subprogram (bit mask over: 1 sedov, 2 boilerplate, 4 binary, 8 cloud, 16 amrsand, 32 partdom) with a small configuration
Work draw_work(unsigned mask, bool longer = false);

struct Spec {
    std::string dir;                // jail
    std::string name; Args args; std::vector<std::string> extra;     // raw arguments, after the others
    IoPlan io; int clock = 0; bool random_schedule = false; int64_t alloc_fail = -1, alloc_count = 1, create_fail = -1, create_count = 1; bool track = false;
};
Outcome run_app(Ctx& c, const Spec& s, double wall = 60);
bool ok(const Outcome& o);          // exit status 0
bool loud(const Outcome& o);        // visible failure: non-zero exit or uncaught exception
bool killed(const Outcome& o);      // by the simulator
std::string show(const Outcome& o);
// true if the outcome is one of the three above; otherwise records a violation (or an error)
bool sane(Ctx& c, const Outcome& o, const char* what);

using Items = std::map<std::string, std::string>;       // object path -> type, shape and bytes
struct Dump { std::map<std::string, Items> files; std::set<std::string> unreadable, other; std::vector<std::string> all() const; };
Dump dump(Ctx& c, const std::string& dir);              // all files below dir (names relative to it)
double num(const Items& it, const std::string& path, double dflt = -1);     // scalar as a number
std::vector<double> nums(const Items& it, const std::string& path);
std::vector<std::vector<double>> column(const Items& it, const std::string& path, const std::string& name);   // a member of a table of records
std::string text(const Items& it, const std::string& path);
std::string raw(const Items& it, const std::string& path);
std::set<std::string> at_rest(const std::string& filelog);     // files written and closed, by normalised name
std::set<std::string> in_flight(const std::string& filelog);   // files open for writing when the process ended
std::string before_fault(const std::string& filelog);          // the part before the first injected error
std::set<std::string> opened(const std::string& filelog);
std::string norm(const std::string& path);
// first difference between two files, ignoring the given items; empty if none
std::string differ(const Items& a, const Items& b, const std::set<std::string>& ignore);
std::string join(const std::string& a, const std::string& b);
void make_dir(const std::string& p);
void copy_tree(const std::string& from, const std::string& to);
std::string read_file(const std::string& p);
void write_file(const std::string& p, const std::string& s);
int number_of(const std::string& file);                // chkpt.0012.h5 -> 12, else -1
bool is_kind(const std::string& file, const char* kind);       // base name starts with kind.
std::string g17(double x);
}
