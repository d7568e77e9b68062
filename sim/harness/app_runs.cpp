// Scenarios over whole runs: crash and restart, write and read failures, cadence, configuration,
// clock, schedule, conservation, failed steps.
#include "app_common.hpp"
#include "rt.hpp"
#include <cmath>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <unistd.h>
#include <hdf5.h>

namespace app {
// Items that record how a run was started, not what it computed
static std::set<std::string> start_items(const Work& w) { return {"/" + w.cfg_group + "/restart"}; }

static int count_lines(const std::string& out, const char* what) { size_t p = 0; int n = 0; while (p < out.size()) { size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size(); if (out.substr(p, e - p).find(what) != std::string::npos) ++n; p = e + 1; } return n; }
static bool reference(Ctx& c, const Work& w, const std::string& dir, Outcome& o, Dump& d) {
    Spec s; s.dir = dir; s.name = w.name; s.args = w.args;
    o = run_app(c, s);
    if (!sane(c, o, "an undisturbed run")) return false;
    if (loud(o) && o.err.find("negative density") != std::string::npos) { c.trivial = true; count("unphysical_configuration"); return false; }      // the program says so
    if (!ok(o)) { c.fail("undisturbed run fails: %s", show(o).c_str()); return false; }
    d = dump(c, dir);
    if (!d.unreadable.empty()) { c.fail("unreadable output of an undisturbed run: %s", d.unreadable.begin()->c_str()); return false; }
    return true;
}
// the in-place time series file: a shorter or longer table with equal leading rows
static std::string differ_rows(const Items& ref, const Items& got, const std::set<std::string>& ignore, bool allow_longer, bool allow_shorter) {
    for (auto& x : ref) {
        if (ignore.count(x.first)) continue;
        auto j = got.find(x.first); if (j == got.end()) return x.first + " missing";
        if (x.first.find("/", 1) != std::string::npos || x.second == "group") { if (j->second != x.second) return x.first; continue; }
        auto a = nums(ref, x.first), b = nums(got, x.first); size_t n = std::min(a.size(), b.size());
        if (b.size() < a.size() && !allow_shorter) return strf("%s has %zu rows instead of %zu", x.first.c_str(), b.size(), a.size());
        if (b.size() > a.size() && !allow_longer) return strf("%s has %zu rows instead of %zu", x.first.c_str(), b.size(), a.size());
        for (size_t i = 0; i < n; ++i) if (memcmp(&a[i], &b[i], 8)) return strf("%s row %zu: %.17g instead of %.17g", x.first.c_str(), i, b[i], a[i]);
    }
    return "";
}
static bool is_series(const std::string& f) { return f.size() >= 14 && f.substr(f.size() - 14) == "time_series.h5"; }
static std::string newest(const std::set<std::string>& files, int below = 1 << 30) { std::string best; for (auto& f : files) if (is_kind(f, "chkpt") && number_of(f) < below && (best.empty() || number_of(f) > number_of(best))) best = f; return best; }

// A restart from the last checkpoint of the undisturbed run goes one step further than that run did;
// whether that step is physical is not known, and the program says so if it is not.
static bool beyond(const Outcome& o, const std::string& from, const Dump& D0) { int n = -1; for (auto& f : D0.files) if (is_kind(f.first, "chkpt")) n = std::max(n, number_of(f.first)); return !from.empty() && number_of(from) >= n && o.err.find("negative density") != std::string::npos; }

static size_t samples(const Items& series) { size_t n = 0; for (auto& x : series) if (x.first.find("/", 1) == std::string::npos && x.second != "group") n = std::max(n, nums(series, x.first).size()); return n; }

// ------------------------------------------------------------------ D02, D03: crash, restart
// mode 0: after any sequence of kills and restarts the outputs are those of the undisturbed run
// mode 1: at every kill, completed outputs are intact; outputs older than the checkpoint are not touched
static void crash_restart(Ctx& c, int mode) {
    Work w = draw_work(15, true);
    std::string ref = join(c.scratch, "ref"), wk = join(c.scratch, "wk");
    Outcome r0; Dump D0;
    if (!reference(c, w, ref, r0, D0)) return;
    auto ign = start_items(w);
    int kills = 1 + (int)choose(F, 4);
    bool old_ckpt = choose(F, 4) == 3;
    std::set<std::string> rest, usable; std::string from; bool series_torn = false, ended_early = false, fresh = true, finished = false, any_kill = false;
    Items ck;
    for (int k = 0; k <= kills && !finished; ++k) {
        Spec s; s.dir = wk; s.name = w.name;
        if (from.empty()) { s.args = w.args; fresh = true; } else { s.args = {{"restart", from}}; fresh = false; if (w.args.count("threaded") && choose(W, 2)) s.args["threaded"] = w.args["threaded"]; }
        if (mode == 0 && k == kills && !fresh && choose(F, 2)) {       // the last restart is given an earlier end
            Work v = w; double t = num(ck, "/solution/time") / (w.name == "binary" ? 2 * M_PI : 1), T = atof(w.args["tfinal"].c_str());
            double e = t + w.dt * (1.3 + choose(F, 8));
            if (t > 0 && e < T) {
                v.args["tfinal"] = g17(e); Outcome r1; Dump D1; if (!reference(c, v, join(c.scratch, "ref2"), r1, D1)) return;
                s.args["tfinal"] = v.args["tfinal"]; D0 = D1; ign.insert("/" + w.cfg_group + "/tfinal"); ended_early = true; count("earlier_end");
            }
        }
        if (k < kills) {
            s.io.crash_at = (int64_t)choose(F, r0.io.mut); s.io.torn = (uint32_t)choose(F, 257);
            if (!fresh) s.io.crash_at = (int64_t)choose(F, std::max<uint64_t>(1, s.io.crash_at + 1));
        }
        Outcome o = run_app(c, s);
        if (!sane(c, o, fresh ? "a run" : "a restarted run")) return;
        if (loud(o)) {
            if (series_torn && !fresh) { c.trivial = true; count("restart_refused_torn_series"); return; }     // says so: nothing else to check
            if (!fresh && beyond(o, from, D0)) { c.trivial = true; count("unphysical_configuration"); return; }
            c.fail("%s fails: %s", fresh ? "run after a kill" : "restart from a completed checkpoint", show(o).c_str()); return;
        }
        if (killed(o)) any_kill = true;
        auto fl = in_flight(o.filelog), op = opened(o.filelog), ar = at_rest(o.filelog);
        if (ok(o) && !fl.empty()) { c.fail("output left open: %s is still open for writing when the run ends", fl.begin()->c_str()); return; }
        // outputs older than the checkpoint must not be opened for writing again
        if (!fresh && mode == 1) {
            int nck = (int)num(ck, "/schedule/write_checkpoint/num_times_performed"), ndf = (int)num(ck, "/schedule/write_diagnostics/num_times_performed");
            for (auto& f : op) {
                if (is_kind(f, "chkpt") && (number_of(f) < nck || number_of(f) <= number_of(from))) { c.fail("completed output overwritten: %s opened for writing by a restart from %s", f.c_str(), from.c_str()); return; }
                if (is_kind(f, "diagnostics") && number_of(f) < ndf) { c.fail("completed output overwritten: %s opened for writing by a restart from %s", f.c_str(), from.c_str()); return; }
            }
        }
        if (fresh) usable.clear();
        for (auto& f : ar) { rest.insert(f); usable.insert(f); }
        for (auto& f : fl) { rest.erase(f); usable.erase(f); if (is_series(f)) series_torn = true; }
        if (fresh && ar.size()) for (auto& f : ar) if (is_series(f)) series_torn = false;
        Dump D = dump(c, wk);
        for (auto& f : rest) {
            if (is_series(f) && series_torn) continue;
            if (D.unreadable.count(f)) { c.fail("completed output damaged: %s cannot be read after a kill", f.c_str()); return; }
            auto i = D.files.find(f); if (i == D.files.end()) { c.fail("completed output lost: %s", f.c_str()); return; }
            auto j = D0.files.find(f); if (j == D0.files.end()) continue;       // beyond the end of the undisturbed run
            std::string d = is_series(f) ? differ_rows(j->second, i->second, ign, true, true) : differ(j->second, i->second, ign);
            if (!d.empty()) { c.fail("completed output wrong after kill and restart: %s %s", f.c_str(), d.c_str()); return; }
        }
        // numbering is consecutive
        for (const char* kd : {"chkpt", "diagnostics"}) { std::set<int> n; for (auto& f : D.all()) if (is_kind(f, kd)) n.insert(number_of(f)); int e = 0; for (int x : n) if (x != e++) { c.fail("output numbers are not consecutive: %s number %d is missing", kd, e - 1); return; } }
        if (ok(o)) {
            finished = true;
            for (auto& x : D0.files) {
                if (is_series(x.first) && series_torn) continue;
                auto i = D.files.find(x.first);
                if (i == D.files.end()) { c.fail("restarted run lacks an output of the undisturbed run: %s", x.first.c_str()); return; }
                bool longer = !(ended_early && samples(x.second) > (size_t)num(ck, "/schedule/write_time_series/num_times_performed"));     // what the series held beyond goes when the first sample is added
                std::string d = is_series(x.first) ? differ_rows(x.second, i->second, ign, longer, false) : differ(x.second, i->second, ign);
                if (!d.empty()) { c.fail("restarted run differs from the undisturbed run: %s %s", x.first.c_str(), d.c_str()); return; }
            }
            if (ended_early) break;
            // what lies beyond the end of the undisturbed run is at most one more of each
            for (const char* kd : {"chkpt", "diagnostics"}) { int n0 = -1, n1 = -1; for (auto& f : D0.files) if (is_kind(f.first, kd)) n0 = std::max(n0, number_of(f.first)); for (auto& f : D.files) if (is_kind(f.first, kd)) n1 = std::max(n1, number_of(f.first)); if (n1 > n0 + 1 + kills) { c.fail("restarted run writes more outputs than the undisturbed run: %s %d against %d", kd, n1, n0); return; } }
            break;
        }
        // choose where to go on
        from = newest(usable);
        if (!from.empty() && old_ckpt && number_of(from) > 0 && choose(F, 2)) {
            std::string p = newest(usable, number_of(from)); if (!p.empty()) { from = p; count_fault("older_checkpoint_used"); }
            for (auto i = usable.begin(); i != usable.end();) if (is_kind(*i, "chkpt") && number_of(*i) > number_of(from)) i = usable.erase(i); else ++i;     // going back discards what came later
        }
        if (!from.empty()) { ck = D.files[from]; count("restarts"); } else count("starts_over");
    }
    if (!any_kill) c.trivial = true;
    // going back from the end, to an earlier end: what the later history left in the series goes too
    if (mode == 0 && finished && !ended_early && choose(F, 3) == 2) {
        std::vector<std::string> cks; for (auto& f : usable) if (is_kind(f, "chkpt") && D0.files.count(f)) cks.push_back(f);
        if (cks.empty()) return;
        std::string f = cks[choose(F, cks.size())]; ck = D0.files[f];
        Work v = w; double t = num(ck, "/solution/time") / (w.name == "binary" ? 2 * M_PI : 1), e = t + w.dt * (1.3 + choose(F, 5));
        if (t < 0 || e >= atof(w.args["tfinal"].c_str())) return;
        v.args["tfinal"] = g17(e); Outcome r1; Dump D1; if (!reference(c, v, join(c.scratch, "ref3"), r1, D1)) return;
        Spec s; s.dir = wk; s.name = w.name; s.args = {{"restart", f}, {"tfinal", v.args["tfinal"]}};
        Outcome o = run_app(c, s); if (!sane(c, o, "a restarted run")) return;
        if (!ok(o)) { if (beyond(o, f, D1)) return; c.fail("restart from a completed checkpoint fails: %s", show(o).c_str()); return; }
        count("gone_back"); ign.insert("/" + w.cfg_group + "/tfinal");
        Dump D = dump(c, wk);
        for (auto& x : D1.files) {
            if (is_series(x.first) && series_torn) continue;
            bool longer = samples(x.second) <= (size_t)num(ck, "/schedule/write_time_series/num_times_performed");
            auto i = D.files.find(x.first); if (i == D.files.end()) { c.fail("restarted run with an earlier end lacks an output: %s", x.first.c_str()); return; }
            std::string d = is_series(x.first) ? differ_rows(x.second, i->second, ign, longer, false) : differ(x.second, i->second, ign);
            if (!d.empty()) { c.fail("restarted run with an earlier end differs from the undisturbed run with that end: %s %s", x.first.c_str(), d.c_str()); return; }
        }
    }
}
static Register r1("app_crash_restart", [](Ctx& c) { crash_restart(c, 0); });
static Register r2("app_outputs_intact", [](Ctx& c) { crash_restart(c, 1); });

// ------------------------------------------------------------------ D04: failing writes
static void disk_faults(Ctx& c) {
    Work w = draw_work(63);
    std::string ref = join(c.scratch, "ref"), wk = join(c.scratch, "wk");
    Outcome r0; Dump D0;
    if (!reference(c, w, ref, r0, D0)) return;
    auto ign = start_items(w);
    Spec s; s.dir = wk; s.name = w.name; s.args = w.args;
    static const int cls[] = {IO_WRITE, IO_WRITE, IO_WRITE, IO_WRITE, IO_OPEN, IO_TRUNC, IO_CLOSE, IO_MKDIR, IO_WRITE | IO_TRUNC | IO_OPEN | IO_MKDIR};
    int noise = (int)choose(F, 3);      // 0 errors only, 1 interrupted and short transfers only, 2 both
    if (noise != 1) {
        int m = cls[choose(F, 9)]; uint64_t n = 0; for (int i = 0; i < 16; ++i) if (m & (1 << i)) n += r0.io.by_class[i];
        if (!n) { c.trivial = true; return; }
        static const int we[] = {ENOSPC, EIO, EDQUOT}, oe[] = {EMFILE, EACCES, ENOSPC, EROFS}, ce[] = {EIO, ENOSPC, EDQUOT};
        s.io.fail_mask = m; s.io.fail_errno = m == IO_OPEN || m == IO_MKDIR ? oe[choose(F, 4)] : m == IO_CLOSE ? ce[choose(F, 3)] : we[choose(F, 3)];
        s.io.fail_from = (int64_t)choose(F, n); s.io.fail_to = choose(F, 2) ? s.io.fail_from + 1 + (int64_t)choose(F, 3) : -1;
        s.io.fail_partial = s.io.fail_errno == ENOSPC && choose(F, 2);
        c.note("from %s number %ld on, %s: %s", m == IO_WRITE ? "write" : m == IO_OPEN ? "open" : m == IO_TRUNC ? "truncate" : m == IO_CLOSE ? "close" : m == IO_MKDIR ? "mkdir" : "change", (long)s.io.fail_from, s.io.fail_to < 0 ? "always" : "for a while", strerror(s.io.fail_errno));
    }
    if (noise) { s.io.short_num = 8 + (uint32_t)choose(F, 100); s.io.eintr_num = (uint32_t)choose(F, 100); }
    Outcome o = run_app(c, s);
    if (!sane(c, o, "a run with a failing disk")) return;
    bool hit = o.io.injected > 0;
    if (!hit && noise == 0) c.trivial = true;
    Dump D = dump(c, wk);
    if (ok(o)) {        // success claims that everything is there
        for (auto& x : D0.files) {
            if (D.unreadable.count(x.first)) { c.fail("success reported with a damaged output: %s cannot be read", x.first.c_str()); return; }
            auto i = D.files.find(x.first); if (i == D.files.end()) { c.fail("success reported with a missing output: %s", x.first.c_str()); return; }
            std::string d = differ(x.second, i->second, {}); if (!d.empty()) { c.fail("success reported with a wrong output: %s %s", x.first.c_str(), d.c_str()); return; }
        }
        for (auto& f : D.all()) if (!D0.files.count(f)) { c.fail("unexpected file after a disk fault: %s", f.c_str()); return; }
        return;
    }
    if (!hit) { c.fail("interrupted or short transfers are not handled: the run fails: %s", show(o).c_str()); return; }
    // a failure: what was complete before it is intact, what was announced is there
    std::string early = before_fault(o.filelog); auto rest = at_rest(early), fl = in_flight(o.filelog);
    std::set<std::string> touched; { std::map<std::string, int> dummy; for (auto& f : opened(o.filelog.substr(early.size()))) touched.insert(f); for (auto& f : in_flight(early)) touched.insert(f); }
    auto intact = [&](const std::string& f, const char* why) {
        if (D.unreadable.count(f)) { c.fail("%s output damaged by a later disk fault: %s cannot be read", why, f.c_str()); return false; }
        auto i = D.files.find(f), j = D0.files.find(f); if (i == D.files.end()) { c.fail("%s output lost by a disk fault: %s", why, f.c_str()); return false; }
        if (j == D0.files.end()) { c.fail("unexpected file after a disk fault: %s", f.c_str()); return false; }
        std::string d = is_series(f) ? differ_rows(j->second, i->second, ign, false, true) : differ(j->second, i->second, {}); if (!d.empty()) { c.fail("%s output damaged by a later disk fault: %s %s", why, f.c_str(), d.c_str()); return false; }
        return true;
    };
    for (auto& f : rest) if (!touched.count(f) && !intact(f, "completed")) return;
    size_t p = 0;
    while ((p = o.out.find("write ", p)) != std::string::npos) {
        size_t e = o.out.find('\n', p), q = o.out.find(": ", p); if (e == std::string::npos) break;
        if (q != std::string::npos && q < e) { std::string f = norm(o.out.substr(q + 2, e - q - 2)); if (is_kind(f, "chkpt") || is_kind(f, "diagnostics")) if (!intact(f, "announced")) return; }
        p = e;
    }
    // once the disk works again the run can be taken up
    std::string from; bool series_ok = true; for (auto& f : touched) if (is_series(f)) series_ok = false;
    if (w.restartable && (w.name != "sedov" || series_ok)) { std::set<std::string> u; for (auto& f : rest) if (!touched.count(f)) u.insert(f); from = newest(u); }
    Spec t; t.dir = wk; t.name = w.name; t.args = w.args; if (!from.empty()) t.args = {{"restart", from}};
    Outcome o2 = run_app(c, t);
    if (!sane(c, o2, "a run after a disk fault")) return;
    if (loud(o2) && beyond(o2, from, D0)) { c.trivial = true; count("unphysical_configuration"); return; }
    if (!ok(o2)) { c.fail("the run cannot be taken up once the disk works again: %s", show(o2).c_str()); return; }
    count(from.empty() ? "recovered_from_scratch" : "recovered_from_checkpoint");
    Dump D2 = dump(c, wk);
    for (auto& x : D0.files) {
        auto i = D2.files.find(x.first); if (i == D2.files.end()) { c.fail("output missing or unreadable after recovery from a disk fault: %s", x.first.c_str()); return; }
        std::string d = is_series(x.first) ? differ_rows(x.second, i->second, ign, true, false) : differ(x.second, i->second, ign); if (!d.empty()) { c.fail("output wrong after recovery from a disk fault: %s %s", x.first.c_str(), d.c_str()); return; }
    }
}
static Register r3("app_disk_faults", disk_faults);

// ------------------------------------------------------------------ D05: bad checkpoints, failing reads
static std::vector<std::string> g_links;
static herr_t collect(hid_t, const char* name, const H5O_info_t*, void* p) { if (name[0] != '.') ((std::vector<std::string>*)p)->push_back(name); return 0; }
static bool bad_restart_once(Ctx& c, const Work& w, const std::string& ref, const Outcome& r0, const Dump& D0, const std::string& wk, int kind) {
    auto ign = start_items(w);
    std::vector<std::string> ck; for (auto& f : D0.files) if (is_kind(f.first, "chkpt")) ck.push_back(f.first);
    if (ck.empty()) { c.trivial = true; return true; }
    std::string from = ck[choose(F, ck.size())];
    copy_tree(ref, wk);
    Spec s; s.dir = wk; s.name = w.name; s.args = {{"restart", from}};
    bool must_refuse = false, midway = false; std::string what;
    std::string path = join(wk, from);
    if (kind <= 1) {        // read errors
        static const int cl[] = {IO_READ, IO_READ, IO_READ, IO_OPEN, IO_STAT}; int m = cl[choose(F, 5)];
        s.io.fail_mask = m; s.io.fail_errno = m == IO_OPEN ? (choose(F, 2) ? EACCES : EMFILE) : EIO; s.io.fail_from = (int64_t)choose(F, m == IO_READ ? 200 : 12); s.io.fail_to = choose(F, 2) ? s.io.fail_from + 1 + (int64_t)choose(F, 2) : -1;
        what = strf("%s number %ld fails", m == IO_READ ? "read" : m == IO_OPEN ? "open" : "stat", (long)s.io.fail_from);
    } else if (kind == 2) { s.io.short_num = 8 + (uint32_t)choose(F, 150); s.io.eintr_num = (uint32_t)choose(F, 150); what = "short and interrupted reads"; }
    else if (kind == 3) { std::string b = read_file(path); size_t n = choose(F, b.size()); write_file(path, b.substr(0, n)); must_refuse = true; what = strf("checkpoint cut to %zu of %zu bytes", n, b.size()); count_fault("checkpoint_truncated"); }
    else if (kind == 4 || kind == 5) {      // something the run needs is missing
        std::string gone;
        Outcome o = c.segment([&] {
            H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
            hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); std::vector<std::string> v; H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_INC, collect, &v, H5O_INFO_BASIC);
            std::vector<std::string> u; for (auto& n : v) { if (n.compare(0, w.cfg_group.size() + 1, w.cfg_group + "/") == 0) continue; if (n.size() > 5 && n.substr(n.size() - 5) == "/name") continue; u.push_back(n); }
            if (choose(F, 2)) { std::vector<std::string> d; for (auto& n : u) if (n.compare(0, 9, "solution/") == 0 && n.find('/', 9) == std::string::npos) d.push_back(n); if (d.size()) u = d; }
            std::string g = u[choose(F, u.size())]; bool k = H5Ldelete(f, g.c_str(), H5P_DEFAULT) >= 0; H5Fclose(f);
            if (k) result(g.data(), g.size()); finish_ok();
        });
        gone.assign(o.result.begin(), o.result.end());
        if (o.kind != Outcome::OK || gone.empty()) { c.fail("ERROR: cannot edit a checkpoint: %s", o.msg.c_str()); return false; }
        what = "checkpoint without " + gone; count_fault("checkpoint_item_missing");
    } else if (kind == 6) {     // the checkpoint a killed run left behind
        Spec k; k.dir = join(c.scratch, "k"); k.name = w.name; k.args = w.args; std::string fl;
        for (int t = 0; t < 3 && fl.empty(); ++t) { k.io.crash_at = (int64_t)choose(F, r0.io.mut); k.io.torn = (uint32_t)choose(F, 257); Outcome o = run_app(c, k); if (!sane(c, o, "a run")) return false; for (auto& f : in_flight(o.filelog)) if (is_kind(f, "chkpt")) fl = f; }
        if (fl.empty()) { c.trivial = true; return true; }
        write_file(path, read_file(join(k.dir, fl))); what = "checkpoint left behind by a kill"; count_fault("torn_checkpoint");
        if (norm(fl) != norm(from)) must_refuse = false;
        s.args["restart"] = from;
    } else {
        must_refuse = true; int j = kind == 8 ? 4 : (int)choose(F, 4);
        std::string series; if (w.name == "sedov") for (auto& f : D0.files) if (is_series(f.first)) series = f.first;
        if (j == 4 && !series.empty()) {      // the time series the run would go on with is lost or unusable
            if (samples(D0.files.at(series)) <= (size_t)num(D0.files.at(from), "/schedule/write_time_series/num_times_performed")) { c.trivial = true; return true; }
            std::string b = read_file(join(wk, series)); int m = (int)choose(F, 3);
            if (m == 0) { unlink(join(wk, series).c_str()); what = "the time series is missing"; } else if (m == 1) { write_file(join(wk, series), b.substr(0, choose(F, b.size()))); what = "the time series is cut short"; } else { std::string g(1 + choose(F, 4000), 'x'); write_file(join(wk, series), g); what = "the time series is something else"; }
            midway = true; count_fault("time_series_lost");
        }
        else if (j == 4) { c.trivial = true; return true; }
        else if (j == 0) { s.args["restart"] = join(w.outdir, "chkpt.9999.h5"); what = "no such checkpoint"; } else if (j == 1) { write_file(path, ""); what = "empty checkpoint"; }
        else if (j == 2) { std::string g(1 + choose(F, 4000), 'x'); for (auto& ch : g) ch = (char)choose(F, 256); write_file(path, g); what = "checkpoint of random bytes"; }
        else { s.args["restart"] = w.outdir.empty() ? "/" : w.outdir; what = "a directory in place of a checkpoint"; }
        if (!midway) count_fault("not_a_checkpoint");
    }
    c.note("%s", what.c_str());
    std::map<std::string, std::string> before; { Dump b = dump(c, wk); for (auto& f : b.all()) before[f] = read_file(join(wk, f)); }
    Outcome o = run_app(c, s);
    if (!sane(c, o, ("a restart, with " + what).c_str())) return false;
    Dump D = dump(c, wk);
    if (ok(o)) {
        if (must_refuse) { c.fail("restart from an unusable checkpoint reports success: %s", what.c_str()); return false; }
        if (kind == 6) return true;      // the file was complete after all: D02's business
        for (auto& x : D0.files) {
            if (x.first == norm(from) && (kind == 4 || kind == 5)) continue;
            auto i = D.files.find(x.first); if (i == D.files.end()) { c.fail("restart from incomplete data reports success but an output is missing: %s", x.first.c_str()); return false; }
            std::string d = is_series(x.first) ? differ_rows(x.second, i->second, ign, true, false) : differ(x.second, i->second, ign); if (!d.empty()) { c.fail("restart from incomplete data reports success but differs: %s %s (%s)", x.first.c_str(), d.c_str(), what.c_str()); return false; }
        }
        if ((kind <= 1 && !o.io.injected)) c.trivial = true;
        return true;
    }
    if ((kind == 2 || (kind <= 1 && !o.io.injected)) && beyond(o, from, D0)) { c.trivial = true; count("unphysical_configuration"); return true; }
    if (kind == 2) { c.fail("short or interrupted reads are not handled: the restart fails: %s", show(o).c_str()); return false; }
    if (kind <= 1 && !o.io.injected) { c.fail("restart fails without a fault: %s", show(o).c_str()); return false; }
    if (kind <= 1 || midway) { // what was there before is intact unless the restarted run was rewriting it
        auto op = opened(o.filelog);
        for (auto& b : before) if (!op.count(b.first) && read_file(join(wk, b.first)) != b.second) { c.fail("failed restart altered a file: %s", b.first.c_str()); return false; }
        return true;
    }
    for (auto& f : D.all()) if (!before.count(f)) { c.fail("refused restart left a new file: %s", f.c_str()); return false; }
    for (auto& b : before) if (read_file(join(wk, b.first)) != b.second) { c.fail("refused restart altered a file: %s (%s)", b.first.c_str(), what.c_str()); return false; }
    return true;
}
static void bad_restart(Ctx& c) {
    int kind = (int)choose(F, 9); Work w = draw_work(kind == 8 ? 1 : 15);
    std::string ref = join(c.scratch, "ref");
    Outcome r0; Dump D0;
    if (!reference(c, w, ref, r0, D0)) return;
    int times = kind == 4 || kind == 5 ? 4 : 1;
    for (int t = 0; t < times; ++t) if (!bad_restart_once(c, w, ref, r0, D0, join(c.scratch, strf("wk%d", t)), kind)) return;
}
static Register r4("app_bad_restart", bad_restart);

// ------------------------------------------------------------------ D06: cadence; D07: configuration over generations
struct Cadence { double last[3] = {0, 0, 0}; int cnt[3] = {0, 0, 0}; size_t k = 0; };
static const char* ts_task(const Work& w) { return w.name == "binary" ? "record_time_series" : "write_time_series"; }
static double unit(const Work& w) { return w.name == "binary" ? 2 * M_PI : 1; }
static std::string fname(const Work& w, const char* kind, int n) { return norm(join(w.outdir, strf("%s.%04d.h5", kind, n))); }
static double file_time(const Work& w, const Items& it, bool chk) { auto v = nums(it, chk ? "/solution/time" : "/time"); return v.empty() ? NAN : v[0]; }

static void cadence(Ctx& c) {
    Work w = draw_work(31, true); bool sand = w.name == "amrsand";
    double tf = atof(w.args["tfinal"].c_str()) , tlong = tf + 3 * w.dt;
    // every step's time, from a run that writes at every step
    std::string a = join(c.scratch, "a"), wk = join(c.scratch, "wk");
    std::vector<double> t;
    { Work e = w; e.args["tfinal"] = g17(tlong + 2 * w.dt); e.args[sand ? "dfi" : "cpi"] = "0"; if (!sand && e.args.count("dfi")) { e.args["dfi"] = "1e9"; e.args["tsi"] = "1e9"; }
      Outcome o; Dump D; if (!reference(c, e, a, o, D)) return;
      for (int n = 0;; ++n) { auto i = D.files.find(fname(w, sand ? "diagnostics" : "chkpt", n)); if (i == D.files.end()) break; t.push_back(file_time(w, i->second, !sand)); }
      if (t.size() < 3) { c.fail("output at every step asked for, but a run of several steps wrote only %zu", t.size()); return; }
      for (size_t i = 0; i < t.size(); ++i) if (t[i] != t[i]) { c.fail("output %zu has no time", i); return; }
      for (size_t i = 1; i < t.size(); ++i) if (!(t[i] > t[i - 1])) { c.fail("time does not advance from output to output: %.17g after %.17g", t[i], t[i - 1]); return; } }
    double U = unit(w); double iv[3]; auto getiv = [&](Args& g) { iv[0] = g.count("cpi") ? atof(g["cpi"].c_str()) * U : 1e300; iv[1] = g.count("dfi") ? atof(g["dfi"].c_str()) * U : 1e300; iv[2] = g.count("tsi") ? atof(g["tsi"].c_str()) * U : 1e300; };
    Args cur = w.args; Cadence m; std::map<std::string, double> expect; std::map<std::string, Cadence> at; std::map<std::string, std::vector<double>> ck_rows; std::map<std::string, Args> ck_cfg; std::set<std::string> usable; std::vector<double> disk; double scale = w.name == "cloud" ? 0 : 1;
    int gens = w.restartable ? 1 + (int)choose(W, 3) : 1; std::string from;
    for (int g = 0; g < gens; ++g) {
        Spec s; s.dir = wk; s.name = w.name;
        if (g == 0) { s.args = w.args; if (gens > 1) { double f = tf * (0.3 + 0.2 * choose(W, 4)); s.args["tfinal"] = g17(f); } cur = s.args; }
        else {
            s.args = {{"restart", from}};
            if (choose(W, 2) || g == gens - 1) s.args["tfinal"] = g == gens - 1 ? w.args["tfinal"] : g17(tf * (0.5 + 0.2 * choose(W, 3)));
            static const double mult[] = {3.3, 1.7, 0.6, 2.45, 5.2, 1.0};
            for (const char* k : {"cpi", "dfi", "tsi"}) if (w.args.count(k) && choose(W, 3) == 2) s.args[k] = g17(w.dt * mult[choose(W, 6)]);
            cur = ck_cfg[from]; m = at[from];
            for (auto& x : s.args) cur[x.first] = x.second;
        }
        getiv(cur); double tfin = atof(cur["tfinal"].c_str()) * U;
        Outcome o = run_app(c, s); if (!sane(c, o, "an undisturbed run")) return; if (!ok(o)) { c.fail("undisturbed run fails: %s", show(o).c_str()); return; }
        // the same run on the model
        bool due[3] = {g == 0, g == 0, g == 0}, amb = false;
        std::vector<double> mem; if (g) mem = ck_rows[from];
        auto tasks = [&] {
            double now = t[m.k];
            if (due[1]) { if (cur.count("dfi")) expect[fname(w, "diagnostics", m.cnt[1])] = now; m.cnt[1]++; }
            if (due[2]) { mem.push_back(now); disk.resize(m.cnt[2]); disk.push_back(now); m.cnt[2]++; }
            if (due[0]) { std::string f = fname(w, "chkpt", m.cnt[0]); if (!sand) expect[f] = now; m.cnt[0]++; at[f] = m; ck_rows[f] = mem; ck_cfg[f] = cur; usable.insert(f); }
        };
        auto step = [&] { double st = t[m.k]; for (int q = 0; q < 3; ++q) { double x = st - m.last[q]; if (std::fabs(x - iv[q]) < 1e-9 * std::max(1.0, iv[q]) && iv[q] < 1e299) amb = true; due[q] = x >= iv[q]; if (due[q]) m.last[q] += iv[q]; } m.k++; if (m.k >= t.size()) amb = true; };
        tasks();
        while (!amb && t[m.k] < tfin) { if (std::fabs(t[m.k] - tfin) < 1e-9) amb = true; step(); if (!amb) tasks(); }
        if (!amb) { step(); if (!amb) tasks(); }
        if (amb) { c.trivial = true; return; }
        // compare
        Dump D = dump(c, wk);
        for (auto& e : expect) {
            auto i = D.files.find(e.first); if (i == D.files.end()) { c.fail("output due at t=%.10g is missing: %s", e.second, e.first.c_str()); return; }
            bool chk = is_kind(e.first, "chkpt"); double ft = file_time(w, i->second, chk);
            if (!chk && scale == 0 && e.second > 0) scale = ft / e.second;      // the cloud's diagnostics are in seconds: some constant factor
            bool bad = !chk && w.name == "cloud" ? !(std::fabs(ft - scale * e.second) <= 1e-12 * std::fabs(ft)) || (e.second > 0 && !(ft > 0)) : memcmp(&ft, &e.second, 8) != 0;
            if (bad) { c.fail("output written at the wrong time: %s at t=%.17g instead of %.17g", e.first.c_str(), ft, e.second); return; }
            if (chk) {
                const Cadence& q = at[e.first]; const char* nm[3] = {"write_checkpoint", "write_diagnostics", ts_task(w)};
                for (int j = 0; j < (w.name == "boilerplate" ? 1 : 3); ++j) {
                    int n = (int)num(i->second, strf("/schedule/%s/num_times_performed", nm[j])); double l = num(i->second, strf("/schedule/%s/last_performed", nm[j]));
                    if (n != q.cnt[j]) { c.fail("checkpoint records a wrong number of performed tasks: %s says %s %d times instead of %d", e.first.c_str(), nm[j], n, q.cnt[j]); return; }
                    if (std::fabs(l - q.last[j]) > 1e-9 * (1 + std::fabs(l))) { c.fail("checkpoint records a wrong task time: %s says %s at %.17g instead of %.17g", e.first.c_str(), nm[j], l, q.last[j]); return; }
                }
                if (w.name == "binary") {
                    auto col = column(i->second, "/time_series", "time"); auto& r = ck_rows[e.first];
                    if (col.size() != r.size()) { c.fail("time series has the wrong number of samples: %s has %zu instead of %zu", e.first.c_str(), col.size(), r.size()); return; }
                    for (size_t j = 0; j < r.size(); ++j) if (col[j][0] != r[j]) { c.fail("time series sample at the wrong time: %s sample %zu at %.17g instead of %.17g", e.first.c_str(), j, col[j][0], r[j]); return; }
                }
            }
        }
        for (auto& f : D.all()) if ((is_kind(f, "chkpt") || is_kind(f, "diagnostics")) && !expect.count(f)) { c.fail("output that was not due: %s", f.c_str()); return; }
        if (w.name == "sedov") {
            auto i = D.files.find(norm(join(w.outdir, "time_series.h5"))); if (i == D.files.end()) { c.fail("time series file missing"); return; }
            auto v = nums(i->second, "/time"); if (v != disk) { c.fail("time series has the wrong samples: %zu rows, expected %zu", v.size(), disk.size()); return; }
        }
        if (usable.empty()) break;
        from = newest(usable); if (choose(W, 3) == 2) { std::string p = newest(usable, number_of(from)); if (!p.empty()) { from = p; for (auto i = usable.begin(); i != usable.end();) if (number_of(*i) > number_of(from)) i = usable.erase(i); else ++i; } }
        if (g + 1 < gens) count("generations");
    }
    // output times drawn by the seed are what distinguishes runs
    c.signature = strf("%s/%zu/%d/%d/%d", w.name.c_str(), t.size(), m.cnt[0], m.cnt[1], m.cnt[2]);
}
static Register r5("app_cadence", cadence);

// Effective configuration = defaults < checkpoint < command line, over generations of restarts and kills
static void config_precedence(Ctx& c) {
    Work w = draw_work(15);
    std::string wk = join(c.scratch, "wk"), other = join(c.scratch, "other");
    { std::vector<std::pair<std::string, std::vector<std::string>>> opt;
      if (w.name == "sedov") opt = {{"cpi", {g17(w.dt * 2.2), g17(w.dt * 0.9)}}, {"dfi", {g17(w.dt * 3.1)}}, {"tsi", {g17(w.dt * 1.3), "7"}}, {"tfinal", {g17(w.dt * 6.5), g17(w.dt * 9.5)}}};
      else if (w.name == "boilerplate") opt = {{"cpi", {g17(w.dt * 2.2), g17(w.dt * 0.9)}}, {"tfinal", {g17(w.dt * 6.5), g17(w.dt * 9.5)}}};
      else if (w.name == "binary") opt = {{"cpi", {g17(w.dt * 1.2), g17(w.dt * 0.9)}}, {"dfi", {g17(w.dt * 1.1)}}, {"tsi", {g17(w.dt * 0.8)}}, {"tfinal", {g17(w.dt * 4.5), g17(w.dt * 5.5)}}, {"threaded", {"1", "2", "3"}}, {"rk_order", {"1", "2"}}, {"plm_theta", {"1.2", "1.9", "1.8"}}, {"cfl_number", {"0.3", "0.2", "0.4"}}, {"reconstruct_method", {"pcm", "plm"}}, {"outdir", {"elsewhere", "x/y/z", "k=v", w.outdir, "data", " blanks "}}, {"sink_rate", {"2", "1"}}, {"alpha", {"0.05", "0.1"}}, {"nu", {"0.001", "0"}}};
      else opt = {{"cpi", {g17(w.dt * 1.2), g17(w.dt * 0.9)}}, {"dfi", {g17(w.dt * 1.1)}}, {"tsi", {g17(w.dt * 0.8)}}, {"tfinal", {g17(w.dt * 3.5), g17(w.dt * 4.5)}}, {"rk_order", {"1", "2"}}, {"reconstruct_method", {"1", "2"}}, {"plm_theta", {"1.2", "1.9"}}};
      auto pick = [&](Args& a, unsigned den) { for (auto& x : opt) if (choose(W, den) == den - 1) a[x.first] = x.second[choose(W, x.second.size())]; };
      auto eq = [&](const Items& it, const std::string& key, const std::string& val) {
          std::string p = "/" + w.cfg_group + "/" + key; auto i = it.find(p); if (i == it.end()) return false;
          if (i->second[0] == 's' || i->second[0] == '?') return text(it, p) == val || (val.empty() && text(it, p).empty());
          if (i->second[0] == 'f') return num(it, p) == strtod(val.c_str(), nullptr);
          return (long)num(it, p) == strtol(val.c_str(), nullptr, 10); };
      // a run with another command line: what neither mentions (the defaults) must agree
      Spec z; z.dir = other; z.name = w.name; z.args = w.args; for (auto& x : opt) if (x.first != "tfinal" && x.first != "outdir" && choose(W, 2)) z.args.erase(x.first);
      pick(z.args, 4); z.args.erase("outdir"); z.io.crash_at = 400; Outcome zo = run_app(c, z); if (!sane(c, zo, "a run")) return; Items zb; { Dump d = dump(c, other); for (auto& f : at_rest(zo.filelog)) if (is_kind(f, "chkpt") && d.files.count(f)) zb = d.files[f]; }
      Items base; std::map<std::string, std::string> given; std::map<std::string, std::map<std::string, std::string>> ck_given; std::string from, outdir = w.outdir; int gens = 2 + (int)choose(W, 3);
      for (int g = 0; g < gens; ++g) {
          Spec s; s.dir = wk; s.name = w.name;
          if (g == 0) { s.args = w.args; } else { s.args = {{"restart", from}}; pick(s.args, 3); }
          if (g == 0 && choose(W, 2)) pick(s.args, 4);
          if (choose(W, 8) == 7) {     // an option that does not exist is refused and nothing is touched
              std::map<std::string, std::string> before; for (auto& f : dump(c, wk).all()) before[f] = read_file(join(wk, f));
              Spec b = s; int how = (int)choose(W, 4); const char* what = how <= 1 ? "an option that does not exist" : how == 2 ? "an option that is no number where one is needed" : "an option given twice";
              std::string num = opt[choose(W, opt.size())].first; if (num == "outdir" || (num == "reconstruct_method" && w.name == "binary")) num = "tfinal";
              if (how <= 1) b.args[how ? "no_such_option" : "cpl"] = "1"; else if (how == 2) { bool integer = num == "threaded" || num == "rk_order" || num == "reconstruct_method"; const char* bad[] = {"abc", "", "x1", "-", "=3", integer ? "99999999999" : "1e999"}; b.args[num] = bad[choose(W, 6)]; } else b.extra = {(b.args.count(num) ? num : "restart") + (b.args.count(num) ? "=" + (choose(W, 2) ? b.args[num] : std::string("9")) : "=" + (b.args.count("restart") ? b.args["restart"] : std::string("")))};
              if (how == 3 && b.args.count(num) == 0 && !b.args.count("restart")) b.extra.push_back(b.extra[0]);
              Outcome q = run_app(c, b); if (!sane(c, q, "a run with unusable options")) return;
              if (!loud(q)) { c.fail("an unusable option is accepted: %s", what); return; }
              Dump d = dump(c, wk); for (auto& f : d.all()) if (!before.count(f)) { c.fail("run refused for an unusable option left a file: %s", f.c_str()); return; }
              for (auto& f : before) if (read_file(join(wk, f.first)) != f.second) { c.fail("run refused for an unusable option altered a file: %s", f.first.c_str()); return; }
              count_fault(how <= 1 ? "unknown_option" : how == 2 ? "option_not_a_number" : "option_given_twice");
          }
          if (choose(F, 3) == 2) s.io.crash_at = 40 + (int64_t)choose(F, 400);
          if (g) given = ck_given[from];
          for (auto& x : s.args) given[x.first] = x.second;
          Outcome o = run_app(c, s); if (!sane(c, o, "a run")) return;
          if (loud(o)) { if (o.err.find("negative density") != std::string::npos) { c.trivial = true; return; } if (w.name == "sedov" && g > 0) { c.trivial = true; count("torn_series"); return; } c.fail("run fails: %s", show(o).c_str()); return; }
          auto rest = at_rest(o.filelog); Dump D = dump(c, wk);
          for (auto& f : rest) {
              auto i = D.files.find(f); if (i == D.files.end()) { c.fail("completed output lost or damaged: %s", f.c_str()); return; }
              bool has = i->second.count("/" + w.cfg_group); if (!has) { if (is_kind(f, "chkpt")) { c.fail("checkpoint without its configuration: %s", f.c_str()); return; } continue; }
              if (is_series(f) && g > 0) continue;
              if (base.empty()) { base = i->second; for (auto& x : zb) if (x.first.compare(0, w.cfg_group.size() + 2, "/" + w.cfg_group + "/") == 0) { std::string k = x.first.substr(w.cfg_group.size() + 2); if (!given.count(k) && !z.args.count(k) && base[x.first] != x.second) { c.fail("option that was not given does not have its default: %s", x.first.c_str()); return; } } }
              for (auto& x : given) if (!eq(i->second, x.first, x.second)) { c.fail("recorded configuration is not the one in effect: %s has %s=%s instead of %s", f.c_str(), x.first.c_str(), (text(i->second, "/" + w.cfg_group + "/" + x.first) + "|" + g17(num(i->second, "/" + w.cfg_group + "/" + x.first))).c_str(), x.second.c_str()); return; }
              for (auto& x : base) if (x.first.compare(0, w.cfg_group.size() + 2, "/" + w.cfg_group + "/") == 0 && !given.count(x.first.substr(w.cfg_group.size() + 2))) { auto j = i->second.find(x.first); if (j == i->second.end() || j->second != x.second) { c.fail("option that was not given changed across restarts: %s in %s", x.first.c_str(), f.c_str()); return; } }
          }
          // outputs go where the configuration says
          if (given.count("outdir")) outdir = given["outdir"];
          for (auto& f : opened(o.filelog)) if (norm(join(outdir, f.substr(f.rfind('/') + 1))) != f) { c.fail("output outside the configured directory: %s", f.c_str()); return; }
          std::set<std::string> cks; for (auto& f : rest) if (is_kind(f, "chkpt")) cks.insert(f);
          if (cks.empty()) { if (g == 0) { c.trivial = true; return; } if (killed(o)) continue; else continue; }
          for (auto& f : cks) ck_given[f] = given;
          from = newest(cks); if (choose(W, 4) == 3) from = *cks.begin();
      } }
}
static Register r6("app_config", config_precedence);

// ------------------------------------------------------------------ E01: the clock decides nothing
static bool same_outputs(Ctx& c, const Dump& a, const Dump& b, const std::set<std::string>& ign, const char* what) {
    for (auto& x : a.files) { auto i = b.files.find(x.first); if (i == b.files.end()) { c.fail("%s: output missing: %s", what, x.first.c_str()); return false; } std::string d = differ(x.second, i->second, ign); if (!d.empty()) { c.fail("%s: %s %s", what, x.first.c_str(), d.c_str()); return false; } }
    for (auto& f : b.all()) if (!a.files.count(f)) { c.fail("%s: unexpected file %s", what, f.c_str()); return false; }
    return true;
}
static void clock_free(Ctx& c) {
    Work w = draw_work(31, true);
    std::string ref = join(c.scratch, "ref"), wk = join(c.scratch, "wk");
    Outcome r0; Dump D0; if (!reference(c, w, ref, r0, D0)) return;
    auto ign = start_items(w);
    Spec s; s.dir = wk; s.name = w.name; s.args = w.args; s.clock = 1 + (int)choose(F, 3); s.random_schedule = choose(F, 2);
    static const char* nm[] = {"", "clock_jumps", "clock_steps_back", "clock_frozen"}; count_fault(nm[s.clock]);
    Outcome o = run_app(c, s); if (!sane(c, o, "a run with a bad clock")) return;
    if (!ok(o)) { c.fail("run fails because of the clock: %s", show(o).c_str()); return; }
    same_outputs(c, D0, dump(c, wk), ign, "outputs depend on the clock");
}
static Register r7("app_clock", clock_free);

// ------------------------------------------------------------------ E03: resources do not grow with the length of a run
static uint64_t least(const std::vector<uint64_t>& v, size_t a, size_t b) { return *std::min_element(v.begin() + a, v.begin() + b); }
static void resources(Ctx& c) {
    Work w = draw_work(31);
    static const double every[] = {0.6, 1.0, 0.6, 2.0};
    for (auto k : {"cpi", "dfi", "tsi"}) if (w.args.count(k)) w.args[k] = g17(w.dt * every[choose(W, 4)]);
    // the series of binary is in memory, and grows: switched off, or a sample and both outputs in every step
    bool series = w.name == "binary" && choose(W, 3) == 2;
    if (series) for (auto k : {"cpi", "dfi", "tsi"}) w.args[k] = g17(w.dt * 1e-3);
    else if (w.name == "binary") w.args["tsi"] = "1000";
    if (w.name == "boilerplate" || w.name == "sedov") w.steps = 20 + (int)choose(W, 30); else w.steps = 12 + (int)choose(W, 10);
    if (w.name == "binary") { w.args["depth"] = "1"; w.args["block_size"] = std::to_string(4 + 2 * choose(W, 2)); w.args.erase("fixed_dt"); }
    int extra = w.steps + (int)choose(W, 2 * w.steps);
    w.args["tfinal"] = g17(w.dt * (w.steps - 0.5));
    Spec s; s.dir = join(c.scratch, "a"); s.name = w.name; s.args = w.args; s.track = true;
    Spec t = s; t.dir = join(c.scratch, "b"); t.args["tfinal"] = g17(w.dt * (w.steps + extra - 0.5));
    Outcome a = run_app(c, s), b = run_app(c, t);
    for (auto o : {&a, &b}) if (!ok(*o)) { c.trivial = true; return; }      // an unphysical state on so coarse a grid
    size_t na = a.held.size(), nb = b.held.size();
    if (nb < na + 10) { c.trivial = true; return; }
    size_t more = nb - na;
    uint64_t m1 = least(b.held, nb / 3, 2 * nb / 3), m2 = least(b.held, 2 * nb / 3, nb), b1 = least(b.held_bytes, nb / 3, 2 * nb / 3), b2 = least(b.held_bytes, 2 * nb / 3, nb);
    if (getenv("SIM_SHOW")) { fprintf(stderr, "RES %s blocks %lu %lu threads %lu %lu peak %lu %lu files %lu %lu peak %lu %lu opens %zu %zu held %lu %lu (%d) bytes %lu %lu (%d) end %lu %lu\n", w.name.c_str(), a.end_blocks, b.end_blocks, a.end_threads, b.end_threads, a.peak_threads, b.peak_threads, a.end_files, b.end_files, a.io.open_peak, b.io.open_peak, na, nb, m1, m2, (int)(m2 - m1), b1, b2, (int)(b2 - b1), a.end_bytes, b.end_bytes); }
    if (b.end_blocks > a.end_blocks + 12 && b.end_blocks - a.end_blocks > more / 3) { c.fail("memory is never given back: %lu blocks are held at the end of a run that wrote %zu times, %lu at the end of one that wrote %zu times", a.end_blocks, na, b.end_blocks, nb); return; }
    if (b.end_threads > a.end_threads || b.peak_threads > 2 * a.peak_threads + 8) { c.fail("threads accumulate: at most %lu (%lu at the end) in a run of %d steps, %lu (%lu at the end) in one of %d", a.peak_threads, a.end_threads, w.steps, b.peak_threads, b.end_threads, w.steps + extra); return; }
    if (b.end_files > a.end_files || b.io.open_peak > a.io.open_peak) { c.fail("open files accumulate: at most %lu (%lu at the end) in a run that wrote %zu times, %lu (%lu at the end) in one that wrote %zu times", a.io.open_peak, a.end_files, na, b.io.open_peak, b.end_files, nb); return; }
    if (series) {   // two writes a step: a sample is one block, and the HDF5 library keeps two for each new size of the data set (and their bytes: up to a megabyte)
        size_t samples = nb / 6 + 1;
        count("growing_series");
        if (m2 > m1 + 24 + 4 * samples || b2 > b1 + (3 << 20) + 1024 * samples) { c.fail("memory accumulates while the program runs: %lu blocks (%lu bytes) more are held after some %zu steps more, with no more than that many samples to remember", m2 - m1, b2 - b1, samples); return; }
    }
    // Growth that goes on in a run twice as long (a worker caught with a task in hand is not growth)
    auto grows = [&] (const Spec& x, const Outcome& o1) {
        size_t n1 = o1.held.size();
        uint64_t m1 = least(o1.held, n1 / 3, 2 * n1 / 3), m2 = least(o1.held, 2 * n1 / 3, n1), b1 = least(o1.held_bytes, n1 / 3, 2 * n1 / 3), b2 = least(o1.held_bytes, 2 * n1 / 3, n1);
        if (series) return false;
        bool blocks = m2 > m1 + 8 && m2 - m1 > n1 / 9, bytes = b2 > b1 + 4096;
        if (!blocks && !bytes) return false;
        Spec v = x; v.dir = x.dir + "+"; v.args["tfinal"] = g17(w.dt * (2 * (w.steps + extra) - 0.5));
        Outcome o = run_app(c, v); size_t nv = o.held.size(); count("growth_confirmations");
        if (!ok(o) || nv <= 3 * n1 / 2) return false;
        uint64_t m3 = least(o.held, 2 * nv / 3, nv), b3 = least(o.held_bytes, 2 * nv / 3, nv);
        if (blocks && m3 > m1 + 2 * (m2 - m1)) { c.fail("memory accumulates while the program runs: no less than %lu, %lu, then %lu blocks are held after about %zu, %zu and %zu writes", m1, m2, m3, n1 / 3, 2 * n1 / 3, 2 * nv / 3); return true; }
        if (bytes && b3 > b1 + 2 * (b2 - b1)) { c.fail("memory accumulates while the program runs: no less than %lu, %lu, then %lu bytes are held after about %zu, %zu and %zu writes", b1, b2, b3, n1 / 3, 2 * n1 / 3, 2 * nv / 3); return true; }
        return false;
    };
    if (grows(t, b)) return;
    // The same under other schedules, with no more descriptors than the short run had at once
    Spec u = t; u.dir = join(c.scratch, "u"); u.random_schedule = true; u.io.max_open = (int)a.io.open_peak;
    Outcome o = run_app(c, u);
    if (!ok(o)) { c.fail("a long run fails where descriptors are limited to the %lu a short run had open at once", a.io.open_peak); return; }
    if (o.end_files > a.end_files || o.end_threads > a.end_threads) { c.fail("under another schedule: %lu threads and %lu files at the end, against %lu and %lu in a short run", o.end_threads, o.end_files, a.end_threads, a.end_files); return; }
    if (getenv("SIM_SHOW")) { size_t n = o.held.size(); fprintf(stderr, "RND %s %d %d\n", w.name.c_str(), (int)(least(o.held, 2 * n / 3, n) - least(o.held, n / 3, 2 * n / 3)), (int)(least(o.held_bytes, 2 * n / 3, n) - least(o.held_bytes, n / 3, 2 * n / 3))); }
    if (o.held.size() == b.held.size() && grows(u, o)) return;
    count("long_runs"); count("outputs_written", nb);
}
static Register r20("app_resources", resources);

// ------------------------------------------------------------------ D10: a fresh run does not depend on what is there already
static void fresh_run(Ctx& c) {
    Work w = draw_work(63);
    std::string ref = join(c.scratch, "ref"), wk = join(c.scratch, "wk");
    Outcome r0; Dump D0;
    if (!reference(c, w, ref, r0, D0)) return;
    // what earlier runs left behind, in the same place
    int runs = 1 + (int)choose(F, 2); bool any = false;
    for (int k = 0; k < runs; ++k) {
        Work v = draw_work(63); if (choose(W, 2)) v.args = w.args, v.name = w.name;     // another configuration or program, or the same
        for (auto x : {"tfinal", "cpi", "dfi", "tsi"}) if (v.args.count(x) && choose(W, 2)) v.args[x] = g17(atof(v.args[x].c_str()) * (choose(W, 2) ? 0.5 : 1.5));
        if (v.args.count("outdir") && w.args.count("outdir")) v.args["outdir"] = w.args["outdir"];
        Spec s; s.dir = wk; s.name = v.name; s.args = v.args;
        if (choose(F, 2)) { s.io.crash_at = (int64_t)choose(F, 2 * r0.io.mut + 1); s.io.torn = (uint32_t)choose(F, 257); }
        Outcome o = run_app(c, s); if (!sane(c, o, "an earlier run")) return;
        if (o.io.mut) any = true;
    }
    // files that are not HDF5, under the names of outputs and under other names
    auto place = [] (const std::string& f) { size_t p = f.rfind('/'); return p == std::string::npos ? std::string() : f.substr(0, p); };
    std::set<std::string> places; make_dir(wk);
    for (auto& f : D0.files) { for (size_t q = 0; q != std::string::npos; q = f.first.find('/', q + 1)) if (q) make_dir(join(wk, f.first.substr(0, q))); places.insert(place(f.first)); if (choose(F, 12) == 0) { std::string g(choose(F, 3000), 'x'); for (auto& ch : g) ch = (char)choose(F, 256); write_file(join(wk, f.first), g); count_fault("not_an_output"); any = true; } }
    for (auto& d : places) { write_file(join(wk, join(d, "notes.txt")), "mine"); write_file(join(wk, join(d, "chkpt.0000.h5.bak")), "mine"); }
    std::map<std::string, std::string> before; { Dump b = dump(c, wk); for (auto& f : b.all()) before[f] = read_file(join(wk, f)); }
    Spec s; s.dir = wk; s.name = w.name; s.args = w.args; s.random_schedule = choose(F, 2);
    Outcome o = run_app(c, s);
    if (!sane(c, o, "a fresh run")) return;
    if (!ok(o)) { c.fail("a fresh run fails because of what is in its directory: %s", show(o).c_str()); return; }
    Dump D = dump(c, wk);
    for (auto& x : D0.files) {
        auto i = D.files.find(x.first); if (i == D.files.end()) { c.fail("a fresh run lacks an output because of what was in its directory: %s", x.first.c_str()); return; }
        std::string d = differ(x.second, i->second, {}); if (!d.empty()) { c.fail("an output of a fresh run depends on what was in its directory: %s %s", x.first.c_str(), d.c_str()); return; }
    }
    for (auto& b : before) if (!D0.files.count(b.first) && read_file(join(wk, b.first)) != b.second) { c.fail("a fresh run altered a file that is none of its outputs: %s", b.first.c_str()); return; }
    for (auto& f : D.all()) if (!before.count(f) && !D0.files.count(f)) { c.fail("unexpected file of a fresh run: %s", f.c_str()); return; }
    if (!any) c.trivial = true; else count("fresh_runs_over_leftovers");
}
static Register r21("app_fresh_run", fresh_run);

// ------------------------------------------------------------------ C05: schedules and thread counts decide nothing
static void schedule_free(Ctx& c) {
    Work w = draw_work(c.parami("mask", 4 + 8));
    if (w.name == "binary" && choose(W, 4) == 3) w.args["cfl_number"] = choose(W, 2) ? "2.5" : "1.2";      // steps that fail and are retried
    if (c.parami("small", 0)) { w.args["tfinal"] = g17(w.dt * 1.5); if (w.name == "binary") { w.args["depth"] = "1"; w.args["block_size"] = "4"; } else w.args["nr"] = "4"; }
    std::string ref = join(c.scratch, "ref"), wk = join(c.scratch, "wk");
    Work r = w; if (w.name == "binary") r.args["threaded"] = "1";
    Spec s0; s0.dir = ref; s0.name = w.name; s0.args = r.args;
    Outcome o0 = run_app(c, s0); if (!sane(c, o0, "an undisturbed run")) return;
    Spec s; s.dir = wk; s.name = w.name; s.args = w.args; if (w.name == "binary") s.args["threaded"] = std::to_string(2 + choose(W, 5)); s.random_schedule = true; s.clock = (int)choose(F, 4);
    Outcome o = run_app(c, s); if (!sane(c, o, "a run under another schedule")) return;
    if (ok(o) != ok(o0)) { c.fail("outcome depends on the schedule: %s against %s", show(o).c_str(), show(o0).c_str()); return; }
    Dump D0 = dump(c, ref), D = dump(c, wk);
    if (!ok(o)) { count("failing_runs"); auto a = at_rest(o.filelog), b = at_rest(o0.filelog); if (a != b) { c.fail("outputs depend on the schedule: a failing run completed other outputs"); return; } }
    same_outputs(c, D0, D, {"/run_config/threaded"}, "outputs depend on the schedule");
}
static Register r8("app_schedule", schedule_free);

// ------------------------------------------------------------------ C06: mass is accounted for
// In every recorded sample: mass in the disk + accreted on either body + ejected = mass at the start
static bool mass_balance(Ctx& c, const Dump& D, double* worst) {
    double m0 = NAN;
    for (auto& f : D.files) {
        if (!is_kind(f.first, "chkpt")) continue;
        auto dm = column(f.second, "/time_series", "disk_mass"), ac = column(f.second, "/time_series", "mass_accreted_on"), ej = column(f.second, "/time_series", "mass_ejected"), tm = column(f.second, "/time_series", "time");
        if (dm.empty() || ac.size() != dm.size() || ej.size() != dm.size()) continue;
        if (m0 != m0) m0 = dm[0][0] + ac[0][0] + ac[0][1] + ej[0][0];
        for (size_t i = 0; i < dm.size(); ++i) {
            if (tm[i][0] != tm[i][0]) break;        // the configuration blew up: no time step any more
            double m = dm[i][0] + ac[i][0] + ac[i][1] + ej[i][0], gross = std::fabs(dm[i][0]) + std::fabs(ac[i][0]) + std::fabs(ac[i][1]) + std::fabs(ej[i][0]);
            double r = std::fabs(m - m0) / gross; if (worst && r > *worst) *worst = r;
            if (!(r < 1e-12)) { c.fail("mass is not accounted for: %s sample %zu (t=%.6g): disk %.12g + accreted %.12g + ejected %.12g = %.12g, at the start %.12g", f.first.c_str(), i, tm[i][0], dm[i][0], ac[i][0] + ac[i][1], ej[i][0], m, m0); return false; }
        }
    }
    return true;
}
static void mass_account(Ctx& c) {
    Work w = draw_work(4);
    std::string wk = join(c.scratch, "wk");
    w.args["tsi"] = g17(w.dt * 0.5); w.args["cpi"] = g17(w.dt * (0.5 + 0.7 * choose(W, 4))); w.args["dfi"] = "1000";
    w.args.erase("density_floor");         // which makes mass, as its name says
    w.args["axisymmetric_cs2"] = "1";       // otherwise the boundary faces, which wrap around, see different sound speeds
    if (choose(W, 8) == 7) { w.args["depth"] = "3"; w.args["block_size"] = "4"; }     // blocks of different size
    if (choose(W, 2)) w.args["mach_number"] = "5";
    if (choose(W, 3) == 2) w.args["sink_rate"] = "10";
    if (choose(W, 3) == 2) w.args["sink_radius"] = "1.0";
    if (choose(W, 4) == 3) w.args["buffer_damping_rate"] = "1";
    double half = 12; if (choose(W, 4) == 3) { w.args["domain_radius"] = "4"; half = 4; }
    { double dt = 0.4 * 2 * half / atoi(w.args["block_size"].c_str()) / (1 << atoi(w.args["depth"].c_str())) / 2.2 / (2 * M_PI); if (dt < w.dt) { for (const char* k : {"tfinal", "tsi", "cpi"}) w.args[k] = g17(atof(w.args[k].c_str()) * dt / w.dt); w.dt = dt; } }
    if (choose(W, 4) == 3) w.args["counter_rotate"] = "1";
    if (choose(W, 4) == 3) w.args["ambient_density"] = "0.1";
    if (choose(W, 4) == 3) w.args["cfl_number"] = choose(W, 2) ? "1.5" : "0.8";
    Spec s; s.dir = wk; s.name = w.name; s.args = w.args; s.random_schedule = true;
    int faults = (int)choose(F, 4);     // 0 none, 1 kill and restart, 2 a step fails, 3 both
    if (faults & 2) s.alloc_fail = (int64_t)choose(F, 1ull << (13 + choose(F, 7)));
    if (faults & 1) s.io.crash_at = 50 + (int64_t)choose(F, 600);
    Outcome o = run_app(c, s); if (!sane(c, o, "a run")) return;
    auto rest = at_rest(o.filelog);
    Dump D = dump(c, wk); double worst = 0; Dump R; for (auto& f : rest) if (D.files.count(f)) R.files[f] = D.files[f];
    if (o.out.find("bad_alloc") != std::string::npos || o.out.find("negative density") != std::string::npos) count("failed_steps");
    if (!mass_balance(c, R, &worst)) return;
    std::string from = newest(rest);
    if (!ok(o) && !from.empty()) {
        Spec t; t.dir = wk; t.name = w.name; t.args = {{"restart", from}}; t.random_schedule = true; if (choose(F, 2)) t.alloc_fail = (int64_t)choose(F, 1ull << (13 + choose(F, 7)));
        Outcome o2 = run_app(c, t); if (!sane(c, o2, "a restarted run")) return; count("restarts");
        Dump E = dump(c, wk); auto r2 = at_rest(o2.filelog); for (auto& f : r2) rest.insert(f); for (auto& f : in_flight(o2.filelog)) rest.erase(f);
        Dump Q; for (auto& f : rest) if (E.files.count(f)) Q.files[f] = E.files[f];
        if (!mass_balance(c, Q, &worst)) return;
        R = Q;
    }
    size_t n = 0; for (auto& f : R.files) n = std::max(n, column(f.second, "/time_series", "disk_mass").size());
    if (n < 2) c.trivial = true;
    c.note("largest relative imbalance %.3g over %zu samples", worst, n); if (getenv("SIM_SHOW")) fprintf(stderr, "imbalance %.3g %zu\n", worst, n);
}
static Register r9("app_mass", mass_account);

// ------------------------------------------------------------------ E02: a step that fails is repeated as a whole
// Which step an exception hit, by counting the step messages before it on standard output; -1 if none did
static int failed_step(const std::string& out, const char* what) {
    size_t p = 0; int n = 0;
    while (p < out.size()) { size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size(); std::string l = out.substr(p, e - p); if (l.find(what) != std::string::npos) return n; if (l.size() > 6 && l[0] == '[' && isdigit(l[1])) ++n; p = e + 1; }
    return -1;
}
// Most of the memory a step asks for is asked for by its tasks; if memory runs out once, at points spread
// over the steps, some of these failures must be handled by repeating the step.
static void failures_are_handled(Ctx& c, Work& w) {
    w.args["tsi"] = w.args["cpi"] = w.args["dfi"] = "1000";     // outputs at the start only
    w.args["fixed_dt"] = "0"; w.steps = 3; w.args["tfinal"] = g17(w.dt * 2.5);
    if (choose(W, 2)) w.args["threaded"] = std::to_string(1 + choose(W, 4));
    Outcome r0; Dump D0; if (!reference(c, w, join(c.scratch, "ref"), r0, D0)) return;
    Work z = w; z.args["tfinal"] = "0"; Outcome r1; Dump D1; if (!reference(c, z, join(c.scratch, "start"), r1, D1)) return;
    if (count_lines(r0.out, "orbits=") < 2 || r0.allocs < r1.allocs + 200) { c.trivial = true; return; }
    int handled = 0, hit = 0; const int N = 14;
    for (int t = 0; t < N && !handled; ++t) {
        Spec s; s.dir = join(c.scratch, strf("wk%d", t)); s.name = w.name; s.args = w.args; s.random_schedule = choose(F, 2);
        s.alloc_fail = (int64_t)(r1.allocs + choose(F, r0.allocs - r1.allocs));
        Outcome o = run_app(c, s); if (!sane(c, o, "a run in which memory runs out")) return;
        if (failed_step(o.out, "bad_alloc") >= 0) { if (ok(o)) ++handled; ++hit; continue; }
        if (loud(o)) ++hit;
    }
    count("handled_probe"); count("handled_probe_failures", hit);
    if (hit == N && !handled) c.fail("a step that fails is not repeated: memory ran out once at %d points of the steps, and each time the run ended", hit);
    if (!hit) c.trivial = true;
}
static void failed_steps(Ctx& c) {
    Work w = draw_work(4);
    if (c.parami("small", 0)) { w.args["tfinal"] = g17(w.dt * 2.5); w.args["depth"] = "1"; w.args["block_size"] = "4"; }
    if (choose(W, 12) == 11) { failures_are_handled(c, w); return; }
    w.args["tsi"] = g17(w.dt * 0.5); w.args["cpi"] = g17(w.dt * (0.5 + 0.7 * choose(W, 4)));
    std::string ref = join(c.scratch, "ref");
    Outcome r0; Dump D0; if (!reference(c, w, ref, r0, D0)) return;
    const char* what = "bad_alloc";
    // two runs in which memory runs out once, at different moments of the same step and under different
    // schedules, must go on alike: nothing of the failed attempt may remain
    std::map<int, std::pair<Dump, std::string>> seen; int pairs = 0;
    int64_t base = -1;
    for (int t = 0; t < 5 && pairs < 1; ++t) {
        Spec s; s.dir = join(c.scratch, strf("wk%d", t)); s.name = w.name; s.args = w.args; s.random_schedule = t & 1;
        if (choose(W, 2)) s.args["threaded"] = std::to_string(1 + choose(W, 4));
        if (base < 0) base = s.alloc_fail = (int64_t)choose(F, r0.allocs); else s.alloc_fail = std::max<int64_t>(0, base + (int64_t)choose(F, 2 * (r0.allocs / (w.steps + 2) / 3) + 1) - (int64_t)(r0.allocs / (w.steps + 2) / 3));
        Outcome o = run_app(c, s); if (!sane(c, o, "a run in which memory runs out")) return;
        int k = failed_step(o.out, what), n = count_lines(o.out, what);
        if (n > 1) { c.fail("one failure is reported %d times", n); return; }
        Dump D = dump(c, s.dir);
        if (loud(o)) {
            count("memory_failure_outside_a_step");
            // a visible failure: completed outputs before it are those of the undisturbed run
            if (k < 0) for (auto& f : at_rest(o.filelog)) { auto i = D.files.find(f), j = D0.files.find(f); if (i == D.files.end() || j == D0.files.end()) continue; if (i->second.count("/solution") || is_kind(f, "diagnostics")) { std::string d = differ(j->second, i->second, {"/run_config/threaded", "/run_config/restart"}); if (!d.empty() && in_flight(o.filelog).empty() && o.out.find(f) != std::string::npos) { c.fail("announced output is wrong after memory ran out: %s %s", f.c_str(), d.c_str()); return; } } }
            if (t == 0) base = -1;
            continue;
        }
        if (k < 0) {        // nobody noticed: then nothing may have changed
            if (!same_outputs(c, D0, D, {"/run_config/threaded"}, "memory ran out unnoticed and the outputs differ")) return;
            if (t == 0) base = -1;
            continue;
        }
        count("retried_steps");
        auto it = seen.find(k);
        if (it == seen.end()) { seen[k] = {D, s.dir}; base = s.alloc_fail; continue; }
        ++pairs; count("pairs_compared");
        if (!same_outputs(c, it->second.first, D, {"/run_config/threaded"}, "a failed step leaves traces: outputs depend on where in the step it failed")) return;
        // the repeated step is a shorter one: time still advances, by less than the step that failed
    }
    if (!pairs) c.trivial = true;
}
static Register r10("app_failed_steps", failed_steps);

// ------------------------------------------------------------------ E04: memory or threads run out anywhere
static void exhaustion(Ctx& c) {
    Work w = draw_work(63);
    std::string ref = join(c.scratch, "ref"), wk = join(c.scratch, "wk");
    Outcome r0; Dump D0; if (!reference(c, w, ref, r0, D0)) return;
    auto ign = start_items(w);
    Spec s; s.dir = wk; s.name = w.name; s.args = w.args; s.random_schedule = choose(F, 2);
    if (w.name == "binary") { if (choose(W, 2)) s.args["threaded"] = std::to_string(1 + choose(W, 5)); ign.insert("/run_config/threaded"); }
    // the run itself, or a restart of it, runs out of what it needs
    std::string from; std::set<std::string> had;
    if (w.restartable && choose(W, 3) == 2) {
        std::vector<std::string> ck; for (auto& f : D0.files) if (is_kind(f.first, "chkpt")) ck.push_back(f.first);
        if (ck.size()) { from = ck[choose(F, ck.size())]; copy_tree(ref, wk); s.args = {{"restart", from}}; for (auto& f : D0.files) had.insert(f.first); count("restarts"); }
    }
    static const int64_t len[] = {1, 1, 2, 5, -1};
    if (r0.creates && choose(F, 4) == 3) { s.create_fail = (int64_t)choose(F, r0.creates); s.create_count = len[choose(F, 5)]; c.note("thread creation fails from number %ld on", (long)s.create_fail); }
    else { s.alloc_fail = (int64_t)choose(F, choose(F, 3) == 2 ? 20000 : r0.allocs); s.alloc_count = len[choose(F, 5)]; c.note("memory runs out at request %ld", (long)s.alloc_fail); }
    Outcome o = run_app(c, s); if (!sane(c, o, "a run in which memory or threads run out")) return;
    Dump D = dump(c, wk);
    if (!o.io.injected) c.trivial = true;
    bool again = failed_step(o.out, "bad_alloc") >= 0 || failed_step(o.out, "temporarily unavailable") >= 0;      // a time step was repeated: it was a shorter one
    if (again) count("repeated_steps");
    auto early = again ? o.filelog : before_fault(o.filelog); auto rest = at_rest(early); std::set<std::string> touched; for (auto& f : in_flight(early)) touched.insert(f); if (!again) for (auto& f : opened(o.filelog.substr(early.size()))) touched.insert(f);
    if (ok(o)) {
        if (!in_flight(o.filelog).empty()) { c.fail("output left open: %s is still open for writing when the run ends", in_flight(o.filelog).begin()->c_str()); return; }
        if (!D.unreadable.empty()) { c.fail("success reported with a damaged output: %s cannot be read", D.unreadable.begin()->c_str()); return; }
        if (again) {        // what it computed depends on where it failed (E02); nothing may be missing
            for (const char* kd : {"chkpt", "diagnostics"}) { std::set<int> n; for (auto& f : D.all()) if (is_kind(f, kd)) n.insert(number_of(f)); int e = 0; for (int x : n) if (x != e++) { c.fail("output numbers are not consecutive: %s number %d is missing", kd, e - 1); return; } }
            return;
        }
        if (from.empty()) { same_outputs(c, D0, D, ign, "memory or threads ran out, success is reported and the outputs differ"); return; }
        for (auto& x : D0.files) { auto i = D.files.find(x.first); if (i == D.files.end()) { c.fail("success reported with a missing output: %s", x.first.c_str()); return; } std::string d = is_series(x.first) ? differ_rows(x.second, i->second, ign, true, false) : differ(x.second, i->second, ign); if (!d.empty()) { c.fail("success reported with a wrong output: %s %s", x.first.c_str(), d.c_str()); return; } }
        return;
    }
    if (!o.io.injected) { if (beyond(o, from, D0)) { c.trivial = true; return; } c.fail("run fails: %s", show(o).c_str()); return; }
    count("visible_failures");
    for (auto& f : had) if (!opened(o.filelog).count(f)) rest.insert(f);
    for (auto& f : rest) {
        if (touched.count(f)) continue;
        if (D.unreadable.count(f)) { c.fail("completed output damaged when memory or threads ran out: %s cannot be read", f.c_str()); return; }
        auto i = D.files.find(f), j = D0.files.find(f); if (i == D.files.end()) { c.fail("completed output lost when memory or threads ran out: %s", f.c_str()); return; }
        if (again || j == D0.files.end()) continue;
        std::string d = is_series(f) ? differ_rows(j->second, i->second, ign, true, true) : differ(j->second, i->second, ign); if (!d.empty()) { c.fail("completed output damaged when memory or threads ran out: %s %s", f.c_str(), d.c_str()); return; }
    }
    // and it can be taken up again
    bool torn = false; for (auto& f : touched) if (is_series(f)) torn = true;
    std::string next; { std::set<std::string> u; for (auto& f : rest) if (!touched.count(f)) u.insert(f); if (from.empty()) next = newest(u); else next = u.count(from) ? from : ""; }
    if (!w.restartable || (w.name == "sedov" && torn)) next.clear();
    Spec t; t.dir = wk; t.name = w.name; t.args = w.args; if (!next.empty()) t.args = {{"restart", next}};
    Outcome o2 = run_app(c, t); if (!sane(c, o2, "a run that is taken up again")) return;
    if (loud(o2) && (beyond(o2, next, D0) || (again && o2.err.find("negative density") != std::string::npos))) { c.trivial = true; count("unphysical_configuration"); return; }
    if (!ok(o2)) { c.fail("the run cannot be taken up after memory or threads ran out: %s", show(o2).c_str()); return; }
    count(next.empty() ? "recovered_from_scratch" : "recovered_from_checkpoint");
    if (again && !next.empty()) return;
    Dump D2 = dump(c, wk);
    for (auto& x : D0.files) {
        auto i = D2.files.find(x.first); if (i == D2.files.end()) { c.fail("output missing or unreadable in the run that was taken up: %s", x.first.c_str()); return; }
        std::string d = is_series(x.first) ? differ_rows(x.second, i->second, ign, true, false) : differ(x.second, i->second, ign); if (!d.empty()) { c.fail("output wrong in the run that was taken up: %s %s", x.first.c_str(), d.c_str()); return; }
    }
}
static Register r13("app_exhaustion", exhaustion);
}
