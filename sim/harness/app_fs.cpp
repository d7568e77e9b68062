// The file layer on its own: values written by one simulated process and read by another (D01),
// blocks of one array written by many processes (C11), directories created (D08) and removed (D09).
#include "app_common.hpp"
#include "rt.hpp"
#include <cmath>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include "core_hdf5.hpp"
#include "core_ndarray.hpp"
#include "core_tree.hpp"
#include "app_serialize.hpp"
#include "app_serialize_tree.hpp"
#include "app_filesystem.hpp"
#include "app_parallel.hpp"

namespace app { struct Record { double a; int b; double c[1]; int d; }; struct Rec { double x; int n; double y; unsigned long u; }; }
template<> struct h5::hdf5_type_info<app::Rec> {
    using native_type = app::Rec;
    static auto make_datatype_for(const native_type&) { return h5::Datatype::compound<native_type>({h5_compound_type_member(native_type, x), h5_compound_type_member(native_type, n), h5_compound_type_member(native_type, y), h5_compound_type_member(native_type, u)}); }
    static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
    static auto convert_to_writable(const native_type& v) { return v; }
    static auto prepare(const Datatype&, const Dataspace&) { return native_type(); }
    static auto finalize(native_type&& v) { return std::move(v); }
    static auto get_address(const native_type& v) { return &v; }
    static auto get_address(native_type& v) { return &v; }
};

namespace app {
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return next() % n; } };
static void bytes(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }

// ------------------------------------------------------------------ values: made from (shape, seed), turned into bytes for comparison
static double some_double(Rng& r) {
    switch (r.below(8)) { case 0: return 0.0; case 1: return -0.0; case 2: return (double)(int)r.below(100) - 50; case 3: { double d; uint64_t b = r.next(); memcpy(&d, &b, 8); return d != d ? 1e-310 : d; } case 4: return INFINITY; case 5: return NAN; case 6: return 5e-324; default: return (double)r.next() / 1e15; }
}
static int some_int(Rng& r) { static const int v[] = {0, -1, 1, 2147483647, -2147483647 - 1}; return r.below(2) ? v[r.below(5)] : (int)r.next(); }
static std::string some_string(Rng& r, size_t n) { std::string s(n, 'a'); for (auto& c : s) c = (char)(r.below(4) ? 'a' + r.below(26) : 1 + r.below(255)); return s; }

template<class T> struct Val;
template<> struct Val<int> { static int make(Rng& r, Rng&) { return some_int(r); } static void canon(std::string& s, const int& v) { bytes(s, &v, sizeof v); } };
template<> struct Val<double> { static double make(Rng& r, Rng&) { return some_double(r); } static void canon(std::string& s, const double& v) { bytes(s, &v, sizeof v); } };
template<> struct Val<unsigned long> { static unsigned long make(Rng& r, Rng&) { return r.below(2) ? r.next() : r.below(9); } static void canon(std::string& s, const unsigned long& v) { bytes(s, &v, sizeof v); } };
template<> struct Val<char> { static char make(Rng& r, Rng&) { return (char)r.below(256); } static void canon(std::string& s, const char& v) { bytes(s, &v, 1); } };
template<> struct Val<std::string> { static std::string make(Rng& r, Rng& sh) { static const size_t n[] = {0, 1, 2, 15, 16, 40, 300, 5000}; return some_string(r, sh.below(24) == 23 ? 65535 + sh.below(5000) : n[sh.below(8)]); } static void canon(std::string& s, const std::string& v) { size_t n = v.size(); bytes(s, &n, 8); s += v; } };
template<> struct Val<Rec> { static Rec make(Rng& r, Rng&) { Rec q; memset(&q, 0, sizeof q); q.x = some_double(r); q.n = some_int(r); q.y = some_double(r); q.u = r.next(); return q; } static void canon(std::string& s, const Rec& v) { bytes(s, &v.x, 8); bytes(s, &v.n, 4); bytes(s, &v.y, 8); bytes(s, &v.u, 8); } };
template<> struct Val<mara::rational_number_t> { static mara::rational_number_t make(Rng& r, Rng&) { return mara::rational_number_t((int)r.below(2000) - 1000, 1 + (int)r.below(50)); } static void canon(std::string& s, const mara::rational_number_t& v) { bytes(s, &v, sizeof v); } };
template<class T> struct Val<std::vector<T>> {
    static std::vector<T> make(Rng& r, Rng& sh) { size_t n = sh.below(3) ? sh.below(9) : sh.below(10) ? sh.below(2000) : sh.below(20000); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(Val<T>::make(r, sh)); return v; }
    static void canon(std::string& s, const std::vector<T>& v) { size_t n = v.size(); bytes(s, &n, 8); for (auto& x : v) Val<T>::canon(s, x); } };
template<class T> struct Val<mara::linked_list_t<T>> {
    static mara::linked_list_t<T> make(Rng& r, Rng& sh) { auto v = Val<std::vector<T>>::make(r, sh); return mara::linked_list_t<T>(v.begin(), v.end()); }
    static void canon(std::string& s, const mara::linked_list_t<T>& v) { std::vector<T> w(v.begin(), v.end()); Val<std::vector<T>>::canon(s, w); } };
template<class T, std::size_t N> struct Val<mara::arithmetic_sequence_t<T, N>> {
    static auto make(Rng& r, Rng& sh) { mara::arithmetic_sequence_t<T, N> q; for (size_t i = 0; i < N; ++i) q[i] = Val<T>::make(r, sh); return q; }
    static void canon(std::string& s, const mara::arithmetic_sequence_t<T, N>& v) { for (size_t i = 0; i < N; ++i) Val<T>::canon(s, v[i]); } };
template<int C, int G, int S_, class T> struct Val<mara::dimensional_value_t<C, G, S_, T>> {
    using D = mara::dimensional_value_t<C, G, S_, T>;
    static D make(Rng& r, Rng& sh) { D d; d.value = Val<T>::make(r, sh); return d; }
    static void canon(std::string& s, const D& v) { Val<T>::canon(s, v.value); } };
template<class T, std::size_t R> struct Val<nd::shared_array<T, R>> {
    static auto make(Rng& r, Rng& sh) { nd::shape_t<R> shape; for (size_t i = 0; i < R; ++i) shape[i] = sh.below(6) ? 1 + sh.below(R == 1 ? 40 : 7) : sh.below(4) ? 0 : R == 1 ? 300 + sh.below(20000) : 60 + sh.below(60); auto u = nd::make_unique_array<T>(shape); for (size_t i = 0; i < u.size(); ++i) u.data()[i] = Val<T>::make(r, sh); return std::move(u).shared(); }
    static void canon(std::string& s, const nd::shared_array<T, R>& v) { for (size_t i = 0; i < R; ++i) { size_t n = v.shape(i); bytes(s, &n, 8); } for (size_t i = 0; i < v.size(); ++i) Val<T>::canon(s, v.data()[i]); } };
template<> struct Val<mara::config_t> {
    static mara::config_t make(Rng& r, Rng& sh) { mara::config_parameter_map_t m; int n = 1 + (int)sh.below(7); for (int i = 0; i < n; ++i) { std::string k = strf("%c%d_key", 'a' + (int)sh.below(26), i); int t = (int)sh.below(3); if (t == 0) m[k] = some_int(r); else if (t == 1) m[k] = some_double(r); else { size_t l = sh.below(3) * sh.below(12); m[k] = some_string(r, l); } } return mara::config_t(m, m); }
    static void canon(std::string& s, const mara::config_t& v) { for (auto& i : v) { Val<std::string>::canon(s, i.first); size_t k = i.second.index(); bytes(s, &k, 8); if (k == 0) Val<int>::canon(s, std::get<0>(i.second)); else if (k == 1) Val<double>::canon(s, std::get<1>(i.second)); else Val<std::string>::canon(s, std::get<2>(i.second)); } } };
template<> struct Val<mara::schedule_t> {
    static mara::schedule_t make(Rng& r, Rng& sh) { mara::schedule_t m; int n = 1 + (int)sh.below(5); for (int i = 0; i < n; ++i) { mara::schedule_t::task_t t; t.name = strf("task_%c_%d", 'a' + (int)sh.below(26), i); t.num_times_performed = some_int(r); t.last_performed = some_double(r); m.insert(t); } return m; }
    static void canon(std::string& s, const mara::schedule_t& v) { for (auto& i : v) { Val<std::string>::canon(s, i.first); Val<std::string>::canon(s, i.second.name); Val<int>::canon(s, i.second.num_times_performed); Val<double>::canon(s, i.second.last_performed); } } };
template<class T, std::size_t R> struct Val<mara::arithmetic_binary_tree_t<T, R>> {
    using Tree = mara::arithmetic_binary_tree_t<T, R>;
    static Tree make(Rng& r, Rng& sh) {
        Tree t = mara::tree_of<R>(Val<T>::make(r, sh)); int leaves = 1, rounds = (int)sh.below(sh.below(4) ? 4 : 14); bool chain = rounds > 3;
        for (int k = 0; k < rounds; ++k) { bool one = false; t = t.bifurcate_if([&] (const T&) { if (leaves > 60 || (chain && one) || (!chain && sh.below(2))) return false; if (chain && sh.below(3) == 0 && leaves > 1) return false; one = true; return true; }, [&] (const T&) { leaves += (1 << R) - 1; return mara::iota<1 << R>().map([&] (auto) { return Val<T>::make(r, sh); }); }); }
        return t;
    }
    static void canon(std::string& s, const Tree& v) { v.indexes().pair(v).sink([&] (auto&& iv) { auto [index, value] = iv; uint64_t l = index.level; bytes(s, &l, 8); for (size_t i = 0; i < R; ++i) { uint64_t c = index.coordinates[i]; bytes(s, &c, 8); } Val<T>::canon(s, value); }); } };

using DArr1 = nd::shared_array<double, 1>; using DArr2 = nd::shared_array<double, 2>; using DArr3 = nd::shared_array<double, 3>;
using Cons = mara::arithmetic_sequence_t<mara::dimensional_value_t<-2, 1, 0, double>, 3>;
template<class T> struct Tag { using type = T; };
static const int NKIND = 30;
template<class F> void dispatch(int k, F&& f) {
    switch (k) {
    case 0: return f(Tag<int>{}); case 1: return f(Tag<double>{}); case 2: return f(Tag<unsigned long>{}); case 3: return f(Tag<char>{}); case 4: return f(Tag<std::string>{});
    case 5: return f(Tag<std::vector<int>>{}); case 6: return f(Tag<std::vector<double>>{}); case 7: return f(Tag<std::vector<unsigned long>>{}); case 8: return f(Tag<DArr1>{}); case 9: return f(Tag<DArr2>{}); case 10: return f(Tag<DArr3>{});
    case 11: return f(Tag<nd::shared_array<int, 2>>{}); case 12: return f(Tag<mara::linked_list_t<double>>{}); case 13: return f(Tag<mara::rational_number_t>{}); case 14: return f(Tag<mara::dimensional_value_t<0, 1, 0, double>>{}); case 15: return f(Tag<mara::arithmetic_sequence_t<double, 3>>{});
    case 16: return f(Tag<nd::shared_array<Cons, 2>>{}); case 17: return f(Tag<mara::config_t>{}); case 18: return f(Tag<mara::schedule_t>{}); case 19: return f(Tag<mara::arithmetic_binary_tree_t<double, 1>>{}); case 20: return f(Tag<mara::arithmetic_binary_tree_t<double, 2>>{}); case 21: return f(Tag<mara::arithmetic_binary_tree_t<double, 3>>{});
    case 22: return f(Tag<mara::arithmetic_binary_tree_t<DArr2, 2>>{}); case 23: return f(Tag<Rec>{}); case 24: return f(Tag<std::vector<Rec>>{}); case 25: return f(Tag<mara::linked_list_t<Rec>>{}); case 26: return f(Tag<mara::arithmetic_sequence_t<int, 2>>{}); case 27: return f(Tag<mara::arithmetic_binary_tree_t<nd::shared_array<Cons, 2>, 2>>{});
    case 28: return f(Tag<nd::shared_array<mara::dimensional_value_t<1, 0, 0, double>, 3>>{}); default: return f(Tag<nd::shared_array<unsigned long, 1>>{});
    }
}
static bool is_group_kind(int k) { return k == 17 || k == 18 || (k >= 19 && k <= 22) || k == 27; }
// element type and dimensions as HDF5 sees them, to predict which overwrites are the same kind
static std::string elem(int k, size_t strlen_) { switch (k) { case 0: case 5: case 11: return "i"; case 1: case 6: case 8: case 9: case 10: case 12: case 14: case 28: return "d"; case 2: case 7: case 29: return "u"; case 3: return "s1"; case 4: return strf("s%zu", std::max<size_t>(1, strlen_)); case 13: case 26: return "i[2]"; case 15: case 16: return "d[3]"; case 23: case 24: case 25: return "rec"; default: return "g"; } }
struct Item { int kind = 0; uint64_t shape = 0, seed = 0; std::string canon, dims, elem; };
static Item make_item(int kind, uint64_t shape, uint64_t seed) {
    Item it; it.kind = kind; it.shape = shape; it.seed = seed;
    dispatch(kind, [&] (auto tag) { using T = typename decltype(tag)::type; Rng r{seed}, sh{shape}; T v = Val<T>::make(r, sh); Val<T>::canon(it.canon, v); });
    size_t n = 0; if (it.canon.size() >= 8) memcpy(&n, it.canon.data(), 8);
    it.elem = elem(kind, n);
    int rank = kind == 5 || kind == 6 || kind == 7 || kind == 8 || kind == 12 || kind == 24 || kind == 25 || kind == 29 ? 1 : kind == 9 || kind == 11 || kind == 16 ? 2 : kind == 10 || kind == 28 ? 3 : 0;
    for (int i = 0; i < rank; ++i) { size_t d; memcpy(&d, &it.canon[8 * i], 8); it.dims += strf("%zu,", d); }
    return it;
}
template<class T> void read_any(h5::Group& g, const std::string& name, T& v) { mara::read(g, name, v); }
static void read_any(h5::Group& g, const std::string& name, mara::config_t& v) { auto m = mara::read_config(g.open_group(name)); v = mara::config_t(m, m); }
static std::string read_canon(h5::Group& g, const std::string& name, int kind) { std::string s; dispatch(kind, [&] (auto tag) { using T = typename decltype(tag)::type; T v; read_any(g, name, v); Val<T>::canon(s, v); }); return s; }
static void write_value(h5::Group& g, const std::string& name, int kind, uint64_t shape, uint64_t seed) { dispatch(kind, [&] (auto tag) { using T = typename decltype(tag)::type; Rng r{seed}, sh{shape}; T v = Val<T>::make(r, sh); mara::write(g, name, v); }); }

// ------------------------------------------------------------------ D01
struct Op { int what = 0; std::string group, name; int kind = 0; uint64_t shape = 0, seed = 0; std::vector<size_t> start, fin, jumps, ext; };
// whole dataset of doubles with given extent and part-wise writes: model
struct Slab { std::vector<size_t> ext; std::vector<double> v; bool unlimited = false; };
static size_t prod(const std::vector<size_t>& e) { size_t n = 1; for (auto x : e) n *= x; return n; }
template<std::size_t R> nd::access_pattern_t<R> pattern(const Op& o) { nd::access_pattern_t<R> p; for (size_t i = 0; i < R; ++i) { p.start[i] = o.start[i]; p.final[i] = o.fin[i]; p.jumps[i] = o.jumps[i]; } return p; }
// the positions (row major) a pattern names, by the definition of a strided range
static std::vector<size_t> positions(const Op& o, const std::vector<size_t>& ext) {
    std::vector<size_t> r; size_t R = ext.size(); std::vector<size_t> i = o.start; for (size_t a = 0; a < R; ++a) if (o.start[a] >= o.fin[a]) return r;
    for (;;) { size_t p = 0; for (size_t a = 0; a < R; ++a) p = p * ext[a] + i[a]; r.push_back(p); int a = (int)R - 1; for (; a >= 0; --a) { i[a] += o.jumps[a]; if (i[a] < o.fin[a]) break; i[a] = o.start[a]; } if (a < 0) break; }
    return r;
}
static std::vector<double> slab_values(uint64_t seed, size_t n) { Rng r{seed}; std::vector<double> v(n); for (auto& x : v) x = some_double(r); return v; }
template<std::size_t R> void slab_write(h5::Group& g, const Op& o, bool unlimited) {
    auto ds = g.open_dataset(o.name);
    if (!o.ext.empty()) { std::vector<hsize_t> e(o.ext.begin(), o.ext.end()); ds.set_extent(e); }
    auto p = pattern<R>(o); auto shape = p.shape(); auto u = nd::make_unique_array<double>(shape); auto v = slab_values(o.seed, u.size()); std::copy(v.begin(), v.end(), u.data());
    auto fs = ds.get_space(); ds.write(std::move(u).shared(), fs.select(mara::make_hdf5_hyperslab(p)));
    (void)unlimited;
}
template<std::size_t R> std::vector<double> slab_read(h5::Group& g, const Op& o) {
    auto ds = g.open_dataset(o.name); auto p = pattern<R>(o); auto fs = ds.get_space(); fs.select(mara::make_hdf5_hyperslab(p));
    std::vector<double> v(fs.selection_size()); if (v.size() != p.size()) violation("selection of an array has the wrong size: %zu instead of %zu", v.size(), (size_t)p.size());
    auto whole = ds.read<nd::shared_array<double, R>>(); std::vector<size_t> ext; for (size_t i = 0; i < R; ++i) ext.push_back(whole.shape(i));
    auto pos = positions(o, ext); v.clear(); for (auto q : pos) v.push_back(whole.data()[q]);
    return v;
}
static const char* base_groups[] = {"", "a", "a/b", "zeta", "a/b/c"};
static h5::Group open_g(h5::File& f, const std::string& path, bool create) { h5::Group g = f.open_group("/"); size_t p = 0; while (p < path.size()) { size_t e = path.find('/', p); if (e == std::string::npos) e = path.size(); std::string n = path.substr(p, e - p); if (create) { if (p & 1) g = g.require_group(n); else g = g[n]; } else g = g.open_group(n); p = e + 1; } return g; }

static void round_trip(Ctx& c) {
    std::string dir = join(c.scratch, "d"); make_dir(dir);
    std::map<std::string, Item> items; std::map<std::string, Slab> slabs; std::set<std::string> groups{""}; uint64_t next = 0;
    auto full = [] (const std::string& g, const std::string& n) { return join(g, n); };
    auto add_groups = [&] (const std::string& g) { size_t p = 0; while (p != std::string::npos && !g.empty()) { p = g.find('/', p ? p + 1 : 0); groups.insert(g.substr(0, p)); if (p == std::string::npos) break; } };
    int procs = 1 + (int)choose(W, 3); bool noise = choose(F, 4) != 0;
    for (int pr = 0; pr < procs; ++pr) {
        std::vector<Op> ops; std::map<std::string, Item> before = items; std::map<std::string, Slab> sbefore = slabs;
        struct Exp { bool refuse = false; std::string canon; std::vector<double> read; bool cmp = false; }; std::vector<Exp> exp;
        int n = 1 + (int)choose(W, 10);
        for (int i = 0; i < n; ++i) {
            Op o; Exp e; o.group = base_groups[choose(W, 5)]; int w = (int)choose(W, 8);
            std::vector<std::string> have; for (auto& x : items) have.push_back(x.first); std::vector<std::string> sl; for (auto& x : slabs) sl.push_back(x.first);
            auto split = [&] (const std::string& p) { size_t q = p.rfind('/'); o.group = q == std::string::npos ? "" : p.substr(0, q); o.name = q == std::string::npos ? p : p.substr(q + 1); };
            if (w <= 2 || (w <= 5 && have.empty()) || (w >= 6 && sl.empty() && i + 1 < n && choose(W, 2))) { o.what = 0; static const char* nm[] = {"x", "value", "with space", "0:1-2", "\xc3\xa9t\xc3\xa9", "n.5"}; o.name = strf("%s%lu", nm[choose(W, 6)], (unsigned long)next++); if (choose(W, 6) == 5) o.name += std::string(40 + choose(W, 300), 'n'); o.kind = (int)choose(W, NKIND); o.shape = choose(W, 1 << 20); o.seed = choose(W, 1 << 20); Item it = make_item(o.kind, o.shape, o.seed); items[full(o.group, o.name)] = it; add_groups(o.group); }
            else if (w == 3) { o.what = 1; split(have[choose(W, have.size())]); Item& old = items[full(o.group, o.name)]; o.kind = old.kind; o.shape = old.shape; o.seed = choose(W, 1 << 20); old = make_item(o.kind, o.shape, o.seed); }
            else if (w == 4) {      // another kind or shape over an existing value
                o.what = 1; split(have[choose(W, have.size())]); Item& old = items[full(o.group, o.name)]; o.kind = (int)choose(W, NKIND); o.shape = choose(W, 1 << 20); o.seed = choose(W, 1 << 20);
                Item it = make_item(o.kind, o.shape, o.seed);
                if (is_group_kind(o.kind) || is_group_kind(old.kind)) { if (is_group_kind(o.kind) && is_group_kind(old.kind)) continue; e.refuse = true; }
                else if (it.elem == old.elem && it.dims == old.dims) old = it; else e.refuse = true;
            }
            else if (w == 5) { // reading, also as something else
                o.what = 2; split(have[choose(W, have.size())]); Item& old = items[full(o.group, o.name)]; o.kind = old.kind; e.canon = old.canon;
                if (choose(W, 3) == 2) { int k = (int)choose(W, NKIND); if (!is_group_kind(k) && !is_group_kind(old.kind) && k != 4 && elem(k, 0) != old.elem) { o.kind = k; e.refuse = true; } else if (is_group_kind(k) != is_group_kind(old.kind) && k != 4) { o.kind = k; e.refuse = true; } }
                if (choose(W, 8) == 7) { o.name += "_missing"; e.refuse = true; }
            }
            else if (w == 6 || sl.empty()) {      // a dataset to be filled part by part
                o.what = 3; o.name = strf("slab%lu", (unsigned long)next++); size_t R = 1 + choose(W, 3); Slab s; s.unlimited = choose(W, 3) == 2; for (size_t a = 0; a < R; ++a) s.ext.push_back(1 + choose(W, R == 1 ? 60 : 9)); s.v.assign(prod(s.ext), 0.0); o.ext = s.ext; o.kind = s.unlimited; slabs[full(o.group, o.name)] = s; add_groups(o.group); }
            else {
                split(sl[choose(W, sl.size())]); Slab& s = slabs[full(o.group, o.name)]; o.what = choose(W, 3) == 2 ? 5 : 4; o.kind = s.unlimited; o.seed = choose(W, 1 << 20);
                if (o.what == 4 && s.unlimited && choose(W, 2)) { auto e2 = s.ext; for (auto& x : e2) x = std::max<size_t>(1, x + choose(W, 6) - choose(W, 2)); Slab t; t.ext = e2; t.unlimited = true; t.v.assign(prod(e2), 0.0); size_t R = e2.size(); for (size_t q = 0; q < t.v.size(); ++q) { size_t rem = q, src = 0; bool in = true; std::vector<size_t> ix(R); for (int a = (int)R - 1; a >= 0; --a) { ix[a] = rem % e2[a]; rem /= e2[a]; } for (size_t a = 0; a < R; ++a) { if (ix[a] >= s.ext[a]) in = false; src = src * s.ext[a] + ix[a]; } if (in) t.v[q] = s.v[src]; } s = t; o.ext = e2; }
                for (size_t a = 0; a < s.ext.size(); ++a) { size_t b = choose(W, s.ext[a]); o.start.push_back(b); o.fin.push_back(b + 1 + choose(W, s.ext[a] - b)); o.jumps.push_back(1 + (choose(W, 3) == 2 ? choose(W, 4) : 0)); }
                auto pos = positions(o, s.ext);
                if (o.what == 4) { auto v = slab_values(o.seed, pos.size()); for (size_t q = 0; q < pos.size(); ++q) s.v[pos[q]] = v[q]; } else { for (auto q : pos) e.read.push_back(s.v[q]); e.cmp = true; }
            }
            ops.push_back(o); exp.push_back(e);
            if (e.refuse) count("refusals_expected");
        }
        uint32_t sn = noise ? 8 + (uint32_t)choose(F, 120) : 0, en = noise ? (uint32_t)choose(F, 100) : 0; bool hold = choose(W, 2);
        Outcome o = c.segment([&] {
            enter_jail(dir); activate(SchedConfig()); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
            IoPlan ip; ip.short_num = sn; ip.eintr_num = en; io_start(ip);
            try {
            h5::File f = pr ? h5::File("f.h5", "r+") : h5::File("f.h5", "w"); std::map<std::string, h5::Group> held;
            for (size_t i = 0; i < ops.size(); ++i) {
                const Op& q = ops[i]; bool threw = false; std::string why;
                h5::Group fresh; h5::Group* g = &fresh; bool wr = q.what != 2 && q.what != 5;
                if (hold) { auto h = held.find(q.group); if (h == held.end()) h = held.emplace(q.group, open_g(f, q.group, wr)).first; g = &h->second; } else fresh = open_g(f, q.group, wr);
                try {
                    if (q.what <= 1) write_value(*g, q.name, q.kind, q.shape, q.seed);
                    else if (q.what == 2) { std::string s = read_canon(*g, q.name, q.kind); if (!exp[i].refuse && s != exp[i].canon) violation("value read in the process that wrote it is not the one written: %s (kind %d)", full(q.group, q.name).c_str(), q.kind); }
                    else if (q.what == 3) {
                        if (q.kind) { std::vector<hsize_t> d(q.ext.begin(), q.ext.end()), m(d.size(), H5S_UNLIMITED); g->require_dataset(q.name, h5::Datatype::native_double(), h5::Dataspace::simple(d, m), h5::PropertyList::dataset_create().set_chunk(std::vector<hsize_t>(d.size(), 4))); }
                        else g->require_dataset(q.name, h5::Datatype::native_double(), h5::Dataspace::simple(q.ext));
                    }
                    else if (q.what == 4) { if (q.start.size() == 1) slab_write<1>(*g, q, q.kind); else if (q.start.size() == 2) slab_write<2>(*g, q, q.kind); else slab_write<3>(*g, q, q.kind); }
                    else { auto v = q.start.size() == 1 ? slab_read<1>(*g, q) : q.start.size() == 2 ? slab_read<2>(*g, q) : slab_read<3>(*g, q); if (v.size() != exp[i].read.size() || memcmp(v.data(), exp[i].read.data(), v.size() * 8)) violation("part of an array read in the process that wrote it is not what was written: %s", full(q.group, q.name).c_str()); }
                } catch (const std::exception& e) { threw = true; why = e.what(); }
                if (threw && !exp[i].refuse) violation("a valid access to a file fails: %s (operation %d, kind %d): %s", full(q.group, q.name).c_str(), q.what, q.kind, why.c_str());
                if (!threw && exp[i].refuse) violation("a value of another kind is accepted or a missing one found: %s (operation %d, kind %d)", full(q.group, q.name).c_str(), q.what, q.kind);
            }
            for (auto& h : held) h.second.close();
            f.close();
            } catch (const std::exception& e) { violation("a valid access to a file fails: %s", e.what()); }
            finish_ok();
        });
        c.note("process %d: %zu operations -> %s", pr, ops.size(), o.kind == Outcome::OK ? "done" : o.msg.c_str());
        if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("program crashed: signal %d while writing or reading values", o.code); else c.fail("%s", o.msg.c_str()); return; }
        if (o.io.injected || (noise && (sn || en))) count("noisy_processes");
    }
    // a later process
    uint32_t sn = noise ? 8 + (uint32_t)choose(F, 120) : 0, en = noise ? (uint32_t)choose(F, 100) : 0;
    Outcome o = c.segment([&] {
        enter_jail(dir); activate(SchedConfig()); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        IoPlan ip; ip.short_num = sn; ip.eintr_num = en; io_start(ip);
        try {
            if (!h5::File::exists("f.h5")) violation("a file that was written is not recognised");
            h5::File f("f.h5", "r");
            if (f.intent() != h5::Intent::rdonly) violation("a file opened for reading is not read-only");
            for (auto& x : items) { size_t q = x.first.rfind('/'); std::string gn = q == std::string::npos ? "" : x.first.substr(0, q), n = q == std::string::npos ? x.first : x.first.substr(q + 1); h5::Group g = open_g(f, gn, false); std::string s = read_canon(g, n, x.second.kind); if (s != x.second.canon) violation("value read is not the one written: %s (kind %d, %zu bytes against %zu)", x.first.c_str(), x.second.kind, s.size(), x.second.canon.size()); }
            for (auto& x : slabs) { size_t q = x.first.rfind('/'); std::string gn = q == std::string::npos ? "" : x.first.substr(0, q), n = q == std::string::npos ? x.first : x.first.substr(q + 1); h5::Group g = open_g(f, gn, false); auto v = g.read<std::vector<double>>(n); auto ext = g.open_dataset(n).get_space().extent(); if (ext != x.second.ext) violation("array written in parts has another extent: %s", x.first.c_str()); if (v.size() != x.second.v.size()) violation("array written in parts has another size: %s", x.first.c_str()); for (size_t i = 0; i < v.size(); ++i) if (memcmp(&v[i], &x.second.v[i], 8)) violation("array written in parts is not what was written: %s element %zu: %.17g instead of %.17g", x.first.c_str(), i, v[i], x.second.v[i]); }
            for (auto& gn : groups) {
                std::set<std::string> want, got; auto kid = [&] (const std::string& p) { if (gn.empty()) { if (p.find('/') == std::string::npos) want.insert(p); } else if (p.compare(0, gn.size() + 1, gn + "/") == 0 && p.find('/', gn.size() + 1) == std::string::npos) want.insert(p.substr(gn.size() + 1)); };
                for (auto& x : items) kid(x.first); for (auto& x : slabs) kid(x.first); for (auto& x : groups) if (!x.empty()) kid(x);
                h5::Group g = open_g(f, gn, false); size_t k = 0; for (auto name : g) { got.insert(name); ++k; }
                if (got != want || k != want.size() || g.size() != want.size()) violation("a group lists something else than was put into it: '%s' lists %zu (size %zu) instead of %zu", gn.c_str(), k, g.size(), want.size());
            }
            bool threw = false; try { f.write("new", 1); } catch (const std::exception&) { threw = true; }
            if (!threw) violation("writing to a file opened for reading succeeds");
            f.close();
        } catch (const std::exception& e) { violation("a value that was written cannot be read: %s", e.what()); }
        finish_ok();
    });
    c.note("reader: %zu values, %zu arrays written in parts, %zu groups -> %s", items.size(), slabs.size(), groups.size(), o.kind == Outcome::OK ? "done" : o.msg.c_str());
    if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("program crashed: signal %d while reading values", o.code); else c.fail("%s", o.msg.c_str()); return; }
    count("values", items.size()); count("partial_arrays", slabs.size());
}
static Register f1("fs_round_trip", round_trip);

// ------------------------------------------------------------------ D04, D05: the file layer on a failing disk
struct FOp { int what = 0; std::string name; int kind = 0; uint64_t shape = 0, seed = 0; size_t n = 0; };     // 0 value, 1 big array, 2 growing series of n rows, 3 group
static std::vector<double> series_rows(uint64_t seed, size_t n) { return slab_values(seed, n); }
static void faulty_write(h5::File& f, const FOp& q) {
    if (q.what == 0) { h5::Group g = f.open_group("/"); write_value(g, q.name, q.kind, q.shape, q.seed); g.close(); }
    else if (q.what == 1) { auto u = nd::make_unique_array<double>(nd::make_shape(q.n)); auto v = slab_values(q.seed, q.n); std::copy(v.begin(), v.end(), u.data()); f.write(q.name, std::move(u).shared()); }
    else if (q.what == 2) {
        auto d = f.require_dataset(q.name, h5::Datatype::native_double(), h5::Dataspace::unlimited(0), h5::PropertyList::dataset_create().set_chunk(hsize_t(64)));
        auto v = series_rows(q.seed, q.n); size_t i = 0;
        while (i < v.size()) { size_t k = std::min<size_t>(v.size() - i, 1 + q.shape % 700); std::vector<double> part(v.begin() + i, v.begin() + i + k); d.set_extent(i + k); auto sp = d.get_space(); h5::hyperslab_t sel; sel.start = {hsize_t(i)}; sel.skips = {1}; sel.count = {hsize_t(k)}; sel.block = {1}; d.write(part, sp.select(sel)); i += k; }
        d.close();
    }
    else { auto g = f.require_group(q.name); g.write("inner", (int)q.seed); g.close(); }
}
static std::string faulty_expect(const FOp& q) { if (q.what == 0) return make_item(q.kind, q.shape, q.seed).canon; if (q.what <= 2) { auto v = slab_values(q.seed, q.n); return std::string((char*)v.data(), v.size() * 8); } int i = (int)q.seed; return std::string((char*)&i, 4); }
static std::string faulty_read(h5::File& f, const FOp& q) {
    if (q.what == 0) { h5::Group g = f.open_group("/"); return read_canon(g, q.name, q.kind); }
    if (q.what <= 2) { auto v = f.read<std::vector<double>>(q.name); return std::string((char*)v.data(), v.size() * 8); }
    int i = f.open_group(q.name).read<int>("inner"); return std::string((char*)&i, 4);
}
static std::vector<FOp> faulty_ops(int n, int first) {
    std::vector<FOp> r;
    for (int i = 0; i < n; ++i) { FOp q; static const int wh[] = {0, 0, 0, 1, 1, 2, 2, 3}; q.what = wh[choose(W, 8)]; q.name = strf("v%d", first + i); q.kind = (int)choose(W, NKIND); q.shape = choose(W, 1 << 20); q.seed = choose(W, 1 << 20); q.n = q.what == 1 ? 6000 + choose(W, 40000) : q.what == 2 ? 1 + choose(W, 3000) : 0; r.push_back(q); }
    return r;
}
static std::string h5_noise_off() { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); return ""; }
static bool plain_write(Ctx& c, const std::string& dir, const std::vector<FOp>& ops, IoStats* st) {
    Outcome o = c.segment([&] { enter_jail(dir); activate(SchedConfig()); h5_noise_off(); io_start(IoPlan()); try { h5::File f("f.h5", "w"); for (auto& q : ops) faulty_write(f, q); f.close(); } catch (const std::exception& e) { violation("a valid access to a file fails: %s", e.what()); } finish_ok(); });
    if (st) *st = o.io;
    if (o.kind != Outcome::OK) { c.fail("%s", o.kind == Outcome::SIGNAL ? "program crashed while writing a file" : o.msg.c_str()); return false; }
    return true;
}
static void write_faults(Ctx& c) {
    std::string dir = join(c.scratch, "d"); make_dir(dir);
    int had = choose(W, 3) == 2 ? 1 + (int)choose(W, 3) : 0, n = 1 + (int)choose(W, 6);
    auto old = faulty_ops(had, 0), ops = faulty_ops(n, had); bool over = had && choose(W, 2);
    if (over) { FOp q = old[0]; q.seed = choose(W, 1 << 20); if (!(q.what == 2 || (q.what == 0 && is_group_kind(q.kind)))) { ops.insert(ops.begin() + choose(W, ops.size() + 1), q); } }
    if (had && !plain_write(c, dir, old, nullptr)) return;
    auto attempt = [&] (const IoPlan& ip) {
        return c.segment([&] {
            enter_jail(dir); activate(SchedConfig()); h5_noise_off(); io_start(ip);
            char r = 'y';
            try { h5::File f("f.h5", had ? "r+" : "w"); for (auto& q : ops) faulty_write(f, q); f.close(); } catch (const std::exception&) { r = 'n'; }
            io_stop(); result(&r, 1);
            _exit(7);       // without giving the file library a second chance
        });
    };
    // how many operations an undisturbed writer makes
    std::string keep = had ? read_file(join(dir, "f.h5")) : "";
    Outcome o0 = attempt(IoPlan()); if (o0.kind != Outcome::EXIT || o0.result.empty() || o0.result[0] != 'y') { c.fail("a valid access to a file fails: writing without a fault: %s", o0.msg.c_str()); return; }
    if (had) write_file(join(dir, "f.h5"), keep); else unlink(join(dir, "f.h5").c_str());
    static const int cls[] = {IO_WRITE, IO_WRITE, IO_WRITE, IO_WRITE, IO_TRUNC, IO_OPEN, IO_CLOSE, IO_WRITE | IO_TRUNC};
    int m = cls[choose(F, 8)]; uint64_t k = 0; for (int i = 0; i < 16; ++i) if (m & (1 << i)) k += o0.io.by_class[i];
    if (!k) { c.trivial = true; return; }
    IoPlan ip; ip.fail_mask = m; static const int we[] = {ENOSPC, EIO, EDQUOT}, oe[] = {EMFILE, EACCES, EROFS};
    ip.fail_errno = m == IO_OPEN ? oe[choose(F, 3)] : we[choose(F, 3)]; ip.fail_from = (int64_t)choose(F, k); ip.fail_to = choose(F, 2) ? ip.fail_from + 1 + (int64_t)choose(F, 3) : -1; ip.fail_partial = ip.fail_errno == ENOSPC && choose(F, 2);
    if (choose(F, 3) == 2) { ip.short_num = 8 + (uint32_t)choose(F, 100); ip.eintr_num = (uint32_t)choose(F, 60); }
    Outcome o = attempt(ip);
    if (o.kind == Outcome::SIGNAL) { c.fail("program crashed: signal %d while writing to a failing disk", o.code); return; }
    if (o.kind != Outcome::EXIT || o.result.empty()) { c.fail("%s", o.msg.c_str()); return; }
    bool said_ok = o.result[0] == 'y'; bool hit = o.io.injected > 0;
    c.note("%d values before, %zu written, fault %s", had, ops.size(), hit ? "hit" : "missed");
    if (!hit) c.trivial = true;
    if (!said_ok) { if (!hit) c.fail("a valid access to a file fails: without a fault"); count("write_failure_reported"); return; }
    if (hit) count("write_fault_absorbed");
    Outcome r = c.segment([&] {
        enter_jail(dir); activate(SchedConfig()); h5_noise_off(); io_start(IoPlan());
        try {
            h5::File f("f.h5", "r"); std::map<std::string, FOp> want; for (auto& q : old) want[q.name] = q; for (auto& q : ops) want[q.name] = q;
            for (auto& q : want) if (faulty_read(f, q.second) != faulty_expect(q.second)) violation("a write that failed was reported as done: %s differs (what %d kind %d)", q.first.c_str(), q.second.what, q.second.kind);
        } catch (const std::exception& e) { violation("a write that failed was reported as done: the file cannot be read: %s", e.what()); }
        finish_ok();
    });
    if (r.kind != Outcome::OK) { if (r.kind == Outcome::SIGNAL) c.fail("a write that failed was reported as done: the file crashes its reader"); else c.fail("%s", r.msg.c_str()); }
}
static Register f5("fs_write_faults", write_faults);

static void read_faults(Ctx& c) {
    std::string dir = join(c.scratch, "d"); make_dir(dir);
    auto ops = faulty_ops(1 + (int)choose(W, 6), 0);
    if (!plain_write(c, dir, ops, nullptr)) return;
    std::string path = join(dir, "f.h5"), keep = read_file(path);
    int kind = (int)choose(F, 4); IoPlan ip; bool cut = false;
    if (kind <= 1) { static const int cl[] = {IO_READ, IO_READ, IO_READ, IO_OPEN, IO_STAT}; int m = cl[choose(F, 5)]; ip.fail_mask = m; ip.fail_errno = m == IO_OPEN ? EMFILE : EIO; ip.fail_from = (int64_t)choose(F, m == IO_READ ? 60 : 4); ip.fail_to = choose(F, 2) ? ip.fail_from + 1 + (int64_t)choose(F, 2) : -1; }
    else if (kind == 2) { write_file(path, keep.substr(0, choose(F, keep.size()))); cut = true; count_fault("file_truncated"); }
    else { ip.short_num = 8 + (uint32_t)choose(F, 150); ip.eintr_num = (uint32_t)choose(F, 150); }
    Outcome o = c.segment([&] {
        enter_jail(dir); activate(SchedConfig()); h5_noise_off(); io_start(ip);
        bool threw = false;
        try { h5::File f("f.h5", "r"); for (auto& q : ops) { try { if (faulty_read(f, q) != faulty_expect(q)) violation("a value that could not be read is reported as read: %s (what %d kind %d)", q.name.c_str(), q.what, q.kind); } catch (const std::exception&) { threw = true; } } } catch (const std::exception&) { threw = true; }
        if (!threw && cut) count("cut_file_still_complete");
        if (threw && kind == 3) violation("short or interrupted reads are not handled: a valid read fails");
        if (threw && kind <= 1 && !io_stats().injected) violation("a valid access to a file fails: without a fault");
        if (threw) count("read_failure_reported");
        if (!threw && kind <= 1 && io_stats().injected) count("read_fault_absorbed");
        char h = kind == 3 || kind == 2 || io_stats().injected ? 'y' : 'n'; result(&h, 1);
        finish_ok();
    });
    c.note("%zu values, disturbance %d -> %s", ops.size(), kind, o.kind == Outcome::OK ? "done" : o.msg.c_str());
    if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("program crashed: signal %d while reading from a failing disk", o.code); else c.fail("%s", o.msg.c_str()); return; }
    if (o.result.empty() || o.result[0] != 'y') c.trivial = true;
    if (!cut && read_file(path) != keep) c.fail("reading a file changed it");
}
static Register f6("fs_read_faults", read_faults);

// ------------------------------------------------------------------ a small world of directories, files and links
static std::map<std::string, std::string> snapshot(const std::string& dir) {      // path -> kind and content, links not followed
    std::map<std::string, std::string> m; std::function<void(const std::string&)> go = [&] (const std::string& rel) {
        DIR* d = opendir(join(dir, rel).c_str()); if (!d) return; std::vector<std::string> n; while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(d);
        for (auto& x : n) { std::string r = join(rel, x), f = join(dir, r); struct stat s; if (lstat(f.c_str(), &s)) continue;
            if (S_ISLNK(s.st_mode)) { char b[512]; ssize_t k = readlink(f.c_str(), b, 511); m[r] = "link " + std::string(b, k > 0 ? k : 0); } else if (S_ISDIR(s.st_mode)) { m[r] = strf("dir %o", (unsigned)s.st_mode & 07777); go(r); } else m[r] = strf("file %o ", (unsigned)s.st_mode & 07777) + read_file(f); } };
    go(""); return m;
}
static const char* names[] = {"a", "b", "c.d", "x y", ".hidden", "data", "...", "a-name-that-is-longer-than-the-others-but-still-well-below-the-limit-that-file-systems-have-0123456789", ".h", "..b"};
// fill dir (whose path inside the jail is at) with random entries; links may lead anywhere in the jail
static void populate(const std::string& root, const std::string& at, int depth, int max) {
    int n = (int)choose(W, max + 1);
    for (int i = 0; i < n; ++i) {
        std::string rel = join(at, names[choose(W, 10)]), f = join(root, rel); struct stat s; if (lstat(f.c_str(), &s) == 0) continue;
        int k = (int)choose(W, 6);
        if (k <= 2) { make_dir(f); static const int md[] = {0755, 0700, 0711, 0750, 02755}; chmod(f.c_str(), md[choose(W, 5)]); if (depth > 0) populate(root, rel, depth - 1, max); }
        else if (k == 3) { write_file(f, strf("content %d", (int)choose(W, 1000))); static const int md[] = {0644, 0600, 0755, 0444}; chmod(f.c_str(), md[choose(W, 4)]); }
        else { static const char* to[] = {"/outside", "/outside/deep", "/outside/keep", "nowhere", "a", ".", "..", "/cwd"}; if (symlink(to[choose(W, 8)], f.c_str())) {} }
    }
}
static std::string world(Ctx& c) {
    std::string d = join(c.scratch, "w"); make_dir(d); make_dir(join(d, "outside")); make_dir(join(d, "outside/deep")); make_dir(join(d, "cwd"));
    write_file(join(d, "outside/keep"), "precious"); write_file(join(d, "outside/deep/keep2"), "precious too"); write_file(join(d, "cwd/mine"), "mine");
    return d;
}
static bool is_dir(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }

// ------------------------------------------------------------------ D08: directories asked for are there, or an error is raised
static std::string draw_path() { std::string p = choose(W, 3) == 2 ? "/" : ""; int n = 1 + (int)choose(W, 4); for (int i = 0; i < n; ++i) { int k = (int)choose(W, 12); if (i) p += "/"; p += k < 8 ? names[k] : k == 8 ? "." : k == 9 ? ".." : k == 10 ? "" : "new"; } if (choose(W, 4) == 3) p += "/"; return p.empty() ? "." : p; }
// what "make this directory and its parents" means, step by step; false if it cannot be done
static bool model_mkdirs(const std::string& path) { std::string q = path[0] == '/' ? "/" : ""; size_t p = 0; while (p < path.size()) { size_t e = path.find('/', p); if (e == std::string::npos) e = path.size(); std::string n = path.substr(p, e - p); p = e + 1; if (n.empty()) continue; q += n; if (!is_dir(q) && mkdir(q.c_str(), 0775)) return false; q += "/"; } return true; }
static void require_dirs(Ctx& c) {
    std::string d = world(c); populate(d, "cwd", 2, 4); populate(d, "", 1, 3);
    std::string model = join(c.scratch, "m"); 
    { Outcome o = c.segment([&] { std::string cmd = "cp -a '" + d + "' '" + model + "'"; if (system(cmd.c_str())) stop_segment(Outcome::ERROR, "cp failed"); finish_ok(); }); if (o.kind != Outcome::OK) { c.fail("ERROR: %s", o.msg.c_str()); return; } }
    int mode = (int)choose(F, 4), n = 1 + (int)choose(W, 3); std::vector<std::string> paths; for (int i = 0; i < n; ++i) paths.push_back(draw_path());
    // what should come of it
    std::vector<char> can(n, 0);
    { Outcome o = c.segment([&] { enter_jail(model); if (chdir("/cwd")) {} for (int i = 0; i < n; ++i) can[i] = model_mkdirs(paths[i]); result(can.data(), n); finish_ok(); }); if (o.kind != Outcome::OK || (int)o.result.size() != n) { c.fail("ERROR: model: %s", o.msg.c_str()); return; } can.assign(o.result.begin(), o.result.end()); }
    auto before = snapshot(d);
    IoPlan ip; bool faults = mode == 1, actor = mode == 2, threads = mode == 3 && n > 1;
    if (faults) { static const int es[] = {ENOSPC, EACCES, EIO, EROFS, EMFILE}; ip.fail_mask = choose(F, 3) == 2 ? IO_STAT : IO_MKDIR; ip.fail_errno = es[choose(F, 5)]; ip.fail_from = (int64_t)choose(F, 6); ip.fail_to = choose(F, 2) ? ip.fail_from + 1 : -1; }
    std::string rival = draw_path(); bool rival_file = choose(F, 4) == 3;
    if (actor) { ip.race_at = (int64_t)choose(F, 6); ip.race_mask = IO_MKDIR | IO_STAT; ip.race_fn = [&] { if (rival_file) { FILE* f = fopen((rival.back() == '/' ? rival.substr(0, rival.size() - 1) : rival).c_str(), "wx"); if (f) { fputs("rival", f); fclose(f); } } else model_mkdirs(rival); }; }
    std::string list; for (auto& p : paths) list += " '" + p + "'";
    Outcome o = c.segment([&] {
        enter_jail(d); if (chdir("/cwd")) {} SchedConfig sc; if (threads) sc = random_sched(); hang_label = "creating a directory hangs"; activate(sc); io_start(ip);
        std::vector<char> done(n, 0);
        auto one = [&] (int i) { try { mara::filesystem::require_dir(paths[i]); done[i] = 1; } catch (const std::exception&) { done[i] = 2; }
            bool k = done[i] == 1; if (k) { Rt q; io_stop(); if (!is_dir(paths[i])) violation("directory creation reports success but there is no such directory: '%s'", paths[i].c_str()); io_start(ip); } };
        if (threads) { std::vector<int> t; for (int i = 0; i < n; ++i) t.push_back(spawn([&, i] { try { mara::filesystem::require_dir(paths[i]); done[i] = 1; } catch (const std::exception&) { done[i] = 2; } })); for (int x : t) sim::join(x); }
        else for (int i = 0; i < n; ++i) one(i);
        io_stop();
        for (int i = 0; i < n; ++i) if (done[i] == 1 && !is_dir(paths[i])) violation("directory creation reports success but there is no such directory: '%s'", paths[i].c_str());
        result(done.data(), n); finish_ok();
    });
    c.note("directories%s, mode %d%s -> %s", list.c_str(), mode, actor ? (" against " + rival).c_str() : "", o.kind == Outcome::OK ? "done" : o.msg.c_str());
    if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("program crashed: signal %d while creating a directory", o.code); else c.fail("%s", o.msg.c_str()); return; }
    bool hit = o.io.injected > 0; if (faults && !hit) c.trivial = true;
    auto after = snapshot(d), want = snapshot(model);
    for (auto& x : before) { auto i = after.find(x.first); if (i == after.end() || i->second != x.second) { c.fail("creating a directory changed something else: %s", x.first.c_str()); return; } }
    bool links = false; for (auto& x : before) if (x.second.compare(0, 4, "link") == 0) links = true;
    if (threads && links) ;     // what a link leads to may depend on the order
    else if (!hit && !actor) {
        for (int i = 0; i < n; ++i) if ((o.result[i] == 1) != (bool)can[i]) { c.fail("%s: '%s'", can[i] ? "a directory that can be created is refused" : "a directory that cannot be created is reported as created", paths[i].c_str()); return; }
        for (auto& x : want) if (!after.count(x.first) && std::all_of(can.begin(), can.end(), [] (char q) { return q; })) { c.fail("directory missing after it was asked for: /%s", x.first.c_str()); return; }
        for (auto& x : after) if (!want.count(x.first) && std::all_of(can.begin(), can.end(), [] (char q) { return q; })) { c.fail("something was created that was not asked for: /%s", x.first.c_str()); return; }
    } else if (actor && !hit && !rival_file) for (int i = 0; i < n; ++i) if (can[i] && o.result[i] != 1) { c.fail("a directory another process created at the same time is refused: '%s'", paths[i].c_str()); return; }
    for (auto& x : after) if (!before.count(x.first) && x.second.compare(0, 3, "dir") && !(actor && rival_file)) { c.fail("something was created that was not asked for: /%s", x.first.c_str()); return; }
}
static Register f2("fs_require_dir", require_dirs);

// ------------------------------------------------------------------ D09: recursive removal
static void remove_trees(Ctx& c) {
    std::string d = world(c); make_dir(join(d, "cwd/victim")); populate(d, "cwd/victim", 3, 5); if (choose(W, 8) == 7) { int many = 20 + (int)choose(W, 200); if (choose(W, 4) == 3) many += 300 + (int)choose(W, 600); for (int i = 0; i < many; ++i) write_file(join(d, strf("cwd/victim/file.%04d", i)), "x"); }
    if (choose(W, 8) == 7) { std::string deep = "cwd/victim/deep"; make_dir(join(d, deep)); for (int i = 8 + (int)choose(W, 40); i > 0; --i) { deep += "/" + std::string(1 + choose(W, 12), 'd'); make_dir(join(d, deep)); } write_file(join(d, deep + "/leaf"), "x"); }
    populate(d, "cwd", 1, 3);
    static const char* forms[] = {"victim", "./victim", "/cwd/victim", "victim/", "/outside/../cwd/victim", "missing", "mine"}; std::string path = forms[choose(W, 7)]; bool exists = path.find("victim") != std::string::npos;
    int mode = (int)choose(F, 3); IoPlan ip; ip.dir_shuffle = choose(F, 2);
    if (mode == 1) { static const int es[] = {EACCES, EIO, EBUSY, EMFILE, EPERM}; static const int cl[] = {IO_UNLINK, IO_UNLINK, IO_DIR, IO_STAT}; ip.fail_mask = cl[choose(F, 4)]; ip.fail_errno = es[choose(F, 5)]; ip.fail_from = (int64_t)choose(F, 1ull << (2 + choose(F, 4))); ip.fail_to = choose(F, 2) ? ip.fail_from + 1 : -1; }
    int act = (int)choose(F, 2); std::string at; std::vector<std::string> in; for (auto& x : snapshot(join(d, "cwd/victim"))) in.push_back(x.first);
    if (mode == 2) { ip.race_at = (int64_t)choose(F, 1ull << (2 + choose(F, 4))); ip.race_mask = IO_UNLINK | IO_DIR | IO_STAT; if (!in.empty()) at = in[choose(F, in.size())]; ip.race_fn = [&] { std::string f = "/cwd/victim/" + at; if (act == 0) { if (is_dir(f)) f += "/late"; else f = "/cwd/victim/late"; FILE* q = fopen(f.c_str(), "w"); if (q) { fputs("late", q); fclose(q); } } else if (unlink(f.c_str())) rmdir(f.c_str()); }; }
    auto before = snapshot(d);
    Outcome o = c.segment([&] {
        enter_jail(d); if (chdir("/cwd")) {} hang_label = "removing a directory hangs"; activate(SchedConfig()); io_start(ip);
        int r = mara::filesystem::remove_recurse(path); io_stop();
        struct stat s; bool there = lstat("/cwd/victim", &s) == 0;
        if (r == 0 && exists && there) violation("removal reports success but the directory is still there: '%s'", path.c_str());
        if (r == 0 && !exists) violation("removing something that is not a directory reports success: '%s'", path.c_str());
        int fds = 0; for (int i = 3; i < 512; ++i) if (fcntl(i, F_GETFD) >= 0) { char b[256]; ssize_t k = readlink(strf("/proc/self/fd/%d", i).c_str(), b, 255); (void)k; ++fds; }
        char q[2] = {(char)(r == 0), (char)there}; result(q, 2); finish_ok();
    });
    c.note("remove '%s' (%zu entries), mode %d -> %s", path.c_str(), in.size(), mode, o.kind == Outcome::OK ? (o.result[0] ? "removed" : "failed") : o.msg.c_str());
    if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("program crashed: signal %d while removing a directory", o.code); else c.fail("%s", o.msg.c_str()); return; }
    bool hit = o.io.injected > 0, removed = o.result[0]; if (mode == 1 && !hit) c.trivial = true;
    auto after = snapshot(d);
    for (auto& x : before) { if (x.first.compare(0, 11, "cwd/victim/") == 0 || x.first == "cwd/victim") { if (!exists) { auto i = after.find(x.first); if (mode != 2 && (i == after.end() || i->second != x.second)) { c.fail("removal touched something else than it was given: %s", x.first.c_str()); return; } } continue; } auto i = after.find(x.first); if (i == after.end() || i->second != x.second) { c.fail("removal touched something outside the directory it was given: /%s", x.first.c_str()); return; } }
    for (auto& x : after) if (!before.count(x.first) && x.first.find("late") == std::string::npos) { c.fail("removal created something: %s", x.first.c_str()); return; }
    if (exists && !hit && mode != 2 && !removed) { c.fail("a directory that can be removed is not: '%s' (%zu entries)", path.c_str(), in.size()); return; }
    count("entries", in.size());
}
static Register f3("fs_remove", remove_trees);

// ------------------------------------------------------------------ C11: one array written block by block by many processes
template<std::size_t R> static void blocks_rank(Ctx& c) {
    int procs = 1 + (int)choose(W, 12); nd::shape_t<R> shape; for (size_t i = 0; i < R; ++i) shape[i] = 1 + choose(W, R == 1 ? 60 : R == 2 ? 16 : 9);
    std::string dir = join(c.scratch, "d"); make_dir(dir);
    std::vector<hsize_t> dims(shape.begin(), shape.end());
    struct H { static double f(const nd::index_t<R>& i) { double s = 0.5; for (size_t a = 0; a < R; ++a) s = s * 101 + i[a] + 1; return s; } };
    // the blocks, as every process works them out for itself
    Outcome o = c.segment([&] {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        auto blocks = mara::propose_block_decomposition<R>(procs); size_t vol = 1; for (size_t a = 0; a < R; ++a) vol *= blocks[a];
        if ((int)vol != procs) violation("decomposition has the wrong number of blocks: %zu for %d processes", vol, procs);
        char fits = 1; for (size_t a = 0; a < R; ++a) if (blocks[a] > shape[a]) fits = 0;
        bool threw = false; try { auto arr = mara::create_access_pattern_array(shape, blocks); std::map<std::vector<size_t>, int> cover; for (auto index : arr.indexes()) { auto b = arr(index); for (size_t a = 0; a < R; ++a) if (b.start[a] >= b.final[a] || b.final[a] > shape[a]) violation("block outside the domain or empty"); for (auto q : b) cover[std::vector<size_t>(q.begin(), q.end())]++; }
            size_t n = 1; for (auto x : shape) n *= x; if (cover.size() != n) violation("decomposition does not cover the domain: %zu of %zu elements", cover.size(), n); for (auto& x : cover) if (x.second != 1) violation("decomposition has overlapping blocks"); }
        catch (const std::logic_error&) { threw = true; }
        if (threw == (bool)fits) violation(fits ? "a decomposition that fits is refused" : "more blocks than elements are accepted");
        if (fits) { chdir(dir.c_str()); h5::File f("f.h5", "w"); f.require_dataset("data", h5::Datatype::native_double(), h5::Dataspace::simple(dims)); f.close(); }
        result(&fits, 1); finish_ok();
    });
    if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("program crashed: signal %d while dividing a domain", o.code); else c.fail("%s", o.msg.c_str()); return; }
    c.note("%d processes, rank %zu -> %s", procs, R, o.result[0] ? "divided" : "refused");
    if (!o.result[0]) { count("too_many_blocks"); c.trivial = true; return; }
    std::vector<int> order(procs); for (int i = 0; i < procs; ++i) order[i] = i; for (int i = procs; i > 1; --i) std::swap(order[i - 1], order[choose(S, i)]);
    uint32_t sn = choose(F, 2) ? (uint32_t)choose(F, 120) : 0;
    for (int k = 0; k < procs; ++k) {
        int me = order[k];
        o = c.segment([&] {
            enter_jail(dir); activate(SchedConfig()); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); IoPlan ip; ip.short_num = sn; ip.eintr_num = sn / 2; io_start(ip);
            auto arr = mara::create_access_pattern_array(shape, mara::propose_block_decomposition<R>(procs)); int j = 0;
            for (auto index : arr.indexes()) if (j++ == me) {
                auto b = arr(index); auto mine = nd::make_array([b] (auto i) { return H::f(b.map_index(i)); }, b.shape()) | nd::to_shared();
                h5::File f("f.h5", "r+"); auto ds = f.open_dataset("data"); auto sp = ds.get_space(); ds.write(mine, sp.select(mara::make_hdf5_hyperslab(b))); ds.close(); f.close();
            }
            finish_ok();
        });
        if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("a valid block cannot be written: signal %d %s", o.code, o.err.substr(0, 200).c_str()); else c.fail("%s", o.msg.c_str()); return; }
    }
    o = c.segment([&] {
        chdir(dir.c_str()); h5::File f("f.h5", "r"); auto v = f.read<nd::shared_array<double, R>>("data"); if (v.shape() != shape) violation("array assembled from blocks has another shape");
        for (auto i : v.indexes()) if (v(i) != H::f(i)) violation("array assembled from blocks is wrong at %s: %.17g instead of %.17g", nd::to_string(i).c_str(), v(i), H::f(i));
        finish_ok();
    });
    if (o.kind != Outcome::OK) { if (o.kind == Outcome::SIGNAL) c.fail("assembled array cannot be read: signal %d", o.code); else c.fail("%s", o.msg.c_str()); return; }
    count("blocks", procs);
}
static Register f4("fs_blocks", [] (Ctx& c) { int r = (int)choose(W, 3); if (r == 0) blocks_rank<1>(c); else if (r == 1) blocks_rank<2>(c); else blocks_rank<3>(c); });
}
