// Disk seam: libc file calls of the program under test (and of libhdf5 / libstdc++) are
// interposed; the seeded plan injects errors, short and torn transfers and process kills.
// Containment: the segment lives in a user namespace, chroot'ed into a scratch directory.
#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sched.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <vector>
#include <string>
#include <algorithm>

namespace sim {
static bool g_io = false;
static IoPlan P;
static IoStats ST{};
static uint64_t g_mut = 0, g_failctr = 0, g_racectr = 0, g_readctr = 0;
static bool tracked[4096];
static std::string* wpath[4096];      // path of each descriptor opened for writing
static bool dirty[4096];               // ... and through it the file has been, or is about to be, changed
static void filelog(char k, const std::string& p) { if (!SG || SG->filelog_len + p.size() + 3 > sizeof SG->filelog) return; char* d = SG->filelog + SG->filelog_len; d[0] = k; d[1] = ' '; memcpy(d + 2, p.data(), p.size()); d[2 + p.size()] = '\n'; SG->filelog_len += p.size() + 3; }

IoStats io_stats() { return ST; }
void io_start(const IoPlan& p) { P = p; g_io = true; }
void io_stop() { g_io = false; if (SG) SG->io = ST; }

void fault_mark(const char* what) { if (!ST.injected++) filelog('F', what); if (SG) SG->io = ST; }
static void mark(int fd) { if (wpath[fd] && !dirty[fd]) { dirty[fd] = true; filelog('O', *wpath[fd]); } }
static int cls_index(int c) { return __builtin_ctz(c); }
static const char* cls_name(int c) { static const char* n[] = {"open", "write", "read", "truncate", "stat", "close", "mkdir", "unlink", "dir", "sync", "rename", "lock"}; return n[cls_index(c)]; }

static void kill_now() { count_fault("process_kill"); if (SG) SG->io = ST; stop_segment(Outcome::CRASHED, "simulated process kill"); }

// Returns 0 to proceed, or an errno to fail with.  For writes *cut may be lowered.
static int io_point(int cls, bool mutating, size_t* len, bool* torn_kill) {
    ST.ops++; ST.by_class[cls_index(cls)]++; if (SG) SG->io = ST;
    advance_ns(20000);
    event("io", cls, len ? *len : 0);
    if (g_active && live_threads() > 1) sync_point("io", nullptr);
    if (P.race_at >= 0 && (P.race_mask & cls)) { if ((int64_t)g_racectr++ == P.race_at) { bool k = g_io; g_io = false; count_fault("concurrent_actor"); P.race_fn(); g_io = k; } }
    if (mutating) {
        uint64_t k = g_mut++; ST.mut = g_mut;
        if (P.crash_at >= 0 && (int64_t)k == P.crash_at) {
            if (len && torn_kill && *len > 0 && P.torn) { *len = (*len * P.torn) >> 8; *torn_kill = true; count_fault("torn_write"); return 0; }
            kill_now();
        }
    }
    if (P.fail_errno && (P.fail_mask & cls)) {
        int64_t k = (int64_t)g_failctr++;
        if (k >= P.fail_from && (P.fail_to < 0 || k < P.fail_to)) {
            char nm[48]; snprintf(nm, sizeof nm, "%s_on_%s", P.fail_errno == ENOSPC ? "ENOSPC" : P.fail_errno == EIO ? "EIO" : P.fail_errno == EACCES ? "EACCES" : P.fail_errno == EMFILE ? "EMFILE" : "err", cls_name(cls));
            fault_mark(cls_name(cls));
            if (P.fail_partial && cls == IO_WRITE && len && *len > 1 && k == P.fail_from) { *len = 1 + choose(F, *len - 1); count_fault("short_then_ENOSPC"); return 0; }
            count_fault(nm);
            return P.fail_errno;
        }
    }
    if ((cls == IO_READ || cls == IO_WRITE) && len) {
        if (P.eintr_num && chance(F, P.eintr_num, 256)) { count_fault(cls == IO_READ ? "EINTR_on_read" : "EINTR_on_write"); return EINTR; }
        if (P.short_num && *len > 1 && chance(F, P.short_num, 256)) { *len = 1 + choose(F, std::min<size_t>(*len - 1, 1u << 30)); count_fault(cls == IO_READ ? "short_read" : "short_write"); }
    }
    return 0;
}
static inline bool on() { return g_io && !t_rt; }
static inline bool on_fd(int fd) { return on() && fd >= 0 && fd < 4096 && tracked[fd]; }
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static int do_open(int dfd, const char* path, int flags, mode_t mode) {
    bool t = on();
    if (t) {
        Rt r;
        bool mut = flags & (O_CREAT | O_TRUNC);
        ST.opens++;
        event_bytes("open", path, strlen(path));
        int e = io_point(IO_OPEN, mut, nullptr, nullptr);
        if (e) { errno = e; return -1; }
        if (P.max_open && ST.open_now >= (uint64_t)P.max_open) { count_fault("descriptor_limit"); errno = EMFILE; return -1; }
    }
    int fd = (int)ret(sys6(SYS_openat, dfd, (long)path, flags, mode));
    if (fd >= 0 && fd < 4096) {
        tracked[fd] = t;
        if (t) { Rt r; if (++ST.open_now > ST.open_peak) ST.open_peak = ST.open_now; if (SG) { SG->io = ST; if ((flags & O_ACCMODE) != O_RDONLY && SG->n_held < 2048) { SG->held[SG->n_held] = live_blocks(); SG->held_bytes[SG->n_held++] = live_bytes(); } } delete wpath[fd]; wpath[fd] = nullptr; dirty[fd] = false; if ((flags & O_ACCMODE) != O_RDONLY) { wpath[fd] = new std::string(path); if (flags & (O_CREAT | O_TRUNC)) mark(fd); } }
    }
    return fd;
}
static ssize_t do_write(int fd, const void* p, size_t n, bool at, off_t off) {
    if (!on_fd(fd)) return ret(at ? sys6(SYS_pwrite64, fd, (long)p, n, off) : sys6(SYS_write, fd, (long)p, n));
    Rt r; size_t k = n; bool torn = false;
    ST.writes++; mark(fd);
    int e = io_point(IO_WRITE, true, &k, &torn);
    if (e) { errno = e; return -1; }
    event_bytes("write", p, k);
    if (torn && k == 0) kill_now();
    ssize_t w = ret(at ? sys6(SYS_pwrite64, fd, (long)p, k, off) : sys6(SYS_write, fd, (long)p, k));
    if (w > 0) ST.bytes_written += w;
    if (torn) kill_now();
    return w;
}
static ssize_t do_read(int fd, void* p, size_t n, bool at, off_t off) {
    if (!on_fd(fd)) return ret(at ? sys6(SYS_pread64, fd, (long)p, n, off) : sys6(SYS_read, fd, (long)p, n));
    Rt r; size_t k = n;
    ST.reads++;
    int e = io_point(IO_READ, false, &k, nullptr);
    if (e) { errno = e; return -1; }
    ssize_t w = ret(at ? sys6(SYS_pread64, fd, (long)p, k, off) : sys6(SYS_read, fd, (long)p, k));
    if (w > 0 && P.flip_read_at >= 0 && (int64_t)g_readctr++ == P.flip_read_at) { size_t b = choose(F, (uint64_t)w * 8); ((unsigned char*)p)[b / 8] ^= 1 << (b % 8); count_fault("bit_flip_on_read"); }
    return w;
}
static int simple(int cls, bool mut, long (*f)(const void*, const void*, long), const void* a, const void* b, long c) {
    if (on()) { Rt r; if (a) event_bytes("path", a, strlen((const char*)a)); int e = io_point(cls, mut, nullptr, nullptr); if (e) { errno = e; return -1; } }
    return (int)ret(f(a, b, c));
}

void enter_jail(const std::string& dir) {
    Rt r;
    unsigned u = getuid(), g = getgid();
    bool ok = false;
    if (sys6(SYS_unshare, CLONE_NEWUSER) == 0) {
        auto put = [](const char* f, const std::string& s) { int fd = (int)sys6(SYS_openat, AT_FDCWD, (long)f, O_WRONLY, 0); if (fd < 0) return; sys6(SYS_write, fd, (long)s.data(), s.size()); sys6(SYS_close, fd); };
        put("/proc/self/setgroups", "deny"); put("/proc/self/uid_map", strf("0 %u 1\n", u)); put("/proc/self/gid_map", strf("0 %u 1\n", g));
        if (sys6(SYS_chroot, (long)dir.c_str()) == 0) ok = true;
    } else if (sys6(SYS_chroot, (long)dir.c_str()) == 0) ok = true;
    if (!ok) stop_segment(Outcome::ERROR, "simulator: cannot jail the segment (user namespace + chroot refused)");
    sys6(SYS_chdir, (long)"/");
}

// directory enumeration
struct Dir { void* real; std::vector<struct dirent> ents; size_t pos; };
static DIR* (*r_opendir)(const char*); static struct dirent* (*r_readdir)(DIR*); static int (*r_closedir)(DIR*); static DIR* (*r_fdopendir)(int);
static std::vector<Dir*>* g_dirs;
static void dir_syms() { if (!r_opendir) { r_opendir = (decltype(r_opendir))dlsym(RTLD_NEXT, "opendir"); r_readdir = (decltype(r_readdir))dlsym(RTLD_NEXT, "readdir"); r_closedir = (decltype(r_closedir))dlsym(RTLD_NEXT, "closedir"); r_fdopendir = (decltype(r_fdopendir))dlsym(RTLD_NEXT, "fdopendir"); g_dirs = new std::vector<Dir*>; } }
static Dir* find_dir(DIR* d) { if (g_dirs) for (auto x : *g_dirs) if (x->real == d) return x; return nullptr; }
static void load_dir(DIR* d) {
    Dir* x = new Dir{d, {}, 0};
    while (auto e = r_readdir(d)) x->ents.push_back(*e);
    std::sort(x->ents.begin(), x->ents.end(), [](auto& a, auto& b) { return strcmp(a.d_name, b.d_name) < 0; });   // canonical, then seeded
    if (P.dir_shuffle) { for (size_t i = x->ents.size(); i > 1; --i) std::swap(x->ents[i - 1], x->ents[choose(F, i)]); count_fault("readdir_reordered"); }
    g_dirs->push_back(x);
}
}
using namespace sim;
extern "C" {
int open(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int __open_2(const char* p, int f) { return do_open(AT_FDCWD, p, f, 0); }
int __open64_2(const char* p, int f) { return do_open(AT_FDCWD, p, f, 0); }
int openat(int d, const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, f, m); }
int openat64(int d, const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, f, m); }
int __openat_2(int d, const char* p, int f) { return do_open(d, p, f, 0); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    if (on_fd(fd)) { Rt r; int e = io_point(IO_CLOSE, false, nullptr, nullptr); tracked[fd] = false; --ST.open_now; if (SG) SG->io = ST;
        if (e && dirty[fd]) { struct stat st; if (sys6(SYS_fstat, fd, (long)&st) == 0 && st.st_size > 0) { sys6(SYS_ftruncate, fd, st.st_size - 1 - (long)choose(F, st.st_size)); count_fault("data_lost_at_failing_close"); } }      // as on a network file system: the data the error is about is gone
        sys6(SYS_close, fd); if (wpath[fd]) { if (dirty[fd]) filelog('C', *wpath[fd]); delete wpath[fd]; wpath[fd] = nullptr; } if (e) { errno = e; return -1; } return 0; }
    return (int)ret(sys6(SYS_close, fd));
}
ssize_t write(int fd, const void* p, size_t n) { return do_write(fd, p, n, false, 0); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return do_write(fd, p, n, true, o); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { return do_write(fd, p, n, true, o); }
ssize_t read(int fd, void* p, size_t n) { return do_read(fd, p, n, false, 0); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return do_read(fd, p, n, true, o); }
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { return do_read(fd, p, n, true, o); }
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!on_fd(fd)) return ret(sys6(SYS_writev, fd, (long)v, n));
    ssize_t tot = 0; for (int i = 0; i < n; ++i) { size_t done = 0; while (done < v[i].iov_len) { ssize_t w = do_write(fd, (char*)v[i].iov_base + done, v[i].iov_len - done, false, 0); if (w < 0) return tot ? tot : -1; done += w; tot += w; } }
    return tot;
}
int ftruncate(int fd, off_t n) noexcept { if (on_fd(fd)) { Rt r; mark(fd); int e = io_point(IO_TRUNC, true, nullptr, nullptr); if (e) { errno = e; return -1; } } return (int)ret(sys6(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) noexcept { return simple(IO_TRUNC, true, [](const void* a, const void*, long c) { return sys6(SYS_truncate, (long)a, c); }, p, nullptr, n); }
int truncate64(const char* p, off64_t n) noexcept { return truncate(p, n); }
int fsync(int fd) { if (on_fd(fd)) { Rt r; int e = io_point(IO_SYNC, true, nullptr, nullptr); if (e) { errno = e; return -1; } } return (int)ret(sys6(SYS_fsync, fd)); }
int fdatasync(int fd) { return fsync(fd); }
int flock(int fd, int op) noexcept { if (on_fd(fd)) { Rt r; int e = io_point(IO_LOCK, false, nullptr, nullptr); if (e) { errno = e; return -1; } } return (int)ret(sys6(SYS_flock, fd, op)); }
int stat(const char* p, struct stat* s) noexcept { return simple(IO_STAT, false, [](const void* a, const void* b, long) { return sys6(SYS_newfstatat, AT_FDCWD, (long)a, (long)b, 0); }, p, s, 0); }
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
int lstat(const char* p, struct stat* s) noexcept { return simple(IO_STAT, false, [](const void* a, const void* b, long) { return sys6(SYS_newfstatat, AT_FDCWD, (long)a, (long)b, AT_SYMLINK_NOFOLLOW); }, p, s, 0); }
int lstat64(const char* p, struct stat64* s) noexcept { return lstat(p, (struct stat*)s); }
int fstat(int fd, struct stat* s) noexcept {
    if (on_fd(fd)) { Rt r; int e = io_point(IO_STAT, false, nullptr, nullptr); if (e) { errno = e; return -1; } }
    return (int)ret(sys6(SYS_fstat, fd, (long)s));
}
int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, (struct stat*)s); }
int mkdir(const char* p, mode_t m) noexcept { return simple(IO_MKDIR, true, [](const void* a, const void*, long c) { return sys6(SYS_mkdirat, AT_FDCWD, (long)a, c); }, p, nullptr, m); }
int rmdir(const char* p) noexcept { return simple(IO_UNLINK, true, [](const void* a, const void*, long) { return sys6(SYS_unlinkat, AT_FDCWD, (long)a, AT_REMOVEDIR); }, p, nullptr, 0); }
int unlink(const char* p) noexcept { if (on()) { Rt r; filelog('X', p); } return simple(IO_UNLINK, true, [](const void* a, const void*, long) { return sys6(SYS_unlinkat, AT_FDCWD, (long)a, 0); }, p, nullptr, 0); }
int unlinkat(int d, const char* p, int f) noexcept { if (on()) { Rt r; int e = io_point(IO_UNLINK, true, nullptr, nullptr); if (e) { errno = e; return -1; } } return (int)ret(sys6(SYS_unlinkat, d, (long)p, f)); }
int remove(const char* p) noexcept {
    if (on()) { Rt r; filelog('X', p); }
    return simple(IO_UNLINK, true, [](const void* a, const void*, long) { long r = sys6(SYS_unlinkat, AT_FDCWD, (long)a, 0); if (r == -EISDIR || r == -EPERM) r = sys6(SYS_unlinkat, AT_FDCWD, (long)a, AT_REMOVEDIR); return r; }, p, nullptr, 0);
}
int rename(const char* a, const char* b) noexcept {
    int r0 = simple(IO_RENAME, true, [](const void* a, const void* b, long) { return sys6(SYS_renameat, AT_FDCWD, (long)a, AT_FDCWD, (long)b); }, a, b, 0);
    if (on() && r0 == 0) { Rt r; filelog('X', a); filelog('O', b); filelog('C', b); }
    return r0;
}

FILE* fopen(const char* p, const char* m) {
    int fl = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC; if (m[0] == 'a') fl |= O_CREAT | O_APPEND; if (strchr(m, 'x')) fl |= O_EXCL; if (strchr(m, 'e')) fl |= O_CLOEXEC;
    int fd = do_open(AT_FDCWD, p, fl, 0666);
    if (fd < 0) return nullptr;
    FILE* f = fdopen(fd, m); if (!f) sys6(SYS_close, fd);
    return f;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
DIR* opendir(const char* p) {
    { Rt r; dir_syms(); }
    if (on()) { Rt r; event_bytes("opendir", p, strlen(p)); int e = io_point(IO_DIR, false, nullptr, nullptr); if (e) { errno = e; return nullptr; } }
    bool t = on(); Rt r;
    DIR* d = r_opendir(p);
    if (d && t) { load_dir(d); }
    return d;
}
DIR* fdopendir(int fd) { bool t = on(); Rt r; dir_syms(); DIR* d = r_fdopendir(fd); if (d && t) load_dir(d); return d; }
struct dirent* readdir(DIR* d) { Rt r; dir_syms(); Dir* x = find_dir(d); if (!x) return r_readdir(d); return x->pos < x->ents.size() ? &x->ents[x->pos++] : nullptr; }
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* d) { Rt r; dir_syms(); Dir* x = find_dir(d); if (x) { g_dirs->erase(std::find(g_dirs->begin(), g_dirs->end(), x)); delete x; } return r_closedir(d); }
}
