// S03: every system call made while saving or loading is made to fail, alone, in pairs and persistently.
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <linux/stat.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

// ---- the system calls, with a fault plan ----------------------------------------------------------------------------------
namespace fault {
enum Call { OPEN, FTRUNCATE, CLOSE, FSTAT, MMAP, MSYNC, MUNMAP, FSYNC, WRITE, READ, LSEEK, ALLOC, RENAME, UNLINK, NCALL };
static const char *NAME[] = {"open", "ftruncate", "close", "fstat", "mmap", "msync", "munmap", "fsync", "write", "read", "lseek", "fallocate", "rename", "unlink"};
static bool armed = false;
static std::vector<Call> made;                  // calls made since armed
static int at1 = -1, err1 = 0, at2 = -1, err2 = 0; // fail the at-th call (0 based)
static bool persist = false;                    // and every later one of the same kind
static Call persist_kind = NCALL;
static int fired = 0;
// what a power cut would leave of the file: the bytes last written back by msync or fsync
static std::string durable;
struct Region { char *a; size_t n; off_t o; };
static std::vector<Region> regions;
static void written_back(off_t at, const char *p, size_t n, size_t size) {
    durable.resize(size);
    if ((size_t)at < size) durable.replace(at, std::min(n, size - at), p, std::min(n, size - at));
}
static bool hit(Call c) {
    if (!armed) return false;
    int n = made.size();
    made.push_back(c);
    if (n == at1) { errno = err1; fired++; if (persist) persist_kind = c; return true; }
    if (n == at2) { errno = err2; fired++; return true; }
    if (persist && c == persist_kind) { errno = err1; fired++; return true; }
    return false;
}
} // namespace fault
using namespace fault;
extern "C" {
static int open_common(const char *p, int flags, va_list ap) {
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    if (hit(OPEN)) return -1;
    return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int r = open_common(p, flags, ap); va_end(ap); return r; }
int open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int r = open_common(p, flags, ap); va_end(ap); return r; }
int openat(int d, const char *p, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    if (hit(OPEN)) return -1;
    return syscall(SYS_openat, d, p, flags, mode);
}
int creat(const char *p, mode_t m) { if (hit(OPEN)) return -1; return syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int ftruncate(int fd, off_t n) { if (hit(FTRUNCATE)) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { if (hit(FTRUNCATE)) return -1; return syscall(SYS_ftruncate, fd, n); }
int truncate(const char *p, off_t n) { if (hit(FTRUNCATE)) return -1; return syscall(SYS_truncate, p, n); }
// a failing close has released the descriptor all the same
int close(int fd) { int h = hit(CLOSE), e = errno; int r = syscall(SYS_close, fd); if (h) { errno = e; return -1; } return r; }
static int do_fstat(int fd, struct stat *st) { return syscall(SYS_fstat, fd, st); }
int fstat(int fd, struct stat *st) noexcept { if (hit(FSTAT)) return -1; return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) noexcept { if (hit(FSTAT)) return -1; return do_fstat(fd, (struct stat *)st); }
int __fxstat(int, int fd, struct stat *st) noexcept { if (hit(FSTAT)) return -1; return do_fstat(fd, st); }
int stat(const char *p, struct stat *st) noexcept { if (hit(FSTAT)) return -1; return syscall(SYS_stat, p, st); }
int stat64(const char *p, struct stat64 *st) noexcept { if (hit(FSTAT)) return -1; return syscall(SYS_stat, p, st); }
static void *do_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (fd >= 0 && hit(MMAP)) return MAP_FAILED;
    void *r = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if (armed && fd >= 0 && r != MAP_FAILED && (fl & MAP_SHARED) && (pr & PROT_WRITE)) regions.push_back({(char *)r, n, o});
    return r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { return do_mmap(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { return do_mmap(a, n, pr, fl, fd, o); }
int msync(void *a, size_t n, int f) {
    if (hit(MSYNC)) return -1;
    int r = syscall(SYS_msync, a, n, f);
    if (armed && r == 0 && (f & MS_SYNC))
        for (auto &g : regions) {
            char *lo = std::max(g.a, (char *)a), *hi = std::min(g.a + g.n, (char *)a + n);
            if (lo < hi) written_back(g.o + (lo - g.a), lo, hi - lo, std::max(durable.size(), (size_t)(g.o + g.n)));
        }
    return r;
}
// a failing munmap is only ever reported after the fact here, so that a mapping left behind is the code's doing
int munmap(void *a, size_t n) noexcept {
    int h = hit(MUNMAP), e = errno;
    if (armed) for (size_t i = 0; i < regions.size(); i++) if (regions[i].a == (char *)a) { regions.erase(regions.begin() + i); break; }
    int r = syscall(SYS_munmap, a, n);
    if (h) { errno = e; return -1; }
    return r;
}
static int do_fsync(int fd, long nr) {
    if (hit(FSYNC)) return -1;
    int r = syscall(nr, fd);
    struct stat st;
    if (armed && r == 0 && !syscall(SYS_fstat, fd, &st)) {
        std::string b(st.st_size, 0);
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd); // the descriptor may be open for writing only
        int f = syscall(SYS_openat, AT_FDCWD, link, O_RDONLY);
        if (f >= 0) { ssize_t k = syscall(SYS_pread64, f, &b[0], b.size(), 0); if (k == (ssize_t)b.size()) durable = b; syscall(SYS_close, f); }
    }
    return r;
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
ssize_t write(int fd, const void *b, size_t n) { if (hit(WRITE)) return -1; return syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (hit(WRITE)) return -1; return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (hit(WRITE)) return -1; return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (hit(WRITE)) return -1; return syscall(SYS_writev, fd, v, n); }
ssize_t read(int fd, void *b, size_t n) { if (hit(READ)) return -1; return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (hit(READ)) return -1; return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { if (hit(READ)) return -1; return syscall(SYS_pread64, fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) noexcept { if (hit(LSEEK)) return -1; return syscall(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) noexcept { if (hit(LSEEK)) return -1; return syscall(SYS_lseek, fd, o, w); }
int fallocate(int fd, int m, off_t o, off_t n) { if (hit(ALLOC)) return -1; return syscall(SYS_fallocate, fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (hit(ALLOC)) return errno; return syscall(SYS_fallocate, fd, 0, o, n) ? errno : 0; }
int rename(const char *a, const char *b) noexcept { if (hit(RENAME)) return -1; return syscall(SYS_rename, a, b); }
int unlink(const char *a) noexcept { if (hit(UNLINK)) return -1; return syscall(SYS_unlink, a); }
}

#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
#include "serialization/graph_serializer.hpp"
#include <functional>
#include <memory>
using namespace std;

static vector<int> errnos(Call c) {
    switch (c) {
    case OPEN: return {EACCES, ENOENT, EMFILE, ENFILE, EROFS, EISDIR, ENOSPC, EINTR, EDQUOT, ENOMEM, EIO};
    case FTRUNCATE: return {ENOSPC, EFBIG, EIO, EINTR, EINVAL, EROFS, EPERM, EDQUOT};
    case CLOSE: return {EIO, EINTR, ENOSPC, EDQUOT, EBADF};
    case FSTAT: return {EIO, EOVERFLOW, ENOMEM, EBADF};
    case MMAP: return {ENOMEM, EACCES, ENODEV, EAGAIN, EPERM, EOVERFLOW, EINVAL};
    case MSYNC: return {EIO, EBUSY, ENOMEM, EINVAL, ENOSPC, EDQUOT, EINTR};
    case MUNMAP: return {EINVAL, ENOMEM};
    case FSYNC: return {EIO, ENOSPC, EINTR, EDQUOT};
    case WRITE: return {ENOSPC, EIO, EDQUOT, EFBIG};
    case READ: return {EIO, EINTR, EISDIR};
    default: return {EIO, EINVAL};
    }
}
// nothing here allocates through the interposed calls while they are armed
static string fds() {
    string s;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return "?";
    while (auto *e = readdir(d)) {
        if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue;
        s += string(e->d_name) + " ";
    }
    closedir(d);
    return s;
}
static int maps_of(const string &path) {
    FILE *f = fopen("/proc/self/maps", "r");
    char line[4096];
    int n = 0;
    while (f && fgets(line, sizeof line, f)) n += strstr(line, path.c_str()) != nullptr;
    if (f) fclose(f);
    return n;
}
static string slurp(const string &p) {
    string s;
    FILE *f = fopen(p.c_str(), "rb");
    char b[65536];
    size_t n;
    while (f && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    if (f) fclose(f);
    return s;
}
static void put(const string &p, const string &b) {
    FILE *f = fopen(p.c_str(), "wb");
    fwrite(b.data(), 1, b.size(), f);
    fclose(f);
}
struct Res { bool ok; string err; shared_ptr<Graph> g; };
static Res attempt(const function<shared_ptr<Graph>()> &f) {
    Res r{true, "", nullptr};
    made.clear(), fired = 0, persist_kind = NCALL, regions.clear(), durable.clear();
    armed = true;
    try { r.g = f(); } catch (const exception &e) { r.ok = false; r.err = e.what(); } catch (...) { r.ok = false; r.err = "?"; }
    armed = false;
    return r;
}
int main(int argc, char **argv) {
    R.init(argc, argv);
    const char *e = getenv("VERIF_SHM");
    string dir = string(e && *e ? e : R.workdir.c_str()) + "/f" + to_string(getpid());
    mkdir(dir.c_str(), 0700);
    string path = dir + "/file";
    made.reserve(1 << 16);
    Scene S0{}, S1{{{0, 0}, {1000, 0}, {0, 1000}}, {{179000000, 5}, {180000000, 5}, {179500000, 1000000}}}, S2;
    for (int k = 0; k < 12; k++) S2.push_back({{k * 10000000, 0}, {k * 10000000 + 5000000, 0}, {k * 10000000, 7000000}, {k * 10000000 - 100, 3000000}});
    vector<Scene> scenes{S0, S1, S2};
    if (R.thorough) { Scene s; for (int k = 0; k < 60; k++) s.push_back({{-170000000 + k * 5000000, 0}, {-170000000 + k * 5000000 + 2500000, 0}, {-170000000 + k * 5000000, 7000000}}); scenes.push_back(s); }
    for (size_t si = 0; si < scenes.size(); si++) {
        auto g = make_shared<Graph>(PS(scenes[si]));
        auto v = g->get_vertices();
        for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) if ((i + 2 * j) % 3) g->add_edge(v[i], v[j], (i + j) % 2);
        GraphSerializer::serialize_to_file(g, path);
        const string want = slurp(path);
        const string shorter = want.substr(0, want.size() / 2), longer = want + string(100, 'x');
        struct State { const char *name; function<void()> set; };
        vector<State> priors{{"no file", [&] { ::unlink(path.c_str()); }}, {"the same graph", [&] { put(path, want); }}, {"a longer file", [&] { put(path, longer); }}, {"a shorter file", [&] { put(path, shorter); }}};
        auto save = [&]() -> shared_ptr<Graph> { GraphSerializer::serialize_to_file(g, path); return nullptr; };
        auto load = [&]() -> shared_ptr<Graph> { return GraphSerializer::deserialize_from_file(path); };
        for (int op = 0; op < 2; op++) {
            auto f = op ? function<shared_ptr<Graph>()>(load) : function<shared_ptr<Graph>()>(save);
            string opn = string(op ? "loading" : "saving") + " scene " + to_string(si);
            for (size_t pr = 0; pr < (op ? 1 : priors.size()); pr++) {
                auto prepare = [&] { if (op) put(path, want); else priors[pr].set(); };
                auto judge = [&](const string &plan) {
                    string fd0 = fds();
                    int m0 = maps_of(path);
                    auto r = attempt(f);
                    at1 = at2 = -1, persist = false;
                    R.stats["faults_injected"] += fired;
                    R.stats["calls_observed"] += made.size();
                    string ctx = opn + " over " + (op ? "the file" : priors[pr].name) + ", " + plan;
                    if (!fired) return false;
                    if (fds() != fd0) R.fail("", "descriptors left open (" + fds() + "instead of " + fd0 + ") after " + ctx);
                    if (maps_of(path) != m0) R.fail("", "a mapping of the file is left behind after " + ctx);
                    if (r.ok) {
                        R.stats["completed_despite_fault"]++;
                        if (op) { if (!r.g || !(*r.g == *g) || !(r.g->get_polygons() == g->get_polygons())) R.fail("", "success reported but another graph returned, " + ctx); }
                        else if (slurp(path) != want) R.fail("", "success reported but the graph was not stored, " + ctx);
                        else if (durable != want) R.fail("", "success reported but the graph was not written back to its device, " + ctx);
                    } else {
                        R.stats["reported"]++;
                        R.outcomes.insert(string(op ? "load: " : "save: ") + r.err.substr(0, r.err.find(dir)) + "...");
                    }
                    // the fault is gone: the same call succeeds
                    if (op) put(path, want);
                    auto a = attempt(f);
                    if (!a.ok) R.fail("", "fails again although the fault is gone (" + a.err + "), " + ctx);
                    else if (op ? !(*a.g == *g) : slurp(path) != want) R.fail("", "wrong result on the second try, " + ctx);
                    if (fds() != fd0 || maps_of(path) != m0) R.fail("", "second try leaks after " + ctx);
                    return true;
                };
                prepare();
                at1 = at2 = -1;
                auto r0 = attempt(f);
                auto calls = made;
                if (r0.ok && !op && durable != want) R.fail("", "success reported before the graph was written back to its device, " + opn);
                if (!r0.ok) { R.fail("", "fails without any fault: " + r0.err + ", " + opn); continue; }
                for (int k1 = 0; k1 < (int)calls.size(); k1++) {
                    if (!R.take()) continue;
                    R.nontrivial(), R.sample(opn + " over " + (op ? "the file" : priors[pr].name) + ": call " + to_string(k1) + " (" + NAME[calls[k1]] + ") fails");
                    for (int e1 : errnos(calls[k1])) {
                        string one = string(NAME[calls[k1]]) + " (call " + to_string(k1) + ") failing with errno " + to_string(e1);
                        prepare(), at1 = k1, err1 = e1;
                        judge(one);
                        prepare(), at1 = k1, err1 = e1, persist = true;
                        judge(one + " and every later " + NAME[calls[k1]]);
                        // a second failure at any later call, whatever path the first one leads to
                        for (int k2 = k1 + 1; k2 < 64; k2++) {
                            prepare(), at1 = k1, err1 = e1, at2 = k2, err2 = EIO;
                            auto rr = attempt(f);
                            bool reached = k2 < (int)made.size();
                            Call c2 = reached ? made[k2] : NCALL;
                            if (!reached) break;
                            for (int e2 : errnos(c2)) {
                                prepare(), at1 = k1, err1 = e1, at2 = k2, err2 = e2;
                                judge(one + ", then " + NAME[c2] + " (call " + to_string(k2) + ") with errno " + to_string(e2));
                            }
                        }
                    }
                }
            }
        }
        at1 = at2 = -1;
    }
    return R.finish("one case = one system call of one save or load (over four prior file states) made to fail with every plausible errno, alone, persistently and "
                    "followed by a second failure at every later call; descriptors and mappings compared before and after, then retried");
}
