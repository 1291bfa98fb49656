// See rt.hpp. Compiled without instrumentation.
#include "rt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string;

namespace sched {
int team_size = 2;
std::function<void(const std::string &)> on_stuck;

typedef uint16_t Clk;
struct VC {
    Clk c[MAXT];
    void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
// ---- objects threads meet at: locks, guards, atomics -------------------------------------------------------------------
struct Obj {
    uintptr_t key;
    uint32_t gen;
    int writer, readers, depth; // lock state; writer is thread + 1
    uint32_t rmask;
    VC w, r;
    uint64_t signals;
};
static const int NOBJ = 1 << 16;
static Obj objs[NOBJ];
static uint32_t gen = 1;
static Obj &obj(const void *p) {
    uintptr_t k = (uintptr_t)p;
    for (size_t h = (k >> 2) * 0x9E3779B97F4A7C15ull >> 40;; h++) {
        Obj &o = objs[h & (NOBJ - 1)];
        if (o.key == k && o.gen == gen) return o;
        if (o.gen != gen) {
            bool held = o.key == k && false;
            (void)held;
            o.key = k, o.gen = gen, o.writer = o.readers = o.depth = 0, o.rmask = 0, o.signals = 0;
            for (int i = 0; i < MAXT; i++) o.w.c[i] = o.r.c[i] = 0;
            return o;
        }
    }
}
// ---- threads -----------------------------------------------------------------------------------------------------------
enum Op { RUN, LOCK_W, LOCK_R, LOCK_M, JOIN, BARRIER, GUARD, COND };
struct Team;
struct Thr {
    int sem = 0;
    bool fresh = false; // has not run since the team started
    bool live = false; // taking part in the running program
    Op op = RUN;
    const void *what = nullptr;
    uint64_t ticket = 0;
    VC vc;
    Team *team = nullptr;
    int num = 0; // number within the team
    uint64_t shared_loops = 0, singles = 0;
    std::function<void()> job;
    uintptr_t top = 0, low = 0; // its own stack since the team started
    pthread_t th;
    bool made = false;
};
struct Loop { bool init = false, up = true; unsigned long long next, end, incr, chunk; int left = 0; };
struct Team {
    int n, running;
    std::map<uint64_t, Loop> loops;
    std::set<uint64_t> singles;
    int arrived = 0;
    uint64_t phase = 0;
    VC meet;
};
static Thr T[MAXT];
static bool active = false;      // a program is running
static int cur = -1;
static __thread int me = -1;
static uint64_t steps;
static bool quiet = false;       // inside the runtime itself

static void fwait(int *s) {
    while (__atomic_load_n(s, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, s, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(s, 0, __ATOMIC_RELEASE);
}
static void fpost(int *s) {
    __atomic_store_n(s, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, s, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static inline bool on() { return active && me >= 0 && me == cur; }

// ---- the choice tree ---------------------------------------------------------------------------------------------------
struct Node { int opts, chosen; };
static std::vector<Node> path;
static size_t depth_;
static int used, bound;
static int race_bound = 1;
static bool free_work = true, release_points = true, symmetric = false;
static uint64_t points_, mism, nodes_;
static string failure;
static std::vector<std::pair<uint64_t, int>> switches;

void fail(const string &m) {
    bool q = quiet;
    quiet = true;
    if (failure.empty()) failure = m;
    quiet = q;
}
uint64_t now() { return ++steps; }

static bool enabled(int t) {
    Thr &x = T[t];
    if (!x.live) return false;
    switch (x.op) {
    case RUN: return true;
    case LOCK_W: { Obj &o = obj(x.what); return !o.writer && !o.readers; }
    case LOCK_R: return !obj(x.what).writer;
    case LOCK_M: { Obj &o = obj(x.what); return !o.writer || (o.writer == t + 1 && o.depth > 0 && x.ticket); }
    case GUARD: return !obj(x.what).writer;
    case JOIN: return ((Team *)x.what)->running == 0;
    case BARRIER: return ((Team *)x.what)->phase > x.ticket;
    case COND: return obj(x.what).signals > x.ticket;
    }
    return true;
}
static string schedule() {
    string s;
    for (auto &w : switches) s += " step " + std::to_string(w.first) + "->t" + std::to_string(w.second);
    return s.empty() ? " no switch" : s;
}
static void stuck() {
    quiet = true;
    string s = "deadlock:";
    static const char *names[] = {"running", "a write lock", "a read lock", "a mutex", "its workers", "a barrier", "an initialisation", "a condition"};
    for (int t = 0; t < MAXT; t++) if (T[t].live) s += " thread " + std::to_string(t) + " waits for " + names[T[t].op];
    on_stuck(s + ";" + schedule());
    _exit(96);
}
static int choose(bool cur_runs, bool free_switch) {
    int en[MAXT], n = 0;
    points_++;
    if (cur_runs && enabled(cur)) en[n++] = cur;
    bool curen = n > 0;
    bool unborn = false;
    for (int t = 0; t < MAXT; t++) {
        if (t == cur || !enabled(t)) continue;
        if (T[t].fresh && symmetric) { if (unborn) continue; unborn = true; }
        en[n++] = t;
    }
    if (cur_runs && !curen && enabled(cur)) en[n++] = cur;
    if (!n) stuck();
    bool costs = curen && !free_switch;
    int opts = n;
    if (costs && used >= bound) opts = 1;
    if (opts == 1) return en[0];
    int pick;
    if (depth_ < path.size()) {
        if (path[depth_].opts != opts) { mism++, nodes_++; path.resize(depth_); path.push_back({opts, 0}); }
        pick = path[depth_].chosen;
    } else {
        path.push_back({opts, 0});
        nodes_++;
        pick = 0;
    }
    depth_++;
    if (costs && pick) used++;
    return en[pick];
}
// before an operation: let another thread go first, or wait until the operation can be done
static void point(Op op, const void *what, uint64_t ticket = 0, bool free_switch = false) {
    Thr &x = T[me];
    x.op = op, x.what = what, x.ticket = ticket;
    if (++steps > 3000000) { quiet = true; on_stuck("no end in sight after 3000000 steps;" + schedule()); _exit(96); }
    bool q = quiet;
    quiet = true;
    int n = choose(true, free_switch);
    if (n != me) {
        switches.push_back({points_, n});
        cur = n;
        T[n].fresh = false;
        int self = me;
        fpost(&T[n].sem);
        fwait(&T[self].sem);
    }
    quiet = q;
    x.op = RUN;
}
static void leave() { // this thread is done
    quiet = true;
    int n = choose(false, true);
    switches.push_back({points_, n});
    cur = n;
    T[n].fresh = false;
    quiet = false;
    fpost(&T[n].sem);
}
static inline void tick(int t) { T[t].vc.c[t]++; }

static void *worker(void *p) {
    int id = (int)(intptr_t)p;
    me = id;
    for (;;) {
        fwait(&T[id].sem);
        T[id].op = RUN;
        T[id].top = (uintptr_t)__builtin_frame_address(0), T[id].low = T[id].top - (1 << 20);
        quiet = false;
        T[id].job();
        T[id].live = false;
        leave();
    }
    return nullptr;
}
static void run_team(int n, const std::function<void()> &fn) {
    Thr &m = T[me];
    if (!on() || m.team || n <= 1) { // nested or single
        Team *old = m.team;
        Team t;
        if (me >= 0) {
            t.n = 1, t.running = 0;
            int num = m.num;
            uint64_t sl = m.shared_loops, sg = m.singles;
            m.team = &t, m.num = 0, m.shared_loops = m.singles = 0;
            fn();
            m.team = old, m.num = num, m.shared_loops = sl, m.singles = sg;
        } else fn();
        return;
    }
    quiet = true;
    if (n > MAXT) n = MAXT;
    Team t;
    t.n = n, t.running = n - 1;
    for (int i = 0; i < MAXT; i++) t.meet.c[i] = 0;
    int self = me;
    m.team = &t, m.num = 0, m.shared_loops = m.singles = 0;
    int k = 0;
    for (int w = 0; w < MAXT && k < n - 1; w++) {
        if (w == self || T[w].live) continue;
        k++;
        T[w].vc.join(m.vc);
        tick(w);
        T[w].team = &t, T[w].num = k, T[w].shared_loops = T[w].singles = 0;
        T[w].op = RUN;
        T[w].job = [&t, w, &fn] {
            try {
                fn();
            } catch (abi::__forced_unwind &) {
                throw;
            } catch (const std::exception &e) {
                fail(string("an exception leaves a worker thread: ") + e.what());
            } catch (...) {
                fail("an exception leaves a worker thread");
            }
            quiet = true;
            t.meet.join(T[w].vc);
            tick(w);
            t.running--;
            T[w].team = nullptr;
            quiet = false;
        };
        T[w].live = T[w].fresh = true;
        if (!T[w].made) {
            T[w].made = true;
            pthread_create(&T[w].th, nullptr, worker, (void *)(intptr_t)w);
        }
    }
    tick(self);
    m.top = (uintptr_t)__builtin_frame_address(0), m.low = m.top - (1 << 20);
    quiet = false;
    try {
        fn();
    } catch (const std::exception &e) {
        fail(string("an exception leaves a worker thread: ") + e.what());
    }
    point(JOIN, &t);
    m.vc.join(t.meet);
    m.team = nullptr;
}
void team(int n, const std::function<void(int)> &body) {
    run_team(n, [&] { body(T[me].num); });
}

// ---- races -------------------------------------------------------------------------------------------------------------
struct Cell { uint32_t gen; Clk w[MAXT], r[MAXT]; };
struct Page { uintptr_t key; Cell *cells; };
static const int NPAGE = 1 << 16;
static Page pages[NPAGE];
static Cell *page(uintptr_t a, bool make) {
    static uintptr_t last = 0;
    static Cell *lastc = nullptr;
    uintptr_t k = a >> 12;
    if (k == last && lastc) return lastc;
    for (size_t h = k * 0x9E3779B97F4A7C15ull >> 40;; h++) {
        Page &p = pages[h & (NPAGE - 1)];
        if (p.key == k) { last = k; return lastc = p.cells; }
        if (!p.key) {
            if (!make) return nullptr;
            p.cells = (Cell *)mmap(nullptr, 4096 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            p.key = k;
            last = k;
            return lastc = p.cells;
        }
    }
}
static void access(uintptr_t a, size_t n, bool write, void *pc, bool atomic = false) {
    if (!on() || quiet || !T[me].team || T[me].team->n == 1) return;
    int t = me;
    // what a thread keeps on its own stack is its own; schedules with many preemptions repeat the accesses of those with fewer
    if ((a < T[t].top && a >= T[t].low) || used > race_bound) return;
    const VC &v = T[t].vc;
    for (; n; n--, a++) {
        Cell &c = page(a, true)[a & 4095];
        if (c.gen != gen) {
            c.gen = gen;
            for (int i = 0; i < MAXT; i++) c.w[i] = c.r[i] = 0;
        }
        for (int u = 0; u < MAXT; u++) {
            if (u == t) continue;
            if (c.w[u] > v.c[u] || (write && c.r[u] > v.c[u])) {
                if (failure.empty()) {
                    quiet = true;
                    char b[160];
                    snprintf(b, sizeof b, "data race: thread %d %s memory thread %d %s without synchronisation, at pc:%llx", t, write ? "writes" : "reads", u,
                             c.w[u] > v.c[u] ? "wrote" : "read", (unsigned long long)pc);
                    failure = b;
                    quiet = false;
                }
            }
        }
        if (!atomic) (write ? c.w : c.r)[t] = v.c[t];
    }
}
static void forget(uintptr_t a, size_t n) {
    if (!on()) return;
    while (n) {
        size_t in = 4096 - (a & 4095), k = n < in ? n : in;
        if (Cell *c = page(a, false)) for (size_t i = 0; i < k; i++) c[(a & 4095) + i].gen = 0;
        a += k, n -= k;
    }
}
string locate(const string &m) {
    size_t i = m.find("pc:");
    if (i == string::npos) return m;
    unsigned long long pc = strtoull(m.c_str() + i + 3, nullptr, 16), base = 0;
    char exe[400];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0) return m;
    exe[n] = 0;
    if (FILE *f = fopen("/proc/self/maps", "r")) {
        char line[600];
        while (fgets(line, sizeof line, f)) if (strstr(line, exe)) { base = strtoull(line, nullptr, 16); break; }
        fclose(f);
    }
    char cmd[700];
    snprintf(cmd, sizeof cmd, "addr2line -f -C -e '%s' 0x%llx 2>/dev/null", exe, pc - base - 1);
    string r;
    if (FILE *f = popen(cmd, "r")) {
        char line[400];
        if (fgets(line, sizeof line, f)) r = line;
        pclose(f);
    }
    while (!r.empty() && r.back() == '\n') r.pop_back();
    size_t e = m.find_first_not_of("0123456789abcdef", i + 3);
    return m.substr(0, i) + (r.empty() ? m.substr(i) : r.substr(0, 200)) + (e == string::npos ? "" : m.substr(e));
}

// ---- exploration -------------------------------------------------------------------------------------------------------
static void put(int fd, const void *p, size_t n) {
    for (const char *c = (const char *)p; n;) {
        ssize_t k = write(fd, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) _exit(95);
        c += k, n -= k;
    }
}
static int child_fd = -1;
string in_child(const std::function<string()> &f) {
    int p[2];
    if (pipe(p)) abort();
    pid_t parent = getpid(), pid = fork();
    if (pid < 0) abort();
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(95);
        close(p[0]);
        child_fd = p[1];
        string s = f();
        put(p[1], s.data(), s.size());
        _exit(0);
    }
    close(p[1]);
    string s;
    char b[65536];
    for (;;) {
        ssize_t k = read(p[0], b, sizeof b);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        s.append(b, k);
    }
    close(p[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) kill(getpid(), WTERMSIG(st)), abort();
    if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    return s;
}
void leave_child(const string &s) {
    put(child_fd, s.data(), s.size());
    _exit(0);
}
static void execute(const std::function<void()> &program, const std::function<void()> &check) {
    depth_ = 0, used = 0, points_ = 0, steps = 0;
    failure.clear(), switches.clear();
    gen++;
    for (int i = 0; i < MAXT; i++) {
        T[i].live = T[i].fresh = false, T[i].team = nullptr, T[i].op = RUN, T[i].sem = 0;
        for (int j = 0; j < MAXT; j++) T[i].vc.c[j] = 0;
        T[i].vc.c[i] = 1;
    }
    me = 0, cur = 0;
    T[0].live = T[0].made = true;
    active = true;
    quiet = false;
    program();
    active = false;
    if (failure.empty() && check) check();
}
static string executed() { // what an execution leaves behind
    string s;
    auto num = [&](uint64_t x) { s.append((const char *)&x, 8); };
    num(points_), num(used), num(nodes_), num(mism), num(path.size());
    for (auto &n : path) num(n.opts), num(n.chosen);
    string w = failure.empty() ? "" : schedule();
    num(w.size());
    return s + w + failure;
}
static string execute_cold(const std::function<void()> &program, const std::function<void()> &check) {
    string s = in_child([&] {
        on_stuck = [](const string &m) { // on any thread: the process ends here
            failure = m;
            leave_child(executed());
        };
        execute(program, check);
        return executed();
    });
    size_t at = 0;
    auto num = [&] { uint64_t x = 0; if (at + 8 > s.size()) abort(); memcpy(&x, s.data() + at, 8); at += 8; return x; };
    points_ = num(), used = num(), nodes_ = num(), mism = num();
    path.resize(num());
    for (auto &n : path) n.opts = num(), n.chosen = num();
    size_t n = num();
    failure = s.substr(at + n);
    return s.substr(at, n);
}
Outcome explore(const Limits &l, const std::function<void()> &program, const std::function<void()> &check) {
    Outcome o;
    path.clear();
    bound = l.preemptions, free_work = l.free_work, release_points = l.release_points, symmetric = l.symmetric, race_bound = l.race_preemptions;
    uint64_t mism0 = mism, nodes0 = nodes_;
    for (;;) {
        string where;
        if (l.cold) where = execute_cold(program, check);
        else execute(program, check);
        o.executions++, o.points += points_;
        if (points_ > o.max_points) o.max_points = points_;
        o.preempted += used > 0;
        o.nodes = nodes_ - nodes0;
        if (!failure.empty()) {
            o.failure = failure, o.where = l.cold ? where : schedule();
            me = -1;
            return o;
        }
        while (!path.empty() && path.back().chosen + 1 >= path.back().opts) path.pop_back();
        if (path.empty()) break;
        path.back().chosen++;
        if (o.executions >= l.max_executions || (l.stop && l.stop())) { o.finished = false; break; }
    }
    me = -1;
    o.mismatches = mism - mism0;
    return o;
}

// ---- operations --------------------------------------------------------------------------------------------------------
static void acquire(const VC &c) { T[me].vc.join(c); }
static void release(VC &c) { c.join(T[me].vc); tick(me); }
static bool lock_x(const void *m, Op op, bool try_only, bool recursive = false) {
    if (on() && !quiet) {
        if (try_only) { point(RUN, nullptr); if (obj(m).writer || obj(m).readers) return false; }
        else if (recursive && obj(m).writer == me + 1) { obj(m).depth++; return true; }
        else point(op, m);
        Obj &o = obj(m);
        o.writer = me + 1, o.depth = 1;
        acquire(o.w), acquire(o.r);
    }
    return true;
}
static void unlock_any(const void *m) {
    if (!on() || quiet) return;
    if (release_points) point(RUN, nullptr);
    else steps++;
    Obj &o = obj(m);
    if (o.writer) {
        if (o.writer != me + 1) fail("a lock is released by a thread that does not hold it");
        if (--o.depth > 0) return;
        o.writer = 0;
        release(o.w);
    } else if (o.readers) {
        o.readers--;
        release(o.r);
    } else fail("a lock that nobody holds is released");
}
static bool lock_s(const void *m, bool try_only) {
    if (on() && !quiet) {
        if (try_only) { point(RUN, nullptr); if (obj(m).writer) return false; }
        else point(LOCK_R, m);
        Obj &o = obj(m);
        o.readers++;
        acquire(o.w);
    }
    return true;
}
static void barrier() {
    if (!on()) return;
    Team *t = T[me].team;
    if (!t || t->n == 1) return;
    uint64_t ph = t->phase;
    t->meet.join(T[me].vc);
    tick(me);
    if (++t->arrived == t->n) t->arrived = 0, t->phase++;
    point(BARRIER, t, ph);
    T[me].vc.join(t->meet);
}
static bool loop_next(unsigned long long *a, unsigned long long *b) {
    Thr &x = T[me >= 0 ? me : 0];
    Loop &l = x.team->loops[x.shared_loops];
    // once no work is left there is nothing to choose
    if (on() && !(l.up ? l.next >= l.end : l.next <= l.end)) point(RUN, nullptr, 0, free_work);
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    *a = l.next;
    unsigned long long step = l.incr * l.chunk;
    if (l.up) { *b = l.end - l.next <= step ? l.end : l.next + step; }
    else { *b = l.next - l.end <= 0 - step ? l.end : l.next + step; }
    l.next = *b;
    return true;
}
static thread_local Team solo;
static bool loop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long *a, unsigned long long *b) {
    Thr &x = T[me >= 0 ? me : 0];
    if (!x.team) { solo.n = 1; x.team = &solo; solo.loops.clear(); }
    Loop &l = x.team->loops[++x.shared_loops];
    if (!l.init) l.init = true, l.up = up, l.next = s, l.end = e, l.incr = incr, l.chunk = chunk ? chunk : 1;
    return loop_next(a, b);
}
} // namespace sched
using namespace sched;

extern "C" {
// ---- libgomp -----------------------------------------------------------------------------------------------------------
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(n ? n : team_size, [=] { fn(data); }); }
typedef unsigned long long ull;
#define LOOPS(kind)                                                                                                                       \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return loop_start(up, s, e, i, c, a, b); }     \
    bool GOMP_loop_ull_##kind##_next(ull *a, ull *b) { return loop_next(a, b); }                                                           \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) {                                                      \
        /* signed bounds are shifted to keep their order */                                                                               \
        ull x, y, off = 1ull << 63;                                                                                                       \
        if (!loop_start(i > 0, s + off, e + off, i, c, &x, &y)) return false;                                                              \
        *a = x - off, *b = y - off;                                                                                                       \
        return true;                                                                                                                      \
    }                                                                                                                                     \
    bool GOMP_loop_##kind##_next(long *a, long *b) {                                                                                      \
        ull x, y, off = 1ull << 63;                                                                                                       \
        if (!loop_next(&x, &y)) return false;                                                                                              \
        *a = x - off, *b = y - off;                                                                                                       \
        return true;                                                                                                                      \
    }                                                                                                                                     \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) {                 \
        run_team(n ? n : team_size, [=] {                                                                                                  \
            Thr &x = T[me >= 0 ? me : 0];                                                                                                  \
            Team *t = x.team;                                                                                                             \
            if (!t) { solo.n = 1; x.team = t = &solo; solo.loops.clear(); }                                                               \
            Loop &l = t->loops[++x.shared_loops];                                                                                          \
            ull off = 1ull << 63;                                                                                                         \
            if (!l.init) l.init = true, l.up = i > 0, l.next = s + off, l.end = e + off, l.incr = i, l.chunk = c ? c : 1;                   \
            fn(data);                                                                                                                     \
        });                                                                                                                               \
    }
LOOPS(dynamic)
LOOPS(nonmonotonic_dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_guided)
#define LOOPSR(kind)                                                                                                                      \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return loop_start(up, s, e, i, 1, a, b); }            \
    bool GOMP_loop_ull_##kind##_next(ull *a, ull *b) { return loop_next(a, b); }                                                           \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }           \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }                                                \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) {                       \
        GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);                                                                            \
    }
LOOPSR(runtime)
LOOPSR(nonmonotonic_runtime)
LOOPSR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
static int gomp_critical, gomp_atomic;
void GOMP_critical_start() { lock_x(&gomp_critical, LOCK_M, false); }
void GOMP_critical_end() { unlock_any(&gomp_critical); }
void GOMP_critical_name_start(void **p) { lock_x(p, LOCK_M, false); }
void GOMP_critical_name_end(void **p) { unlock_any(p); }
void GOMP_atomic_start() { lock_x(&gomp_atomic, LOCK_M, false); }
void GOMP_atomic_end() { unlock_any(&gomp_atomic); }
bool GOMP_single_start() {
    if (!on() || !T[me].team) return true;
    point(RUN, nullptr, 0, true);
    return T[me].team->singles.insert(++T[me].singles).second;
}
unsigned GOMP_sections_start(unsigned n) {
    ull a, b;
    return loop_start(true, 1, n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next() {
    ull a, b;
    return loop_next(&a, &b) ? (unsigned)a : 0;
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, 1, count + 1, 1, 1, f); }
void GOMP_taskwait() {}
int omp_get_num_threads() { return me >= 0 && T[me].team ? T[me].team->n : 1; }
int omp_get_thread_num() { return me >= 0 && T[me].team ? T[me].num : 0; }
int omp_get_max_threads() { return team_size; }
int omp_get_num_procs() { return team_size; }
int omp_in_parallel() { return me >= 0 && T[me].team && T[me].team->n > 1; }
void omp_set_num_threads(int n) { (void)n; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_level() { return omp_in_parallel(); }
double omp_get_wtime() { return 0; }
typedef struct { char x[8]; } olock;
void omp_init_lock(olock *) {}
void omp_destroy_lock(olock *) {}
void omp_set_lock(olock *l) { lock_x(l, LOCK_M, false); }
void omp_unset_lock(olock *l) { unlock_any(l); }
int omp_test_lock(olock *l) { return lock_x(l, LOCK_M, true); }

// ---- pthread -----------------------------------------------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t *m) { lock_x(m, LOCK_M, false, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock_x(m, LOCK_M, true) ? 0 : EBUSY; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { lock_x(m, LOCK_M, false); return 0; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { lock_x(m, LOCK_M, false); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { unlock_any(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { lock_s(m, false); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return lock_s(m, true) ? 0 : EBUSY; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { lock_x(m, LOCK_W, false); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return lock_x(m, LOCK_W, true) ? 0 : EBUSY; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *) { lock_s(m, false); return 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *) { lock_x(m, LOCK_W, false); return 0; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t, const struct timespec *) { lock_s(m, false); return 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t, const struct timespec *) { lock_x(m, LOCK_W, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { unlock_any(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) { lock_x((void *)m, LOCK_M, false); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *m) { unlock_any((void *)m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on() || quiet) return 0;
    uint64_t seen = obj(c).signals;
    pthread_mutex_unlock(m);
    point(COND, c, seen);
    acquire(obj(c).w);
    pthread_mutex_lock(m);
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { if (on() && !quiet) { point(RUN, nullptr); obj(c).signals++; release(obj(c).w); } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }
int sched_yield() { if (on() && !quiet) point(RUN, nullptr, 0, true); return 0; }

// ---- function-local statics --------------------------------------------------------------------------------------------
int __cxa_guard_acquire(uint64_t *g) {
    if (*(char *)g) { if (on()) acquire(obj(g).w); return 0; }
    if (on() && !quiet) {
        point(GUARD, g);
        acquire(obj(g).w);
        if (*(char *)g) return 0;
        obj(g).writer = me + 1;
    }
    return 1;
}
void __cxa_guard_release(uint64_t *g) {
    *(char *)g = 1;
    if (on() && !quiet) { obj(g).writer = 0; release(obj(g).w); }
}
void __cxa_guard_abort(uint64_t *g) { if (on()) obj(g).writer = 0; }

// ---- compiler instrumentation ------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
#define RW(n)                                                                                       \
    void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, PC); }                            \
    void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, PC); }                            \
    void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, PC); }                  \
    void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, PC); }                  \
    void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, PC); }                   \
    void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { (void)p; }
void __tsan_vptr_read(void **) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }
} // extern "C"

template <class V> static V a_load(V *p, int mo, void *pc) {
    if (on() && !quiet) {
        point(RUN, nullptr);
        access((uintptr_t)p, sizeof(V), false, pc, true);
        if (mo != __ATOMIC_RELAXED) acquire(obj(p).w);
    }
    return *p;
}
template <class V> static void a_store(V *p, V v, int mo, void *pc) {
    if (on() && !quiet) {
        point(RUN, nullptr);
        access((uintptr_t)p, sizeof(V), true, pc, true);
        *p = v;
        if (mo != __ATOMIC_RELAXED) release(obj(p).w);
        return;
    }
    *p = v;
}
// The reference counts of shared pointers are the only read-modify-writes of this order; increments order nothing, the last
// decrement comes after the others. They commute, so they are no points of choice.
template <class V, class F> static V a_rmw(V *p, F f, int mo, void *pc, bool count) {
    bool c = on() && !quiet;
    if (c && !count) { point(RUN, nullptr); access((uintptr_t)p, sizeof(V), true, pc, true); }
    V old = *p;
    V nw = f(old);
    *p = nw;
    if (c) {
        if (count) {
            if (nw < old) { release(obj(p).w); if (!nw) acquire(obj(p).w); }
        } else if (mo != __ATOMIC_RELAXED) {
            acquire(obj(p).w);
            release(obj(p).w);
        }
    }
    return old;
}
template <class V> static bool a_cas(V *p, V *e, V v, int mo, void *pc) {
    if (on() && !quiet) { point(RUN, nullptr); access((uintptr_t)p, sizeof(V), true, pc, true); if (mo != __ATOMIC_RELAXED) acquire(obj(p).w); }
    if (*p == *e) { *p = v; if (on() && !quiet && mo != __ATOMIC_RELAXED) release(obj(p).w); return true; }
    *e = *p;
    return false;
}
#define COUNT(V, mo) (sizeof(V) == 4 && (mo) == __ATOMIC_ACQ_REL)
#define ATOMICS(n, V)                                                                                                                        \
    V __tsan_atomic##n##_load(V *p, int mo) { return a_load(p, mo, PC); }                                                                     \
    void __tsan_atomic##n##_store(V *p, V v, int mo) { a_store(p, v, mo, PC); }                                                               \
    V __tsan_atomic##n##_exchange(V *p, V v, int mo) { return a_rmw(p, [=](V) { return v; }, mo, PC, false); }                                \
    V __tsan_atomic##n##_fetch_add(V *p, V v, int mo) { return a_rmw(p, [=](V o) { return (V)(o + v); }, mo, PC, COUNT(V, mo)); }             \
    V __tsan_atomic##n##_fetch_sub(V *p, V v, int mo) { return a_rmw(p, [=](V o) { return (V)(o - v); }, mo, PC, COUNT(V, mo)); }             \
    V __tsan_atomic##n##_fetch_and(V *p, V v, int mo) { return a_rmw(p, [=](V o) { return (V)(o & v); }, mo, PC, false); }                    \
    V __tsan_atomic##n##_fetch_or(V *p, V v, int mo) { return a_rmw(p, [=](V o) { return (V)(o | v); }, mo, PC, false); }                     \
    V __tsan_atomic##n##_fetch_xor(V *p, V v, int mo) { return a_rmw(p, [=](V o) { return (V)(o ^ v); }, mo, PC, false); }                    \
    V __tsan_atomic##n##_fetch_nand(V *p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) ~(o & v); }, mo, PC, false); }                 \
    int __tsan_atomic##n##_compare_exchange_strong(V *p, V *e, V v, int mo, int) { return a_cas(p, e, v, mo, PC); }                           \
    int __tsan_atomic##n##_compare_exchange_weak(V *p, V *e, V v, int mo, int) { return a_cas(p, e, v, mo, PC); }                             \
    V __tsan_atomic##n##_compare_exchange_val(V *p, V e, V v, int mo, int) { a_cas(p, &e, v, mo, PC); return e; }
extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
}

// ---- allocation --------------------------------------------------------------------------------------------------------
static void *get(size_t n, size_t al = 0) {
    void *p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (p && on() && !quiet) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
static void give(void *p, void *pc) {
    if (!p) return;
    if (on() && !quiet) {
        size_t n = malloc_usable_size(p);
        if (n <= 65536) access((uintptr_t)p, n, true, pc);
        forget((uintptr_t)p, n);
    }
    free(p);
}
void *operator new(size_t n) { if (void *p = get(n)) return p; throw std::bad_alloc(); }
void *operator new[](size_t n) { if (void *p = get(n)) return p; throw std::bad_alloc(); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new(size_t n, std::align_val_t a) { if (void *p = get(n, (size_t)a)) return p; throw std::bad_alloc(); }
void *operator new[](size_t n, std::align_val_t a) { if (void *p = get(n, (size_t)a)) return p; throw std::bad_alloc(); }
void operator delete(void *p) noexcept { give(p, PC); }
void operator delete[](void *p) noexcept { give(p, PC); }
void operator delete(void *p, size_t) noexcept { give(p, PC); }
void operator delete[](void *p, size_t) noexcept { give(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { give(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { give(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { give(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p, PC); }
