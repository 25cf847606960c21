// Simulated disk under the real save_binary/load_binary: two engines ("processes"), a few files, every file system call of a
// file in the scratch directory decided by the simulator.
#include "simcore.hpp"
#include "arena.hpp"
#include "ddread.hpp"
#include "gates.hpp"
#include "rank_api.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <iostream>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dirent.h>
using namespace sim;

// ------------------------------------------------------------------ the disk
namespace disk {
static std::string dir;               // scratch directory; only files below it are simulated
static bool on = false;               // inside an engine save/load
static bool marked[4096];
static int pshort = 0, pintr = 0;     // 1/n chances, 0 = off
static long wfail_at = 0, rfail_at = 0, wcrash_at = 0, openfail = 0, closefail = 0, closelose = 0; // countdowns
static int werr = EIO;
static double crash_frac = 0;          // how much of the write in progress survives the power cut
static long budget = -1;              // bytes until the disk is full
static long writes = 0, reads = 0, hit = 0;
static bool crashed_child = false;
static void reset() { pshort = pintr = 0; wfail_at = rfail_at = wcrash_at = openfail = closefail = closelose = 0; budget = -1; werr = EIO; hit = 0; }
static bool ours(const char *p) { return on && p && !dir.empty() && strncmp(p, dir.c_str(), dir.size()) == 0; }
static bool ours(int fd) { return on && fd >= 0 && fd < 4096 && marked[fd]; }
static ssize_t dowrite(int fd, const char *b, size_t n) {
    arena::Pause ps;
    writes++;
    if (pintr && g_run->chance(1, pintr)) { g_run->count("fault_write_eintr"); errno = EINTR; return -1; }
    if (wcrash_at > 0 && --wcrash_at == 0) { // power cut: part of this write reaches the disk
        size_t part = (size_t)(crash_frac * (double)n);
        if (part) syscall(SYS_write, fd, b, part);
        _exit(77);
    }
    if (wfail_at > 0 && --wfail_at == 0) { wfail_at = 1; g_run->count(werr == EIO ? "fault_write_eio" : "fault_write_error"); hit++; errno = werr; return -1; }
    if (budget >= 0 && (long)n > budget) {
        if (budget == 0) { g_run->count("fault_disk_full"); hit++; errno = ENOSPC; return -1; }
        n = budget;
    }
    if (pshort && n > 1 && g_run->chance(1, pshort)) { n = 1 + g_run->pick((u32)n - 1); g_run->count("fault_short_write"); }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (r > 0 && budget >= 0) budget -= r;
    return r;
}
static ssize_t doread(int fd, char *b, size_t n) {
    arena::Pause ps;
    reads++;
    if (pintr && g_run->chance(1, pintr)) { g_run->count("fault_read_eintr"); errno = EINTR; return -1; }
    if (rfail_at > 0 && --rfail_at == 0) { rfail_at = 1; g_run->count("fault_read_eio"); hit++; errno = EIO; return -1; }
    if (pshort && n > 1 && g_run->chance(1, pshort)) { n = 1 + g_run->pick((u32)std::min<size_t>(n - 1, 4096)); g_run->count("fault_short_read"); }
    return syscall(SYS_read, fd, b, n);
}
static void closing(int fd) { // data of a delayed write can be lost when the file is closed
    if (closelose > 0 && closefail) { struct stat st; if (fstat(fd, &st) == 0) { off_t k = st.st_size > closelose ? st.st_size - closelose : 0; if (ftruncate(fd, k)) {} } }
}
} // namespace disk

template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t write(int fd, const void *b, size_t n) { return disk::ours(fd) ? disk::dowrite(fd, (const char *)b, n) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!disk::ours(fd)) return syscall(SYS_writev, fd, v, c);
    arena::Pause ps;
    std::string s;
    for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
    return disk::dowrite(fd, s.data(), s.size());
}
ssize_t read(int fd, void *b, size_t n) { return disk::ours(fd) ? disk::doread(fd, (char *)b, n) : syscall(SYS_read, fd, b, n); }
static FILE *simfopen(const char *p, const char *m, const char *fn) {
    bool o = disk::ours(p);
    if (o && disk::openfail > 0 && --disk::openfail == 0) { arena::Pause ps; g_run->count("fault_open_error"); disk::hit++; errno = m[0] == 'r' ? EIO : ENOSPC; return nullptr; }
    arena::Pause ps;
    FILE *f = next<FILE *(*)(const char *, const char *)>(fn)(p, m);
    if (f && fileno(f) < 4096) disk::marked[fileno(f)] = o;
    return f;
}
FILE *fopen(const char *p, const char *m) { return simfopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return simfopen(p, m, "fopen64"); }
static int simopen(const char *p, int fl, mode_t md) {
    bool o = disk::ours(p);
    if (o && disk::openfail > 0 && --disk::openfail == 0) { arena::Pause ps; g_run->count("fault_open_error"); disk::hit++; errno = (fl & 3) == 0 ? EIO : ENOSPC; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, md);
    if (fd >= 0 && fd < 4096) disk::marked[fd] = o;
    return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return simopen(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return simopen(p, fl, m); }
int fclose(FILE *f) {
    int fd = f ? fileno(f) : -1;
    bool o = disk::ours(fd);
    bool fail = false;
    if (o && disk::closefail > 0 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && --disk::closefail == 0) { disk::closefail = 1; disk::closing(fd); disk::closefail = 0; fail = true; arena::Pause ps; g_run->count("fault_close_error"); disk::hit++; }
    if (fd >= 0 && fd < 4096) disk::marked[fd] = false;
    arena::Pause ps;
    int r = next<int (*)(FILE *)>("fclose")(f);
    if (fail) { errno = EDQUOT; return EOF; }
    return r;
}
int close(int fd) {
    bool fail = false;
    if (disk::ours(fd) && disk::closefail > 0 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && --disk::closefail == 0) { disk::closefail = 1; disk::closing(fd); disk::closefail = 0; fail = true; arena::Pause ps; g_run->count("fault_close_error"); disk::hit++; }
    if (fd >= 0 && fd < 4096) disk::marked[fd] = false;
    int r = (int)syscall(SYS_close, fd);
    if (fail) { errno = EDQUOT; return -1; }
    return r;
}
}

// ------------------------------------------------------------------ engines
static const int NE = 3;
static std::vector<RankEngine *> engines;
struct SoloHub : simmpi::Hub { // one process on its own
    int n = 1;
    int size() override { return n; }
    [[noreturn]] void no() { throw Violation("harness", "message passing in a single process"); }
    long post_send(int, int, int, std::string, const void *, size_t, bool) override { no(); }
    long post_recv(int, int, int) override { no(); }
    bool test(int, long) override { no(); }
    void wait(int, long) override { no(); }
    std::string take(int, long, int *, int *) override { no(); }
    void drop(int, long) override {}
    bool probe(int, int, int, bool, int *, int *) override { no(); }
    std::vector<std::string> collective(int, const char *, int, std::string mine) override { return {mine}; }
    void note(int, const char *) override {}
};
static SoloHub hubs[NE];

struct V { ref::State s; double tol; };
struct File { bool exists = false, sure = false; std::vector<V> ok; std::string why; };
struct W {
    Run &R;
    V cur[NE];
    std::vector<V> ex[NE];
    File f[3];
    W(Run &r) : R(r) {}
    std::string path(int i) { return disk::dir + "/f" + std::to_string(i); }
    void cmp(const vEdge &e, const V &v, int E, const std::string &what) {
        ddr::check_state(e, v.s, v.tol, engines[E]->term(), what);
        ddr::ShareCheck sc;
        sc.walk(e.n, engines[E]->term(), ddr::z(e.w) ? -1 : v.s.n - 1);
    }
    void check(const std::string &what) {
        for (int E = 0; E < NE; E++) {
            cmp(engines[E]->cur(), cur[E], E, "state of process " + std::to_string(E) + " after '" + what + "'");
            auto x = engines[E]->extra();
            if (x.size() != ex[E].size()) throw Violation("harness", "bookkeeping");
            for (size_t i = 0; i < x.size(); i++) cmp(x[i], ex[E][i], E, "loaded state #" + std::to_string(i) + " of process " + std::to_string(E) + " after '" + what + "'");
            R.mix((u64)(uintptr_t)engines[E]->cur().n); R.mix(ddr::q9(engines[E]->cur().w.r));
        }
        R.state(ddr::shash(cur[0].s));
    }
    void faults(const Op &o, size_t p) { // short intr wfail werr budget closefail closelose openfail rfail crash
        disk::reset();
        disk::pshort = o.i(p); disk::pintr = o.i(p + 1); disk::wfail_at = o.i(p + 2);
        static const int errs[] = {EIO, ENOSPC, EDQUOT, EFBIG};
        disk::werr = errs[o.i(p + 3) & 3];
        disk::budget = o.i(p + 4, -1); disk::closefail = o.i(p + 5) ? 1 : 0; disk::closelose = o.i(p + 6); disk::openfail = o.i(p + 7); disk::rfail_at = o.i(p + 8); disk::wcrash_at = o.i(p + 9); disk::crash_frac = o.d(p + 10);
        if (disk::wcrash_at > 0) disk::pshort = disk::pintr = 0; // no choices inside the process that dies
    }
    void step(const Op &o) {
        const std::string &k = o.k;
        if (k == "new") {
            int E = o.i(0) % NE, n = 1 + o.i(1) % 7, form = o.i(2);
            hubs[E].n = form >= 2 ? 2 : 1;
            engines[E]->bind(&hubs[E], form == 3 ? 1 : 0); // forms 2,3: the slices of a two-process state, one of them empty
            { arena::Scope s; engines[E]->fresh(n + (form >= 2), 0); }
            hubs[E].n = 1;
            engines[E]->bind(&hubs[E], 0);
            cur[E] = {ref::State::basis(n, 0), 1e-8};
            if (form == 3) cur[E].s.a.clear();
        } else if (k == "g") {
            int E = o.i(0) % NE, n = cur[E].s.n;
            if (n < 1) return;
            { arena::Scope s; engines[E]->gate(o, 1, n, 0); }
            cur[E].s.apply(toRef(decG(o, 1, n))); cur[E].tol += 1e-9;
        } else if (k == "gc") { int E = o.i(0) % NE; { arena::Scope s; engines[E]->collect(0, o.i(1)); } R.count("collections"); }
        else if (k == "pick") { int E = o.i(0) % NE; if (!ex[E].empty()) { engines[E]->pick(o.i(1)); std::swap(cur[E], ex[E][o.i(1) % ex[E].size()]); } }
        else if (k == "save") {
            int E = o.i(0) % NE, i = o.i(1) % 3, w = o.i(2);
            V v = (w > 0 && !ex[E].empty()) ? ex[E][(w - 1) % ex[E].size()] : cur[E];
            std::string p = path(i);
            faults(o, 3);
            bool crash = disk::wcrash_at > 0, ok = true;
            std::string err;
            if (crash) {
                fflush(nullptr);
                disk::on = true;
                int pid = fork();
                if (pid == 0) { try { arena::Scope s; engines[E]->save(p.c_str(), w); } catch (...) { _exit(78); } _exit(0); }
                disk::on = false;
                int st = 0;
                while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
                if (WIFSIGNALED(st)) throw Violation("crash", "saving a state crashed with signal " + std::to_string(WTERMSIG(st)));
                int rc = WEXITSTATUS(st);
                if (rc == 77) { R.count("fault_crash_during_save"); ok = false; } else ok = rc == 0;
            } else {
                disk::on = true;
                try { arena::Scope s; engines[E]->save(p.c_str(), w); } catch (std::exception &e) { ok = false; arena::active = false; err = e.what(); }
                disk::on = false;
            }
            R.ev("save %d -> f%d %s", E, i, ok ? "ok" : "failed");
            File &F = f[i];
            struct stat st;
            if (ok) { F.exists = true; F.sure = true; F.ok = {v}; F.why = "saved successfully"; R.count("saves"); if (disk::hit) R.count("save_ok_despite_fault"); }
            else { F.exists = stat(p.c_str(), &st) == 0; F.sure = false; F.ok.push_back(v); F.why = "a save that failed"; R.count("failed_saves");
                if (!crash && !disk::hit) throw Violation("spurious-error", "saving failed although the disk did not: " + err); }
            disk::reset();
        } else if (k == "cut") { // the end of a file is lost (power cut after a completed save, copy that stopped half way)
            File &F = f[o.i(0) % 3];
            struct stat st;
            std::string p = path(o.i(0) % 3);
            if (stat(p.c_str(), &st) || st.st_size == 0) return;
            long cutb = o.i(1) == 0 ? 1 + (long)(o.d(2) * (double)(st.st_size - 1)) : std::min<long>(o.i(1), st.st_size);
            if (truncate(p.c_str(), st.st_size - cutb)) return;
            F.sure = false; F.why = "lost its last " + std::to_string(cutb) + " bytes";
            R.ev("cut f%d by %ld of %ld", o.i(0) % 3, cutb, (long)st.st_size);
            R.count("fault_truncated_file");
            cutf[o.i(0) % 3] = true;
        } else if (k == "load") {
            int E = o.i(0) % NE, i = o.i(1) % 3;
            std::string p = path(i);
            File &F = f[i];
            faults(o, 2);
            bool ok = true;
            std::string err;
            disk::on = true;
            try { arena::Scope s; engines[E]->load(p.c_str()); } catch (std::exception &e) { ok = false; arena::active = false; err = e.what(); }
            disk::on = false;
            long hit = disk::hit;
            disk::reset();
            R.ev("load f%d -> %d %s", i, E, ok ? "ok" : "failed");
            if (!ok) {
                R.count("failed_loads");
                if (F.exists && F.sure && !hit) throw Violation("lost-file", "a file that was " + F.why + " cannot be loaded: " + err);
            } else {
                R.count("loads");
                if (!F.exists) throw Violation("invented-state", "loading a file that was never written returned a state");
                auto x = engines[E]->extra();
                std::string first;
                bool good = false;
                V got;
                for (auto &v : F.ok) { try { cmp(x.back(), v, E, "the state loaded from a file (" + F.why + ")"); good = true; got = v; break; } catch (Violation &e) { first = e.what(); } }
                if (!good) throw Violation("wrong-load", first);
                if (ex[E].size() >= 4) ex[E].erase(ex[E].begin());
                ex[E].push_back(got);
            }
        } else if (k == "rm") { int i = o.i(0) % 3; unlink(path(i).c_str()); f[i] = File(); }
    }
    bool cutf[3] = {false, false, false};
};

static void exec(Run &R) {
    uint64_t off = 0;
    for (auto &o : R.ops) if (o.k == "cfg") off = (uint64_t)o.d(0);
    arena::init(off * 64);
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    W w(R);
    for (int i = 0; i < 3; i++) unlink(w.path(i).c_str());
    for (int E = 0; E < NE; E++) { engines[E]->bind(&hubs[E], 0); w.step(Op("new", {(double)E, 2, 0})); }
    std::string s;
    for (auto &o : R.ops) {
        if (o.k == "cfg") continue;
        crash_context(o.str().c_str());
        w.step(o);
        w.check(o.str());
        if (s.size() < 200) s += " " + o.k;
    }
    R.sample = "ops:" + s;
}

static void gen(u64 seed, std::vector<Op> &ops) {
    Rng r(seed);
    ops.push_back(Op("cfg", {(double)r.below(4096)}));
    bool cliff = r.chance(.3), calm = r.chance(.3);
    int maxn = 1 + r.below(7);
    int len = 6 + r.below(24);
    int n[NE];
    for (int E = 0; E < NE; E++) { n[E] = 1 + r.below(maxn); int form = r.chance(.85) ? 0 : 2 + r.below(2); ops.push_back(Op("new", {(double)E, (double)(n[E] - 1), (double)form})); }
    auto flt = [&](bool save) {
        std::vector<double> v(11, 0.0);
        v[4] = -1;
        if (calm && r.chance(.8)) return v;
        if (r.chance(.4)) v[0] = 1 + r.below(6);
        if (r.chance(.3)) v[1] = 3 + r.below(6);
        if (save) {
            double u = r.unit();
            if (u < .15) { v[2] = 1 + r.below(4); v[3] = r.below(4); }
            else if (u < .35) v[4] = r.chance(.5) ? r.below(200) : r.below(3000);
            else if (u < .45) { v[5] = 1; v[6] = 1 + r.below(r.chance(.5) ? 30 : 2000); }
            else if (u < .5) v[7] = 1;
            else if (u < .6) { v[9] = 1 + r.below(4); v[10] = r.unit(); }
        } else {
            double u = r.unit();
            if (u < .15) v[8] = 1 + r.below(3);
            else if (u < .2) v[7] = 1;
        }
        return v;
    };
    for (int i = 0; i < len; i++) {
        double u = r.unit();
        double E = r.below(NE), F = r.below(3);
        if (u < .3) { GD g = genG(r, n[(int)E], true, cliff, 2); Op o("g", {E}); auto v = encG(g); o.a.insert(o.a.end(), v.begin(), v.end()); ops.push_back(o); }
        else if (u < .34) { n[(int)E] = 1 + r.below(maxn); ops.push_back(Op("new", {E, (double)(n[(int)E] - 1), (double)(r.chance(.8) ? 0 : 2 + r.below(2))})); }
        else if (u < .40) ops.push_back(Op("gc", {E, (double)r.below(2)}));
        else if (u < .46) ops.push_back(Op("pick", {E, (double)r.below(4)}));
        else if (u < .68) { Op o("save", {E, F, (double)(r.chance(.7) ? 0 : 1 + r.below(4))}); auto v = flt(true); o.a.insert(o.a.end(), v.begin(), v.end()); ops.push_back(o); if (r.chance(.5)) { Op l("load", {(double)r.below(NE), F}); auto q = flt(false); l.a.insert(l.a.end(), q.begin(), q.end()); ops.push_back(l); } }
        else if (u < .75) { int m = r.below(3); ops.push_back(Op("cut", {F, (double)(m == 0 ? 1 + r.below(40) : 0), r.unit()})); }
        else if (u < .77) ops.push_back(Op("rm", {F}));
        else { Op o("load", {E, F}); auto v = flt(false); o.a.insert(o.a.end(), v.begin(), v.end()); ops.push_back(o); }
    }
}
static std::vector<Op> simpler(const Op &o) {
    std::vector<Op> v;
    size_t p = o.k == "save" ? 3 : o.k == "load" ? 2 : 0;
    if (p && o.a.size() > p) {
        { Op q = o; q.a.resize(p); v.push_back(q); }
        for (int i : {0, 1}) if (o.i(p + i)) { Op q = o; q.a[p + i] = 0; v.push_back(q); }
    }
    return v;
}

static std::string g_scratch;
static pid_t g_owner;
static void cleanup() {
    if (getpid() != g_owner || g_scratch.empty()) return;
    for (int i = 0; i < 3; i++) unlink((g_scratch + "/f" + std::to_string(i)).c_str());
    rmdir(g_scratch.c_str());
}
int main(int argc, char **argv) {
    char buf[4096]; ssize_t k = readlink("/proc/self/exe", buf, sizeof buf - 1); buf[k > 0 ? k : 0] = 0;
    std::string d = buf; d = d.substr(0, d.rfind('/'));
    if (getenv("QDD_SIM_NOASLR")) {
        std::string base = "/tmp";
        for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--out")) base = argv[i + 1];
        std::string t = base + "/qdisk-XXXXXX";
        if (!mkdtemp(&t[0])) { perror("scratch"); return 2; }
        g_scratch = t; g_owner = getpid();
        // file names of one fixed length whatever the scratch directory: part of making one seed one execution
        std::string up = t + "/";
        disk::dir = t;
        while (disk::dir.size() + 1 < 100) disk::dir += (99 - disk::dir.size()) % 2 || disk::dir.size() + 2 > 100 ? "/" : "/.";
        atexit(cleanup);
        for (int r = 0; r < NE; r++) {
            std::string p = d + "/libeng" + std::to_string(r) + ".so";
            void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
            engines.push_back(((RankEngine * (*)()) dlsym(h, "make_rank_engine"))());
        }
    }
    Sim s;
    s.name = "disk"; s.gen = gen; s.exec = exec; s.simpler = simpler; s.cpu_limit = 25;
    return sim_main(argc, argv, s);
}
