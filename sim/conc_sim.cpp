// The engine's lock-free components on simulated threads: the work-stealing queue (C13) and epoch reclamation (C14).
#include "mtrt.hpp"
#include "wsq.hpp"
#include "epoch.h"
#include <memory>
#include <thread>
#include <iostream>

using namespace sim;

enum Profile { P_WSQ = 13, P_EPOCH = 14 };
static int g_profile = P_WSQ;

static mt::Cfg cfg_of(const Op &o) {
    // cfg profile qlog spurious stall fair weak addr
    mt::Cfg c;
    c.qlog = std::max(1, std::min(16, o.i(1, 10)));
    c.spurious = o.i(2);
    c.stall = o.i(3);
    c.fair = std::max(20, o.i(4, 400));
    c.hb = true;
    c.weak = o.i(5) != 0;
    c.addr = (u64)std::max(0, o.i(6));
    c.quarantine = true;
    return c;
}

struct Start { // simulated threads begin together
    std::atomic<int> go{0};
};

// ------------------------------------------------------------------ C13
typedef WorkStealingQueue<u64> Q;
struct Ev { int kind; int tid; u64 val; bool got; u64 inv, res; }; // kind 0 push, 1 pop, 2 steal
static void exec_wsq(Run &R) {
    std::vector<Op> owner;
    std::vector<std::vector<Op>> thief;
    int cap = 2, quiet = 0;
    for (auto &o : R.ops) {
        if (o.k == "cap") { int l = std::max(0, std::min(5, o.i(0))); cap = 1 << l; }
        else if (o.k == "st") { size_t t = std::max(0, std::min(4, o.i(0))); if (thief.size() <= t) thief.resize(t + 1); thief[t].push_back(o); }
        else if (o.k == "quiet") quiet = o.i(0);
        else if (o.k != "cfg") owner.push_back(o);
    }
    crash_context("work-stealing queue");
    Q q(cap);
    std::vector<Ev> H;
    auto rec = [&](int kind, int tid, u64 val, bool got, u64 inv) { mt::Quiet z; H.push_back({kind, tid, val, got, inv, mt::steps()}); };
    u64 next = 0;
    auto own = [&]() {
        for (auto &o : owner) {
            if (o.k == "push") {
                int n = std::max(1, std::min(40, o.i(0)));
                for (int k = 0; k < n; k++) {
                    u64 inv = mt::steps();
                    bool ok = true;
                    if (o.i(1)) mt::fail_alloc(o.i(1));
                    try { q.push(next + 1); } catch (std::bad_alloc &) { ok = false; }
                    mt::fail_alloc(0);
                    if (ok) { next++; rec(0, 0, next, true, inv); }
                }
            } else if (o.k == "pop") {
                int n = std::max(1, std::min(40, o.i(0)));
                for (int k = 0; k < n; k++) {
                    u64 inv = mt::steps();
                    auto v = q.pop();
                    rec(1, 0, v ? *v : 0, v.has_value(), inv);
                }
            } else if (o.k == "wait") for (int i = 0; i < std::min(50, o.i(0)); i++) mt::point();
            else if (o.k == "size") { size_t s = q.size(); bool e = q.empty(); (void)e; if (s > next) mt::fail("size", "the owner sees more items than were ever pushed"); }
        }
    };
    auto steal = [&](int t) {
        for (auto &o : thief[t]) {
            int n = std::max(1, std::min(60, o.i(1)));
            for (int k = 0; k < n; k++) {
                u64 inv = mt::steps();
                auto v = q.steal();
                rec(2, t + 1, v ? *v : 0, v.has_value(), inv);
                if (o.i(2)) { (void)q.size(); (void)q.empty(); (void)q.capacity(); }
            }
        }
    };
    {
        std::vector<std::thread> th;
        if (quiet & 1) own();
        for (size_t t = 0; t < thief.size(); t++) th.emplace_back(steal, (int)t);
        if (!(quiet & 1)) own();
        for (auto &t : th) t.join();
    }
    mt::progress();
    // quiescent: what is left comes out, and nothing else
    u64 steals_end = 0;
    std::vector<Ev> conc = H;
    std::set<u64> out;
    auto take = [&](const Ev &e) {
        if (e.val == 0 || e.val > next) mt::fail("invented-item", "an item was returned that was never pushed");
        if (!out.insert(e.val).second) mt::fail("item-twice", "item " + std::to_string(e.val) + " was handed out twice");
    };
    std::map<u64, u64> pushed;
    mt::Quiet *mq = new mt::Quiet;
    u64 pushes = 0, pops = 0, stolen = 0, failed = 0, lastpop = 0;
    for (auto &e : H) {
        if (e.kind == 0) { pushed[e.val] = e.inv; pushes++; continue; }
        if (!e.got) { failed++; continue; }
        take(e);
        if (!pushed.count(e.val)) { bool later = false; for (auto &x : H) if (x.kind == 0 && x.val == e.val && x.inv < e.res) later = true; if (!later) mt::fail("invented-item", "an item was returned before it was pushed"); }
        if (e.kind == 1) pops++; else stolen++;
    }
    // order: thieves take the oldest item, the owner the newest
    for (size_t i = 0; i < H.size(); i++) {
        const Ev &a = H[i];
        if (a.kind != 2 || !a.got) continue;
        for (size_t j = 0; j < H.size(); j++) {
            const Ev &b = H[j];
            if (b.kind == 2 && b.got && a.res < b.inv && b.val < a.val) mt::fail("steal-order", "item " + std::to_string(b.val) + " was stolen after the newer item " + std::to_string(a.val));
        }
    }
    for (auto &e : H) if (e.kind == 1) {
        // items pushed before this pop that nobody had taken, or begun to take, when it answered
        u64 newest = 0;
        for (auto &p : H) if (p.kind == 0 && p.res <= e.inv) {
            bool gone = false;
            for (auto &x : H) if (x.kind != 0 && x.got && x.val == p.val && (&x == &e ? false : x.kind == 1 ? x.res <= e.inv : x.inv < e.res)) gone = true;
            if (!gone) newest = std::max(newest, p.val);
        }
        if (!e.got && newest) mt::fail("pop-missed", "the owner found the queue empty although item " + std::to_string(newest) + " was in it");
        if (e.got && newest > e.val) mt::fail("pop-order", "the owner got item " + std::to_string(e.val) + " although the newer item " + std::to_string(newest) + " was in the queue");
    }
    delete mq;
    size_t left = next - out.size();
    if (q.size() != left || q.empty() != (left == 0)) mt::fail("size", "the queue reports " + std::to_string(q.size()) + " items when " + std::to_string(left) + " are left");
    for (size_t k = 0; k < left; k++) {
        bool st = (quiet >> 1) % 3 == 1 || ((quiet >> 1) % 3 == 2 && k % 2);
        u64 lo = 0, hi = 0;
        for (u64 v = 1; v <= next; v++) if (!out.count(v)) { if (!lo) lo = v; hi = v; }
        auto v = st ? q.steal() : q.pop();
        if (!v) mt::fail("item-lost", std::to_string(left - k) + " of " + std::to_string(next) + " items cannot be got out of the queue any more");
        if (*v != (st ? lo : hi)) { if (out.count(*v)) mt::fail("item-twice", "item " + std::to_string(*v) + " was handed out twice"); mt::fail("order", "the quiescent queue returned item " + std::to_string(*v) + " instead of " + std::to_string(st ? lo : hi)); }
        out.insert(*v);
        steals_end += st;
    }
    if (q.pop() || q.steal()) mt::fail("invented-item", "an empty queue returned an item");
    if (out.size() != next) mt::fail("item-lost", "items were lost");
    R.count("pushes", pushes); R.count("pops", pops); R.count("steals", stolen); R.count("failed_takes", failed); R.count("drained", left);
    if (q.capacity() > cap) R.count("queues_grown");
    for (auto &e : H) { R.mix(e.kind * 1000003 + e.tid * 101 + e.val * 7 + e.got); }
    u64 h = 0;
    for (auto &e : H) if (e.kind) h = h * 1000003 + e.kind * 31 + e.val * 7 + e.got;
    R.state(h);
}

// ------------------------------------------------------------------ C14
struct Obj { u64 magic; u64 no; u64 pad; };
static const u64 MAGIC = 0x5ca1ab1e0ddba11ull;
static void exec_epoch(Run &R) {
    std::vector<std::vector<Op>> prog(1);
    int nslots = 2, thr = 2, relink = 0;
    for (auto &o : R.ops) {
        if (o.k == "ep") { nslots = std::max(1, std::min(4, o.i(0))); thr = std::max(0, std::min(200, o.i(1))); relink = o.i(2); }
        else if (o.k == "cfg") continue;
        else { size_t t = std::max(0, std::min(4, o.i(0))); if (prog.size() <= t) prog.resize(t + 1); prog[t].push_back(o); }
    }
    crash_context("epoch reclamation");
    std::vector<Obj *> retired, all;
    u64 nread = 0, nrep = 0, maxback = 0, given = 0;
    {
        std::unique_ptr<Epoch> ep(new Epoch(thr));
        std::atomic<Obj *> slot[4];
        auto mk = [&]() { Obj *o = new Obj; o->magic = MAGIC; o->no = 0; mt::Quiet q; all.push_back(o); return o; };
        for (int i = 0; i < nslots; i++) slot[i].store(mk(), std::memory_order_release);
        auto use = [&](Obj *o, int n) {
            for (int k = 0; k < n; k++) {
                if (*(volatile u64 *)&o->magic != MAGIC) mt::fail("use-after-free", "an object reached inside an epoch changed under its reader");
                mt::point();
            }
        };
        auto retire = [&](Obj *o, ThreadInfo &ti, int fa) {
            if (fa) mt::fail_alloc(fa);
            bool done = false;
            try { ep->markNodeForDeletion(o, ti); done = true; } catch (std::bad_alloc &) {}
            mt::fail_alloc(0);
            if (!done) { mt::Quiet q; given++; return; } // not retired: still the caller's object
            mt::Quiet q;
            retired.push_back(o);
        };
        auto body = [&](int t) {
            std::unique_ptr<ThreadInfo> ti(new ThreadInfo(*ep));
            for (auto &o : prog[t]) {
                if (o.k == "rd") {       // rd t slot uses reps ro
                    for (int r = 0; r < std::max(1, std::min(12, o.i(3))); r++) {
                        int s = ((o.i(1) + r) % nslots + nslots) % nslots, n = std::max(1, std::min(12, o.i(2)));
                        if (o.i(4)) { EpochGuardReadonly g(*ti); use(slot[s].load(std::memory_order_acquire), n); }
                        else {
                            EpochGuard g(*ti);
                            Obj *a = slot[s].load(std::memory_order_acquire);
                            use(a, n);
                            if (nslots > 1) { Obj *b = slot[(s + 1) % nslots].load(std::memory_order_acquire); use(b, n); use(a, 1); }
                        }
                        mt::Quiet q; nread++;
                    }
                } else if (o.k == "rep") { // rep t slot count use failalloc
                    int n = std::max(1, std::min(100, o.i(2)));
                    for (int r = 0; r < n; r++) {
                        int s = ((o.i(1) + r) % nslots + nslots) % nslots;
                        Obj *nw = mk();
                        EpochGuard g(*ti);
                        Obj *old = slot[s].exchange(nw);
                        if (o.i(3)) use(old, o.i(3));
                        retire(old, *ti, o.i(4));
                        mt::Quiet q; nrep++;
                    }
                } else if (o.k == "bulk") { // several objects retired inside one epoch
                    int n = std::max(1, std::min(70, o.i(2)));
                    EpochGuard g(*ti);
                    for (int r = 0; r < n; r++) { Obj *nw = mk(); Obj *old = slot[(o.i(1) + r) % nslots].exchange(nw); retire(old, *ti, 0); use(old, 1); mt::Quiet q; nrep++; }
                } else if (o.k == "reg") { ti.reset(); ti.reset(new ThreadInfo(*ep)); }
                mt::progress();
            }
        };
        {
            std::vector<std::thread> th;
            for (size_t t = 1; t < prog.size(); t++) {
                th.emplace_back(body, (int)t);
                if (relink && t % 2) { th.back().join(); th.pop_back(); } // a thread that ends before the next one starts (its slot is used again)
            }
            if (!prog[0].empty()) body(0);
            for (auto &t : th) t.join();
        }
        // every other thread has ended its registration: a thread that goes on retiring frees the backlog of its own
        {
            ThreadInfo ti(*ep);
            std::vector<Obj *> mine;
            for (int r = 0; r < 2 * thr + 130; r++) {
                if (r > 140 && thr > 60) break;
                Obj *nw = mk();
                EpochGuard g(ti);
                Obj *old = slot[0].exchange(nw);
                retire(old, ti, 0);
                mt::Quiet q;
                mine.push_back(old);
            }
            mt::Quiet q;
            u64 back = 0;
            for (auto o : mine) back += !mt::freed(o);
            maxback = back;
            if (back > (u64)thr + 70 && (int)mine.size() > thr + 70) mt::fail("never-freed", std::to_string(back) + " of " + std::to_string(mine.size()) + " objects retired by the only thread left are still not freed");
        }
        { mt::Quiet q; for (int i = 0; i < nslots; i++) if (mt::freed(slot[i].load())) mt::fail("freed-live", "an object that was never retired was freed"); }
        ep.reset();
        mt::Quiet q;
        for (auto o : retired) if (!mt::freed(o)) mt::fail("leak", "a retired object was never freed");
        std::set<Obj *> rs(retired.begin(), retired.end());
        for (auto o : all) if (!rs.count(o) && mt::freed(o)) mt::fail("freed-live", "an object that was never retired was freed");
    }
    R.count("reads", nread); R.count("replaced", nrep); R.count("retired", retired.size()); R.count("retire_failed", given);
    u64 m = R.cnt["max_backlog_after"];
    R.cnt["max_backlog_after"] = std::max(m, maxback);
    R.mix(maxback);
    R.state(maxback * 1000 + retired.size());
}

static void exec(Run &R) {
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
    mt::Cfg c;
    int P = g_profile;
    for (auto &o : R.ops) if (o.k == "cfg") { c = cfg_of(o); P = o.i(0); }
    if (c.spurious) R.count("runs_with_spurious_failures");
    if (c.stall) R.count("runs_with_stalled_threads");
    if (c.weak) R.count("runs_with_weak_memory");
    mt::start(c);
    try {
        if (P == P_WSQ) exec_wsq(R); else exec_epoch(R);
    } catch (Violation &v) { mt::fail(v.cls.c_str(), v.what()); }
    mt::stop();
    R.count("switches", mt::n_switches); R.count("fault_preemption", mt::n_preempts); R.count("fault_stale_atomic_read", mt::n_stale);
    R.count("fault_spurious_cas_failure", mt::n_weakfail); R.count("blocked_waits", mt::n_blocks); R.count("fault_allocation_fails", mt::n_allocfail);
    R.count("fault_stalled_thread_decisions", mt::n_stallskips); R.count("instrumented_accesses", mt::steps());
    R.mix(mt::n_switches); R.mix(mt::steps());
    R.steps = mt::steps();
    std::string s = std::to_string(R.ops.size()) + " ops, " + std::to_string(mt::n_switches) + " thread switches, " + std::to_string(mt::steps()) + " instrumented accesses:";
    for (size_t i = 0; i < R.ops.size() && i < 8; i++) s += " [" + R.ops[i].str().substr(0, 40) + "]";
    R.sample = s;
}

static void gen(u64 seed, std::vector<Op> &ops) {
    Rng r(seed);
    int P = g_profile;
    int qlog = 2 + r.below(8);
    ops.push_back(Op("cfg", {(double)P, (double)qlog, (double)(r.chance(.3) ? 3 + r.below(20) : 0), (double)(r.chance(.3) ? 2 + r.below(3) : 0), (double)(r.chance(.5) ? 60 : 400), (double)r.chance(.7), (double)r.below(4096)}));
    if (P == P_WSQ) {
        ops.push_back(Op("cap", {(double)(r.chance(.6) ? r.below(2) : r.below(5))}));
        if (r.chance(.6)) ops.push_back(Op("quiet", {(double)((r.chance(.1) ? 1 : 0) + 2 * r.below(3))}));
        int T = 1 + r.below(3);
        bool bulk = r.chance(.3), faults = r.chance(.2);
        int len = 3 + r.below(14);
        for (int i = 0; i < len; i++) {
            double u = r.unit();
            if (u < .5) ops.push_back(Op("push", {(double)(bulk ? 1 + r.below(12) : 1 + r.below(2)), (double)(faults ? r.below(3) : 0)}));
            else if (u < .88) ops.push_back(Op("pop", {(double)(bulk ? 1 + r.below(10) : 1 + r.below(2))}));
            else if (u < .94) ops.push_back(Op("size"));
            else ops.push_back(Op("wait", {(double)r.below(30)}));
        }
        for (int t = 0; t < T; t++) { int m = 1 + r.below(3); for (int k = 0; k < m; k++) ops.push_back(Op("st", {(double)t, (double)(1 + r.below(bulk ? 20 : 5)), (double)r.chance(.2)})); }
        return;
    }
    ops.push_back(Op("ep", {(double)(1 + r.below(3)), (double)(r.chance(.7) ? r.below(4) : r.chance(.7) ? r.below(40) : 60 + r.below(80)), (double)r.chance(.15)}));
    int T = 2 + r.below(3), len = 3 + r.below(12);
    for (int i = 0; i < len; i++) {
        double t = i < T ? i : r.below(T), u = r.unit();
        if (u < .4) ops.push_back(Op("rd", {t, (double)r.below(3), (double)(1 + r.below(8)), (double)(1 + r.below(6)), (double)r.chance(.25)}));
        else if (u < .82) ops.push_back(Op("rep", {t, (double)r.below(3), (double)(r.chance(.15) ? 1 + r.below(100) : 1 + r.below(6)), (double)r.below(3), (double)(r.chance(.1) ? 1 : 0)}));
        else if (u < .92) ops.push_back(Op("bulk", {t, (double)r.below(3), (double)(r.chance(.3) ? 20 + r.below(50) : 1 + r.below(4))}));
        else ops.push_back(Op("reg", {t}));
    }
}

int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i++) {
        if (!strcmp(argv[i], "--profile")) g_profile = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--id")) { // one CPU per worker: hand-over between simulated threads is then cheap
            const char *d = strchr(argv[i + 1], '-');
            int k = d ? atoi(d + 1) : 0;
            cpu_set_t a, b;
            if (sched_getaffinity(0, sizeof a, &a) == 0) {
                int n = CPU_COUNT(&a), w = n ? k % n : 0;
                for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &a) && w-- == 0) { CPU_ZERO(&b); CPU_SET(c, &b); sched_setaffinity(0, sizeof b, &b); break; }
            }
        }
    }
    Sim s;
    s.name = g_profile == P_WSQ ? "wsq" : "epoch";
    s.gen = gen;
    s.exec = exec;
    s.cpu_limit = 40;
    return sim_main(argc, argv, s);
}
