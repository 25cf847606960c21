// Simulated threads over the multi-threaded engine: worker pool (C10, C12) and concurrent node insertion (C11).
#include "mtrt.hpp"
#include "arena.hpp"
namespace arena { bool active = false; }
#include "ddread.hpp"
#include "gates.hpp"
#include "task.h"
#include <boost/fiber/future/future.hpp>
#include <boost/fiber/future/packaged_task.hpp>
#include <iostream>
#include <memory>
#include <thread>

using namespace sim;
using ref::cd; using ref::key;

enum Profile { P_EVOLVE = 10, P_INSERT = 11, P_POOL = 12 };
static int g_profile = P_EVOLVE;
struct Held { vEdge e; ref::State r; double tol; bool unit; };
static const vNode *vt = vNode::terminal;
static const mNode *mtm = mNode::terminal;

static mt::Cfg cfg_of(const Op &o) {
    // cfg profile qlog spurious stall fair hb weak addr
    mt::Cfg c;
    c.qlog = std::max(1, std::min(16, o.i(1, 10)));
    c.spurious = o.i(2);
    c.stall = o.i(3);
    c.fair = std::max(20, o.i(4, 400));
    c.hb = o.i(5) != 0;
    c.weak = o.i(6) != 0;
    c.arena_only = o.i(0) != P_INSERT;
    c.addr = (u64)std::max(0, o.i(7));
    return c;
}
static void finish(Run &R) {
    R.count("switches", mt::n_switches); R.count("fault_preemption", mt::n_preempts); R.count("fault_stale_atomic_read", mt::n_stale);
    R.count("fault_spurious_wakeup", mt::n_spurious); R.count("fault_spurious_cas_failure", mt::n_weakfail); R.count("blocked_waits", mt::n_blocks);
    R.count("fault_stalled_thread_decisions", mt::n_stallskips); R.count("instrumented_accesses", mt::steps());
    R.mix(mt::n_switches); R.mix(mt::steps());
    R.steps = mt::steps();
}

// ------------------------------------------------------------------ C10: evolution on the pool
struct Pool {
    std::unique_ptr<Scheduler> s;
    int n = 1;
};
static void exec_evolve(Run &R) {
    Pool pool;
    std::vector<Held> S;
    std::mt19937_64 rng(5);
    auto si = [&](const Op &o, size_t p) { int v = o.i(p); return size_t(((v % (int)S.size()) + (int)S.size()) % (int)S.size()); };
    auto check = [&](size_t i, const std::string &after) {
        mt::Quiet q;
        ddr::check_state(S[i].e, S[i].r, S[i].tol, vt, "state #" + std::to_string(i) + " after '" + after + "' with " + std::to_string(pool.n) + " threads");
        R.state(ddr::shash(S[i].r));
    };
    for (auto &o : R.ops) {
        if (o.k == "cfg") continue;
        crash_context(o.str().c_str());
        mt::progress();
        R.ev("%s", o.str().c_str());
        if (o.k == "pool") {
            int n = std::max(1, std::min(4, o.i(0)));
            pool.s.reset();
            mt::progress();
            if (n > 1) pool.s.reset(new Scheduler(n - 1));
            pool.n = n;
            R.count("pool_started");
        } else if (o.k == "new") {
            int n = std::max(1, std::min(o.i(0), 10));
            Held h;
            h.e = o.i(1) ? makeOneState(n) : makeZeroState(n);
            { mt::Quiet q; key all = 0; if (o.i(1)) for (int i = 0; i < n; i++) all |= key(1) << i; h.r = ref::State::basis(n, all); h.tol = 1e-8; h.unit = true; if (S.size() >= 3) S.erase(S.begin()); S.push_back(h); }
            check(S.size() - 1, o.str());
        } else if (o.k == "g") {
            if (S.empty()) continue;
            size_t x = si(o, 0);
            GD g; ref::State nr;
            { mt::Quiet q; g = decG(o, 1, S[x].r.n); nr = S[x].r; nr.apply(toRef(g)); }
            if (nr.a.size() > 600) continue;
            mEdge m;
            m = toEng(g, S[x].r.n);
            vEdge e = mv_multiply(m, S[x].e);
            S[x].e = e;
            { mt::Quiet q; S[x].r = nr; S[x].tol += 2e-10; }
            check(x, o.str());
            R.count("gate_applied");
            if (pool.n > 1) R.count("gate_applied_on_pool");
        } else if (o.k == "gc") {
            if (S.empty()) continue;
            std::vector<vEdge> in;
            for (auto &h : S) in.push_back(h.e);
            auto out = gc(in, o.i(0) != 0);
            if (out.size() != S.size()) mt::fail("gc-lost-state", "a collection returned a different number of states");
            for (size_t i = 0; i < S.size(); i++) S[i].e = out[i];
            if (o.i(1)) gc_mat(std::vector<mEdge>{}, o.i(0) != 0);
            for (size_t i = 0; i < S.size(); i++) check(i, o.str());
            R.count("gc");
        } else if (o.k == "thr") set_gc_thr(std::max(1, o.i(0)), std::max(1, o.i(1)));
        else if (o.k == "vadd") {
            if (S.size() < 1) continue;
            size_t a = si(o, 0), b = si(o, 1);
            if (S[a].r.n != S[b].r.n) continue;
            Held h = S[a];
            { mt::Quiet q; for (auto &x : S[b].r.a) h.r.a[x.first] += x.second; h.r.prune(); h.tol += S[b].tol; h.unit = false; }
            if (h.r.norm2() > 100 || h.r.norm2() < 1e-6 || h.r.a.size() > 600) continue;
            h.e = vv_add(S[a].e, S[b].e);
            { mt::Quiet q; if (S.size() >= 3) S.erase(S.begin()); S.push_back(h); }
            check(S.size() - 1, o.str());
        } else if (o.k == "m1") {
            if (S.empty()) continue;
            size_t x = si(o, 0);
            if (!S[x].unit) continue;
            int q = ((o.i(1) % S[x].r.n) + S[x].r.n) % S[x].r.n;
            double p0; { mt::Quiet qq; p0 = S[x].r.p0(q); rng.seed(o.i(2)); }
            vEdge e = S[x].e;
            char c = measureOneCollapsing(e, q, rng);
            mt::Quiet qq;
            double pr = c == '0' ? p0 : 1 - p0;
            if (ddr::impossible(pr, ddr::norm2_bit(S[x].e, q, c - '0', vt), S[x].tol, false)) mt::fail("impossible-outcome", "a measurement returned an outcome of probability 0");
            S[x].e = e; S[x].r.project(q, c - '0'); S[x].tol = S[x].tol / std::sqrt(pr) + 1e-9;
            if (S[x].tol > 1e-4) { S.erase(S.begin() + x); continue; }
            check(x, o.str());
            R.count("measured");
        } else if (o.k == "vec") {
            if (S.empty()) continue;
            size_t x = si(o, 0), d = 0;
            if (S[x].r.n > 8) continue;
            std_complex *p = S[x].e.getVector(&d);
            mt::Quiet qq;
            if (d != size_t(1) << S[x].r.n) mt::fail("wrong-readout", "wrong vector length");
            for (size_t i = 0; i < d; i++) if (!(std::abs(cd(p[i].r, p[i].i) - S[x].r.at(i)) <= S[x].tol)) mt::fail("wrong-readout", "an amplitude was read out wrongly");
            delete[] p;
        }
    }
    for (size_t i = 0; i < S.size(); i++) check(i, "end of run");
    { mt::Quiet q; ddr::ShareCheck sc; for (auto &h : S) sc.walk(h.e.n, vt, ddr::z(h.e.w) && h.e.n == vt ? -1 : h.r.n - 1); R.cnt["max_nodes"] = sc.nodes; }
    crash_context("shutting the pool down");
    mt::progress();
    pool.s.reset();
    if (pool.n > 1) R.count("pool_stopped");
}

// ------------------------------------------------------------------ C12: pool life cycle
struct Job { int runs = 0; long value = 0; };
static long fibwork(int spec, int depth, int yields) {
    long v = spec * 31 + depth;
    for (int i = 0; i < yields; i++) { mt::point(); if ((spec + i) % 3 == 0) boost::this_fiber::yield(); v = v * 7 + i; }
    if (depth > 0) {
        std::vector<boost::fibers::future<long>> fs;
        for (int k = 0; k < 2; k++) {
            boost::fibers::packaged_task<long()> pt(std::bind(fibwork, spec + k, depth - 1, yields));
            fs.emplace_back(pt.get_future());
            boost::fibers::fiber(std::move(pt)).detach();
        }
        v += fs[0].get() + 3 * fs[1].get();
    }
    return v;
}
static long refwork(int spec, int depth, int yields) {
    long v = spec * 31 + depth;
    for (int i = 0; i < yields; i++) v = v * 7 + i;
    if (depth > 0) v += refwork(spec, depth - 1, yields) + 3 * refwork(spec + 1, depth - 1, yields);
    return v;
}
static void exec_pool(Run &R) {
    std::unique_ptr<Scheduler> s;
    int n = 1;
    for (auto &o : R.ops) {
        if (o.k == "cfg") continue;
        crash_context(o.str().c_str());
        mt::progress();
        R.ev("%s", o.str().c_str());
        if (o.k == "pool") {
            s.reset();
            mt::progress();
            n = std::max(1, std::min(5, o.i(0)));
            if (n > 1) { s.reset(new Scheduler(n - 1)); R.count("pool_started"); }
            R.state((u64)n);
        } else if (o.k == "stop") {
            if (s) R.count("pool_stopped");
            s.reset();
            n = 1;
        } else if (o.k == "jobs") {
            int m = std::max(1, std::min(12, o.i(0))), depth = std::min(3, o.i(1)), y = std::min(6, o.i(2));
            std::vector<Job> jobs(m);
            std::vector<boost::fibers::future<long>> fs;
            for (int j = 0; j < m; j++) {
                Job *jb = &jobs[j];
                boost::fibers::packaged_task<long()> pt([jb, j, depth, y] { jb->runs++; long v = fibwork(j, depth, y); jb->value = v; return v; });
                fs.emplace_back(pt.get_future());
                boost::fibers::fiber(std::move(pt)).detach();
                if (o.i(3) && j % 2) boost::this_fiber::yield();
            }
            for (int k = 0; k < m; k++) {
                int j = o.i(4) ? m - 1 - k : k;
                long v = fs[j].get();
                if (jobs[j].runs != 1) mt::fail("job-runs", "job " + std::to_string(j) + " had run " + std::to_string(jobs[j].runs) + " times when its result was delivered");
                if (v != refwork(j, depth, y) || jobs[j].value != v) mt::fail("job-result", "job " + std::to_string(j) + " delivered a wrong result");
            }
            if (o.i(5)) { s.reset(); n = 1; R.count("pool_stopped_right_after_jobs"); }
            for (int j = 0; j < m; j++) if (jobs[j].runs != 1) mt::fail("job-runs", "job " + std::to_string(j) + " ran " + std::to_string(jobs[j].runs) + " times");
            R.count("jobs", m);
            R.state((u64)n * 100 + m);
        } else if (o.k == "work") { // an engine operation on whatever pool there is
            vEdge e = makeZeroState(4);
            for (int i = 0; i < 4; i++) e = mv_multiply(makeGate(4, Hmat, i), e);
            mt::Quiet q;
            ref::State r; r.n = 4;
            for (int i = 0; i < 16; i++) r.a[i] = 0.25;
            ddr::check_state(e, r, 1e-8, vt, "engine work on the pool");
        } else if (o.k == "gc") gc(std::vector<vEdge>{}, true);
    }
    crash_context("shutting the pool down");
    mt::progress();
    if (s) R.count("pool_stopped");
    s.reset();
}

// ------------------------------------------------------------------ C11: threads inserting nodes
// A spec is a small random vector / matrix drawn from a small set of values, so that several threads build the same nodes.
struct Built { vEdge v; mEdge m; };
static cd specval(Rng &r) { static const cd vals[] = {0, 1, -1, cd(0, 1), 0.5, cd(0.5, 0.5), 0, 1}; return vals[r.below(8)]; }
static std::vector<cd> vspec(int id, int n) { Rng r(id * 77 + n); std::vector<cd> v(size_t(1) << n); for (auto &x : v) x = specval(r); if (r.chance(.7)) for (size_t i = v.size() / 2; i < v.size(); i++) v[i] = v[i - v.size() / 2] * (r.chance(.5) ? 1.0 : 0.5); bool any = false; for (auto &x : v) any |= x != cd(0); if (!any) v[0] = 1; return v; }
static vEdge buildv(const std::vector<cd> &v, size_t lo, int n) {
    if (n == 0) { vEdge e = vEdge::one; e.w = std_complex(v[lo].real(), v[lo].imag()); return e.w.isApproximatelyZero() ? vEdge::zero : e; }
    vEdge a = buildv(v, lo, n - 1), b = buildv(v, lo + (size_t(1) << (n - 1)), n - 1);
    return makeVEdge(n - 1, {a, b});
}
static mEdge buildm(const std::vector<cd> &v, size_t row, size_t col, int n, size_t dim) {
    if (n == 0) { mEdge e = mEdge::one; cd x = v[row * dim + col]; e.w = std_complex(x.real(), x.imag()); return e.w.isApproximatelyZero() ? mEdge::zero : e; }
    std::array<mEdge, 4> c;
    size_t h = size_t(1) << (n - 1);
    for (int i = 0; i < 4; i++) c[i] = buildm(v, row + (i >> 1) * h, col + (i & 1) * h, n - 1, dim);
    return makeMEdge(n - 1, c);
}
static void exec_insert(Run &R) {
    struct Task { int kind, id, n, id2; vEdge v; mEdge m; };
    std::vector<std::vector<Task>> work;
    for (auto &o : R.ops) {
        if (o.k == "cfg" || o.k != "ins") continue;
        size_t t = std::max(0, std::min(4, o.i(0)));
        mt::Quiet q;
        if (work.size() <= t) work.resize(t + 1);
        work[t].push_back({o.i(1) % 3, o.i(2), 1 + ((o.i(3) % 3) + 3) % 3, o.i(4), {}, {}});
    }
    std::string ctx = "concurrent insertion";
    crash_context(ctx.c_str());
    auto body = [](std::vector<Task> *w) {
        for (auto &t : *w) {
            std::vector<cd> v, v2;
            { mt::Quiet q; v = t.kind == 1 ? vspec(t.id, 2 * std::min(2, t.n)) : vspec(t.id, t.n); v2 = vspec(t.id2, t.n); }
            if (t.kind == 0) t.v = buildv(v, 0, t.n);
            else if (t.kind == 1) t.m = buildm(v, 0, 0, std::min(2, t.n), size_t(1) << std::min(2, t.n));
            else { vEdge a = buildv(v, 0, t.n), b = buildv(v2, 0, t.n); t.v = vv_add(a, b); }
        }
    };
    {
        std::vector<std::thread> th;
        for (size_t i = 1; i < work.size(); i++) th.emplace_back(body, &work[i]);
        if (!work.empty()) body(&work[0]);
        for (auto &t : th) t.join();
    }
    R.count("threads", work.size());
    // afterwards: every spec has one node, whoever built it; and building it again finds that node
    struct Got { vEdge v; mEdge m; size_t t; };
    std::map<std::string, Got> seen;
    for (int round = 0; round < 2; round++) {
        for (size_t t = 0; t < work.size(); t++) {
            if (round == 1) { if (t) break; }
            for (auto &k : work[t]) {
                char b[80];
                snprintf(b, sizeof b, "%d %d %d %d", k.kind, k.id, k.n, k.kind == 2 ? k.id2 : 0);
                mt::Quiet q;
                int n = k.kind == 1 ? std::min(2, k.n) : k.n;
                std::vector<cd> v = k.kind == 1 ? vspec(k.id, 2 * n) : vspec(k.id, n), v2 = vspec(k.id2, n);
                if (round == 0) {
                    if (k.kind == 1) { size_t d = size_t(1) << n; ref::Mat m(d, std::vector<cd>(d)); for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) m[i][j] = v[i * d + j]; ddr::check_mat(k.m, n, m, 1e-9, mtm, "matrix built by thread " + std::to_string(t)); }
                    else {
                        ref::State r; r.n = n;
                        for (size_t i = 0; i < v.size(); i++) r.a[i] = v[i] + (k.kind == 2 ? v2[i] : cd(0));
                        r.prune();
                        ddr::check_state(k.v, r, 1e-9, vt, "vector built by thread " + std::to_string(t));
                        R.state(ddr::shash(r));
                    }
                    auto it = seen.find(b);
                    if (it == seen.end()) seen[b] = {k.v, k.m, t};
                    else {
                        bool same = k.kind == 1 ? it->second.m.n == k.m.n : it->second.v.n == k.v.n;
                        if (!same) throw Violation("duplicate-node", "threads " + std::to_string(it->second.t) + " and " + std::to_string(t) + " obtained different nodes for equal contents");
                        R.count("same_content_by_two_builds");
                        if (it->second.t != t) R.count("same_content_by_two_threads");
                    }
                } else {
                    bool same = true;
                    if (k.kind == 0) same = buildv(v, 0, n).n == k.v.n;
                    else if (k.kind == 1) same = buildm(v, 0, 0, n, size_t(1) << n).n == k.m.n;
                    if (!same) throw Violation("lost-node", "a node inserted during the concurrent phase is not found afterwards");
                    R.count("found_again");
                }
            }
        }
        if (round == 0 && work.size() > 1) { // rebuild everything the other threads built
            for (size_t t = 1; t < work.size(); t++) { mt::Quiet q; work[0].insert(work[0].end(), work[t].begin(), work[t].end()); }
        }
    }
    ddr::ShareCheck sc;
    for (auto &g : seen) { mt::Quiet q; if (g.first[0] != '1' && g.second.v.n != vt) sc.walk(g.second.v.n, vt, g.second.v.n->v); }
}

static void exec(Run &R) {
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
    mt::Cfg c;
    int P = g_profile;
    for (auto &o : R.ops) if (o.k == "cfg") { c = cfg_of(o); P = o.i(0); }
    if (c.spurious) R.count("runs_with_spurious_failures");
    if (c.stall) R.count("runs_with_stalled_threads");
    mt::start(c);
    try {
        if (P == P_INSERT) exec_insert(R);
        else if (P == P_POOL) exec_pool(R);
        else exec_evolve(R);
    } catch (Violation &v) { mt::fail(v.cls.c_str(), v.what()); }
    mt::stop();
    finish(R);
    std::string s = std::to_string(R.ops.size()) + " ops, " + std::to_string(mt::n_switches) + " thread switches, " + std::to_string(mt::steps()) + " instrumented accesses:";
    for (size_t i = 0; i < R.ops.size() && i < 8; i++) s += " [" + R.ops[i].str().substr(0, 40) + "]";
    R.sample = s;
}

static void gen(u64 seed, std::vector<Op> &ops) {
    Rng r(seed);
    int P = g_profile;
    int qlog = 3 + r.below(11);
    ops.push_back(Op("cfg", {(double)P, (double)qlog, (double)(r.chance(.3) ? 3 + r.below(20) : 0), (double)(r.chance(.3) ? 2 + r.below(3) : 0), (double)(r.chance(.5) ? 60 : 400),
                             (double)(P == P_INSERT || r.chance(.6)), (double)(P == P_INSERT && r.chance(.5)), (double)r.below(4096)}));
    if (P == P_INSERT) {
        int T = 2 + r.below(3), ids = 1 + r.below(5), n = 1 + r.below(3);
        int len = T + r.below(10);
        for (int i = 0; i < len; i++) ops.push_back(Op("ins", {(double)(i < T ? i : r.below(T)), (double)(r.chance(.6) ? 0 : r.below(3)), (double)r.below(ids), (double)(r.chance(.7) ? n - 1 : r.below(3)), (double)r.below(ids)}));
        return;
    }
    if (P == P_POOL) {
        int len = 2 + r.below(6);
        for (int i = 0; i < len; i++) {
            double u = r.unit();
            if (i == 0 || u < .3) ops.push_back(Op("pool", {(double)(2 + r.below(3))}));
            else if (u < .7) ops.push_back(Op("jobs", {(double)(1 + r.below(8)), (double)r.below(3), (double)r.below(4), (double)r.below(2), (double)r.below(2), (double)r.chance(.3)}));
            else if (u < .8) ops.push_back(Op("work"));
            else if (u < .85) ops.push_back(Op("gc"));
            else ops.push_back(Op("stop"));
        }
        return;
    }
    int n = 2 + r.below(r.chance(.15) ? 6 : 4);
    bool cliff = r.chance(.2);
    if (!r.chance(.1)) ops.push_back(Op("pool", {(double)(2 + r.below(3))}));
    ops.push_back(Op("new", {(double)n, (double)r.below(2)}));
    // In some runs a few gates are applied again and again, with a collection after most of them: products that were
    // cached for nodes that are gone by now must not come back, on any of the threads.
    bool again = r.chance(.35);
    std::vector<std::vector<double>> few;
    for (int i = 0; again && i < 3; i++) few.push_back(encG(genG(r, n, true, false, 2)));
    int len = again ? 6 + r.below(16) : 3 + r.below(10);
    for (int i = 0; i < len; i++) {
        double u = r.unit();
        if (again && u < .85) {
            Op o("g", {0.0}); auto &v = few[r.below(few.size())]; o.a.insert(o.a.end(), v.begin(), v.end()); ops.push_back(o);
            if (r.chance(.7)) ops.push_back(Op("gc", {1.0, 0.0}));
        } else if (u < .72) { Op o("g", {(double)r.below(4)}); auto v = encG(genG(r, n, true, cliff, 2)); o.a.insert(o.a.end(), v.begin(), v.end()); ops.push_back(o); }
        else if (u < .8) ops.push_back(Op("gc", {(double)r.below(2), (double)r.below(2)}));
        else if (u < .83) ops.push_back(Op("thr", {(double)(1 + r.below(300)), (double)(1 + r.below(300))}));
        else if (u < .86) ops.push_back(Op("vadd", {(double)r.below(4), (double)r.below(4)}));
        else if (u < .91) ops.push_back(Op("m1", {(double)r.below(4), (double)r.below(8), (double)r.below(10000)}));
        else if (u < .93) ops.push_back(Op("vec", {(double)r.below(4)}));
        else if (u < .96) ops.push_back(Op("new", {(double)n, (double)r.below(2)}));
        else ops.push_back(Op("pool", {(double)(1 + r.below(4))}));
    }
}

int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i++) {
        if (!strcmp(argv[i], "--profile")) g_profile = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--id")) { // one CPU per worker: hand-over between simulated threads is then cheap
            const char *d = strchr(argv[i + 1], '-');
            int k = d ? atoi(d + 1) : 0;
            cpu_set_t a, b;
            if (sched_getaffinity(0, sizeof a, &a) == 0) {
                int n = CPU_COUNT(&a), w = n ? k % n : 0;
                for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &a) && w-- == 0) { CPU_ZERO(&b); CPU_SET(c, &b); sched_setaffinity(0, sizeof b, &b); break; }
            }
        }
    }
    Sim s;
    s.name = g_profile == P_INSERT ? "mt-insert" : g_profile == P_POOL ? "mt-pool" : "mt-evolve";
    s.gen = gen;
    s.exec = exec;
    s.cpu_limit = 40;
    return sim_main(argc, argv, s);
}
