// Simulated distributed engine: N real engines (one per rank), one simulated transport, one seeded scheduler.
#include "mpihub.hpp"
#include "ddread.hpp"
#include "gates.hpp"
#include "rank_api.hpp"
#include <dlfcn.h>
#include <iostream>
using namespace mpisim;
Hub *Hub::self = nullptr;

enum Profile { P_EVO = 1, P_MEAS = 2, P_PROG = 3, P_XFER = 4 };
static int g_profile = P_EVO;
static std::vector<RankEngine *> engines;
static std::string g_dir;

static void load_engines() {
    for (int r = 0; r < 8; r++) {
        std::string p = g_dir + "/libeng" + std::to_string(r) + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
        auto f = (RankEngine * (*)()) dlsym(h, "make_rank_engine");
        engines.push_back(f());
    }
}

using Slice = std::vector<cd>;
struct Model { ref::State g; double tol = 1e-8; bool unit = true; std::vector<std::vector<std::pair<Slice, double>>> ex; std::vector<std::vector<std::pair<ref::Mat, int>>> dummy; std::vector<GD> held; };

struct World {
    Run &R;
    int N, sh, n, loc;
    Hub hub;
    std::vector<Op> prog;
    size_t last = 0;                   // operations still executed
    std::deque<Model> model;           // model[k] = after op k-1; model[0] = initial
    std::deque<std::string> outcome;   // of op k, from the first rank to finish it
    std::vector<std::array<double, 2>> pre;  // what each engine's own slice gives to outcomes 0 and 1 of the measurement in progress
    World(Run &r, int s, int nn) : R(r), N(1 << s), sh(s), n(nn), loc(nn - s), hub(r, 1 << s), pre(size_t(1) << s) {}

    Slice slice(const ref::State &g, int rank) {
        Slice v(size_t(1) << loc);
        for (auto &x : g.a) if ((int)(x.first >> loc) == rank) v[(size_t)(x.first & ((key(1) << loc) - 1))] = x.second;
        return v;
    }
    void check_slice(const vEdge &e, const Slice &want, double tol, const vNode *t, const std::string &what) {
        double n2 = 0;
        for (size_t i = 0; i < want.size(); i++) {
            cd v = ddr::amp(e, loc, i, t);
            n2 += std::norm(v);
            if (!(std::abs(v - want[i]) <= tol)) {
                std::ostringstream o;
                o << what << ": local amplitude " << ddr::kstr(i, loc) << " is " << v << ", a single node would have " << want[i];
                throw Violation("wrong-slice", o.str());
            }
        }
        ddr::ShareCheck sc;
        sc.walk(e.n, t, ddr::z(e.w) && e.n == t ? -1 : loc - 1);
    }
    bool in_mask(int mask, int r) { return (mask >> r) & 1; }

    // the model's step: what the op does to the global state, given the reported outcome
    Model advance(const Model &m, const Op &o, const std::string &res) {
        Model x = m;
        const std::string &k = o.k;
        if (k == "new") { key all = 0; if (o.i(0)) for (int i = 0; i < n; i++) all |= key(1) << i; x.g = ref::State::basis(n, all); x.tol = 1e-8; x.unit = true; }
        else if (k == "g") { x.g.apply(toRef(decG(o, 1, n))); x.tol += 1e-9; }
        else if (k == "hold") { if (x.held.size() >= 4) x.held.erase(x.held.begin()); x.held.push_back(decG(o, 0, n)); }
        else if (k == "ga") { if (!x.held.empty()) { x.g.apply(toRef(x.held[o.i(0) % x.held.size()])); x.tol += 1e-9; } }
        else if (k == "m1") {
            int q = o.i(0) % n;
            double p0 = m.g.p0(q), pr = res == "0" ? p0 : 1 - p0;
            if (res != "0" && res != "1") throw Violation("bad-outcome", "a distributed measurement returned '" + res + "'");
            double left = 0; for (auto &a : m.g.a) if ((int)((a.first >> q) & 1) == (res == "1")) left += std::norm(a.second);
            double eng = 0; for (int r = 0; r < N; r++) eng += pre[r][res == "1"];
            if (ddr::impossible(left, eng, m.tol, o.i(2) != 0)) throw Violation("impossible-outcome", "measuring qubit " + std::to_string(q) + " returned " + res + ", which has probability 0 in the global state");
            if (o.i(1)) { x.g.project(q, res[0] - '0'); x.tol = x.tol / std::sqrt(std::max(pr, 1e-30)) + 1e-9; }
            R.count("measured");
        } else if (k == "mall") {
            if ((int)res.size() != n) throw Violation("bad-outcome", "a distributed full measurement returned " + std::to_string(res.size()) + " bits for " + std::to_string(n) + " qubits");
            key kk = 0;
            for (int i = 0; i < n; i++) if (res[n - 1 - i] == '1') kk |= key(1) << i;
            double p = std::norm(m.g.at(kk));
            int rk = int(kk >> loc); // nobody can have gone on to a later operation before the first rank completes this one
            if (ddr::impossible(p, std::norm(ddr::amp(engines[rk]->cur(), loc, kk & ((key(1) << loc) - 1), engines[rk]->term())), m.tol, o.i(0) != 0)) throw Violation("impossible-outcome", "a distributed full measurement returned " + res + ", which has probability 0 in the global state");
            R.count("sampled");
        } else if (k == "gc") { if (o.i(1) == 1) for (int r = 0; r < N; r++) if (in_mask(o.i(2), r)) x.ex[r].clear(); }
        else if (k == "xfer") {
            int s = o.i(0) % N, d = o.i(1) % N, w = o.i(4);
            auto v = (w > 0 && !m.ex[s].empty()) ? m.ex[s][(w - 1) % m.ex[s].size()] : std::make_pair(slice(m.g, s), m.tol);
            if (x.ex[d].size() >= 4) x.ex[d].erase(x.ex[d].begin());
            x.ex[d].push_back(v);
        }
        return x;
    }
    std::string doop(int r, size_t k) {
        const Op &o = prog[k];
        RankEngine *E = engines[r];
        const std::string &c = o.k;
        const Model &m = model[k];
        auto setd = [&](int mode, double u, double b, int seed) {
            std::vector<uint64_t> d;
            Rng q(seed * 31 + r);
            for (int i = 0; i < 40; i++) d.push_back(mode == 2 ? ~0ull : draws::unit(mode == 1 ? 0 : mode == 3 ? b : mode == 4 ? (q.chance(.5) ? 0 : 1) : i == 0 && r == 0 ? u : q.unit()));
            E->draws(d, seed * 100 + r);
        };
        if (c == "new") { arena::Scope s; E->fresh(n, o.i(0)); }
        else if (c == "g") { arena::Scope s; E->gate(o, 1, n, o.i(0)); }
        else if (c == "hold") { arena::Scope s; E->hold(o, 0, n); }
        else if (c == "ga") { arena::Scope s; E->applyHeld(o.i(0), n, o.i(1)); }
        else if (c == "m1") {
            int q = o.i(0) % n;
            setd(o.i(2), o.d(3), m.g.p0(q), o.i(4));
            for (int b = 0; b < 2; b++) pre[r][b] = q >= loc ? ((r >> (q - loc)) & 1) == b ? ddr::norm2_bit(E->cur(), -1, 0, E->term()) : 0.0 : ddr::norm2_bit(E->cur(), q, b, E->term());
            arena::Scope s;
            return std::string(1, E->measure1(q, n, o.i(1)));
        } else if (c == "p1") {
            int q = o.i(0) % n;
            double p;
            { arena::Scope s; p = E->prob1(q, n); }
            if (!(std::abs(p - m.g.p0(q)) < 30 * m.tol + 1e-9)) throw Violation("wrong-probability", "rank " + std::to_string(r) + " reports probability " + std::to_string(p) + " of 0 on qubit " + std::to_string(q) + ", the global state has " + std::to_string(m.g.p0(q)));
        } else if (c == "mall") {
            double b = 0; // boundary: cumulative probability of the first ranks
            int upto = o.i(3) % N;
            for (auto &a : m.g.a) if ((int)(a.first >> loc) <= upto) b += std::norm(a.second);
            setd(o.i(0), o.d(1), std::min(b / std::max(1e-9, m.g.norm2()), 1.0), o.i(2));
            std::string s2;
            { arena::Scope s; s2 = E->measureall(); }
            return std::string(s2.data(), s2.size());
        } else if (c == "probs") {
            std::vector<double> v;
            { arena::Scope s; v = E->probs(); }
            double t = m.g.norm2();
            if (v.size() != (size_t(1) << n)) throw Violation("wrong-probability", "rank " + std::to_string(r) + " reports " + std::to_string(v.size()) + " probabilities for " + std::to_string(n) + " qubits");
            for (size_t i = 0; i < v.size(); i++) if (!(std::abs(v[i] - std::norm(m.g.at(i)) / t) < 30 * m.tol + 1e-8)) throw Violation("wrong-probability", "rank " + std::to_string(r) + " reports probability " + std::to_string(v[i]) + " of " + ddr::kstr(i, n) + ", the global state has " + std::to_string(std::norm(m.g.at(i)) / t));
        } else if (c == "adj") {
            double v;
            { arena::Scope s; v = E->norm(); }
            double w = 1 / std::sqrt(m.g.norm2());
            if (!(std::abs(v - w) < 30 * m.tol + 1e-8)) throw Violation("wrong-norm", "rank " + std::to_string(r) + " computes the normalisation factor " + std::to_string(v) + ", it is " + std::to_string(w));
        } else if (c == "pv") { arena::Scope s; E->printv(); }
        else if (c == "gc") { if (in_mask(o.i(2), r)) { arena::Scope s; E->collect(o.i(1), o.i(0)); R.count("rank_collections"); } }
        else if (c == "gcm") { if (in_mask(o.i(1), r)) { arena::Scope s; E->collectGates(o.i(0)); R.count("rank_collections"); } }
        else if (c == "thr") { arena::Scope s; E->thresholds(o.i(0), o.i(1)); }
        else if (c == "xfer") {
            int s = o.i(0) % N, d = o.i(1) % N;
            if (s != d) {
                if (r == s) { arena::Scope sc; E->send(d, o.i(2), o.i(4)); }
                if (r == d) { arena::Scope sc; E->recv(s, o.i(3)); }
            }
        }
        return "";
    }
    void rank_body(int r) {
        RankEngine *E = engines[r];
        for (size_t k = 0; k < last; k++) {
            crash_context(("rank " + std::to_string(r) + " op " + prog[k].str()).c_str());
            if (prog[k].k == "xfer" && prog[k].i(0) % N == prog[k].i(1) % N) { if (model.size() == k + 1) { model.push_back(model[k]); outcome.push_back(""); } continue; }
            std::string res = doop(r, k);
            R.ev("rank %d done op %zu %s %s", r, k, prog[k].k.c_str(), res.c_str());
            if (model.size() == k + 1) { model.push_back(advance(model[k], prog[k], res)); outcome.push_back(res); }
            else if (outcome[k] != res) throw Violation("ranks-disagree", "rank " + std::to_string(r) + " reports '" + res + "', another rank '" + outcome[k] + "' for the same measurement");
            if (model[k + 1].tol > 1e-4) { if (last > k + 1) R.count("stopped_low_precision"); last = k + 1; continue; } // nothing meaningful left to compare
            std::string w = "rank " + std::to_string(r) + " after '" + prog[k].str() + "'";
            const Model &m = model[k + 1];
            check_slice(E->cur(), slice(m.g, r), m.tol, E->term(), w);
            auto ex = E->extra();
            if (ex.size() != m.ex[r].size()) throw Violation("harness", "received-state bookkeeping");
            for (size_t i = 0; i < ex.size(); i++) check_slice(ex[i], m.ex[r][i].first, m.ex[r][i].second, E->term(), "a received state on " + w);
            R.mix((u64)(uintptr_t)E->cur().n); R.mix(ddr::q9(E->cur().w.r));
            if (r == 0) R.state(ddr::shash(m.g));
        }
    }
};

static void exec(Run &R) {
    int sh = 1, n = 3, mode = 0, st = 0; uint64_t off = 0;
    for (auto &o : R.ops) if (o.k == "cfg") { sh = std::max(0, std::min(o.i(0), 3)); n = std::max(sh + 1, std::min(o.i(1), 7)); mode = o.i(2) % NMODE; st = o.i(3); off = (uint64_t)o.d(4); }
    arena::init(off * 64);
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    World W(R, sh, n);
    W.hub.mode = mode; W.hub.stalled = st % W.N;
    W.prog.push_back(Op("new", {0}));
    for (auto &o : R.ops) if (o.k != "cfg") W.prog.push_back(o);
    W.last = W.prog.size();
    // a collapse into a branch of tiny probability would leave nothing to compare: keep programs numerically sane
    Model m0; m0.g = ref::State::basis(n, 0); m0.ex.resize(W.N);
    W.model.push_back(m0);
    R.count("ranks_total", W.N);
    R.count(("mode_" + std::to_string(mode)).c_str());
    for (int r = 0; r < W.N; r++) {
        engines[r]->bind(&W.hub, r);
        W.hub.start(r, [&W, r] { W.rank_body(r); });
    }
    W.hub.loop(200000);
    W.hub.final_check();
    R.count("transport_steps", W.hub.nsteps);
    std::string s = std::to_string(W.N) + " ranks, " + std::to_string(n) + " qubits, " + std::to_string(W.hub.nsteps) + " scheduler steps, ops:";
    for (size_t i = 0; i < W.prog.size() && i < 12; i++) s += " " + W.prog[i].k;
    R.sample = s;
}

static void gen(u64 seed, std::vector<Op> &ops) {
    Rng r(seed);
    int P = g_profile;
    bool cliff = r.chance(.3);
    int sh = r.chance(.1) ? 0 : r.chance(.35) ? 1 : r.chance(.6) ? 2 : 3;
    int n = sh + 1 + r.below(sh == 3 ? 2 : 3);
    ops.push_back(Op("cfg", {(double)sh, (double)n, (double)r.below(NMODE), (double)r.below(8), (double)r.below(4096)}));
    auto w = [&](double base) { return r.chance(.25) ? 0.0 : base * (0.3 + 1.7 * r.unit()); };
    std::vector<std::pair<std::string, double>> wt = {{"g", 10}, {"new", w(.3)}, {"hold", w(.7)}, {"ga", w(1)}, {"gc", w(1)}, {"gcm", w(.6)}, {"thr", w(.3)},
        {"m1", w(P == P_MEAS ? 5 : P == P_XFER ? 0 : .8)}, {"p1", w(P == P_MEAS ? 3 : .3)}, {"mall", w(P == P_MEAS ? 4 : .4)}, {"probs", w(P == P_MEAS ? 3 : .3)},
        {"adj", w(P == P_MEAS ? 1 : .2)}, {"pv", w(P == P_PROG || P == P_XFER ? .8 : .05)}, {"xfer", w(P == P_XFER ? 6 : P == P_PROG ? 2 : .2)}};
    if (P == P_EVO) for (auto &x : wt) if (x.first == "xfer" || x.first == "pv" || x.first == "adj" || x.first == "probs" || x.first == "mall" || x.first == "p1") x.second = 0;
    double tot = 0; for (auto &x : wt) tot += x.second;
    int len = 4 + r.below(P == P_XFER ? 18 : 16);
    bool bothschemes = r.chance(.4); int scheme = r.below(2);
    auto sch = [&] { return (double)(bothschemes ? r.below(2) : scheme); };
    for (int i = 0; i < len; i++) {
        double u = r.unit() * tot; std::string k = "g";
        for (auto &x : wt) { if (u < x.second) { k = x.first; break; } u -= x.second; }
        if (i < 2) k = "g";
        if (k == "g") { Op o("g", {sch()}); auto v = encG(genG(r, n, true, cliff, n <= 4 ? 3 : 2)); o.a.insert(o.a.end(), v.begin(), v.end()); ops.push_back(o); }
        else if (k == "hold") { Op o("hold", encG(genG(r, n, true, cliff, 2))); ops.push_back(o); }
        else if (k == "ga") ops.push_back(Op("ga", {(double)r.below(4), sch()}));
        else if (k == "new") ops.push_back(Op("new", {(double)r.below(2)}));
        else if (k == "gc") ops.push_back(Op("gc", {(double)r.below(2), (double)(r.chance(.2)), (double)r.below(1 << (1 << sh))}));
        else if (k == "gcm") ops.push_back(Op("gcm", {(double)r.below(2), (double)r.below(1 << (1 << sh))}));
        else if (k == "thr") ops.push_back(Op("thr", {(double)(1 + r.below(200)), (double)(1 + r.below(200))}));
        else if (k == "m1") ops.push_back(Op("m1", {(double)r.below(n), (double)!r.chance(.3), (double)(r.chance(.55) ? 0 : 1 + r.below(3)), r.unit(), (double)r.below(100000)}));
        else if (k == "mall") ops.push_back(Op("mall", {(double)(r.chance(.5) ? 0 : 1 + r.below(4)), r.unit(), (double)r.below(100000), (double)r.below(8)}));
        else if (k == "xfer") ops.push_back(Op("xfer", {(double)r.below(1 << sh), (double)r.below(1 << sh), (double)r.below(2), (double)r.below(2), (double)r.below(5)}));
        else ops.push_back(Op(k, {(double)r.below(n)}));
    }
}
static std::vector<Op> simpler(const Op &o) {
    std::vector<Op> v;
    if (o.k == "cfg") {
        if (o.i(0) > 1) for (int s = 1; s < o.i(0); s++) { Op q = o; q.a[0] = s; v.push_back(q); }
        if (o.i(1) > 2) { Op q = o; q.a[1]--; v.push_back(q); }
        if (o.i(2)) { Op q = o; q.a[2] = 0; v.push_back(q); }
    }
    if (o.k == "g") {
        size_t p = 8; size_t nt = o.i(p), pc = p + 1 + nt;
        if (o.i(pc) > 0) { Op q = o; q.a.resize(pc); q.a.push_back(0); v.push_back(q); }
    }
    return v;
}

int main(int argc, char **argv) {
    char buf[4096]; ssize_t k = readlink("/proc/self/exe", buf, sizeof buf - 1); buf[k > 0 ? k : 0] = 0;
    g_dir = buf; g_dir = g_dir.substr(0, g_dir.rfind('/'));
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--profile")) g_profile = atoi(argv[i + 1]);
    static const char *names[] = {"", "ranks-evolve", "ranks-measure", "ranks-progress", "ranks-transfer"};
    if (getenv("QDD_SIM_NOASLR")) load_engines();
    Sim s;
    s.name = names[g_profile]; s.gen = gen; s.exec = exec; s.simpler = simpler; s.cpu_limit = 25;
    return sim_main(argc, argv, s);
}
