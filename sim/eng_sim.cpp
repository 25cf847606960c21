// Simulated histories of one engine: gates, measurements, collections (forced or by threshold), allocation failures.
// Profile (env-free, chosen by the binary's first "cfg" op): see gen().
#include "simcore.hpp"
#include "arena.hpp"
#include "ddread.hpp"
#include "gates.hpp"
#include <iostream>
#include <cstring>

using namespace sim;
using ref::cd; using ref::key;

enum Profile { P_STATE = 1, P_GATE = 2, P_MEAS = 3, P_GC = 4, P_ALLOC = 5, P_WIDE = 6 };
static int g_profile = P_STATE;

// ------------------------------------------------------------------ the simulated world
struct Held { vEdge e; ref::State r; double tol; bool unit; };
struct HeldM { mEdge m; int n; ref::Mat r; double tol; };

struct World {
    Run &R;
    std::vector<Held> S;
    std::vector<HeldM> G;
    std::mt19937_64 mt;
    const vNode *vt = vNode::terminal;
    const mNode *mtm = mNode::terminal;
    unsigned long gcbytes = 0;
    int maxheld = 5;
    World(Run &r) : R(r) {}

    double tolOf(const Held &h) { return h.tol; }
    void check_all(const std::string &after) {
        for (size_t i = 0; i < S.size(); i++) {
            std::string w = "state #" + std::to_string(i) + " after '" + after + "'";
            ddr::check_state(S[i].e, S[i].r, tolOf(S[i]), vt, w);
            R.state(ddr::shash(S[i].r));
        }
        ddr::ShareCheck sc;
        for (auto &h : S) sc.walk(h.e.n, vt, ddr::z(h.e.w) && h.e.n == vt ? -1 : h.r.n - 1);
        R.cnt["max_nodes"] = std::max<u64>(R.cnt["max_nodes"], sc.nodes);
        for (size_t i = 0; i < G.size(); i++) ddr::check_mat(G[i].m, G[i].n, G[i].r, G[i].tol, mtm, "gate object #" + std::to_string(i) + " after '" + after + "'");
    }
    size_t si(const Op &o, size_t p) { int v = o.i(p); return S.empty() ? 0 : size_t(((v % (int)S.size()) + (int)S.size()) % (int)S.size()); }
    size_t gi(const Op &o, size_t p) { int v = o.i(p); return G.empty() ? 0 : size_t(((v % (int)G.size()) + (int)G.size()) % (int)G.size()); }
    void setdraws(int mode, double u, double b, int useed) {
        std::vector<uint64_t> d;
        Rng r(useed + 17);
        for (int i = 0; i < 120; i++) {
            double x = r.unit();
            switch (mode) {
            case 1: x = 0; break;
            case 2: x = 1; break;
            case 3: x = b; break;                     // exactly at the reference probability
            case 4: x = r.chance(.5) ? 0 : 1; break;
            default: if (i == 0) x = u;
            }
            d.push_back(mode == 2 ? ~0ull : draws::unit(x));
        }
        draws::load(mt, d, useed + 99);
        R.count(mode == 0 ? "draw_interior" : mode == 3 ? "draw_at_boundary" : "draw_extreme");
    }
    void step(const Op &o, bool fault_armed);
};

void World::step(const Op &o, bool fault_armed) {
    const std::string &k = o.k;
    // results are computed into locals inside the engine scope and committed afterwards, so that an injected
    // allocation failure leaves the model where it was
    if (k == "new") {
        int n = std::max(1, std::min(o.i(0), 100));
        if ((int)S.size() >= maxheld) S.erase(S.begin());
        Held h;
        { arena::Scope sc; h.e = o.i(1) ? makeOneState(n) : makeZeroState(n); }
        key all = 0; if (o.i(1)) for (int i = 0; i < n; i++) all |= key(1) << i;
        h.r = ref::State::basis(n, all); h.tol = 1e-8; h.unit = true;
        S.push_back(h);
    } else if (k == "g") {
        if (S.empty()) return;
        Held &h = S[si(o, 0)];
        GD g = decG(o, 1, h.r.n);
        ref::Gate rg = toRef(g);
        ref::State nr = h.r;
        nr.apply(rg);
        if (nr.a.size() > 600) { R.count("skipped_too_large"); return; }
        vEdge ne;
        { arena::Scope sc; mEdge m = toEng(g, h.r.n); ne = mv_multiply(m, h.e); }
        h.e = ne; h.r = nr;
        h.tol += 2e-10;
        R.count("gate_applied");
    } else if (k == "prod") {
        // a wide product state, far beyond what a dense reference can hold: every qubit is its own reference
        int n = std::max(2, std::min(o.i(0), 99)), ng = std::max(1, std::min(o.i(1), 300)), hmode = o.i(3);
        Rng r((unsigned)o.d(2));
        std::vector<std::array<cd, 2>> q(n, {cd(1), cd(0)});
        vEdge e;
        { arena::Scope sc; e = makeZeroState(n); }
        double wmin = 1;
        for (int i = 0; i < ng; i++) {
            GD g = genG(r, 1, false, hmode == 1, 1);
            int t = hmode && i < n ? i : r.below(n);
            g.cls = 0; if (hmode && i < n) g.kind = ref::gH;
            g.t = {t}; g.c.clear();
            GD g1 = g; g1.t = {0};
            ref::State one; one.n = 1; one.a[0] = q[t][0]; one.a[1] = q[t][1];
            one.apply(toRef(g1));
            q[t] = {one.at(0), one.at(1)};
            vEdge ne;
            { arena::Scope sc; mEdge m = toEng(g, n); ne = mv_multiply(m, e); }
            e = ne;
            double w = 1;
            for (auto &x : q) w *= std::max(std::abs(x[0]), std::abs(x[1]));
            wmin = std::min(wmin, w);
            if (i % 40 == 39 && hmode == 2) { arena::Scope sc; auto v = gc(std::vector<vEdge>{e}, true); e = v[0]; S.clear(); }
        }
        if (hmode == 2) S.clear();
        const char *cls = wmin < 1e-12 ? "wide-superposition-lost" : "wrong-state";
        std::string what = "a product state of " + std::to_string(n) + " qubits after " + std::to_string(ng) + " one-qubit gates (its largest amplitude got as small as " + std::to_string(std::log10(wmin)) + " in powers of ten)";
        double mx = 1; key km = 0;
        for (int i = 0; i < n; i++) { double a = std::abs(q[i][0]), b = std::abs(q[i][1]); if (b > a) km |= key(1) << i; mx *= std::max(a, b); }
        double nn = ddr::norm2(e, vt);
        if (!(std::abs(nn - 1) < 1e-5)) throw Violation(cls, what + " has the squared norm " + std::to_string(nn));
        for (int j = 0; j < 6; j++) {
            key kk = km;
            if (j) for (int x = 0; x < j; x++) kk ^= key(1) << r.below(n);
            cd want = 1;
            for (int i = 0; i < n; i++) want *= q[i][(kk >> i) & 1];
            cd got = ddr::amp(e, n, kk, vt);
            if (!(std::abs(got - want) <= 1e-6 * mx)) throw Violation(cls, what + " has a wrong amplitude");
        }
        { // the sum with a state that differs in one qubit (near the top: the cost of a sum doubles with every level above it)
            int t = n - 1 - (int)r.below(std::min(n, 8));
            GD g = genG(r, 1, false, false, 1);
            g.cls = 0; g.c.clear(); g.t = {t};
            GD g1 = g; g1.t = {0};
            ref::State one; one.n = 1; one.a[0] = q[t][0]; one.a[1] = q[t][1];
            one.apply(toRef(g1));
            vEdge e2;
            { arena::Scope sc; mEdge m = toEng(g, n); vEdge x = mv_multiply(m, e); e2 = r.chance(.5) ? vv_add(e, x) : vv_add(x, e); }
            std::array<cd, 2> qs = {q[t][0] + one.at(0), q[t][1] + one.at(1)};
            for (int j = 0; j < 6; j++) {
                key kk = km ^ (j & 1 ? key(1) << t : key(0));
                if (j > 1) kk ^= key(1) << r.below(n);
                cd want = qs[(kk >> t) & 1];
                for (int i = 0; i < n; i++) if (i != t) want *= q[i][(kk >> i) & 1];
                if (!(std::abs(ddr::amp(e2, n, kk, vt) - want) <= 1e-6 * mx)) throw Violation(cls, what + ", added to one that differs in one qubit, has a wrong amplitude");
            }
        }
        ddr::ShareCheck sc; sc.walk(e.n, vt, n - 1);
        if ((int)sc.nodes > n) throw Violation("lost-sharing", what + " takes " + std::to_string(sc.nodes) + " nodes");
        R.count("wide_product_states");
        if (n > 64) R.count("wide_product_states_over_64_qubits");
    } else if (k == "hg") {
        int n = std::max(1, std::min(o.i(0), 4));
        GD g = decG(o, 1, n);
        HeldM x; x.n = n; x.r = ref::embed(n, toRef(g)); x.tol = 1e-8;
        { arena::Scope sc; x.m = toEng(g, n); }
        if ((int)G.size() >= 6) G.erase(G.begin());
        G.push_back(x);
    } else if (k == "hmul" || k == "hadd" || k == "hkron") {
        if (G.empty()) return;
        size_t i = gi(o, 0), j = gi(o, 1);
        if (k == "hkron" ? G[i].n + G[j].n > 5 : G[i].n != G[j].n) return;
        if (k == "hkron") { // the operand's own level must be its declared size for a diagram-level Kronecker product
            if (G[j].m.isTerminal() || G[j].m.getVar() != G[j].n - 1) return;
            std::function<bool(const mEdge &, int)> full = [&](const mEdge &e, int lev) -> bool { if (ddr::z(e.w)) return true; if (lev < 0) return e.isTerminal(); if (e.isTerminal() || e.n->v != lev) return false; for (auto &c : e.n->children) if (!full(c, lev - 1)) return false; return true; };
            if (!full(G[i].m, G[i].n - 1) || !full(G[j].m, G[j].n - 1)) { R.count("kron_skipped_stripped"); return; }
        }
        HeldM x; x.n = G[i].n; x.tol = G[i].tol + G[j].tol;
        if (k == "hmul") { x.r = ref::mul(G[i].r, G[j].r); arena::Scope sc; x.m = mm_multiply(G[i].m, G[j].m); }
        else if (k == "hadd") { x.r = ref::lin(1, G[i].r, 1, G[j].r); arena::Scope sc; x.m = mm_add(G[i].m, G[j].m); }
        else { x.n = G[i].n + G[j].n; x.r = ref::kron(G[i].r, G[j].r); arena::Scope sc; x.m = mm_kronecker(G[i].m, G[j].m); }
        double mx = 0; for (auto &r : x.r) for (auto &v : r) mx = std::max(mx, std::abs(v));
        if (mx > 50) return;
        if ((int)G.size() >= 6) G.erase(G.begin());
        G.push_back(x);
        R.count("gate_algebra");
    } else if (k == "happ") {
        if (G.empty() || S.empty()) return;
        HeldM &m = G[gi(o, 0)];
        Held &h = S[si(o, 1)];
        if (m.n > h.r.n) return;
        ref::Gate rg; rg.m = m.r; for (int i = 0; i < m.n; i++) rg.t.push_back(i);
        ref::State nr = h.r; nr.apply(rg);
        if (nr.norm2() > 100 || nr.norm2() < 1e-6 || nr.a.size() > 600) return;
        vEdge ne;
        { arena::Scope sc; ne = mv_multiply(m.m, h.e); }
        h.e = ne; h.r = nr; h.tol += 16 * m.tol;
        if (std::abs(nr.norm2() - 1) > 1e-9) h.unit = false;
        R.count("held_gate_applied");
    } else if (k == "getm") {
        if (G.empty()) return;
        HeldM &m = G[gi(o, 0)];
        MatrixXcf M;
        { arena::Scope sc; M = m.m.getEigenMatrix(m.n); }
        for (int i = 0; i < (1 << m.n); i++) for (int j = 0; j < (1 << m.n); j++)
            if (!(std::abs(cd(M(i, j)) - m.r[i][j]) < 1e-5)) throw Violation("wrong-readout", "matrix read-out of a gate object differs from the operator it denotes");
    } else if (k == "vadd" || k == "vkron" || k == "cp") {
        if (S.empty()) return;
        size_t i = si(o, 0), j = si(o, 1);
        Held h = S[i];
        if (k == "vadd") {
            if (S[i].r.n != S[j].r.n) return;
            for (auto &x : S[j].r.a) h.r.a[x.first] += x.second;
            h.r.prune();
            if (h.r.a.size() > 600) return;
            { arena::Scope sc; h.e = vv_add(S[i].e, S[j].e); }
            h.tol += S[j].tol; h.unit = false;
            if (h.r.norm2() > 100) return;
            if (h.r.norm2() < 1e-6) return;
        } else if (k == "vkron") {
            if (S[i].r.n + S[j].r.n > 12 || S[i].r.a.size() * S[j].r.a.size() > 600) return;
            h.r = ref::State(); h.r.n = S[i].r.n + S[j].r.n;
            for (auto &x : S[i].r.a) for (auto &y : S[j].r.a) h.r.a[(x.first << S[j].r.n) | y.first] = x.second * y.second;
            { arena::Scope sc; h.e = vv_kronecker(S[i].e, S[j].e); }
            h.tol += S[j].tol; h.unit = S[i].unit && S[j].unit;
            h.tol *= std::max(1.0, std::sqrt(std::max(S[i].r.norm2(), S[j].r.norm2())));
        }
        if ((int)S.size() >= maxheld) S.erase(S.begin());
        S.push_back(h);
        R.count("state_algebra");
    } else if (k == "free") {
        if (S.size() > 1) S.erase(S.begin() + si(o, 0));
    } else if (k == "thr") {
        arena::Scope sc;
        set_gc_thr(o.i(0), o.i(1));
    } else if (k == "gc") {
        // hand every live state to the collector; 'only' >= 0 keeps just that state alive (others become garbage)
        if (S.empty()) return;
        int form = o.i(1);
        unsigned long b0 = arena::live_bytes;
        if (form == 1) { // single-state form: everything else dies
            Held keep = S[si(o, 2)];
            vEdge r;
            { arena::Scope sc; r = gc(keep.e, o.i(0) != 0); }
            keep.e = r; S.clear(); S.push_back(keep); // by contract, states that were not handed over may be gone
            R.count("gc_single");
        } else {
            std::vector<vEdge> out;
            { arena::Scope sc; std::vector<vEdge> in; for (auto &h : S) in.push_back(h.e); if (form == 2) std::reverse(in.begin(), in.end()); out = gc(in, o.i(0) != 0); if (form == 2) std::reverse(out.begin(), out.end()); }
            if (out.size() != S.size()) throw Violation("gc-lost-state", "a collection returned a different number of states than it was given");
            for (size_t i = 0; i < S.size(); i++) S[i].e = out[i];
            R.count("gc_multi");
        }
        if (arena::live_bytes < b0) R.count("gc_reclaimed");
    } else if (k == "gcm") {
        std::vector<mEdge> out;
        unsigned long b0 = arena::live_bytes;
        if (o.i(1) == 1 && G.size() >= 1) {
            HeldM keep = G[gi(o, 2)];
            mEdge r;
            { arena::Scope sc; r = gc_mat(keep.m, o.i(0) != 0); }
            keep.m = r; G.clear(); G.push_back(keep);
        } else {
            { arena::Scope sc; std::vector<mEdge> in; for (auto &h : G) in.push_back(h.m); out = gc_mat(in, o.i(0) != 0); }
            if (out.size() != G.size()) throw Violation("gc-lost-gate", "a matrix collection returned a different number of gates than it was given");
            for (size_t i = 0; i < G.size(); i++) G[i].m = out[i];
        }
        if (arena::live_bytes < b0) R.count("gcm_reclaimed");
        R.count("gc_mat");
    } else if (k == "soak") { // many garbage-producing rounds with collections in between: memory must stay bounded
        if (S.empty()) return;
        Rng r(o.i(0));
        int n = std::min(6, 3 + o.i(1) % 4), rounds = 16;
        bool force = o.i(2) == 0;                 // forced collections, or collections due by a low threshold
        unsigned long peak1 = 0, last = 0;
        if (!force) { arena::Scope sc; set_gc_thr(40 + o.i(1) % 7 * 30, 40 + o.i(0) % 11 * 30); }
        int reclaimed = 0;
        unsigned long hi1 = 0, hi2 = 0;
        for (int round = 0; round < rounds; round++) {
            vEdge e;
            { arena::Scope sc; e = makeZeroState(n); }
            for (int i = 0; i < 25; i++) { GD g = genG(r, n, true, false, 2); arena::Scope sc; mEdge m = toEng(g, n); e = mv_multiply(m, e); }
            unsigned long before = arena::live_bytes;
            std::vector<vEdge> out; std::vector<mEdge> mo;
            { arena::Scope sc; std::vector<vEdge> in; for (auto &h : S) in.push_back(h.e); out = gc(in, force); std::vector<mEdge> im; for (auto &h : G) im.push_back(h.m); mo = gc_mat(im, force); }
            for (size_t i = 0; i < S.size(); i++) S[i].e = out[i];
            for (size_t i = 0; i < G.size(); i++) G[i].m = mo[i];
            { arena::Scope sc; std::vector<vEdge>().swap(out); std::vector<mEdge>().swap(mo); }
            last = arena::live_bytes;
            if (last < before) reclaimed++;
            if (round == 3) peak1 = last;
            if (round < 8) hi1 = std::max(hi1, last); else hi2 = std::max(hi2, last);
        }
        R.count(force ? "soak_rounds_forced" : "soak_rounds_threshold", rounds);
        if (force && last > peak1 + peak1 / 2 + 65536) throw Violation("gc-leak", "memory held after a forced collection grew from " + std::to_string(peak1) + " to " + std::to_string(last) + " bytes over " + std::to_string(rounds) + " identical-size rounds");
        if (!force && hi2 > 2 * hi1 + 65536) throw Violation("gc-leak", "with collections due by threshold, memory grew from " + std::to_string(hi1) + " to " + std::to_string(hi2) + " bytes between the first and the second half of " + std::to_string(rounds) + " identical-size rounds");
        if (!reclaimed) throw Violation("gc-no-reclaim", "none of " + std::to_string(rounds) + " collections gave any memory back");
    } else if (k == "m1") {
        if (S.empty()) return;
        size_t idx = si(o, 0);
        Held &h = S[idx];
        if (!h.unit) return;
        int q = ((o.i(1) % h.r.n) + h.r.n) % h.r.n;
        double p0 = h.r.p0(q);
        setdraws(o.i(2), o.d(3), p0, o.i(4));
        char res;
        vEdge e = h.e;
        { arena::Scope sc; res = measureOneCollapsing(e, q, mt); }
        if (res != '0' && res != '1') throw Violation("bad-outcome", "a measurement returned neither 0 nor 1");
        double pr = res == '0' ? p0 : 1 - p0;
        if (ddr::impossible(pr, ddr::norm2_bit(h.e, q, res - '0', vt), h.tol, o.i(2) != 0)) throw Violation("impossible-outcome", std::string("measuring qubit ") + std::to_string(q) + " returned " + res + ", which has probability 0");
        h.e = e;
        h.r.project(q, res - '0');
        h.tol = h.tol / std::sqrt(pr) + 1e-9;
        R.count(res == '0' ? "collapse_0" : "collapse_1");
        if (pr < 0.05) R.count("collapse_unlikely_branch");
        if (h.tol > 1e-4) { S.erase(S.begin() + idx); R.count("dropped_low_precision"); }
    } else if (k == "p1") {
        if (S.empty()) return;
        Held &h = S[si(o, 0)];
        if (!h.unit) return;
        int q = ((o.i(1) % h.r.n) + h.r.n) % h.r.n;
        double p;
        { arena::Scope sc; p = measureOne(h.e, q, mt); }
        if (!(std::abs(p - h.r.p0(q)) < 20 * h.tol + 1e-9)) throw Violation("wrong-probability", "probability of 0 on qubit " + std::to_string(q) + " is reported as " + std::to_string(p) + ", the reference says " + std::to_string(h.r.p0(q)));
        R.count("probability_query");
    } else if (k == "probs") {
        if (S.empty()) return;
        Held &h = S[si(o, 0)];
        if (!h.unit || h.r.n > 8) return;
        std::vector<double> v;
        { arena::Scope sc; v = probabilities(h.e); }
        if (v.size() != (size_t(1) << h.r.n)) throw Violation("wrong-probability", "the probability vector has the wrong length");
        for (size_t i = 0; i < v.size(); i++) if (!(std::abs(v[i] - std::norm(h.r.at(i))) < 20 * h.tol + 1e-8)) throw Violation("wrong-probability", "probability of outcome " + ddr::kstr(i, h.r.n) + " is reported as " + std::to_string(v[i]) + ", the reference says " + std::to_string(std::norm(h.r.at(i))));
        R.count("distribution_query");
    } else if (k == "vec") {
        if (S.empty()) return;
        Held &h = S[si(o, 0)];
        if (h.r.n > 8) return;
        std::vector<cd> v;
        double rd = h.tol;
        if (o.i(1) % 3 == 0) {
            rd += 1e-5; // single precision
            unsigned long held = arena::live_bytes;
            VectorXcf V;
            { arena::Scope sc; V = h.e.getEigenVector(); }
            for (long i = 0; i < V.size(); i++) v.push_back(V(i));
            if (arena::live_bytes > held) throw Violation("readout-leak", "reading out a state vector kept " + std::to_string(arena::live_bytes - held) + " bytes");
        } else {
            size_t d = 0;
            std_complex *p;
            { arena::Scope sc; p = h.e.getVector(&d); }
            for (size_t i = 0; i < d; i++) v.push_back(cd(p[i].r, p[i].i));
            { arena::Scope sc; delete[] p; }
        }
        if (v.size() != (size_t(1) << h.r.n)) throw Violation("wrong-readout", "the state vector read out has the wrong length");
        for (size_t i = 0; i < v.size(); i++) if (!(std::abs(v[i] - h.r.at(i)) <= rd)) throw Violation("wrong-readout", "amplitude of " + ddr::kstr(i, h.r.n) + " read out wrongly");
        R.count("vector_query");
    } else if (k == "mall") {
        if (S.empty()) return;
        size_t idx = si(o, 0);
        Held &h = S[idx];
        if (!h.unit) return;
        bool col = o.i(1) != 0;
        setdraws(o.i(2), o.d(3), h.r.p0(h.r.n - 1), o.i(4));
        vEdge e = h.e;
        std::string s;
        { arena::Scope sc; s = measureAll(e, col, mt); }
        if ((int)s.size() != h.r.n) throw Violation("bad-outcome", "a full measurement returned " + std::to_string(s.size()) + " bits for " + std::to_string(h.r.n) + " qubits");
        key kk = 0;
        for (int i = 0; i < h.r.n; i++) { char c = s[h.r.n - 1 - i]; if (c != '0' && c != '1') throw Violation("bad-outcome", "non-binary outcome"); if (c == '1') kk |= key(1) << i; }
        if (ddr::impossible(std::norm(h.r.at(kk)), std::norm(ddr::amp(h.e, h.r.n, kk, vt)), h.tol, o.i(2) != 0)) throw Violation("impossible-outcome", "a full measurement returned " + s + ", which has probability 0");
        if (col) { h.e = e; h.r = ref::State::basis(h.r.n, kk); h.tol = 1e-8; }
        else if (e.n != h.e.n || !(e.w == h.e.w)) throw Violation("non-collapsing-changed-state", "a non-collapsing measurement changed the state it was given");
        R.count(col ? "full_collapse" : "full_sample");
    } else if (k == "born") { // empirical law of repeated measurements, every draw from the simulator's generator
        if (S.empty()) return;
        Held &h = S[si(o, 0)];
        if (!h.unit || h.r.n > 6) return;
        const int N = 3000;
        mt.seed(o.i(1) + 4242);
        std::map<key, int> c;
        int n = h.r.n, one = o.i(2);
        int q = ((o.i(3) % n) + n) % n;
        int c0 = 0, joint[2][2] = {{0, 0}, {0, 0}};
        int q2 = (q + 1) % n;
        for (int i = 0; i < N; i++) {
            if (!one) {
                std::string s;
                { arena::Scope sc; s = measureAll(h.e, false, mt); }
                key kk = 0;
                if ((int)s.size() != n) throw Violation("bad-outcome", "wrong number of bits");
                for (int b = 0; b < n; b++) if (s[n - 1 - b] == '1') kk |= key(1) << b;
                c[kk]++;
            } else if (i < N / 3) { // two successive collapses: joint law
                vEdge e = h.e;
                char a, b = '0';
                { arena::Scope sc; a = measureOneCollapsing(e, q, mt); if (n > 1) b = measureOneCollapsing(e, q2, mt); }
                joint[a == '1'][b == '1']++;
                c0 += a == '0';
            }
        }
        auto bad = [&](int got, double p, int M) { return std::abs(got - p * M) > 6.5 * std::sqrt(p * (1 - p) * M) + 3; };
        if (!one) {
            for (auto &x : c) if (ddr::impossible(std::norm(h.r.at(x.first)), std::norm(ddr::amp(h.e, h.r.n, x.first, vt)), h.tol, false)) throw Violation("impossible-outcome", "sampling returned an outcome of probability 0");
            for (auto &x : h.r.a) if (bad(c[x.first], std::norm(x.second), N)) throw Violation("wrong-law", "outcome " + ddr::kstr(x.first, n) + " was drawn " + std::to_string(c[x.first]) + " times in " + std::to_string(N) + ", its probability is " + std::to_string(std::norm(x.second)));
        } else {
            int M = N / 3;
            if (bad(c0, h.r.p0(q), M)) throw Violation("wrong-law", "outcome 0 on one qubit was drawn " + std::to_string(c0) + " times in " + std::to_string(M) + ", its probability is " + std::to_string(h.r.p0(q)));
            if (n > 1) {
                double pj[2][2] = {{0, 0}, {0, 0}};
                for (auto &x : h.r.a) pj[(int)((x.first >> q) & 1)][(int)((x.first >> q2) & 1)] += std::norm(x.second);
                for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) if (bad(joint[a][b], pj[a][b], M)) throw Violation("wrong-law", "successive measurements of two qubits do not follow the joint law");
            }
        }
        R.count("born_tests");
        R.count("born_samples", one ? N / 3 : N);
    } else if (k == "nn") {
        if (S.empty()) return;
        Held &h = S[si(o, 0)];
        int c;
        { arena::Scope sc; c = get_nNodes(h.e); }
        ddr::ShareCheck sc; sc.walk(h.e.n, vt, h.r.n - 1);
        if (c != (int)sc.nodes) throw Violation("wrong-node-count", "the reported number of nodes is " + std::to_string(c) + ", the diagram has " + std::to_string(sc.nodes));
    }
    (void)fault_armed;
}

static void exec(Run &R) {
    World W(R);
    uint64_t off = 0;
    for (auto &o : R.ops) if (o.k == "cfg") { off = (uint64_t)o.d(1); W.maxheld = std::max(1, o.i(2, 5)); }
    arena::init(off * 64);
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
    long armed = 0;
    for (size_t i = 0; i < R.ops.size(); i++) {
        const Op &o = R.ops[i];
        if (o.k == "cfg") continue;
        if (o.k == "af") { armed = std::max(1, o.i(0)); continue; }
        crash_context(o.str().c_str());
        unsigned long a0 = arena::nalloc;
        if (armed) {
            arena::fail_at = armed;
            armed = 0;
            unsigned long f0 = arena::nfailed;
            bool thrown = false;
            size_t ns = W.S.size(); (void)ns;
            try { W.step(o, true); }
            catch (std::bad_alloc &) { thrown = true; }
            bool fired = arena::nfailed != f0;
            arena::fail_at = 0; arena::active = false;
            if (thrown && !fired) throw Violation("spurious-bad-alloc", "an allocation error was raised although no allocation failed");
            if (fired) { R.count("fault_alloc_failed"); R.count("fault_alloc_in_" + o.k); }
            R.ev("%s [alloc fault %s]", o.str().c_str(), fired ? (thrown ? "surfaced" : "absorbed") : "not reached");
            if (fired && !thrown) R.count("fault_alloc_absorbed");
            W.check_all(o.str() + (fired ? " (in which an allocation failed)" : ""));
        } else {
            W.step(o, false);
            R.ev("%s", o.str().c_str());
            W.check_all(o.str());
        }
        R.mix(arena::nalloc - a0);
        for (auto &h : W.S) { R.mix((u64)(uintptr_t)h.e.n); R.mix(ddr::q9(h.e.w.r)); }
    }
    R.count("allocations", arena::nalloc);
    std::string s = std::to_string(R.ops.size()) + " ops:";
    for (size_t i = 0; i < R.ops.size() && i < 10; i++) s += " [" + R.ops[i].k + "]";
    s += " -> " + std::to_string(W.S.size()) + " states, " + std::to_string(W.G.size()) + " gate objects held, " + std::to_string(R.cnt["fault_alloc_failed"]) + " allocation faults";
    R.sample = s;
}

static void gen(u64 seed, std::vector<Op> &ops) {
    Rng r(seed);
    int P = g_profile;
    bool cliff = r.chance(.25);
    bool wide = P == P_WIDE;
    ops.push_back(Op("cfg", {(double)P, (double)r.below(4096), (double)(2 + r.below(4))}));
    int n = wide ? 20 + r.below(45) : 1 + r.below(6);
    if (r.chance(.5)) ops.push_back(Op("thr", {(double)(1 + r.below(400)), (double)(1 + r.below(400))}));
    ops.push_back(Op("new", {(double)n, (double)r.below(2)}));
    int len = 10 + r.below(wide ? 30 : 60);
    // swarm: weights vary per run
    auto w = [&](double base) { return r.chance(.25) ? 0.0 : base * (0.3 + 1.7 * r.unit()); };
    std::vector<std::pair<std::string, double>> wt;
    wt.push_back({"g", 12});
    wt.push_back({"new", w(1.2)});
    wt.push_back({"free", w(.6)});
    wt.push_back({"cp", w(.7)});
    wt.push_back({"gc", w(P == P_GC ? 5 : 1.5)});
    wt.push_back({"gcm", w(P == P_GATE || P == P_GC ? 3 : .8)});
    wt.push_back({"thr", w(.5)});
    wt.push_back({"vadd", w(P == P_STATE ? 1 : .3)});
    wt.push_back({"vkron", w(P == P_STATE ? .7 : .2)});
    wt.push_back({"hg", w(P == P_GATE ? 6 : P == P_GC || P == P_ALLOC ? 1.5 : .8)});
    wt.push_back({"hmul", w(P == P_GATE ? 5 : P == P_GC || P == P_ALLOC ? 1 : .4)});
    wt.push_back({"hadd", w(P == P_GATE ? 3 : .3)});
    wt.push_back({"hkron", w(P == P_GATE ? 2 : .3)});
    wt.push_back({"happ", w(P == P_GATE ? 4 : .8)});
    wt.push_back({"getm", w(P == P_GATE ? 1 : .1)});
    wt.push_back({"m1", w(P == P_MEAS ? 6 : .8)});
    wt.push_back({"p1", w(P == P_MEAS ? 4 : .4)});
    wt.push_back({"probs", w(P == P_MEAS ? 3 : .3)});
    wt.push_back({"mall", w(P == P_MEAS ? 4 : .4)});
    wt.push_back({"born", w(P == P_MEAS ? .8 : 0)});
    wt.push_back({"vec", w(P == P_STATE ? 1 : .3)});
    wt.push_back({"nn", w(.3)});
    wt.push_back({"prod", wide ? 1.0 : 0});
    wt.push_back({"soak", w(P == P_GC ? .12 : 0)});
    double tot = 0;
    for (auto &x : wt) tot += x.second;
    double afp = P == P_ALLOC ? .3 : 0;
    for (int i = 0; i < len; i++) {
        double u = r.unit() * tot;
        std::string k = "g";
        for (auto &x : wt) { if (u < x.second) { k = x.first; break; } u -= x.second; }
        if (afp > 0 && r.chance(afp)) ops.push_back(Op("af", {(double)(r.chance(.6) ? 1 + r.below(6) : 1 + r.below(120))}));
        if (k == "soak") ops.push_back(Op("soak", {(double)r.below(100000), (double)r.below(8), (double)r.below(2)}));
        else if (k == "prod") {
            int pn = 20 + r.below(80), hm = r.below(3);
            ops.push_back(Op("prod", {(double)pn, (double)(hm ? pn + r.below(40) : 10 + r.below(100)), (double)r.below(1000000), (double)hm}));
        } else if (k == "g") {
            // wide runs: keep the superposition narrow (few branching gates), everything else permutes or adds phases
            Op o("g", {(double)r.below(8)});
            GD g = genG(r, n, true, cliff, r.chance(.1) && n <= 6 ? 6 : n <= 4 ? 3 : 2);
            if (wide && !r.chance(.3)) { g.cls = 0; g.kind = r.chance(.7) ? ref::gX : (r.chance(.5) ? ref::gT : ref::gP); g.t.resize(1); }
            auto v = encG(g);
            o.a.insert(o.a.end(), v.begin(), v.end());
            ops.push_back(o);
        } else if (k == "hg") {
            int m = r.chance(.08) ? 5 + r.below(2) : 1 + r.below(4);
            Op o("hg", {(double)m});
            auto v = encG(genG(r, m, true, cliff, m > 4 ? 6 : 3));
            o.a.insert(o.a.end(), v.begin(), v.end());
            ops.push_back(o);
        } else if (k == "new") ops.push_back(Op("new", {(double)(wide ? 20 + r.below(45) : r.chance(.6) ? n : 1 + r.below(6)), (double)r.below(2)}));
        else if (k == "gc" || k == "gcm") ops.push_back(Op(k, {(double)r.below(2), (double)r.below(3), (double)r.below(8)}));
        else if (k == "thr") ops.push_back(Op("thr", {(double)(1 + r.below(600)), (double)(1 + r.below(600))}));
        else if (k == "m1") ops.push_back(Op("m1", {(double)r.below(8), (double)r.below(64), (double)(r.chance(.5) ? 0 : r.below(4)), r.unit(), (double)r.below(100000)}));
        else if (k == "mall") ops.push_back(Op("mall", {(double)r.below(8), (double)r.below(2), (double)(r.chance(.5) ? 0 : r.below(5)), r.unit(), (double)r.below(100000)}));
        else if (k == "born") ops.push_back(Op("born", {(double)r.below(8), (double)r.below(100000), (double)r.below(2), (double)r.below(8)}));
        else if (k == "soak") ops.push_back(Op("soak", {(double)r.below(100000), (double)r.below(8), (double)r.below(2)}));
        else ops.push_back(Op(k, {(double)r.below(8), (double)r.below(8)}));
    }
}

static std::vector<Op> simpler(const Op &o) {
    std::vector<Op> v;
    if (o.k == "g") { // fewer controls; nicer angles
        size_t p = 8; size_t nt = o.i(p); size_t pc = p + 1 + nt;
        if (o.i(pc) > 0) { Op q = o; q.a.resize(pc); q.a.push_back(0); v.push_back(q); }
        Op q = o; bool ch = false;
        for (int i = 4; i < 8 && i < (int)q.a.size(); i++) if (q.a[i] != 0) { q.a[i] = 0; ch = true; }
        if (ch) v.push_back(q);
    }
    if (o.k == "new" && o.i(0) > 1) for (int n = 1; n < o.i(0) && n < 4; n++) { Op q = o; q.a[0] = n; v.push_back(q); }
    return v;
}

int main(int argc, char **argv) {
    // profile is part of the binary's invocation: eng_sim <mode> ... with QDD_SIM_PROFILE via --profile
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--profile")) g_profile = atoi(argv[i + 1]);
    static const char *names[] = {"", "engine-state", "engine-gate", "engine-measure", "engine-gc", "engine-alloc", "engine-wide"};
    Sim s;
    // a replay file names its profile in the cfg op; generation is the only thing the profile steers
    s.name = names[g_profile];
    s.gen = gen;
    s.exec = exec;
    s.simpler = simpler;
    s.cpu_limit = 25;
    return sim_main(argc, argv, s);
}
