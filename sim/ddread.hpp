// Reads decision diagrams directly (children, weights), independently of the engine's own read-out functions.
#pragma once
#include "dd.h"
#include "ref.hpp"
#include "simcore.hpp"
#include <unordered_map>
#include <sstream>
namespace ddr {
using ref::cd; using ref::key;
inline cd C(const std_complex &w) { return cd(w.r, w.i); }
inline bool z(const std_complex &w) { return w.r == 0 && w.i == 0; }

inline cd amp(const vEdge &e, int n, key k, const vNode *term) {
    cd w = C(e.w);
    const vNode *p = e.n;
    int lev = n - 1;
    while (p != term) {
        if (w == cd(0)) return 0;
        if (p->v != lev) throw sim::Violation("malformed-state", "a state diagram has a node of level " + std::to_string(p->v) + " where level " + std::to_string(lev) + " belongs");
        const vEdge &c = p->children[(k >> lev) & 1];
        w *= C(c.w);
        p = c.n;
        lev--;
    }
    if (lev >= 0 && w != cd(0)) { if (std::abs(w) > 1e-9) throw sim::Violation("malformed-state", "a state diagram ends above its lowest qubit with a non-zero weight"); return 0; }
    return w;
}
inline double norm2(const vEdge &e, const vNode *term, std::unordered_map<const vNode *, double> &memo) {
    std::function<double(const vNode *)> f = [&](const vNode *p) -> double {
        if (p == term) return 1;
        auto it = memo.find(p);
        if (it != memo.end()) return it->second;
        double s = 0;
        for (int i = 0; i < 2; i++) if (!z(p->children[i].w)) s += std::norm(C(p->children[i].w)) * f(p->children[i].n);
        return memo[p] = s;
    };
    return std::norm(C(e.w)) * f(e.n);
}
inline double norm2(const vEdge &e, const vNode *term) { std::unordered_map<const vNode *, double> m; return norm2(e, term, m); }

// squared norm of the part of the state in which qubit q has the given value
inline double norm2_bit(const vEdge &e, int q, int bit, const vNode *term) {
    std::unordered_map<const vNode *, double> memo;
    std::function<double(const vNode *)> f = [&](const vNode *p) -> double {
        if (p == term) return 1;
        auto it = memo.find(p);
        if (it != memo.end()) return it->second;
        double s = 0;
        for (int i = 0; i < 2; i++) if (!(p->v == q && i != bit) && !z(p->children[i].w)) s += std::norm(C(p->children[i].w)) * f(p->children[i].n);
        return memo[p] = s;
    };
    return std::norm(C(e.w)) * f(e.n);
}
// An outcome the reference gives (numerically) no probability.  With a draw crafted to sit exactly at 0, 1 or a boundary even
// an outcome of probability 1e-25 is legitimate, so there the engine's own state must give it exactly none.
inline bool impossible(double refp, double engp, double tol, bool crafted) { return refp < std::max(4 * tol * tol, 1e-15) && (!crafted || engp == 0); }

struct ShareCheck { // bit-identical sub-diagrams must be one node
    std::map<std::string, const vNode *> seen;
    std::set<const vNode *> done;
    size_t nodes = 0;
    void walk(const vNode *p, const vNode *term, int lev) {
        if (p == term || done.count(p)) return;
        if (p == nullptr) throw sim::Violation("malformed-state", "a state diagram contains a null child");
        if (p->v != lev) throw sim::Violation("malformed-state", "a state diagram has a node of level " + std::to_string(p->v) + " where level " + std::to_string(lev) + " belongs");
        done.insert(p);
        nodes++;
        std::string k((const char *)&p->v, sizeof p->v);
        for (int i = 0; i < 2; i++) {
            double r = p->children[i].w.r + 0.0, im = p->children[i].w.i + 0.0; // -0 -> +0
            const vNode *c = p->children[i].n;
            k.append((const char *)&r, 8); k.append((const char *)&im, 8); k.append((const char *)&c, 8);
        }
        auto it = seen.find(k);
        if (it != seen.end()) throw sim::Violation("lost-sharing", "two distinct nodes of level " + std::to_string(lev) + " have bit-identical children: equal sub-states are no longer shared");
        seen[k] = p;
        for (int i = 0; i < 2; i++) if (!z(p->children[i].w)) walk(p->children[i].n, term, lev - 1);
    }
};

inline uint64_t q9(double x) { return (uint64_t)(int64_t)llround(x * 1e7); }
inline uint64_t shash(const ref::State &s) {
    uint64_t h = 1469598103934665603ull ^ s.n;
    for (auto &x : s.a) { for (uint64_t v : {(uint64_t)x.first, (uint64_t)(x.first >> 64), q9(x.second.real()), q9(x.second.imag())}) { h ^= v; h *= 1099511628211ull; h ^= h >> 31; } }
    return h;
}
inline std::string kstr(key k, int n) { std::string s; for (int i = n - 1; i >= 0; i--) s += ((k >> i) & 1) ? '1' : '0'; return s; }

// full comparison of a state diagram with its reference
inline void check_state(const vEdge &e, const ref::State &r, double tol, const vNode *term, const std::string &what) {
    std::unordered_map<const vNode *, double> memo;
    for (auto &x : r.a) {
        cd v = amp(e, r.n, x.first, term);
        if (!(std::abs(v - x.second) <= tol)) {
            std::ostringstream o;
            o << what << ": amplitude of |" << kstr(x.first, r.n) << "> is " << v << ", the reference says " << x.second;
            throw sim::Violation("wrong-state", o.str());
        }
    }
    double n2 = norm2(e, term, memo), rn = r.norm2();
    if (!(std::abs(n2 - rn) <= 4 * tol * std::max(1.0, rn) * std::sqrt((double)r.a.size() + 1))) {
        std::ostringstream o;
        o << what << ": squared norm is " << n2 << ", the reference says " << rn << " (amplitude on states the reference does not reach)";
        throw sim::Violation("wrong-state", o.str());
    }
}
inline void dense_m(const mEdge &e, int lev, size_t row, size_t col, cd w, ref::Mat &m, const mNode *term) {
    w *= C(e.w);
    if (w == cd(0)) return;
    if (lev < 0) { if (e.n != term) throw sim::Violation("malformed-gate", "a gate diagram continues below its lowest qubit"); m[row][col] += w; return; }
    if (e.n == term || e.n->v < lev) { // identity on this level
        mEdge one = e; one.w = {1, 0};
        dense_m(one, lev - 1, row, col, w, m, term);
        dense_m(one, lev - 1, row | (size_t(1) << lev), col | (size_t(1) << lev), w, m, term);
        return;
    }
    if (e.n->v > lev) throw sim::Violation("malformed-gate", "a gate diagram has a node above its parent's level");
    for (int i = 0; i < 4; i++) dense_m(e.n->children[i], lev - 1, row | ((i >> 1) ? size_t(1) << lev : 0), col | ((i & 1) ? size_t(1) << lev : 0), w, m, term);
}
inline void check_mat(const mEdge &e, int n, const ref::Mat &r, double tol, const mNode *term, const std::string &what) {
    size_t d = size_t(1) << n;
    ref::Mat m(d, std::vector<cd>(d));
    dense_m(e, n - 1, 0, 0, 1, m, term);
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) if (!(std::abs(m[i][j] - r[i][j]) <= tol)) {
        std::ostringstream o;
        o << what << ": entry [" << i << "," << j << "] is " << m[i][j] << ", the reference says " << r[i][j];
        throw sim::Violation("wrong-gate", o.str());
    }
}
} // namespace ddr

// ---- controlled measurement draws: a generator whose next outputs are chosen by the simulator ----
namespace draws {
inline uint64_t undo_shr(uint64_t y, int s, uint64_t mask) { uint64_t x = y; for (int i = 0; i < 64 / s + 2; i++) x = y ^ ((x >> s) & mask); return x; }
inline uint64_t undo_shl(uint64_t y, int s, uint64_t mask) { uint64_t x = y; for (int i = 0; i < 64 / s + 2; i++) x = y ^ ((x << s) & mask); return x; }
inline uint64_t untemper(uint64_t y) {
    y = undo_shr(y, 43, ~0ull);
    y = undo_shl(y, 37, 0xFFF7EEE000000000ull);
    y = undo_shl(y, 17, 0x71D67FFFEDA60000ull);
    y = undo_shr(y, 29, 0x5555555555555555ull);
    return y;
}
inline void load(std::mt19937_64 &mt, const std::vector<uint64_t> &outs, uint64_t fillseed) {
    std::ostringstream o;
    sim::Rng r(fillseed);
    for (int i = 0; i < 312; i++) o << (i < (int)outs.size() ? untemper(outs[i]) : r.next()) << ' ';
    o << 0;
    std::istringstream is(o.str());
    is >> mt;
}
inline uint64_t unit(double d) { // 64-bit output that std::uniform_real_distribution<double>(0,1) maps to about d
    if (d <= 0) return 0;
    if (d >= 1) return ~0ull;
    return (uint64_t)ldexpl((long double)d, 64);
}
} // namespace draws
