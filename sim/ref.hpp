// Reference model: sparse state vectors and dense operators, written from the mathematics and nothing else.
#pragma once
#include <complex>
#include <map>
#include <vector>
#include <cmath>
#include <string>
namespace ref {
using cd = std::complex<double>;
using key = unsigned __int128;
using Mat = std::vector<std::vector<cd>>; // row-major, index bit j <-> targets[j]
struct Ctl { int q; bool pos; };

struct Gate {              // a matrix on targets (targets[0] = least significant index bit) with controls
    Mat m;
    std::vector<int> t;
    std::vector<Ctl> c;
};

struct State {
    int n = 0;
    std::map<key, cd> a;
    static State basis(int n, key k) { State s; s.n = n; s.a[k] = 1.0; return s; }
    double norm2() const { double r = 0; for (auto &x : a) r += std::norm(x.second); return r; }
    cd at(key k) const { auto i = a.find(k); return i == a.end() ? cd(0) : i->second; }
    void prune() { for (auto i = a.begin(); i != a.end();) { if (std::abs(i->second) < 1e-13) i = a.erase(i); else ++i; } }
    void apply(const Gate &g) {
        std::map<key, cd> o;
        size_t k = g.t.size(), d = size_t(1) << k;
        for (auto &x : a) {
            bool on = true;
            for (auto &c : g.c) if ((bool)((x.first >> c.q) & 1) != c.pos) { on = false; break; }
            if (!on) { o[x.first] += x.second; continue; }
            size_t col = 0;
            key rest = x.first;
            for (size_t j = 0; j < k; j++) { if ((x.first >> g.t[j]) & 1) { col |= size_t(1) << j; rest &= ~(key(1) << g.t[j]); } }
            for (size_t r = 0; r < d; r++) {
                cd v = g.m[r][col];
                if (v == cd(0)) continue;
                key kk = rest;
                for (size_t j = 0; j < k; j++) if ((r >> j) & 1) kk |= key(1) << g.t[j];
                o[kk] += v * x.second;
            }
        }
        a.swap(o);
        prune();
    }
    double p0(int q) const { double r = 0, t = 0; for (auto &x : a) { t += std::norm(x.second); if (!((x.first >> q) & 1)) r += std::norm(x.second); } return t > 0 ? r / t : 0; }
    double project(int q, int bit) { // returns probability, renormalises to the previous norm
        double t = norm2(), p = 0;
        for (auto i = a.begin(); i != a.end();) { if ((int)((i->first >> q) & 1) != bit) i = a.erase(i); else { p += std::norm(i->second); ++i; } }
        if (p > 0) { double f = std::sqrt(t / p); for (auto &x : a) x.second *= f; }
        return t > 0 ? p / t : 0;
    }
};

inline Mat M2(cd a, cd b, cd c, cd d) { return {{a, b}, {c, d}}; }
inline cd E(double x) { return cd(std::cos(x), std::sin(x)); }
const cd I_(0, 1);
enum G1 { gI, gH, gX, gY, gZ, gS, gSdg, gT, gTdg, gSX, gSXdg, gV, gVdg, gRX, gRY, gRZ, gU3, gU1, gU2, gU, gP, gR, gN1 };
inline Mat pauli(char c) {
    switch (c) { case 'X': return M2(0, 1, 1, 0); case 'Y': return M2(0, -I_, I_, 0); case 'Z': return M2(1, 0, 0, -1); default: return M2(1, 0, 0, 1); }
}
inline Mat lin(cd x, const Mat &A, cd y, const Mat &B) {
    Mat r = A;
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) r[i][j] = x * A[i][j] + y * B[i][j];
    return r;
}
inline Mat mul(const Mat &A, const Mat &B) {
    size_t n = A.size();
    Mat r(n, std::vector<cd>(n));
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) if (A[i][k] != cd(0)) for (size_t j = 0; j < n; j++) r[i][j] += A[i][k] * B[k][j];
    return r;
}
inline Mat kron(const Mat &A, const Mat &B) { // A = more significant
    size_t n = A.size(), m = B.size();
    Mat r(n * m, std::vector<cd>(n * m));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < m; k++) for (size_t l = 0; l < m; l++) r[i * m + k][j * m + l] = A[i][j] * B[k][l];
    return r;
}
inline Mat eye(size_t n) { Mat r(n, std::vector<cd>(n)); for (size_t i = 0; i < n; i++) r[i][i] = 1; return r; }
inline Mat rot(char c, double th) { return lin(std::cos(th / 2), pauli('I'), -I_ * std::sin(th / 2), pauli(c)); }
inline Mat g1(int k, double a, double b, double c, double g) {
    const double h = std::sqrt(0.5);
    switch (k) {
    case gI: return pauli('I');
    case gH: return M2(h, h, h, -h);
    case gX: return pauli('X');
    case gY: return pauli('Y');
    case gZ: return pauli('Z');
    case gS: return M2(1, 0, 0, I_);
    case gSdg: return M2(1, 0, 0, -I_);
    case gT: return M2(1, 0, 0, E(M_PI / 4));
    case gTdg: return M2(1, 0, 0, E(-M_PI / 4));
    case gSX: return M2(cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5));
    case gSXdg: return M2(cd(.5, -.5), cd(.5, .5), cd(.5, .5), cd(.5, -.5));
    case gV: return rot('X', M_PI / 2);
    case gVdg: return rot('X', -M_PI / 2);
    case gRX: return rot('X', a);
    case gRY: return rot('Y', a);
    case gRZ: return rot('Z', a);
    case gU1: case gP: return M2(1, 0, 0, E(a));
    case gU2: return M2(h, -E(b) * h, E(a) * h, E(a + b) * h);
    case gU3: return M2(std::cos(a / 2), -E(c) * std::sin(a / 2), E(b) * std::sin(a / 2), E(b + c) * std::cos(a / 2));
    case gU: { Mat m = g1(gU3, a, b, c, 0); for (auto &r : m) for (auto &x : r) x *= E(g); return m; }
    case gR: return lin(std::cos(a / 2), pauli('I'), -I_ * std::sin(a / 2), lin(std::cos(b), pauli('X'), std::sin(b), pauli('Y')));
    }
    return pauli('I');
}
// two-qubit: index bit 0 <-> second target (t1), bit 1 <-> first target (t0)
inline Mat expP(char p0, char p1, double th) { return lin(std::cos(th / 2), eye(4), -I_ * std::sin(th / 2), kron(pauli(p0), pauli(p1))); }
inline Mat swapm() { return {{1, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}}; }
inline Mat iswapm() { return {{1, 0, 0, 0}, {0, 0, I_, 0}, {0, I_, 0, 0}, {0, 0, 0, 1}}; }
// random unitary (Gram-Schmidt), from a generator of reals in (-1,1)
template <class F> Mat randu(size_t d, F f) {
    Mat m(d, std::vector<cd>(d));
    for (size_t i = 0; i < d; i++) {
        for (;;) {
            for (size_t j = 0; j < d; j++) m[i][j] = cd(f(), f());
            for (size_t k = 0; k < i; k++) { cd s = 0; for (size_t j = 0; j < d; j++) s += std::conj(m[k][j]) * m[i][j]; for (size_t j = 0; j < d; j++) m[i][j] -= s * m[k][j]; }
            double n = 0; for (auto &x : m[i]) n += std::norm(x);
            if (n > 1e-3) { for (auto &x : m[i]) x /= std::sqrt(n); break; }
        }
    }
    return m;
}
inline Mat embed(int n, const Gate &g) { // dense 2^n matrix of a gate
    size_t d = size_t(1) << n;
    Mat r(d, std::vector<cd>(d));
    for (size_t c = 0; c < d; c++) { State s = State::basis(n, c); std::map<key, cd> dummy; s.apply(g); for (auto &x : s.a) r[(size_t)x.first][c] = x.second; }
    return r;
}
} // namespace ref
