// Gate descriptions: generated by the simulator, built by the engine (toEng), interpreted by the reference (toRef).
#pragma once
#include "simcore.hpp"
#include "arena.hpp"
#include "ref.hpp"
#include "dd.h"
using sim::Op; using sim::Rng;
using ref::cd; using ref::key;

// ------------------------------------------------------------------ gate description <-> engine / reference
struct GD { // decoded from op arguments starting at position p
    int cls = 0, kind = 0, t0 = 0, t1 = 0;
    double ang[4] = {0, 0, 0, 0};
    std::vector<int> t;
    std::vector<ref::Ctl> c;
    unsigned useed = 0;
};
// encoding: cls kind useed a0 a1 a2 a3 nt t.. nc (q pos)..
static std::vector<double> encG(const GD &g) {
    std::vector<double> v = {(double)g.cls, (double)g.kind, (double)g.useed, g.ang[0], g.ang[1], g.ang[2], g.ang[3], (double)g.t.size()};
    for (int x : g.t) v.push_back(x);
    v.push_back(g.c.size());
    for (auto &c : g.c) { v.push_back(c.q); v.push_back(c.pos); }
    return v;
}
static GD decG(const Op &o, size_t p, int n) {
    GD g;
    g.cls = o.i(p); g.kind = o.i(p + 1); g.useed = (unsigned)o.d(p + 2);
    for (int i = 0; i < 4; i++) g.ang[i] = o.d(p + 3 + i);
    size_t nt = o.i(p + 7);
    p += 8;
    std::set<int> used;
    auto fresh = [&](int q) { q = ((q % n) + n) % n; for (int k = 0; k < n; k++) { int c = (q + k) % n; if (!used.count(c)) { used.insert(c); return c; } } return -1; };
    for (size_t i = 0; i < nt; i++) { int q = fresh(o.i(p + i)); if (q >= 0) g.t.push_back(q); }
    p += nt;
    size_t nc = o.i(p++);
    for (size_t i = 0; i < nc; i++) { int q = fresh(o.i(p + 2 * i)); if (q >= 0) g.c.push_back({q, o.i(p + 2 * i + 1) != 0}); }
    size_t need = g.cls == 0 ? 1 : g.cls == 1 ? 2 : 1;
    if (g.cls == 1 && g.t.size() < 2) { g.cls = 0; g.kind = ref::gH; }
    (void)need;
    return g;
}
static double rreal(Rng &r) { return 2 * r.unit() - 1; }
static GD genG(Rng &r, int n, bool ctl_ok, bool cliff, int maxlarge) {
    GD g;
    int roll = r.below(100);
    std::vector<int> qs(n);
    for (int i = 0; i < n; i++) qs[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(qs[i], qs[r.below(i + 1)]);
    size_t used;
    if (n >= 2 && roll >= 60 && roll < 85) { g.cls = 1; g.kind = r.below(10); if (cliff && g.kind >= 7) g.kind = 4 + r.below(3); g.t = {qs[0], qs[1]}; used = 2; }
    else if (n >= 2 && roll >= 85 && roll < 95 && maxlarge >= 1 && !cliff) { g.cls = 2; int k = 1 + r.below(std::min(maxlarge, n)); g.t.assign(qs.begin(), qs.begin() + k); used = k; ctl_ok = false; }
    else { g.cls = 0; g.kind = cliff ? r.below(9) : r.below(ref::gN1 + 2); g.t = {qs[0]}; used = 1; }
    g.useed = r.below(1000000);
    static const double nice[] = {0, M_PI, M_PI / 2, -M_PI / 2, M_PI / 4, -M_PI, 2 * M_PI, 1e-3, M_PI / 8};
    for (double &a : g.ang) a = (cliff || r.chance(.35)) ? nice[cliff ? r.below(4) : r.below(9)] : (2 * r.unit() - 1) * 7;
    if (cliff && g.cls == 1 && g.kind < 4) g.ang[0] = nice[r.below(4)];
    if (ctl_ok && g.kind != 4 && r.chance(.45)) {
        int nc = 1 + r.below(std::min<int>(3, std::max<int>(1, n - (int)used)));
        for (int i = 0; i < nc && used < (size_t)n; i++) g.c.push_back({qs[used++], !r.chance(.3)});
    }
    return g;
}
// kinds of cls 1: 0 RXX 1 RYY 2 RZZ 3 RZX 4 SWAP 5 ISWAP 6 CSWAP(swap with controls) 7 random 4x4 8,9 controlled rxx/rzz by matrix
static ref::Gate toRef(const GD &g) {
    ref::Gate r;
    if (g.cls == 0) {
        if (g.kind >= ref::gN1) { Rng q(g.useed); r.m = ref::randu(2, [&] { return rreal(q); }); }
        else r.m = ref::g1(g.kind, g.ang[0], g.ang[1], g.ang[2], g.ang[3]);
        r.t = {g.t[0]};
        r.c = g.c;
    } else if (g.cls == 1) {
        switch (g.kind) {
        case 0: r.m = ref::expP('X', 'X', g.ang[0]); break;
        case 1: r.m = ref::expP('Y', 'Y', g.ang[0]); break;
        case 2: r.m = ref::expP('Z', 'Z', g.ang[0]); break;
        case 3: r.m = ref::expP('X', 'Z', g.ang[0]); break;
        case 4: case 6: r.m = ref::swapm(); break;
        case 5: r.m = ref::iswapm(); break;
        case 7: { Rng q(g.useed); r.m = ref::randu(4, [&] { return rreal(q); }); break; }
        case 8: r.m = ref::expP('X', 'X', g.ang[0]); break;
        default: r.m = ref::expP('Z', 'Z', g.ang[0]); break;
        }
        r.t = {g.t[1], g.t[0]};
        if (g.kind != 4) r.c = g.c;
    } else {
        Rng q(g.useed);
        r.m = ref::randu(size_t(1) << g.t.size(), [&] { return rreal(q); });
        r.t = g.t;
    }
    return r;
}
static GateMatrix gm(const ref::Mat &m) { return GateMatrix{m[0][0], m[0][1], m[1][0], m[1][1]}; }
static TwoQubitGateMatrix tm(const ref::Mat &m) { TwoQubitGateMatrix r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r[i][j] = m[i][j]; return r; }
static mEdge toEng(const GD &g, int n) {
    Controls c;
    for (auto &x : g.c) c.emplace(Control{x.q, x.pos ? Control::Type::pos : Control::Type::neg});
    if (g.cls == 0) {
        int t = g.t[0];
        GateMatrix m;
        double a = g.ang[0], b = g.ang[1], l = g.ang[2], ga = g.ang[3];
        switch (g.kind) {
        case ref::gI: m = Imat; break;
        case ref::gH: m = Hmat; break;
        case ref::gX: if (c.size() == 1 && c.begin()->type == Control::Type::pos) return CX(n, t, c.begin()->qubit); m = Xmat; break;
        case ref::gY: m = Ymat; break;
        case ref::gZ: m = Zmat; break;
        case ref::gS: m = Smat; break;
        case ref::gSdg: m = Sdagmat; break;
        case ref::gT: m = Tmat; break;
        case ref::gTdg: m = Tdagmat; break;
        case ref::gSX: m = SXmat; break;
        case ref::gSXdg: m = SXdagmat; break;
        case ref::gV: m = Vmat; break;
        case ref::gVdg: m = Vdagmat; break;
        case ref::gRX: if (c.empty()) return RX(n, t, a); m = rx(a); break;
        case ref::gRY: if (c.empty()) return RY(n, t, a); m = ry(a); break;
        case ref::gRZ: if (c.empty()) return RZ(n, t, a); m = rz(a); break;
        case ref::gU3: m = u3(a, b, l); break;
        case ref::gU1: m = u1(a); break;
        case ref::gU2: m = u2(a, b); break;
        case ref::gU: m = u(a, b, l, ga); break;
        case ref::gP: m = p(a); break;
        case ref::gR: m = r(a, b); break;
        default: { arena::Pause ps; m = gm(toRef(g).m); }
        }
        if (c.empty()) return makeGate(n, m, t);
        return makeGate(n, m, t, c);
    }
    if (g.cls == 1) {
        int a = g.t[0], b = g.t[1];
        bool nc = c.empty();
        switch (g.kind) {
        case 0: if (nc) return RXX(n, a, b, g.ang[0]); return makeTwoQubitGate(n, rxx_matrix(g.ang[0]), a, b, c);
        case 1: if (nc) return RYY(n, a, b, g.ang[0]); return makeTwoQubitGate(n, ryy_matrix(g.ang[0]), a, b, c);
        case 2: if (nc) return RZZ(n, a, b, g.ang[0]); return makeTwoQubitGate(n, rzz_matrix(g.ang[0]), a, b, c);
        case 3: if (nc) return RZX(n, a, b, g.ang[0]); return makeTwoQubitGate(n, rzx_matrix(g.ang[0]), a, b, c);
        case 4: return SWAP(n, a, b);
        case 5: if (nc) return ISWAP(n, a, b); return makeTwoQubitGate(n, iswap_matrix(), a, b, c);
        case 6: if (c.size() == 1 && c.begin()->type == Control::Type::pos) return CSWAP(n, a, b, c.begin()->qubit); return makeTwoQubitGate(n, swap_matrix(), a, b, c);
        default: { TwoQubitGateMatrix m; { arena::Pause ps; m = tm(toRef(g).m); } if (nc) return makeTwoQubitGate(n, m, a, b); return makeTwoQubitGate(n, m, a, b, c); }
        }
    }
    ComplexMatrix m;
    { arena::Pause ps; ref::Mat rm = toRef(g).m; m = rm; }
    std::vector<Qubit> ts(g.t.begin(), g.t.end());
    return makeLargeGate(n, m, ts);
}

