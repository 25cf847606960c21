// Compiled into every rank's shared object, next to the real src/dd.cpp built with -DisMPI against the simulated transport.
#include "stub/boost/mpi/communicator.hpp"
#include "dd.h"
#include "gates.hpp"
#include "rank_api.hpp"
#include "ddread.hpp"
#include <iostream>
namespace simmpi { Hub *g_hub = nullptr; int g_rank = 0; }
namespace {
struct HG { mEdge m; int largest; };
static int largestOf(const GD &g) { int l = 0; for (int t : g.t) l = std::max(l, t); for (auto &c : g.c) l = std::max(l, c.q); return l; }
struct Eng : RankEngine {
    bmpi::communicator world;
    vEdge st;
    std::vector<vEdge> ex;
    std::vector<HG> held;
    std::mt19937_64 mt;
    void bind(simmpi::Hub *h, int rank) override { simmpi::g_hub = h; simmpi::g_rank = rank; }
    const vNode *term() override { return vNode::terminal; }
    void fresh(int n, int one) override { st = one ? makeOneStateMPI(n, world) : makeZeroStateMPI(n, world); }
    void mul(const mEdge &m, int n, int largest, int scheme) { st = scheme ? mv_multiply_MPI_bcast3(m, st, world, n, largest) : mv_multiply_MPI(m, st, world, n, largest); }
    void gate(const sim::Op &o, size_t p, int n, int scheme) override { GD g; { arena::Pause ps; g = decG(o, p, n); } mEdge m = toEng(g, n); mul(m, n, largestOf(g), scheme); }
    void hold(const sim::Op &o, size_t p, int n) override { GD g; { arena::Pause ps; g = decG(o, p, n); } mEdge m = toEng(g, n); if (held.size() >= 4) held.erase(held.begin()); held.push_back({m, largestOf(g)}); }
    bool applyHeld(int idx, int n, int scheme) override { if (held.empty()) return false; HG &h = held[idx % held.size()]; mul(h.m, n, h.largest, scheme); return true; }
    char measure1(int q, int n, bool collapse) override { return measureOneCollapsingMPI(world, st, q, n, mt, collapse); }
    double prob1(int q, int n) override { return measureOneMPI(world, st, q, n, mt); }
    std::string measureall() override { return measureAllMPI(world, st, false, mt); }
    std::vector<double> probs() override { return probabilitiesMPI(world, st); }
    double norm() override { return adjust_weight(world, st); }
    void collect(int form, bool force) override {
        if (form == 1) { st = ::gc(st, force); ex.clear(); return; }
        std::vector<vEdge> in; in.push_back(st); for (auto &e : ex) in.push_back(e);
        auto out = ::gc(in, force);
        st = out[0]; for (size_t i = 0; i < ex.size(); i++) ex[i] = out[i + 1];
    }
    void collectGates(bool force) override {
        std::vector<mEdge> in; for (auto &h : held) in.push_back(h.m);
        auto out = gc_mat(in, force);
        for (size_t i = 0; i < held.size(); i++) held[i].m = out[i];
    }
    void thresholds(int a, int b) override { set_gc_thr(a, b); }
    void send(int dst, bool blocking, int what) override { vEdge e = (what > 0 && !ex.empty()) ? ex[(what - 1) % ex.size()] : st; send_dd(world, e, dst, blocking); }
    void recv(int src, bool blocking) override { vEdge e = receive_dd(world, src, blocking); if (ex.size() >= 4) ex.erase(ex.begin()); ex.push_back(e); }
    void printv() override { st.printVectorMPI(world); }
    void draws(const std::vector<uint64_t> &d, uint64_t seed) override { arena::Pause ps; draws::load(mt, d, seed); }
    vEdge cur() override { return st; }
    std::vector<vEdge> extra() override { return ex; }
    void save(const char *f, int what) override { save_binary((what > 0 && !ex.empty()) ? ex[(what - 1) % ex.size()] : st, std::string(f)); }
    void load(const char *f) override { vEdge e = load_binary(std::string(f)); if (ex.size() >= 4) ex.erase(ex.begin()); ex.push_back(e); }
    void pick(int i) override { if (!ex.empty()) std::swap(st, ex[i % ex.size()]); }
    void forget(int i) override { if (!ex.empty()) ex.erase(ex.begin() + i % ex.size()); }
};
}
extern "C" RankEngine *make_rank_engine() { return new Eng; }
