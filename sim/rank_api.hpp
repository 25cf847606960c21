// One rank's engine: the real dd.cpp (MPI variant), loaded once per rank as a shared object of its own.
#pragma once
#include "simcore.hpp"
#include "stub/boost/mpi/simhub.hpp"
#include "dd.h"
struct RankEngine {
    virtual ~RankEngine() {}
    virtual void bind(simmpi::Hub *h, int rank) = 0;
    virtual const vNode *term() = 0;
    virtual void fresh(int n, int one) = 0;
    virtual void gate(const sim::Op &o, size_t p, int n, int scheme) = 0;       // build and apply
    virtual void hold(const sim::Op &o, size_t p, int n) = 0;                   // build and keep
    virtual bool applyHeld(int idx, int n, int scheme) = 0;
    virtual char measure1(int q, int n, bool collapse) = 0;
    virtual double prob1(int q, int n) = 0;
    virtual std::string measureall() = 0;
    virtual std::vector<double> probs() = 0;
    virtual double norm() = 0;                                                  // adjust_weight
    virtual void collect(int form, bool force) = 0;
    virtual void collectGates(bool force) = 0;
    virtual void thresholds(int a, int b) = 0;
    virtual void send(int dst, bool blocking, int what) = 0;
    virtual void recv(int src, bool blocking) = 0;
    virtual void printv() = 0;
    virtual void draws(const std::vector<uint64_t> &d, uint64_t seed) = 0;
    virtual vEdge cur() = 0;
    virtual std::vector<vEdge> extra() = 0;                                     // received states still held
    virtual void forget(int i) = 0;
    virtual void save(const char *f, int what) = 0;
    virtual void load(const char *f) = 0;                                       // into the received states
    virtual void pick(int i) = 0;                                               // a received state becomes the current one
};
