// Interface between the engine's transport calls (these stub headers stand in for Boost.MPI) and the simulator,
// which decides delivery, delay, buffering and every interleaving.
#pragma once
#include <cstddef>
#include <string>
#include <vector>
namespace simmpi {
struct Hub {
    virtual ~Hub() {}
    virtual int size() = 0;
    // point to point. 'direct' buffers are the caller's memory: the hub may read them any time until completion.
    virtual long post_send(int rank, int dst, int tag, std::string packed, const void *direct, size_t nbytes, bool blocking) = 0;
    virtual long post_recv(int rank, int src, int tag) = 0;             // matches later
    virtual bool test(int rank, long req) = 0;                           // one poll (a scheduling point)
    virtual void wait(int rank, long req) = 0;                           // blocks in simulated time
    virtual std::string take(int rank, long req, int *src, int *tag) = 0; // payload of a completed receive
    virtual void drop(int rank, long req) = 0;                           // request destroyed before completion
    virtual bool probe(int rank, int src, int tag, bool block, int *osrc, int *otag) = 0;
    // collectives: kind is a tag checked for agreement; every rank contributes bytes, gets all contributions
    virtual std::vector<std::string> collective(int rank, const char *kind, int root, std::string mine) = 0;
    virtual void note(int rank, const char *what) = 0;
};
extern Hub *g_hub;      // set per engine copy by its loader
extern int g_rank;      // rank of this engine copy
} // namespace simmpi
