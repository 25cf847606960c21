// Deterministic thread runtime.  Code compiled with -fsanitize=thread but linked against this file instead of libtsan
// calls __tsan_* on every memory access and atomic operation.  Together with the interposed pthread/clock/random calls
// that puts every source of scheduling nondeterminism behind one seam: real threads exist, exactly one runs at a time,
// and the seeded run decides at every instrumented access, lock, wait or yield who runs next.
#pragma once
#include "simcore.hpp"

namespace mt {
struct Cfg {
    bool pending = true;     // race detection: two parked/enabled conflicting accesses (exact, needs no synchronisation model)
    bool hb = false;         // race detection: happens-before (all synchronisation must be instrumented)
    bool weak = false;       // C11 weak memory: atomic loads may return older stores the memory model allows
    int qlog = 10;           // quanta are log-uniform in [1, 2^qlog] instrumented accesses
    int spurious = 0;        // 1/spurious condition waits wake up spuriously, weak CAS fail spuriously
    int stall = 0;           // thread (id % stall) is scheduled rarely when != 0
    int fair = 400;          // a runnable thread runs at least every `fair` scheduling decisions
    sim::u64 limit = 40000000; // instrumented accesses after which an operation counts as hung
    sim::u64 addr = 0;       // shifts all heap addresses
    bool arena_only = false; // happens-before only for engine heap and globals (fiber stacks are reused behind our back)
    bool quarantine = false; // freed memory is never reused within the run; touching it is a violation
};
void start(const Cfg &);
void stop();
void progress();                       // resets the hang bound (the harness made progress)
[[noreturn]] void fail(const char *cls, const std::string &msg);
int self_id();
sim::u64 steps();
void point();                          // explicit preemption point for the harness
bool freed(const void *);               // the block was given back (quarantine and hb must be on)
void fail_alloc(int n);                // the n-th allocation from now on by this thread fails (0: none)
extern sim::u64 n_allocfail;
struct Quiet { Quiet(); ~Quiet(); };   // harness code: no preemption, no race bookkeeping
bool active();
extern sim::u64 n_switches, n_preempts, n_stale, n_spurious, n_weakfail, n_blocks, n_atomics, n_stallskips;
} // namespace mt
