// Stand-in for the worker pool in the Python-level simulation: it only counts how many pools are alive.
// (The real pool is simulated by mt_sim; see C10-C12.)
#pragma once
extern "C" void pysim_pool(int delta);
class Scheduler {
  public:
    template <class... A> explicit Scheduler(A &&...) { pysim_pool(1); }
    Scheduler(const Scheduler &) = delete;
    ~Scheduler() { pysim_pool(-1); }
};
