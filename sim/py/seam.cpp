// Preloaded into the Python process: the seams of the Python-level simulation.  Off until pysim_arm().
//   operator new/delete  -> arena.cpp (fixed addresses, injected failures)
//   std::random_device, getrandom, clocks, getpid -> functions of the run's seed
//   worker pools (stub_mt/task.h) -> counted
#include "../arena.hpp"
#include <cstring>
#include <link.h>
#include <random>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
static bool armed = false;
static uint64_t rs, us;
static long long clk, tick;
static long ndev = 0, nclk = 0;
static int pools = 0;
static uint64_t sm(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
// only the engine's own allocations go to the arena: what other libraries allocate depends on the interpreter's history
static const char *elo = nullptr, *ehi = nullptr;
static bool engine_code(const void *ra) {
    if (!elo) {
        dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) {
            const char *b = strrchr(i->dlpi_name, '/');
            if (!b || strcmp(b, "/pyQDD.so")) return 0;
            for (int k = 0; k < i->dlpi_phnum; k++) {
                auto &h = i->dlpi_phdr[k];
                if (h.p_type != PT_LOAD || !(h.p_flags & PF_X)) continue;
                elo = (const char *)i->dlpi_addr + h.p_vaddr;
                ehi = elo + h.p_memsz;
            }
            return 1;
        }, nullptr);
        if (!elo) return false;
    }
    return (const char *)ra >= elo && (const char *)ra < ehi;
}
extern "C" {
void pysim_arm(uint64_t seed, uint64_t offset) {
    rs = seed; us = seed ^ 0x5555;
    clk = 1000000000000000000ll + (long long)(sm(us) % 700000000000000000ull);
    tick = 1 + sm(us) % 5000;
    arena::init(offset);
    arena::only = engine_code;
    arena::active = true;
    armed = true;
}
void pysim_clock_jump(long long ns) { clk += ns; }
void pysim_fail_at(long k) { arena::fail_at = k; }
long pysim_nfailed() { return arena::nfailed; }
long pysim_nalloc() { return arena::nalloc; }
long pysim_live() { return arena::live_bytes; }
long pysim_ndev() { return ndev; }
void pysim_pool(int d) { pools += d; }
int pysim_pools() { return pools; }
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!armed || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, id, t);
    nclk++; clk += tick;
    t->tv_sec = clk / 1000000000; t->tv_nsec = clk % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!armed) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)sm(us);
    return n;
}
}
unsigned int std::random_device::_M_getval() {
    if (!armed) { unsigned v; syscall(SYS_getrandom, &v, sizeof v, 0); return v; }
    ndev++;
    return (unsigned)sm(rs);
}
namespace tbb { namespace detail { namespace r1 {
void *cache_aligned_allocate(std::size_t n) { return operator new(n, std::align_val_t(128)); }
void cache_aligned_deallocate(void *p) { operator delete(p, std::align_val_t(128)); }
}}}
