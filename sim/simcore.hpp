// Deterministic-simulation core shared by the C++ simulators.
//
// One integer seed decides everything: the operation list, and every scheduling / fault choice made while the
// operations run.  A run executes in a forked child (fresh engine state, crash isolation).  Choices are recorded, so
// that a run can be replayed (and minimised) from an explicit operation list plus an explicit choice list.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>

namespace sim {

using u32 = uint32_t;
using u64 = uint64_t;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n <= 1 ? 0 : u32((next() >> 11) % n); }
    int range(int lo, int hi) { return lo + int(below(u32(hi - lo + 1))); }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};

struct Op {
    std::string k;
    std::vector<double> a;
    Op() {}
    Op(std::string kk, std::vector<double> aa = {}) : k(std::move(kk)), a(std::move(aa)) {}
    int i(size_t n, int d = 0) const { return n < a.size() ? int(llround(a[n])) : d; }
    double d(size_t n, double dd = 0) const { return n < a.size() ? a[n] : dd; }
    std::string str() const {
        std::string s = k;
        char b[64];
        for (double x : a) {
            if (x == (double)(long long)x && std::fabs(x) < 1e15) snprintf(b, sizeof b, " %lld", (long long)x);
            else snprintf(b, sizeof b, " %.17g", x);
            s += b;
        }
        return s;
    }
    static Op parse(const std::string &line) {
        Op o;
        size_t p = 0;
        auto tok = [&]() {
            while (p < line.size() && line[p] == ' ') p++;
            size_t q = p;
            while (q < line.size() && line[q] != ' ') q++;
            std::string t = line.substr(p, q - p);
            p = q;
            return t;
        };
        o.k = tok();
        for (;;) {
            std::string t = tok();
            if (t.empty()) break;
            o.a.push_back(strtod(t.c_str(), nullptr));
        }
        return o;
    }
};

struct Violation : std::runtime_error {
    std::string cls;
    Violation(std::string c, const std::string &m) : std::runtime_error(m), cls(std::move(c)) {}
};

struct Run;
extern Run *g_run; // the run in progress in this (child) process
void mirror_choice(u32 v);

// Everything one simulated run owns.
struct Run {
    u64 seed = 0;
    std::vector<Op> ops;
    // choices
    bool replay = false;
    std::vector<u32> given;
    std::vector<u32> taken;
    Rng crng{0};
    // log
    u64 h = 0xcbf29ce484222325ULL;
    u64 steps = 0;
    bool verbose = false;
    std::map<std::string, u64> cnt;
    std::set<u64> states;
    std::string sample;

    void mix(u64 v) { h ^= v; h *= 0x100000001b3ULL; h ^= h >> 29; }
    void mixs(const char *s) { for (; *s; ++s) mix((unsigned char)*s); }
    // one choice in [0,n)
    u32 pick(u32 n) {
        if (n <= 1) return 0;
        u32 v;
        if (replay) v = taken.size() < given.size() ? given[taken.size()] % n : 0;
        else v = crng.below(n);
        taken.push_back(v);
        mirror_choice(v);
        return v;
    }
    bool chance(u32 num, u32 den) { return pick(den) >= den - num; } // default (0) = no fault
    void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        steps++;
        mixs(b);
        if (verbose) fprintf(stderr, "[%6llu] %s\n", (unsigned long long)steps, b);
    }
    void count(const std::string &k, u64 n = 1) { cnt[k] += n; }
    void state(u64 v) { if (states.size() < 4000) states.insert(v); }
};

// what a simulator provides
struct Sim {
    const char *name;
    std::function<void(u64 seed, std::vector<Op> &ops)> gen;
    std::function<void(Run &)> exec;      // throws Violation
    double cpu_limit = 30;                // seconds of CPU for one run
    // optional: attempts to simplify one op in place; returns candidates
    std::function<std::vector<Op>(const Op &)> simpler;
};

struct Outcome {
    int status = 0; // 0 ok, 1 violation
    std::string cls, msg;
    std::vector<Op> ops;
    std::vector<u32> choices;
    u64 h = 0, steps = 0;
    std::map<std::string, u64> cnt;
    std::vector<u64> states;
    std::string sample;
};

int sim_main(int argc, char **argv, Sim &s);
[[noreturn]] void child_fail(const char *cls, const std::string &msg); // ends the run with a violation, from any thread
void crash_context(const char *what); // remembered and reported if the child crashes

} // namespace sim
