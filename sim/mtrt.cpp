#include "mtrt.hpp"
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <random>
#include <new>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <chrono>
#include <malloc.h>
#include <sys/mman.h>

using sim::u32;
using sim::u64;
typedef uintptr_t up;
typedef unsigned char u8;
typedef unsigned short u16;

namespace mt {
enum { MAXT = 64 };
enum St { FREE, RUN, B_MUTEX, B_COND, B_JOIN, B_ONCE, B_SLEEP, DONE };
struct VC {
    u32 c[MAXT];
    VC() { memset(c, 0, sizeof c); }
    void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Thread {
    int id = 0;
    St st = FREE;
    up on = 0;               // what it is blocked on
    bool timed = false, timedout = false;
    u64 deadline = 0;
    int quiet = 0;
    int go = 0;              // futex word: baton
    int tid = 0;
    pthread_t real{};
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr, *ret = nullptr;
    u64 lastrun = 0;
    up pa = 0; unsigned psz = 0; int pk = 0; void *ppc = nullptr; // pending access
    VC vc, acqf, relf;       // clock; clocks collected by relaxed loads (for acquire fences); clock at last release fence
    VC fview;                // what SC fences made visible
    u64 fsc = 0;             // SC time of the last SC fence
    bool started = false;
    int exititer = 0;
    int stalestreak = 0;
    int failalloc = 0;
};
static Cfg C;
static bool g_active;
static Thread T[MAXT];
static int nT;
static __thread Thread *self;
static Thread *cur;
static long quantum;
static u64 g_steps, g_mark, decisions, g_now;
static u32 rpick(u32 n);
static bool rchance(u32 a, u32 b);
static int inrt; // runtime's own allocations are not tracked
u64 n_switches, n_preempts, n_stale, n_spurious, n_weakfail, n_blocks, n_atomics, n_stallskips, n_allocfail;
static Thread *reap;
struct InRt { InRt() { inrt++; } ~InRt() { inrt--; } };
static u32 rpick(u32 n) { InRt rt; return sim::g_run->pick(n); }
static bool rchance(u32 a, u32 b) { InRt rt; return sim::g_run->chance(a, b); }

bool active() { return g_active; }
int self_id() { return self ? self->id : -1; }
u64 steps() { return g_steps; }

[[noreturn]] void fail(const char *cls, const std::string &msg) {
    g_active = false;
    inrt++;
    sim::child_fail(cls, msg);
}

static int fwait(int *p, int v) { return syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static int fwake(int *p) { return syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void park(Thread *t) {
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) fwait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
    if (reap) { // the previous thread is on its way out: wait until the kernel has really ended it
        Thread *r = reap;
        reap = nullptr;
        while (syscall(SYS_tgkill, getpid(), r->tid, 0) == 0) syscall(SYS_sched_yield);
    }
}
static void unpark(Thread *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    fwake(&t->go);
}

static std::string where(void *pc) {
    Dl_info i;
    char b[300];
    if (pc && dladdr(pc, &i) && i.dli_sname) snprintf(b, sizeof b, "%.200s+%#lx", i.dli_sname, (unsigned long)((char *)pc - (char *)i.dli_saddr));
    else snprintf(b, sizeof b, "%p", pc);
    return b;
}

static const char *stn(Thread &t) {
    static char b[80];
    static const char *n[] = {"free", "runnable", "waiting for a mutex", "waiting on a condition", "joining a thread", "waiting for a once", "sleeping", "done"};
    snprintf(b, sizeof b, "T%d %s", t.id, n[t.st]);
    return b;
}

static Thread *choose(bool leave) {
    InRt rt;
    sim::Run &R = *sim::g_run;
    for (;;) {
        Thread *list[MAXT];
        int n = 0;
        int me = self ? self->id : -1;
        for (int k = 1; k <= nT; k++) {
            Thread *t = &T[(me + k + nT) % nT];
            if (t->st == RUN) { if (t->id == me && leave && n) continue; list[n++] = t; }
        }
        if (n) {
            decisions++;
            for (int i = 0; i < n; i++) if (decisions - list[i]->lastrun > (u64)C.fair) return list[i];
            if (C.stall && n > 1) {
                Thread *l2[MAXT]; int m = 0;
                for (int i = 0; i < n; i++) if (list[i]->id % C.stall != 1 % C.stall) l2[m++] = list[i];
                if (m && m < n) { n_stallskips++; memcpy(list, l2, sizeof(Thread *) * m); n = m; }
            }
            return list[R.pick(n)];
        }
        // nobody can run: let time pass to the earliest timed wait
        Thread *best = nullptr;
        for (int i = 0; i < nT; i++) if ((T[i].st == B_COND || T[i].st == B_SLEEP) && T[i].timed && (!best || T[i].deadline < best->deadline)) best = &T[i];
        if (!best) {
            std::string s = "no thread can make progress:";
            for (int i = 0; i < nT; i++) if (T[i].st != DONE) s += std::string(" ") + stn(T[i]) + ";";
            fail("deadlock", s);
        }
        if (best->deadline > g_now) g_now = best->deadline;
        best->timedout = true;
        best->st = RUN;
    }
}

static void newquantum() {
    InRt rt;
    u32 v = sim::g_run->pick(1u << 12);
    // 0 (the default of a minimised schedule): a long stretch
    quantum = v == 0 ? 3000 : 1 + (long)std::exp2(double(v) / 4096.0 * C.qlog);
}

static void switch_from(Thread *me, bool leave) {
    Thread *nx = choose(leave);
    nx->lastrun = decisions;
    newquantum();
    if (nx == me) return;
    n_switches++;
    if (sim::g_run) sim::g_run->mix((u64)nx->id * 0x9E3779B97F4A7C15ull + g_steps);
    cur = nx;
    unpark(nx);
    park(me);
}
static void yield_(bool leave) {
    Thread *me = self;
    g_now += 50;
    switch_from(me, leave);
}
static void block(St st, up on) {
    Thread *me = self;
    n_blocks++;
    me->st = st; me->on = on;
    switch_from(me, true);
}
static void wake_all(St st, up on) { for (int i = 0; i < nT; i++) if (T[i].st == st && T[i].on == on) T[i].st = RUN; }

static void checkhang() {
    if (g_steps - g_mark > C.limit) {
        std::string s = "no end within " + std::to_string(C.limit) + " simulated steps of a fair schedule:";
        for (int i = 0; i < nT; i++) if (T[i].st != DONE) s += std::string(" ") + stn(T[i]) + ";";
        fail("hang", s);
    }
}
void progress() { g_mark = g_steps; }

// ------------------------------------------------------------------ happens-before shadow
struct Rd { u32 clk; u8 tid, mask; };
struct Cell { u32 wclk; u8 wtid, wmask, nr, freed; Rd r[3]; void *wpc; void *rpc; };
struct Page { Cell c[4096]; }; // 16 KB of memory
static std::unordered_map<up, Page *> *pages;
static up lastpg = ~up(0); static Page *lastp;
static Cell &cell(up a) {
    up pg = a >> 14;
    if (pg != lastpg) {
        InRt g;
        Page *&p = (*pages)[pg];
        if (!p) p = (Page *)calloc(1, sizeof(Page));
        lastpg = pg; lastp = p;
    }
    return lastp->c[(a >> 2) & 4095];
}
static bool havepage(up a) { return pages && pages->count(a >> 14); }
static void report_race(up a, bool w, void *pc, const char *other, int ot, void *opc) {
    char b[700];
    snprintf(b, sizeof b, "unsynchronised conflicting accesses to the same memory: T%d %s at %s, T%d %s at %s", self->id, w ? "writes" : "reads", where(pc).c_str(), ot, other, where(opc).c_str());
    fail("data-race", b);
}
static void hb_access(up a, unsigned sz, bool w, bool atomic, void *pc) {
    Thread *t = self;
    up e = a + sz;
    for (up p = a & ~up(3); p < e; p += 4) {
        u8 m = 0;
        for (int i = 0; i < 4; i++) if (p + i >= a && p + i < e) m |= 1 << i;
        Cell &c = cell(p);
        if (c.freed) fail("use-after-free", "T" + std::to_string(t->id) + (w ? " writes" : " reads") + " memory that was already freed, at " + where(pc));
        // an atomic access conflicts with plain accesses only; plain ones with both.  Atomic accesses are recorded with bit 7 of mask
        if (c.wmask & m) {
            bool watom = c.wmask & 0x80;
            if (!(watom && atomic) && c.wtid != t->id && c.wclk > t->vc.c[c.wtid]) report_race(a, w, pc, "wrote", c.wtid, c.wpc);
        }
        if (w) {
            for (int i = 0; i < c.nr; i++)
                if ((c.r[i].mask & m) && c.r[i].tid != t->id && !((c.r[i].mask & 0x80) && atomic) && c.r[i].clk > t->vc.c[c.r[i].tid]) report_race(a, w, pc, "read", c.r[i].tid, c.rpc);
            c.wclk = t->vc.c[t->id]; c.wtid = t->id; c.wmask = m | (atomic ? 0x80 : 0); c.wpc = pc;
            c.nr = 0;
        } else {
            int k = -1;
            for (int i = 0; i < c.nr; i++) if (c.r[i].tid == t->id) k = i;
            if (k < 0) k = c.nr < 3 ? c.nr++ : 2;
            c.r[k] = Rd{t->vc.c[t->id], (u8)t->id, (u8)(m | (atomic ? 0x80 : 0))};
            c.rpc = pc;
        }
    }
}

// ------------------------------------------------------------------ atomics
struct Store { u64 v; int tid; u32 clk; u64 sct; bool hasrel; VC rel; };
struct Loc {
    std::deque<Store> h;          // modification order; h.front() has index base
    u64 base = 0;
    struct RdE { u32 clk; u64 idx; };
    std::vector<RdE> rd[MAXT];
};
static std::unordered_map<up, Loc *> *locs;
static VC fenceG;      // clk of each thread at its last SC fence
static u64 sctime;
struct Sync { VC v; };
static std::unordered_map<up, Sync *> *syncs;
static VC &syn(up a) { InRt g; Sync *&s = (*syncs)[a]; if (!s) s = new Sync; return s->v; }
static void tick(Thread *t) { t->vc.c[t->id]++; }
static void s_acq(up a) { if (C.hb || C.weak) self->vc.join(syn(a)); }
static void s_rel(up a) { if (C.hb || C.weak) { syn(a).join(self->vc); tick(self); } }

static void forget(up a, size_t n, bool freed) { // memory handed out or taken back
    if (!pages) return;
    InRt g;
    if (C.hb)
        for (up p = a & ~up(3); p < a + n; p += 4) {
            if (!freed && !havepage(p)) { p = ((p >> 14) + 1) << 14; p -= 4; continue; }
            Cell &c = cell(p);
            memset(&c, 0, sizeof c);
            if (freed) c.freed = 1;
        }
    if (!locs->empty()) {
        if (n > 4 * locs->size()) { for (auto it = locs->begin(); it != locs->end();) if (it->first >= a && it->first < a + n) { delete it->second; it = locs->erase(it); } else ++it; }
        else for (up p = a; p < a + n; p++) { auto it = locs->find(p); if (it != locs->end()) { delete it->second; locs->erase(it); } }
    }
    if (!syncs->empty()) {
        if (n > 4 * syncs->size()) { for (auto it = syncs->begin(); it != syncs->end();) if (it->first >= a && it->first < a + n) { delete it->second; it = syncs->erase(it); } else ++it; }
        else for (up p = a; p < a + n; p++) { auto it = syncs->find(p); if (it != syncs->end()) { delete it->second; syncs->erase(it); } }
    }
}

extern "C" char __data_start, _end;
static inline bool tracked(up a) { return (a >= 0x200000000000ull && a < 0x200400000000ull) || (a >= (up)&__data_start && a < (up)&_end); }
static inline void pend_check(Thread *t, up a, unsigned sz, int k, void *pc) {
    for (int i = 0; i < nT; i++) {
        Thread &o = T[i];
        if (o.psz && o.id != t->id && o.st == RUN && a < o.pa + o.psz && o.pa < a + sz && ((k | o.pk) & 1) && !((k & o.pk) & 2)) {
            char b[700];
            snprintf(b, sizeof b, "two conflicting accesses are enabled at the same time: T%d %s at %s, T%d %s at %s", t->id, k & 1 ? "writes" : "reads", where(pc).c_str(), o.id, o.pk & 1 ? "writes" : "reads", where(o.ppc).c_str());
            fail("data-race", b);
        }
    }
}

// k: bit0 write, bit1 atomic
static inline void access(up a, unsigned sz, int k, void *pc) {
    Thread *t = self;
    if (!t || !g_active || t->quiet) return;
    g_steps++;
    if (--quantum <= 0) {
        checkhang();
        n_preempts++;
        t->pa = a; t->psz = sz; t->pk = k; t->ppc = pc;
        g_now += 20;
        switch_from(t, false);
        t->psz = 0;
    }
    if (C.pending && nT > 1) pend_check(t, a, sz, k, pc);
    if (C.hb && (!C.arena_only || tracked(a))) hb_access(a, sz, k & 1, k & 2, pc);
    if ((k & 3) == 1 && C.weak && !locs->empty()) { // plain store over an atomic location restarts its history
        InRt g;
        for (up p = a; p < a + sz; p++) { auto it = locs->find(p); if (it != locs->end()) { delete it->second; locs->erase(it); } }
    }
}
void point() { access(0x10, 0, 2, nullptr); }
bool freed(const void *p) { InRt g; return cell((up)p).freed; }
void fail_alloc(int n) { if (self) self->failalloc = n; }
Quiet::Quiet() { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }

enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
static inline bool isacq(int m) { m &= 15; return m == ACQUIRE || m == CONSUME || m == ACQ_REL || m == SEQ_CST; }
static inline bool isrel(int m) { m &= 15; return m == RELEASE || m == ACQ_REL || m == SEQ_CST; }
static inline bool issc(int m) { return (m & 15) == SEQ_CST; }

static Loc &loc(up a, u64 now) {
    InRt g;
    Loc *&l = (*locs)[a];
    if (!l) l = new Loc;
    if (l->h.empty() || l->h.back().v != now) { // first sight, or changed by code outside the simulation
        l->base += l->h.size();
        l->h.clear();
        for (auto &r : l->rd) r.clear();
        Store s{};
        s.v = now; s.tid = -1;
        l->h.push_back(s);
    }
    return *l;
}
static u64 minidx(Loc &l, Thread *t, bool sc) {
    u64 lo = l.base;
    for (size_t k = l.h.size(); k-- > 0;) { // newest first: the first store that must be visible is the bound
        Store &s = l.h[k];
        bool must = s.tid < 0 || s.tid == t->id || s.clk <= t->vc.c[s.tid] || s.clk <= t->fview.c[s.tid] || (s.sct && s.sct < t->fsc) || (sc && (s.sct || s.clk <= fenceG.c[s.tid]));
        if (must) { lo = l.base + k; break; }
    }
    for (int i = 0; i < nT; i++) { // read-read coherence
        auto &v = l.rd[i];
        for (size_t k = v.size(); k-- > 0;) if (v[k].clk <= t->vc.c[i]) { lo = std::max(lo, v[k].idx); break; }
    }
    return lo;
}
static void noteread(Loc &l, Thread *t, u64 idx) {
    InRt g;
    auto &v = l.rd[t->id];
    if (!v.empty() && v.back().idx >= idx && v.back().clk <= t->vc.c[t->id]) return;
    v.push_back({t->vc.c[t->id], idx});
    if (v.size() > 64) v.erase(v.begin(), v.begin() + 32);
}
static void readsync(Thread *t, Store &s, int mo) {
    if (!s.hasrel) return;
    if (isacq(mo)) t->vc.join(s.rel);
    else t->acqf.join(s.rel);
}
static void pushstore(Loc &l, Thread *t, u64 v, int mo, const Store *rmwof) {
    InRt g;
    Store s{};
    s.v = v; s.tid = t->id; 
    VC fr = t->relf;
    bool anyf = false;
    for (int i = 0; i < nT; i++) anyf |= fr.c[i] != 0;
    if (isrel(mo)) { s.rel = t->vc; s.hasrel = true; }
    else if (anyf) { s.rel = fr; s.hasrel = true; }
    if (rmwof && rmwof->hasrel) { s.rel.join(rmwof->rel); s.hasrel = true; }
    s.clk = t->vc.c[t->id];
    s.sct = issc(mo) ? ++sctime : 0;
    tick(t);
    l.h.push_back(s);
    if (l.h.size() > 200) { l.h.pop_front(); l.base++; }
}
static u64 a_load(up a, unsigned sz, u64 now, int mo, void *pc) {
    Thread *t = self;
    n_atomics++;
    if (!C.weak && !C.hb) return now;
    Loc &l = loc(a, now);
    u64 lo = minidx(l, t, issc(mo)), hi = l.base + l.h.size() - 1, pick = hi;
    if (C.weak && lo < hi && t->stalestreak < 12) {
        u32 w = (u32)std::min<u64>(hi - lo, 6);
        u32 v = rpick(2 * w + 1); // 0..w: newest; else older
        if (v > w) { pick = hi - (v - w); n_stale++; t->stalestreak++; }
        else t->stalestreak = 0;
    }
    Store s = l.h[pick - l.base];
    noteread(l, t, pick);
    readsync(t, s, mo);
    return s.v;
}
static void a_store(up a, u64 now, u64 v, int mo) {
    Thread *t = self;
    n_atomics++;
    if (!C.weak && !C.hb) return;
    Loc &l = loc(a, now);
    pushstore(l, t, v, mo, nullptr);
    noteread(l, t, l.base + l.h.size() - 1);
}
static void a_rmw(up a, u64 now, u64 v, int mo) {
    Thread *t = self;
    n_atomics++;
    if (!C.weak && !C.hb) return;
    Loc &l = loc(a, now);
    Store prev = l.h.back();
    readsync(t, prev, mo);
    pushstore(l, t, v, mo, &prev);
    noteread(l, t, l.base + l.h.size() - 1);
}
static void fence(int mo) {
    Thread *t = self;
    if (!t || !g_active || t->quiet) return;
    if (!C.weak && !C.hb) return;
    if (isacq(mo)) t->vc.join(t->acqf);
    if (isrel(mo)) { t->relf = t->vc; tick(t); }
    if (issc(mo)) {
        t->fview.join(fenceG);
        fenceG.c[t->id] = t->vc.c[t->id] - 1; // everything stored so far (the clock was advanced after the last store)
        t->fsc = ++sctime;
        t->relf = t->vc;
        tick(t);
    }
}

// ------------------------------------------------------------------ thread life cycle
static pthread_key_t exitkey;
static void exit_dtor(void *p) {
    Thread *t = (Thread *)p;
    if (t->exititer++ < 2) { pthread_setspecific(exitkey, t); return; }
    if (!g_active) { for (;;) pause(); }
    t->st = DONE;
    s_rel((up)t);
    wake_all(B_JOIN, (up)t);
    Thread *nx;
    {
        // choose() counts from self
        nx = choose(true);
    }
    nx->lastrun = decisions;
    newquantum();
    n_switches++;
    cur = nx;
    reap = t;
    self = nullptr;
    unpark(nx);
}
static void *tramp(void *p) {
    Thread *t = (Thread *)p;
    self = t;
    t->tid = (int)syscall(SYS_gettid);
    __atomic_store_n(&t->started, true, __ATOMIC_RELEASE);
    syscall(SYS_futex, &t->started, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    park(t);
    t->ret = t->fn(t->arg);
    t->exititer = 0;
    pthread_setspecific(exitkey, t);
    return t->ret;
}

#define REAL(name) ((decltype(&::name))real_##name)
template <class F> static F nextsym(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no %s\n", n); abort(); } return (F)p; }

static Thread *byreal(pthread_t p) { for (int i = nT; i-- > 0;) if (T[i].real == p) return &T[i]; return nullptr; }

void arena_init(u64);
void start(const Cfg &c) {
    C = c;
    inrt++;
    pages = new std::unordered_map<up, Page *>;
    locs = new std::unordered_map<up, Loc *>;
    syncs = new std::unordered_map<up, Sync *>;
    inrt--;
    arena_init(c.addr);
    pthread_key_create(&exitkey, exit_dtor);
    nT = 1;
    T[0].id = 0; T[0].st = RUN; T[0].real = pthread_self(); T[0].tid = getpid();
    T[0].vc.c[0] = 1;
    self = cur = &T[0];
    g_now = 1000000000ull;
    newquantum();
    g_active = true;
}
void stop() { g_active = false; }
} // namespace mt

using namespace mt;

// ------------------------------------------------------------------ __tsan_*
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void *a) { access((up)a, n, 0, PC); } \
    void __tsan_write##n(void *a) { access((up)a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *a) { access((up)a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *a) { access((up)a, n, 1, PC); } \
    void __tsan_volatile_read##n(void *a) { access((up)a, n, 0, PC); } \
    void __tsan_volatile_write##n(void *a) { access((up)a, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access((up)a, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access((up)a, n, 1, PC); } \
    void __tsan_read##n##_pc(void *a, void *pc) { access((up)a, n, 0, pc); } \
    void __tsan_write##n##_pc(void *a, void *pc) { access((up)a, n, 1, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access((up)a, n, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access((up)a, n, 1, PC); }
void __tsan_vptr_read(void **a) { access((up)a, 8, 0, PC); }
void __tsan_vptr_update(void **a, void *) { access((up)a, 8, 1, PC); }

#define AT(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type *a, int mo) { \
        access((up)a, sizeof(type), 2, PC); \
        type now = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        if (!self || !g_active || self->quiet) return now; \
        return (type)a_load((up)a, sizeof(type), (u64)now, mo, PC); } \
    void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { \
        access((up)a, sizeof(type), 3, PC); \
        if (self && g_active && !self->quiet) a_store((up)a, (u64)*a, (u64)v, mo); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    static type rmw##bits(volatile type *a, type nv, int mo) { \
        if (self && g_active && !self->quiet) a_rmw((up)a, (u64)*a, (u64)nv, mo); \
        return __atomic_exchange_n(a, nv, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, v, mo); } \
    type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, (type)(*a + v), mo); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, (type)(*a - v), mo); } \
    type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, (type)(*a & v), mo); } \
    type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, (type)(*a | v), mo); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, (type)(*a ^ v), mo); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int mo) { access((up)a, sizeof(type), 3, PC); return rmw##bits(a, (type)~(*a & v), mo); } \
    static int cas##bits(volatile type *a, type *c, type v, int mo, int fmo, bool weak, void *pc) { \
        access((up)a, sizeof(type), 3, pc); \
        type now = *a; \
        if (!self || !g_active || self->quiet) { if (now == *c) { *a = v; return 1; } *c = now; return 0; } \
        if (now == *c && weak && C.spurious && rchance(1, C.spurious)) { n_weakfail++; a_load((up)a, sizeof(type), now, fmo, pc); return 0; } \
        if (now == *c) { rmw##bits(a, v, mo); return 1; } \
        type seen = (type)a_load((up)a, sizeof(type), (u64)now, fmo, pc); \
        if (seen == *c) { seen = now; } \
        *c = seen; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *c, type v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, false, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *c, type v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, true, PC); } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type c, type v, int mo, int fmo) { cas##bits(a, &c, v, mo, fmo, false, PC); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { access(0x20, 0, 2, PC); fence(mo); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access((up)s, n, 0, PC); access((up)d, n, 1, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access((up)s, n, 0, PC); access((up)d, n, 1, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access((up)d, n, 1, PC); return memset(d, c, n); }

// ------------------------------------------------------------------ interposed system seams
static bool simulated() { return g_active && self; }

static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!r_create) r_create = nextsym<decltype(r_create)>("pthread_create");
    if (!simulated()) return r_create(th, at, fn, arg);
    if (nT >= MAXT) fail("harness", "too many threads");
    access(0x30, 0, 2, PC);
    Thread *t = &T[nT];
    t->id = nT; t->fn = fn; t->arg = arg; t->started = false; t->go = 0;
    t->vc = self->vc; t->vc.c[t->id] = 1; tick(self);
    t->lastrun = decisions;
    int rc = r_create(&t->real, nullptr, tramp, t);
    if (rc) return rc;
    while (!__atomic_load_n(&t->started, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield);
    *th = t->real;
    t->st = RUN;
    nT++;
    return 0;
}
static int (*r_join)(pthread_t, void **);
int pthread_join(pthread_t th, void **ret) {
    if (!r_join) r_join = nextsym<decltype(r_join)>("pthread_join");
    Thread *t;
    if (!simulated() || !(t = byreal(th))) return r_join(th, ret);
    while (t->st != DONE) block(B_JOIN, (up)t);
    s_acq((up)t);
    r_join(th, nullptr);
    t->real = 0;
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t th) {
    static int (*r)(pthread_t);
    if (!r) r = nextsym<decltype(r)>("pthread_detach");
    if (simulated()) return 0;
    return r(th);
}
static int (*r_trylock)(pthread_mutex_t *);
static int (*r_lock)(pthread_mutex_t *);
static int (*r_unlock)(pthread_mutex_t *);
static void lockinit() {
    r_trylock = nextsym<decltype(r_trylock)>("pthread_mutex_trylock");
    r_lock = nextsym<decltype(r_lock)>("pthread_mutex_lock");
    r_unlock = nextsym<decltype(r_unlock)>("pthread_mutex_unlock");
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!r_lock) lockinit();
    if (!simulated()) return r_lock(m);
    access((up)m, 0, 2, PC);
    for (;;) {
        int rc = r_trylock(m);
        if (rc != EBUSY) { s_acq((up)m); return rc; }
        block(B_MUTEX, (up)m);
    }
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!r_lock) lockinit();
    if (simulated()) access((up)m, 0, 2, PC);
    int rc = r_trylock(m);
    if (rc == 0 && simulated()) s_acq((up)m);
    return rc;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!r_lock) lockinit();
    if (!simulated()) return r_unlock(m);
    s_rel((up)m);
    int rc = r_unlock(m);
    wake_all(B_MUTEX, (up)m);
    access((up)m, 0, 2, PC);
    return rc;
}
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 dl) {
    if (!r_lock) lockinit();
    Thread *t = self;
    if (C.spurious && rchance(1, C.spurious)) { // spurious wake-up: release, let others run, come back
        n_spurious++;
        s_rel((up)m); r_unlock(m); wake_all(B_MUTEX, (up)m);
        yield_(true);
        pthread_mutex_lock(m);
        return 0;
    }
    s_rel((up)m);
    r_unlock(m);
    wake_all(B_MUTEX, (up)m);
    t->timed = timed; t->deadline = dl; t->timedout = false;
    block(B_COND, (up)c);
    bool to = t->timedout;
    t->timed = t->timedout = false;
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
static u64 tons(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("pthread_cond_wait"); return r(c, m); }
    return condwait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("pthread_cond_timedwait"); return r(c, m, ts); }
    return condwait(c, m, true, tons(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("pthread_cond_clockwait"); return r(c, m, k, ts); }
    return condwait(c, m, true, tons(ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
    static int (*r)(pthread_cond_t *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("pthread_cond_signal"); return r(c); }
    access((up)c, 0, 2, PC);
    Thread *w[MAXT]; int n = 0;
    for (int i = 0; i < nT; i++) if (T[i].st == B_COND && T[i].on == (up)c) w[n++] = &T[i];
    if (n) w[rpick(n)]->st = RUN;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static int (*r)(pthread_cond_t *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("pthread_cond_broadcast"); return r(c); }
    access((up)c, 0, 2, PC);
    wake_all(B_COND, (up)c);
    return 0;
}
static std::unordered_map<up, int> *onces; // address -> running thread
static std::unordered_map<up, int> &oncemap() { if (!onces) onces = new std::unordered_map<up, int>; return *onces; }
int pthread_once(pthread_once_t *o, void (*fn)()) {
    static int (*r)(pthread_once_t *, void (*)());
    if (!simulated() || *o == 2) { if (!r) r = nextsym<decltype(r)>("pthread_once"); if (simulated()) s_acq((up)o); return r(o, fn); }
    access((up)o, 0, 2, PC);
    for (;;) {
        if (*o == 2) { s_acq((up)o); return 0; }
        bool running;
        { InRt g; running = oncemap().count((up)o); }
        if (!running) break;
        block(B_ONCE, (up)o);
    }
    { InRt g; oncemap()[(up)o] = self->id; }
    try { fn(); } catch (...) { { InRt g; oncemap().erase((up)o); } wake_all(B_ONCE, (up)o); throw; }
    { InRt g; oncemap().erase((up)o); }
    *o = 2;
    s_rel((up)o);
    wake_all(B_ONCE, (up)o);
    return 0;
}
int __cxa_guard_acquire(u64 *g) {
    static int (*r)(u64 *);
    if (*(volatile char *)g) { if (simulated()) s_acq((up)g); return 0; }
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("__cxa_guard_acquire"); return r(g); }
    access((up)g, 0, 2, PC);
    for (;;) {
        if (*(volatile char *)g) { s_acq((up)g); return 0; }
        bool running;
        { InRt i; running = oncemap().count((up)g); }
        if (!running) break;
        block(B_ONCE, (up)g);
    }
    { InRt i; oncemap()[(up)g] = self->id; }
    return 1;
}
void __cxa_guard_release(u64 *g) {
    static void (*r)(u64 *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("__cxa_guard_release"); r(g); return; }
    { InRt i; oncemap().erase((up)g); }
    *(char *)g = 1;
    s_rel((up)g);
    wake_all(B_ONCE, (up)g);
}
void __cxa_guard_abort(u64 *g) {
    static void (*r)(u64 *);
    if (!simulated()) { if (!r) r = nextsym<decltype(r)>("__cxa_guard_abort"); r(g); return; }
    { InRt i; oncemap().erase((up)g); }
    wake_all(B_ONCE, (up)g);
}
int sched_yield() {
    if (!simulated() || self->quiet) return syscall(SYS_sched_yield);
    g_steps += 5;
    checkhang();
    yield_(true);
    return 0;
}
static int simsleep(const struct timespec *ts) {
    Thread *t = self;
    g_steps += 5;
    checkhang();
    t->timed = true; t->deadline = g_now + tons(ts); t->timedout = false;
    block(B_SLEEP, 0);
    t->timed = false;
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!simulated()) return syscall(SYS_nanosleep, ts, rem);
    return simsleep(ts);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *ts, struct timespec *rem) {
    if (!simulated()) return -syscall(SYS_clock_nanosleep, k, fl, ts, rem);
    if (fl & TIMER_ABSTIME) { u64 d = tons(ts); struct timespec x = {0, 0}; if (d > g_now) { x.tv_sec = (d - g_now) / 1000000000; x.tv_nsec = (d - g_now) % 1000000000; } return simsleep(&x); }
    return simsleep(ts);
}
int clock_gettime(clockid_t k, struct timespec *ts) {
    if (!simulated()) return syscall(SYS_clock_gettime, k, ts);
    u64 n = g_now + g_steps;
    ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
    return 0;
}
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
} // extern "C"

std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec)));
}
std::random_device::result_type std::random_device::_M_getval() {
    static u64 s = 0x853c49e6748fea9bULL;
    if (g_active && sim::g_run) return (u32)(sim::g_run->seed * 0x9E3779B97F4A7C15ull >> 13) + (u32)(s += 0x9E3779B97F4A7C15ull);
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return (u32)(s >> 16);
}

// fiber mutexes live in the (uninstrumented) Boost.Fiber library: give them their happens-before edges.  The calling fiber may
// continue on another thread, so `self` is looked up afresh after the call.
static __attribute__((noinline)) void fm_acq(void *m) { asm volatile("" ::: "memory"); if (simulated()) s_acq((up)m); }
static __attribute__((noinline)) void fm_rel(void *m) { asm volatile("" ::: "memory"); if (simulated()) s_rel((up)m); }
extern "C" {
void fm_lock(void *m) __asm__("_ZN5boost6fibers5mutex4lockEv");
void fm_unlock(void *m) __asm__("_ZN5boost6fibers5mutex6unlockEv");
bool fm_try(void *m) __asm__("_ZN5boost6fibers5mutex8try_lockEv");
__attribute__((weak)) void fm_lock(void *m) {
    static void (*r)(void *) = nextsym<void (*)(void *)>("_ZN5boost6fibers5mutex4lockEv");
    r(m);
    fm_acq(m);
}
__attribute__((weak)) void fm_unlock(void *m) {
    static void (*r)(void *) = nextsym<void (*)(void *)>("_ZN5boost6fibers5mutex6unlockEv");
    fm_rel(m);
    r(m);
}
__attribute__((weak)) bool fm_try(void *m) {
    static bool (*r)(void *) = nextsym<bool (*)(void *)>("_ZN5boost6fibers5mutex8try_lockEv");
    bool b = r(m);
    if (b) fm_acq(m);
    return b;
}
}

// ------------------------------------------------------------------ allocation: fixed addresses, new memory without a history
namespace {
char *const ABASE = (char *)0x200000000000ull;
const size_t ASIZE = size_t(16) << 30;
char *abump;
struct Hdr { size_t cls; size_t n; };
void *afree[64][8];
int clsof(size_t n) { int c = 5; while ((size_t(1) << c) < n) c++; return c; }
void *aalloc(size_t n, size_t al) {
    // every block: [pad][Hdr][user], user aligned to al; classes are powers of two of (n), separate free lists per alignment class
    int c = clsof(n), ac = al <= 16 ? 0 : al <= 64 ? 1 : al <= 128 ? 2 : 3;
    size_t A = ac == 0 ? 16 : ac == 1 ? 64 : ac == 2 ? 128 : al;
    if (afree[c][ac] && ac < 3) { void *p = afree[c][ac]; afree[c][ac] = *(void **)p; ((Hdr *)p)[-1].n = n; return p; }
    up u = ((up)abump + sizeof(Hdr) + A - 1) & ~(up)(A - 1);
    abump = (char *)(u + (size_t(1) << c));
    if (abump > ABASE + ASIZE) throw std::bad_alloc();
    Hdr *h = (Hdr *)u - 1;
    h->cls = c * 8 + ac; h->n = n;
    return (void *)u;
}
bool inarena(void *p) { return (char *)p >= ABASE && (char *)p < ABASE + ASIZE; }
}
namespace mt {
void arena_init(u64 off) {
    void *p = mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ABASE) fail("harness", "arena address taken");
    abump = ABASE + 64 + off * 16;
}
}
static void *do_new(size_t n, size_t al) {
    if (n == 0) n = 1;
    void *p;
    if (g_active && self && !inrt) {
        if (self->failalloc > 0 && !self->quiet && --self->failalloc == 0) { n_allocfail++; throw std::bad_alloc(); }
        p = aalloc(n, al);
        if (C.hb || C.weak) forget((up)p, n, false);
        return p;
    }
    p = al > 16 ? memalign(al, n) : malloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_del(void *p) {
    if (!p) return;
    if (!inarena(p)) { free(p); return; }
    Hdr *h = (Hdr *)p - 1;
    if (g_active && self && !inrt && (C.hb || C.weak)) {
        if (C.quarantine) {
            if (!self->quiet && C.hb && cell((up)p).freed) fail("double-free", "memory is freed a second time");
            access((up)p, 1, 1, PC);
            forget((up)p, h->n, true);
            return;
        }
        forget((up)p, h->n, false);
    }
    int c = h->cls / 8, ac = h->cls % 8;
    if (ac < 3) { *(void **)p = afree[c][ac]; afree[c][ac] = p; }
}
void *operator new(size_t n) { return do_new(n, 0); }
void *operator new[](size_t n) { return do_new(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void operator delete(void *p) noexcept { do_del(p); }
void operator delete[](void *p) noexcept { do_del(p); }
void operator delete(void *p, size_t) noexcept { do_del(p); }
void operator delete[](void *p, size_t) noexcept { do_del(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_del(p); }
// oneTBB takes the memory of its containers from these two
namespace tbb { namespace detail { namespace r1 {
void *cache_aligned_allocate(std::size_t n) { return do_new(n, 128); }
void cache_aligned_deallocate(void *p) { do_del(p); }
}}}
