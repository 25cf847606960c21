// The simulated transport and the rank scheduler.  Ranks are coroutines; every choice comes from Run::pick.
#pragma once
#include "simcore.hpp"
#include "arena.hpp"
#include "stub/boost/mpi/simhub.hpp"
#include <deque>
#include <list>
#include <memory>
#include <sys/mman.h>
#include <ucontext.h>

namespace mpisim {
using namespace sim;

struct Msg { int src, dst, tag; u64 seq; std::string data; const void *direct = nullptr; size_t nb = 0; bool captured = false, arrived = false, matched = false, poisoned = false; long sreq = -1; };
struct Req { int rank; bool send; bool done = false, dropped = false, taken = false; int src = -1, tag = -1; std::shared_ptr<Msg> m; std::string data; };
struct Coll { std::string kind; int root = -1; bool set = false, sync = false; std::vector<std::string> data; std::vector<bool> in; int arrived = 0; };

enum Mode { UNIFORM = 0, STICKY = 1, STALL = 2, LATE = 3, NMODE = 4 };

struct Hub : simmpi::Hub {
    Run &R;
    int N;
    int mode = 0, stalled = 0;
    std::vector<std::unique_ptr<Req>> reqs;
    std::vector<std::shared_ptr<Msg>> msgs; // undelivered or unmatched
    std::vector<std::unique_ptr<Coll>> colls;
    std::vector<size_t> cseq;
    u64 seq = 0, nsteps = 0;
    bool rendezvous_on = true;
    // coroutines
    struct Co { ucontext_t ctx; char *stack = nullptr; std::function<void()> body; bool done = false; std::function<bool()> ready; std::string waiting; std::exception_ptr ex; bool act = false; };
    std::vector<Co> co;
    ucontext_t main_;
    int cur = -1, last = 0;
    std::string opname;

    Hub(Run &r, int n) : R(r), N(n), cseq(n, 0), co(n) {}
    int size() override { return N; }

    static Hub *self;
    static void tramp() {
        Hub *h = self;
        Co &c = h->co[h->cur];
        try { c.body(); } catch (...) { c.ex = std::current_exception(); }
        c.done = true;
        arena::active = false;
        swapcontext(&c.ctx, &h->main_);
    }
    void start(int r, std::function<void()> f) {
        Co &c = co[r];
        c.body = std::move(f);
        size_t sz = 1 << 20;
        c.stack = (char *)mmap((void *)(0x300000000000ull + (u64)r * (sz * 2)), sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (c.stack == MAP_FAILED) { perror("stack"); _exit(2); }
        getcontext(&c.ctx);
        c.ctx.uc_stack.ss_sp = c.stack; c.ctx.uc_stack.ss_size = sz; c.ctx.uc_link = nullptr;
        makecontext(&c.ctx, tramp, 0);
    }
    // give control back to the scheduler until ready() holds
    void yield_(std::function<bool()> ready, std::string why) {
        Co &c = co[cur];
        c.ready = std::move(ready); c.waiting = std::move(why);
        c.act = arena::active; arena::active = false;
        swapcontext(&c.ctx, &main_);
        arena::active = co[cur].act;
    }
    bool runnable(int r) { return !co[r].done && (!co[r].ready || co[r].ready()); }
    void resume(int r) {
        cur = r; last = r; self = this;
        co[r].ready = nullptr;
        swapcontext(&main_, &co[r].ctx);
        cur = -1;
        if (co[r].ex) { auto e = co[r].ex; co[r].ex = nullptr; std::rethrow_exception(e); }
    }
    bool all_done() { for (auto &c : co) if (!c.done) return false; return true; }
    void loop(u64 maxsteps) {
        while (!all_done()) {
            if (++nsteps > maxsteps) throw Violation("no-progress", "the ranks did not finish within " + std::to_string(maxsteps) + " scheduler steps; " + describe());
            std::vector<int> rr;
            for (int r = 0; r < N; r++) if (runnable(r)) rr.push_back(r);
            std::vector<size_t> mm;
            for (size_t i = 0; i < msgs.size(); i++) if (!msgs[i]->arrived) mm.push_back(i);
            if (rr.empty() && mm.empty()) throw Violation("deadlock", "no rank can proceed and nothing is in flight; " + describe());
            bool deliver;
            if (rr.empty()) deliver = true;
            else if (mm.empty()) deliver = false;
            else if (mode == LATE) deliver = R.pick(12) == 11;
            else deliver = R.pick(3) == 0;
            if (deliver) {
                size_t i = mm[R.pick(mm.size())];
                auto m = msgs[i];
                m->arrived = true;
                if (i != mm[0]) R.count("fault_message_overtaken");
                R.ev("deliver %d->%d tag %d seq %llu", m->src, m->dst, m->tag, (unsigned long long)m->seq);
                match_all();
                continue;
            }
            int r;
            if (mode == STICKY && std::count(rr.begin(), rr.end(), last) && R.pick(8) != 7) r = last;
            else if (mode == STALL && rr.size() > 1 && std::count(rr.begin(), rr.end(), stalled) && R.pick(40) != 39) { rr.erase(std::find(rr.begin(), rr.end(), stalled)); r = rr[R.pick(rr.size())]; R.count("fault_stalled_rank"); }
            else r = rr[R.pick(rr.size())];
            R.ev("run %d", r);
            resume(r);
        }
    }
    std::string describe() {
        std::string s;
        for (int r = 0; r < N; r++) s += "rank " + std::to_string(r) + (co[r].done ? " finished" : runnable(r) ? " can run" : " waits for " + co[r].waiting) + "; ";
        return s;
    }
    void match_all() {
        bool again = true;
        while (again) {
            again = false;
            for (auto &q : reqs) {
                if (q->send || q->done) continue;
                // earliest unmatched message of each source (messages of one source never overtake each other for one receive)
                std::vector<std::shared_ptr<Msg>> cand;
                std::set<int> seen;
                for (auto &m : msgs) if (!m->matched && m->dst == q->rank && (q->src < 0 || m->src == q->src) && (q->tag < 0 || m->tag == q->tag)) { if (seen.insert(m->src).second && m->arrived) cand.push_back(m); }
                if (cand.empty()) continue;
                auto m = cand[R.pick(cand.size())];
                capture(*m);
                m->matched = true;
                q->m = m; q->done = true; q->data = m->data; q->src = m->src; q->tag = m->tag;
                if (m->sreq >= 0) reqs[m->sreq]->done = true;
                msgs.erase(std::find(msgs.begin(), msgs.end(), m));
                if (q->dropped) R.count("receive_into_abandoned_buffer");
                again = true;
                break;
            }
        }
    }
    void capture(Msg &m) {
        if (m.captured) return;
        m.captured = true;
        if (m.poisoned && !m.direct) { for (char &c : m.data) c = (char)0xDB; return; }
        if (m.direct) m.data.assign((const char *)m.direct, m.nb); // whatever the sender's memory holds now
    }
    long post_send(int rank, int dst, int tag, std::string packed, const void *direct, size_t nb, bool blocking) override {
        arena::Pause ps;
        auto m = std::make_shared<Msg>();
        m->src = rank; m->dst = dst; m->tag = tag; m->seq = ++seq; m->data = std::string(packed.data(), packed.size()); m->direct = direct; m->nb = nb;
        bool eager = R.pick(2) == 0;
        reqs.push_back(std::make_unique<Req>());
        Req &q = *reqs.back();
        q.rank = rank; q.send = true; q.tag = tag;
        m->sreq = (long)reqs.size() - 1;
        if (eager) { capture(*m); q.done = true; }
        R.count(eager ? "fault_send_eager" : "fault_send_rendezvous");
        R.count("messages");
        R.ev("send%s %d->%d tag %d %zu bytes %s", blocking ? "" : " nb", rank, dst, tag, direct ? nb : packed.size(), eager ? "eager" : "rendezvous");
        msgs.push_back(m);
        match_all();
        return m->sreq;
    }
    long post_recv(int rank, int src, int tag) override {
        arena::Pause ps;
        reqs.push_back(std::make_unique<Req>());
        Req &q = *reqs.back();
        q.rank = rank; q.send = false; q.src = src; q.tag = tag;
        long id = (long)reqs.size() - 1;
        R.ev("recv %d<-%d tag %d", rank, src, tag);
        match_all();
        return id;
    }
    bool test(int rank, long req) override {
        arena::Pause ps;
        (void)rank;
        yield_(nullptr, "");
        return reqs[req]->done;
    }
    void wait(int rank, long req) override {
        arena::Pause ps;
        Req *q = reqs[req].get();
        if (q->done && R.pick(4) != 3) return; // sometimes give way even when complete
        yield_([q] { return q->done; }, q->send ? "its message (tag " + std::to_string(q->tag) + ") to be received" : "a message from rank " + std::to_string(q->src) + " with tag " + std::to_string(q->tag));
        (void)rank;
    }
    std::string take(int rank, long req, int *src, int *tag) override {
        (void)rank;
        Req &q = *reqs[req];
        q.taken = true;
        *src = q.src; *tag = q.tag;
        return q.data;
    }
    void drop(int rank, long req) override {
        arena::Pause ps;
        Req &q = *reqs[req];
        q.dropped = true;
        if (q.done) return;
        R.count("request_dropped_incomplete");
        R.ev("rank %d abandons request %ld (%s)", rank, req, q.send ? "send" : "receive");
        if (q.send) for (auto &m : msgs) if (m->sreq == req && !m->captured) m->poisoned = true; // its buffer is gone
    }
    bool probe(int rank, int src, int tag, bool block, int *osrc, int *otag) override {
        arena::Pause ps;
        auto find = [this, rank, src, tag]() -> Msg * { for (auto &m : msgs) if (m->arrived && !m->matched && m->dst == rank && (src < 0 || m->src == src) && (tag < 0 || m->tag == tag)) return m.get(); return nullptr; };
        if (!block) yield_(nullptr, "");
        else yield_([find] { return find() != nullptr; }, "a message to probe");
        Msg *m = find();
        if (!m) return false;
        *osrc = m->src; *otag = m->tag;
        return true;
    }
    std::vector<std::string> collective(int rank, const char *kind, int root, std::string mine) override {
        size_t k = cseq[rank]++;
        Coll *c;
        {
            arena::Pause ps;
            while (colls.size() <= k) colls.push_back(std::make_unique<Coll>());
            c = colls[k].get();
            if (!c->set) { c->set = true; c->kind = kind; c->root = root; c->data.resize(N); c->in.resize(N); c->sync = R.pick(2) == 1; R.count(c->sync ? "fault_collective_synchronising" : "fault_collective_skewed"); }
            if (c->kind != kind || c->root != root) throw Violation("collective-mismatch", "rank " + std::to_string(rank) + " calls " + kind + " (root " + std::to_string(root) + ") where another rank calls " + c->kind + " (root " + std::to_string(c->root) + ")");
            c->data[rank] = std::string(mine.data(), mine.size());
            c->in[rank] = true;
            c->arrived++;
            R.ev("%s rank %d root %d %zu bytes", kind, rank, root, mine.size());
            int n = N;
            std::string kd = kind;
            std::function<bool()> ready;
            if (c->sync || kd == "barrier" || kd.rfind("all_", 0) == 0) ready = [c, n] { return c->arrived == n; };
            else if (kd == "broadcast" || kd == "scatter") ready = [c, root] { return (bool)c->in[root]; };
            else if (rank == root) ready = [c, n] { return c->arrived == n; };
            else ready = nullptr;
            if (ready || R.pick(2)) yield_(ready, kd + " #" + std::to_string(k));
        }
        return c->data;
    }
    void note(int, const char *) override {}
    void final_check() {
        for (auto &m : msgs) if (!m->matched) throw Violation("stray-message", "a message from rank " + std::to_string(m->src) + " to rank " + std::to_string(m->dst) + " (tag " + std::to_string(m->tag) + ") was never received");
        for (auto &q : reqs) if (!q->send && q->dropped && !q->taken) throw Violation("abandoned-receive", "rank " + std::to_string(q->rank) + " abandoned a receive (from rank " + std::to_string(q->src) + ", tag " + std::to_string(q->tag) + ") without waiting for its data");
        for (size_t i = 0; i < colls.size(); i++) if (colls[i]->arrived != N) throw Violation("collective-mismatch", "collective #" + std::to_string(i) + " (" + colls[i]->kind + ") was entered by " + std::to_string(colls[i]->arrived) + " of " + std::to_string(N) + " ranks");
    }
};
} // namespace mpisim
