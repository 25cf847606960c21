"""The ranks of a simulated distributed job: real forked processes, of which exactly one runs at any time.  This module is
the transport and the scheduler: every choice (which rank runs, which message arrives next, whether a send completes eagerly,
whether a collective synchronises) is drawn from the case's schedule seed."""
import os, pickle, signal, socket, struct
from circ import Rng

HEAD = struct.Struct("<c7x5qQ")


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Died(Exception):
    pass


class Msg:
    __slots__ = ("src", "dst", "tag", "seq", "data", "direct", "nb", "captured", "arrived", "matched", "poisoned", "sreq")


class Req:
    __slots__ = ("rank", "send", "done", "dropped", "taken", "src", "tag", "data")


class Coll:
    __slots__ = ("kind", "root", "sync", "data", "arrived")


UNIFORM, STICKY, STALL, LATE = range(4)


class Hub:
    def __init__(self, size, sched, limit=None, counters=None, trace=None):
        self.N, self.rng, self.limit = size, Rng(sched), limit
        self.picks = self.steps = self.seq = 0
        self.c = counters if counters is not None else {}
        self.trace = trace
        self.mode = self.pick(4)
        self.stalled = self.pick(size)
        self.reqs, self.open, self.msgs, self.colls, self.cseq = [], [], [], [], [0] * size
        self.sock, self.pid = [], []
        self.ready, self.answer, self.why = [None] * size, [None] * size, [""] * size
        self.done, self.recs, self.end = [False] * size, [[] for _ in range(size)], [None] * size
        self.last = 0
        self.bytes = 0

    # --- choices
    def pick(self, n):
        self.picks += 1
        v = self.rng.below(n)
        if self.limit is not None and self.picks > self.limit:
            return 0
        return v

    def count(self, k):
        self.c[k] = self.c.get(k, 0) + 1

    def ev(self, fmt, *a):
        if self.trace is not None:
            self.trace.append(fmt % a)

    # --- wire
    def send(self, r, f=(), b=b"", t=b"A"):
        f = tuple(f) + (0,) * (5 - len(f))
        try:
            self.sock[r].sendall(HEAD.pack(t, *f, len(b)) + b)
        except OSError:
            raise Died(r)

    def read(self, r, n):
        out = b""
        while len(out) < n:
            x = self.sock[r].recv(n - len(out))
            if not x:
                raise Died(r)
            out += x
        return out

    def recv(self, r):
        h = HEAD.unpack(self.read(r, HEAD.size))
        return h[0], h[1:6], self.read(r, h[6]) if h[6] else b""

    # --- transport
    def capture(self, m):
        if m.captured:
            return
        m.captured = True
        if m.direct:
            self.send(m.src, (m.direct, m.nb), t=b"M")
            t, _, b = self.recv(m.src)
            assert t == b"m"
            m.data = b
        elif m.poisoned:
            m.data = b"\xdb" * len(m.data)

    def match(self):
        again = True
        while again:
            again = False
            for q in self.open:
                seen, cand = set(), []
                for m in self.msgs:
                    if not m.matched and m.dst == q.rank and (q.src < 0 or m.src == q.src) and (q.tag < 0 or m.tag == q.tag) and m.src not in seen:
                        seen.add(m.src)
                        if m.arrived:
                            cand.append(m)
                if not cand:
                    continue
                m = cand[self.pick(len(cand))]
                self.capture(m)
                m.matched = True
                q.done, q.data, q.src, q.tag = True, m.data, m.src, m.tag
                self.reqs[m.sreq].done = True
                self.msgs.remove(m)
                self.open.remove(q)
                again = True
                break

    def handle(self, r, t, f, b):
        """serve one request of the running rank; returns True when the rank goes on at once"""
        if t == b"O":
            self.recs[r].append(pickle.loads(b))
            return True
        if t == b"S":
            m = Msg()
            self.seq += 1
            m.src, m.dst, m.tag, m.seq, m.data, m.direct, m.nb = r, f[0], f[1], self.seq, b, f[3], f[4]
            m.captured = m.arrived = m.matched = m.poisoned = False
            q = Req()
            q.rank, q.send, q.done, q.dropped, q.taken, q.src, q.tag, q.data = r, True, False, False, False, -1, f[1], b""
            self.reqs.append(q)
            m.sreq = len(self.reqs) - 1
            eager = self.pick(2) == 0
            if eager:
                self.capture(m)
                q.done = True
            self.count("fault_send_eager" if eager else "fault_send_rendezvous")
            self.count("messages")
            self.ev("rank %d sends to %d tag %d, %d bytes%s%s", r, f[0], f[1], f[4] if f[3] else len(b), "" if f[2] else " non-blocking", "" if eager else " (rendezvous)")
            self.msgs.append(m)
            self.match()
            self.send(r, (m.sreq,))
            return True
        if t == b"R":
            q = Req()
            q.rank, q.send, q.done, q.dropped, q.taken, q.src, q.tag, q.data = r, False, False, False, False, f[0], f[1], b""
            self.reqs.append(q)
            self.open.append(q)
            i = len(self.reqs) - 1
            self.ev("rank %d receives from %d tag %d", r, f[0], f[1])
            self.match()
            self.send(r, (i,))
            return True
        if t == b"K":
            q = self.reqs[f[0]]
            q.taken = True
            self.send(r, (q.src, q.tag), q.data)
            return True
        if t == b"D":
            q = self.reqs[f[0]]
            q.dropped = True
            if not q.done and q.send:
                for m in self.msgs:
                    if m.sreq == f[0] and not m.captured:
                        m.poisoned = True
            self.send(r)
            return True
        if t == b"W":
            q = self.reqs[f[0]]
            if q.done and self.pick(4) != 3:
                self.send(r)
                return True
            self.block(r, lambda: q.done, lambda: ((), b""), "message tag %d to be received" % q.tag if q.send else "message from %d tag %d" % (q.src, q.tag))
            return False
        if t == b"T":
            q = self.reqs[f[0]]
            self.block(r, None, lambda: ((int(q.done),), b""), "")
            return False
        if t == b"P":
            def find():
                for m in self.msgs:
                    if m.arrived and not m.matched and m.dst == r and (f[0] < 0 or m.src == f[0]) and (f[1] < 0 or m.tag == f[1]):
                        return m

            def ans():
                m = find()
                return ((1, m.src, m.tag) if m else (0, -1, -1)), b""
            self.block(r, (lambda: find() is not None) if f[2] else None, ans, "a message to probe")
            return False
        if t == b"B":
            self.block(r, None, lambda: ((), b""), "")
            return False
        if t == b"C":
            kind, root, data = b[:f[1]].decode(), f[0], b[f[1]:]
            k = self.cseq[r]
            self.cseq[r] += 1
            if len(self.colls) <= k:
                c = Coll()
                c.kind, c.root, c.data, c.arrived = kind, root, [None] * self.N, 0
                c.sync = self.pick(2) == 1
                self.count("fault_collective_synchronising" if c.sync else "fault_collective_skewed")
                self.colls.append(c)
            c = self.colls[k]
            if c.kind != kind or c.root != root:
                raise Violation("collective-mismatch", "rank %d calls %s (root %d) where another rank calls %s (root %d)" % (r, kind, root, c.kind, c.root))
            c.data[r] = data
            c.arrived += 1
            self.ev("rank %d enters %s #%d root %d, %d bytes", r, kind, k, root, len(data))
            if c.sync or kind == "barrier" or kind.startswith("all_"):
                ready = lambda: c.arrived == self.N
            elif kind in ("broadcast", "scatter"):
                ready = lambda: c.data[root] is not None
            elif r == root:
                ready = lambda: c.arrived == self.N
            else:
                ready = None

            def ans():
                return (), b"".join(struct.pack("<Q", len(d or b"")) + (d or b"") for d in c.data)
            self.block(r, ready, ans, "%s #%d" % (kind, k))
            return False
        raise RuntimeError("unknown request %r" % t)

    def block(self, r, ready, answer, why):
        self.ready[r], self.answer[r], self.why[r] = ready, answer, why

    def runnable(self, r):
        return not self.done[r] and (self.ready[r] is None or self.ready[r]())

    def drive(self, r):
        """let rank r run until it blocks or ends"""
        try:
            if self.answer[r]:
                a, self.answer[r], self.ready[r] = self.answer[r], None, None
                self.send(r, *a())
            while True:
                t, f, b = self.recv(r)
                if not self.handle(r, t, f, b):
                    return
        except Died:
            self.reap(r)

    def reap(self, r):
        _, st = os.waitpid(self.pid[r], 0)
        self.done[r] = True
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            self.end[r] = "no end within its processor time" if s == signal.SIGXCPU else "signal %d" % s
        else:
            self.end[r] = "ok" if os.WEXITSTATUS(st) == 0 else "exit %d" % os.WEXITSTATUS(st)
        self.ev("rank %d ends: %s", r, self.end[r])
        if self.end[r] != "ok":
            raise Violation("process-died", "rank %d ended with %s" % (r, self.end[r]))

    def describe(self):
        return "; ".join("rank %d %s" % (r, "finished" if self.done[r] else "can run" if self.runnable(r) else "waits for " + self.why[r]) for r in range(self.N))

    def loop(self, maxsteps):
        for r in range(self.N):
            self.drive(r)  # up to the common start
        while not all(self.done):
            self.steps += 1
            if self.steps > maxsteps:
                raise Violation("no-progress", "the ranks did not finish within %d scheduler steps; %s" % (maxsteps, self.describe()))
            rr = [r for r in range(self.N) if self.runnable(r)]
            mm = [m for m in self.msgs if not m.arrived]
            if not rr and not mm:
                raise Violation("deadlock", "no rank can proceed and nothing is in flight; " + self.describe())
            if not rr:
                deliver = True
            elif not mm:
                deliver = False
            else:
                deliver = self.pick(12) == 11 if self.mode == LATE else self.pick(3) == 0
            if deliver:
                i = self.pick(len(mm))
                m = mm[i]
                m.arrived = True
                if i:
                    self.count("fault_message_overtaken")
                self.ev("message %d from %d to %d arrives", m.seq, m.src, m.dst)
                self.match()
                continue
            if self.mode == STICKY and self.last in rr and self.pick(8) != 7:
                r = self.last
            elif self.mode == STALL and len(rr) > 1 and self.stalled in rr and self.pick(40) != 39:
                rr.remove(self.stalled)
                r = rr[self.pick(len(rr))]
                self.count("fault_stalled_rank")
            else:
                r = rr[self.pick(len(rr))]
            self.last = r
            self.drive(r)
        for m in self.msgs:
            raise Violation("stray-message", "a message from rank %d to rank %d (tag %d) was never received" % (m.src, m.dst, m.tag))
        for k, c in enumerate(self.colls):
            if c.arrived != self.N:
                raise Violation("collective-mismatch", "collective #%d (%s) was entered by %d of %d ranks" % (k, c.kind, c.arrived, self.N))

    def close(self):
        for r in range(len(self.sock)):
            self.sock[r].close()
            if not self.done[r]:
                try:
                    os.kill(self.pid[r], signal.SIGKILL)
                    os.waitpid(self.pid[r], 0)
                except (OSError, ChildProcessError):
                    pass


def run_world(world, child, counters=None, trace=None, maxsteps=400000):
    """world: dict(size, sched, limit?, ...).  child(rank, sockets' fd) runs in the forked process and never returns.
    Returns (records per rank, ends, violation or None, steps)"""
    h = Hub(world["size"], world["sched"], world.get("limit"), counters, trace)
    v = None
    try:
        for r in range(h.N):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for s in h.sock:
                        s.close()
                    child(r, b.fileno())
                finally:
                    os._exit(3)
            b.close()
            h.sock.append(a)
            h.pid.append(pid)
        try:
            h.loop(maxsteps)
        except Violation as e:
            v = (e.cls, e.msg)
        except Died as e:
            try:
                h.reap(e.args[0])
                v = ("process-died", "rank %d ended while its memory was read" % e.args[0])
            except Violation as x:
                v = (x.cls, x.msg)
    finally:
        h.close()
    return h.recs, h.end, v, h.steps, h.picks
