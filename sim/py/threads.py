"""The threads of a simulated process: real Python threads of which exactly one runs at any time.  Which one runs is decided at
every line (or instruction) of the qdd package, before and after every engine call, and at every lock, from the case's schedule
seed.  Locks made by the qdd package and the thread pools of the primitives are simulated here; everything else is real."""
import dis, os, sys, threading, _thread
from circ import Rng

_real_lock = _thread.allocate_lock


class Thread:
    def __init__(self, name):
        self.name = name
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = "ready"
        self.why = ""
        self.low = False   # goes on only when the others cannot
        self.calls = None  # the fault plan of the job this thread works for


class Sched:
    def __init__(self, spec, out):
        self.rng = Rng(spec["sched"])
        self.p, self.limit = spec["p"], spec.get("limit")  # a switch every p points on average,
        self.hot = spec.get("hot") or self.p               # every hot points right after a store into shared objects
        self.steps = self.picks = self.switches = 0
        self.trace = []
        self.out = out
        self.main = Thread("main")
        self.threads = [self.main]
        self.current = self.main
        self.h = 0
        self.on = True
        self.burst = 0

    # --- choices
    def choose(self, l):
        self.picks += 1
        l = [t for t in l if not t.low] or l
        v = l[self.rng.below(len(l))]
        if self.limit is not None and self.picks > self.limit:
            v = l[0]
        self.h = (self.h * 1000003 ^ self.threads.index(v) ^ self.steps << 8) & (1 << 64) - 1
        return v

    def ready(self, but=None):
        return [t for t in self.threads if t.state == "ready" and t is not but]

    def point(self, where, hot=False):
        if not self.on or self.current.state != "ready":
            return
        self.steps += 1
        if self.steps > 40_000_000:
            self.dead("no-progress", "more than %d steps" % self.steps)
        if self.limit is not None and self.picks >= self.limit:
            return
        if self.burst:
            self.burst -= 1
            return
        if self.rng.below(self.hot if hot else self.p):
            return
        l = self.ready(self.current)
        if self.hot != self.p:  # then the others get somewhere, or as far as they can
            if hot and l and self.rng.below(2):
                self.current.low = True
            else:
                self.burst = self.rng.below(1 << 2 + self.rng.below(10))
        if l and self.current.low or any(not t.low for t in l):
            self.go(self.choose(l), where)

    def go(self, t, where):
        me = self.current
        self.switches += 1
        if len(self.trace) < 20000:
            self.trace.append("%d %s -> %s at %s" % (self.steps, me.name, t.name, where))
        self.current = t
        t.low = False
        t.baton.release()
        if me.state != "done":
            me.baton.acquire()

    def block(self, why):
        """the running thread waits until another one makes it ready"""
        me = self.current
        me.state, me.why = "blocked", why
        l = self.ready()
        if not l:
            self.dead("deadlock", "; ".join("%s waits for %s" % (t.name, t.why) for t in self.threads if t.state == "blocked"))
        self.go(self.choose(l), "block: " + why)

    def wake(self, l):
        for t in l:
            t.state = "ready"
        del l[:]

    def dead(self, cls, msg):
        self.out(dict(kind="stuck", cls=cls, msg=msg, trace=self.trace[-300:]))
        os._exit(0)

    def spawn(self, name, fn, calls=None):
        t = Thread(name)
        t.calls = calls
        t.waiters = []
        self.threads.append(t)

        def body():
            t.baton.acquire()
            try:
                fn()
            except BaseException as e:
                import traceback
                self.out(dict(kind="harness", tb=traceback.format_exc()))
                os._exit(0)
            self.wake(t.waiters)
            t.state = "done"
            l = self.ready()
            if not l:
                self.dead("deadlock", "; ".join("%s waits for %s" % (x.name, x.why) for x in self.threads if x.state == "blocked"))
            self.go(self.choose(l), "end")
        _thread.start_new_thread(body, ())
        return t

    def join(self, ts):
        for t in ts:
            while t.state != "done":
                t.waiters.append(self.current)
                self.block("end of " + t.name)


S = None


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner, self.n, self.waiters = None, 0, []

    def acquire(self, blocking=True, timeout=-1):
        if S is None:
            self.n += 1
            return True
        S.point("lock")
        while self.n and not (self.reentrant and self.owner is S.current):
            if not blocking or (timeout is not None and timeout >= 0 and S.rng.below(2)):
                return False
            self.waiters.append(S.current)
            S.block("a lock")
        self.owner = S.current
        self.n += 1
        return True

    def release(self):
        if self.n == 0 or (self.reentrant and S is not None and self.owner is not None and self.owner is not S.current):
            raise RuntimeError("release of a lock that is not held")
        self.n -= 1
        if self.n == 0:
            self.owner = None
        if S is not None:
            if self.n == 0:
                S.wake(self.waiters)
            S.point("unlock")

    def locked(self):
        return self.n > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.n > 0 and (S is None or self.owner is S.current)

    def _release_save(self):
        n, self.n = self.n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n


class SimFuture:
    def __init__(self):
        self.st, self.val, self.exc, self.waiters, self.cbs = "pending", None, None, [], []

    def result(self, timeout=None):
        while self.st in ("pending", "running"):
            self.waiters.append(S.current)
            S.block("a job")
        if self.st == "cancelled":
            from concurrent.futures import CancelledError
            raise CancelledError()
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        try:
            self.result()
        except BaseException as e:
            if self.st == "cancelled":
                raise
            return e

    def running(self):
        return self.st == "running"

    def done(self):
        return self.st in ("finished", "cancelled")

    def cancelled(self):
        return self.st == "cancelled"

    def cancel(self):
        if self.st == "pending":
            self.st = "cancelled"
            S.wake(self.waiters)
        return self.st == "cancelled"

    def add_done_callback(self, f):
        f(self) if self.done() else self.cbs.append(f)

    def finish(self):
        self.st = "finished"
        S.wake(self.waiters)
        for f in self.cbs:
            f(self)


class SimExecutor:
    def __init__(self, max_workers=None, *a, **k):
        self.serial = max_workers == 1
        self.last = None
        self.ts = []

    def submit(self, fn, *a, **k):
        f, before = SimFuture(), self.last if self.serial else None
        self.last = f

        def run():
            if before is not None:
                before.exception()
            if f.st == "cancelled":
                return
            f.st = "running"
            try:
                f.val = fn(*a, **k)
            except BaseException as e:
                f.exc = e
            f.finish()
        self.ts.append(S.spawn("job%d" % len(S.threads), run, S.current.calls))
        S.point("submit")
        return f

    def shutdown(self, wait=True, **k):
        if wait:
            S.join(self.ts)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def patch():
    """before the qdd package is imported"""
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock, _thread.RLock = SimLock, SimRLock
    import concurrent.futures, concurrent.futures.thread, qiskit.primitives.primitive_job as pj
    pj.ThreadPoolExecutor = concurrent.futures.ThreadPoolExecutor = concurrent.futures.thread.ThreadPoolExecutor = SimExecutor


def hot_points(code, fine):
    """the instructions (or lines) that follow a store into an object other threads may see"""
    ins = list(dis.get_instructions(code))
    lines = dict((off, ln) for off, _, ln in code.co_lines() if ln is not None)
    line, cur = {}, code.co_firstlineno
    at = {}
    for k, i in enumerate(ins):
        cur = lines.get(i.offset, cur)
        line[i.offset] = cur
        at[i.offset] = k
    out, method = set(), None
    for k, i in enumerate(ins):
        if i.opname in ("LOAD_ATTR", "LOAD_METHOD"):
            method = i.argval
        store = i.opname in ("STORE_SUBSCR", "STORE_ATTR", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_SLICE", "STORE_GLOBAL")
        if i.opname.startswith("CALL"):
            store = method in ("append", "add", "pop", "update", "setdefault", "clear", "extend", "remove", "insert", "popitem", "discard", "acquire", "release", "set_options")
            method = None
        if not store:
            continue
        if fine:
            if k + 1 < len(ins):
                out.add(ins[k + 1].offset)
            continue
        n = k + 1
        while n < len(ins) and line[ins[n].offset] == line[i.offset]:
            if ins[n].opname.startswith("JUMP_BACKWARD"):
                out.add(line.get(ins[n].argval))
            n += 1
        if n < len(ins):
            out.add(line[ins[n].offset])
            if ins[n].opname.startswith("JUMP_BACKWARD"):
                out.add(line.get(ins[n].argval))
    return out


def start(spec, out, repo):
    global S
    S = Sched(spec, out)
    m = sys.monitoring
    m.use_tool_id(4, "sim")
    pre = os.path.join(os.path.realpath(repo), "qdd") + os.sep
    known = {}

    def ours(code):
        r = known.get(code.co_filename)
        if r is None:
            r = known[code.co_filename] = os.path.realpath(code.co_filename).startswith(pre)
        return r

    fine = bool(spec.get("fine"))
    hot = {}

    def at(code, where):
        if not ours(code):
            return m.DISABLE
        h = hot.get(id(code))  # (hashing a code object is slow; it is kept alive here)
        if h is None:
            h = hot[id(code)] = (hot_points(code, fine), code)
        S.point("%s:%d" % (code.co_name, where), where in h[0])
    ev = m.events.INSTRUCTION if spec.get("fine") else m.events.LINE
    m.register_callback(4, ev, at)
    m.set_events(4, ev)
    return S


def stop():
    S.on = False
    sys.monitoring.set_events(4, 0)
