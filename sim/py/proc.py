"""One simulated process: a forked child with the seams armed that imports the qdd package (simulation build of pyQDD) and
executes a list of jobs.  Returns one record per job."""
import ctypes, gc, os, pickle, resource, signal, struct, sys, traceback
import numpy as np
import circ as C

REPO = os.environ.get("QDD_REPO", "/repo")


class Seam:
    def __init__(self):
        self.l = ctypes.CDLL(None)
        self.l.pysim_arm.argtypes = [ctypes.c_uint64, ctypes.c_uint64]
        self.l.pysim_fail_at.argtypes = [ctypes.c_long]
        self.l.pysim_clock_jump.argtypes = [ctypes.c_longlong]
        for f in ("pysim_nfailed", "pysim_nalloc", "pysim_live", "pysim_ndev"):
            getattr(self.l, f).restype = ctypes.c_long


class InjectedInterrupt(KeyboardInterrupt):
    pass


class Plan:
    """the engine calls of a job: the at-th one fails"""

    def __init__(self):
        self.n = self.at = 0
        self.exc = self.fired = None


class Calls:
    """counts the engine calls made by the Python layer and makes the k-th one fail"""

    def __init__(self):
        self.plan = Plan()
        self.sched = None

    @property
    def cur(self):
        return (self.sched.current.calls if self.sched else None) or self.plan

    def wrap(self, mod):
        for name in dir(mod):
            f = getattr(mod, name)
            if name.startswith("_") or isinstance(f, type) or not callable(f):
                continue
            setattr(mod, name, self.one(name, f))

    def one(self, name, f):
        def g(*a, **k):
            c = self.cur
            c.n += 1
            if c.at and c.n >= c.at and name not in ("initMT", "terminateMT"):
                c.at = 0
                c.fired = name
                raise {"RuntimeError": RuntimeError, "ValueError": ValueError, "MemoryError": MemoryError,
                       "Interrupt": InjectedInterrupt}[c.exc]("injected failure of pyQDD." + name)
            if not self.sched:
                return f(*a, **k)
            self.sched.point("before " + name)
            r = f(*a, **k)
            self.sched.point("after " + name)
            return r
        g.__name__ = name
        return g


def plain(x):
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    return x


class Proc:
    def __init__(self, spec, moddir, rank=None):
        self.spec = spec
        self.seam = Seam()
        self.moddir = moddir
        self.rank = rank
        self.calls = Calls()
        self.kept = {}

    def start(self):
        import importlib.machinery, importlib.util
        s = self.spec
        if "p" in s:
            import threads
            threads.patch()
        self.seam.l.pysim_arm(s["rd"] ^ ((self.rank or 0) * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFFFFFF), s["off"])
        sys.path.insert(0, REPO)
        path = os.path.join(self.moddir, "pyQDD.so")
        ld = importlib.machinery.ExtensionFileLoader("qdd.pyQDD", path)
        sp = importlib.util.spec_from_file_location("qdd.pyQDD", path, loader=ld)
        m = importlib.util.module_from_spec(sp)
        ld.exec_module(m)
        sys.modules["qdd.pyQDD"] = m
        if self.rank is not None:
            self.ranks(path)
        self.calls.wrap(m)
        import qdd
        assert os.path.realpath(qdd.__file__).startswith(os.path.realpath(REPO) + "/"), qdd.__file__
        qdd.pyQDD = m
        # the interpreter's own collector runs when its counters say so, and they depend on the parent's history
        gc.disable()
        gc.freeze()
        self.q = qdd
        self.m = m
        self.prov = qdd.QddProvider()

    def ranks(self, path):
        """connects this process to the simulated transport, and stands in for mpi4py"""
        import types
        self.t = t = ctypes.CDLL(path)
        t.pysim_rank(self.spec["fd"], self.rank, self.spec["size"])
        t.pysim_bcast.restype = ctypes.c_void_p
        t.pysim_bcast.argtypes = [ctypes.c_char_p, ctypes.c_int64, ctypes.c_int, ctypes.POINTER(ctypes.c_int64)]
        t.pysim_out.argtypes = [ctypes.c_char_p, ctypes.c_int64]
        rank, size = self.rank, self.spec["size"]

        class Comm:
            def bcast(self, obj=None, root=0):
                b = pickle.dumps(obj) if rank == root else b""
                n = ctypes.c_int64()
                p = t.pysim_bcast(b, len(b), root, ctypes.byref(n))
                return obj if rank == root else pickle.loads(ctypes.string_at(p, n.value))

            def Get_rank(self):
                return rank

            def Get_size(self):
                return size
            rank = property(Get_rank)
            size = property(Get_size)
        M = types.ModuleType("mpi4py.MPI")
        M.COMM_WORLD = Comm()
        pk = types.ModuleType("mpi4py")
        pk.MPI = M
        sys.modules["mpi4py"] = pk
        sys.modules["mpi4py.MPI"] = M

    def mk_qdd(self, n, ops, keep=None):
        from qdd.qdd_gate import QDDGate
        key = None if keep is None else repr((n, ops, keep))
        if key in self.kept:
            return self.kept[key]
        from qiskit import QuantumCircuit
        qc = QuantumCircuit(n)
        for o in ops:
            qc.append(C.gate(o[1])[2](*o[2]), o[3])
        g = QDDGate(n, self.prov.get_backend().merge_circuit(qc))
        if key is not None:
            self.kept[key] = g
        return g

    def one(self, j, rec, f):
        try:
            return f()
        except InjectedInterrupt as e:
            rec["raised"] = "Interrupt: %s" % e
        except Exception as e:
            rec["raised"] = "%s: %s" % (type(e).__name__, e)
            rec["tb"] = traceback.format_exc()[-1500:]
            if j["kind"] in ("sampler", "estimator") and not j.get("skip"):
                self.seam.l.pysim_fail_at(0)
                from qiskit import transpile
                try:  # does qiskit itself fail on one of these circuits?
                    for i, c in enumerate(j["circuits"]):
                        qc = C.build(c, self.mk_qdd, "t%d" % i)
                        if j["kind"] == "estimator":
                            qc.measure_all()
                        transpile(qc, self.prov.get_backend())
                except Exception as x:
                    rec["transpile_fails"] = repr(x)

    def run(self, out):
        if "p" in self.spec:
            return self.run_threads(out)
        for j in self.spec["jobs"]:
            rec = dict(kind=j["kind"])

            def whole():
                fin = getattr(self, "j_" + j["kind"])(j, rec)
                if fin:
                    fin()
            self.one(j, rec, whole)
            self.seam.l.pysim_fail_at(0)
            self.calls.plan.at = 0
            if not j.get("nocollect"):
                gc.collect()
            rec["pools"] = self.seam.l.pysim_pools()
            rec["calls"] = self.calls.plan.n
            out(rec)

    def run_threads(self, out):
        """several clients at once, each with its own jobs; those of the primitives are collected later"""
        import threads
        jobs = self.spec["jobs"]
        for j in jobs:
            if j.get("inst") is not None:
                getattr(self, "make_" + j["kind"])(j)
        s = self.calls.sched = threads.start(self.spec, out, REPO)

        def client(k):
            pending = []

            def collect(force):
                for x in list(pending):
                    x[0] -= 1
                    if force or x[0] < 0:
                        pending.remove(x)
                        ji, j, rec, fin, plan = x[1:]
                        s.current.calls = plan
                        self.one(j, rec, fin)
                        done(ji, rec, plan)

            def done(ji, rec, plan):
                rec.update(ji=ji, pools=0, calls=plan.n)
                out(rec)
            for ji, j in enumerate(jobs):
                if j.get("client", 0) != k:
                    continue
                rec = dict(kind=j["kind"])
                plan = s.current.calls = Plan()
                fin = self.one(j, rec, lambda: getattr(self, "j_" + j["kind"])(j, rec))
                if fin and "raised" not in rec:
                    pending.append([j.get("later", 0), ji, j, rec, fin, plan])
                else:
                    done(ji, rec, plan)
                collect(False)
            collect(True)
        ts = [s.spawn("client%d" % k, lambda k=k: client(k)) for k in sorted({j.get("client", 0) for j in jobs})]
        s.join(ts)
        s.join(s.threads[1:])
        threads.stop()
        self.calls.sched = None
        gc.collect()
        out(dict(kind="schedule", steps=s.steps, switches=s.switches, picks=s.picks, threads=len(s.threads), hash=s.h, pools=self.seam.l.pysim_pools(), trace=s.trace[-300:]))

    def j_gcthr(self, j, rec):
        t = j["thr"]
        self.m.set_gc_thr(*(t[self.rank % len(t)] if isinstance(t[0], list) else t))

    def j_clock(self, j, rec):
        if j.get("rank", self.rank) != self.rank:
            return
        self.seam.l.pysim_clock_jump(j["ns"])

    def j_pyrandom(self, j, rec):
        import random
        random.seed(j["v"])
        np.random.seed(j["v"] & 0xffffffff)

    def options(self, j):
        o = {}
        for k in ("shots", "memory", "seed_simulator", "n_threads", "use_mpi", "use_bcast", "use_auto_swap", "swap_ver", "show_progress", "show_progress_frequency"):
            if k in j and not (k == "shots" and j.get("noshots") and j["shots"] == 1024):
                o[k] = j[k]
        if j.get("npshots") and o.get("shots"):
            o["shots"] = getattr(np, j["npshots"])(o["shots"])
        return o

    def seeding(self, j, ctor, backend):
        """where the seed of a primitive is given; returns the options of the call"""
        if "seed" not in j:
            return {}
        m = j.get("seedmode", "seed")
        if m in ("seed", "seed_simulator"):
            return {m: j["seed"]}
        if m == "ctor":
            ctor["seed" if j["kind"] == "estimator" else "seed_simulator"] = j["seed"]
        elif m == "backend":
            backend["seed_simulator"] = j["seed"]
        return {}

    def arm(self, j, rec):
        f = j.get("fault")
        c = self.calls.cur
        c.fired = None
        c.nf0 = self.seam.l.pysim_nfailed()
        if not f:
            return
        if f["kind"] == "call":
            c.exc = f["exc"]
            c.at = c.n + f["k"]
        else:
            self.seam.l.pysim_fail_at(f["k"])

    def disarm(self, j, rec):
        self.seam.l.pysim_fail_at(0)
        c = self.calls.cur
        c.at = 0
        rec["fired"] = c.fired
        rec["alloc_failed"] = self.seam.l.pysim_nfailed() - c.nf0

    def j_run(self, j, rec):
        b = self.prov.get_backend("statevector_simulator" if j.get("sv") else None)
        if j.get("fresh_provider"):
            b = self.q.QddProvider().get_backend("statevector_simulator" if j.get("sv") else None)
        qcs = [C.build(c, self.mk_qdd, "c%d" % i) for i, c in enumerate(j["circuits"])]
        twice = j.get("sameobj") and len(qcs) > 1 and j["circuits"][-1] == j["circuits"][0]
        if twice:
            qcs[-1] = qcs[0]
        if j.get("transpile"):
            from qiskit import transpile
            try:
                qcs = transpile(qcs, b, optimization_level=j["transpile"] - 1, seed_transpiler=1)
            except Exception as x:  # qiskit's own
                rec["transpile_fails"] = repr(x)
                return
        o = self.options(j)
        if "binds" in j:
            o["parameter_binds"] = [{p: bb[p.name] for p in qc.parameters} for qc, bb in zip(qcs, j["binds"])]
        if "bad_arg" in j:
            qcs = {"tuple": tuple(qcs), "none": None, "str": "x", "mixed": qcs + [None], "empty": []}[j["bad_arg"]]
        elif j.get("single") and len(qcs) == 1:
            qcs = qcs[0]
        if j.get("via_set"):
            keep = {k: getattr(b.options, k) for k in o if k != "parameter_binds"}
            b.set_options(**{k: o[k] for k in keep})
            o = {k: v for k, v in o.items() if k not in keep}
        self.arm(j, rec)
        try:
            job = b.run(qcs, **o)
        finally:
            self.disarm(j, rec)
            if j.get("via_set"):
                b.set_options(**keep)
        rec["status"] = job.status().name
        res = job.result()
        rec["success"] = bool(res.success)
        rec["job_id"] = str(job.job_id())
        rec["nres"] = len(res.results)
        if rec["status"] != "DONE":
            return
        rec["exp"] = []
        for i in range(len(res.results)):
            e = {}
            d = res.results[i].data
            if j.get("shots", 1024) is not None:
                try:
                    e["counts"] = {k.replace(" ", ""): v for k, v in res.get_counts(i).items()}
                    one = not isinstance(qcs, list)
                    regs = [len(x) for x in next(iter(res.get_counts(i)), "").split(" ")]
                    if not twice and "binds" not in j and res.get_counts(qcs if one else qcs[i]) != res.get_counts(i):
                        e["differ"] = "counts asked for by circuit and by number differ"
                    elif job.result().get_counts(i) != res.get_counts(i):
                        e["differ"] = "counts differ between two calls of result()"
                    elif isinstance(qcs, list) and qcs[i].cregs and sum(map(len, qcs[i].cregs)) == qcs[i].num_clbits and regs != [len(x) for x in reversed(qcs[i].cregs)]:
                        e["differ"] = "results are split into registers of %s bits" % regs
                except Exception as x:
                    e["counts_err"] = "%s: %s" % (type(x).__name__, x)
                if j.get("memory"):
                    try:
                        e["memory"] = [s.replace(" ", "") for s in res.get_memory(i)]
                    except Exception as x:
                        e["memory_err"] = "%s: %s" % (type(x).__name__, x)
            else:
                e["probs"] = {str(k): float(p) for k, p in d.probabilities.items()} if hasattr(d, "probabilities") else None
            if j.get("sv"):
                e["sv"] = np.asarray(d.statevector, complex)
                if not np.array_equal(e["sv"], np.asarray(res.get_statevector(i), complex)):
                    e["differ"] = "the state vector differs from that of get_statevector()"
            rec["exp"].append(e)

    def j_merge(self, j, rec):
        b = self.prov.get_backend()
        qc = C.build(j["circuit"], self.mk_qdd)
        self.arm(j, rec)
        try:
            e = b.merge_circuit(qc)
        finally:
            self.disarm(j, rec)
        rec["matrix"] = np.asarray(e.getEigenMatrix(qc.num_qubits), complex)

    def make_sampler(self, j):
        from qdd.qdd_sampler import Sampler
        key = ("sampler", j.get("inst"))
        s = self.__dict__.get(key) if j.get("inst") is not None else None
        if s is None:
            ro, bo = {}, {}
            if "ctor_shots" in j:
                ro["shots"] = j["ctor_shots"]
            self.seeding(j, ro, bo)
            s = Sampler(skip_transpilation=bool(j.get("skip")), run_options=ro or None, backend_options=bo or None)
            self.__dict__[key] = s
        return s

    @staticmethod
    def mutate(j, qcs, obs=()):
        """the caller goes on changing its circuits and observables"""
        if j.get("mutate"):
            from qiskit.circuit import CircuitInstruction
            from qiskit.circuit.library import XGate
            for q in qcs:
                q.data.insert(0, CircuitInstruction(XGate(), [q.qubits[0]]))
            for o in obs:
                if hasattr(o, "coeffs"):
                    o.coeffs *= -3

    def j_sampler(self, j, rec):
        s = self.make_sampler(j)
        qcs = [C.build(c, self.mk_qdd, "s%d" % i) for i, c in enumerate(j["circuits"])]
        order = j["order"]
        vals = [[j["values"][a][p.name] for p in qcs[i].parameters] for a, i in enumerate(order)]
        o = {}
        if "shots" in j:
            o["shots"] = j["shots"]
        o.update(self.seeding(j, {}, {}))
        self.arm(j, rec)
        try:
            job = s.run([qcs[i] for i in order], vals, **o)
        except BaseException:
            self.disarm(j, rec)
            raise
        self.mutate(j, qcs)

        def fin():
            try:
                res = job.result()
            finally:
                self.disarm(j, rec)
            rec["quasi"] = [{int(k): float(v) for k, v in d.items()} for d in res.quasi_dists]
            rec["shots"] = [m.get("shots") for m in res.metadata]
        return fin

    def make_estimator(self, j):
        from qdd.qdd_estimator import Estimator
        key = ("estimator", j.get("inst"))
        e = self.__dict__.get(key) if j.get("inst") is not None else None
        if e is None:
            ro, bo = {}, {}
            if "ctor_shots" in j:
                ro["shots"] = j["ctor_shots"]
            self.seeding(j, ro, bo)
            e = Estimator(approximation=j["approx"], skip_transpilation=bool(j.get("skip")), abelian_grouping=j["group"],
                          run_options=ro or None, backend_options=bo or None)
            self.__dict__[key] = e
        return e

    def j_estimator(self, j, rec):
        from qiskit.quantum_info import SparsePauliOp, Pauli
        e = self.make_estimator(j)
        qcs = [C.build(c, self.mk_qdd, "e%d" % i) for i, c in enumerate(j["circuits"])]
        order = j["order"]

        def observable(ob):
            if j.get("obsform") == 1 and len(ob) == 1 and ob[0][1] == 1.0:
                return Pauli(ob[0][0])
            return SparsePauliOp([p for p, _ in ob], [w for _, w in ob])
        obs = [observable(j["observables"][k]) for _, k in order]
        vals = [[j["values"][a][p.name] for p in qcs[i].parameters] for a, (i, _) in enumerate(order)]
        o = {}
        if "shots" in j:
            o["shots"] = j["shots"]
        if "rshots" in j:
            o["shots"] = j["rshots"]
        o.update(self.seeding(j, {}, {}))
        self.arm(j, rec)
        try:
            job = e.run([qcs[i] for i, _ in order], obs, vals, **o)
        except BaseException:
            self.disarm(j, rec)
            raise
        self.mutate(j, qcs, obs)

        def fin():
            try:
                res = job.result()
            finally:
                self.disarm(j, rec)
            rec["values"] = [float(np.real(v)) for v in res.values]
            rec["imag"] = max([abs(float(np.imag(v))) for v in np.atleast_1d(res.values)] + [0.0])
        return fin


def quiet(cpu):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not os.environ.get("PYSIM_DEBUG"):
        n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
    import warnings
    warnings.simplefilter("ignore")


def run_ranks(spec, moddir, counters=None, trace=None, cpu=120):
    """the same for a distributed job: spec["size"] ranks, each a forked child under ranks.Hub"""
    import ranks

    def child(rank, fd):
        code = 3
        try:
            quiet(cpu)
            p = Proc(dict(spec, fd=fd), moddir, rank)
            p.start()

            def out(x):
                b = pickle.dumps(x)
                p.t.pysim_out(b, len(b))
            p.t.pysim_begin()
            try:
                p.run(out)
            except BaseException:
                out(dict(kind="harness", tb=traceback.format_exc()))
            out(dict(kind="end", allocs=p.seam.l.pysim_nalloc(), ndev=p.seam.l.pysim_ndev()))
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    return ranks.run_world(spec, child, counters, trace)


def run_proc(spec, moddir, cpu=120):
    """fork, execute, collect.  Returns (records, end) with end = 'ok' | 'signal N' | 'exit N' | 'cpu time'"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            quiet(cpu)

            def out(x):
                b = pickle.dumps(x)
                b = struct.pack("<I", len(b)) + b
                while b:
                    b = b[os.write(w, b):]
            p = Proc(spec, moddir)
            p.start()
            p.run(out)
            out(dict(kind="end", allocs=p.seam.l.pysim_nalloc(), ndev=p.seam.l.pysim_ndev()))
            code = 0
        except BaseException:
            traceback.print_exc()
            try:
                out(dict(kind="harness", tb=traceback.format_exc()))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    recs = []
    while len(buf) >= 4:
        (n,) = struct.unpack("<I", buf[:4])
        if len(buf) < 4 + n:
            break
        recs.append(pickle.loads(buf[4:4 + n]))
        buf = buf[4 + n:]
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        end = "no end within %d s of processor time" % cpu if s in (signal.SIGXCPU,) else "signal %d" % s
    else:
        end = "ok" if os.WEXITSTATUS(st) == 0 else "exit %d" % os.WEXITSTATUS(st)
    return recs, end
