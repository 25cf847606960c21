#!/usr/bin/env python3
"""Python-level simulation: whole jobs through the Qiskit backend, sampler and estimator, in simulated processes.
  pysim.py worker --profile P --dir B --first S --stride K --max N --time T --out D --id X --audit A --stop V
  pysim.py replay --profile P --dir B --file F"""
import ctypes, hashlib, json, os, struct, sys, time

if os.environ.get("PYSIM_EXEC") != "1":
    # fixed addresses and string hashes; the seams are preloaded
    a = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    libc = ctypes.CDLL(None)
    libc.personality(0x0040000)  # ADDR_NO_RANDOMIZE (best effort)
    repo = os.environ.get("QDD_REPO", "/repo")
    h = hashlib.sha256()
    for f in sorted(os.listdir(repo + "/qdd")):
        if f.endswith(".py"):
            h.update(open(repo + "/qdd/" + f, "rb").read())
    env = dict(os.environ, PYSIM_EXEC="1", PYTHONHASHSEED="0", LD_PRELOAD=os.path.join(a["--dir"], "libseam.so"), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", RAYON_NUM_THREADS="1", QISKIT_PARALLEL="FALSE", QISKIT_IN_PARALLEL="TRUE", PYTHONPYCACHEPREFIX=os.path.join(a["--dir"], "pyc-" + h.hexdigest()[:16]))
    for v in ("PYTHONPATH", "QISKIT_SETTINGS"):
        env.pop(v, None)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter("ignore")
import numpy as np
import circ as C
import proc as P
import qiskit.primitives, qiskit.transpiler, qiskit.compiler, qiskit.quantum_info  # noqa: preloaded for the forks
import qiskit.transpiler.preset_passmanagers  # noqa


def warm():
    """the transpiler loads its plug-ins at its first use: once here instead of in every simulated process"""
    from qiskit import transpile
    q = C.build(dict(qregs=[3], cregs=[3], gphase=0.0, ops=[["g", "iswap", [], [0, 1], None], ["g", "rzx", [0.3], [1, 2], None], ["g", "cry", [0.3], [0, 2], None], ["m", 0, 0, None]]))
    for lv in (0, 1, 2):
        transpile(q, basis_gates=["u", "cx", "rz", "sx", "x"], optimization_level=lv, seed_transpiler=1)
from circ import Rng


# ------------------------------------------------------------------ generation
def gen_run(rng, prof, **kw):
    nc = 1 + (rng.below(3) if rng.chance(35) else 0)
    sv = rng.chance(kw.pop("sv", 25))
    wide = kw.pop("wide", 14)
    if wide and rng.chance(wide):
        sv = False
        wk = dict(nmin=max(6, kw.get("nmin", 0)), dyn=kw.get("dyn"), params=kw.get("params", 0), nmax=24 if prof == 15 else 60)
        j = dict(kind="run", circuits=[C.gen_wide(rng, **wk) for _ in range(nc)])
    else:
        if rng.chance(10) and prof != 17 and kw.get("nmax", 5) == 5:
            kw["nmax"] = 8
        j = dict(kind="run", circuits=[C.gen(rng, **kw) for _ in range(nc)])
    if nc > 1 and rng.chance(40):
        j["circuits"][-1] = j["circuits"][0]
    if any(c["params"] for c in j["circuits"]):
        j["binds"] = [{"p%d" % i: C.angle(rng) for i in range(4)} for _ in j["circuits"]]
    if sv:
        j["sv"] = 1
        if rng.chance(15):  # no measurement at all
            for i, c in enumerate(j["circuits"]):
                if not c.get("wide") and not c["params"] and rng.chance(70):
                    j["circuits"][i] = C.gen(rng, nmin=kw.get("nmin", 1), nmax=min(5, max(kw.get("nmin", 1), kw.get("nmax", 5))), dyn=False, measure=False)
    dyn = any(o[0] in ("m", "r") for c in j["circuits"] for o in c["ops"][:-3])
    big = any(c["n"] > 5 for c in j["circuits"])
    j["shots"] = rng.pick([1, 2, 7, 40, 100, 200]) if rng.chance(60) or big else (rng.pick([300, 500]) if dyn else 1024)
    if big and dyn:
        j["shots"] = min(j["shots"], 60)
    if j["shots"] == 1024 and rng.chance(60):
        j["noshots"] = 1  # the default
    if rng.chance(75):
        j["memory"] = True
    if rng.chance(10) and not any(c.get("wide") or o[0] in ("q", "u", "delay", "if") for c in j["circuits"] for o in c["ops"]):
        j["transpile"] = 1 + rng.below(3)
    if rng.chance(15):
        j["fresh_provider"] = 1
    elif rng.chance(12):
        j["via_set"] = 1
    if nc == 1 and rng.chance(50):
        j["single"] = 1
    if nc > 1 and rng.chance(50):
        j["sameobj"] = 1
    if rng.chance(12):
        j["npshots"] = rng.pick(["int64", "int32", "uint64"])
    if rng.chance(5):
        j["show_progress"], j["show_progress_frequency"] = True, 1 + rng.below(5)
    return j


def gen_misc(rng):
    k = rng.below(3)
    if k == 0:
        return dict(kind="gcthr", thr=rng.pick([[1, 1], [5, 5], [50, 50], [200000, 2000]]))
    if k == 1:
        return dict(kind="clock", ns=rng.pick([-1, 1]) * rng.below(10 ** 15))
    return dict(kind="pyrandom", v=rng.below(1000))


def hasu(cs):
    # qiskit 1.2's transpile() itself fails on unitary gates for a BackendV1 with these basis gates
    return any(o[0] == "u" for c in cs for o in c["ops"])


def gen_sampler(rng, inst=False, known_dyn=False):
    if rng.chance(12):
        j = dict(kind="sampler", circuits=[C.gen_wide(rng, params=rng.below(3)) for _ in range(1 + rng.below(2))], shots=rng.pick([1, 30, 150]), skip=1)
        j["order"] = [rng.below(len(j["circuits"])) for _ in range(1 + rng.below(3))]
        j["values"] = [{"p%d" % i: C.angle(rng) for i in range(4)} for _ in j["order"]]
        if inst:
            j["inst"] = 10 + rng.below(2)
        return j
    # every circuit measures (the primitives require it)
    cs = []
    while len(cs) < 1 + rng.below(3):
        c = C.gen(rng, nmax=4, dyn=rng.chance(25), params=rng.below(3), qdd=False)
        c.pop("loose", None)
        cs.append(c)
    if rng.chance(35):  # two circuits that differ in little
        import copy
        cs.append(copy.deepcopy(cs[0]))
        flip(rng, dict(circuits=[cs[-1]]))
    j = dict(kind="sampler", circuits=cs)
    order = [rng.below(len(cs)) for _ in range(1 + rng.below(4))]
    j["order"] = order
    j["values"] = [{"p%d" % i: C.angle(rng) for i in range(4)} for _ in order]
    if rng.chance(30) and len(order) > 1:
        j["values"][-1] = j["values"][0]
    k = rng.below(4)
    if k < 2:
        j["shots"] = None
        if any(dynamic(c) for c in cs):
            if not (known_dyn and rng.chance(15)):
                j["shots"] = 100
            elif rng.chance(70):
                for o in (o for c in cs for o in c["ops"]):
                    if o[0] in ("m", "g", "u", "r"):
                        o[-1] = None
    elif k == 2:
        j["shots"] = rng.pick([1, 50, 400])
    if rng.chance(70) or hasu(cs):
        j["skip"] = 1
    if inst:
        j["inst"] = rng.below(2) + (10 if j.get("skip") else 0)
    elif rng.chance(30):
        j["ctor_shots"] = rng.pick([30, 200])
    return j


def gen_estimator(rng, inst=False):
    import copy
    wide = rng.chance(12)
    if wide:
        nm = rng.pick([10, 14, 60, 70])
        cs = [C.gen_wide(rng, nmin=8, nmax=nm, dyn=False, params=rng.below(3), measure=False) for _ in range(1 + rng.below(2))]
    else:
        cs = [C.gen(rng, nmin=1, nmax=4, dyn=False, params=rng.below(3), measure=False, qdd=False) for _ in range(1 + rng.below(2))]
        if rng.chance(30):
            cs.append(copy.deepcopy(cs[0]))
            flip(rng, dict(circuits=[cs[-1]]))
    mid = not wide and rng.chance(15)
    if mid:  # circuits that measure, reset and have conditions
        cs = [C.gen(rng, nmin=1, nmax=4, dyn=True, params=rng.below(3), qdd=False, exotic=False) for _ in range(1 + rng.below(2))]
        for c in cs:
            c.pop("loose", None)
            while c["ops"] and c["ops"][-1][0] == "m":
                c["ops"].pop()
    obs, order = [], []
    for _ in range(1 + rng.below(4)):
        ci = rng.below(len(cs))
        n = cs[ci]["n"]
        if obs and rng.chance(30):
            fit = [k for k, o in enumerate(obs) if len(o[0][0]) == n]
            if fit:
                order.append([ci, rng.pick(fit)])
                continue
        o = []
        for _ in range(1 + rng.below(4)):
            kind = rng.below(5)
            if wide and rng.chance(60):  # a few qubits far apart
                p = ["I"] * n
                for q in rng.sample(range(n), 1 + rng.below(4)):
                    p[q] = rng.pick("XYZZ")
                o.append(["".join(p), (rng.below(2001) - 1000) / 500.0])
                continue
            p = "I" * n if kind == 0 else "".join(rng.pick("IIXYZ" if kind < 4 else "XYZ") for _ in range(n))
            o.append([p, (rng.below(2001) - 1000) / 500.0])
        if rng.chance(15):
            o = [["I" * n, 1.25]]
        if len(o) == 1 and rng.chance(50):
            o = [[o[0][0], 1.0]]
        obs.append(o)
        order.append([ci, len(obs) - 1])
    j = dict(kind="estimator", circuits=cs, observables=obs, order=order, approx=rng.chance(60), group=rng.chance(50))
    j["values"] = [{"p%d" % i: C.angle(rng) for i in range(4)} for _ in order]
    if len(order) > 1 and rng.chance(40):
        j["values"][-1] = j["values"][0]
    if j["approx"]:
        k = rng.below(4)
        if k:
            j["ctor_shots"] = rng.pick([None, None, 1000])
    else:
        j["shots"] = rng.pick([50, 300])
    if wide and any(c["n"] > 10 for c in cs):  # exact results list every outcome
        j["approx"] = False
        j.pop("ctor_shots", None)
        j["shots"] = rng.pick([50, 200])
    if mid:
        j["approx"] = False
        j["skip"] = 1
        j.pop("ctor_shots", None)
        j["shots"] = rng.pick([50, 200])
    if j["approx"] and rng.chance(15):
        j["rshots"] = rng.pick([100, 1000])
    if rng.chance(30):
        j["obsform"] = 1
    if rng.chance(60) or hasu(cs) or wide:
        j["skip"] = 1
    if inst:
        j["inst"] = rng.below(2) + 10 * bool(j.get("skip")) + 20 * j["approx"] + 40 * j["group"] + (80 if j.get("ctor_shots") else 0)
    return j


def fits(o, j):
    """can the estimator job o be given to the instance of j?"""
    return not (j["approx"] and any(c["n"] > 10 for c in o["circuits"])) and (not any(sum(c["cregs"]) for c in o["circuits"]) or (not j["approx"] and j.get("skip")))


def gen_failing(rng, mt):
    """a job that fails by itself or by an injected fault"""
    j = gen_run(rng, 17, nmax=4)
    k = rng.below(10)
    if k < 4:
        j["fault"] = dict(kind="call", k=1 + rng.below(rng.pick([3, 30, 300])), exc=rng.pick(["RuntimeError", "ValueError", "MemoryError", "Interrupt"]))
    elif k < 6 and not mt:  # (in the fiber build, Boost.Fiber and oneTBB themselves do not survive a failed allocation)
        j["fault"] = dict(kind="alloc", k=1 + rng.below(rng.pick([10, 100, 3000])))
    elif k < 9:
        c = dict(rng.pick(j["circuits"]))
        c["ops"] = list(c["ops"])
        j["circuits"][rng.below(len(j["circuits"]))] = c
        b = rng.pick(["unsup", "unbound", "init", "unsupcond"])
        op = ["bad", b]
        if b == "unsupcond":
            if not sum(c["cregs"]):
                op = ["bad", "unsup"]
            else:
                op += [rng.below(8), rng.below(2)]
        c["ops"].insert(rng.below(len(c["ops"]) + 1), op)
        j.pop("transpile", None)
        if b == "unbound":
            j.pop("binds", None)
            for c in j["circuits"]:
                for o in c["ops"]:
                    if o[0] == "g":
                        o[2] = [0.5 if isinstance(v, str) else v for v in o[2]]
                c["params"] = 0
    else:
        b = rng.below(5)
        if b == 0:
            j["bad_arg"] = rng.pick(["tuple", "none", "str", "mixed"])
        elif b == 1:
            j["shots"] = rng.pick([0, -3, 10 ** 7])
            j.pop("fresh_provider", None)
            if rng.chance(50):
                j["via_set"] = 1
        elif b == 2:
            j["circuits"][-1] = dict(n=101, qregs=[101], cregs=[1], ops=[["m", 0, 0, None]], gphase=0.0, params=0)
        elif b == 3:
            j["circuits"].append(dict(n=2, qregs=[2], cregs=[1], ops=[["g", "h", [], [0], None]], gphase=0.0, params=0))
            j.pop("sv", None)
            if "binds" in j:
                j["binds"].append({})
            j.pop("single", None)
        else:
            j["bad_arg"] = "mixed"
    if mt and rng.chance(60):
        j["n_threads"] = 2 + rng.below(3)
    return j


def gen_ranks(rng, size):
    """the jobs of a distributed run: every rank makes the same calls"""
    sh = {1: 0, 2: 1, 4: 2, 8: 3}[size]
    jobs = []
    for _ in range(1 + rng.below(3)):
        if rng.chance(25):
            k = rng.below(2)
            if k == 0:
                jobs.append(dict(kind="gcthr", thr=[rng.pick([[1, 1], [5, 5], [50, 50], [200000, 2000]]) for _ in range(size)]))
            else:
                jobs.append(dict(kind="clock", ns=rng.pick([-1, 1]) * rng.below(10 ** 15), rank=rng.below(size)))
        j = gen_run(rng, 15, nmin=sh + 1, nmax=max(sh + 1, 5), sv=40, dyn=rng.chance(45))
        j.pop("transpile", None)
        j.pop("single", None)
        j["use_mpi"] = True
        if rng.chance(40):
            j["use_bcast"] = True
        if rng.chance(30):
            j["use_auto_swap"] = False
        if rng.chance(50):
            j["swap_ver"] = "v2"
        dyn = any(dynamic(c) for c in j["circuits"])
        if dyn:
            j["shots"] = min(j["shots"], rng.pick([1, 3, 10, 30]))
        elif rng.chance(25) and not any(c.get("loose") for c in j["circuits"]):
            j["shots"] = None
        else:
            j["shots"] = min(j["shots"], 150)
        if j["shots"] is not None and rng.chance(30):
            j["seed_simulator"] = rng.next() >> rng.pick([1, 33, 60])
        if rng.chance(7):
            c = rng.pick(j["circuits"])
            c["ops"].insert(rng.below(len(c["ops"]) + 1), ["bad", rng.pick(["unsup", "init"])])
        jobs.append(j)
    return jobs


def gen_clients(rng, jobs, mt):
    """jobs of several clients of one process; returns those to be repeated alone"""
    tagged = []
    pool = []  # primitives in use by several clients
    nclients = rng.pick([1, 2, 2, 3, 4])
    focus = rng.chance(40)  # mostly work for one instance, with few different circuits
    for k in range(nclients):
        for _ in range(1 + rng.below(3)):
            x = rng.below(20)
            if focus and rng.chance(80):
                x = 19
            if x < 2:
                j = gen_misc(rng)
            elif x < 8:
                j = gen_run(rng, 17, nmax=4, wide=8)
                for t in ("via_set",):
                    j.pop(t, None)
                j["shots"] = min(j["shots"], 30)
                if rng.chance(30):
                    j["seed_simulator"] = rng.below(1 << 31)
                if mt and rng.chance(60):
                    j["n_threads"] = 2
            elif x < 9:
                j = dict(kind="merge", circuit=C.gen(rng, nmax=4, dyn=False, measure=False, depth=rng.pick([None, 45])))
            elif x < 10:
                j = gen_failing(rng, True)
                if j.get("fault") and rng.chance(50):
                    j["fault"]["exc"] = rng.pick(["RuntimeError", "MemoryError"])
                if not mt:
                    j.pop("n_threads", None)
                j.pop("via_set", None)
                if j["shots"] is not None and 0 < j["shots"] <= 10 ** 6:
                    j["shots"] = min(j["shots"], 30)
            else:
                if pool and rng.chance(95 if focus else 65):
                    import copy
                    base = rng.pick(pool)
                    j = copy.deepcopy(base)
                    for t in ("tag", "mutate", "seed", "seedmode"):
                        j.pop(t, None)
                    if rng.chance(15 if focus else 55):  # other circuits on the same instance
                        o = gen_sampler(rng) if j["kind"] == "sampler" else gen_estimator(rng)
                        if j["kind"] == "estimator" and not fits(o, j):
                            o = None
                        if o and (o.get("skip") or not j.get("skip")) and not (hasu(o["circuits"]) and not j.get("skip")) and not any(c.get("wide") for c in o["circuits"]):
                            for t in ("approx", "group", "skip", "ctor_shots", "inst"):
                                if t in j:
                                    o[t] = j[t]
                                else:
                                    o.pop(t, None)
                            if o["kind"] == "estimator" and o["approx"]:
                                o.pop("shots", None)
                            elif o["kind"] == "estimator" and "shots" not in o:
                                o["shots"] = 100
                            j = o
                    elif rng.chance(50):
                        flip(rng, j)
                else:
                    j = gen_sampler(rng) if rng.chance(55) else gen_estimator(rng)
                    if rng.chance(60) and not any(c.get("wide") or sum(c["cregs"]) and j["kind"] == "estimator" for c in j["circuits"]):  # transpiled
                        for c in j["circuits"]:
                            c["ops"] = [o for o in c["ops"] if o[0] not in ("u", "if", "delay")]
                        j.pop("skip", None)
                        if j["kind"] == "sampler":
                            for c in j["circuits"]:
                                if not any(o[0] == "m" for o in c["ops"]):
                                    c["ops"].append(["m", 0, 0, None])
                    j["inst"] = 3000 + len(pool)
                    pool.append(j)
                if j.get("shots"):
                    j["shots"] = min(j["shots"], 50)
                elif "shots" not in j and j["kind"] == "sampler" and "ctor_shots" not in j and rng.chance(80):
                    j["shots"] = 50
                j["later"] = rng.below(4)
                if rng.chance(35):
                    j["mutate"] = 1
                if rng.chance(25) and not j.get("ctor_shots"):
                    j["seed"] = rng.below(1 << 31)
                    j["seedmode"] = "seed"
            if ("seed" in j or "seed_simulator" in j) and j["kind"] != "failing" and not j.get("fault") and not any(o[0] == "bad" for c in j["circuits"] for o in c["ops"]) and rng.chance(60):
                j["tag"] = "c%d" % len(tagged)
                tagged.append(dict(j))
            j["client"] = k
            jobs.append(j)
    return tagged


def gen_crowd(rng, jobs):
    """several clients start the same few jobs on one instance at the same time"""
    import copy
    while True:
        base = gen_sampler(rng) if rng.chance(50) else gen_estimator(rng)
        if not any(c.get("wide") or c["n"] > 3 or len(c["ops"]) > 14 for c in base["circuits"]) and not (base["kind"] == "estimator" and any(sum(c["cregs"]) for c in base["circuits"])):
            break
    for c in base["circuits"]:
        c["ops"] = [o for o in c["ops"] if o[0] not in ("u", "if", "delay")]
        if base["kind"] == "sampler" and not any(o[0] == "m" for o in c["ops"]):
            c["ops"].append(["m", 0, 0, None])
    if rng.chance(85):
        base.pop("skip", None)
    for t in ("tag", "mutate", "seed", "seedmode"):
        base.pop(t, None)
    if base.get("shots") or base["kind"] == "sampler" and "shots" not in base and "ctor_shots" not in base:
        base["shots"] = min(base.get("shots") or 50, 50)
    base["inst"] = 3000
    tagged = []
    for k in range(2 + rng.below(3)):
        for _ in range(1 + rng.below(2)):
            j = copy.deepcopy(base)
            if rng.chance(35):
                flip(rng, j)
            j["later"] = rng.below(4)
            if rng.chance(25):
                j["mutate"] = 1
            if rng.chance(30) and not j.get("ctor_shots"):
                j["seed"], j["seedmode"] = rng.below(1 << 31), "seed"
                if rng.chance(60):
                    j["tag"] = "c%d" % len(tagged)
                    tagged.append(dict(j))
            j["client"] = k
            jobs.append(j)
    return tagged


def flip(rng, j):
    """a circuit that differs in little: the value of a condition, the place of a gate"""
    c = rng.pick(j["circuits"])
    l = [o for o in c["ops"] if o[0] in ("g", "u", "m", "r") and o[-1] is not None]
    if l:
        cnd = rng.pick(l)[-1]
        cnd[2] = cnd[2] ^ 1 if cnd[0] == "bit" else (cnd[2] + 1) % 2 ** c["cregs"][cnd[1]]
        return
    l = [o for o in c["ops"] if o[0] == "g" and len(o[3]) == 2]
    if l:
        rng.pick(l)[3].reverse()


def gen_world(rng, size):
    return dict(rd=rng.next(), off=rng.below(1 << 20) * 64, size=size, sched=rng.next(), jobs=[])


def gen_proc(rng):
    return dict(rd=rng.next(), off=rng.below(1 << 20) * 64, jobs=[])


def generate(seed, prof):
    rng = Rng(seed)
    case = dict(profile=prof, seed=seed, mt=0, procs=[gen_proc(rng)])
    jobs = case["procs"][0]["jobs"]
    if prof == 15:
        size = rng.pick([1, 2, 2, 2, 2, 4, 4, 4, 8])
        w = gen_world(rng, size)
        w["jobs"] = gen_ranks(rng, size)
        case["procs"] = [w]
        seeded = [j for j in w["jobs"] if "seed_simulator" in j]
        if seeded and rng.chance(80):  # the same seeded job again, under another schedule
            w2 = gen_world(rng, size)
            j = rng.pick(seeded)
            j["tag"] = "s"
            w2["jobs"] = ([gen_run(rng, 15, nmin=3, nmax=4, dyn=False)] if rng.chance(30) and size <= 4 else []) + [j]
            for x in w2["jobs"][:-1]:
                x["use_mpi"] = True
                x["shots"] = 10
                x.pop("transpile", None)
            case["procs"].append(w2)
    elif prof == 16:
        if rng.chance(15):  # gates made of circuits, alive across collections of gates
            jobs.append(dict(kind="gcthr", thr=[50, rng.pick([1, 10])]))
        for _ in range(1 + rng.below(3)):
            if rng.chance(20):
                jobs.append(gen_misc(rng))
            jobs.append(gen_run(rng, prof, params=2 if rng.chance(20) else 0))
    elif prof == 17:
        case["mt"] = int(rng.chance(45))
        for k in range(1 + rng.below(3)):
            if rng.chance(22):  # the same call on the same instance again after it failed
                import copy
                j = gen_sampler(rng) if rng.chance(50) else gen_estimator(rng)
                j["inst"] = 2000 + k
                f = copy.deepcopy(j)
                f["fault"] = dict(kind="call", k=1 + rng.below(rng.pick([3, 30, 300])), exc=rng.pick(["RuntimeError", "ValueError", "MemoryError", "Interrupt"]))
                if not case["mt"] and rng.chance(40):
                    f["fault"] = dict(kind="alloc", k=1 + rng.below(rng.pick([10, 100, 3000])))
                jobs += ([copy.deepcopy(j)] if rng.chance(30) else []) + [f, j]
                continue
            jobs.append(gen_failing(rng, case["mt"]))
            if rng.chance(60):
                g = gen_run(rng, prof, nmax=4)
                g["shots"] = min(g["shots"], 100)
                jobs.append(g)
            if rng.chance(15):
                jobs.append(gen_misc(rng))
        last = gen_run(rng, prof, nmax=4, sv=50)
        last["shots"] = rng.pick([20, 60])
        last["memory"] = True
        last["seed_simulator"] = rng.below(1 << 31)
        last["tag"] = "last"
        last.pop("fresh_provider", None)
        if case["mt"] and rng.chance(50):
            last["n_threads"] = 2 + rng.below(3)
        jobs.append(last)
        p = gen_proc(rng)
        p["jobs"] = [last]
        case["procs"].append(p)
    elif prof == 19:
        case["mt"] = int(rng.chance(20))
        tagged = []
        for t in range(1 + rng.below(2)):
            k = rng.below(10)
            if k < 6:
                j = gen_run(rng, prof, nmax=4, params=1)
                j["seed_simulator"] = rng.pick([0, 1, rng.below(1 << 31), (1 << 31) + rng.below(1 << 31)])
                if j["shots"] > 200:
                    j["shots"] = 100
                if case["mt"] and rng.chance(50):
                    j["n_threads"] = 2
            else:
                j = gen_sampler(rng) if k < 8 else gen_estimator(rng)
                j["seed"] = rng.below(1 << 31)
                j["seedmode"] = rng.pick(["seed", "seed", "seed_simulator", "ctor", "backend"])
                if j["kind"] == "estimator" and j["approx"]:
                    j["seedmode"] = rng.pick(["seed", "ctor"])
                if rng.chance(60):
                    j["inst"] = 1000 + t
            j["tag"] = "t%d" % t
            tagged.append(j)
        case["procs"].append(gen_proc(rng))
        free = dict(kind="run", circuits=[dict(n=4, qregs=[4], cregs=[4], ops=[["g", "h", [], [q], None] for q in range(4)] + [["m", q, q, None] for q in range(4)], gphase=0.0, params=0)],
                    shots=30, memory=True, free=1)
        if rng.chance(30):
            free["circuits"][0]["ops"].insert(0, ["r", 0, None])
        for p in case["procs"]:
            for j in rng.sample(tagged, len(tagged)) + ([rng.pick(tagged)] if rng.chance(70) else []):
                for _ in range(rng.below(3)):
                    k = rng.below(10)
                    if k < 3 and j.get("inst"):  # other work of the same instance
                        g = dict(j)
                        g.pop("tag")
                        o = list(range(len(g["order"])))
                        if rng.chance(50):
                            o = o[::-1] + [0]
                        g["order"], g["values"] = [j["order"][x] for x in o], [j["values"][x] for x in o]
                        if g["seedmode"] in ("seed", "seed_simulator") and rng.chance(60):
                            if rng.chance(50):
                                g["seed"] = rng.below(1 << 31)
                            else:
                                g["seedmode"] = "none"
                        p["jobs"].append(g)
                    elif k < 4:
                        g = gen_run(rng, prof, nmax=3)
                        g["shots"] = min(g["shots"], 40)
                        if rng.chance(40):
                            g["seed_simulator"] = rng.below(1 << 31)
                        p["jobs"].append(g)
                    elif k < 5:
                        p["jobs"].append(gen_failing(rng, case["mt"]))
                    else:
                        p["jobs"].append(gen_misc(rng))
                p["jobs"].append(j)
            if rng.chance(70):
                p["jobs"].append(free)
    elif prof == 21:
        p = case["procs"][0]
        p.update(sched=rng.next(), p=rng.pick([2, 6, 25, 100, 500, 3000]), fine=int(rng.chance(25)))
        if rng.chance(50):
            p["hot"], p["p"] = rng.pick([2, 4, 10, 30]), rng.pick([100, 1000, 10000])
        case["mt"] = int(rng.chance(12))
        if rng.chance(35):  # a crowd around one instance, each pushed aside just after it has changed something
            case["mt"] = 0
            p["hot"], p["p"] = rng.pick([3, 6, 12]), rng.pick([1000, 10000])
            tagged = gen_crowd(rng, jobs)
        else:
            tagged = gen_clients(rng, jobs, case["mt"])
        if tagged:
            p = gen_proc(rng)
            p["jobs"] = tagged
            case["procs"].append(p)
    elif prof == 20:
        inst = rng.chance(50)
        if rng.chance(20):  # gates made of circuits, alive across collections of gates
            jobs.append(dict(kind="gcthr", thr=[rng.pick([50, 100000]), rng.pick([1, 10, 100])]))
            n = 2 + rng.below(3)
            for _ in range(2 + rng.below(3)):
                if rng.chance(30):
                    g = gen_run(rng, prof, nmin=n, nmax=n, wide=0)
                    g["shots"] = min(g["shots"], 100)
                    g.pop("transpile", None)
                    for c in g["circuits"]:
                        for _ in range(1 + rng.below(2)):
                            if c["n"] > 1:
                                c["ops"].insert(rng.below(len(c["ops"]) + 1), C.gen_qdd(rng, c["n"]))
                    jobs.append(g)
                    continue
                c = C.gen(rng, nmin=n, nmax=n, dyn=False, measure=False, depth=rng.pick([5, 25, 45]), exotic=False)
                for _ in range(1 + rng.below(3)):
                    c["ops"].insert(rng.below(len(c["ops"]) + 1), C.gen_qdd(rng, n))
                jobs.append(dict(kind="merge", circuit=c))
        for _ in range(1 + rng.below(3)):
            k = rng.below(10)
            if k < 4:
                jobs.append(gen_sampler(rng, inst, True))
            elif k < 8:
                jobs.append(gen_estimator(rng, inst))
            elif k < 9:
                jobs.append(dict(kind="merge", circuit=C.gen(rng, nmax=4, dyn=False, measure=False, depth=rng.pick([None, None, 45]))))
            else:
                jobs.append(gen_misc(rng))
            if rng.chance(20):
                g = gen_run(rng, prof, nmax=3)
                g["shots"] = min(g["shots"], 40)
                jobs.append(g)
        if inst:  # one instance keeps the options it was made with
            for kind in ("sampler", "estimator"):
                first = {}
                for j in jobs:
                    if j["kind"] == kind and j.get("inst") is not None:
                        f = first.setdefault(j["inst"], j)
                        for k in ("approx", "group", "skip", "ctor_shots"):
                            if k in f:
                                j[k] = f[k]
                            else:
                                j.pop(k, None)
            jobs[:] = [j for j in jobs if j["kind"] != "estimator" or fits(j, j)]
    return case


# ------------------------------------------------------------------ oracle
def strip(c):
    c = dict(c)
    c["ops"] = [o for o in c["ops"] if o[0] != "bad"]
    return c


_ref = {}


def ref(c, binds):
    key = json.dumps([c, binds], sort_keys=True)
    if key not in _ref:
        if len(_ref) > 64:
            _ref.clear()
        _ref[key] = C.reference(strip(c), binds)
    return _ref[key]


def dynamic(c):
    """does anything follow a measurement of the same qubit, or depend on a result?"""
    seen = set()
    for o in C.flat(c["ops"]):
        if o[0] == "m":
            if o[3] is not None:
                return True
            seen.add(o[1])
        elif o[0] == "r":
            return True
        elif o[0] in ("g", "u"):
            if o[-1] is not None or seen & set(o[3] if o[0] == "g" else o[1]):
                return True
    return False


def must_fail(j):
    if j.get("bad_arg") in ("tuple", "none", "str", "mixed"):
        return "circuits argument of a wrong type"
    if j["shots"] is not None and not 0 < j["shots"] <= 10 ** 6:
        return "shots=%d" % j["shots"]
    for c in j["circuits"]:
        if c["n"] > 100:
            return "%d qubits" % c["n"]
        if not j.get("sv") and not any(o[0] == "m" for o in c["ops"]):
            return "circuit without measurement"
        for o in c["ops"]:
            if o[0] == "bad" and o[1] != "unsupcond":
                return "instruction " + o[1]
    return None


def may_fail(j):
    return any(o[0] == "bad" for c in j["circuits"] for o in c["ops"])


def refusable(j):
    ops = [o for c in j.get("circuits", [j.get("circuit")]) for o in c["ops"]]
    return any(o[0] in C.EXOTIC for o in ops) or any(g[0] == "g" and g[1] in C.OPEN for g in C.flat(ops))


def failed(what, r):
    m = " ".join(str(r.get("raised")).split())
    return ("job-failed:" + m.split(":")[0], "%s failed without a fault: %s; %s" % (what, m, " ".join(str(r.get("tb")).split())[-300:]))


def check_run(j, r, states):
    if "status" not in r:
        if r.get("fired") or r.get("alloc_failed") or must_fail(j) or refusable(j):
            return None  # raised to the caller
        if "raised" in r:
            return failed("job", r)
        return ("job-failed", "no status")
    bad = must_fail(j)
    if r["status"] != "DONE":
        if r["status"] != "ERROR" or r["success"]:
            return ("failure-not-reported", "failed job has status %s, success %s" % (r["status"], r["success"]))
        if not (bad or may_fail(j) or refusable(j) or r["fired"] or r["alloc_failed"]):
            return ("job-failed", "job failed without a fault")
        return None
    if not r["success"]:
        return ("failure-not-reported", "job is DONE but its result is not successful")
    if bad:
        return ("failure-not-reported", "job with %s is DONE" % bad)
    if r["fired"]:
        return ("failure-not-reported", "engine call %s failed but the job is DONE" % r["fired"])
    if r["nres"] != len(j["circuits"]):
        return ("lost-experiment", "%d results for %d circuits" % (r["nres"], len(j["circuits"])))
    if may_fail(j):
        return None
    for i, c in enumerate(j["circuits"]):
        e = r["exp"][i]
        binds = j.get("binds", [None] * 9)[i]
        rf = ref(c, binds)
        d = C.dist(rf)
        where = "experiment %d: " % i
        states.add(hashlib.blake2b(repr(sorted((k, round(v, 6)) for k, v in d.items())).encode(), digest_size=8).digest())
        for k in ("counts_err", "memory_err"):
            if k in e and not c.get("loose"):
                if sum(c["cregs"]):
                    return ("result-unreadable", where + e[k])
        if j["shots"] is None:
            continue
        if e.get("differ"):
            return ("result-differs", where + e["differ"])
        if "counts" in e:
            if sum(e["counts"].values()) != j["shots"]:
                return ("lost-shots", where + "counts add up to %d of %d shots" % (sum(e["counts"].values()), j["shots"]))
            if sum(c["cregs"]):
                mem = e.get("memory")
                if mem is not None:
                    cc = {}
                    for s in mem:
                        cc[s] = cc.get(s, 0) + 1
                    if cc != e["counts"]:
                        return ("counts-memory", where + "counts %s, memory gives %s" % (e["counts"], cc))
                    v = C.check_samples(mem, d)
                else:
                    mem = [s for s in sorted(e["counts"]) for _ in range(e["counts"][s])]
                    v = counts_only(e["counts"], d)
                if v:
                    return (v[0], where + v[1])
        if "sv" in e and not j.get("transpile"):  # the transpiler may relabel qubits and drop phases
            last = e.get("memory", [None])[-1] if sum(c["cregs"]) else None
            if any(o[0] == "m" for o in c["ops"]) and not dynamic(c):
                cc = dict(c, ops=[o for o in c["ops"] if o[0] != "m"])
                cands = [("", x) for _, x in ref(cc, binds)]
            else:
                cands = []
            cands += [("".join(str(v) for v in reversed(b)), x) for b, x in rf]
            best = 9.0
            for b, x in cands:
                nn = np.linalg.norm(x)
                if nn ** 2 < 1e-9 or (b and last is not None and b != last):
                    continue
                if e["sv"].shape == x.shape:
                    best = min(best, np.abs(e["sv"] - x / nn).max())
            if best > 1e-6:
                return ("wrong-statevector", where + "state vector differs from every state the circuit can end in (distance %.3g)" % best)
    # the same circuit twice in one job: two independent experiments
    if j["shots"] is not None and j.get("memory"):
        for a in range(len(j["circuits"])):
            for b in range(a):
                ca, cb = j["circuits"][a], j["circuits"][b]
                ba, bb = (j["binds"][a], j["binds"][b]) if "binds" in j else (None, None)
                if ca == cb and (not ca["params"] or ba == bb) and sum(ca["cregs"]):
                    d = C.dist(ref(ca, ba))
                    ps = sum(p * p for p in d.values())
                    if ps > 0 and j["shots"] * np.log(ps) < np.log(1e-13) and r["exp"][a]["memory"] == r["exp"][b]["memory"]:
                        return ("dependent-experiments", "experiments %d and %d of one job have identical results in all %d shots" % (b, a, j["shots"]))
    return None


def counts_only(counts, d):
    for s in sorted(counts):
        if d.get(s, 0.0) < 1e-9:
            return ("impossible-result", "result %s occurred %d times, exact probability %.3g" % (s, counts[s], d.get(s, 0.0)))
    lb = C.log_tail_bound(counts, d)
    if lb < C.LIMIT:
        return ("wrong-distribution", "observed %s, expected %s (ln p < %.1f)" % (counts, {k: round(v, 4) for k, v in sorted(d.items())}, lb))
    return None


def check_sampler(j, r, states):
    shots = j.get("shots", j.get("ctor_shots", 1024))
    if "quasi" not in r:
        if r.get("fired") or r.get("alloc_failed"):
            return None
        if shots is None and any(o[-1] is not None for c in j["circuits"] for o in c["ops"] if o[0] in ("m", "g", "u")):
            return None  # documented refusal: exact results of conditional circuits
        return None if refusable(j) else failed("sampler", r)
    if r["fired"]:
        return ("failure-not-reported", "engine call %s failed but the sampler returned a result" % r["fired"])
    if len(r["quasi"]) != len(j["order"]):
        return ("lost-experiment", "%d distributions for %d circuits" % (len(r["quasi"]), len(j["order"])))
    for a, i in enumerate(j["order"]):
        c = j["circuits"][i]
        d = {int(k, 2): v for k, v in C.dist(ref(c, j["values"][a])).items()}
        q = r["quasi"][a]
        states.add(hashlib.blake2b(repr(sorted((k, round(v, 6)) for k, v in d.items())).encode(), digest_size=8).digest())
        if shots is None:
            for k in set(d) | set(q):
                if abs(d.get(k, 0) - q.get(k, 0)) > 1e-6:
                    return ("exact-dynamic" if dynamic(c) else "wrong-distribution", "circuit %d (pub %d): exact probability of %s is %.6f, sampler says %.6f" % (i, a, bin(k), d.get(k, 0), q.get(k, 0)))
        else:
            counts = {k: int(round(v * shots)) for k, v in q.items()}
            if abs(sum(q.values()) - 1) > 1e-9 or any(abs(v * shots - counts[k]) > 1e-6 for k, v in q.items()) or r["shots"][a] != shots:
                return ("lost-shots", "pub %d: frequencies %s are not those of %d shots (metadata %s)" % (a, q, shots, r["shots"][a]))
            v = counts_only({bin(k): x for k, x in counts.items()}, {bin(k): x for k, x in d.items()})
            if v:
                return (v[0], "pub %d: " % a + v[1])
    return None


PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def check_estimator(j, r, states):
    if "values" not in r and (r.get("fired") or r.get("alloc_failed")):
        return None
    if r.get("fired"):
        return ("failure-not-reported", "engine call %s failed but the estimator returned a result" % r["fired"])
    if "values" not in r:
        return None if refusable(j) else failed("estimator", r)
    if len(r["values"]) != len(j["order"]):
        return ("lost-experiment", "%d values for %d pubs" % (len(r["values"]), len(j["order"])))
    shots = j.get("shots", j.get("ctor_shots"))
    for a, (ci, oi) in enumerate(j["order"]):
        c = j["circuits"][ci]
        branches = [x for _, x in ref(c, j["values"][a])]
        ex, bound, var = 0.0, 0.0, 0.0
        ob = j["observables"][oi]
        for p, w in ob:
            t = 0.0
            for v in branches:
                x = v
                for q in range(c["n"]):
                    if p[c["n"] - 1 - q] == "I":
                        continue
                    P1 = PAULI[p[c["n"] - 1 - q]].astype(complex)
                    x = C.sp_apply(x, ([], P1, [q])) if isinstance(v, dict) else C.apply(x, P1, [q], c["n"])
                t += sum(np.conj(v[k]) * y for k, y in x.items() if k in v).real if isinstance(v, dict) else np.vdot(v, x).real
            ex += w * t
            if p.strip("I"):
                bound += abs(w)
            var += w * w * (1 - t * t)
        states.add(hashlib.blake2b(repr(round(ex, 6)).encode(), digest_size=8).digest())
        tol = 1e-6
        if j["approx"] and j.get("rshots"):
            shots = min(shots or 10 ** 9, j["rshots"])
        if j["approx"] and shots:
            tol += 9 * np.sqrt(max(var, 0) / shots)
        elif not j["approx"]:
            tol += bound * np.sqrt(2 * np.log(2 * len(ob) / 1e-13) / shots)
        if not abs(r["values"][a] - ex) <= tol:
            return ("wrong-expectation", "pub %d (circuit %d, observable %s): %.6f, exact %.6f, tolerance %.2g" % (a, ci, ob, r["values"][a], ex, tol))
    return None


def check_merge(j, r, states):
    if "matrix" not in r:
        return None if refusable(j) else failed("merge_circuit", r)
    c = j["circuit"]
    n = c["n"]
    M = np.eye(2 ** n, dtype=complex)
    for g in C.flat(c["ops"]):
        if g[0] == "b":
            continue
        U, qs = C.op_matrix(g, None)
        M = np.stack([C.apply(M[:, k], U, qs, n) for k in range(2 ** n)], 1)
    M = M * np.exp(1j * c["gphase"])
    if r["matrix"].shape != M.shape or np.abs(r["matrix"] - M).max() > 1e-5:
        return ("wrong-matrix", "merge_circuit differs from the circuit's unitary by %.3g" % (np.abs(r["matrix"] - M).max() if r["matrix"].shape == M.shape else 9))
    return None


def sig(r):
    """what must not differ between two runs of one seeded job"""
    out = {k: r.get(k) for k in ("status", "quasi", "values", "nres")}
    if "exp" in r:
        out["exp"] = [{k: e.get(k) for k in ("counts", "memory")} for e in r["exp"]]
    return out


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) < 1e-7
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def same_everywhere(a, b):
    for k in ("status", "success", "nres"):
        if a.get(k) != b.get(k):
            return "%s is %s here and %s on rank 0" % (k, b.get(k), a.get(k))
    if ("raised" in a) != ("raised" in b):
        return "raised here: %s, on rank 0: %s" % (b.get("raised"), a.get("raised"))
    for i, (x, y) in enumerate(zip(a.get("exp", []), b.get("exp", []))):
        for k in ("counts", "memory", "probs"):
            if not close(x.get(k), y.get(k)):
                return "experiment %d: %s is %s here and %s on rank 0" % (i, k, str(y.get(k))[:200], str(x.get(k))[:200])
        if ("sv" in x) != ("sv" in y) or ("sv" in x and (x["sv"].shape != y["sv"].shape or np.abs(x["sv"] - y["sv"]).max() > 1e-6)):
            return "experiment %d: the state vectors differ" % i
    return None


def judge_ranks(case, res, states):
    """a distributed run: every rank has the same results, and they are those of one node"""
    out = []
    for pi, (p, (recs, ends, v, _, _)) in enumerate(zip(case["procs"], res)):
        for rr in recs:
            for r in rr:
                if r["kind"] == "harness":
                    raise RuntimeError("harness: " + r["tb"])
        if v:
            n = min(len(r) for r in recs)
            return (v[0], "world %d, during job %d: %s" % (pi, n, v[1]))
        for ji, j in enumerate(p["jobs"]):
            for r in range(1, p["size"]):
                m = same_everywhere(recs[0][ji], recs[r][ji])
                if m:
                    return ("ranks-disagree", "world %d job %d, rank %d: %s" % (pi, ji, r, m))
        out.append((recs[0], "ok"))
    return judge(case, out, states)


def arrange(p, recs, counters, trace):
    """the records of a process with several clients, in the order of its jobs"""
    by = {r["ji"]: r for r in recs if "ji" in r}
    other = [r for r in recs if "ji" not in r]
    for r in other:
        if r["kind"] == "schedule":
            p["picks"] = r["picks"]
            if counters is not None:
                for k, v in (("threads", r["threads"]), ("thread_switches", r["switches"]), ("schedule_points", r["steps"]), ("threaded_processes", 1)):
                    counters[k] = counters.get(k, 0) + v
        if trace is not None and "trace" in r:
            trace.append(r["trace"])
    out = []
    for ji in range(len(p["jobs"])):
        out.append(by.get(ji) or dict(kind="missing"))
    return out + other


def judge(case, res, states):
    tags, free = {}, []
    for pi, (p, (recs, end)) in enumerate(zip(case["procs"], res)):
        ids = set()
        for r in recs:
            if r["kind"] == "harness":
                raise RuntimeError("harness: " + r["tb"])
        for r in recs:
            if r["kind"] == "stuck":
                return (r["cls"], "process %d: %s" % (pi, r["msg"]))
            if r["kind"] == "schedule" and r["pools"]:
                return ("pool-leak", "process %d: %d worker pool(s) still alive after the last job" % (pi, r["pools"]))
        for ji, j in enumerate(p["jobs"]):
            if ji >= len(recs) or recs[ji]["kind"] in ("end", "missing"):
                return ("process-died", "process %d ended (%s) during job %d (%s)" % (pi, end, ji, j["kind"]))
            r = recs[ji]
            if r.get("transpile_fails"):
                continue
            f = dict(run=check_run, sampler=check_sampler, estimator=check_estimator, merge=check_merge).get(j["kind"])
            v = f(j, r, states) if f else (("job-failed", r["raised"]) if "raised" in r else None)
            if v:
                return (v[0], "process %d job %d (%s): %s" % (pi, ji, j["kind"], v[1]))
            if r["pools"]:
                return ("pool-leak", "process %d job %d: %d worker pool(s) still alive after the job (status %s, raised %s)" % (pi, ji, r["pools"], r.get("status"), r.get("raised")))
            if "job_id" in r and r["job_id"] != "N/A":
                if r["job_id"] in ids:
                    return ("job-id-twice", "process %d job %d has the job id of an earlier one" % (pi, ji))
                ids.add(r["job_id"])
            if j.get("free") and r.get("exp"):
                if any(m == r["exp"][0]["memory"] for m in free):
                    return ("repeated-stream", "process %d job %d: an unseeded job of %d shots repeats an earlier one shot for shot" % (pi, ji, j["shots"]))
                free.append(r["exp"][0]["memory"])
            if j.get("tag") and not r.get("alloc_failed"):
                s = sig(r)
                if j["tag"] in tags and not close(tags[j["tag"]][1], s):
                    return ("not-reproducible", "the same seeded job gave different results: process %d job %d and process %d job %d" % (tags[j["tag"]][0] + (pi, ji)))
                tags.setdefault(j["tag"], ((pi, ji), s))
        if end != "ok":
            return ("process-died", "process %d ended with %s after its last job" % (pi, end))
    return None


# ------------------------------------------------------------------ execution
class Sim:
    def __init__(self, d, prof):
        self.d, self.prof = d, prof

    def execute(self, case, counters=None, states=None, trace=None):
        if case["profile"] == 15:
            return self.execute_ranks(case, counters, states, trace)
        res = [P.run_proc(p, os.path.join(self.d, "mt" if case["mt"] else "st")) for p in case["procs"]]
        for i, (p, (recs, end)) in enumerate(zip(case["procs"], res)):
            if "p" in p:
                res[i] = (arrange(p, recs, counters, trace), end)
        h = hashlib.blake2b(digest_size=8)
        steps = 0
        for recs, end in res:
            h.update(end.encode())
            for r in recs:
                h.update(digest([r], ("allocs", "ndev") if case["mt"] else ()).encode())
                steps = steps + r.get("calls", 0)
                if counters is not None:
                    c = counters
                    def add(k, n=1):
                        c[k] = c.get(k, 0) + n
                    add("jobs_" + r["kind"])
                    if r.get("fired"):
                        add("fault_engine_call_fails")
                    if r.get("alloc_failed"):
                        add("fault_allocation_fails")
                    if r.get("status") == "ERROR":
                        add("jobs_failed")
                    if r["kind"] == "clock":
                        add("fault_clock_jump")
                    if str(r.get("raised", "")).startswith("Interrupt"):
                        add("fault_interrupt")
        if counters is not None:
            for p in case["procs"]:
                counters["processes"] = counters.get("processes", 0) + 1
                for j in p["jobs"]:
                    if j["kind"] == "run" and (must_fail(j) or may_fail(j)):
                        counters["fault_bad_request"] = counters.get("fault_bad_request", 0) + 1
                    if j["kind"] == "run":
                        counters["circuits"] = counters.get("circuits", 0) + len(j["circuits"])
                        counters["shots"] = counters.get("shots", 0) + len(j["circuits"]) * max(0, min(j["shots"] or 0, 10 ** 6))
        v = judge(case, res, states if states is not None else set())
        self.last = res
        return v, h.digest(), steps


    def execute_ranks(self, case, counters, states, trace):
        res = []
        h = hashlib.blake2b(digest_size=8)
        steps = 0
        for w in case["procs"]:
            tr = []
            x = P.run_ranks(w, os.path.join(self.d, "mpi"), counters, tr)
            res.append(x)
            h.update("\n".join(tr).encode())
            for recs in x[0]:
                h.update(digest(recs).encode())
            h.update(repr(x[2]).encode())
            steps += x[3]
            w["picks"] = x[4]
            if trace is not None:
                trace.append(tr)
            if counters is not None:
                counters["worlds"] = counters.get("worlds", 0) + 1
                counters["ranks"] = counters.get("ranks", 0) + w["size"]
                for j in w["jobs"]:
                    counters["jobs_" + j["kind"]] = counters.get("jobs_" + j["kind"], 0) + 1
                    if j["kind"] == "clock":
                        counters["fault_clock_jump"] = counters.get("fault_clock_jump", 0) + 1
                    if j["kind"] == "run" and may_fail(j):
                        counters["fault_bad_request"] = counters.get("fault_bad_request", 0) + 1
        v = judge_ranks(case, res, states if states is not None else set())
        return v, h.digest(), steps


def digest(recs, skip=()):
    return repr([sorted((k, (v if k != "exp" else [sorted((a, b.round(9).tobytes() if a == "sv" else b) for a, b in e.items()) for e in v])) for k, v in r.items()
                        if k not in ("tb", "matrix", "trace") + tuple(skip)) for r in recs])


def ncase(case):
    return sum(1 + sum(len(c["ops"]) for c in j.get("circuits", [])) for p in case["procs"] for j in p["jobs"]) + sum(p.get("size", 0) + (p.get("limit", 1 << 20) if "sched" in p else 0) for p in case["procs"])


def shrink(sim, case, v, budget=60.0):
    """smaller cases with the same class of violation: fewer processes, jobs, circuits, instructions, shots"""
    import copy
    end = time.time() + budget

    def ok(c):
        if time.time() > end:
            return False
        try:
            x = sim.execute(c)[0]
        except Exception:
            return False
        return x is not None and x[0] == v[0]

    def variants(c):
        for pi in range(len(c["procs"])):
            if len(c["procs"]) > 1:
                d = copy.deepcopy(c)
                del d["procs"][pi]
                yield d
        for pi, p in enumerate(c["procs"]):
            if "p" in p and p.get("fine"):
                d = copy.deepcopy(c)
                d["procs"][pi]["fine"] = 0
                yield d
            if "sched" in p:  # the shortest prefix of schedule choices that matters
                for lim in sorted({0, p.get("picks", 0) // 4, p.get("picks", 0) // 2, p.get("picks", 0) * 3 // 4}):
                    if lim < p.get("limit", 1 << 60):
                        d = copy.deepcopy(c)
                        d["procs"][pi]["limit"] = lim
                        yield d
                if p.get("size", 0) > 2:
                    d = copy.deepcopy(c)
                    for x in d["procs"]:
                        x["size"] = p["size"] // 2
                    yield d
        for pi, p in enumerate(c["procs"]):
            for ji in range(len(p["jobs"])):
                d = copy.deepcopy(c)
                del d["procs"][pi]["jobs"][ji]
                yield d
        for pi, p in enumerate(c["procs"]):
            for ji, j in enumerate(p["jobs"]):
                tag = j.get("tag")

                def edit(fn):
                    d = copy.deepcopy(c)
                    for p2 in d["procs"]:
                        for k, j2 in enumerate(p2["jobs"]):
                            if (tag and j2.get("tag") == tag) or (p2 is d["procs"][pi] and k == ji):
                                fn(j2)
                    return d
                if j["kind"] == "run":
                    for k in ("later", "mutate", "sameobj", "npshots", "show_progress", "transpile", "single", "fresh_provider", "sv", "n_threads", "seed_simulator", "use_bcast", "use_auto_swap", "swap_ver", "via_set", "noshots"):
                        if k in j:
                            yield edit(lambda q: q.pop(k, None))
                    if j["shots"] and j["shots"] > 2 and not j.get("noshots"):
                        yield edit(lambda q: q.update(shots=q["shots"] // 2))
                    if len(j["circuits"]) > 1:
                        for ci in range(len(j["circuits"])):
                            def drop(q):
                                if len(q["circuits"]) > ci and len(q["circuits"]) > 1:
                                    del q["circuits"][ci]
                                    if "binds" in q:
                                        del q["binds"][ci]
                            yield edit(drop)
                if j["kind"] in ("sampler", "estimator"):
                    for k in ("later", "mutate", "seed"):
                        if k in j:
                            yield edit(lambda q: q.pop(k, None))
                if j["kind"] in ("sampler", "estimator") and len(j["order"]) > 1:
                    for a in range(len(j["order"])):
                        def dropo(q):
                            if len(q["order"]) > 1 and len(q["order"]) > a:
                                del q["order"][a]
                                del q["values"][a]
                        yield edit(dropo)
                for ci, cc in enumerate(j.get("circuits", [])):
                    n = len(cc["ops"])
                    step = max(1, n // 2)
                    while step:
                        for a in range(0, n, step):
                            def cut(q):
                                if ci < len(q["circuits"]):
                                    del q["circuits"][ci]["ops"][a:a + step]
                            yield edit(cut)
                        step //= 2
    progress = True
    while progress and time.time() < end:
        progress = False
        for d in variants(case):
            if ncase(d) >= ncase(case) and len(json.dumps(d)) >= len(json.dumps(case)):
                continue
            if ok(d):
                case = d
                progress = True
                break
    return case


def jsonable(c):
    return json.loads(json.dumps(c))


def main():
    mode = sys.argv[1]
    a = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    prof = int(a["--profile"])
    sim = Sim(a["--dir"], prof)
    warm()
    if mode == "replay":
        case = json.loads(open(a["--file"]).read().split("\n#")[0])
        v, h, _ = sim.execute(case["case"])
        print(json.dumps({"class": v[0] if v else None, "msg": v[1] if v else None, "hash": h.hex()}))
        if v is None:
            sys.exit(0)
        sys.exit(1 if list(v) == case["violation"] else 3)
    first, stride, mx, tmax = int(a["--first"]), int(a["--stride"]), int(a["--max"]), float(a["--time"])
    out, ident, audit, stop = a["--out"], a["--id"], int(a["--audit"]), int(a["--stop"])
    t0 = time.time()
    known = [l.split("\t", 1) for l in os.environ.get("SIM_KNOWN", "").split("\n") if "\t" in l]
    counters, states, hashes, samples, viols, divseeds = {}, set(), set(), [], [], []
    runs = steps = audited = 0
    for k in range(mx):
        if time.time() - t0 > tmax:
            break
        seed = first + k * stride
        case = jsonable(generate(seed, prof))
        v, h, st = sim.execute(case, counters, states)
        runs += 1
        steps += st
        hashes.add(h)
        if len(samples) < 2:
            samples.append(json.dumps(case)[:1500])
        if v and any(v[0] == c and m in v[1] for c, m in known):
            counters["known_finding_hits"] = counters.get("known_finding_hits", 0) + 1
            continue
        if v is None and audit and k % max(1, mx // audit) == 0:
            audited += 1
            one = getattr(sim, "last", None)
            _, h2, _ = sim.execute(case)
            if h2 != h:
                divseeds.append(seed)
                if os.environ.get("PYSIM_DIV") and one:
                    for pi, ((a, ea), (b, eb)) in enumerate(zip(one, sim.last)):
                        for ji, (x, y) in enumerate(zip(a, b)):
                            if digest([x]) != digest([y]):
                                print("DIV", seed, case["mt"], pi, ji, ea, eb, [(q, str(x.get(q))[:700], str(y.get(q))[:700]) for q in x if repr(x.get(q)) != repr(y.get(q))], file=sys.stderr)
        if v:
            small = shrink(sim, case, v, float(os.environ.get("PYSIM_SHRINK", "40")))
            trace = []
            v2, h2, _ = sim.execute(small, trace=trace)
            if not v2 or v2[0] != v[0]:
                small, v2, trace = case, v, []
            f = os.path.join(out, "py-%d-%d.json" % (prof, seed))
            with open(f, "w") as fh:
                fh.write(json.dumps(dict(violation=list(v2), profile=prof, case=small, schedule=[t[-400:] for t in trace]), indent=None) + "\n")
            viols.append({"class": v2[0], "msg": v2[1], "seed": seed, "replay": f, "ops_before": ncase(case), "ops_after": ncase(small)})
            if len(viols) >= stop:
                break
    for pat, s in (("hashes", hashes), ("states", states)):
        with open(os.path.join(out, "%s-%s" % (pat, ident)), "wb") as fh:
            fh.write(b"".join(sorted(s)))
    print(json.dumps(dict(runs=runs, steps=steps, audited=audited, diverged=len(divseeds), divseeds=divseeds[:5], wall=time.time() - t0,
                          nviol=len(viols), counters=counters, samples=samples, violations=viols)))


if __name__ == "__main__":
    main()
