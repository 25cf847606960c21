"""Random circuits, their qiskit form, and an exact reference (branching state vectors over classical results)."""
import math
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Parameter, Clbit, Qubit
from qiskit.circuit import library as L

# name -> (qubits, parameters, constructor)
GATES = {
    "h": (1, 0, L.HGate), "x": (1, 0, L.XGate), "y": (1, 0, L.YGate), "z": (1, 0, L.ZGate), "s": (1, 0, L.SGate),
    "sdg": (1, 0, L.SdgGate), "t": (1, 0, L.TGate), "tdg": (1, 0, L.TdgGate), "id": (1, 0, L.IGate),
    "sx": (1, 0, L.SXGate), "sxdg": (1, 0, L.SXdgGate),
    "rx": (1, 1, L.RXGate), "ry": (1, 1, L.RYGate), "rz": (1, 1, L.RZGate), "p": (1, 1, L.PhaseGate),
    "r": (1, 2, L.RGate), "u": (1, 3, L.UGate),
    "cx": (2, 0, L.CXGate), "cy": (2, 0, L.CYGate), "cz": (2, 0, L.CZGate), "csx": (2, 0, L.CSXGate),
    "cp": (2, 1, L.CPhaseGate), "crx": (2, 1, L.CRXGate), "cry": (2, 1, L.CRYGate), "crz": (2, 1, L.CRZGate),
    "cu1": (2, 1, L.CU1Gate), "cu3": (2, 3, L.CU3Gate), "cu": (2, 4, L.CUGate),
    "swap": (2, 0, L.SwapGate), "iswap": (2, 0, L.iSwapGate),
    "rxx": (2, 1, L.RXXGate), "ryy": (2, 1, L.RYYGate), "rzz": (2, 1, L.RZZGate), "rzx": (2, 1, L.RZXGate),
    "ccx": (3, 0, L.CCXGate), "cswap": (3, 0, L.CSwapGate),
    "c3x": (4, 0, L.C3XGate), "c4x": (5, 0, L.C4XGate),
    "cx0": (2, 0, lambda: L.CXGate(ctrl_state=0)), "ccx1": (3, 0, lambda: L.CCXGate(ctrl_state=1)), "cry0": (2, 1, lambda t: L.CRYGate(t, ctrl_state=0)),
    "mcx5": (6, 0, lambda: L.MCXGate(5)), "mcp2": (3, 1, lambda t: L.MCPhaseGate(t, 2)), "mcp3": (4, 1, lambda t: L.MCPhaseGate(t, 3)),
}
OPEN = ("cx0", "ccx1", "cry0")  # controls on |0>: refused unless transpiled


def gate(name):
    """(qubits, parameters, constructor); mcx:k and mcp:k have k controls"""
    if name[:4] in ("mcx:", "mcp:"):
        k = int(name[4:])
        return (k + 1, 0, lambda: L.MCXGate(k)) if name[2] == "x" else (k + 1, 1, lambda t: L.MCPhaseGate(t, k))
    return GATES[name]


def value(v, binds):
    """parameters are numbers, names, or simple expressions over one name: -p0, 2*p0+1"""
    if not isinstance(v, str):
        return v
    if v[0] == "-":
        return -binds[v[1:]]
    if v[0] == "2":
        return 2 * binds[v[2:-2]] + 1
    return binds[v]


COMMON = ["h", "h", "h", "x", "cx", "cx", "ry", "u", "rz", "t", "cp", "ccx", "swap", "rxx"]


def unitary(k, seed):
    r = np.random.Generator(np.random.PCG64(seed))
    a = r.normal(size=(2 ** k, 2 ** k)) + 1j * r.normal(size=(2 ** k, 2 ** k))
    q, _ = np.linalg.qr(a)
    return q


def angle(rng):
    k = rng.below(6)
    if k == 0:
        return rng.below(17) * math.pi / 8 - math.pi
    if k == 1:
        return 0.0
    return (rng.below(20001) - 10000) / 10000.0 * 2 * math.pi


class Rng:
    """splitmix64: the only source of choices of a case"""
    M = (1 << 64) - 1

    def __init__(self, seed):
        self.s = seed & self.M

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & self.M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & self.M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & self.M
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n

    def chance(self, pct):
        return self.below(100) < pct

    def pick(self, l):
        return l[self.below(len(l))]

    def sample(self, l, k):
        l = list(l)
        out = []
        for _ in range(k):
            out.append(l.pop(self.below(len(l))))
        return out


def gen_qdd(rng, n, cnd=None):
    """a QDDGate: a merged circuit, appended to some qubits in some order; the number says which of a process' gates of this
    content is meant, so that one gate is used again in later circuits and jobs (None: a new one)"""
    kk = n if rng.chance(40) else 1 + rng.below(n)
    ql = list(range(n))[:kk] if rng.chance(25) else rng.sample(range(n), kk)
    ops = pool_ops(kk, rng.below(3)) if rng.chance(40) else gen_ops(rng, kk, 1 + rng.below(4) if rng.chance(75) else 20 + rng.below(15))
    return ["q", ops, ql, rng.below(2) if rng.chance(70) else None, cnd]


def pool_ops(k, i):
    """a few fixed contents, so that they come up again"""
    return gen_ops(Rng(1000 * k + i), k, 2 + 11 * i)


EXOTIC = ("comp", "delay", "if")


def flat(ops):
    """in terms of g, u, b, m, r, bad only"""
    out = []
    for o in ops:
        if o[0] in ("q", "comp", "if"):
            for g in o[1]:
                out.append(["g", g[1], g[2], [o[2][x] for x in g[3]], o[-1]])
        elif o[0] != "delay":
            out.append(o)
    return out


def gen(rng, nmin=1, nmax=5, dyn=None, depth=None, params=0, measure=True, qdd=True, exotic=True):
    """dyn: None = decide, False = only final measurements, True = mid-circuit measurements, resets, conditions."""
    n = nmin + rng.below(nmax - nmin + 1)
    if dyn is None:
        dyn = rng.chance(60)
    nc = rng.pick([1, n, n, n + 1, 2, 3]) if measure else 0
    nc = min(nc, 6)
    regs = []
    left = nc
    while left:
        k = 1 + rng.below(left) if rng.chance(60) else left
        regs.append(k)
        left -= k
    qregs = [n]
    if n > 1 and rng.chance(25):
        k = 1 + rng.below(n - 1)
        qregs = [k, n - k]
    c = dict(n=n, qregs=qregs, cregs=regs, ops=[], gphase=angle(rng) if rng.chance(25) else 0.0)
    if len(regs) and rng.chance(8):
        c["loose"] = True  # classical bits outside any register
    ops = c["ops"]
    nops = depth or (2 + rng.below(12))
    budget = 5  # branching instructions
    if rng.chance(70):
        for q in range(n):
            if rng.chance(60):
                ops.append(["g", "h", [], [q], None])

    def cond():
        if not nc or not rng.chance(40):
            return None
        if c.get("loose") or rng.chance(50):
            return ["bit", rng.below(nc), rng.below(2)]
        r = rng.below(len(regs))
        return ["reg", r, rng.below(2 ** regs[r]) if rng.chance(60) else rng.below(2)]

    pcount = 0
    for _ in range(nops):
        k = rng.below(100)
        cnd = cond() if dyn else None
        if dyn and nc and k < 14 and budget:
            budget -= 1
            ops.append(["m", rng.below(n), rng.below(nc), cnd if rng.chance(50) else None])
        elif dyn and k < 20 and budget:
            budget -= 1
            ops.append(["r", rng.below(n), cnd if rng.chance(30) else None])
        elif k < 24:
            ops.append(["b"])
        elif k < 32:
            kk = 1 + rng.below(min(3, n))
            ops.append(["u", rng.sample(range(n), kk), rng.below(1 << 31), cnd])
        elif k < 36 and qdd:
            ops.append(gen_qdd(rng, n, cnd))
        elif k < 37 and exotic:  # what the backend may refuse, but may not get wrong
            kk = 1 + rng.below(min(4, n))
            x = rng.below(3)
            if x == 0:
                ops.append(["comp", gen_ops(rng, kk, 1 + rng.below(3)), rng.sample(range(n), kk), None])
            elif x == 1:
                ops.append(["delay", rng.below(n), None])
            elif nc:
                ops.append(["if", gen_ops(rng, kk, 1 + rng.below(3)), rng.sample(range(n), kk), ["bit", rng.below(nc), rng.below(2)]])
        else:
            g = gen_gate(rng, n)
            g[4] = cnd
            if params and pcount < params and g[2] and rng.chance(60):
                g[2][0] = rng.pick(["p%d", "p%d", "p%d", "-p%d", "2*p%d+1"]) % pcount
                pcount += 1
            ops.append(g)
    if measure:
        final = rng.below(4)
        used = [o for o in ops if o[0] == "m"]
        if final < 3 or not used:
            for q, b in zip(rng.sample(range(n), n), rng.sample(range(nc), nc)):
                if rng.chance(85) or b == 0 or not used:
                    ops.append(["m", q, b, None])
                    used.append(1)
            if rng.chance(20):
                ops.append(["m", rng.below(n), rng.below(nc), None])
    if params and rng.chance(15):  # a global phase that is a parameter
        c["gphase"] = rng.pick(["p%d", "-p%d", "2*p%d+1"]) % max(0, pcount - 1)
        pcount = max(pcount, 1)
    c["params"] = pcount
    return c


def gen_wide(rng, nmin=6, nmax=60, dyn=None, measure=True, params=0):
    """many qubits (and possibly many classical bits), few of them in superposition"""
    n = rng.pick([nmin, nmin + 1, nmin + rng.below(nmax - nmin + 1), nmin + rng.below(min(12, nmax - nmin + 1))])
    if dyn is None:
        dyn = rng.chance(50)
    nc = rng.pick([1, 3, 8, n, n, 64 + rng.below(6) if n > 20 else n]) if measure else 0
    regs, left = [], nc
    while left:
        k = left if rng.chance(50) else 1 + rng.below(left)
        regs.append(k)
        left -= k
    qregs = [n]
    if rng.chance(30):
        k = 1 + rng.below(n - 1)
        qregs = [k, n - k]
    c = dict(n=n, qregs=qregs, cregs=regs, ops=[], gphase=angle(rng) if rng.chance(25) else 0.0, wide=1)
    ops = c["ops"]
    budget = 6  # instructions that multiply the number of amplitudes or branches
    pcount = 0

    def cond():
        if not nc or not dyn or not rng.chance(35):
            return None
        if rng.chance(50):
            return ["bit", rng.below(nc), rng.below(2)]
        i = rng.below(len(regs))
        return ["reg", i, rng.below(2 ** min(regs[i], 3)) if rng.chance(80) else 1 << (regs[i] - 1)]
    for _ in range(4 + rng.below(22)):
        k = rng.below(100)
        if k < 20 and budget:
            budget -= 1
            a = [angle(rng)]
            if pcount < params and rng.chance(60):
                a, pcount = [rng.pick(["p%d", "-p%d", "2*p%d+1"]) % pcount], pcount + 1
            g = rng.pick([["g", "h", [], [rng.below(n)], None], ["g", "ry", a, [rng.below(n)], None], ["g", "rxx", a, rng.sample(range(n), 2), None],
                          ["g", "crx", a, rng.sample(range(n), 2), None], ["g", "sx", [], [rng.below(n)], None], ["u", rng.sample(range(n), 1), rng.below(1 << 31), None]])
            g[-1] = cond()
            ops.append(g)
        elif k < 45:
            m = 1 + rng.below(min(n - 1, rng.pick([3, 6, 60])))
            ops.append(["g", "mcx:%d" % m if rng.chance(70) else "mcp:%d" % m, [], rng.sample(range(n), m + 1), cond()])
            if ops[-1][1][2] == "p":
                ops[-1][2] = [angle(rng)]
        elif k < 75:
            name = rng.pick(["x", "x", "x", "cx", "cx", "cx", "swap", "ccx", "cswap", "t", "cz", "rz", "iswap", "cp", "rzz", "y"])
            kk, p, _ = gate(name)
            ops.append(["g", name, [angle(rng) for _ in range(p)], rng.sample(range(n), kk), cond()])
        elif k < 80:
            ops.append(["b"])
        elif dyn and nc and budget and k < 92:
            budget -= 1
            ops.append(["m", rng.below(n), rng.below(nc), cond() if rng.chance(40) else None])
        elif dyn and budget:
            budget -= 1
            ops.append(["r", rng.below(n), cond() if rng.chance(30) else None])
    if measure:
        for q, b in zip(rng.sample(range(n), n), rng.sample(range(nc), nc)):
            if rng.chance(85):
                ops.append(["m", q, b, None])
        ops.append(["m", rng.below(n), rng.below(nc), None])
    c["params"] = pcount
    return c


def gen_gate(rng, n):
    while True:
        name = rng.pick(COMMON) if rng.chance(60) else rng.pick(sorted(GATES))
        k, p, _ = GATES[name]
        if name in OPEN and rng.chance(70):
            continue
        if k <= n:
            return ["g", name, [angle(rng) for _ in range(p)], rng.sample(range(n), k), None]


def gen_ops(rng, n, k):
    return [gen_gate(rng, n) for _ in range(k)]


def size(c):
    return len(c["ops"])


def build(c, mk_qdd=None, name="c"):
    """case description -> QuantumCircuit"""
    qrs = [QuantumRegister(k, "q%d" % i) for i, k in enumerate(c["qregs"])]
    crs = [ClassicalRegister(k, "c%d" % i) for i, k in enumerate(c["cregs"])]
    nc = sum(c["cregs"])
    if c.get("loose"):
        qc = QuantumCircuit(*qrs, [Clbit() for _ in range(nc)], name=name)
    else:
        qc = QuantumCircuit(*qrs, *crs, name=name)
    P = {}

    def par(v):
        if isinstance(v, str):
            if v[0] == "-":
                return -par(v[1:])
            if v[0] == "2":
                return 2 * par(v[2:-2]) + 1
            return P.setdefault(v, Parameter(v))
        return v
    qc.global_phase = par(c["gphase"])
    for o in c["ops"]:
        if o[0] == "g":
            g = gate(o[1])[2](*[par(v) for v in o[2]])
            q, cnd = o[3], o[4]
        elif o[0] == "u":
            g, q, cnd = L.UnitaryGate(unitary(len(o[1]), o[2])), o[1], o[3]
        elif o[0] == "b":
            qc.barrier()
            continue
        elif o[0] == "m":
            if o[3] is None:
                qc.measure(o[1], o[2])
                continue
            from qiskit.circuit import Measure
            g = cnd_gate(Measure(), o[3], qc, crs)
            qc.append(g, [o[1]], [o[2]])
            continue
        elif o[0] == "r":
            from qiskit.circuit import Reset
            g, q, cnd = Reset(), [o[1]], o[2]
        elif o[0] == "q":
            g, q, cnd = mk_qdd(len(o[2]), o[1], o[3]), o[2], o[4]
        elif o[0] == "delay":
            qc.delay(100, o[1])
            continue
        elif o[0] in ("comp", "if"):
            sub = QuantumCircuit(len(o[2]), name="sub")
            for h in o[1]:
                sub.append(gate(h[1])[2](*[par(v) for v in h[2]]), h[3])
            if o[0] == "if":
                qc.if_test((qc.clbits[o[3][1]], o[3][2]), sub, [qc.qubits[x] for x in o[2]], [])
                continue
            g, q, cnd = sub.to_gate(), o[2], None
        elif o[0] == "bad":
            bad(qc, o)
            continue
        g = cnd_gate(g, cnd, qc, crs)
        qc.append(g, q)
    return qc


def bad(qc, o):
    """an instruction the backend cannot execute"""
    k = o[1]
    if k == "unbound":
        qc.rx(Parameter("never_bound_%d" % len(qc.data)), 0)
    elif k == "unsup":
        from qiskit.circuit import Gate
        qc.append(Gate("mystery", 1, []), [0])
    elif k == "unsupcond":   # fails only in the shots in which the condition holds
        from qiskit.circuit import Gate
        qc.append(Gate("mystery", 1, []).c_if(qc.clbits[o[2] % len(qc.clbits)], o[3]), [0])
    elif k == "init":
        qc.initialize([0.6, 0.8], 0)


def cnd_gate(g, cnd, qc, crs):
    if cnd is None:
        return g
    if cnd[0] == "bit":
        return g.to_mutable().c_if(qc.clbits[cnd[1]], cnd[2])
    return g.to_mutable().c_if(crs[cnd[1]], cnd[2])


def apply(v, U, qs, n):
    """U acts on qubits qs (qs[0] = least significant of U); v little-endian of n qubits"""
    k = len(qs)
    t = v.reshape([2] * n)                       # axis a <-> qubit n-1-a
    axes = [n - 1 - q for q in reversed(qs)]     # most significant of U first
    t = np.moveaxis(t, axes, range(k)).reshape(2 ** k, -1)
    t = (U @ t).reshape([2] * n)
    return np.moveaxis(t, range(k), axes).reshape(-1)


def op_matrix(o, binds):
    if o[0] == "g" and o[1].startswith("mcp"):
        k = gate(o[1])[0]
        return np.diag([1.0] * (2 ** k - 1) + [np.exp(1j * value(o[2][0], binds))]), o[3]
    if o[0] == "g" and o[1].startswith("mcx"):
        k = gate(o[1])[0]
        U = np.eye(2 ** k, dtype=complex)
        a, b = 2 ** (k - 1) - 1, 2 ** k - 1
        U[[a, b]] = U[[b, a]]
        return U, o[3]
    if o[0] == "g":
        return gate(o[1])[2](*[value(v, binds) for v in o[2]]).to_matrix(), o[3]
    return unitary(len(o[1]), o[2]), o[1]


DENSE = 11  # wider states are kept as dictionaries


def sp_op(o, binds):
    """controls, matrix, targets (for dictionaries of amplitudes)"""
    if o[0] == "g" and (o[1][:3] in ("mcx", "mcp") or o[1] in ("c3x", "c4x")):
        M = np.diag([1, np.exp(1j * value(o[2][0], binds))]) if o[1][:3] == "mcp" else np.array([[0, 1], [1, 0]])
        return o[3][:-1], M, o[3][-1:]
    U, qs = op_matrix(o, binds)
    return [], U, qs


def sp_apply(v, op):
    ctl, U, qs = op
    cm = sum(1 << q for q in ctl)
    tm = sum(1 << q for q in qs)
    spread = [sum(1 << q for i, q in enumerate(qs) if row >> i & 1) for row in range(U.shape[0])]
    out = {}
    for x, a in v.items():
        if x & cm != cm:
            out[x] = out.get(x, 0) + a
            continue
        col = sum(((x >> q) & 1) << i for i, q in enumerate(qs))
        x &= ~tm
        for row in range(U.shape[0]):
            u = U[row, col]
            if u != 0:
                y = x | spread[row]
                out[y] = out.get(y, 0) + u * a
    return {x: a for x, a in out.items() if abs(a) > 1e-14}


def norm2(v):
    if isinstance(v, dict):
        return sum(abs(a) ** 2 for a in v.values())
    return np.vdot(v, v).real


def reference(c, binds=None):
    """exact: list of (classical bits tuple, unnormalised vector)"""
    n, nc = c["n"], sum(c["cregs"])
    sparse = n > DENSE
    if sparse:
        v = {0: 1.0}
    else:
        v = np.zeros(2 ** n, complex)
        v[0] = 1
        idx = np.arange(2 ** n)
    br = [(tuple([0] * nc), v)]
    offs = np.cumsum([0] + c["cregs"])

    def holds(cnd, b):
        if cnd is None:
            return True
        if cnd[0] == "bit":
            return b[cnd[1]] == cnd[2]
        lo, k = offs[cnd[1]], c["cregs"][cnd[1]]
        return sum(b[lo + i] << i for i in range(k)) == cnd[2]
    def ap(o):
        if sparse:
            op = sp_op(o, binds)
            return lambda x: sp_apply(x, op)
        U, qs = op_matrix(o, binds)
        return lambda x: apply(x, U, qs, n)
    for o in flat(c["ops"]):
        if o[0] == "b":
            continue
        if o[0] in ("g", "u"):
            f = ap(o)
            br = [(b, f(x) if holds(o[-1], b) else x) for b, x in br]
            continue
        q = o[1]
        new = []
        for b, x in br:
            if not holds(o[-1], b):
                new.append((b, x))
                continue
            one = None if sparse else (idx >> q) & 1 == 1
            for val in (0, 1):
                y = {k: a for k, a in x.items() if (k >> q) & 1 == val} if sparse else np.where(one == bool(val), x, 0)
                if norm2(y) < 1e-14:
                    continue
                if o[0] == "r":
                    if val:
                        y = {k ^ (1 << q): a for k, a in y.items()} if sparse else y[idx ^ (1 << q)]
                    new.append((b, y))
                else:
                    bb = list(b)
                    bb[o[2]] = val
                    new.append((tuple(bb), y))
        br = new
    ph = np.exp(1j * value(c["gphase"], binds))
    return [(b, {k: ph * a for k, a in x.items()} if sparse else ph * x) for b, x in br]


def dist(ref):
    """classical string (qiskit order, no spaces) -> probability"""
    d = {}
    for b, x in ref:
        k = "".join(str(v) for v in reversed(b))
        d[k] = d.get(k, 0.0) + norm2(x)
    return d


def log_tail_bound(counts, probs):
    """rigorous bound: ln P(empirical KL >= observed) for a multinomial with known probabilities"""
    N = sum(counts.values())
    keys = [k for k in probs if probs[k] > 0]
    kl = 0.0
    for k in keys:
        o = counts.get(k, 0)
        if o:
            kl += o / N * math.log(o / N / probs[k])
    m = len(keys)
    return math.lgamma(N + m) - math.lgamma(m) - math.lgamma(N + 1) - N * kl


LIMIT = math.log(1e-13)


def check_samples(memory, d):
    """memory: list of outcome strings in shot order.  Returns None or (class, message)."""
    N = len(memory)
    counts = {}
    for s in memory:
        counts[s] = counts.get(s, 0) + 1
    for s in sorted(counts):
        if d.get(s, 0.0) < 1e-9:
            return ("impossible-result", "result %s occurred %d times in %d shots, exact probability %.3g" % (s, counts[s], N, d.get(s, 0.0)))
    tests = [("all bits", counts, d)]
    nb = len(memory[0])
    some = list(range(nb)) if nb <= 8 else sorted({i * nb // 7 for i in range(7)} | {nb - 1})
    fs = [("bit %d" % i, (lambda s, i=i: s[nb - 1 - i])) for i in range(nb)]
    fs += [("bits %d,%d" % (i, j), (lambda s, i=i, j=j: s[nb - 1 - i] + s[nb - 1 - j])) for i in some for j in some if j < i]
    for name, f in fs:
        a, b = {}, {}
        for s, k in counts.items():
            a[f(s)] = a.get(f(s), 0) + k
        for s, p in d.items():
            b[f(s)] = b.get(f(s), 0.0) + p
        tests.append((name, a, b))
    # independence: successive pairs (two disjoint sets of pairs), every bit of one shot against every bit of the next
    if N >= 40:
        for off in (0, 1):
            pairs = [(memory[i], memory[i + 1]) for i in range(off, N - 1, 2)]
            for i in some:
                for j in some:
                    pi = sum(p for s, p in d.items() if s[nb - 1 - i] == "1")
                    pj = sum(p for s, p in d.items() if s[nb - 1 - j] == "1")
                    a = {}
                    for s, t in pairs:
                        k = s[nb - 1 - i] + t[nb - 1 - j]
                        a[k] = a.get(k, 0) + 1
                    b = {"00": (1 - pi) * (1 - pj), "01": (1 - pi) * pj, "10": pi * (1 - pj), "11": pi * pj}
                    if all(b[k] > 1e-9 for k in a):
                        tests.append(("bit %d of a shot and bit %d of the next" % (i, j), a, {k: p for k, p in b.items() if p > 1e-12}))
            same = sum(1 for s, t in pairs if s == t)
            ps = sum(p * p for p in d.values())
            if 0 < ps < 1 - 1e-9:
                tests.append(("equality of successive shots", {"same": same, "diff": len(pairs) - same}, {"same": ps, "diff": 1 - ps}))
    for name, a, b in tests:
        lb = log_tail_bound(a, b)
        if lb < LIMIT:
            return ("wrong-distribution", "%s: observed %s of %d, expected %s (ln p < %.1f)" % (
                name, dict(sorted(a.items())), sum(a.values()), {k: round(v, 4) for k, v in sorted(b.items())}, lb))
    return None
