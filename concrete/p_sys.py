"""Bounded oracles for the system-level properties C18-C21."""
import itertools, random
from lib import *
from p_dec import decoders


# ---------------------------------------------------------------- Pauli frames
class Frames:
    """many Pauli errors at once through a Clifford circuit: bit j of x[q], z[q]: error j now acts as X, Z on q;
    bit j of flip[c]: error j flips classical bit c"""

    def __init__(self): self.x, self.z, self.flip = {}, {}, {}

    def add(self, j, q, pauli):
        if pauli in "XY": self.x[q] = self.x.get(q, 0) ^ (1 << j)
        if pauli in "ZY": self.z[q] = self.z.get(q, 0) ^ (1 << j)

    def run(self, insts):
        x, z = self.x, self.z
        for inst in insts:
            op, qs = inst.operation, inst.qubits
            c = getattr(op, "condition", None)
            n = op.name
            if c is not None:
                bits = list(c[0]) if hasattr(c[0], "__len__") else [c[0]]
                m = self.flip.get(bits[0], 0)
                if len(bits) != 1 or n not in ("x", "y", "z"):
                    if any(self.flip.get(b, 0) for b in bits): raise UnsupportedOp("conditioned " + n)
                else:
                    if n in ("x", "y"): x[qs[0]] = x.get(qs[0], 0) ^ m
                    if n in ("z", "y"): z[qs[0]] = z.get(qs[0], 0) ^ m
                    continue
            if n in ("barrier", "id", "x", "y", "z"): continue
            a = qs[0]
            b = qs[1] if len(qs) > 1 else None
            for q in qs: x.setdefault(q, 0); z.setdefault(q, 0)
            if n == "h": x[a], z[a] = z[a], x[a]
            elif n in ("s", "sdg"): z[a] ^= x[a]
            elif n == "cx": x[b] ^= x[a]; z[a] ^= z[b]
            elif n == "cz": z[b] ^= x[a]; z[a] ^= x[b]
            elif n == "swap": x[a], x[b], z[a], z[b] = x[b], x[a], z[b], z[a]
            elif n == "reset": x[a] = z[a] = 0
            elif n == "measure":
                self.flip[inst.clbits[0]] = x[a]; z[a] = 0
            else: raise UnsupportedOp(n)


def effects(code, h, w, which):
    """for every single-qubit Pauli on a data qubit: (qubit, pauli, flipped checks, does it flip the readout)"""
    tq = make(code, h, w)
    data = qubits_of(tq, "data")
    gens = [(q, p) for q in range(len(data)) for p in "XZY"]
    out = []
    for what in ("stabilize", "readout_" + which):
        start, nb = len(tq.circ.data), len(tq.circ.clbits)
        getattr(tq, what)()
        f = Frames()
        for j, (q, p) in enumerate(gens): f.add(j, data[q], p)
        f.run(tq.circ.data[start:])
        out.append([f.flip.get(b, 0) for b in tq.circ.clbits[nb:]])
    syn, ro = out
    need(len(ro) == 1, "readout_%s writes %d bits" % (which, len(ro)))
    # a logical operator's own effect (it must attain the bound)
    start = len(tq.circ.data)
    getattr(tq, {"z": "x", "x": "z"}[which])()
    own = [(data.index(i.qubits[0]), i.operation.name.upper()) for i in tq.circ.data[start:] if i.operation.name in ("x", "y", "z") and i.qubits[0] in data]
    cols = [0] * len(gens)
    for k, m in enumerate(syn):
        while m:
            low = m & -m; cols[low.bit_length() - 1] |= 1 << k; m ^= low
    return gens, cols, [ro[0] >> j & 1 for j in range(len(gens))], own


def cases_C18(tier, rng, hints):
    big = [tuple(s) for s in hints if s[0] * s[1] <= 450]
    L = big + geo.sizes(5) + [(1, 7), (7, 1), (3, 7), (7, 3), (7, 5), (5, 7), (7, 7), (9, 1), (1, 9), (9, 3), (3, 9), (15, 1), (1, 15), (13, 3), (3, 13), (9, 9), (11, 5), (5, 11)]
    if tier != "quick": L += [(15, 15), (21, 1), (1, 21), (9, 7), (7, 9), (11, 11), (13, 13), (17, 5), (5, 17)]
    for h, w in L:
        if (h, w) == (1, 1) or h % 2 == 0 or w % 2 == 0: continue
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, cap=200000 if tier == "quick" else 3000000)


def light_logical(gens, cols, ro, bound, cap):
    """a Pauli error on fewer than bound qubits that flips no check but the readout; None if there is none (exhaustive up to cap, plus
    all chains of errors that flip at most two checks each, at any weight)"""
    n = len(gens)
    # chains
    adj = {}
    for j in range(n):
        m = cols[j]
        c = bin(m).count("1")
        if c > 2: continue
        if c == 0:
            if ro[j] and bound > 1: return [j]
            continue
        a = (m & -m).bit_length() - 1
        b = m.bit_length() - 1 if c == 2 else -1
        adj.setdefault(a, []).append((b, ro[j], j)); adj.setdefault(b, []).append((a, ro[j], j))
    starts = list(adj) if len(adj) * n < 600000 else ([-1] if -1 in adj else list(adj)[:20])
    for s in starts:
        prev = {(s, 0): None}
        todo = [(s, 0)]
        depth = 0
        while todo and depth < bound:
            depth += 1
            nxt = []
            for v, par in todo:
                for u, f, j in adj.get(v, ()):
                    k = (u, par ^ f)
                    if k in prev: continue
                    prev[k] = (v, par, j); nxt.append(k)
            todo = nxt
            if (s, 1) in prev: break
        if (s, 1) in prev:
            E, k = [], (s, 1)
            while prev[k] is not None:
                v, par, j = prev[k]; E.append(j); k = (v, par)
            if len(set(gens[j][0] for j in E)) < bound: return E
    # all errors of small weight: meet in the middle over (checks, readout)
    sig = [cols[j] | (ro[j] << 100000) for j in range(n)]
    bit = 1 << 100000
    seen, lists = {}, []
    total = 0
    for k in range(0, (bound - 1) // 2 + 1 + (bound - 1) % 2):
        cnt = 0
        new = {}
        import math
        total += math.comb(n, k)
        if total > cap: break
        for E in itertools.combinations(range(n), k):
            if len({gens[j][0] for j in E}) < k: continue
            s = 0
            for j in E: s ^= sig[j]
            o = seen.get(s ^ bit)
            if o is None: o = new.get(s ^ bit)
            if o is not None and len({gens[j][0] for j in E} | {gens[j][0] for j in o}) < bound: return list(E) + list(o)
            new.setdefault(s, E)
        for s, E in new.items(): seen.setdefault(s, E)
    return None


def run_C18(c):
    code, h, w = c["code"], c["h"], c["w"]
    for which, bound in (("z", h), ("x", w)):
        gens, cols, ro, own = effects(code, h, w, which)
        E = light_logical(gens, cols, ro, bound, c["cap"])
        need(E is None, "an error on %d data qubits flips no check but readout_%s (bound %d): %s" % (len(set(gens[j][0] for j in E or ())), which, bound, [gens[j] for j in E or ()]))
        s, f = 0, 0
        ix = {g: j for j, g in enumerate(gens)}
        for g in own: s ^= cols[ix[g]]; f ^= ro[ix[g]]
        need(len(own) == bound and s == 0 and f == 1, "logical %s acts on %d qubits (not %d), flips checks %s and the readout %d" % ({"z": "x", "x": "z"}[which], len(own), bound, bin(s), f))


# ---------------------------------------------------------------- C19
def cases_C19(tier, rng, hints):
    L = [(3, 3), (3, 1), (1, 3), (5, 1), (1, 5), (5, 3), (3, 5), (5, 5), (7, 1), (1, 7), (7, 3), (3, 7), (9, 1), (1, 9), (7, 5), (5, 7), (9, 3), (3, 9), (11, 1), (1, 11), (7, 7), (13, 1), (1, 13)]
    big = [tuple(s) for s in hints if tuple(s) not in L and s[0] * s[1] <= 121]
    for h, w in big[:3]:
        for code in codes_for(h, w):
            for t in "ZX":
                if (h if t == "Z" else w) < 3 or (code == "REP" and t != ("Z" if w == 1 else "X")): continue
                yield dict(code=code, h=h, w=w, T=1 if h * w > 63 else 2, type=t, lattice=True, seed=rng.randrange(10 ** 9), cap=60)
    for h, w, T in ((3, 3, 34), (3, 1, 60), (1, 3, 60), (5, 5, 12)):
        for code in codes_for(h, w):
            for t in "ZX":
                if (h if t == "Z" else w) < 3 or (code == "REP" and t != ("Z" if w == 1 else "X")): continue
                yield dict(code=code, h=h, w=w, T=T, type=t, lattice=True, seed=rng.randrange(10 ** 9), cap=30)
    for cap in ((40, 120) if tier == "quick" else (40, 400, 2000)):
        for h, w in L:
            for code in codes_for(h, w):
                for t in "ZX":
                    if (h if t == "Z" else w) < 3 or (code == "REP" and t != ("Z" if w == 1 else "X")): continue
                    for T in ((1, 2, 3, 4, 5) if h * w <= 15 else (1, 2, 3) if h * w <= 27 else (2,)):
                        yield dict(code=code, h=h, w=w, T=T, type=t, lattice=rng.random() < 0.7 or T == 1, seed=rng.randrange(10 ** 9), cap=cap)


def run_C19(c):
    code, h, w, T, t = c["code"], c["h"], c["w"], c["T"], c["type"]
    rng = random.Random(c["seed"])
    tq = make(code, h, w)
    circ, data = tq.circ, qubits_of(tq, "data")
    d = h if t == "Z" else w
    flip = {"Z": "x", "X": "z"}[t]
    if rng.random() < 0.4: ops_on(tq, [rng.choice(["x", "z", "id", "reset_x", "reset_z"])])
    getattr(tq, "reset_" + t.lower())()
    val = 0
    def between():
        nonlocal val
        for _ in range(rng.choice([0, 0, 1, 2])):
            op = rng.choice(["x", "z", "id", "id_data"])
            getattr(tq, op)()
            val ^= op == flip
    rounds = []          # (position in the circuit before the round, its classical bits)
    R = T if c["lattice"] else T + 1
    for i in range(R):
        between()
        pos, nb = len(circ.data), len(circ.clbits)
        tq.stabilize()
        rounds.append((pos, circ.clbits[nb:]))
        need(len(circ.clbits) - nb == h * w - 1, "round", i, "adds", len(circ.clbits) - nb, "bits")
    between()
    last = len(circ.data)
    getattr(tq, ("lattice_readout_" if c["lattice"] else "readout_") + t.lower())()
    # the faults: data qubit errors before round 2..R (and before the lattice readout), outcomes of the rounds 2..R (2..R-1 for a logical readout)
    places = [p for p, _ in rounds[1:]] + ([last] if c["lattice"] else [])
    F = [("d", p, q, P) for p in range(len(places)) for q in range(h * w) for P in "XYZ"]
    nm = len(rounds) - (1 if c["lattice"] else 2)
    F += [("m", i + 1, k, "") for i in range(nm) for k in range(h * w - 1)]
    fr = Frames()
    col = {f: j for j, f in enumerate(F)}
    todo = sorted(set(places))
    at = 0
    for pi, pos in enumerate(places):
        fr.run(circ.data[at:pos]); at = pos
        for q in range(h * w):
            for P in "XYZ": fr.add(col[("d", pi, q, P)], data[q], P)
    fr.run(circ.data[at:])
    for f in F:
        if f[0] == "m":
            b = rounds[f[1]][1][f[2]]
            fr.flip[b] = fr.flip.get(b, 0) ^ (1 << col[f])
    # the fault-free run, outcomes as affine forms in free coin tosses
    tab = Tableau()
    qm, cb = {}, {}
    run_circuit(tab, circ, qm, cb)
    decs = [(n, D) for n, D, keys in decoders(h, w, T) if t in keys and (code == "REP") == (n in ("rep", "repi"))]
    need(bool(decs), "no decoder")

    def string(E):
        coin = rng.getrandbits(max(1, tab.nsym)) | 1
        m = 0
        for f in E: m |= 1 << col[f]
        chunks = []
        for reg in reversed(circ.cregs):
            chunks.append("".join(str((bin(cb.get(b, 0) & coin).count("1") + bin(fr.flip.get(b, 0) & m).count("1")) & 1) for b in reversed(list(reg))))
        return " ".join(chunks)

    def line(k):
        r = rng.randrange(w if t == "Z" else h)
        st = rng.choice([0, d - k, rng.randrange(0, d - k + 1)])
        pi = rng.randrange(len(places))
        E = []
        for i in range(st, st + k):
            o = min((w if t == "Z" else h) - 1, max(0, r + rng.choice([0, 0, 1, -1])))
            E.append(("d", min(len(places) - 1, max(0, pi + rng.choice([0, 0, 1]))), i * w + o if t == "Z" else o * w + i, rng.choice("XYZ")))
        return E
    k = (d - 1) // 2
    def stuck():
        if nm < 1: return [rng.choice(F)]
        r, i = rng.randrange(1, nm + 1), rng.randrange(h * w - 1)
        return [("m", x, i, "") for x in range(r, min(nm, r + k - 1) + 1)]
    sets = [[]] + [[f] for f in (F if len(F) <= c["cap"] else rng.sample(F, c["cap"]))]
    if k > 1: sets += [rng.sample(F, k) for _ in range(c["cap"])] + [line(k) for _ in range(c["cap"])] + [line(k - 1) + [rng.choice(F)] for _ in range(c["cap"] // 2)] + [stuck() for _ in range(c["cap"] // 4)]
    for E in sets:
        s = string(E)
        for n, D in decs:
            got = D.correct_readout(s, t)
            need(got == val, "%s decoder, d=(%d,%d), T=%d, type %s: prepared %d, faults %r, readout %r decoded to %s" % (n, h, w, T, t, val, E, s, got))


# ---------------------------------------------------------------- C20
def cases_C20(tier, rng, hints):
    L = [tuple(s) for s in hints if s[0] * s[1] <= 400] + geo.sizes(7 if tier == "quick" else 9) + [(1, 15), (15, 1), (11, 3), (3, 11)]
    for h, w in L:
        if (h, w) == (1, 1): continue
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, hist=rand_hist(rng, rng.choice([0, 1, 3])), seed=rng.randrange(10 ** 9))


def run_C20(c):
    code, h, w = c["code"], c["h"], c["w"]
    rng = random.Random(c["seed"])
    from qtcodes.circuits.circ import TopologicalRegister, TopologicalCircuit
    typ = {"XXZZ": "XXZZ", "XZZX": "XZZX", "REP": "Repetition"}[code]
    # numbers of two digits, names that begin with another one's name
    more = ["Repetition"] * 9 if h * w <= 25 else []
    treg = TopologicalRegister(ctypes=[typ] * 3 + more, params=[params_for(code, h, w) for _ in range(3)] + [{"d": 3} for _ in more], name="t")
    tc = TopologicalCircuit(treg)
    circ = QuantumCircuit()
    make(code, 3 if code != "REP" or w == 1 else 1, 3 if code != "REP" or h == 1 else 1, "oth", circ)
    solo = make(code, h, w, "tq", circ)
    for nm in ("tq2", "t", "tq_m", "q"): make("REP", 3, 1, nm, circ)
    for tq, call in ((solo, lambda m: getattr(solo, m)()), (treg[1], lambda m: getattr(tc, m)(1)), (treg[2], lambda m: getattr(tc, m)(treg[2])), (treg[0], lambda m: getattr(tc, m)(0))):
        ops_on(tq, c["hist"])
        own = [q for r in tq.lattice.qregisters.values() if r is not None for q in r]
        data = qubits_of(tq, "data")
        anc = qubits_of(tq, "ancilla")
        for m in rng.sample(["id", "id_data", "id"], 3):
            start, nc, nq = len(tq.circ.data), len(tq.circ.clbits), len(tq.circ.qubits)
            before = dict(tq.lattice.params)
            call(m)
            need(len(tq.circ.clbits) == nc and len(tq.circ.qubits) == nq, m, "adds bits or qubits")
            need(dict(tq.lattice.params) == before, m, "changes the parameters")
            got = {}
            for inst in tq.circ.data[start:]:
                n = inst.operation.name
                if n == "barrier": continue
                need(n == "id" and getattr(inst.operation, "condition", None) is None, m, "appends", n)
                for q in inst.qubits: got[q] = got.get(q, 0) + 1
            need(all(q in own for q in got), m, "marks a qubit of another lattice")
            for q in own:
                k = got.get(q, 0)
                if m == "id_data" and q not in data: need(k == 0, m, "marks a qubit that is no data qubit")
                elif q in anc: need(k <= 1, m, "marks the readout qubit", k, "times")
                else: need(k == 1, m, "marks a qubit", k, "times")


# ---------------------------------------------------------------- C21
def cases_C21(tier, rng, hints):
    for i in range(30 if tier == "quick" else 200):
        yield dict(seed=rng.randrange(10 ** 9), files=rng.choice([1, 2, 3, 5, 8]))


class FakeDec:
    def __init__(self, d, T): self.params = {"d": d, "T": T}


def run_C21(c):
    import tempfile, shutil
    from qtcodes.tools import benchmarking as B
    rng = random.Random(c["seed"])
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c21_")
    try:
        os.chdir(tmp)
        want = {}
        seen = set()
        while len(want) < c["files"]:
            d, T = (rng.choice([1, 3, 5, 7, 9, 11, 13]), rng.choice([1, 3, 5, 7, 9, 11])), rng.choice([1, 2, 3, 10, 11])
            if (d, T) in seen: continue
            seen.add((d, T))
            b = B.TopologicalBenchmark(FakeDec(d, T), QuantumCircuit())
            pairs = []
            for _ in range(rng.choice([1, 1, 2, 4, 7])):
                p, l = round(rng.random() * 0.2, 6), rng.choice([0.0, round(rng.random(), 6)])
                if p in [x for x, _ in pairs]: continue
                pairs.append((p, l))
                b.append_data(p, l)
            files = [f for f in os.listdir(tmp) if f not in want]
            need(len(files) == 1, "a benchmark writes", len(files), "files")
            want[files[0]] = (d, T, sorted(pairs))
            a = B.TopologicalAnalysis(b.filename)
            a.load_data()
            same_as(a, want[files[0]], b.filename)
        for sub in (tmp + os.sep, ""):
            ba = B.TopologicalBatchAnalysis(sub)
            need(len(ba.analyses) == len(want), len(ba.analyses), "analyses of", len(want), "files")
            hs = [a.params["d"][0] for a in ba.analyses]
            need(hs == sorted(hs), "analyses are not in increasing order of height:", hs)
            need(sorted(os.path.basename(a.filename) for a in ba.analyses) == sorted(want), "the analyses are not one for each file")
            for a in ba.analyses: same_as(a, want[os.path.basename(a.filename)], a.filename)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def same_as(a, w, name):
    d, T, pairs = w
    need(tuple(int(x) for x in a.params["d"]) == d and int(a.params["T"]) == T, name, "loaded as d", a.params["d"], "T", a.params["T"])
    got = list(zip([float(x) for x in a.data["physical_error_rates"]], [float(x) for x in a.data["logical_error_rates"]]))
    need(got == pairs, name, "holds", pairs, "but is loaded as", got)
    need(len(a.data["physical_error_rates"]) == len(a.data["logical_error_rates"]), name, "rates of different lengths")
