"""Bounded oracles for the circuit properties C01-C05, C13, C14, C17."""
import random
from lib import *


def size_list(tier, hints, small=5):
    L = geo.sizes(small if tier == "quick" else 7)
    L += [(1, 7), (7, 1), (3, 7), (7, 3)] if tier == "quick" else [(1, 9), (9, 1), (3, 9), (9, 3), (1, 13), (13, 1)]
    out = []
    for s in list(hints) + L:
        s = tuple(s)
        if s not in out and s != (1, 1) and s[0] * s[1] <= 81:
            out.append(s)
    return out


def long_hist(rng, n, often=("stabilize",)):
    """a long history with runs of the same operation"""
    out = []
    while len(out) < n:
        out += [rng.choice(often) if rng.random() < .5 else rng.choice(HIST)] * rng.choice([1, 1, 1, 2, 3])
    return out[:n]


# ---------------------------------------------------------------- C01
def cases_C01(tier, rng, hints):
    for h, w in size_list(tier, hints, 7):
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, hist=long_hist(rng, rng.choice([0, 0, 3, 8])))


def check_extraction(tq, code, h, w, which):
    """the entangling circuit appended by which() couples each selected check's operator into its syndrome qubit, once"""
    sc = spec_code(code)
    circ = tq.circ
    data, mz, mx = qubits_of(tq, "data"), qubits_of(tq, "mz"), qubits_of(tq, "mx")
    ch = Choi(circ.qubits, data)
    start = len(circ.data)
    getattr(tq.lattice, which)()
    ch.run(circ, start)
    tch = touched(circ, start)
    sel = {"entangle": "ZX", "entangle_x": "X", "entangle_z": "Z"}[which]
    for t, k, px, pz in geo.checks(sc, h, w):
        syn = (mz if t == "Z" else mx)[k]
        if t not in sel:
            need(syn not in tch, which, "touches syndrome", t, k)
            continue
        m = ch.tab.measure(ch.q[syn])
        s = ch.data_sign(data, px, pz)
        need(s is not None and s == m, which, "check", t, k, "does not measure its operator on", geo.corners(h, w, t, k), "sign", s, "outcome", m)
        need(ch.kept(data, (px, pz)) == m or True, "")
    keep = [c[2:] for c in geo.checks(sc, h, w)] + [geo.logical(sc, h, w, "X"), geo.logical(sc, h, w, "Z")]
    for p in keep:
        need(ch.kept(data, p) == 0, which, "disturbs an operator commuting with all checks:", bin(p[0]), bin(p[1]))
    for qb in qubits_of(tq, "ancilla"):
        need(qb not in tch, which, "touches the ancilla")


def run_C01(c):
    code, h, w = c["code"], c["h"], c["w"]
    sc = spec_code(code)
    tq = make(code, h, w)
    ops_on(tq, c["hist"])
    nx, nz = geo.counts(h, w)
    need(len(qubits_of(tq, "data")) == h * w, "data register has", len(qubits_of(tq, "data")))
    need(len(qubits_of(tq, "mx")) == nx and len(qubits_of(tq, "mz")) == nz, "syndrome registers", len(qubits_of(tq, "mx")), len(qubits_of(tq, "mz")))
    need(nx + nz == h * w - 1, "number of checks")
    data = qubits_of(tq, "data")
    # listed exactly once, with its own corners
    seen = {}
    lat = tq.lattice
    need(len(lat.qubit_indices) == len(lat.stabilizers) == nx + nz, "listed", len(lat.qubit_indices), "checks")
    for pl in lat.qubit_indices:
        qs = frozenset(q for q in pl[1:] if q is not None)
        need(len([q for q in pl[1:] if q is not None]) == len(qs), "repeated corner")
        need(pl[0] not in seen, "syndrome qubit listed twice")
        seen[pl[0]] = qs
    for t, k, px, pz in geo.checks(sc, h, w):
        syn = qubits_of(tq, "m" + t.lower())[k]
        want = frozenset(data[q] for q in geo.corners(h, w, t, k) if q is not None)
        need(len(want) in (2, 4), "spec")
        need(seen.get(syn) == want, "check", t, k, "listed on", sorted(data.index(q) for q in seen.get(syn, ()) if q in data), "expected", geo.corners(h, w, t, k))
    L = [c_[2:] for c_ in geo.checks(sc, h, w)]
    for i in range(len(L)):
        for j in range(i):
            need(geo.commute(L[i], L[j]), "checks do not commute", i, j)
    check_extraction(make(code, h, w), code, h, w, "entangle")
    if h * w <= 25:
        check_extraction(make(code, h, w), code, h, w, "entangle_x")
        check_extraction(make(code, h, w), code, h, w, "entangle_z")
    if h * w <= 49:
        check_extraction(tq, code, h, w, "entangle")


# ---------------------------------------------------------------- C02
def cases_C02(tier, rng, hints):
    for h, w in size_list(tier, hints, 9) + [(1, 11), (11, 1), (11, 3), (3, 11), (15, 1), (1, 15)]:
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, creg=rng.choice([1, 1, 2, 3]), val=rng.choice([0, 1, 1]), hist=long_hist(rng, rng.choice([0, 0, 2, 7])))


def gates_after(circ, start):
    return [i for i in circ.data[start:] if i.operation.name != "barrier"]


def run_C02(c):
    code, h, w = c["code"], c["h"], c["w"]
    sc = spec_code(code)
    circ = QuantumCircuit()
    other = make(code, h, w, "oth", circ)
    tq = make(code, h, w, "tq", circ)
    ops_on(tq, c["hist"])
    data = qubits_of(tq, "data")
    need(len(data) == h * w, "data qubits")
    LX, LZ = geo.logical(sc, h, w, "X"), geo.logical(sc, h, w, "Z")
    need(not geo.commute(LX, LZ), "logicals commute")
    for _, _, px, pz in geo.checks(sc, h, w):
        need(geo.commute((px, pz), LX) and geo.commute((px, pz), LZ), "check does not commute with a logical")
    reg = ClassicalRegister(c["creg"], name="cond")
    circ.add_register(reg)
    for name, P in (("x", LX), ("z", LZ)):
        for cond in (False, True):
            vals = [0, 1] + ([2 ** c["creg"] - 1] if c["creg"] > 1 else []) if cond else [None]
            for val in vals:
                start = len(circ.data)
                if cond:
                    getattr(tq, name + "_c_if")(reg, val)
                else:
                    getattr(tq, name)()
                gx = gz = 0
                for inst in gates_after(circ, start):
                    need(len(inst.qubits) == 1 and inst.qubits[0] in data, name, "acts outside the data qubits")
                    q = data.index(inst.qubits[0])
                    need(inst.operation.name in ("x", "z"), name, "emits", inst.operation.name)
                    b = 1 << q
                    need(not (gx | gz) & b, name, "acts twice on data qubit", q)
                    if inst.operation.name == "x": gx |= b
                    else: gz |= b
                    cd = inst.operation.condition
                    if cond:
                        need(cd is not None and cd[0] == reg and int(cd[1]) == val, name + "_c_if", "condition", cd, "wanted", reg.name, val)
                    else:
                        need(cd is None, name, "is conditioned")
                need((gx, gz) == P, name, "cond" if cond else "", "applies X on", [i for i in range(h * w) if gx >> i & 1],
                     "Z on", [i for i in range(h * w) if gz >> i & 1])


# ---------------------------------------------------------------- C03
def cases_C03(tier, rng, hints):
    for rep in range(1 if tier == "quick" else 2):
        for h, w in size_list(tier, hints, 5):
            for code in codes_for(h, w):
                yield dict(code=code, h=h, w=w, hist=rand_hist(rng, rng.choice([0, 1, 3, 6])), other=rng.random() < 0.4)
    for code in ("XXZZ", "XZZX"):
        yield dict(code=code, h=3, w=3, hist=["stabilize"] * 11, other=False)
    for i in range(3 if tier == "quick" else 12):
        for h, w in ((3, 3), (1, 3), (3, 1), (1, 5)):
            for code in codes_for(h, w):
                yield dict(code=code, h=h, w=w, hist=long_hist(rng, rng.choice([8, 14, 25])), other=rng.random() < .3)


def verify_round(tq, code, h, w, start, regs_before, tnum):
    sc = spec_code(code)
    circ = tq.circ
    nx, nz = geo.counts(h, w)
    data, mz, mx = qubits_of(tq, "data"), qubits_of(tq, "mz"), qubits_of(tq, "mx")
    new = [r for r in circ.cregs if r not in regs_before[1]]
    need(circ.qregs == regs_before[0], "new quantum registers appeared")
    need(len(new) == 1 and len(new[0]) == nx + nz, "new classical registers", [(r.name, len(r)) for r in new])
    need(trailing_number(new[0].name) == tnum, "register", new[0].name, "for round", tnum)
    reg = new[0]
    syn = set(mz) | set(mx)
    tch = touched(circ, start)
    need(tch <= set(data) | syn, "round touches other qubits")
    bell = [q for q in circ.qubits if q not in syn]
    ch = Choi(circ.qubits, data)
    ch.run(circ, start)
    writes = [b for i in circ.data[start:] for b in i.clbits]
    need(set(writes) <= set(reg) and len(writes) == len(set(writes)), "bits written", len(writes))
    for t, k, px, pz in geo.checks(sc, h, w):
        bit = reg[k if t == "Z" else nz + k]
        s = ch.data_sign(data, px, pz)
        need(bit in ch.cb, "bit of check", t, k, "never written")
        need(s is not None and s == ch.cb[bit], "bit of check", t, k, "is", ch.cb[bit], "but the check has sign", s)
        need(bin(ch.cb[bit]).count("1") == 1 or True, "")
    forms = [ch.cb[b] for b in reg]
    need(len(set(forms)) == len(forms), "two checks share an outcome")
    for p in [c_[2:] for c_ in geo.checks(sc, h, w)] + [geo.logical(sc, h, w, "X"), geo.logical(sc, h, w, "Z")]:
        need(ch.kept(data, p) == 0, "round disturbs an operator commuting with every check")
    for q in syn:
        need(ch.tab.expect(0, 1 << ch.q[q]) == 0, "a syndrome qubit is not reset")


def run_C03(c):
    code, h, w = c["code"], c["h"], c["w"]
    circ = QuantumCircuit()
    oth = make(code, h, w, "oth", circ) if c["other"] else None
    tq = make(code, h, w, "tq", circ)
    for op in c["hist"]:
        ops_on(tq, [op])
        if oth is not None:
            ops_on(oth, ["stabilize"])
    n = c["hist"].count("stabilize")
    for i in range(2):
        start = len(circ.data)
        before = (list(circ.qregs), list(circ.cregs))
        tq.stabilize()
        verify_round(tq, code, h, w, start, before, n + i)


# ---------------------------------------------------------------- C04
def cases_C04(tier, rng, hints):
    for rep in range(1 if tier == "quick" else 2):
        for h, w in size_list(tier, hints, 5):
            for code in codes_for(h, w):
                yield dict(code=code, h=h, w=w, hist=rand_hist(rng, rng.choice([0, 2, 5])), other=rng.random() < 0.3)
    for i in range(3 if tier == "quick" else 12):
        for h, w in ((3, 3), (1, 3), (3, 1), (1, 5)):
            for code in codes_for(h, w):
                yield dict(code=code, h=h, w=w, hist=long_hist(rng, rng.choice([8, 14, 25]), ("readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z")), other=rng.random() < .3)


def run_C04(c):
    code, h, w = c["code"], c["h"], c["w"]
    sc = spec_code(code)
    circ = QuantumCircuit()
    oth = make(code, h, w, "oth", circ) if c["other"] else None
    tq = make(code, h, w, "tq", circ)
    ops_on(tq, c["hist"])
    if oth is not None:
        ops_on(oth, ["readout_z", "lattice_readout_x", "lattice_readout_z"])
    nread = sum(1 for o in c["hist"] if o in ("readout_x", "readout_z"))
    nlat = sum(1 for o in c["hist"] if o in ("lattice_readout_x", "lattice_readout_z"))
    data, anc = qubits_of(tq, "data"), qubits_of(tq, "ancilla")
    own = set(data) | set(anc)
    for t in ("X", "Z", "X"):
        for given in (False, True):
            reg = None
            if given:
                reg = ClassicalRegister(1, name="mine%s%d" % (t, len(circ.cregs)))
                circ.add_register(reg)
            start = len(circ.data)
            before = (list(circ.qregs), list(circ.cregs))
            getattr(tq, "readout_" + t.lower())(*([] if reg is None else [reg]))
            new = [r for r in circ.cregs if r not in before[1]]
            need(circ.qregs == before[0], "new quantum registers")
            if given:
                need(not new, "a new register although one was given")
            else:
                need(len(new) == 1 and len(new[0]) == 1 and trailing_number(new[0].name) == nread, "fresh register", [(r.name, len(r)) for r in new], "expected number", nread)
                nread += 1
                reg = new[0]
            need(touched(circ, start) <= own, "readout touches other qubits")
            ch = Choi(circ.qubits, data + anc)
            ch.run(circ, start)
            P = geo.logical(sc, h, w, t)
            need(set(ch.cb) == {reg[0]}, "bits written", [b for b in ch.cb])
            s = ch.data_sign(data, *P)
            need(s is not None and s == ch.cb[reg[0]], "readout_" + t, "outcome", ch.cb[reg[0]], "logical sign", s)
            for Q in centralizer_gens(h * w, P):
                need(ch.kept(data, Q) == 0, "readout_" + t, "disturbs an operator commuting with the logical", Q)
    for t in ("X", "Z", "Z"):
        start = len(circ.data)
        before = (list(circ.qregs), list(circ.cregs))
        getattr(tq, "lattice_readout_" + t.lower())()
        new = [r for r in circ.cregs if r not in before[1]]
        need(circ.qregs == before[0], "new quantum registers")
        need(len(new) == 1 and len(new[0]) == h * w and trailing_number(new[0].name) == nlat, "fresh register", [(r.name, len(r)) for r in new], "expected number", nlat)
        nlat += 1
        need(touched(circ, start) <= set(data), "lattice readout touches other qubits")
        ch = Choi(circ.qubits, data)
        ch.run(circ, start)
        need(len([b for i in circ.data[start:] for b in i.clbits]) == h * w, "number of measurements")
        for q in range(h * w):
            X = t == "X" if sc == "XXZZ" else ((q % 2 == 1) == (t == "X"))
            P = (1 << q, 0) if X else (0, 1 << q)
            a = ch.mask(data, *P, ref=True)
            s = ch.tab.expect(*a)
            need(new[0][q] in ch.cb and s is not None and s == ch.cb[new[0][q]], "lattice_readout_" + t, "bit", q, "is not the outcome of", "X" if X else "Z", "on data qubit", q)


# ---------------------------------------------------------------- C05
def cases_C05(tier, rng, hints):
    for h, w in size_list(tier, hints, 7):
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, hist=long_hist(rng, rng.choice([0, 2, 7])))


def run_C05(c):
    code, h, w = c["code"], c["h"], c["w"]
    sc = spec_code(code)
    circ = QuantumCircuit()
    make(code, 3, 3, "oth", circ) if code != "REP" else None
    tq = make(code, h, w, "tq", circ)
    ops_on(tq, c["hist"])
    data = qubits_of(tq, "data")
    for t in "XZ":
        start = len(circ.data)
        getattr(tq, "reset_" + t.lower())()
        need(touched(circ, start) <= set(data), "reset touches other qubits")
        ch = Choi(circ.qubits, data)
        ch.run(circ, start)
        need(ch.data_sign(data, *geo.logical(sc, h, w, t)) == 0, "reset_" + t, "does not give the +1 logical state")
        for tt, k, px, pz in geo.checks(sc, h, w):
            if tt == t:
                need(ch.data_sign(data, px, pz) == 0, "reset_" + t, "leaves check", tt, k, "undetermined or -1")
        for i, q in enumerate(data):
            need(any(ch.tab.expect(*ch.mask(data, *p)) is not None for p in ((1 << i, 0), (0, 1 << i))), "data qubit", i, "is not reset")


# ---------------------------------------------------------------- C13
def cases_C13(tier, rng, hints):
    S = [(3, 3), (1, 3), (3, 1), (3, 5), (5, 3), (5, 1), (1, 5)]
    combos = [("XXZZ", "XXZZ"), ("XXZZ", "XZZX"), ("XZZX", "XXZZ"), ("XZZX", "XZZX")]
    for a, b in combos:
        yield dict(ctl=[a, 3, 3], tgt=[b, 3, 3], anc=None, reps=2, swap=False)
        yield dict(ctl=[a, 3, 1], tgt=[b, 1, 3], anc=None, reps=2, swap=True)
        for anc in (["XXZZ", 3, 1], ["XZZX", 1, 3], ["XZZX", 3, 3]):
            yield dict(ctl=[a, *rng.choice(S[:3])], tgt=[b, *rng.choice(S[:3])], anc=anc, reps=2, swap=rng.random() < 0.5)
    yield dict(ctl=["REP", 3, 1], tgt=["REP", 3, 1], anc=None, reps=2, swap=True)
    yield dict(ctl=["XXZZ", 3, 3], tgt=["XZZX", 1, 3], anc=None, reps=3, swap=True)
    for _ in range(6 if tier == "quick" else 40):
        yield dict(ctl=[rng.choice(["XXZZ", "XZZX"]), *rng.choice(S)], tgt=[rng.choice(["XXZZ", "XZZX"]), *rng.choice(S)],
                   anc=rng.choice([None, ["XXZZ", *rng.choice(S)], ["XZZX", *rng.choice(S)]]), reps=rng.choice([1, 2, 3]), swap=rng.random() < 0.5)


def run_C13(c):
    from qtcodes.circuits.circ import TopologicalRegister, TopologicalCircuit
    tname = {"XXZZ": "XXZZ", "XZZX": "XZZX", "REP": "Repetition"}
    circ = QuantumCircuit()
    specs = [c["ctl"], c["tgt"]]
    treg = TopologicalRegister(circ=circ, ctypes=[tname[s[0]] for s in specs], params=[params_for(*s) for s in specs])
    tc = TopologicalCircuit(treg)
    lq = [treg[0], treg[1]]
    for i in range(2):
        tc.stabilize(i)
    for rep in range(c["reps"]):
        pair = (0, 1) if not (c["swap"] and rep % 2) else (1, 0)
        start = len(circ.data)
        existing = list(circ.qubits)
        syn = set()
        for sub in treg.tqubits.values():
            for q in sub.values():
                syn |= set(qubits_of(q, "mz")) | set(qubits_of(q, "mx"))
        kw = {}
        if c["anc"] is not None:
            kw = dict(ancilla_ctype=tname[c["anc"][0]], ancilla_params=params_for(*c["anc"]))
        args = [lq[p] if rep % 2 else p for p in pair]
        tc.cx(*args, **kw)
        bell = [q for q in existing if q not in syn]
        ch = Choi(circ.qubits, bell)
        ch.run(circ, start)
        D = [qubits_of(lq[p], "data") for p in pair]
        off = len(D[0])
        alld = D[0] + D[1]
        S = [specs[p] for p in pair]
        G = [(spec_code(s[0]), s[1], s[2]) for s in S]

        def emb(side, P):
            return P if side == 0 else (P[0] << off, P[1] << off)

        def mul(P, Q):
            return (P[0] ^ Q[0], P[1] ^ Q[1])
        Xc, Zc = emb(0, geo.logical(*G[0], "X")), emb(0, geo.logical(*G[0], "Z"))
        Xt, Zt = emb(1, geo.logical(*G[1], "X")), emb(1, geo.logical(*G[1], "Z"))
        for name, a, b in (("X_c", Xc, mul(Xc, Xt)), ("Z_c", Zc, Zc), ("X_t", Xt, Xt), ("Z_t", Zt, mul(Zc, Zt))):
            s = ch.kept(alld, a, b)
            need(s == 0, "cx number", rep, "maps", name, "wrongly", "(not preserved coherently)" if s is None else "(sign depends on outcomes or is wrong: %s)" % bin(s))
        for side in (0, 1):
            for t, k, px, pz in geo.checks(*G[side]):
                need(ch.kept(alld, emb(side, (px, pz))) == 0, "cx disturbs check", t, k, "of", ("control", "target")[side])


# ---------------------------------------------------------------- C14
TN = ["XXZZ", "XZZX", "Repetition"]


def cases_C14(tier, rng, hints):
    for i in range(25 if tier == "quick" else 150):
        yield dict(seed=rng.randrange(10 ** 9), n=rng.randrange(1, 5), steps=rng.randrange(3, 12), share=rng.random() < 0.5)


def sig(inst, own):
    d = own
    def qn(q): return d[q]
    cd = inst.operation.condition
    return (inst.operation.name, tuple(qn(q) for q in inst.qubits), len(inst.clbits), None if cd is None else int(cd[1]))


def own_map(tq):
    m = {}
    for rn, r in tq.lattice.qregisters.items():
        for i, q in enumerate(r):
            m[q] = (rn, i)
    return m


def run_C14(c):
    from qtcodes.circuits.circ import TopologicalRegister, TopologicalCircuit
    rng = random.Random(c["seed"])
    circ = QuantumCircuit()
    shared = {"d": rng.choice([3, (3, 1), (1, 3), (3, 5)])}
    shared0 = dict(shared)
    def pick():
        t = rng.choice(TN)
        if t == "Repetition":
            if c["share"] and shared["d"] in (3, (3, 1)) and rng.random() < .7: return t, shared
            return t, {"d": 3} if rng.random() < .5 else {"d": (1, 3), "phase-flip-protected": True}
        return t, (shared if c["share"] else {"d": rng.choice([3, (3, 1), (1, 3), (3, 5)])})
    first = [pick() for _ in range(c["n"])]
    plist = [p for _, p in first]
    snap = [dict(p) for p in plist]
    treg = TopologicalRegister(circ=circ, ctypes=[t for t, _ in first], params=plist, name="tr")
    order = [("data", t, p) for t, p in first]
    for _ in range(rng.randrange(0, 3)):
        sub = rng.choice(["data", "ancilla", "more"])
        adds = [pick() for _ in range(rng.randrange(1, 3))]
        if rng.random() < .5:
            treg.add_tqubits(sub, [t for t, _ in adds], [p for _, p in adds])
        else:
            for t, p in adds:
                treg.add_tqubit(sub, t, p)
        order += [(sub, t, p) for t, p in adds]
    n = len(order)
    need(treg.n == n, "count", treg.n, n)
    cls = {"XXZZ": klass("XXZZ"), "XZZX": klass("XZZX"), "Repetition": klass("REP")}
    objs = []
    for i, (sub, t, p) in enumerate(order):
        q = treg[i]
        need(type(q) is cls[t], "qubit", i, "is a", type(q).__name__, "wanted", t)
        need(treg[sub][i] is q, "sub-register lookup of", sub, i)
        need(all(q is not o for o in objs), "qubit", i, "repeats another")
        want = shared0["d"] if p is shared else p["d"]
        if isinstance(want, int): want = (want, 1) if t == "Repetition" else (want, want)
        need(tuple(q.lattice.params["d"]) == want, "qubit", i, "of type", t, "has size", q.lattice.params["d"], "wanted", want)
        objs.append(q)
    need(shared == shared0, "the shared parameters were changed to", shared, "from", shared0)
    for sub in set(s for s, _, _ in order):
        need(sorted(treg[sub]) == [i for i, o in enumerate(order) if o[0] == sub], "sub-register", sub, "holds", sorted(treg[sub]))
    for bad in (n, n + 1, -1):
        try:
            treg[bad]
        except (ValueError, KeyError, IndexError):
            pass
        else:
            raise Fail("lookup of unknown number %d succeeded" % bad)
    # refused as a whole
    for ctypes, params in ((["XXZZ", "nope"], [{"d": 3}, {"d": 3}]), (["XXZZ", "XXZZ"], [{"d": 3}]), (["XXZZ"], []), (["XZZX", "XXZZ", "bad"], [{"d": 3}] * 3), ([], [{"d": 3}])):
        nq, nc, nd = len(circ.qregs), len(circ.cregs), len(circ.data)
        keys = {k: sorted(v) for k, v in treg.tqubits.items()}
        try:
            treg.add_tqubits(rng.choice(["data", "zzz"]), ctypes, params)
        except ValueError:
            pass
        else:
            raise Fail("add_tqubits accepted %r %r" % (ctypes, params))
        need((len(circ.qregs), len(circ.cregs), len(circ.data)) == (nq, nc, nd) and treg.n == n, "a refused request left traces")
        need({k: sorted(v) for k, v in treg.tqubits.items() if v} == keys, "a refused request added qubits")
    # registers are disjoint
    seen = set()
    for q in objs:
        mine = set(own_map(q))
        need(not mine & seen, "two logical qubits share physical qubits")
        need(mine <= set(circ.qubits), "a logical qubit is not on the shared circuit")
        seen |= mine
    names = [r.name for r in circ.qregs] + [r.name for r in circ.cregs]
    need(len(names) == len(set(names)), "register names repeat")
    # independent operation histories
    tc = TopologicalCircuit(treg)
    logs = [[] for _ in objs]
    alone = []
    for i, (sub, t, p) in enumerate(order):
        alone.append(cls[t](dict(p), name="s", circ=QuantumCircuit()))
    MAP = {"measure_x": "readout_x", "measure_z": "readout_z", "measure_lattice_x": "lattice_readout_x", "measure_lattice_z": "lattice_readout_z"}
    for _ in range(c["steps"]):
        i = rng.randrange(n)
        op = rng.choice(["stabilize", "id", "id_data", "reset_x", "reset_z", "x", "z", "measure_x", "measure_z", "measure_lattice_x", "measure_lattice_z"])
        start, s2 = len(circ.data), len(alone[i].circ.data)
        cr, cr2 = len(circ.cregs), len(alone[i].circ.cregs)
        getattr(tc, op)(objs[i] if rng.random() < .5 else i)
        getattr(alone[i], MAP.get(op, op))()
        own, own2 = own_map(objs[i]), own_map(alone[i])
        got, want = [], []
        for inst in circ.data[start:]:
            if inst.operation.name == "barrier": continue
            need(all(q in own for q in inst.qubits), op, "on", i, "touches another logical qubit")
            got.append(sig(inst, own))
        for inst in alone[i].circ.data[s2:]:
            if inst.operation.name == "barrier": continue
            want.append(sig(inst, own2))
        need(got == want, op, "on qubit", i, "differs from the stand-alone qubit")
        a = [(len(r), trailing_number(r.name)) for r in circ.cregs[cr:]]
        b = [(len(r), trailing_number(r.name)) for r in alone[i].circ.cregs[cr2:]]
        need(a == b, op, "registers", a, "stand-alone", b)
    names = [r.name for r in circ.cregs]
    need(len(names) == len(set(names)), "classical register names repeat")
    # TopologicalCircuit bookkeeping of own registers
    tc.add_creg(2, "cc"); r1 = tc.creg["cc"]; k = len(circ.cregs)
    tc.add_creg(3, "cc"); need(tc.creg["cc"] is r1 and len(circ.cregs) == k, "add_creg replaced an existing register")
    tc.add_qreg(2, "qq"); r1 = tc.qreg["qq"]; k = len(circ.qregs)
    tc.add_qreg(3, "qq"); need(tc.qreg["qq"] is r1 and len(circ.qregs) == k, "add_qreg replaced an existing register")


# ---------------------------------------------------------------- C17
def cases_C17(tier, rng, hints):
    for h, w in size_list(tier, hints, 7):
        yield dict(h=h, w=w)


def run_C17(c):
    h, w = c["h"], c["w"]
    tq = make("XXZZ", h, w)
    data, mz, mx = qubits_of(tq, "data"), qubits_of(tq, "mz"), qubits_of(tq, "mx")
    di = {q: i for i, q in enumerate(data)}
    start = len(tq.circ.data)
    tq.stabilize()
    ops = [i for i in tq.circ.data[start:] if i.operation.name not in ("barrier",)]
    for t, syns in (("X", mx), ("Z", mz)):
        for k, syn in enumerate(syns):
            own = [j for j, i in enumerate(ops) if syn in i.qubits and i.operation.name not in ("measure", "reset")]
            check = set(q for q in geo.corners(h, w, t, k) if q is not None)
            for pos in range(len(own) - 1):
                X, Z = set(), set()
                (X if t == "X" else Z).add(syn)
                for i in ops[own[pos] + 1:]:
                    nm, qs = i.operation.name, i.qubits
                    if nm == "h":
                        q = qs[0]
                        a, b = q in X, q in Z
                        if a != b:
                            X ^= {q}; Z ^= {q}
                    elif nm == "cx":
                        if qs[0] in X: X ^= {qs[1]}
                        if qs[1] in Z: Z ^= {qs[0]}
                    elif nm == "cz":
                        if qs[0] in X: Z ^= {qs[1]}
                        if qs[1] in X: Z ^= {qs[0]}
                    elif nm in ("measure", "id"):
                        pass
                    elif nm == "reset":
                        X -= {qs[0]}; Z -= {qs[0]}
                    else:
                        raise UnsupportedOp(nm)
                err = set(di[q] for q in (X if t == "X" else Z) if q in di)
                other = set(di[q] for q in (Z if t == "X" else X) if q in di)
                need(not other, "fault spreads as the other type")
                ok = False
                for e in (err, err ^ check):
                    if len(e) <= 1:
                        ok = True
                    elif len(e) == 2:
                        a, b = sorted(e)
                        if t == "X" and a // w == b // w and b - a == 1: ok = True
                        if t == "Z" and a % w == b % w and b - a == w: ok = True
                need(ok, "a", t, "fault after gate", pos, "of check", t, k, "leaves", sorted(err))
