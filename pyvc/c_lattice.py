"""C01-C05, C17: contracts of the lattice circuits."""
import z3
import num, solve
from num import Num, lift
from values import *
from interp import *
from spec import *
import itertools
import numpy as np
from spec import _G1 as G1, _H as HAD

QUAL = "qtcodes.circuits."


# ------------------------------------------------------------------ the specification's own geometry
def plaquettes(sz):
    """cases covering every check: (kind, case name, hypotheses, index K, corners {pos: (row, col)} inside the lattice)"""
    h, w, a, b = sz.h, sz.w, sz.a, sz.b
    out = []
    r, o = num.var("r"), num.var("o")
    ge = lambda x, y: zbool(num.cmp(">=", x, y))
    lt = lambda x, y: zbool(num.cmp("<", x, y))
    le = lambda x, y: zbool(num.cmp("<=", x, y))

    def corners(r0, r1, c, rows, cols):
        d = {}
        for nr, rr in (("T", r0), ("B", r1)):
            for nc, cc in (("L", c), ("R", num.add(c, 1))):
                if nr in rows and nc in cols: d[nr + nc] = (rr, cc)
        return d
    if lift(sz.nx).const() != 0:
        oh = [ge(o, 0), lt(o, b)]
        K = lambda R: num.add(num.mul(R, b), o)

        def mx(nm, R, par, hy, rows):
            c = num.add(num.mul(2, o), par)
            out.append(("mx", nm, hy + oh, K(R), corners(num.sub(R, 1), R, c, rows, "LR"), (R, c)))
        mx("top", 0, 0, [], "B")
        mx("bottom", h, 1, [], "T")
        if lift(a).const() != 0:
            mx("even row", num.mul(2, r), 0, [ge(r, 1), le(r, a)], "TB")
            mx("odd row", num.add(num.mul(2, r), 1), 1, [ge(r, 0), lt(r, a)], "TB")
    if lift(sz.nz).const() != 0:
        K = lambda R, o_: num.add(num.mul(R, num.add(b, 1)), o_)
        rh = [ge(r, 0), lt(r, a)]

        def mz(nm, R, par, o_, hy, cols):
            c = num.sub(num.mul(2, o_), par)
            out.append(("mz", nm, hy + rh, K(R, o_), corners(R, num.add(R, 1), c, "TB", cols), (num.add(R, 1), c)))
        R0, R1 = num.mul(2, r), num.add(num.mul(2, r), 1)
        mz("even row, last column", R0, 0, b, [], "L")
        mz("odd row, first column", R1, 1, 0, [], "R")
        if lift(b).const() != 0:
            mz("even row", R0, 0, o, [ge(o, 0), lt(o, b)], "LR")
            mz("odd row", R1, 1, o, [ge(o, 1), le(o, b)], "LR")
    return out


def cover_obligations(P, sz):
    """the cases above cover every index of the two registers (pure arithmetic)"""
    I = new_interp(sz)
    for kind, n, per, rows in (("mx", sz.nx, sz.b, num.add(sz.h, 1)), ("mz", sz.nz, num.add(sz.b, 1), num.sub(sz.h, 1))):
        if lift(n).const() == 0: continue
        K = num.var("K")
        solve.add_bound(n)

        def thunk():
            I.assume(num.cmp(">=", K, 0)); I.assume(num.cmp("<", K, n))
            R, o = num.fdiv(K, per), num.fmod(K, per)
            P.prove(I, "K = R*per_row + o", num.cmp("==", K, num.add(num.mul(R, per), o)))
            P.prove(I, "0 <= o < per_row", z3.And(zbool(num.cmp(">=", o, 0)), zbool(num.cmp("<", o, per))))
            P.prove(I, "0 <= R < rows", z3.And(zbool(num.cmp(">=", R, 0)), zbool(num.cmp("<", R, rows))))
        P.run(I, "lemma %s: index decomposition of %s" % (sz, kind), "spec", thunk)


def pauli_of(code, kind, pos):
    if code == "XZZX": return "X" if pos in ("TL", "BR") else "Z"
    return "X" if kind == "mx" else "Z"


def commute_lemma(P):
    """the specified checks commute pairwise and with the specified logical operators (linear arithmetic)"""
    h, w, R1, c1, R2, c2 = [num.var(n) for n in ("h", "w", "R1", "c1", "R2", "c2")]
    z = num.z3_of
    # a check is given by the lower row R of its top edge: corners rows R-1, R ; columns c, c+1 ; kind from the parity of R-1+c
    def wf(kind, R, c, u):
        if kind == "mx":      # rows R-1,R with 0<=R<=h ; 0<=c<=w-2 ; (R + c) even
            return [z(R) >= 0, z(R) <= z(h), z(c) >= 0, z(c) <= z(w) - 2, z(R) + z(c) == 2 * u]
        return [z(R) >= 1, z(R) <= z(h) - 1, z(c) >= -1, z(c) <= z(w) - 1, z(R) - 1 + z(c) == 2 * u]
    u1, u2 = z3.Ints("u1 u2")

    def corners(R, c):
        return {p: (z(R) - (1 if p[0] == "T" else 0), z(c) + (1 if p[1] == "R" else 0)) for p in ("TL", "TR", "BL", "BR")}
    inside = lambda x: z3.And(x[0] >= 0, x[0] < z(h), x[1] >= 0, x[1] < z(w))
    even = lambda xs: z3.Not(z3.Or(*[z3.And(*[x if (m >> i) & 1 else z3.Not(x) for i, x in enumerate(xs)]) for m in range(1 << len(xs)) if bin(m).count("1") % 2])) if len(xs) <= 2 else par(xs)

    def par(xs):
        acc = z3.BoolVal(False)
        for x in xs: acc = z3.Xor(acc, x)
        return z3.Not(acc)
    odd_hw = [z(h) >= 1, z(w) >= 1, z(h) == 2 * z3.Int("ha") + 1, z(w) == 2 * z3.Int("wa") + 1]
    for code in ("XXZZ", "XZZX"):
        for k1, k2 in (("mx", "mx"), ("mx", "mz"), ("mz", "mz")):
            I = new_interp()

            def thunk():
                for g in odd_hw + wf(k1, R1, c1, u1) + wf(k2, R2, c2, u2): I.assume(g)
                A, B = corners(R1, c1), corners(R2, c2)
                anti = []
                for p, x in A.items():
                    for q, y in B.items():
                        if pauli_of(code, k1, p) != pauli_of(code, k2, q):
                            anti.append(z3.And(x[0] == y[0], x[1] == y[1], inside(x)))
                P.prove(I, "commute", par(anti) if anti else True)
            P.run(I, "lemma %s: any two specified checks (%s, %s) commute" % (code, k1, k2), "spec", thunk)


# ------------------------------------------------------------------ traces
def noop(e): return e.op in ("barrier", "id")


def uniform(I, rep, syn):
    """every non-trivial event of an iteration acts on one and the same syndrome qubit"""
    for gs, ss in rep.vars:
        seen = None
        for s in ss:
            if not isinstance(s, Item) or not isinstance(s.v, Ev): raise Unsupported("nested loop in a check circuit")
            if noop(s.v): continue
            qs = [q for q in s.v.qs if q.reg in syn]
            if len(qs) != 1: raise Unsupported("gates of a check circuit that do not act on exactly one syndrome qubit")
            if seen is None: seen = qs[0]
            elif seen.reg is not qs[0].reg or lift(num.sub(seen.idx, qs[0].idx)).const() != 0: return False
    return True


def walk_events(segs):
    for s in segs:
        if isinstance(s, Item): yield s.v
        elif isinstance(s, (Rep, Alt)):
            for gs, ss in s.vars: yield from walk_events(ss)
        else: raise Unsupported("opaque trace")


def only_registers(P, I, trace, regs, what):
    bad = [e for e in walk_events(trace) for q in e.qs if not any(q.reg is r for r in regs)]
    P.prove(I, what, not bad, detail="also acts on %s; " % bad[:2])


def contiguous(I, trace, ents, syn):
    """the events (all on one syndrome qubit) form one uninterrupted block"""
    if not ents: return True
    ps = [p for p, _ in ents]
    if all(len(p) >= 2 for p in ps) and len({p[:2] for p in ps}) == 1:
        seg = trace[ps[0][0]]
        if isinstance(seg, Rep): return uniform(I, seg, syn)
        return False
    if all(len(p) == 1 for p in ps):
        mine = {p[0] for p in ps}
        for j in range(min(mine), max(mine) + 1):
            if j in mine: continue
            s = trace[j]
            if not (isinstance(s, Item) and noop(s.v)): return False
        return True
    return False


def check_block(P, I, sz, code, kind, corners, evs, s, data):
    """the block measures exactly the specified Pauli product (exact, on at most 5 qubits)"""
    evs = [e for e in evs if not noop(e)]
    qs, ids = qubit_table(I, [Ev("id", (s,))] + evs)
    n = len(qs)
    if n > 6: raise Unsupported("block on %d qubits" % n)
    U = unitary(evs, ids[1:], n)
    r = measured_pauli(U, n)
    if r is None:
        return P.prove(I, "block is a non-destructive Pauli measurement", False, "the block %s does not measure a Pauli product; " % evs)
    sg, ps = r
    P.prove(I, "eigenvalue +1 reads 0", sg == 1, "sign is negative; ")
    got, alien = {}, []
    for q, p in zip(qs[1:], ps):
        if p == "I": continue
        hit = None
        if q.reg is data:
            for pos, (rr, cc) in corners.items():
                if I.decide(num.cmp("==", q.idx, num.add(num.mul(rr, sz.w), cc))): hit = pos; break
        if hit is None: alien.append((q, p))
        else: got[hit] = p
    want = {pos: pauli_of(code, kind, pos) for pos in corners}
    P.prove(I, "acts exactly on the plaquette's corners with the right Paulis", got == want and not alien, "measures %s%s instead of %s; " % (got, " and %s" % alien if alien else "", want))


def block_events(P, I, trace, reg, K, syn):
    ents = gather(I, trace, reg, K)
    if any(isinstance(e, Loop) for _, e in ents): raise Unsupported("every iteration touches one syndrome qubit")
    ents = [(p, e) for p, e in ents if not noop(e)]
    if not contiguous(I, trace, ents, syn): raise Unsupported("check circuits are interleaved")
    return [e for _, e in ents]


def c01(P):
    P.trusted += ["qiskit: QuantumCircuit appends exactly the requested gates; register sizes/names as given; duplicate names and duplicate qubit arguments are errors"]
    histories(P)
    for code in ("XXZZ", "XZZX"):
        for sz in sizes():
            if not P.mine(code, str(sz)): continue
            P.size = (sz.h, sz.w)
            I = new_interp(sz)

            def thunk():
                q, circ, cnt = mk_qubit(I, code, sz)
                data, mx, mz, anc = regs_of(I, q)
                syn = [r for r in (mx, mz) if r is not None]
                P.prove(I, "h*w data qubits", num.cmp("==", data.size, sz.nd))
                P.prove(I, "number of X checks", num.cmp("==", mx.size if mx is not None else 0, sz.nx))
                P.prove(I, "number of Z checks", num.cmp("==", mz.size if mz is not None else 0, sz.nz))
                P.prove(I, "h*w-1 checks in total", num.cmp("==", num.add(sz.nx, sz.nz), num.sub(sz.nd, 1)))
                lat = I.getattr(q, "lattice")
                P.prove(I, "one entry of qubit_indices per check", num.cmp("==", I.length(I.getattr(lat, "qubit_indices")), num.sub(sz.nd, 1)))
                for meth, kinds in (("entangle", ("mx", "mz")), ("entangle_x", ("mx",)), ("entangle_z", ("mz",))):
                    def run1():
                        I.put(circ, "trace", None, ())
                        I.call(I.getattr(lat, meth), [], {})
                        tr = circ.trace
                        only_registers(P, I, tr, [data] + syn, "acts on data and syndrome qubits only")
                        for s in tr:
                            if isinstance(s, Rep):
                                if not uniform(I, s, syn): raise Unsupported("an iteration acts on several syndrome qubits")
                            elif not noop(s.v) and sum(1 for q_ in s.v.qs if q_.reg in syn) != 1: raise Unsupported("gates of a check circuit that do not act on exactly one syndrome qubit")
                        for kind, nm, hy, K, corners, _ in plaquettes(sz):
                            def case():
                                for g in hy: I.assume(g)
                                reg = mx if kind == "mx" else mz
                                if reg is None:
                                    P.prove(I, "syndrome register exists", False); return
                                if not I.possible(z3.BoolVal(True)): raise Infeasible()
                                evs = block_events(P, I, tr, reg, K, syn)
                                if kind in kinds:
                                    check_block(P, I, sz, code, kind, corners, evs, BRef(reg, K), data)
                                else:
                                    P.prove(I, "not entangled", not evs)
                            P.run(I, "%s %s %s: %s check, %s" % (code, sz, meth, kind, nm), "_TopologicalLattice." + meth, case)
                    P.run(I, "%s %s %s" % (code, sz, meth), "_TopologicalLattice." + meth, run1)
            P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)
    for sz in sizes():
        if P.mine("cover", str(sz)): cover_obligations(P, sz)
    if P.mine("commute"): commute_lemma(P)


# ------------------------------------------------------------------ C02
def data_cases(sz):
    """cases covering every data qubit: (name, hyps, row, col, parity of row*w+col)"""
    rr, cc = num.var("rr"), num.var("cc")
    ge, lt, le = [(lambda x, y, o=o: zbool(num.cmp(o, x, y))) for o in (">=", "<", "<=")]

    def axis(v, n, half):
        if lift(n).const() == 1: return [("0", [], 0, 0)]
        return [("even", [ge(v, 0), le(v, half)], num.mul(2, v), 0), ("odd", [ge(v, 0), lt(v, half)], num.add(num.mul(2, v), 1), 1)]
    return [("row %s, column %s" % (n1, n2), h1 + h2, r, c, (p1 + p2) % 2)
            for n1, h1, r, p1 in axis(rr, sz.h, sz.a) for n2, h2, c, p2 in axis(cc, sz.w, sz.b)]


def logical_pauli(code, which, par):
    if code != "XZZX": return which
    return ("X" if par == 1 else "Z") if which == "X" else ("X" if par == 0 else "Z")


def all_codes():
    out = [(c, s) for c in ("XXZZ", "XZZX") for s in sizes()]
    return out + [("Repetition", s) for k in ("bit", "phase") for s in sizes(k)]


def each(P, I, ctx, fn, cases, body):
    """one exploration per case: cases = (name, hyps, payload...)"""
    for c in cases:
        def one(c=c):
            for g in c[1]: I.assume(g)
            body(*c)
        P.run(I, ctx + ": " + c[0], fn, one)


def plain(I, ents, what):
    """events of one qubit, all outside 'every iteration' loops"""
    if any(isinstance(e, Loop) for _, e in ents): raise Unsupported("every iteration of a loop touches %s" % what)
    return [(p, e) for p, e in ents if not noop(e)]


def net1(evs):
    """product of single-qubit gates"""
    U = np.eye(2)
    for e in evs:
        if e.op not in G1 or len(e.qs) != 1: return None
        U = G1[e.op] @ U
    return U


def pauli_name(U):
    for n, M in PAULI.items():
        if same_phase(U, M): return n
    return None


def same_cond(I, c1, reg, val):
    """the gate is conditioned on exactly this register and value"""
    return c1 is not None and len(c1) == 2 and c1[0] is reg and I.entails(num.cmp("==", c1[1], val))


def frame_params(P, I, lat, before, changed=()):
    """no parameter of the lattice changes except the given counters"""
    now = lat.attrs["params"]
    P.prove(I, "parameters: same keys", set(now.d) == set(before), detail="%s; " % (set(now.d) ^ set(before)))
    for k, v in before.items():
        if k in now.d and k not in changed:
            P.prove(I, "parameter %s unchanged" % k, I.equal(now.d[k], v))


OPERATIONS = {"stabilize": "T", "readout_x": "num_readout", "readout_z": "num_readout", "lattice_readout_x": "num_lattice_readout", "lattice_readout_z": "num_lattice_readout",
              "x": None, "z": None, "reset_x": None, "reset_z": None, "id": None, "id_data": None, "x_c_if": None, "z_c_if": None,
              "readout_x into a given register": None, "readout_z into a given register": None, "cx with a control": None, "cx with a target": None,
              "entangle": None, "entangle_x": None, "entangle_z": None}


def histories(P, counters=()):
    """the induction over earlier operations that the other contracts rest on (they start from the constructor's state with any counters): no operation changes the
    lattice's representation, and the counters named change by their own operation only"""
    for code, sz in all_codes():
        if not P.mine("history", code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            lat = I.getattr(q, "lattice")
            creg = SReg("c", 1, mkstr((Item(StrAtom("caller")),)))
            R = SReg("q", 1, name_atom("other"))
            val = fresh_int("val")
            for op, counter in OPERATIONS.items():

                def run1():
                    I.put(circ, "trace", None, ())
                    before = dict(lat.attrs["params"].d)
                    mark, limit = len(I.trail), Heap.peek()
                    kw, args, m = {}, [], op.split(" ")[0]
                    if m in ("x_c_if", "z_c_if"): args = [creg, val]
                    elif "given" in op: args = [creg]
                    elif m == "cx": kw = {op.split(" ")[-1]: BRef(R, 0)}
                    I.call(I.getattr(lat if m.startswith("entangle") else q, m), args, kw)
                    now = lat.attrs["params"].d
                    for k in before:
                        if k in ("T", "num_readout", "num_lattice_readout"):
                            if k in counters and k != counter: P.prove(I, "counter %s unchanged" % k, k in now and I.equal(now[k], before[k]))
                        else: P.prove(I, "parameter %s unchanged" % k, k in now and I.equal(now[k], before[k]))
                    keeps(P, I, mark, limit, lattice_state(lat), "representation kept")
                P.run(I, "%s %s after %s" % (code, sz, op), "TopologicalQubit." + op.split(" ")[0], run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)


def logical_ops(P, which=("x", "z", "x_c_if", "z_c_if")):
    for code, sz in all_codes():
        if not P.mine(code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            lat = I.getattr(q, "lattice")
            creg = SReg("c", 1, mkstr((Item(StrAtom("caller")),)))
            val = fresh_int("val")
            for meth in which:
                L = meth[0].upper()

                def run1():
                    I.put(circ, "trace", None, ())
                    before, regs0 = dict(lat.attrs["params"].d), circ.regs
                    cond = meth.endswith("c_if")
                    I.call(I.getattr(q, meth), [creg, val] if cond else [], {})
                    tr = circ.trace
                    only_registers(P, I, [s for s in tr if not (isinstance(s, Item) and noop(s.v))], [data], "acts on data qubits only")
                    P.prove(I, "adds no register", circ.regs == regs0)
                    frame_params(P, I, lat, before)

                    def at(nm, hy, row, col, par):
                        evs = [e for _, e in plain(I, gather(I, tr, data, num.add(num.mul(row, sz.w), col)), "one data qubit")]
                        on = I.decide(num.cmp("==", col if L == "X" else row, 0))
                        want = logical_pauli(code, L, par) if on else "I"
                        U = net1(evs)
                        P.prove(I, "unitary single-qubit gates only", U is not None, detail="%s; " % evs)
                        if U is None: return
                        P.prove(I, "acts as %s" % want, pauli_name(U) == want, detail="gates %s act as %s; " % (evs, pauli_name(U)))
                        P.prove(I, "one gate per qubit of the operator, none elsewhere", len(evs) == (1 if on else 0), detail="%s; " % evs)
                        for e in evs:
                            P.prove(I, "conditioned on exactly the given register and value" if cond else "unconditional",
                                    same_cond(I, e.cond, creg, val) if cond else e.cond is None, detail="%s; " % e)
                    each(P, I, "%s %s %s" % (code, sz, meth), "TopologicalQubit." + meth, data_cases(sz), at)
                P.run(I, "%s %s %s" % (code, sz, meth), "TopologicalQubit." + meth, run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)


def logical_lemma(P):
    """specified logical operators: commute with every specified check, anticommute with each other (linear arithmetic)"""
    z = num.z3_of
    h, w, R, c = [num.var(n) for n in ("h", "w", "R", "c")]
    u = z3.Int("u")
    odd_hw = [z(h) >= 1, z(w) >= 1, z(h) == 2 * z3.Int("ha") + 1, z(w) == 2 * z3.Int("wa") + 1]
    for code in ("XXZZ", "XZZX"):
        for L in "XZ":
            for kind in ("mx", "mz"):
                I = new_interp()

                def thunk():
                    for g in odd_hw: I.assume(g)
                    if kind == "mx": hy = [z(R) >= 0, z(R) <= z(h), z(c) >= 0, z(c) <= z(w) - 2, z(R) + z(c) == 2 * u]
                    else: hy = [z(R) >= 1, z(R) <= z(h) - 1, z(c) >= -1, z(c) <= z(w) - 1, z(R) - 1 + z(c) == 2 * u]
                    for g in hy: I.assume(g)
                    acc = z3.BoolVal(False)
                    for p in ("TL", "TR", "BL", "BR"):
                        rr, cc = z(R) - (1 if p[0] == "T" else 0), z(c) + (1 if p[1] == "R" else 0)
                        inside = z3.And(rr >= 0, rr < z(h), cc >= 0, cc < z(w), (cc if L == "X" else rr) == 0)
                        pk = pauli_of(code, kind, p)
                        odd = (rr + cc) % 2 == 1
                        diff = z3.Or(z3.And(odd, z3.BoolVal(logical_pauli(code, L, 1) != pk)), z3.And(z3.Not(odd), z3.BoolVal(logical_pauli(code, L, 0) != pk)))
                        acc = z3.Xor(acc, z3.And(inside, diff))
                    P.prove(I, "commutes", z3.Not(acc))
                P.run(I, "lemma %s: specified logical %s commutes with every %s check" % (code, L, kind), "spec", thunk)
        I = new_interp()
        # the column and the row meet in the single qubit 0, of even number
        P.run(I, "lemma %s: logical X and Z anticommute" % code, "spec", lambda: P.prove(I, "different Paulis on the one common qubit", logical_pauli(code, "X", 0) != logical_pauli(code, "Z", 0)))
    I = new_interp()

    def parity():
        row, col, b = num.var("row"), num.var("col"), num.var("b")
        e = num.add(num.mul(row, num.add(num.mul(2, b), 1)), col)
        P.prove(I, "row*w+col and row+col have the same parity", lift(num.sub(num.fmod(e, 2), num.fmod(num.add(row, col), 2))).const() == 0 or
                num.cmp("==", num.fmod(num.sub(e, num.add(row, col)), 2), 0))
    P.run(I, "lemma: parity of a data qubit's number", "spec", parity)


def c02(P):
    P.trusted += ["qiskit: QuantumCircuit appends exactly the requested gates; c_if conditions exactly the gate it is called on"]
    logical_ops(P)
    logical_lemma(P)
    histories(P)


# ------------------------------------------------------------------ C03
def numbered(nm, pre, n):
    return mkstr(str_segs(name_atom(nm)) + (Item(pre), Item(n)))


def fresh_reg(P, I, circ, regs0, size, name):
    """exactly one register was added: classical, of this size and name"""
    new = circ.regs[len(regs0):]
    ok = circ.regs[:len(regs0)] == regs0 and len(new) == 1 and isinstance(new[0], Item) and new[0].v.kind == "c"
    P.prove(I, "adds exactly one classical register", ok, detail="%s; " % (new,))
    if not ok: return None
    r = new[0].v
    P.prove(I, "size of the fresh register", num.cmp("==", r.size, size), detail="%r; " % r.size)
    P.prove(I, "name of the fresh register", I.equal(r.name_, name), detail="%r instead of %r; " % (r.name_, name))
    return r


def split_measure(evs):
    ms = [i for i, (_, e) in enumerate(evs) if e.op == "measure"]
    return ms


def c03(P):
    P.trusted += ["qiskit: gates, measurements and resets are appended in program order; measure(register, bits) pairs them in order"]
    histories(P, ("T",))
    for code, sz in all_codes():
        if not P.mine(code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            syn = [r for r in (mx, mz) if r is not None]
            lat = I.getattr(q, "lattice")
            before, regs0 = dict(lat.attrs["params"].d), circ.regs
            I.call(I.getattr(q, "stabilize"), [], {})
            tr = circ.trace
            T1 = num.add(cnt["T"], 1)
            creg = fresh_reg(P, I, circ, regs0, num.sub(sz.nd, 1), numbered("nm", "_c", T1))
            frame_params(P, I, lat, before, ("T",))
            P.prove(I, "round counter counts up by one", num.cmp("==", lat.attrs["params"].d["T"], T1))
            real = [s for s in tr if not (isinstance(s, Item) and noop(s.v))]
            only_registers(P, I, real, [data] + syn, "acts on data and syndrome qubits only")
            for e in walk_events(real):
                if not noop(e) and sum(1 for q_ in e.qs if q_.reg in syn) != 1: raise Unsupported("gates that do not act on exactly one syndrome qubit")
            P.prove(I, "unconditional", all(e.cond is None for e in walk_events(real)))
            if creg is None: return

            def check(nm, hy, kind, K, corners):
                reg = mx if kind == "mx" else mz
                if reg is None:
                    P.prove(I, "syndrome register exists", False); return
                s = BRef(reg, K)
                ents = plain(I, gather(I, tr, reg, K), "one syndrome qubit")
                ms = [i for i, (_, e) in enumerate(ents) if e.op == "measure"]
                P.prove(I, "measured exactly once", len(ms) == 1, detail="%d measurements; " % len(ms))
                if len(ms) != 1: return
                pre, m, post = ents[:ms[0]], ents[ms[0]][1], ents[ms[0] + 1:]
                while pre and pre[0][1].op == "reset": pre = pre[1:]
                if any(e.op == "reset" for _, e in pre): raise Unsupported("reset inside a check circuit")
                if not contiguous(I, tr, pre, syn): raise Unsupported("check circuits are interleaved")
                check_block(P, I, sz, code, kind, corners, [e for _, e in pre], s, data)
                bit = K if kind == "mz" else num.add(sz.nz, K)
                c = m.cs[0]
                P.prove(I, "measured into the register of this round", c.reg is creg, detail="%r; " % c)
                P.prove(I, "measured into bit %s" % ("k" if kind == "mz" else "#Z+k"), num.cmp("==", c.idx, bit), detail="%r; " % c)
                if any(e.op != "reset" for _, e in post):
                    if all(e.op != "reset" for _, e in post) or len(post[-1][1].qs) == 2: P.prove(I, "reset after its measurement", False, detail="%s; " % [e for _, e in post])
                    else: raise Unsupported("gates after the measurement of a check")
                else:
                    P.prove(I, "reset after its measurement", len(post) >= 1)
            each(P, I, "%s %s stabilize" % (code, sz), "RotatedQubit.stabilize", [(k + " " + nm, hy, k, K, corners) for k, nm, hy, K, corners, _ in plaquettes(sz)], check)

            j = num.var("j")

            def bit(nm, hy):
                ms = gather(I, tr, creg, j, bits="cs")
                P.prove(I, "written exactly once", len(ms) == 1 and not isinstance(ms[0][1], Loop), detail="%s; " % [e for _, e in ms])
            lo, mid, hi = zbool(num.cmp(">=", j, 0)), zbool(num.cmp("<", j, sz.nz)), zbool(num.cmp("<", j, num.sub(sz.nd, 1)))
            bits = []
            if lift(sz.nz).const() != 0: bits.append(("bit of a Z check", [lo, mid]))
            if lift(sz.nx).const() != 0: bits.append(("bit of an X check", [z3.Not(mid), hi, lo]))
            each(P, I, "%s %s stabilize" % (code, sz), "RotatedQubit.stabilize", bits, bit)
        P.run(I, "%s %s stabilize" % (code, sz), "RotatedQubit.stabilize", thunk)
    for sz in sizes():
        if P.mine("cover", str(sz)): cover_obligations(P, sz)


# ------------------------------------------------------------------ C04
class Coupling:
    """what a circuit segment does to the data qubits, seen from one readout qubit that is |+>/|-> controlled"""


def couplings(P, I, tr, anc, idx):
    """the circuit from a reset of anc[idx] to its measurement as |+><+| (x) 1 + |-><-| (x) P: returns (coupling segments whose
    events are Ev(pauli, (data qubit,)), measurement event, events after it); None when a definite violation was recorded"""
    ents = gather(I, tr, anc, idx)
    ents = [(p, e) for p, e in ents if isinstance(e, Loop) or not noop(e)]
    seen = {p[0] for p, _ in ents}
    first = ents[0][1] if ents else None
    if first is None or isinstance(first, Loop) or first.op != "reset":
        P.prove(I, "the readout qubit is reset first", False, detail="starts with %s; " % (first,))
        return None
    P.prove(I, "the readout qubit is reset first", True)
    while ents and not isinstance(ents[0][1], Loop) and ents[0][1].op == "reset": ents.pop(0)
    ms = [i for i, (_, e) in enumerate(ents) if not isinstance(e, Loop) and e.op == "measure"]
    P.prove(I, "measured exactly once", len(ms) == 1, detail="%d measurements; " % len(ms))
    if len(ms) != 1: return None
    r = coupling_run(P, I, ents[:ms[0]], BRef(anc, idx), 0)
    if r is None: return None
    out, f = r
    P.prove(I, "the readout qubit is measured in the right basis", f == 0)
    if f: return None
    for i, s in enumerate(tr):
        if i in seen or isinstance(s, Item) and noop(s.v): continue
        raise Unsupported("gates beside the readout qubit's")
    return tuple(out), ents[ms[0]][1], [e for _, e in ents[ms[0] + 1:]]


def coupling_run(P, I, ents, a, f):
    out = []
    for p, e in ents:
        if isinstance(e, Loop):
            vs = []
            for gs, ss in e.rep.vars:
                sub, f1 = block_coupling(P, I, [s.v for s in ss if not noop(s.v)], a, f)
                if sub is None: return None
                if f1 != f: raise Unsupported("an iteration changes the basis of the readout qubit")
                vs.append((gs, tuple(Item(x) for x in sub)))
            out.append(Rep(e.rep.k, e.rep.N, vs))
        else:
            if len(p) > 1: raise Unsupported("readout qubit used inside a branch")
            sub, f = block_coupling(P, I, [e], a, f)
            if sub is None: return None
            out += [Item(x) for x in sub]
    return out, f


def block_coupling(P, I, evs, a, f):
    if not evs: return [], f
    if any(not isinstance(e, Ev) for e in evs): raise Unsupported("nested loop in a readout")
    if any(e.op in ("reset", "measure") for e in evs): raise Unsupported("%s inside a readout" % evs)
    if any(e.cond is not None for e in evs):
        raise Unsupported("conditioned gate in a readout")
    qs, ids = qubit_table(I, [Ev("id", (a,))] + evs)
    n = len(qs)
    if n > 4: raise Unsupported("block on %d qubits" % n)
    U = unitary(evs, ids[1:], n)
    r = controlled_pauli(U, n, f)
    if r is None:
        P.prove(I, "the readout couples Pauli operators to the readout qubit", False, detail="%s is no controlled Pauli in the readout qubit's basis; " % evs)
        return None, f
    f1, sg, ps = r
    P.prove(I, "the readout couples Pauli operators to the readout qubit", True)
    P.prove(I, "eigenvalue +1 reads 0", sg == 1)
    return [Ev(p, (q,)) for p, q in zip(ps, qs[1:]) if p != "I"], f1


def product_pauli(evs):
    M = np.eye(2)
    for e in evs: M = PAULI[e.op] @ M
    return pauli_name(M)


def c04(P):
    P.trusted += ["qiskit: gates, measurements and resets are appended in program order; measure(register, register) pairs bits in order"]
    histories(P, ("num_readout", "num_lattice_readout"))
    readouts(P)


def readouts(P, bases="XZ", kinds=(False, True), lattice=True):
    for code, sz in all_codes():
        if not P.mine(code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            lat = I.getattr(q, "lattice")
            for L in bases:
                for given in kinds:
                    ctx = "%s %s readout_%s%s" % (code, sz, L.lower(), " into a given register" if given else "")

                    def run1():
                        I.put(circ, "trace", None, ())
                        creg = None
                        if given:
                            creg = SReg("c", 1, mkstr((Item(StrAtom("caller")),)))
                        before, regs0 = dict(lat.attrs["params"].d), circ.regs
                        I.call(I.getattr(q, "readout_" + L.lower()), [creg] if given else [], {})
                        tr = circ.trace
                        now = lat.attrs["params"].d
                        if given:
                            P.prove(I, "adds no register", circ.regs == regs0)
                            frame_params(P, I, lat, before)
                        else:
                            n1 = num.add(cnt["num_readout"], 1)
                            creg = fresh_reg(P, I, circ, regs0, 1, numbered("nm", "_readout_", n1))
                            frame_params(P, I, lat, before, ("num_readout",))
                            P.prove(I, "readout counter counts up by one", num.cmp("==", now["num_readout"], n1))
                        only_registers(P, I, [s for s in tr if not (isinstance(s, Item) and noop(s.v))], [data, anc], "acts on data qubits and the readout qubit only")
                        cp = couplings(P, I, tr, anc, 0)
                        if cp is None or creg is None: return
                        C, m, post = cp
                        P.prove(I, "measured into the right classical bit", m.cs[0].reg is creg and I.entails(num.cmp("==", m.cs[0].idx, 0)), detail="%s; " % m)
                        P.prove(I, "nothing but resets of the readout qubit afterwards", all(e.op == "reset" if isinstance(e, Ev) else False for e in post), detail="%s; " % post)
                        P.prove(I, "couples data qubits only", all(q_.reg is data for e in walk_events(C) for q_ in e.qs))

                        def at(nm, hy, row, col, par):
                            evs = [e for _, e in plain(I, gather(I, C, data, num.add(num.mul(row, sz.w), col)), "one data qubit")]
                            on = I.decide(num.cmp("==", col if L == "X" else row, 0))
                            want = logical_pauli(code, L, par) if on else "I"
                            got = product_pauli(evs)
                            P.prove(I, "measures %s on it" % want, got == want, detail="measures %s there; " % got)
                            P.prove(I, "coupled once if in the operator, else never", len(evs) == (1 if on else 0), detail="%s; " % evs)
                        each(P, I, ctx, "TopologicalQubit.readout_" + L.lower(), data_cases(sz), at)
                    P.run(I, ctx, "TopologicalQubit.readout_" + L.lower(), run1)
                if not lattice: continue
                ctx = "%s %s lattice_readout_%s" % (code, sz, L.lower())

                def run2():
                    I.put(circ, "trace", None, ())
                    before, regs0 = dict(lat.attrs["params"].d), circ.regs
                    I.call(I.getattr(q, "lattice_readout_" + L.lower()), [], {})
                    tr = circ.trace
                    n1 = num.add(cnt["num_lattice_readout"], 1)
                    creg = fresh_reg(P, I, circ, regs0, sz.nd, numbered("nm", "_lattice_readout_", n1))
                    frame_params(P, I, lat, before, ("num_lattice_readout",))
                    P.prove(I, "lattice readout counter counts up by one", num.cmp("==", lat.attrs["params"].d["num_lattice_readout"], n1))
                    only_registers(P, I, [s for s in tr if not (isinstance(s, Item) and noop(s.v))], [data], "acts on data qubits only")
                    if creg is None: return

                    def at(nm, hy, row, col, par):
                        idx = num.add(num.mul(row, sz.w), col)
                        evs = [e for _, e in plain(I, gather(I, tr, data, idx), "one data qubit")]
                        ms = [i for i, e in enumerate(evs) if e.op == "measure"]
                        P.prove(I, "measured exactly once", len(ms) == 1, detail="%s; " % evs)
                        if len(ms) != 1: return
                        U = net1(evs[:ms[0]])
                        want = L if code != "XZZX" else ("X" if par == (1 if L == "X" else 0) else "Z")
                        ok = U is not None and same(U.conj().T @ PAULI["Z"] @ U, PAULI[want]) and not any(e.cond for e in evs)
                        P.prove(I, "measured in the %s basis, +1 reads 0" % want, ok, detail="%s; " % evs)
                        c = evs[ms[0]].cs[0]
                        P.prove(I, "qubit q goes to bit q of the fresh register", c.reg is creg and I.entails(num.cmp("==", c.idx, idx)), detail="%s; " % c)
                        P.prove(I, "one classical bit per qubit", len(gather(I, tr, creg, idx, bits="cs")) == 1)
                    each(P, I, ctx, "TopologicalQubit.lattice_readout_" + L.lower(), data_cases(sz), at)
                P.run(I, ctx, "TopologicalQubit.lattice_readout_" + L.lower(), run2)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)


# ------------------------------------------------------------------ C05
def c05(P):
    P.trusted += ["qiskit: gates and resets are appended in program order; reset leaves |0>"]
    resets(P)
    histories(P)
    # the product state is stabilised by the logical operator and by the checks of its type
    z = num.z3_of
    R, c, u = z3.Ints("R c u")
    for code in ("XXZZ", "XZZX"):
        for L in "XZ":
            I = new_interp()
            P.run(I, "lemma %s reset_%s" % (code, L.lower()), "spec",
                  lambda: P.prove(I, "the logical operator is a product of the prepared Paulis", all(logical_pauli(code, L, p) == prep_pauli(code, L, p) for p in (0, 1))))
            kind = "mx" if L == "X" else "mz"
            for pos in ("TL", "TR", "BL", "BR"):
                def thunk():
                    I.assume(R + c == 2 * u if kind == "mx" else R - 1 + c == 2 * u)
                    odd = (R - (1 if pos[0] == "T" else 0) + c + (1 if pos[1] == "R" else 0)) % 2 == 1
                    pk = pauli_of(code, kind, pos)
                    P.prove(I, "every %s check is a product of the prepared Paulis" % kind,
                            z3.If(odd, z3.BoolVal(prep_pauli(code, L, 1) == pk), z3.BoolVal(prep_pauli(code, L, 0) == pk)))
                P.run(I, "lemma %s reset_%s corner %s" % (code, L.lower(), pos), "spec", thunk)


def resets(P, bases="XZ"):
    for code, sz in all_codes():
        if not P.mine(code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            lat = I.getattr(q, "lattice")
            for L in bases:
                def run1():
                    I.put(circ, "trace", None, ())
                    before, regs0 = dict(lat.attrs["params"].d), circ.regs
                    I.call(I.getattr(q, "reset_" + L.lower()), [], {})
                    tr = circ.trace
                    P.prove(I, "adds no register", circ.regs == regs0)
                    frame_params(P, I, lat, before)
                    only_registers(P, I, [s for s in tr if not (isinstance(s, Item) and noop(s.v))], [data], "acts on data qubits only")

                    def at(nm, hy, row, col, par):
                        evs = [e for _, e in plain(I, gather(I, tr, data, num.add(num.mul(row, sz.w), col)), "one data qubit")]
                        rs = [i for i, e in enumerate(evs) if e.op == "reset" and e.cond is None]
                        P.prove(I, "reset", bool(rs), detail="%s; " % evs)
                        if not rs: return
                        U = net1(evs[rs[-1] + 1:])
                        if U is None: raise Unsupported("entangling preparation")
                        want = prep_pauli(code, L, par)
                        psi = U[:, 0]
                        ok = np.allclose(PAULI[want] @ psi, psi) and not any(e.cond for e in evs[rs[-1] + 1:])
                        P.prove(I, "prepared in the +1 state of %s" % want, ok, detail="%s; " % evs)
                    each(P, I, "%s %s reset_%s" % (code, sz, L.lower()), "TopologicalQubit.reset_" + L.lower(), data_cases(sz), at)
                P.run(I, "%s %s reset_%s" % (code, sz, L.lower()), "TopologicalQubit.reset_" + L.lower(), run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)


def prep_pauli(code, L, par):
    if code != "XZZX": return L
    return "X" if par == (1 if L == "X" else 0) else "Z"


# ------------------------------------------------------------------ C17
def c17(P):
    P.trusted += ["qiskit: gates are appended in program order"]
    for code, sz in [x for x in all_codes() if x[0] != "XZZX"]:
        if not P.mine(code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            syn = [r for r in (mx, mz) if r is not None]
            I.call(I.getattr(q, "stabilize"), [], {})
            tr = circ.trace

            def check(nm, hy, kind, K, corners):
                reg = mx if kind == "mx" else mz
                if reg is None:
                    P.prove(I, "syndrome register exists", False); return
                ents = plain(I, gather(I, tr, reg, K), "one syndrome qubit")
                while ents and ents[0][1].op == "reset": ents.pop(0)
                ms = [i for i, (_, e) in enumerate(ents) if e.op in ("measure", "reset")]
                if ms: ents = ents[:ms[0]]
                if not contiguous(I, tr, ents, syn): raise Unsupported("check circuits are interleaved")
                evs = [e for _, e in ents]
                s = BRef(reg, K)
                qs, ids = qubit_table(I, [Ev("id", (s,))] + evs)
                n = len(qs)
                if n > 6: raise Unsupported("block on %d qubits" % n)
                F = "X" if kind == "mx" else "Z"
                where = {}
                for j, q_ in enumerate(qs[1:]):
                    for pos, (rr, cc) in corners.items():
                        if q_.reg is data and I.decide(num.cmp("==", q_.idx, num.add(num.mul(rr, sz.w), cc))): where[j] = pos
                for cut in range(1, len(evs)):
                    U = unitary(evs[cut:], ids[1 + cut:], n)
                    D = spread(U, F, n)
                    if D is None:
                        P.prove(I, "the fault spreads as a Pauli", False, detail="%s; " % evs); continue
                    opts = [[j for j, p in enumerate(D) if p != "I"]]
                    if all(p in ("I", F) for p in D): opts.append([j for j, p in enumerate(D) if p == "I"])   # times the check
                    good = False
                    for o in opts:
                        if len(o) <= 1: good = True
                        elif len(o) == 2 and all(j in where for j in o):
                            a, b = where[o[0]], where[o[1]]
                            good = good or (a[0] == b[0] if kind == "mx" else a[1] == b[1])
                    P.prove(I, "a fault after gate %d of the check circuit spreads to at most one data qubit or two along the other axis" % cut, good,
                            detail="%s spreads to %s of %s; " % (F, [(where.get(j), D[j]) for j in range(n - 1) if D[j] != "I"], evs))
            each(P, I, "%s %s stabilize" % (code, sz), "RotatedQubit.stabilize", [(k + " " + nm, hy, k, K, corners) for k, nm, hy, K, corners, _ in plaquettes(sz)], check)
        P.run(I, "%s %s stabilize" % (code, sz), "RotatedQubit.stabilize", thunk)


def spread(U, F, n):
    """data part of U (F on qubit 0) U^dagger"""
    M = U @ np.kron(PAULI[F], np.eye(2 ** (n - 1))) @ U.conj().T
    for ps in itertools.product("IXYZ", repeat=n):
        if same_phase(M, kron_pauli(ps)): return ps[1:]
    return None
