"""C13: the logical CNOT. Caller (TopologicalCircuit.cx) against the contracts of the lattice operations it uses; the lattice contracts are
obligations of their own (C02, C04, C05 and cx_couplings below)."""
import itertools
import numpy as np
import z3
import num, solve
from num import lift
from values import *
from interp import *
from spec import *
from spec import apply1, apply2, _G1
from stubs import SCirc, SReg
from c_lattice import *
from c_lattice import coupling_run, gather, noop, walk_events, plain, data_cases, product_pauli, logical_pauli, logical_ops, resets, readouts, frame_params, logical_lemma
from c_register import REG, CIRC, AStr, QRef, RegMap, Sub, SNAME, SIDX, OWN, fn_, mk_reg, own_axiom, code_of, add_one
import c_register

EL = z3.Function("sub_el", z3.IntSort(), z3.IntSort(), z3.IntSort())       # k-th member, in order of insertion, of sub-register j
CNT = z3.Function("sub_cnt", z3.IntSort(), z3.IntSort())


def cx_couplings(P):
    """TopologicalQubit.cx(control=q): controlled logical X with q as control; cx(target=q): q flipped by the logical Z; on every state"""
    for code, sz in all_codes():
        if not P.mine("cx", code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            lat = I.getattr(q, "lattice")
            R = SReg("q", fresh_int("nr"), name_atom("other"))
            i = fresh_int("ri")
            I.assume(num.cmp(">=", i, 0)); I.assume(num.cmp("<", i, R.size))
            other = BRef(R, i)
            for kw, L in (("control", "X"), ("target", "Z")):
                for call in ("kw", "pos"):
                    fn = "TopologicalQubit.cx"
                    ctx = "%s %s cx(%s=q)%s" % (code, sz, kw, "" if call == "kw" else " positional")

                    def run1():
                        I.put(circ, "trace", None, ())
                        before, regs0 = dict(lat.attrs["params"].d), circ.regs
                        m = I.getattr(q, "cx")
                        if call == "kw": I.call(m, [], {kw: other})
                        else: I.call(m, [other] if kw == "control" else [None, other], {})
                        tr = tuple(s for s in circ.trace if not (isinstance(s, Item) and noop(s.v)))
                        P.prove(I, "adds no register", circ.regs == regs0)
                        frame_params(P, I, lat, before)
                        ents = [(p, e) for p, e in gather(I, tr, R, i) if isinstance(e, Loop) or not noop(e)]
                        seen = {p[0] for p, _ in ents}
                        if len(seen) != len(tr): raise Unsupported("gates beside the outer qubit's")
                        f0 = 1 if L == "X" else 0
                        r = coupling_run(P, I, ents, other, f0)
                        if r is None: return
                        P.prove(I, "the outer qubit is left in its basis", r[1] == f0)
                        P.prove(I, "couples data qubits only", all(b.reg is data for e in walk_events(r[0]) for b in e.qs))

                        def at(nm, hy, row, col, par):
                            evs = [e for _, e in plain(I, gather(I, tuple(r[0]), data, num.add(num.mul(row, sz.w), col)), "one data qubit")]
                            on = I.decide(num.cmp("==", col if L == "X" else row, 0))
                            want = logical_pauli(code, L, par) if on else "I"
                            got = product_pauli(evs)
                            P.prove(I, "couples %s of it" % want, got == want, detail="couples %s there; " % got)
                        each(P, I, ctx, fn, data_cases(sz), at)
                    P.run(I, ctx, fn, run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)


def from_params(P):
    """a logical qubit built from another one's lattice.params (or only its size) has the same size and leaves the other one alone"""
    for code, sz in all_codes():
        if not P.mine("from", code, str(sz)): continue
        I = new_interp(sz)

        def thunk(full):
            q, circ, cnt = mk_qubit(I, code, sz)
            pr = I.getattr(I.getattr(q, "lattice"), "params")
            before, mark = dict(pr.d), len(I.trail)
            old = c_register.heap_of(q, [circ])
            d = pr if full else SDict({"d": pr.d["d"]})
            q2 = I.call(I.get(CODES[code]), [d], {"name": name_atom("nm2"), "circ": SCirc("circ2")})
            d2 = I.getattr(I.getattr(q2, "lattice"), "params").d["d"]
            for i, (n, x) in enumerate((("height", sz.h), ("width", sz.w))):
                P.prove(I, "same %s" % n, num.cmp("==", I.getitem(d2, i), x))
            bad = [x for x in I.trail[mark:] if id(x[0]) in old]
            P.prove(I, "the first logical qubit is left alone", not bad and set(pr.d) == set(before), detail="%s; " % [(b[1], b[2]) for b in bad][:3])
        P.run(I, "%s %s from the parameters of another" % (code, sz), "TopologicalQubit.__init__", lambda: thunk(True))
        if code != "Repetition":
            P.run(I, "%s %s from the size of another" % (code, sz), "TopologicalQubit.__init__", lambda: thunk(False))


# ------------------------------------------------------------------ the caller
class CSub(Sub):
    """sub-register that can be listed: CNT(j) >= 1 logical qubits in order of insertion"""

    def values_segs(self, I, f):
        n = fn_(CNT, self.j)
        I.pc.append(zbool(num.cmp(">=", n, 1)))
        k = fresh_int("k")
        return SList((Rep(atom_of(k), n, [((), (Item(f(fn_(EL, self.j, k))),))]),))

    def values(self, I, o): return self.lst(I, o, lambda e: QRef(e, self.m.log))
    def keys(self, I, o): return self.lst(I, o, lambda e: e)
    def items(self, I, o): return self.lst(I, o, lambda e: (e, QRef(e, self.m.log)))

    def lst(self, I, o, f):
        if o.d or o.ups: raise Unsupported("iteration over an extended sub-register")
        return self.values_segs(I, f)


class CMap(RegMap):
    def sub(self, j):
        k = lift(j).key()
        if k not in self.cache: self.cache[k] = SDict(base=CSub(self, j))
        return self.cache[k]


class Regs:
    """the registers a TopologicalCircuit knows by name, after any history: each name may be there already"""

    def __init__(self, kind): self.kind, self.there, self.regs = kind, {}, {}
    def subst(self, pairs): return self

    def has(self, I, o, k):
        if not isinstance(k, str): raise Unsupported("register name %r" % (k,))
        if k not in self.there: self.there[k] = z3.Bool("has_%s_%s" % (self.kind, k))
        return self.there[k]

    def get(self, I, o, k):
        if not I.decide(self.has(I, o, k)): raise PyExc(KeyError, (k,))
        if k not in self.regs: self.regs[k] = SReg(self.kind, 1, k)
        return self.regs[k]

    def items(self, I, o): raise Unsupported("listing the registers of the circuit")
    keys = values = items


class LParams(Stub):
    """the parameters of a logical qubit's lattice (by identity)"""

    def __init__(self, idx): self.idx = idx
    def subst(self, pairs): return LParams(subst(self.idx, pairs))
    def __repr__(self): return "parameters of qubit %r" % (self.idx,)
    def dict_(self, I): return self

    def getitem(self, I, i):
        if i == "d": return LParams(("d", self.idx))
        raise Unsupported("parameter %r of an existing logical qubit" % (i,))

    def getattr_(self, I, n):
        if n == "copy": return Builtin(n, lambda I, a, k: self)
        if n == "get": return Builtin(n, lambda I, a, k: self.getitem(I, a[0]))
        raise Unsupported("parameters.%s" % n)


class LLat(Stub):
    def __init__(self, idx): self.idx = idx
    def subst(self, pairs): return LLat(subst(self.idx, pairs))

    def getattr_(self, I, n):
        if n == "params": return LParams(self.idx)
        raise Unsupported("lattice.%s in a caller" % n)


class LReg(Stub, Heap):
    """pseudo-register: position k stands for the logical qubit of number k"""

    def __init__(self): Heap.__init__(self)
    def subst(self, pairs): return self
    def snapshot_(self, omark, memo, f, g): return self


def caller(P):
    fn = "TopologicalCircuit.cx"
    for code in CODES:
        for mode in ("default", "chosen"):
            for have in (False, True):
                for by in ("object", "number", "mixed"):
                    if not P.mine("cnot", code, mode, have, by): continue
                    cnot_case(P, fn, code, mode, have, by)


OPS = {"cx", "reset_x", "reset_z", "x", "z", "x_c_if", "z_c_if", "readout_x", "readout_z"}
NEUTRAL = {"stabilize", "id", "id_data"}


def cnot_case(P, fn, code, mode, have, by):
    I = new_interp(load=[REG, CODES[code]])
    cls = I.get(CODES[code])
    ctl, tgt = num.var("ctl"), num.var("tgt")

    def thunk():
        log = SList(())
        log.result = None
        added = SList(())
        LR = LReg()
        t, circ, m0, td, N, M = mk_reg(I, log)
        m = CMap(M, N, log)
        td.base = m
        for k in (ctl, tgt):
            I.assume(num.cmp(">=", k, 0)); I.assume(num.cmp("<", k, N))
            own_axiom(I, m, k)
        I.assume(num.cmp("!=", ctl, tgt))
        ja, there = m.axioms(I, code_of("ancilla"))
        I.assume(there if have else bnot(there))
        if have:                 # precondition: the ancilla is neither control nor target
            I.assume(num.cmp("!=", fn_(OWN, ctl), ja)); I.assume(num.cmp("!=", fn_(OWN, tgt), ja))

        def qcls(idx):
            if num.cmp("==", idx, ctl) is True or I.entails(num.cmp("==", idx, ctl)): return cls
            raise Unsupported("type of another logical qubit")

        def emit(idx, op, qs=(), cs=(), cond=None):
            circ.emit(I, (Item(Ev(op, (BRef(LR, idx),) + tuple(qs), cs, cond)),))

        def getattr_(q, I, n):
            idx = q.idx
            if n == "lattice": return LLat(idx)
            if n == "circ": return circ
            if n not in OPS | NEUTRAL: raise Unsupported("attribute %s of an existing logical qubit" % n)

            def f(I, a, k):
                if n in NEUTRAL: emit(idx, "L:id"); return
                if n == "cx":
                    v = dict(zip(("control", "target"), a), **k)
                    c, tt = v.get("control"), v.get("target")
                    if (c is None) == (tt is None): raise PyExc(ValueError, ("exactly one",))
                    o = c if c is not None else tt
                    if not isinstance(o, BRef): raise Unsupported("cx with %r" % (o,))
                    emit(idx, "L:cX" if c is not None else "L:Zc", (o,))
                elif n.startswith("readout"):
                    v = dict(zip(("readout_creg",), a), **k)
                    if not isinstance(v.get("readout_creg"), SReg): raise Unsupported("readout into a fresh register")
                    emit(idx, "L:M" + n[-1].upper(), cs=(BRef(v["readout_creg"], 0),))
                elif n.startswith("reset"):
                    emit(idx, "L:R" + n[-1].upper())
                elif n.endswith("c_if"):
                    v = dict(zip(("classical", "val"), a), **k)
                    emit(idx, "L:" + n[0].upper(), cond=(v["classical"], v["val"]))
                else: emit(idx, "L:" + n.upper())
            return Builtin(n, f)

        I.qref_getattr, I.qref_type = getattr_, lambda q: qcls(q.idx)

        def add_contract(I, f, a, k):
            v = dict(zip(("self", "sub_register", "ctype", "params"), a), **k)
            I.put(added, "segs", None, added.segs + (Item((v["sub_register"], v["ctype"], v["params"])),))
            n = I.getattr(t, "n")
            s = td.base
            cur = SDict({})
            if I.truth(I.contains(td, v["sub_register"])): raise Unsupported("a further logical qubit for an existing sub-register")
            I.setitem(td, v["sub_register"], cur)
            I.setitem(cur, n, QRef(n, log))
            I.put(t, "attrs", "n", num.add(n, 1))
        I.contracts["TopologicalRegister.add_tqubit"] = add_contract
        tc = I.call(I.get(CIRC), [t], {})
        qd, cd = SDict(base=Regs("q")), SDict(base=Regs("c"))
        I.put(tc, "attrs", "qreg", qd); I.put(tc, "attrs", "creg", cd)
        I.put(circ, "trace", None, ())
        circ.regs = ()
        args = [QRef(ctl, log) if by == "object" else ctl, tgt if by == "number" else QRef(tgt, log)]
        kw = {}
        aparams = SDict({"d": (num.var("ah"), num.var("aw"))})
        before = dict(aparams.d)
        if mode == "chosen": kw = {"ancilla_ctype": AStr(num.var("act")), "ancilla_params": aparams}
        mark = len(I.trail)
        I.call(I.getattr(tc, "cx"), args, kw)
        tr = [s for s in circ.trace]
        if not all(isinstance(s, Item) for s in tr): raise Unsupported("loops in the logical gate")
        evs = [s.v for s in tr if not noop(s.v)]
        # the ancilla
        P.prove(I, "an ancilla is added exactly when there is none", len(added.segs) == (0 if have else 1), detail="%s; " % (added.segs,))
        for s in added.segs:
            sub, ct, pr = s.v
            P.prove(I, "in the sub-register ancilla", I.equal(sub, "ancilla"))
            if mode == "chosen":
                P.prove(I, "of the type asked for", I.equal(ct, kw["ancilla_ctype"]))
                P.prove(I, "with the parameters asked for", pr is aparams or (isinstance(pr, SDict) and not pr.ups and pr.d == before))
            else:
                if not isinstance(ct, str): raise Unsupported("type %r" % (ct,))
                P.prove(I, "of the control's type", I.equal(ct, code), detail="%r; " % (ct,))
                if isinstance(pr, SDict) and list(pr.d) == ["d"] and not pr.ups and isinstance(pr.d["d"], LParams) and isinstance(pr.d["d"].idx, tuple):
                    pr = LParams(pr.d["d"].idx[1])
                if not isinstance(pr, LParams) or isinstance(pr.idx, tuple): raise Unsupported("parameters %r" % (pr,))
                P.prove(I, "with the control's parameters", num.cmp("==", pr.idx, ctl))
        P.prove(I, "the caller's parameters are not changed", aparams.d == before and not aparams.ups)
        P.prove(I, "logical qubits of the register stay where they are", all(not x.d and not x.ups for x in m.cache.values()) and (not td.d or set(td.d) <= {"ancilla"}))
        P.prove(I, "one logical qubit more per ancilla", num.cmp("==", I.getattr(t, "n"), num.add(N, len(added.segs))))
        # every event is on control, target, one ancilla, or physical qubits registered with this circuit
        want = [("c", ctl), ("t", tgt)]
        lab, anc = {}, []
        for e in evs:
            for b in e.qs:
                if b.reg is not LR: continue
                if b.idx is None: continue
                key = lift(b.idx).key()
                if key in lab: continue
                for nm, x in want:
                    if I.entails(num.cmp("==", b.idx, x)): lab[key] = nm; break
                else:
                    for nm, x in want:
                        if have: I.assume(z3.Implies(zbool(num.cmp("==", b.idx, x)), z3.BoolVal(False)) if is_anc_el(I, b.idx, ja) else True)
                        P.prove(I, "the third logical qubit is neither control nor target", num.cmp("!=", b.idx, x), detail="%r; " % (b.idx,))
                    anc.append(b.idx)
                    lab[key] = "a"
        P.prove(I, "at most one logical qubit besides control and target", all(I.entails(num.cmp("==", a, anc[0])) for a in anc[1:]), detail="%r; " % (anc,))
        if anc:
            if have: P.prove(I, "it is a member of the sub-register ancilla", is_anc_el(I, anc[0], ja))
            else: P.prove(I, "it is the ancilla just added", num.cmp("==", anc[0], N))
        regs = [s.v for s in circ.regs]
        P.prove(I, "every register used belongs to the circuit", all(b.reg in (list(qd.base.regs.values()) if b.reg.kind == "q" else list(cd.base.regs.values())) + regs
                                                                   for e in evs for b in list(e.qs) + list(e.cs) + ([BRef(e.cond[0], 0)] if e.cond and isinstance(e.cond[0], SReg) else []) if isinstance(b.reg, SReg)))
        for d, kind in ((qd, "q"), (cd, "c")):
            for k, r in d.d.items():
                P.prove(I, "registers known to the circuit were added to it", any(r is x for x in regs))
                P.prove(I, "a known register is not replaced", bnot(d.base.has(I, d, k)) if True else None)
        new = [r for r in regs]
        P.prove(I, "each register is added once, under its name", len(new) == len(qd.d) + len(cd.d) and all(any(r is x for x in list(qd.d.values()) + list(cd.d.values())) for r in new))
        # exact simulation over all outcomes
        verdict = simulate(I, evs, lab, LR)
        P.prove(I, "for every outcome the operation is CNOT on control and target, whatever the state of ancilla and readout qubit", verdict is True, detail="" if verdict is True else str(verdict) + "; ")
    P.run(I, "cx: control %s, ancilla %s, %s, arguments by %s" % (code, mode, "already there" if have else "not there yet", by), fn, thunk)


def is_anc_el(I, idx, ja):
    """idx is syntactically a member of the sub-register ancilla"""
    if not isnum(idx): return False
    try:
        e = z3.simplify(num.z3_of(idx))
        return e.decl().name() == "sub_el" and I.entails(e.arg(0) == num.z3_of(ja))
    except z3.Z3Exception:
        return False


def simulate(I, evs, lab, LR):
    """Kraus operators of the logical circuit for every measurement record; every non-zero one must be CNOT (x) something on the rest"""
    qs = ["c", "t"]
    def q_id(b):
        if b.reg is LR: k = lab[lift(b.idx).key()]
        else:
            i = lift(b.idx).const()
            if i is None: raise Unsupported("qubit %r" % (b,))
            if not (I.entails(num.cmp("<", i, b.reg.size)) and i >= 0): raise Unsupported("qubit %r out of range" % (b,))
            k = (b.reg.id_() if hasattr(b.reg, "id_") else id(b.reg), i)
        if k not in qs: qs.append(k)
        return qs.index(k)
    ids = [[q_id(b) for b in e.qs] for e in evs]
    n = len(qs)
    if n > 7: raise Unsupported("logical gate on %d qubits" % n)
    X, Z = _G1["x"], _G1["z"]
    pr = [np.diag([1., 0]), np.diag([0, 1.])]
    br = [({}, np.eye(2 ** n, dtype=complex))]

    def bit(b):
        i = lift(b.idx).const()
        if i is None or lift(b.reg.size).const() != 1: raise Unsupported("classical bit %r" % (b,))
        return id(b.reg)
    for e, row in zip(evs, ids):
        out = []
        for cl, K in br:
            conds = [(cl, True)]
            if e.cond is not None:
                if len(e.cond) != 2: raise Unsupported("two conditions")
                reg, val = e.cond
                b = reg if isinstance(reg, BRef) else BRef(reg, 0)
                k = bit(b)
                v = lift(val).const()
                if v is None: raise Unsupported("condition value")
                conds = [(cl, cl[k] == v)] if k in cl else [({**cl, k: x}, x == v) for x in (0, 1)]
            for cl2, act in conds:
                if not act: out.append((cl2, K)); continue
                out += step(e, row, cl2, K, n, X, Z, pr, bit)
        br = [(c, K) for c, K in out if np.abs(K).max() > 1e-12]
        if len(br) > 4096: raise Unsupported("too many branches")
    names = {}
    CN = np.eye(2 ** n, dtype=complex)
    CN = apply2(CN, "cx", 0, 1, n)
    for cl, K in br:
        M = (K @ CN).reshape(4, 2 ** (n - 2), 4, 2 ** (n - 2))
        A = M[0, :, 0, :]
        want = np.einsum("ij,ab->iajb", np.eye(4), A)
        if not same(M, want):
            return "with the classical bits %s at the end the operation is no CNOT" % list(cl.values())
    return True


def step(e, row, cl, K, n, X, Z, pr, bit):
    op = e.op
    if op.startswith("L:"):
        op = op[2:]
        if op == "id": return [(cl, K)]
        if op in ("X", "Z"): return [(cl, apply1(K, {"X": X, "Z": Z}[op], row[0], n))]
        if op == "cX": return [(cl, apply2(K, "cx", row[1], row[0], n))]
        if op == "Zc": return [(cl, apply2(K, "cx", row[0], row[1], n))]
        if op in ("RX", "RZ"):
            out = []
            for i in (0, 1):
                g = np.zeros((2, 2)); g[0, i] = 1
                if op == "RX": g = _G1["h"] @ g
                out.append((cl, apply1(K, g, row[0], n)))
            return out
        if op in ("MX", "MZ"):
            out = []
            for i in (0, 1):
                g = pr[i] if op == "MZ" else _G1["h"] @ pr[i] @ _G1["h"]
                out.append(({**cl, bit(e.cs[0]): i}, apply1(K, g, row[0], n)))
            return out
        raise Unsupported(op)
    if op == "reset":
        out = []
        for i in (0, 1):
            g = np.zeros((2, 2)); g[0, i] = 1
            out.append((cl, apply1(K, g, row[0], n)))
        return out
    if op == "measure":
        return [({**cl, bit(e.cs[0]): i}, apply1(K, pr[i], row[0], n)) for i in (0, 1)]
    if op in _G1: return [(cl, apply1(K, _G1[op], row[0], n))]
    if op in ("cx", "cz", "cy", "swap"): return [(cl, apply2(K, op, row[0], row[1], n))]
    raise Unsupported("%s in the logical gate" % op)


def c13(P):
    P.trusted += ["qiskit: gates, measurements and resets are appended in program order; c_if conditions exactly the gate it is called on",
                  "finite-dimensional algebra: operators that are functions of an anticommuting pair (logical X, logical Z) act on one tensor factor as the Pauli pair",
                  "numpy floating point in the exact-Clifford comparisons (entries are multiples of powers of 1/sqrt 2; tolerance 1e-9)"]
    P.assume_txt += ["the ancilla used by cx is neither the control nor the target (control and target are not kept in the sub-register 'ancilla')",
                      "registers named m1, m2, m3, cnot_readout that exist before the call have one bit (they were made by cx)"]
    caller(P)
    from_params(P)
    cx_couplings(P)
    logical_ops(P, ("x", "z", "x_c_if", "z_c_if"))
    logical_lemma(P)
    resets(P)
    readouts(P, "XZ", (True,), False)
