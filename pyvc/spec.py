"""Contracts: obligations, lattice size cases, restriction of traces to one qubit, exact analysis of local Clifford blocks."""
import itertools, time, z3
import numpy as np
import num, solve, values
from num import Num, lift
from values import *
from interp import *
import stubs
from stubs import SReg, SCirc, stub_modules


class Prover:
    """collects the proof obligations of one property"""

    def __init__(self, prop, tier="quick", deadline=None):
        self.prop, self.tier = prop, tier
        self.obs = {}
        self.fns = set()
        self.assume_txt = []
        self.trusted = []
        self.hints = []
        self.nhints = 0
        self.covers = []
        self.t0 = time.time()
        self.deadline = deadline
        self.ctx = ""
        self.fn = ""
        self.size = None
        self.shard = (0, 1)
        self.units = {}
        self.part = None              # contract a composed property is checking at the moment
        self.compose = False          # a property composed of several contracts: one that fails does not settle the whole, the bounded stage does

    def mine(self, *key):
        """does this worker process do the unit of work called key?"""
        if self.part: key = (self.part,) + key
        i = self.units.setdefault(key, len(self.units))
        return i % self.shard[1] == self.shard[0]

    def rec(self, name, status, backend="", detail="", secs=0.0):
        name = (self.ctx + ": " if self.ctx else "") + name
        if self.compose and status == "refuted": status, detail = "unknown", "refuted, which leaves the composed property open: " + detail
        o = self.obs.setdefault(name, dict(name=name, fn=self.fn, status="discharged", backend="", secs=0.0, detail="", n=0))
        o["n"] += 1
        o["secs"] += secs
        order = ["discharged", "unknown", "unsupported", "refuted"]
        if order.index(status) > order.index(o["status"]):
            o["status"], o["detail"] = status, detail
        if backend and backend not in o["backend"]:
            o["backend"] = (o["backend"] + "+" + backend) if o["backend"] else backend
        return status == "discharged"

    def prove(self, I, name, goal, detail=""):
        """goal must follow from the path condition"""
        if self.deadline and time.time() > self.deadline:
            return self.rec(name, "unknown", "", "time limit")
        goal = zb(goal)
        if isinstance(goal, bool):
            if goal: return self.rec(name, "discharged", "rewriting")
            r, m = solve.solve(I.pc, want_model=True)
            if r == "unsat": return self.rec(name, "discharged", "z3")
            self.hint(m, I.pc)
            return self.rec(name, "refuted" if r == "sat" else "unknown", "z3", detail + self.model_txt(m))
        t = time.time()
        before = dict(solve.STATS["by"])
        r, m = solve.solve(I.pc + [z3.Not(goal)], timeout=8000, want_model=True)
        by = [k for k, v in solve.STATS["by"].items() if v != before.get(k, 0)]
        if r == "unsat":
            return self.rec(name, "discharged", by[0] if by else "z3", secs=time.time() - t)
        if r == "sat":
            self.hint(m, I.pc + [z3.Not(goal)])
            return self.rec(name, "refuted", "z3", (detail + " " if detail else "") + "counterexample: " + self.model_txt(m), time.time() - t)
        return self.rec(name, "unknown", "z3,cvc5", detail or str(goal)[:300], time.time() - t)

    def model_txt(self, m):
        if m is None: return ""
        return ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:400]

    def hint(self, m, query=()):
        """lattice sizes for the bounded stage to replay: those of a counter-model, as small as the solver finds them"""
        if self.size is None or len(self.hints) >= 6 or self.nhints > 24: return
        self.nhints += 1
        try:
            for lim in (6, 10, 18, 34, 100):
                if not query: break
                tot = num.cmp("<=", num.add(*self.size), lim)
                r, m2 = solve.solve(list(query) + [zb(tot)], timeout=2000, want_model=True)
                if r == "sat": m = m2; break
            if m is None: return
            hw = []
            for e in self.size:
                v = m.eval(num.z3_of(e), model_completion=True)
                hw.append(int(v.as_long()))
            if hw not in self.hints and max(hw) <= 101: self.hints.append(hw)
        except Exception:
            pass

    def run(self, I, ctx, fn, thunk, maxpaths=3000, exc_ok=()):
        """all paths of a thunk that executes the code and then checks its contract"""
        octx, ofn = self.ctx, self.fn
        self.ctx, self.fn = ctx, fn
        I.func_log = self.fns
        try:
            ps = I.explore(thunk, maxpaths=maxpaths)
            if not ps:
                self.rec("precondition satisfiable", "unsupported", "", "no feasible path")
            for p in ps:
                if p.kind == "exc":
                    saved = I.pc
                    I.pc = list(p.pc)
                    self.prove(I, "returns normally", False, detail="raises %s; " % p.val)
                    I.pc = saved
                else:
                    self.rec("returns normally", "discharged", "z3")
                    self.covers.append(ctx)
            return ps
        except Unsupported as e:
            self.rec("within the supported subset", "unsupported", "", str(e)[:300])
        except RecursionError:
            self.rec("within the supported subset", "unsupported", "", "recursion")
        finally:
            self.ctx, self.fn = octx, ofn

    def result(self):
        obs = list(self.obs.values())
        return dict(status="ok" if obs else "none", obligations=obs, functions=sorted(map(str, self.fns)), hints=self.hints[:6],
                    assumptions=self.assume_txt, trusted=self.trusted, covers=sorted(set(self.covers)), solver_s=round(solve.STATS["time"], 2),
                    queries=solve.STATS["queries"], by=solve.STATS["by"], note="")


# ------------------------------------------------------------------ lattice sizes
class Size:
    """odd sizes h x w, not both 1: h = 2a+1, w = 2b+1; three cases so that every sign is decided"""

    def __init__(self, name, a, b, hyps):
        self.name, self.a, self.b, self.hyps = name, a, b, hyps
        self.h = num.add(num.mul(2, a), 1)
        self.w = num.add(num.mul(2, b), 1)
        self.nx = num.mul(num.mul(2, b), num.add(a, 1))       # (h+1)/2 * (w-1)
        self.nz = num.mul(num.mul(2, a), num.add(b, 1))
        self.nd = num.mul(self.h, self.w)

    def __repr__(self): return self.name


def sizes(rep=None):
    A, B = num.var("A"), num.var("B")
    a, b = num.add(A, 1), num.add(B, 1)
    pa, pb = zbool(num.cmp(">=", A, 0)), zbool(num.cmp(">=", B, 0))
    full = Size("h,w>=3", a, b, [pa, pb])
    tall = Size("w=1", a, 0, [pa])
    wide = Size("h=1", 0, b, [pb])
    if rep == "bit": return [tall]
    if rep == "phase": return [wide]
    return [full, tall, wide]


DECODERS = {"XXZZ": "qtcodes.fitters.rotated_surface:RotatedDecoder", "Repetition": "qtcodes.fitters.repetition:RepetitionDecoder"}


def new_interp(size=None, hyps=(), load=()):
    I = Interp(stub_modules())
    for c in list(CODES.values()) + list(load): I.get(c)          # import before any exploration
    if size is not None:
        I.pc += list(size.hyps)
        solve.BOUNDS.clear()
    I.pc += list(hyps)
    return I


class AnyMap:
    """unknown previous contents of a dictionary: nothing about them may be used"""

    def has(self, *a): raise Unsupported("unknown previous contents of a dictionary")
    get = has


CODES = {"XXZZ": "qtcodes.circuits.xxzz:XXZZQubit", "XZZX": "qtcodes.circuits.xzzx:XZZXQubit", "Repetition": "qtcodes.circuits.repetition:RepetitionQubit"}


def name_atom(nm):
    return mkstr((Item(StrAtom(nm)),))


def havoc_counters(I, q, circ, name):
    """any earlier calls: the counters are arbitrary, and the registers they numbered are on the circuit"""
    lat = I.getattr(q, "lattice")
    P = lat.attrs["params"]
    cnt = {}
    for key, pre in (("T", "_c"), ("num_readout", "_readout_"), ("num_lattice_readout", "_lattice_readout_")):
        v = fresh_int(key)
        I.assume(num.cmp(">=", v, -1))
        I.put(P, "d", key, v)
        cnt[key] = v
        # an arbitrary register created by an earlier call: index in 0..v
        tau = fresh_int("old_" + key)
        r = SReg("c", 1, mkstr(name + (Item(pre), Item(tau))))
        r.guard = z3.And(zbool(num.cmp(">=", tau, 0)), zbool(num.cmp("<=", tau, v)))
        I.put(circ, "regs", None, circ.regs + (Item(r),))
    cr = lat.attrs.get("cregisters")
    if isinstance(cr, SDict):
        I.put(cr, "base", None, AnyMap())
    return cnt


def mk_qubit(I, code, size, nm="nm", circ=None, havoc=True):
    """a logical qubit in an arbitrary reachable state: the constructor's post-state with its counters generalised"""
    cls = I.get(CODES[code])
    params = {"d": (size.h, size.w)}
    if code == "Repetition" and lift(size.h).const() == 1:
        params["phase-flip-protected"] = True
    circ = circ or SCirc("circ")
    q = I.call(cls, [SDict(params)], {"name": name_atom(nm), "circ": circ})
    if not havoc:
        return q, circ
    cnt = havoc_counters(I, q, circ, str_segs(name_atom(nm)))
    I.put(circ, "trace", None, ())
    return q, circ, cnt


def regs_of(I, q):
    d = I.getattr(I.getattr(q, "lattice"), "qregisters").d
    return d.get("data"), d.get("mx"), d.get("mz"), d.get("ancilla")


# ------------------------------------------------------------------ frames
def heap_of(root, stop=()):
    """heap objects reachable from a value"""
    seen = {}
    st = [root]
    while st:
        x = st.pop()
        if x is None or isinstance(x, (str, Num, int, float, bool)): continue
        if isinstance(x, (tuple, list)): st.extend(x); continue
        if isinstance(x, Item): st.append(x.v); continue
        if isinstance(x, (Rep, Alt)):
            for gs, ss in x.vars: st.extend(ss)
            continue
        if isinstance(x, BRef): st.append(x.reg); continue
        if isinstance(x, Bound): st.append(x.self_); continue
        if isinstance(x, PyClass):
            if id(x) in seen: continue
            seen[id(x)] = x
            st.extend(v for c in x.mro for v in c.ns.values())
            continue
        if not isinstance(x, Heap) or id(x) in seen or any(x is s for s in stop): continue
        seen[id(x)] = x
        if isinstance(x, SList): st.extend(x.segs)
        elif isinstance(x, SDict): st.extend(x.d.values()); st.extend(x.ups)
        elif isinstance(x, SObj): st.extend(x.attrs.values()); st.append(x.cls)
        elif isinstance(x, SSet): st.extend(x.items)
    return seen


def reach(root):
    """heap objects reachable from a value, dictionary keys and bases included"""
    seen = {}
    st = [root]
    while st:
        x = st.pop()
        for i, y in heap_of(x).items():
            if i in seen: continue
            seen[i] = y
            if isinstance(y, SDict) and y.base is not None and isinstance(y.base, Heap): st.append(y.base)
    return seen


def writes(I, mark, limit):
    """net changes of objects that existed before: {(object, slot, key): (before, now)}"""
    out = {}
    for obj, slot, key, old in I.trail[mark:]:
        if getattr(obj, "oid", -1) >= limit: continue
        if (id(obj), slot, key if not isinstance(key, Num) else repr(key)) in out: continue
        cur = getattr(obj, slot) if key is None else getattr(obj, slot).get(key, MISSING)
        out[id(obj), slot, key if not isinstance(key, Num) else repr(key)] = (obj, slot, key, old, cur)
    return [w for w in out.values() if not same_value(I, w[3], w[4])]


def same_value(I, a, b):
    if a is b: return True
    if a is MISSING or b is MISSING: return False
    if isinstance(a, Heap) or isinstance(b, Heap): return False
    if isnum(a) and isnum(b): return I.entails(num.cmp("==", a, b))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_value(I, x, y) for x, y in zip(a, b))
    return repr(a) == repr(b)


def keeps(P, I, mark, limit, allowed, what="keeps no state beyond its contract"):
    """the objects that existed before are as they were, except where allowed(object, slot, key) says so.  State the contract does not speak of leaves
    the induction over histories open (it is not an error by itself)"""
    bad = [(slot if key is None else key, o) for o, slot, key, old, cur in writes(I, mark, limit) if not isinstance(o, Stub) and not allowed(o, slot, key)]
    P.rec(what, "unknown" if bad else "discharged", "rewriting", "also writes %s" % ", ".join("%s of %s" % (k, str(o)[:60]) for k, o in bad[:3]))


def lattice_state(lat, counters=("T", "num_readout", "num_lattice_readout")):
    """what operations on a logical qubit may change: its counters and its record of classical registers"""
    P, C = lat.attrs.get("params"), lat.attrs.get("cregisters")
    return lambda o, slot, key: (o is P and key in counters) or o is C


# ------------------------------------------------------------------ simplification under the path condition
def divmod_terms(v):
    out = {}
    for e in z3_terms(v):
        for t in solve.walk([e]):
            if z3.is_app(t) and (t.decl().eq(num.DIV) or t.decl().eq(num.MOD) or t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD)):
                out[t.get_id()] = t
    return list(out.values())


def z3_terms(v):
    """z3 terms occurring in a value"""
    out = []
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Num): out += [num._atoms[a] for a in x.atoms()]
        elif isinstance(x, (SBool, BitCh)):
            if not isinstance(x.e, bool): out.append(x.e)
        elif isinstance(x, (tuple, list)): stack.extend(x)
        elif isinstance(x, Item): stack.append(x.v)
        elif isinstance(x, (Rep, Alt)):
            if isinstance(x, Rep): stack.append(x.N)
            for gs, ss in x.vars:
                stack.extend(gs); stack.extend(ss)
        elif isinstance(x, (Str, SList)): stack.extend(x.segs)
        elif isinstance(x, SDict): stack.extend(x.d.values()); stack.extend(x.ups)
        elif isinstance(x, Fold): stack.extend(x.segs); stack.append(x.init)
        elif isinstance(x, Ev): stack.extend(x.qs); stack.extend(x.cs); stack.append(x.cond)
        elif isinstance(x, BRef): stack.append(x.idx)
        elif z3.is_expr(x): out.append(x)
    return out


def simp(I, v):
    """replace quotients and remainders whose value the path condition determines"""
    bad = set()
    for _ in range(40):
        ts = [t for t in divmod_terms(v) if t.get_id() not in bad]
        ts.sort(key=lambda t: sum(1 for _ in solve.walk([t])))
        done = False
        for t in ts:
            r = det(I, t)
            if r is None:
                bad.add(t.get_id()); continue
            v = subst(v, [(t, r)])
            done = True
            break
        if not done: return v
    return v


def det(I, t):
    n, m = num.of_z3(t.arg(0)), num.of_z3(t.arg(1))
    isdiv = t.decl().eq(num.DIV) or t.decl().kind() == z3.Z3_OP_IDIV
    # value now, after renormalisation
    cur = num.fdiv(n, m) if isdiv else num.fmod(n, m)
    if not (isinstance(cur, Num) and cur.key() == num.of_atom(t).key()):
        return cur
    for q in (0, 1, -1, 2):
        lo = num.mul(m, q); hi = num.mul(m, q + 1)
        if I.entails(z3.And(zbool(num.cmp(">=", n, lo)), zbool(num.cmp("<", n, hi)))):
            return q if isdiv else num.sub(n, lo)
    if lift(m).const() == 2 and not isdiv:
        for r in (0, 1):
            if I.entails(t == r): return r
    return None


# ------------------------------------------------------------------ restriction of a trace to one qubit
def linear_in(f, k):
    """(c, e) with f = c*k + e, c and e free of k; None otherwise"""
    f = lift(f)
    kid = num.atom_id(k)
    c, e = {}, {}
    for m, co in f.p.items():
        n = m.count(kid)
        if n == 0: e[m] = co
        elif n == 1:
            mm = list(m); mm.remove(kid)
            c[tuple(mm)] = co
        else: return None
    c, e = num.lower(Num(c)), num.lower(Num(e))
    if k.get_id() in consts_of((c, e)): return None
    return c, e


def solve_index(I, f, k, target):
    """all integers k with f(k) = target, given the path condition: ('none',), ('all',) or ('one', k0)"""
    ce = linear_in(f, k)
    if ce is None: raise Unsupported("index %r is not linear in the loop variable" % (f,))
    c, e = ce
    if lift(c).const() == 0:
        return ("all",) if I.decide(num.cmp("==", e, target)) else ("none",)
    d = num.sub(target, e)
    neg = False
    if not I.entails(num.cmp(">", c, 0)):
        if not I.entails(num.cmp("<", c, 0)): raise Unsupported("index stride of unknown sign")
        c, d = num.neg(c), num.neg(d)
    q, r = num.divexact(d, c)
    if lift(r).const() == 0: return ("one", q)
    if lift(c).const() is not None and lift(r).const() is not None:
        return ("one", q) if lift(r).const() % lift(c).const() == 0 else ("none",)
    if I.decide(num.cmp("==", r, 0)): return ("one", q)
    if I.entails(z3.Or(z3.And(zbool(num.cmp(">", r, 0)), zbool(num.cmp("<", r, c))), z3.And(zbool(num.cmp("<", r, 0)), zbool(num.cmp(">", r, num.neg(c)))))):
        return ("none",)
    if I.decide(num.cmp("==", r, c)): return ("one", num.add(q, 1))
    if I.decide(num.cmp("==", r, num.neg(c))): return ("one", num.sub(q, 1))
    m = num.fmod(r, c)
    if I.decide(num.cmp("==", m, 0)): return ("one", num.add(q, num.fdiv(r, c)))
    return ("none",)


def touches(e, reg):
    return [q for q in e.qs if q.reg is reg] if isinstance(e, Ev) else []


def occ(segs, reg, bits="qs"):
    """index expressions of the occurrences of a register in segments"""
    out = []
    for s in segs:
        if isinstance(s, Item):
            if isinstance(s.v, Ev): out += [q.idx for q in getattr(s.v, bits) if isinstance(q, BRef) and q.reg is reg]
            elif not isinstance(s.v, Ev): raise Unsupported("trace entry %r" % (s.v,))
        elif isinstance(s, (Rep, Alt)):
            for gs, ss in s.vars: out += occ(ss, reg, bits)
        else: raise Unsupported("opaque trace")
    return out


class Loop:
    """every iteration touches the qubit"""

    def __init__(self, rep): self.rep = rep


def gather(I, segs, reg, idx, bits="qs", pos=()):
    """the events touching reg[idx], in order: list of (position, Ev | Loop)"""
    out = []
    for i, s in enumerate(segs):
        p = pos + (i,)
        if isinstance(s, Item):
            if not isinstance(s.v, Ev): raise Unsupported("trace entry %r" % (s.v,))
            for q in getattr(s.v, bits):
                if isinstance(q, BRef) and q.reg is reg and I.decide(num.cmp("==", q.idx, idx)):
                    out.append((p, simp(I, s.v)))
                    break
            continue
        if isinstance(s, Alt):
            for gs, ss in I.pick(s.vars):
                out += gather(I, ss, reg, idx, bits, p)
            continue
        if not isinstance(s, Rep): raise Unsupported("opaque trace")
        s = rename_rep(s)
        its = []
        allit = False
        fs = []
        for f in occ((s,), reg, bits):
            if isinstance(f, Num) and any(f.key() == g.key() for g in fs): continue
            fs.append(lift(f))
            r = solve_index(I, f, s.k, idx)
            if r[0] == "all": allit = True
            elif r[0] == "one":
                k0 = r[1]
                if not I.decide(z3.And(zbool(num.cmp(">=", k0, 0)), zbool(num.cmp("<", k0, s.N)))): continue
                if any(I.decide(num.cmp("==", k0, x)) for x in its): continue
                its.append(k0)
        if allit:
            if its: raise Unsupported("loop touching one qubit in all and in particular iterations")
            if I.decide(num.cmp(">", s.N, 0)):
                out.append((p, Loop(s)))
            continue
        its = order(I, its)
        for n, k0 in enumerate(its):
            pr = [(s.k, k0)]
            vs = [(tuple(simpb(I, subst_b(g, pr)) for g in gs), subst_segs(ss, pr)) for gs, ss in s.vars]
            for gs, ss in I.pick(vs):
                out += gather(I, simp(I, ss), reg, idx, bits, p + ("it%d" % n,))
    return out


def simpb(I, g):
    r = simp(I, SBool(g) if not isinstance(g, bool) else g)
    return zbool(r) if isinstance(r, (SBool, bool)) else r


def order(I, its):
    out = []
    for k in its:
        j = 0
        while j < len(out) and I.decide(num.cmp("<", out[j], k)): j += 1
        out.insert(j, k)
    return out


# ------------------------------------------------------------------ exact small Clifford blocks
_H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
_G1 = {"h": _H, "x": np.array([[0, 1], [1, 0]]), "y": np.array([[0, -1j], [1j, 0]]), "z": np.diag([1, -1]), "s": np.diag([1, 1j]), "sdg": np.diag([1, -1j]),
       "id": np.eye(2), "t": np.diag([1, np.exp(0.25j * np.pi)]), "tdg": np.diag([1, np.exp(-0.25j * np.pi)])}
PAULI = {"I": np.eye(2), "X": _G1["x"], "Y": _G1["y"], "Z": _G1["z"]}


def qubit_table(I, evs):
    """distinct qubits of some events"""
    qs = []
    ids = []
    for e in evs:
        row = []
        for q in e.qs:
            for j, o in enumerate(qs):
                if o.reg is q.reg and I.decide(num.cmp("==", o.idx, q.idx)):
                    row.append(j); break
            else:
                qs.append(q); row.append(len(qs) - 1)
        ids.append(row)
    return qs, ids


def unitary(evs, ids, n):
    U = np.eye(2 ** n, dtype=complex)
    for e, row in zip(evs, ids):
        if e.cond is not None: raise Unsupported("conditioned gate in a block")
        if e.op in _G1:
            U = apply1(U, _G1[e.op], row[0], n)
        elif e.op in ("cx", "cz", "cy", "swap"):
            U = apply2(U, e.op, row[0], row[1], n)
        elif e.op == "barrier":
            pass
        else:
            raise Unsupported("%s in a unitary block" % e.op)
    return U


def apply1(U, g, q, n):
    T = U.reshape((2,) * n + (-1,))
    T = np.moveaxis(np.tensordot(g, T, axes=([1], [q])), 0, q)
    return T.reshape(2 ** n, -1)


def apply2(U, op, c, t, n):
    if c == t: raise Unsupported("two-qubit gate on one qubit")
    T = U.reshape((2,) * n + (-1,)).copy()
    if op == "swap":
        return np.swapaxes(T, c, t).reshape(2 ** n, -1)
    ix = [slice(None)] * (n + 1)
    ix[c] = 1
    sub = T[tuple(ix)]
    tt = t if t < c else t - 1
    g = {"cx": _G1["x"], "cz": _G1["z"], "cy": _G1["y"]}[op]
    T[tuple(ix)] = np.moveaxis(np.tensordot(g, sub, axes=([1], [tt])), 0, tt)
    return T.reshape(2 ** n, -1)


def kron_pauli(ps):
    M = np.eye(1)
    for p in ps: M = np.kron(M, PAULI[p])
    return M


def same(A, B):
    return np.allclose(A, B, atol=1e-9)


def same_phase(A, B):
    """A = e^{i phi} B"""
    i = np.argmax(np.abs(B))
    b = B.flat[i]
    if abs(b) < 1e-9: return same(A, B)
    ph = A.flat[i] / b
    return abs(abs(ph) - 1) < 1e-9 and same(A, ph * B)


def measured_pauli(U, n):
    """qubit 0 starts in |0> and is measured at the end: the Pauli (sign, string on qubits 1..) measured non-destructively, or None"""
    K = U.reshape(2, 2 ** (n - 1), 2, 2 ** (n - 1))
    K0, K1 = K[0, :, 0, :], K[1, :, 0, :]
    one = np.eye(2 ** (n - 1))
    for ps in itertools.product("IXYZ", repeat=n - 1):
        P = kron_pauli(ps)
        for sg in (1, -1):
            if same_phase(K0, (one + sg * P) / 2) and same_phase(K1, (one - sg * P) / 2):
                return sg, ps
    return None


def controlled_pauli(U, n, f0):
    """U on qubit 0 and others; with qubit 0 in frame f0 (1: a Hadamard is pending) at entry. Returns (f1, sign, paulis) such that
    H^f1 U H^f0 = |+><+| (x) 1 + |-><-| (x) sign*P up to phase; None if not of that form"""
    for f1 in (f0, 1 - f0):
        V = U
        if f0: V = V @ np.kron(_H, np.eye(2 ** (n - 1)))
        if f1: V = np.kron(_H, np.eye(2 ** (n - 1))) @ V
        pl, mi = np.full((2, 2), .5), np.array([[.5, -.5], [-.5, .5]])
        for ps in itertools.product("IXYZ", repeat=n - 1):
            P = kron_pauli(ps)
            for sg in (1, -1):
                if same_phase(V, np.kron(pl, np.eye(2 ** (n - 1))) + sg * np.kron(mi, P)):
                    return f1, sg, ps
    return None
