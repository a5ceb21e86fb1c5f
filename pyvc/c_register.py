"""C14: logical qubits are numbered, found and kept apart."""
import z3
import num, solve
from num import lift
from values import *
from interp import *
from spec import *
from stubs import SCirc, SReg
from c_lattice import all_codes, fresh_reg, walk_events
from c_params import refused

REG = "qtcodes.circuits.circ:TopologicalRegister"
CIRC = "qtcodes.circuits.circ:TopologicalCircuit"
SNAME = z3.Function("sname", z3.IntSort(), z3.IntSort())      # code of the j-th sub-register's name
SIDX = z3.Function("sidx", z3.IntSort(), z3.IntSort())        # its inverse
OWN = z3.Function("own", z3.IntSort(), z3.IntSort())          # sub-register holding logical qubit k
_codes = {}


def code_of(s):
    return _codes.setdefault(s, len(_codes))


def fn_(f, *a):
    return num.of_z3(f(*[num.z3_of(x) for x in a]))


class AStr(Stub):
    """an arbitrary string, known by a number"""

    def __init__(self, code): self.code = code
    def subst(self, pairs): return AStr(subst(self.code, pairs))
    def __repr__(self): return "AStr(%r)" % (self.code,)
    def tostr_(self, I): return self
    def type_(self, I): return I.builtins["str"]
    def isinstance_(self, I, c): return c.name in ("str", "Hashable")

    def eq_(self, I, o):
        if isinstance(o, AStr): return sbool(num.cmp("==", self.code, o.code))
        if isinstance(o, str): return sbool(num.cmp("==", self.code, code_of(o)))
        if o is None or isnum(o) or isinstance(o, (tuple, SList, SDict, SObj)): return False
        raise Unsupported("comparison of an arbitrary string")


def code_v(k):
    if isinstance(k, AStr): return k.code
    if isinstance(k, str): return code_of(k)
    return None


class QRef(Stub):
    """an existing logical qubit: logs the calls of its methods"""

    def __init__(self, idx, log=None): self.idx, self.log = idx, log
    def subst(self, pairs): return QRef(subst(self.idx, pairs), self.log)
    def __repr__(self): return "qubit %r" % (self.idx,)
    def isinstance_(self, I, c): return c.name in ("TopologicalQubit", "RotatedQubit")

    def eq_(self, I, o): return sbool(num.cmp("==", self.idx, o.idx)) if isinstance(o, QRef) else False

    def type_(self, I):
        h = getattr(I, "qref_type", None)
        if h is None: raise Unsupported("type of an existing logical qubit")
        return h(self)

    def getattr_(self, I, n):
        h = getattr(I, "qref_getattr", None)
        if h is not None: return h(self, I, n)
        if self.log is None or n in ("lattice", "circ", "name"): raise Unsupported("attribute %s of an existing logical qubit" % n)

        def f(I, a, k):
            I.put(self.log, "segs", None, self.log.segs + (Item((self.idx, n, tuple(a), tuple(sorted(k.items())))),))
            return self.log.result if n == "parse_readout" else None
        return Builtin(n, f)


class Sub:
    """contents of sub-register j: the logical qubits k < N with own(k) = j"""

    def __init__(self, m, j): self.m, self.j = m, j
    def subst(self, pairs): return Sub(self.m, subst(self.j, pairs))
    def __repr__(self): return "Sub(%r)" % (self.j,)

    def has(self, I, o, k):
        if not isnum(k): 
            if isinstance(k, (str, AStr, tuple)) or k is None: return False
            raise Unsupported("key %r" % (k,))
        e = z3.And(zbool(num.cmp(">=", k, 0)), zbool(num.cmp("<", k, self.m.N)))
        own = fn_(OWN, k)
        I.pc.append(z3.Implies(e, z3.And(zbool(num.cmp(">=", own, 0)), zbool(num.cmp("<", own, self.m.M)))))
        return z3.And(e, zbool(num.cmp("==", own, self.j)))

    def get(self, I, o, k):
        if not I.decide(self.has(I, o, k)): raise PyExc(KeyError, (k,))
        return QRef(k, self.m.log)

    def items(self, I, o): raise Unsupported("iteration over a sub-register")
    keys = values = items


class RegMap:
    """sub-register name -> contents, for M sub-registers"""

    def __init__(self, M, N, log=None): self.M, self.N, self.log, self.cache = M, N, log, {}
    def subst(self, pairs): return self

    def sub(self, j):
        k = lift(j).key()
        if k not in self.cache: self.cache[k] = SDict(base=Sub(self, j))
        return self.cache[k]

    def axioms(self, I, c):
        """the names are different"""
        j = fn_(SIDX, c)
        return j, z3.And(zbool(num.cmp(">=", j, 0)), zbool(num.cmp("<", j, self.M)), zbool(num.cmp("==", fn_(SNAME, j), c)))

    def has(self, I, o, k):
        c = code_v(k)
        if c is None:
            if isnum(k) or isinstance(k, tuple) or k is None: return False
            raise Unsupported("sub-register name %r" % (k,))
        return self.axioms(I, c)[1]

    def get(self, I, o, k):
        if not I.decide(self.has(I, o, k)): raise PyExc(KeyError, (k,))
        return self.sub(self.axioms(I, code_v(k))[0])

    def seq(self, f):
        j = fresh_int("j")
        return (Rep(atom_of(j), self.M, [((), (Item(f(j)),))]),)

    def nm(self, j): return AStr(fn_(SNAME, j))

    def items(self, I, o):
        if o.d or o.ups: raise Unsupported("iteration over an extended map")
        return SList(self.seq(lambda j: (self.nm(j), SDict(base=Sub(self, j)))))

    def keys(self, I, o):
        if o.d or o.ups: raise Unsupported("iteration over an extended map")
        return SList(self.seq(self.nm))

    def values(self, I, o):
        if o.d or o.ups: raise Unsupported("iteration over an extended map")
        return SList(self.seq(lambda j: SDict(base=Sub(self, j))))

    def iter_(self, I, o): return self.keys(I, o).segs


SUFFIXES = {"XXZZ": ("data", "mx", "mz", "ancilla"), "XZZX": ("data", "mx", "mz", "ancilla"), "Repetition": ("data", "mx", "mz", "ancilla")}


def mk_reg(I, log=None):
    """a register in an arbitrary state: N logical qubits spread over M sub-registers, and their registers on the circuit"""
    M, N = fresh_int("M"), fresh_int("N")
    I.assume(num.cmp(">=", M, 0)); I.assume(num.cmp(">=", N, 0))
    solve.add_bound(M); solve.add_bound(N)
    circ = SCirc("circ")
    t = I.call(I.get(REG), [], {"circ": circ, "name": name_atom("nm")})
    I.put(t, "attrs", "n", N)
    m = RegMap(M, N, log)
    td = SDict(base=m)
    I.put(t, "attrs", "tqubits", td)
    I.put(t, "attrs", "params", SList(()))
    for suf in ("data", "mx", "mz", "ancilla"):
        tau = fresh_int("old")
        r = SReg("q", 1, mkstr(str_segs(name_atom("nm")) + (Item("_"), Item(tau), Item("_" + suf))))
        r.guard = z3.And(zbool(num.cmp(">=", tau, 0)), zbool(num.cmp("<", tau, N)))
        circ.regs = circ.regs + (Item(r),)
    return t, circ, m, td, N, M


def own_axiom(I, m, key):
    """every logical qubit is in one of the sub-registers"""
    e = z3.And(zbool(num.cmp(">=", key, 0)), zbool(num.cmp("<", key, m.N)))
    o = fn_(OWN, key)
    I.assume(z3.Implies(e, z3.And(zbool(num.cmp(">=", o, 0)), zbool(num.cmp("<", o, m.M)))))


def catch(f):
    try:
        return ("ok", f())
    except PyExc as e:
        return ("exc", e)


def getitem(P):
    fn = "TopologicalRegister.__getitem__"
    I = new_interp(load=[REG])
    key = num.var("key")
    for txt, cond in (("in range", lambda N: [num.cmp(">=", key, 0), num.cmp("<", key, N)]), ("negative", lambda N: [num.cmp("<", key, 0)]), ("too large", lambda N: [num.cmp(">=", key, N)])):
        if not P.mine("getitem", txt): continue

        def thunk():
            t, circ, m, td, N, M = mk_reg(I)
            for c in cond(N): I.assume(c)
            own_axiom(I, m, key)
            kind, r = catch(lambda: I.getitem(t, key))
            if txt != "in range":
                P.prove(I, "an unknown number is an error", kind == "exc", detail="returns %r; " % (r,))
                return
            P.prove(I, "a known number is found", kind == "ok", detail="raises %s; " % (r,))
            if kind != "ok": return
            if not isinstance(r, QRef): raise Unsupported("lookup returns %r" % (r,))
            P.prove(I, "it is the logical qubit with that number", num.cmp("==", r.idx, key))
        P.run(I, "lookup by number, %s" % txt, fn, thunk)
    if P.mine("getitem", "name"):
        c = num.var("c")

        def thunk():
            t, circ, m, td, N, M = mk_reg(I)
            j = fresh_int("js")
            I.assume(num.cmp(">=", j, 0)); I.assume(num.cmp("<", j, M))
            nm = fn_(SNAME, j)
            I.assume(num.cmp("==", fn_(SIDX, nm), j))
            kind, r = catch(lambda: I.getitem(t, AStr(nm)))
            P.prove(I, "a known name is found", kind == "ok", detail="raises %s; " % (r,))
            if kind != "ok": return
            if not (isinstance(r, SDict) and isinstance(r.base, Sub)): raise Unsupported("lookup returns %r" % (r,))
            P.prove(I, "it is that sub-register", num.cmp("==", r.base.j, j))
            P.prove(I, "and all of it", not r.d and not r.ups)
        P.run(I, "lookup by sub-register name", fn, thunk)

        def thunk():
            t, circ, m, td, N, M = mk_reg(I)
            c = fresh_int("c")
            I.assume(bnot(m.axioms(I, c)[1]))
            kind, r = catch(lambda: I.getitem(t, AStr(c)))
            P.prove(I, "an unknown name is an error", kind == "exc", detail="returns %r; " % (r,))
        P.run(I, "lookup by unknown name", fn, thunk)


def own_name(N): return mkstr(str_segs(name_atom("nm")) + (Item("_"), Item(N)))


def check_entry(P, I, q, code, circ, N, sz):
    if not isinstance(q, SObj): raise Unsupported("entry is %r" % (q,))
    P.prove(I, "of the requested type", q.cls is I.get(CODES[code]), detail="%s; " % q.cls.name)
    P.prove(I, "built on the register's circuit", I.getattr(q, "circ") is circ)
    P.prove(I, "named by its number", I.equal(I.getattr(q, "name"), own_name(N)))
    d = I.getattr(I.getattr(q, "lattice"), "params").d["d"]
    P.prove(I, "of the requested height", num.cmp("==", I.getitem(d, 0), sz.h))
    P.prove(I, "of the requested width", num.cmp("==", I.getitem(d, 1), sz.w))


def add_one(P):
    fn = "TopologicalRegister.add_tqubit"
    for code, sz in all_codes():
        for new in (False, True):
            if not P.mine("add", code, str(sz), new): continue
            I = new_interp(sz, load=[REG])

            def thunk():
                t, circ, m, td, N, M = mk_reg(I)
                c = fresh_int("c")
                j, e = m.axioms(I, c)
                I.assume(bnot(e) if new else e)
                prm = {"d": (sz.h, sz.w)}
                if code == "Repetition" and lift(sz.h).const() == 1: prm["phase-flip-protected"] = True
                pd = SDict(prm)
                sub = None if new else m.sub(j)
                mark = len(I.trail)
                oid = Heap.peek()
                I.call(I.getattr(t, "add_tqubit"), [AStr(c), code, pd], {})
                P.prove(I, "n grows by one", num.cmp("==", I.getattr(t, "n"), num.add(N, 1)))
                tq = I.getattr(t, "tqubits")
                if tq is not td: raise Unsupported("sub-register map replaced")
                P.prove(I, "no fixed sub-register is touched", not td.d, detail="%s; " % list(td.d))
                if new:
                    if len(td.ups) < 1 or not all(isinstance(s, Item) for s in td.ups): raise Unsupported("map updates %r" % (td.ups,))
                    P.prove(I, "only this sub-register is created", all(zb(I.equal(s.v[0], AStr(c))) is True for s in td.ups))
                    s = td.ups[-1].v[1]
                    if not isinstance(s, SDict): raise Unsupported("sub-register %r" % (s,))
                    P.prove(I, "the new sub-register has no other contents", s.base is None)
                else:
                    s = sub
                    P.prove(I, "no sub-register is replaced", not td.ups)
                P.prove(I, "other sub-registers keep their contents", all(x is s or (not x.d and not x.ups) for x in m.cache.values()))
                es = list(s.d.items()) + [u.v for u in s.ups if isinstance(u, Item)]
                if len(es) != len(s.d) + len(s.ups): raise Unsupported("sub-register updates")
                P.prove(I, "exactly one entry is added", len(es) == 1, detail="%d; " % len(es))
                if len(es) != 1: return
                P.prove(I, "under the next number", I.equal(es[0][0], N), detail="%r; " % (es[0][0],))
                check_entry(P, I, es[0][1], code, circ, N, sz)
                P.prove(I, "the caller's parameters are not changed", pd.d == prm and not pd.ups and all(x[0] is not pd for x in I.trail[mark:]))
            P.run(I, "add %s %s to %s sub-register" % (code, sz, "a new" if new else "an existing"), fn, thunk)


def add_several(P):
    fn = "TopologicalRegister.add_tqubits"
    CT = z3.Function("ctype_", z3.IntSort(), z3.IntSort())
    if P.mine("several"):
        I = new_interp(load=[REG])
        types = list(CODES)

        def known(x): return z3.Or(*[zbool(num.cmp("==", fn_(CT, x), code_of(t))) for t in types])

        def setup():
            t, circ, m, td, N, M = mk_reg(I)
            log = SList(())

            def contract(I, f, a, k):
                v = dict(zip(("self", "sub_register", "ctype", "params"), a), **k)
                I.put(log, "segs", None, log.segs + (Item((v["sub_register"], v["ctype"], v["params"])),))
            I.contracts["TopologicalRegister.add_tqubit"] = contract
            return t, td, m, N, log

        def state(t, td, m, N, log):
            P.prove(I, "nothing added", not log.segs and not td.d and not td.ups)
            P.prove(I, "count unchanged", num.cmp("==", I.getattr(t, "n"), N))
            P.prove(I, "contents unchanged", all(not x.d and not x.ups for x in m.cache.values()))

        def lists():
            L, Lp = fresh_int("L"), fresh_int("Lp")
            I.assume(num.cmp(">=", L, 0)); I.assume(num.cmp(">=", Lp, 0))
            solve.add_bound(L); solve.add_bound(Lp)
            i, j = fresh_int("i"), fresh_int("j")
            cts = SList((Rep(atom_of(i), L, [((), (Item(AStr(fn_(CT, i))),))]),))
            ps = SList((Rep(atom_of(j), Lp, [((), (Item(QRef(j)),))]),))      # opaque parameter dictionaries, known by their position
            return L, Lp, cts, ps

        def thunk():
            t, td, m, N, log = setup()
            L, Lp, cts, ps = lists()
            kind, r = catch(lambda: I.call(I.getattr(t, "add_tqubits"), [AStr(num.var("sub")), cts, ps], {}))
            x = fresh_int("x")
            xr = z3.And(zbool(num.cmp(">=", x, 0)), zbool(num.cmp("<", x, L)))
            if kind == "exc":
                P.prove(I, "refused only if the lengths differ or a type is unknown",
                        z3.Or(bnot(zbool(num.cmp("==", L, Lp))), z3.Exists([atom_of(x)], z3.And(xr, z3.Not(known(x))))))
                state(t, td, m, N, log)
                return
            P.prove(I, "accepted only if the lengths agree", num.cmp("==", L, Lp))
            I.assume(xr)
            P.prove(I, "accepted only if every type is known", known(x))
            P.prove(I, "as many additions as types", num.cmp("==", I.count(log.segs), L))
            v = I.nth(log.segs, x)
            P.prove(I, "addition x goes to the sub-register", I.equal(v[0], AStr(num.var("sub"))))
            P.prove(I, "addition x has type x", I.equal(v[1], AStr(fn_(CT, x))))
            if not isinstance(v[2], QRef): raise Unsupported("parameters of an addition")
            P.prove(I, "addition x has parameters x", num.cmp("==", v[2].idx, x))
        P.run(I, "add several", fn, thunk)

        for txt, args in (("no lists", ()), ("lists None", (None, None))):
            def thunk():
                t, td, m, N, log = setup()
                I.call(I.getattr(t, "add_tqubits"), [AStr(num.var("sub"))] + list(args), {})
                state(t, td, m, N, log)
            P.run(I, "add several, %s" % txt, fn, thunk)
        for txt, which in (("parameters missing", 0), ("types missing", 1)):
            def thunk():
                t, td, m, N, log = setup()
                L, Lp, cts, ps = lists()
                I.assume(num.cmp(">", L, 0)); I.assume(num.cmp(">", Lp, 0))
                kind, r = catch(lambda: I.call(I.getattr(t, "add_tqubits"), [AStr(num.var("sub"))], {("ctypes", "params")[which]: (cts, ps)[which]}))
                P.prove(I, "refused", kind == "exc")
                state(t, td, m, N, log)
            P.run(I, "add several, %s" % txt, fn, thunk)
    if P.mine("init"):
        I = new_interp(load=[REG])
        log = []

        def thunk():
            log.clear()

            def contract(I, f, a, k):
                log.append(dict(zip(("self", "sub_register", "ctypes", "params"), a), **k))
            I.contracts["TopologicalRegister.add_tqubits"] = contract
            circ = SCirc("circ")
            a, b = SList((Item("XXZZ"),)), SList((Item(SDict({"d": 3})),))
            t = I.call(I.get(REG), [], {"circ": circ, "ctypes": a, "params": b, "name": name_atom("nm")})
            P.prove(I, "numbering starts at 0", num.cmp("==", I.getattr(t, "n"), 0))
            td = I.getattr(t, "tqubits")
            P.prove(I, "no logical qubits yet", isinstance(td, SDict) and not td.d and not td.ups)
            P.prove(I, "uses the given circuit", I.getattr(t, "circ") is circ)
            P.prove(I, "the requested qubits are added once", len(log) == 1)
            if len(log) == 1:
                P.prove(I, "to sub-register data", log[0].get("sub_register") == "data")
                for n, l in (("ctypes", a), ("params", b)):
                    x = log[0].get(n)
                    if not isinstance(x, SList): raise Unsupported("argument of add_tqubits")
                    P.prove(I, "with the requested " + n, x is l or (is_const_segs(x.segs) and len(x.segs) == 1 and x.segs[0].v is l.segs[0].v))
        P.run(I, "new register", "TopologicalRegister.__init__", thunk)


OPS = [("stabilize", "stabilize", ()), ("id", "id", ()), ("id_data", "id_data", ()), ("reset_x", "reset_x", ()), ("reset_z", "reset_z", ()), ("x", "x", ()), ("z", "z", ()),
       ("measure_x", "readout_x", ("readout_creg",)), ("measure_z", "readout_z", ("readout_creg",)), ("measure_lattice_x", "lattice_readout_x", ()),
       ("measure_lattice_z", "lattice_readout_z", ()), ("parse_readout", "parse_readout", ("readout_string", "readout_type"))]


def delegation(P):
    """TopologicalCircuit methods: exactly one call, of the right method of the right logical qubit, with the caller's arguments"""
    for meth, tgt, names in OPS:
        for by in ("object", "number"):
            if not P.mine("deleg", meth, by): continue
            I = new_interp(load=[REG])
            key = num.var("key")

            def thunk(given):
                log = SList(())
                log.result = mkstr((Item(StrAtom("result")),))
                t, circ, m, td, N, M = mk_reg(I, log)
                I.assume(num.cmp(">=", key, 0)); I.assume(num.cmp("<", key, N))
                own_axiom(I, m, key)
                tc = I.call(I.get(CIRC), [t], {})
                vals = [mkstr((Item(StrAtom("arg%d" % i)),)) for i in range(len(names))] if names != ("readout_creg",) else [SReg("c", 1, name_atom("caller"))]
                tqubit = QRef(key, log) if by == "object" else key
                tr, rg = circ.trace, circ.regs
                r = I.call(I.getattr(tc, meth), [tqubit] + vals[:given], {})
                P.prove(I, "exactly one call", len(log.segs) == 1 and is_const_segs(log.segs))
                if len(log.segs) != 1: return
                idx, n, a, k = log.segs[0].v
                P.prove(I, "on the logical qubit asked for", num.cmp("==", idx, key))
                P.prove(I, "of the method %s" % tgt, n == tgt, detail="%s; " % n)
                kw = dict(zip(names, a), **dict(k))
                defaults = {"readout_creg": None, "readout_type": "Z"}
                for i, nme in enumerate(names):
                    if i < given: P.prove(I, "argument %s is passed on" % nme, kw.get(nme) is vals[i] or (nme in kw and I.equal(kw[nme], vals[i])))
                    else: P.prove(I, "argument %s has its default" % nme, kw.get(nme) is defaults[nme] or kw.get(nme, None) == defaults[nme])
                P.prove(I, "no other arguments", set(kw) <= set(names) and len(a) <= len(names))
                if meth == "parse_readout": P.prove(I, "the result is handed back", r is log.result)
                P.prove(I, "no instructions of its own", circ.trace == tr and circ.regs == rg)
            for given in ([0] if not names else [0, 1] if len(names) == 1 else [1, 2]):
                P.run(I, "%s by %s, %d arguments" % (meth, by, given), "TopologicalCircuit." + meth, lambda: thunk(given))


def apart(P):
    """two logical qubits made from one parameter dictionary: operations on one touch nothing of the other"""
    meths = [("stabilize", 0), ("id", 0), ("id_data", 0), ("reset_x", 0), ("reset_z", 0), ("x", 0), ("z", 0), ("x_c_if", 2), ("z_c_if", 2),
             ("readout_x", 0), ("readout_z", 0), ("readout_x", 1), ("readout_z", 1), ("lattice_readout_x", 0), ("lattice_readout_z", 0)]
    for code, sz in all_codes():
        if not P.mine("apart", code, str(sz)): continue
        I = new_interp(sz, load=[REG])
        prm = {"d": (sz.h, sz.w)}
        if code == "Repetition" and lift(sz.h).const() == 1: prm["phase-flip-protected"] = True

        def build():
            circ = SCirc("circ")
            n1, n2 = fresh_int("n1"), fresh_int("n2")
            I.assume(num.cmp("!=", n1, n2))
            pd = SDict(dict(prm))
            mk = lambda n: I.call(I.get(CODES[code]), [pd], {"name": own_name(n), "circ": circ})
            q1 = mk(n1)
            h1 = heap_of(q1, [circ])
            mark = len(I.trail)
            q2 = mk(n2)
            bad = [x for x in I.trail[mark:] if id(x[0]) in h1 or x[0] is pd]
            P.prove(I, "building a second logical qubit changes nothing of the first or of the shared parameters", not bad, detail="%s; " % [(b[1], b[2]) for b in bad][:3])
            havoc_counters(I, q1, circ, str_segs(own_name(n1)))
            havoc_counters(I, q2, circ, str_segs(own_name(n2)))
            I.put(circ, "trace", None, ())
            return circ, q1, q2, n1

        def all_():
            circ, q1, q2, n1 = build()
            for meth, na in meths:
                P.run(I, "%s %s %s%s" % (code, sz, meth, "" if not na else " with arguments"), CODES[code].split(":")[1] + "." + meth, lambda: one(circ, q1, q2, n1, meth, na))

        def one(circ, q1, q2, n1, meth, na):
            creg = SReg("c", 1, name_atom("caller"))
            a = [] if na == 0 else [creg] if na == 1 else [creg, fresh_int("val")]
            h2 = heap_of(q2, [circ])
            mine = regs_of(I, q1)
            mark = len(I.trail)
            nreg = len(circ.regs)
            I.call(I.getattr(q1, meth), a, {})
            bad = [x for x in I.trail[mark:] if id(x[0]) in h2]
            P.prove(I, "nothing of the other logical qubit changes", not bad, detail="%s; " % [(b[1], b[2]) for b in bad][:3])
            new = [s.v for s in circ.regs[nreg:] if isinstance(s, Item)]
            ok = [r for r in mine if r is not None]
            evs = list(walk_events(circ.trace))
            P.prove(I, "only its own qubits", all(any(b.reg is r for r in ok) for e in evs for b in e.qs))
            P.prove(I, "only new or given classical bits", all(any(b.reg is r for r in new + [creg]) for e in evs for b in e.cs))
            own = [r for r in new if r.kind == "c"]
            for r in own:
                pre = str_segs(own_name(n1))
                have = str_segs(r.name_)[:len(pre)]
                if len(have) < len(pre): raise Unsupported("register name %r" % (r.name_,))
                last = have[-1]
                P.prove(I, "new registers carry its own name", repr(have[:-1]) == repr(pre[:-1]) and I.equal(last.v, pre[-1].v) if not isinstance(last.v, str) else False, detail="%r; " % (r.name_,))
            if meth in ("id", "id_data"):
                check_id(P, I, circ, meth, q1, sz)
        P.run(I, "%s %s build two" % (code, sz), "TopologicalQubit.__init__", all_)


def check_id(P, I, circ, meth, q, sz):
    data, mx, mz, anc = regs_of(I, q)
    evs = [e for e in walk_events(circ.trace)]
    P.prove(I, "only identities and barriers", all(e.op in ("id", "barrier") and e.cond is None for e in evs))
    for nm, r, n in (("data", data, sz.nd), ("mx", mx, sz.nx), ("mz", mz, sz.nz), ("ancilla", anc, 1)):
        if r is None: continue
        i = fresh_int("q")
        I.assume(num.cmp(">=", n, 1))
        I.assume(num.cmp(">=", i, 0)); I.assume(num.cmp("<", i, n))
        c = len(gather(I, circ.trace, r, i))
        if meth == "id_data": P.prove(I, "identity on every data qubit and on no other", c == (1 if nm == "data" else 0), detail="%s: %d; " % (nm, c))
        elif nm != "ancilla": P.prove(I, "one identity on every data and syndrome qubit", c == 1, detail="%s: %d; " % (nm, c))


def c14(P):
    P.trusted += ["qiskit: registers and circuits as recording stubs; a second register of the same name on one circuit is refused",
                  "str(n) is injective on the integers (names of registers)"]
    getitem(P)
    add_one(P)
    add_several(P)
    delegation(P)
    apart(P)
