"""Assumed contracts of external packages (qiskit, retworkx, numpy, math, ...)."""
import z3
import num
from num import Num, lift, isnum
from values import *
from interp import Builtin, TypeObj, PyExc, Module, SliceV, Opaque, MISSING, FoldExpr, ExcVal


class CircuitError(Exception):
    pass


class SReg(Stub, Heap):
    """QuantumRegister / ClassicalRegister: named, fixed size"""

    def __init__(self, kind, size, name):
        Heap.__init__(self)
        self.kind, self.size, self.name_ = kind, size, name

    @property
    def rname(self): return repr(self.name_)
    def subst(self, pairs): return self
    def snapshot_(self, omark, memo, f, g): return self
    def __repr__(self): return "%s<%r:%r>" % (self.kind, self.name_, self.size)
    def len_(self, I): return self.size
    def bool_(self, I): return num.cmp(">", self.size, 0)
    def iter_segs(self, I):
        c = lift(self.size).const()
        if c is not None: return tuple(Item(BRef(self, i)) for i in range(int(c)))
        k = fresh_int("k")
        return (Rep(atom_of(k), self.size, [((), (Item(BRef(self, k)),))]),)

    def getitem(self, I, i):
        if isinstance(i, SliceV):
            return SList(I.slice_segs(self.iter_segs(I), i))
        if isinstance(i, (SList, tuple)):
            l = SList(map_items(I.iter_segs(i), lambda v: self.getitem(I, v)))
            return l
        if not isnum(i) and not isinstance(i, (bool,)):
            if isinstance(i, (Poison, Opaque, Fold)): raise Unsupported("register index")
            raise PyExc(CircuitError, ("expected integer or slice index",))
        return BRef(self, I.norm_index(i, self.size))

    def getattr_(self, I, n):
        if n == "size": return self.size
        if n == "name": return self.name_
        raise Unsupported("register attribute " + n)

    def eq_(self, I, o): return self is o
    def contains(self, I, x): return isinstance(x, BRef) and x.reg is self
    def isinstance_(self, I, c): return getattr(c, "regkind", None) in (self.kind, "both")
    def children_(self): return []


class SCirc(Stub, Heap):
    """QuantumCircuit: registers added so far and the trace of instructions"""

    def __init__(self, name="circ"):
        Heap.__init__(self)
        self.trace = ()
        self.regs = ()
        self.nm = name

    def __repr__(self): return "<circuit %s>" % self.nm
    def subst(self, pairs): return self
    def children_(self): return []
    def snapshot_(self, omark, memo, f, g): return self
    def len_(self, I): return I.count(self.trace)
    def bool_(self, I):
        if any(isinstance(s, Item) for s in self.trace): return True
        if not self.trace: return False
        raise Unsupported("truth of a circuit")
    def eq_(self, I, o): return self is o
    def isinstance_(self, I, c): return c.name == "QuantumCircuit"

    def emit(self, I, segs):
        segs = tuple(segs)
        I.put(self, "trace", None, self.trace + segs)
        return InstSet(self, len(segs))

    GATES1 = {"h", "x", "y", "z", "s", "sdg", "t", "tdg", "id", "reset", "i"}
    GATES2 = {"cx", "cz", "cy", "swap", "cnot"}

    def getattr_(self, I, n):
        if n in self.GATES1:
            return Builtin(n, lambda I, a, k: self.emit(I, map_items(self.qargs(I, a[0] if a else k["qubit"]), lambda q: Ev({"i": "id"}.get(n, n), (q,)))))
        if n in self.GATES2:
            def g2(I, a, k):
                a = list(a) + [k[x] for x in ("control_qubit", "target_qubit", "qubit1", "qubit2") if x in k]
                A, B = self.qargs(I, a[0]), self.qargs(I, a[1])
                if is_const_segs(A) and is_const_segs(B) and len(A) == len(B) == 1:
                    q, r = A[0].v, B[0].v
                    if q.reg is r.reg:
                        if I.decide(num.cmp("==", q.idx, r.idx)): raise PyExc(CircuitError, ("duplicate qubit arguments",))
                    return self.emit(I, (Item(Ev({"cnot": "cx"}.get(n, n), (q, r))),))
                if is_const_segs(A) and len(A) == 1:
                    return self.emit(I, map_items(B, lambda r: Ev(n, (A[0].v, r))))
                if is_const_segs(B) and len(B) == 1:
                    return self.emit(I, map_items(A, lambda r: Ev(n, (r, B[0].v))))
                raise Unsupported("broadcast of a two-qubit gate")
            return Builtin(n, g2)
        if n == "measure":
            def meas(I, a, k):
                a = list(a) + [k[x] for x in ("qubit", "cbit") if x in k]
                A, B = self.qargs(I, a[0]), self.cargs(I, a[1])
                na, nb = I.count(A), I.count(B)
                if not I.decide(num.cmp("==", na, nb)):
                    raise PyExc(CircuitError, ("register size error",))
                Z = I.builtins["$zip"](I, [A, B])
                return self.emit(I, map_items(Z, lambda t: Ev("measure", (t[0],), (t[1],))))
            return Builtin(n, meas)
        if n == "barrier": return Builtin(n, lambda I, a, k: self.emit(I, (Item(Ev("barrier")),)))
        if n == "add_register":
            def addr(I, a, k):
                regs = []
                for r in a:
                    if isinstance(r, SReg): regs.append(Item(r))
                    else: raise Unsupported("add_register(%r)" % (r,))
                for r in regs:
                    self.check_name(I, r.v)
                    I.put(self, "regs", None, self.regs + (r,))
            return Builtin(n, addr)
        if n in ("qregs", "cregs"):
            return SList(tuple(s for s in self.regs if isinstance(s, Item) and s.v.kind == n[0]))
        if n == "draw": return Builtin(n, lambda I, a, k: Opaque("drawing"))
        if n == "__str__": return Builtin(n, lambda I, a, k: mkstr((Item(StrAtom("circ")),)))
        if n == "data": return SList(self.trace)
        raise Unsupported("QuantumCircuit.%s" % n)

    def check_name(self, I, reg):
        """qiskit refuses a second register of the same name (quantum or classical)"""
        for s in self.regs:
            if isinstance(s, Item):
                if s.v is reg: raise PyExc(CircuitError, ("register already present",))
                h = getattr(I, "name_eq", None)
                e = h(I, s.v, reg) if h else zb(I.equal(s.v.name_, reg.name_))
                g = getattr(s.v, "guard", None)
                if g is not None and e is not False: e = band(g, e)
                if e is False: continue
                if I.decide(e): raise PyExc(CircuitError, ("register name already exists",))
        I.name_log = getattr(I, "name_log", []) + [reg]

    def qargs(self, I, q):
        if isinstance(q, BRef): return (Item(q),)
        if isinstance(q, SReg): return q.iter_segs(I)
        if isinstance(q, (SList, tuple)):
            segs = I.iter_segs(q)
            map_items(segs, self.chk)
            return segs
        if isinstance(q, Poison): raise Unsupported(q.why)
        if q is None or isinstance(q, str): raise PyExc(CircuitError, ("invalid qubit argument %r" % (q,),))
        raise Unsupported("qubit argument %r" % (q,))

    @staticmethod
    def chk(q):
        if not isinstance(q, BRef):
            if q is None: raise PyExc(CircuitError, ("invalid qubit argument",))
            raise Unsupported("qubit argument %r" % (q,))
        return q

    cargs = qargs


class InstSet(Stub):
    def __init__(self, circ, n): self.circ, self.n = circ, n

    def getattr_(self, I, n):
        if n == "c_if":
            def cif(I, a, k):
                reg = a[0] if a else k["classical"]
                val = a[1] if len(a) > 1 else k["val"]
                if not isinstance(reg, (SReg, BRef)): raise PyExc(CircuitError, ("c_if",))
                t = self.circ.trace
                head, tail = t[:len(t) - self.n], t[len(t) - self.n:]
                I.put(self.circ, "trace", None, head + map_items(tail, lambda e: Ev(e.op, e.qs, e.cs, (reg, val) if e.cond is None else e.cond + ("over", reg, val))))
                return self
            return Builtin("c_if", cif)
        raise Unsupported("InstructionSet.%s" % n)


class RegCls(TypeObj):
    def __init__(self, name, kind):
        TypeObj.__init__(self, name, lambda v: isinstance(v, SReg) and v.kind == kind)
        self.regkind = kind

        def ctor(I, a, k):
            size = a[0] if a else k.get("size")
            name_ = a[1] if len(a) > 1 else k.get("name")
            bits = a[2] if len(a) > 2 else k.get("bits")
            if bits is not None: raise Unsupported("register over existing bits")
            if not isnum(size): raise PyExc(CircuitError, ("register size",))
            if I.decide(num.cmp("<", size, 0)): raise PyExc(CircuitError, ("Register size must be non-negative",))
            if name_ is None:
                name_ = mkstr((Item(StrAtom(fresh_name("auto"))),))
            return SReg(kind, size, name_)
        self.ctor = ctor


def mk_circ(I, a, k):
    c = SCirc(fresh_name("circ"))
    if a or k: raise Unsupported("QuantumCircuit with arguments")
    return c


QC = TypeObj("QuantumCircuit", lambda v: isinstance(v, SCirc), mk_circ)
QR = RegCls("QuantumRegister", "q")
CR = RegCls("ClassicalRegister", "c")


class BitCls(TypeObj):
    def __init__(self, name, kind):
        TypeObj.__init__(self, name, lambda v: isinstance(v, BRef) and v.reg.kind == kind)


def combos(I, a, k):
    segs = I.iter_segs(a[0])
    r = a[1]
    if r == 2 and I.infer and not is_const_segs(segs): return SList(pairs_of(segs))
    if is_const_segs(segs):
        import itertools
        return SList(tuple(Item(t) for t in itertools.combinations([s.v for s in segs], r)))
    h = getattr(I, "combinations_hook", None)
    if h: return h(I, a[0], r)
    raise Unsupported("combinations of a symbolic sequence")


def pairs_of(segs):
    """all pairs of a sequence, in the order of itertools.combinations(..., 2)"""
    out = ()
    for i, s in enumerate(segs):
        later = segs[i + 1:]
        if isinstance(s, Item):
            out += map_items(later, lambda y, x=s.v: (x, y))
        elif isinstance(s, Rep):
            if len(s.vars) != 1 or not all(isinstance(t, Item) for t in s.vars[0][1]): raise Unsupported("combinations of a symbolic sequence")
            s = rename_rep(s)
            its = s.vars[0][1]
            k = kn(s.k)
            inner = ()
            for a, t in enumerate(its):
                inner += map_items(its[a + 1:], lambda y, x=t.v: (x, y))
                m = fresh_int("k")
                nxt = subst_segs(its, [(s.k, num.add(num.add(k, 1), m))])
                inner += (Rep(atom_of(m), num.sub(num.sub(s.N, 1), k), [((), map_items(nxt, lambda y, x=t.v: (x, y)))]),)
                for l in later:
                    inner += map_items((rename_rep(l) if isinstance(l, Rep) else l,), lambda y, x=t.v: (x, y))
            out += (Rep(s.k, s.N, [((), inner)]),)
        else: raise Unsupported("combinations of a symbolic sequence")
    return out


def m_log(I, a, k):
    x = a[0]
    if isinstance(x, (int, float)):
        import math
        if x <= 0: raise PyExc(ValueError, ("math domain error",))
        return math.log(x) if x != 1 else 0.0
    return log_of(I, x, "log")


LOG = z3.Function("log_", z3.RealSort(), z3.RealSort())


def log_of(I, x, which):
    if isinstance(x, Fold):
        import graphs
        pos = I.infer and sum_positive(I, x)
        x = graphs.fold_num(x)
        if pos: I.pc.append(zbool(num.cmp(">", x, 0)))
    z = num.z3_of(x)
    z = z3.ToReal(z) if z3.is_int(z) else z
    if I.decide(num.cmp("<=", x, 0)): raise PyExc(ValueError, ("math domain error",))
    return Num(lift(num.of_atom(LOG(z))).p, True)


def sum_positive(I, F):
    """is a sum positive: no negative item and one positive item"""
    import graphs
    if F.kind != "sum" or not num.isnum(F.init): return False
    neg = z3.BoolVal(False)
    cand = []
    for s in F.segs:
        if isinstance(s, Item):
            neg = z3.Or(neg, zbool(num.cmp("<", s.v, 0))); cand.append(zbool(num.cmp(">", s.v, 0))); continue
        if not isinstance(s, Rep): return False
        s = rename_rep(s)
        v = graphs.at(s.vars, s.k, kn(s.k))
        rng = z3.And(s.k >= 0, s.k < num.z3_of(s.N))
        neg = z3.Or(neg, z3.And(rng, v < 0))
        from interp import consts_of
        for c in list(consts_of(F).values()) + [t for p in I.pc for t in solve_args(p)]:
            if z3.is_int(c): cand.append(z3.substitute(z3.And(rng, v > 0), (s.k, c)))
    if I.possible(neg) or I.possible(zbool(num.cmp("<", F.init, 0))): return False
    seen = set()
    for c in cand:
        if c.get_id() in seen: continue
        seen.add(c.get_id())
        if I.entails(c): return True
    return False


def solve_args(p):
    """index terms of a path condition that may serve as witnesses"""
    import solve
    return [t for t in solve.walk([p]) if z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def product(I, a, k):
    S = [I.iter_segs(x) for x in a]
    rep = k.get("repeat", 1)
    S = S * rep
    acc = SList(())

    def go(i, pre):
        if i == len(S):
            I.put(acc, "segs", None, acc.segs + (Item(pre),)); return
        I.for_segs(S[i], lambda v: go(i + 1, pre + (v,)))
    go(0, ())
    return acc


def chain(I, a, k):
    out = ()
    for x in a: out += I.iter_segs(x)
    return SList(out)


def f_reduce(I, a, k):
    fr = SList((Item(a[2]),)) if len(a) > 2 else None
    from interp import Frame
    holder = Frame()
    segs = I.iter_segs(a[1])
    if len(a) > 2: acc = a[2]
    else:
        if not segs: raise PyExc(TypeError, ("reduce of empty sequence",))
        if not isinstance(segs[0], Item): raise Unsupported("reduce")
        acc = segs[0].v; segs = segs[1:]
    I.put(holder, "vars", "acc", acc)
    I.for_segs(segs, lambda v: I.put(holder, "vars", "acc", I.call(a[0], [I.name("acc", holder), v], {})))
    return I.name("acc", holder)


NUMBER = TypeObj("Number", lambda v: isnum(v) or isinstance(v, (bool, SBool, BitInt)))
INTEGRAL = TypeObj("Integral", lambda v: (isnum(v) and not lift(v).f) or isinstance(v, (bool, SBool)))


def stub_modules():
    import math
    M = {}
    quni = dict(QuantumCircuit=QC, QuantumRegister=QR, ClassicalRegister=CR)
    M["qiskit"] = dict(quni, execute=Opaque("qiskit.execute"), Aer=Opaque("qiskit.Aer"))
    M["qiskit.circuit"] = dict(quni, Qubit=BitCls("Qubit", "q"), Clbit=BitCls("Clbit", "c"))
    M["qiskit.circuit.quantumregister"] = dict(Qubit=BitCls("Qubit", "q"), QuantumRegister=QR)
    M["qiskit.circuit.classicalregister"] = dict(ClassicalRegister=CR, Clbit=BitCls("Clbit", "c"))
    typing = {n: Opaque("typing." + n) for n in ("Dict", "List", "Optional", "Type", "Any", "Union", "Generic", "Callable", "Iterable", "Sequence", "Set", "Iterator")}
    typing["Tuple"] = TypeObj("Tuple", lambda v: isinstance(v, tuple))
    typing["TypeVar"] = Builtin("TypeVar", lambda I, a, k: Opaque("TypeVar"))
    typing["cast"] = Builtin("cast", lambda I, a, k: a[1])
    M["typing"] = typing
    M["abc"] = dict(ABCMeta=Opaque("ABCMeta"), abstractmethod=Opaque("abstractmethod"), ABC=Opaque("ABC"))
    M["numbers"] = dict(Number=NUMBER, Integral=INTEGRAL, Real=NUMBER)
    M["itertools"] = dict(combinations=Builtin("combinations", combos), product=Builtin("product", product), chain=Builtin("chain", chain))
    M["functools"] = dict(reduce=Builtin("reduce", f_reduce))
    M["math"] = dict(log=Builtin("log", m_log), log1p=Builtin("log1p", lambda I, a, k: m_log(I, [num.add(1, a[0])], k)), pi=math.pi, inf=Opaque("inf"),
                     prod=Opaque("prod"), floor=Builtin("floor", lambda I, a, k: math.floor(a[0]) if isinstance(a[0], (int, float)) else a[0] if not lift(a[0]).f else unsup("floor")))
    M["operator"] = dict(xor=Builtin("xor", lambda I, a, k: I.binop(_x, a[0], a[1])), add=Builtin("add", lambda I, a, k: I.binop(_a, a[0], a[1])))
    M["copy"] = dict(copy=Builtin("copy", lambda I, a, k: shallow(I, a[0])), deepcopy=Builtin("deepcopy", lambda I, a, k: deep(I, a[0], {})))
    import graphs
    M["retworkx"] = graphs.retworkx()
    M["qtcodes.circuits.qubit_types"] = None
    del M["qtcodes.circuits.qubit_types"]
    return M


import ast
_x, _a = ast.BitXor(), ast.Add()


def unsup(w): raise Unsupported(w)


def shallow(I, v):
    if isinstance(v, SList): return SList(v.segs)
    if isinstance(v, SDict):
        r = SDict(v.d, v.base); r.ups = v.ups; return r
    if isinstance(v, SSet): return SSet(v.items)
    if isinstance(v, (tuple, str, Str)) or isnum(v) or v is None: return v
    raise Unsupported("copy")


def deep(I, v, memo):
    if isinstance(v, SList): return SList(map_items(v.segs, lambda x: deep(I, x, memo)))
    if isinstance(v, SDict):
        if v.ups or v.base is not None: raise Unsupported("deepcopy")
        return SDict({k: deep(I, x, memo) for k, x in v.d.items()})
    if isinstance(v, tuple): return tuple(deep(I, x, memo) for x in v)
    if isinstance(v, (str, Str, bool, SBool)) or isnum(v) or v is None: return v
    raise Unsupported("deepcopy")
