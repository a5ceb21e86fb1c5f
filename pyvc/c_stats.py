"""C12: look-up-table decoding.  C16: benchmark accounting."""
import ast
import z3
import num, solve
from num import Num, lift
from values import *
from interp import *
from spec import *
from c_register import AStr, code_of

I_, R_ = z3.IntSort(), z3.RealSort()
ROT = DECODERS["XXZZ"]


def fn_(f, *a):
    zs = []
    for i, x in enumerate(a):
        z = num.z3_of(x)
        if f.domain(i) == R_ and z3.is_int(z): z = z3.ToReal(z)
        zs.append(z)
    return num.of_z3(f(*zs))


# ------------------------------------------------------------------ quotients: clear the denominators
def rat(n):
    """(numerator, denominator) polynomials of a number built with true division"""
    n = lift(n)
    P, Q = 0, 1
    for m, c in n.p.items():
        p, q = num.lower(Num({(): c})), 1
        for a in m:
            e = num._atoms[a]
            if z3.is_app_of(e, z3.Z3_OP_DIV):
                x, y = rat(num.of_z3(e.arg(0))), rat(num.of_z3(e.arg(1)))
                p, q = num.mul(p, num.mul(x[0], y[1])), num.mul(q, num.mul(x[1], y[0]))
            else:
                p = num.mul(p, num.of_atom(e))
        if lift(num.sub(q, Q)).const() == 0: P = num.add(P, p)
        else: P, Q = num.add(num.mul(P, q), num.mul(p, Q)), num.mul(Q, q)
    return P, Q


def has_div(e):
    return any(z3.is_app_of(x, z3.Z3_OP_DIV) for x in solve.walk([e]))


def clear(I, b, pos):
    """the same condition without quotients; every denominator is non-zero on this path (ZeroDivisionError branches are separate), its sign is settled by pos"""
    if isinstance(b, bool) or not has_div(b): return b
    k = b.decl().kind()
    ch = b.children()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and not z3.is_bool(ch[0]):
        op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}[k]
        P, Q = rat(num.sub(num.of_z3(ch[0]), num.of_z3(ch[1])))
        if op in ("==", "!="): return zbool(num.cmp(op, P, 0))
        if pos(Q): return zbool(num.cmp(op, P, 0))
        return zbool(num.cmp(op, num.mul(P, Q), 0))
    if ch and all(z3.is_bool(c) for c in ch):
        n = [zbool(clear(I, c, pos)) for c in ch]
        return z3.And(*n) if k == z3.Z3_OP_AND else z3.Or(*n) if k == z3.Z3_OP_OR else z3.Not(n[0]) if k == z3.Z3_OP_NOT else b.decl()(*n)
    return b


def prove_q(P, I, name, goal, positives, detail=""):
    """prove a goal with quotients: every denominator occurring is a product of the given positive numbers or is proved positive"""
    saved = I.pc
    base = [p for p in saved if not has_div(p)]
    memo = {}

    def pos(Q):
        k = lift(Q).key()
        if k not in memo:
            r, _ = solve.solve(base + [zbool(num.cmp(">", x, 0)) for x in positives] + [z3.Not(zbool(num.cmp(">", Q, 0)))], timeout=4000)
            memo[k] = r == "unsat"
        return memo[k]
    try:
        I.pc = base + [zbool(clear(I, p, pos)) for p in saved if has_div(p)]
        g = clear(I, zb(goal), pos)
        return P.prove(I, name, g, detail)
    finally:
        I.pc = saved


# ------------------------------------------------------------------ recorded counts
class Counts:
    """the counts of one run: n readout strings with positive counts; has / count of a given string"""

    def __init__(self, nm):
        self.nm = nm
        self.HAS = z3.Function("has_" + nm, I_, z3.BoolSort())
        self.CNT = z3.Function("cnt_" + nm, I_, I_)
        self.VAL = z3.Function("val_" + nm, I_, I_)
        self.KEY = z3.Function("key_" + nm, I_, I_)
        self.n = num.var("n_" + nm)

    def subst(self, pairs): return self
    def code(self, k):
        if isinstance(k, (AStr, str)): return k.code if isinstance(k, AStr) else code_of(k)
        if k is None or isnum(k) or isinstance(k, tuple): return None
        raise Unsupported("key of a table of counts")

    def has(self, I, o, k):
        c = self.code(k)
        if c is None: return False
        h = self.HAS(num.z3_of(c))
        x = fn_(self.CNT, c)
        I.pc.append(z3.Implies(h, zbool(num.cmp(">=", x, 1))))
        return h

    def get(self, I, o, k):
        if not I.decide(self.has(I, o, k)): raise PyExc(KeyError, (k,))
        return fn_(self.CNT, self.code(k))

    def len_(self, I, o): return self.n

    def seq(self, f):
        j = fresh_int("j")
        return SList((Rep(atom_of(j), self.n, [((), (Item(f(j)),))]),))

    def plain_(self, o):
        if o.d or o.ups: raise Unsupported("iteration over an extended table")

    def values(self, I, o): self.plain_(o); return self.seq(lambda j: fn_(self.VAL, j))
    def keys(self, I, o): self.plain_(o); return self.seq(lambda j: AStr(fn_(self.KEY, j)))
    def items(self, I, o): self.plain_(o); return self.seq(lambda j: (AStr(fn_(self.KEY, j)), fn_(self.VAL, j)))
    def iter_(self, I, o): return self.keys(I, o).segs


def linear(v):
    """(constant, [(coefficient, Rep)]) of a sum of folds"""
    if isnum(v): return v, []
    if isinstance(v, Fold) and v.kind == "sum":
        c, l = linear(v.init)
        for s in v.segs:
            if isinstance(s, Item):
                c2, l2 = linear(s.v); c = num.add(c, c2); l = l + l2
            elif isinstance(s, Rep): l = l + [(1, s)]
            else: raise Unsupported("sum")
        return c, l
    if isinstance(v, FoldExpr):
        if v.op == "Sub":
            (a, x), (b, y) = linear(v.a), linear(v.b)
            return num.sub(a, b), x + [(num.neg(k), r) for k, r in y]
        if v.op == "Mult":
            for a, b in ((v.a, v.b), (v.b, v.a)):
                if isnum(a):
                    c, l = linear(b)
                    return num.mul(a, c), [(num.mul(a, k), r) for k, r in l]
    raise Unsupported("arithmetic on sums")


def ratio(v):
    """(numerator, denominator), each (constant, [(coefficient, Rep)])"""
    if isinstance(v, FoldExpr) and v.op == "Div":
        n, d = ratio(v.a), ratio(v.b)
        if n[1] is None and d[1] is None: return n[0], d[0]
        raise Unsupported("nested quotient of sums")
    if isinstance(v, FoldExpr) and v.op == "Sub" and isnum(v.a):
        (n, d) = ratio(v.b)
        if d is None: return linear(v), None
        sc = lambda k, L: (num.mul(k, L[0]), [(num.mul(k, c), r) for c, r in L[1]])
        a, b = sc(v.a, d), sc(-1, n)
        return (num.add(a[0], b[0]), a[1] + b[1]), d
    return linear(v), None


def prove_sum(P, I, name, lin, N, spec):
    """the linear combination of sums is the sum over k < N of spec(k), term by term"""
    c, l = lin
    P.prove(I, name + ": no constant part", num.cmp("==", c, 0))
    k = fresh_int("k")
    zk = atom_of(k)
    for co, r in l: P.prove(I, name + ": ranges over every entry", num.cmp("==", r.N, N))
    variants = [((), 0)]
    for co, r in l:
        nv = []
        for gs, ss in r.vars:
            pr = [(r.k, k)]
            tot = 0
            for s in subst_segs(ss, pr):
                if not isinstance(s, Item) or not isnum(s.v): raise Unsupported("terms of a sum")
                tot = num.add(tot, s.v)
            g2 = tuple(subst_b(g, pr) for g in gs)
            nv += [(g + g2, num.add(t, num.mul(co, tot))) for g, t in variants]
        variants = nv
    saved = I.pc
    for g, t in variants:
        I.pc = list(saved) + [zbool(num.cmp(">=", k, 0)), zbool(num.cmp("<", k, N))] + list(g)
        P.prove(I, name + ": every term", num.cmp("==", t, spec(k)))
    I.pc = saved


# ------------------------------------------------------------------ C12
def lut_state(I, tag="t"):
    """a decoder whose tables have been set any number of times"""
    cls = I.get(ROT)
    o = SObj(cls)
    tabs, shots = {}, {}
    for t in ("X", "Z"):
        for v in (0, 1):
            tabs[t, v] = Counts("%s%s%d" % (tag, t, v))
            s = num.var("shots_%s%s%d" % (tag, t, v))
            shots[t, v] = s
            I.assume(num.cmp(">=", s, 0))
    T = SDict({t: SDict({v: SDict(base=tabs[t, v]) for v in (0, 1)}) for t in ("X", "Z")})
    S = SDict({t: SDict({v: shots[t, v] for v in (0, 1)}) for t in ("X", "Z")})
    o.attrs = {"look_up_table": T, "look_up_table_shots": S, "params": SDict({"d": (3, 3), "T": 1}), "S": SDict({}), "node_map": SDict({})}
    return o, tabs, shots


def entry(o, what, t, v):
    a = o.attrs[what]
    if not isinstance(a, SDict) or set(a.d) != {"X", "Z"} or a.ups or a.base: raise Unsupported("shape of the tables")
    b = a.d[t]
    if not isinstance(b, SDict) or set(b.d) != {0, 1} or b.ups or b.base: raise Unsupported("shape of the tables")
    return b.d[v]


def same_table(P, I, name, x, base):
    ok = isinstance(x, SDict) and x.base is base and not x.d and not x.ups
    P.prove(I, name, ok)


def empty_tables(P, I, o, limit, own=()):
    """own: the dictionaries that were the decoder's already; the innermost tables may be a caller's"""
    new = lambda x: isinstance(x, SDict) and (x.oid >= limit or any(x is y for y in own))
    P.prove(I, "the tables are new objects, nobody else's", all(new(o.attrs[a]) and all(new(o.attrs[a].d[t]) for t in o.attrs[a].d) for a in ("look_up_table", "look_up_table_shots"))
            and all(new(entry(o, "look_up_table", t, v)) for t in ("X", "Z") for v in (0, 1)))
    for t in ("X", "Z"):
        for v in (0, 1):
            x = entry(o, "look_up_table", t, v)
            if not isinstance(x, SDict): raise Unsupported("shape of the tables")
            P.prove(I, "table %s %d is empty" % (t, v), not x.d and not x.ups and x.base is None)
            s = entry(o, "look_up_table_shots", t, v)
            P.prove(I, "no shots for %s %d" % (t, v), num.cmp("==", s, 0) if isnum(s) else False)
    ids = [id(entry(o, "look_up_table", t, v)) for t in ("X", "Z") for v in (0, 1)]
    P.prove(I, "the four tables are separate", len(set(ids)) == 4)


def base_class(I, name):
    for c in I.get(ROT).mro:
        if c.name == name: return c
    raise Unsupported("class %s" % name)


def c12(P):
    P.assume_txt += ["floating-point numbers are treated as exact rationals (a quotient of two counts and its comparison are exact)",
                     "a table set by the caller is not changed by the caller afterwards (set_look_up_table keeps the object it is given)",
                     "counts are positive integers; tables have the shape set by reset_look_up_table"]
    P.trusted += ["none beyond Python's built-in dict, list, sum, max"]

    def interp():
        return new_interp(None, (), load=DECODERS.values())
    # constructor and reset
    if P.mine("reset"):
        I = interp()

        def thunk():
            o, _, _ = lut_state(I)
            limit = Heap.peek()
            own = [x for a in ("look_up_table", "look_up_table_shots") for x in [o.attrs[a]] + list(o.attrs[a].d.values())]
            r = I.call(I.getattr(o, "reset_look_up_table"), [], {})
            empty_tables(P, I, o, limit, own)
        P.run(I, "reset", "TopologicalDecoder.reset_look_up_table", thunk)

        def thunk():
            o = SObj(I.get(ROT))
            f = base_class(I, "TopologicalDecoder").lookup("__init__")
            limit = Heap.peek()
            I.call(Bound(f, o), [SDict({"d": (3, 3), "T": 1})], {})
            empty_tables(P, I, o, limit)
        P.run(I, "new decoder", "TopologicalDecoder.__init__", thunk)
    for t in ("X", "Z"):
        for v in (0, 1):
            if not P.mine("set", t, v): continue
            I = interp()

            def thunk():
                o, tabs, shots = lut_state(I)
                res = Counts("res")
                I.assume(num.cmp(">=", res.n, 0))
                rd = SDict(base=res)
                I.call(I.getattr(o, "set_look_up_table"), [t, v, rd], {})
                for t2 in ("X", "Z"):
                    for v2 in (0, 1):
                        x, s = entry(o, "look_up_table", t2, v2), entry(o, "look_up_table_shots", t2, v2)
                        if (t2, v2) == (t, v):
                            same_table(P, I, "the table is the given one", x, res)
                            n, d = ratio(s)
                            if d is not None: raise Unsupported("shots")
                            prove_sum(P, I, "shots", n, res.n, lambda k: fn_(res.VAL, k))
                        else:
                            same_table(P, I, "table %s %d unchanged" % (t2, v2), x, tabs[t2, v2])
                            P.prove(I, "shots %s %d unchanged" % (t2, v2), num.cmp("==", s, shots[t2, v2]) if isnum(s) else False)
                same_table(P, I, "the given counts are not modified", rd, res)
            P.run(I, "set %s %d" % (t, v), "TopologicalDecoder.set_look_up_table", thunk)
    # queries
    for t in ("X", "Z"):
        for pres in ((1, 1), (1, 0), (0, 1)):
            for prior in (None, "given", "positional"):
                if not P.mine("look", t, pres, prior): continue
                I = interp()
                s = AStr(num.var("s"))

                def setup():
                    o, tabs, shots = lut_state(I)
                    c = []
                    for v in (0, 1):
                        h = tabs[t, v].HAS(num.z3_of(s.code))
                        I.assume(h if pres[v] else z3.Not(h))
                        x = fn_(tabs[t, v].CNT, s.code)
                        if pres[v]:
                            I.assume(num.cmp(">=", x, 1)); I.assume(num.cmp(">=", shots[t, v], x))
                        c.append(x if pres[v] else 0)
                    return o, tabs, shots, c

                def frame(o, tabs, shots):
                    for t2 in ("X", "Z"):
                        for v2 in (0, 1):
                            same_table(P, I, "table %s %d unchanged" % (t2, v2), entry(o, "look_up_table", t2, v2), tabs[t2, v2])
                            x = entry(o, "look_up_table_shots", t2, v2)
                            P.prove(I, "shots %s %d unchanged" % (t2, v2), num.cmp("==", x, shots[t2, v2]) if isnum(x) else False)

                def thunk():
                    o, tabs, shots, c = setup()
                    pr = [num.var("prior0", True), num.var("prior1", True)] if prior else [0.5, 0.5]
                    N = [shots[t, v] for v in (0, 1)]
                    if prior:
                        for p in pr: I.assume(num.cmp(">=", p, 0))
                        # p(s) > 0
                        I.assume(z3.Or(*[z3.And(zbool(num.cmp(">", pr[v], 0)), z3.BoolVal(bool(pres[v]))) for v in (0, 1)]))
                    pl = SList((Item(pr[0]), Item(pr[1])))
                    kw = {} if prior in (None, "positional") else {"p_i": pl}
                    args = [s, t] + ([pl] if prior == "positional" else [])
                    r = I.call(I.getattr(o, "_run_look_up"), args, kw)
                    segs = I.iter_segs(r)
                    if not is_const_segs(segs): raise Unsupported("result of _run_look_up")
                    P.prove(I, "two probabilities", len(segs) == 2)
                    r = [x.v for x in segs]
                    if not all(isnum(x) for x in r): raise Unsupported("result of _run_look_up")
                    posi = [N[v] for v in (0, 1) if pres[v]]
                    prove_q(P, I, "the probabilities add up to 1", num.cmp("==", num.add(r[0], r[1]), 1), posi)
                    w = [num.mul(num.mul(pr[v], c[v]), N[1 - v] if pres[1 - v] else 1) for v in (0, 1)]     # prior * count / shots, times N0 N1
                    prove_q(P, I, "proportional to prior * count / shots", num.cmp("==", num.mul(r[0], w[1]), num.mul(r[1], w[0])), posi)
                    for i in (0, 1): prove_q(P, I, "probability %d is not negative" % i, num.cmp(">=", r[i], 0), posi)
                    frame(o, tabs, shots)
                    ps = I.iter_segs(pl)
                    P.prove(I, "the prior is not modified", is_const_segs(ps) and len(ps) == 2 and all(num.cmp("==", ps[i].v, pr[i]) is True for i in (0, 1)))
                P.run(I, "probabilities %s, in tables %s, prior %s" % (t, pres, prior or "default"), "TopologicalDecoder._run_look_up", thunk)
                if prior: continue

                def thunk():
                    o, tabs, shots, c = setup()
                    N = [shots[t, v] for v in (0, 1)]
                    posi = [N[v] for v in (0, 1) if pres[v]]
                    r = I.call(I.getattr(o, "correct_readout_look_up_table"), [s, t], {})
                    if not isnum(r): raise Unsupported("decoded value %r" % (r,))
                    w = [num.mul(c[v], N[1 - v] if pres[1 - v] else 1) for v in (0, 1)]
                    P.prove(I, "a logical value", z3.Or(zbool(num.cmp("==", r, 0)), zbool(num.cmp("==", r, 1))))
                    prove_q(P, I, "0 exactly when at least as probable", zbool(num.cmp("==", r, 0)) == zbool(num.cmp(">=", w[0], w[1])), posi)
                    frame(o, tabs, shots)
                P.run(I, "decoded value %s, in tables %s" % (t, pres), "TopologicalDecoder.correct_readout_look_up_table", thunk)


# ------------------------------------------------------------------ C16
BENCH = "qtcodes.tools.benchmarking:TopologicalBenchmark"
DEC = z3.Function("decoded", I_, I_, z3.BoolSort(), R_, I_)      # readout string, readout type, probability given?, probability
LER = z3.Function("ler", R_, z3.BoolSort(), R_, R_)              # logical rate of the run at a physical rate, decoded with a probability


def opt(p):
    """(given?, value) of an optional probability"""
    if p is None: return z3.BoolVal(False), z3.RealVal(0)
    if not isnum(p): raise Unsupported("probability %r" % (p,))
    z = num.z3_of(p)
    return z3.BoolVal(True), z3.ToReal(z) if z3.is_int(z) else z


def ler(p, e):
    z = num.z3_of(p)
    return num.of_z3(LER(z3.ToReal(z) if z3.is_int(z) else z, *opt(e)))


class DecStub(Stub):
    """a decoder: correct_readout is some function of its arguments (C09, C10)"""

    def __init__(self, params): self.params = params

    def getattr_(self, I, n):
        if n == "params": return self.params
        if n == "correct_readout":
            def f(I, a, k):
                names = ["syndromes", "logical_readout_type", "logical_qubit_value", "err_prob"]
                d = dict(zip(names, a))
                for x, v in k.items():
                    if x in d or x not in names: raise PyExc(TypeError, (x,))
                    d[x] = v
                if "syndromes" not in d or "logical_readout_type" not in d: raise PyExc(TypeError, ("missing argument",))
                if d.get("logical_qubit_value") is not None: raise Unsupported("logical_qubit_value")
                s, t = d["syndromes"], d["logical_readout_type"]
                if not isinstance(s, AStr) or not isinstance(t, str): raise Unsupported("arguments of correct_readout")
                r = num.of_z3(DEC(num.z3_of(s.code), z3.IntVal(code_of(t)), *opt(d.get("err_prob"))))
                I.pc.append(z3.Or(num.z3_of(r) == 0, num.z3_of(r) == 1))
                return r
            return Builtin(n, f)
        raise Unsupported("decoder.%s" % n)


class Arr(Stub):
    """one-dimensional numpy array: length, elements, and which numbers it holds (a description invariant under reordering)"""

    def __init__(self, n, f, bag): self.n, self.f, self.bag = n, f, bag

    def subst(self, pairs):
        k0 = num.var("subst_k")
        e = self.f(k0)
        e2 = subst(e, pairs)
        n2 = subst(self.n, pairs)
        if lift(num.sub(e2, e)).const() == 0 and lift(num.sub(n2, self.n)).const() == 0: return self
        return Arr(n2, lambda k: subst(subst(self.f(k0), pairs), [(atom_of(k0), k)]), ("renamed",) + (tuple(map(str, pairs)), self.bag))

    def len_(self, I): return self.n
    def isinstance_(self, I, c): return False
    def children_(self): return []

    def iter_segs(self, I):
        k = fresh_int("k")
        return (Rep(atom_of(k), self.n, [((), (Item(self.f(k)),))]),)

    def getitem(self, I, i):
        if isinstance(i, Perm):
            if lift(num.sub(i.n, self.n)).const() != 0: raise Unsupported("index array of another length")
            return Arr(self.n, lambda k: self.f(i.at(k)), self.bag)
        if isinstance(i, SliceV) and i == (None, None, -1):
            return Arr(self.n, lambda k: self.f(num.sub(num.sub(self.n, 1), k)), self.bag)
        if isnum(i): return self.f(I.norm_index(i, self.n))
        raise Unsupported("array subscript")

    def getattr_(self, I, n):
        if n == "size": return self.n
        if n in ("tolist", "copy"): return Builtin(n, lambda I, a, k: Arr(self.n, self.f, self.bag))
        if n == "argsort": return Builtin(n, lambda I, a, k: argsort(I, [self] + list(a), k))
        raise Unsupported("array.%s" % n)


class Perm(Stub):
    def __init__(self, n, at): self.n, self.at = n, at

    def subst(self, pairs):
        k0 = num.var("subst_k")
        e, n2 = self.at(k0), subst(self.n, pairs)
        if lift(num.sub(subst(e, pairs), e)).const() == 0 and lift(num.sub(n2, self.n)).const() == 0: return self
        raise Unsupported("index array that depends on a loop")

    def getitem(self, I, i):
        if isinstance(i, SliceV) and i == (None, None, -1):
            return Perm(self.n, lambda k: self.at(num.sub(num.sub(self.n, 1), k)))
        raise Unsupported("index array")

    def iter_segs(self, I):
        k = fresh_int("k")
        return (Rep(atom_of(k), self.n, [((), (Item(self.at(k)),))]),)


def ordering(I, n, f, down=False):
    """a permutation that sorts f: 0..n-1"""
    SG = z3.Function(fresh_name("sigma"), I_, I_)
    s = lambda k: fn_(SG, k)
    a, b = fresh_int("a"), fresh_int("b")
    za, zb_ = atom_of(a), atom_of(b)
    zn = num.z3_of(n)
    I.pc.append(z3.ForAll([za], z3.Implies(z3.And(za >= 0, za < zn), z3.And(SG(za) >= 0, SG(za) < zn)), patterns=[SG(za)]))
    le = zbool(num.cmp(">=" if down else "<=", f(s(a)), f(s(b))))
    I.pc.append(z3.ForAll([za, zb_], z3.Implies(z3.And(za >= 0, za <= zb_, zb_ < zn), le), patterns=[z3.MultiPattern(SG(za), SG(zb_))]))
    I.perms = getattr(I, "perms", []) + [(SG, n)]
    return Perm(n, s)


def argsort(I, a, k):
    x = to_arr(I, a[0])
    if k or len(a) > 1:
        if set(k) - {"kind"} or len(a) > 1: raise Unsupported("argsort")
    return ordering(I, x.n, x.f)


def bag_of(I, n, f):
    """description of the numbers f(0..n-1): permutations applied to the whole index range are dropped"""
    k = num.var("bag_k")
    e = f(k)
    for _ in range(8):
        done = True
        z = num.z3_of(e)
        for SG, m in getattr(I, "perms", []):
            t = SG(num.z3_of(k))
            if lift(num.sub(m, n)).const() != 0 or not any(x.eq(t) for x in solve.walk([z])): continue
            kk = num.var("bag_t")
            z2 = z3.substitute(z, (t, num.z3_of(kk)))
            if any(x.eq(num.z3_of(k)) for x in solve.walk([z2])): continue
            e = num.subst(num.of_z3(z2), [(atom_of(kk), k)])
            done = False
            break
        if done: break
    return ("all", lift(n).key(), lift(e).key())


def to_arr(I, v):
    if isinstance(v, Arr): return v
    segs = I.iter_segs(v)
    if is_const_segs(segs):
        vs = [s.v for s in segs]
        if not all(isnum(x) for x in vs): raise Unsupported("array of %r" % (vs[:2],))

        def f(k):
            c = lift(k).const()
            if c is not None: return vs[int(c)]
            r = vs[-1]
            for i in range(len(vs) - 2, -1, -1): r = ite_num(num.cmp("==", k, i), vs[i], r)
            return r
        return Arr(len(vs), f, ("consts",) + tuple(sorted(str(lift(x).key()) for x in vs)))
    if len(segs) == 1 and isinstance(segs[0], Rep) and len(segs[0].vars) == 1 and len(segs[0].vars[0][1]) == 1 and isinstance(segs[0].vars[0][1][0], Item):
        r = segs[0]
        v = r.vars[0][1][0].v
        if not isnum(v): raise Unsupported("array of %r" % (v,))
        f = lambda k: subst(v, [(r.k, k)])
        return Arr(r.N, f, bag_of(I, r.N, f))
    if all(isinstance(s, Item) or isinstance(s, Rep) for s in segs) and isinstance(segs[-1], Item):
        return np_append(I, [SList(segs[:-1]), segs[-1].v], {})
    raise Unsupported("array of a symbolic sequence")


def np_append(I, a, k):
    if k or len(a) != 2: raise Unsupported("np.append")
    x = to_arr(I, a[0])
    if not isnum(a[1]): raise Unsupported("np.append")
    v = a[1]
    return Arr(num.add(x.n, 1), lambda i: ite_num(num.cmp("<", i, x.n), x.f(i), v) if lift(x.n).const() != 0 else v, ("append", x.bag, lift(v).key()))


class Npz(Stub):
    def __init__(self, d): self.d = d
    def subst(self, pairs): return Npz({k: subst(v, pairs) for k, v in self.d.items()})

    def getitem(self, I, k):
        if k in self.d: return self.d[k]
        raise PyExc(KeyError, (k,))

    def contains(self, I, k): return k in self.d


class World(Heap, Stub):
    """what the code did to the outside: files written, pairs handed to append_data"""

    def __init__(self):
        Heap.__init__(self)
        self.saved_, self.pairs_ = SList(), SList()
        self.exists = None
    def children_(self): return []
    @property
    def saved(self): return self.saved_.segs
    @property
    def pairs(self): return self.pairs_.segs


class PBar(Stub):
    def __init__(self, v): self.v = v
    def subst(self, pairs): return PBar(subst(self.v, pairs))
    def iter_segs(self, I): return I.iter_segs(self.v)
    def len_(self, I): return I.length(self.v)

    def getattr_(self, I, n):
        if n in ("set_description", "set_description_str", "set_postfix", "set_postfix_str", "update", "close", "write", "refresh"): return Builtin(n, lambda I, a, k: None)
        raise Unsupported("tqdm.%s" % n)


class Tok(Stub):
    def __init__(self, **k): self.__dict__.update(k)
    def subst(self, pairs): return Tok(**{k: subst(v, pairs) for k, v in self.__dict__.items()})
    def getattr_(self, I, n):
        if n in self.__dict__ and n.startswith("m_"): return None
        f = self.__dict__.get("meth", {}).get(n)
        if f is None: raise Unsupported("attribute %s" % n)
        return Builtin(n, f)


class RunCounts(Stub):
    """the counts of the run at a physical rate"""

    def __init__(self, p): self.p = p
    def subst(self, pairs): return RunCounts(subst(self.p, pairs))


class Job(Stub):
    def __init__(self, p, st): self.p, self.st = p, st
    def subst(self, pairs): return Job(subst(self.p, pairs), self.st)

    def getattr_(self, I, n):
        if n == "result" and self.st == 0: return Builtin(n, lambda I, a, k: Job(self.p, 1))
        if n == "get_counts" and self.st == 1: return Builtin(n, lambda I, a, k: RunCounts(self.p))
        raise Unsupported("job.%s" % n)


class Noise(Stub):
    def __init__(self, p): self.p = p
    def subst(self, pairs): return Noise(subst(self.p, pairs))


def bench_interp(P, W, hyps=()):
    I = new_interp(None, hyps)

    def execute(I, a, k):
        if len(a) < 1: raise Unsupported("execute")
        circ = a[0]
        P.prove(I, "the benchmark's circuit is simulated", circ is W.circ)
        be = a[1] if len(a) > 1 else k.get("backend")
        P.prove(I, "on the simulator", isinstance(be, Tok) and be.nm == "aer_simulator")
        nm = k.get("noise_model")
        if not isinstance(nm, Noise): raise Unsupported("noise model %r" % (nm,))
        sh = k.get("shots")
        P.prove(I, "with the requested number of shots", isnum(sh) and num.cmp("==", sh, W.shots))
        return Job(nm.p, 0)
    aer = Tok(nm="Aer", meth={"get_backend": lambda I, a, k: Tok(nm=a[0])})
    I.stubs["qiskit"].update(execute=Builtin("execute", execute), Aer=aer)

    def load(I, a, k):
        if k: raise Unsupported("np.load options")
        W.same_name(P, I, "the benchmark's own file is read", a[0])
        if I.decide(W.exists): return Npz(W.old)
        raise PyExc(FileNotFoundError, ())

    def savez(I, a, k):
        if len(a) != 1: raise Unsupported("np.savez")
        I.put(W.saved_, "segs", None, W.saved + (Item((a[0], dict(k))),))
    np_ = dict(array=Builtin("array", lambda I, a, k: to_arr(I, a[0])), asarray=Builtin("asarray", lambda I, a, k: to_arr(I, a[0])), argsort=Builtin("argsort", argsort),
               append=Builtin("append", np_append), load=Builtin("load", load), savez=Builtin("savez", savez))
    I.stubs["numpy"] = np_
    I.stubs["tqdm"] = dict(tqdm=Builtin("tqdm", lambda I, a, k: PBar(a[0])))
    I.stubs["glob"] = dict(glob=Builtin("glob", lambda I, a, k: I.the_files(a[0])))
    I.modules.pop("numpy", None)

    def sorted_hook(I, segs, k):
        down = k.get("reverse", False)
        if not isinstance(down, bool) or set(k) - {"reverse"}: raise Unsupported("sorted")
        if is_const_segs(segs) and all(isinstance(s.v, (int, float)) for s in segs):
            return SList(tuple(Item(x) for x in sorted((s.v for s in segs), reverse=down)))
        x = to_arr(I, SList(segs))
        p = ordering(I, x.n, x.f, down)
        k = fresh_int("k")
        return SList((Rep(atom_of(k), x.n, [((), (Item(x.f(p.at(k))),))]),))
    I.sorted_hook = sorted_hook

    def ler_contract(I, f, args, kw):
        fr = Frame()
        I.bind_args(f, args, kw, fr)
        ps = [p.arg for p in f.node.args.args]
        if len(ps) != 3: raise Unsupported("signature of logical_error_rate")
        c, e = fr.vars[ps[1]], fr.vars[ps[2]]
        if not isinstance(c, RunCounts): raise Unsupported("logical_error_rate of %r" % (c,))
        return ler(c.p, e)

    def append_contract(I, f, args, kw):
        fr = Frame()
        I.bind_args(f, args, kw, fr)
        ps = [p.arg for p in f.node.args.args]
        if len(ps) != 3: raise Unsupported("signature of append_data")
        I.put(W.pairs_, "segs", None, W.pairs + (Item((fr.vars[ps[1]], fr.vars[ps[2]])),))
    W.ler_contract, W.append_contract = ler_contract, append_contract
    I.get(BENCH)
    return I


def mk_bench(I, W):
    W.circ = SCirc("circ")
    W.d, W.T, W.v = (num.var("dh"), num.var("dw")), num.var("T"), num.var("v")
    I.assume(z3.Or(num.z3_of(W.v) == 0, num.z3_of(W.v) == 1))
    dec = DecStub(SDict({"d": W.d, "T": W.T}))
    noise = Builtin("noise_model_func", lambda I, a, k: Noise(a[0]))
    b = I.call(I.get(BENCH), [dec, W.circ], {"noise_model_func": noise, "correct_logical_value": W.v})
    W.name = I.getattr(b, "filename")
    W.dec = dec

    def same_name(P, I, what, x):
        P.prove(I, what, x is W.name or (isinstance(x, (str, Str)) and repr(x) == repr(W.name)))
    W.same_name = same_name
    return b


from stubs import SCirc


def check_pairs(P, I, what, n, f, g, err):
    """g(i) is the logical rate of the run at f(i)"""
    i = fresh_int("i")
    saved = I.pc
    I.pc = list(saved) + [zbool(num.cmp(">=", i, 0)), zbool(num.cmp("<", i, n))]
    P.prove(I, what, num.cmp("==", g(i), ler(f(i), err(f(i)))))
    I.pc = saved


def increasing(P, I, what, n, f):
    i, j = fresh_int("i"), fresh_int("j")
    saved = I.pc
    I.pc = list(saved) + [zbool(num.cmp(">=", i, 0)), zbool(num.cmp("<=", i, j)), zbool(num.cmp("<", j, n))]
    P.prove(I, what, num.cmp("<=", f(i), f(j)))
    I.pc = saved


def appended(P, I, W, b, ex, tag):
    """append_data with a results file of any contents (or none): what it leaves on disk"""
    W.exists = ex
    m = fresh_int("m" + tag)
    I.assume(num.cmp(">=", m, 0))
    OP, OL = z3.Function("oldp" + tag, I_, R_), z3.Function("oldl" + tag, I_, R_)
    op, ol = (lambda k: fn_(OP, k)), (lambda k: fn_(OL, k))
    W.old = {"d": Opaque("d"), "T": Opaque("T"), "physical_error_rates": Arr(m, op, ("old p" + tag,)), "logical_error_rates": Arr(m, ol, ("old l" + tag,))}
    p, l = num.var("p" + tag, True), num.var("l" + tag, True)
    I.call(I.getattr(b, "append_data"), [p, l], {})
    P.prove(I, "one file is written", len(W.saved) == 1)
    if len(W.saved) != 1: return
    nm, kw = W.saved[0].v
    W.same_name(P, I, "the benchmark's own file is written", nm)
    P.prove(I, "distance stored", isinstance(kw.get("d"), tuple) and kw["d"] == W.d)
    P.prove(I, "rounds stored", isnum(kw.get("T")) and num.cmp("==", kw["T"], W.T))
    P.prove(I, "stored under the names read back", set(kw) == {"d", "T", "physical_error_rates", "logical_error_rates"})
    x, y = kw.get("physical_error_rates"), kw.get("logical_error_rates")
    if not isinstance(x, Arr) or not isinstance(y, Arr): raise Unsupported("saved arrays")
    M = m if ex else 0
    P.prove(I, "one more pair than before", z3.And(zbool(num.cmp("==", x.n, num.add(M, 1))), zbool(num.cmp("==", y.n, num.add(M, 1)))))
    P.prove(I, "the rates are the saved ones and the new one", x.bag == ("append", ("old p" + tag,) if ex else ("consts",), lift(p).key()), detail=repr(x.bag))
    np2 = (lambda k: ite_num(num.cmp("<", k, M), op(k), p)) if ex else (lambda k: p)
    nl2 = (lambda k: ite_num(num.cmp("<", k, M), ol(k), l)) if ex else (lambda k: l)
    i = fresh_int("i")
    wit = [i] + [fn_(SG, i) for SG, n in getattr(I, "perms", [])]
    saved = I.pc
    I.pc = list(saved) + [zbool(num.cmp(">=", i, 0)), zbool(num.cmp("<=", i, M))]
    P.prove(I, "every logical rate stays with its physical rate",
            z3.Or(*[z3.And(zbool(num.cmp(">=", w, 0)), zbool(num.cmp("<=", w, M)), zbool(num.cmp("==", x.f(i), np2(w))), zbool(num.cmp("==", y.f(i), nl2(w)))) for w in wit]))
    I.pc = saved
    increasing(P, I, "in increasing order of physical rate", x.n, x.f)


def c16(P):
    P.trusted += ["qiskit execute/Aer: the counts of a run are named by the physical rate its noise model was made for", "numpy array/append/argsort/savez/load, sorted and tqdm by their documented meaning",
                  "the decoder's correct_readout is a function of its arguments (C09, C10)"]
    P.assume_txt += ["floating-point numbers are treated as exact rationals", "at least one shot was counted; a results file, where there is one, holds two arrays of equal length",
                     "sweep_mp is outside (KNOWN-FINDING: it cannot run)"]
    # logical_error_rate
    for prob in (None, "given"):
        if not P.mine("ler", prob): continue
        W = World()
        I = bench_interp(P, W)

        def thunk():
            b = mk_bench(I, W)
            C = Counts("run")
            I.assume(num.cmp(">=", C.n, 1))
            e = num.var("p", True) if prob else None
            rd = SDict(base=C)
            kw = {"err_prob": e} if prob else {}
            mark, limit = len(I.trail), Heap.peek()
            r = I.call(I.getattr(b, "logical_error_rate"), [rd], kw)
            keeps(P, I, mark, limit, lambda o, slot, key: False, "a benchmark remembers nothing of the counts")
            if isnum(r): raise Unsupported("rate %r" % (r,))
            n, d = ratio(r)
            if d is None: raise Unsupported("rate %r" % (r,))
            val = lambda k: fn_(C.VAL, k)

            def wrong(k):
                x = num.of_z3(DEC(num.z3_of(fn_(C.KEY, k)), z3.IntVal(code_of("Z")), *opt(e)))
                return ite_num(num.cmp("!=", x, W.v), val(k), 0)
            prove_sum(P, I, "all shots", d, C.n, val)
            prove_sum(P, I, "shots decoded to another value", n, C.n, wrong)
            same_table(P, I, "the counts are not modified", rd, C)
        P.run(I, "rate, probability %s" % (prob or "none"), "TopologicalBenchmark.logical_error_rate", thunk)
    # append_data: also by a benchmark that has written before, other benchmarks having changed the file since
    for ex in (True, False):
        for ex2 in (None, True, False):
            if not P.mine("append", ex, ex2): continue
            W = World()
            I = bench_interp(P, W)

            def thunk():
                I.perms = []
                b = mk_bench(I, W)
                mark, limit = len(I.trail), Heap.peek()
                appended(P, I, W, b, ex, "")
                keeps(P, I, mark, limit, lambda o, slot, key: o is W.saved_, "a benchmark remembers nothing of what it saved")
                if ex2 is None: return
                I.put(W.saved_, "segs", None, ())
                appended(P, I, W, b, ex2, "2")
            P.run(I, "append to %s file%s" % ("an existing" if ex else "a missing", "" if ex2 is None else ", then to %s file" % ("a changed" if ex2 else "a removed")),
                  "TopologicalBenchmark.append_data", thunk)
    # the file name tells the distance and the number of rounds
    if P.mine("file"):
        W, W2 = World(), World()
        I = bench_interp(P, W)

        def thunk():
            b = mk_bench(I, W)
            d2, T2 = (num.var("dh2"), num.var("dw2")), num.var("T2")
            b2 = I.call(I.get(BENCH), [DecStub(SDict({"d": d2, "T": T2})), W.circ], {})
            same = zbool(I.equal(W.name, I.getattr(b2, "filename")))
            other = z3.Or(*[zbool(num.cmp("!=", x, y)) for x, y in zip(W.d + (W.T,), d2 + (T2,))])
            P.prove(I, "different distances or rounds are kept in different files", z3.Implies(other, z3.Not(same)))
            P.prove(I, "equal distances and rounds share a file", z3.Implies(z3.Not(other), same))
        P.run(I, "file", "TopologicalBenchmark.__init__", thunk)
    # single and sweep
    for save in (True, False):
        if P.mine("single", save):
            W = World()
            I = bench_interp(P, W)

            def thunk():
                b = mk_bench(I, W)
                W.shots = num.var("shots")
                I.contracts["TopologicalBenchmark.logical_error_rate"] = W.ler_contract
                I.contracts["TopologicalBenchmark.append_data"] = W.append_contract
                p = num.var("p", True)
                mark, limit = len(I.trail), Heap.peek()
                r = I.call(I.getattr(b, "single"), [p], {"save_data": save, "shots": W.shots})
                keeps(P, I, mark, limit, lambda o, slot, key: o is W.pairs_, "a benchmark remembers nothing of a single run")
                P.prove(I, "the rate of the run at the given physical rate", isnum(r) and num.cmp("==", r, ler(p, p)))
                P.prove(I, "saved once if asked for", len(W.pairs) == (1 if save else 0))
                for s in W.pairs:
                    a, c = s.v
                    P.prove(I, "the pair saved", z3.And(zbool(num.cmp("==", a, p)), zbool(num.cmp("==", c, r))))
            P.run(I, "single, save %s" % save, "TopologicalBenchmark.single", thunk)
        for deg in (True, False):
            for rates in ("given", "default"):
                if not P.mine("sweep", save, deg, rates): continue
                W = World()
                I = bench_interp(P, W)

                def thunk():
                    I.perms = []
                    b = mk_bench(I, W)
                    W.shots = num.var("shots")
                    I.contracts["TopologicalBenchmark.logical_error_rate"] = W.ler_contract
                    I.contracts["TopologicalBenchmark.append_data"] = W.append_contract
                    # an earlier sweep may have left results behind
                    for key in ("physical_error_rates", "logical_error_rates"):
                        I.put(I.getattr(b, "data"), "d", key, SList((Item(num.var("left_" + key, True)),)))
                    kw = {"save_data": save, "shots": W.shots, "deg_weight": deg}
                    dflt = [0.04, 0.07, 0.10, 0.13, 0.16]
                    if rates == "given":
                        n = fresh_int("n")
                        I.assume(num.cmp(">=", n, 0))
                        QF = z3.Function("rate", I_, R_)
                        k = fresh_int("k")
                        lst = SList((Rep(atom_of(k), n, [((), (Item(fn_(QF, k)),))]),))
                        kw["physical_error_rates"] = lst
                        want = to_arr(I, lst).bag
                        segs0 = lst.segs
                    else:
                        n = 5
                        want = to_arr(I, SList(tuple(Item(x) for x in dflt))).bag
                    D0 = I.getattr(b, "data")
                    mine = [D0] + list(D0.d.values())
                    mark, limit = len(I.trail), Heap.peek()
                    I.call(I.getattr(b, "sweep"), [], kw)
                    keeps(P, I, mark, limit, lambda o, slot, key: o is W.pairs_ or any(o is x for x in mine) or (o is b and key == "data"), "a benchmark remembers its last results only")
                    err = (lambda p: p) if deg else (lambda p: None)
                    if rates == "given": P.prove(I, "the caller's list is not modified", lst.segs is segs0)
                    D = I.getattr(b, "data")
                    P.prove(I, "results under their two names", isinstance(D, SDict) and set(D.d) == {"physical_error_rates", "logical_error_rates"})
                    x, y = to_arr(I, D.d["physical_error_rates"]), to_arr(I, D.d["logical_error_rates"])
                    P.prove(I, "one result per rate", z3.And(zbool(num.cmp("==", x.n, n)), zbool(num.cmp("==", y.n, n))))
                    P.prove(I, "the physical rates are those requested", x.bag == want, detail="%r / %r" % (x.bag, want))
                    check_pairs(P, I, "every logical rate is that of its physical rate", n, x.f, y.f, err)
                    increasing(P, I, "in increasing order of physical rate", n, x.f)
                    if not save:
                        P.prove(I, "nothing is saved", not W.pairs)
                        return
                    px = to_arr(I, SList(map_items(W.pairs, lambda t: t[0])))
                    py = to_arr(I, SList(map_items(W.pairs, lambda t: t[1])))
                    P.prove(I, "every requested rate is saved once", px.bag == want)
                    P.prove(I, "as many pairs saved as requested", num.cmp("==", px.n, n))
                    check_pairs(P, I, "every pair saved is a pair found", n, px.f, py.f, err)
                P.run(I, "sweep, save %s, weights %s, rates %s" % (save, deg, rates), "TopologicalBenchmark.sweep", thunk)
