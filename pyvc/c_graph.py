"""C08: construction of the decoding graph, for every odd height and width and every number of rounds.

The loop over rounds and the worklist traversal of a round are verified with invariants over abstract sets of labels:
  before round t   nodes = checks of the rounds < t, plus the virtual nodes when t > 0; edges = the diagonal pairs of those rounds
  traversal        visited, pending and new nodes are labels of this round or virtual; every visited label is joined to all its
                   neighbours, each of which is visited or pending; pending empty => (lean/C08.lean) every label was visited
"""
import ast
import z3
from fractions import Fraction
import num, solve, graphs
from num import Num, lift, isnum
from values import *
from interp import *
from spec import *
from graphs import SGraph
from c_decode import H2, ZI, row_col, plaquette_ok, virtual_ok, real_ok, integral, kinds, keys_of, lean

DELTAS = [(-1, -1), (1, -1), (-1, 1), (1, 1)]


def memo(f):
    """results by the (hashable) keys of the numbers they are computed from"""
    def g(self, *a):
        k = (f.__name__,) + tuple(lift(x).key() if isnum(x) else tuple(lift(y).key() for y in x) for x in a)
        r = self.memo_.get(k)
        if r is None: r = self.memo_[k] = f(self, *a)
        return r
    return g


def plaq(key, lab):
    """label -> (time, plaquette row, plaquette column), None when it is not at a plaquette centre"""
    if not (isinstance(lab, tuple) and len(lab) == 3 and all(isnum(x) for x in lab)): return None
    t, r, c = lab
    if key == "Z": R, C = num.sub(r, H2), num.add(c, H2)
    else: R, C = num.add(r, H2), num.sub(c, H2)
    for x in (t, R, C):
        if not integral(x):
            p = lift(x).p
            if all(co.denominator == 1 for m, co in p.items() if m) : return None
            raise Unsupported("label %r" % (lab,))
    return tuple(num.toint_exact(x) for x in (t, R, C))


class Ctx(Heap):
    """the graph of one type under construction"""

    def __init__(self, P, I, dec, key, sz, T):
        Heap.__init__(self)
        self.popped = None
        self.memo_ = {}
        self.P, self.I, self.dec, self.key, self.sz, self.T = P, I, dec, key, sz, T
        self.IDX = z3.Function("node_" + key, ZI, ZI, ZI, ZI)
        B = z3.BoolSort()
        self.n, self.v, self.k = (z3.Function("%s_%s" % (x, key), ZI, ZI, B) for x in ("known", "visited", "pending"))
        self.k2 = z3.Function("left_" + key, ZI, ZI, B)
        self.e = z3.Function("joined_" + key, ZI, ZI, ZI, ZI, B)
        self.LT, self.LR, self.LC = (z3.Function("label_%s_%s" % (x, key), ZI, ZI) for x in ("time", "row", "col"))
        self.INV = z3.Function("number_" + key, ZI, ZI, ZI, ZI)
        self.M = num.var("nodes_" + key)
        self.t = None               # round under construction
        self.final = False
        self.kcount = num.var("npending_" + key)

    # ---- geometry, as z3 over Nums
    @memo
    def parity(self, R, C):
        odd = 1 if self.key == "Z" else 0
        p = lift(num.add(R, C)).p
        if all(co % 2 == 0 for m, co in p.items() if m): return z3.BoolVal(p.get((), 0) % 2 == odd)
        return num.z3_of(num.add(R, C)) % 2 == odd

    def along(self, R, C):
        """(position across the boundaries of the type, its bound, position along them, its bound)"""
        h, w = self.sz.h, self.sz.w
        return (R, h, C, w) if self.key == "Z" else (C, w, R, h)

    @memo
    def inner(self, R, C):
        """check (shape: lemma proves it equal to plaquette_ok)"""
        x, n, y, m = self.along(R, C)
        return z3.And(ge(x, 0), lt(x, num.sub(n, 1)), ge(y, 0), lt(y, num.add(m, 1)), self.parity(R, C))
    @memo
    def virt(self, R, C):
        """virtual node (shape: lemma proves it equal to virtual_ok)"""
        x, n, y, m = self.along(R, C)
        return z3.And(z3.Or(eq(x, -1), eq(x, num.sub(n, 1))), ge(y, 0), lt(y, num.add(m, 1)), self.parity(R, C))
    @memo
    def pos(self, R, C):
        x, n, y, m = self.along(R, C)
        return z3.And(ge(x, -1), lt(x, n), ge(y, 0), lt(y, num.add(m, 1)), self.parity(R, C))

    def generic(self, base, fresh=False):
        """(R, C) of the parity of the type"""
        u, C = (fresh_int(base + x) if fresh else num.var(base + x) for x in "uC")
        return num.sub(num.add(num.scale(u, 2), 1 if self.key == "Z" else 0), C), C

    def shapes(self):
        """the closed forms above against the geometry that the readout strings are parsed with (C06)"""
        P, I = self.P, self.I
        R, C = num.var("sR"), num.var("sC")
        P.prove(I, "shape of the checks", same(self.inner(R, C), plaquette_ok(self.sz, self.key, R, C)))
        P.prove(I, "shape of the virtual nodes", same(self.virt(R, C), virtual_ok(self.sz, self.key, -1, *row_col(self.key, R, C))))
        P.prove(I, "positions are checks or virtual nodes, not both", z3.And(same(self.pos(R, C), z3.Or(self.inner(R, C), self.virt(R, C))), z3.Not(z3.And(self.inner(R, C), self.virt(R, C)))))

    @memo
    def tau(self, t, R, C): return num.of_z3(z3.If(self.inner(R, C), num.z3_of(t), z3.IntVal(-1)))

    @memo
    def valid(self, t, x):
        return z3.Or(z3.And(eq(x[0], t), self.inner(x[1], x[2])), z3.And(eq(x[0], -1), self.virt(x[1], x[2])))

    @memo
    def N(self, t, x):
        """node before round t"""
        return z3.Or(z3.And(ge(x[0], 0), lt(x[0], t), self.inner(x[1], x[2])), z3.And(eq(x[0], -1), lt(0, t), self.virt(x[1], x[2])))

    @memo
    def diag(self, x, y):
        return z3.And(one(x[1], y[1]), one(x[2], y[2]))

    @memo
    def E(self, t, x, y):
        """edge before round t"""
        def virt_real(x, y): return z3.And(eq(x[0], -1), self.virt(x[1], x[2]), ge(y[0], 0), lt(y[0], t), self.inner(y[1], y[2]))
        real = z3.And(eq(x[0], y[0]), ge(x[0], 0), lt(x[0], t), self.inner(x[1], x[2]), self.inner(y[1], y[2]))
        return z3.And(self.diag(x, y), z3.Or(real, virt_real(x, y), virt_real(y, x)))

    def idx(self, x): return num.of_atom(self.IDX(*[num.z3_of(a) for a in x]))
    def label(self, i):
        """node index -> (time, R, C)"""
        z = num.z3_of(i) if isnum(i) else None
        if z is None or not z3.is_app(z) or not z.decl().eq(self.IDX): return None
        return tuple(num.of_z3(a) for a in z.children())

    # ---- abstract contents
    def bag(self, pred, name, n=None, pop=None, expand=None):
        def has(I, x):
            p = plaq(self.key, x)
            return False if p is None else pred(p)
        b = Bag(has, n, pop, expand, name)
        PRED[id(b)] = (b, pred)
        return b

    def mem(self, segs, x):
        """(time, R, C) among the labels of a sequence"""
        out = []
        for s in segs:
            if isinstance(s, Bag): out.append(PRED[id(s)][1](x))
            elif isinstance(s, Item):
                p = plaq(self.key, s.v)
                if p is not None: out.append(z3.And(*[eq(a, b) for a, b in zip(p, x)]))
            else: raise Unsupported("contents of a list of labels")
        return z3.Or(*out) if out else z3.BoolVal(False)

    def mem_edge(self, trace, x, y):
        out = []
        for s in trace:
            if isinstance(s, EBag): out.append(s.pred(x, y))
            elif isinstance(s, Item):
                i, j, w = s.v
                a, b = self.label(i), self.label(j)
                if a is None or b is None: raise Unsupported("edge %r" % (s.v,))
                out.append(z3.And(*[eq(p, q) for p, q in zip(a + b, x + y)])); out.append(z3.And(*[eq(p, q) for p, q in zip(a + b, y + x)]))
            else: raise Unsupported("edges of the graph")
        return z3.Or(*out) if out else z3.BoolVal(False)

    def set_state(self, pred, epred, name):
        I = self.I
        g, nm = self.graph(), self.nodemap()
        I.put(g, "segs", None, (self.bag(pred, name),))
        I.put(g, "trace", None, (EBag(epred, name),))
        I.put(nm, "d", None, {}); I.put(nm, "ups", None, ()); I.put(nm, "base", None, AMap(self, pred))
        I.put(g, "ctx", None, self)

    def graph(self): return self.dec.attrs["S"].d[self.key]
    def nodemap(self): return self.dec.attrs["node_map"].d[self.key]


PRED = {}


class EBag(Seg):
    __slots__ = ("pred", "name")

    def __init__(self, pred, name): self.pred, self.name = pred, name
    def __repr__(self): return "Edges(%s)" % self.name


def eq(a, b): return zbool(num.cmp("==", a, b))
def ge(a, b): return zbool(num.cmp(">=", a, b))
def lt(a, b): return zbool(num.cmp("<", a, b))
def one(a, b): return z3.Or(eq(num.sub(a, b), 1), eq(num.sub(a, b), -1))


class AMap:
    """node_map of a graph under construction: the labels of pred, each mapped to its node index"""

    def __init__(self, ctx, pred): self.ctx, self.pred = ctx, pred
    def has(self, I, o, k):
        p = plaq(self.ctx.key, k)
        return False if p is None else self.pred(p)
    def get(self, I, o, k):
        if not I.decide(self.has(I, o, k)): raise PyExc(KeyError, (k,))
        return self.ctx.idx(plaq(self.ctx.key, k))
    def fast(self, I, o, k):
        p = plaq(self.ctx.key, k)
        if p is None: return MISSING
        if not all(isinstance(u, Item) for u in o.ups): return MISSING
        for u in o.ups:
            q = plaq(self.ctx.key, u.v[0])
            if q is None or not (isnum(u.v[1]) and lift(num.sub(u.v[1], self.ctx.idx(q))).const() == 0): return MISSING
        if not I.decide(zb(I.dict_has(o, k))): raise PyExc(KeyError, (k,))
        return self.ctx.idx(p)


class AGraph(SGraph):
    """PyGraph under construction whose contents may be abstract (ctx set)"""

    def __init__(self):
        SGraph.__init__(self)
        self.ctx = None

    def add_node(self, I, v):
        c = self.ctx
        if c is None: return SGraph.add_node(self, I, v)
        x = plaq(c.key, v)
        if c.t is None: raise Unsupported("a node added outside the rounds")
        P = c.P
        if x is None:
            P.prove(I, "a node added is a check of the round or a virtual node", False, "label %r" % (v,))
            raise Infeasible()
        P.prove(I, "a node added is a check of the round or a virtual node", c.valid(c.t, x), "label %r" % (v,))
        soft(P, I, "a node is added once", z3.Not(c.mem(self.segs, x)))
        I.put(self, "segs", None, self.segs + (Item(v),))
        return c.idx(x)

    def add_edge(self, I, i, j, w):
        c = self.ctx
        if c is None: return SGraph.add_edge(self, I, i, j, w)
        P = c.P
        a, b = c.label(i), c.label(j)
        if a is None or b is None: raise Unsupported("add_edge(%r, %r)" % (i, j))
        if not c.final:
            P.prove(I, "an edge added joins diagonal neighbours of the round", z3.And(c.valid(c.t, a), c.valid(c.t, b), c.diag(a, b)), "%r - %r" % (a, b))
            P.prove(I, "an edge added has weight one", num.cmp("==", w, 1) if isnum(w) else False, "weight %r" % (w,))
        I.put(self, "trace", None, self.trace + (Item((i, j, w)),))

    def node(self, I, i):
        if self.ctx is not None: raise Unsupported("lookup of a node by number")
        return SGraph.node(self, I, i)

    def snapshot_(self, omark, memo, f, g):
        r = AGraph()
        r.segs, r.trace, r.n, r.ctx = g(self.segs, omark, memo), self.trace if not self.trace else g(self.trace, omark, memo), self.n, self.ctx
        return r


def soft(P, I, name, goal):
    """an obligation about the abstract state: when it fails the invariant may be too weak, so it counts as undecided"""
    goal = zb(goal)
    ok = goal if isinstance(goal, bool) else I.entails(goal, timeout=8000)
    if not ok: P.hint(None, I.pc + ([] if isinstance(goal, bool) else [z3.Not(goal)]))
    return P.rec(name, "discharged" if ok else "unknown", "z3", "" if ok else "does not follow from the invariant: %s" % str(goal)[:200])


class Facts:
    """ground instances of the invariant of the traversal and of the numbering of the nodes"""

    def __init__(self): self.ctxs, self.cache, self.what = {}, {}, {}

    def __call__(self, us, done):
        out = []
        for key, c in self.ctxs.items():
            pts, edges = {}, []
            for i, t, nm in us:
                w = self.what.get((key, i))
                if w is None: w = self.what[(key, i)] = (t, self.classify(c, t, nm))
                w = w[1]
                pts.update(w[1])
                if w[0] == "e": edges.append(t)
                elif w[0] and (w[0], i) not in done:
                    done.add((w[0], i))
                    out += self.memo((w[0], key, i), lambda: (self.numbering(c, t, w[0]), t))
            for t in edges:
                if ("e", t.get_id()) not in done:
                    done.add(("e", t.get_id()))
                    out += self.memo(("e", key, t.get_id()), lambda: ([t == c.e(*[t.arg(x) for x in (2, 3, 0, 1)])], t))
            if c.t is None: continue
            pk = c.popped and tuple(lift(x).key() for x in c.popped)
            for i, (a, b) in pts.items():
                if ("p", key, i) in done: continue
                done.add(("p", key, i))
                out += self.memo(("p", key, i, pk), lambda: (self.point(c, a, b), a, b, c.popped))
            ids = sorted(pts)
            for i in ids:
                for j in ids:
                    if i == j or ("c", key, i, j) in done: continue
                    done.add(("c", key, i, j))
                    out += self.memo(("c", key, i, j), lambda: (self.pair(c, *(pts[i] + pts[j])), pts[i], pts[j]))
        return out

    def classify(self, c, t, nm):
        a = t.children()
        if nm in {f.name() for f in (c.n, c.v, c.k, c.k2)}: return "", {(a[0].get_id(), a[1].get_id()): (a[0], a[1])}
        if nm == c.e.name(): return "e", {(x.get_id(), y.get_id()): (x, y) for x, y in ((a[0], a[1]), (a[2], a[3]))}
        return ("L" if nm == c.LT.name() else "I" if nm == c.INV.name() else ""), {}

    def numbering(self, c, t, w):
        if w == "L":
            k = t.arg(0)
            return [z3.Implies(z3.And(k >= 0, k < num.z3_of(c.M)), c.N(c.T, tuple(num.of_atom(f(k)) for f in (c.LT, c.LR, c.LC))))]
        x = t.children()
        return [z3.Implies(c.N(c.T, tuple(num.of_z3(a) for a in x)), z3.And(t >= 0, t < num.z3_of(c.M), c.LT(t) == x[0], c.LR(t) == x[1], c.LC(t) == x[2]))]

    def memo(self, k, f):
        r = self.cache.get(k)
        if r is None: r = self.cache[k] = f()          # the terms are kept, so that their ids stay theirs
        return r[0]

    def point(self, c, a, b):
        R, C = num.of_z3(a), num.of_z3(b)
        x = (c.tau(c.t, R, C), R, C)
        v, k, n = c.v(a, b), c.k(a, b), c.n(a, b)
        # visited and pending labels are nodes; what is left of pending after taking one label out
        out = [z3.Implies(z3.Or(v, k), z3.And(c.pos(R, C), z3.Or(n, c.N(c.t, x)))), z3.Implies(k, num.z3_of(c.kcount) > 0)]
        if c.popped is not None:
            same = z3.And(eq(R, c.popped[1]), eq(C, c.popped[2]))
            out += [z3.Implies(k, z3.Or(c.k2(a, b), same)), z3.Implies(c.k2(a, b), k)]
        return out

    def pair(self, c, a, b, d, f):
        """the neighbours of a visited label"""
        dr, dc = (lift(num.sub(num.of_z3(x), num.of_z3(y))).const() for x, y in ((a, d), (b, f)))
        if dr not in (1, -1) or dc not in (1, -1): return []
        p, q = (num.of_z3(a), num.of_z3(b)), (num.of_z3(d), num.of_z3(f))
        return [z3.Implies(z3.And(c.v(a, b), c.pos(*p), c.pos(*q)), z3.And(c.e(a, b, d, f), z3.Or(c.v(d, f), c.k(d, f))))]


# ------------------------------------------------------------------ the rules
class Rules(Heap):
    """the loop over rounds and the traversal of a round, with their invariants"""

    def __init__(self, P, I, dec, sz, T, ctx, share):
        Heap.__init__(self)
        self.P, self.I, self.dec, self.sz, self.T, self.name, self.share = P, I, dec, sz, T, ctx, share
        self.cur = None
        self.done = {}
        self.facts = Facts()
        solve.HOOKS[:] = [self.facts]
        I.for_rule, I.while_rule = self.rounds, self.traverse

    # ---- for t in range(T)
    def rounds(self, I, st, fr, segs):
        if self.cur is not None or len(segs) != 1 or not isinstance(segs[0], Rep): return False
        rep = segs[0]
        if len(rep.vars) != 1 or rep.vars[0][0] or len(rep.vars[0][1]) != 1 or not isinstance(rep.vars[0][1][0], Item): return False
        if lift(num.sub(rep.N, self.T)).const() != 0: return False
        dec = self.dec()
        if dec is None: return False
        S = dec.attrs["S"].d
        keys = [k for k in S if isinstance(S[k], AGraph) and k not in self.done]
        if len(keys) > 1: keys = [k for k in keys if k in [v for v in fr.vars.values() if isinstance(v, str)]]
        if len(keys) != 1: raise Unsupported("the loop over rounds does not build one graph")
        key = keys[0]
        v = rep.vars[0][1][0].v
        if not isnum(v) or not lift(num.sub(v, kn(rep.k))).const() == 0: raise Unsupported("the loop over rounds")
        P = self.P
        ctx = "%s, type %s" % (self.name, key)
        c = Ctx(P, I, dec, key, self.sz, self.T)
        self.facts.ctxs[key] = c
        c.popped = None
        g, nm = c.graph(), c.nodemap()
        if g.segs or g.trace or nm.d or nm.ups or nm.base is not None: raise Unsupported("the graph is not empty before the first round")
        octx, ofn = P.ctx, P.fn
        P.ctx, P.fn = ctx, "RotatedDecoder._specify_virtual"
        vl = dec.attrs["virtual"].d[key]
        c.shapes()
        check_virtual(P, I, c, vl)
        P.ctx, P.fn = octx, ofn
        keep = vl.segs
        I.put(vl, "segs", None, (c.bag(lambda x: z3.And(eq(x[0], -1), c.virt(x[1], x[2])), "virtual"),))
        stores = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        t = num.var("t")

        def thunk():
            I.assume(ge(t, 0)); I.assume(lt(t, self.T))
            self.cur = c
            c.t, c.popped = t, None
            try:
                c.set_state(lambda x: c.N(t, x), lambda x, y: c.E(t, x, y), "before round t")
                for n in stores:
                    if n in fr.vars: I.put(fr, "vars", n, Poison("variable of an earlier round"))
                omark, m = Heap.peek(), len(I.trail)
                I.assign(st.target, t, fr)
                flow(lambda: I.iteration(st.body, fr))
                self.frame(omark, m, fr, stores, [g, nm])
                x = tuple(num.var(n) for n in ("yt", "yR", "yC"))
                y = tuple(num.var(n) for n in ("zt", "zR", "zC"))
                t1 = num.add(t, 1)
                P.prove(I, "nodes after a round: the checks of the rounds so far and the virtual nodes", same(c.mem(g.segs, x), c.N(t1, x)))
                P.prove(I, "edges after a round: the diagonal neighbours of the rounds so far", same(c.mem_edge(g.trace, x, y), c.E(t1, x, y)))
                self.check_map(c, "after a round", x)
            finally:
                self.cur = None
                c.t = None
        if self.share(key, "round"): P.run(I, ctx, "RotatedDecoder._make_syndrome_graph", thunk)
        for n in stores: I.put(fr, "vars", n, Poison("variable of the loop over rounds"))
        T = self.T
        c.set_state(lambda x: c.N(T, x), lambda x, y: c.E(T, x, y), "after the rounds")
        b = g.segs[0]
        k = fresh_int("k")
        ka = atom_of(k)
        lab = (num.of_atom(c.LT(ka)),) + row_col(key, num.of_atom(c.LR(ka)), num.of_atom(c.LC(ka)))
        I.assume(ge(c.M, 0))
        b.n = c.M
        b.expand = lambda: (Rep(ka, c.M, [((), (Item(lab),))]),)
        c.final = True
        I.put(vl, "segs", None, keep)
        I.put(self, "done", key, c)
        return True

    def check_map(self, c, when, x):
        I, P, nm = self.I, self.P, c.nodemap()
        ok = True
        ks = [nm.base.pred(x)] if nm.base is not None else []
        for u in [Item(kv) for kv in nm.d.items()] + list(nm.ups):
            if not isinstance(u, Item): raise Unsupported("contents of node_map")
            q = plaq(c.key, u.v[0])
            if q is None: ok = False; break
            P.prove(I, "node_map gives the number of the node %s" % when, num.cmp("==", u.v[1], c.idx(q)) if isnum(u.v[1]) else False, "%r -> %r" % u.v)
            ks.append(z3.And(*[eq(a, b) for a, b in zip(q, x)]))
        soft(P, I, "node_map knows exactly the nodes %s" % when, same(z3.Or(*ks), c.mem(c.graph().segs, x)) if ok else False)

    def frame(self, omark, m, fr, stores, objs):
        I = self.I
        oids = {o.oid for o in objs}
        for obj, slot, key, old in I.trail[m:]:
            if obj.oid >= omark or obj.oid in oids: continue
            if obj is fr and slot == "vars" and key in stores: continue
            raise Unsupported("the loop writes %s of %r" % (key or slot, obj))

    # ---- while pending
    def traverse(self, I, st, fr):
        c = self.cur
        if c is None: return False
        P = self.P
        if c.t is None or getattr(c, "in_loop", False): raise Unsupported("nested worklist loops")
        names = {n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)}
        pend = [n for n in names if isinstance(fr.vars.get(n), SList)]
        if len(pend) != 1: raise Unsupported("while loop")
        pend = pend[0]
        K = fr.vars[pend]
        used = {n.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.Name)}
        vis = [v for n, v in fr.vars.items() if isinstance(v, SList) and v is not K and not v.segs and n in used]
        if len(vis) != 1: raise Unsupported("worklist loop without one list of visited labels")
        V = vis[0]
        g, nm = c.graph(), c.nodemap()
        t = c.t
        if not K.segs or not is_const_segs(K.segs): raise Unsupported("initial contents of the worklist")
        start = None
        for s in K.segs:
            x = plaq(c.key, s.v)
            if x is None: raise Unsupported("initial contents of the worklist")
            P.prove(I, "the traversal starts from a label of the round", c.valid(t, x), "%r" % (s.v,))
            soft(P, I, "the traversal starts from a node", c.mem(g.segs, x))
            start = x
        y = (None,) + c.generic("y")
        y = (c.tau(t, y[1], y[2]),) + y[1:]
        self.check_map(c, "before the traversal", tuple(num.var(n) for n in ("yt", "yR", "yC")))
        soft(P, I, "nodes added before the traversal belong to the round", z3.Implies(c.mem(g.segs, (num.var("yt"),) + y[1:]), z3.Or(c.N(t, (num.var("yt"),) + y[1:]), c.valid(t, (num.var("yt"),) + y[1:]))))
        stores = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        z = num.z3_of
        # connectivity: a potential that decreases towards the start
        dR, dC = num.sub(y[1], start[1]), num.sub(y[2], start[2])
        I_pc = list(I.pc)
        I.assume(c.pos(y[1], y[2])); I.assume(z3.Not(z3.And(eq(dR, 0), eq(dC, 0))))
        P.prove(I, "every position but the start has a neighbour nearer to the start", nearer(c, y, start))
        I.pc = I_pc

        def thunk():
            c.in_loop = True
            try:
                c.set_state(lambda x: z3.Or(c.N(t, x), z3.And(c.valid(t, x), c.n(z(x[1]), z(x[2])))),
                            lambda x, y: z3.Or(c.E(t, x, y), z3.And(c.valid(t, x), c.valid(t, y), c.diag(x, y), c.e(z(x[1]), z(x[2]), z(y[1]), z(y[2])))), "during the traversal")
                I.assume(ge(c.kcount, 0))
                I.put(V, "segs", None, (c.bag(lambda x: z3.And(c.valid(t, x), c.v(z(x[1]), z(x[2]))), "visited"),))
                I.put(K, "segs", None, (c.bag(lambda x: z3.And(c.valid(t, x), c.k(z(x[1]), z(x[2]))), "pending", c.kcount, self.pop),))
                for n in stores:
                    if n in fr.vars: I.put(fr, "vars", n, Poison("variable of an earlier iteration"))
                omark, m = Heap.peek(), len(I.trail)
                gs0 = g.segs
                I.assume(zbool(I.truth_expr(I.ev(st.test, fr))))
                flow(lambda: I.iteration(st.body, fr))
                self.frame(omark, m, fr, stores, [g, nm, K, V, c])
                # preservation
                for what, L in (("pending", K), ("visited", V)):
                    for s in L.segs:
                        if isinstance(s, Bag): continue
                        x = plaq(c.key, s.v) if isinstance(s, Item) else None
                        soft(P, I, "%s labels belong to the round" % what, c.valid(t, x) if x else False)
                        if x: soft(P, I, "%s labels are nodes" % what, c.mem(g.segs, x))
                soft(P, I, "nothing is dropped from the worklist without a visit", z3.Implies(z3.And(c.pos(y[1], y[2]), z3.Or(c.v(z(y[1]), z(y[2])), c.k(z(y[1]), z(y[2])))), z3.Or(c.mem(V.segs, y), c.mem(K.segs, y))))
                soft(P, I, "visited labels stay visited", z3.Implies(z3.And(c.pos(y[1], y[2]), c.v(z(y[1]), z(y[2]))), c.mem(V.segs, y)))
                new = [plaq(c.key, s.v) for s in V.segs if isinstance(s, Item)]
                for x in new:
                    if x is None: continue
                    for a, b in DELTAS:
                        w = (num.add(x[1], a), num.add(x[2], b))
                        w = (c.tau(t, *w),) + w
                        soft(P, I, "a visited label is joined to all its neighbours", z3.Implies(c.pos(w[1], w[2]), c.mem_edge(g.trace, x, w)))
                        soft(P, I, "the neighbours of a visited label are visited or pending", z3.Implies(c.pos(w[1], w[2]), z3.Or(c.mem(V.segs, w), c.mem(K.segs, w))))
                grows = [z3.Not(c.v(z(x[1]), z(x[2]))) for x in new if x is not None]
                pushed = any(isinstance(s, Item) for s in K.segs)
                soft(P, I, "the traversal ends: a new label is visited or the worklist shrinks", z3.Or(*grows) if pushed and grows else (not pushed and c.popped is not None))
                self.check_map(c, "during the traversal", (num.var("yt"),) + y[1:])
            finally:
                c.in_loop = False
                c.popped = None
        if self.share(c.key, "round"): P.run(I, P.ctx + ", traversal", "RotatedDecoder._populate_syndrome_graph", thunk)
        # pending is empty: every position of the round was visited (C08.closure_of_potential)
        c.set_state(lambda x: z3.Or(c.N(t, x), c.valid(t, x)), lambda x, y: z3.Or(c.E(t, x, y), z3.And(c.valid(t, x), c.valid(t, y), c.diag(x, y))), "after the traversal")
        I.put(K, "segs", None, ())
        I.put(V, "segs", None, (c.bag(lambda x: c.valid(t, x), "all visited"),))
        for n in stores:
            if fr.vars.get(n) is not K and fr.vars.get(n) is not V: I.put(fr, "vars", n, Poison("variable of the traversal"))
        return True

    def pop(self, I, o, i):
        c = self.cur
        if c.popped is not None: raise Unsupported("two labels taken out in one iteration")
        R, C = c.generic("p", fresh=True)
        z = num.z3_of
        if not I.entails(num.cmp(">", c.kcount, 0)): raise Unsupported("pop of a worklist that may be empty")
        I.assume(c.k(z(R), z(C))); I.assume(c.pos(R, C))
        t = c.t
        tau = t if I.decide(c.inner(R, C)) else -1
        I.put(c, "popped", None, (tau, R, C))
        b = c.bag(lambda x: z3.And(c.valid(t, x), c.k2(z(x[1]), z(x[2]))), "left")
        I.put(o, "segs", None, (o.segs[:-1] + (b,)) if i == -1 else ((b,) + o.segs[1:]))
        return (tau,) + row_col(c.key, R, C)


def flow(f):
    try: f()
    except (BrkSig, RetSig): raise Unsupported("break or return in a loop with an invariant")


def same(a, b): return z3.And(z3.Implies(a, b), z3.Implies(b, a))


def nearer(c, y, start):
    def phi(R, C):
        a, b = (z3.If(d >= 0, d, -d) for d in (num.z3_of(num.sub(R, start[1])), num.z3_of(num.sub(C, start[2]))))
        return z3.If(a >= b, a, b)
    out = []
    for a, b in DELTAS:
        R, C = num.add(y[1], a), num.add(y[2], b)
        out.append(z3.And(c.pos(R, C), phi(R, C) < phi(y[1], y[2])))
    return z3.Or(*out)


# ------------------------------------------------------------------ virtual nodes
def leaves(segs, ks=(), gs=()):
    for s in segs:
        if isinstance(s, Item): yield ks, gs, s.v
        elif isinstance(s, Rep):
            s = rename_rep(s)
            for g, ss in s.vars: yield from leaves(ss, ks + ((s.k, s.N),), gs + tuple(g))
        elif isinstance(s, Alt):
            for g, ss in s.vars: yield from leaves(ss, ks, gs + tuple(g))
        else: raise Unsupported("contents of a list of labels")


def rng(ks): return [z3.And(k >= 0, k < num.z3_of(N)) for k, N in ks]


def check_virtual(P, I, c, vl):
    """the list of virtual nodes holds exactly the boundary positions of its type, each once"""
    if not isinstance(vl, SList): raise Unsupported("virtual nodes")
    saved = list(I.pc)
    ls = list(leaves(vl.segs))
    for ks, gs, v in ls:
        I.pc = saved + rng(ks) + list(gs)
        x = plaq(c.key, v)
        P.prove(I, "a virtual node lies on the boundary of its type", z3.And(eq(x[0], -1), c.virt(x[1], x[2])) if x else False, "%r" % (v,))
    for i, (ks, gs, v) in enumerate(ls):
        for j in range(i + 1):
            ks2, gs2, v2 = ls[j]
            pr = [(k, fresh_int("k")) for k, _ in ks2]
            ks2 = tuple((atom_of(n), N) for (k, N), (_, n) in zip(ks2, pr))
            gs2 = [subst_b(g, pr) for g in gs2]
            v2 = subst(v2, pr)
            x, y = plaq(c.key, v), plaq(c.key, v2)
            if x is None or y is None: continue
            I.pc = saved + rng(ks) + rng(ks2) + list(gs) + gs2
            if i == j:
                if not ks: continue
                I.pc.append(z3.Or(*[a[0] != b[0] for a, b in zip(ks, ks2)]))
            P.prove(I, "a virtual node is listed once", z3.Not(z3.And(*[eq(a, b) for a, b in zip(x, y)])), "%r, %r" % (v, v2))
    R, C = num.var("yR"), num.var("yC")
    I.pc = list(saved)

    def thunk():
        I.assume(c.virt(R, C))
        I.decide(eq(R, -1) if c.key == "Z" else eq(C, -1))
        half = num.of_z3(num.z3_of(C if c.key == "Z" else R) / 2)
        goals = []
        for ks, gs, v in ls:
            x = plaq(c.key, v)
            if x is None: continue
            for cand in ((half, num.sub(half, 1), num.add(half, 1)) if ks else (None,)):
                pr = [(k, cand) for k, _ in ks]
                goals.append(z3.And(*[subst_b(b, pr) for b in rng(ks) + list(gs) + [eq(x[0], -1), eq(x[1], R), eq(x[2], C)]]))
        P.prove(I, "every boundary position of the type is listed", z3.Or(*goals) if goals else False)
    I.explore(thunk)
    I.pc = saved


# ------------------------------------------------------------------ C08
def c08(P):
    P.trusted += ["retworkx.PyGraph: add_node gives every node a new number, add_edge joins two nodes",
                  "a loop over a finite worklist that satisfies the variant obligation ends (lean/C08.lean: terminates)"]
    P.assume_txt += ["decoded types without a check (type X for width 1, type Z for height 1) are outside the property: their graph is not built in these runs"]
    if P.mine("lean"): lean(P, "C08.lean", ["C08.closure_of_potential", "C08.terminates"])
    for code, sz, key in kinds():
        if code == "XXZZ" and str(sz) == "h,w>=3" and key == "X": continue        # both types in one run
        keys = [k for k in keys_of(code, sz) if not (k == "X" and lift(sz.w).const() == 1) and not (k == "Z" and lift(sz.h).const() == 1)]
        construct(P, code, sz, keys)


def construct(P, code, sz, keys):
    P.size = (sz.h, sz.w)
    I = new_interp(sz, load=DECODERS.values())
    I.infer = True
    T = num.add(num.var("R"), 1)
    ctx = "%s %s" % (code, sz)
    fn = "RotatedDecoder._make_syndrome_graph"
    objs = []

    def share(*key): return P.mine(code, str(sz), *key)
    units = [share(k, u) for k in keys for u in ("round", "end")]
    if not any(units): return

    def ctor(I, a, k):
        if a or set(k) - {"multigraph", "attrs"} or k.get("multigraph", True) is not False: raise Unsupported("a graph with parallel edges")
        return AGraph()
    I.graph_ctor = ctor

    def thunk():
        I.assume(num.cmp(">=", num.var("R"), 0))
        del objs[:]
        rules = Rules(P, I, lambda: objs[-1] if objs else None, sz, T, ctx, share)

        def hook(I, f, args, kw):
            objs.append(args[0])
            if keys != keys_of(code, sz): I.put(args[0], "attrs", "syndrome_graph_keys", SList(tuple(Item(k) for k in keys)))
            h = I.contracts.pop("LatticeDecoder.__init__")
            try: return I.call_py(f, args, kw)
            finally: I.contracts["LatticeDecoder.__init__"] = h
        I.contracts["LatticeDecoder.__init__"] = hook
        try:
            params = {"d": (sz.h, sz.w), "T": T}
            if code == "Repetition" and lift(sz.h).const() == 1: params["phase-flip-protected"] = True
            dec = I.call(I.get(DECODERS[code]), [SDict(params)], {})
            I.for_rule = I.while_rule = None
            S = dec.attrs["S"]
            P.prove(I, "the decoded types", sorted(S.d) == sorted(keys) and not S.ups, "%s" % sorted(S.d))
            for k in keys:
                if k not in rules.done: raise Unsupported("the graph of type %s is not built by a loop over the rounds" % k)
                if share(k, "end"): finish(P, I, rules.done[k], ctx)
        finally:
            I.for_rule = I.while_rule = None
    P.run(I, ctx, fn, thunk)


def finish(P, I, c, ctx):
    """edges between consecutive rounds, the virtual nodes, connectivity"""
    octx = P.ctx
    P.ctx = "%s, type %s" % (ctx, c.key)
    g = c.graph()
    T = c.T
    saved = list(I.pc)
    P.prove(I, "no node is added after the rounds", len(g.segs) == 1 and isinstance(g.segs[0], Bag))
    x = tuple(num.var(n) for n in ("yt", "yR", "yC"))
    c_nm = c.nodemap()
    P.prove(I, "no entry of node_map is added after the rounds", not c_nm.ups and not c_nm.d)
    if not g.trace or not isinstance(g.trace[0], EBag): raise Unsupported("edges of the graph")
    ls = list(leaves(g.trace[1:]))
    for ks, gs, (i, j, w) in ls:
        I.pc = saved + rng(ks) + list(gs)
        a, b = c.label(i), c.label(j)
        if a is None or b is None: raise Unsupported("edge %r" % ((i, j),))
        d = num.sub(b[0], a[0])
        P.prove(I, "an edge in time joins a check to itself one round later", z3.And(z3.Or(eq(d, 1), eq(d, -1)), eq(a[1], b[1]), eq(a[2], b[2]), c.inner(a[1], a[2]),
                ge(a[0], 0), ge(b[0], 0), lt(a[0], T), lt(b[0], T)), "%r - %r" % (a, b))
        P.prove(I, "an edge in time has weight one", num.cmp("==", w, 1) if isnum(w) else False, "weight %r" % (w,))
    m, R, C = num.var("m"), num.var("yR"), num.var("yC")
    I.pc = saved + [ge(m, 0), lt(num.add(m, 1), T), c.inner(R, C)]
    inv = [num.of_atom(c.INV(*[num.z3_of(a) for a in (t, R, C)])) for t in (0, m, num.add(m, 1))]
    pool = inv + [m, num.add(m, 1)]
    goals = []
    for ks, gs, (i, j, w) in ls:
        a, b = c.label(i), c.label(j)
        for cand in combos(pool, len(ks)):
            pr = [(k, n) for (k, _), n in zip(ks, cand)]
            p, q = subst(a, pr), subst(b, pr)
            cond = [subst_b(z, pr) for z in rng(ks) + list(gs)]
            for p, q in ((p, q), (q, p)):
                goals.append(z3.And(*(cond + [eq(p[0], m), eq(q[0], num.add(m, 1)), eq(p[1], R), eq(p[2], C)])))
    P.prove(I, "every check is joined to itself in the next round", z3.Or(*goals) if goals else False)
    # connectivity (C09.connected_of_potential): time first, then space, towards the start (0, R0, C0)
    R0, C0 = (0, 1) if c.key == "Z" else (1, 1)
    t = num.var("yt")
    I.pc = saved + [z3.Or(z3.And(ge(t, 1), lt(t, T), c.inner(R, C)), z3.And(z3.Or(z3.And(eq(t, 0), c.inner(R, C)), z3.And(eq(t, -1), c.virt(R, C))), z3.Not(z3.And(eq(R, R0), eq(C, C0)))))]
    step = [z3.And(ge(t, 1), c.N(T, (num.sub(t, 1), R, C)))]

    def phi(R, C):
        a, b = (z3.If(d >= 0, d, -d) for d in (num.z3_of(num.sub(R, R0)), num.z3_of(num.sub(C, C0))))
        return z3.If(a >= b, a, b)
    for a, b in DELTAS:
        R2, C2 = num.add(R, a), num.add(C, b)
        y = (c.tau(0, R2, C2), R2, C2)
        step.append(z3.And(c.N(T, y), c.E(T, (t, R, C), y), phi(R2, C2) < phi(R, C)))
    P.prove(I, "connected: every node but one has a neighbour of smaller potential", z3.Or(*step))
    I.pc = saved
    P.ctx = octx


def combos(pool, n):
    if n == 0: yield ()
    else:
        for p in pool:
            for r in combos(pool, n - 1): yield (p,) + r
