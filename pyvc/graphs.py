"""Assumed contracts of retworkx: graphs, all-pairs distances, path counts, maximum-weight matching."""
import itertools
import z3
import num, solve
from num import Num, lift, isnum
from values import *
from interp import Builtin, TypeObj, PyExc, Opaque, consts_of, z3_consts


class NoNode(Exception):
    pass


class SGraph(Stub, Heap):
    """PyGraph under construction: node payloads in index order (segs), edges (i, j, weight) in order of insertion (trace)"""

    def __init__(self):
        Heap.__init__(self)
        self.segs = ()
        self.trace = ()
        self.n = 0

    def __repr__(self): return "<graph #%d>" % self.oid
    def subst(self, pairs): return self
    def children_(self): return []
    def snapshot_(self, omark, memo, f, g):
        r = SGraph()
        r.segs, r.trace, r.n = g(self.segs, omark, memo), g(self.trace, omark, memo), self.n
        return r
    def len_(self, I): return self.n
    def bool_(self, I): raise Unsupported("truth of a graph")
    def eq_(self, I, o): return self is o
    def isinstance_(self, I, c): return c is PYGRAPH

    def add_node(self, I, v):
        i = self.n
        I.put(self, "segs", None, self.segs + (Item(v),))
        I.put(self, "n", None, num.add(self.n, 1))
        return i

    def add_edge(self, I, i, j, w):
        if not isnum(i) or not isnum(j): raise Unsupported("add_edge(%r, %r)" % (i, j))
        h = getattr(I, "edge_check", None)
        if h: h(self, i, j)
        I.put(self, "trace", None, self.trace + (Item((i, j, w)),))

    def node(self, I, i):
        if not isnum(i): raise Unsupported("graph[%r]" % (i,))
        if I.decide(bor(num.cmp("<", i, 0), num.cmp(">=", i, self.n))): raise PyExc(IndexError, ("no node",))
        return I.nth(self.segs, i)

    def getitem(self, I, i): return self.node(I, i)

    def getattr_(self, I, n):
        if n == "nodes": return Builtin(n, lambda I, a, k: SList(self.segs))
        if n == "add_node": return Builtin(n, lambda I, a, k: self.add_node(I, a[0]))
        if n == "add_edge": return Builtin(n, lambda I, a, k: self.add_edge(I, *(list(a) + [k[x] for x in ("node_a", "node_b", "edge") if x in k])))
        if n == "add_nodes_from":
            def f(I, a, k):
                out = SList(())
                I.for_segs(I.iter_segs(a[0]), lambda v: I.put(out, "segs", None, out.segs + (Item(self.add_node(I, v)),)))
                return out
            return Builtin(n, f)
        if n == "add_edges_from":
            return Builtin(n, lambda I, a, k: I.for_segs(I.iter_segs(a[0]), lambda t: self.add_edge(I, *I.unpack(t, [None] * 3))))
        if n == "num_nodes": return Builtin(n, lambda I, a, k: self.n)
        if n == "get_node_data": return Builtin(n, lambda I, a, k: self.node(I, a[0]))
        raise Unsupported("PyGraph.%s" % n)


def _mk(I, a, k):
    h = getattr(I, "graph_ctor", None)
    return h(I, a, k) if h else SGraph()


PYGRAPH = TypeObj("PyGraph", lambda v: isinstance(v, (SGraph, DGraph)), _mk)


def sym(f, a, b):
    """application of a symmetric function with its arguments in a fixed order"""
    za, zb_ = num.z3_of(a), num.z3_of(b)
    if za.sexpr() > zb_.sexpr(): za, zb_ = zb_, za
    return num.of_atom(f(za, zb_))


class DGraph(Stub, Heap):
    """the decoding graph of one type, complete: only its distances and path counts are used"""

    def __init__(self, key):
        Heap.__init__(self)
        self.key = key
        S = z3.IntSort()
        self.DIST = z3.Function("dist_" + key, S, S, S)
        self.NSP = z3.Function("nsp_" + key, S, S, S)
        self.IDX = z3.Function("idx_" + key, S, S, S, S)

    def __repr__(self): return "<decoding graph %s>" % self.key
    def subst(self, pairs): return self
    def snapshot_(self, omark, memo, f, g): return self
    def getattr_(self, I, n): raise Unsupported("PyGraph.%s on the decoding graph" % n)
    def idx(self, lab):
        t, r, c = lab
        r2, c2 = num.scale(r, 2), num.scale(c, 2)
        for x in (t, r2, c2):
            if any(co.denominator != 1 for co in lift(x).p.values()): raise Unsupported("label %r" % (lab,))
        t, r2, c2 = (num.toint_exact(x) for x in (t, r2, c2))
        return num.of_atom(self.IDX(num.z3_of(t), num.z3_of(r2), num.z3_of(c2)))

    def dist(self, i, j): return sym(self.DIST, i, j)
    def nsp(self, i, j): return sym(self.NSP, i, j)


class Mat(Stub):
    def __init__(self, g): self.g = g
    def __repr__(self): return "dist(%s)" % self.g.key
    def subst(self, pairs): return self
    def getitem(self, I, i):
        if isinstance(i, tuple) and len(i) == 2: return self.entry(i[0], i[1])
        return Row(self.g, i, False)
    def entry(self, i, j):
        r = self.g.dist(i, j)
        return Num(lift(r).p, True)


class Row(Stub):
    """row of the distance matrix, or the path counts from one node"""

    def __init__(self, g, i, paths):
        if not isnum(i): raise Unsupported("row of a non-number")
        self.g, self.i, self.paths = g, i, paths
    def __repr__(self): return "%s(%s)[%r]" % ("paths" if self.paths else "dist", self.g.key, self.i)
    def subst(self, pairs): return Row(self.g, subst(self.i, pairs), self.paths)
    def children_(self): return [self.i]
    def getitem(self, I, j):
        if not isnum(j): raise Unsupported("entry of a row")
        if self.paths: return self.g.nsp(self.i, j)
        return Mat(self.g).entry(self.i, j)
    def dict_(self, I):
        if not self.paths: raise Unsupported("dict of a row")
        return self


def floyd(I, a, k):
    if not isinstance(a[0], DGraph): raise Unsupported("distances of a graph under construction")
    if len(a) > 1 and a[1] is not None or k.get("weight_fn") is not None: raise Unsupported("weighted distances")
    return Mat(a[0])


def paths(I, a, k):
    if not isinstance(a[0], DGraph): raise Unsupported("path counts of a graph under construction")
    return Row(a[0], a[1], True)


def matching(I, a, k):
    h = getattr(I, "matching_hook", None)
    if h is None: raise Unsupported("matching")
    return h(I, a, k)


def retworkx():
    return dict(PyGraph=PYGRAPH, graph_floyd_warshall_numpy=Builtin("graph_floyd_warshall_numpy", floyd),
                num_shortest_paths_unweighted=Builtin("num_shortest_paths_unweighted", paths),
                graph_num_shortest_paths_unweighted=Builtin("graph_num_shortest_paths_unweighted", paths),
                max_weight_matching=Builtin("max_weight_matching", matching))


# ---------------------------------------------------------------- folds as numbers
FOLDS = {}       # repr of the canonical fold -> (function, constants, fold)
FOLD_BY_FN = {}


def canon(segs, d=0):
    """bound variables renamed by nesting depth"""
    out = []
    for s in segs:
        if isinstance(s, Rep):
            k2 = z3.Int("fb!%d" % d)
            pr = [(s.k, num.of_atom(k2))]
            out.append(Rep(k2, s.N, [(tuple(subst_b(g, pr) for g in gs), canon(subst_segs(ss, pr), d + 1)) for gs, ss in s.vars]))
        elif isinstance(s, Alt): out.append(Alt([(g, canon(ss, d)) for g, ss in s.vars]))
        else: out.append(s)
    return tuple(out)


def fold_num(F):
    """a number for the value of a sum: an uninterpreted function of everything the sum depends on"""
    if F.kind != "sum": raise Unsupported("a fold used as a number")
    F = Fold("sum", canon(F.segs), F.init)
    cs = {}
    for i, c in consts_of(F).items():
        if not str(c).startswith("fb!"): cs[str(c)] = c
    cs = [cs[n] for n in sorted(cs)]
    key = repr(F) + repr(cs)
    if key not in FOLDS:
        f = z3.Function("fold_%d" % len(FOLDS), *([c.sort() for c in cs] + [z3.IntSort()]))
        FOLDS[key] = (f, cs, F)
        FOLD_BY_FN[f.name()] = (cs, F)
    f, cs, F = FOLDS[key]
    return num.of_atom(f(*cs) if cs else z3.Int(f.name()))


def fold_of(app):
    """the fold a fold application stands for"""
    cs, F = FOLD_BY_FN[app.decl().name()]
    return F.subst([(c, num.of_z3(a)) for c, a in zip(cs, app.children())])


def fold_apps(e):
    return [t for t in solve.walk([e]) if z3.is_app(t) and t.decl().name() in FOLD_BY_FN]


def at(gs_segs, k, j):
    """variants of a Rep at index j as one z3 number"""
    pr = [(k, j)]
    r = None
    for gs, ss in reversed([(tuple(subst_b(g, pr) for g in gs), subst_segs(ss, pr)) for gs, ss in gs_segs]):
        v = 0
        for t in ss:
            if not isinstance(t, Item): raise Unsupported("nested sum")
            v = num.add(v, t.v)
        z = num.z3_of(v)
        r = z if r is None else z3.If(z3.And(*[zbool(g) for g in gs]) if gs else z3.BoolVal(True), z, r)
    return r
