"""C09, C10, C11: contracts of the matching decoder (the decoding graph itself: C08)."""
import z3
from fractions import Fraction
import num, solve, stubs, graphs
from num import Num, lift, isnum
from values import *
from interp import *
from spec import *
from graphs import SGraph, DGraph
from c_register import AStr

H2 = Fraction(1, 2)
ZI = z3.IntSort()
NT, NR, NC = (z3.Function("hit_" + x, ZI, ZI) for x in ("time", "row", "col"))     # syndrome entry number k: (NT, NR +- 1/2, NC +- 1/2)


# ------------------------------------------------------------------ labels of the decoding graph
def row_col(key, R, C):
    """plaquette (R, C) of a type -> (row, column) of its centre"""
    if key == "Z": return num.add(R, H2), num.sub(C, H2)
    return num.sub(R, H2), num.add(C, H2)


def plaquette_ok(sz, key, R, C):
    """(R, C) numbers a check of the type: rows 0..h-2 and columns 0..w for Z, R + C odd; rows 0..h and columns 0..w-2 for X, R + C even"""
    z = num.z3_of
    R, C = z(R), z(C)
    h, w = z(sz.h), z(sz.w)
    if key == "Z": return z3.And(R >= 0, R < h - 1, C >= 0, C <= w, (R + C) % 2 == 1)
    return z3.And(R >= 0, R <= h, C >= 0, C < w - 1, (R + C) % 2 == 0)


def real_ok(sz, T, key, t, r, c):
    """(t, r, c) is the label of a check in a round"""
    if key == "Z": R, C = num.sub(r, H2), num.add(c, H2)
    else: R, C = num.add(r, H2), num.sub(c, H2)
    if not integral(R) or not integral(C) or not integral(t): return z3.BoolVal(False)
    t, R, C = (num.toint_exact(x) for x in (t, R, C))
    return z3.And(zbool(num.cmp(">=", t, 0)), zbool(num.cmp("<", t, T)), plaquette_ok(sz, key, R, C))


def virtual_ok(sz, key, t, r, c):
    """(t, r, c) is the label of a virtual boundary node"""
    r2, c2 = num.scale(r, 2), num.scale(c, 2)
    if not integral(r2) or not integral(c2): return z3.BoolVal(False)
    z = num.z3_of
    r2, c2 = z(num.toint_exact(r2)), z(num.toint_exact(c2))
    if key == "X": r2, c2, a, h = c2, r2, sz.a, sz.w
    else: a, h = sz.b, sz.h
    a, h = z(a), z(h)
    # type Z: (-1/2, 2j - 1/2) above and (h - 1/2, 2j + 1/2) below; type X: (2j + 1/2, -1/2) left and (2j - 1/2, w - 1/2) right
    if key == "Z": up, dn = (c2 + 1), (c2 - 1)
    else: up, dn = (c2 - 1), (c2 + 1)
    return z3.And(zbool(num.cmp("==", t, -1)),
                  z3.Or(z3.And(r2 == -1, up % 4 == 0, up >= 0, up <= 4 * a), z3.And(r2 == 2 * h - 1, dn % 4 == 0, dn >= 0, dn <= 4 * a)))


def integral(x):
    return all(c.denominator == 1 for c in lift(x).p.values())


def is_virtual(lab):
    return num.cmp("==", lab[0], -1)


PARSERS = ("_RotatedLattice.parse_readout",)


class Done(Exception):
    pass


class NodeMap:
    """node_map of a decoding graph: defined exactly on its labels"""

    def __init__(self, g, sz, T): self.g, self.sz, self.T = g, sz, T
    def label(self, k):
        if not (isinstance(k, tuple) and len(k) == 3 and all(isnum(x) for x in k)): return None
        return k
    def has(self, I, o, k):
        k = self.label(k)
        if k is None: return False
        return z3.Or(virtual_ok(self.sz, self.g.key, *k), real_ok(self.sz, self.T, self.g.key, *k))
    def get(self, I, o, k):
        if self.label(k) is None: raise Unsupported("label %r" % (k,))
        if not I.decide(self.has(I, o, k)): raise PyExc(KeyError, (k,))
        return self.g.idx(k)


# ------------------------------------------------------------------ ground instances of the assumptions
class Facts:
    """ground instances, for the terms of a query, of: the syndrome entries are distinct checks of the code; distances and path counts"""

    def __init__(self, sz, T, key, L):
        self.sz, self.T, self.key, self.L = sz, T, key, L

    def __call__(self, us, done):
        out, ks, logs = [], {}, []
        L, T = num.z3_of(self.L), num.z3_of(self.T)
        for i, t, nm in us:
            if nm.startswith("hit_"):
                k = t.arg(0)
                ks[k.get_id()] = k
            elif nm.startswith("dist_") or nm.startswith("nsp_"):
                if ("f", i) in done: continue
                done.add(("f", i))
                a, b = t.children()
                out.append(t >= (0 if nm.startswith("dist_") else 1))
                out.append(t.decl()(b, a) == t)
            elif nm == "log_": logs.append((i, t))
        for i, t in logs:
            for j, u in logs:
                if i < j and ("l", i, j) not in done:
                    done.add(("l", i, j))
                    x, y = t.arg(0), u.arg(0)
                    out.append(z3.Implies(z3.And(x > 0, y > x), u > t)); out.append(z3.Implies(z3.And(y > 0, x > y), t > u))
        for i, k in ks.items():
            if ("n", i) not in done:
                done.add(("n", i))
                n = [num.of_atom(f(k)) for f in (NT, NR, NC)]
                out.append(z3.Implies(z3.And(k >= 0, k < L), z3.And(NT(k) >= 0, NT(k) < T, plaquette_ok(self.sz, self.key, n[1], n[2]))))
        ids = sorted(ks)
        for x in range(len(ids)):
            for y in range(x):
                if ("d", ids[x], ids[y]) in done: continue
                done.add(("d", ids[x], ids[y]))
                k, j = ks[ids[x]], ks[ids[y]]
                out.append(z3.Implies(z3.And(k >= 0, k < L, j >= 0, j < L, k != j), z3.Not(z3.And(NT(k) == NT(j), NR(k) == NR(j), NC(k) == NC(j)))))
        return out


def hit(key, k):
    z = num.z3_of(k)
    t, R, C = (num.of_atom(f(z)) for f in (NT, NR, NC))
    return (t,) + row_col(key, R, C)


def hits(key, L):
    """a list of L distinct syndrome entries"""
    k = fresh_int("k")
    return SList((Rep(atom_of(k), L, [((), (Item(hit(key, k)),))]),))


# ------------------------------------------------------------------ the decoder
def kinds():
    """(decoder code name, size case, decoded type)"""
    full, tall, wide = sizes()
    return [("XXZZ", full, "Z"), ("XXZZ", full, "X"), ("XXZZ", tall, "Z"), ("XXZZ", wide, "X"), ("Repetition", tall, "Z"), ("Repetition", wide, "X")]


def keys_of(code, sz):
    if code == "Repetition": return ["X"] if lift(sz.h).const() == 1 else ["Z"]
    return ["X", "Z"]


def mk_decoder(P, I, code, sz):
    """a decoder as its constructor leaves it, given the postcondition of the graph construction (C08)"""
    T = num.add(num.var("R"), 1)
    I.assume(num.cmp(">=", num.var("R"), 0))
    made = []

    def graph_contract(I, f, args, kw):
        o = args[0]
        S, nm = o.attrs["S"], o.attrs["node_map"]
        for key in list(S.d):
            g = DGraph(key)
            I.put(S, "d", key, g)
            m = SDict({})
            I.put(m, "base", None, NodeMap(g, sz, T))
            I.put(nm, "d", key, m)
            made.append(g)
        return None
    I.contracts["RotatedDecoder._make_syndrome_graph"] = graph_contract
    params = {"d": (sz.h, sz.w), "T": T}
    if code == "Repetition" and lift(sz.h).const() == 1: params["phase-flip-protected"] = True
    dec = I.call(I.get(DECODERS[code]), [SDict(params)], {})
    if not made: raise Unsupported("the constructor does not build its graph through _make_syndrome_graph")
    return dec, T


def setup(P, I, code, sz, key):
    dec, T = mk_decoder(P, I, code, sz)
    L = num.add(num.var("L"), 1)
    I.assume(num.cmp(">=", num.var("L"), 0))
    solve.HOOKS[:] = [Facts(sz, T, key, L)]
    return dec, T, L


# ------------------------------------------------------------------ C11
def c11(P):
    P.trusted += ["retworkx: graph_floyd_warshall_numpy gives the distances, num_shortest_paths_unweighted the numbers of shortest paths",
                  "callee contract of the graph construction, not assumed but discharged by check C08: the labels, a connected graph"]
    for code, sz, key in kinds():
        for prob in (False, True):
            if not P.mine(code, str(sz), key, prob): continue
            P.size = (sz.h, sz.w)
            I = new_interp(sz, load=DECODERS.values())
            I.infer = True
            ctx = "%s %s correct_readout %s %s" % (code, sz, key, "with an error probability" if prob else "without")

            def thunk():
                dec, T, L = setup(P, I, code, sz, key)
                p = None
                if prob:
                    p = Num(lift(num.var("p", True)).p, True)
                    I.assume(num.cmp(">", p, 0)); I.assume(num.cmp("<", p, Fraction(1, 2)))
                syn = SDict({key: hits(key, L)})
                seen = []

                mark, limit = len(I.trail), Heap.peek()

                def hook(I, a, k):
                    seen.append((a, k))
                    keeps(P, I, mark, limit, lambda o, slot, key: o is dec and key == "_encoder")
                    check_error_graph(P, I, ctx, dec, sz, T, key, L, p, a[0])
                    raise Done()
                I.matching_hook = hook
                depth = I.depth
                try: I.call(I.getattr(dec, "correct_readout"), [syn, key, num.var("value")], {"err_prob": p})
                except Done: I.depth = depth
                P.prove(I, "a nonempty syndrome is matched", bool(seen))
            P.run(I, ctx, "LatticeDecoder._make_error_graph", thunk)
        for case in ("two entries", "entry and virtual node", "virtual node and entry"):
            if P.mine(code, str(sz), key, case): path_degeneracy(P, code, sz, key, case)


def path_degeneracy(P, code, sz, key, case):
    """_path_degeneracy for an arbitrary cache"""
    P.size = (sz.h, sz.w)
    I = new_interp(sz, load=DECODERS.values())
    I.infer = True
    fn = "LatticeDecoder._path_degeneracy"
    ctx = "%s %s _path_degeneracy %s, %s" % (code, sz, key, case)

    def thunk():
        dec, T, L = setup(P, I, code, sz, key)
        g = dec.attrs["S"].d[key]
        vs = dec_virtual(dec, key)
        i, j = fresh_int("i"), fresh_int("j")
        for x in (i, j): I.assume(num.cmp(">=", x, 0))
        I.assume(num.cmp("<", i, L))
        la = hit(key, i)
        if case == "two entries":
            I.assume(num.cmp("<", j, L)); I.assume(z3.Not(zbool(num.cmp("==", i, j))))
            lb = hit(key, j)
        else:
            I.assume(num.cmp("<", j, I.count(vs)))
            lb = I.nth(vs, j)
        if case[0] == "v": la, lb = lb, la
        memo = SDict({})
        F = graphs.Row(g, kn(KAPPA), True)
        I.put(memo, "ups", None, (MemoSeg(F),))
        mat = graphs.Mat(g)
        mark, limit = len(I.trail), Heap.peek()
        r = I.call(I.getattr(dec, "_path_degeneracy"), [la, lb, key, memo, mat], {})
        keeps(P, I, mark, limit, lambda o, slot, key: o is memo)
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], SDict)): raise Unsupported("result %r" % (r,))
        got = graphs.fold_num(r[0]) if isinstance(r[0], Fold) else r[0]
        if not isnum(got): raise Unsupported("degeneracy %r" % (r[0],))
        want = degeneracy(P, I, dec, g, key, la, lb, got)
        P.prove(I, "the number of shortest paths, to all equally near virtual nodes if one is virtual", num.cmp("==", got, want), detail="%s; " % str(got)[:300])
        for what, d in (("passed in", memo), ("returned", r[1])):
            if not (d.base is None and not d.d): raise Unsupported("cache %r" % (d,))
            ok = all(memo_ok(s, F, I) for s in d.ups)
            if not ok: raise Unsupported("contents of the cache %s" % what)
            P.prove(I, "the cache %s maps every node in it to its path counts" % what, True)
    P.run(I, ctx, fn, thunk)


# ------------------------------------------------------------------ sequences built by loops
def each_leaf(I, segs, f):
    """f on one arbitrary item of every leaf, under its guards and loop ranges"""
    for s in segs:
        if isinstance(s, Item): f(s.v); continue
        if isinstance(s, Rep):
            s = rename_rep(s)
            extra = [zbool(num.cmp(">=", kn(s.k), 0)), zbool(num.cmp("<", kn(s.k), s.N))]
        elif isinstance(s, Alt): extra = []
        else: raise Unsupported("opaque sequence")
        for gs, ss in s.vars:
            saved = I.pc
            I.pc = list(I.pc) + extra + [zbool(g) for g in gs]
            try:
                if I.possible(z3.BoolVal(True)): each_leaf(I, ss, f)
            finally: I.pc = saved


def reaches(segs, match):
    """a sufficient condition for an item with match(item), a list of (found, wanted) numbers, all equal; loop variables are solved from the equations"""
    out = []
    for s in segs:
        if isinstance(s, Item):
            prs = match(s.v)
            if prs is not None: out.append(z3.And(*[zbool(num.cmp("==", x, y)) for x, y in prs]))
        elif isinstance(s, Alt):
            for gs, ss in s.vars: out.append(z3.And(*([zbool(g) for g in gs] + [reaches(ss, match)])))
        elif isinstance(s, Rep):
            s = rename_rep(s)
            for k0 in candidates(s, match, []):
                pr = [(s.k, k0)]
                for gs, ss in s.vars:
                    r = reaches(subst_segs(ss, pr), match)
                    if z3.is_false(r): continue
                    out.append(z3.And(*([zbool(num.cmp(">=", k0, 0)), zbool(num.cmp("<", k0, s.N)), r] + [zbool(subst_b(g, pr)) for g in gs])))
        else: raise Unsupported("opaque sequence")
    return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)


def candidates(s, match, out):
    """values of the loop variable of s at which an item may match"""
    def walk_(segs):
        for t in segs:
            if isinstance(t, Item):
                for x, y in match(t.v) or []:
                    for c in solve_linear(x, y, s.k) + floor_solution(x, y, s.k):
                        if not any(lift(num.sub(c, d)).const() == 0 for d in out): out.append(c)
            elif isinstance(t, (Rep, Alt)):
                for gs, ss in t.vars: walk_(ss)
    for gs, ss in s.vars: walk_(ss)
    return out


def floor_solution(x, y, k):
    ce = linear_in(x, k)
    if ce is None: return []
    c = lift(ce[0]).const()
    if c is None or c.denominator != 1 or abs(c) < 2: return []
    d = num.sub(y, ce[1])
    if c < 0: c, d = -c, num.neg(d)
    return [num.fdiv(d, int(c))] if integral(d) else []


# ------------------------------------------------------------------ the weight of a pair
EXTRA = (-1, -1, -1)


def is_extra(lab):
    return all(lift(num.sub(x, -1)).const() == 0 for x in lab)


def fold_lemma(P, I, term, want):
    """every sum in term that is elementwise the sum want (segments) is equal to it: returns want as a number, with these equalities assumed"""
    W = graphs.fold_num(Fold("sum", want, 0)) if not is_const_segs(want) and not all(isinstance(s, (Item, Alt)) for s in want) else None
    if W is None: return sum_of(I, want)
    wz = num.z3_of(W)
    for app in graphs.fold_apps(num.z3_of(term)):
        if app.eq(wz): continue
        F = graphs.fold_of(app)
        if not same_sum(I, F.segs, want) or lift(F.init).const() != 0: raise Unsupported("sum of path counts in an unexpected form")
        I.pc.append(app == wz)
    return W


def same_sum(I, A, B):
    A, B = [s for s in A], [s for s in B]
    if len(A) != len(B): return False
    for x, y in zip(A, B):
        if isinstance(x, Rep) and isinstance(y, Rep):
            if lift(num.sub(x.N, y.N)).const() != 0: return False
            j = fresh_int("j")
            g = graphs.at(x.vars, x.k, j) == graphs.at(y.vars, y.k, j)
            rng = z3.And(zbool(num.cmp(">=", j, 0)), zbool(num.cmp("<", j, x.N)))
            if not I.entails(z3.Implies(rng, g)): return False
        else: return False
    return True


def sum_of(I, segs):
    r = 0
    for s in segs:
        if isinstance(s, Item): r = num.add(r, s.v)
        elif isinstance(s, Alt):
            for gs, ss in I.pick(s.vars): r = num.add(r, sum_of(I, ss))
        else: raise Unsupported("sum")
    return r


def degeneracy(P, I, dec, g, key, la, lb, term=None):
    """number of shortest paths; to all equally near virtual nodes if one of the labels is virtual"""
    va, vb = I.decide(is_virtual(la)), I.decide(is_virtual(lb))
    if va and vb: raise Unsupported("degeneracy of two virtual nodes")
    if not va and not vb: return g.nsp(g.idx(la), g.idx(lb))
    src, tgt = (g.idx(lb), g.idx(la)) if va else (g.idx(la), g.idx(lb))
    D = num.z3_of(g.dist(src, tgt))

    def near(lab):
        i = g.idx(lab)
        c = num.z3_of(g.dist(src, i)) == D
        return Alt([((c,), (Item(g.nsp(src, i)),)), ((z3.Not(c),), ())])
    out = ()
    for s in dec_virtual(dec, key):
        if isinstance(s, Item): out += (near(s.v),)
        elif isinstance(s, Rep):
            s = rename_rep(s)
            (gs, ss), = s.vars
            if not all(isinstance(t, Item) for t in ss): raise Unsupported("virtual nodes")
            # one variant per combination of equally near nodes
            out += (Rep(s.k, s.N, variants([near(t.v).vars for t in ss])),)
        else: raise Unsupported("virtual nodes")
    return fold_lemma(P, I, term, out) if term is not None else fold_lemma(P, I, 0, out)


def variants(alts):
    if not alts: return [((), ())]
    rest = variants(alts[1:])
    return [(gs + g2, ss + s2) for gs, ss in alts[0] for g2, s2 in rest]


def dec_virtual(dec, key):
    v = dec.attrs["virtual"]
    return v.d[key].segs


def weight(P, I, dec, g, key, la, lb, p, term):
    if I.decide(is_virtual(la)) and I.decide(is_virtual(lb)): return 0
    d = g.dist(g.idx(la), g.idx(lb))
    if p is None: return num.neg(d)
    deg = degeneracy(P, I, dec, g, key, la, lb, term)
    z = num.z3_of(deg)
    z = z3.ToReal(z) if z3.is_int(z) else z
    lp = num.sub(num.of_atom(stubs.LOG(num.z3_of(num.sub(1, p)))), num.of_atom(stubs.LOG(num.z3_of(p))))
    if not I.entails(num.cmp(">", lp, 0)): raise Unsupported("logarithms")
    return num.sub(quotient(num.of_atom(stubs.LOG(z)), lp), d)


def quotient(a, b):
    return num.of_atom(num.z3_of(a) / num.z3_of(b))


def check_error_graph(P, I, ctx, dec, sz, T, key, L, p, G):
    if not isinstance(G, SGraph): raise Unsupported("matching of %r" % (G,))
    g = dec.attrs["S"].d[key]
    fn = "LatticeDecoder._make_error_graph"
    vs = dec_virtual(dec, key)
    nv = I.count(vs)
    odd = I.decide(z3.simplify(num.z3_of(L) % 2 == 1))
    sub = ctx + (", odd number of entries" if odd else ", even number of entries")
    n = num.add(num.add(L, nv), 1 if odd else 0)

    # 1. nodes
    def nodes():
        cnt = I.count(G.segs)
        if not isnum(cnt): raise Unsupported("number of nodes")
        P.prove(I, "one node per entry and virtual node, made even", z3.And(zbool(num.cmp("==", cnt, n)), zbool(num.cmp("==", G.n, n))))
        q = fresh_int("q")
        I.assume(num.cmp(">=", q, 0)); I.assume(num.cmp("<", q, n))
        lab = I.nth(G.segs, q)
        if not (isinstance(lab, tuple) and len(lab) == 3 and all(isnum(x) for x in lab)): raise Unsupported("node %r" % (lab,))
        if I.decide(num.cmp("<", q, L)): want, what = hit(key, q), "the entries come first"
        elif I.decide(num.cmp("<", q, num.add(L, nv))): want, what = I.nth(vs, num.sub(q, L)), "then the virtual nodes"
        else: want, what = EXTRA, "then the extra virtual node"
        if not I.entails(z3.And(*[zbool(num.cmp("==", x, y)) for x, y in zip(lab, want)])): raise Unsupported("order of the nodes of the error graph")
        P.prove(I, what, True)
    P.run(I, sub, fn, nodes)

    # 2. every edge carries the weight of its end points
    def one_edge(e):
        i, j, w = e
        P.prove(I, "edges join nodes", z3.And(*[z3.And(zbool(num.cmp(">=", x, 0)), zbool(num.cmp("<", x, n))) for x in (i, j)]))
        la, lb = I.nth(G.segs, i), I.nth(G.segs, j)
        ea, eb = is_extra(la), is_extra(lb)
        if ea or eb:
            P.prove(I, "the extra virtual node is joined to virtual nodes only, by weight 0", z3.And(zbool(is_virtual(lb if ea else la)), zbool(num.cmp("==", w, 0)), z3.BoolVal(not (ea and eb))))
            return
        want = weight(P, I, dec, g, key, la, lb, p, w)
        kind = "virtual pair" if I.entails(z3.And(zbool(is_virtual(la)), zbool(is_virtual(lb)))) else "entry and virtual node" if I.entails(z3.Or(zbool(is_virtual(la)), zbool(is_virtual(lb)))) else "two entries"
        P.prove(I, "weight of an edge, %s" % kind, num.cmp("==", w, want), detail="%s; " % str(w)[:300])

    for leaf in range(count_leaves(G.trace)):
        def edges():
            n_ = [0]

            def f(e):
                n_[0] += 1
                if n_[0] - 1 == leaf:
                    if not (isinstance(e, tuple) and len(e) == 3 and isnum(e[2])): raise Unsupported("edge %r" % (e,))
                    one_edge(e)
            each_leaf_n(I, G.trace, f)
        P.run(I, sub, fn, edges)

    # 3. every pair has an edge
    def pairs():
        a, b = fresh_int("a"), fresh_int("b")
        I.assume(num.cmp(">=", a, 0)); I.assume(num.cmp("<", a, b)); I.assume(num.cmp("<", b, n))
        # where the two nodes are: forks
        la, lb = I.nth(G.segs, a), I.nth(G.segs, b)
        if is_extra(lb) and not I.entails(is_virtual(la)): return
        ok = z3.Or(reaches(G.trace, lambda e: [(e[0], a), (e[1], b)]), reaches(G.trace, lambda e: [(e[0], b), (e[1], a)]))
        if not I.entails(ok):
            if missing(I, G.trace, a, b): P.prove(I, "every pair of nodes has an edge", False, detail="none between %r and %r; " % (la, lb))
            raise Unsupported("edge between an arbitrary pair of nodes")
        P.prove(I, "every pair of nodes has an edge", True)
    P.run(I, sub, fn, pairs)


def missing(I, segs, a, b):
    """no edge joins a and b, whatever the iterations"""
    bad = [False]

    def f(e):
        if I.possible(z3.Or(z3.And(zbool(num.cmp("==", e[0], a)), zbool(num.cmp("==", e[1], b))), z3.And(zbool(num.cmp("==", e[0], b)), zbool(num.cmp("==", e[1], a))))): bad[0] = True
    each_leaf(I, segs, f)
    return not bad[0]


def count_leaves(segs):
    n = 0
    for s in segs:
        if isinstance(s, Item): n += 1
        elif isinstance(s, (Rep, Alt)): n += sum(count_leaves(ss) for gs, ss in s.vars)
        else: raise Unsupported("opaque sequence")
    return n


def each_leaf_n(I, segs, f, skip=None):
    """like each_leaf, but in a fixed numbering (infeasible leaves are counted) and with the path condition extended for good at the chosen leaf"""
    def go(segs, extra):
        for s in segs:
            if isinstance(s, Item):
                saved = I.pc
                I.pc = list(I.pc) + extra
                try:
                    f(s.v)
                finally: I.pc = saved
                continue
            if isinstance(s, Rep):
                s = rename_rep(s)
                more = [zbool(num.cmp(">=", kn(s.k), 0)), zbool(num.cmp("<", kn(s.k), s.N))]
            else: more = []
            for gs, ss in s.vars: go(ss, extra + more + [zbool(g) for g in gs])
    go(segs, [])


# ------------------------------------------------------------------ C09: the matching and what is made of it
MI, MJ = z3.Function("match_i", ZI, ZI), z3.Function("match_j", ZI, ZI)


class Matches(Stub):
    """the set of pairs returned by max_weight_matching: M pairs of node numbers"""

    def __init__(self, M, n): self.M, self.n = M, n
    def subst(self, pairs): return self
    def iter_segs(self, I):
        k = fresh_int("m")
        z = num.z3_of(k)
        return (Rep(atom_of(k), self.M, [((), (Item((num.of_atom(MI(z)), num.of_atom(MJ(z)))),))]),)
    def len_(self, I): return self.M
    def bool_(self, I): return SBool(zbool(num.cmp(">", self.M, 0)))


def match_facts(n):
    n = num.z3_of(n)

    def f(us, done):
        out = []
        for i, t, nm in us:
            if nm in ("match_i", "match_j") and ("m", i) not in done:
                done.add(("m", i))
                k = t.arg(0)
                out += [MI(k) >= 0, MI(k) < n, MJ(k) >= 0, MJ(k) < n, MI(k) != MJ(k)]
        return out
    return f


def edge_half(key):
    """which coordinate of a label gives the level: rows for type Z, columns for type X"""
    return 1 if key == "Z" else 2


def on_line(key, lab):
    """the virtual nodes on the readout line's side: above the top row (Z), left of the left column (X)"""
    return z3.And(zbool(num.cmp("==", lab[0], -1)), zbool(num.cmp("==", lab[edge_half(key)], -H2)))


def fault_lemma(P, sz, key):
    """every fault is an edge of the decoding graph and toggles exactly its ends (over the contracts of C01 and C08)"""
    I = new_interp(sz)
    i, j, t = num.var("i"), num.var("j"), num.var("t")
    T = num.add(num.var("R"), 1)
    d = sz.h if key == "Z" else sz.w
    A, B = (i, j) if key == "Z" else (j, i)       # A along the levels
    ax = edge_half(key)

    def lab(t, x, y): return (t, x, y) if key == "Z" else (t, y, x)

    def thunk():
        I.assume(num.cmp(">=", num.var("R"), 0))
        for x, n in ((i, sz.h), (j, sz.w), (t, T)):
            I.assume(num.cmp(">=", x, 0)); I.assume(num.cmp("<", x, n))
        even = I.decide(zbool(num.cmp("==", num.fmod(num.add(i, j), 2), 0)))
        # Z checks: row + col odd; X checks: row + col even.  the two corners of that parity
        par = 1 if key == "Z" else 0
        s = -1 if even == bool(par) else 1
        up, dn = lab(t, num.sub(A, H2), num.add(B, s * H2)), lab(t, num.add(A, H2), num.sub(B, s * H2))
        ends = []
        for nm, e in (("first", up), ("second", dn)):
            real, virt = real_ok(sz, T, key, *e), virtual_ok(sz, key, -1, e[1], e[2])
            P.prove(I, "%s corner of a data qubit: a check or a virtual node, not both" % nm, z3.Xor(real, virt))
            ends.append(e)
        r, c = num.var("cr2"), num.var("cc2")      # twice the centre of a check
        row, col = num.scale(num.add(num.scale(r, 2), 1), H2), num.scale(num.add(num.scale(c, 2), 1), H2)
        contains = z3.And(*[z3.Or(zbool(num.cmp("==", x, num.add(y, H2))), zbool(num.cmp("==", x, num.sub(y, H2)))) for x, y in ((row, i), (col, j))])
        same = lambda e: z3.And(zbool(num.cmp("==", row, e[1])), zbool(num.cmp("==", col, e[2])))
        P.prove(I, "the checks containing the data qubit are these corners", z3.Implies(z3.And(real_ok(sz, T, key, t, row, col), contains), z3.Or(same(up), same(dn))))
        P.prove(I, "the corners that are checks contain it", z3.Implies(z3.And(real_ok(sz, T, key, t, row, col), z3.Or(same(up), same(dn))), contains))
        first = zbool(num.cmp("==", A, 0))
        P.prove(I, "it lies on the readout line iff its first corner is a virtual node of the line", first == virtual_ok(sz, key, -1, up[1], up[2]))
        P.prove(I, "its second corner is not on the line", z3.Not(on_line(key, (-1,) + dn[1:])))
    P.run(I, "lemma %s: a data-qubit flip is an edge of the graph of type %s" % (sz, key), "spec", thunk)

    def levels():
        r, c = num.var("lr"), num.var("lc")
        row, col = num.scale(num.add(num.scale(r, 2), -1), H2), num.scale(num.add(num.scale(c, 2), -1), H2)
        lv = r if key == "Z" else c               # level: row + 1/2 (column + 1/2)
        I.assume(num.cmp(">=", num.var("R"), 0))
        real, virt = real_ok(sz, T, key, t, row, col), virtual_ok(sz, key, -1, row, col)
        P.prove(I, "checks have levels 1..d-1", z3.Implies(real, z3.And(zbool(num.cmp(">=", lv, 1)), zbool(num.cmp("<=", lv, num.sub(d, 1))))))
        P.prove(I, "virtual nodes have levels 0 and d", z3.Implies(virt, z3.Or(zbool(num.cmp("==", lv, 0)), zbool(num.cmp("==", lv, d)))))
        P.prove(I, "level 0 is the side of the readout line", z3.Implies(virt, zbool(num.cmp("==", lv, 0)) == on_line(key, (-1, row, col))))
    P.run(I, "lemma %s: levels of the graph of type %s" % (sz, key), "spec", levels)


def weight_function(P, I, wf, key, g):
    """edge weights enter the matching in proportion"""
    D = num.var("D")
    I.assume(num.cmp(">=", D, 0))
    num_ = lambda x: Num(lift(x).p, True)
    if wf is None: raise Unsupported("matching without a weight function")
    f = lambda x: I.call(wf, [x], {})
    zero, zint, one, arb = f(num_(0)), f(0), f(num_(-1)), f(num_(num.neg(D)))
    for x in (zero, zint, one, arb):
        if not isnum(x): raise Unsupported("weight %r" % (x,))
    c = num.sub(zero, one)
    cc = lift(c).const()
    if cc is None: raise Unsupported("weight function")
    P.prove(I, "the matching maximises minus the distance: weights in proportion", z3.And(z3.BoolVal(cc > 0), zbool(num.cmp("==", arb, num.sub(zero, num.scale(D, cc)))), zbool(num.cmp("==", zero, zint))))


def c09(P):
    P.trusted += ["retworkx: graph_floyd_warshall_numpy gives the distances; max_weight_matching with max_cardinality gives as many pairs as possible and, among those, the largest weight",
                  "callee contract of the graph construction, not assumed but discharged by check C08: the labels, unit-weight edges between diagonal neighbours and consecutive rounds, a connected graph",
                  "callee contracts of parse_readout and of the final stabilizer extraction, discharged by checks C06 and C07: a fault toggles the entries of the checks containing it"]
    if P.mine("lean"): lean(P, "C09.lean", ["C09.corrected", "C09.silent", "C09.connected_of_potential"])
    for code, sz, key in kinds():
        P.size = (sz.h, sz.w)
        if code != "Repetition" and P.mine("lemma", str(sz), key): fault_lemma(P, sz, key)
        for v, form in ((0, ""), (1, ""), (0, ", from a string"), (1, ", from a string")):
            if not P.mine(code, str(sz), key, v, form): continue
            I = new_interp(sz, load=DECODERS.values())
            I.infer = True
            ctx = "%s %s correct_readout %s of %d%s" % (code, sz, key, v, form)

            def thunk():
                dec, T, L = setup(P, I, code, sz, key)
                nv = I.count(dec_virtual(dec, key))
                P.prove(I, "an even number of virtual nodes", z3.simplify(num.z3_of(nv) % 2 == 0))
                syn = SDict({key: hits(key, L)})
                seen = []
                mark, limit = len(I.trail), Heap.peek()

                def hook(I, a, k):
                    k = dict(k)
                    for nm, x in zip(("graph", "max_cardinality", "weight_fn", "default_weight", "verify_optimum"), a): k[nm] = x
                    G, mc = k.pop("graph"), k.pop("max_cardinality", False)
                    wf = k.pop("weight_fn", None)
                    k.pop("verify_optimum", None); k.pop("default_weight", None)
                    if k: raise Unsupported("matching with %s" % sorted(k))
                    if not isinstance(mc, bool): raise Unsupported("max_cardinality")
                    P.prove(I, "every node is matched: max_cardinality", mc)
                    if v == 0:
                        P.run(I, ctx, "LatticeDecoder._run_mwpm", lambda: weight_function(P, I, wf, key, None))
                        check_error_graph(P, I, ctx, dec, sz, T, key, L, None, G)
                    M = num.var("matches")
                    I.assume(num.cmp(">=", M, 0))
                    solve.HOOKS.append(match_facts(G.n))
                    seen.append((G, M))
                    return Matches(M, G.n)
                I.matching_hook = hook
                if form:
                    text = AStr(num.var("readout"))
                    asked = []

                    def parsed(I, f, a, k):
                        asked.append(list(a[1:]) + list(k.values()))
                        return (v, syn)
                    for q in PARSERS: I.contracts[q] = parsed
                    r = I.call(I.getattr(dec, "correct_readout"), [text, key], {})
                    P.prove(I, "the string is parsed once, as a readout of the type decoded", len(asked) == 1 and any(isinstance(x, AStr) and zb(I.equal(x, text)) is True for x in asked[0])
                            and key in [x for x in asked[0] if isinstance(x, str)])
                else: r = I.call(I.getattr(dec, "correct_readout"), [syn, key, v], {})
                if len(seen) != 1: raise Unsupported("%d matchings" % len(seen))
                G, M = seen[0]
                keeps(P, I, mark, limit, lambda o, slot, key: o is dec and key == "_encoder")
                crossing_count(P, I, ctx, r, v, key, G, M)
            P.run(I, ctx, "LatticeDecoder.correct_readout", thunk)
            if form: continue

            def silent():
                dec, T, L = setup(P, I, code, sz, key)
                I.matching_hook = None
                mark, limit = len(I.trail), Heap.peek()
                r = I.call(I.getattr(dec, "correct_readout"), [SDict({key: SList(())}), key, v], {})
                keeps(P, I, mark, limit, lambda o, slot, key: o is dec and key == "_encoder")
                if not isnum(r): raise Unsupported("result %r" % (r,))
                P.prove(I, "no entry: the value is returned as it is", num.cmp("==", r, v))
            P.run(I, ctx + ", no entries", "LatticeDecoder.correct_readout", silent)


def crossing_count(P, I, ctx, r, v, key, G, M):
    """the result: the value, flipped once for every match, not between two virtual nodes, with an end on the readout line"""
    fn = "LatticeDecoder.correct_readout"
    if not (isinstance(r, Fold) and r.kind == "parity"): raise Unsupported("result of a matching: %s" % str(r)[:80])
    segs = [s for s in r.segs]
    if len(segs) != 1 or not isinstance(segs[0], Rep): raise Unsupported("result of a matching")
    rep = segs[0]
    if not isnum(r.init): raise Unsupported("initial value")
    P.prove(I, "the starting point is the value measured", num.cmp("==", r.init, v))
    P.prove(I, "every match is looked at once", num.cmp("==", rep.N, M))

    def one():
        k = fresh_int("m")
        I.assume(num.cmp(">=", k, 0)); I.assume(num.cmp("<", k, M))
        zk = num.z3_of(k)
        la, lb = (I.nth(G.segs, num.of_atom(f(zk))) for f in (MI, MJ))
        for x, y in ((la, lb), (lb, la)):
            if is_extra(x) and not I.entails(is_virtual(y)): return       # not an edge: never matched
        got = graphs.at(rep.vars, rep.k, k)
        want = z3.And(z3.Not(z3.And(zbool(is_virtual(la)), zbool(is_virtual(lb)))), z3.Or(on_line(key, la), on_line(key, lb)))
        P.prove(I, "a match flips the value iff it is not between two virtual nodes and one end is on the readout line", (got % 2 == 1) == want)
    P.run(I, ctx + ", one match", fn, one)


def lean(P, name, theorems):
    """theorems checked by the Lean kernel; they may rest on Lean's standard axioms only"""
    import subprocess, os, time, re
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", name)
    t = time.time()
    src = open(path).read()
    env = dict(os.environ); env.pop("PYTHONPATH", None)
    try: r = subprocess.run(["lean", path], capture_output=True, text=True, timeout=300, env=env)
    except (OSError, subprocess.TimeoutExpired) as e: r = None
    out = (r.stdout + r.stderr) if r else "not run"
    bad = r is None or r.returncode != 0 or "error" in out or "sorry" in out or "sorry" in src or "axiom " in src
    for th in theorems:
        m = re.search(re.escape("'%s'" % th) + r" (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out)
        ok = not bad and m and set((m.group(2) or "").replace(" ", "").split(",")) <= {"", "propext", "Classical.choice", "Quot.sound"}
        P.ctx, P.fn = "lemma", "spec"
        P.rec("theorem %s" % th, "discharged" if ok else "unknown", "lean", "" if ok else out[:300], (time.time() - t) / len(theorems))


if __name__ == "__main__":
    import sys
    P = Prover("C11")
    c11(P)
    for o in P.obs.values(): print(o["name"], o["status"], o["detail"])
