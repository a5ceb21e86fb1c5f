"""C06, C07: contracts of the readout parsers."""
import z3
from fractions import Fraction
import num, solve
from num import Num, lift
from values import *
from interp import *
from spec import *
from c_lattice import plaquettes, cover_obligations, all_codes, data_cases, each, frame_params

V = z3.Function("outcome", z3.IntSort(), z3.BoolSort())           # outcome of data qubit q
PV = z3.Function("previous", z3.IntSort(), z3.BoolSort())         # bit i (from the right) of the previous syndrome string


def bit_string(F, n):
    """the binary string of length n whose character number p from the left is F(n-1-p)"""
    k = fresh_int("k")
    return mkstr((Rep(atom_of(k), n, [((), (Item(BitCh(F(num.z3_of(num.sub(num.sub(n, 1), k))))),))]),))


class Outs:
    """pseudo register: the data outcomes"""
    rname = "outcome"


OUTS = Outs()


def parity_events(I, v):
    """the summands V(e) of a parity as events on the pseudo register"""
    if isinstance(v, Fold):
        if v.kind != "parity": raise Unsupported("logical value is a %s" % v.kind)
        return parity_conv(v.init) + flat_items(v.segs, parity_conv)
    return parity_conv(v)


def parity_conv(x):
    """segments of the odd summands of an integer"""
    if isinstance(x, (bool, SBool)):
        e = zb(x)
        if isinstance(e, bool): return (Item(Ev("c1")),) if e else ()
        if e.decl().eq(V): return (Item(Ev("v", (BRef(OUTS, num.of_z3(e.arg(0))),))),)
        raise Unsupported("summand %r of a parity" % (x,))
    out = ()
    for m, c in lift(x).p.items():
        if c.denominator != 1: raise Unsupported("summand %r of a parity" % (x,))
        if int(c) % 2 == 0: continue
        if m == (): out += (Item(Ev("c1")),); continue
        if len(m) != 1: raise Unsupported("summand %r of a parity" % (x,))
        a = num._atoms[m[0]]
        if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(1).eq(z3.IntVal(1)) and a.arg(2).eq(z3.IntVal(0)): out += parity_conv(SBool(a.arg(0)))
        elif z3.is_app_of(a, z3.Z3_OP_MOD) and a.arg(1).eq(z3.IntVal(2)): out += parity_conv(num.of_z3(a.arg(0)))
        else: raise Unsupported("summand %r of a parity" % (x,))
    return out


def flat_items(segs, f):
    out = ()
    for s in segs:
        if isinstance(s, Item): out += f(s.v)
        elif isinstance(s, Rep): out += (Rep(s.k, s.N, [(g, flat_items(ss, f)) for g, ss in s.vars]),)
        elif isinstance(s, Alt): out += (Alt([(g, flat_items(ss, f)) for g, ss in s.vars]),)
        else: raise Unsupported("opaque sequence")
    return out


def isnum_(x): return num.isnum(x)


def char_bool(c):
    if isinstance(c, str):
        if c not in "01": raise Unsupported("character %r" % c)
        return c == "1"
    if isinstance(c, BitCh): return c.e
    if isinstance(c, FoldCh): return fold_bool(c.f)
    raise Unsupported("character %r" % (c,))


def xors(bs):
    acc = False
    for b in bs: acc = bxor(acc, b)
    return acc


def c07(P):
    for code, sz in all_codes():
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            lat = I.getattr(q, "lattice")
            for n in (sz.nx, sz.nz): solve.add_bound(n)
            for L in "XZ":
                for meth in ("extract_final_stabilizer_and_logical_readout", "extract_final_stabilizer_and_logical_readout_" + L.lower()):
                    if not P.mine(code, str(sz), meth, L): continue
                    ctx = "%s %s %s%s" % (code, sz, meth, "" if meth[-2] == "_" else " type " + L)

                    def run1():
                        before, tr0 = dict(lat.attrs["params"].d), circ.trace
                        args = [bit_string(V, sz.nd), bit_string(PV, num.sub(sz.nd, 1))] + ([L] if meth[-2] != "_" else [])
                        mark, limit = len(I.trail), Heap.peek()
                        r = I.call(I.getattr(lat, meth), args, {})
                        frame_params(P, I, lat, before)
                        keeps(P, I, mark, limit, lambda o, slot, key: False)
                        P.prove(I, "leaves the circuit alone", circ.trace == tr0)
                        P.prove(I, "returns a pair", isinstance(r, tuple) and len(r) == 2, detail="%r; " % (r,))
                        if not (isinstance(r, tuple) and len(r) == 2): return
                        log, stab = r
                        par = parity_events(I, log)
                        P.prove(I, "logical value is 0 or 1", True if isinstance(log, Fold) else z3.And(zbool(num.cmp(">=", log, 0)), zbool(num.cmp("<=", log, 1))))
                        P.prove(I, "no constant added to the logical parity", sum(1 for e in walk_ev(par) if e.op == "c1") == 0)

                        def at(nm, hy, row, col, p):
                            evs = gather(I, par, OUTS, num.add(num.mul(row, sz.w), col))
                            if any(isinstance(e, Loop) for _, e in evs): raise Unsupported("one outcome in every iteration")
                            on = I.decide(num.cmp("==", col if L == "X" else row, 0))
                            P.prove(I, "its outcome enters the logical value iff it lies on the logical operator", len(evs) % 2 == (1 if on else 0), detail="%d times; " % len(evs))
                        each(P, I, ctx, "_RotatedLattice." + meth, data_cases(sz), at)
                        P.prove(I, "syndrome string is a string", isinstance(stab, (str, Str)))
                        segs = explode(str_segs(stab))
                        n = I.count(segs)
                        if not isnum_(n): raise Unsupported("length of the syndrome string")
                        P.prove(I, "one bit per check", num.cmp("==", n, num.sub(sz.nd, 1)))

                        def check(nm, hy, kind, K, corners):
                            off = num.sub(num.sub(sz.nx, 1), K) if kind == "mx" else num.sub(num.sub(num.sub(sz.nd, 1), 1), K)
                            c = simp(I, I.nth(segs, off))
                            b = char_bool(c)
                            if (kind == "mx") == (L == "X"):
                                want = xors([V(num.z3_of(num.add(num.mul(rr, sz.w), cc))) for rr, cc in corners.values()])
                                P.prove(I, "its bit is the parity of the outcomes on its data qubits", zb(b) == want, detail="%s; " % str(b)[:300])
                            else:
                                i = num.add(sz.nz, K) if kind == "mx" else K
                                P.prove(I, "its bit is copied from the previous syndrome", zb(b) == PV(num.z3_of(i)), detail="%s; " % str(b)[:300])
                        each(P, I, ctx, "_RotatedLattice." + meth, [(k + " " + nm, hy, k, K, corners) for k, nm, hy, K, corners, _ in plaquettes(sz)], check)
                    P.run(I, ctx, "_RotatedLattice." + meth, run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)
    for sz in sizes():
        if P.mine("cover", str(sz)): cover_obligations(P, sz)


def walk_ev(segs):
    for s in segs:
        if isinstance(s, Item): yield s.v
        elif isinstance(s, (Rep, Alt)):
            for gs, ss in s.vars: yield from walk_ev(ss)
        else: raise Unsupported("opaque sequence")


# ------------------------------------------------------------------ C06
S = z3.Function("syndrome", z3.IntSort(), z3.IntSort(), z3.BoolSort())     # bit i (from the right) of the string of round t


def rounds_seg(R, n):
    """' ' + syndrome string, latest round first"""
    k, j = fresh_int("k"), fresh_int("j")
    rd = num.sub(num.sub(R, 1), k)
    inner = Rep(atom_of(j), n, [((), (Item(BitCh(S(num.z3_of(rd), num.z3_of(num.sub(num.sub(n, 1), j))))),))])
    return Rep(atom_of(k), R, [((), (Item(" "), inner))])


def leaves(segs):
    for s in segs:
        if isinstance(s, Item): yield s.v
        elif isinstance(s, (Rep, Alt)):
            for gs, ss in s.vars: yield from leaves(ss)
        else: raise Unsupported("opaque sequence")


def hit_shape(v):
    if not (isinstance(v, tuple) and len(v) == 3 and all(num.isnum(x) for x in v)): raise Unsupported("syndrome entry %r" % (v,))
    return v


def index_of_centre(sz, kind, row, col):
    """the check index with this plaquette centre (inverse of the specification's centre)"""
    half = Fraction(1, 2)
    R = num.toint_exact(num.add(row, half) if kind == "mx" else num.sub(row, half))
    p = num.fmod(R, 2)
    o = num.scale(num.sub(num.sub(col, half), p) if kind == "mx" else num.add(num.sub(col, half), p), half)
    return num.add(num.mul(R, sz.b if kind == "mx" else num.add(sz.b, 1)), num.toint_exact(o))


def split_loops(I, segs):
    """the loops over check locations (innermost loops whose entries' time does not depend on the loop variable)"""
    for s in segs:
        if isinstance(s, Rep):
            ls = [hit_shape(v) for v in leaves((s,))]
            if not ls: continue
            dep_t = any(s.k.get_id() in consts_of(v[0]) for v in ls)
            dep_x = any(s.k.get_id() in consts_of((v[1], v[2])) for v in ls)
            if dep_t and dep_x: raise Unsupported("one loop over rounds and checks")
            if dep_x: yield s, "loc"
            elif dep_t:
                yield s, "time"
                for gs, ss in s.vars:
                    for x in split_loops(I, ss): yield x
            else: raise Unsupported("loop with constant entries")
        elif isinstance(s, Alt):
            for gs, ss in s.vars:
                for x in split_loops(I, ss): yield x


def count_hits(I, segs, t, row, col, K):
    """number of entries equal to (t, row, col); location loops can only produce it at iteration K (proved separately)"""
    n = 0
    for s in segs:
        if isinstance(s, Item):
            v = simp(I, hit_shape(s.v))
            if I.decide(num.cmp("==", v[0], t)) and I.decide(num.cmp("==", v[1], row)) and I.decide(num.cmp("==", v[2], col)): n += 1
        elif isinstance(s, Alt):
            for gs, ss in I.pick(s.vars): n += count_hits(I, ss, t, row, col, K)
        else:
            s = rename_rep(s)
            ls = [hit_shape(v) for v in leaves((s,))]
            if not ls: continue
            if any(s.k.get_id() in consts_of((v[1], v[2])) for v in ls): k0 = K
            else:
                rs = [solve_index(I, v[0], s.k, t) for v in ls]
                if any(r[0] == "all" for r in rs): raise Unsupported("loop with constant entries")
                ks = [r[1] for r in rs if r[0] == "one"]
                if not ks: continue
                k0 = ks[0]
                if any(lift(num.sub(x, k0)).const() != 0 for x in ks): raise Unsupported("entries of different rounds in one loop")
            if not I.decide(z3.And(zbool(num.cmp(">=", k0, 0)), zbool(num.cmp("<", k0, s.N)))): continue
            pr = [(s.k, k0)]
            vs = [(tuple(simpb(I, subst_b(g, pr)) for g in gs), subst_segs(ss, pr)) for gs, ss in s.vars]
            for gs, ss in I.pick(vs): n += count_hits(I, ss, t, row, col, K)
    return n


def c06(P):
    P.trusted += ["Python: str.split, int(x, 2), bit operations on ints, zip, enumerate as modelled by the front end"]
    for code, sz in all_codes():
        P.size = (sz.h, sz.w)
        I = new_interp(sz, load=DECODERS.values())

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            for n in (sz.nx, sz.nz): solve.add_bound(n)
            nd1 = num.sub(sz.nd, 1)
            R = num.add(num.var("R"), 1)
            I.assume(num.cmp(">=", num.var("R"), 0))
            for who in ("qubit", "decoder"):
                for form in ("bit", "X", "Z"):
                    if who == "decoder" and code == "XZZX": continue
                    if not P.mine(code, str(sz), who, form): continue
                    if who == "decoder":
                        fn = "LatticeDecoder.parse_readout"
                    else: fn = "TopologicalQubit.parse_readout"
                    ctx = "%s %s %s parse_readout, %s" % (code, sz, who, "logical bit" if form == "bit" else "lattice readout " + form)

                    def run1():
                        if who == "decoder":
                            cls = I.get(DECODERS[code])
                            target = SObj(cls)
                            pr = {"d": (sz.h, sz.w), "T": R}
                            if code == "Repetition": pr["phase-flip-protected"] = lift(sz.h).const() == 1
                            target.attrs = {"params": SDict(pr), "_encoder": None}
                        else: target = q
                        if form == "bit":
                            L = z3.Bool("logical")
                            s = mkstr((Item(BitCh(L)), rounds_seg(R, nd1)))
                            args, steps = [s], num.sub(R, 1)
                        else:
                            s = mkstr(bit_string(V, sz.nd).segs + (rounds_seg(R, nd1),))
                            args, steps = [s, form], R
                        lat0 = I.getattr(q, "lattice")
                        before, tr0 = dict(lat0.attrs["params"].d), circ.trace
                        mark, limit = len(I.trail), Heap.peek()
                        r = I.call(I.getattr(target, "parse_readout"), args, {})
                        frame_params(P, I, lat0, before)
                        keeps(P, I, mark, limit, lambda o, slot, key: who == "decoder" and o is target and key == "_encoder")
                        P.prove(I, "leaves the circuit alone", circ.trace == tr0)
                        ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], SDict) and not r[1].ups and set(r[1].d) == {"X", "Z"} and all(isinstance(x, SList) for x in r[1].d.values())
                        if not ok: raise Unsupported("result %r" % (r,))
                        log, dic = r
                        if form == "bit":
                            P.prove(I, "logical value is the logical bit", num.cmp("==", log, ite_num(L, 1, 0)) if num.isnum(log) else I.equal(log, ite_num(L, 1, 0)))
                        else:
                            par = parity_events(I, log)
                            P.prove(I, "logical value is 0 or 1", True if isinstance(log, Fold) else z3.And(zbool(num.cmp(">=", log, 0)), zbool(num.cmp("<=", log, 1))))
                            P.prove(I, "no constant added to the logical parity", sum(1 for e in walk_ev(par) if e.op == "c1") == 0)

                            def at(nm, hy, row, col, p):
                                evs = gather(I, par, OUTS, num.add(num.mul(row, sz.w), col))
                                if any(isinstance(e, Loop) for _, e in evs): raise Unsupported("one outcome in every iteration")
                                on = I.decide(num.cmp("==", col if form == "X" else row, 0))
                                P.prove(I, "its outcome enters the logical value iff it lies on the logical operator", len(evs) % 2 == (1 if on else 0), detail="%d times; " % len(evs))
                            each(P, I, ctx, fn, data_cases(sz), at)
                        for key, kind, n in (("X", "mx", sz.nx), ("Z", "mz", sz.nz)):
                            segs = dic.d[key].segs
                            for i, (rep, what) in enumerate(list(split_loops(I, segs))):
                                if what != "loc": continue

                                def inj():
                                    loc = fresh_int("loc")
                                    I.assume(num.cmp(">=", loc, 0)); I.assume(num.cmp("<", loc, rep.N))
                                    for gs, ss in I.pick([(tuple(subst_b(g, [(rep.k, loc)]) for g in gs), subst_segs(ss, [(rep.k, loc)])) for gs, ss in rep.vars]):
                                        for v in leaves(ss):
                                            P.prove(I, "entries of a %s location loop lie at the centre of the check of that number only" % key, num.cmp("==", index_of_centre(sz, kind, v[1], v[2]), loc), detail="%r; " % (v,))
                                P.run(I, ctx, fn, inj)
                            if lift(n).const() == 0:
                                P.prove(I, "no %s entries without such checks" % key, not segs if not segs else num.cmp("==", I.count(segs) if num.isnum(I.count(segs)) else 1, 0))

                        t = num.var("t")
                        times = [("earlier round", [zbool(num.cmp(">=", t, 0)), zbool(num.cmp("<", t, num.sub(R, 1)))], t)]
                        if form != "bit": times.append(("last round", [], num.sub(R, 1)))

                        def check(nm, hy, kind, K, corners, centre, t, last):
                            Rr, cc = centre
                            half = Fraction(1, 2)
                            row, col = num.sub(Rr, half), num.add(cc, half)
                            P.prove(I, "centre of the check of that number", num.cmp("==", index_of_centre(sz, kind, row, col), K))
                            nh = count_hits(I, dic.d["X" if kind == "mx" else "Z"].segs, t, row, col, K)
                            bit = num.add(sz.nz, K) if kind == "mx" else K
                            z = num.z3_of
                            old = S(z(t), z(bit))
                            if not last: new = S(z(num.add(t, 1)), z(bit))
                            elif (kind == "mx") == (form == "X"): new = xors([V(z(num.add(num.mul(rr, sz.w), c2))) for rr, c2 in corners.values()])
                            else: new = old
                            P.prove(I, "exactly one entry if its value changes", z3.Implies(zbool(bxor(old, new)), z3.BoolVal(nh == 1)), detail="%d entries; " % nh)
                            P.prove(I, "no entry if its value does not change", z3.Implies(z3.Not(zbool(bxor(old, new))), z3.BoolVal(nh == 0)), detail="%d entries; " % nh)
                        each(P, I, ctx, fn, [("%s %s, %s" % (k, nm, tn), hy + th, k, K, corners, ctr, tv, tn == "last round")
                                             for k, nm, hy, K, corners, ctr in plaquettes(sz) for tn, th, tv in times], check)

                        # a time outside the rounds never occurs
                        for key in "XZ":
                            def tout():
                                for v, gs in guarded_leaves(I, dic.d[key].segs):
                                    P.prove(I, "%s entries carry a round number" % key, z3.And(zbool(num.cmp(">=", v[0], 0)), zbool(num.cmp("<", v[0], steps))), detail="%r; " % (v,))
                            P.run(I, ctx, fn, tout)
                    P.run(I, ctx, fn, run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)
    for sz in sizes():
        if P.mine("cover", str(sz)): cover_obligations(P, sz)


def guarded_leaves(I, segs):
    """one arbitrary entry of every leaf, its loop ranges assumed"""
    for s in segs:
        if isinstance(s, Item): yield hit_shape(s.v), ()
        elif isinstance(s, Rep):
            s = rename_rep(s)
            saved = I.pc
            I.pc = list(I.pc) + [zbool(num.cmp(">=", kn(s.k), 0)), zbool(num.cmp("<", kn(s.k), s.N))]
            for gs, ss in s.vars:
                yield from guarded_leaves(I, ss)
            I.pc = saved
        elif isinstance(s, Alt):
            for gs, ss in s.vars: yield from guarded_leaves(I, ss)
