"""C10: decoding and construction leave the caller's data and the decoder unchanged (frame conditions over the whole heap)."""
import z3
import num, solve, graphs
from num import lift, isnum
from values import *
from interp import *
from spec import *
from c_lattice import all_codes
from c_register import AStr
from c_readout import bit_string, rounds_seg
from c_decode import *

PROTECTED = ("S", "node_map", "virtual", "params", "look_up_table", "look_up_table_shots")


def frame(P, I, mark, limit, protected, allowed=()):
    """protected: {id: (object, what it belongs to)}"""
    bad = []
    for obj, slot, key, old, cur in writes(I, mark, limit):
        if any(obj is o and key in ks for o, ks in allowed): continue
        if id(obj) in protected: bad.append("%s of %s: %s -> %s" % (key if key is not None else slot, protected[id(obj)][1], str(old)[:60], str(cur)[:60]))
        else: raise Unsupported("writes %s of an object the property does not speak of" % (key if key is not None else slot,))
    groups = sorted({w for o, w in protected.values()})
    for g in groups:
        b = [x for x in bad if (" of %s: " % g) in x]
        P.prove(I, "unchanged: %s" % g, not b, detail="%s; " % b[:2])


def guard(dec=None, **args):
    pr = {}
    for nm, v in args.items():
        for i, o in reach(v).items():
            if isinstance(o, Heap): pr.setdefault(i, (o, nm.replace("_", " ")))
    if dec is not None:
        for nm in PROTECTED:
            if nm not in dec.attrs: raise Unsupported("no attribute %s" % nm)
            for i, o in reach(dec.attrs[nm]).items():
                if isinstance(o, Heap): pr.setdefault(i, (o, "the decoder's %s" % nm))
        pr[id(dec)] = (dec, "the decoder's attributes")
    return pr


def check_frame(P, I, dec, mark, limit, pr, allowed=("_encoder",)):
    """like frame; attributes of the decoder that the property does not name (caches) are left to the bounded stage"""
    for obj, slot, key, old, cur in writes(I, mark, limit):
        if obj is dec and key not in PROTECTED and key not in allowed: raise Unsupported("writes attribute %s of the decoder" % (key,))
    frame(P, I, mark, limit, pr, [(dec, allowed)])


def other_hits(key, L):
    """an arbitrary list of entries of the other type"""
    k = fresh_int("k")
    F = [z3.Function("other_" + x, ZI, ZI) for x in ("time", "row", "col")]
    z = num.z3_of(k)
    return SList((Rep(atom_of(k), L, [((), (Item(tuple(num.of_atom(f(z)) for f in F)),))]),))


def decode_frames(P, code, sz, key, what):
    P.size = (sz.h, sz.w)
    I = new_interp(sz, load=DECODERS.values())
    I.infer = True
    fn = "LatticeDecoder.correct_readout"
    ctx = "%s %s correct_readout %s, %s" % (code, sz, key, what)

    def thunk():
        dec, T, L = setup(P, I, code, sz, key)
        solve.HOOKS.append(None)

        def hook(I, a, k):
            G = a[0] if a else k["graph"]
            if not isinstance(G, SGraph): raise Unsupported("matching of %r" % (G,))
            M = num.var("matches")
            I.assume(num.cmp(">=", M, 0))
            solve.HOOKS[-1] = match_facts(G.n)
            return Matches(M, G.n)
        solve.HOOKS[-1] = lambda us, done: []
        I.matching_hook = hook
        other = "X" if key == "Z" else "Z"
        args, kw = {}, {}
        if "no entries" in what: lst = SList(())
        else: lst = hits(key, L)
        syn = SDict({key: lst, other: other_hits(other, num.var("L2"))})
        I.assume(num.cmp(">=", num.var("L2"), 0))
        if what == "with an error probability":
            p = Num(lift(num.var("p", True)).p, True)
            I.assume(num.cmp(">", p, 0)); I.assume(num.cmp("<", p, Fraction(1, 2)))
            kw["err_prob"] = p
        if "string" in what:
            S_ = z3.Function("syn", ZI, ZI, z3.BoolSort())
            s = AStr(num.var("readout"))
            asked = []

            def parsed(I, f, a, k):
                asked.append((a[1:], k))
                return (0 if I.decide(z3.Bool("parsed")) else 1, syn)
            for q in PARSERS: I.contracts[q] = parsed
            call = [s, key]
        else:
            call = [syn, key, 0]
        pr = guard(dec, **({} if "string" in what else {"the_caller's_syndromes": syn}))
        mark, limit = len(I.trail), Heap.peek()
        r = I.call(I.getattr(dec, "correct_readout"), call, kw)
        if "string" in what:
            P.prove(I, "the string is parsed", len(asked) == 1)
            P.prove(I, "with the type decoded", all(len(a) + len(k) == 2 and any(isinstance(x, AStr) and zb(I.equal(x, s)) is True for x in list(a) + list(k.values())) and key in [x for x in list(a) + list(k.values()) if isinstance(x, str)] for a, k in asked))
        check_frame(P, I, dec, mark, limit, pr)
        P.prove(I, "the result holds nothing of the decoder or the arguments", not [o for o in reach(r).values() if isinstance(o, Heap) and o.oid < limit])
    P.run(I, ctx, fn, thunk)


def parse_frames(P, code, sz, who, form):
    from c_readout import V, S, mkstr, BitCh
    P.size = (sz.h, sz.w)
    I = new_interp(sz, load=DECODERS.values())
    I.infer = False
    ctx = "%s %s %s parse_readout, %s" % (code, sz, who, "logical bit" if form == "bit" else "lattice readout " + form)
    fn = "LatticeDecoder.parse_readout" if who == "decoder" else "TopologicalQubit.parse_readout"

    def thunk():
        for n in (sz.nx, sz.nz): solve.add_bound(n)
        nd1 = num.sub(sz.nd, 1)
        if who == "decoder":
            dec, T = mk_decoder(P, I, code, sz)
            R = T
            target = dec
        else:
            q, circ, cnt = mk_qubit(I, code, sz)
            R = num.add(num.var("R"), 1)
            I.assume(num.cmp(">=", num.var("R"), 0))
            target, dec = q, None
        if form == "bit":
            args = [mkstr((Item(BitCh(z3.Bool("logical"))), rounds_seg(R, nd1)))]
        else:
            args = [mkstr(bit_string(V, sz.nd).segs + (rounds_seg(R, nd1),)), form]

        def once(nm, allowed):
            pr = guard(dec, **({"the_logical_qubit_and_its_circuit": target} if dec is None else {}))
            mark, limit = len(I.trail), Heap.peek()
            r = I.call(I.getattr(target, "parse_readout"), list(args), {})
            octx = P.ctx
            P.ctx = octx + ", " + nm
            if dec is None: frame(P, I, mark, limit, pr)
            else: check_frame(P, I, dec, mark, limit, pr, allowed)
            old = [o for o in reach(r).values() if isinstance(o, Heap) and o.oid < limit]
            if old: raise Unsupported("a result shared with the decoder")
            P.prove(I, "the result is new", True)
            P.ctx = octx
            return r
        r1 = once("first call", ("_encoder",))
        r2 = once("repeated", ())
        a, b = canon_value(r1), canon_value(r2)
        if a != b: raise Unsupported("results in different forms")
        P.prove(I, "a repeated call gives the same result", True)
    P.run(I, ctx, fn, thunk)


def canon_value(v):
    """a text of a value in which the names of bound variables and of objects do not matter"""
    if isinstance(v, tuple): return "(%s)" % ",".join(canon_value(x) for x in v)
    if isinstance(v, SList): return "[%s]" % canon_text(v.segs)
    if isinstance(v, SDict):
        if v.base is not None or v.ups: raise Unsupported("result dictionary")
        return "{%s}" % ",".join("%s:%s" % (k, canon_value(v.d[k])) for k in sorted(v.d))
    if isinstance(v, Fold): return "%s(%s;%s)" % (v.kind, canon_text(v.segs), canon_value(v.init))
    return repr(v)


def canon_text(segs): return repr(graphs.canon(segs))


def construct_frames(P, code, sz):
    """a second logical qubit from the same parameters: neither the caller's dictionary nor the first lattice's parameters change"""
    P.size = (sz.h, sz.w)
    I = new_interp(sz)
    cls = CODES[code].split(":")[1]
    flip = code == "Repetition" and lift(sz.h).const() == 1
    forms = ["pair"]
    if code == "Repetition" or str(sz) == str(sizes()[0]): forms.append("integer")
    for form in forms:
        def thunk():
            if form == "pair": d = (sz.h, sz.w)
            elif code == "Repetition": d = sz.w if flip else sz.h
            else: d = sz.h
            prm = {"d": d}
            if flip: prm["phase-flip-protected"] = True
            pd = SDict(prm)
            q1 = I.call(I.get(CODES[code]), [pd], {"name": "a"})
            P.prove(I, "the caller's parameters as they were", set(pd.d) == set(prm) and not pd.ups and all(same_value(I, pd.d[k], prm[k]) for k in prm))
            lat = I.getattr(q1, "lattice")
            if "params" not in lat.attrs: raise Unsupported("lattice without params")
            pr = guard(None, **{"the_caller's_parameters": pd, "the_first_lattice's_parameters": lat.attrs["params"]})
            mark, limit = len(I.trail), Heap.peek()
            q2 = I.call(I.get(CODES[code]), [pd], {"name": "b"})
            ok = I.getattr(q2, "lattice").attrs["params"]
            P.prove(I, "lattices do not share parameters", ok is not lat.attrs["params"] and ok is not pd and lat.attrs["params"] is not pd)
            bad = [w for w in writes(I, mark, limit) if id(w[0]) in pr]
            for g in sorted({w for o, w in pr.values()}):
                P.prove(I, "unchanged: %s" % g, not [w for w in bad if pr[id(w[0])][1] == g], detail="%s; " % [(w[2], str(w[3])[:40], str(w[4])[:40]) for w in bad][:2])
        P.run(I, "%s %s two logical qubits from one dictionary, d %s" % (code, sz, form), cls + ".__init__", thunk)


def defaults(P):
    """no parameters given: the default is not shared between logical qubits"""
    for code in ("XXZZ", "XZZX", "Repetition"):
        if not P.mine("default", code): continue
        I = new_interp()

        def thunk():
            q1 = I.call(I.get(CODES[code]), [], {"name": "a"})
            lat = I.getattr(q1, "lattice")
            pr = guard(None, **{"the_first_lattice's_parameters": lat.attrs["params"]})
            mark, limit = len(I.trail), Heap.peek()
            q2 = I.call(I.get(CODES[code]), [], {"name": "b"})
            P.prove(I, "lattices do not share parameters", I.getattr(q2, "lattice").attrs["params"] is not lat.attrs["params"])
            bad = [w for w in writes(I, mark, limit) if id(w[0]) in pr]
            P.prove(I, "unchanged: the first lattice's parameters", not bad, detail="%s; " % [(w[2], str(w[4])[:40]) for w in bad][:2])
        P.run(I, "%s two logical qubits without parameters" % code, CODES[code].split(":")[1] + ".__init__", thunk)


def lut_frames(P):
    from c_stats import lut_state, entry
    for t in ("X", "Z"):
        for pres in [(True, True), (True, False), (False, True)]:
            if not P.mine("lut", t, pres): continue
            I = new_interp(load=DECODERS.values())

            def thunk():
                o, tabs, shots = lut_state(I)
                s = AStr(num.var("s"))
                for v in (0, 1):
                    h = tabs[t, v].HAS(num.z3_of(s.code))
                    I.assume(h if pres[v] else z3.Not(h))
                    x = num.of_z3(tabs[t, v].CNT(num.z3_of(s.code)))
                    if pres[v]: I.assume(num.cmp(">=", x, 1)); I.assume(num.cmp(">=", shots[t, v], x))
                pr = guard(None, **{"the_decoder's_tables": SList((Item(o.attrs["look_up_table"]), Item(o.attrs["look_up_table_shots"])))})
                pr[id(o)] = (o, "the decoder's attributes")
                mark, limit = len(I.trail), Heap.peek()
                I.call(I.getattr(o, "correct_readout_look_up_table"), [s, t], {})
                frame(P, I, mark, limit, pr)
            P.run(I, "correct_readout_look_up_table %s, in tables %s" % (t, pres), "TopologicalDecoder.correct_readout_look_up_table", thunk)


def c10(P):
    P.trusted += ["retworkx: the distance matrix, path counts and matching are functions of their arguments and do not modify them",
                  "postcondition of the graph construction (C08)"]
    for code, sz, key in kinds():
        for what in ("plain", "with an error probability", "no entries", "string"):
            if P.mine("decode", code, str(sz), key, what): decode_frames(P, code, sz, key, what)
    for code, sz in all_codes():
        for who in ("qubit", "decoder"):
            if who == "decoder" and code == "XZZX": continue
            for form in ("bit", "X", "Z"):
                if P.mine("parse", code, str(sz), who, form): parse_frames(P, code, sz, who, form)
        if P.mine("construct", code, str(sz)): construct_frames(P, code, sz)
    defaults(P)
    lut_frames(P)
