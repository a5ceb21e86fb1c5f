"""C15: parameters of lattices and decoders."""
import z3
import num, solve
from num import lift
from values import *
from interp import *
from spec import *
from stubs import SCirc, SReg

HELD = "qtcodes.circuits.base:LatticeError"


def refused(P, I, ctx, fn, thunk, what="refused"):
    """every path of thunk raises"""
    octx, ofn = P.ctx, P.fn
    P.ctx, P.fn = ctx, fn
    I.func_log = P.fns
    try:
        ps = I.explore(thunk, maxpaths=200)
        if not ps: P.rec("precondition satisfiable", "unsupported", "", "no feasible path")
        for p in ps:
            if p.kind == "exc":
                P.rec(what, "discharged", "z3")
                P.covers.append(ctx)
            else:
                saved = I.pc
                I.pc = list(p.pc)
                P.prove(I, what, False, detail="accepted; ")
                I.pc = saved
    except Unsupported as e:
        P.rec("within the supported subset", "unsupported", "", str(e)[:300])
    except RecursionError:
        P.rec("within the supported subset", "unsupported", "", "recursion")
    finally:
        P.ctx, P.fn = octx, ofn


def n_(x): return num.var(x)


def odd(x): return num.add(num.mul(2, x), 1)


def bad_numbers(nm):
    """(text, value, hypotheses): every integer that is not a positive odd one"""
    a = n_(nm)
    return [("even " + nm, num.mul(2, a), []), ("negative odd " + nm, odd(a), [zbool(num.cmp("<", a, 0))])]


def bad_pairs():
    """every pair of integers that is not a pair of positive odd ones"""
    for t, v, hy in bad_numbers("height"): yield t, (v, n_("w")), hy
    a = n_("A")
    for t, v, hy in bad_numbers("width"): yield t, (odd(a), v), hy + [zbool(num.cmp(">=", a, 0))]


def check_params(P, I, prm, sz, extra=True):
    d = prm.d.get("d")
    if not (isinstance(d, tuple) and len(d) == 2): raise Unsupported("parameter d is %r" % (d,))
    P.prove(I, "height", num.cmp("==", d[0], sz.h)); P.prove(I, "width", num.cmp("==", d[1], sz.w))
    if not extra: return
    P.prove(I, "number of data qubits", num.cmp("==", prm.d["num_data"], sz.nd))
    ns = prm.d["num_syn"]
    if not (isinstance(ns, (tuple, SList))): raise Unsupported("num_syn")
    P.prove(I, "number of X checks", num.cmp("==", I.getitem(ns, 0), sz.nx))
    P.prove(I, "number of Z checks", num.cmp("==", I.getitem(ns, 1), sz.nz))


def check_regs(P, I, q, sz):
    data, mx, mz, anc = regs_of(I, q)
    P.prove(I, "data register has h*w qubits", num.cmp("==", data.size, sz.nd))
    P.prove(I, "X syndrome register", num.cmp("==", mx.size if mx is not None else 0, sz.nx))
    P.prove(I, "Z syndrome register", num.cmp("==", mz.size if mz is not None else 0, sz.nz))


def all_sizes():
    return sizes() + [Size("1x1", 0, 0, [])]


def square(name="d>=3", lo=1):
    A = num.var("A")
    a = num.add(A, 1)
    return Size(name, a, a, [zbool(num.cmp(">=", A, 0))])


def rep_int(prot):
    A = num.var("A")
    a = num.add(A, 1)
    hy = [zbool(num.cmp(">=", A, 0))]
    return Size("1xd", 0, a, hy) if prot else Size("dx1", a, 0, hy)


def accept_cases(code):
    """(text, parameters, size)"""
    if code != "Repetition":
        for sz in all_sizes(): yield "pair " + sz.name, {"d": (sz.h, sz.w)}, sz
        for sz in (square(), Size("d=1", 0, 0, [])): yield "integer " + sz.name, {"d": sz.h}, sz
        yield "no d", {}, Size("3x3", 1, 1, [])
        return
    for flag in (None, False, True):
        f = {} if flag is None else {"phase-flip-protected": flag}
        tx = "" if flag is None else ", flag %s" % flag
        for sz in (sizes("phase") if flag else sizes("bit")) + [Size("1x1", 0, 0, [])]: yield "pair " + sz.name + tx, dict(f, d=(sz.h, sz.w)), sz
        for sz in (rep_int(flag), Size("d=1", 0, 0, [])): yield "integer " + sz.name + tx, dict(f, d=sz.w if flag else sz.h), sz
        yield "no d" + tx, f, Size("1x3" if flag else "3x1", 0 if flag else 1, 1 if flag else 0, [])


def refuse_cases(code):
    """(text, parameters, hypotheses)"""
    flags = [{}] if code != "Repetition" else [{}, {"phase-flip-protected": False}, {"phase-flip-protected": True}]
    for f in flags:
        tx = "" if len(flags) == 1 or not f else ", flag %s" % f["phase-flip-protected"]
        for t, p, hy in bad_pairs(): yield "pair with %s%s" % (t, tx), dict(f, d=p), hy
        for t, v, hy in bad_numbers("d"): yield "integer %s%s" % (t, tx), dict(f, d=v), hy
    if code == "Repetition":
        A, B = num.var("A"), num.var("B")
        for f in flags:
            prot = f.get("phase-flip-protected", False)
            tx = "" if not f else ", flag %s" % prot
            x, y = odd(A), odd(num.add(B, 1))
            hy = [zbool(num.cmp(">=", A, 0)), zbool(num.cmp(">=", B, 0))]
            yield "two-dimensional in the protected direction%s" % tx, dict(f, d=(y, x) if prot else (x, y)), hy


def c15(P):
    P.trusted += ["qiskit: registers have the requested sizes and are added to the circuit"]
    for code in CODES:
        for txt, prm, sz in accept_cases(code):
            if not P.mine(code, txt): continue
            P.size = (sz.h, sz.w)
            I = new_interp(sz)

            def thunk():
                q = I.call(I.get(CODES[code]), [SDict(dict(prm))], {"name": name_atom("nm"), "circ": SCirc("circ")})
                check_params(P, I, I.getattr(I.getattr(q, "lattice"), "params"), sz)
                check_regs(P, I, q, sz)
            P.run(I, "%s %s accepted" % (code, txt), CODES[code].split(":")[1] + ".__init__", thunk)
        for txt, prm, hy in refuse_cases(code):
            if not P.mine(code, txt): continue
            P.size = None
            I = new_interp(None, hy)
            refused(P, I, "%s %s" % (code, txt), CODES[code].split(":")[1] + ".__init__",
                    lambda: I.call(I.get(CODES[code]), [SDict(dict(prm))], {"name": name_atom("nm"), "circ": SCirc("circ")}))
    for code in DECODERS:
        fn = DECODERS[code].split(":")[1]
        R = num.add(num.var("R"), 1)
        T = {"T": R}
        for txt, prm, sz in accept_cases(code):
            if code != "Repetition" and "d" not in prm: continue
            if not P.mine("decoder", code, txt): continue
            P.size = (sz.h, sz.w)
            I = new_interp(sz, load=DECODERS.values())

            def thunk():
                I.assume(num.cmp(">=", num.var("R"), 0))
                o = SObj(I.get(DECODERS[code]))
                o.attrs = {"params": SDict(dict(prm, **T)), "S": SDict({}), "node_map": SDict({}), "look_up_table": SDict({}), "look_up_table_shots": SDict({})}
                I.call(I.getattr(o, "_params_validation"), [], {})
                p = I.getattr(o, "params")
                check_params(P, I, p, sz, False)
                P.prove(I, "T kept", num.cmp("==", p.d["T"], R))
                keys = I.getattr(o, "syndrome_graph_keys")
                ks = [s.v for s in I.iter_segs(keys)] if is_const_segs(I.iter_segs(keys)) else None
                want = ["X", "Z"] if code != "Repetition" else ["X"] if prm.get("phase-flip-protected") else ["Z"]
                P.prove(I, "decodes the right check types", sorted(ks or []) == want, detail="%r; " % (ks,))
            P.run(I, "%s decoder %s accepted" % (code, txt), fn + "._params_validation", thunk)
        no = [(t, dict(p, **T), h) for t, p, h in refuse_cases(code)]
        no += [("%s, no T" % t, p, s.hyps) for t, p, s in accept_cases(code)]
        if code != "Repetition": no.append(("no d", dict(T), []))
        for txt, prm, hy in no:
            if not P.mine("decoder", code, txt): continue
            P.size = None
            I = new_interp(None, hy, load=DECODERS.values())

            def thunk():
                I.assume(num.cmp(">=", num.var("R"), 0))
                I.call(I.get(DECODERS[code]), [SDict(dict(prm))], {})
            refused(P, I, "%s decoder %s" % (code, txt), fn + ".__init__", thunk)
