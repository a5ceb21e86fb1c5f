"""Built-in functions, types and methods."""
import z3
import num
from num import Num, lift, isnum
from values import *


class KeysView(Stub):
    def __init__(self, o): self.o = o
    def subst(self, pairs):
        o = subst(self.o, pairs)
        return self if o is self.o else KeysView(o)
    def contains(self, I, x): return I.dict_has(self.o, x)


def make(I):
    from interp import (Builtin, TypeObj, PyClass, PyExc, MISSING, Bound, SliceV, Frame, FoldExpr, merge_vars, PyFunc, Opaque, ExcVal, SuperV)
    B = {}

    def bi(name):
        def d(f):
            B[name] = Builtin(name, f)
            return f
        return d

    def isint(v): return (isnum(v) and not lift(v).f) or isinstance(v, (bool, SBool, BitInt)) or (isinstance(v, Fold) and v.kind in ("sum", "parity"))
    def isfloat(v): return isnum(v) and lift(v).f

    # ---------------- types
    def c_int(I, a, k):
        v = a[0] if a else 0
        base = a[1] if len(a) > 1 else k.get("base", 10)
        if isinstance(v, bool): return int(v)
        if isinstance(v, SBool): return ite_num(v, 1, 0)
        if isnum(v):
            l = lift(v)
            c = l.const()
            if c is not None: return int(c)
            if not l.f and all(x.denominator == 1 for x in l.p.values()): return v
            if all(x.denominator == 1 for x in l.p.values()) and not l.is_real(): return num.toint_exact(v)
            raise Unsupported("int() of a symbolic real")
        if isinstance(v, str):
            try: return int(v, base)
            except ValueError: raise PyExc(ValueError, ("int(%r)" % v,))
        if isinstance(v, Str):
            segs = explode(v.segs)
            if len(segs) == 1 and isinstance(segs[0], Item):
                x = segs[0].v
                if isinstance(x, BitCh): return ite_num(x.e, 1, 0)
                if isnum(x): return x
                if type(x).__name__ == "FoldCh": return x.f
            return bits_of_str(I, segs, base)
        if isinstance(v, (BitInt, Fold)): return v
        if isinstance(v, Stub): return v.int_(I)
        raise PyExc(TypeError, ("int() argument",)) if v is None or isinstance(v, (tuple, SList, SDict)) else Unsupported("int(%r)" % (v,))

    def bits_of_str(I, segs, base):
        if base != 2: raise Unsupported("int() of a symbolic string in base %r" % (base,))
        n = I.count(segs)
        if not isnum(n): raise Unsupported("int() of a ragged string")
        if I.decide(num.cmp("==", n, 0)): raise PyExc(ValueError, ("invalid literal for int()",))

        def bit(i, segs=segs, n=n):
            return band(band(num.cmp(">=", i, 0), num.cmp("<", i, n)), char_at(segs, num.sub(num.sub(n, 1), i)))
        t = fresh_int("t")
        bit(t)       # raises Unsupported early
        return BitInt(bit)

    def char_at(segs, p):
        """Bool: the character at offset p is '1'"""
        r = False
        off = p
        for s in segs:
            if isinstance(s, Item):
                v = s.v
                if isinstance(v, str):
                    if v not in "01": raise Unsupported("non-binary digit")
                    b = v == "1"
                elif isinstance(v, BitCh): b = v.e
                elif isnum(v): b = num.cmp("==", v, 1)
                else: raise Unsupported("digit %r" % (v,))
                r = bor(r, band(num.cmp("==", off, 0), b))
                off = num.sub(off, 1)
            elif isinstance(s, Rep):
                cs = [seg_count(ss) for _, ss in s.vars]
                if any(c is None or lift(c).const() != lift(cs[0]).const() or lift(c).const() is None for c in cs): raise Unsupported("string digits")
                c = int(lift(cs[0]).const())
                if c == 0: continue
                q = num.fdiv(off, c) if c > 1 else off
                rr = num.fmod(off, c) if c > 1 else 0
                pr = [(s.k, q)]
                inr = band(num.cmp(">=", off, 0), num.cmp("<", q, s.N))
                x = False
                for gs, ss in s.vars:
                    g = True
                    for gg in gs: g = band(g, subst_b(gg, pr))
                    x = bor(x, band(g, char_at(subst_segs(ss, pr), rr)))
                r = bor(r, band(inr, x))
                off = num.sub(off, num.mul(s.N, c))
            else:
                raise Unsupported("string digits")
        return r

    def c_float(I, a, k):
        v = a[0] if a else 0.0
        if isinstance(v, bool): return float(v)
        if isnum(v): return num.tofloat(v)
        if isinstance(v, SBool): return num.tofloat(ite_num(v, 1, 0))
        if isinstance(v, (Fold, FoldExpr)): return v
        if isinstance(v, str):
            try: return float(v)
            except ValueError: raise PyExc(ValueError, ())
        if isinstance(v, Stub): return v.float_(I)
        raise PyExc(TypeError, ("float()",)) if v is None else Unsupported("float")

    def c_str(I, a, k): return I.tostr(a[0]) if a else ""

    def c_bool(I, a, k):
        t = I.truth_expr(a[0]) if a else False
        return sbool(t)

    def c_list(I, a, k):
        if not a: return SList(())
        return SList(I.iter_segs(a[0]))

    def c_tuple(I, a, k):
        if not a: return ()
        if isinstance(a[0], tuple): return a[0]
        segs = I.iter_segs(a[0])
        if is_const_segs(segs): return tuple(s.v for s in segs)
        n = I.count(segs)
        if isnum(n) and lift(n).const() is not None: return tuple(I.nth(segs, i) for i in range(int(lift(n).const())))
        l = SList(segs)
        l.frozen = True
        return l

    def c_dict(I, a, k):
        r = SDict()
        if a:
            o = a[0]
            if isinstance(o, SDict):
                r.d.update(o.d); r.ups = o.ups; r.base = o.base
            elif isinstance(o, Stub): return o.dict_(I)
            else:
                for s in I.iter_segs(o):
                    if isinstance(s, Item):
                        kk, vv = I.unpack(s.v, [None, None])
                        I.setitem(r, kk, vv)
                    else:
                        r.ups = r.ups + (s,)
        r.d.update(k)
        return r

    def c_set(I, a, k):
        if not a: return SSet(())
        segs = I.iter_segs(a[0])
        if is_const_segs(segs) and all(I.hashable_const(s.v) for s in segs): return SSet(dict.fromkeys(s.v for s in segs))
        raise Unsupported("set of symbolic values")

    def c_range(I, a, k):
        if k or not 1 <= len(a) <= 3: raise PyExc(TypeError, ("range",))
        a = [int(x) if isinstance(x, bool) else x for x in a]
        for x in a:
            if not isnum(x):
                raise Unsupported("range(%r)" % (x,)) if isinstance(x, (Stub, Fold, SBool)) else PyExc(TypeError, ("range",))
            if lift(x).f: raise PyExc(TypeError, ("'float' object cannot be interpreted as an integer",))
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if all(isinstance(x, int) for x in (lo, hi, st)):
            if st == 0: raise PyExc(ValueError, ())
            l = SList(tuple(Item(x) for x in range(lo, hi, st)))
        else:
            n = I.range_len(lo, hi, st)
            kk = fresh_int("k")
            c = lift(n).const()
            l = SList(() if c is not None and c <= 0 else (Rep(atom_of(kk), n, [((), (Item(num.add(lo, num.mul(st, kk))),))]),))
        l.frozen = True
        return l

    T = {
        "int": TypeObj("int", isint, c_int), "float": TypeObj("float", isfloat, c_float),
        "str": TypeObj("str", lambda v: isinstance(v, (str, Str)), c_str), "bool": TypeObj("bool", lambda v: isinstance(v, (bool, SBool)), c_bool),
        "list": TypeObj("list", lambda v: isinstance(v, SList) and not v.frozen, c_list), "tuple": TypeObj("tuple", lambda v: isinstance(v, tuple), c_tuple),
        "dict": TypeObj("dict", lambda v: isinstance(v, SDict), c_dict), "set": TypeObj("set", lambda v: isinstance(v, SSet), c_set),
        "range": TypeObj("range", lambda v: isinstance(v, SList) and v.frozen, c_range),
        "object": TypeObj("object", lambda v: True), "complex": TypeObj("complex", lambda v: False),
    }
    T["frozenset"] = T["set"]
    B.update(T)
    for e in (Exception, BaseException, ValueError, TypeError, KeyError, IndexError, AttributeError, NameError, ZeroDivisionError, AssertionError,
              NotImplementedError, RuntimeError, LookupError, ArithmeticError, OSError, FileNotFoundError, StopIteration, OverflowError, ImportError):
        B[e.__name__] = e
    B["IOError"] = OSError

    def isinst(I, v, c):
        if isinstance(c, tuple): return any(isinst(I, v, x) for x in c)
        if isinstance(v, Poison): raise Unsupported(v.why)
        if isinstance(c, TypeObj):
            if isinstance(v, Stub): return v.isinstance_(I, c)
            return bool(c.test(v))
        if isinstance(c, PyClass):
            return isinstance(v, SObj) and c in v.cls.mro
        if isinstance(c, Opaque):
            raise Unsupported("isinstance with %s" % c.name)
        if isinstance(c, Stub): return c.isinstance_of(I, v)
        raise Unsupported("isinstance")

    @bi("isinstance")
    def _(I, a, k): return isinst(I, a[0], a[1])

    @bi("issubclass")
    def _(I, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(isinstance(c, PyClass) and c in a[0].mro for c in cs)

    @bi("len")
    def _(I, a, k): return I.length(a[0])

    @bi("abs")
    def _(I, a, k):
        v = a[0]
        if isnum(v):
            if I.decide(num.cmp("<", v, 0)): return num.neg(v)
            return v
        raise Unsupported("abs")

    @bi("divmod")
    def _(I, a, k):
        return (I.num_op("FloorDiv", a[0], a[1]), I.num_op("Mod", a[0], a[1]))

    @bi("pow")
    def _(I, a, k): return I.num_op("Pow", a[0], a[1])

    @bi("round")
    def _(I, a, k):
        if all(isinstance(x, (int, float)) for x in a): return round(*a)
        raise Unsupported("round")

    @bi("enumerate")
    def _(I, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        off = start
        out = []

        def num_items(segs, off):
            out = []
            for s in segs:
                if isinstance(s, Item):
                    out.append(Item((off, s.v))); off = num.add(off, 1)
                elif isinstance(s, Rep):
                    s = rename_rep(s)
                    cs = [seg_count(ss) for _, ss in s.vars]
                    if any(c is None or lift(num.sub(c, cs[0])).const() != 0 for c in cs) or s.k.get_id() in consts_ids(cs[0]): raise Unsupported("enumerate of a ragged sequence")
                    o2 = num.add(off, num.mul(cs[0], kn(s.k)))
                    out.append(Rep(s.k, s.N, [(g, num_items(ss, o2)[0]) for g, ss in s.vars]))
                    off = num.add(off, num.mul(cs[0], s.N))
                elif isinstance(s, Alt):
                    for g, ss in I.pick(s.vars):
                        o, off = num_items(ss, off)
                        out += o
                else: raise Unsupported("enumerate")
            return tuple(out), off
        return SList(num_items(I.iter_segs(a[0]), start)[0])

    def consts_ids(n):
        from interp import consts_of
        return consts_of(n)

    @bi("zip")
    def _(I, a, k):
        S = [I.iter_segs(x) for x in a]
        if not S: return SList(())
        if all(is_const_segs(s) for s in S):
            return SList(tuple(Item(tuple(x.v for x in t)) for t in zip(*S)))
        return SList(zip_segs(I, S))

    def zip_segs(I, S):
        S = [list(s) for s in S]
        out = []
        while all(S):
            heads = [s[0] for s in S]
            if all(isinstance(h, Item) for h in heads):
                out.append(Item(tuple(h.v for h in heads)))
                for s in S: s.pop(0)
                continue
            if all(isinstance(h, Rep) for h in heads) and all(all(seg_count(ss) == 1 and isinstance(ss[0], Item) for _, ss in h.vars) for h in heads):
                n = heads[0].N
                for h in heads[1:]:
                    if lift(num.sub(h.N, n)).const() != 0 and I.decide(num.cmp("<", h.N, n)): n = h.N
                kk = fresh_int("k")
                k = atom_of(kk)
                vs = [((), ())]
                for h in heads:
                    pr = [(h.k, kk)]
                    vs = [(g + tuple(subst_b(x, pr) for x in gs), items + (subst(ss[0].v, pr),)) for g, items in vs for gs, ss in h.vars]
                out.append(Rep(k, n, [(g, (Item(items),)) for g, items in vs]))
                for s, h in zip(S, heads):
                    if lift(num.sub(h.N, n)).const() == 0: s.pop(0)
                    else:
                        s[0:1] = list(I.cut((h,), n)[1])
                continue
            # a mixture: peel single items off repeated segments
            done = False
            for s in S:
                h = s[0]
                if isinstance(h, Rep):
                    if I.decide(num.cmp("<=", h.N, 0)):
                        s.pop(0); done = True; break
                    v = I.nth((h,), 0)
                    s[0:1] = [Item(v)] + list(I.cut((h,), 1)[1]); done = True; break
                if isinstance(h, Alt):
                    for g, ss in I.pick(h.vars): s[0:1] = list(ss)
                    done = True; break
            if not done: raise Unsupported("zip")
        return tuple(out)

    @bi("map")
    def _(I, a, k):
        acc = SList(())
        src = a[1] if len(a) == 2 else I.call(B["zip"], a[1:], {})
        I.for_segs(I.iter_segs(src), lambda v: I.put(acc, "segs", None, acc.segs + (Item(I.call(a[0], [v] if len(a) == 2 else list(v), {})),)))
        return acc

    @bi("filter")
    def _(I, a, k):
        acc = SList(())

        def body(v):
            if I.truth(v if a[0] is None else I.call(a[0], [v], {})): I.put(acc, "segs", None, acc.segs + (Item(v),))
        I.for_segs(I.iter_segs(a[1]), body)
        return acc

    @bi("reversed")
    def _(I, a, k): return SList(reverse_segs(I.iter_segs(a[0])))

    @bi("sum")
    def _(I, a, k):
        tot = a[1] if len(a) > 1 else k.get("start", 0)
        rest = []
        for s in I.iter_segs(a[0]):
            if isinstance(s, Item):
                tot = I.binop(_ADD, tot, s.v)
            else: rest.append(s)
        if not rest: return tot

        def nb(v):
            if isinstance(v, bool): return int(v)
            if isinstance(v, SBool): return ite_num(v, 1, 0)
            return v
        rest = map_items(tuple(rest), nb)
        # loop-invariant constant items: closed form
        return Fold("sum", rest, tot) if isnum(tot) else I.binop(_ADD, Fold("sum", rest, 0), tot)

    import ast
    _ADD = ast.Add()

    def quant(I, v, isall):
        out = True if isall else False
        for s in I.iter_segs(v):
            def one(s):
                if isinstance(s, Item): return I.truth_expr(s.v)
                if isinstance(s, Rep):
                    s = rename_rep(s)
                    b = False
                    for gs, ss in s.vars:
                        inner = isall
                        for t in ss: inner = band(inner, one(t)) if isall else bor(inner, one(t))
                        g = z3.And(*gs) if gs else True
                        b = bor(b, band(g, bnot(inner) if isall else inner))
                    if b is False: return isall
                    ex = z3.Exists([s.k], z3.And(s.k >= 0, s.k < num.z3_of(s.N), zbool(b)))
                    return z3.Not(ex) if isall else ex
                raise Unsupported("any/all")
            t = one(s)
            out = band(out, t) if isall else bor(out, t)
        return sbool(out) if not isinstance(out, bool) else out

    @bi("all")
    def _(I, a, k): return quant(I, a[0], True)

    @bi("any")
    def _(I, a, k): return quant(I, a[0], False)

    def extremum(I, a, k, mx):
        if len(a) == 1:
            segs = I.iter_segs(a[0])
            if not is_const_segs(segs): raise Unsupported("max of a symbolic sequence")
            vals = [s.v for s in segs]
        else: vals = list(a)
        if not vals:
            if "default" in k: return k["default"]
            raise PyExc(ValueError, ("empty",))
        key = k.get("key")
        ks = [I.call(key, [v], {}) if key is not None else v for v in vals]
        best = 0
        for i in range(1, len(vals)):
            if I.truth(I.compare("Gt" if mx else "Lt", ks[i], ks[best])): best = i
        return vals[best]

    @bi("max")
    def _(I, a, k): return extremum(I, a, k, True)

    @bi("min")
    def _(I, a, k): return extremum(I, a, k, False)

    @bi("sorted")
    def _(I, a, k):
        segs = I.iter_segs(a[0])
        if is_const_segs(segs) and not k and all(isinstance(s.v, (int, float, str)) for s in segs):
            return SList(tuple(Item(x) for x in sorted(s.v for s in segs)))
        h = getattr(I, "sorted_hook", None)
        if h: return h(I, segs, k)
        raise Unsupported("sorted")

    @bi("print")
    def _(I, a, k): return None

    @bi("hasattr")
    def _(I, a, k):
        try:
            I.getattr(a[0], a[1]); return True
        except PyExc as e:
            if e.cls is AttributeError: return False
            raise

    @bi("getattr")
    def _(I, a, k):
        if not isinstance(a[1], str): raise Unsupported("getattr with a symbolic name")
        try: return I.getattr(a[0], a[1])
        except PyExc as e:
            if e.cls is AttributeError and len(a) > 2: return a[2]
            raise

    @bi("setattr")
    def _(I, a, k): I.setattr(a[0], a[1], a[2])

    @bi("callable")
    def _(I, a, k): return isinstance(a[0], (PyFunc, Bound, Builtin, PyClass, TypeObj))

    @bi("id")
    def _(I, a, k): raise Unsupported("id")

    @bi("type")
    def _(I, a, k):
        if len(a) == 1 and isinstance(a[0], SObj): return a[0].cls
        if len(a) == 1 and isinstance(a[0], Stub): return a[0].type_(I)
        if len(a) == 1:
            for n in ("bool", "int", "float", "str", "tuple", "list", "dict", "set"):
                if T[n].test(a[0]): return T[n]
        raise Unsupported("type()")

    @bi("iter")
    def _(I, a, k): return a[0]

    @bi("next")
    def _(I, a, k):
        segs = I.iter_segs(a[0])
        if segs and isinstance(segs[0], Item): return segs[0].v
        n = I.count(segs)
        if I.decide(num.cmp(">", n, 0)): return I.nth(segs, 0)
        if len(a) > 1: return a[1]
        raise PyExc(StopIteration, ())

    @bi("property")
    def _(I, a, k): raise Unsupported("property()")
    B["NotImplemented"] = Opaque("NotImplemented")
    B["Ellipsis"] = Opaque("...")
    B["__name__"] = "module"

    # ---------------- methods
    def lst(name):
        def d(f): LM[name] = f; return f
        return d
    LM, SM, DM, TM, ZM = {}, {}, {}, {}, {}

    @lst("append")
    def _(I, o, a, k): I.put(o, "segs", None, o.segs + (Item(a[0]),))

    @lst("extend")
    def _(I, o, a, k): I.put(o, "segs", None, o.segs + I.iter_segs(a[0]))

    @lst("insert")
    def _(I, o, a, k):
        if a[0] == 0: I.put(o, "segs", None, (Item(a[1]),) + o.segs)
        elif isinstance(a[0], int) and is_const_segs(o.segs):
            l = list(o.segs); l.insert(a[0], Item(a[1])); I.put(o, "segs", None, tuple(l))
        else: raise Unsupported("list.insert")

    @lst("reverse")
    def _(I, o, a, k): I.put(o, "segs", None, reverse_segs(o.segs))

    @lst("copy")
    def _(I, o, a, k): return SList(o.segs)

    @lst("clear")
    def _(I, o, a, k): I.put(o, "segs", None, ())

    @lst("pop")
    def _(I, o, a, k):
        i = a[0] if a else -1
        if is_const_segs(o.segs) and isinstance(i, int):
            l = list(o.segs)
            try: v = l.pop(i)
            except IndexError: raise PyExc(IndexError, ("pop",))
            I.put(o, "segs", None, tuple(l))
            return v.v
        if i in (0, -1) and o.segs and isinstance(o.segs[i], Bag) and o.segs[i].pop is not None:
            return o.segs[i].pop(I, o, i)
        if o.segs and i == -1 and isinstance(o.segs[-1], Item):
            v = o.segs[-1].v
            I.put(o, "segs", None, o.segs[:-1]); return v
        if o.segs and i == 0 and isinstance(o.segs[0], Item):
            v = o.segs[0].v
            I.put(o, "segs", None, o.segs[1:]); return v
        raise Unsupported("list.pop")

    @lst("remove")
    def _(I, o, a, k):
        if is_const_segs(o.segs):
            for i, s in enumerate(o.segs):
                if I.decide(zb(I.equal(s.v, a[0]))):
                    I.put(o, "segs", None, o.segs[:i] + o.segs[i + 1:]); return None
            raise PyExc(ValueError, ("remove",))
        raise Unsupported("list.remove")

    @lst("index")
    def _(I, o, a, k):
        if is_const_segs(I.iter_segs(o)):
            for i, s in enumerate(I.iter_segs(o)):
                if I.decide(zb(I.equal(s.v, a[0]))): return i
            raise PyExc(ValueError, ("not in list",))
        raise Unsupported("list.index")

    @lst("count")
    def _(I, o, a, k):
        if is_const_segs(I.iter_segs(o)):
            t = 0
            for s in I.iter_segs(o):
                b = zb(I.equal(s.v, a[0]))
                t = num.add(t, int(b) if isinstance(b, bool) else ite_num(b, 1, 0))
            return t
        raise Unsupported("list.count")

    @lst("sort")
    def _(I, o, a, k): I.put(o, "segs", None, B["sorted"].fn(I, [o], k).segs)
    TM["index"], TM["count"] = LM["index"], LM["count"]

    # strings
    def S(name):
        def d(f): SM[name] = f; return f
        return d

    def allconst(o, a): return isinstance(o, str) and all(isinstance(x, (str, int, type(None))) for x in a)
    for nm in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "isdigit", "find", "zfill", "title", "capitalize", "count", "rjust", "ljust"):
        def mk(nm):
            def f(I, o, a, k):
                if nm == "replace" and isinstance(o, Str):
                    return str_replace(I, o, a)
                if nm == "count" and isinstance(o, Str) and isinstance(a[0], str) and len(a[0]) == 1: return count_char(I, o, a[0])
                if not allconst(o, a) or k: raise Unsupported("str.%s of a symbolic string" % nm)
                return getattr(o, nm)(*a)
            return f
        SM[nm] = mk(nm)

    def str_replace(I, o, a):
        old, new = a[0], a[1]
        if not (isinstance(old, str) and len(old) == 1 and old not in "01" and isinstance(new, str)): raise Unsupported("str.replace")

        def go(segs):
            out = []
            for s in segs:
                if isinstance(s, Item):
                    if isinstance(s.v, str): out.append(Item(s.v.replace(old, new)))
                    elif isinstance(s.v, BitCh) or isnum(s.v): out.append(s)
                    else: raise Unsupported("str.replace")
                elif isinstance(s, Rep): out.append(Rep(s.k, s.N, [(g, go(ss)) for g, ss in s.vars]))
                else: raise Unsupported("str.replace")
            return tuple(out)
        return mkstr(tuple(x for x in go(o.segs) if not (isinstance(x, Item) and x.v == "")))

    def count_char(I, o, ch):
        t = 0
        for s in explode(o.segs):
            if isinstance(s, Item):
                b = I.char_eq(s.v, ch) if isinstance(s.v, (str, BitCh)) else None
                if b is None: raise Unsupported("str.count")
                t = num.add(t, int(b) if isinstance(b, bool) else ite_num(b, 1, 0))
            elif isinstance(s, Rep):
                t = I.binop(_ADD, t, Fold("sum", map_items((s,), lambda v: (lambda b: int(b) if isinstance(b, bool) else ite_num(b, 1, 0))(I.char_eq(v, ch)))))
            else: raise Unsupported("str.count")
        return t

    @S("join")
    def _(I, o, a, k):
        segs = I.iter_segs(a[0])
        out = []
        first = True
        sep = str_segs(o)

        def elt(v):
            if not isinstance(v, (str, Str)):
                raise PyExc(TypeError, ("sequence item: expected str instance",)) if not isinstance(v, (Poison, Opaque)) else Unsupported("join")
            return str_segs(v)
        for s in segs:
            if isinstance(s, Item):
                if not first: out += sep
                out += elt(s.v); first = False
            elif isinstance(s, Rep):
                if o == "":
                    out.append(Rep(s.k, s.N, [(g, tuple(x for t in ss for x in elt_item(t, elt))) for g, ss in s.vars]))
                elif not first:
                    out.append(Rep(s.k, s.N, [(g, tuple(x for t in ss for x in sep + elt_item(t, elt))) for g, ss in s.vars]))
                else:
                    if not I.entails(num.cmp(">", s.N, 0)):
                        if I.decide(num.cmp("<=", s.N, 0)): continue
                    for p in str_segs(I.nth((s,), 0)): out.append(p)
                    first = False
                    t = I.cut((s,), 1)[1]
                    for r in t:
                        out.append(Rep(r.k, r.N, [(g, tuple(x for tt in ss for x in sep + elt_item(tt, elt))) for g, ss in r.vars]))
            else: raise Unsupported("join")
        return mkstr(tuple(out))

    def elt_item(t, elt):
        if not isinstance(t, Item): raise Unsupported("join of a nested sequence")
        return elt(t.v)

    @S("split")
    def _(I, o, a, k):
        sep = a[0] if a else None
        if isinstance(o, str):
            return SList(tuple(Item(x) for x in o.split(*a)))
        if sep != " ": raise Unsupported("split of a symbolic string")
        out = []
        cur = []

        def nospace(segs):
            for s in segs:
                if isinstance(s, Item):
                    if isinstance(s.v, str):
                        if " " in s.v: return False
                    elif not (isinstance(s.v, BitCh) or isnum(s.v) or type(s.v).__name__ == "FoldCh"): return False
                elif isinstance(s, (Rep, Alt)):
                    if not all(nospace(ss) for _, ss in s.vars): return False
                else: return False
            return True
        for s in o.segs:
            if isinstance(s, Item) and isinstance(s.v, str):
                parts = s.v.split(" ")
                for j, p in enumerate(parts):
                    if j:
                        out.append(Item(mkstr(tuple(cur)))); cur = []
                    if p: cur.append(Item(p))
            elif nospace((s,)):
                cur.append(s)
            elif isinstance(s, Rep) and all(ss and isinstance(ss[0], Item) and isinstance(ss[0].v, str) and ss[0].v.startswith(" ") and nospace((Item(ss[0].v[1:]),) + ss[1:]) for _, ss in s.vars):
                # (" " piece)*: closes the current piece; the last piece stays open
                if not I.entails(num.cmp(">", s.N, 0)):
                    if I.decide(num.cmp("<=", s.N, 0)): continue
                out.append(Item(mkstr(tuple(cur))))
                body = Rep(s.k, s.N, [(g, (Item(mkstr((Item(ss[0].v[1:]),) + tuple(ss[1:]))),)) for g, ss in s.vars])
                head, last = I.cut((body,), num.sub(s.N, 1))
                out += list(head)
                cur = list(str_segs(I.nth(last, 0)))
            elif isinstance(s, Rep) and all(ss and isinstance(ss[-1], Item) and isinstance(ss[-1].v, str) and ss[-1].v.endswith(" ") and nospace(ss[:-1] + (Item(ss[-1].v[:-1]),)) for _, ss in s.vars):
                if not I.entails(num.cmp(">", s.N, 0)):
                    if I.decide(num.cmp("<=", s.N, 0)): continue
                if cur: raise Unsupported("split")
                out.append(Rep(s.k, s.N, [(g, (Item(mkstr(tuple(ss[:-1]) + (Item(ss[-1].v[:-1]),))),)) for g, ss in s.vars]))
            else: raise Unsupported("split of a symbolic string")
        out.append(Item(mkstr(tuple(cur))))
        return SList(tuple(out))

    @S("format")
    def _(I, o, a, k):
        if not isinstance(o, str): raise Unsupported("format")
        import string
        segs = ()
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            segs += str_segs(lit)
            if field is None: continue
            if spec or conv: segs += (Item(StrAtom(fresh_name("fmt"))),); continue
            if field == "": v = a[auto]; auto += 1
            elif field.isdigit(): v = a[int(field)]
            elif field in k: v = k[field]
            else: raise Unsupported("format field")
            segs += str_segs(I.tostr(v))
        return mkstr(segs)

    # dicts
    def D(name):
        def d(f): DM[name] = f; return f
        return d

    @D("items")
    def _(I, o, a, k):
        if o.base is not None: return o.base.items(I, o)
        return SList(tuple(Item((kk, v)) for kk, v in o.d.items()) + map_items(I.entries(o), lambda kv: kv))

    @D("keys")
    def _(I, o, a, k):
        if o.base is not None: return o.base.keys(I, o)
        if any(isinstance(s, (Opq, MemoSeg)) for s in o.ups): return KeysView(o)
        return SList(tuple(Item(kk) for kk in o.d) + map_items(I.entries(o), lambda kv: kv[0]))

    @D("values")
    def _(I, o, a, k):
        if o.base is not None: return o.base.values(I, o)
        return SList(tuple(Item(v) for v in o.d.values()) + map_items(I.entries(o), lambda kv: kv[1]))

    @D("get")
    def _(I, o, a, k):
        if I.truth(I.dict_has(o, a[0]) if not isinstance(I.dict_has(o, a[0]), bool) else I.dict_has(o, a[0])):
            return I.dict_get(o, a[0])
        return a[1] if len(a) > 1 else k.get("default")

    @D("setdefault")
    def _(I, o, a, k):
        if I.truth(I.dict_has(o, a[0])): return I.dict_get(o, a[0])
        v = a[1] if len(a) > 1 else None
        I.setitem(o, a[0], v)
        return v

    @D("copy")
    def _(I, o, a, k):
        r = SDict(o.d, o.base); r.ups = o.ups
        return r

    @D("update")
    def _(I, o, a, k):
        if a:
            s = a[0]
            if not isinstance(s, SDict) or s.ups or s.base is not None: raise Unsupported("dict.update")
            for kk, v in s.d.items(): I.setitem(o, kk, v)
        for kk, v in k.items(): I.setitem(o, kk, v)

    @D("pop")
    def _(I, o, a, k):
        if o.ups or o.base is not None or not I.hashable_const(a[0]): raise Unsupported("dict.pop")
        if a[0] in o.d:
            v = o.d[a[0]]; I.put(o, "d", a[0], MISSING); return v
        if len(a) > 1: return a[1]
        raise PyExc(KeyError, (a[0],))

    @D("clear")
    def _(I, o, a, k):
        if o.base is not None: raise Unsupported("dict.clear")
        for kk in list(o.d): I.put(o, "d", kk, MISSING)
        I.put(o, "ups", None, ())

    def zadd(I, o, a, k):
        if not I.hashable_const(a[0]): raise Unsupported("set.add")
        if a[0] not in o.items: I.put(o, "items", None, o.items + (a[0],))
    ZM["add"] = zadd
    ZM["copy"] = lambda I, o, a, k: SSet(o.items)

    def methods(o, n):
        tab = LM if isinstance(o, SList) else SM if isinstance(o, (str, Str)) else DM if isinstance(o, SDict) else TM if isinstance(o, tuple) else ZM if isinstance(o, SSet) else None
        if tab is None:
            if n == "copy" and isinstance(o, Num): return None
            return None
        f = tab.get(n)
        if f is None: return None
        if isinstance(o, SList) and o.frozen and n in ("append", "extend", "insert", "pop", "clear", "sort", "reverse", "remove"):
            def g(I, a, k): raise Unsupported("mutation of an element of a symbolic sequence")
            return Builtin(n, g)
        return Builtin(n, lambda I, a, k: f(I, o, a, k))
    B["$methods"] = methods
    B["$char_at"] = char_at
    B["$zip"] = zip_segs
    return B
