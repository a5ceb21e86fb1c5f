"""Symbolic values and sequences."""
import itertools
from fractions import Fraction
import z3
import num
from num import Num, lift, lower


class Unsupported(Exception):
    """the front end cannot translate this construct"""


class WantBit(Unsupported):
    """the loop-carried value behind this constant must be known to be 0 or 1"""

    def __init__(self, cid):
        Unsupported.__init__(self, "operator BitXor on symbolic numbers")
        self.cid = cid


class Infeasible(Exception):
    pass


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, cls, args=(), obj=None):
        self.cls = cls            # PyClass or builtin exception class
        self.args_ = args
        self.obj = obj
        Exception.__init__(self, "%s%r" % (getattr(cls, "name", getattr(cls, "__name__", cls)), args))

    @property
    def name(self):
        return getattr(self.cls, "name", getattr(self.cls, "__name__", str(self.cls)))


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBool(%s)" % self.e


def sbool(e):
    """z3 Bool / Python bool -> bool or SBool"""
    if isinstance(e, bool):
        return e
    s = z3.simplify(e) if not z3.is_const(e) else e
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(e)


def zb(v):
    """bool or SBool -> z3 Bool or Python bool"""
    return v.e if isinstance(v, SBool) else v


def zbool(v):
    v = zb(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


def fresh_pos():
    return _fresh[0]


def fresh_set(n):
    _fresh[0] = n


def fresh_int(base="k"):
    return num.var(fresh_name(base))


def atom_of(n):
    """the z3 const of a Num that is a single atom"""
    (m, c), = n.p.items()
    assert c == 1 and len(m) == 1
    return num._atoms[m[0]]


# ---------------------------------------------------------------- sequences
class Seg:
    __slots__ = ()


class Item(Seg):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Item(%r)" % (self.v,)


class Rep(Seg):
    """for k in 0..N-1, in order: the segments of every variant whose guards hold (exactly one variant's do)"""
    __slots__ = ("k", "N", "vars")

    def __init__(self, k, N, vars_):
        self.k, self.N, self.vars = k, N, tuple(vars_)     # k: z3 Int const ; vars: (guards tuple of z3 Bool, segs tuple)

    def __repr__(self):
        return "Rep(%s<%r: %s)" % (self.k, self.N, " | ".join("%s -> %r" % (list(g), list(s)) for g, s in self.vars))


class Alt(Seg):
    __slots__ = ("vars",)

    def __init__(self, vars_):
        self.vars = tuple(vars_)

    def __repr__(self):
        return "Alt(%s)" % " | ".join("%s -> %r" % (list(g), list(s)) for g, s in self.vars)


class Opq(Seg):
    """contents on entry to a loop iteration (placeholder during loop summarisation)"""
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __repr__(self):
        return "Opq(%s)" % self.id


class MemoSeg(Seg):
    """entries of a memo dictionary: an unknown finite set of integer keys, each mapped to F(key)"""
    __slots__ = ("F", "fn")

    def __init__(self, F):
        self.F = F
        self.fn = z3.Function(fresh_name("memo"), z3.IntSort(), z3.BoolSort())

    def has(self, key):
        if not num.isnum(key): raise Unsupported("key of a memo dictionary")
        return self.fn(num.z3_of(key))

    def get(self, key):
        return subst(self.F, [(z3.Int("memo_key"), key)])

    def __repr__(self):
        return "Memo(%r)" % (self.F,)


class Bag(Seg):
    """an unknown finite sequence of labels: membership is has(I, x), its length n, pop(I, list, i) takes one out, expand() gives it as a Rep"""
    __slots__ = ("has", "n", "pop", "expand", "name")

    def __init__(self, has, n=None, pop=None, expand=None, name="labels"):
        self.has, self.n, self.pop, self.expand, self.name = has, n, pop, expand, name

    def __repr__(self):
        return "Bag(%s)" % self.name


def kn(k):
    """Num of a z3 const"""
    return num.of_atom(k)


# ---------------------------------------------------------------- substitution
def subst_b(b, pairs):
    if isinstance(b, bool):
        return b
    zp = [(a, num._coerce(num.z3_of(n), a)) for a, n in pairs]
    r = z3.substitute(b, zp)
    return renorm_b(r) if not r.eq(b) else r


_rb = {}


def renorm_b(b):
    """re-normalise the numeric subterms of a Bool after substitution (so DIV/MOD terms simplify)"""
    key = b.get_id()
    if key in _rb:
        return _rb[key][1]
    r = b
    if z3.is_app(b):
        ch = b.children()
        if ch and (z3.is_int(ch[0]) or z3.is_real(ch[0])) and b.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}[b.decl().kind()]
            c = num.cmp(op, num.of_z3(ch[0]), num.of_z3(ch[1]))
            r = z3.BoolVal(c) if isinstance(c, bool) else c
        elif ch and all(z3.is_bool(c) for c in ch):
            n = [renorm_b(c) for c in ch]
            k = b.decl().kind()
            if k == z3.Z3_OP_AND: r = z3.And(*n)
            elif k == z3.Z3_OP_OR: r = z3.Or(*n)
            elif k == z3.Z3_OP_NOT: r = z3.Not(n[0])
            else:
                r = b.decl()(*n)
        elif ch and all(z3.is_int(c) or z3.is_real(c) for c in ch):
            n = [num._coerce(num.z3_of(num.of_z3(c)), c) for c in ch]
            r = b.decl()(*n)
    _rb[key] = (b, r)
    return r


num.norm_bool = renorm_b


def subst(v, pairs):
    """substitute z3 int constants by numbers in any value"""
    if not pairs:
        return v
    if isinstance(v, Num):
        return num.subst(v, pairs)
    if isinstance(v, SBool):
        return sbool(subst_b(v.e, pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if v is None or isinstance(v, (int, float, str, bool, Fraction)):
        return v
    f = getattr(v, "subst", None)
    if f is not None:
        return f(pairs)
    return v


def subst_segs(segs, pairs):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(subst(s.v, pairs)))
        elif isinstance(s, Rep):
            out.append(Rep(s.k, subst(s.N, pairs), [(tuple(subst_b(g, pairs) for g in gs), subst_segs(ss, pairs)) for gs, ss in s.vars]))
        elif isinstance(s, Alt):
            out.append(Alt([(tuple(subst_b(g, pairs) for g in gs), subst_segs(ss, pairs)) for gs, ss in s.vars]))
        else:
            out.append(s)
    return tuple(out)


def rename_rep(r):
    """Rep with a fresh bound constant"""
    k2 = fresh_int("k")
    pairs = [(r.k, k2)]
    return Rep(atom_of(k2), r.N, [(tuple(subst_b(g, pairs) for g in gs), subst_segs(ss, pairs)) for gs, ss in r.vars])


def is_const_segs(segs):
    return all(isinstance(s, Item) for s in segs)


def map_items(segs, f):
    """apply f to each item value (pure)"""
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(f(s.v)))
        elif isinstance(s, Rep):
            out.append(Rep(s.k, s.N, [(g, map_items(ss, f)) for g, ss in s.vars]))
        elif isinstance(s, Alt):
            out.append(Alt([(g, map_items(ss, f)) for g, ss in s.vars]))
        else:
            raise Unsupported("map over an opaque sequence")
    return tuple(out)


def seg_count(segs):
    """number of items as a Num when it does not depend on guards; None otherwise"""
    tot = 0
    for s in segs:
        if isinstance(s, Item):
            tot = num.add(tot, 1)
        elif isinstance(s, Rep):
            cs = [seg_count(ss) for _, ss in s.vars]
            if not cs or any(c is None for c in cs):
                return None
            c0 = cs[0]
            if any(lift(num.sub(c, c0)).const() != 0 for c in cs[1:]):
                return None
            if isinstance(c0, Num) and s.k.get_id() in {num._atoms[a].get_id() for a in c0.atoms()}:
                return None
            tot = num.add(tot, num.mul(s.N, c0))
        elif isinstance(s, Alt):
            cs = [seg_count(ss) for _, ss in s.vars]
            if not cs or any(c is None for c in cs) or any(lift(num.sub(c, cs[0])).const() != 0 for c in cs[1:]):
                return None
            tot = num.add(tot, cs[0])
        elif isinstance(s, Bag) and s.n is not None:
            tot = num.add(tot, s.n)
        else:
            return None
    return tot


def reverse_segs(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Item):
            out.append(s)
        elif isinstance(s, Rep):
            k2 = fresh_int("k")
            pairs = [(s.k, num.sub(num.sub(s.N, 1), k2))]
            out.append(Rep(atom_of(k2), s.N, [(tuple(subst_b(g, pairs) for g in gs), reverse_segs(subst_segs(ss, pairs))) for gs, ss in s.vars]))
        elif isinstance(s, Alt):
            out.append(Alt([(g, reverse_segs(ss)) for g, ss in s.vars]))
        else:
            raise Unsupported("reverse of an opaque sequence")
    return tuple(out)


# ---------------------------------------------------------------- strings
class Str:
    """symbolic string: segments whose items are str literals, Num (decimal rendering), BitCh or StrAtom"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Item) and s.v == "" and isinstance(s.v, str):
                continue
            if out and isinstance(s, Item) and isinstance(s.v, str) and isinstance(out[-1], Item) and isinstance(out[-1].v, str):
                out[-1] = Item(out[-1].v + s.v)
            else:
                out.append(s)
        self.segs = tuple(out)

    def subst(self, pairs):
        return mkstr(subst_segs(self.segs, pairs))

    def __repr__(self):
        return "Str(%s)" % (", ".join(repr(s.v) if isinstance(s, Item) else repr(s) for s in self.segs))


def mkstr(segs):
    s = Str(segs)
    if not s.segs:
        return ""
    if len(s.segs) == 1 and isinstance(s.segs[0], Item) and isinstance(s.segs[0].v, str):
        return s.segs[0].v
    return s


class StrAtom:
    """an arbitrary unknown string"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class BitCh:
    """one character, '1' if the Bool holds, else '0'"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def subst(self, pairs):
        return BitCh(subst_b(self.e, pairs))

    def __repr__(self):
        return "Bit(%s)" % self.e


def str_segs(s):
    if isinstance(s, str):
        return (Item(s),) if s else ()
    return s.segs


def explode(segs):
    """split literal items into single characters"""
    out = []
    for s in segs:
        if isinstance(s, Item) and isinstance(s.v, str):
            out.extend(Item(c) for c in s.v)
        elif isinstance(s, Rep):
            out.append(Rep(s.k, s.N, [(g, explode(ss)) for g, ss in s.vars]))
        elif isinstance(s, Alt):
            out.append(Alt([(g, explode(ss)) for g, ss in s.vars]))
        else:
            out.append(s)
    return tuple(out)


class BitInt:
    """non-negative integer given by its bits; bit(i) is a z3 Bool for a Num i >= 0"""

    def __init__(self, bit, single=None):
        self.bit = bit
        self.single = single      # Num loc when only that bit can be set

    def truth(self, I):
        if self.single is not None:
            return self.bit(self.single)
        i = fresh_int("bi")
        e = self.bit(i)
        if isinstance(e, bool): return e
        return z3.Exists([atom_of(i)], z3.And(num.z3_of(i) >= 0, e))

    def subst(self, pairs):
        b = self.bit
        s = self.single
        tmp = fresh_int("bi")
        e = b(tmp)

        def bit(i):
            return subst_b(subst_b(e, pairs), [(atom_of(tmp), i)]) if not isinstance(e, bool) else e
        return BitInt(bit, None if s is None else subst(s, pairs))


def bits_of_int(n):
    def bit(i):
        i2 = lift(i)
        c = i2.const()
        if c is not None:
            return bool(n >> int(c) & 1)
        ons = [j for j in range(n.bit_length()) if n >> j & 1]
        if not ons:
            return False
        return z3.Or(*[zbool(num.cmp("==", i, j)) for j in ons])
    single = n.bit_length() - 1 if n and n & (n - 1) == 0 else None
    return BitInt(bit, single)


def band(a, b):
    a, b = zb(a), zb(b)
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)


def bor(a, b):
    a, b = zb(a), zb(b)
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return z3.Or(a, b)


def bxor(a, b):
    a, b = zb(a), zb(b)
    if isinstance(a, bool) and isinstance(b, bool): return a != b
    if a is False: return b
    if b is False: return a
    if a is True: return bnot(b)
    if b is True: return bnot(a)
    return z3.Xor(a, b)


def bnot(a):
    a = zb(a)
    if isinstance(a, bool): return not a
    return z3.Not(a)


def ite_num(c, a, b):
    c = zb(c)
    if isinstance(c, bool):
        return a if c else b
    if lift(num.sub(a, b)).const() == 0:
        return a
    za, zbb = num.z3_of(a), num.z3_of(b)
    if z3.is_real(za) != z3.is_real(zbb):
        za = z3.ToReal(za) if z3.is_int(za) else za
        zbb = z3.ToReal(zbb) if z3.is_int(zbb) else zbb
    r = num.of_atom(z3.If(c, za, zbb))
    if lift(a).f or lift(b).f:
        r = Num(r.p, True)
    return r


# ---------------------------------------------------------------- folds
class Fold:
    """value of a reduction over segments: kind 'sum', 'parity', 'any', 'all', 'max', 'min'; items are Nums / Bools"""

    def __init__(self, kind, segs, init=0):
        self.kind, self.segs, self.init = kind, tuple(segs), init

    def subst(self, pairs):
        return Fold(self.kind, subst_segs(self.segs, pairs), subst(self.init, pairs))

    def __repr__(self):
        return "Fold(%s,%r,%r)" % (self.kind, self.init, self.segs)


# ---------------------------------------------------------------- heap
class Heap:
    """mutable object; every mutation goes through Interp.set so that it can be undone"""
    _ids = [0]

    def __init__(self):
        Heap._ids[0] += 1
        self.oid = Heap._ids[0]

    @staticmethod
    def peek():
        return Heap._ids[0] + 1


class SList(Heap):
    def __init__(self, segs=()):
        super().__init__()
        self.segs = tuple(segs)
        self.frozen = False

    def subst(self, pairs):
        ns = subst_segs(self.segs, pairs)
        r = SList(ns)
        r.frozen = True
        return r

    def __repr__(self):
        return "[%s]" % ", ".join(repr(s.v) if isinstance(s, Item) else repr(s) for s in self.segs)


class SDict(Heap):
    def __init__(self, d=None, base=None):
        super().__init__()
        self.d = dict(d or {})      # replaced on write, never mutated in place
        self.ups = ()               # symbolic-key updates, in order: segments of (key, value)
        self.base = base            # optional abstract map: has(key)->Bool, get(key)->value
        self.frozen = False

    def subst(self, pairs):
        r = SDict({k: subst(v, pairs) for k, v in self.d.items()}, self.base.subst(pairs) if hasattr(self.base, "subst") else self.base)
        r.ups = subst_segs(self.ups, pairs)
        r.frozen = True
        return r

    def __repr__(self):
        return "{%s%s}" % (", ".join("%r: %r" % i for i in self.d.items()), " +%r" % (self.ups,) if self.ups else "")


class SObj(Heap):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.attrs = {}

    def subst(self, pairs):
        na = {k: subst(v, pairs) for k, v in self.attrs.items()}
        if all(na[k] is self.attrs[k] for k in na):
            return self
        r = SObj(self.cls)
        r.attrs = na
        return r

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.oid)


class SSet(Heap):
    def __init__(self, items=()):
        super().__init__()
        self.items = tuple(items)


# ---------------------------------------------------------------- misc
class Opaque:
    """a value about which nothing is known (annotations, plotting, ...); using it in a computation is unsupported"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Opaque(%s)" % self.name


class Poison:
    """value of a variable left over from a summarised loop; reading it is unsupported"""

    def __init__(self, why):
        self.why = why


class Stub:
    """externally implemented object (assumed contract). Subclasses define getattr_/call_ ..."""
    def children_(self): return []
    def isinstance_(self, I, c): return False
    def eq_(self, I, o): return self is o
    def bool_(self, I): return True
    def getattr_(self, I, n): raise Unsupported("attribute %s of an external object" % n)
    def setattr_(self, I, n, v): raise Unsupported("assignment to attribute %s of an external object" % n)
    def getitem(self, I, i): raise Unsupported("subscript of an external object")
    def setitem(self, I, i, v): raise Unsupported("item assignment on an external object")
    def contains(self, I, x): raise Unsupported("membership in an external object")
    def len_(self, I): raise Unsupported("len of an external object")
    def iter_segs(self, I): raise Unsupported("iteration over an external object")
    def binop(self, I, o, other, swapped): raise Unsupported("operator %s on an external object" % o)
    def call_(self, I, a, k): raise Unsupported("call of an external object")
    def float_(self, I): raise Unsupported("float of an external object")
    def dict_(self, I): raise Unsupported("dict of an external object")


class Ev:
    """one circuit instruction"""
    __slots__ = ("op", "qs", "cs", "cond")

    def __init__(self, op, qs=(), cs=(), cond=None):
        self.op, self.qs, self.cs, self.cond = op, tuple(qs), tuple(cs), cond

    def subst(self, pairs):
        return Ev(self.op, subst(self.qs, pairs), subst(self.cs, pairs), subst(self.cond, pairs) if self.cond is not None else None)

    def __repr__(self):
        return "%s(%s%s%s)" % (self.op, ",".join(map(repr, self.qs)), " -> " + ",".join(map(repr, self.cs)) if self.cs else "", " if %r" % (self.cond,) if self.cond else "")


class BRef:
    """one (qu)bit of a register"""
    __slots__ = ("reg", "idx")

    def __init__(self, reg, idx):
        self.reg, self.idx = reg, idx

    def subst(self, pairs):
        i = subst(self.idx, pairs)
        r = subst(self.reg, pairs)
        return self if i is self.idx and r is self.reg else BRef(r, i)

    def __repr__(self):
        return "%s[%r]" % (getattr(self.reg, "rname", self.reg), self.idx)
