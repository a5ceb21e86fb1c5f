"""Numeric terms: polynomials with rational coefficients over atoms (z3 terms of sort Int or Real).

Python ints are mathematical integers; floats are treated as exact rationals.  Division and remainder by a symbolic positive
divisor are the uninterpreted functions DIV/MOD, whose defining axioms are added to every query in which they occur."""
from fractions import Fraction
import z3

DIV = z3.Function("div_", z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function("mod_", z3.IntSort(), z3.IntSort(), z3.IntSort())

_atoms = {}      # id -> z3 expr (kept alive)


def atom_id(e):
    i = e.get_id()
    if i not in _atoms:
        _atoms[i] = e
    return i


class Num:
    __slots__ = ("p", "f", "_z")

    def __init__(self, p, isfloat=False):
        self.p = p
        self.f = isfloat
        self._z = None

    def __repr__(self):
        if not self.p:
            return "0"
        out = []
        for m, c in sorted(self.p.items(), key=lambda t: (len(t[0]), t[0])):
            s = "*".join(str(_atoms[a]) for a in m)
            out.append(("%s" % c if not s else s if c == 1 else "%s*%s" % (c, s)))
        return " + ".join(out)

    def key(self):
        return frozenset(self.p.items())

    def const(self):
        if not self.p:
            return Fraction(0)
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def atoms(self):
        return {a for m in self.p for a in m}

    def is_real(self):
        return any(z3.is_real(_atoms[a]) for a in self.atoms())


def var(name, real=False):
    e = z3.Real(name) if real else z3.Int(name)
    return Num({(atom_id(e),): Fraction(1)}, real)


def of_atom(e):
    return Num({(atom_id(e),): Fraction(1)}, z3.is_real(e))


def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num({(): Fraction(int(x))} if x else {})
    if isinstance(x, (int, float, Fraction)):
        fr = Fraction(x)
        return Num({(): fr} if fr else {}, isinstance(x, float) or fr.denominator != 1)
    raise TypeError("not a number: %r" % (x,))


def lower(n):
    """back to a Python number when constant"""
    c = n.const()
    if c is None:
        return n
    if n.f:
        return float(c)
    return int(c) if c.denominator == 1 else float(c)


def isnum(x):
    return isinstance(x, (int, float, Num, Fraction)) and not isinstance(x, bool)


def add(a, b):
    a, b = lift(a), lift(b)
    p = dict(a.p)
    for m, c in b.p.items():
        v = p.get(m, 0) + c
        if v:
            p[m] = v
        else:
            p.pop(m, None)
    return lower(Num(p, a.f or b.f))


def neg(a):
    a = lift(a)
    return lower(Num({m: -c for m, c in a.p.items()}, a.f))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = lift(a), lift(b)
    p = {}
    for m, c in a.p.items():
        for n, d in b.p.items():
            k = tuple(sorted(m + n))
            v = p.get(k, 0) + c * d
            if v:
                p[k] = v
            else:
                p.pop(k, None)
    return lower(Num(p, a.f or b.f))


def scale(a, fr):
    a = lift(a)
    return lower(Num({m: c * fr for m, c in a.p.items()} if fr else {}, a.f))


def tofloat(a):
    a = lift(a)
    return lower(Num(a.p, True))


def toint_exact(a):
    a = lift(a)
    return lower(Num(a.p, False))


def lcm_den(*ns):
    from math import lcm
    d = 1
    for n in ns:
        for c in n.p.values():
            d = lcm(d, c.denominator)
    return d


def z3_of(n):
    """z3 term; Int-sorted when every coefficient is integral and no atom is real"""
    n = lift(n)
    if n._z is not None:
        return n._z
    real = n.is_real() or any(c.denominator != 1 for c in n.p.values())
    terms = []
    for m, c in sorted(n.p.items()):
        fs = []
        for a in m:
            e = _atoms[a]
            if real and z3.is_int(e):
                e = z3.ToReal(e)
            fs.append(e)
        if c != 1 or not fs:
            fs.insert(0, z3.RealVal(c) if real else z3.IntVal(int(c)))
        t = fs[0]
        for x in fs[1:]:
            t = t * x
        terms.append(t)
    if not terms:
        z = z3.IntVal(0)
    else:
        z = terms[0]
        for t in terms[1:]:
            z = z + t
    n._z = z
    return z


def cmp(op, a, b):
    """z3 Bool or Python bool for a op b; op in ==,!=,<,<=,>,>="""
    d = lift(sub(a, b))
    c = d.const()
    if c is not None:
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    k = lcm_den(d)
    if k != 1:
        d = lift(scale(d, k))
    # content gcd test for == over integers
    if op in ("==", "!=") and not d.is_real():
        from math import gcd
        g = 0
        for m, co in d.p.items():
            if m:
                g = gcd(g, int(co))
        if g and int(d.p.get((), 0)) % g:
            return op == "!="
    pos = {m: c for m, c in d.p.items() if c > 0}
    ng = {m: -c for m, c in d.p.items() if c < 0}
    l, r = z3_of(Num(pos)), z3_of(Num(ng))
    if z3.is_real(l) != z3.is_real(r):
        l, r = (z3.ToReal(l) if z3.is_int(l) else l), (z3.ToReal(r) if z3.is_int(r) else r)
    return {"==": l == r, "!=": l != r, "<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]


# ---- exact division of polynomials ------------------------------------------------
def _lead(p, order):
    return max(p, key=lambda m: (len(m), [order[a] for a in sorted(m, key=lambda a: -order[a])]))


def divexact(n, d):
    """(quotient, remainder) of multivariate division by the leading monomial of d; integral coefficients only"""
    n, d = lift(n), lift(d)
    order = {a: i for i, a in enumerate(sorted(n.atoms() | d.atoms()))}
    lm = _lead(d.p, order)
    lc = d.p[lm]
    q, r = {}, {}
    p = dict(n.p)
    while p:
        m = _lead(p, order)
        c = p[m]
        rest = list(m)
        ok = True
        for a in lm:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        if ok and (c / lc).denominator == 1:
            k = tuple(sorted(rest)); f = c / lc
            q[k] = q.get(k, 0) + f
            for dm, dc in d.p.items():
                mm = tuple(sorted(tuple(rest) + dm))
                v = p.get(mm, 0) - f * dc
                if v: p[mm] = v
                else: p.pop(mm, None)
        else:
            r[m] = c
            del p[m]
    return lower(Num(q)), lower(Num(r))


def fdiv(n, d):
    """floor division term; d is assumed positive (the caller proves it)"""
    n, d = lift(n), lift(d)
    fl = n.f or d.f
    dc = d.const()
    if dc is not None and dc.denominator == 1 and all(c.denominator == 1 for c in n.p.values()):
        dc = int(dc)
        q = {}; r = {}
        for m, c in n.p.items():
            c = int(c)
            if m == ():
                qq, rr = divmod(c, dc)
            else:
                qq, rr = divmod(c, dc)
                if rr * 2 > dc: qq, rr = qq + 1, rr - dc   # keep small coefficients
            if qq: q[m] = Fraction(qq)
            if rr: r[m] = Fraction(rr)
        if dc == 1 or not r:
            return lower(Num(q, fl))
        R = Num(r)
        if R.const() is not None:
            return lower(Num({m: v for m, v in lift(add(Num(q), int(R.const() // dc))).p.items()}, fl))
        at = z3_of(R) / z3.IntVal(dc)
        return lower(lift(add(Num(q, fl), of_atom(at))))
    q, r = divexact(n, d)
    r = lift(r)
    if r.const() == 0:
        return q
    return add(q, of_atom(DIV(z3_of(r), z3_of(d))))


def fmod(n, d):
    n, d = lift(n), lift(d)
    dc = d.const()
    if dc is not None and dc.denominator == 1 and all(c.denominator == 1 for c in n.p.values()):
        dc = int(dc)
        r = {}
        for m, c in n.p.items():
            rr = int(c) % dc
            if m != () and rr * 2 > dc: rr -= dc
            if rr: r[m] = Fraction(rr)
        R = Num(r, False)
        if R.const() is not None:
            return lower(Num({(): Fraction(int(R.const()) % dc)} if int(R.const()) % dc else {}))
        return of_atom(z3_of(R) % z3.IntVal(dc))
    q, r = divexact(n, d)
    r = lift(r)
    if r.const() == 0:
        return 0
    return of_atom(MOD(z3_of(r), z3_of(d)))


# ---- from z3 back -------------------------------------------------------------------
_cache = {}
norm_bool = None      # installed by values


def of_z3(e):
    k = e.get_id()
    if k in _cache:
        return _cache[k][1]
    r = _of_z3(e)
    _cache[k] = (e, r)
    return r


def _of_z3(e):
    if z3.is_int_value(e):
        return int(e.as_long())
    if z3.is_rational_value(e):
        return lower(Num({(): Fraction(e.numerator_as_long(), e.denominator_as_long())}, True))
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        r = 0
        for c in ch: r = add(r, of_z3(c))
        return r
    if d == z3.Z3_OP_MUL:
        r = 1
        for c in ch: r = mul(r, of_z3(c))
        return r
    if d == z3.Z3_OP_SUB:
        r = of_z3(ch[0])
        for c in ch[1:]: r = sub(r, of_z3(c))
        return r
    if d == z3.Z3_OP_UMINUS:
        return neg(of_z3(ch[0]))
    if d == z3.Z3_OP_TO_REAL:
        return of_z3(ch[0])
    if d == z3.Z3_OP_IDIV:
        return fdiv(of_z3(ch[0]), of_z3(ch[1]))
    if d == z3.Z3_OP_MOD:
        return fmod(of_z3(ch[0]), of_z3(ch[1]))
    if e.decl().eq(DIV):
        return fdiv(of_z3(ch[0]), of_z3(ch[1]))
    if e.decl().eq(MOD):
        return fmod(of_z3(ch[0]), of_z3(ch[1]))
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = z3.simplify(ch[0])
        if z3.is_true(c): return of_z3(ch[1])
        if z3.is_false(c): return of_z3(ch[2])
        if norm_bool is not None:
            c = norm_bool(ch[0])
            if not c.eq(ch[0]):
                return of_atom(z3.If(c, z3_of(of_z3(ch[1])), z3_of(of_z3(ch[2]))) if z3.is_int(e) else z3.If(c, ch[1], ch[2]))
    return of_atom(e)


def subst(n, pairs):
    """pairs: list of (z3 const, Num)"""
    n = lift(n)
    z = z3_of(n)
    z2 = z3.substitute(z, [(a, _coerce(z3_of(b), a)) for a, b in pairs])
    if z2.eq(z):
        return lower(n)
    r = lift(of_z3(z2))
    return lower(Num(r.p, n.f))


def _coerce(z, like):
    if z3.is_real(like) and z3.is_int(z):
        return z3.ToReal(z)
    return z
