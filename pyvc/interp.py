"""Symbolic interpreter for the Python subset used by qtcodes.

The program text is /repo's, parsed on every run.  Values may be symbolic (values.py); loops over sequences of symbolic
length are summarised by an inductive invariant that is inferred (closed-form counters, appended / prepended segments,
sum / parity folds) and checked by construction: the body is executed once from an arbitrary iteration k and must map the
invariant at k to the invariant at k+1, otherwise the construct is reported as unsupported."""
import ast, os, itertools
import z3
import num, solve
from num import Num, lift, isnum
from values import *
import values

REPO = os.environ.get("QT_REPO", "/repo")
MISSING = type("MISSING", (), {"__repr__": lambda s: "MISSING"})()


class RetSig(Exception):
    def __init__(self, v): self.v = v


class BrkSig(Exception):
    pass


class CntSig(Exception):
    pass


class Frame(Heap):
    def __init__(self, glob=None, parent=None, func=None):
        super().__init__()
        self.vars = {}
        self.glob = glob if glob is not None else self
        self.parent = parent
        self.func = func
        self.globals_decl = set()
        self.nonlocals = set()


class PyClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        mro = [self]
        for b in bases:
            if isinstance(b, PyClass):
                for c in b.mro:
                    if c in mro: mro.remove(c)
                    mro.append(c)
        self.mro = mro
        self.exc = None
        for b in bases:
            if isinstance(b, type) and issubclass(b, BaseException): self.exc = b
            if isinstance(b, PyClass) and b.exc: self.exc = b.exc

    def lookup(self, n):
        for c in self.mro:
            if n in c.ns:
                return c.ns[n]
        return MISSING

    def __repr__(self):
        return "<class %s>" % self.name


class PyFunc:
    def __init__(self, node, frame, owner, defaults, kwdefaults, kind=None, qual=None):
        self.node, self.frame, self.owner = node, frame, owner
        self.defaults, self.kwdefaults, self.kind = defaults, kwdefaults, kind
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def subst(self, pairs):
        o = subst(self.self_, pairs)
        return self if o is self.self_ else Bound(self.f, o)


class Prop:
    def __init__(self, f): self.f = f


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Module:
    def __init__(self, name, frame=None, stub=None):
        self.name, self.frame, self.stub = name, frame, stub


class TypeObj:
    """a built-in type usable with isinstance and as a constructor"""

    def __init__(self, name, test, ctor=None):
        self.name, self.test, self.ctor = name, test, ctor

    def __repr__(self):
        return "<type %s>" % self.name


class Path:
    def __init__(self, guards, kind, val, snap):
        self.guards, self.kind, self.val, self.snap = guards, kind, val, snap
        self.pc = None          # full path condition, assumptions included


class Interp:
    def __init__(self, stubs=None):
        self.pc = []                # assumptions of the current path
        self.trail = []
        self.dec = []               # decisions prescribed for this run
        self.pos = 0
        self.alts = []              # alternatives discovered in this run
        self.guards = []
        self.modules = {}
        self.stubs = stubs or {}
        self.contracts = {}
        self.func_log = set()
        self.depth = 0
        self.opq = itertools.count()
        self.opt = set()            # loop-carried contents read optimistically in the current (tentative) round
        self.infer = False          # infer inductive contents of sequences / memo dictionaries that are read inside loops
        self.for_rule = self.while_rule = None      # loops with a given invariant
        self.steps = 0
        self.MAXSTEPS = 4000000
        import builtins_
        self.builtins = builtins_.make(self)

    # ------------------------------------------------------------ heap
    def put(self, obj, slot, key, val):
        if getattr(obj, "frozen", False):
            raise Unsupported("mutation of an element of a symbolic sequence")
        if key is None:
            self.trail.append((obj, slot, None, getattr(obj, slot)))
            setattr(obj, slot, val)
        else:
            d = getattr(obj, slot)
            self.trail.append((obj, slot, key, d.get(key, MISSING)))
            if val is MISSING:
                d.pop(key, None)
            else:
                d[key] = val

    def undo(self, mark):
        while len(self.trail) > mark:
            obj, slot, key, old = self.trail.pop()
            if key is None:
                setattr(obj, slot, old)
            else:
                d = getattr(obj, slot)
                if old is MISSING: d.pop(key, None)
                else: d[key] = old

    # ------------------------------------------------------------ branching
    def entails(self, b, timeout=None):
        b = zb(b)
        if isinstance(b, bool):
            return b
        r, _ = solve.solve(self.pc + [z3.Not(b)], timeout=timeout or 2500)
        return r == "unsat"

    def possible(self, b):
        b = zb(b)
        if isinstance(b, bool):
            return b
        r, _ = solve.solve(self.pc + [b], timeout=1500)
        return r != "unsat"

    def assume(self, b):
        b = zb(b)
        if b is True: return
        if b is False: raise Infeasible()
        self.pc.append(b)

    def decide(self, c):
        """truth value of a condition on this path, forking when both are possible"""
        c = zb(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c) if False else c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        for p in self.pc:
            if p.eq(c): return True
            if z3.is_not(p) and p.arg(0).eq(c): return False
        if z3.is_not(c):
            return not self.decide(c.arg(0))
        if not self.possible(c):
            return False
        if not self.possible(z3.Not(c)):
            return True
        return self.fork(c)

    def fork(self, c):
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.alts.append(self.dec[:self.pos] + [False])
            self.dec = self.dec[:self.pos] + [True]
        self.pos += 1
        g = c if v else z3.Not(c)
        self.pc.append(g)
        self.guards.append(g)
        return v

    def explore(self, thunk, capture=None, maxpaths=400):
        """run thunk on every feasible path; returns [Path]; the state is restored after each"""
        saved = (self.dec, self.pos, self.alts, self.guards, list(self.pc))
        mark = len(self.trail)
        base_fresh = values.fresh_pos()
        mx = base_fresh
        work = [[]]
        out = []
        depth = self.depth
        try:
            while work:
                self.dec = work.pop()
                self.pos = 0
                self.alts = []
                self.guards = []
                self.pc = list(saved[4])
                self.depth = depth
                values.fresh_set(base_fresh)
                omark = Heap.peek()
                kind = val = None
                try:
                    val = thunk()
                    kind = "next"
                except RetSig as e:
                    kind, val = "ret", e.v
                except BrkSig:
                    kind = "break"
                except CntSig:
                    kind = "next"
                except PyExc as e:
                    kind, val = "exc", e
                except Infeasible:
                    kind = None
                work.extend(reversed(self.alts))
                if kind is not None:
                    snap = capture(self, kind, val, mark, omark) if capture else None
                    out.append(Path(tuple(self.guards), kind, snapshot(val, omark) if not isinstance(val, PyExc) else val, snap))
                    out[-1].pc = list(self.pc)
                mx = max(mx, values.fresh_pos())
                self.undo(mark)
                if len(out) > maxpaths:
                    raise Unsupported("too many paths")
        finally:
            self.undo(mark)
            self.dec, self.pos, self.alts, self.guards, self.pc = saved
            self.depth = depth
            values.fresh_set(mx)
        return out

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            m = Module(name, stub=self.stubs[name])
            self.modules[name] = m
            return m
        p = os.path.join(REPO, *name.split("."))
        f = p + ".py" if os.path.isfile(p + ".py") else os.path.join(p, "__init__.py")
        if name.split(".")[0] == "qtcodes" and os.path.isfile(f):
            fr = Frame()
            m = Module(name, frame=fr)
            self.modules[name] = m
            fr.vars["__name__"] = name
            fr.modname = name
            if os.path.basename(f) == "__init__.py" and name in ("qtcodes", "qtcodes.circuits", "qtcodes.fitters", "qtcodes.tools"):
                return m            # package namespaces are not needed: every module imports from the leaf modules
            tree = ast.parse(open(f).read(), f)
            for st in tree.body:
                try:
                    self.stmt(st, fr)
                except Unsupported as e:
                    # a top-level statement outside the subset poisons only the names it binds
                    for t in ast.walk(st):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            fr.vars[t.id] = Poison("module-level statement: %s" % e)
            return m
        m = Module(name, stub=None)
        self.modules[name] = m
        return m

    def mod_attr(self, m, n):
        if m.frame is not None:
            if n in m.frame.vars:
                return m.frame.vars[n]
            if m.name + "." + n in self.modules or os.path.exists(os.path.join(REPO, *m.name.split("."), n + ".py")) or os.path.isdir(os.path.join(REPO, *m.name.split("."), n)):
                return self.load(m.name + "." + n)
            raise PyExc(ImportError, ("cannot import name %s from %s" % (n, m.name),))
        if m.stub is not None and n in m.stub:
            return m.stub[n]
        if m.name.split(".")[0] == "qtcodes":
            raise PyExc(ImportError, (m.name,))
        sub = m.name + "." + n
        if sub in self.stubs:
            return self.load(sub)
        return Opaque(m.name + "." + n)

    def get(self, dotted):
        """module-level object, e.g. qtcodes.circuits.xxzz:XXZZQubit"""
        mod, n = dotted.split(":")
        return self.mod_attr(self.load(mod), n)

    # ------------------------------------------------------------ names
    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if isinstance(v, Poison):
                    raise Unsupported("use of %s: %s" % (n, v.why))
                return v
            f = f.parent
        g = fr.glob
        if n in g.vars:
            v = g.vars[n]
            if isinstance(v, Poison):
                raise Unsupported("use of %s: %s" % (n, v.why))
            return v
        if n in self.builtins:
            return self.builtins[n]
        raise PyExc(NameError, (n,))

    def setname(self, n, v, fr):
        if n in fr.globals_decl:
            fr = fr.glob
        elif n in fr.nonlocals:
            f = fr.parent
            while f is not None and n not in f.vars:
                f = f.parent
            fr = f or fr
        self.put(fr, "vars", n, v)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported("too many steps")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(st).__name__, getattr(st, "lineno", "?")))
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr): pass

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.augop(st.op, cur, self.ev(st.value, fr))
            if v is not cur or t.id not in fr.vars: self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.augop(st.op, cur, self.ev(st.value, fr))
            if v is not cur or not isinstance(v, SList): self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.augop(st.op, cur, self.ev(st.value, fr))
            if v is not cur or not (isinstance(v, SList) and isinstance(o, (SDict, SList))): self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        if isinstance(a, SList) and isinstance(op, ast.Add):
            self.put(a, "segs", None, a.segs + self.iter_segs(b))
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, tuple):
            items = list(v)
        else:
            segs = self.iter_segs(v)
            if not is_const_segs(segs):
                if star:
                    raise Unsupported("star unpacking of a symbolic sequence")
                ln = seg_count(segs)
                if ln is None:
                    raise Unsupported("unpacking of a symbolic sequence")
                if not self.decide(num.cmp("==", ln, n)):
                    raise PyExc(ValueError, ("unpack",))
                items = [self.nth(segs, i) for i in range(n)]
                return items
            items = [s.v for s in segs]
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                raise PyExc(ValueError, ("not enough values to unpack",))
            mid = items[i:len(items) - after]
            return items[:i] + [SList(tuple(Item(x) for x in mid))] + (items[len(items) - after:] if after else [])
        if len(items) != n:
            raise PyExc(ValueError, ("unpack %d into %d" % (len(items), n),))
        return items

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Return(self, st, fr):
        raise RetSig(self.ev(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr): raise BrkSig()
    def s_Continue(self, st, fr): raise CntSig()

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported("bare raise")
        e = self.ev(st.exc, fr)
        if isinstance(e, SObj) and e.cls.exc:
            raise PyExc(e.cls, e.attrs.get("args", ()), e)
        if isinstance(e, PyClass) and e.exc:
            raise PyExc(e, ())
        if isinstance(e, type) and issubclass(e, BaseException):
            raise PyExc(e, ())
        if isinstance(e, ExcVal):
            raise PyExc(e.cls, e.args)
        raise Unsupported("raise of %r" % (e,))

    def s_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise PyExc(AssertionError, ())

    def s_Global(self, st, fr): fr.globals_decl |= set(st.names)
    def s_Nonlocal(self, st, fr): fr.nonlocals |= set(st.names)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.put(fr, "vars", t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.ev(t.slice, fr)
                if isinstance(o, SDict) and not o.ups and o.base is None and self.hashable_const(i):
                    if i not in o.d:
                        raise PyExc(KeyError, (i,))
                    self.put(o, "d", i, MISSING)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.load(a.name)
            if a.asname:
                self.put(fr, "vars", a.asname, m)
            else:
                self.put(fr, "vars", a.name.split(".")[0], self.load(a.name.split(".")[0]))

    def s_ImportFrom(self, st, fr):
        modname = st.module or ""
        if st.level:
            base = getattr(fr.glob, "modname", "").split(".")
            f = os.path.join(REPO, *base)
            up = st.level - (1 if os.path.isdir(f) else 0)
            base = base[:len(base) - up] if up else base
            modname = ".".join(base + ([st.module] if st.module else []))
        m = self.load(modname)
        for a in st.names:
            if a.name == "*":
                if m.frame is None:
                    continue
                for k, v in list(m.frame.vars.items()):
                    if not k.startswith("_"):
                        self.put(fr, "vars", k, v)
            else:
                try:
                    self.put(fr, "vars", a.asname or a.name, self.mod_attr(m, a.name))
                except PyExc:
                    raise

    def s_FunctionDef(self, st, fr):
        self.put(fr, "vars", st.name, self.mkfunc(st, fr, None))

    def mkfunc(self, st, fr, owner):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = PyFunc(st, fr, owner, defaults, kwd)
        modn = getattr(fr.glob, "modname", "?")
        f.modname = modn
        f.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(st))
        kind = None
        for d in getattr(st, "decorator_list", []):
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm in ("staticmethod", "classmethod"):
                f.kind = nm
            elif nm == "property":
                kind = "property"
            elif nm == "abstractmethod":
                f.abstract = True
            elif nm == "setter":
                kind = "setter"
            elif nm in ("lru_cache", "cache", "wraps", "overload"):
                raise Unsupported("decorator " + nm)
            else:
                raise Unsupported("decorator")
        if kind == "property":
            return Prop(f)
        if kind == "setter":
            raise Unsupported("property setter")
        return f

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.ev(b, fr)
            if isinstance(v, PyClass) or (isinstance(v, type) and issubclass(v, BaseException)):
                bases.append(v)
            elif isinstance(v, Opaque) or isinstance(v, TypeObj):
                if isinstance(v, TypeObj):
                    raise Unsupported("subclass of a built-in type")
            else:
                raise Unsupported("base class %r" % (v,))
        cfr = Frame(fr.glob, fr)
        ns = {}
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                try:
                    f = self.mkfunc(s, fr if fr is fr.glob else fr, None)
                except Unsupported as e:
                    f = Poison(str(e))
                ns[s.name] = f
                cfr.vars[s.name] = f
            else:
                try:
                    self.stmt(s, cfr)
                except Unsupported as e:
                    for t in ast.walk(s):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            cfr.vars[t.id] = Poison(str(e))
        for k, v in cfr.vars.items():
            ns[k] = v
        c = PyClass(st.name, bases, ns, getattr(fr.glob, "modname", "?"))
        for k, v in ns.items():
            f = v.f if isinstance(v, Prop) else v
            if isinstance(f, PyFunc) and f.owner is None and f.name == k:
                f.owner = c
                f.qual = "%s.%s" % (st.name, k)
        self.put(fr, "vars", st.name, c)

    def s_Try(self, st, fr):
        try:
            self.block(st.body, fr)
        except PyExc as e:
            for h in st.handlers:
                if h.type is None or self.exc_match(e, self.ev(h.type, fr)):
                    if h.name:
                        self.setname(h.name, e.obj if e.obj is not None else ExcVal(e.cls, e.args_), fr)
                    self.block(h.body, fr)
                    break
            else:
                if st.finalbody:
                    self.block(st.finalbody, fr)
                raise
        else:
            self.block(st.orelse, fr)
        if st.finalbody:
            self.block(st.finalbody, fr)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, PyClass):
            return isinstance(e.cls, PyClass) and t in e.cls.mro
        if isinstance(t, type):
            c = e.cls.exc if isinstance(e.cls, PyClass) else e.cls
            return isinstance(c, type) and issubclass(c, t)
        raise Unsupported("except clause")

    def s_With(self, st, fr):
        raise Unsupported("with")

    # ------------------------------------------------------------ loops
    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        segs = self.iter_segs(it)
        if self.for_rule is not None and self.for_rule(self, st, fr, segs): return
        try:
            self.for_segs(segs, lambda v: (self.assign(st.target, v, fr), self.iteration(st.body, fr)))
        except BrkSig:
            return
        self.block(st.orelse, fr)

    def iteration(self, body, fr):
        try:
            self.block(body, fr)
        except CntSig:
            pass

    def for_segs(self, segs, body):
        """body(value) for every item, in order; summarises Rep segments"""
        for s in segs:
            if isinstance(s, Item):
                body(s.v)
            elif isinstance(s, Alt):
                for gs, ss in self.pick(s.vars):
                    self.for_segs(ss, body)
            elif isinstance(s, Rep):
                self.rep_loop(s, body)
            elif isinstance(s, Bag) and s.expand is not None:
                self.for_segs(s.expand(), body)
            else:
                raise Unsupported("iteration over an opaque sequence")

    def pick(self, vars_):
        """the variant whose guards hold, on this path"""
        for i, (gs, ss) in enumerate(vars_):
            if i == len(vars_) - 1:
                return [(gs, ss)]
            c = z3.And(*gs) if len(gs) > 1 else gs[0] if gs else True
            if self.decide(c):
                return [(gs, ss)]
        return []

    def rep_loop(self, rep, body):
        rep = rename_rep(rep)
        N = rep.N
        cN = lift(N).const()
        if cN is not None and cN <= 0:
            return
        if cN is not None and cN <= 12:
            for i in range(int(cN)):
                pr = [(rep.k, i)]
                for gs, ss in self.pick([(tuple(subst_b(g, pr) for g in gs), subst_segs(ss, pr)) for gs, ss in rep.vars]):
                    self.for_segs(ss, body)
            return
        if self.entails(num.cmp("<=", N, 0)):
            return
        solve.add_bound(N)
        k = kn(rep.k)
        rng = [zbool(num.cmp(">=", k, 0)), zbool(num.cmp("<", k, N))]

        def once():
            for g in rng:
                self.pc.append(g)
            if not self.possible(True if False else z3.BoolVal(True)):
                raise Infeasible()
            for gs, ss in self.pick(rep.vars):
                self.for_segs(ss, body)

        self.summarise(rep.k, N, rng, once)

    def summarise(self, kc, N, rng, once):
        written = {}        # (oid, slot, key) -> (obj, slot, key)
        modes = {}          # loc -> guessed invariant, verified below
        outer_opt = self.opt
        for rnd in range(16):
            hav = {}        # loc -> havoc info
            vals = {}
            mark = len(self.trail)
            fp = values.fresh_pos()
            for loc, (obj, slot, key) in written.items():
                cur = getattr(obj, slot) if key is None else getattr(obj, slot).get(key, MISSING)
                h, val = self.havoc_mode(slot, cur, modes.get(loc), kc)
                hav[loc] = (h, cur)
                vals[loc] = val
                self.put(obj, slot, key, val)
            bits = {loc: hav[loc][0][1] for loc in written if modes.get(loc) == ("bit",)}

            def body(bits=bits):
                for c in bits.values(): self.pc += [c >= 0, c <= 1]
                return once()
            new = {}
            self.opt = set()

            def capture(I, kind, val, m, omark):
                snap = {}
                for obj, slot, key, old in I.trail[m:]:
                    if obj.oid < omark:
                        loc = (obj.oid, slot, key)
                        if loc not in written:
                            new[loc] = (obj, slot, key)
                for loc, (obj, slot, key) in written.items():
                    cur = getattr(obj, slot) if key is None else getattr(obj, slot).get(key, MISSING)
                    snap[loc] = snapshot_segs(cur, omark) if slot in ("segs", "ups", "trace") else snapshot(cur, omark)
                    if loc in bits and not self.is_bit(cur): raise Unsupported("a loop-carried bit does not stay a bit")
                return snap
            want = None
            try:
                paths = self.explore(body, capture)
            except WantBit as e:
                want = [loc for loc, (h, cur) in hav.items() if h[0] == "num" and h[1].get_id() == e.cid and loc not in bits and self.is_bit(cur)]
                if not want: raise
            finally:
                reads, self.opt = self.opt, outer_opt
            mx = values.fresh_pos()
            self.undo(mark)
            values.fresh_set(mx)
            if want:
                modes[want[0]] = ("bit",)
                continue
            if new:
                written.update(new)
                continue
            toggled = [loc for loc, (h, cur) in hav.items() if h[0] == "num" and loc not in bits and isnum(cur) and lift(cur).const() in (0, 1)
                       and any(is_toggle(p.snap[loc], h[1]) for p in paths)]
            if toggled:
                for loc in toggled: modes[loc] = ("bit",)
                continue
            own = {h[1]: loc for loc, (h, _) in hav.items() if h[0] == "segs"}
            mine = {own[i] for i in reads if i in own}
            again = self.check_modes(kc, paths, hav, vals, modes, written)
            if mine and not again:
                self.guess_modes(kc, paths, hav, modes, written, mine)
                again = True
            if again: continue
            outer_opt |= {i for i in reads if i not in own}
            break
        else:
            raise Unsupported("loop summary does not converge")
        self.modes_now = modes
        esc = [p for p in paths if p.kind != "next"]
        nxt = [p for p in paths if p.kind == "next"]
        if not esc:
            self.apply_summary(kc, N, nxt, written, hav, modes)
            return
        if any(ghosts(p.guards) for p in paths): raise Unsupported("loop exit under a memoised lookup")
        # an escaping iteration: fork on whether there is one
        rk = kc

        def guard_of(p):
            return z3.And(*p.guards) if p.guards else z3.BoolVal(True)
        tmpk = atom_of(fresh_int("e"))
        for p in esc:
            if any(hc is not None and hc in consts_of_guards(p.guards) for hc in [h[1] for h, _ in hav.values() if h[0] in ("num", "bool")]):
                raise Unsupported("loop exit depends on a loop-carried value")
        E = z3.Or(*[guard_of(p) for p in esc])
        kq = tmpk
        allno = z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < num.z3_of(N)), z3.Not(z3.substitute(E, (rk, kq)))))
        b = z3.Bool(fresh_name("esc"))
        if z3.is_true(z3.simplify(E)):
            c = z3.simplify(num.z3_of(N) > 0)
            escape = self.decide(c)
        else:
            escape = self.fork(b)
        if not escape:
            self.pc.append(allno)
            self.apply_summary(kc, N, nxt, written, hav, modes)
            return
        k0 = fresh_int("k0")
        self.assume(num.cmp(">=", k0, 0))
        self.assume(num.cmp("<", k0, N))
        if not z3.is_true(z3.simplify(E)):
            kq2 = atom_of(fresh_int("e"))
            self.pc.append(z3.ForAll([kq2], z3.Implies(z3.And(kq2 >= 0, kq2 < num.z3_of(k0)), z3.Not(z3.substitute(E, (rk, kq2))))))
            self.pc.append(z3.substitute(E, (rk, num.z3_of(k0))))
        else:
            self.assume(num.cmp("==", k0, 0))
        if not self.possible(z3.BoolVal(True)):
            raise Infeasible()
        if nxt:
            self.apply_summary(kc, k0, nxt, written, hav, modes)
        once_k = self._once_at(once, rk, k0)
        once_k()
        raise Infeasible()      # an escaping iteration always leaves through an exception

    def _once_at(self, once, rk, k0):
        def f():
            self.pc.append(rk == num.z3_of(k0))
            once()
        return f

    # -- inferred inductive contents: guessed from a tentative round, then verified by the next one
    def havoc_mode(self, slot, cur, mode, kc):
        if mode is None or mode[0] in ("opq", "bit"):
            if mode is None and self.infer and isinstance(cur, Heap) and not isinstance(cur, SList):
                return ("same", None), cur
            return self.havoc_value(slot, cur)
        if mode[0] == "poison":
            return ("other", None), Poison("value carried from one loop iteration to the next")
        if mode[0] == "count":
            return ("count", None), num.add(cur, num.mul(mode[1], kn(kc)))
        if mode[0] == "memo":
            return ("memo", None), (MemoSeg(mode[1]),)
        if mode[0] == "content":
            k2 = fresh_int("k")
            pr = [(kc, k2)]
            return ("content", None), tuple(cur) + (Rep(atom_of(k2), kn(kc), [((), subst_segs(mode[1], pr))]),)
        raise Unsupported("loop mode")

    def check_modes(self, kc, paths, hav, vals, modes, written):
        """do the guessed invariants hold after an arbitrary iteration?  True: another round is needed"""
        again = False
        for loc, (h, cur) in hav.items():
            k = h[0]
            if k == "same" and any(p.snap[loc] is not cur for p in paths if p.kind == "next"):
                modes[loc] = ("poison",); again = True
            elif k == "count":
                if any(not isnum(p.snap[loc]) or lift(num.sub(num.sub(p.snap[loc], vals[loc]), modes[loc][1])).const() != 0 for p in paths if p.kind == "next"):
                    raise Unsupported("loop counter does not follow its inferred form")
            elif k == "content":
                v = vals[loc]
                for p in paths:
                    if p.kind != "next": continue
                    s = p.snap[loc]
                    if len(s) < len(v) or any(repr(x) != repr(y) for x, y in zip(s, v)) or repr(s[len(v):]) != repr(modes[loc][1]):
                        raise Unsupported("contents carried through a loop do not follow their inferred form")
            elif k == "memo":
                ok = all(memo_ok(s, modes[loc][1], self) for s in cur)
                for p in paths:
                    if p.kind != "next": continue
                    for i, s in enumerate(p.snap[loc]):
                        ok = ok and (memo_ok(s, modes[loc][1], self))
                if not ok:
                    modes[loc] = ("opq", "content"); again = True
        return again

    def guess_modes(self, kc, paths, hav, modes, written, mine):
        nxt = [p for p in paths if p.kind == "next"]
        if not nxt: raise Unsupported("membership in loop-carried contents")
        cf, pairs = self.closed_forms(kc, nxt, hav)
        for loc, e0 in cf.items(): modes[loc] = ("count", e0)
        for loc in mine:
            h, cur = hav[loc]
            obj, slot, key = written[loc]
            apps = []
            for p in nxt:
                s = p.snap[loc]
                if isinstance(obj, SDict) and slot == "ups" and any(isinstance(x, MemoSeg) for x in s) and not any(isinstance(x, Opq) for x in s):
                    apps.append(s); continue
                if not s or not isinstance(s[0], Opq) or s[0].id != h[1] or any(isinstance(x, Opq) for x in s[1:]):
                    raise Unsupported("membership in loop-carried contents")
                apps.append(s[1:])
            tried = modes.get(loc, ())
            if isinstance(obj, SDict) and slot == "ups" and tried != ("opq", "content"):
                F = memo_template(apps)
                if F is not None:
                    modes[loc] = ("memo", F)
                    continue
            if any(isinstance(x, MemoSeg) for a in apps for x in a): raise Unsupported("membership in loop-carried contents")
            apps = [subst_segs(x, pairs) for x in apps]
            if len({repr(x) for x in apps}) != 1: raise Unsupported("membership in loop-carried contents")
            modes[loc] = ("content", apps[0])

    def closed_forms(self, kc, paths, hav):
        k = kn(kc)
        cf = {}
        hcs = {h[1].get_id(): loc for loc, (h, _) in hav.items() if h[0] in ("num", "bool")}
        for loc, (h, cur) in hav.items():
            if h[0] != "num":
                continue
            es = [num_delta(p.snap[loc], h[1]) for p in paths]
            if any(e is None for e in es):
                continue
            e0 = es[0]
            if all(isnum(e) and lift(num.sub(e, e0)).const() == 0 for e in es) and isnum(e0):
                cs = consts_of(e0)
                if kc.get_id() not in cs and not (set(cs) & set(hcs)) and isnum(cur):
                    cf[loc] = e0
        return cf, [(hav[loc][0][1], num.add(hav[loc][1], num.mul(e0, k))) for loc, e0 in cf.items()]

    def havoc_value(self, slot, cur):
        if slot in ("segs", "ups", "trace"):
            i = next(self.opq)
            return ("segs", i), (Opq(i),)
        if cur is MISSING:
            return ("unset", None), MISSING
        if isinstance(cur, bool) or isinstance(cur, SBool):
            c = z3.Bool(fresh_name("hb"))
            return ("bool", c), SBool(c)
        if isnum(cur):
            fl = lift(cur).f
            v = fresh_int("h")
            c = atom_of(v)
            return ("num", c), (Num(v.p, True) if fl else v)
        if isinstance(cur, Fold):
            v = fresh_int("h")
            return ("num", atom_of(v)), v
        if isinstance(cur, (str, Str)):
            i = next(self.opq)
            return ("str", i), Str((Opq(i),))
        if isinstance(cur, SList):
            i = next(self.opq)
            return ("list", i), SList((Opq(i),))
        return ("other", None), Poison("value carried from one loop iteration to the next")

    def apply_summary(self, kc, N, paths, written, hav, modes={}):
        k = kn(kc)
        # 1. closed-form counters
        cf, pairs = self.closed_forms(kc, paths, hav)
        paths = self.drop_ghosts(paths, hav)
        bound_ids = {h[1].get_id() for loc, (h, _) in hav.items() if h[0] in ("num", "bool") and loc not in cf}
        opq_ids = {h[1]: loc for loc, (h, _) in hav.items() if h[0] in ("segs", "str", "list")}

        def clean(v, what, own=None):
            """a value that may not depend on other loop-carried values"""
            cs = consts_of(v)
            if set(cs) & bound_ids:
                raise Unsupported("%s depends on a loop-carried value" % what)
            if opqs_of(v):
                raise Unsupported("%s depends on loop-carried contents" % what)
            return v

        gl = []
        for p in paths:
            gs = tuple(subst_b(g, pairs) for g in p.guards)
            for g in gs:
                clean(SBool(g), "branch in a loop")
            gl.append(gs)
        final = {}
        for loc, (obj, slot, key) in written.items():
            h, cur = hav[loc]
            if loc in cf:
                final[loc] = num.add(cur, num.mul(cf[loc], N))
                continue
            if h[0] == "same":
                final[loc] = cur
                continue
            if h[0] == "count":
                final[loc] = num.add(cur, num.mul(modes[loc][1], N))
                continue
            if h[0] == "memo":
                final[loc] = (MemoSeg(modes[loc][1]),)
                continue
            if h[0] == "content":
                final[loc] = tuple(cur) + (rename_rep(Rep(kc, N, [((), modes[loc][1])])),)
                continue
            if h[0] in ("segs", "str", "list"):
                pre, post = [], []
                over = False
                for p, gs in zip(paths, gl):
                    a = p.snap[loc]
                    segs = a if h[0] == "segs" else (str_segs(a) if isinstance(a, (str, Str)) else a.segs if isinstance(a, SList) else None)
                    if segs is None:
                        over = True
                        break
                    idx = [i for i, s in enumerate(segs) if isinstance(s, Opq) and s.id == h[1]]
                    if len(idx) != 1:
                        over = True
                        break
                    A, B = subst_segs(segs[:idx[0]], pairs), subst_segs(segs[idx[0] + 1:], pairs)
                    for s in A + B:
                        clean(s, "an element added in a loop")
                    pre.append((gs, A)); post.append((gs, B))
                if over:
                    if all(not opqs_of(p.snap[loc]) for p in paths):
                        final[loc] = ("poison",)
                        continue
                    raise Unsupported("sequence rebuilt in a loop")
                oldsegs = cur if h[0] == "segs" else str_segs(cur) if h[0] == "str" else cur.segs
                res = ()
                if any(A for _, A in pre):
                    res += reverse_outer(Rep(kc, N, merge_vars(pre)))
                res += tuple(oldsegs)
                if any(B for _, B in post):
                    res += (rename_rep(Rep(kc, N, merge_vars(post))),)
                final[loc] = res if h[0] == "segs" else mkstr(res) if h[0] == "str" else ("list", res)
                continue
            if h[0] == "num":
                es = [num_delta(p.snap[loc], h[1]) for p in paths]
                if all(e is not None for e in es):
                    vs = []
                    for e, gs in zip(es, gl):
                        e = clean(subst(e, pairs), "a sum in a loop")
                        vs.append((gs, (Item(e),)))
                    final[loc] = Fold("sum", (rename_rep(Rep(kc, N, vs)),), cur) if not isinstance(cur, Fold) else fold_more(cur, "sum", (rename_rep(Rep(kc, N, vs)),))
                    continue
                es = [1 if modes.get(loc) == ("bit",) and is_toggle(p.snap[loc], h[1]) else parity_delta(p.snap[loc], h[1]) for p in paths]
                if all(e is not None for e in es):
                    vs = []
                    for e, gs in zip(es, gl):
                        e = clean(subst(e, pairs), "a parity in a loop")
                        vs.append((gs, (Item(e),)))
                    c0 = lift(cur).const() if isnum(cur) else None
                    if isinstance(cur, Fold) and cur.kind == "parity":
                        final[loc] = fold_more(cur, "parity", (rename_rep(Rep(kc, N, vs)),))
                        continue
                    if c0 not in (0, 1):
                        raise Unsupported("parity with initial value %r" % (cur,))
                    final[loc] = Fold("parity", (rename_rep(Rep(kc, N, vs)),), cur)
                    continue
            if h[0] == "bool":
                r = self.bool_fold(loc, h, cur, paths, gl, pairs, clean, kc, N)
                if r is not None:
                    final[loc] = r
                    continue
            # overwritten in every iteration without being read: temporary
            final[loc] = ("poison",)
        # values that were poisoned must not be read by anything: guaranteed because their havoc constant is in bound_ids
        for loc, (obj, slot, key) in written.items():
            v = final[loc]
            if isinstance(v, tuple) and v and v[0] == "poison":
                v = Poison("last value of a variable assigned in a loop")
                if slot in ("segs", "ups", "trace"):
                    v = (Opq(next(self.opq)),)
            elif isinstance(v, tuple) and v and v[0] == "list":
                v = SList(v[1])
            self.put(obj, slot, key, v)

    def drop_ghosts(self, paths, hav):
        """paths that differ only in whether a memoised value was already known must have the same effect"""
        if not any(ghosts(p.guards) for p in paths): return paths
        groups = {}
        for p in paths:
            for g in ghosts(p.guards):
                x = g.arg(0) if z3.is_not(g) else g
                if not x.decl().name().startswith("memo!"): raise Unsupported("branch on a memoised lookup")
            gs = tuple(g for g in p.guards if not ghosts((g,)))
            sig = []
            for loc, (h, cur) in hav.items():
                if h[0] in ("segs", "str", "list", "bool"): sig.append(repr(p.snap[loc]))
                elif h[0] == "num":
                    e = num_delta(p.snap[loc], h[1])
                    if e is None: e = parity_delta(p.snap[loc], h[1])
                    sig.append(repr(e))
            groups.setdefault(repr(gs), []).append((gs, sig, p))
        out = []
        for k, v in groups.items():
            if any(x[1] != v[0][1] for x in v): raise Unsupported("the effect of an iteration depends on a memoised lookup")
            q = Path(v[0][0], v[0][2].kind, v[0][2].val, v[0][2].snap)
            q.pc = v[0][2].pc
            out.append(q)
        for i in range(len(out)):
            for j in range(i):
                if self.possible(z3.And(*(list(out[i].guards) + list(out[j].guards) + [z3.BoolVal(True)]))):
                    raise Unsupported("branches of an iteration overlap under a memoised lookup")
        return out

    def bool_fold(self, loc, h, cur, paths, gl, pairs, clean, kc, N):
        """flag set (or cleared) in some iterations"""
        vs = []
        vals = set()
        for p, gs in zip(paths, gl):
            v = p.snap[loc]
            if isinstance(v, SBool) and v.e.eq(h[1]):
                vs.append((gs, None)); continue
            if isinstance(v, bool):
                vs.append((gs, v)); vals.add(v); continue
            return None
        if len(vals) != 1:
            return None
        b = vals.pop()
        kq = atom_of(fresh_int("q"))
        cond = z3.Or(*[z3.And(*gs) if gs else z3.BoolVal(True) for gs, v in vs if v is not None])
        ex = z3.Exists([kq], z3.And(kq >= 0, kq < num.z3_of(N), z3.substitute(cond, (kc, kq))))
        c = zbool(cur)
        return SBool(z3.Or(c, ex)) if b else SBool(z3.And(c, z3.Not(ex)))

    def s_While(self, st, fr):
        # bounded unrolling while the condition is decided; otherwise a counter-controlled loop is summarised
        if self.while_rule is not None and self.while_rule(self, st, fr): return
        n = 0
        while True:
            mark = len(self.trail)
            c = self.ev(st.test, fr)
            cz = self.truth_expr(c)
            if isinstance(cz, bool):
                known = cz
            elif self.entails(cz):
                known = True
            elif self.entails(z3.Not(cz)):
                known = False
            else:
                known = None
            if known is None or n > 300:
                break
            if not known:
                self.block(st.orelse, fr)
                return
            n += 1
            try:
                self.iteration(st.body, fr)
            except BrkSig:
                return
            if n >= 4 and consts_now_symbolic(cz):
                break
        self.while_summary(st, fr)

    def while_summary(self, st, fr):
        kc = atom_of(fresh_int("k"))
        k = kn(kc)
        rng = [zbool(num.cmp(">=", k, 0))]
        conds = []

        def once():
            for g in rng: self.pc.append(g)
            c = self.truth_expr(self.ev(st.test, fr))
            conds.append(c)
            self.assume(c)
            self.iteration(st.body, fr)
        # find the trip count: run the summary machinery with N unknown
        Nn = fresh_int("N")
        found = {}
        orig_apply = self.apply_summary

        def apply2(kc_, N_, paths, written, hav, modes={}):
            # condition in terms of the havoc constants
            cond = conds[-1]
            pairs = []
            for loc, (h, cur) in hav.items():
                if h[0] != "num": continue
                es = [num_delta(p.snap[loc], h[1]) for p in paths]
                if any(e is None or not isnum(e) for e in es): continue
                if all(lift(num.sub(e, es[0])).const() == 0 for e in es) and isnum(cur) and kc.get_id() not in consts_of(es[0]):
                    pairs.append((h[1], num.add(cur, num.mul(es[0], k)), ))
            if isinstance(cond, bool):
                raise Unsupported("while loop")
            c2 = subst_b(cond, pairs)
            T = trip_count(c2, kc)
            if T is None:
                raise Unsupported("while loop without a linear counter")
            if not self.entails(num.cmp(">=", T, 0)):
                if self.decide(num.cmp("<=", T, 0)):
                    return
            orig_apply(kc_, T, paths, written, hav, modes)
        self.apply_summary = apply2
        try:
            self.summarise(kc, Nn, rng, once)
        finally:
            self.apply_summary = orig_apply
        self.block(st.orelse, fr)

    # ------------------------------------------------------------ sequences
    def iter_segs(self, v):
        if isinstance(v, tuple):
            return tuple(Item(x) for x in v)
        if isinstance(v, SList):
            return v.segs
        if isinstance(v, str):
            return tuple(Item(c) for c in v)
        if isinstance(v, Str):
            segs = explode(v.segs)
            map_items(segs, one_char)
            return map_items(segs, lambda c: c if isinstance(c, str) else mkstr((Item(c),)))
        if isinstance(v, SDict):
            if v.base is not None:
                if hasattr(v.base, "iter_"): return v.base.iter_(self, v)
                raise Unsupported("iteration over an unknown dict")
            return tuple(Item(x) for x in v.d) + map_items(self.entries(v), lambda kv: kv[0])
        if isinstance(v, SSet):
            return tuple(Item(x) for x in v.items)
        if isinstance(v, Stub):
            return v.iter_segs(self)
        raise PyExc(TypeError, ("not iterable: %r" % (v,),)) if v is None or isnum(v) else Unsupported("iteration over %r" % (v,))

    def nth(self, segs, i):
        """item number i (Num, known to be in range)"""
        off = 0
        rest = i
        for s in segs:
            if isinstance(s, Item):
                if self.decide(num.cmp("==", rest, 0)):
                    return s.v
                rest = num.sub(rest, 1)
            elif isinstance(s, Rep):
                c = None
                cs = [seg_count(ss) for _, ss in s.vars]
                if any(x is None or lift(x).const() is None or lift(x).const() != lift(cs[0]).const() for x in cs):
                    raise Unsupported("index into a ragged sequence")
                c = int(lift(cs[0]).const())
                if c == 0: continue
                tot = num.mul(s.N, c)
                if self.decide(num.cmp("<", rest, tot)):
                    q = num.fdiv(rest, c) if c != 1 else rest
                    r = num.fmod(rest, c) if c != 1 else 0
                    pr = [(s.k, q)]
                    for gs, ss in self.pick([(tuple(subst_b(g, pr) for g in gs), subst_segs(ss, pr)) for gs, ss in s.vars]):
                        return self.nth(ss, r)
                rest = num.sub(rest, tot)
            elif isinstance(s, Alt):
                for gs, ss in self.pick(s.vars):
                    n = seg_count(ss)
                    if n is None: raise Unsupported("index")
                    if self.decide(num.cmp("<", rest, n)):
                        return self.nth(ss, rest)
                    rest = num.sub(rest, n)
            else:
                raise Unsupported("index into loop-carried contents")
        raise PyExc(IndexError, ("index out of range",))

    def length(self, v):
        if isinstance(v, str): return len(v)
        if isinstance(v, tuple): return len(v)
        if isinstance(v, SDict):
            if hasattr(v.base, "len_") and not v.ups and not v.d: return v.base.len_(self, v)
            if v.ups or v.base is not None: raise Unsupported("len of a symbolic dict")
            return len(v.d)
        if isinstance(v, SSet): return len(v.items)
        if isinstance(v, Stub): return v.len_(self)
        if isinstance(v, SList) or isinstance(v, Str):
            segs = v.segs if isinstance(v, SList) else explode(v.segs)
            n = self.count(segs)
            return n
        raise PyExc(TypeError, ("object has no len()",)) if v is None or isnum(v) else Unsupported("len of %r" % (v,))

    def count(self, segs):
        n = seg_count(segs)
        if n is not None:
            return n
        # ragged: fork on the alternatives, or give a fold
        tot = 0
        fold = []
        for s in segs:
            c = seg_count((s,))
            if c is not None:
                tot = num.add(tot, c)
            elif isinstance(s, Alt):
                for gs, ss in self.pick(s.vars):
                    tot = num.add(tot, self.count(ss))
            elif isinstance(s, Rep) and all(seg_count(ss) is not None for _, ss in s.vars):
                fold.append(Rep(s.k, s.N, [(gs, (Item(seg_count(ss)),)) for gs, ss in s.vars]))
            else:
                raise Unsupported("length of a symbolic sequence")
        return Fold("sum", tuple(fold), tot)

    def norm_index(self, i, n):
        """Python index -> offset in range, raising IndexError"""
        if isinstance(i, bool): i = int(i)
        if isinstance(i, SBool): i = ite_num(i, 1, 0)
        if not isnum(i):
            raise Unsupported("index %r" % (i,)) if not isinstance(i, (str, tuple)) and i is not None else PyExc(TypeError, ("list indices must be integers",))
        if lift(i).f:
            raise PyExc(TypeError, ("indices must be integers",))
        if isinstance(n, Fold): raise Unsupported("index into a ragged sequence")
        if self.decide(num.cmp("<", i, 0)):
            i = num.add(i, n)
            if self.decide(num.cmp("<", i, 0)):
                raise PyExc(IndexError, ("index out of range",))
            return i
        if self.decide(num.cmp(">=", i, n)):
            raise PyExc(IndexError, ("index out of range",))
        return i

    def slice_bounds(self, sl, n):
        lo, hi, st = sl
        if st is None: st = 1
        if isinstance(n, Fold): raise Unsupported("slice of a ragged sequence")
        if not isinstance(st, int):
            if not isnum(st) or lift(st).f: raise Unsupported("slice step")
            if self.decide(num.cmp("==", st, 0)): raise PyExc(ValueError, ("slice step cannot be zero",))
            if not self.entails(num.cmp(">", st, 0)): raise Unsupported("slice step of unknown sign")
        elif st == 0: raise PyExc(ValueError, ("slice step cannot be zero",))
        positive = not isinstance(st, int) or st > 0

        def clamp(x, lo_, hi_):
            if self.decide(num.cmp("<", x, 0)):
                x = num.add(x, n)
                if self.decide(num.cmp("<", x, lo_)): return lo_
                return x
            if self.decide(num.cmp(">", x, hi_)): return hi_
            return x
        if positive:
            lo = 0 if lo is None else clamp(lo, 0, n)
            hi = n if hi is None else clamp(hi, 0, n)
        else:
            lo = num.sub(n, 1) if lo is None else clamp(lo, -1, num.sub(n, 1))
            hi = -1 if hi is None else clamp(hi, -1, num.sub(n, 1))
        return lo, hi, st

    def slice_segs(self, segs, sl):
        lo, hi, st = sl
        if lo is None and hi is None:
            if st in (None, 1): return tuple(segs)
            if st == -1: return reverse_segs(segs)
        if is_const_segs(segs) and all(x is None or (isinstance(x, int)) for x in sl):
            return tuple(segs[slice(lo, hi, st)])
        n = self.count(segs)
        lo, hi, st = self.slice_bounds(sl, n)
        if isinstance(st, int) and st == 1:
            if self.entails(num.cmp(">=", lo, hi)):
                return ()
            if not self.entails(num.cmp("<=", lo, hi)):
                if self.decide(num.cmp(">", lo, hi)):
                    return ()
            return self.cut(self.cut(segs, hi)[0], lo)[1]
        # strided: go through the item function
        k = fresh_int("k")
        cnt = self.range_len(lo, hi, st)
        idx = num.add(lo, num.mul(st, k))
        return self.by_index(segs, atom_of(k), cnt, idx)

    def by_index(self, segs, kc, cnt, idx):
        """Rep of nth(segs, idx(k)) for k < cnt"""
        c = lift(cnt).const()
        if c is not None and c <= 0: return ()

        def once():
            self.pc.append(zbool(num.cmp(">=", kn(kc), 0)))
            self.pc.append(zbool(num.cmp("<", kn(kc), cnt)))
            if not self.possible(z3.BoolVal(True)): raise Infeasible()
            return self.nth(segs, idx)
        ps = self.explore(once)
        if any(p.kind != "next" for p in ps):
            raise Unsupported("strided access out of range")
        if not ps: return ()
        return (Rep(kc, cnt, merge_vars([(p.guards, (Item(p.val),)) for p in ps])),)

    def cut(self, segs, n):
        """(first n items, the rest)"""
        out = []
        rest = n
        segs = list(segs)
        for j, s in enumerate(segs):
            if lift(rest).const() == 0:
                return tuple(out), tuple(segs[j:])
            c = seg_count((s,))
            if isinstance(s, Item):
                if self.decide(num.cmp("<=", rest, 0)):
                    return tuple(out), tuple(segs[j:])
                out.append(s)
                rest = num.sub(rest, 1)
                continue
            if c is None:
                raise Unsupported("slice of a ragged sequence")
            if lift(num.sub(rest, c)).const() == 0 or self.entails(num.cmp(">=", rest, c)):
                out.append(s)
                rest = num.sub(rest, c)
                continue
            if not isinstance(s, Rep):
                raise Unsupported("slice")
            per = [seg_count(ss) for _, ss in s.vars]
            if not all(x == 1 for x in per):
                raise Unsupported("slice through grouped items")
            if not self.entails(num.cmp("<=", rest, c)):
                if self.decide(num.cmp(">", rest, c)):
                    out.append(s)
                    rest = num.sub(rest, c)
                    continue
            k2 = fresh_int("k")
            pr = [(s.k, num.add(k2, rest))]
            out.append(rename_rep(Rep(s.k, rest, s.vars)))
            tail = Rep(atom_of(k2), num.sub(s.N, rest), [(tuple(subst_b(g, pr) for g in gs), subst_segs(ss, pr)) for gs, ss in s.vars])
            return tuple(out), (tail,) + tuple(segs[j + 1:])
        return tuple(out), ()

    def range_len(self, lo, hi, st):
        """number of elements of range(lo,hi,st); forks on emptiness when needed"""
        if not isnum(st): raise Unsupported("range step")
        d = num.sub(hi, lo)
        sc = lift(st).const()
        if sc is not None and sc == 0: raise PyExc(ValueError, ("range() arg 3 must not be zero",))
        if sc is None:
            if not self.entails(num.cmp(">", st, 0)):
                if self.entails(num.cmp("==", st, 0)): raise PyExc(ValueError, ("range() arg 3 must not be zero",))
                raise Unsupported("range with a step of unknown sign")
        elif sc < 0:
            d, st = num.neg(d), int(-sc)
        if not self.entails(num.cmp(">=", d, 0)):
            if self.decide(num.cmp("<=", d, 0)): return 0
        # ceil(d/st)
        if lift(st).const() == 1: return d
        q, r = num.divexact(d, st)
        if lift(r).const() == 0: return q
        if lift(st).const() is not None:
            return num.fdiv(num.sub(num.add(d, st), 1), st)
        # d = q*st + r with 0 < r <= st ?
        if self.entails(z3.And(zbool(num.cmp(">", r, 0)), zbool(num.cmp("<=", r, st)))):
            return num.add(q, 1)
        q2, r2 = num.divexact(num.sub(num.add(d, st), 1), st)
        if self.entails(z3.And(zbool(num.cmp(">=", r2, 0)), zbool(num.cmp("<", r2, st)))):
            return q2
        return num.fdiv(num.sub(num.add(d, st), 1), st)

    # ------------------------------------------------------------ truth
    def truth_expr(self, v):
        """bool or z3 Bool"""
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, SBool): return v.e
        if isinstance(v, (int, float)): return v != 0
        if isinstance(v, Num): return num.cmp("!=", v, 0)
        if isinstance(v, str): return v != ""
        if isinstance(v, Str):
            if any(isinstance(s, Item) and not isinstance(s.v, StrAtom) for s in v.segs): return True
            return num.cmp(">", self.count(explode(v.segs)), 0)
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, SList):
            if any(isinstance(s, Item) for s in v.segs): return True
            if not v.segs: return False
            n = self.count(v.segs)
            if isinstance(n, Fold):
                return fold_positive(n)
            return num.cmp(">", n, 0)
        if isinstance(v, SDict):
            if v.d: return True
            if v.ups or v.base is not None: raise Unsupported("truth of a symbolic dict")
            return False
        if isinstance(v, SSet): return len(v.items) > 0
        if isinstance(v, BitInt):
            return v.truth(self)
        if isinstance(v, Stub): return v.bool_(self)
        if isinstance(v, Fold):
            raise Unsupported("truth of a fold")
        if isinstance(v, SObj):
            f = v.cls.lookup("__bool__")
            if f is not MISSING: return self.truth_expr(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup("__len__")
            if f is not MISSING: return self.truth_expr(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (PyFunc, Bound, Builtin, PyClass, Module, BRef, TypeObj, type)): return True
        if isinstance(v, Poison): raise Unsupported(v.why)
        raise Unsupported("truth of %r" % (v,))

    def truth(self, v):
        return self.decide(self.truth_expr(v))

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (int, float, str, bool)) or e.value is None: return e.value
        if e.value is Ellipsis: return Opaque("...")
        raise Unsupported("constant %r" % (e.value,))

    def e_Name(self, e, fr): return self.name(e.id, fr)
    def e_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs = self.iter_segs(self.ev(x.value, fr))
                if not is_const_segs(segs): raise Unsupported("star in tuple")
                out += [s.v for s in segs]
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.iter_segs(self.ev(x.value, fr)))
            else:
                out.append(Item(self.ev(x, fr)))
        return SList(out)

    def e_Set(self, e, fr):
        vals = [self.ev(x, fr) for x in e.elts]
        if not all(self.hashable_const(v) for v in vals): raise Unsupported("set of symbolic values")
        return SSet(dict.fromkeys(vals))

    def e_Dict(self, e, fr):
        r = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, SDict) or o.ups or o.base is not None: raise Unsupported("dict unpacking")
                r.d.update(o.d)
            else:
                kk = self.ev(k, fr)
                vv = self.ev(v, fr)
                if not self.hashable_const(kk): raise Unsupported("symbolic key in a dict display")
                r.d[kk] = vv
        return r

    def hashable_const(self, k):
        if k is None or isinstance(k, (int, float, str, bool)): return True
        if isinstance(k, tuple): return all(self.hashable_const(x) for x in k)
        if isinstance(k, (PyClass, PyFunc, TypeObj)): return True
        return False

    def e_JoinedStr(self, e, fr):
        segs = ()
        for v in e.values:
            if isinstance(v, ast.Constant):
                segs += str_segs(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    segs += (Item(StrAtom(fresh_name("fmt"))),)
                else:
                    segs += str_segs(self.tostr(x))
        return mkstr(segs)

    def tostr(self, x):
        if isinstance(x, (str, Str)): return x
        if isinstance(x, (bool, int, float)) or x is None: return str(x)
        if isinstance(x, Num):
            z = num.z3_of(x)
            if not x.f and z3.is_app(z) and z.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(z.arg(1)) and z.arg(1).as_long() == 2:
                return mkstr((Item(BitCh(z == 1)),))
            if not x.f and z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE and z.arg(1).eq(z3.IntVal(1)) and z.arg(2).eq(z3.IntVal(0)):
                return mkstr((Item(BitCh(z.arg(0))),))
            return mkstr((Item(x),))
        if isinstance(x, Fold) and x.kind == "parity":
            return mkstr((Item(FoldCh(x)),))
        if isinstance(x, SObj):
            f = x.cls.lookup("__str__")
            if f is not MISSING: return self.call(Bound(f, x), [], {})
        if hasattr(x, "tostr_"): return x.tostr_(self)
        if isinstance(x, tuple) and all(isnum(y) for y in x) and len(x) > 1:
            segs = (Item("("),)
            for i, y in enumerate(x): segs += ((Item(", "),) if i else ()) + str_segs(self.tostr(y))
            return mkstr(segs + (Item(")"),))
        return mkstr((Item(StrAtom(fresh_name("str"))),))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        vals = []
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, SBool) else False
            if not isand and t: return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_expr(v)
            return sbool(bnot(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool): v = int(v)
            if isnum(v): return num.neg(v)
            if isinstance(v, Stub): return v.binop(self, "mul", -1, False)
        if isinstance(e.op, ast.UAdd) and isnum(v): return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int): return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("use of a loop temporary")
        if isinstance(a, Stub): return a.binop(self, o.lower(), b, False)
        if isinstance(b, Stub): return b.binop(self, o.lower(), a, True)
        if isinstance(a, SObj) or isinstance(b, SObj):
            nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Mod": "mod", "Div": "truediv"}.get(o)
            if nm and isinstance(a, SObj):
                f = a.cls.lookup("__%s__" % nm)
                if f is not MISSING: return self.call(Bound(f, a), [b], {})
            raise Unsupported("operator on an object")
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and o in ("BitAnd", "BitOr", "BitXor"):
            return sbool({"BitAnd": band, "BitOr": bor, "BitXor": bxor}[o](a, b))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, SBool): a = ite_num(a, 1, 0)
        if isinstance(b, SBool): b = ite_num(b, 1, 0)
        if isinstance(a, (Fold, FoldExpr)) or isinstance(b, (Fold, FoldExpr)): return self.fold_op(o, a, b)
        if isinstance(a, BitInt) or isinstance(b, BitInt): return self.bit_op(o, a, b)
        if isnum(a) and isnum(b):
            return self.num_op(o, a, b)
        if o == "Add":
            if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                if isinstance(a, str) and isinstance(b, str): return a + b
                return mkstr(str_segs(a) + str_segs(b))
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, SList) and isinstance(b, SList): return SList(a.segs + b.segs)
        if o == "Mult":
            if isnum(a) and not isnum(b): a, b = b, a
            if isnum(b):
                if isinstance(a, (str, tuple)) and isinstance(b, int): return a * b
                if isinstance(a, (str, Str)):
                    return mkstr(self.repeat(str_segs(a), b))
                if isinstance(a, SList):
                    return SList(self.repeat(a.segs, b))
        if o == "Mod" and isinstance(a, (str, Str)):
            return mkstr((Item(StrAtom(fresh_name("fmt"))),))
        if o in ("BitOr", "BitAnd", "Sub") and isinstance(a, SSet) and isinstance(b, SSet):
            A, B = dict.fromkeys(a.items), dict.fromkeys(b.items)
            return SSet([x for x in A if x in B] if o == "BitAnd" else [x for x in A if x not in B] if o == "Sub" else list({**A, **B}))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if o == "BitOr": return Opaque("union")
        if any(x is None or isinstance(x, (str, Str, SList, tuple, SDict)) or isnum(x) for x in (a,)) and any(x is None or isinstance(x, (str, Str, SList, tuple, SDict)) or isnum(x) for x in (b,)):
            raise PyExc(TypeError, ("unsupported operand types for %s" % o,))
        raise Unsupported("operator %s on %r, %r" % (o, type(a).__name__, type(b).__name__))

    def repeat(self, segs, n):
        if isinstance(n, int):
            return tuple(segs) * n if n > 0 else ()
        if not self.entails(num.cmp(">=", n, 0)):
            if self.decide(num.cmp("<=", n, 0)): return ()
        k = fresh_int("k")
        return (Rep(atom_of(k), n, [((), tuple(segs))]),)

    def num_op(self, o, a, b):
        if o == "Add": return num.add(a, b)
        if o == "Sub": return num.sub(a, b)
        if o == "Mult": return num.mul(a, b)
        if o in ("FloorDiv", "Mod", "Div"):
            cb = lift(b).const()
            if cb is not None:
                if cb == 0: raise PyExc(ZeroDivisionError, ())
            elif not self.entails(num.cmp("!=", b, 0)):
                if self.decide(num.cmp("==", b, 0)): raise PyExc(ZeroDivisionError, ())
            if o == "Div":
                return self.truediv(a, b)
            ca = lift(a).const()
            if ca is not None and cb is not None:
                x, y = num.lower(lift(a)), num.lower(lift(b))
                return x // y if o == "FloorDiv" else x % y
            if cb is not None and cb < 0:
                raise Unsupported("division by a negative number")
            if cb is None and not self.entails(num.cmp(">", b, 0)):
                if self.decide(num.cmp("<", b, 0)): raise Unsupported("division by a negative number")
            if cb is None and not lift(a).f and not lift(b).f:
                # q = 0 when 0 <= a < b is known: keep terms small
                if self.entails(z3.And(zbool(num.cmp(">=", a, 0)), zbool(num.cmp("<", a, b)))) :
                    return 0 if o == "FloorDiv" else a
                q, r = num.divexact(a, b)
                if lift(r).const() != 0 and lift(q).const() != 0 and self.entails(z3.And(zbool(num.cmp(">=", r, 0)), zbool(num.cmp("<", r, b)))):
                    return q if o == "FloorDiv" else r
            if lift(a).f or lift(b).f or any(c.denominator != 1 for c in list(lift(a).p.values()) + list(lift(b).p.values())):
                raise Unsupported("floor division of a non-integer")
            return num.fdiv(a, b) if o == "FloorDiv" else num.fmod(a, b)
        if o == "Pow":
            if isinstance(b, int) and 0 <= b <= 8:
                r = 1
                for _ in range(b): r = num.mul(r, a)
                return r
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a ** b
            if a == -1:
                r = num.fmod(b, 2)
                return num.sub(1, num.mul(2, r))
            raise Unsupported("power")
        if isinstance(a, int) and isinstance(b, int):
            if o == "BitAnd": return a & b
            if o == "BitOr": return a | b
            if o == "BitXor": return a ^ b
            if o == "LShift": return a << b
            if o == "RShift": return a >> b
        if o == "BitAnd" and (b == 1 or a == 1):
            return num.fmod(a if b == 1 else b, 2)
        if o == "LShift" and a == 1:
            if self.decide(num.cmp("<", b, 0)): raise PyExc(ValueError, ("negative shift count",))
            return BitInt(lambda i, b=b: zbool(num.cmp("==", i, b)), single=b)
        if o == "RShift" and isinstance(b, int):
            return num.fdiv(a, 1 << b)
        if o == "LShift" and isinstance(b, int):
            return num.mul(a, 1 << b)
        if o == "BitXor":
            for x in (a, b):
                if not self.is_bit(x):
                    cs = consts_of(x)
                    if isinstance(x, Num) and len(cs) == 1:
                        (cid,) = list(cs)
                        if x.key() == lift(num.of_atom(cs[cid])).key():
                            raise WantBit(cid)
                    raise Unsupported("operator BitXor on symbolic numbers")
            return num.fmod(num.add(a, b), 2)
        raise Unsupported("operator %s on symbolic numbers" % o)

    def is_bit(self, x):
        if isinstance(x, bool) or isinstance(x, SBool): return True
        if isinstance(x, Fold): return x.kind == "parity"
        if not isnum(x) or lift(x).f: return False
        c = lift(x).const()
        if c is not None: return c in (0, 1)
        return self.entails(z3.And(zbool(num.cmp(">=", x, 0)), zbool(num.cmp("<=", x, 1))))

    def truediv(self, a, b):
        cb = lift(b).const()
        if cb is not None:
            return num.tofloat(num.scale(a, 1 / cb)) if cb else None
        q, r = num.divexact(a, b) if all(c.denominator == 1 for c in list(lift(a).p.values()) + list(lift(b).p.values())) else (None, 1)
        if q is not None and lift(r).const() == 0:
            return num.tofloat(q)
        za, zb_ = num.z3_of(a), num.z3_of(b)
        za = z3.ToReal(za) if z3.is_int(za) else za
        zb_ = z3.ToReal(zb_) if z3.is_int(zb_) else zb_
        return Num(lift(num.of_atom(za / zb_)).p, True)

    def bit_op(self, o, a, b):
        if o == "RShift" and isinstance(a, BitInt) and isnum(b):
            return BitInt(lambda i: a.bit(num.add(i, b)))
        if o == "LShift" and isinstance(a, BitInt) and isnum(b):
            return BitInt(lambda i: band(num.cmp(">=", i, b), a.bit(num.sub(i, b))))
        if isinstance(a, int) and a >= 0: a = bits_of_int(a)
        if isinstance(b, int) and b >= 0: b = bits_of_int(b)
        if o == "LShift" and isinstance(b, Num): pass
        if isinstance(a, BitInt) and isinstance(b, BitInt):
            if o == "BitAnd":
                return BitInt(lambda i: band(a.bit(i), b.bit(i)), a.single if a.single is not None else b.single)
            if o == "BitOr": return BitInt(lambda i: bor(a.bit(i), b.bit(i)))
            if o == "BitXor": return BitInt(lambda i: bxor(a.bit(i), b.bit(i)))
        raise Unsupported("operator %s on a bit string" % o)

    def fold_op(self, o, a, b):
        if isinstance(a, FoldExpr) or isinstance(b, FoldExpr):
            if o in ("Div", "Mult", "Sub", "Add"): return FoldExpr(o, a, b)
            raise Unsupported("operator %s on a fold" % o)
        if o == "Mod" and isinstance(a, Fold) and a.kind in ("sum", "parity") and b == 2:
            if a.kind == "parity": return a
            return Fold("parity", a.segs, num.fmod(a.init, 2) if isnum(a.init) else a.init)
        if o == "Add":
            if isinstance(a, Fold) and isinstance(b, Fold) and a.kind == b.kind == "sum":
                return Fold("sum", a.segs + b.segs, num.add(a.init, b.init))
            if isinstance(b, Fold) and isnum(a): a, b = b, a
            if isinstance(a, Fold) and a.kind in ("sum",) and isnum(b):
                return Fold("sum", a.segs, num.add(a.init, b))
            if isinstance(a, Fold) and a.kind == "parity" and isnum(b):
                return Fold("sum", (Item(a),), b)
        if o == "BitXor" and isinstance(a, Fold) and a.kind == "parity" and isinstance(b, Fold) and b.kind == "parity":
            return Fold("parity", a.segs + b.segs, num.fmod(num.add(a.init, b.init), 2))
        if o == "BitXor":
            if isinstance(b, Fold) and isnum(a): a, b = b, a
            if isinstance(a, Fold) and a.kind == "parity" and isnum(b) and self.is_bit(b):
                return Fold("parity", a.segs + (Item(b),), a.init)
        if o == "Sub" and isinstance(b, Fold) and b.kind == "parity" and isnum(a) and lift(a).const() == 1:
            return Fold("parity", b.segs + (Item(1),), b.init)
        if o == "Div" or o == "Mult" or o == "Sub":
            return FoldExpr(o, a, b)
        raise Unsupported("operator %s on a fold" % o)

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r, fr)
            c = self.compare(type(op).__name__, l, r)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            l = r
        return True

    def compare(self, o, a, b):
        if o in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if o == "Is" else sbool(bnot(r))
        if o in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if o == "In" else sbool(bnot(r))
        if o in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return r if o == "Eq" else sbool(bnot(r))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, SBool): a = ite_num(a, 1, 0)
        if isinstance(b, SBool): b = ite_num(b, 1, 0)
        op = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[o]
        if isinstance(a, Stub): return a.binop(self, o.lower(), b, False)
        if isinstance(b, Stub): return b.binop(self, o.lower(), a, True)
        if isnum(a) and isnum(b):
            return sbool(num.cmp(op, a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and all(isnum(x) for x in a + b) and len(a) == len(b):
            # lexicographic
            strict = op in ("<", ">")
            s = op[0]
            r = not strict
            for x, y in reversed(list(zip(a, b))):
                r = bor(num.cmp(s, x, y), band(num.cmp("==", x, y), r))
            return sbool(r)
        if (a is None or b is None) or (isnum(a) != isnum(b) and not isinstance(a, (Fold, BitInt, Opaque)) and not isinstance(b, (Fold, BitInt, Opaque))):
            raise PyExc(TypeError, ("'%s' not supported" % op,))
        raise Unsupported("comparison of %r and %r" % (type(a).__name__, type(b).__name__))

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("use of a loop temporary")
            return a is b
        if isinstance(a, (bool,)) and isinstance(b, (bool,)): return a is b
        if isinstance(a, Heap) or isinstance(b, Heap) or isinstance(a, (PyClass, TypeObj)) or isinstance(b, (PyClass, TypeObj)):
            return a is b
        if isinstance(a, BRef) and isinstance(b, BRef): return self.equal(a, b)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)): return a == b
        raise Unsupported("'is' on %r" % (type(a).__name__,))

    def equal(self, a, b):
        """bool or SBool"""
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("use of a loop temporary")
        if a is b: return True
        if isinstance(a, bool) and isinstance(b, (SBool,)): return sbool(b.e if a else z3.Not(b.e))
        if isinstance(b, bool) and isinstance(a, (SBool,)): return sbool(a.e if b else z3.Not(a.e))
        if isinstance(a, SBool) and isinstance(b, SBool): return sbool(a.e == b.e)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, SBool): a = ite_num(a, 1, 0)
        if isinstance(b, SBool): b = ite_num(b, 1, 0)
        if isinstance(a, Stub): return a.eq_(self, b)
        if isinstance(b, Stub): return b.eq_(self, a)
        if isnum(a) and isnum(b): return sbool(num.cmp("==", a, b))
        if a is None or b is None: return False
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            if isinstance(a, str) and isinstance(b, str): return a == b
            return self.str_equal(a, b)
        if isinstance(a, (str, Str)) != isinstance(b, (str, Str)):
            if isinstance(a, (Opaque, Fold)) or isinstance(b, (Opaque, Fold)): raise Unsupported("equality")
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = True
            for x, y in zip(a, b):
                r = band(r, zb(self.equal(x, y)))
                if r is False: return False
            return sbool(r) if not isinstance(r, bool) else r
        if isinstance(a, SList) and isinstance(b, SList):
            if is_const_segs(a.segs) and is_const_segs(b.segs):
                return self.equal(tuple(s.v for s in a.segs), tuple(s.v for s in b.segs))
            na, nb = self.count(a.segs), self.count(b.segs)
            if isnum(na) and isnum(nb) and not self.decide(num.cmp("==", na, nb)): return False
            if isnum(na) and lift(na).const() == 0: return True
            raise Unsupported("equality of symbolic lists")
        if isinstance(a, (tuple, SList)) and isinstance(b, (tuple, SList)): return False
        if isinstance(a, SDict) and isinstance(b, SDict):
            if a.ups or b.ups or a.base is not None or b.base is not None: raise Unsupported("equality of symbolic dicts")
            if set(a.d) != set(b.d): return False
            r = True
            for k in a.d: r = band(r, zb(self.equal(a.d[k], b.d[k])))
            return sbool(r) if not isinstance(r, bool) else r
        if isinstance(a, BRef) and isinstance(b, BRef):
            if a.reg is not b.reg: return False
            return sbool(num.cmp("==", a.idx, b.idx))
        if isinstance(a, SObj):
            f = a.cls.lookup("__eq__")
            if f is not MISSING: return self.call(Bound(f, a), [b], {})
            return False
        if isinstance(a, (BitInt, Fold, FoldExpr, Opaque)) or isinstance(b, (BitInt, Fold, FoldExpr, Opaque)):
            if isinstance(a, BitInt) and b == 0: return sbool(bnot(a.truth(self)))
            if isinstance(b, BitInt) and a == 0: return sbool(bnot(b.truth(self)))
            if isinstance(a, Fold) and a.kind == "parity" and b in (0, 1) or isinstance(b, Fold) and b.kind == "parity" and a in (0, 1):
                f = a if isinstance(a, Fold) else b
                c = b if isinstance(a, Fold) else a
                bb = fold_bool(f)
                return sbool(bb if c == 1 else z3.Not(bb))
            raise Unsupported("equality on %r and %r" % (type(a).__name__, type(b).__name__))
        return False

    def str_equal(self, a, b):
        A, B = str_segs(a), str_segs(b)
        if len(A) == len(B) and all(repr(x) == repr(y) for x, y in zip(A, B)): return True
        if a == "" or b == "":
            o = b if a == "" else a
            segs = str_segs(o)
            if any(isinstance(s, Item) and isinstance(s.v, (str, Num, BitCh)) for s in segs): return False
            if all(isinstance(s, (Rep,)) for s in segs):
                n = self.count(explode(segs))
                return sbool(num.cmp("==", n, 0))
        ea, eb = explode(A), explode(B)
        if is_const_segs(ea) and is_const_segs(eb) and all(isinstance(s.v, (str, BitCh)) for s in ea + eb):
            if len(ea) != len(eb): return False
            r = True
            for x, y in zip(ea, eb):
                r = band(r, self.char_eq(x.v, y.v))
            return sbool(r) if not isinstance(r, bool) else r
        r = self.str_eq(list(ea), list(eb))
        return sbool(r) if not isinstance(r, bool) else r

    def str_eq(self, pa, pb):
        """equality of exploded strings (items: single characters, Num, BitCh, StrAtom; Rep/Alt segments)"""
        same = lambda x, y: repr(x) == repr(y)
        while pa and pb and same(pa[0], pb[0]): pa, pb = pa[1:], pb[1:]
        while pa and pb and same(pa[-1], pb[-1]): pa, pb = pa[:-1], pb[:-1]
        if not pa and not pb: return True
        some = lambda s: isinstance(s, Item) and (isinstance(s.v, (str, BitCh)) or isnum(s.v))
        if not pa or not pb:
            o = pa or pb
            if any(some(s) for s in o): return False
            if all(isinstance(s, Rep) for s in o):
                return sbool(num.cmp("==", self.count(tuple(o)), 0))
            raise Unsupported("equality of symbolic strings")

        def chars(s):           # possible characters of a segment that certainly starts and ends with one character of this set
            if isinstance(s, Item):
                if isinstance(s.v, str): return {s.v}
                if isinstance(s.v, BitCh): return {"0", "1"}
                if isnum(s.v) and not lift(s.v).f: return set("0123456789-")
            return None
        for x, y in ((pa[0], pb[0]), (pa[-1], pb[-1])):
            cx, cy = chars(x), chars(y)
            if cx is not None and cy is not None and not (cx & cy): return False
        x, y = pa[0], pb[0]
        ch = lambda s: isinstance(s, Item) and isinstance(s.v, (str, BitCh))
        nm = lambda s: isinstance(s, Item) and isnum(s.v)
        if ch(x) and ch(y):
            c = self.char_eq(x.v, y.v)
            return band(c, zb(self.str_eq(pa[1:], pb[1:])))
        nodig = lambda l: not l or (ch(l[0]) and isinstance(l[0].v, str) and l[0].v not in "0123456789")
        if nm(x) and nm(y) and nodig(pa[1:]) and nodig(pb[1:]):
            return band(num.cmp("==", x.v, y.v), zb(self.str_eq(pa[1:], pb[1:])))
        if nm(y): pa, pb = pb, pa; x, y = y, x
        if nm(x) and ch(y) and isinstance(y.v, str):
            i = 0
            while i < len(pb) and ch(pb[i]) and isinstance(pb[i].v, str) and (pb[i].v in "0123456789" or (i == 0 and pb[i].v == "-")): i += 1
            lit = "".join(s.v for s in pb[:i])
            if nodig(pa[1:]) and nodig(pb[i:]) and lit not in ("", "-"):
                if str(int(lit)) != lit: return False
                return band(num.cmp("==", x.v, int(lit)), zb(self.str_eq(pa[1:], pb[i:])))
        raise Unsupported("equality of symbolic strings")

    def char_eq(self, x, y):
        if isinstance(x, str) and isinstance(y, str): return x == y
        if isinstance(x, BitCh) and isinstance(y, BitCh): return x.e == y.e
        if isinstance(y, BitCh): x, y = y, x
        return x.e if y == "1" else z3.Not(x.e) if y == "0" else False

    def contains(self, cont, x):
        if isinstance(cont, SDict):
            return self.dict_has(cont, x)
        if isinstance(cont, SSet):
            if self.hashable_const(x): return x in cont.items
            r = False
            for y in cont.items: r = bor(r, zb(self.equal(x, y)))
            return sbool(r)
        if isinstance(cont, str) and isinstance(x, str): return x in cont
        if isinstance(cont, (Str, str)):
            raise Unsupported("substring test")
        if isinstance(cont, Stub): return cont.contains(self, x)
        segs = self.iter_segs(cont)
        r = False
        for s in segs:
            r = bor(r, self.seg_has(s, x))
            if r is True: return True
        return sbool(r) if not isinstance(r, bool) else r

    def seg_has(self, s, x):
        if isinstance(s, Item): return zb(self.equal(s.v, x))
        if isinstance(s, Rep):
            s = rename_rep(s)
            b = False
            for gs, ss in s.vars:
                inner = False
                for t in ss: inner = bor(inner, self.seg_has(t, x))
                b = bor(b, band(z3.And(*gs) if gs else True, inner))
            if b is False: return False
            b = zbool(b)
            body = z3.And(s.k >= 0, s.k < num.z3_of(s.N), b)
            if self.infer:
                if not self.possible(body): return False
                for c in self.witnesses(s, x):
                    if self.entails(subst_b(body, [(s.k, c)])): return True
            return z3.Exists([s.k], body)
        if isinstance(s, Alt):
            b = False
            for gs, ss in s.vars:
                inner = False
                for t in ss: inner = bor(inner, self.seg_has(t, x))
                b = bor(b, band(z3.And(*gs) if gs else True, inner))
            return b
        if isinstance(s, MemoSeg): return s.has(x)
        if isinstance(s, Bag): return s.has(self, x)
        if isinstance(s, Opq) and self.infer:
            self.opt.add(s.id)
            return False
        raise Unsupported("membership in loop-carried contents")

    def witnesses(self, s, x):
        """indices at which x may occur among the items of a Rep"""
        out = []
        for gs, ss in s.vars:
            for t in ss:
                if isinstance(t, Item):
                    v = t.v[0] if isinstance(t.v, tuple) and t.v and isinstance(t.v[0], tuple) else t.v
                    for c in solve_linear(v, x, s.k): out.append(c)
        for t in uf_args(x): out.append(t)
        res = []
        for c in out:
            if not any(lift(num.sub(c, d)).const() == 0 for d in res): res.append(c)
        return res

    def e_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_Lambda(self, e, fr):
        defaults = [self.ev(d, fr) for d in e.args.defaults]
        f = PyFunc(e, fr, None, defaults, {}, qual="<lambda>")
        f.modname = getattr(fr.glob, "modname", "?")
        f.is_gen = False
        return f

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_ListComp(self, e, fr): return self.comp(e, fr, lambda f: Item(self.ev(e.elt, f)))
    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, lambda f: Item(self.ev(e.elt, f)))

    def e_SetComp(self, e, fr):
        l = self.comp(e, fr, lambda f: Item(self.ev(e.elt, f)))
        if not is_const_segs(l.segs) or not all(self.hashable_const(s.v) for s in l.segs): raise Unsupported("symbolic set")
        return SSet(dict.fromkeys(s.v for s in l.segs))

    def e_DictComp(self, e, fr):
        l = self.comp(e, fr, lambda f: Item((self.ev(e.key, f), self.ev(e.value, f))))
        r = SDict()
        for s in l.segs:
            if isinstance(s, Item) and self.hashable_const(s.v[0]) and not r.ups: r.d[s.v[0]] = s.v[1]
            elif r.ups or not isinstance(s, Item) or True:
                r.ups = r.ups + (s,)
        return r

    def comp(self, e, fr, leaf):
        acc = SList(())
        cf = Frame(fr.glob, fr)

        def gen(i):
            if i == len(e.generators):
                self.put(acc, "segs", None, acc.segs + (leaf(cf),))
                return
            g = e.generators[i]
            segs = self.iter_segs(self.ev(g.iter, cf if i else fr))

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)): return
                gen(i + 1)
            self.for_segs(segs, body)
        gen(0)
        return acc

    def e_Starred(self, e, fr): raise Unsupported("starred expression")

    def e_Slice(self, e, fr):
        return SliceV(*[None if x is None else self.ev(x, fr) for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, Opaque): return Opaque(o.name + "[]")
        if isinstance(o, (PyClass, TypeObj)): return o
        if isinstance(o, Stub): return o.getitem(self, i)
        if isinstance(o, SDict): return self.dict_get(o, i)
        if isinstance(o, SObj):
            f = o.cls.lookup("__getitem__")
            if f is MISSING: raise PyExc(TypeError, ("not subscriptable",))
            return self.call(Bound(f, o), [i], {})
        if isinstance(o, tuple):
            if isinstance(i, SliceV):
                if all(x is None or isinstance(x, int) for x in i): return o[slice(*i)]
                raise Unsupported("symbolic slice of a tuple")
            if isinstance(i, (int, bool)):
                try: return o[i]
                except IndexError: raise PyExc(IndexError, ("tuple index out of range",))
            j = self.norm_index(i, len(o))
            return self.nth(tuple(Item(x) for x in o), j)
        if isinstance(o, (SList,)):
            if isinstance(i, SliceV): return SList(self.slice_segs(o.segs, i))
            if isinstance(i, int) and not isinstance(i, bool) and is_const_segs(o.segs):
                try: return o.segs[i].v
                except IndexError: raise PyExc(IndexError, ("list index out of range",))
            if isinstance(i, int) and 0 <= i < len(o.segs) and is_const_segs(o.segs[:i + 1]): return o.segs[i].v
            if isinstance(i, int) and i < 0 and -i <= len(o.segs) and is_const_segs(o.segs[i:]): return o.segs[i].v
            return self.nth(o.segs, self.norm_index(i, self.count(o.segs)))
        if isinstance(o, (str, Str)):
            if isinstance(o, str) and (isinstance(i, int) or isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in i)):
                try: return o[slice(*i)] if isinstance(i, SliceV) else o[i]
                except IndexError: raise PyExc(IndexError, ("string index out of range",))
            segs = explode(str_segs(o))
            if isinstance(i, SliceV): return mkstr(self.slice_segs(segs, i))
            return mkstr((Item(self.nth(segs, self.norm_index(i, self.count(segs)))),))
        if o is None or isnum(o): raise PyExc(TypeError, ("not subscriptable",))
        raise Unsupported("subscript of %r" % (type(o).__name__,))

    def setitem(self, o, i, v):
        if isinstance(o, Stub): return o.setitem(self, i, v)
        if isinstance(o, SDict):
            if o.frozen: raise Unsupported("mutation of an element of a symbolic sequence")
            if self.hashable_const(i) and not o.ups and not hasattr(o.base, "fast"):
                self.put(o, "d", i, v)
            else:
                self.put(o, "ups", None, o.ups + (Item((i, v)),))
            return
        if isinstance(o, SList) and is_const_segs(o.segs) and isinstance(i, int):
            try:
                l = list(o.segs); l[i] = Item(v)
            except IndexError:
                raise PyExc(IndexError, ("list assignment index out of range",))
            self.put(o, "segs", None, tuple(l))
            return
        if isinstance(o, SObj):
            f = o.cls.lookup("__setitem__")
            if f is not MISSING:
                self.call(Bound(f, o), [i, v], {}); return
        raise Unsupported("item assignment on %r" % (type(o).__name__,))

    def entries(self, o):
        """the symbolic-key updates of a dict as its entries: only if no two of them have the same key (a repeated key is one entry)"""
        if not o.ups: return ()
        els = []

        def walk(segs, vs, cs, path):
            for n, s in enumerate(segs):
                if isinstance(s, Item): els.append((path + (n,), vs, cs, s.v[0]))
                elif isinstance(s, Rep):
                    for m, (gs, ss) in enumerate(s.vars):
                        walk(ss, vs + ((s.k, s.N),), cs + (s.k >= 0, s.k < num.z3_of(s.N)) + tuple(zbool(zb(g)) for g in gs), path + (n, m))
                elif isinstance(s, Alt):
                    for m, (gs, ss) in enumerate(s.vars): walk(ss, vs, cs + tuple(zbool(zb(g)) for g in gs), path + (n, m))
                else: raise Unsupported("entries of a symbolic dict")
        walk(o.ups, (), (), ())
        for a, (pa, va, ca, ka) in enumerate(els):
            for kk in o.d:
                if self.possible(z3.And(*ca, zbool(self.equal(kk, ka)))): raise Unsupported("dict with possibly repeated symbolic keys")
            pr = [(k, fresh_int("k")) for k, _ in va]
            fa, fk = [zbool(subst_b(c, pr)) for c in ca], subst(ka, pr)
            for b, (pb, vb, cb, kb) in enumerate(els[a:]):
                if b == 0 and not va: continue
                ne = z3.Or(*[k != atom_of(j) for k, j in pr]) if b == 0 else True
                if self.possible(z3.And(*fa, *cb, zbool(ne), zbool(self.equal(fk, kb)))): raise Unsupported("dict with possibly repeated symbolic keys")
        return o.ups

    def dict_has(self, o, k):
        if self.hashable_const(k) and not o.ups and o.base is None:
            return k in o.d
        r = False if o.base is None else zb(o.base.has(self, o, k))
        for kk in o.d:
            r = bor(r, zb(self.equal(kk, k)))
        for u in o.ups:
            for s in ((u,) if isinstance(u, (Opq, MemoSeg)) else map_items((u,), lambda kv: kv[0])):
                r = bor(r, self.seg_has(s, k))
        return sbool(r) if not isinstance(r, bool) else r

    def dict_get(self, o, k):
        if hasattr(o.base, "fast"):
            r = o.base.fast(self, o, k)
            if r is not MISSING: return r
        if self.hashable_const(k) and not o.ups:
            if k in o.d:
                v = o.d[k]
                if isinstance(v, Poison): raise Unsupported(v.why)
                return v
            if o.base is not None: return o.base.get(self, o, k)
            raise PyExc(KeyError, (k,))
        for s in reversed(o.ups):
            if isinstance(s, Item):
                if self.decide(zb(self.equal(s.v[0], k))): return s.v[1]
            elif isinstance(s, MemoSeg):
                if self.decide(zb(s.has(k))): return s.get(k)
            elif isinstance(s, Rep) and self.infer:
                r = self.dict_get_rep2(s, k)
                if r is not MISSING: return r
            elif isinstance(s, Rep):
                return self.dict_get_rep(o, s, k)
            else:
                raise Unsupported("lookup in a symbolic dict")
        for kk, v in o.d.items():
            if self.decide(zb(self.equal(kk, k))): return v
        if o.base is not None: return o.base.get(self, o, k)
        raise PyExc(KeyError, (k,))

    def dict_get_rep2(self, s, k):
        """lookup among the updates {key(j): value(j)} of a loop, MISSING if k is not among them"""
        s = rename_rep(s)
        rng = z3.And(s.k >= 0, s.k < num.z3_of(s.N))
        hits = []
        for gs, ss in s.vars:
            for t in ss:
                if not isinstance(t, Item): raise Unsupported("lookup in a symbolic dict")
                c = band(z3.And(*gs) if gs else True, zb(self.equal(t.v[0], k)))
                if c is False: continue
                c = z3.And(rng, zbool(c))
                if self.possible(c): hits.append((c, t))
        if not hits: return MISSING
        if len(hits) > 1: raise Unsupported("dict with possibly repeated symbolic keys")
        c, t = hits[0]
        for w in self.witnesses(Rep(s.k, s.N, [((), (t,))]), k):
            if self.entails(subst_b(c, [(s.k, w)])):
                if self.possible(z3.And(c, s.k != num.z3_of(w))): raise Unsupported("dict with possibly repeated symbolic keys")
                return subst(t.v[1], [(s.k, w)])
        raise Unsupported("lookup in a symbolic dict")

    def dict_get_rep(self, o, s, k):
        """lookup in {key(j): value(j) for j < N}: only when one variant and the key determines j up to solving one linear equation"""
        if len(o.ups) != 1 or o.d or o.base is not None: raise Unsupported("lookup in a symbolic dict")
        if any(len(ss) != 1 or not isinstance(ss[0], Item) for _, ss in s.vars): raise Unsupported("lookup in a symbolic dict")
        j = fresh_int("j")
        pr = [(s.k, j)]
        conds = []
        vals = []
        for gs, ss in s.vars:
            kk, vv = subst(ss[0].v, pr)
            conds.append(z3.And(*([zbool(g) for g in (subst_b(g, pr) for g in gs)] + [zbool(self.equal(kk, k))])))
            vals.append(vv)
        anyc = z3.And(num.z3_of(j) >= 0, num.z3_of(j) < num.z3_of(s.N), z3.Or(*conds))
        ex = z3.Exists([atom_of(j)], anyc)
        if not self.decide(ex): raise PyExc(KeyError, (k,))
        # the last such j wins; keys must be injective for a unique answer
        j2 = atom_of(fresh_int("j"))
        two = z3.And(anyc, z3.substitute(anyc, (atom_of(j), j2)), j2 != atom_of(j))
        if self.possible(two): raise Unsupported("dict with possibly repeated symbolic keys")
        self.pc.append(anyc)
        for c, v in zip(conds[:-1], vals[:-1]):
            if self.decide(c): return v
        return vals[-1]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, Poison): raise Unsupported(o.why)
        if isinstance(o, Module): return self.mod_attr(o, n)
        if isinstance(o, Opaque): return Opaque(o.name + "." + n)
        if isinstance(o, SObj):
            c = o.cls.lookup(n)
            if isinstance(c, Prop): return self.call(Bound(c.f, o), [], {})
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison): raise Unsupported(v.why)
                return v
            if c is not MISSING: return self.bind(c, o)
            if n == "__class__": return o.cls
            if n == "__dict__": raise Unsupported("__dict__")
            f = o.cls.lookup("__getattr__")
            if f is not MISSING: return self.call(Bound(f, o), [n], {})
            raise PyExc(AttributeError, ("'%s' object has no attribute '%s'" % (o.cls.name, n),))
        if isinstance(o, PyClass):
            if n == "__name__": return o.name
            c = o.lookup(n)
            if c is MISSING: raise PyExc(AttributeError, (n,))
            if isinstance(c, PyFunc) and c.kind == "classmethod": return Bound(c, o)
            if isinstance(c, Poison): raise Unsupported(c.why)
            return c
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, SObj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if n in c.ns:
                    v = c.ns[n]
                    if isinstance(v, Prop): return self.call(Bound(v.f, o.obj), [], {})
                    return self.bind(v, o.obj)
            if n == "__init__":
                return Builtin("object.__init__", lambda I, a, k: None)
            raise PyExc(AttributeError, (n,))
        if isinstance(o, Stub): return o.getattr_(self, n)
        m = self.builtins["$methods"](o, n)
        if m is not None: return m
        if isinstance(o, PyFunc) and n == "__name__": return o.name
        if o is None or isnum(o) or isinstance(o, (str, Str, tuple, SList, SDict, SSet)):
            raise PyExc(AttributeError, ("%s has no attribute %s" % (type(o).__name__, n),)) if o is None or isnum(o) else Unsupported("method %s of %s" % (n, type(o).__name__))
        raise Unsupported("attribute %s of %r" % (n, type(o).__name__))

    def bind(self, c, o):
        if isinstance(c, Poison): raise Unsupported(c.why)
        if isinstance(c, PyFunc):
            if c.kind == "staticmethod": return c
            if c.kind == "classmethod": return Bound(c, o.cls)
            return Bound(c, o)
        if isinstance(c, Prop): return self.call(Bound(c.f, o), [], {})
        return c

    def setattr(self, o, n, v):
        if isinstance(o, SObj):
            c = o.cls.lookup(n)
            if isinstance(c, Prop): raise PyExc(AttributeError, ("can't set attribute",))
            self.put(o, "attrs", n, v)
        elif isinstance(o, Stub):
            o.setattr_(self, n, v)
        else:
            raise Unsupported("attribute assignment on %r" % (type(o).__name__,))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.owner is None): f = f.parent
            if f is None: raise Unsupported("super()")
            return SuperV(f.func.owner, f.vars[f.func.node.args.args[0].arg])
        fn = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.ev(a.value, fr))
                if not is_const_segs(segs): raise Unsupported("*args of symbolic length")
                args += [s.v for s in segs]
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, SDict) or d.ups or d.base is not None: raise Unsupported("**kwargs")
                kw.update(d.d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, Poison): raise Unsupported(fn.why)
        if isinstance(fn, Bound):
            return self.call(fn.f, [fn.self_] + list(args), kw)
        if isinstance(fn, PyFunc):
            return self.call_py(fn, args, kw)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), dict(kw))
        if isinstance(fn, PyClass):
            return self.construct(fn, args, kw)
        if isinstance(fn, TypeObj):
            if fn.ctor is None: raise Unsupported("constructor of %s" % fn.name)
            return fn.ctor(self, list(args), dict(kw))
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return ExcVal(fn, tuple(args))
        if isinstance(fn, Stub): return fn.call_(self, args, kw)
        if isinstance(fn, SObj):
            f = fn.cls.lookup("__call__")
            if f is not MISSING: return self.call(Bound(f, fn), args, kw)
        if isinstance(fn, Opaque): raise Unsupported("call of external %s" % fn.name)
        if fn is None or isnum(fn) or isinstance(fn, (str, tuple)): raise PyExc(TypeError, ("not callable",))
        raise Unsupported("call of %r" % (fn,))

    def construct(self, cls, args, kw):
        for c in cls.mro:
            for v in c.ns.values(): pass
        ab = [n for n in {k for c in cls.mro for k in c.ns} if is_abstract(cls.lookup(n))]
        if ab: raise PyExc(TypeError, ("abstract class %s: %s" % (cls.name, sorted(ab)),))
        o = SObj(cls)
        if cls.exc:
            o.attrs["args"] = tuple(args)
        f = cls.lookup("__init__")
        if f is not MISSING:
            self.call(Bound(f, o), args, kw)
        elif (args or kw) and not cls.exc:
            raise PyExc(TypeError, ("%s() takes no arguments" % cls.name,))
        return o

    def call_py(self, f, args, kw):
        h = self.contracts.get(f.qual)
        if h is not None:
            return h(self, f, list(args), dict(kw))
        if getattr(f, "is_gen", False): raise Unsupported("generator function %s" % f.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion")
        self.func_log.add("%s:%s" % (getattr(f, "modname", "?"), f.qual))
        fr = Frame(f.frame.glob, f.frame if f.frame is not f.frame.glob else None, f)
        self.bind_args(f, args, kw, fr)
        d = self.depth
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except RetSig as r:
                return r.v
            return None
        finally:
            self.depth = d - 1

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args); kw = dict(kw)
        vals = {}
        if len(args) > len(names):
            if a.vararg is None: raise PyExc(TypeError, ("%s() takes %d positional arguments" % (f.name, len(names)),))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args): vals[n] = v
        for n in names[len(args):]:
            if n in kw: vals[n] = kw.pop(n)
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            if n not in vals: vals[n] = d
        for p in a.kwonlyargs:
            if p.arg in kw: vals[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults: vals[p.arg] = f.kwdefaults[p.arg]
        miss = [n for n in names + [p.arg for p in a.kwonlyargs] if n not in vals]
        if miss: raise PyExc(TypeError, ("%s() missing argument %s" % (f.name, miss[0]),))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = SDict(kw)
        elif kw:
            raise PyExc(TypeError, ("%s() got an unexpected keyword argument %s" % (f.name, sorted(kw)[0]),))
        fr.vars.update(vals)


def ghosts(gs):
    """the guards that mention a memoised lookup"""
    out = []
    for g in gs:
        if any(z3.is_app(t) and t.decl().name().startswith("memo!") for t in solve.walk([g])): out.append(g)
    return out


def memo_template(apps):
    """F with value = F(key) for every entry written; None if the value is not a function of the key"""
    F = None
    for app in apps:
        for s in app:
            if isinstance(s, MemoSeg): f = s.F
            elif isinstance(s, Item):
                f = memo_fn(*s.v)
                if f is None: return None
            else: return None
            if F is not None and repr(F) != repr(f): return None
            F = f
    return F


KAPPA = z3.Int("memo_key")


def memo_fn(key, val):
    l = lift(key) if isnum(key) else None
    if l is None or len(l.p) != 1: return None
    (m, c), = l.p.items()
    if c != 1 or len(m) != 1: return None
    f = subst(val, [(num._atoms[m[0]], kn(KAPPA))])
    if set(consts_of(f)) - {KAPPA.get_id()}: return None
    return f


def memo_ok(s, F, I):
    if isinstance(s, MemoSeg): return repr(s.F) == repr(F)
    if isinstance(s, Item):
        f = memo_fn(*s.v)
        return f is not None and repr(f) == repr(F)
    if isinstance(s, Opq) and I.infer:
        I.opt.add(s.id)
        return True
    return False


def solve_linear(f, x, k):
    """solutions for k of one component equation f = x, f linear in k with a constant coefficient"""
    out = []
    if isinstance(f, tuple) and isinstance(x, tuple) and len(f) == len(x):
        for a, b in zip(f, x): out += solve_linear(a, b, k)
        return out
    if isnum(f) and isnum(x):
        f = lift(f)
        kid = num.atom_id(k)
        co = f.p.get((kid,))
        if co is not None and not any(kid in m and m != (kid,) for m in f.p):
            d = num.scale(num.sub(x, Num({m: v for m, v in f.p.items() if m != (kid,)})), 1 / co)
            d = lift(d)
            if all(c.denominator == 1 for c in d.p.values()): out.append(num.lower(Num(d.p)))
    return out


def uf_args(x):
    """arguments of the uninterpreted functions occurring in a value, and its constants"""
    out = []
    stack = [x]
    while stack:
        v = stack.pop()
        if isinstance(v, (tuple, list)): stack.extend(v)
        elif isinstance(v, Num):
            for a in v.atoms():
                for t in solve.walk([num._atoms[a]]):
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and z3.is_int(t.arg(0)):
                        out.append(num.of_z3(t.arg(0)))
                    elif z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(num.of_atom(t))
    return out


def one_char(c):
    if not isinstance(c, (str, BitCh, FoldCh)): raise Unsupported("characters of a symbolic string")


def is_abstract(v):
    f = v.f if isinstance(v, Prop) else v
    return isinstance(f, PyFunc) and getattr(f, "abstract", False)


def walk_own(st):
    """nodes of a function body, not of nested functions"""
    stack = list(st.body) if isinstance(st.body, list) else [st.body]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


class SliceV(tuple):
    def __new__(cls, a, b, c): return tuple.__new__(cls, (a, b, c))


class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class ExcVal:
    def __init__(self, cls, args): self.cls, self.args = cls, args


class FoldExpr:
    """arithmetic over folds (kept symbolically, compared structurally)"""

    def __init__(self, op, a, b): self.op, self.a, self.b = op, a, b
    def subst(self, pairs): return FoldExpr(self.op, subst(self.a, pairs), subst(self.b, pairs))
    def __repr__(self): return "(%r %s %r)" % (self.a, self.op, self.b)


class FoldCh:
    def __init__(self, f): self.f = f
    def subst(self, pairs): return FoldCh(self.f.subst(pairs))


def fold_bool(f):
    raise Unsupported("truth of a parity fold")


def fold_more(cur, kind, segs):
    if cur.kind != kind: raise Unsupported("mixed folds")
    return Fold(kind, cur.segs + segs, cur.init)


def fold_positive(f):
    """exists an element with a positive count"""
    if f.kind != "sum": raise Unsupported("truth of a fold")
    c = lift(f.init).const()
    if c is None or c > 0:
        if c is not None: return True
        raise Unsupported("length of a symbolic sequence")
    r = False
    for s in f.segs:
        if not isinstance(s, Rep): raise Unsupported("length")
        s = rename_rep(s)
        b = False
        for gs, ss in s.vars:
            if any(lift(t.v).const() != 0 for t in ss):
                b = bor(b, z3.And(*gs) if gs else True)
        r = bor(r, z3.Exists([s.k], z3.And(s.k >= 0, s.k < num.z3_of(s.N), zbool(b))) if b is not False else False)
    return r


def merge_vars(vs):
    """drop duplicate guard sets; a single variant loses its guards"""
    if len(vs) == 1:
        return [((), vs[0][1])]
    # all variants textually equal: one variant
    rs = {repr(ss) for _, ss in vs}
    if len(rs) == 1:
        return [((), vs[0][1])]
    return vs


def reverse_outer(rep):
    """Rep in which iteration order is reversed but each iteration's own items keep their order"""
    k2 = fresh_int("k")
    pr = [(rep.k, num.sub(num.sub(rep.N, 1), k2))]
    return (Rep(atom_of(k2), rep.N, [(tuple(subst_b(g, pr) for g in gs), subst_segs(ss, pr)) for gs, ss in rep.vars]),)


def num_delta(after, hc):
    """e with after = h + e, e not mentioning h; None otherwise"""
    if isinstance(after, Fold):
        if after.kind == "sum" and isnum(after.init):
            e = num_delta(after.init, hc)
            if e is not None and hc.get_id() not in consts_of(after.segs):
                return Fold("sum", after.segs, e)
        return None
    if not isnum(after): return None
    e = num.sub(after, num.of_atom(hc))
    if hc.get_id() in consts_of(e): return None
    return e


def is_toggle(after, hc):
    """after = 1 - h"""
    return isinstance(after, Num) and lift(num.sub(num.add(after, num.of_atom(hc)), 1)).const() == 0


def parity_delta(after, hc):
    """e with after = (h + e) mod 2"""
    if isinstance(after, Fold):
        if after.kind == "parity" and isnum(after.init):
            e = parity_delta(after.init, hc)
            if e is None and isinstance(after.init, Num) and after.init.key() == lift(num.of_atom(hc)).key(): e = 0
            if e is not None and hc.get_id() not in consts_of(after.segs):
                return Fold("sum", after.segs, e)
        return None
    if not isinstance(after, Num): return None
    if after.key() == lift(num.of_atom(hc)).key(): return 0
    z = num.z3_of(after)
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(z.arg(1)) and z.arg(1).as_long() == 2:
        X = num.of_z3(z.arg(0))
        e = num.sub(X, num.of_atom(hc))
        if hc.get_id() not in consts_of(e): return e
    return None


def consts_of_guards(gs):
    out = []
    for g in gs:
        out += list(z3_consts(g).values())
    return out


_zc = {}


def z3_consts(e):
    i = e.get_id()
    if i in _zc: return _zc[i][1]
    r = {}
    for x in solve.walk([e]):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r[x.get_id()] = x
        if z3.is_quantifier(x):
            for y in solve.walk([x.body()]):
                if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: r[y.get_id()] = y
    _zc[i] = (e, r)
    return r


def consts_of(v, seen=None):
    """ids of the z3 constants a value depends on"""
    out = {}
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, Num):
            for a in x.atoms(): out.update(z3_consts(num._atoms[a]))
        elif isinstance(x, SBool): out.update(z3_consts(x.e))
        elif isinstance(x, BitCh): out.update(z3_consts(x.e) if not isinstance(x.e, bool) else {})
        elif isinstance(x, (tuple, list)): stack.extend(x)
        elif isinstance(x, Item): stack.append(x.v)
        elif isinstance(x, Rep):
            stack.append(x.N)
            for gs, ss in x.vars:
                for g in gs: out.update(z3_consts(g) if not isinstance(g, bool) else {})
                stack.extend(ss)
        elif isinstance(x, Alt):
            for gs, ss in x.vars:
                for g in gs: out.update(z3_consts(g) if not isinstance(g, bool) else {})
                stack.extend(ss)
        elif isinstance(x, Str): stack.extend(x.segs)
        elif isinstance(x, SList): stack.extend(x.segs)
        elif isinstance(x, SDict):
            if id(x) not in seen:
                seen.add(id(x))
                stack.extend(x.d.values()); stack.extend(x.ups)
                if x.base is not None: stack.append(x.base)
        elif isinstance(x, Fold): stack.extend(x.segs); stack.append(x.init)
        elif isinstance(x, FoldExpr): stack += [x.a, x.b]
        elif isinstance(x, FoldCh): stack.append(x.f)
        elif isinstance(x, Ev): stack.extend(x.qs); stack.extend(x.cs); stack.append(x.cond)
        elif isinstance(x, BRef): stack.append(x.idx); 
        elif isinstance(x, BitInt):
            t = fresh_int("bi")
            e = x.bit(t)
            if not isinstance(e, bool): out.update(z3_consts(e))
        elif isinstance(x, SObj):
            if id(x) not in seen:
                seen.add(id(x))
                stack.extend(x.attrs.values())
        elif hasattr(x, "children_"): stack.extend(x.children_())
        elif z3.is_expr(x): out.update(z3_consts(x))
    return out


def opqs_of(v):
    out = set()
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, Opq): out.add(x.id)
        elif isinstance(x, (tuple, list)): stack.extend(x)
        elif isinstance(x, Item): stack.append(x.v)
        elif isinstance(x, (Rep, Alt)):
            for gs, ss in x.vars: stack.extend(ss)
        elif isinstance(x, (Str,)): stack.extend(x.segs)
        elif isinstance(x, SList):
            if id(x) not in seen: seen.add(id(x)); stack.extend(x.segs)
        elif isinstance(x, SDict):
            if id(x) not in seen: seen.add(id(x)); stack.extend(x.d.values()); stack.extend(x.ups)
        elif isinstance(x, SObj):
            if id(x) not in seen: seen.add(id(x)); stack.extend(x.attrs.values())
        elif isinstance(x, Fold): stack.extend(x.segs)
    return out


def consts_now_symbolic(c):
    return not isinstance(c, bool)


def trip_count(c, kc):
    """number of iterations of `while c(k)` with c of the form lin(k) > 0 etc., decreasing in k"""
    if z3.is_not(c):
        inner = c.arg(0)
        neg = {z3.Z3_OP_LE: ">", z3.Z3_OP_LT: ">=", z3.Z3_OP_GE: "<", z3.Z3_OP_GT: "<="}
        kd = inner.decl().kind()
        if kd not in neg: return None
        op, l, r = neg[kd], inner.arg(0), inner.arg(1)
    else:
        kinds = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">"}
        kd = c.decl().kind()
        if kd not in kinds: return None
        op, l, r = kinds[kd], c.arg(0), c.arg(1)
    d = num.sub(num.of_z3(r), num.of_z3(l)) if op in ("<", "<=") else num.sub(num.of_z3(l), num.of_z3(r))
    # condition: d > 0 (strict) or d >= 0
    if op in ("<=", ">="): d = num.add(d, 1)
    d = lift(d)
    kid = num.atom_id(kc)
    co = d.p.get((kid,), 0)
    rest = {m: v for m, v in d.p.items() if m != (kid,)}
    if any(kid in m for m in rest) or co >= 0 or co.denominator != 1: return None
    st = int(-co)
    rest = num.lower(Num(rest))
    if st == 1: return rest
    return num.fdiv(num.add(rest, st - 1), st)


# ---------------------------------------------------------------- snapshots
def snapshot(v, omark, memo=None):
    """copy of a value in which objects created since omark are detached from later undo"""
    memo = {} if memo is None else memo
    if isinstance(v, tuple) and not isinstance(v, SliceV):
        return tuple(snapshot(x, omark, memo) for x in v)
    if isinstance(v, Heap):
        if v.oid < omark or isinstance(v, Frame): return v
        if id(v) in memo: return memo[id(v)]
        if isinstance(v, SList):
            r = SList(())
            memo[id(v)] = r
            r.segs = snapshot_segs(v.segs, omark, memo)
            r.frozen = v.frozen
            return r
        if isinstance(v, SDict):
            r = SDict()
            memo[id(v)] = r
            r.d = {k: snapshot(x, omark, memo) for k, x in v.d.items()}
            r.ups = snapshot_segs(v.ups, omark, memo)
            r.base = v.base
            return r
        if isinstance(v, SObj):
            r = SObj(v.cls)
            memo[id(v)] = r
            r.attrs = {k: snapshot(x, omark, memo) for k, x in v.attrs.items()}
            return r
        if hasattr(v, "snapshot_"):
            return v.snapshot_(omark, memo, snapshot, snapshot_segs)
    if isinstance(v, Ev):
        return v
    return v


def snapshot_segs(segs, omark, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(segs, tuple): return snapshot(segs, omark, memo)
    out = []
    for s in segs:
        if isinstance(s, Item): out.append(Item(snapshot(s.v, omark, memo)))
        elif isinstance(s, Rep): out.append(Rep(s.k, s.N, [(g, snapshot_segs(ss, omark, memo)) for g, ss in s.vars]))
        elif isinstance(s, Alt): out.append(Alt([(g, snapshot_segs(ss, omark, memo)) for g, ss in s.vars]))
        else: out.append(s)
    return tuple(out)
