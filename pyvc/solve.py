"""Queries: hypotheses |- goal, with axioms for DIV/MOD and product lemmas added for the terms that occur."""
import time, subprocess, tempfile, os
import z3
import num
from num import DIV, MOD

STATS = {"queries": 0, "time": 0.0, "by": {}}
BOUNDS = []          # known upper bounds N of index variables (Num), used to instantiate DIV bound lemmas
TIMEOUT = 4000


def add_bound(N):
    if isinstance(N, int) or any(num.lift(num.sub(N, x)).const() == 0 for x in BOUNDS):
        return
    BOUNDS.append(N)

_cache = {}


def walk(exprs):
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        if z3.is_app(e):
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            pass


HOOKS = []           # functions (uninterpreted applications in a query as (id, term, name), done) -> instances of assumptions
_uf = {}


def ufs(exprs):
    """the distinct uninterpreted applications occurring in exprs: (id, term, name)"""
    out = {}
    for e in exprs:
        i = e.get_id()
        c = _uf.get(i)
        if c is None:
            if len(_uf) > 200000: _uf.clear()
            c = (e, [(t.get_id(), t, t.decl().name()) for t in walk([e]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()])
            _uf[i] = c
        for x in c[1]: out[x[0]] = x
    return list(out.values())


def axioms(exprs):
    """defining axioms of every symbolic DIV/MOD in exprs (closed under the axioms' own terms)"""
    out = []
    done = set()
    todo = list(exprs)
    for _ in range(4):
        new = []
        for _, e, nm in ufs(todo):
            if e.decl().eq(DIV) or e.decl().eq(MOD):
                n, m = e.arg(0), e.arg(1)
                key = (n.get_id(), m.get_id())
                if key in done:
                    continue
                done.add(key)
                q, r = DIV(n, m), MOD(n, m)
                new.append(z3.Implies(m > 0, z3.And(n == m * q + r, r >= 0, r < m)))
                new.append(z3.Implies(z3.And(m > 0, n >= 0), q >= 0))
                new.append(z3.Implies(z3.And(m > 0, n >= 0, n < m), z3.And(q == 0, r == n)))
                new.append(z3.Implies(z3.And(m > 0, q > 0), n >= m))
                mm = num.of_z3(m)
                seenM = set()
                for N in BOUNDS:
                    if isinstance(N, int) and N == 0:
                        continue
                    M, R = num.divexact(N, mm)
                    if num.lift(R).const() != 0:
                        continue
                    k = num.lift(M).key()
                    if k in seenM:
                        continue
                    seenM.add(k)
                    Mz, Nz = num.z3_of(M), num.z3_of(N)
                    new.append(z3.Implies(z3.And(m > 0, n < Nz), q < Mz))
                    new.append(z3.Implies(z3.And(m > 0, n >= Nz), q >= Mz))
                # the sign of the product q*m
                new.append(z3.Implies(z3.And(m > 0, q >= 1), m * q >= m))
                new.append(z3.Implies(z3.And(m > 0, q <= -1), m * q <= -m))
        if HOOKS:
            us = ufs(exprs + out + new)
            for h in HOOKS: new += h(us, done)
        if not new:
            break
        out += new
        todo = new
    return out


def solve(hyps, timeout=None, want_model=False, seed=0):
    """satisfiability of the conjunction (with axioms). returns 'sat'/'unsat'/'unknown', model"""
    hyps = [h for h in hyps if not (isinstance(h, bool) and h)]
    if any(isinstance(h, bool) and not h for h in hyps):
        return "unsat", None
    key = tuple(sorted(h.get_id() for h in hyps)) + (len(BOUNDS),)
    if not want_model and key in _cache:
        return _cache[key][0], None
    t0 = time.time()
    ax = axioms(hyps)
    r, m = _z3(hyps + ax, timeout or TIMEOUT, seed)
    if r == "unknown":
        r2, m2 = _z3(hyps + ax, timeout or TIMEOUT, seed + 7, arith=True)
        if r2 != "unknown":
            r, m = r2, m2
    by = "z3"
    if r == "unknown" and (timeout or TIMEOUT) >= 3000:
        r2 = _cvc5(hyps + ax, 10)
        if r2 == "unsat":
            r, by = "unsat", "cvc5"
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    STATS["by"][by] = STATS["by"].get(by, 0) + 1
    _cache[key] = (r, hyps)
    return r, m


def _z3(hyps, timeout, seed, arith=False):
    if arith:
        s = z3.SolverFor("QF_UFNIA")
    else:
        s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", seed)
    s.add(*hyps)
    r = s.check()
    if r == z3.sat:
        return "sat", s.model()
    return ("unsat" if r == z3.unsat else "unknown"), None


def _cvc5(hyps, secs):
    s = z3.Solver()
    s.add(*hyps)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write(txt); f.close()
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=secs + 5)
        w = o.stdout.split()
        return w[0] if w and w[0] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)
