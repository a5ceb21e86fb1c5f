"""C18-C21: guarantees of the system as a whole, composed from the contracts of its parts."""
import z3
import num, solve
from num import Num, lift
from values import *
from interp import *
from spec import *
import c_lattice
from c_lattice import *
from c_decode import lean


def parts(P, fs):
    for nm, f in fs:
        P.part = nm
        f(P)
    P.part = None


# ------------------------------------------------------------------ C18
def c18(P):
    """code distance: the measured checks are the specified ones (as in C01), so are the logical operators (as in C02) and their readout
    (as in C04); then rows (columns) of checks carry the parity of an undetected logical error from one row (column) of qubits to the next"""
    P.compose = True
    parts(P, [("stabilize", c_lattice.c03), ("commute", lambda P: c_lattice.commute_lemma(P) if P.mine() else None),
              ("logical", lambda P: c_lattice.logical_ops(P, ("x", "z"))), ("lemmas", lambda P: c_lattice.logical_lemma(P) if P.mine() else None),
              ("readout", lambda P: c_lattice.readouts(P, kinds=(False,), lattice=False))])
    for sz in sizes():
        for L in "ZX":
            if not P.mine("rows", str(sz), L): continue
            row_lemma(P, sz, L)
    if P.mine("lean"): lean(P, "C18.lean", ["C18.step", "C18.distance"])


def wf(kind, h, w, R, c):
    """(R, c) is a check of the specified lattice: rows R-1, R and columns c, c+1"""
    if kind == "mx": return z3.And(R >= 0, R <= h, c >= 0, c <= w - 2, (R + c) % 2 == 0)
    return z3.And(R >= 1, R <= h - 1, c >= -1, c <= w - 1, (R - 1 + c) % 2 == 0)


def row_lemma(P, sz, L):
    """checks of one type between two neighbouring rows (type Z; columns for X) partition the qubits of these two, with the logical
    operator's own factors; each of them is one of the lattice's checks"""
    z = num.z3_of
    kind = "mz" if L == "Z" else "mx"
    h, w = z(sz.h), z(sz.w)
    r0, c0, j, l = z3.Ints("r0 c0 j l")              # a qubit; the strip between row (column) j and j+1
    inside = [r0 >= 0, r0 < h, c0 >= 0, c0 < w]
    I = new_interp(sz)
    nm = "lemma %s logical %s" % (sz, L)
    if L == "Z":
        n, strip, mine = h, [j >= 0, j + 1 < h], z3.Or(r0 == j, r0 == j + 1)
        own = z3.If((j + c0) % 2 == 0, c0, c0 - 1)
        R, c = j + 1, own
        Rl, cl = j + 1, l
    else:
        n, strip, mine = w, [j >= 0, j + 1 < w], z3.Or(c0 == j, c0 == j + 1)
        own = z3.If((r0 + j) % 2 == 0, r0, r0 + 1)
        R, c = own, j
        Rl, cl = l, j

    def owner():
        for g in inside + strip + [mine]: I.assume(g)
        if not I.possible(z3.BoolVal(True)): return
        P.prove(I, "the qubit belongs to a check of the strip", wf(kind, h, w, R, c))
        P.prove(I, "as one of its corners", z3.And(z3.Or(r0 == R - 1, r0 == R), z3.Or(c0 == c, c0 == c + 1)))
        for code in ("XXZZ", "XZZX"):
            for pos in ("TL", "TR", "BL", "BR"):
                at = z3.And(r0 == R - (1 if pos[0] == "T" else 0), c0 == c + (1 if pos[1] == "R" else 0))
                pk = pauli_of(code, kind, pos)
                odd = (r0 + c0) % 2 == 1
                P.prove(I, "%s: the check has the logical operator's factor there (%s)" % (code, pos),
                        z3.Implies(at, z3.If(odd, z3.BoolVal(logical_pauli(code, L, 1) == pk), z3.BoolVal(logical_pauli(code, L, 0) == pk))))
    P.run(I, nm + ": every qubit of a strip lies in a check of the strip", "spec", owner)

    def unique():
        for g in inside + strip + [mine, wf(kind, h, w, Rl, cl), z3.Or(r0 == Rl - 1, r0 == Rl), z3.Or(c0 == cl, c0 == cl + 1)]: I.assume(g)
        if not I.possible(z3.BoolVal(True)): return
        P.prove(I, "in no other one", own == l)
    P.run(I, nm + ": in exactly one", "spec", unique)

    def stays():
        for g in inside + strip + [wf(kind, h, w, Rl, cl), z3.Or(r0 == Rl - 1, r0 == Rl), z3.Or(c0 == cl, c0 == cl + 1)]: I.assume(g)
        if not I.possible(z3.BoolVal(True)): return
        P.prove(I, "a check of the strip has no qubit outside the strip", mine)
    P.run(I, nm + ": strips are closed", "spec", stays)

    def listed():
        I.assume(wf(kind, h, w, Rl, cl))
        for g in strip: I.assume(g)
        if not I.possible(z3.BoolVal(True)): return
        alts = []
        for k, cn, hy, K, corners, (RR, CC) in plaquettes(sz):
            if k != kind: continue
            # the case's own row and column numbers r, o, from the check's position
            sub = [(z3.Int("r"), (Rl - (1 if k == "mz" else 0)) / 2), (z3.Int("o"), (cl + (1 if k == "mz" else 0)) / 2)]
            body = z3.And(*([zbool(x) for x in hy] + [z(RR) == Rl, z(CC) == cl]))
            alts.append(z3.substitute(body, *sub))
        P.prove(I, "every check of a strip is a check of the lattice", z3.Or(*alts) if alts else z3.BoolVal(False))
    P.run(I, nm + ": every check of a strip is measured", "spec", listed)


# ------------------------------------------------------------------ C19
def c19(P):
    """a memory experiment: preparation (C05), rounds of stabilize (C03) with logical operators in between (C02), readout (C04) into a string,
    which the decoder parses (C06, C07) and corrects (C09 over the graph of C08)"""
    import c_readout, c_decode, c_graph
    P.compose = True
    P.trusted += ["qiskit's counts: one chunk per classical register, last register first, last bit of each first",
                  "quantum mechanics of Pauli faults: a Pauli error changes the outcome of a Pauli measurement iff the two anticommute (applied to the operators the obligations identify)"]
    if P.mine("lean"): lean(P, "C19.lean", ["C19.changes", "C19.logical", "C19.fewer"])
    for sz in sizes():
        if P.mine("factors", str(sz)): factor_lemma(P, sz)
    parts(P, [("logical", lambda P: c_lattice.logical_ops(P, ("x", "z"))), ("lemmas", lambda P: c_lattice.logical_lemma(P) if P.mine() else None),
              ("commute", lambda P: c_lattice.commute_lemma(P) if P.mine() else None), ("stabilize", c_lattice.c03),
              ("readout", lambda P: c_lattice.readouts(P, kinds=(False,))), ("reset", c_lattice.c05),
              ("parse", c_readout.c06), ("extract", c_readout.c07), ("graph", c_graph.c08), ("correct", c_decode.c09)])
    P.trusted[:] = [t for t in P.trusted if not t.startswith("callee contract")]


def factor_lemma(P, sz):
    """all checks of one type, the logical operator of that type and the lattice readout of that type have the same factor on any one data
    qubit, so an error on it changes either all of these that contain the qubit or none"""
    z = num.z3_of
    for code in ("XXZZ", "XZZX"):
        for L, kind in (("Z", "mz"), ("X", "mx")):
            for k, nm, hy, K, corners, _ in plaquettes(sz):
                if k != kind: continue
                I = new_interp(sz)

                def thunk():
                    for g in hy: I.assume(g)
                    for pos, (rr, cc) in corners.items():
                        odd = (z(rr) + z(cc)) % 2 == 1
                        pk = pauli_of(code, kind, pos)
                        P.prove(I, "factor at %s" % pos, z3.If(odd, z3.BoolVal(logical_pauli(code, L, 1) == pk), z3.BoolVal(logical_pauli(code, L, 0) == pk)))
                        P.prove(I, "and of the lattice readout at %s" % pos, z3.If(odd, z3.BoolVal(readout_factor(code, L, 1) == pk), z3.BoolVal(readout_factor(code, L, 0) == pk)))
                P.run(I, "lemma %s %s: %s check, %s" % (code, sz, kind, nm), "spec", thunk)


def readout_factor(code, L, par):
    return L if code != "XZZX" else ("X" if par == (1 if L == "X" else 0) else "Z")


# ------------------------------------------------------------------ C20
def c20(P):
    P.trusted += ["qiskit: gates are appended in program order; id(register) is one identity gate on each of its qubits"]
    for code, sz in all_codes():
        if not P.mine(code, str(sz)): continue
        P.size = (sz.h, sz.w)
        I = new_interp(sz)

        def thunk():
            q, circ, cnt = mk_qubit(I, code, sz)
            data, mx, mz, anc = regs_of(I, q)
            lat = I.getattr(q, "lattice")
            for meth, marked in (("id", [data, mx, mz, anc]), ("id_data", [data])):
                def run1():
                    I.put(circ, "trace", None, ())
                    before, regs0 = dict(lat.attrs["params"].d), circ.regs
                    I.call(I.getattr(q, meth), [], {})
                    tr = circ.trace
                    P.prove(I, "identity gates only", all(noop(e) and e.cond is None for e in walk_events(tr)), detail="%s; " % [e for e in walk_events(tr) if not noop(e)][:3])
                    P.prove(I, "adds no register", circ.regs == regs0)
                    frame_params(P, I, lat, before)
                    ids = [s for s in tr if not (isinstance(s, Item) and s.v.op == "barrier")]
                    own = [r for r in (data, mx, mz, anc) if r is not None]
                    P.prove(I, "marks qubits of the lattice only", all(any(q_.reg is r for r in own) for e in walk_events(ids) if e.op == "id" for q_ in e.qs))
                    for nm, reg in (("data", data), ("X syndrome", mx), ("Z syndrome", mz), ("readout", anc)):
                        if reg is None: continue
                        n = reg.size
                        k = num.var("marked")

                        def at():
                            I.assume(num.cmp(">=", k, 0)); I.assume(num.cmp("<", k, n))
                            ents = [e for _, e in gather(I, ids, reg, k)]
                            if any(isinstance(e, Loop) for e in ents): raise Unsupported("a qubit marked in every iteration")
                            c = sum(1 for e in ents if e.op == "id")
                            want = 1 if any(reg is r for r in marked) else 0
                            if want and reg is anc: P.prove(I, "the readout qubit is marked at most once", c <= 1, detail="%d times; " % c)
                            else: P.prove(I, "each %s qubit is marked %s" % (nm, "once" if want else "not at all"), c == want, detail="%d times; " % c)
                        P.run(I, "%s %s %s" % (code, sz, meth), "TopologicalQubit." + meth, at)
                P.run(I, "%s %s %s" % (code, sz, meth), "TopologicalQubit." + meth, run1)
        P.run(I, "%s %s constructor" % (code, sz), "_RotatedLattice.__init__", thunk)


# ------------------------------------------------------------------ C21
def c21(P):
    """what the benchmark's append_data saves under a name is what the analysis of that name loads"""
    import c_stats
    from c_stats import World, Npz, Arr, fn_, I_, R_, bench_interp, increasing
    P.trusted += ["numpy load/savez: an array comes back under the name it was saved by, a tuple as an array of its elements, a number as a 0-dimensional array",
                  "glob.glob: the names of the files that match"]
    AN = c_stats.BENCH.split(":")[0] + ":"
    FD = [z3.Function("file_" + x, I_, I_) for x in ("h", "w", "T", "n")]
    FP, FL = z3.Function("file_p", I_, I_, R_), z3.Function("file_l", I_, I_, R_)

    def content(c):
        n = fn_(FD[3], c)
        return {"d": Arr(2, lambda k: c_stats.ite_num(num.cmp("==", k, 0), fn_(FD[0], c), fn_(FD[1], c)), ("d", lift(c).key())), "T": fn_(FD[2], c),
                "physical_error_rates": Arr(n, lambda k: fn_(FP, c, k), ("p", lift(c).key())), "logical_error_rates": Arr(n, lambda k: fn_(FL, c, k), ("l", lift(c).key()))}

    def interp(P):
        W = World()
        I = bench_interp(P, W)
        asked = []

        def load(I, a, k):
            if k or len(a) != 1: raise Unsupported("np.load options")
            if not isinstance(a[0], c_stats.AStr): raise Unsupported("np.load of %r" % (a[0],))
            asked.append(a[0])
            return Npz(content(a[0].code))
        I.stubs["numpy"]["load"] = Builtin("load", load)
        return I, asked

    def loaded(P, I, a, c):
        """analysis a holds what file c holds"""
        pr, da = I.getattr(a, "params"), I.getattr(a, "data")
        if not isinstance(pr, SDict) or not isinstance(da, SDict): raise Unsupported("analysis")
        d = pr.d.get("d")
        ok = isinstance(d, (tuple, SList)) and len(list(d) if isinstance(d, tuple) else d.segs) == 2
        if not ok and isinstance(d, Arr): d = (d.f(0), d.f(1)); ok = True
        P.prove(I, "distance under d", ok)
        if not ok: return
        d = d if isinstance(d, tuple) else tuple(s.v for s in d.segs)
        P.prove(I, "the height saved", isnum_(d[0]) and num.cmp("==", d[0], fn_(FD[0], c)))
        P.prove(I, "the width saved", isnum_(d[1]) and num.cmp("==", d[1], fn_(FD[1], c)))
        P.prove(I, "the rounds saved", isnum_(pr.d.get("T")) and num.cmp("==", pr.d["T"], fn_(FD[2], c)))
        for key, F in (("physical_error_rates", FP), ("logical_error_rates", FL)):
            x = da.d.get(key)
            if not isinstance(x, Arr):
                if x is None: P.prove(I, "results under " + key, False); continue
                x = c_stats.to_arr(I, x)
            P.prove(I, "as many %s as saved" % key, num.cmp("==", x.n, fn_(FD[3], c)))
            i = fresh_int("i")
            saved = I.pc
            I.pc = list(saved) + [zbool(num.cmp(">=", i, 0)), zbool(num.cmp("<", i, x.n))]
            P.prove(I, "the %s saved, in their order" % key, num.cmp("==", x.f(i), fn_(F, c, i)))
            I.pc = saved

    if P.mine("load"):
        I, asked = interp(P)

        def thunk():
            nm = c_stats.AStr(num.var("name"))
            a = I.call(I.get(AN + "TopologicalAnalysis"), [nm], {})
            I.call(I.getattr(a, "load_data"), [], {})
            P.prove(I, "its own file is read", len(asked) >= 1 and all(zb(I.equal(x, nm)) is True for x in asked))
            loaded(P, I, a, nm.code)
        P.run(I, "load", "TopologicalAnalysis.load_data", thunk)
    if P.mine("batch"):
        I, asked = interp(P)

        def thunk():
            n = fresh_int("files")
            I.assume(num.cmp(">=", n, 0))
            NAME = z3.Function("filename", I_, I_)
            folder = AStrPath(num.var("folder"))
            k = fresh_int("k")

            def files(pat):
                if not (isinstance(pat, (str, Str)) and "*.npz" in repr(pat)): raise Unsupported("files %r" % (pat,))
                return SList((Rep(atom_of(k), n, [((), (Item(c_stats.AStr(fn_(NAME, k))),))]),))
            I.the_files = files
            b = I.call(I.get(AN + "TopologicalBatchAnalysis"), [folder], {})
            L = I.getattr(b, "analyses")
            segs = I.iter_segs(L)
            if not (len(segs) == 1 and isinstance(segs[0], Rep) and len(segs[0].vars) == 1 and len(segs[0].vars[0][1]) == 1 and isinstance(segs[0].vars[0][1][0], Item)):
                raise Unsupported("analyses %r" % (L,))
            rep, o = segs[0], segs[0].vars[0][1][0].v
            at = lambda k: subst(o, [(rep.k, k)])
            name = lambda k: I.getattr(at(k), "filename")
            if not isinstance(name(num.var("i")), c_stats.AStr): raise Unsupported("name of an analysis")
            P.prove(I, "as many analyses as files", num.cmp("==", rep.N, n))
            P.prove(I, "one for each file", c_stats.bag_of(I, rep.N, lambda k: name(k).code) == c_stats.bag_of(I, n, lambda k: fn_(NAME, k)))
            i = fresh_int("i")
            saved = I.pc
            I.pc = list(saved) + [zbool(num.cmp(">=", i, 0)), zbool(num.cmp("<", i, n))]
            loaded(P, I, at(i), name(i).code)
            I.pc = saved
            increasing(P, I, "in increasing order of height", n, lambda k: fn_(FD[0], name(k).code))
        P.run(I, "batch", "TopologicalBatchAnalysis.__init__", thunk)


isnum_ = num.isnum


def AStrPath(c):
    return mkstr((Item(StrAtom("folder")),))
