"""python3-vt tools/selftest.py : the front end against CPython.

Every lattice operation is executed symbolically (all sizes at once); the resulting closed form of the instruction trace is instantiated at
concrete sizes and compared, instruction by instruction, with what the real code emits under CPython and qiskit.  The readout parsers and the
constructors' virtual nodes are compared as values.  Development aid; no registered command depends on it."""
import sys, os, json, subprocess, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QT_REPO", "/repo")
OPS = [("stabilize",), ("x",), ("z",), ("reset_x",), ("reset_z",), ("readout_x",), ("readout_z",), ("lattice_readout_x",), ("lattice_readout_z",),
       ("id",), ("id_data",), ("lattice.entangle",), ("lattice.entangle_x",), ("lattice.entangle_z",), ("lattice.x_c_if", "creg", 2), ("lattice.z_c_if", "creg", 1),
       ("cx", "control"), ("cx", "target"), ("stabilize2",)]
SIZES = [(h, w) for h in (1, 3, 5, 7) for w in (1, 3, 5, 7) if (h, w) != (1, 1)] + [(9, 5), (3, 11)]


def fits(code, h, w): return code != "Repetition" or h == 1 or w == 1


def real():
    import qtcodes
    from qiskit import ClassicalRegister, QuantumRegister, QuantumCircuit
    out = []
    rng = random.Random(7)
    for code in ("XXZZ", "XZZX", "Repetition"):
        for h, w in SIZES:
            if not fits(code, h, w): continue
            for op in OPS:
                p = {"d": (h, w)}
                if code == "Repetition" and h == 1: p["phase-flip-protected"] = True
                q = getattr(qtcodes, code + "Qubit")(p, name="nm")
                c = ClassicalRegister(2, "creg"); a = QuantumRegister(1, "other")
                q.circ.add_register(c); q.circ.add_register(a)
                call(q, op, c, a[0])
                loc = {}
                for r in list(q.circ.qregs) + list(q.circ.cregs):
                    for i, b in enumerate(r): loc[b] = "%s[%d]" % (r.name, i)
                tr = []
                for ins, qs, cs in q.circ.data:
                    if ins.name == "barrier": continue
                    cond = None if ins.condition is None else [ins.condition[0].name, int(ins.condition[1])]
                    tr.append([ins.name, [loc[b] for b in qs], [loc[b] for b in cs], cond])
                out.append([code, h, w, list(op), tr, sorted([r.name, r.size] for r in q.circ.cregs)])
    val = []
    for h, w in SIZES:
        dec = qtcodes.RotatedDecoder({"d": (h, w), "T": 1}) if h > 1 and w > 1 else qtcodes.RepetitionDecoder({"d": (h, w), "T": 1, "phase-flip-protected": h == 1})
        val.append(["virtual", h, w, None, {k: sorted(map(list, v)) for k, v in dec.virtual.items()}])
        n = h * w - 1
        for _ in range(3):
            for kind in ("", "X", "Z"):
                s = " ".join([("%d" % rng.randrange(2)) if not kind else "".join(rng.choice("01") for _ in range(h * w))] + ["".join(rng.choice("01") for _ in range(n)) for _ in range(rng.randrange(1, 4))])
                q = qtcodes.XXZZQubit({"d": (h, w)})
                l, d = q.parse_readout(s, kind or None)
                val.append(["parse", h, w, [s, kind], [l, {k: sorted(map(list, v)) for k, v in d.items()}]])
    json.dump([out, val], sys.stdout)


def call(q, op, creg, bit):
    if op[0] == "stabilize2": q.stabilize(); q.stabilize(); return
    if op[0] == "cx": q.cx(**{op[1]: bit}); return
    o = q
    for n in op[0].split("."): o = getattr(o, n)
    o(*[creg if x == "creg" else x for x in op[1:]])


def main():
    sys.path.insert(0, V + "/pyvc")
    sys.setrecursionlimit(20000)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    r = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "real"], capture_output=True, text=True, env=env)
    if r.returncode: print(r.stderr[-2000:]); return 1
    want, vals = json.loads(r.stdout)
    import z3, num, solve
    from values import Item, Rep, Alt, Ev, BRef, subst, subst_segs, subst_b, SList, SDict, Str, StrAtom
    from num import lift
    import spec
    from stubs import SReg, SCirc
    P = spec.Prover("selftest", "quick")

    def const(v):
        c = lift(v).const()
        if c is None:
            c = lift(num.of_z3(z3.simplify(num.z3_of(v)))).const()
        if c is None: raise Exception("not concrete: %r" % (v,))
        return c

    def truth(b):
        if isinstance(b, bool): return b
        b = z3.simplify(b)
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        raise Exception("not concrete: %s" % b)

    def expand(segs, pr):
        for s in subst_segs(segs, pr) if pr else segs:
            if isinstance(s, Item): yield s.v
            elif isinstance(s, (Rep, Alt)):
                for i in range(int(const(s.N)) if isinstance(s, Rep) else 1):
                    p2 = [(s.k, num.lift(i))] if isinstance(s, Rep) else []
                    hit = 0
                    for gs, ss in s.vars:
                        if all(truth(subst_b(g, p2)) for g in gs): hit += 1; yield from expand(ss, p2)
                    if hit > 1: raise Exception("overlapping alternatives")
            else: raise Exception("segment %r" % (s,))

    def text(x):
        if isinstance(x, str): return x
        return "".join(t.name if isinstance(t, StrAtom) else t if isinstance(t, str) else str(int(const(t))) for t in expand(x.segs, []))

    def conc(e, pr):
        e = subst(e, pr)
        def loc(b): return "%s[%d]" % (text(subst(b.reg.name_, pr)), const(b.idx))
        cond = None
        if e.cond is not None: cond = [text(subst(e.cond[0].name_, pr)), int(const(e.cond[1]))]
        return [e.op, [loc(b) for b in e.qs], [loc(b) for b in e.cs], cond]

    idx = {}
    for code, h, w, op, tr, regs in want: idx.setdefault((code, tuple(op)), []).append((h, w, tr, regs))
    A, B = num.var("A"), num.var("B")
    n = bad = 0
    for (code, op), cases in sorted(idx.items(), key=str):
        for sz in spec.sizes():
            if code == "Repetition" and str(sz) == "h,w>=3": continue
            I = spec.new_interp(sz, load=list(spec.DECODERS.values()))
            res = []

            def thunk():
                q, circ = spec.mk_qubit(I, code, sz, havoc=False)
                creg, other = SReg("c", 2, "creg"), SReg("q", 1, "other")
                I.put(circ, "regs", None, circ.regs + (Item(creg), Item(other)))
                if op[0] == "stabilize2": seq = [("stabilize", [], {})] * 2
                elif op[0] == "cx": seq = [("cx", [], {op[1]: BRef(other, 0)})]
                else: seq = [(op[0], [creg if x == "creg" else x for x in op[1:]], {})]
                for name, a, k in seq:
                    o = q
                    for m in name.split("."): o = I.getattr(o, m)
                    I.call(o, a, k)
                res.append((list(I.pc), circ.trace, circ.regs))
            I.explore(thunk)
            for h, w, tr, regs in cases:
                if (str(sz), h == 1, w == 1) not in (("h,w>=3", False, False), ("w=1", False, True), ("h=1", True, False)): continue
                pr = [(num._atoms[num.atom_id(z3.Int("A"))] if False else z3.Int("A"), num.lift((h - 3) // 2)), (z3.Int("B"), num.lift((w - 3) // 2))]
                live = [(t, rg) for pc, t, rg in res if all(truth(subst_b(b, pr)) for b in pc)]
                n += 1
                try:
                    if len(live) != 1: raise Exception("%d paths for one size" % len(live))
                    got = [conc(e, pr) for e in expand(live[0][0], pr) if e.op != "barrier"]
                    rg = sorted([text(subst(s.v.name_, pr)), int(const(subst(s.v.size, pr)))] for s in live[0][1] if s.v.kind == "c")
                    if got != tr: raise Exception("traces differ: %s" % next(((a, b) for a, b in zip(got + [None] * len(tr), tr + [None] * len(got)) if a != b), None).__repr__())
                    if rg != sorted(regs): raise Exception("registers %s, real %s" % (rg, regs))
                except Exception as e:
                    bad += 1; print(code, h, w, op, e)
    # values, at concrete sizes
    for kind, h, w, arg, exp in vals:
        a, b = (h - 1) // 2, (w - 1) // 2
        I = spec.new_interp(None, load=list(spec.DECODERS.values()))
        out = []

        def val():
            if kind == "virtual":
                rep = h == 1 or w == 1
                prm = SDict({"d": (h, w), "T": 1})
                if rep: prm.d["phase-flip-protected"] = h == 1
                I.contracts["RotatedDecoder._make_syndrome_graph"] = lambda I, f, args, kw: None
                d = I.call(I.get(spec.DECODERS["Repetition" if rep else "XXZZ"]), [prm], {})
                out.append({k: sorted([float(const(x)) for x in v] for v in expand(l.segs, [])) for k, l in d.attrs["virtual"].d.items()})
            else:
                q = I.call(I.get(spec.CODES["XXZZ"]), [SDict({"d": (h, w)})], {"name": "nm", "circ": SCirc("c")})
                r = I.call(I.getattr(q, "parse_readout"), [arg[0], arg[1] or None], {})
                out.append([int(const(r[0])), {k: sorted([float(const(x)) for x in v] for v in expand(l.segs, [])) for k, l in r[1].d.items()}])
        I.explore(val)
        n += 1
        if len(out) != 1 or out[0] != exp: bad += 1; print(kind, h, w, arg, out, exp)
    print("compared %d, differ %d" % (n, bad))
    return 1 if bad or not n else 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "real": sys.path.insert(0, REPO); real()
    else: sys.exit(main())
