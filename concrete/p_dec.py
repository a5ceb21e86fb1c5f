"""Bounded oracles for the parsing/decoding properties C06-C12, C15, C16."""
import copy, itertools, math, os, random, shutil, tempfile
from collections import deque
from fractions import Fraction
from lib import *


def rstr(rng, n, p=0.5):
    return "".join("1" if rng.random() < p else "0" for _ in range(n))


def dec_sizes(tier, hints, small=5, cap=63, more=(), hcap=None):
    hints = [s for s in hints if s[0] * s[1] <= (hcap or cap)]
    L = geo.sizes(small if tier == "quick" else small + 2) + [(1, 7), (7, 1), (3, 7), (7, 3), (9, 1), (1, 9), (3, 9)]
    out = []
    for s in list(hints) + L:
        s = tuple(s)
        if s not in out and s != (1, 1) and (s in hints or list(s) in hints or s[0] * s[1] <= cap):
            out.append(s)
    return out + [s for s in more if s not in out]


# ---------------------------------------------------------------- C06
def spec_changes(h, w, rounds):
    """rounds: earliest-first syndrome strings X_n..X_0 Z_m..Z_0"""
    nx, nz = geo.counts(h, w)
    out = {"X": [], "Z": []}
    for t in range(len(rounds) - 1):
        a, b = rounds[t], rounds[t + 1]
        for k in range(nx):
            if a[nx - 1 - k] != b[nx - 1 - k]:
                out["X"].append((float(t),) + geo.centre(h, w, "X", k))
        for k in range(nz):
            if a[nx + nz - 1 - k] != b[nx + nz - 1 - k]:
                out["Z"].append((float(t),) + geo.centre(h, w, "Z", k))
    return out


def spec_extract(h, w, t, outs, prev):
    """outs: string last qubit first"""
    n = h * w
    val = [int(outs[n - 1 - q]) for q in range(n)]
    nx, nz = geo.counts(h, w)
    bits = "".join(str(sum(val[q] for q in geo.corners(h, w, t, k) if q is not None) % 2) for k in reversed(range(nx if t == "X" else nz)))
    full = bits + prev[nx:] if t == "X" else prev[:nx] + bits
    log = sum(val[q] for q in (range(0, n, w) if t == "X" else range(w))) % 2
    return log, full


def cases_C06(tier, rng, hints):
    for h, w in dec_sizes(tier, hints, 7, 63, ((9, 9), (11, 11), (1, 71), (71, 1), (3, 43), (43, 3), (5, 29), (29, 5), (17, 17)), 600):
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, seed=rng.randrange(10 ** 9))


def run_C06(c):
    from qtcodes.circuits.circ import TopologicalRegister, TopologicalCircuit
    from qtcodes.fitters.rotated_surface import RotatedDecoder
    from qtcodes.fitters.repetition import RepetitionDecoder
    code, h, w = c["code"], c["h"], c["w"]
    rng = random.Random(c["seed"])
    nx, nz = geo.counts(h, w)
    n = nx + nz
    tq = make(code, h, w)
    treg = TopologicalRegister(ctypes=[{"REP": "Repetition"}.get(code, code)], params=[params_for(code, h, w)])
    tc = TopologicalCircuit(treg)
    parsers = {}

    def dec(T):
        if T not in parsers:
            if code == "REP":
                parsers[T] = RepetitionDecoder(dict(params_for(code, h, w), T=T))
            else:
                parsers[T] = RotatedDecoder({"d": (h, w), "T": T})
        return parsers[T]

    def cmp(got, log, want, what):
        need(got[0] == log, what, "logical", got[0], "expected", log)
        for k in "XZ":
            g = sorted(tuple(float(v) for v in e) for e in got[1][k])
            need(g == sorted(want[k]), what, k, "got", g, "expected", sorted(want[k]))

    def one(rounds, log):
        s = " ".join([log] + rounds[::-1])
        want = spec_changes(h, w, rounds)
        cmp(tq.parse_readout(s), int(log), want, "parse_readout(%r)" % s)
        cmp(tc.parse_readout(0, s), int(log), want, "circuit.parse_readout(%r)" % s)
        if len(rounds) >= 2 and h * w * len(rounds) <= 150:
            cmp(dec(len(rounds) - 1).parse_readout(s), int(log), want, "decoder.parse_readout(%r)" % s)

    def lat(rounds, outs, t):
        s = " ".join([outs] + rounds[::-1])
        log, fin = spec_extract(h, w, t, outs, rounds[-1])
        want = spec_changes(h, w, rounds + [fin])
        cmp(tq.parse_readout(s, t), log, want, "parse_readout(%r,%s)" % (s, t))
        cmp(tc.parse_readout(0, s, t), log, want, "circuit.parse_readout(%r,%s)" % (s, t))
        if h * w * len(rounds) <= 150:
            cmp(dec(len(rounds)).parse_readout(s, t), log, want, "decoder.parse_readout(%r,%s)" % (s, t))
    zero = "0" * n
    for k in range(n):
        hot = "0" * k + "1" + "0" * (n - 1 - k)
        one([zero, hot], "0")
        one([zero, zero, hot, hot], "1")
        one([hot, zero, hot], "1")
    one([zero], "1")
    one(["1" * n, "0" * n, "1" * n], "0")
    for R in (1, 2, 3, 5, 12):
        for _ in range(3):
            one([rstr(rng, n) for _ in range(R)], rng.choice("01"))
            for t in "XZ":
                lat([rstr(rng, n) for _ in range(R)], rstr(rng, h * w), t)


# ---------------------------------------------------------------- C07
def cases_C07(tier, rng, hints):
    for h, w in dec_sizes(tier, hints, 7, 99, ((11, 11), (1, 131), (131, 1), (3, 43), (43, 3), (17, 17)), 600):
        for code in codes_for(h, w):
            yield dict(code=code, h=h, w=w, seed=rng.randrange(10 ** 9))


def run_C07(c):
    code, h, w = c["code"], c["h"], c["w"]
    rng = random.Random(c["seed"])
    nx, nz = geo.counts(h, w)
    lat = make(code, h, w).lattice
    n = h * w
    outs = ["0" * k + "1" + "0" * (n - 1 - k) for k in range(n)] + [rstr(rng, n) for _ in range(12)] + ["1" * n, "0" * n]
    for o in outs:
        for prev in ("0" * (nx + nz), "1" * (nx + nz), rstr(rng, nx + nz)):
            for t in "XZ":
                want = spec_extract(h, w, t, o, prev)
                got = getattr(lat, "extract_final_stabilizer_and_logical_readout_" + t.lower())(o, prev)
                need(tuple(got) == want, "extract_%s(%r, %r)" % (t, o, prev), "got", got, "expected", want)
                got = lat.extract_final_stabilizer_and_logical_readout(o, prev, t)
                need(tuple(got) == want, "extract(%r, %r, %s)" % (o, prev, t), "got", got, "expected", want)


# ---------------------------------------------------------------- C08
def spec_graph(h, w, T, t):
    """(nodes, edges) with labels (t,row,col) / (-1,row,col)"""
    nx, nz = geo.counts(h, w)
    n = nx if t == "X" else nz
    cells = {geo.centre(h, w, t, k) for k in range(n)}
    virt = set()
    edges = set()
    if t == "Z":
        for j in range(0, w, 2):
            virt.add((-0.5, j - 0.5)); virt.add((h - 0.5, j + 0.5))
    else:
        for j in range(0, h, 2):
            virt.add((j + 0.5, -0.5)); virt.add((j - 0.5, w - 0.5))
    nodes = {(-1,) + v for v in virt} | {(tt,) + c for tt in range(T) for c in cells}
    allc = cells | virt
    for tt in range(T):
        lab = lambda c: (tt,) + c if c in cells else (-1,) + c
        for q in range(h * w):
            r, col = divmod(q, w)
            adj = [c for c in allc if abs(c[0] - r) == .5 and abs(c[1] - col) == .5]
            if len(adj) != 2:
                raise AssertionError("spec: data qubit with %d neighbours" % len(adj))
            edges.add(frozenset(lab(c) for c in adj))
    for c in cells:
        for tt in range(T - 1):
            edges.add(frozenset([(tt,) + c, (tt + 1,) + c]))
    return nodes, edges, virt


def decoders(h, w, T):
    from qtcodes.fitters.rotated_surface import RotatedDecoder
    from qtcodes.fitters.repetition import RepetitionDecoder
    out = [("rot", RotatedDecoder({"d": (h, w), "T": T}), [k for k in "ZX" if (h if k == "Z" else w) >= 3])]
    if w == 1:
        out.append(("rep", RepetitionDecoder({"d": (h, w), "T": T}), ["Z"]))
        out.append(("repi", RepetitionDecoder({"d": h, "T": T}), ["Z"]))
    if h == 1:
        out.append(("rep", RepetitionDecoder({"d": (h, w), "T": T, "phase-flip-protected": True}), ["X"]))
        out.append(("repi", RepetitionDecoder({"d": w, "T": T, "phase-flip-protected": True}), ["X"]))
    if h == w:
        out.append(("sq", RotatedDecoder({"d": h, "T": T}), ["Z", "X"]))
    return out


def cases_C08(tier, rng, hints):
    for h, w in [tuple(s) for s in hints if 63 < s[0] * s[1] <= 2500]:
        yield dict(h=h, w=w, T=1)
    for h, w in dec_sizes(tier, hints, 7):
        for T in (1, 2, 3, 4):
            yield dict(h=h, w=w, T=T)
    yield dict(h=3, w=3, T=40)
    yield dict(h=5, w=3, T=17)
    for h, w in ((45, 45), (51, 41), (1005, 1), (1, 1005)):      # beyond a recursive traversal
        yield dict(h=h, w=w, T=1)


def run_C08(c):
    h, w, T = c["h"], c["w"], c["T"]
    for name, dec, keys in decoders(h, w, T):
        need(all(k in dec.S for k in keys), name, "misses a graph", list(dec.S))
        for k in keys:
            nodes, edges, virt = spec_graph(h, w, T, k)
            g = dec.S[k]
            labs = [tuple(x) for x in g.nodes()]
            need(len(labs) == len(set(labs)), name, k, "repeated nodes")
            need(set(labs) == nodes, name, k, "nodes: missing", sorted(nodes - set(labs))[:4], "extra", sorted(set(labs) - nodes)[:4])
            el = g.edge_list()
            ge = [frozenset((tuple(g[i]), tuple(g[j]))) for i, j in el]
            need(len(ge) == len(set(ge)), name, k, "parallel edges")
            need(set(ge) == edges, name, k, "edges: missing", [sorted(e) for e in list(edges - set(ge))[:3]], "extra", [sorted(e) for e in list(set(ge) - edges)[:3]])
            for i, j in el:
                need(g.get_edge_data(i, j) == 1, name, k, "edge weight", g.get_edge_data(i, j))
            for lab, idx in dec.node_map[k].items():
                need(tuple(g[idx]) == tuple(lab), name, k, "node_map", lab, idx)
            need(set(tuple(l) for l in dec.node_map[k]) == nodes, name, k, "node_map keys")
            need(sorted(tuple(v) for v in dec.virtual[k]) == sorted((-1,) + v for v in virt), name, k, "virtual", dec.virtual[k])


# ---------------------------------------------------------------- C09
def faults(h, w, T, t):
    nx, nz = geo.counts(h, w)
    n = nx if t == "X" else nz
    return [("d", tt, q) for tt in range(T) for q in range(h * w)] + [("m", tt, k) for tt in range(T - 1) for k in range(n)]


def fault_syndrome(h, w, t, E):
    nx, nz = geo.counts(h, w)
    n = nx if t == "X" else nz
    adj = {}
    for k in range(n):
        for q in geo.corners(h, w, t, k):
            if q is not None:
                adj.setdefault(q, []).append(k)
    logical = set(range(0, h * w, w)) if t == "X" else set(range(w))
    hits, flip = {}, 0
    for kind, tt, i in E:
        if kind == "d":
            for k in adj.get(i, ()):
                hits[(tt, k)] = hits.get((tt, k), 0) ^ 1
            flip ^= i in logical
        else:
            for x in (tt, tt + 1):
                hits[(x, i)] = hits.get((x, i), 0) ^ 1
    return [(float(tt),) + geo.centre(h, w, t, k) for (tt, k), v in sorted(hits.items()) if v], int(flip)


def cases_C09(tier, rng, hints):
    small = [(3, 1), (1, 3), (5, 1), (1, 5), (3, 3), (3, 5), (5, 3), (7, 1), (1, 7), (5, 5), (7, 3), (3, 7), (7, 5), (5, 7), (9, 1), (1, 9), (7, 7), (9, 3), (3, 9)]
    for s in hints:
        if tuple(s) not in small and s[0] * s[1] <= 63:
            small.append(tuple(s))
    for h, w in small:
        for T in (1, 2, 3, 4) if h * w <= 27 else (1, 2, 3):
            if h * w * T > 110 and tier == "quick":
                continue
            yield dict(h=h, w=w, T=T, seed=rng.randrange(10 ** 9), cap=60 if tier == "quick" else 1500)


def pick_sets(F, wmax, cap, rng, structured):
    out = [[]] + [[f] for f in F]
    if len(out) > cap * 2:
        out = [[]] + [[f] for f in rng.sample(F, cap * 2)]
    for k in range(2, wmax + 1):
        tot = math.comb(len(F), k)
        if tot <= cap:
            out += [list(e) for e in itertools.combinations(F, k)]
        else:
            out += [rng.sample(F, k) for _ in range(cap // 2)]
            out += [s for s in structured(k, cap // 2)]
    return out


def run_C09(c):
    h, w, T = c["h"], c["w"], c["T"]
    rng = random.Random(c["seed"])
    total = 0
    for name, dec, keys in decoders(h, w, T):
        for t in keys:
            d = h if t == "Z" else w
            F = faults(h, w, T, t)

            def structured(k, cap):
                for _ in range(cap):
                    # faults concentrated on one line along the logical error direction, often from a boundary
                    tt = rng.randrange(T)
                    line = rng.randrange(w if t == "Z" else h)
                    L = d
                    st = rng.choice([0, L - k, rng.randrange(0, L - k + 1)])
                    E = []
                    for i in range(st, st + k):
                        q = i * w + min(w - 1, max(0, line + rng.choice([0, 0, 0, 1, -1]))) if t == "Z" else min(h - 1, max(0, line + rng.choice([0, 0, 0, 1, -1]))) * w + i
                        E.append(("d", min(T - 1, max(0, tt + rng.choice([0, 0, 0, 1]))), q))
                    if len(set(E)) == k:
                        yield E
            cap = c["cap"] if name == "rot" else max(10, c["cap"] // 4)
            for E in pick_sets(F, (d - 1) // 2, cap, rng, structured):
                S, flip = fault_syndrome(h, w, t, E)
                val = rng.randrange(2)
                got = dec.correct_readout({t: list(S), ("Z" if t == "X" else "X"): []}, t, logical_qubit_value=val ^ flip)
                need(got == val, name, "d=(%d,%d) T=%d type %s: faults %r syndromes %r decoded to %s, expected %d" % (h, w, T, t, E, S, got, val))
                total += 1
            # through strings (checks, flips) with a lattice readout
            nx, nz = geo.counts(h, w)
            for E in rng.sample(pick_sets(F, (d - 1) // 2, 40, rng, structured), 10) if len(F) > 10 else []:
                S, flip = fault_syndrome(h, w, t, E)
                s, val = string_for(h, w, T, t, E, rng)
                got = dec.correct_readout(s, t)
                need(got == val, name, "d=(%d,%d) T=%d type %s: faults %r readout %r decoded to %s, expected %d" % (h, w, T, t, E, s, got, val))
    return None


def string_for(h, w, T, t, E, rng):
    """readout string (lattice readout + T syndrome rounds) of the faults E on a random codeword; returns (string, true value)"""
    nx, nz = geo.counts(h, w)
    n = nx if t == "X" else nz
    N = h * w
    # random codeword-ish data word: random combination via random data, syndromes are what they are: use reference syndromes
    base = [rng.randrange(2) for _ in range(N)]

    def syn(word):
        return [sum(word[q] for q in geo.corners(h, w, t, k) if q is not None) % 2 for k in range(n)]
    word = list(base)
    rounds = [syn(word)]
    for tt in range(T):
        for kind, x, i in E:
            if kind == "d" and x == tt:
                word[i] ^= 1
        if tt < T - 1:
            s = syn(word)
            for kind, x, i in E:
                if kind == "m" and x == tt:
                    s[i] ^= 1
            rounds.append(s)
    other = rstr(rng, nz if t == "X" else nx)

    def full(s):
        b = "".join(str(v) for v in s[::-1])
        return b + other if t == "X" else other + b
    log = sum(base[q] for q in (range(0, N, w) if t == "X" else range(w))) % 2
    chunks = ["".join(str(v) for v in word[::-1])] + [full(s) for s in rounds[::-1]]
    return " ".join(chunks), log


# ---------------------------------------------------------------- C10
def cases_C10(tier, rng, hints):
    for h, w in dec_sizes(tier, hints, 5, 25):
        for T in (1, 2, 3):
            yield dict(h=h, w=w, T=T, seed=rng.randrange(10 ** 9), n=8 if tier == "quick" else 30)


def dec_state(dec):
    out = {}
    for k, g in dec.S.items():
        out[k] = ([tuple(x) for x in g.nodes()], sorted((i, j, g.get_edge_data(i, j)) for i, j in g.edge_list()), dict(dec.node_map[k]))
    return (out, copy.deepcopy(dec.virtual), {k: copy.deepcopy(v) for k, v in dec.params.items()}, copy.deepcopy(dec.look_up_table), copy.deepcopy(dec.look_up_table_shots), list(dec.syndrome_graph_keys))


def run_C10(c):
    h, w, T = c["h"], c["w"], c["T"]
    rng = random.Random(c["seed"])
    nx, nz = geo.counts(h, w)
    for name in [d[0] for d in decoders(h, w, T)]:
        get = lambda: next(d for d in decoders(h, w, T) if d[0] == name)
        _, dec, keys = get()
        _, ref0, _ = get()
        state = dec_state(dec)
        need(state == dec_state(ref0), name, "two fresh decoders differ")
        calls = []
        for i in range(c["n"]):
            t = rng.choice(keys)
            d = h if t == "Z" else w
            if rng.random() < .5:
                n = nx if t == "X" else nz
                cells = [(float(tt),) + geo.centre(h, w, t, k) for tt in range(T) for k in range(n)]
                S = rng.sample(cells, rng.randrange(0, min(len(cells), 5) + 1))
                o = "Z" if t == "X" else "X"
                m = nx if o == "X" else nz
                other = [(float(tt),) + geo.centre(h, w, o, k) for tt in range(T) for k in range(m)]
                arg = {t: S, o: rng.sample(other, min(len(other), rng.randrange(3)))}
                calls.append((arg, t, rng.randrange(2), rng.choice([None, 0.01, 0.1, 0.3])))
            else:
                s = " ".join([rstr(rng, h * w)] + [rstr(rng, nx + nz, .15) for _ in range(T)])
                calls.append((s, t, None, rng.choice([None, 0.05, 0.2])))
        first = []
        for rnd in range(2):
            for ci, (arg, t, v, p) in enumerate(calls):
                a = copy.deepcopy(arg)
                if isinstance(arg, str) and rng.random() < .5:
                    r = dec.parse_readout(a, t)
                    r[1]["X"].append("junk")   # a caller may do what it likes with its own result
                    if rng.random() < .3:
                        dec._make_error_graph([], t) if False else None
                kw = {} if p is None else {"err_prob": p}
                if v is not None:
                    kw["logical_qubit_value"] = v
                got = dec.correct_readout(a, t, **kw)
                need(a == arg, name, "correct_readout modified its argument: was", arg, "now", a)
                if rnd == 0:
                    if isinstance(arg, str) or arg[t]:
                        fresh = get()[1].correct_readout(copy.deepcopy(arg), t, **kw)
                        need(fresh == got, name, "answer", got, "differs from a fresh decoder's", fresh, "for", arg, t, p)
                    first.append(got)
                else:
                    need(first[ci] == got, name, "repeating call", ci, "gave", got, "first", first[ci], "for", arg, t, p)
                if isinstance(a, dict) and a[t]:
                    lst = list(a[t])
                    dec._make_error_graph(a[t], t, err_prob=p)
                    need(a[t] == lst, name, "building the error graph modified the syndrome list")
                    dec._corrections(a[t], t, err_prob=p)
                    need(a[t] == lst, name, "corrections modified the syndrome list")
                need(dec_state(dec) == state, name, "decoding changed the decoder state")
    # lattice parameters are not shared
    for code in codes_for(h, w):
        p = params_for(code, h, w)
        p0 = copy.deepcopy(p)
        circ = QuantumCircuit()
        a = klass(code)(p, name="a", circ=circ)
        la = dict(a.lattice.params)
        b = klass(code)(p, name="b", circ=circ)
        need(dict(a.lattice.params) == la, "building a second logical qubit changed the first one's parameters")
        b.stabilize(); b.readout_z(); b.lattice_readout_x()
        need(dict(a.lattice.params) == la, "operating a second logical qubit changed the first one's parameters")
        need(p == p0, "building a logical qubit changed the caller's parameters", p0, p)
        for raw in ({"d": h}, {"d": h, "phase-flip-protected": True}, {}):
            if "phase-flip-protected" in raw and code != "REP": continue
            if not raw.get("d", 3) > 1: continue
            r0 = dict(raw)
            klass(code)(raw, name="c", circ=QuantumCircuit())
            need(raw == r0, "building a logical qubit changed the caller's parameters", r0, raw)
        sh = "1" + " " + " ".join(rstr(rng, nx + nz) for _ in range(2))
        need(a.parse_readout(sh) == b.parse_readout(sh) == a.parse_readout(sh), "parse_readout is not repeatable")


# ---------------------------------------------------------------- C11
def bfs_counts(nodes, edges, src):
    adj = {}
    for e in edges:
        a, b = tuple(e)
        adj.setdefault(a, []).append(b); adj.setdefault(b, []).append(a)
    dist, num = {src: 0}, {src: 1}
    dq = deque([src])
    while dq:
        u = dq.popleft()
        for v in adj.get(u, ()):
            if v not in dist:
                dist[v] = dist[u] + 1; num[v] = 0; dq.append(v)
            if dist[v] == dist[u] + 1:
                num[v] += num[u]
    return dist, num


def cases_C11(tier, rng, hints):
    for h, w in dec_sizes(tier, hints, 5, 35):
        for T in (1, 2, 3):
            yield dict(h=h, w=w, T=T, seed=rng.randrange(10 ** 9))


def run_C11(c):
    import retworkx as rx
    h, w, T = c["h"], c["w"], c["T"]
    rng = random.Random(c["seed"])
    for name, dec, keys in decoders(h, w, T):
        for t in keys:
            nodes, edges, virt = spec_graph(h, w, T, t)
            V = [(-1,) + v for v in virt]
            reg = sorted(n for n in nodes if n[0] != -1)
            info = {n: bfs_counts(nodes, edges, n) for n in nodes}

            def deg(a, b):
                if a[0] == -1: a, b = b, a
                d, num = info[a]
                if b[0] == -1:
                    return sum(num[v] for v in V if d[v] == d[b])
                return num[b]
            mat = rx.graph_floyd_warshall_numpy(dec.S[t])
            pairs = [(a, b) for a in reg for b in reg if a < b] + [(a, v) for a in reg for v in V]
            rng.shuffle(pairs)
            first0 = tuple(dec.S[t][0])
            pairs = [p for p in pairs if first0 in p][:12] + pairs[:60 if len(reg) > 12 else 200]
            rng.shuffle(pairs)
            for mode in ("shared", "fresh"):
                cache = {}
                for a, b in pairs if mode == "shared" else pairs[:25]:
                    if rng.random() < .5: a, b = b, a
                    la = tuple(float(x) for x in a) if rng.random() < .5 else a
                    if mode == "fresh": cache = {}
                    got, cache = dec._path_degeneracy(la, b, t, cache, mat)
                    need(got == deg(a, b), name, t, "degeneracy of", a, b, "is", got, "expected", deg(a, b), mode, "cache")
                    for i, row in cache.items():
                        lab = tuple(dec.S[t][i])
                        need(all(row[j] == info[lab][1][tuple(dec.S[t][j])] for j in row), name, t, "cache row of", lab, "is corrupted")
            for _ in range(4):
                k = rng.randrange(1, min(6, len(reg)) + 1)
                S = rng.sample(reg, k)
                for p in (None, rng.choice([0.001, 0.05, 0.2, 0.45])):
                    g = dec._make_error_graph([tuple(float(x) for x in s) for s in S], t, err_prob=p)
                    labs = [tuple(x) for x in g.nodes()]
                    extra = [(-1, -1, -1)] if k % 2 else []
                    want = set(S) | set(V) | set(extra)
                    need(len(labs) == len(set(labs)) and set(labs) == want, name, t, "error graph nodes", labs)
                    E = {frozenset((tuple(g[i]), tuple(g[j]))): g.get_edge_data(i, j) for i, j in g.edge_list()}
                    for a, b in itertools.combinations(S + V, 2):
                        wgt = E.get(frozenset((a, b)))
                        if a in V and b in V:
                            exp = 0.0
                        else:
                            s, o = (b, a) if a in V else (a, b)
                            exp = float(info[s][0][o])
                            if p is not None:
                                exp -= math.log(deg(s, o)) / (math.log1p(-p) - math.log(p))
                            exp = -exp
                        need(wgt is not None and abs(wgt - exp) < 1e-9 * max(1, abs(exp)), name, t, "weight of", a, b, "is", wgt, "expected", exp, "p", p, "syndromes", S)
                    for v in V:
                        if extra:
                            need(E.get(frozenset((extra[0], v))) == 0, name, t, "extra node not joined to virtual", v)
                    need(len(E) == math.comb(len(S) + len(V), 2) + (len(V) if extra else 0), name, t, "number of edges", len(E))


# ---------------------------------------------------------------- C12
def cases_C12(tier, rng, hints):
    for i in range(60 if tier == "quick" else 600):
        yield dict(seed=rng.randrange(10 ** 9))


def run_C12(c):
    from qtcodes.fitters.rotated_surface import RotatedDecoder
    from qtcodes.fitters.repetition import RepetitionDecoder
    rng = random.Random(c["seed"])
    dec = RotatedDecoder({"d": 3, "T": 1}) if rng.random() < .6 else RepetitionDecoder({"d": 3, "T": 1})
    keys = ["%s %s %s" % (rng.choice("01"), rstr(rng, 8), rstr(rng, 8)) for _ in range(6)]
    model = {"X": {0: {}, 1: {}}, "Z": {0: {}, 1: {}}}

    def check():
        for t in "XZ":
            m0, m1 = model[t][0], model[t][1]
            n0, n1 = sum(m0.values()), sum(m1.values())
            need(dec.look_up_table[t][0] == m0 and dec.look_up_table[t][1] == m1, "table", t, "holds", dec.look_up_table[t], "expected", model[t])
            need(dec.look_up_table_shots[t] == {0: n0, 1: n1}, "shots", t, dec.look_up_table_shots[t])
            for s in keys:
                ps = [Fraction(m0.get(s, 0), n0) if n0 else Fraction(0), Fraction(m1.get(s, 0), n1) if n1 else Fraction(0)]
                if sum(ps) == 0:
                    continue
                want = 0 if ps[0] >= ps[1] else 1
                got = dec.correct_readout_look_up_table(s, t)
                need(got == want, "decoded", got, "expected", want, "for p(s|i)=", [str(x) for x in ps])
                for prior in (None, [.5, .5], [.25, .75], [.9, .1], [.75, .25], [0.3, 0.7]):
                    pr = [Fraction(x) for x in (prior or [.5, .5])]
                    tot = ps[0] * pr[0] + ps[1] * pr[1]
                    out = dec._run_look_up(s, t, *([] if prior is None else [prior]))
                    for i in (0, 1):
                        need(abs(out[i] - float(ps[i] * pr[i] / tot)) < 1e-9, "p(i|s)", out, "expected", [float(ps[i] * pr[i] / tot) for i in (0, 1)], "prior", prior)
                    need(abs(sum(out) - 1) < 1e-9, "probabilities do not add up", out)
    for step in range(rng.randrange(2, 7)):
        r = rng.random()
        if r < .15:
            dec.reset_look_up_table()
            model = {"X": {0: {}, 1: {}}, "Z": {0: {}, 1: {}}}
        else:
            t, v = rng.choice("XZ"), rng.randrange(2)
            style = rng.random()
            sub = rng.sample(keys, rng.randrange(1, 6))
            if style < .4:
                tbl = {s: rng.randrange(1, 20) for s in sub}
            elif style < .7:
                k = rng.randrange(1, 5)
                base = model[t][1 - v]
                tbl = {s: n * k for s, n in base.items()} or {s: k for s in sub}   # proportional tables: ties
            else:
                tbl = {s: rng.choice([0, 1, 1000]) for s in sub}
                if not sum(tbl.values()):
                    tbl[sub[0]] = 1
            model[t][v] = dict(tbl)
            dec.set_look_up_table(t, v, dict(tbl))
        check()


# ---------------------------------------------------------------- C15
def cases_C15(tier, rng, hints):
    vals = [-5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9]
    for a in vals:
        yield dict(d=a)
    for a in [-3, -1, 0, 1, 2, 3, 4, 5, 7]:
        for b in [-3, -1, 0, 1, 2, 3, 4, 5]:
            yield dict(d=[a, b])
    yield dict(d=None)
    for h in hints:
        if h[0] * h[1] < 200:
            yield dict(d=list(h))


def built(f):
    try:
        return f(), None
    except Exception as e:      # noqa
        return None, e


def run_C15(c):
    from qtcodes.circuits.base import LatticeError
    from qtcodes.circuits.circ import TopologicalRegister
    from qtcodes.fitters.rotated_surface import RotatedDecoder
    from qtcodes.fitters.repetition import RepetitionDecoder
    d = c["d"]
    d = tuple(d) if isinstance(d, list) else d

    def ok(h, w):
        return h > 0 and w > 0 and h % 2 == 1 and w % 2 == 1

    def checkq(q, h, w, what):
        nx, nz = geo.counts(h, w)
        need(len(qubits_of(q, "data")) == h * w, what, "has", len(qubits_of(q, "data")), "data qubits")
        need(len(qubits_of(q, "mx")) == nx and len(qubits_of(q, "mz")) == nz, what, "has", len(qubits_of(q, "mx")), len(qubits_of(q, "mz")), "checks")
        p = q.lattice.params
        need(tuple(p["d"]) == (h, w) and p["num_data"] == h * w and tuple(p["num_syn"]) == (nx, nz), what, "params", p)

    shapes = {}
    sq = (3, 3) if d is None else d if isinstance(d, tuple) else (d, d)
    for code in ("XXZZ", "XZZX"):
        for with_prot in (False,):
            prm = {} if d is None else {"d": d}
            q, e = built(lambda: klass(code)(dict(prm)))
            what = "%s(%r)" % (code, d)
            if ok(*sq):
                need(e is None, what, "refused:", repr(e))
                checkq(q, *sq, what)
            else:
                need(q is None and isinstance(e, LatticeError), what, "gave", "a lattice" if q is not None else repr(e))
            if d is None:
                q, e = built(lambda: klass(code)())
                need(e is None, what, "default refused", repr(e)); checkq(q, 3, 3, what)
            q, e = built(lambda: TopologicalRegister(ctypes=[code], params=[dict(prm)]))
            need((e is None) == ok(*sq), "register", what, "gave", repr(e))
    for prot in (False, True, None):
        prm = {} if d is None else {"d": d}
        if prot is not None: prm["phase-flip-protected"] = prot
        if d is None: shape, fits = ((1, 3) if prot else (3, 1)), True
        elif isinstance(d, tuple): shape, fits = d, (d[0] == 1 if prot else d[1] == 1)
        else: shape, fits = ((1, d) if prot else (d, 1)), True
        q, e = built(lambda: klass("REP")(dict(prm)))
        what = "Repetition(%r)" % prm
        if fits and ok(*shape):
            need(e is None, what, "refused:", repr(e)); checkq(q, *shape, what)
        else:
            need(q is None and isinstance(e, LatticeError), what, "gave", "a lattice" if q is not None else repr(e))
        for T in (1, 2):
            q, e = built(lambda: RepetitionDecoder(dict(prm, T=T)))
            if fits and ok(*shape):
                need(e is None and tuple(q.params["d"]) == shape, what, "decoder refused or wrong shape:", repr(e))
                need(list(q.syndrome_graph_keys) == (["X"] if prot else ["Z"]) and set(q.S) == set(q.syndrome_graph_keys), what, "decoder decodes", q.syndrome_graph_keys)
            else:
                need(q is None and isinstance(e, (LatticeError, ValueError)), what, "decoder gave", "an object" if q is not None else repr(e))
    if d is not None:
        q, e = built(lambda: RotatedDecoder({"d": d, "T": 2}))
        what = "RotatedDecoder(%r)" % (d,)
        if ok(*sq):
            need(e is None and tuple(q.params["d"]) == sq, what, "refused or wrong shape:", repr(e))
            need(set(q.S) == {"X", "Z"}, what, "graphs", list(q.S))
        else:
            need(q is None and isinstance(e, LatticeError), what, "gave", "an object" if q is not None else repr(e))
        for cls in (RotatedDecoder, RepetitionDecoder):
            q, e = built(lambda: cls({"d": d}))
            need(q is None and isinstance(e, (ValueError, LatticeError)), cls.__name__, "without T gave", repr(e))
    q, e = built(lambda: RotatedDecoder({"T": 2}))
    need(isinstance(e, ValueError), "RotatedDecoder without d gave", repr(e))
    q, e = built(lambda: RotatedDecoder({}))
    need(isinstance(e, ValueError), "RotatedDecoder({}) gave", repr(e))


# ---------------------------------------------------------------- C16
def cases_C16(tier, rng, hints):
    for i in range(12 if tier == "quick" else 80):
        yield dict(seed=rng.randrange(10 ** 9), kind="rate")
    for i in range(4 if tier == "quick" else 20):
        yield dict(seed=rng.randrange(10 ** 9), kind="sweep")
    for i in range(6 if tier == "quick" else 30):
        yield dict(seed=rng.randrange(10 ** 9), kind="append")


class FakeDecoder:
    def __init__(self, table, d=(3, 3), T=2):
        self.params = {"d": d, "T": T}
        self.table = table
        self.calls = []

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        self.calls.append((syndromes, logical_readout_type, err_prob))
        return self.table(syndromes, logical_readout_type, err_prob)


def run_C16(c):
    from qtcodes.tools.benchmarking import TopologicalBenchmark, TopologicalAnalysis
    import io, contextlib
    import numpy as np
    rng = random.Random(c["seed"])
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c16_")
    os.chdir(tmp)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            seen = {}
            for d in ((3, 3), (3, 5), (5, 3), (1, 13), (11, 3), (1, 3), (13, 1), (31, 3)):
                for T in (1, 2, 11, 12, 113):
                    f = TopologicalBenchmark(FakeDecoder(None, d=d, T=T), QuantumCircuit(1)).filename
                    need(f not in seen, "one file for", seen.get(f), "and", (d, T))
                    seen[f] = (d, T)
            if c["kind"] == "rate":
                from qtcodes.fitters.rotated_surface import RotatedDecoder
                from qtcodes.fitters.repetition import RepetitionDecoder
                real = rng.random() < .4
                n = rng.randrange(1, 12)
                correct = rng.randrange(2)
                if real:
                    dec = RepetitionDecoder({"d": 3, "T": 2}) if rng.random() < .5 else RotatedDecoder({"d": 3, "T": 2})
                    m, N = (2, 3) if isinstance(dec, RepetitionDecoder) else (8, 9)
                    table = {" ".join([rstr(rng, N)] + [rstr(rng, m, .2) for _ in range(2)]): rng.randrange(1, 50) for _ in range(n)}
                else:
                    ans = {}
                    dec = FakeDecoder(lambda s, t, p: ans[s])
                    table = {}
                    for i in range(n):
                        s = rstr(rng, 6) + " " + rstr(rng, 4)
                        ans[s] = rng.randrange(2)
                        table[s] = rng.choice([1, 2, 3, 100, 2047])
                b = TopologicalBenchmark(dec, QuantumCircuit(1), correct_logical_value=correct)
                snap = dict(table)
                for p in (None, 0.1):
                    got = b.logical_error_rate(table, err_prob=p)
                    wrong = sum(k for s, k in table.items() if dec.correct_readout(s, "Z", err_prob=p) != correct)
                    need(abs(got - wrong / sum(table.values())) < 1e-12, "logical_error_rate", got, "expected", wrong, "/", sum(table.values()))
                    need(table == snap, "logical_error_rate modified the counts")
                    if not real:
                        need(all(x[1] == "Z" for x in dec.calls), "decoded as", set(x[1] for x in dec.calls))
                return
            from qiskit_aer.noise import NoiseModel, pauli_error
            pool = [0.01 * k for k in range(1, 16)]
            dec = FakeDecoder(lambda s, t, p: 0, d=(3, 5), T=rng.choice([1, 4]))
            circ = QuantumCircuit(4, 4)
            circ.id(range(4)); circ.measure(range(4), range(4))

            def noise(rate):
                k = next(i for i, r in enumerate([0.0] + pool) if abs(r - rate) < 1e-12)
                nm = NoiseModel()
                for q in range(4):
                    if k >> q & 1:
                        nm.add_quantum_error(pauli_error([("X", 1.0)]), "id", [q])
                return nm

            class B(TopologicalBenchmark):
                def logical_error_rate(self, readout_strings, err_prob=None):
                    seen.append((dict(readout_strings), err_prob))
                    (s, n), = readout_strings.items()
                    return f[int(s.replace(" ", ""), 2)] + n * 1e-9
            f = [0.0] + [round(rng.random(), 6) for _ in pool]
            seen = []
            saved = []
            if rng.random() < .5 or c["kind"] == "append":
                b0 = B(dec, circ, noise)
                for _ in range(rng.randrange(1, 5)):
                    p, l = rng.choice(pool), round(rng.random(), 6)
                    b0.append_data(p, l); saved.append((p, l))
            if c["kind"] == "append":
                fn = b0.filename
                bs = [b0] + [B(dec, circ, noise) for _ in range(rng.randrange(3))]
                for p, l in [(rng.choice(pool), round(rng.random(), 6)) for _ in range(rng.randrange(1, 12))]:
                    rng.choice(bs).append_data(p, l); saved.append((p, l))
                    if rng.random() < .2:
                        bs[rng.randrange(len(bs))] = B(dec, circ, noise)
                    if rng.random() < .1:
                        os.remove(fn); saved.clear(); continue
                    dat = np.load(fn)
                    chk(dat, saved, dec)
                if not saved: return
                an = TopologicalAnalysis(fn); an.load_data()
                need(tuple(int(x) for x in an.params["d"]) == tuple(dec.params["d"]) and an.params["T"] == dec.params["T"], "loaded params", an.params)
                need(sorted(zip(an.data["physical_error_rates"], an.data["logical_error_rates"])) == sorted(saved), "loaded data")
                return
            b = B(dec, circ, noise)
            rates = rng.sample(pool, rng.randrange(1, 5))
            r0 = list(rates)
            deg = rng.random() < .5
            save = rng.random() < .7
            b.sweep(rates, save_data=save, shots=32, deg_weight=deg)
            need(rates == r0, "sweep modified the list of rates")
            lut = {r: f[1 + pool.index(r)] + 32e-9 for r in rates}
            need(list(b.data["physical_error_rates"]) == sorted(rates), "sweep rates", list(b.data["physical_error_rates"]), "expected", sorted(rates))
            need([round(x, 12) for x in b.data["logical_error_rates"]] == [round(lut[r], 12) for r in sorted(rates)], "sweep pairs", list(b.data["logical_error_rates"]), "expected", [lut[r] for r in sorted(rates)])
            for cnt, p in seen:
                (s, n), = cnt.items()
                k = int(s.replace(" ", ""), 2)
                need(p == (pool[k - 1] if deg else None), "decoded with err_prob", p, "at rate", pool[k - 1])
            if save:
                saved += [(r, lut[r]) for r in rates]
            # a second sweep and singles start afresh but keep the file
            seen.clear()
            if save and rng.random() < .5:
                B(dec, circ, noise).append_data(0.5, 0.25); saved.append((0.5, 0.25))
            v = b.single(rates[0], save_data=save, shots=32)
            need(round(v, 12) == round(lut[rates[0]], 12), "single gave", v)
            if save: saved.append((rates[0], v))
            more = rng.sample(pool, 2)
            b.sweep(more, save_data=save, shots=32, deg_weight=deg)
            need(list(b.data["physical_error_rates"]) == sorted(more), "second sweep rates", list(b.data["physical_error_rates"]))
            lut.update({r: f[1 + pool.index(r)] + 32e-9 for r in more})
            need([round(x, 12) for x in b.data["logical_error_rates"]] == [round(lut[r], 12) for r in sorted(more)], "second sweep pairs")
            if save:
                saved += [(r, lut[r]) for r in more]
            if saved:
                chk(np.load(b.filename), saved, dec)
            elif os.path.exists(b.filename):
                raise Fail("a file was written although save_data is off")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def chk(dat, saved, dec):
    P, L = list(dat["physical_error_rates"]), list(dat["logical_error_rates"])
    need(P == sorted(P), "file rates not sorted", P)
    need(sorted((round(p, 12), round(l, 12)) for p, l in zip(P, L)) == sorted((round(p, 12), round(l, 12)) for p, l in saved), "file holds", list(zip(P, L)), "expected", saved)
    need(tuple(dat["d"]) == tuple(dec.params["d"]) and int(dat["T"]) == dec.params["T"], "file d/T")


def known_C16():
    """recorded finding: sweep_mp cannot pickle its lambda. Returns a message while the defect is there."""
    from qtcodes.tools.benchmarking import TopologicalBenchmark
    import subprocess, sys
    code = ("import warnings;warnings.filterwarnings('ignore');import sys;sys.path.insert(0,%r)\n"
            "from qtcodes.tools.benchmarking import TopologicalBenchmark as B\n"
            "from qiskit import QuantumCircuit\n"
            "class D:\n  params={'d':(3,3),'T':1}\n  def correct_readout(self,*a,**k): return 0\n"
            "c=QuantumCircuit(1,1);c.id(0);c.measure(0,0)\n"
            "b=B(D(),c,lambda r: None)\nb.sweep_mp([0.1,0.2],save_data=False,shots=8)\nprint('OK',list(b.data['physical_error_rates']),b.data['logical_error_rates'])\n" % sys.path[0])
    return code
