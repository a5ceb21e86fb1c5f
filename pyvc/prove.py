"""python3-vt prove.py ID TIER OUT.json : discharge the proof obligations of one property from /repo's current source.

The units of work of a property (code family x size case x function ...) are divided over worker processes; each worker reads and
executes /repo's source itself."""
import sys, json, os, time, traceback, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
NW = int(os.environ.get("PYVC_WORKERS", "8"))
EMPTY = dict(obligations=[], functions=[], hints=[], assumptions=[], trusted=[], covers=[], solver_s=0, queries=0, by={}, note="")


def worker(pid, tier, out, shard):
    try:
        import spec, registry
        P = spec.Prover(pid, tier)
        P.shard = shard
        P.deadline = time.time() + (380 if tier == "quick" else 2900)
        f = registry.get(pid)
        if f is None:
            res = dict(EMPTY, status="none", note="no deductive stage for this property")
        else:
            f(P)
            res = P.result()
            res["status"] = "ok"
            res["units"] = sorted(map(repr, P.units))
    except Exception as e:
        res = dict(EMPTY, status="error", note="front end: %s: %s" % (type(e).__name__, e))
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    json.dump(res, open(out, "w"), indent=1, default=str)


def merge(rs):
    M = dict(EMPTY, obligations={}, functions=set(), hints=[], assumptions=[], trusted=[], covers=set(), by={})
    order = ["discharged", "unknown", "unsupported", "refuted"]
    sts = set()
    for r in rs:
        sts.add(r["status"])
        for o in r["obligations"]:
            p = M["obligations"].get(o["name"])
            if p is None: M["obligations"][o["name"]] = dict(o); continue
            p["n"] += o["n"]; p["secs"] += o["secs"]
            if order.index(o["status"]) > order.index(p["status"]): p["status"], p["detail"] = o["status"], o["detail"]
            for b in o["backend"].split("+"):
                if b and b not in p["backend"]: p["backend"] = (p["backend"] + "+" + b) if p["backend"] else b
        M["functions"] |= set(r["functions"])
        M["covers"] |= set(r["covers"])
        for k in ("hints", "assumptions", "trusted"):
            M[k] += [x for x in r[k] if x not in M[k]]
        M["solver_s"] += r["solver_s"]; M["queries"] += r.get("queries", 0)
        for k, v in r.get("by", {}).items(): M["by"][k] = M["by"].get(k, 0) + v
        if r["note"]: M["note"] = r["note"]
    M["obligations"] = list(M["obligations"].values())
    M["functions"] = sorted(M["functions"]); M["covers"] = sorted(M["covers"]); M["hints"] = M["hints"][:6]
    M["solver_s"] = round(M["solver_s"], 2)
    bad = sts - {"ok"}
    # every worker must have seen the same units of work, else some unit may have been left out
    if not bad and any(r.get("units") != rs[0].get("units") for r in rs): bad = {"error"}; M["note"] = "the workers disagree about the units of work"
    M["status"] = "none" if sts == {"none"} or (not bad and not M["obligations"]) else sorted(bad)[0] if bad else "ok"
    return M


def main():
    pid, tier, out = sys.argv[1:4]
    if len(sys.argv) > 4:
        i, n = sys.argv[4].split("/")
        return worker(pid, tier, out, (int(i), int(n)))
    ps = []
    for i in range(NW):
        o = "%s.%d" % (out, i)
        if os.path.exists(o): os.remove(o)
        err = None if os.environ.get("PYVC_DEBUG") else subprocess.DEVNULL
        ps.append((o, subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, tier, o, "%d/%d" % (i, NW)], stdout=err, stderr=err)))
    rs = []
    end = time.time() + (400 if tier == "quick" else 2950)
    for o, p in ps:
        try: p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
        if os.path.exists(o):
            rs.append(json.load(open(o)))
            os.remove(o)
        else:
            rs.append(dict(EMPTY, status="timeout" if p.returncode == -9 else "crash", note="worker ended with %s" % p.returncode))
    res = merge(rs)
    json.dump(res, open(out, "w"), indent=1, default=str)
    if os.environ.get("PYVC_DEBUG"):
        import collections
        c = collections.Counter(o["status"] for o in res["obligations"])
        print(pid, res["status"], dict(c), res.get("note"), res.get("solver_s"), res.get("by"))
        for o in res["obligations"]:
            if o["status"] != "discharged": print("  ", o["status"], o["name"], "|", o["detail"][:300])


main()
