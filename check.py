#!/usr/bin/env python3
"""check.py ID  -- one property: deductive stage (pyvc/prove.py) and bounded CPython stage (concrete/runner.py) on /repo's current tree.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no answer (harness error)."""
import json, os, re, subprocess, sys, tempfile, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QT_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"
ENV = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_REPO=REPO,
           OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2")


def known(pid):
    out = []
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def replay(pid, kind, data, log):
    d = os.path.join(V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, kind))
    json.dump(dict(property=pid, **data), open(path, "w"), indent=1)
    for l in log:
        print(l)
    return path


def main():
    pid = sys.argv[1]
    if pid == "--setup":          # nothing to build: only make sure both interpreters work
        subprocess.run([PY, "-c", "import qtcodes"], check=True, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run([VT, "-c", "import z3"], check=True)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="chk_%s_" % pid)
    try:
        return run(pid, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def deductive(pid, tier, tmp):
    out = os.path.join(tmp, "ded.json")
    lim = 420 if tier == "quick" else 3000
    cmd = [VT, os.path.join(V, "pyvc", "prove.py"), pid, tier, out]
    d = dict(obligations=[], functions=[], hints=[], assumptions=[], trusted=[], covers=[], status="none", note="")
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=lim, env=dict(ENV, PYTHONPATH=""))
        if os.path.exists(out):
            d.update(json.load(open(out)))
        else:
            d["status"] = "crash"
            d["note"] = (r.stderr or r.stdout)[-2000:]
    except subprocess.TimeoutExpired:
        d["status"] = "timeout"
        if os.path.exists(out):
            d.update(json.load(open(out)))
            d["status"] = "timeout"
    return d


def run(pid, tier, seed, t0, tmp):
    D = deductive(pid, tier, tmp)
    obs = D["obligations"]
    ok = [o for o in obs if o["status"] == "discharged"]
    ref = [o for o in obs if o["status"] == "refuted"]
    oth = [o for o in obs if o["status"] not in ("discharged", "refuted")]
    hints = os.path.join(tmp, "hints.json")
    json.dump(D["hints"], open(hints, "w"))
    cout = os.path.join(tmp, "conc.json")
    budget = 150 if tier == "quick" else 1500
    r = subprocess.run([PY, os.path.join(V, "concrete", "runner.py"), "run", pid, tier, str(seed), str(budget), hints, cout],
                       capture_output=True, text=True, env=ENV, timeout=budget + 240, cwd=tmp)
    C = json.load(open(cout)) if os.path.exists(cout) else dict(evaluations=0, distinct=0, samples=[], failures=[], unsupported=[], truncated=False,
                                                                errors=[dict(case=None, message="runner died: " + (r.stderr or "")[-1500:])])
    proved = bool(obs) and not ref and not oth and D["status"] == "ok"
    rc = 0
    lines = []
    path = None
    for kid, what in known(pid):
        k = subprocess.run([PY, os.path.join(V, "concrete", "runner.py"), "known", kid], capture_output=True, text=True, env=ENV, cwd=tmp, timeout=180)
        if k.returncode == 7:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
        elif k.returncode == 0:
            lines.append("note: recorded finding %s/%s no longer fails" % (pid, kid))
        else:
            C["failures"].append(dict(case=dict(known=kid), message="recorded call fails in another way: " + k.stdout.strip()))
    if C["failures"]:
        f = C["failures"][0]
        path = replay(pid, "case", dict(case=f["case"], message=f["message"],
                                        obligations=[o["name"] for o in ref + oth][:20],
                                        rerun="cd /verif && PYTHONPATH=/repo %s concrete/runner.py case %s" % (PY, "<this file>")), [])
        lines.append("failing case: %s" % json.dumps(f["case"])[:600])
        lines.append(f["message"][:1500])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif ref:
        path = replay(pid, "obligation", dict(obligations=ref, note="the verifier refutes these obligations; no failing input was found within the bounds of the concrete stage",
                                              concrete=dict(evaluations=C["evaluations"], truncated=C["truncated"])), [])
        for o in ref[:8]:
            lines.append("refuted obligation: %s [%s] %s" % (o["name"], o.get("fn", ""), str(o.get("detail", ""))[:400]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc = 1
    elif C["errors"] and not C["evaluations"] - len(C["errors"]) > 0:
        for e in C["errors"][:2]:
            lines.append("harness error: %s" % e["message"][:1500])
        if not proved:
            rc = 2
    elif C["errors"] and not proved:
        for e in C["errors"][:2]:
            lines.append("harness error: %s" % e["message"][:1500])
        rc = 2
    asm = list(D["assumptions"])
    stand_in = [o["name"] for o in oth]
    if not proved:
        asm.append("not proved on this tree: %s %s; covered only by the bounded CPython stage" % (D["status"], ("obligations " + ", ".join(stand_in[:10])) if stand_in else D.get("note", "")[:300]))
    by = {}
    for o in ok:
        by[o.get("backend", "?")] = by.get(o.get("backend", "?"), 0) + 1
    ev = dict(property=pid, tier=tier, seed=seed, level="proof" if proved else "exploration", wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0,
              assumptions=asm,
              coverage=dict(obligations=len(obs), discharged=len(ok),
                            checker_cmd="%s pyvc/prove.py %s %s OUT.json" % (VT, pid, tier),
                            trusted_base=D["trusted"] or ["none used"],
                            discharged_by=by, solver_s=round(D.get("solver_s", 0), 2), deductive_status=D["status"], deductive_note=D.get("note", "")[:500],
                            functions_under_contract=D["functions"], reachability_covers=D["covers"],
                            obligation_names=[o["name"] for o in obs][:400], undecided=[(o["name"], o["status"], str(o.get("detail", ""))[:200]) for o in oth][:40],
                            refuted=[o["name"] for o in ref][:40],
                            evaluations=C["evaluations"], distinct_nontrivial=C["distinct"],
                            rule="bounded CPython stage (never counted as proved): cases_%s of /verif/concrete drawn from VERIF_SEED plus sizes suggested by counter-models; a case is one configuration/input whose oracle ran to the end; distinct by its JSON text" % pid,
                            samples=C["samples"], bounded_truncated=C["truncated"], bounded_unsupported=len(C["unsupported"])))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print("%s %s: obligations %d discharged %d refuted %d undecided %d (%s); bounded cases %d%s; %.1f s" % (
        pid, "VIOLATED" if rc == 1 else "holds" if rc == 0 else "undecided", len(obs), len(ok), len(ref), len(oth), D["status"], C["evaluations"], " truncated" if C["truncated"] else "", time.time() - t0))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
