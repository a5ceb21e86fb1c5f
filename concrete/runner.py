"""Bounded CPython stage.  usage: runner.py run ID TIER SEED BUDGET_S HINTS.json OUT.json  |  runner.py case CASE.json
Runs under the interpreter that runs qtcodes, imports the code from /repo."""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import Fail, UnsupportedOp
import p_circ, p_dec, p_sys


def get(kind, pid):
    for m in (p_circ, p_dec, p_sys):
        f = getattr(m, "%s_%s" % (kind, pid), None)
        if f is not None:
            return f
    raise SystemExit("no oracle for " + pid)


def one(pid, case):
    """None, or (kind, message)"""
    try:
        get("run", pid)(case)
        return None
    except Fail as e:
        return "fail", str(e)
    except UnsupportedOp as e:
        return "unsupported", "operation outside the simulator: " + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any("/qtcodes/" in (f.filename or "") for f in tb)
        return ("fail" if inside else "error"), "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=8))


def main():
    if sys.argv[1] == "case":
        d = json.load(open(sys.argv[2]))
        r = one(d["property"], d["case"])
        if r is None:
            print("case holds"); return 0
        print(r[0].upper(), r[1]); return 1
    if sys.argv[1] == "known":           # the recorded finding sweep_mp: exit 7 while it fails as recorded, 0 when it works, 1 on another failure
        import subprocess
        r = subprocess.run([sys.executable, "-c", p_dec.known_C16()], capture_output=True, text=True, timeout=120)
        if r.returncode == 0 and "OK [0.1, 0.2] [0.0, 0.0]" in r.stdout:
            return 0
        last = r.stderr.strip().splitlines()[-1] if r.stderr.strip() else r.stdout.strip()
        print(last)
        return 7 if "pickle" in last else 1
    pid, tier, seed, budget, hints, out = sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5]), sys.argv[6], sys.argv[7]
    H = json.load(open(hints)) if os.path.exists(hints) else []
    rng = random.Random("%s/%d" % (pid, seed))
    t0 = time.time()
    n = 0; seen = set(); samples = []; fails = []; unsup = []; errs = []; trunc = False
    for case in get("cases", pid)(tier, rng, H):
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            continue
        if time.time() - t0 > budget:
            trunc = True
            break
        seen.add(key); n += 1
        if len(samples) < 3: samples.append(case)
        r = one(pid, case)
        if r is None:
            continue
        if r[0] == "fail":
            fails.append(dict(case=case, message=r[1]))
            break
        (unsup if r[0] == "unsupported" else errs).append(dict(case=case, message=r[1]))
        if len(errs) > 2:
            break
    json.dump(dict(property=pid, evaluations=n, distinct=len(seen), samples=samples, failures=fails, unsupported=unsup[:3], errors=errs, truncated=trunc, wall_s=time.time() - t0), open(out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
