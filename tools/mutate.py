"""development aid: run deductive stages against mutated copies of /repo.  python3 mutate.py [filter]"""
import sys, os, shutil, subprocess, json, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(sys.argv[1]))
flt = sys.argv[2] if len(sys.argv) > 2 else ""

def one(m):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/qtcodes", d + "/qtcodes")
        for f, a, b in m["edits"]:
            p = d + "/qtcodes/" + f
            s = open(p).read()
            if a not in s: return m["name"], "EDIT DOES NOT APPLY: " + a
            s = s.replace(a, b, m.get("count", 1))
            open(p, "w").write(s)
        out = []
        for pid in m["props"]:
            subprocess.run(["python3-vt", V + "/pyvc/prove.py", pid, "quick", d + "/o.json"], env=dict(os.environ, QT_REPO=d), capture_output=True, timeout=900)
            r = json.load(open(d + "/o.json"))
            st = {}
            for o in r["obligations"]: st.setdefault(o["status"], []).append(o)
            txt = "%s %s %s" % (pid, r["status"], {k: len(v) for k, v in st.items()})
            bad = st.get("refuted") or st.get("unsupported") or st.get("unknown") or []
            for o in bad[:2]: txt += "\n      %s %s | %s" % (o["status"], o["name"], o["detail"][:200])
            if r["note"]: txt += "\n      note " + r["note"][:200]
            out.append(txt)
        return m["name"] + " (want %s)" % m.get("want", "?"), "\n    ".join(out)
    finally:
        shutil.rmtree(d)

with cf.ThreadPoolExecutor(int(os.environ.get("MUT_J","2"))) as ex:
    for n, t in ex.map(one, [m for m in M if flt in m["name"]]): print(n, "\n   ", t, flush=True)
