#!/usr/bin/env python3
"""Run each planted bug's check against a patched copy of /repo: python3 tools/catch.py [id...] -> one line per bug."""
import sys, os, json, subprocess, tempfile, shutil, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); t = tempfile.mkdtemp(prefix="catch."); q = t + "/q"; t0 = time.time()
    try:
        subprocess.run(["cp", "-a", "/repo", q], check=True); a = subprocess.run(["git", "-C", q, "apply", f"{V}/seeded/{i}/patch.diff"], capture_output=True, text=True)
        if a.returncode: return f"{i} {m['property']} DOES-NOT-APPLY {a.stderr.strip()}"
        shutil.copytree(V, t + "/v", ignore=shutil.ignore_patterns("seeded", ".git"))
        r = subprocess.run(["python3", "check.py", m["property"], "--tier", "quick"], cwd=t + "/v", env=dict(os.environ, QDB_REPO=q), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + m["property"])]
        return f"{i} {m['property']} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc={r.returncode} {time.time()-t0:.0f}s {(v or r.stdout.splitlines()[-1:] or [''])[0][:200]}"
    finally: shutil.rmtree(t)
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
with cf.ThreadPoolExecutor(2) as ex:
    for l in ex.map(one, ids): print(l, flush=True)
