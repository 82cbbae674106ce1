#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py DEFS.py [id...]  -- DEFS.py defines S = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<C++ text>, srcs=[extra /repo/src files], inc=[include dirs beside the demo])].
Writes seeded/<id>/, then confirms: applies, builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, json, subprocess, runpy, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Run with cwd /repo after the build: compiles demo.cc against the built library, runs it in a scratch folder.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 %(flags)s -fPIC -DASIO_STANDALONE -include string -include cctype -include cstdint -include cmath %(inc)s -I"$R/src" -I"$R/deps" "$D/demo.cc" %(srcs)s "$R/_build/libquarkdb-core.a" %(libs)s -lrocksdb -lssl -lcrypto -luuid -lz -lbz2 -llz4 -lzstd -ldw -lpthread -ldl -o "$T/demo" >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 2; }
cd "$T" && timeout %(to)d ./demo >"$T/out" 2>&1; rc=$?; grep -a DEMO "$T/out"; exit $rc
'''
def main():
    defs = runpy.run_path(sys.argv[1])["S"]; want = set(sys.argv[2:])
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    for s in defs:
        if want and s["id"] not in want: continue
        d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True); patch = ""
        for f, o, n in s["edits"]:
            t = open(f"{R}/{f}").read(); assert t.count(o) == 1, (s["id"], f, "matches", t.count(o)); open(f"{R}/{f}", "w").write(t.replace(o, n))
        patch = sh("git -C /repo diff").stdout; sh("git -C /repo checkout -- .")
        open(d + "/patch.diff", "w").write(patch); open(d + "/demo.cc", "w").write(s["demo"])
        for name, text in s.get("extra", {}).items():
            os.makedirs(os.path.dirname(f"{d}/{name}"), exist_ok=True); open(f"{d}/{name}", "w").write(text)
        for src, dst in s.get("copy", []):
            dst=f"{d}/{dst}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(src, dst) if os.path.isdir(src) else (os.makedirs(os.path.dirname(dst), exist_ok=True), shutil.copy(src, dst))
        open(d + "/demo.sh", "w").write(DEMO % dict(flags=s.get("flags", ""), libs=s.get("libs", ""), inc=" ".join(f'-I"$D/{i}"' for i in s.get("inc", [])), srcs=" ".join(f'"$R/{x}"' for x in s.get("srcs", [])), to=s.get("to", 60))); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout
        r0 = sh(f"bash {d}/demo.sh", cwd=R)
        a = sh(f"git -C {R} apply {d}/patch.diff"); assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/build.sh"); sh("bash /opt/vp/test.sh /tmp/plant.json"); r1 = sh(f"bash {d}/demo.sh", cwd=R)
        base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/plant.json"))
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
        need = set(base["stable"]); got = set(out["passed"])
        ok = r0.returncode == 0 and r1.returncode not in (0, 2, 3) and b.returncode == 0 and need <= got
        print(s["id"], "OK" if ok else "BAD", "demo", r0.returncode, "->", r1.returncode, "build", b.returncode, "tests missing", sorted(need - got)[:3], (r0.stdout[-500:] + r1.stdout[-300:]) if not ok else r1.stdout.strip()[-160:], flush=True)
main()
