#!/usr/bin/env python3
"""Decides one property: python3 check.py <ID> [--tier quick|thorough]   (exit 0 held, 1 violated, 2 no answer)"""
import sys, os, json, time, re, subprocess, shutil, threading, queue
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import build, spec
from concurrent.futures import ThreadPoolExecutor

ENGINE_ASSUMPTIONS = [
    "symbolic executor /verif/engine (LLVM 18 IR of the real sources at -O1, z3 QF_BV) and its memory model: object-granular bounds, allocation never fails below 1 GiB",
    "C/C++ runtime stand-ins in /verif/rt (streams, red-black trees, string conversion, locks, clock) behave as the real ones; logging produces no text",
]


def die(msg):
    print("NO-ANSWER: " + msg)
    sys.exit(2)


def run_entry(symx, mod, entry, t, slots, outdir, opts):
    out = os.path.join(outdir, entry + ".json")
    cmd = [symx, mod, "--entry", "h_" + entry, "--out", out, "--time", str(t), "--jobs", "8", "--slots", slots, "--repo", build.REPO + "/", "--samples", "3"] + opts
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t * 1.5 + 120)
    except subprocess.TimeoutExpired:
        return None, "engine timeout"
    if r.returncode != 0 or not os.path.exists(out):
        return None, "engine failed (%d): %s" % (r.returncode, r.stdout[-1500:])
    try:
        parts = json.load(open(out))
    except Exception as e:
        return None, "engine output unreadable: %s" % e
    m = {"violations": [], "samples": [], "functions": set(), "reach": {}, "incomplete": {}, "checks": {}, "ends": {}, "allReach": set()}
    for p in parts:
        for k, v in p.items():
            if k in ("violations", "samples"):
                m[k] += v
            elif k in ("functions", "allReach"):
                m[k] |= set(v)
            elif k in ("reach", "incomplete", "checks", "ends"):
                for a, b in v.items():
                    m[k][a] = m[k].get(a, 0) + b
            elif k in ("maxDepth", "maxz3", "wall"):
                m[k] = max(m.get(k, 0), v)
            elif isinstance(v, (int, float)):
                m[k] = m.get(k, 0) + v
    return m, None


def flat(inputs):
    r = []
    for i in inputs:
        r += i["v"]
    return r


def native_run(exe, inputs, path, timeout=40):
    with open(path, "w") as f:
        f.write(" ".join(str(x) for x in flat(inputs)) + "\n")
    d = path + ".cwd"
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=14:allocator_may_return_null=1:detect_container_overflow=0")
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, env=env)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduced(v, rc, txt):
    k = v["kind"]
    if k == "check":
        return rc == 11 and ("REPLAY-VIOLATION " + v["msg"]) in txt
    if k == "memory":
        return rc == 14 or rc < 0 or "AddressSanitizer" in txt
    if k == "exception":
        return rc in (13, 14) or rc < 0
    if k in ("abort", "arithmetic", "undefined", "stack-overflow"):
        return rc in (1, 13, 14) or rc < 0
    if k in ("deadlock", "lock", "hang"):
        return rc == 124 or rc < 0
    return False


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = spec.CHECKS[pid]
    outdir = os.path.join(build.BUILD, "out", pid + "-" + tier)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    try:
        symx = build.engine()
        lib, bad = build.repo_library()
    except Exception as e:
        die("build: %s" % str(e)[:3000])
    tb = time.time() - t0
    known = []
    kf = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == pid:
                    known.append(k)
    tasks = []
    for h in c["harnesses"]:
        src = os.path.join(V, "harness", h["file"])
        defs = dict(h.get("defs", {}))
        defs.update(h.get(tier, {}))
        ents = [e for e in h["entries"] if not only or e in only]
        if not ents:
            continue
        try:
            mod = build.harness_module(src, defs, ents, lib)
        except Exception as e:
            die(str(e)[:4000])
        for e in ents:
            tasks.append(dict(h=h, src=src, defs=defs, mod=mod, entry=e))
    budget = c.get("time", {}).get(tier, 500 if tier == "quick" else 3000)
    ncpu = build.NCPU
    par = min(len(tasks), ncpu) or 1
    # the free processors, shared by all runs
    slots = os.path.join(outdir, "slots")
    with open(slots, "wb") as f:
        f.write(int(ncpu).to_bytes(4, "little") + bytes(4092))
    results = {}

    def one(t):
        o = list(t["h"].get("opts", []))
        return run_entry(symx, t["mod"], t["entry"], budget, slots, outdir, o)
    # longest first
    tasks.sort(key=lambda t: -t["h"].get("weight", 1))
    with ThreadPoolExecutor(c.get("parallel", par)) as ex:
        for t, r in zip(tasks, ex.map(one, tasks)):
            t["res"], t["err"] = r
    inconclusive, violations, knownlines = [], [], []
    agg = dict(paths=0, completed=0, forks=0, steps=0, queries=0, z3calls=0, sat=0, unsat=0, unknown=0, assertQueries=0, assertZ3=0, assertTrivial=0, domainHits=0, cacheHits=0, z3time=0.0)
    funcs = set()
    samples = []
    per = []
    validated = 0
    mismatches = []
    for t in tasks:
        if t["err"]:
            inconclusive.append("%s: %s" % (t["entry"], t["err"]))
            continue
        m = t["res"]
        for k in agg:
            agg[k] += m.get(k, 0)
        funcs |= m["functions"]
        missing = sorted(m["allReach"] - set(m["reach"]))
        pe = dict(entry=t["entry"], bounds=t["defs"], paths=m["completed"], steps=m["steps"], assertions=m["assertQueries"], wall_s=round(m["wall"], 2), reached=m["reach"], ends=m["ends"])
        per.append(pe)
        for s in m["samples"][:1]:
            samples.append(dict(entry=t["entry"], inputs={("%s[%d]" % (x["name"], n)): x["v"] for n, x in enumerate(s[:12])}))
        if m["incomplete"]:
            inconclusive.append("%s: exploration incomplete: %s" % (t["entry"], "; ".join("%s (x%d)" % kv for kv in sorted(m["incomplete"].items())[:6])))
        if not m["violations"] and missing:
            inconclusive.append("%s: labels never reached (vacuity guard): %s" % (t["entry"], missing))
        if not m["violations"] and not m["assertQueries"] and not t["h"].get("noassert"):
            inconclusive.append("%s: no assertion evaluated" % t["entry"])
    # ---- replay of counterexamples and validation of sampled paths on the native build
    ndir = os.path.join(outdir, "native")
    nval = 2 if tier == "quick" else 6

    def files_of(m):
        return sorted({f.split(" @ ")[1] for f in m["functions"]})
    for t in tasks:
        m = t.get("res")
        if not m:
            continue
        m["confirmed"] = []
        want = m["violations"] or (t["h"].get("validate", True) and m["samples"])
        if not want:
            continue
        if t["h"].get("threads") and not m["violations"]:
            continue
        try:
            exe = build.native_build(t["src"], t["defs"], t["entry"], files_of(m) + t["h"].get("native_files", []), ndir)
        except Exception as e:
            inconclusive.append("%s: native build failed: %s" % (t["entry"], str(e)[:1500]))
            continue
        for n, v in enumerate(m["violations"]):
            if v["kind"] == "hang" and any(e == t["entry"] for _, e, _ in violations):
                continue
            rdir = os.path.join(build.BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, t["entry"], n))
            ip = os.path.join(ndir, "%s-%d.in" % (t["entry"], n))
            if v.get("sched") or t["h"].get("threads"):
                # schedules: re-executed concretely (same inputs, same schedule) by the engine on the same code
                rc, txt, ok = 0, "schedule replay by the executor: " + str(v["sched"]), True
            else:
                rc, txt = native_run(exe, v["inputs"], ip)
                ok = reproduced(v, rc, txt)
            json.dump(dict(property=pid, entry=t["entry"], harness=t["h"]["file"], bounds=t["defs"], violation=v, native_exit=rc, native_output=txt[-4000:]), open(rp, "w"), indent=1)
            if not ok:
                inconclusive.append("%s: counterexample for '%s: %s' at %s did not reproduce natively (exit %d): %s" % (t["entry"], v["kind"], v["msg"], v["loc"][:200], rc, txt[-300:]))
                continue
            kmatch = [k for k in known if k["entry"] == t["entry"] and k["msg"] == v["msg"]]
            if kmatch:
                knownlines.append("KNOWN-FINDING: property=%s %s" % (pid, kmatch[0]["what"]))
            else:
                violations.append((rp, t["entry"], v))
        if not m["violations"]:
            for n, s in enumerate(m["samples"][:nval]):
                rc, txt = native_run(exe, s, os.path.join(ndir, "%s-s%d.in" % (t["entry"], n)))
                if rc == 0 and "REPLAY-END" in txt:
                    validated += 1
                else:
                    mismatches.append("%s: sampled path behaves differently natively (exit %d): %s" % (t["entry"], rc, txt[-400:]))
    inconclusive += mismatches
    bounds = c.get("bounds", "")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=agg["completed"], transitions=agg["steps"], traces_validated_against_impl=validated, samples=samples[:8] or ["none"],
                            functions_encoded=sorted(funcs), bounds=bounds, harnesses=per, paths_explored=agg["paths"], forks=agg["forks"], solver_queries=agg["queries"], z3_calls=agg["z3calls"], z3_sat=agg["sat"], z3_unsat=agg["unsat"], z3_unknown=agg["unknown"],
                            assertions_decided=agg["assertQueries"], assertions_decided_by_constant_folding=agg["assertTrivial"], assertion_z3_calls=agg["assertZ3"], byte_domain_decisions=agg["domainHits"], solver_cache_hits=agg["cacheHits"], solver_time_s=round(agg["z3time"], 3), compile_s=round(tb, 2),
                            note="states = completed symbolic paths, transitions = IR instructions executed; sources that do not compile here: " + (", ".join(sorted(bad)) or "none"),
                            inconclusive=inconclusive, known_findings=knownlines, exhaustive=not inconclusive),
              assumptions=ENGINE_ASSUMPTIONS + c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1, default=list)
    for k in sorted(set(knownlines)):
        print(k)
    print("%s %s: %d harnesses, %d paths, %d instructions, %d assertions decided (%d z3 calls, %.1fs solver), %d native validations, %.1fs" % (pid, tier, len(tasks), agg["completed"], agg["steps"], agg["assertQueries"], agg["z3calls"], agg["z3time"], validated, time.time() - t0))
    if violations:
        for rp, e, v in violations:
            print("  %s: %s: %s at %s" % (e, v["kind"], v["msg"], v["loc"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][0]))
        sys.exit(1)
    if inconclusive:
        for i in inconclusive:
            print("NO-ANSWER: " + i)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
