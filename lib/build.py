"""Compiles QuarkDB's current sources, the runtime and the harnesses to LLVM IR (and, for replays, to native code)."""
import hashlib, os, subprocess, sys, glob, json, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QDB_REPO", "/repo")
BUILD = os.path.join(V, "build")
CLANG = "/usr/lib/llvm-18/bin/clang++"
LINK = "/usr/bin/llvm-link-18"
OPT = "/usr/bin/opt-18"
NCPU = os.cpu_count() or 4
SKIP = ("XrdPlugin.cc", "XrdQuarkDB.cc", "AsioPoller.cc")
PRE = ["-include", "string", "-include", "cctype", "-include", "cstdint", "-include", "cmath"]
# headers newer compilers no longer pull in by themselves
NATPRE = [x for h in "mutex shared_mutex thread functional memory optional vector map set atomic algorithm sstream array".split() for x in ("-include", h)]
INC = ["-I", REPO + "/src", "-I", REPO + "/deps"]
IRFLAGS = ["-std=c++17", "-O1", "-fno-pic", "-emit-llvm", "-D__NO_CTYPE", "-I" + V + "/rt/include", "-I" + V + "/rt/fake", "-I" + V + "/rt/api", "-DASIO_STANDALONE", "-DSYMX=1",
           "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-w"] + PRE + ["-include", "symx_prelude.hh"] + INC
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-I" + V + "/rt/fake", "-I" + V + "/rt/api", "-DASIO_STANDALONE", "-w"] + PRE + NATPRE + INC


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def tree_hash():
    """hash of everything a translation unit may include"""
    if "h" not in _hdr:
        fs = []
        for root in (REPO + "/src", REPO + "/deps", V + "/rt"):
            for d, dn, fn in os.walk(root):
                dn[:] = [x for x in dn if x not in ("asio", ".git")]
                for f in fn:
                    if f.endswith((".hh", ".h", ".hpp", ".inc")) or "/rt/include" in d:
                        fs.append(os.path.join(d, f))
        h = hashlib.sha256()
        for f in sorted(fs):
            h.update(f.encode()); h.update(rd(f))
        _hdr["h"] = h.hexdigest()
    return _hdr["h"]


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def engine():
    l = lock()
    subprocess.run(["bash", V + "/engine/build.sh"], check=True)
    l.close()
    return V + "/engine/build/symx"


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(src, out, flags):
    if os.path.exists(out):
        os.utime(out)
        return None
    tmp = out + ".tmp%d" % os.getpid()
    r = run([CLANG] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return r.stdout
    os.rename(tmp, out)
    return None


def repo_sources():
    r = []
    for d, dn, fn in os.walk(REPO + "/src"):
        for f in fn:
            if f.endswith(".cc") and f not in SKIP:
                r.append(os.path.join(d, f))
    for f in (glob.glob(REPO + "/deps/xxhash/*.c")):
        pass
    return sorted(r)


def prune():
    """keep the object cache small"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.endswith((".bc", ".o"))]
        fs.sort(key=lambda f: os.stat(f).st_mtime, reverse=True)
        for f in fs[1500:]:
            os.unlink(f)
    except OSError:
        pass


def repo_bitcode():
    """bitcode of every translation unit; returns (files, failures)"""
    th = tree_hash()
    jobs = []
    for s in repo_sources():
        rel = os.path.relpath(s, REPO)
        out = os.path.join(BUILD, sha(rd(s), rel, th, IRFLAGS) + ".bc")
        jobs.append((rel, s, out, IRFLAGS))
    for f in sorted(glob.glob(V + "/rt/src/*.cc")):
        fl = IRFLAGS + ["-fno-builtin"]
        jobs.append(("rt/" + os.path.basename(f), f, os.path.join(BUILD, sha(rd(f), th, fl) + ".bc"), fl))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: compile_one(j[1], j[2], j[3]), jobs))
    ok, bad = [], {}
    for j, r in zip(jobs, res):
        if r is None:
            ok.append(j[2])
        else:
            bad[j[0]] = r
    return ok, bad


def repo_library():
    """all of QuarkDB plus the runtime as one bitcode module"""
    l = lock()
    ok, bad = repo_bitcode()
    if "rt/cxxrt.cc" in bad or "rt/libc.c.cc" in bad:
        raise RuntimeError("runtime does not compile: " + str(bad)[:3000])
    out = os.path.join(BUILD, "lib-" + sha(*sorted(ok)) + ".bc")
    if not os.path.exists(out):
        r = run([LINK] + ok + ["-o", out + ".tmp"])
        if r.returncode != 0:
            raise RuntimeError("llvm-link: " + r.stdout[:3000])
        os.rename(out + ".tmp", out)
    prune()
    l.close()
    return out, bad


def harness_module(src, defs, entries, lib):
    fl = IRFLAGS + ["-D%s=%s" % kv for kv in sorted(defs.items())]
    th = tree_hash()
    out = os.path.join(BUILD, "h-" + sha(rd(src), th, fl, sorted(glob.glob(V + "/harness/*.hh")), *[rd(f) for f in sorted(glob.glob(V + "/harness/*.hh"))]) + ".bc")
    e = compile_one(src, out, fl)
    if e:
        raise RuntimeError("harness %s does not compile:\n%s" % (src, e[:4000]))
    mod = os.path.join(BUILD, "m-" + sha(out, lib, sorted(entries), KEEP) + ".bc")
    if not os.path.exists(mod):
        t = mod + ".tmp%d" % os.getpid()
        r = run([LINK, out, lib, "-o", t])
        if r.returncode != 0:
            raise RuntimeError("llvm-link: " + r.stdout[:3000])
        # drop code no entry can reach
        r = run([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(["h_" + e for e in entries] + KEEP), t, "-o", t + "2"])
        if r.returncode == 0:
            os.unlink(t); t = t + "2"
        os.rename(t, mod)
    return mod


WRAP = "stat fstat fileno mkdir fopen fread fwrite fclose feof ferror rename unlink system opendir readdir closedir statfs".split()
KEEP = ["__symx_override__ZN7quarkdb14RaftReplicator9getStatusEv", "__symx_override__ZNSt24uniform_int_distributionIiEclISt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEEEiRT_RKNS0_10param_typeE", "symx_now_ns", "symx_simtime", "symx_tick_ns", "symx_cpu", "__symx_override__ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z"]


def native_build(src, defs, entry, files, outdir):
    """native executable for one entry: harness + the named QuarkDB files"""
    os.makedirs(outdir, exist_ok=True)
    th = tree_hash()
    jobs = []
    for rel in sorted(set(files) | {"src/Utils.cc", "src/Commands.cc", "src/storage/KeyConstants.cc"}):
        s = os.path.join(REPO, rel)
        if not os.path.exists(s) or not s.endswith(".cc"):
            continue
        jobs.append((s, os.path.join(BUILD, "n-" + sha(rd(s), rel, th, NATFLAGS) + ".o"), NATFLAGS))
    hf = NATFLAGS + ["-D%s=%s" % kv for kv in sorted(defs.items())]
    jobs.append((src, os.path.join(BUILD, "n-" + sha(rd(src), th, hf, *[rd(f) for f in sorted(glob.glob(V + "/harness/*.hh"))]) + ".o"), hf))
    jobs.append((V + "/rt/src/fs.cc", os.path.join(BUILD, "n-" + sha(rd(V + "/rt/src/fs.cc"), th, NATFLAGS) + ".o"), NATFLAGS))
    rf = NATFLAGS + ["-DENTRY=h_" + entry]
    jobs.append((V + "/native/replay.cc", os.path.join(BUILD, "n-" + sha(rd(V + "/native/replay.cc"), th, rf) + ".o"), rf))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], j[2]), jobs))
    for j, r in zip(jobs, res):
        if r:
            raise RuntimeError("native compile of %s: %s" % (j[0], r[:2000]))
    exe = os.path.join(outdir, entry)
    r = run([CLANG, "-fsanitize=address", "-no-pie"] + [j[1] for j in jobs] + ["-Wl,--wrap=" + f for f in WRAP] + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-luuid", "-lcrypto", "-lpthread", "-ldl", "-rdynamic"])
    if r.returncode != 0:
        raise RuntimeError("native link: " + r.stdout[:3000])
    return exe
