#!/usr/bin/env python3
"""Builds and runs one property's checks:  run.py <property> <quick|thorough>
Everything is compiled from /repo's working tree; outputs go to /verif/build
(cache keyed by content), /verif/replays and /verif/evidence."""
import hashlib, json, os, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XTR_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from parts import PARTS, SEQ_FLAGS  # noqa

COMMON = ["-std=c++20", "-g1", "-DXTR_FUNC=", "-I" + REPO + "/include", "-I" + REPO + "/src", "-w", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (compile flags for xtr and harness, link flags)
    "mc": (["-O1", "-DNDEBUG", "-DXTR_SINK_CAPACITY=4096", "-no-pie", "-fno-pie", "-fsanitize=thread",
            "--param", "tsan-instrument-func-entry-exit=0"],
           ["-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
    "asan": (["-O1", "-DNDEBUG", "-DXTR_SINK_CAPACITY=4096", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined", "-rdynamic"]),
    "plain": (["-O1", "-DNDEBUG", "-DXTR_SINK_CAPACITY=4096", "-D_GLIBCXX_ASSERTIONS"], ["-rdynamic"]),
    "dbg": (["-O1", "-DXTR_SINK_CAPACITY=4096", "-D_GLIBCXX_ASSERTIONS"], ["-rdynamic"]),
}
LIBS = ["-lfmt", "-luring", "-lpthread", "-ldl"]

def sha(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(x if isinstance(x, bytes) else str(x).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inc", ".ipp")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

class BuildError(Exception): pass

def compile_one(src, flags, hdr):
    key = sha(open(src, "rb").read(), " ".join(flags), hdr, src)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, obj)
    return obj

def build(part):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    variant, name = part["variant"], part["src"]
    vflags, lflags = VARIANTS[variant]
    extra = part.get("flags", [])
    xtr_extra = part.get("xtr_flags", extra)
    hdr = tree_hash([REPO + "/include", REPO + "/src"])
    vh = tree_hash([V + "/mc", V + "/seq"])
    jobs = []
    if part.get("xtr", True):
        for s in sorted(glob.glob(REPO + "/src/*.cpp")):
            if os.path.basename(s) == "xtrctl.cpp": continue
            jobs.append((s, COMMON + vflags + xtr_extra, hdr))
    if part.get("xtrctl"):
        jobs.append((REPO + "/src/xtrctl.cpp", COMMON + vflags + xtr_extra + ["-Dmain=xtrctl_main"], hdr))
    d = "mc" if variant == "mc" else "seq"
    hs = os.path.join(V, d, name + ".cpp")
    jobs.insert(0, (hs, COMMON + vflags + extra + ["-I" + V + "/" + d, "-I" + V + "/mc"], hdr + vh))
    if variant == "mc":
        jobs.append((V + "/mc/mcrt.cpp", ["-std=c++20", "-O2", "-g1", "-no-pie", "-fno-pie", "-fno-threadsafe-statics"], vh))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = sha(*(objs + lflags + part.get("link", [])))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (variant, name, key))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + lflags + part.get("link", []) + objs + LIBS + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe

def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l.split("key=", 1)[1].split(" ", 1))
    return out  # [(key, text)]

def main():
    if sys.argv[1] == "--setup":
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        print("nothing to prepare: every check builds what it needs from /repo")
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    known = known_findings(prop)
    res, violated = [], False
    for part in PARTS[prop]:
        if part.get("tier") and part["tier"] != tier: continue
        try:
            exe = build(part)
        except BuildError as e:
            print("BUILD ERROR:", e)
            return 2
        out = os.path.join(BUILD, "out-%s-%s-%d.json" % (prop, part["src"], os.getpid()))
        env = dict(os.environ)
        env["XTR_REPO"] = REPO
        env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0")
        env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0:exitcode=77")
        env["KNOWN_FINDINGS"] = "\n".join(k for k, _ in known)
        env["SCRATCH_DIR"] = os.path.join(BUILD, "scratch-%d" % os.getpid())
        shutil.rmtree(env["SCRATCH_DIR"], ignore_errors=True)
        os.makedirs(env["SCRATCH_DIR"])
        cmd = [exe, "--property", prop, "--tier", tier, "--out", out, "--replay-dir", os.path.join(V, "replays")] + part.get("args", [])
        t1 = time.time()
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=None if os.environ.get("MC_VERBOSE") else subprocess.DEVNULL, text=True, errors="replace")
        saw = False
        for l in p.stdout:
            if l.startswith("KNOWN-KEY "):
                k = l.split()[1]
                for kk, t in known:
                    if kk == k: print("KNOWN-FINDING: property=%s %s" % (prop, t))
                continue
            sys.stdout.write(l)
            if l.startswith("VIOLATION property="): saw = True
        rc = p.wait()
        shutil.rmtree(env["SCRATCH_DIR"], ignore_errors=True)
        sys.stdout.flush()
        if rc not in (0, 1) or (rc == 1 and not saw):
            print("CHECK ERROR: %s exited with %s" % (part["src"], rc))
            return 2
        r = json.load(open(out)); os.unlink(out)
        r["part"] = "%s/%s" % (part["variant"], part["src"])
        r["wall_s"] = round(time.time() - t1, 2)
        res.append(r)
        if saw:
            violated = True
            break
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    lev = [c["level"] for c in man["checks"] if c["property"] == prop]
    level = lev[0] if lev else "exploration"
    cov = {"parts": res}
    ex = sum(r.get("executions", 0) for r in res)
    samples = sum((r.get("samples", [])[:8] for r in res), [])
    cov["samples"] = samples
    cov["rule"] = " | ".join(dict.fromkeys(r.get("rule", "") for r in res))
    cov["exhaustive"] = all(r.get("exhaustive", False) for r in res)
    if level == "model_checking":
        cov["states"] = sum(r.get("states", 0) for r in res)
        cov["transitions"] = sum(r.get("transitions", 0) for r in res)
        cov["traces_validated_against_impl"] = ex
    else:
        cov["evaluations"] = ex
        cov["distinct_nontrivial"] = sum(r.get("distinct_outcomes", 0) for r in res)
    assum = list(dict.fromkeys(sum((r.get("assumptions", []) for r in res), [])))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum,
              wall_s=round(time.time() - t0, 2), violations=int(violated))
    tmp = os.path.join(V, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))
    print("%s %s: %s in %.1f s (%d executions)" % (prop, tier, "VIOLATED" if violated else "held", time.time() - t0, ex))
    return 1 if violated else 0

if __name__ == "__main__":
    sys.exit(main())
