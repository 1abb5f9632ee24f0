#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property against /repo's working tree
   check.py PROPERTY --replay F replay a saved counterexample
   check.py --setup             look for the tools the checks need
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough)."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
JOBS = os.cpu_count() or 8

UNITS = {
    "props_motion": ["P%02d" % i for i in range(1, 10)],
    "props_law": ["P%02d" % i for i in range(10, 15)],
    "props_geom": ["P15", "P16", "P17", "P24"],
    "props_aggr": ["P18", "P19", "P20", "P21"],
    "props_env": ["P22", "P23", "P27", "P29"],
    "props_math": ["P25", "P26"],
    "props_plot": ["P28"],
}
UNIT_OF = {p: u for u, ps in UNITS.items() for p in ps}

SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CXX = {
    "random": ["g++"] + SAN + ["-ftrivial-auto-var-init=pattern"],
    "fuzz": ["clang++"] + SAN + ["-fsanitize=fuzzer-no-link", "-ftrivial-auto-var-init=pattern", "-DPBT_FUZZ"],
}
LIBSTD, HSTD = ["-std=gnu++14"], ["-std=gnu++17"]
# uninitialised heap reads become NaN, so that they show and show every time
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=255:allocator_may_return_null=1:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")


def log(msg):
    print(msg, flush=True)


def includes(real_plot):
    inc = [] if real_plot else ["-I" + os.path.join(H, "stub")]
    inc += ["-I" + H, "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
    if real_plot:
        inc += ["-isystem", "/usr/lib/python3/dist-packages/numpy/core/include", "-isystem", "/usr/include/python3.12"]
    return inc


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    r = []
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), H):
        for d, _, fs in os.walk(base):
            r += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".hh", ".tpp", ".ipp"))]
    return sorted(r)


def compile_one(src, cmd, key):
    obj = os.path.join(BUILD, os.path.basename(src)[:-4] + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=BUILD)
    os.close(fd)
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if r.returncode != 0:
        os.unlink(tmp)
        return None, r.stdout.decode(errors="replace")
    os.rename(tmp, obj)
    return obj, None


def build(unit, kind, main, real_plot=False):
    """returns (binary, None) or (None, compiler output)"""
    os.makedirs(BUILD, exist_ok=True)
    hs = headers()
    lib = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    jobs = []
    for s in [os.path.join(H, unit + ".cpp"), os.path.join(H, main)] + lib:
        std = HSTD if s.startswith(H) else LIBSTD
        cmd = CXX[kind] + std + includes(real_plot)
        jobs.append((s, cmd, digest([s] + hs, cmd)))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(lambda j: compile_one(*j), jobs))
    for o, err in done:
        if o is None:
            return None, err
    objs = [o for o, _ in done]
    fd, exe = tempfile.mkstemp(prefix=unit + ".", dir=BUILD)
    os.close(fd)
    link = CXX[kind][:1] + SAN + (["-fsanitize=fuzzer"] if kind == "fuzz" else []) + objs + ["-o", exe]
    if real_plot:
        link += ["-lpython3.12"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if r.returncode != 0:
        os.unlink(exe)
        return None, r.stdout.decode(errors="replace")
    prune()
    return exe, None


def prune():
    objs = sorted(glob.glob(os.path.join(BUILD, "*.o")), key=os.path.getmtime)
    for o in objs[:-160]:
        try:
            os.unlink(o)
        except OSError:
            pass


def known_lines(pid):
    """(key, text) of the recorded findings of a property"""
    r = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                f = line.split(None, 3)
                if f[1] == "property=" + pid:
                    r.append((f[2].split("=", 1)[1], f[3].strip()))
    return r


def rules(doc):
    return " | ".join("[%s] non-trivial: %s" % (s["name"], s["rule"]) for s in doc["subs"])


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for t in ("g++", "clang++"):
            log("%s: %s" % (t, shutil.which(t)))
        sys.exit(0 if shutil.which("g++") else 2)
    pid = args[0]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    factor = args[args.index("--factor") + 1] if "--factor" in args else "1"
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    unit = UNIT_OF[pid]
    t0 = time.time()
    exe, err = build(unit, "random", "main.cpp")
    real = False
    if exe is None and pid != "P28":
        exe, err2 = build(unit, "random", "main.cpp", real_plot=True)
        real = exe is not None
    if exe is None:
        log("cannot build the check:\n" + err[-6000:])
        sys.exit(2)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, exe, tier, seed, tmp, replay, factor, t0, t_build, unit, real)
    finally:
        os.unlink(exe)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(pid, exe, tier, seed, tmp, replay, factor, t0, t_build, unit, real):
    known = known_lines(pid)
    common = ["--prop", pid, "--tier", tier, "--tmp", tmp]
    for k, _ in known:
        common += ["--known", k]
    if replay:
        r = subprocess.run([exe] + common + ["--replay", replay], env=ENV)
        if r.returncode == 3:
            log("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 0 if r.returncode == 0 else 2
    out = os.path.join(tmp, "out.json")
    limit = "420" if tier == "quick" else "3000"
    r = subprocess.run([exe] + common + ["--seed", str(seed), "--out", out, "--jobs", "8", "--factor", factor, "--limit", limit], env=ENV)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        log("the runner ended with %d" % r.returncode)
        return 2
    doc = json.load(open(out))
    extra = {}
    fuzz_fail = None
    if tier == "thorough" and doc["failure"] is None and not real:
        fuzz_fail, extra = fuzz(pid, unit, exe, common, seed, tmp)
    bad = doc["failure"] is not None or fuzz_fail is not None
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in doc["subs"]),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in doc["subs"]),
            "rule": "each case is generated from a seeded choice sequence; distinct by choice sequence; " + rules(doc),
            "samples": doc["samples"][:9],
            "checks": [{k: s[k] for k in ("name", "planned", "evaluations", "discards", "distinct_nontrivial")} for s in doc["subs"]],
            "classes": doc["labels"],
            "generator_choices": doc["choices"],
            "inconclusive": doc["inconclusive"],
            "notes": doc["notes"],
            "known_findings_met": doc["known"],
            "seconds_building": round(t_build, 1),
        },
        "assumptions": ["the reference model and the tolerances of the harness (see DESIGN.md)",
                        "the library is compiled with g++ -O1, address and undefined-behaviour sanitizers and Eigen's own assertions; plotting is replaced by a recorder" if not real else "the library is compiled with sanitizers and the real plotting header"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if bad else 0,
    }
    ev["coverage"].update(extra)
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = [doc["failure"]["input"] if doc["failure"] else "none"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for s in doc["subs"]:
        log("%s %s: %d cases, %d discarded, %d distinct non-trivial" % (pid, s["name"], s["evaluations"], s["discards"], s["distinct_nontrivial"]))
    for k, text in known:
        log("KNOWN-FINDING: property=%s %s (met %d times)" % (pid, text, doc["known"].get(k, 0)))
    if not bad:
        log("%s holds on everything explored (%.1f s)" % (pid, time.time() - t0))
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    dst = os.path.join(HERE, "replays", "%s-%s-%d.txt" % (pid, tier, seed))
    shutil.copyfile(os.path.join(tmp, "replay.txt") if doc["failure"] else fuzz_fail["replay"], dst)
    f = doc["failure"] or fuzz_fail
    log("%s\n%s\ncase: %s" % (f["sub"], f["message"], f["input"]))
    log("VIOLATION property=%s replay=%s" % (pid, dst))
    return 1


def fuzz(pid, unit, exe, common, seed, tmp):
    """coverage-guided search over the same property functions: the fuzzer's bytes are the choices.
    What it finds counts only if the runner reproduces it; returns (failure or None, extra evidence)"""
    fexe, err = build(unit, "fuzz", "fuzz.cpp")
    if fexe is None:
        return None, {"fuzzing": "the fuzz target does not build: " + err[-500:]}
    try:
        return fuzz_subs(pid, fexe, exe, common, seed, tmp)
    finally:
        os.unlink(fexe)


def fuzz_subs(pid, fexe, exe, common, seed, tmp):
    dirs = os.path.join(tmp, "corpus")
    os.makedirs(dirs)
    for k in range(40):
        os.makedirs(os.path.join(dirs, str(k)))
    r = subprocess.run([exe] + common + ["--seed", str(seed), "--dump", dirs, "--dump-count", "60"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    names = [n for n in r.stdout.decode().split("\n") if n]
    total = float(os.environ.get("VERIF_FUZZ_SECONDS", "420"))
    per = max(20, int(total / max(1, len(names))))
    report = []
    for k, name in enumerate(names):
        crash = os.path.join(tmp, "crash%d" % k)
        os.makedirs(crash)
        procs = []
        for j in range(JOBS):
            env = dict(ENV, PBT_PROP=pid, PBT_SUB=name)
            cmd = [fexe, os.path.join(dirs, str(k)), "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % per, "-max_len=4096", "-len_control=0",
                   "-timeout=60", "-rss_limit_mb=3500", "-reload=5", "-print_final_stats=1", "-artifact_prefix=" + crash + "/%d-" % j]
            logf = open(os.path.join(tmp, "fuzz%d.log" % j), "w")
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=logf, env=env), logf))
        for p, f in procs:
            try:
                p.wait(per + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            f.close()
        execs, cov, msg = 0, 0, ""
        for j in range(JOBS):
            for line in open(os.path.join(tmp, "fuzz%d.log" % j), errors="replace"):
                if "stat::number_of_executed_units" in line:
                    execs += int(line.split()[-1])
                if " cov: " in line:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                if "PBT VIOLATION" in line or "ERROR: AddressSanitizer" in line or "runtime error" in line:
                    msg = line.strip()
        found = sorted(glob.glob(os.path.join(crash, "*")), key=os.path.getsize)
        entry = {"check": name, "executions": execs, "edges_covered": cov, "corpus": len(os.listdir(os.path.join(dirs, str(k)))), "seconds": per, "processes": JOBS, "artifacts": len(found), "unconfirmed": 0}
        report.append(entry)
        for a in found[:6]:
            if os.path.basename(a).split("-", 1)[1].startswith(("oom-", "slow-unit-")):
                entry["unconfirmed"] += 1
                continue
            raw = open(a, "rb").read()
            words = [int.from_bytes(raw[i:i + 4], "little") for i in range(0, len(raw) - 3, 4)]
            rp = os.path.join(tmp, "replay.txt")
            with open(rp, "w") as f:
                f.write("property %s\nsub %s\nwords %d %s\n" % (pid, name, len(words), " ".join(map(str, words))))
            q = subprocess.run([exe] + common + ["--minimize", rp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
            if q.returncode == 3:
                text = open(rp).read().split("\n")
                get = lambda key: next((l[len(key) + 1:] for l in text if l.startswith(key + " ")), "")
                return {"sub": name, "message": get("message"), "input": get("input"), "replay": rp}, {"fuzzing": report}
            entry["unconfirmed"] += 1
            entry["unconfirmed_message"] = msg
    return None, {"fuzzing": report}


if __name__ == "__main__":
    main()
