#!/usr/bin/env python3
"""Check driver: builds /repo's current sources together with a harness, explores, writes the evidence.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--budget S]
  run.py setup          check that the tools are there
  run.py all            every check, one after another (development)
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SRC = os.path.join(REPO, "eskf_vio_backend", "src")
INC = os.path.join(REPO, "eskf_vio_backend", "include")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = shutil.which("g++") or "g++"
JOBS = max(2, os.cpu_count() or 2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def include_dirs():
    dirs = sorted({os.path.dirname(p) for p in glob.glob(INC + "/**/*.h*", recursive=True)} | {INC})
    return dirs


def headers_digest():
    fs = sorted(glob.glob(INC + "/**/*", recursive=True)) + sorted(glob.glob(SRC + "/**/*.h*", recursive=True)) + \
        sorted(glob.glob(HERE + "/harness/common/*"))
    return digest(*[x for f in fs if os.path.isfile(f) for x in (f, read(f))])


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return "%s\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return None


def build(spec):
    """returns (binary, None) or (None, message)"""
    os.makedirs(BUILD, exist_ok=True)
    hd = headers_digest()
    base = ["-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing", "-pipe"] + spec.get("cxxflags", ["-O1"])
    inc = ["-I" + d for d in include_dirs()] + ["-isystem", "/usr/include/eigen3", "-I" + os.path.join(HERE, "harness/common")]
    harness = os.path.join(HERE, "harness", spec["harness"])
    allsrc = sorted(glob.glob(SRC + "/**/*.c*", recursive=True))
    allsrc = [s for s in allsrc if s.endswith((".cpp", ".cc", ".cxx"))]
    want = [s for s in allsrc if any(os.path.relpath(s, SRC).startswith(p) for p in spec["sources"])]
    rest = [s for s in allsrc if s not in want]

    def objs(srcs):
        jobs = []
        for s in srcs:
            fl = base + inc + spec.get("source_flags", [])
            jobs.append((s, os.path.join(BUILD, digest(s, read(s), hd, *fl) + ".o"), fl))
        return jobs
    hfl = base + inc + ["-fno-access-control"] + spec.get("harness_flags", [])
    hjob = (harness, os.path.join(BUILD, digest(harness, read(harness), hd, *hfl) + ".o"), hfl)
    jobs = [hjob] + objs(want)
    # the biggest files first
    jobs.sort(key=lambda j: -(10**9 if j[0] == harness else os.path.getsize(j[0]) + (10**6 if "multi_view" in j[0] else 0)))

    def comp(js):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            return [e for e in ex.map(compile_one, js) if e]
    errs = comp(jobs)
    if errs:
        return None, "\n".join(errs)
    binp = os.path.join(BUILD, "bin-" + digest(*sorted(j[1] for j in jobs)) + "-" + spec["harness"].split(".")[0])
    if os.path.exists(binp):
        return binp, None
    tmp = binp + ".%d.tmp" % os.getpid()

    def link(js):
        lf = [f for f in base if f.startswith(("-fsan", "-O", "-g"))] + spec.get("ldflags", [])
        return sh([CXX] + lf + [j[1] for j in js] + ["-o", tmp, "-lpthread"])
    r = link(jobs)
    if r.returncode != 0 and rest:
        # a source outside the usual set is needed: take everything
        jobs2 = objs(rest)
        errs = comp(jobs2)
        if errs:
            return None, "\n".join(errs)
        r = link(jobs + jobs2)
    if r.returncode != 0:
        return None, r.stdout[-6000:]
    os.replace(tmp, binp)
    return binp, None


def known_findings(pid):
    """lines "known: property=<id> signature=<what the check prints> <what fails>"; "fixed:" lines suppress nothing"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append({"signature": m.group(2), "what": m.group(3)})
    return out


def prune_build():
    """keep the object cache from growing without bound"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        fs = [f for f in fs if os.path.isfile(f)]
        if sum(os.path.getsize(f) for f in fs) > 1500 * 2**20:
            for f in sorted(fs, key=os.path.getmtime)[:len(fs) // 2]:
                os.unlink(f)
    except OSError:
        pass


def explore(binp, pid, tier, spec, workdir, only, budget, workers):
    known = known_findings(pid)
    cmd = [binp, "--property", pid, "--tier", tier, "--out", workdir, "--workers", str(workers), "--budget", str(budget),
           "--hang", str(spec.get("hang", 30))]
    for k in known:
        cmd += ["--known", k["signature"]]
    if only:
        cmd += ["--only", only]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_odr_violation=0:malloc_context_size=6:quarantine_size_mb=8"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    env["MC_WORK"] = workdir
    env.update(spec.get("env", {}))
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=workdir,
                       timeout=budget + 800)
    for line in r.stderr.splitlines():
        if line.startswith("warning:"):
            print("   " + line)
    res = os.path.join(workdir, "result.json")
    if not os.path.exists(res):
        return None, "exit %s\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-4000:])
    return json.load(open(res)), None


def check(pid, tier, only=None, budget=None):
    t0 = time.time()
    spec = CHECKS[pid]
    binp, err = build(spec)
    if err:
        print("BUILD ERROR for %s\n%s" % (pid, err))
        return 2
    tb = time.time() - t0
    budget = budget or spec.get("budget", {}).get(tier, 240 if tier == "quick" else 3600)
    workdir = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        for attempt in range(3):
            for f in os.listdir(workdir):
                p = os.path.join(workdir, f)
                if os.path.isfile(p):
                    os.unlink(p)
            res, err = explore(binp, pid, tier, spec, workdir, only, budget, JOBS if attempt == 0 else max(2, JOBS // 2))
            if err:
                print("HARNESS ERROR for %s: %s" % (pid, err))
                return 2
            if res["status"] != "incomplete":
                break
        replay = ""
        if res["status"] == "violation":
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            replay = os.path.join(HERE, "replays", "%s-%s.txt" % (pid, digest(res["sig"], res["msg"], tier)[:10]))
            shutil.copy(res["replay"], replay)
        sc = res["scenarios"]
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
            "coverage": {
                "states": res["states"], "transitions": res["transitions"],
                "traces_validated_against_impl": res["executions"],
                "executions": res["executions"], "oracle_checks": res["checks"], "values_compared_with_reference": res["comparisons"],
                "distinct_outcomes": res["outcomes"],
                "exhaustive": bool(res["status"] == "ok" and not res["capped"]),
                "capped_by_time": bool(res["capped"]),
                "bounds": {s["name"]: s["bounds"] for s in sc},
                "deviation_bounds": {s["name"]: s["deviation_bound"] for s in sc},
                "executions_per_scenario": {s["name"]: s["executions"] for s in sc},
                "known_findings_hit": res["known"],
                "rule": "every choice sequence of each scenario is executed on the real code (no model in between) and judged step by step by a reference; states are distinct observable states, outcomes distinct final observations",
                "samples": res["samples"][:6],
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if res["status"] == "violation" else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        print("%s %s: %d executions, %d states, %d transitions, %d outcomes, %d oracle checks, %s; build %.1f s, total %.1f s" % (
            pid, tier, res["executions"], res["states"], res["transitions"], res["outcomes"], res["checks"],
            "exhaustive within bounds" if ev["coverage"]["exhaustive"] else "not exhausted (%s)" % res["status"], tb, time.time() - t0))
        for s in sc:
            print("   %-28s %9d executions  (%s)" % (s["name"], s["executions"], s["bounds"]))
        if res["status"] == "violation":
            print("   %s: %s" % (res["sig"], res["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        if res["status"] != "ok":
            print("INCOMPLETE: " + res["msg"])
            return 2
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
        prune_build()


def replay(pid, path):
    spec = CHECKS[pid]
    tier = "quick"
    for line in open(path, errors="replace"):
        if line.startswith("tier "):
            tier = line.split()[1]
    binp, err = build(spec)
    if err:
        print(err)
        return 2
    workdir = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        env = dict(os.environ, MC_WORK=workdir, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", **spec.get("env", {}))
        return subprocess.run([binp, "--property", pid, "--tier", tier, "--out", workdir, "--replay", os.path.abspath(path)], env=env, cwd=workdir).returncode
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "setup":
        for t in (CXX,):
            r = sh([t, "--version"])
            print(r.stdout.splitlines()[0])
        return 0 if os.path.isdir("/usr/include/eigen3") else 2
    tier = os.environ.get("VERIF_TIER", "quick")
    only = budget = rep = None
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--budget":
            budget = float(args.pop(0))
        elif a == "--replay":
            rep = args.pop(0)
    if argv[0] == "all":
        rc = 0
        for pid in CHECKS:
            rc = max(rc, check(pid, tier, only, budget))
        return rc
    if rep:
        return replay(argv[0], rep)
    return check(argv[0], tier, only, budget)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
