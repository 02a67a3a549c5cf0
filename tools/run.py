#!/usr/bin/env python3
"""Builds one check from /repo's working tree, runs it, writes its evidence file.

  run.py <ID> [quick|thorough]       run the check of property <ID>
  run.py --replay <file>             re-execute one recorded violation
  run.py --setup                     sanity check of the tools that the checks need

Nothing is written in /repo.  Objects go to a scratch directory that is removed at the end.
"""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

CXX = "g++"
INC = ["src", "src/features/keypoints", "src/features/lines", "src/features/primitives", "src/pose_optimization",
       "src/map_management", "src/map_management/map_features", "third_party", "src/tracking", "src/outputs",
       "src/utils", "src/coordinates"]
SYS = ["/usr/include/opencv4", "/usr/include/eigen3", "/usr/include/flann"]
LIBS = ["-Wl,--no-as-needed"] + ["-lopencv_" + x for x in
        ("core", "imgproc", "features2d", "video", "calib3d", "imgcodecs", "highgui", "flann")] + ["-ltbb", "-llz4", "-lpthread"]


def ccache():
    c = shutil.which("ccache")
    return [c] if c else []


def all_sources():
    out = []
    for top in ("src", "third_party"):
        for root, _, files in os.walk(os.path.join(REPO, top)):
            for f in sorted(files):
                if f.endswith((".cpp", ".cc", ".cxx")):
                    out.append(os.path.join(root, f))
    return sorted(out)


def wanted(spec, src):
    rel = os.path.relpath(src, REPO)
    return any(rel == d or os.path.dirname(rel) == d for d in spec["dirs"])


class BuildError(Exception):
    pass


def compile_one(args):
    src, obj, flags, env = args
    t = time.time()
    p = subprocess.run(ccache() + [CXX] + flags + ["-c", src, "-o", obj], capture_output=True, text=True, env=env)
    if p.returncode != 0:
        return src, p.stderr[-6000:], time.time() - t
    return src, None, time.time() - t


# the files that take longest to compile go first
HEAVY = ["polygon.cpp", "pose_optimization.cpp", "rgbd_slam.cpp", "inverse_depth_with_tracking.cpp",
         "plane_with_tracking.cpp", "primitive_detection.cpp"]


def build(spec, work):
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(VERIF, ".cache", "ccache")
    env["CCACHE_SLOPPINESS"] = "time_macros"
    env["CCACHE_NOHASHDIR"] = "1"
    base = ["-std=gnu++20", "-w", "-g0", "-D_GLIBCXX_ASSERTIONS", "-pthread"] + spec.get("flags", ["-O1"])
    inc = ["-I" + os.path.join(VERIF, d) for d in spec.get("stubs", []) + ["stubs", "harness"]]
    inc += ["-I" + os.path.join(REPO, d) for d in INC]
    for d in SYS:
        inc += ["-isystem", d]
    flags = base + inc
    harness = [os.path.join(VERIF, "harness", h) for h in spec["harness"]]
    todo, objs = [], {}

    def add(src):
        o = os.path.join(work, os.path.relpath(src, "/").replace("/", "_") + ".o")
        objs[src] = o
        mine = flags
        if spec.get("instrument") and src not in harness:
            # the calls of the instrumentation, answered by harness/sched.cpp (the run time of the sanitizer is not linked)
            mine = flags + ["-fsanitize=thread"]
        todo.append((src, o, mine, env))

    for h in harness:
        add(h)
    repo_all = all_sources()
    sel = [s for s in repo_all if wanted(spec, s)]
    sel.sort(key=lambda s: (os.path.basename(s) not in HEAVY, HEAVY.index(os.path.basename(s)) if os.path.basename(s) in HEAVY else 0, -os.path.getsize(s)))
    for s in sel:
        add(s)

    def run_jobs(jobs):
        errs = []
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for src, err, t in ex.map(compile_one, jobs):
                if os.environ.get("VERIF_VERBOSE"):
                    print("  %5.1fs %s" % (t, src), file=sys.stderr)
                if err:
                    errs.append((src, err))
        if errs:
            raise BuildError("\n".join("%s:\n%s" % e for e in errs))

    run_jobs(todo)
    exe = os.path.join(work, "check")

    def link():
        if spec.get("instrument"):
            # the instrumented copies of the inline functions have to win: these objects come first
            cmd = [CXX, "-rdynamic", "-o", exe] + [objs[s] for s in sel] + [objs[h] for h in harness]
            rest = [o for s, o in objs.items() if s not in harness and s not in sel]
            if rest:
                lib = os.path.join(work, "librest.a")
                subprocess.run(["ar", "rcs", lib] + rest, check=True)
                cmd += ["-Wl,--start-group", lib, "-Wl,--end-group"]
            cmd += spec.get("link", []) + LIBS + ["-ldl"]
            if shutil.which("ld.lld"):
                cmd += ["-fuse-ld=lld"]
            return subprocess.run(cmd, capture_output=True, text=True)
        lib = os.path.join(work, "librepo.a")
        if os.path.exists(lib):
            os.remove(lib)
        subprocess.run(["ar", "rcs", lib] + [o for s, o in objs.items() if s not in harness], check=True)
        cmd = [CXX, "-o", exe] + [objs[h] for h in harness] + ["-Wl,--start-group", lib, "-Wl,--end-group"] + spec.get("link", []) + LIBS
        if shutil.which("ld.lld"):
            cmd += ["-fuse-ld=lld"]
        if any("sanitize" in f for f in base):
            cmd += [f for f in base if "sanitize" in f]
        return subprocess.run(cmd, capture_output=True, text=True)

    p = link()
    if p.returncode != 0 and "undefined" in p.stderr:
        if os.environ.get("VERIF_VERBOSE"):
            print(p.stderr[:3000], file=sys.stderr)
        # the code moved to a directory that this check does not list: take everything
        todo.clear()
        for s in repo_all:
            if s not in objs:
                add(s)
        run_jobs(todo)
        p = link()
    if p.returncode != 0:
        raise BuildError("link:\n" + p.stderr[-6000:])
    return exe


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for t in ("g++", "ar"):
            if not shutil.which(t):
                print("missing tool:", t)
                return 2
        for d in SYS:
            if not os.path.isdir(d):
                print("missing headers:", d)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("ok")
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        spec = CHECKS[rec["property"]]
        work = tempfile.mkdtemp(prefix="verif-%s-" % rec["property"])
        try:
            exe = build(spec, work)
            cmd = [exe, "--tmp", work, "--replay", rec["family"], str(rec["index"]), "--from", str(rec.get("from", rec["index"]))]
            if rec["tier"] == "thorough":
                cmd.append("--thorough")
            return subprocess.run(cmd).returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    keep = os.environ.get("VERIF_KEEP")
    try:
        try:
            exe = build(spec, work)
        except BuildError as e:
            print("BUILD-ERROR property=%s" % pid)
            print(str(e)[-8000:])
            return 2
        tb = time.time() - t0
        res = os.path.join(work, "result.json")
        cmd = [exe, "--tmp", work, "--out", res]
        if tier == "thorough":
            cmd.append("--thorough")
        if os.environ.get("VERIF_ONLY"):
            cmd += ["--only", os.environ["VERIF_ONLY"]]
        env = dict(os.environ)
        env.setdefault("OMP_NUM_THREADS", "1")
        env["OPENCV_LOG_LEVEL"] = "ERROR"
        p = subprocess.run(cmd, cwd=work, env=env)
        try:
            r = json.load(open(res))
        except Exception as e:
            print("CHECK-ERROR property=%s the explorer ended with status %d and left no result (%s)" % (pid, p.returncode, e))
            return 2
        if keep:
            shutil.copy(exe, keep)
        return report(pid, tier, seed, spec, r, time.time() - t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(pid, tier, seed, spec, r, wall, tb):
    known = known_findings(pid)
    real, knownhit = [], []
    for v in r["violations"]:
        k = next((k for k in known if k["key"] == v["key"] and k.get("family", v["family"]) == v["family"]), None)
        (knownhit if k else real).append((v, k))
    fam = r["families"]
    executions = sum(f["executed"] for f in fam)
    transitions = sum(f["steps"] for f in fam)
    states = r["states"]
    complete = all(f["complete"] and f["executed"] >= f["size"] for f in fam)
    samples = [s for f in fam for s in f["samples"]][:12]
    for f in fam:
        f["distinct_outcomes"] = len(f["outcomes"])
        f["outcomes"] = dict(sorted(f["outcomes"].items(), key=lambda x: -x[1])[:12])
    cov = {"exhaustive": complete, "samples": samples,
           "families": [{k: f[k] for k in ("name", "size", "executed", "steps", "states", "complete", "wall", "distinct_outcomes", "outcomes", "counters")} for f in fam]}
    level = spec["level"]
    if level == "model_checking":
        cov["states"] = states + sum(f["modelStates"] for f in fam)
        cov["transitions"] = transitions + sum(f["modelTransitions"] for f in fam)
        cov["traces_validated_against_impl"] = executions
    else:
        cov["evaluations"] = executions
        cov["distinct_nontrivial"] = states
        cov["transitions"] = transitions
        cov["rule"] = spec["rule"]
    cov["bounds"] = spec["bounds"]
    cov["build_s"] = round(tb, 1)
    cov["unreproduced"] = r["unreproduced"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": spec.get("assumptions", []), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for f in fam:
        print("  family %-28s %9d executions %10d transitions %9d states %7.1fs%s" %
              (f["name"], f["executed"], f["steps"], f["states"], f["wall"], "" if f["complete"] else " (stopped)"))
        if os.environ.get("VERIF_VERBOSE"):
            print("     outcomes(%d)" % f["distinct_outcomes"], f["outcomes"], "counters", f["counters"])
    seen = set()
    for v, k in knownhit:
        if k["key"] not in seen:
            seen.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if r["unreproduced"]:
        print("note: %d suspicious executions did not reproduce and are not reported" % r["unreproduced"])
    for i, (v, _) in enumerate(real):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (pid, i))
        v = dict(v, property=pid, tier=tier)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("    %s #%d [%s] %s" % (v["family"], v["index"], v["key"], v["message"][:1500]))
    print("%s %s: %d executions, %d transitions, %d states, %.1f s (build %.1f s): %s" %
          (pid, tier, executions, transitions, states, wall, tb, "VIOLATED" if real else "holds"))
    return 1 if real else 0


if __name__ == "__main__":
    sys.exit(main())
