#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and decide one property.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --build WORLD       only build
       check.py --replay FILE       rebuild and replay a recorded run
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import worlds  # noqa: E402


class Broken(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths, suffixes):
    h = hashlib.sha256()
    files = []
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, names in os.walk(p):
                dirs[:] = [d for d in dirs if d not in (".git", "_build", "evidence", ".build", "replays", "seeded")]
                files += [os.path.join(root, n) for n in names
                          if n.endswith(suffixes)]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def compile_one(job):
    src, obj, cmd, key = job
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    r = run(cmd)
    if r.returncode != 0:
        return "compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(key)
    return None


def build(world):
    w = worlds.WORLDS[world]
    out = os.path.join(BUILD, world)
    os.makedirs(out, exist_ok=True)
    sources = []      # (path, flags)
    for s in w["sim"]:
        sources.append((os.path.join(VERIF, s), w["sim_flags"]))
    for s in w["worlds"]:
        sources.append((os.path.join(VERIF, s), w["flags"]))
    for pat in w["repo"]:
        pat, _, extra = pat.partition("|")
        found = sorted(glob.glob(os.path.join(REPO, pat)))
        if not found:
            raise Broken("no sources match %s" % pat)
        for f in found:
            sources.append((f, w["repo_flags"] + (extra.split() if extra else [])))
    inc = []
    for i in w["include"]:
        inc += ["-I" + (os.path.join(VERIF, i[1:]) if i.startswith("@") else i if i.startswith("/") else os.path.join(REPO, i))]
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "modules"),
                     os.path.join(VERIF, "sim"), os.path.join(VERIF, "worlds")], (".hpp", ".h", ".hh", ".inc", ".ipp", ".tpp"))
    jobs = []
    objs = []
    for path, flags in sources:
        name = hashlib.sha1(path.encode()).hexdigest()[:8] + "_" + os.path.basename(path) + ".o"
        obj = os.path.join(out, name)
        objs.append(obj)
        cxx = w.get("cxx", "g++")
        cmd = [cxx] + flags + inc + ["-c", path, "-o", obj]
        with open(path, "rb") as f:
            own = hashlib.sha256(f.read()).hexdigest()
        k = hashlib.sha256((key + own + " ".join(cmd)).encode()).hexdigest()
        jobs.append((path, obj, cmd, k))
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise Broken("\n".join(errs))
    exe = os.path.join(out, world)
    r = run([w.get("cxx", "g++")] + w["link_flags"] + objs + w["libs"] + ["-o", exe])
    if r.returncode != 0:
        raise Broken("linking %s failed:\n%s" % (world, r.stdout[-6000:]))
    return exe


def env_for():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=0:handle_abort=0:max_malloc_fill_size=67108864:malloc_fill_byte=190:"
                         "detect_odr_violation=0:check_printf=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=0"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C"
    return e


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--build":
        print(build(sys.argv[2]))
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for w in sorted(set(c["world"] for c in worlds.CHECKS.values())):
            print(build(w))
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        prop = None
        for line in open(sys.argv[2]):
            if line.startswith("property "):
                prop = line.split()[1]
        exe = build(worlds.CHECKS[prop]["world"])
        return subprocess.call([exe, "replay", sys.argv[2]], env=env_for())

    prop = sys.argv[1]
    chk = worlds.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    exe = build(chk["world"])
    t_build = time.time() - t0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    res = os.path.join(BUILD, "result-%s.json" % prop)
    if os.path.exists(res):
        os.unlink(res)
    secs = chk["quick_s"] if tier == "quick" else chk["thorough_s"]
    secs = float(os.environ.get("SIM_SECONDS", secs))
    minruns = chk.get("minruns", 300)
    cmd = [exe, "explore", "--prop", prop, "--seed", str(seed), "--seconds", str(secs), "--minruns", str(minruns),
           "--workers", os.environ.get("SIM_WORKERS", "8"), "--out", res, "--replays", os.path.join(VERIF, "replays"),
           "--known", os.path.join(VERIF, "KNOWN_FINDINGS")]
    p = subprocess.run(cmd, env=env_for(), cwd=BUILD, stdin=subprocess.DEVNULL)
    if not os.path.exists(res):
        raise Broken("%s ended with %d and no result" % (exe, p.returncode))
    d = json.load(open(res))
    faults = {k[6:]: v for k, v in d["counts"].items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in d["counts"].items() if k.startswith("probe.")}
    other = {k: v for k, v in d["counts"].items() if not k.startswith(("fault.", "probe."))}
    hours = max(d["explore_s"], 1e-9) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk["level"],
        "coverage": {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct"],
            "rule": chk["rule"],
            "samples": d["samples"][:4] or ["(no sample recorded)"],
            "nontrivial_runs": d["nontrivial"],
            "simulated_runs_per_hour": int(d["runs"] / hours),
            "seeds_per_hour": int(d["runs"] / hours),
            "simulated_time_s": d["simtime_ns"] / 1e9,
            "simulated_steps": d["steps"],
            "faults_injected": faults,
            "probes": probes,
            "other_counts": other,
            "distinct_measure": chk["measure"],
            "scenarios": d["scenarios"],
            "determinism_double_runs": d["determinism_checks"],
            "known_finding_runs": d["known_hits"],
            "ran_real": chk["real"],
            "ran_stub": chk["stub"],
            "build_s": round(t_build, 1),
        },
        "assumptions": chk["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if d["rc"] == 1 else 0,
    }
    if d["rc"] == 1:
        ev["coverage"]["violation"] = {"class": d["violation_class"], "message": d["violation_msg"], "replay": d["replay"],
                                       "choices_before_minimising": d["orig_choices"], "choices_after": d["min_choices"],
                                       "minimiser_runs": d["min_evals"]}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, m in d["known"].items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, m))
    if d["rc"] == 0:
        print("%s: held on %d runs (%d distinct non-trivial), seed %d, %.1f s + %.1f s build" %
              (prop, d["runs"], d["distinct"], seed, d["explore_s"], t_build))
        return 0
    if d["rc"] == 1:
        print("%s: %s: %s" % (prop, d["violation_class"], d["violation_msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
        return 1
    print("%s: error: %s" % (prop, d["error"]))
    return 3


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check error: %s" % e)
        sys.exit(3)
