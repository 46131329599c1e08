#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup                    build every harness against /repo's working tree (cache, optional)
  run.py check <property> [tier]  run the check of a property (VERIF_SEED, VERIF_TIER)
  run.py replay <file>            re-run a replay file
  run.py list

A check compiles its harness from /repo/include (cached by content hash under /verif/build), runs its generated
cases in forked workers, shrinks a failure, and writes evidence/<property>.json.
"""
import concurrent.futures, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CHECKS = json.load(open(os.path.join(H, "checks.json")))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

GXX = ["g++-13", "-std=c++23", "-g1", "-O1", "-D_GLIBCXX_ASSERTIONS", "-pthread"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CLANG = ["clang++-18", "-std=c++23", "-g1", "-O1", "-D_GLIBCXX_ASSERTIONS", "-DPBT_LIBFUZZER", "-pthread",
         "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-Wno-everything"]


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), H):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read())
                h.update(b"\0")
    h.update(json.dumps([GXX, SAN, CLANG]).encode())
    return h.hexdigest()[:20]


def compile_harness(name, fuzz=False):
    """returns the path of the binary, or raises"""
    conf = CHECKS["harnesses"].get(name, {})
    out_dir = os.path.join(BUILD, tree_hash())
    os.makedirs(out_dir, exist_ok=True)
    out = os.path.join(out_dir, name + (".fuzz" if fuzz else ""))
    with open(out + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        flags = CLANG if fuzz else GXX + (SAN if conf.get("sanitize", True) else ["-O2"])
        cmd = flags + conf.get("flags", []) + ["-I" + os.path.join(H, "shim"), "-I" + os.path.join(REPO, "include"), "-I" + H,
                                               os.path.join(H, conf.get("source", name) + ".cpp"), "-o", out + ".tmp"] + conf.get("libs", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("harness %s does not compile:\n%s" % (name, r.stdout[-6000:]))
        os.rename(out + ".tmp", out)
    return out


def prune_builds(keep):
    if not os.path.isdir(BUILD):
        return
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != keep and os.path.isdir(os.path.join(BUILD, d)) and len(d) == 20]
    dirs.sort(key=os.path.getmtime)
    for d in dirs[:-2]:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(prop):
    """lines 'known: property=<id> id=<KF-n> <what fails>'; 'fixed:' lines suppress nothing"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                kid, what = rest.split(" ", 1)
                out[kid.split("=", 1)[1]] = what
    return out


def run_env(scratch):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=6000:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C"
    e["TMPDIR"] = scratch
    e["WF_SCRATCH"] = scratch
    e["WF_HARNESS_DIR"] = H
    return e


def fuzz_stage(binary, gcc_binary, check, seconds, seed, known, scratch, env):
    """coverage-guided exploration of the same property; returns (executions, failing artefact or None, coverage)"""
    procs, execs, artefacts, cov = [], 0, [], 0
    for k in range(JOBS):
        d = os.path.join(scratch, "fuzz%d" % k)
        os.makedirs(os.path.join(d, "corpus"))
        e = dict(env)
        e["PBT_PROP"] = check
        e["PBT_KNOWN"] = ",".join(known)
        log = open(os.path.join(d, "log"), "w")
        procs.append((d, subprocess.Popen([binary, os.path.join(d, "corpus"), "-seed=%d" % (seed * 1000 + k + 1), "-max_total_time=%d" % seconds,
                                           "-max_len=4096", "-len_control=20", "-timeout=120", "-rss_limit_mb=6000", "-print_final_stats=1",
                                           "-artifact_prefix=" + d + "/art-", "-close_fd_mask=1"], stdout=subprocess.DEVNULL, stderr=log, env=e, cwd=d)))
    for d, p in procs:
        p.wait()
        for line in open(os.path.join(d, "log"), errors="replace"):
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
            if " cov: " in line:
                try:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                except (IndexError, ValueError):
                    pass
        artefacts += sorted(os.path.join(d, f) for f in os.listdir(d) if f.startswith(("art-crash", "art-timeout")))
    return execs, artefacts, cov


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CHECKS["properties"][prop]
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix="wf-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(scratch, 0o700)
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    results, violation, known_hits = [], None, {}
    try:
        names = [h for h, _ in conf["checks"]]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            futs = {h: ex.submit(compile_harness, h) for h in dict.fromkeys(names)}
            if tier == "thorough":
                fz = {h: ex.submit(compile_harness, h, True) for h in dict.fromkeys(names) if CHECKS["harnesses"].get(h, {}).get("fuzz", True)}
            bins = {h: f.result() for h, f in futs.items()}
            fbins = {h: f.result() for h, f in fz.items()} if tier == "thorough" else {}
        env = run_env(scratch)
        build_s = time.time() - t0
        budget = 560 if tier == "quick" else 3 * 3600
        for h, c in conf["checks"]:
            if violation:
                break
            out = os.path.join(scratch, "out.json")
            rep = os.path.join(scratch, "replay.txt")
            for p in (out, rep):
                if os.path.exists(p):
                    os.unlink(p)
            left = max(20, budget - (time.time() - t0))
            jobs = CHECKS["harnesses"].get(h, {}).get("jobs", JOBS)
            r = subprocess.run([bins[h], "--prop", c, "--tier", tier, "--seed", str(seed), "--jobs", str(jobs), "--maxwall", str(left),
                                "--scratch", scratch, "--out", out, "--replay-out", rep, "--known", ",".join(known), "--cpulimit", str(CHECKS["harnesses"].get(h, {}).get("cpu", 20))],
                               env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if not os.path.exists(out):
                raise RuntimeError("check %s gave no result (exit %s)\n%s" % (c, r.returncode, r.stdout[-3000:]))
            res = json.load(open(out))
            res["replay_src"] = rep
            if tier == "thorough" and not res["violation"] and h in fbins and CHECKS["harnesses"].get(h, {}).get("fuzz", True):
                seconds = conf.get("fuzz_seconds", 120)
                execs, artefacts, cov = fuzz_stage(fbins[h], bins[h], c, seconds, seed, known, scratch, env)
                res["fuzz_executions"], res["fuzz_coverage_edges"] = execs, cov
                for art in artefacts:
                    r = subprocess.run([bins[h], "--prop", c, "--seed", str(seed), "--scratch", scratch, "--out", out, "--replay-out", rep,
                                        "--known", ",".join(known), "--bytes", art], env=env, cwd=scratch, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, errors="replace")
                    conf_res = json.load(open(out))
                    if conf_res["violation"]:
                        res.update(violation=True, message=conf_res["message"], case=conf_res["case"], log=conf_res["log"])
                        break
                    res["unreproducible"] = res.get("unreproducible", 0) + 1
                for d in os.listdir(scratch):
                    if d.startswith("fuzz"):
                        shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
            results.append(res)
            known_hits.update(res["known"])
            if res["violation"]:
                dest = os.path.join(replay_dir, "%s-%s.replay" % (c, hashlib.sha256((res["message"] + res["case"]).encode()).hexdigest()[:10]))
                shutil.copy(rep, dest)
                violation = (c, dest, res)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.time() - t0
    coverage = {
        "evaluations": sum(r["evaluations"] + r.get("fuzz_executions", 0) for r in results),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
        "rule": " || ".join("%s: %s" % (r["check"], r["rule"]) for r in results),
        "samples": [s for r in results for s in r["samples"][:3]] or ["(no sample: the run stopped at its first case)"],
        "checks": [{k: r[k] for k in ("check", "planned", "evaluations", "rejected", "nontrivial", "distinct_nontrivial", "budget_hit", "unreproducible",
                                      "wall_s", "labels", "fuzz_executions", "fuzz_coverage_edges") if k in r} for r in results],
        "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": conf.get("assumptions", []) + CHECKS.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kid in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, kid, known[kid]))
    for r in results:
        print("%s: %d cases, %d distinct non-trivial, %.1fs%s%s" % (r["check"], r["evaluations"], r["distinct_nontrivial"], r["wall_s"],
              ", fuzz %d execs" % r["fuzz_executions"] if "fuzz_executions" in r else "", " (budget hit)" if r["budget_hit"] else ""))
        if r["unreproducible"]:
            print("note: %d failure(s) of %s did not reproduce and are not reported" % (r["unreproducible"], r["check"]))
    if violation:
        c, dest, res = violation
        print("%s failed: %s\n  case: %s" % (c, res["message"], res["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, dest))
        return 1
    return 0


def replay(path):
    name = next(l.split("=", 1)[1].strip() for l in open(path) if l.startswith("check="))
    for prop, conf in CHECKS["properties"].items():
        for h, c in conf["checks"]:
            if c == name:
                scratch = tempfile.mkdtemp(prefix="wf-replay-")
                try:
                    return subprocess.run([compile_harness(h), "--replay", path, "--scratch", scratch, "--known", ",".join(known_findings(prop))],
                                          env=run_env(scratch), cwd=scratch).returncode
                finally:
                    shutil.rmtree(scratch, ignore_errors=True)
    print("no check named", name)
    return 2


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        used = dict.fromkeys(h for p in CHECKS["properties"].values() for h, _ in p["checks"])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(compile_harness, h) for h in used]:
                f.result()
        return 0
    if sys.argv[1] == "list":
        for p, conf in CHECKS["properties"].items():
            print(p, conf["checks"])
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        prune_builds(tree_hash())
        return check(sys.argv[2], tier)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print(e)
        sys.exit(3)
