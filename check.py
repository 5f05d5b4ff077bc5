#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE] [--only SUITE]...

Builds the harnesses of one property against /repo's current tree, runs them
and writes evidence/ID.json.  Exit 0: held on everything explored; 1: violated
(with a VIOLATION line); 2: the check could not be run."""
import importlib.util, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
import build as B
from registry import CHECKS


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    replay, only, verbose = None, [], []
    while a:
        x = a.pop(0)
        if x == "--thorough":
            thorough = True
        elif x == "--quick":
            thorough = False
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--only":
            only += ["--only", a.pop(0)]
        elif x == "-v":
            verbose = ["-v"]
        else:
            print("unknown option", x)
            return 2
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replays", exist_ok=True)
    tmp = os.path.join(HERE, "build", "parts")
    os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ)
    env["MALLOC_PERTURB_"] = "165"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigfpe=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=78"
    env.setdefault("LC_ALL", "C")
    if replay:
        first = open(replay).read()
        for part in spec["parts"]:
            if os.path.basename(replay).split(".")[1] == part["harness"]:
                exe = B.build(part["variant"], [part["harness"]])[0]
                return subprocess.run([exe, "--replay", replay] + verbose, env=env).returncode
        print("the replay file belongs to no part of", pid)
        return 2
    by_variant = {}
    for part in spec["parts"]:
        if part.get("thorough_only") and not thorough:
            continue
        by_variant.setdefault(part["variant"], []).append(part)
    for v, parts in by_variant.items():
        exes = B.build(v, list(dict.fromkeys(p["harness"] for p in parts)))
        lut = {os.path.basename(e): e for e in exes}
        for p in parts:
            p["exe"] = lut[p["harness"]]
    built = time.time() - t0
    results, status = [], 0
    for part in spec["parts"]:
        if "exe" not in part:
            continue
        out = f"{tmp}/{pid}.{part['harness']}.{part['variant']}.json"
        if os.path.exists(out):
            os.unlink(out)
        budget = part.get("thorough_budget", 3000) if thorough else part.get("budget", 240)
        cmd = [part["exe"], "--out", out, "--part", part["harness"], "--replay-dir", "replays",
               "--property", pid, "--known", "known-findings.txt", "--budget", str(budget)] + only + verbose
        if not only:
            for suite in part.get("suites", []):
                cmd += ["--only", suite]
        if thorough:
            cmd.append("--thorough")
        sys.stdout.flush()
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(f"{pid}: {part['harness']} ended with status {r.returncode}")
            return 2
        results.append((part, json.load(open(out))))
        if r.returncode == 1:
            status = 1
            break
    tot = lambda k: sum(r[k] for _, r in results)
    samples, suites = [], []
    for p, r in results:
        samples += r["samples"]
        suites += [dict(s, harness=p["harness"], build=p["variant"]) for s in r["suites"]]
    level = spec["level"]
    cov = {"suites": suites, "samples": samples[:60] or ["(none completed)"],
           "exhaustive": all(r["exhaustive"] for _, r in results),
           "distinct_outcomes": tot("outcomes"),
           "unreproduced": sum((r["unreproduced"] for _, r in results), []),
           "build_s": round(built, 1)}
    if level == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"),
                   traces_validated_against_impl=tot("executions"),
                   explanation="stateless exploration of the real library code: every explored execution is an execution of the implementation, so each is itself a validated trace")
    else:
        cov.update(evaluations=tot("lib_executions"), distinct_nontrivial=max(tot("outcomes"), tot("states")),
                   rule=spec["rule"])
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": tot("violations")}
    with open(f"evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {'VIOLATED' if status else 'held'}; {tot('executions')} executions in {time.time()-t0:.1f} s (build {built:.1f} s)")
    return status


if __name__ == "__main__":
    sys.exit(main())
