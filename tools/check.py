#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the property's harnesses from
/repo's current tree, explores, writes evidence/<property>.json.
check.py <property> --replay <file>: runs one recorded counterexample again."""
import json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from registry import CHECKS

VERIF = mcbuild.VERIF


def known_findings(pid):
    """{signature: text} of the recorded findings of this property."""
    res = {}
    try:
        for line in open(f"{VERIF}/known-findings.txt"):
            line = line.strip()
            if line.startswith(f"known: property={pid} sig="):
                rest = line.split("sig=", 1)[1]
                sig, _, text = rest.partition(" ")
                res[sig] = text
    except OSError:
        pass
    return res


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = json.load(open(sys.argv[3]))
        else:
            tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    known = known_findings(pid)
    os.makedirs(f"{VERIF}/.work/replays", exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    agg = {"evaluations": 0, "transitions": 0, "traces": 0, "states": 0, "distinct_nontrivial": 0,
           "distinct_outcomes": 0}
    parts, counters, samples, violations, seen = {}, {}, [], [], set()
    capped = False
    budget = spec.get("budget", {}).get(tier, 300 if tier == "quick" else 3000)
    for run in spec["runs"]:
        if replay and replay["run"] != run["name"]:
            continue
        try:
            exe = mcbuild.build_harness(run["name"], run["srcs"], run.get("flags", ["-O2"]), libs=run.get("libs", True),
                                        extra_link=run.get("link"), only=run.get("only"), libflags=run.get("libflags"))
        except mcbuild.BuildError as e:
            print(e)
            print(f"ERROR: the harness of {pid} does not build against this tree")
            return 2
        tmp = tempfile.mkdtemp(prefix=f"{pid}-", dir=f"{VERIF}/.work")
        try:
            env = dict(os.environ, VERIF_TIER=tier, MC_SCRATCH=tmp, LC_ALL="C.UTF-8", **run.get("env", {}))
            for k in ("run_san",):
                pass
            env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
            env.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:abort_on_error=1")
            if replay:
                return subprocess.run([exe, "--replay", replay["seq"], "--part", replay["part"]], env=env, cwd=tmp).returncode
            cmd = [exe, "--out", f"{tmp}/out.json", "--tmp", tmp, "--budget", str(max(20, budget - 0 * (time.time() - t0)))]
            for s in known:
                cmd += ["--known", s]
            r = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
            if r.returncode not in (0, 1) or not os.path.exists(f"{tmp}/out.json"):
                print(r.stdout[-4000:])
                print(f"ERROR: harness {run['name']} ended with {r.returncode}")
                return 2
            out = json.load(open(f"{tmp}/out.json"))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for k in agg:
            agg[k] += out[k]
        for k, v in out["parts"].items():
            parts[k] = v
        for k, v in out["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += out["samples"][:6]
        seen |= set(out["known_seen"])
        capped |= out["capped"]
        for v in out["violations"]:
            v["run"] = run["name"]
            violations.append(v)
        if violations:
            break
    cov = {"states": agg["states"], "transitions": agg["transitions"], "traces_validated_against_impl": agg["traces"]}
    for k in ("evaluations", "distinct_nontrivial", "distinct_outcomes"):
        if agg[k] not in [v for v in cov.values()] and agg[k]:
            cov[k] = agg[k]
    cov["samples"] = samples[:12] or ["none"]
    cov["rule"] = spec["rule"]
    cov["what_is_a_state"] = spec.get("state_is", "")
    cov["exhaustive"] = not capped and not violations
    cov["parts"] = parts
    used = set(v for v in cov.values() if isinstance(v, int))
    cov["counters"] = {k: v for k, v in counters.items() if v not in used}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    tmpf = f"{VERIF}/evidence/.{pid}.{os.getpid()}"
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.replace(tmpf, f"{VERIF}/evidence/{pid}.json")
    for s in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {s} {known.get(s, '')}")
    if violations:
        done = set()
        for i, v in enumerate(violations):
            if v["sig"] in done:
                continue
            done.add(v["sig"])
            path = f"{VERIF}/.work/replays/{pid}-{i}.json"
            v["replay_with"] = f"python3 tools/check.py {pid} --replay {path}"
            json.dump(v, open(path, "w"), indent=1)
            print(f"--- {v['part']}: {v['sig']}\n{v['msg'][:3000]}\nchoices: {v['seq'][:300]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: held; {agg['evaluations']} cases, {agg['states']} states, {agg['traces']} runs of the implementation compared, "
          f"{'complete' if not capped else 'time budget reached'}, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
