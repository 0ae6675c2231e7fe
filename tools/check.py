#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree."""
import sys, os, json, subprocess, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from spec import SPEC, SIMD, ASSUME
VERIF = B.VERIF

def variants(r):
    if not r["simd"]:
        return [(None, None)]
    try:
        flags = set(open("/proc/cpuinfo").read().split())
    except OSError:
        flags = set()
    return [(v, a) for v, a, need in SIMD if set(need) <= flags]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    extra = sys.argv[3:]
    t0 = time.time()
    runs, rc, known = [], 0, []
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{pid}-*.json"):
        os.unlink(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    jobs = str(min(8, os.cpu_count() or 8))
    for r in SPEC[pid]:
        for v, arch in variants(r):
            exe = B.build(r["harness"], r["backend"], name=r["name"], variant=v, arch=arch)
            tag = "-".join(x for x in (r["name"] or r["harness"][0][:-2], r["backend"], v) if x)
            out = os.path.join(B.BUILD, f"stats-{pid}-{tag}.json")
            if os.path.exists(out):
                os.unlink(out)
            cmd = [exe, "--property", pid, "--tier", tier, "--out", out, "--jobs", jobs, "--time", str(r[tier]),
                   "--known", os.path.join(VERIF, "known_findings.txt"), "--replay-dir", os.path.join("replay", tag), *extra]
            os.makedirs(os.path.join(rdir, tag), exist_ok=True)
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1")
            p = subprocess.run(cmd, cwd=VERIF, stdout=subprocess.PIPE, text=True, env=env)
            sys.stdout.write(f"--- {tag}\n{p.stdout}")
            sys.stdout.flush()
            if os.path.exists(out):
                st = json.load(open(out))
                st["tag"] = tag
                runs.append(st)
            if p.returncode == 1 and rc == 0:
                rc = 1
            elif p.returncode not in (0, 1):
                rc = 2
            if rc:
                break
        if rc:
            break
    tot = lambda k: sum(s[k] for s in runs)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot("states") + tot("executions"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("executions"),
            "evaluations": tot("evaluations"), "distinct_nontrivial": tot("distinct"),
            "scheduling_points": tot("points"), "pruned": tot("pruned"),
            "max_choices_in_one_execution": max([s["max_depth"] for s in runs] or [0]),
            "scenarios": tot("scenarios"),
            "exhaustive": bool(runs) and all(s["exhaustive"] for s in runs) and rc == 0,
            "rule": "; ".join(dict.fromkeys(s["rule"] for s in runs)) + ". states = nodes and leaves of the tree of choices (each a state of the real program reached by a distinct sequence of choices), transitions = its edges taken, traces_validated_against_impl = complete executions of the real code; distinct_nontrivial = distinct outcomes by hash",
            "samples": sum([s["samples"][:6] for s in runs], [])[:16],
            "runs": [{k: s[k] for k in ("tag", "states", "transitions", "executions", "evaluations", "distinct", "scenarios", "exhaustive", "wall_s", "races")} for s in runs],
        },
        "assumptions": sum([ASSUME.get(n, []) for n in dict.fromkeys((r["name"] or r["harness"][0][:-2]) for r in SPEC[pid])], []),
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if rc == 1 else 0,
    }
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    return rc

if __name__ == "__main__":
    sys.exit(main())
