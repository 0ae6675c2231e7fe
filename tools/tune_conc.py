#!/usr/bin/env python3
"""Chooses how deep harness/conc.c explores each scenario, by counting the
executions of smaller bounds, and writes harness/conc_bounds.h. Scenarios that
the file has already are kept (all are counted anew with --all). Not part of
any check: the bounds are fixed once they are in the file."""
import os, re, subprocess, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
OUT = os.path.join(HERE, "..", "harness", "conc_bounds.h")
CAPS = {"P": (150000, 4000000), "D": (150000, 4000000), "M": (6000, 150000)}
have = {}
if "--all" not in sys.argv:
    for l in open(OUT):
        m = re.match(r'\s*\{ "(.*)", (.*) \},', l)
        if m: have[m[1]] = [int(x) for x in m[2].split(",")]
env0 = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1", SIM_TIMES="1")
def counts(exe, prop, mode, n):
    env = dict(env0); env["CONC_D" if mode == "D" else "CONC_P"] = str(n)
    r = subprocess.run([exe, "--property", prop, "--tier", "quick", "--out", "/tmp/tune.json", "--jobs", "8", "--time", "120", "--replay-dir", "/tmp", "--list"], env=env, capture_output=True, text=True)
    names = [re.sub(r", \d+ (delays|preemptions)$", "", l.strip()) for l in r.stdout.splitlines() if re.search(r", \d+ (delays|preemptions)$", l.strip())]
    return names
def count(exe, prop, mode, n, name):
    env = dict(env0); env["CONC_D" if mode == "D" else "CONC_P"] = str(n)
    subprocess.run([exe, "--property", prop, "--tier", "quick", "--out", "/tmp/tune.json", "--jobs", "8", "--time", "60", "--replay-dir", "/tmp", "--scenario", name + ", "], env=env, capture_output=True, text=True)
    d = json.load(open("/tmp/tune.json"))
    return d["executions"] if d["exhaustive"] and not d["violations"] else 10**9
res = dict(have)
props = [a for a in sys.argv[1:] if a.startswith("W")] or ["W17", "W18", "W19", "W20", "W23"]
exes = {"P": build.build(["conc.c"], "asan"), "M": build.build(["conc.c"], "tsan")}
exes["D"] = exes["P"]
for prop in props:
    for name in counts(exes["P"], prop, "P", 1):
        if name in have: continue
        row = []
        for mode in "PDM":
            cq, ct = CAPS[mode]
            c = {}
            q = 0
            n = 0
            while True:
                c[n] = count(exes[mode], prop, mode, n, name)
                if c[n] > cq: break
                q = n
                if n == 7 or (n > 3 and c[n] == c[n - 1]): break
                n += 1
            # the next levels grow as the last ones did
            t = q
            if c[n] <= ct: t = n
            if n > 1 and c[n] < ct:
                g = c[n] / max(1, c[n - 1])
                if c[n] * g * 1.2 <= ct: t = min(n + 1, 7)
            row += [q, t]
        res[name] = row
        print(prop, name, row, c, flush=True)
        with open(OUT, "w") as f:
            for k, v in res.items(): f.write('    { "%s", %s },\n' % (k, ", ".join(map(str, v))))
