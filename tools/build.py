#!/usr/bin/env python3
"""Builds a harness: all sources of /repo (but main.c and rpmalloc.c), the
plugins with their symbols renamed, the simulated world and the harness."""
import os, re, subprocess, sys, glob, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WSS_REPO", "/repo")
BUILD = os.environ.get("WSS_BUILD", os.path.join(VERIF, "build"))
DEFS = ["-D_DEFAULT_SOURCE", "-D_GNU_SOURCE", "-DWSS_SERVER_VERSION=\"v2.0.0\"", "-DUSE_OPENSSL", "-DFIPS_mode_set(x)=(0)"]
BACKENDS = {
    "asan": dict(cc="gcc", arch=["-march=x86-64-v3"], san=["-fsanitize=address"], link=["-fsanitize=address"]),
    "tsan": dict(cc="clang", arch=["-march=x86-64-v3"], san=["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"], link=[]),
}

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)
    return r.stdout

def wraps():
    w = set()
    for f in glob.glob(os.path.join(VERIF, "sim", "*.c")):
        w |= set(re.findall(r"__wrap_(\w+)\s*\(", open(f).read()))
    return sorted(w)

def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build(harness, backend="asan", name=None, variant=None, extra_defs=(), arch=None, no_sources=False, opt="-O1"):
    """harness: list of files in harness/. Returns the path of the program."""
    b = BACKENDS[backend]
    arch = arch or b["arch"]
    name = name or os.path.splitext(harness[0])[0]
    out = os.path.join(BUILD, f"{name}-{backend}" + (f"-{variant}" if variant else ""))
    inc = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{REPO}/extensions", f"-I{REPO}/subprotocols", f"-I{VERIF}/sim", f"-I{VERIF}/harness"]
    srcs = [f for f in sorted(glob.glob(f"{REPO}/src/*.c")) if os.path.basename(f) not in ("main.c", "rpmalloc.c")]
    plug = {os.path.basename(d): sorted(glob.glob(d + "/*.c")) for d in sorted(glob.glob(f"{REPO}/extensions/*") + glob.glob(f"{REPO}/subprotocols/*")) if os.path.isdir(d)}
    sim = [f"{VERIF}/sim/{f}" for f in ("sim.c", "mc.c", "ssl_stub.c", f"be_{backend}.c")]
    har = [f"{VERIF}/harness/{f}" for f in harness]
    heads = glob.glob(f"{REPO}/include/*") + glob.glob(f"{REPO}/*/*/*.h") + glob.glob(f"{VERIF}/sim/*.h") + glob.glob(f"{VERIF}/harness/*.h")
    dg = digest(srcs + sum(plug.values(), []) + sim + har + heads + [os.path.abspath(__file__)], (backend, arch, extra_defs, opt))
    exe = os.path.join(out, name)
    if os.path.exists(exe) and os.path.exists(out + "/digest") and open(out + "/digest").read() == dg:
        return exe
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    common = ["-g", opt, "-w", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-U_FORTIFY_SOURCE", "-fno-stack-protector", *extra_defs, *inc]
    code = ["-std=c11", *DEFS, *arch, *b["san"], *common]
    plain = ["-std=gnu11", "-D_GNU_SOURCE", *arch, "-O2", "-g", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fno-stack-protector", *extra_defs, *inc]
    jobs, objs, plugobjs = [], [], {}
    for f in srcs:
        o = f"{out}/src_{os.path.basename(f)[:-2]}.o"
        jobs.append([b["cc"], *code, "-c", f, "-o", o]); objs.append(o)
    for p, fs in plug.items():
        plugobjs[p] = []
        for f in fs:
            o = f"{out}/plug_{p}_{os.path.basename(f)[:-2]}.o"
            jobs.append([b["cc"], *code, "-c", f, "-o", o]); plugobjs[p].append(o)
    for f in sim:
        o = f"{out}/sim_{os.path.basename(f)[:-2]}.o"
        # SSE only: the fibers save no vector state, and none is live across a switch
        jobs.append([b["cc"] if backend == "asan" else "clang", *plain, "-c", f, "-o", o]); objs.append(o)
    for f in har:
        o = f"{out}/har_{os.path.basename(f)[:-2]}.o"
        san = b["san"] if backend == "asan" else []
        jobs.append([b["cc"], "-std=gnu11", *DEFS, *arch, *san, *common, "-Wall", "-c", f, "-o", o]); objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    tab = ['#include "sim.h"\n']
    reg = []
    for i, (p, os_) in enumerate(plugobjs.items()):
        if not os_:
            continue
        r = f"{out}/plugin_{i}.o"
        sh(["ld", "-r", "-o", r, *os_])
        syms = [l.split()[-1] for l in sh(["nm", "-g", "--defined-only", r]).splitlines() if len(l.split()) == 3]
        types = {l.split()[-1]: l.split()[1] for l in sh(["nm", "-g", "--defined-only", r]).splitlines() if len(l.split()) == 3}
        keep = [s for s in syms if not s.startswith("__asan") and not s.startswith("__tsan") ]
        with open(f"{out}/plugin_{i}.ren", "w") as f:
            for s in keep:
                f.write(f"{s} p{i}_{s}\n")
        sh(["objcopy", f"--redefine-syms={out}/plugin_{i}.ren", r])
        objs.append(r)
        keep = [s for s in keep if not s.startswith("__odr")]
        for s in keep:
            tab.append(f"extern char p{i}_{s}[];\n")
        tab.append(f"static const sim_sym_t t{i}[] = {{ " + ", ".join(f'{{"{s}", p{i}_{s}}}' for s in keep) + ", {0, 0} };\n")
        reg.append(f'    sim_register_plugin("{p}.so", t{i});\n')
    tab.append("void register_repo_plugins(void) {\n" + "".join(reg) + "}\n")
    # code that tries to get a lock sees when another thread holds it, so that
    # giving a lock up is a step of its own
    tries = any(re.search(r"U pthread_\w*(try|timed|clock)\w*lock", sh(["nm", "-u", o])) for o in objs if not os.path.basename(o).startswith("sim_"))
    tab.append(f"int sim_trylocks = {int(tries)};\n")
    open(f"{out}/plugins.c", "w").writelines(tab)
    sh(["gcc", f"-I{VERIF}/sim", "-w", "-O1", "-c", f"{out}/plugins.c", "-o", f"{out}/plugins.o"])
    objs.append(f"{out}/plugins.o")
    w = ["-Wl,--wrap=" + s for s in wraps()]
    sh([b["cc"], *b["link"], "-no-pie", "-rdynamic", "-Wl,-z,now", *w, *objs, "-l:libz.a", "-lm", "-ldl", "-lpthread", "-o", exe])
    open(out + "/digest", "w").write(dg)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[2:], sys.argv[1]))
