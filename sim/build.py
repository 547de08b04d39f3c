#!/usr/bin/env python3
"""Builds simulator variants from /repo's working tree. The program's objects are
compiled with access hooks (-fsanitize=thread, hooks provided by rt.cpp), joined,
and their libc/FFTW/heap calls redirected to the simulator; nothing is linked
against libgomp or libtsan."""
import os, re, subprocess, sys, hashlib, concurrent.futures as cf, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
VARIANTS = {
    "nc3": "", "nc2": "-DNC=2", "nc3sd": "-DGLU_GFIX_SD", "nc3or": "-DOVERRELAXED_GF",
    "nc3kiss": "-DKISS_RNG", "nc3mwc1038": "-DMWC_1038_RNG", "nc3xor": "-DXOR_1024_RNG", "nc3well": "-DWELL_512_RNG",
    "nc4": "-DNC=4 -DSIM_NO_FFTW", "nc3nofft": "-DSIM_NO_FFTW", "nc3nd3": "-DND=3", "nc2nd3": "-DNC=2 -DND=3",
    "nc3t16": "",   # up to 16 threads
}
BASE = ["-O1", "-g", "-msse2", "-fopenmp", "-fsanitize=thread", "-fsanitize=bounds", "-U_FORTIFY_SOURCE", "-fno-pie", "-w",
        "-fstack-protector-strong", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove",
        "-DHAVE_CONFIG_H"]

def sources():
    am = open(os.path.join(REPO, "src/Makefile.am")).read()
    am = re.sub(r"#.*", "", am)
    named = set(os.path.basename(x) for x in re.findall(r"[\w./-]+\.c\b", am))
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".c") and f in named: res.append(os.path.join(d, f))
    return sorted(res)

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout

def build(variants, verbose=False):
    os.makedirs(OUT, exist_ok=True)
    srcs = sources()
    if not srcs: raise SystemExit("no sources")
    wraps = sorted(set(re.findall(r"\b__wrap_(\w+)\(", open(os.path.join(HERE, "rt.cpp")).read())))
    redef = os.path.join(OUT, "redef.txt")
    with open(redef, "w") as f:
        f.write("main GLU_main\n")
        for w in wraps: f.write("%s __wrap_%s\n" % (w, w))
    hs = sorted(glob.glob(HERE + "/*.cpp"))
    hs = [h for h in hs if not os.path.basename(h).startswith("t_")]
    jobs = []
    for h in hs:
        jobs.append(["g++", "-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-I" + HERE, "-c", h, "-o", os.path.join(OUT, os.path.basename(h)[:-4] + ".o")])
    if "nc3t16" in variants: jobs.append(["g++", "-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-I" + HERE, "-DSIM_MAXT=17", "-c", HERE + "/rt.cpp", "-o", os.path.join(OUT, "rt_t16.o")])
    objs = {}
    for v in variants:
        d = os.path.join(OUT, v); os.makedirs(d, exist_ok=True)
        objs[v] = []
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            objs[v].append(o)
            jobs.append(["gcc"] + BASE + VARIANTS[v].split() + ["-I" + HERE + "/cfg", "-I" + os.path.join(REPO, "src/Headers"), "-c", s, "-o", o])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(sh, jobs))
    exes = {}
    for v in variants:
        d = os.path.join(OUT, v)
        sh(["ld", "-r", "-o", d + "/all.o"] + objs[v])
        sh(["objcopy", "--redefine-syms=" + redef, d + "/all.o", d + "/glu.o"])
        exe = os.path.join(OUT, "sim_" + v)
        cmd = ["g++", "-no-pie", "-g", "-o", exe] + [os.path.join(OUT, os.path.basename(h)[:-4] + ("_t16.o" if v == "nc3t16" and h.endswith("/rt.cpp") else ".o")) for h in hs] + [d + "/glu.o", "-lm"]
        cmd += ["-lfftw3"]
        sh(cmd)
        shutil.rmtree(d)
        exes[v] = exe
    return exes

if __name__ == "__main__":
    print(build(sys.argv[1:] or ["nc3"]))
