#!/usr/bin/env python3
"""Builds the simulator against the current working tree of /repo (object cache keyed by contents)."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.path.join(V, "build")
DEFS = "-DLINUX -D__USE_LONG_INTEGERS__ -D__USE_LONG_FINTS__ -D__NO_COPYRIGHT__".split()
SIM = ["seams.cpp", "qpgen.cpp", "prog.cpp", "exec.cpp", "stats.cpp", "core.cpp", "gen.cpp", "judge.cpp", "driver.cpp"]
LIB = sorted(os.path.basename(f) for f in glob.glob(REPO + "/src/*.cpp"))
VARIANTS = {
    "main":  dict(flags=["-O1", "-g1", "-DSOLVER_NONE"], lib=True, sim=SIM + ["linsol_none.cpp"]),
    "asan":  dict(flags=["-O1", "-g1", "-DSOLVER_NONE", "-DSIM_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"], lib=True, sim=SIM + ["linsol_none.cpp"]),
    "ma27":  dict(flags=["-O1", "-g1", "-DSOLVER_MA27"], lib=True, sim=SIM + ["linsol_sim.cpp"]),
    "ma57":  dict(flags=["-O1", "-g1", "-DSOLVER_MA57"], lib=True, sim=SIM + ["linsol_sim.cpp"]),
    "ma57asan": dict(flags=["-O1", "-g1", "-DSOLVER_MA57", "-DSIM_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"], lib=True, sim=SIM + ["linsol_sim.cpp"]),
    "capi":  dict(flags=["-O1", "-g1", "-DSOLVER_NONE", "-DSIM_CAPI", "-I" + REPO + "/interfaces/c"], lib=True, sim=SIM + ["linsol_none.cpp"], extra=["interfaces/c/qpOASES_wrapper.cpp"]),
    "mex":   dict(flags=["-O1", "-g1", "-DSOLVER_NONE", "-DSIM_MEX", "-I" + V + "/sim/mexinc", "-I" + REPO + "/interfaces"], lib=True, sim=SIM + ["linsol_none.cpp", "mexstub.cpp", "mexall.cpp"]),
    "mexasan": dict(flags=["-O1", "-g1", "-DSOLVER_NONE", "-DSIM_MEX", "-DSIM_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-I" + V + "/sim/mexinc", "-I" + REPO + "/interfaces"], lib=True, sim=SIM + ["linsol_none.cpp", "mexstub.cpp", "mexall.cpp"]),
    "blk": dict(flags=["-O1", "-g1", "-DSOLVER_NONE", "-DSIM_BLK", "-DMATLAB_MEX_FILE", "-I" + V + "/sim/blkinc", "-I" + V + "/sim/mexinc", "-I" + REPO + "/interfaces"], nolong=True, lib=True, sim=SIM + ["linsol_none.cpp", "mexstub.cpp", "blkstub.cpp", "blk_b.cpp", "blk_q.cpp", "blk_s.cpp", "blk_sci.cpp"], extra=["interfaces/scilab/qpOASESinterface.c"]),
    "blkasan": dict(flags=["-O1", "-g1", "-DSOLVER_NONE", "-DSIM_BLK", "-DMATLAB_MEX_FILE", "-DSIM_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-I" + V + "/sim/blkinc", "-I" + V + "/sim/mexinc", "-I" + REPO + "/interfaces"], nolong=True, lib=True, sim=SIM + ["linsol_none.cpp", "mexstub.cpp", "blkstub.cpp", "blk_b.cpp", "blk_q.cpp", "blk_s.cpp", "blk_sci.cpp"], extra=["interfaces/scilab/qpOASESinterface.c"]),
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def tree(*globs):
    h = hashlib.sha256()
    for g in globs:
        for f in sorted(glob.glob(g, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build(name):
    v = VARIANTS[name]
    os.makedirs(os.path.join(B, "obj"), exist_ok=True); os.makedirs(os.path.join(B, "bin"), exist_ok=True)
    hdr = tree(REPO + "/include/**/*", V + "/sim/*.hpp", V + "/sim/mexinc/*", V + "/sim/blkinc/**/*", REPO + "/interfaces/simulink/*", REPO + "/interfaces/scilab/*", REPO + "/interfaces/octave/*", REPO + "/interfaces/matlab/*", REPO + "/interfaces/c/*", REPO + "/src/*.cpp" if not v["lib"] else REPO + "/include/qpOASES.hpp")
    jobs = []
    inc = ["-I" + REPO + "/include", "-I" + V + "/sim"]
    lst = []
    if v["lib"]:
        # the library's own LAPACK lacks the routines SQProblemSchur needs (dummies): the simulated solver brings them along
        schur = "linsol_sim.cpp" in v["sim"]
        lst += [(REPO + "/src/" + f, ["-D%s_=qpOASES_dummy_%s_" % (n, n) for n in ("dtrtrs", "strtrs", "dtrcon", "strcon")] if schur and f == "LAPACKReplacement.cpp" else []) for f in LIB]
    lst += [(V + "/sim/" + f, []) for f in v["sim"]]
    for f in v.get("extra", []):
        lst.append((REPO + "/" + f, []))
    objs = []
    for f, x in lst:
        defs = [d for d in DEFS if "LONG" not in d] if v.get("nolong") else DEFS
        flags = ([] if f.endswith(".c") else ["-std=c++17"]) + ["-w", "-fPIC"] + defs + v["flags"] + inc + x
        flags.append('-DSIM_VARIANT="%s"' % name)
        key = sha(open(f, "rb").read(), hdr, " ".join(flags), f)
        o = os.path.join(B, "obj", key + ".o"); objs.append(o)
        if not os.path.exists(o): jobs.append((f, flags, o))
    def cc(j):
        f, flags, o = j
        t = o + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc" if f.endswith(".c") else "g++"] + flags + ["-c", f, "-o", t], capture_output=True, text=True)
        if r.returncode: return f + "\n" + r.stderr
        os.rename(t, o); return None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for e in ex.map(cc, jobs):
            if e: print("BUILD-ERROR", e, file=sys.stderr); sys.exit(3)
    exe = os.path.join(B, "bin", name + "-" + sha(*objs))
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        lf = [x for x in v["flags"] if x.startswith("-fsan")]
        r = subprocess.run(["g++", "-o", t] + objs + lf + (["-Wl,--wrap=vfprintf"] if "linsol_sim.cpp" in v["sim"] else []) + ["-ldl", "-lm"], capture_output=True, text=True)
        if r.returncode: print("LINK-ERROR", r.stderr[-4000:], file=sys.stderr); sys.exit(3)
        os.rename(t, exe)
    return exe

if __name__ == "__main__":
    for n in sys.argv[1:] or ["main"]: print(build(n))
