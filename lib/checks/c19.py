import os, shutil, subprocess, vbuild
RULE = ("processes with random surroundings (standard descriptors open or closed, child handlers, masks, own children dead and alive, helpers that work, fail, die, hang up or answer nonsense, timers, stream and floating point state, cache modes) making random "
        "sequences of 35 kinds of library calls, half of them with one allocation failing; descriptors (target, flags, offset), children, signal state, page protections and 20 more kinds of process state are compared after every call, "
        "and live allocations over repetitions of random blocks of calls (plain builds; leaks under ASan); distinct = call, failure and surroundings")
ASSUMPTIONS = ["new read-only mappings are not residue: libbacktrace keeps the files it reads mapped", "an allocation that fails while an exception is in flight is absorbed (the option that propagates it replaces the exception)",
               "heap usage counts live allocations; the caches of the modules and files used are warm after half the repetitions"]
MIN_EVALUATIONS = 1000
def run(ctx):
    d = os.path.join(ctx.tmp, "files"); os.makedirs(os.path.join(d, "dir"), exist_ok=True); b = os.path.join(d, "bin"); os.makedirs(b, exist_ok=True)
    open(os.path.join(d, "text"), "w").write("line one\nline two\nline three\nline four\n"); open(os.path.join(d, "empty"), "w").close()
    for n, k in [("cut", 100), ("closed", 20)]: open(os.path.join(d, n), "wb").write(open("/bin/true", "rb").read()[:k])
    mod = [os.path.join(d, "libmod%d.so" % i) for i in (0, 1)]; so = ctx.shared("corrupt", ["corrupt_mod.c"], cxx="gcc", flags=("-g", "-O1"))
    for m in mod: shutil.copy(so, m)
    subprocess.run(["objcopy", "--strip-all", mod[1]], check=False)
    shutil.copy(vbuild.build_tool("addr2line", "fake_addr2line.c", ["fake_answer.h"], ("-O1", "-static")), os.path.join(b, "addr2line"))
    for cfg, n, procs in [("fault", 4, 40), ("asan-fault", 3, 25), ("bt", 1, 25), ("libdl", 1, 25), ("clang-unw", 1, 15), ("fault-dladdr", 1, 15)]:
        exe = ctx.exe("c19", cfg, ["c19_residue.cpp"])
        ctx.shards(exe, "residue-" + cfg, n, ["--processes=%d" % (procs * ctx.scale(1, 12)), "--dir=" + d, "--fake=" + b, "--modules=" + ",".join(mod), "--object=" + mod[0]], timeout=ctx.scale(250, 800))
