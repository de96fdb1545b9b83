import os, shutil
import vbuild
RULE = ("rounds of 2 to 10 threads running random mixes of 24 kinds of library calls (tracing, resolving, formatting with a shared formatter, snippets, names, caught, rethrown and traced exceptions, C API, option and logger "
        "changes, jit registration, module loading and unloading, failing resolution), first use included, in a process of its own per round under ThreadSanitizer; every logged answer is compared with what the same call answers alone afterwards; "
        "distinct = pairs of call kinds seen overlapping, per round")
ASSUMPTIONS = ["a race is seen if the run's synchronisation does not order the two accesses (ThreadSanitizer's happens-before), not for every schedule",
               "libbacktrace, libunwind, libgcc and the loader are not instrumented: in those configurations only answers, crashes and hangs (and races in cpptrace's own code) are judged",
               "a formatter, trace or exception object is only shared for reading"]
MIN_EVALUATIONS = 1000
def run(ctx):
    tool = vbuild.build_tool("addr2line", "fake_addr2line.c", ["fake_answer.h"], ("-O1", "-static"))
    fake = os.path.join(ctx.tmp, "bin"); os.makedirs(fake, exist_ok=True); shutil.copy(tool, os.path.join(fake, "addr2line"))
    so = ctx.shared("corrupt", ["corrupt_mod.c"], cxx="gcc", flags=("-g", "-O1")); mods = os.path.join(ctx.tmp, "modules"); os.makedirs(mods, exist_ok=True)
    for i in range(4): shutil.copy(so, os.path.join(mods, "m%d.so" % i))
    tsan = "halt_on_error=0:exitcode=99:history_size=4:second_deadlock_stack=1:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0:suppressions=" + os.path.join(vbuild.V, "harness", "tsan.supp")
    for cfg, rounds, scale in [("tsan-fault", 25, 12), ("tsan-dladdr", 15, 8), ("tsan-dwstub", 40, 10), ("tsan-dwstub-dladdr", 40, 10), ("tsan-lunw", 10, 8), ("asan-fault", 15, 6), ("bt", 20, 8)]:
        dw = "dwstub" in cfg
        exe = ctx.exe_optional("c14", cfg, ["c14_threads.cpp"], extra=["-DDWSTUB"]) if dw else ctx.exe("c14", cfg, ["c14_threads.cpp"])
        if not exe: continue
        d = os.path.join(ctx.tmp, "files-" + cfg); os.makedirs(d, exist_ok=True)
        ctx.shards(exe, cfg, 4, ["--rounds=%d" % (rounds * ctx.scale(1, scale)), "--count=30", "--dir=" + d, "--modules=" + mods, "--limit=60"], env={"PATH": fake + ":/usr/bin:/bin", "TSAN_OPTIONS": tsan},
                   timeout=ctx.scale(400, 800), now=cfg in ("tsan-dladdr", "tsan-dwstub-dladdr"))
        if ctx.violations: break   # after a race in one configuration the others only add time
