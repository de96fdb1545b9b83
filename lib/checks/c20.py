import os, vbuild
RULE = ("histories of level, sink (none, empty, callback, callback that logs, callback that replaces itself and the level, stderr) and absorb changes interleaved with messages of the library's own logger and with operations that raise diagnostics "
        "(rejected objects, allocation failures inside tracing, resolving, exceptions and from_current, failing symbol readers), also from other threads; every sink's content is compared with a model of the configuration; "
        "threads logging while the sink is switched; distinct = histories")
ASSUMPTIONS = ["what an operation raises is taken from a run with every message going to one callback; each boundary that passes a failure on may report it again",
               "callbacks do not throw", "before any configuration nothing is printed"]
MIN_EVALUATIONS = 3000
def run(ctx):
    d = os.path.join(ctx.tmp, "files"); os.makedirs(os.path.join(d, "dir"), exist_ok=True)
    open(os.path.join(d, "text"), "w").write("some text\n"); open(os.path.join(d, "cut"), "wb").write(open("/bin/true", "rb").read()[:100])
    tsan = "halt_on_error=0:exitcode=99:history_size=4:report_thread_leaks=0:suppressions=" + os.path.join(vbuild.V, "harness", "tsan.supp")
    for cfg, n, hist, rounds, flags in [("libdl", 3, 1500, 30, []), ("asan-libdl", 2, 500, 20, []), ("asan-dwstub", 2, 500, 20, ["-DDWSTUB"]), ("tsan-dwstub", 2, 150, 20, ["-DDWSTUB"])]:
        exe = ctx.exe("c20", cfg, ["c20_log.cpp"], extra=flags)
        ctx.shards(exe, "log-" + cfg, n, ["--histories=%d" % (hist * ctx.scale(1, 12)), "--rounds=%d" % (rounds * ctx.scale(1, 10)), "--dir=" + d], timeout=ctx.scale(200, 700), env={"TSAN_OPTIONS": tsan})
