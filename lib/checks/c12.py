import os, shutil
import vbuild
RULE = ("random programs of nested tries (plain, macro, try_catch lists), throws of 21 types, throw;, cpptrace::rethrow, stored exceptions, destructors and resolutions against a model of the two trace slots and the live call chain recorded at the throw, "
        "on the main thread and on fresh threads; distinct = programs that throw")
ASSUMPTIONS = ["the current trace is documented as that of the last throw intercepted by a tracing handler, so a tracing try in a destructor or handler replaces it", "machinery frames in front of the throw point are documented"]
MIN_EVALUATIONS = 10000
def run(ctx):
    for cfg, div, res in [("unw", 1, 0), ("rel-unw", 1, 0), ("lunw", 4, 0), ("exe", 4, 0), ("libdl", 4, 9), ("asan", 10, 0), ("clang-unw", 2, 0)]:
        exe = ctx.exe("c12", cfg, ["c12_current.cpp"])
        ctx.shards(exe, "current-" + cfg, ctx.scale(3, 8), ["--mode=c12", "--programs=%d" % (ctx.scale(8000, 200000) // div), "--resolve=%d" % res], timeout=ctx.scale(150, 600), hang_key="current:hang")
    late(ctx)
def late(ctx):
    """the same facility while threads and processes end"""
    tool = vbuild.build_tool("addr2line", "fake_addr2line.c", ["fake_answer.h"], ("-O1", "-static"))
    fake = os.path.join(ctx.tmp, "bin"); os.makedirs(fake, exist_ok=True); shutil.copy(tool, os.path.join(fake, "addr2line"))
    env = {"PATH": fake + ":/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"} # a trace taken by a thread's last destructors is never freed
    for cfg, n, extra in [("libdl", 1500, []), ("asan-libdl", 500, []), ("clang-libdl", 500, []), ("lunw-libdl", 400, []), ("asan-dladdr", 150, ["--names=0"]), ("asan", 100, ["--names=0"])]:
        exe = ctx.exe("c12e", cfg, ["c12_exit.cpp"], link=["-rdynamic"])
        ctx.shards(exe, "late-" + cfg, 4, ["--processes=%d" % (n * ctx.scale(1, 10) // 4)] + extra, env=env, timeout=ctx.scale(200, 600))
