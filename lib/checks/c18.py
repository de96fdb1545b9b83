import os, shutil
import vbuild
RULE = ("child processes that terminate from 19 kinds of origins (any thread, static initialisers and destructors, noexcept, unwinding, handlers, signals, direct calls) with 22 kinds of exceptions and hostile texts, with terminal and plain stderr, closed descriptors, "
        "failing resolution and abort handlers; exit status, stdout and stderr judged, the trace's functions compared with the call chain; distinct = distinct scenarios")
ASSUMPTIONS = ["what() returns text, and memory is not exhausted", "of two threads terminating at once only the end by abort is judged", "frames unwound by the runtime before it terminates (noexcept, destructors) cannot be in the trace"]
MIN_EVALUATIONS = 500
def run(ctx):
    tool = vbuild.build_tool("addr2line", "fake_addr2line.c", ["fake_answer.h"], ("-O1", "-static"))
    fake = os.path.join(ctx.tmp, "bin"); os.makedirs(fake, exist_ok=True); shutil.copy(tool, os.path.join(fake, "addr2line"))
    env = {"PATH": fake + ":/usr/bin:/bin", "ASAN_OPTIONS": "handle_abort=0:detect_leaks=0:exitcode=99"}
    for cfg, n, k, extra in [("libdl", 5, 400, []), ("fault", 2, 150, ["--helper=1", "--names=0"]), ("asan-libdl", 2, 150, []), ("clang-libdl", 1, 150, []), ("rel-libdl", 1, 150, []), ("lunw-libdl", 1, 150, []), ("unw", 2, 90, [])]:
        exe = ctx.exe("c18", cfg, ["c18_terminate.cpp"], link=["-rdynamic"])
        ctx.shards(exe, cfg, n, ["--processes=%d" % (k * ctx.scale(1, 10))] + extra, env=env, timeout=ctx.scale(300, 850))
