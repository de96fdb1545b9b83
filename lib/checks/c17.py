import os, shutil
import vbuild
RULE = ("random histories of C API calls (raw, object, resolved and safe traces taken at known depths, conversions between them, text, printing, strings, names, object info, null and empty handles, repeated frees), each next to the C++ call on the "
        "same input, every live handle re-read as other calls go on, under AddressSanitizer; the same history is then repeated and what stays allocated afterwards compared; distinct = distinct histories")
ASSUMPTIONS = ["the frame of the asking function itself differs between the two askers", "ctrace_print_stacktrace pads (inlined) differently from the C++ formatter: and leaves no blanks at the end of a line",
               "allocation does not fail", "obj_path of a single ctrace_object_frame is freed as an owning string"]
MIN_EVALUATIONS = 5000
def run(ctx):
    tool = vbuild.build_tool("addr2line", "fake_addr2line.c", ["fake_answer.h"], ("-O1", "-static"))
    fake = os.path.join(ctx.tmp, "bin"); os.makedirs(fake, exist_ok=True); shutil.copy(tool, os.path.join(fake, "addr2line"))
    env = {"PATH": fake + ":/usr/bin:/bin"}
    for cfg, n, k, extra in [("asan-fault", 4, 15, []), ("asan-fault", 2, 10, ["--failing=1"]), ("asan-libdl", 4, 60, []), ("asan-lunw", 2, 10, []), ("bt", 2, 60, [])]:
        exe = ctx.exe("c17", cfg, ["c17_capi.cpp"])
        ctx.shards(exe, cfg + ("-failing" if extra else ""), n, ["--histories=%d" % (k * ctx.scale(1, 12))] + extra, env=env, timeout=ctx.scale(300, 850))
