import os, vbuild
RULE = ("random call programs (recursion, virtual/thunk/pointer calls, libc and libstdc++ callbacks, other modules, threads, unwinding, "
        "signal frames) x every tracing entry point x skip/depth values from 0 to SIZE_MAX; distinct = distinct (program, chain length)")
ASSUMPTIONS = ["the system unwinder (libgcc) walks the harness's own frames correctly; it is cross-checked against a shadow stack the program keeps",
               "back-ends with a fixed-size frame buffer are only compared up to that documented size"]
MIN_EVALUATIONS = 20000
def run(ctx):
    so = ctx.shared("c01lib", ["c01_lib.cpp"])
    todo = [("unw", [], []), ("lunw", [], []), ("exe", ["-DFRAME_CAP=400"], ["--deep=0"]), ("rel-unw", [], []), ("rel-lunw", [], []), ("rel-exe", ["-DFRAME_CAP=400"], ["--deep=0"]),
            ("asan", [], ["--nosignal=1", "--deep=0"]), ("clang-unw", [], [])]
    for cfg, extra, args in todo:
        exe = ctx.exe("c01", cfg, ["c01_unwind.cpp"], extra=extra)
        san = cfg.startswith("asan")
        ctx.shards(exe, "chains-" + cfg, ctx.scale(2, 16), ["--lib=" + so, "--programs=%d" % ctx.scale(60 if san else 250, 200 if san else 1500), "--resolved=%d" % ctx.scale(6, 60)] + args, timeout=ctx.scale(200, 700))
