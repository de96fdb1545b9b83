import os, shutil
RULE = ("random call chains through functions of many shapes in the executable and in shared objects with full, symbol-only and stripped information, whose call sites record their own "
        "name, file and line; batches of those addresses, duplicates, nearby and unresolvable addresses in random order resolved through raw and object traces; distinct = distinct batches")
ASSUMPTIONS = ["the addr2line back-end (which asks for no inlines) may name the innermost inlined call instead of the physical function, consistently with its line",
               "'??' counts as no name, line 0 as no line", "libbacktrace knows only modules loaded before the first resolution, and names no object address (known finding)",
               "source files of one module are not changed or removed while it is resolved"]
MIN_EVALUATIONS = 2000
def libs(ctx):
    """shared objects, at paths that look odd"""
    d = os.path.join(ctx.tmp, "libs at dir:1"); os.makedirs(d, exist_ok=True)
    out = []
    for name, path, flags, q, post in [("mod_a", "liba.so", ["-g", "-O0"], 2, None), ("mod_b", "lib b (x).so", ["-g", "-O2"], 2, None), ("mod_c", "libc_sym.so", ["-O1"], 1, None),
                                       ("mod_d", "libd.so", ["-O1", "-s"], 0, None), ("mod_e", "libe.so", ["-g", "-O1", "-gdwarf-4", "-Wl,-Ttext-segment=0x10000000"], 2, None)]:
        so = ctx.shared("c02" + name, ["c02_mod.cpp"], flags=flags + ["-DMOD=" + name, "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "harness")])
        p = os.path.join(d, path); shutil.copy(so, p)
        out.append("%s=%s=%d" % (name, p, q))
    return ",".join(out)
def run(ctx):
    ls = libs(ctx)
    ex = ["-DMOD=exe", "-DC_NAMES"]
    for cfg, backend, dyn in [("asan", "addr2line", 1), ("dladdr", "addr2line", 1), ("rel-unw", "addr2line", 1), ("libdl", "libdl", 1), ("bt", "libbacktrace", 0)]:
        exe = ctx.exe("c02", cfg, ["c02_resolve.cpp", "c02_mod.cpp"], extra=ex, link=["-rdynamic"])
        ctx.shards(exe, "resolve-" + cfg, ctx.scale(4, 16), ["--backend=" + backend, "--libs=" + ls, "--dynamic=%d" % dyn, "--rounds=%d" % ctx.scale(12 if backend == "addr2line" else 60, 100),
                   "--big=%d" % ctx.scale(12000, 40000)], timeout=ctx.scale(150, 800), hang_key="resolve:hang")
