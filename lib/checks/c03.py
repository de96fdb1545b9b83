import os, shutil
RULE = ("random histories of opening (by copy, link, relative path, separate namespace) and closing shared objects of different layouts, with queries at mapping edges, random module addresses and addresses "
        "outside any module, and live traces through them, in executables of different kinds; distinct = distinct address batches")
ASSUMPTIONS = ["a module's file does not change while it is loaded and keeps one content per path (module bases are cached by path)", "the vdso and anonymous tails of modules are not judged (no file is mapped there)"]
MIN_EVALUATIONS = 5000
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def run(ctx):
    d = os.path.join(ctx.tmp, "lib dir"); os.makedirs(d, exist_ok=True); ls = []
    for name, flags in [("mod_a", ["-g", "-O0"]), ("mod_b", ["-O2", "-Wl,-z,noseparate-code"]), ("mod_c", ["-O1", "-Wl,-Ttext-segment=0x10000000"]), ("mod_d", ["-O1", "-s", "-Wl,-z,separate-code"]),
                        ("mod_e", ["-O1", "-Wl,-Ttext-segment=0x3fff000", "-Wl,-z,max-page-size=65536"]), ("mod_f", ["-O1", "-fuse-ld=gold" if shutil.which("ld.gold") else "-O1"])]:
        so = ctx.shared("c03" + name, ["c02_mod.cpp"], flags=flags + ["-DMOD=" + name, "-I" + os.path.join(V, "harness")])
        p = os.path.join(d, name + ".so"); shutil.copy(so, p); ls.append(name + "=" + p)
    ex = ["-DMOD=exe"]
    kinds = [("asan", [], [], 1), ("asan-dladdr", [], [], 1), ("unw", ["-fno-pie"], ["-no-pie"], 1), ("dladdr", ["-fno-pie"], ["-no-pie"], 1), ("unw", [], ["-Wl,-Ttext-segment=0x20000000", "-no-pie"], 1),
             ("dladdr", [], ["-Wl,-Ttext-segment=0x20000000", "-no-pie"], 1), ("unw", [], ["-static-pie"], 0), ("unw", [], ["-static"], 0)]
    for i, (cfg, extra, link, shared) in enumerate(kinds):
        exe = ctx.exe("c03k%d" % i, cfg, ["c03_objects.cpp", "c02_mod.cpp"], extra=ex + extra, link=link + ([] if not shared else ["-rdynamic"]))
        ctx.shards(exe, "objects-%s%s" % (cfg, "".join(link)), ctx.scale(2, 8), (["--libs=" + ",".join(ls)] if shared else []) + ["--rounds=%d" % ctx.scale(60, 600)], timeout=ctx.scale(150, 600), hang_key="object:hang")
