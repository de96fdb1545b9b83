import glob, os, corpus
RULE = ("symbols generated from a grammar of C++ functions with their qualified name as expected answer; symbols of the installed C++ libraries "
        "with LLVM's demangler as oracle; mutations, truncations, token soup, random bytes and deep nestings; distinct = distinct inputs")
ASSUMPTIONS = ["the ambiguous spelling operator<<T> (demanglers print operator< <T>) is not generated",
               "qualifiers inside the target type of a conversion operator are dropped like any other qualifier"]
MIN_EVALUATIONS = 30000
def run(ctx):
    extra, link = [], []
    path = ""
    if os.path.exists("/usr/lib/llvm-18/include/llvm/Demangle/Demangle.h") and glob.glob("/usr/lib/llvm-18/lib/libLLVM-18.so"):
        extra, link = ["-DWITH_LLVM", "-I/usr/lib/llvm-18/include"], ["-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
        path = corpus.mangled(ctx)
    exe = ctx.exe("c07", "asan", ["c07_prune.cpp"], extra=extra, link=link)
    ctx.shards(exe, "symbols", ctx.scale(8, 32), ["--cases=%d" % ctx.scale(6000, 60000), "--corpus=" + path, "--corpus-cases=%d" % ctx.scale(3000, 30000), "--deep=%d" % ctx.scale(20000, 100000)],
               timeout=ctx.scale(250, 800), hang_key="prune:hang")
