import corpus
RULE = ("symbols printed from one tree twice, once in a demangler's spelling (gcc, llvm, libc++, msvc) and once as the documented rewrites should "
        "leave them; exported symbols of the installed C++ libraries against a separate rewriter; truncations, mutations and token soup; distinct = distinct inputs")
ASSUMPTIONS = ["template arguments containing operator names made of angle brackets or string literals are outside the oracle"]
MIN_EVALUATIONS = 10000
def run(ctx):
    exe = ctx.exe("c08", "asan", ["c08_pretty.cpp"])
    ctx.shards(exe, "symbols", ctx.scale(8, 32), ["--cases=%d" % ctx.scale(1200, 12000), "--corpus=" + corpus.mangled(ctx), "--corpus-cases=%d" % ctx.scale(1000, 10000)],
               timeout=ctx.scale(300, 800), hang_key="pretty:hang")
