import corpus
RULE = ("valid manglings (generated, exported by installed libraries), with doubled underscore, suffixes, truncated, mutated, random; "
        "compared with abi::__cxa_demangle for demangle, ctrace_demangle and the symbol path; distinct = distinct strings")
ASSUMPTIONS = ["names contain no NUL and are below 3000 bytes", "the platform demangler itself is trusted"]
MIN_EVALUATIONS = 20000
def run(ctx):
    c = corpus.mangled(ctx)
    args = ["--cases=%d" % ctx.scale(1500, 20000), "--corpus=" + c]
    for cfg in ("asan", "unw", "rel-unw"):
        exe = ctx.exe_optional("c09i", cfg, ["c09_demangle.cpp"], extra=["-DINTERNAL"]) or ctx.exe("c09", cfg, ["c09_demangle.cpp"])
        ctx.shards(exe, "names-" + cfg, ctx.scale(4, 16), args + ["--leak=%d" % (cfg != "asan")], timeout=ctx.scale(250, 800), hang_key="demangle:hang")
