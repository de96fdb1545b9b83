RULE = ("random programs run twice, with the tracing facility and with plain try/catch, comparing every event they can observe (handler, object, current exception, uncaught count, destructor order, copies); thread exit, foreign exceptions; "
        "page protections around interceptors prepared in pages of every kind; distinct = programs that throw and page layouts")
ASSUMPTIONS = ["try_catch handlers taking an argument by value may move it once more"]
MIN_EVALUATIONS = 5000
def run(ctx):
    for cfg, div in [("unw", 1), ("rel-unw", 1), ("asan", 10), ("clang-unw", 2), ("lunw", 4)]:
        exe = ctx.exe("c12", cfg, ["c12_current.cpp"])
        ctx.shards(exe, "same-" + cfg, ctx.scale(2, 8), ["--mode=c13", "--programs=%d" % (ctx.scale(16000, 200000) // div), "--protections=%d" % ctx.scale(150, 1500), "--exit=%d" % (cfg != "lunw")], timeout=ctx.scale(150, 600), hang_key="trycatch:hang")
