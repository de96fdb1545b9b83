RULE = ("random histories of setter/copy/move/assign operations on three formatters, then random traces formatted through every "
        "entry point and sink; distinct = distinct expected outputs")
ASSUMPTIONS = ["symbols(pruned/pretty) text is judged by C07/C08, snippet text by C06: here only their placement is"]
MIN_EVALUATIONS = 20000
def run(ctx):
    exe = ctx.exe("c05", "asan", ["c05_format.cpp"], link=["-lutil"])
    ctx.shards(exe, "formatter-model", ctx.scale(8, 24), ["--cases=%d" % ctx.scale(700, 6000)], timeout=ctx.scale(250, 800))
