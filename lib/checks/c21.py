RULE = ("random operation histories of nullable integers of 15 types against std::optional, and every value of the 8- and 16-bit ones; frame pairs differing in one bit of one field; histories of the three trace containers against vectors; "
        "random paths through basename and the formatter; distinct = histories, frame pairs and paths")
ASSUMPTIONS = ["the largest value of a type is documented to mean null", "whether the inline flag takes part in frame equality is left open", "basename treats the separators of both platforms as such, traces may come from either"]
MIN_EVALUATIONS = 100000
def run(ctx):
    for cfg, n, k in [("asan", 2, 300), ("libdl", 4, 3000), ("clang-asan", 1, 300)]:
        exe = ctx.exe("c21", cfg, ["c21_values.cpp"], link=["-lutil"])
        ctx.shards(exe, "values-" + cfg, n, ["--histories=%d" % (k * ctx.scale(1, 12))], timeout=ctx.scale(150, 600))
