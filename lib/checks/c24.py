RULE = ("random strings, numbers, format strings, cache and value histories and file reads against plain reference models (std::string_view, std::optional, a list for the LRU cache, hand-written formatting); "
        "distinct = strings, format strings, histories and reads")
ASSUMPTIONS = ["these are internal interfaces, exercised through the library's own headers; their anchors are the guarantees the rest of the library builds on",
               "a variable format width is only used behind an alignment, as the library does ('{{' is an escape)"]
MIN_EVALUATIONS = 100000
def run(ctx):
    for cfg, n, k in [("asan", 2, 1000), ("libdl", 4, 3000), ("clang-asan", 1, 1000)]:
        exe = ctx.exe("c24", cfg, ["c24_utils.cpp"], link=["-lutil"])
        ctx.shards(exe, "utils-" + cfg, n, ["--cases=%d" % (k * ctx.scale(1, 12))], timeout=ctx.scale(150, 600))
