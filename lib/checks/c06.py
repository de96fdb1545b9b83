RULE = ("generated files (empty, blank, CRLF, binary, long, 10 MiB boundary) queried at lines inside, at and past the ends with "
        "context sizes up to SIZE_MAX; distinct = distinct (file shape, query, expected text)")
ASSUMPTIONS = ["files do not change between queries (the library caches by path)", "FIFOs are not used as source paths"]
MIN_EVALUATIONS = 5000
def run(ctx):
    exe = ctx.exe("c06", "asan", ["c06_snippet.cpp"])
    ctx.shards(exe, "snippet-model", ctx.scale(8, 16), ["--files=%d" % ctx.scale(250, 1500), "--queries=%d" % ctx.scale(40, 60)], timeout=ctx.scale(250, 800))
