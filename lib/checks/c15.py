RULE = ("random histories of a pool of exception objects of all 14 kinds: construct (default and explicit skip), copy, move, assign, self-assign, move-assign, throw and catch by reference/value/exception_ptr, allocations failing mid-copy, "
        "queries in every order, against a value model with the call chain recorded at construction; wrapping through all entry points; distinct = histories and wrap combinations")
ASSUMPTIONS = ["moved-from objects and targets of assignments that ran out of memory may hold any value but must stay usable"]
MIN_EVALUATIONS = 10000
def run(ctx):
    for cfg, h in [("asan-libdl", 500), ("libdl", 1500), ("rel-unw", 12), ("asan-lunw", 6)]:
        exe = ctx.exe("c15", cfg, ["c15_exceptions.cpp"])
        n = ctx.scale(h, h * 10)
        ctx.shards(exe, "exceptions-" + cfg, ctx.scale(2, 8), ["--histories=%d" % n], timeout=ctx.scale(150, 600), hang_key="exc:hang")
