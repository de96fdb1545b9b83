RULE = ("signals delivered to threads busy in the allocator, stdio, the dynamic linker, exception handling and the library itself, whose handlers call the safe interface under a monitor of allocation, locking, "
        "stdio and descriptors; and random call programs (signals, faults, alternate stacks, threads, code without unwind information) comparing safe and ordinary traces for random skip, size and depth; distinct = interrupted instructions and call programs")
ASSUMPTIONS = ["the safe interface was warmed up as documented", "what libunwind does inside itself (locks taken with signals blocked, its own descriptors opened during warm-up) is libunwind's; allocation is judged there too",
               "signal-safe unwinding exists only in the libunwind configurations; elsewhere the interface must report nothing"]
MIN_EVALUATIONS = 1500
def run(ctx):
    so = ctx.shared("c04lib", ["c01_lib.cpp"])
    for cfg, extra, sig in [("lunw", [], 1), ("rel-lunw", [], 1), ("asan-lunw", ["-DNO_INTERPOSE"], 0), ("unw", [], 1)]:
        exe = ctx.exe("c04", cfg, ["c04_safe.cpp"], extra=extra)
        ctx.shards(exe, "safe-" + cfg, ctx.scale(6, 16), ["--programs=%d" % ctx.scale(150, 1500), "--signals=%d" % (sig * ctx.scale(2500, 2900)), "--lib=" + so], timeout=ctx.scale(150, 500), hang_key="safe:hang")
