RULE = ("ELF files written from a random description (class, byte order, header entry sizes, segments, text sections, symbol tables), read from memory and "
        "disk by queries in random order; the same files with corrupted fields, bytes and lengths, and random bytes; distinct = distinct file contents")
ASSUMPTIONS = ["extended section/segment numbering (65280 sections and more) is not generated", "symbols of one table do not overlap",
               "buffers are exact heap blocks under AddressSanitizer with a 64 MB allocation limit; files are below 100 KB"]
MIN_EVALUATIONS = 2000
def run(ctx):
    for cfg in ("asan", "clang-asan"):
        exe = ctx.exe_optional("c10i", cfg, ["c10_elf.cpp"], extra=["-DINTERNAL"]) or ctx.exe("c10", cfg, ["c10_elf.cpp"])
        ctx.shards(exe, "elf-" + cfg, ctx.scale(6, 32), ["--good=%d" % ctx.scale(400, 3000), "--bad=%d" % ctx.scale(600, 6000)], timeout=ctx.scale(300, 800), hang_key="elf:hang",
                   env={"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=64:handle_abort=1"})
