RULE = ("random histories of register, unregister, unknown unregister, repeated register, clear and debugger-interface registration over objects with adjacent, "
        "empty, tiny, multi-section and foreign-class ranges and malformed files, each step followed by lookups at range edges; distinct = distinct histories")
ASSUMPTIONS = ["live objects' code ranges do not overlap each other", "an object registered twice is removed by one unregistration (as by the map it is described as)",
               "lookups are observed through trace resolution in the libdwarf configuration, whose DWARF reader is replaced by an empty one (libdwarf is not installed), and through the internal lookup function"]
MIN_EVALUATIONS = 20000
def run(ctx):
    exe = ctx.exe_optional("c11i", "asan-dwstub", ["c11_jit.cpp"], extra=["-DINTERNAL"]) or ctx.exe("c11", "asan-dwstub", ["c11_jit.cpp"])
    ctx.shards(exe, "registry", ctx.scale(8, 32), ["--histories=%d" % ctx.scale(300, 3000)], timeout=ctx.scale(300, 800), hang_key="jit:hang")
