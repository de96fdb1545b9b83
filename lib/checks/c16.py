import os, shutil, subprocess
import vbuild
RULE = ("a stand-in for the helper whose answer is a function of the address and which exits, dies, hangs up, truncates, drops, repeats or garbles on request; every system call of a resolution failing, interrupted or short, "
        "enumerated by position, on first and later use; signal storms; closed standard descriptors x child handling x signal masks; exhausted descriptors and allocations; vanished module files; damaged debug information (libbacktrace); "
        "failing page protection and memory map reads; distinct = fault placements, helper behaviours and surroundings observed")
ASSUMPTIONS = ["a helper that never finishes is out of scope", "a helper that is not installed may be remembered as such", "complete lines of output from a misbehaving helper are taken at face value"]
MIN_EVALUATIONS = 1000
WRAPS = "pipe pipe2 fork poll read write waitpid dup2 dup3 close fcntl execvp execv execlp execl".split()
def corrupt(ctx):
    """modules with damaged debug information"""
    d = os.path.join(ctx.tmp, "corrupt"); os.makedirs(d, exist_ok=True); good = os.path.join(d, "libgood.so")
    shutil.copy(ctx.shared("corrupt", ["corrupt_mod.c"], cxx="gcc", flags=("-g", "-O1")), good)
    import random; rnd = random.Random(ctx.seed); out = [good]
    for s in ["debug_info", "debug_abbrev", "debug_line", "debug_str", "debug_aranges"]:
        for k in range(2):
            g, p = os.path.join(d, "garbage"), os.path.join(d, "lib_%s%d.so" % (s, k))
            open(g, "wb").write(bytes(rnd.randrange(256) for _ in range(rnd.choice([10, 60, 100, 400])))); shutil.copy(good, p)
            if subprocess.run(["objcopy", "--update-section", ".%s=%s" % (s, g), p], capture_output=True).returncode == 0: out.append(p)
    return good, ",".join(out)
def run(ctx):
    tool = vbuild.build_tool("addr2line", "fake_addr2line.c", ["fake_answer.h"], ("-O1", "-static"))
    fake = os.path.join(ctx.tmp, "bin"); os.makedirs(fake, exist_ok=True); shutil.copy(tool, os.path.join(fake, "addr2line"))
    for cfg, alloc in [("fault", 1), ("asan-fault", 0)]:
        exe = ctx.exe("c16", cfg, ["c16_faults.cpp"], link=["-Wl,--wrap=" + f for f in WRAPS])
        ctx.shards(exe, "faults-" + cfg, ctx.scale(4 if alloc else 2, 8), ["--fake=" + fake, "--scale=%d" % ctx.scale(1, 12), "--alloc=%d" % alloc], timeout=ctx.scale(200, 800), hang_key="fault:hang")
    good, broken = corrupt(ctx)
    for cfg in ["fault-dladdr", "libdl"]:
        exe = ctx.exe("c16m", cfg, ["c16_more.cpp"])
        d = os.path.join(ctx.tmp, "modules-" + cfg); os.makedirs(d, exist_ok=True)
        ctx.shards(exe, "modules-" + cfg, 2, ["--mode=modules", "--dir=" + d, "--module=" + good, "--processes=%d" % ctx.scale(10, 200)], env={"PATH": fake + ":/usr/bin:/bin"}, timeout=ctx.scale(150, 600))
    exe = ctx.exe("c16m", "bt", ["c16_more.cpp"])
    ctx.shards(exe, "debuginfo-bt", 2, ["--mode=debuginfo", "--modules=" + broken, "--processes=%d" % ctx.scale(20, 400)], timeout=ctx.scale(150, 600))
    exe = ctx.exe("c16mm", "fault", ["c16_more.cpp"], extra=["-DWRAP_MM"], link=["-Wl,--wrap=mprotect,--wrap=mmap"])
    ctx.shards(exe, "interceptors", 2, ["--mode=interceptors", "--processes=%d" % ctx.scale(20, 400)], timeout=ctx.scale(150, 600))
