import glob, os, subprocess
def mangled(ctx):
    """a file of mangled names of the functions exported by the installed C++ libraries ('' if there are none)"""
    libs = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libstdc++.so.6") + glob.glob("/usr/lib/llvm-18/lib/libLLVM-18.so") + glob.glob("/usr/lib/x86_64-linux-gnu/libboost_*.so"))
    out = os.path.join(ctx.tmp, "symbols.txt"); n = 0
    with open(out, "w") as f:
        for l in libs:
            p = subprocess.run(["nm", "-D", "--defined-only", l], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            syms = sorted({x.split()[-1].split("@")[0] for x in p.stdout.splitlines() if len(x.split()) == 3 and x.split()[1] in "TtWw" and "_Z" in x})
            syms = [s for s in syms if s.startswith("_Z")]
            f.write("".join(s + "\n" for s in syms)); n += len(syms)
    ctx.stats["corpus_symbols_available"] = n
    return out
