"""Builds cpptrace from /repo's working tree in the instrumented configurations the checks need.

Objects are content addressed (flags + every header + the source), so a rebuild after an edit of /repo recompiles
what changed and nothing is ever reused across different contents.
"""
import glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
GXX, CLANGXX = "/usr/bin/g++", "/usr/bin/clang++-18"

class BuildError(Exception):
    """The code under test or a harness did not build."""
class HarnessBuildError(BuildError):
    pass

ADDR2LINE = shutil.which("addr2line") or "/usr/bin/addr2line"
BASE_DEFS = ["-DCPPTRACE_STATIC_DEFINE", "-DNOMINMAX", "-DHAS_ATTRIBUTE_PACKED", "-DCPPTRACE_HAS_CXX_EXCEPTION_TYPE",
             "-DCPPTRACE_HAS_DLADDR1"]
DLFIND = ["-DCPPTRACE_HAS_DL_FIND_OBJECT"]
A2L = ["-DCPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE", '-DCPPTRACE_ADDR2LINE_PATH="%s"' % ADDR2LINE]
# the helper is looked up in PATH: lets a fault-injecting stand-in take its place
A2LPATH = ["-DCPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE", "-DCPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH"]
LIBDL = ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL"]
BT = ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBBACKTRACE"]
NOSYM = ["-DCPPTRACE_GET_SYMBOLS_WITH_NOTHING"]
# the libdwarf back-end's own logic, with the DWARF reader itself supplied by the harness (libdwarf is not installed)
DWSTUB = ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDWARF"]
NODWARF = ["src/symbols/dwarf/dwarf_resolver.cpp"]
ABI = ["-DCPPTRACE_DEMANGLE_WITH_CXXABI"]
UNW, LUNW, EXE = ["-DCPPTRACE_UNWIND_WITH_UNWIND"], ["-DCPPTRACE_UNWIND_WITH_LIBUNWIND", "-DUNW_LOCAL_ONLY"], ["-DCPPTRACE_UNWIND_WITH_EXECINFO"]
ASAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
PLAIN = ["-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
REL = ["-O2", "-DNDEBUG"]

def cfg(defs, mode, cxx=GXX, libs=(), std="-std=gnu++17", exclude=()):
    return dict(defs=BASE_DEFS + ABI + list(defs), mode=list(mode), cxx=cxx, libs=list(libs), std=std, exclude=list(exclude))

UL = ["-lunwind"]
CONFIGS = {
    "asan":        cfg(DLFIND + A2L + UNW, ASAN),
    "asan-lunw":   cfg(DLFIND + A2L + LUNW, ASAN, libs=UL),
    "asan-exe":    cfg(DLFIND + A2L + EXE, ASAN),
    "asan-fault":  cfg(DLFIND + A2LPATH + UNW, ASAN),
    "asan-dwstub": cfg(DLFIND + DWSTUB + UNW, ASAN, exclude=NODWARF),
    "fault-dladdr": cfg(A2LPATH + UNW, PLAIN),
    "tsan-fault":  cfg(DLFIND + A2LPATH + UNW, TSAN),
    "tsan-dwstub": cfg(DLFIND + DWSTUB + UNW, TSAN, exclude=NODWARF),
    "tsan-dwstub-dladdr": cfg(DWSTUB + UNW, TSAN, exclude=NODWARF),
    "tsan-lunw":   cfg(DLFIND + A2LPATH + LUNW, TSAN, libs=UL),
    "dwstub":      cfg(DLFIND + DWSTUB + UNW, PLAIN, exclude=NODWARF),
    "asan-libdl":  cfg(DLFIND + LIBDL + UNW, ASAN),
    "asan-dladdr": cfg(A2L + UNW, ASAN),
    "tsan":        cfg(DLFIND + A2L + UNW, TSAN),
    "tsan-dladdr": cfg(A2LPATH + UNW, TSAN),
    "tsan-bt":     cfg(DLFIND + BT + UNW, TSAN, libs=["-lbacktrace"]),
    "unw":         cfg(DLFIND + A2L + UNW, PLAIN),
    "lunw":        cfg(DLFIND + A2L + LUNW, PLAIN, libs=UL),
    "exe":         cfg(DLFIND + A2L + EXE, PLAIN),
    "rel-unw":     cfg(DLFIND + A2L + UNW, REL),
    "rel-lunw":    cfg(DLFIND + A2L + LUNW, REL, libs=UL),
    "rel-exe":     cfg(DLFIND + A2L + EXE, REL),
    "dladdr":      cfg(A2L + UNW, PLAIN),
    "fault":       cfg(DLFIND + A2LPATH + UNW, PLAIN),
    "libdl":       cfg(DLFIND + LIBDL + UNW, PLAIN),
    "bt":          cfg(DLFIND + BT + UNW, PLAIN, libs=["-lbacktrace"]),
    "clang-unw":   cfg(DLFIND + A2L + UNW, PLAIN, cxx=CLANGXX),
    "clang-asan":  cfg(DLFIND + A2L + UNW, ASAN, cxx=CLANGXX),
    "clang-libdl": cfg(DLFIND + LIBDL + UNW, PLAIN, cxx=CLANGXX),
    "rel-libdl":   cfg(DLFIND + LIBDL + UNW, REL),
    "lunw-libdl":  cfg(DLFIND + LIBDL + LUNW, PLAIN, libs=UL),
    "clang-fuzz":  cfg(DLFIND + A2L + UNW, ASAN + ["-fsanitize=fuzzer-no-link"], cxx=CLANGXX),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def sources():
    return sorted(p for p in glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))

def headers():
    out = []
    for d in ("src", "include"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if f.endswith((".hpp", ".h", ".hh", ".ipp", ".inl"))]
    return sorted(out)

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:24]

_hdr_hash = None
def header_hash():
    global _hdr_hash
    if _hdr_hash is None:
        _hdr_hash = _h(*[x for h in headers() for x in (h, open(h, "rb").read())])
    return _hdr_hash

def version_include():
    """generated include directory holding cpptrace/version.hpp, from the version in CMakeLists.txt"""
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", text)
    v = m.groups() if m else ("1", "0", "0")
    src = open(os.path.join(REPO, "cmake", "in", "version-hpp.in")).read()
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), v): src = src.replace("@CPPTRACE_VERSION_%s@" % k, x)
    d = os.path.join(BUILD, "gen-" + _h(src)[:10])
    f = os.path.join(d, "cpptrace", "version.hpp")
    if not os.path.exists(f):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        tmp = f + ".%d" % os.getpid()
        open(tmp, "w").write(src); os.replace(tmp, f)
    return d

def includes(internal=True):
    r = ["-I" + os.path.join(REPO, "include"), "-I" + version_include()]
    if internal: r.append("-I" + os.path.join(REPO, "src"))
    return r

def _compile(cmd, out, src):
    if os.path.exists(out): return None
    tmp = out + ".%d.tmp.o" % os.getpid()
    p = sh(cmd + ["-c", src, "-o", tmp])
    if p.returncode != 0:
        return "%s\n%s" % (" ".join(cmd + ["-c", src]), p.stdout[-4000:])
    os.replace(tmp, out)
    return None

def build_lib(name, pic=False):
    """-> path of the static library of configuration `name`"""
    c = CONFIGS[name]
    flags = [c["cxx"], c["std"], "-g", "-w", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fPIC"] + c["mode"] + c["defs"] + includes()
    objdir = os.path.join(BUILD, "obj"); os.makedirs(objdir, exist_ok=True)
    jobs, outs = [], []
    for s in sources():
        rel = os.path.relpath(s, REPO)
        if rel in c["exclude"]: continue
        o = os.path.join(objdir, rel.replace("/", "_") + "." + _h(flags, header_hash(), open(s, "rb").read()) + ".o")
        outs.append(o); jobs.append((flags, o, s))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: _compile(*j), jobs) if e]
    if errs: raise BuildError("library configuration %s does not compile:\n%s" % (name, errs[0]))
    key = _h(*outs)
    lib = os.path.join(BUILD, "lib-%s-%s.a" % (name, key))
    if not os.path.exists(lib):
        tmp = lib + ".%d" % os.getpid()
        p = sh(["ar", "crsD", tmp] + outs)
        if p.returncode: raise BuildError(p.stdout)
        os.replace(tmp, lib)
    return lib

def build_exe(out, config, srcs, extra=(), link=(), optional=False, mode=None, deps=()):
    """Compile harness sources against configuration `config`; returns the executable's path."""
    c = CONFIGS[config]
    lib = build_lib(config)
    mode = c["mode"] if mode is None else mode
    flags = [c["cxx"], c["std"], "-g", "-w"] + list(mode) + c["defs"] + includes() + ["-I" + os.path.join(V, "harness")] + list(extra)
    srcs = [s if os.path.isabs(s) else os.path.join(V, "harness", s) for s in srcs]
    hh = _h(*[open(h, "rb").read() for h in sorted(glob.glob(os.path.join(V, "harness", "*.hpp")) + list(deps))])
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    key = _h(flags, link, lib, header_hash(), hh, *[open(s, "rb").read() for s in srcs])
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (out, config, key))
    if os.path.exists(exe): return exe
    objs = []
    for s in srcs:
        objs.append(exe + "." + os.path.basename(s) + ".o")
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: _compile(flags, *j), list(zip(objs, srcs))) if e]
    if errs: raise HarnessBuildError("harness %s (%s) does not compile:\n%s" % (out, config, errs[0]))
    tmp = exe + ".%d.tmp" % os.getpid()
    p = sh([c["cxx"]] + list(mode) + ["-g"] + objs + [lib] + c["libs"] + ["-ldl", "-pthread"] + list(link) + ["-o", tmp])
    for o in objs:
        try: os.unlink(o)
        except OSError: pass
    if p.returncode: raise HarnessBuildError("link of %s (%s) failed:\n%s" % (out, config, p.stdout[-4000:]))
    os.replace(tmp, exe)
    return exe

def build_shared(out, srcs, flags=("-g", "-O1"), cxx=GXX, link=()):
    srcs = [s if os.path.isabs(s) else os.path.join(V, "harness", s) for s in srcs]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    so = os.path.join(BUILD, "bin", "lib%s-%s.so" % (out, _h(flags, cxx, link, *[open(s, "rb").read() for s in srcs])))
    if os.path.exists(so): return so
    tmp = so + ".%d.tmp" % os.getpid()
    p = sh([cxx, "-fPIC", "-shared", "-w"] + list(flags) + srcs + list(link) + ["-o", tmp])
    if p.returncode: raise HarnessBuildError("shared library %s:\n%s" % (out, p.stdout[-4000:]))
    os.replace(tmp, so)
    return so

def build_tool(out, src, deps=(), flags=("-O1",)):
    """a small C program of the harness's own (no cpptrace in it)"""
    src = os.path.join(V, "harness", src)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", "tool-%s-%s" % (out, _h(flags, *[open(os.path.join(V, "harness", f), "rb").read() for f in [src] + list(deps)])))
    if os.path.exists(exe): return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    p = sh(["gcc", "-w", "-I" + os.path.join(V, "harness")] + list(flags) + [src, "-o", tmp])
    if p.returncode: raise HarnessBuildError("tool %s:\n%s" % (out, p.stdout[-4000:]))
    os.replace(tmp, exe)
    return exe

def prune(max_bytes=6 << 30):
    """keep the build directory bounded"""
    files = []
    for root, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(root, f)
            try: st = os.stat(p)
            except OSError: continue
            files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if total <= max_bytes: break
        try: os.unlink(p); total -= s
        except OSError: pass
