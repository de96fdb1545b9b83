#!/usr/bin/env python3
"""run.py setup | check <ID> [quick|thorough]   -- the one entry point of every registered command."""
import fnmatch, hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "checks"))
import vbuild
V = vbuild.V

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1:max_allocation_size_mb=3000:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=99:history_size=4:second_deadlock_stack=1:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0",
    "LSAN_OPTIONS": "exitcode=99",
}

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.violations = []          # (key, detail, replay dict)
        self.errors = []              # harness failures
        self.inconclusive = []
        self.evaluations = 0
        self.distinct = 0
        self.stats = {}
        self.samples = []
        self.notes = []
        self.parts = {}
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rule = ""
        self.assumptions = []
        self.level = "exploration"
        self.lock = threading.RLock()
        self.pending = []
        self.pool = ThreadPoolExecutor(8)

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # -- building
    def exe(self, out, config, srcs, **kw):
        return vbuild.build_exe(out, config, srcs, **kw)

    def exe_optional(self, out, config, srcs, **kw):
        """a harness that looks below the public API: if the internals moved it is left out, not failed"""
        try:
            return vbuild.build_exe(out, config, srcs, **kw)
        except vbuild.HarnessBuildError as e:
            self.notes.append("part %s left out: internal headers changed (%s)" % (out, str(e).splitlines()[-1][:200]))
            return None

    def shared(self, out, srcs, **kw):
        """a plain shared library of harness code only (no cpptrace in it)"""
        return vbuild.build_shared(out, srcs, **kw)

    # -- running
    def run1(self, cmd, part, env=None, timeout=300, cwd=None, preexec=None, need_done=True, stdin=None):
        e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
        fd, journal = tempfile.mkstemp(prefix="j-", dir=self.tmp); os.close(fd)
        full = list(cmd) + (["--journal=" + journal] if need_done else [])
        outp = tempfile.TemporaryFile(dir=self.tmp)
        t = time.time(); timed_out = False
        p = subprocess.Popen(full, stdout=outp, stderr=subprocess.STDOUT, stdin=stdin if stdin is not None else subprocess.DEVNULL, env=e, cwd=cwd or self.tmp,
                             start_new_session=True, preexec_fn=preexec)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = None
        try: os.killpg(p.pid, signal.SIGKILL)   # the harness and anything it left behind
        except OSError: pass
        if timed_out: p.wait()
        outp.seek(0); out = outp.read().decode("utf-8", "replace"); outp.close()
        try: case = open(journal, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        except OSError: case = ""
        try: os.unlink(journal)
        except OSError: pass
        return dict(rc=rc, out=out, timed_out=timed_out, case=case, wall=time.time() - t, cmd=full, env=env or {}, part=part)

    def absorb(self, r):
        """merge one harness run into the verdict; returns True if conclusive"""
        out, done = r["out"], False
        pt = self.parts.setdefault(r["part"], dict(runs=0, evaluations=0, distinct=0))
        pt["runs"] += 1
        for line in out.splitlines():
            i = line.find("@@")
            if i < 0: continue
            line = line[i:]
            if line.startswith("@@VIOL "):
                key, _, det = line[7:].partition("\t")
                self.violate(key, det, r)
            elif line.startswith("@@SAMPLE "):
                if len(self.samples) < 12: self.samples.append({"part": r["part"], "case": line[9:]})
            elif line.startswith("@@STAT "):
                k, _, n = line[7:].rpartition(" ")
                try: self.stats[k] = self.stats.get(k, 0) + int(n)
                except ValueError: pass
            elif line.startswith("@@COUNT "):
                n = int(line[8:]); self.evaluations += n; pt["evaluations"] += n
            elif line.startswith("@@NDISTINCT "):
                n = int(line[12:]); self.distinct += n; pt["distinct"] += n
            elif line.startswith("@@INCONCLUSIVE "):
                self.inconclusive.append(line[15:])
            elif line.startswith("@@ERROR "):
                self.errors.append("%s: %s" % (r["part"], line[8:]))
            elif line.startswith("@@DONE"):
                done = True
        for key, det in san_reports(out):
            self.violate(key, det + ("\ncase: " + r["case"] if r["case"] else ""), r)
            done_viol = True
        if r["timed_out"]:
            return "timeout"
        if not done and not list(san_reports(out)):
            if r["rc"] is not None and r["rc"] < 0:
                self.violate("signal:%d%s" % (-r["rc"], frame_hint(out)), "died by signal %d; case: %s\n%s" % (-r["rc"], r["case"], out[-1500:]), r)
            elif "@@ERROR" in out:
                pass
            else:
                self.violate("exit:%s:no-completion" % r["rc"], "harness ended early; case: %s\n%s" % (r["case"], out[-1500:]), r)
        return "ok"

    def violate(self, key, detail, r=None):
        self.violations.append((key, detail, dict(cmd=r["cmd"], env=r["env"], part=r["part"], case=r["case"], output_tail=r["out"][-6000:]) if r else {}))

    def run(self, cmd, part, timeout=300, hang_key=None, **kw):
        """hang_key: a run that exceeds the (generous) timeout twice in a row is a violation with this key"""
        r = self.run1(cmd, part, timeout=timeout, **kw)
        with self.lock: st = self.absorb(r)
        if st == "timeout":
            first = r
            r = self.run1(cmd, part, timeout=timeout, **kw)
            with self.lock: st = self.absorb(r)
            if st == "timeout":
                if hang_key:
                    self.violate(hang_key, "no progress within %ds, twice; case: %s" % (timeout, r["case"]), r)
                else:
                    self.inconclusive.append("%s timed out twice (%ds), case %s" % (part, timeout, r["case"][:200]))
        return r

    def shards(self, exe, part, n, args, timeout=300, now=False, **kw):
        """n independent runs with derived seeds. The runs of all parts share the cores, later parts build meanwhile: wait() collects them."""
        timeout = max(timeout, 300)
        for i in range(n):
            cmd = [exe, "--seed=%d" % (self.seed * 1000 + i), "--shard=%d" % i, "--shards=%d" % n] + args
            self.pending.append(self.pool.submit(self.run, cmd, part, timeout=timeout, **kw))
        if now: self.wait()

    def wait(self):
        while self.pending:
            f = self.pending.pop(0)
            f.result()

def frame_hint(out):
    return ""

SAN_PATTERNS = [
    (re.compile(r"ERROR: (AddressSanitizer|LeakSanitizer): ([a-zA-Z0-9_-]+)"), "asan"),
    (re.compile(r"runtime error: (.*)"), "ubsan"),
    (re.compile(r"WARNING: ThreadSanitizer: ([a-zA-Z0-9 ()-]+?) \(pid"), "tsan"),
    (re.compile(r"ERROR: ThreadSanitizer: ([a-zA-Z0-9 ()-]+)"), "tsan"),
]
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)|#\d+ (.+?) (/\S+?):(\d+)")
def san_reports(out):
    if "Sanitizer" not in out and "runtime error:" not in out: return []
    res, lines = [], out.splitlines()
    for i, l in enumerate(lines):
        for rx, kind in SAN_PATTERNS:
            m = rx.search(l)
            if not m: continue
            what = m.group(2) if kind == "asan" else m.group(1)
            if kind == "ubsan":
                what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", what)[:80]
            fn = ""
            for k in lines[i:i + 60]:
                f = FRAME.search(k)
                if f:
                    path = f.group(2) or f.group(5)
                    if path.startswith(vbuild.REPO + "/"):
                        name = (f.group(1) or f.group(4))
                        fn = os.path.relpath(path, vbuild.REPO) + ":" + re.sub(r"\(.*", "", name).split("::")[-1]
                        break
            if kind == "ubsan" and not fn:
                mm = re.match(r"(/\S+?):\d+", l)
                if mm and mm.group(1).startswith(vbuild.REPO): fn = os.path.relpath(mm.group(1), vbuild.REPO)
            res.append(("%s:%s:%s" % (kind, what.strip(), fn), "\n".join(lines[max(0, i - 1):i + 30])))
    return res

def known_findings():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def finish(ctx, mod):
    kf = [k for k in known_findings() if k["property"] == ctx.prop and k.get("status") == "known"]
    new, seen_known = [], set()
    for key, det, rep in ctx.violations:
        hit = next((k for k in kf if fnmatch.fnmatchcase(key, k["key"])), None)
        if hit: seen_known.add(hit["key"])
        else: new.append((key, det, rep))
    for k in kf:
        # listed findings are announced on every run, whether or not this run happened to produce them
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    floor = getattr(mod, "MIN_EVALUATIONS", 1)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=ctx.level,
              coverage=dict(evaluations=ctx.evaluations, distinct_nontrivial=ctx.distinct, rule=ctx.rule or getattr(mod, "RULE", ""),
                            samples=ctx.samples[:12] or [{"part": "none", "case": ""}], observed=ctx.stats, parts=ctx.parts,
                            inconclusive=ctx.inconclusive[:20], notes=ctx.notes,
                            known_findings_seen=sorted(seen_known)),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len({k for k, _, _ in new}))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", ctx.prop + ".json"), "w"), indent=1)
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    for n in ctx.notes: print("note:", n)
    for n in ctx.inconclusive[:10]: print("inconclusive:", n)
    if new:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        seen = set()
        for key, det, rep in new:
            if key in seen: continue
            seen.add(key)
            if len(seen) > 8: break
            path = os.path.join(V, "replays", "%s-%s.json" % (ctx.prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
            json.dump(dict(property=ctx.prop, key=key, detail=det, seed=ctx.seed, tier=ctx.tier, **rep), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  key: %s\n  %s" % (key, det[:1500].replace("\n", "\n  ")))
        return 1
    if ctx.errors:
        for e in ctx.errors[:10]: print("error:", e)
        return 3
    if ctx.evaluations < floor:
        print("error: only %d evaluations observed (floor %d)" % (ctx.evaluations, floor))
        return 3
    print("%s %s: held on %d evaluations (%d distinct), %.1fs" % (ctx.prop, ctx.tier, ctx.evaluations, ctx.distinct, time.time() - ctx.t0))
    return 0

def main():
    if sys.argv[1] == "setup":
        os.makedirs(vbuild.BUILD, exist_ok=True)
        vbuild.build_lib("asan")
        print("ok"); return 0
    prop = sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    mod = importlib.import_module(prop.lower())
    ctx = Ctx(prop, tier, seed)
    try:
        mod.run(ctx)
        ctx.wait()
    except vbuild.BuildError as e:
        print("error: build failed\n%s" % e)
        ctx.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        return 2
    rc = finish(ctx, mod)
    if os.environ.get("VERIF_NOPRUNE") is None: vbuild.prune()
    return rc

if __name__ == "__main__":
    sys.exit(main())
