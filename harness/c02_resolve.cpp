// C02: resolved traces against call sites that recorded where they are, and every answer against the same address asked alone.
#include "vh.hpp"
#include "c02_sites.hpp"
#include <cpptrace/cpptrace.hpp>
#include <algorithm>
#include <dlfcn.h>
#include <sys/auxv.h>
using std::string; using std::vector;
typedef std::uint64_t u64;
struct truth { string name, file, inlined; unsigned line = 0, inlined_line = 0; bool exported = false; string module; int quality = 2; }; // quality 2: full debug information, 1: symbol table only, 0: dynamic symbols only
static std::map<cpptrace::frame_ptr, truth> pool;
static cpptrace::raw_trace captured; static vector<truth> captured_truth;
static bool live_checks = true; static string backend;
static vh::rng* R;
struct module { string path, name; void* handle; step_table steps; int quality; u64 lo, hi, base; };
static vector<module> modules;
static const module* module_of(u64 a) { for(auto& m : modules) if(a >= m.lo && a < m.hi) return &m; return nullptr; }
static bool unnamed(const string& s) { return s.empty() || s == "??"; }
static string show(const cpptrace::stacktrace_frame& f) { return vh::fmt("raw=%#zx object=%#zx inline=%d ", (size_t)f.raw_address, (size_t)f.object_address, f.is_inline) + "'" + f.symbol + "' " + f.filename + ":" + (f.line.has_value() ? std::to_string(f.line.value()) : "-"); }
static string base(const string& p) { return p.substr(p.rfind('/') + 1); }
static bool same(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) { return a.raw_address == b.raw_address && a.object_address == b.object_address && a.symbol == b.symbol && a.filename == b.filename && a.line == b.line && a.is_inline == b.is_inline; }
// is this resolved frame the call site?
static void judge(const cpptrace::stacktrace_frame& f, const truth& t, const char* how) {
    vh::eval(); vh::stat("frames_with_known_call_site");
    string desc = string(how) + ": resolved " + show(f) + ", compiled as '" + t.name + "' " + t.file + vh::fmt(":%u", t.line) + (t.inlined.empty() ? "" : " with '" + t.inlined + vh::fmt("' inlined at :%u", t.inlined_line)) + " in " + t.module;
    if(backend == "libdl") {
        if(t.exported && t.quality >= 0) vh::check(f.symbol == t.name, "resolve:name", desc);
        vh::check(f.filename == t.module, "resolve:libdl-module", desc);
        return;
    }
    bool lines = t.quality == 2;
    if(!t.exported && t.quality == 0) { return; } // nothing names it
    bool named = f.symbol == t.name;
    if(backend == "libbacktrace" && !named) named = !f.symbol.empty() && !t.exported && t.name.find("::" + f.symbol) != string::npos; // entities without linkage have only a local name
    bool physical = named && (!lines || (f.line.has_value() && f.line.value() == t.line));
    bool inner = !t.inlined.empty() && backend == "addr2line" && lines && f.symbol == t.inlined && f.line.has_value() && f.line.value() == t.inlined_line; // names the innermost function
    vh::check(physical || inner, !named && f.symbol != t.inlined ? "resolve:name" : "resolve:line", desc);
    if(lines) { string want = t.file; vh::check(want[0] == '/' && backend == "addr2line" ? f.filename == want : base(f.filename) == base(want), "resolve:file", desc); }
    else vh::check(!f.line.has_value() || f.line.value() == 0, "resolve:line-invented", desc);
}
extern "C" __attribute__((noinline, noipa)) void c02_capture(ctx* c) {
    captured_truth.clear();
    for(unsigned i = c->depth; i--;) { auto& s = c->shadow[i]; truth t; t.name = s.name; t.file = s.file; t.line = s.line; if(s.inlined) { t.inlined = s.inlined; t.inlined_line = s.inlined_line; } t.exported = s.exported; captured_truth.push_back(t); }
    captured = cpptrace::generate_raw_trace();
    if(R->chance(1, 8) && live_checks) {
        int how = (int)R->below(4); cpptrace::stacktrace t;
        switch(how) { case 0: t = cpptrace::generate_trace(); break; case 1: t = cpptrace::stacktrace::current(); break; case 2: t = cpptrace::generate_object_trace().resolve(); break; default: t = cpptrace::object_trace::current().resolve(); }
        for(size_t i = 0; i < captured_truth.size() && i + 1 < t.frames.size(); i++) { truth x = captured_truth[i]; auto* m = module_of(t.frames[i + 1].raw_address); if(m) { x.module = m->path; x.quality = m->quality; } judge(t.frames[i + 1], x, "live trace"); }
    }
    if(captured.frames.size() < captured_truth.size() + 1) { vh::violation("resolve:raw-trace-short", vh::fmt("%zu frames, %zu expected", captured.frames.size(), captured_truth.size() + 1)); return; }
    for(size_t i = 0; i < captured_truth.size(); i++) {
        auto a = captured.frames[i + 1]; truth t = captured_truth[i];
        auto* m = module_of(a); if(!m) { vh::violation("resolve:harness-module", vh::fmt("%#zx", (size_t)a)); continue; }
        t.module = m->path; t.quality = m->quality; pool[a] = t;
    }
}
static void find_bounds(module& m) {
    FILE* f = fopen("/proc/self/maps", "r"); char line[8192]; m.lo = ~0ull; m.hi = 0;
    while(fgets(line, sizeof line, f)) { unsigned long a, b; int at = 0; if(sscanf(line, "%lx-%lx %*s %*s %*s %*s %n", &a, &b, &at) >= 2 && at) { string p = line + at; while(!p.empty() && p.back() == '\n') p.pop_back(); if(p == m.path) { m.lo = std::min<u64>(m.lo, a); m.hi = std::max<u64>(m.hi, b); } } }
    fclose(f);
}
static void load(const string& path, const string& name, int quality) {
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if(!h) { vh::raw_line(string("@@ERROR dlopen ") + dlerror() + "\n"); return; }
    auto fn = (step_table(*)())dlsym(h, ("steps_" + name).c_str());
    module m{path, name, h, fn(), quality, 0, 0, name == "mod_e" ? 0x10000000u : 0u}; find_bounds(m); modules.push_back(m); vh::stat("dlopen");
}
static void unload(size_t i) {
    auto m = modules[i]; modules.erase(modules.begin() + i); dlclose(m.handle); vh::stat("dlclose");
    for(auto it = pool.begin(); it != pool.end();) if(it->first >= m.lo && it->first < m.hi) it = pool.erase(it); else ++it;
}
static void run_chain() {
    vector<stepfn> plan; for(size_t n = 1 + R->below(10); n--;) { auto& m = R->pick(modules); plan.push_back(m.steps.fns[R->below(m.steps.n)]); }
    plan.push_back(c02_capture); ctx c{plan.data(), 1, {}, 0}; plan[0](&c);
}
static std::map<cpptrace::frame_ptr, cpptrace::stacktrace_frame> alone;
static const cpptrace::stacktrace_frame* ask_alone(cpptrace::frame_ptr a) {
    auto it = alone.find(a); if(it != alone.end()) return &it->second;
    cpptrace::raw_trace t; t.frames = {a}; auto r = t.resolve();
    if(!vh::check(r.frames.size() == 1, "resolve:count", vh::fmt("%zu frames for the single address %#zx", r.frames.size(), (size_t)a))) return nullptr;
    return &(alone[a] = r.frames[0]);
}
static cpptrace::frame_ptr odd_address(vector<void*>& keep) {
    switch(R->below(9)) {
        case 0: return R->below(3); case 1: return ~(cpptrace::frame_ptr)0 - R->below(2); case 2: return (cpptrace::frame_ptr)&keep; // stack
        case 3: { void* p = malloc(100); keep.push_back(p); return (cpptrace::frame_ptr)p; }
        case 4: return 0x1000 + R->below(100000); case 5: return (1ull << 47) - 1 - R->below(5000); case 6: return 0x8000000000000000ull | R->next();
        case 7: return getauxval(AT_SYSINFO_EHDR) + 0x600 + R->below(0x400);
        default: return (cpptrace::frame_ptr)dlsym(RTLD_DEFAULT, R->pick(vector<const char*>{"malloc", "printf", "qsort", "pthread_create", "getpid"})) + R->below(4);
    }
}
static void batch(size_t n, bool use_alone, const string& only = "") {
    vector<cpptrace::frame_ptr> known; for(auto& p : pool) if(only.empty() || p.second.module == only) known.push_back(p.first);
    vector<void*> keep; cpptrace::raw_trace t; size_t odd = 0;
    unsigned dup = (unsigned)R->below(4);
    for(size_t i = 0; i < n; i++) {
        if(R->chance(1, only.empty() ? 5 : 500)) { t.frames.push_back(odd_address(keep)); odd++; }
        else if(dup && !t.frames.empty() && R->chance(dup, 10)) t.frames.push_back(R->pick(t.frames));
        else if(R->chance(1, 10)) t.frames.push_back(R->pick(known) + R->range(-3, 3)); // somewhere in the code
        else t.frames.push_back(R->pick(known));
    }
    cpptrace::experimental::set_cache_mode(R->pick(vector<cpptrace::cache_mode>{cpptrace::cache_mode::prioritize_memory, cpptrace::cache_mode::hybrid, cpptrace::cache_mode::prioritize_speed}));
    string d; for(size_t i = 0; i < t.frames.size() && i < 300; i++) d += vh::fmt("%zx ", (size_t)t.frames[i]); vh::journal("batch: " + d);
    bool via_object = R->chance(1, 2); cpptrace::stacktrace res;
    cpptrace::object_trace ot; if(via_object) { ot = t.resolve_object_trace(); vh::check(ot.frames.size() == n, "resolve:object-count", vh::fmt("%zu of %zu", ot.frames.size(), n)); }
    res = via_object ? ot.resolve() : t.resolve();
    const char* how = via_object ? "object trace" : "raw trace";
    vh::stat("batches"); vh::stat("batch_frames", n); vh::stat("unresolvable_in_batches", odd);
    if(!vh::check(res.frames.size() == n, "resolve:count", vh::fmt("%zu frames for %zu addresses (%s)", res.frames.size(), n, how))) { for(auto p : keep) free(p); return; }
    for(size_t i = 0; i < n; i++) {
        auto& f = res.frames[i]; auto a = t.frames[i]; vh::eval();
        if(!vh::check(f.raw_address == a, "resolve:raw-address", vh::fmt("frame %zu of %zu is for %#zx, asked for %#zx (%s)", i, n, (size_t)f.raw_address, (size_t)a, how))) break;
        if(via_object && backend == "libbacktrace" && ot.frames[i].object_address) vh::check(f.object_address == ot.frames[i].object_address, "resolve:libbacktrace-object-address", show(f));
        if(via_object && backend == "addr2line") vh::check(f.object_address == ot.frames[i].object_address, "resolve:object-address", show(f));
        vh::check(!f.is_inline, "resolve:inline-mark", show(f));
        auto p = pool.find(a);
        if(backend == "libdl") if(auto* m = module_of(a)) vh::check(f.object_address == a - m->lo + m->base, "resolve:object-address", show(f) + vh::fmt(", module at %#zx", (size_t)m->lo));
        if(p != pool.end()) judge(f, p->second, how);
        else if(!module_of(a) && a + 1 > 1 && (a < 0x10000 || a >= 1ull << 47)) vh::check(unnamed(f.symbol) && f.filename.empty() && f.object_address == 0, "resolve:nothing-there", show(f));
        if(use_alone) if(auto* x = ask_alone(a)) vh::check(same(f, *x), "resolve:batch-dependent", string(how) + vh::fmt(" of %zu: ", n) + show(f) + "\nalone: " + show(*x));
    }
    for(auto p : keep) { alone.erase((cpptrace::frame_ptr)p); free(p); }
    vh::distinct(d);
}
extern "C" step_table steps_exe();
int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::rng r(vh::iarg("seed", 1)); R = &r; backend = vh::arg("backend", "addr2line");
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n] = 0;
    { module m{exe, "exe", nullptr, steps_exe(), 2, 0, 0}; find_bounds(m); modules.push_back(m); }
    // libraries: name=path=quality,...
    vector<module> avail;
    { string l = vh::arg("libs"), item; for(char ch : l + ",") if(ch == ',') { auto e = item.find('='), e2 = item.rfind('='); if(e != string::npos) avail.push_back({item.substr(e + 1, e2 - e - 1), item.substr(0, e), nullptr, {}, item[e2 + 1] - '0', 0, 0}); item.clear(); } else item += ch; }
    bool dynamic = vh::iarg("dynamic", 1);
    if(!dynamic) for(auto& a : avail) load(a.path, a.name, a.quality);
    for(long k = 0, N = vh::iarg("rounds", 20); k < N; k++) {
        if(dynamic && !avail.empty()) { // libraries come and go
            alone.clear();
            for(size_t i = modules.size(); i-- > 1;) if(r.chance(1, 2)) unload(i);
            for(size_t j = 0; j < avail.size(); j++) { auto& a = avail[r.below(avail.size())]; bool there = false; for(auto& m : modules) there |= m.path == a.path; if(!there && r.chance(1, 2)) load(a.path, a.name, a.quality); }
        }
        for(int i = 0; i < 6; i++) run_chain();
        batch(1 + r.below(r.chance(1, 4) ? 400 : 40), r.chance(1, 3));
        if(k == 0) { string s; for(auto& p : pool) { s += vh::fmt("%#zx ", (size_t)p.first) + p.second.name + "; "; if(s.size() > 500) break; } vh::sample(s); }
    }
    { cpptrace::raw_trace e; vh::check(e.resolve().frames.empty() && e.resolve_object_trace().frames.empty() && e.resolve_object_trace().resolve().frames.empty(), "resolve:empty", "empty trace"); }
    if(long big = vh::iarg("big", 0)) { batch(big, false); batch(big, false, modules[0].path); vh::stat("largest_batch", big); }
    vh::stat("known_call_sites", pool.size());
    return vh::finish();
}
