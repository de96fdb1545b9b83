// C14: random mixes of library calls on many threads, first use included. ThreadSanitizer watches for races; every answer is
// logged and compared with what the same call answers afterwards, alone. Logs are per thread and the only shared counters are
// relaxed, so that the monitor adds no ordering of its own.
#include "elfgen.hpp"
#ifdef DWSTUB
#include "dwarf_stub.hpp"
#endif
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/gdb_jit.hpp>
#include <ctrace/ctrace.h>
#include <atomic>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <link.h>
#include <locale>
#include <memory>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/wait.h>
#include <thread>
using cpptrace::frame_ptr; using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
enum op { RAW, RESOLVE, OBJECTS, FRAMEINFO, FORMAT_SHARED, FORMAT_OWN, TO_STRING, SNIPPET, NAMES, CAUGHT, RETHROWN, TRACED, WRAPPED, OPTIONS, LOGGER, FAILING, JIT, C_API, SAFE, MODULE, GENERATE, PRINT_SNIPPETS, DEFAULT_FMT, BY_PATH, NOPS };
static const char* const op_name[NOPS] = {"raw", "resolve", "objects", "frame_info", "format_shared", "format_own", "to_string", "snippet", "names", "caught", "rethrown", "traced_exception", "wrapped", "options", "logger", "failing", "jit", "c_api", "safe", "module", "generate", "print_snippets", "default_formatter", "by_path"};
static std::atomic<int> in_flight[NOPS]; static std::atomic<unsigned char> met[NOPS][NOPS]; static std::atomic<long> callbacks;
struct entry { int what; vector<frame_ptr> addrs; string in, out; int a = 0, b = 0; };
static vector<frame_ptr> pool; static vector<string> files, names; static string module_dir; static unsigned allowed; static bool absorb_varies;
static string show(const cpptrace::stacktrace_frame& f) { std::ostringstream s; s << std::hex << f.raw_address << '/' << f.object_address << std::dec << ' ' << f.symbol << ' ' << f.filename << ':' << f.line.value_or(0) << ':' << f.column.value_or(0) << (f.is_inline ? " inline" : ""); return s.str(); }
static string show(const cpptrace::stacktrace& t) { string s; for(auto& f : t.frames) s += show(f) + '\n'; return s; }
static string show(const cpptrace::object_trace& t) { string s; for(auto& f : t.frames) { std::ostringstream o; o << std::hex << f.raw_address << '/' << f.object_address << ' ' << f.object_path << '\n'; s += o.str(); } return s; }
// ---- call chains of a known shape -----------------------------------------------------------------------------------------------------
static int depth_of(const vector<frame_ptr>& t, frame_ptr lo, frame_ptr hi) { int n = 0; for(auto p : t) if(p >= lo && p < hi) n++; return n; }
struct span_of { frame_ptr lo = 0, hi = 0; };
static NI void descend(int n, const std::function<void()>& f) { if(n > 0) descend(n - 1, f); else f(); asm volatile(""); }
static span_of descend_span;
static span_of find_span(const void* f) { frame_ptr p = (frame_ptr)f; return {p, p + 0x400}; }
// sequential answer of an entry
static string answer(const entry& e) {
    switch(e.what) {
        case RESOLVE: { cpptrace::raw_trace t; t.frames = e.addrs; return show(t.resolve()); }
        case OBJECTS: { cpptrace::raw_trace t; t.frames = e.addrs; return show(t.resolve_object_trace()); }
        case BY_PATH: { cpptrace::object_trace t; for(auto a : e.addrs) t.frames.push_back({a, a, e.in}); return show(t.resolve()); }
        case FRAMEINFO: { string s; for(auto a : e.addrs) { cpptrace::stacktrace_frame f{a, 0, cpptrace::nullable<std::uint32_t>::null(), cpptrace::nullable<std::uint32_t>::null(), "", "", false}; auto o = f.get_object_info(); s += o.object_path + vh::fmt(" %zx\n", (size_t)o.object_address); } return s; }
        case SNIPPET: return cpptrace::get_snippet(e.in, e.a, e.b & 7, e.b & 8);
        case NAMES: { auto p = ctrace_demangle(e.in.c_str()); string s = cpptrace::demangle(e.in) + '\n' + cpptrace::prune_symbol(e.in) + '\n' + cpptrace::prettify_symbol(e.in) + '\n' + (p.data ? p.data : ""); ctrace_free_owning_string(&p); return s; }
        case C_API: { ctrace_raw_trace t{const_cast<ctrace_frame_ptr*>(e.addrs.data()), e.addrs.size()}; auto st = ctrace_resolve_raw_trace(&t); auto s = ctrace_stacktrace_to_string(&st, e.a & 1); string r = s.data ? s.data : ""; ctrace_free_owning_string(&s); ctrace_free_stacktrace(&st); auto o = ctrace_resolve_raw_trace_to_object_trace(&t); for(size_t i = 0; i < o.count; i++) r += vh::fmt("%zx %s\n", (size_t)o.frames[i].obj_address, o.frames[i].obj_path); ctrace_free_object_trace(&o); return r; }
        default: return e.out;
    }
}
static cpptrace::stacktrace shared_trace; static std::unique_ptr<cpptrace::formatter> shared_formatter; static string shared_plain, shared_colored;
static cpptrace::stacktrace sample_trace(vh::rng& r) {
    cpptrace::stacktrace t; auto null = cpptrace::nullable<std::uint32_t>::null();
    for(int i = 0, n = 1 + (int)r.below(8); i < n; i++) { cpptrace::stacktrace_frame f{(frame_ptr)r.next(), (frame_ptr)r.next(), r.chance(1, 4) ? null : cpptrace::nullable<std::uint32_t>{(std::uint32_t)r.below(60)}, r.chance(1, 2) ? null : cpptrace::nullable<std::uint32_t>{(std::uint32_t)(1 + r.below(20))}, r.pick(files), r.pick(names), r.chance(1, 5)}; t.frames.push_back(f); }
    return t;
}
static cpptrace::formatter make_formatter(int k) { cpptrace::formatter f; f.addresses(k & 1 ? cpptrace::formatter::address_mode::object : cpptrace::formatter::address_mode::raw).snippets(k & 2).columns(k & 4).paths(k & 8 ? cpptrace::formatter::path_mode::basename : cpptrace::formatter::path_mode::full).symbols(k & 16 ? cpptrace::formatter::symbol_mode::pretty : k & 32 ? cpptrace::formatter::symbol_mode::pruned : cpptrace::formatter::symbol_mode::full); return f; }
struct worker {
    int id; vh::rng r; vector<entry> log; vector<string> wrong; long ops[NOPS] = {};
    explicit worker(int id, std::uint64_t seed) : id(id), r(seed) {}
    void expect(bool ok, const string& what) { if(!ok && wrong.size() < 5) wrong.push_back(what); }
    vector<frame_ptr> batch() { vector<frame_ptr> v; for(size_t n = 1 + r.below(r.chance(1, 8) ? 60 : 8); n--;) v.push_back(r.chance(1, 12) ? (frame_ptr)r.below(5000) : r.pick(pool)); return v; }
    void chain(const vector<frame_ptr>& t, int n, const char* what) { int got = depth_of(t, descend_span.lo, descend_span.hi); expect(got == n + 1, vh::fmt("%s: %d of %d recursive frames in a trace of %zu", what, got, n + 1, t.size())); }
    void one(int what) {
        int n = (int)r.below(12); entry e; e.what = what;
        switch(what) {
            case RAW: { vector<frame_ptr> f; size_t skip = r.below(2); descend(n, [&] { f = cpptrace::generate_raw_trace(skip).frames; }); chain(f, n, "raw trace"); return; }
            case GENERATE: { cpptrace::stacktrace t; descend(n % 4, [&] { t = cpptrace::generate_trace(0, 8); }); expect(t.frames.size() <= 8 && !t.frames.empty(), "generate_trace"); vector<frame_ptr> f; for(auto& x : t.frames) if(!x.is_inline) f.push_back(x.raw_address); if(f.size() >= 8) return; chain(f, n % 4, "generate_trace"); return; }
            case RESOLVE: case OBJECTS: case FRAMEINFO: e.addrs = batch(); e.out = answer(e); break;
            case C_API: e.addrs = batch(); e.a = (int)r.below(2); e.out = answer(e); break;
            case BY_PATH: e.in = module_dir + vh::fmt("/m%d.so", (int)r.below(4)); for(size_t k = 1 + r.below(4); k--;) e.addrs.push_back(r.below(0x4000)); e.out = answer(e); break;
            case SNIPPET: e.in = r.pick(files); e.a = (int)r.below(60); e.b = (int)r.below(16); e.out = answer(e); break;
            case NAMES: e.in = r.pick(names); e.out = answer(e); break;
            case FORMAT_SHARED: { bool c = r.chance(1, 2); string s = shared_formatter->format(shared_trace, c); expect(s == (c ? shared_colored : shared_plain), "shared formatter: " + s); return; }
            case FORMAT_OWN: { vh::rng q(r.next()); auto t = sample_trace(q); int k = (int)q.below(64); auto f = make_formatter(k); string s = f.format(t, false); std::ostringstream o; auto g = f; g.print(o, t, false); expect(o.str() == s + "\n" || o.str() == s, "formatter to stream and string differ"); return; }
            case TO_STRING: { bool c = r.chance(1, 2); auto t = shared_trace; expect(t.to_string(c) == shared_trace.to_string(c), "to_string of a copy differs"); std::ostringstream o; o << shared_trace; expect(o.str().find(shared_trace.frames[0].to_string(false).substr(0, 10)) != string::npos, "operator<<"); return; }
            case DEFAULT_FMT: { string a = cpptrace::get_default_formatter().format(shared_trace, false), b = shared_trace.to_string(false); expect(a == b, "default formatter and to_string differ"); return; }
            case PRINT_SNIPPETS: { std::ostringstream a, b; shared_trace.print_with_snippets(a, false); shared_trace.print_with_snippets(b, false); expect(a.str() == b.str() && !a.str().empty(), "print_with_snippets differs"); return; }
            case CAUGHT: {
                string msg = vh::fmt("thread %d value %d", id, (int)r.below(1000)); bool caught = false;
                CPPTRACE_TRY { descend(n, [&] { throw std::runtime_error(msg); }); }
                CPPTRACE_CATCH(const std::exception& x) { caught = true; expect(x.what() == msg, "another exception"); chain(cpptrace::raw_trace_from_current_exception().frames, n, "current exception"); expect(!cpptrace::current_exception_was_rethrown(), "rethrown");
                    if(r.chance(1, 3)) { entry c; c.what = RESOLVE; c.addrs = cpptrace::raw_trace_from_current_exception().frames; c.out = show(cpptrace::from_current_exception()); log.push_back(c); } }
                expect(caught, "not caught"); return; }
            case RETHROWN: {
                CPPTRACE_TRY { CPPTRACE_TRY { descend(n, [&] { throw id * 1000 + n; }); } CPPTRACE_CATCH(int) { descend(3, [] { cpptrace::rethrow(); }); } }
                CPPTRACE_CATCH(int v) { expect(v == id * 1000 + n, "another value"); chain(cpptrace::raw_trace_from_current_exception().frames, n, "rethrown exception"); chain(cpptrace::raw_trace_from_current_exception_rethrow().frames, 3, "rethrow point"); expect(cpptrace::current_exception_was_rethrown(), "not rethrown"); if(r.chance(1, 3)) cpptrace::clear_current_exception_traces(); }
                return; }
            case TRACED: {
                string msg = vh::fmt("traced %d.%d", id, n);
                try { descend(n, [&] { throw cpptrace::runtime_error(string(msg)); }); }
                catch(cpptrace::exception& x) { expect(x.message() == msg, string("message ") + x.message()); auto y = static_cast<cpptrace::runtime_error&>(x); expect(string(y.what()).compare(0, msg.size() + 1, msg + ":") == 0, "what"); vector<frame_ptr> f; for(auto& q : x.trace().frames) if(!q.is_inline) f.push_back(q.raw_address); chain(f, n, "traced exception"); }
                return; }
            case WRAPPED: {
                bool ok = false; try { CPPTRACE_WRAP_BLOCK(descend(n, [&] { throw std::logic_error(vh::fmt("wrapped %d", id)); });); } catch(cpptrace::nested_exception& x) { ok = string(x.message()) == vh::fmt("Nested exception: wrapped %d", id); (void)x.trace(); }
                expect(ok, "wrapped message"); return; }
            case OPTIONS: if(absorb_varies) cpptrace::absorb_trace_exceptions(r.chance(1, 2)); cpptrace::experimental::set_cache_mode(r.pick({cpptrace::cache_mode::prioritize_memory, cpptrace::cache_mode::hybrid, cpptrace::cache_mode::prioritize_speed})); cpptrace::enable_inlined_call_resolution(r.chance(1, 2)); return;
            case LOGGER: switch(r.below(4)) { case 0: cpptrace::set_log_level(r.pick({cpptrace::log_level::debug, cpptrace::log_level::warning, cpptrace::log_level::error})); return;
                case 1: { auto text = std::make_shared<string>("a callback of its own with state worth a heap allocation"); cpptrace::set_log_callback([text](cpptrace::log_level, const char* m) { if(text->size() && m) callbacks.fetch_add(1, std::memory_order_relaxed); }); return; }
                case 2: cpptrace::set_log_callback([](cpptrace::log_level, const char*) { callbacks.fetch_add(1, std::memory_order_relaxed); }); return;
                default: cpptrace::set_log_callback(nullptr); return; }
            case FAILING: { cpptrace::object_trace t; t.frames = {{1, 2, "/nowhere/failing.so"}, {3, 4, "/nowhere/failing2.so"}}; try { auto s = t.resolve(); expect((absorb_varies && s.frames.empty()) || s.frames.size() == 2 && s.frames[0].raw_address == 1 && s.frames[1].raw_address == 3, "failing resolution: " + show(s)); } catch(const std::exception&) { expect(absorb_varies, "exception escaped"); } return; }
            case JIT: {
                static const char* const all[] = {"a", "b", "c", "d"}; vector<string> images; vector<std::uint64_t> at;
                for(int i = 0; i < 3; i++) { elf_spec s; s.phdr = s.load = false; std::uint64_t a = 0x600000000000ull + id * 0x10000000ull + i * 0x2000; s.texts.push_back({a, 0x1000, ".text"}); s.syms.push_back({vh::fmt("jit_%d_%s", id, all[i]), 0, 0x1000}); images.push_back(elf_writer(s).write()); at.push_back(a); }
                for(auto& i : images) cpptrace::register_jit_object(i.data(), i.size());
                #ifdef DWSTUB
                { cpptrace::raw_trace t; for(auto a : at) t.frames.push_back(a + 5); auto s = t.resolve(); for(int i = 0; i < 3; i++) expect(s.frames.size() == 3 && s.frames[i].symbol == vh::fmt("jit_%d_%s", id, all[i]), "jit lookup: " + show(s)); }
                #endif
                for(auto& i : images) cpptrace::unregister_jit_object(i.data());
                #ifdef DWSTUB
                { cpptrace::raw_trace t; t.frames.push_back(at[1] + 5); auto s = t.resolve(); expect(s.frames.size() == 1 && s.frames[0].symbol.empty(), "unregistered jit object found: " + show(s)); }
                #endif
                return; }
            case SAFE: { frame_ptr b[30]; size_t k = cpptrace::safe_generate_raw_trace(b, 30); expect(k <= 30 && (k > 0 || !cpptrace::can_signal_safe_unwind()), "safe trace"); static thread_local cpptrace::safe_object_frame f; frame_ptr a = r.pick(pool); cpptrace::get_safe_object_frame(a, &f); if(cpptrace::can_get_safe_object_frame()) { entry o; o.what = OBJECTS; o.addrs = {a}; auto x = f.resolve(); cpptrace::object_trace t; t.frames = {x}; o.out = show(t); log.push_back(o); } return; }
            case MODULE: {
                if(module_dir.empty()) return; string p = module_dir + vh::fmt("/m%d.so", id % 4); void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if(!h) return; auto f = (frame_ptr)dlsym(h, "corrupt_one"); link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm); frame_ptr base = lm->l_addr;
                cpptrace::raw_trace t; t.frames = {f + 1, r.pick(pool)}; auto o = t.resolve_object_trace(); expect(o.frames.size() == 2 && o.frames[0].object_address == f + 1 - base && o.frames[0].object_path == p, "module: " + show(o)); auto s = t.resolve(); expect(s.frames.size() >= 2 && s.frames[0].raw_address == f + 1, "module resolved"); dlclose(h); return; }
        }
        log.push_back(std::move(e));
    }
    void run(int count, const vector<int>& kinds) {
        for(int i = 0; i < count; i++) {
            int what = r.pick(kinds); in_flight[what].fetch_add(1, std::memory_order_relaxed);
            for(int k : kinds) if(in_flight[k].load(std::memory_order_relaxed) > (k == what ? 1 : 0)) met[what][k].store(1, std::memory_order_relaxed);
            try { one(what); } catch(const std::exception& x) { expect(absorb_varies, string("exception out of ") + op_name[what] + ": " + x.what()); } ops[what]++;
            in_flight[what].fetch_sub(1, std::memory_order_relaxed);
            if(r.chance(1, 6)) { if(r.chance(1, 2)) sched_yield(); else usleep((unsigned)r.below(300)); }
        }
    }
};
static int round_(std::uint64_t seed, int threads, int count) {
    vh::rng r(seed); vector<int> kinds;
    for(int k = 0; k < NOPS; k++) if(allowed >> k & 1) kinds.push_back(k);
    if(r.chance(2, 3)) { for(size_t i = kinds.size(); i > 1; i--) std::swap(kinds[i - 1], kinds[r.below(i)]); kinds.resize(std::min<size_t>(kinds.size(), 1 + r.below(5))); }
    absorb_varies = r.chance(1, 4); string d; for(int k : kinds) d += string(" ") + op_name[k]; vh::journal(vh::fmt("seed %zu threads %d:", (size_t)seed, threads) + d);
    // whatever the harness shares between threads is made before they start; half of the rounds warm nothing up
    { vh::rng q(seed ^ 5); shared_trace = sample_trace(q); int k = (int)q.below(64); shared_formatter.reset(new cpptrace::formatter(make_formatter(k))); vh::rng z(seed ^ 5); }
    bool formatted = false; for(int k : kinds) if(k == FORMAT_SHARED) formatted = true;
    if(formatted) { shared_plain = shared_formatter->format(shared_trace, false); shared_colored = shared_formatter->format(shared_trace, true); }
    if(r.chance(1, 2)) { cpptrace::raw_trace t; t.frames = {pool[0]}; (void)t.resolve(); }
    vector<std::unique_ptr<worker>> ws; for(int i = 0; i < threads; i++) ws.emplace_back(new worker(i, seed * 131 + i));
    pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, threads); vector<std::thread> ts;
    for(int i = 0; i < threads; i++) ts.emplace_back([&, i] { pthread_barrier_wait(&bar); ws[i]->run(count, kinds); });
    for(auto& t : ts) t.join();
    cpptrace::absorb_trace_exceptions(true); size_t compared = 0;
    for(auto& w : ws) {
        for(auto& x : w->wrong) vh::violation("threads:wrong-answer", x + " in" + d + (absorb_varies ? " (absorb varies)" : ""));
        for(auto& e : w->log) { string a = answer(e); compared++; if(a != e.out) vh::violation(string("threads:differs:") + op_name[e.what], "in" + d + (e.in.empty() ? "" : " input " + e.in + vh::fmt(" %d %d", e.a, e.b)) + "\nconcurrently: " + e.out + "\nalone:        " + a); }
        for(int k = 0; k < NOPS; k++) if(w->ops[k]) vh::stat(string("op_") + op_name[k], w->ops[k]);
    }
    long pairs = 0; for(int a = 0; a < NOPS; a++) for(int b = 0; b < NOPS; b++) if(met[a][b].load()) { pairs++; vh::distinct((std::uint64_t)(a * NOPS + b + 1000 * (seed % 2))); }
    vh::eval(compared); vh::stat("answers_compared", compared); vh::stat("overlapping_pairs", pairs); vh::stat("callbacks_called", callbacks.load()); vh::stat("rounds"); vh::sample("threads " + std::to_string(threads) + ":" + d, 1);
    return 0;
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); int rounds = (int)vh::iarg("rounds", 10), count = (int)vh::iarg("count", 30); module_dir = vh::arg("modules"); setenv("C16_MODE", "exit:1", 1); setenv("C16_OBJ", "failing", 1);
    allowed = 0; string leave = "," + vh::arg("leave-out") + ","; for(int k = 0; k < NOPS; k++) if(leave.find(string(",") + op_name[k] + ",") == string::npos) allowed |= 1u << k;
    string dir = vh::arg("dir", "/tmp"); for(int i = 0; i < 5; i++) { string p = dir + vh::fmt("/f%d.cpp", i); std::ofstream f(p); for(int l = 1; l < 10 + i * 10; l++) f << (l % 7 ? vh::fmt("line %d of %d", l, i) : "") << (i == 2 ? "\r\n" : "\n"); files.push_back(p); } files.push_back(dir + "/missing.cpp"); files.push_back(""); files.push_back(dir);
    names = {"_Z3foov", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_ZN5boost10shared_ptrIfEC1Ev", "main", "", "std::vector<int, std::allocator<int> >::push_back(int const&)", "ns::foo<int>(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)", "_Z1fIJiicEEvDpT_", "foo(void (*)(int))::{lambda(int)#1}::operator()(int) const", "bad<<", "_Znot"};
    pool = {(frame_ptr)&round_ + 5, (frame_ptr)&main + 9, (frame_ptr)&descend + 4, (frame_ptr)dlsym(RTLD_DEFAULT, "qsort") + 3, (frame_ptr)dlsym(RTLD_DEFAULT, "malloc") + 1, (frame_ptr)dlsym(RTLD_DEFAULT, "__cxa_throw") + 2};
    descend_span = find_span((const void*)&descend);
    // the C++ library's character tables are filled on demand with plain stores (all threads store the same bytes): fill them now
    { auto& ct = std::use_facet<std::ctype<char>>(std::locale()); for(int c = 0; c < 256; c++) { ct.narrow((char)c, 0); ct.widen((char)c); } }
    int bad = 0;
    for(int i = 0; i < rounds; i++) {
        std::uint64_t seed = r.next() % 1000000007; int threads = 2 + (int)r.below(9);
        for(int attempt = 0; attempt < 2; attempt++) {
            fflush(stdout); pid_t p = fork();
            if(p == 0) { int rc = round_(seed, threads, count); vh::finish(); _exit(rc); }
            int st = 0; long waited = 0; const long limit = vh::iarg("limit", 120) * 1000; while(waitpid(p, &st, WNOHANG) == 0 && waited < limit) { usleep(2000); waited += 2; }
            if(waited >= limit) { kill(p, SIGKILL); waitpid(p, &st, 0); if(attempt) vh::violation("threads:hang", vh::fmt("round with seed %zu, %d threads does not finish, twice", (size_t)seed, threads)); if(attempt || bad) bad += 9; continue; }
            if(WIFSIGNALED(st)) { vh::violation(vh::fmt("threads:signal:%d", WTERMSIG(st)), vh::fmt("round with seed %zu, %d threads died", (size_t)seed, threads)); bad++; }
            else if(WEXITSTATUS(st) != 0) { bad++; vh::stat("rounds_with_reports"); }
            break;
        }
        if(bad > 2) break;
    }
    return vh::finish();
}
