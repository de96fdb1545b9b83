// C12: exceptions thrown and caught, traces generated and diagnostics raised while threads and processes end: by destructors of statics and
// thread_locals made before and after the library's own, by exit handlers and by the destructors of pthread keys.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
extern "C" NI void thrower_5(int) { throw std::runtime_error("late"); }
#define LVL(k, next) extern "C" NI void thrower_##k(int n) { if(n == k) throw std::runtime_error("late"); next(n); asm volatile(""); }
LVL(4, thrower_5) LVL(3, thrower_4) LVL(2, thrower_3) LVL(1, thrower_2) LVL(0, thrower_1)
static string chain_of(const cpptrace::raw_trace& t) { string r; for(auto f : t.frames) { Dl_info i; if(dladdr((void*)(f - 1), &i) && i.dli_sname && !strncmp(i.dli_sname, "thrower_", 8)) r += i.dli_sname[8]; } return r; }
static string down(int d) { string r; for(int i = d; i >= 0; i--) r += (char)('0' + i); return r; }
static uint64_t seed_; static int stations_; static bool elf_names = true;
// what a thread should see in its two slots, kept beside the facility's own state
enum { TRACED, RETHROWN, PLAIN_CATCH, RESOLVED, CLEARED, GENERATED, PRINTED, SNIPPETS, WHAT, JIT, DIAGNOSTIC, LOOK, NESTED, NOPS };
static const char* names[] = {"traced", "rethrown", "plain_catch", "resolved", "cleared", "generated", "printed", "snippets", "what", "jit", "diagnostic", "look", "nested"};
static long done[NOPS]; static char jit_object[128];
static NI void inspect(const string& where, const string& want) { string got = chain_of(cpptrace::raw_trace_from_current_exception()); vh::check(got == want, "late:chain", where + " got " + got + " wanted " + want); }
extern "C" NI void station(const char* where) {
    uint64_t h = seed_ * 1000003 + __atomic_fetch_add(&stations_, 1, __ATOMIC_SEQ_CST); vh::rng r(h); string w = where; int logged = 0;
    cpptrace::set_log_callback(nullptr);
    for(size_t n = 1 + r.below(5); n--;) {
        int op = (int)r.below(NOPS), d = (int)r.below(6); __atomic_fetch_add(&done[op], 1, __ATOMIC_RELAXED);
        switch(op) {
            case TRACED: CPPTRACE_TRY { thrower_0(d); } CPPTRACE_CATCH(const std::exception& e) { inspect(w + " caught", down(d)); vh::check(string(e.what()) == "late", "late:object", w); vh::check(!cpptrace::current_exception_was_rethrown(), "late:rethrown", w); } break;
            case RETHROWN: CPPTRACE_TRY { CPPTRACE_TRY { thrower_0(d); } CPPTRACE_CATCH(const std::runtime_error&) { cpptrace::rethrow(); } } CPPTRACE_CATCH(const std::exception&) { inspect(w + " rethrown", down(d)); vh::check(cpptrace::current_exception_was_rethrown() && !cpptrace::raw_trace_from_current_exception_rethrow().empty(), "late:rethrow-record", w); } break;
            case PLAIN_CATCH: try { thrower_0(d); } catch(const std::exception&) {} break;
            case RESOLVED: CPPTRACE_TRY { thrower_0(d); } CPPTRACE_CATCH(...) { size_t n2 = cpptrace::raw_trace_from_current_exception().frames.size(); auto& t = cpptrace::from_current_exception(); string got; for(auto& f : t) if(f.symbol.compare(0, 8, "thrower_") == 0) got += f.symbol[8]; vh::check(t.frames.size() >= n2 && (!elf_names || got == down(d)), "late:resolved", w + " got " + got + " wanted " + down(d)); } break;
            case CLEARED: cpptrace::clear_current_exception_traces(); vh::check(cpptrace::raw_trace_from_current_exception().empty() && cpptrace::raw_trace_from_current_exception_rethrow().empty(), "late:cleared", w); break;
            case GENERATED: { auto t = cpptrace::generate_trace(); string got; for(auto& f : t) got += f.symbol + "\n"; vh::check(!elf_names || got.find("station\n") != string::npos, "late:generated", w + "\n" + got); break; }
            case PRINTED: { std::ostringstream o; cpptrace::generate_trace().print(o); vh::check(o.str().compare(0, 13, "Stack trace (") == 0, "late:printed", w + "\n" + o.str()); break; }
            case SNIPPETS: { cpptrace::stacktrace t; cpptrace::stacktrace_frame f; f.raw_address = f.object_address = 1; f.line = 1; f.filename = __FILE__; f.symbol = "s"; f.is_inline = false; f.column = {}; t.frames.push_back(f); std::ostringstream o; t.print_with_snippets(o); vh::check(o.str().find("// C12: exceptions thrown") != string::npos, "late:snippet", w + "\n" + o.str()); break; }
            case WHAT: { try { throw cpptrace::runtime_error("traced"); } catch(const std::exception& e) { string s = e.what(); vh::check(s.compare(0, 7, "traced:") == 0, "late:what", w + "\n" + s); } break; }
            case JIT: { cpptrace::register_jit_object(jit_object, sizeof jit_object); cpptrace::unregister_jit_object(jit_object); if(r.chance(1, 3)) cpptrace::clear_all_jit_objects(); break; }
            case DIAGNOSTIC: { auto kept = std::make_shared<string>(300, 'c'); logged = 0; cpptrace::set_log_callback([kept, &logged](cpptrace::log_level, const char* m) { logged += (int)(kept->size() == 300) + (m[0] == 0); }); cpptrace::absorb_trace_exceptions(true); cpptrace::register_jit_object("not an object", 4); cpptrace::set_log_callback(nullptr); break; }
            case LOOK: { (void)cpptrace::current_exception_was_rethrown(); break; }
            case NESTED: CPPTRACE_TRY { thrower_0(d); } CPPTRACE_CATCH(const std::exception&) { int d2 = 5 - d; CPPTRACE_TRY { thrower_0(d2); } CPPTRACE_CATCH(const std::exception&) { inspect(w + " nested", down(d2)); } } break;
        }
    }
}
struct at_end { const char* name; explicit at_end(const char* n) : name(n) {} ~at_end() { station(name); } };
static at_end first("static made before main"); static pthread_key_t key;
static NI void thread_work(vh::rng r, const char* who) {
    static thread_local std::unique_ptr<at_end> a, b, c; // statics of the thread in the order of their first use, before or after the library's own
    bool before = r.chance(2, 3); if(before) a.reset(new at_end("thread_local made first"));
    if(r.chance(1, 2)) pthread_setspecific(key, (void*)who);
    if(r.chance(5, 6)) station(who);
    if(r.chance(1, 2)) b.reset(new at_end("thread_local filled after"));
    struct late { ~late() { station("thread_local made last"); } }; if(r.chance(1, 2)) { static thread_local late l; (void)&l; }
}
static void body(vh::rng r) {
    pthread_key_create(&key, [](void* p) { station((string("key of ") + (const char*)p).c_str()); });
    if(r.chance(1, 2)) atexit([] { station("exit handler registered first"); });
    int threads = (int)r.below(3); vector<std::thread> ts; for(int i = 0; i < threads; i++) { vh::rng q(r.next()); ts.emplace_back([q] { thread_work(q, "thread"); }); }
    if(r.chance(3, 4)) thread_work(vh::rng(r.next()), "main thread");
    if(r.chance(1, 2)) { static at_end later("static made after"); (void)&later; }
    if(r.chance(1, 2)) atexit([] { station("exit handler registered last"); });
    for(auto& t : ts) t.join();
    if(r.chance(1, 3)) { std::thread t([] { exit(0); }); t.join(); }
    exit(0);
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); long n = vh::iarg("processes", 200); elf_names = vh::iarg("names", 1); memset(jit_object, 0, sizeof jit_object); memcpy(jit_object, "\177ELF", 4);
    long* shared = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); cpptrace::absorb_trace_exceptions(true);
    int bad = 0;
    for(long i = 0; i < n && bad < 4; i++) { // broken processes may each take their full time
        uint64_t s = r.next(); string what = vh::fmt("process %ld of seed %ld", i, (long)vh::iarg("seed", 1)); vh::journal(what); bool ok = false;
        for(int attempt = 0; attempt < 2 && !ok; attempt++) { // a process that hangs is run once more: only a hang that repeats counts
            int pe[2]; if(pipe(pe)) abort(); pid_t p = fork();
            if(p == 0) { rlimit none{0, 0}; setrlimit(RLIMIT_CORE, &none); vh::limit_memory(); dup2(pe[1], 2); close(pe[0]); close(pe[1]); seed_ = s; atexit([] {}); alarm(30);
                static long* sh; sh = shared; struct report { ~report() { for(int k = 0; k < NOPS; k++) __atomic_fetch_add(&sh[k], done[k], __ATOMIC_RELAXED); __atomic_fetch_add(&sh[NOPS], stations_, __ATOMIC_RELAXED); } }; static report rp; body(vh::rng(s)); }
            close(pe[1]); string err; char b[4096]; for(ssize_t k; (k = read(pe[0], b, sizeof b)) > 0;) { err.append(b, k); if(err.size() > (8u << 20)) kill(p, SIGKILL); } close(pe[0]); int st = 0; waitpid(p, &st, 0);
            ok = true; if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { ok = false; bad++; if(attempt) vh::violation("late:hang", what); }
            else if(!vh::check(st == 0, "late:ended", what + vh::fmt(" ended with status %x\n", st) + err.substr(0, 2500))) bad++;
        }
        vh::eval(); vh::distinct(s); vh::sample(what, 1);
    }
    for(int k = 0; k < NOPS; k++) vh::stat(string("late_") + names[k], shared[k]); vh::stat("late_stations", shared[NOPS]);
    fflush(nullptr); int rc = vh::finish(); _exit(rc);
}
