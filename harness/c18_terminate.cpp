// C18: child processes that terminate in every way, their exit status, stdout and stderr judged by the parent.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>
#include <cxxabi.h>
#include <fcntl.h>
#include <functional>
#include <poll.h>
#include <pthread.h>
#include <pty.h>
#include <regex>
#include <signal.h>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <time.h>
#include <unistd.h>
using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
static std::function<void()>& bottom = *new std::function<void()>; // outlives static destruction
static NI void go_down() { bottom(); asm volatile(""); } // a call of its own: an inlined operator() would take the name of the frame around it
#define LVL(k, next) extern "C" NI void inner_##k(int n) { if(n == k) go_down(); else next(n); asm volatile(""); }
extern "C" NI void inner_8(int) { go_down(); asm volatile(""); }
LVL(7, inner_8) LVL(6, inner_7) LVL(5, inner_6) LVL(4, inner_5) LVL(3, inner_4) LVL(2, inner_3) LVL(1, inner_2) LVL(0, inner_1)
static std::function<void()>& middle = *new std::function<void()>;
static NI void go_on() { middle(); asm volatile(""); }
extern "C" NI void outer_2(int) { go_on(); asm volatile(""); }
extern "C" NI void outer_1(int n) { if(n == 1) go_on(); else outer_2(n); asm volatile(""); }
extern "C" NI void outer_0(int n) { if(n == 0) go_on(); else outer_1(n); asm volatile(""); }
namespace app {
    struct plain { int a, b; }; enum class code { bad = 3 }; template<typename T> struct holder { T t; }; struct hidden : private std::runtime_error { using std::runtime_error::runtime_error; };
    struct left : std::exception {}; struct right : std::exception {}; struct diamond : left, right {}; struct vbase : virtual std::exception { string s; explicit vbase(string s) : s(std::move(s)) {} const char* what() const noexcept override { return s.c_str(); } };
    struct mine : std::runtime_error { using std::runtime_error::runtime_error; };
    // a traced exception of the program's own, with a trace from somewhere else entirely
    struct own : cpptrace::exception { string m; cpptrace::stacktrace t; own(string m, cpptrace::stacktrace t) : m(std::move(m)), t(std::move(t)) {} const char* what() const noexcept override { return "the what of own"; } const char* message() const noexcept override { return m.c_str(); } const cpptrace::stacktrace& trace() const noexcept override { return t; } };
    struct traced : cpptrace::lazy_exception { string m; explicit traced(string m) : m(std::move(m)) {} const char* message() const noexcept override { return m.c_str(); } };
}
extern "C" NI std::exception_ptr maker_fn(const string& m) { std::exception_ptr p; try { throw cpptrace::logic_error(string(m)); } catch(...) { p = std::current_exception(); } return p; }
enum kind { INT, CSTR, STRING, ENUM, POINTER, PLAIN, TEMPLATE, LOCAL, HIDDEN, DIAMOND, STD_LAST_OTHER = DIAMOND, RUNTIME, BADALLOC, SYSERR, VBASE, MINE, BY_CURRENT, STD_LAST = BY_CURRENT, TRACED, TRACED_RT, TRACED_SYS, OWN, NESTED, REMADE, NKINDS, NONE };
static const char* const kind_name[] = {"int", "cstr", "string", "enum", "pointer", "plain", "template", "local", "private-base", "ambiguous-base", "runtime_error", "bad_alloc", "system_error", "virtual-base", "derived", "traced-by-macro", "traced", "traced-runtime", "traced-system", "own", "nested", "remade", "", "none"};
[[noreturn]] static void throw_(int k, const string& t) {
    switch(k) {
        case INT: throw 42; case CSTR: throw "a c string"; case STRING: throw string(t); case ENUM: throw app::code::bad; case POINTER: throw (const void*)nullptr; case PLAIN: throw app::plain{1, 2}; case TEMPLATE: throw app::holder<vector<int>>{}; case LOCAL: { struct local_type {}; throw local_type{}; }
        case HIDDEN: throw app::hidden(t); case DIAMOND: throw app::diamond(); case RUNTIME: throw std::runtime_error(t); case BADALLOC: throw std::bad_alloc(); case SYSERR: throw std::system_error(2, std::generic_category(), t); case VBASE: throw app::vbase(t); case MINE: throw app::mine(t); case BY_CURRENT: throw app::mine(t);
        case TRACED: throw app::traced(t); case TRACED_RT: throw cpptrace::runtime_error(string(t)); case TRACED_SYS: throw cpptrace::system_error(2, string(t)); case OWN: { cpptrace::stacktrace s; s.frames.push_back({0x1234, 0x34, cpptrace::nullable<std::uint32_t>{77}, cpptrace::nullable<std::uint32_t>::null(), "elsewhere.cpp", "far::away(int)", false}); throw app::own(t, s); }
        case NESTED: throw cpptrace::nested_exception(std::make_exception_ptr(std::runtime_error(t))); default: std::rethrow_exception(maker_fn(t));
    }
}
struct expected { string type, text; bool has_text = false; };
static expected expect(int k, const string& t) {
    switch(k) {
        case INT: return {"int"}; case CSTR: return {"char const*"}; case STRING: return {"basic_string<char"}; case ENUM: return {"app::code"}; case POINTER: return {"void const*"}; case PLAIN: return {"app::plain"}; case TEMPLATE: return {"app::holder<std::vector<int"}; case LOCAL: return {"local_type"}; case HIDDEN: return {"app::hidden"}; case DIAMOND: return {"app::diamond"};
        case RUNTIME: return {"std::runtime_error", t, true}; case BADALLOC: return {"std::bad_alloc", "std::bad_alloc", true}; case SYSERR: return {"std::system_error", std::system_error(2, std::generic_category(), t).what(), true}; case VBASE: return {"app::vbase", t, true}; case MINE: case BY_CURRENT: return {"app::mine", t, true};
        case TRACED: return {"app::traced", t, true}; case TRACED_RT: return {"cpptrace::v1::runtime_error", t, true}; case TRACED_SYS: return {"cpptrace::v1::system_error", t + ": " + std::error_code(2, std::generic_category()).message(), true}; case OWN: return {"app::own", t, true}; case NESTED: return {"cpptrace::v1::nested_exception", "Nested exception: " + t, true}; case REMADE: return {"cpptrace::v1::logic_error", t, true};
        default: return {};
    }
}
// ---- origins ---------------------------------------------------------------------------------------------------------------------------
enum origin { UNCAUGHT, THREAD, NOEXCEPT, DTOR, UNWINDING, IN_CATCH, RETHROW, DIRECT, BAD_RETHROW, JOINABLE, PURE, WRONG_HANDLER, PTHREAD, AT_EXIT, IN_SIGNAL, STORED, TWO_THREADS, EXIT_DTOR, FROM_CURRENT, NORIGINS };
static const char* const origin_name[] = {"uncaught", "thread", "noexcept", "destructor", "during-unwinding", "terminate-in-catch", "rethrow", "direct", "rethrow-of-nothing", "joinable-thread", "pure-virtual", "other-handlers", "pthread", "atexit", "signal", "stored", "two-threads", "static-destructor", "from-current"};
struct thrower_on_exit { std::function<void()> f; ~thrower_on_exit() noexcept(false) { f(); } };
struct bad_dtor { std::function<void()> f; ~bad_dtor() { f(); } };
struct pure { pure() { call(); } NI void call() { v(); } virtual void v() = 0; }; struct impure : pure { void v() override {} };
static std::function<void()>& at_exit_fn = *new std::function<void()>; static thread_local int tls_guard;
struct at_end { ~at_end() { if(at_exit_fn) { auto f = at_exit_fn; at_exit_fn = nullptr; f(); } } }; static at_end the_end;
struct scenario { int o, k, depth, outer, closed; string text; bool tty, absorb, register_in_thread, twice, sigabrt, fail, warm; };
// does every frame from the throw outwards remain in place until the handler runs?
static bool inner_kept(int o) { return o == UNCAUGHT || o == THREAD || o == PTHREAD || o == DIRECT || o == IN_CATCH || o == BAD_RETHROW || o == WRONG_HANDLER || o == JOINABLE || o == RETHROW || o == STORED || o == FROM_CURRENT; }
static NI void run_origin(const scenario& s) {
    auto go = [&s] { inner_0(s.depth); }; bottom = [&s] { throw_(s.k, s.text); };
    switch(s.o) {
        case UNCAUGHT: go(); break;
        case THREAD: { std::thread t([&] { go(); }); t.join(); break; }
        case TWO_THREADS: { std::thread a([&] { go(); }), b([&] { go(); }); a.join(); b.join(); break; }
        case PTHREAD: { pthread_t t; static std::function<void()> f; f = go; pthread_create(&t, nullptr, [](void*) -> void* { f(); return nullptr; }, nullptr); pthread_join(t, nullptr); break; }
        case NOEXCEPT: [&]() noexcept { go(); }(); break;
        case DTOR: { bad_dtor d{go}; } break;
        case UNWINDING: try { bad_dtor d{go}; throw 1; } catch(...) {} break;
        case IN_CATCH: try { throw_(s.k, s.text); } catch(...) { bottom = [] { std::terminate(); }; go(); } break;
        case RETHROW: try { throw_(s.k, s.text); } catch(...) { bottom = [] { throw; }; go(); } break;
        case DIRECT: bottom = [] { std::terminate(); }; go(); break;
        case BAD_RETHROW: bottom = [] { throw; }; go(); break;
        case JOINABLE: bottom = [] { std::thread t([] { for(;;) pause(); }); }; go(); break;
        case PURE: { impure p; break; }
        case WRONG_HANDLER: try { try { go(); } catch(const app::holder<int>&) {} } catch(const std::vector<double>&) {} break;
        case AT_EXIT: { static std::function<void()> f; static scenario& c = *new scenario(s); f = [] { bottom = [] { throw_(c.k, c.text); }; inner_0(c.depth); }; atexit([] { f(); }); exit(0); }
        case EXIT_DTOR: { static scenario& c = *new scenario(s); at_exit_fn = [] { bottom = [] { throw_(c.k, c.text); }; inner_0(c.depth); }; exit(0); }
        case IN_SIGNAL: { static std::function<void()> f; f = go; signal(SIGUSR1, [](int) { f(); }); raise(SIGUSR1); break; }
        case STORED: { std::exception_ptr p; try { throw_(s.k, s.text); } catch(...) { p = std::current_exception(); } bottom = [p] { std::rethrow_exception(p); }; go(); break; }
        case FROM_CURRENT: CPPTRACE_TRY { go(); } CPPTRACE_CATCH(const std::vector<double>&) { } break;
    }
}
static NI void child(const scenario& s) {
    cpptrace::absorb_trace_exceptions(s.absorb); if(s.fail) setenv("C16_MODE", "exit:1", 1);
    if(s.register_in_thread) { std::thread t([] { cpptrace::register_terminate_handler(); }); t.join(); } else cpptrace::register_terminate_handler();
    if(s.twice) cpptrace::register_terminate_handler();
    if(s.sigabrt) signal(SIGABRT, [](int) { (void)!write(1, "@abrt@", 6); });
    if(s.warm && !s.fail) { (void)cpptrace::generate_trace().to_string(); CPPTRACE_TRY { throw std::runtime_error("earlier"); } CPPTRACE_CATCH(const std::exception&) { (void)cpptrace::from_current_exception().to_string(true); } }
    middle = [&s] { run_origin(s); }; outer_0(s.outer); _exit(77);
}
static string read_all(int fd, pid_t p, bool& hung, int deadline_s) {
    string out; time_t end = time(nullptr) + deadline_s; hung = false;
    for(;;) { pollfd f{fd, POLLIN, 0}; int r = poll(&f, 1, 200); if(r > 0) { char b[65536]; ssize_t n = read(fd, b, sizeof b); if(n <= 0) break; out.append(b, n); } if(time(nullptr) > end || out.size() > (8u << 20)) { // endless output counts as a hang
            hung = true; kill(p, SIGKILL); break; } }
    return out;
}
static size_t count(const string& s, const string& what) { size_t n = 0; for(size_t i = 0; (i = s.find(what, i)) != string::npos; i += what.size()) n++; return n; }
static bool named = true;
static bool traced(int k) { return k > STD_LAST && k < NKINDS; }
static void judge(const scenario& s, int st, string out, string err, bool hung, const string& how) {
    bool no_exception = s.o == DIRECT || s.o == BAD_RETHROW || s.o == JOINABLE || s.o == PURE; int k = no_exception ? (int)NONE : s.k; vh::eval(); string shown = how + "\nstderr: " + err.substr(0, 1500);
    if(hung) { vh::violation("terminate:hang", shown); return; }
    vh::check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "terminate:status", vh::fmt("status %x ", st) + shown);
    if(s.closed != 1) { vh::check(out == (s.sigabrt ? "@abrt@" : "") || (s.o == TWO_THREADS && s.sigabrt && out == "@abrt@@abrt@"), "terminate:stdout", out + " in " + shown); }
    if(s.closed == 2) return;
    string rest = err; // the text comes first, then exactly one trace
    for(string n : {"pure virtual method called\n"}) if(s.o == PURE && rest.compare(0, n.size(), n) == 0) rest.erase(0, n.size());
    if(s.o == TWO_THREADS) { vh::check(!rest.empty(), "terminate:two-threads", shown); return; } // both may be writing at once
    if(s.tty) { string r; for(char c : rest) if(c != '\r') r += c; rest = r; }
    expected e = expect(k, s.text); string header = "Stack trace (most recent call first):"; string first;
    if(k == NONE) { size_t nl = rest.find('\n'); first = rest.substr(0, nl); vh::check(nl != string::npos && first.find("without an active exception") != string::npos && first.find("Stack trace") == string::npos, "terminate:notice", shown); rest.erase(0, nl == string::npos ? nl : nl + 1); }
    else {
        string lead = "Terminate called after throwing an instance of "; bool ok = rest.compare(0, lead.size(), lead) == 0; size_t nl = rest.find('\n'); size_t t = rest.find(e.type); ok = ok && t != string::npos && t < nl;
        if(e.has_text) { string tail = ": " + (s.tty ? [&] { string q; for(char c : e.text) if(c != '\r') q += c; return q; }() : e.text) + "\n"; size_t at = rest.find(tail, t == string::npos ? 0 : t); ok = ok && at != string::npos && at < nl && at == t + e.type.size(); if(ok) rest.erase(0, at + tail.size()); }
        else if(ok) rest.erase(0, nl + 1);
        if(!vh::check(ok, "terminate:description", "wanted type " + e.type + " text " + e.text.substr(0, 200) + "\n" + shown)) return;
    }
    if(s.fail && !s.absorb) return; // no trace to be had
    vh::check(count(rest, header) == 1 && rest.compare(0, header.size(), header) == 0 && rest.find("erminate called") == string::npos, "terminate:once", shown);
    if(!s.fail) vh::check((rest.find("\033[") != string::npos) == s.tty, "terminate:color", vh::fmt("terminal %d: ", s.tty) + shown);
    string plain; for(size_t i = 0; i < rest.size(); i++) { if(rest[i] == 27 && i + 1 < rest.size() && rest[i + 1] == '[') { while(i < rest.size() && rest[i] != 'm') i++; continue; } plain += rest[i]; } rest = plain;
    vector<string> syms; { size_t i = 0; while(i < rest.size()) { size_t nl = rest.find('\n', i); if(nl == string::npos) nl = rest.size(); string l = rest.substr(i, nl - i); size_t in = l.find(" in "); if(!l.empty() && l[0] == '#') syms.push_back(in == string::npos ? "" : l.substr(in + 4)); i = nl + 1; } }
    if(k == OWN) { vh::check(syms.size() == 1 && rest.find("far::away(int) at elsewhere.cpp:77") != string::npos, "terminate:own-trace", shown); return; }
    if(s.fail || !named) { vh::check(!syms.empty(), "terminate:trace", shown); return; }
    bool from_object = traced(k); // a traced exception reports where it was made, not where it ended
    auto has = [&](const string& f) { int n = 0; for(auto& x : syms) if(x == f || x.compare(0, f.size() + 1, f + "(") == 0 || x.compare(0, f.size() + 1, f + " ") == 0) n++; return n; };
    string want; vector<string> chain; bool pre = s.o == IN_CATCH || s.o == RETHROW || s.o == STORED; // thrown before the inner chain was entered
    bool inner = from_object ? !pre && k != REMADE : (inner_kept(s.o)); if(from_object && k == REMADE && !pre) inner = true; // maker_fn is called from the bottom
    if(s.o == PURE) inner = false;
    if(inner) for(int i = s.depth; i >= 0; i--) chain.push_back("inner_" + std::to_string(i));
    bool outer = s.o != THREAD && s.o != PTHREAD; if(outer) for(int i = s.outer; i >= 0; i--) chain.push_back("outer_" + std::to_string(i));
    if(s.o == IN_SIGNAL) { vh::check(!syms.empty(), "terminate:trace", shown); vh::stat("signal_traces"); return; }
    size_t at = 0; for(auto& f : chain) { while(at < syms.size() && !(syms[at] == f || syms[at].compare(0, f.size() + 1, f + "(") == 0 || syms[at].compare(0, f.size() + 1, f + " ") == 0)) at++; if(at == syms.size()) { vh::violation("terminate:trace", f + " is not in its place in " + shown); return; } at++; }
    if(from_object && k == REMADE) vh::check(has("maker_fn") == 1, "terminate:own-trace", shown);
    if(from_object && pre) vh::check(!has("inner_0"), "terminate:own-trace", shown);
    vh::stat("traces_compared");
}
static string text(vh::rng& r) {
    switch(r.below(8)) { case 0: return ""; case 1: return "{} {1} {<5} {{}} %s %n"; case 2: return string(1000 + r.below(100000), 'w') + "."; case 3: return "two\nlines"; case 4: return "Stack trace"; case 5: return "utf \xc3\xa9 and \xff raw"; default: { string s = "w"; for(size_t n = r.below(60); n--;) s += (char)r.range(32, 126); return s; } }
}
// a run of its own for what happens before main: the variable says what to throw
struct before_main { before_main() { if(const char* k = getenv("C18_STATIC")) { cpptrace::register_terminate_handler(); bottom = [k] { throw_(atoi(k), "static text"); }; inner_0(3); } } }; static before_main the_beginning;
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); bool helper = vh::iarg("helper", 0); long n = vh::iarg("processes", 200); named = vh::iarg("names", 1);
    char exe[4096] = {}; (void)!readlink("/proc/self/exe", exe, sizeof exe - 1);
    int hangs = 0;
    for(long i = 0; i < n && hangs < 3; i++) {
        scenario s; s.o = i < 2 * NORIGINS ? (int)(i % NORIGINS) : (int)r.below(NORIGINS); s.k = (int)((i + r.below(3)) % NKINDS); s.depth = (int)r.below(9); s.outer = (int)r.below(3); s.closed = r.chance(1, 8) ? 1 + (int)r.below(2) : r.chance(1, 20) ? 3 : 0; s.text = text(r); s.tty = r.chance(1, 4) && s.closed != 2; s.absorb = r.chance(2, 3); s.register_in_thread = r.chance(1, 6); s.twice = r.chance(1, 6); s.sigabrt = r.chance(1, 6); s.fail = helper && r.chance(1, 3); s.warm = r.chance(1, 3);
        if(s.o == PURE) s.depth = 0; if(s.tty && s.text.size() > 3000) s.text.resize(100); bool st_init = i % 17 == 16;
        string how = st_init ? string("static initialiser ") + kind_name[s.k] : string(origin_name[s.o]) + " " + kind_name[s.k] + vh::fmt(" depth %d outer %d closed %d tty %d absorb %d fail %d sigabrt %d warm %d text ", s.depth, s.outer, s.closed, (int)s.tty, (int)s.absorb, (int)s.fail, (int)s.sigabrt, (int)s.warm) + s.text.substr(0, 80); vh::journal(how);
        if(st_init) { s.tty = s.sigabrt = s.fail = false; s.closed = 0; s.text = "static text"; s.o = UNCAUGHT; s.depth = 3; s.outer = -1; }
        bool hung = false; int st = 0; string out, err;
        for(int attempt = 0; attempt < 2; attempt++) {
            int po[2], pe[2]; if(pipe(po)) abort(); if(s.tty) { termios t{}; cfmakeraw(&t); if(openpty(&pe[0], &pe[1], nullptr, &t, nullptr)) abort(); } else if(pipe(pe)) abort();
            pid_t p = fork();
            if(p == 0) {
                rlimit none{0, 0}; setrlimit(RLIMIT_CORE, &none); vh::limit_memory(); dup2(po[1], 1); dup2(pe[1], 2); close(po[0]); close(po[1]); close(pe[0]); close(pe[1]); if(s.closed == 1) close(1); if(s.closed == 2) close(2); if(s.closed == 3) close(0);
                if(st_init) { setenv("C18_STATIC", std::to_string(s.k).c_str(), 1); execl(exe, exe, (char*)nullptr); _exit(78); }
                child(s); _exit(79);
            }
            close(po[1]); close(pe[1]); err = read_all(pe[0], p, hung, 30); bool h2 = false; out = read_all(po[0], p, h2, 30); hung = hung || h2; waitpid(p, &st, 0); close(po[0]); close(pe[0]); if(!hung) break;
        }
        if(st_init) s.text = "static text"; judge(s, st, out, err, hung, how); hangs += hung; vh::stat(st_init ? "static_initialiser" : string("origin_") + origin_name[s.o]); vh::stat(string("kind_") + kind_name[s.k]); vh::distinct(how); vh::sample(how + " -> " + err.substr(0, 120), 2);
        if(st_init) continue;
    }
    return vh::finish();
}
