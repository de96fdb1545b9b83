// C20: where the library's own diagnostics go. Histories of level, sink and absorb changes interleaved with operations that raise diagnostics.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include "logging.hpp"
#include "utils/error.hpp"
#include "symbols/symbols.hpp"
#ifdef DWSTUB
#include "symbols/dwarf/resolver.hpp"
#endif
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <optional>
#include <sys/stat.h>
#include <thread>
using cpptrace::log_level; using std::string; using std::vector;
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

// ---- one allocation failure -------------------------------------------------------------------------------------------------
static thread_local long fail_in; // 1: the next allocation of this thread fails
void* operator new(size_t n) { if(fail_in && --fail_in == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

#ifdef DWSTUB
struct odd {};
static std::atomic<int> resolver_fault{0};
CPPTRACE_BEGIN_NAMESPACE
namespace detail { namespace libdwarf {
    static void fault(int at) { int f = resolver_fault; if(f / 10 != at) return; switch(f % 10) { case 0: throw internal_error("resolver {}", f); case 1: throw std::runtime_error("resolver trouble"); case 2: throw std::out_of_range("beyond {}"); default: throw odd(); } }
    struct faulty final : symbol_resolver {
        frame_with_inlines resolve_frame(const object_frame& f) override { fault(2); return {{f.raw_address, f.object_address, nullable<std::uint32_t>::null(), nullable<std::uint32_t>::null(), f.object_path, "name", false}, {}}; }
    };
    std::unique_ptr<symbol_resolver> make_dwarf_resolver(cstring_view) { fault(1); return std::unique_ptr<symbol_resolver>(new faulty()); }
} }
CPPTRACE_END_NAMESPACE
#endif

// ---- where everything arrives ------------------------------------------------------------------------------------------------
struct message { int sink, level; string text; bool operator==(const message& o) const { return sink == o.sink && level == o.level && text == o.text; } };
static std::mutex& gm = *new std::mutex; static vector<message>& got = *new vector<message>;
static void receive(int sink, log_level l, const char* t) { std::lock_guard<std::mutex> g(gm); got.push_back({sink, (int)l, t ? t : "(null)"}); }
static vector<message> take() { std::lock_guard<std::mutex> g(gm); vector<message> r; r.swap(got); return r; }
static string text_of(const vector<message>& v) { string r; for(auto& m : v) r += vh::fmt("[sink %d level %d %s]", m.sink, m.level, m.text.substr(0, 150).c_str()); return r.empty() ? "nothing" : r; }
static int capture[3]; static off_t seen[3];
static void capture_outputs() {
    int real = fcntl(2, F_DUPFD_CLOEXEC, 220); if(__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(long)real);
    for(int fd : {1, 2}) { char n[] = "/tmp/c20-XXXXXX"; int f = mkstemp(n); unlink(n); capture[fd] = fcntl(f, F_DUPFD_CLOEXEC, 230); dup2(f, fd); close(f); }
}
static string output(int fd) { if(fd == 1) { fflush(stdout); std::cout.flush(); } fflush(stderr); struct stat st; fstat(capture[fd], &st); string r((size_t)(st.st_size - seen[fd]), 0); if(pread(capture[fd], &r[0], r.size(), seen[fd]) != (ssize_t)r.size()) abort(); seen[fd] = st.st_size; return r; }
static const char* names[] = {"debug", "info", "warning", "error"};

// ---- operations that raise diagnostics -----------------------------------------------------------------------------------------
struct operation { string name; bool absorbed_only; std::function<string()> run; };
static string dir, own; // files given, names made
static string guarded(const std::function<string()>& f) { try { return f(); } catch(const cpptrace::detail::internal_error& e) { return string("threw internal_error ") + e.what(); } catch(const std::bad_alloc&) { return "threw bad_alloc"; } catch(const std::exception& e) { return string("threw ") + e.what(); } catch(...) { return "threw something else"; } }
template<typename F> static string failing(long k, F&& f) { struct off { ~off() { fail_in = 0; } } o; fail_in = k; auto r = f(); fail_in = 0; return r; }
static string count(const cpptrace::raw_trace& t) { return t.empty() ? "empty" : "frames"; } static string count(const cpptrace::object_trace& t) { return t.empty() ? "empty" : "frames"; } static string count(const cpptrace::stacktrace& t) { return t.empty() ? "empty" : "frames"; }
static vector<operation> operations() {
    vector<operation> ops; auto add = [&](string n, std::function<string()> f, bool absorbed_only = false) { ops.push_back({n, absorbed_only, [f] { return guarded(f); }}); };
    auto garbage = std::make_shared<vector<string>>(vector<string>{"not an object", "\x7f" "ELF", string("\x7f" "ELF\x02\x01\x01", 7) + string(57, 0), string("\x7f" "ELF\x01\x01\x01", 7) + string(57, '\xff'), string("\x7f" "ELF\x02\x02\x01", 7) + string(57, '\xff'), string(64, 'x')});
    for(size_t i = 0; i < garbage->size(); i++) add(vh::fmt("register %zu", i), [=] { auto& s = (*garbage)[i]; cpptrace::register_jit_object(s.data(), s.size()); cpptrace::unregister_jit_object(s.data()); return string("registered"); });
    // objects that can't be read: the lookup by address finds the module, its file does not exist any more
    add("trace, no memory", [] { return failing(1, [] { return count(cpptrace::generate_raw_trace()); }); });
    add("current, no memory", [] { return failing(1, [] { return count(cpptrace::raw_trace::current(0, 20)); }); });
    add("object trace, no memory", [] { return failing(1, [] { return count(cpptrace::generate_object_trace()); }); });
    add("full trace, no memory", [] { return failing(1, [] { return count(cpptrace::generate_trace()); }); });
    add("full current, no memory", [] { return failing(1, [] { return count(cpptrace::stacktrace::current(0, 5)); }); });
    static cpptrace::raw_trace one{{(cpptrace::frame_ptr)(uintptr_t)&operations + 1}}; static cpptrace::object_trace objects{{{0x10, 0x10, ""}}};
    add("resolve, no memory", [] { return failing(1, [] { return count(one.resolve()); }); });
    add("objects of a trace, no memory", [] { return failing(1, [] { return count(one.resolve_object_trace()); }); });
    add("resolve objects, no memory", [] { return failing(1, [] { return count(objects.resolve()); }); });
    add("names, no memory", [] { string s = "a_very_long_name_that_needs<memory, to_be_copied, and_more>::than_fits"; return failing(1, [&] { return cpptrace::prune_symbol(s); }); });
    add("exception, no memory", [] { string s(80, 'm'); fail_in = 1; cpptrace::runtime_error e(std::move(s)); fail_in = 0; return string(e.message()) + "/" + count(e.trace()); });
    add("exception's trace, no memory", [] { cpptrace::runtime_error e(string("message")); fail_in = 1; bool none = e.trace().empty(); fail_in = 0; return string(e.message()) + (none ? "/empty" : "/frames"); });
    add("from_current, no memory", [] { string r = "not caught"; CPPTRACE_TRY { fail_in = 1; throw 5; } CPPTRACE_CATCH(int i) { fail_in = 0; r = vh::fmt("caught %d ", i) + count(cpptrace::raw_trace(cpptrace::raw_trace_from_current_exception())); } return r; }, true);
    #ifdef DWSTUB
    static int fresh = 0;
    for(int at : {1, 2}) for(int kind = 0; kind < 4; kind++) add(vh::fmt("resolver fault %d/%d", at, kind), [=] { struct off { ~off() { resolver_fault = 0; } } o; resolver_fault = at * 10 + kind; string path = own + vh::fmt("/none%09d", fresh++); cpptrace::object_trace t{{{0x10, 0x10, path}, {0x20, 0x20, path}}}; auto s = t.resolve(); string r = vh::fmt("%zu", s.frames.size()); for(auto& f : s.frames) r += "|" + f.symbol + vh::fmt("@%lx", (long)f.raw_address) + (f.filename == path ? "=" : "!"); return r; });
    for(const char* what : {"missing", "dir", "text", "cut"}) { string name = what; add("object " + name, [=] { string path = own + "/" + name; if(name != "missing") { path += vh::fmt("%09d", fresh++); string target = dir + "/" + name; if(symlink(target.c_str(), path.c_str())) return string("no link"); } else path += vh::fmt("%09d", fresh++); cpptrace::object_trace t{{{0x10, 0x10, path}}}; auto s = t.resolve(); return vh::fmt("%zu %s", s.frames.size(), s.frames.empty() ? "" : s.frames[0].symbol.c_str()); }); }
    #endif
    return ops;
}
static string plain(string s) { // fresh names and addresses do not matter
    string r; for(size_t i = 0; i < s.size(); i++) { if(isdigit((unsigned char)s[i])) { size_t k = i; while(k < s.size() && isdigit((unsigned char)s[k])) k++; r += k - i >= 9 ? string("N") : s.substr(i, k - i); i = k - 1; } else r += s[i]; } return r;
}
struct reference { string outcome; vector<message> events; };

// ---- histories ----------------------------------------------------------------------------------------------------------------
enum sink_kind { NONE, EMPTY, CALLBACK, STDERR, NESTED, REPLACING };
struct sink_state { sink_kind kind = NONE; int id = 0, then = 0; int then_level = -1; };
static sink_state model; static int level_model = (int)log_level::warning;
static void apply(const sink_state& s) {
    model = s; int id = s.id, then = s.then, tl = s.then_level;
    switch(s.kind) {
        case NONE: case EMPTY: cpptrace::set_log_callback(std::function<void(log_level, const char*)>()); break;
        case CALLBACK: { auto heavy = std::make_shared<string>(100, 'c'); if(id % 2) cpptrace::set_log_callback([id, heavy](log_level l, const char* t) { receive(id, l, t); }); else cpptrace::set_log_callback([id](log_level l, const char* t) { receive(id, l, t); }); break; }
        case STDERR: cpptrace::use_default_stderr_logger(); break;
        case NESTED: cpptrace::set_log_callback([id](log_level l, const char* t) { receive(id, l, t); static thread_local int depth; if(depth) return; depth++; cpptrace::detail::log::info("nested"); cpptrace::detail::log::error("nested {}", 2); depth--; }); break;
        case REPLACING: cpptrace::set_log_callback([id, then, tl](log_level l, const char* t) { receive(id, l, t); if(tl >= 0) cpptrace::set_log_level((log_level)tl); if(then) cpptrace::set_log_callback([then](log_level l, const char* t) { receive(then, l, t); }); else cpptrace::use_default_stderr_logger(); receive(id, l, t); }); break;
    }
}
// what an event does to the sinks, by the model
static void deliver(int level, const string& text, vector<message>& want, string& err) {
    if(level < level_model) return;
    switch(model.kind) {
        case NONE: case EMPTY: break;
        case CALLBACK: want.push_back({model.id, level, text}); break;
        case STDERR: err += string("[cpptrace ") + names[level] + "] " + text + "\n"; break;
        case NESTED: want.push_back({model.id, level, text}); if((int)log_level::info >= level_model) want.push_back({model.id, (int)log_level::info, "nested"}); want.push_back({model.id, (int)log_level::error, "nested 2"}); break;
        case REPLACING: want.push_back({model.id, level, text}); want.push_back({model.id, level, text}); if(model.then_level >= 0) level_model = model.then_level; { int then = model.then; model = sink_state(); model.kind = then ? CALLBACK : STDERR; model.id = then; } break;
    }
}
static void quiet(const char* when) { auto m = take(); string o = output(1), e = output(2); vh::eval(); vh::check(m.empty() && o.empty() && e.empty(), "unasked-for-output", string(when) + ": " + text_of(m) + " stdout '" + o + "' stderr '" + e + "'"); }
static void direct(vh::rng& r, int& level, string& text) {
    level = (int)r.below(4); size_t n = r.below(r.chance(1, 8) ? 400 : 20); text = ""; while(n--) text += r.pick("abc {}%<>:09\n\t\x1b\xff"); text = text.c_str(); // an embedded terminator ends it
    namespace l = cpptrace::detail::log;
    switch(level + (r.chance(1, 3) ? 4 : 0)) { case 0: l::debug(text.c_str()); break; case 1: l::info(text.c_str()); break; case 2: l::warn(text.c_str()); break; case 3: l::error(text.c_str()); break;
        case 4: l::debug("{} and {}", text, 4); text += " and 4"; break; case 5: l::info("{} and {}", text, 5u); text += " and 5"; break; case 6: l::warn("{}", text.c_str()); break; case 7: l::error("x {>3}{}", 7, text); text = "x   7" + text; break; }
}
static void histories(vh::rng& r, long n, const vector<operation>& ops, const vector<reference> (&ref)[2]) {
    int next_id = 1;
    for(long h = 0; h < n; h++) {
        string story;
        for(int s = 3 + (int)r.below(15); s-- > 0;) {
            switch(r.below(8)) {
                case 0: case 1: { sink_state k; k.kind = (sink_kind)r.below(6); k.id = next_id++; k.then = r.chance(1, 3) ? 0 : next_id++; k.then_level = r.chance(1, 2) ? (int)r.below(4) : -1; apply(k); story += vh::fmt(" sink %d#%d", k.kind, k.id); break; }
                case 2: level_model = (int)r.below(4); cpptrace::set_log_level((log_level)level_model); story += vh::fmt(" level %d", level_model); break;
                case 3: { bool on_thread = r.chance(1, 4); int level; string text; uint64_t seed = r.next(); vector<message> want; string err; auto f = [&] { vh::rng q(seed); direct(q, level, text); }; if(on_thread) std::thread(f).join(); else f(); story += vh::fmt(" log%d", level) + (on_thread ? "@" : ""); string s0 = story; deliver(level, text, want, err); vh::eval(); auto m = take(); vh::check(m == want, "direct:delivery", s0 + " gave " + text_of(m) + " not " + text_of(want)); string e = output(2), o = output(1); vh::check(e == err, "direct:stderr", s0 + " wrote '" + e + "' not '" + err + "'"); vh::check(o.empty(), "stdout", s0 + " wrote '" + o + "'"); vh::stat("direct_messages"); break; }
                default: {
                    size_t i = r.below(ops.size()); bool absorb = ops[i].absorbed_only || r.chance(2, 3), on_thread = r.chance(1, 5); cpptrace::absorb_trace_exceptions(absorb); story += " '" + ops[i].name + (absorb ? "' absorbed" : "'") + (on_thread ? "@" : ""); vh::journal(story); string outcome;
                    if(on_thread) std::thread([&] { outcome = ops[i].run(); }).join(); else outcome = ops[i].run(); cpptrace::absorb_trace_exceptions(true); auto m = take(); string e = output(2), o = output(1); vector<message> want; string err;
                    for(auto& ev : ref[absorb][i].events) deliver(ev.level, ev.text, want, err); for(auto& x : m) x.text = plain(x.text); e = plain(e);
                    vh::eval(); vh::check(plain(outcome) == ref[absorb][i].outcome, "outcome-depends-on-logger", story + " gave '" + outcome + "' not '" + ref[absorb][i].outcome + "'"); vh::check(m == want, "operation:delivery", story + " gave " + text_of(m) + " not " + text_of(want)); vh::check(e == err, "operation:stderr", story + " wrote '" + e.substr(0, 300) + "' not '" + err.substr(0, 300) + "'"); vh::check(o.empty(), "stdout", story + " wrote '" + o + "'"); vh::stat("operations"); vh::stat("events", (long)ref[absorb][i].events.size()); break; }
            }
        }
        vh::distinct(story); vh::sample(story, 2);
    }
}
// ---- threads: every message arrives exactly once, at a sink that was set at some time while it was logged --------------------------
static void threads(vh::rng& r, long rounds) {
    for(long k = 0; k < rounds; k++) {
        int nt = 2 + (int)r.below(5), per = 40; bool to_stderr = r.chance(1, 2); take(); output(1); output(2); cpptrace::set_log_level(log_level::info);
        struct meta { int low, high; }; std::atomic<int> installed{1}; std::atomic<bool> go{false}, done{false}; vector<vector<meta>> span((size_t)nt, vector<meta>((size_t)per));
        auto install = [&](int id) { if(to_stderr) { if(id % 2) cpptrace::use_default_stderr_logger(); else cpptrace::set_log_callback([id](log_level l, const char* t) { receive(id, l, t); }); } else cpptrace::set_log_callback([id](log_level l, const char* t) { receive(id, l, t); }); };
        install(1); std::atomic<int> changing{1}; // installed: surely in place, changing: possibly in place
        vector<std::thread> ts; for(int t = 0; t < nt; t++) { uint64_t seed = r.next(); ts.emplace_back([&, t, seed] { vh::rng q(seed); while(!go) std::this_thread::yield(); for(int i = 0; i < per; i++) { int low = installed; string text = vh::fmt("thread %d message %d ", t, i) + string(q.below(60), '.') + "!"; if(q.chance(1, 4)) cpptrace::detail::log::debug(text.c_str()); (i % 2 ? (void)cpptrace::detail::log::error(text.c_str()) : (void)cpptrace::detail::log::warn(text.c_str())); span[(size_t)t][(size_t)i] = {low, changing}; if(q.chance(1, 5)) std::this_thread::yield(); } }); }
        std::thread switcher([&] { vh::rng q(k + 7); int id = 1; while(!done) { id++; changing = id; install(id); installed = id; for(size_t w = q.below(200); w--;) std::this_thread::yield(); } });
        go = true; for(auto& t : ts) t.join(); done = true; switcher.join(); auto m = take(); string e = output(2), o = output(1); vh::check(o.empty(), "stdout", "threads"); std::map<string, vector<int>> where; std::map<string, int> level;
        for(auto& x : m) { where[x.text.substr(0, x.text.find_last_of('m') == string::npos ? 0 : x.text.size())].push_back(x.sink); level[x.text] = x.level; }
        size_t p = 0; while(p < e.size()) { size_t nl = e.find('\n', p); if(nl == string::npos) nl = e.size(); string line = e.substr(p, nl - p); p = nl + 1; size_t b = line.find("] "); bool ok = line.compare(0, 10, "[cpptrace ") == 0 && b != string::npos && line.back() == '!' && std::count(line.begin(), line.end(), '!') == 1; vh::eval(); if(vh::check(ok, "threads:garbled", line)) { string t = line.substr(b + 2); where[t].push_back(-1); level[t] = line.find("error") < b ? 3 : line.find("warning") < b ? 2 : 9; } }
        std::map<string, std::pair<int, int>> by; size_t total = 0; for(auto& w : where) { total += w.second.size(); int t = -1, i = -1; sscanf(w.first.c_str(), "thread %d message %d ", &t, &i); string d = w.first + vh::fmt(" arrived %zu times", w.second.size()); vh::eval(); vh::check(w.second.size() == 1, "threads:exactly-once", d); if(t < 0 || t >= nt || i < 0 || i >= per) { vh::violation("threads:text", w.first); continue; } auto sp = span[(size_t)t][(size_t)i]; int s = w.second[0]; bool timely = s == -1 ? to_stderr && (sp.high > sp.low || sp.low % 2) : s >= sp.low && s <= sp.high && (!to_stderr || s % 2 == 0); vh::check(timely, "threads:latest-wins", d + vh::fmt(" at sink %d, set were %d to %d", s, sp.low, sp.high)); vh::check(level[w.first] == (i % 2 ? 3 : 2), "threads:level", d); }
        vh::check(total == (size_t)nt * per, "threads:exactly-once", vh::fmt("%zu of %d", total, nt * per)); vh::stat("thread_messages", (long)total); vh::stat("sink_switches", installed.load()); vh::distinct(vh::fmt("threads %d %d %d", nt, to_stderr, installed.load()));
    }
}
int main(int argc, char** argv) {
    vh::init(argc, argv); dir = vh::arg("dir", "/tmp"); vh::rng r(vh::iarg("seed", 1)); own = dir + vh::fmt("/own%d", getpid()); mkdir(own.c_str(), 0700); capture_outputs(); cpptrace::absorb_trace_exceptions(true);
    auto ops = operations(); // before anything was configured nothing is said
    for(int a : {1, 0}) for(auto& o : ops) if(a || !o.absorbed_only) { cpptrace::absorb_trace_exceptions(a); o.run(); quiet(o.name.c_str()); } cpptrace::absorb_trace_exceptions(true);
    { int l; string t; for(int i = 0; i < 30; i++) { direct(r, l, t); quiet("a message"); } }
    cpptrace::set_log_level(log_level::debug); { int l; string t; for(int i = 0; i < 30; i++) { direct(r, l, t); quiet("a message, all levels"); } }
    cpptrace::set_log_level(log_level::warning); cpptrace::use_default_stderr_logger(); cpptrace::detail::log::info("not yet"); quiet("below the default level"); cpptrace::detail::log::error("now"); vh::check(output(2) == "[cpptrace error] now\n", "default-level", "an error at the default level"); take();
    vector<reference> ref[2]; // what each operation raises, seen with everything on
    cpptrace::set_log_level(log_level::debug); for(int a : {0, 1}) for(auto& o : ops) { reference x; cpptrace::set_log_callback([](log_level l, const char* t) { receive(0, l, t); }); if(a || !o.absorbed_only) { cpptrace::absorb_trace_exceptions(a); take(); x.outcome = plain(o.run()); x.events = take(); for(auto& e : x.events) e.text = plain(e.text); } ref[a].push_back(x); cpptrace::absorb_trace_exceptions(true);
        if(a == 0 && o.absorbed_only) continue; string d = o.name + (a ? " (absorbed)" : "") + ": " + x.outcome + ", " + text_of(x.events); vh::sample(d, 12); vh::eval(); int errors = 0; bool bad_alloc = false; for(auto& e : x.events) if(e.level == 3) { errors++; bad_alloc |= e.text.find("bad_alloc") != string::npos; }
        bool threw = x.outcome.find("threw") != string::npos, memory = o.name.find("no memory") != string::npos, exc = o.name.find("exception") == 0;
        if(memory && !exc) { vh::check((a ? errors == 1 : errors >= 1) && bad_alloc && (int)x.events.size() == errors, "raised:once", d); // a boundary that passes it on reports it again
            vh::check(threw == !a && (a || x.outcome == "threw bad_alloc"), "absorb", d); } if(exc) { vh::check(!threw && (a ? errors == 1 : errors >= 1), "raised:exception", d); }
        if(o.name.find("register") == 0) { vh::check(!threw && !x.events.empty() && errors == !a, "raised:register", d); } if(o.name.find("resolver") == 0) { vh::check(threw == !a && errors == (a ? (o.name[15] == '1' ? 1 : 2) : o.name[15] == '1' ? 2 : 3), "raised:resolver", d); } }
    sink_state none; level_model = (int)log_level::debug; apply(none); output(1); output(2); take();
    histories(r, vh::iarg("histories", 300), ops, ref); threads(r, vh::iarg("rounds", 10));
    return vh::finish();
}
