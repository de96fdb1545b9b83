// C17: the C API next to the C++ API: every call on the same input, in random histories of live handles with an ownership ledger.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <malloc.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const bool exact_bytes = true; static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static const bool exact_bytes = false; static size_t live_bytes() { return mallinfo2().uordblks; }
#endif
using std::string; using std::vector; using cpptrace::frame_ptr;
#define NI __attribute__((noinline, noipa))
static vector<frame_ptr> pool; static vector<string> paths; static string what_now;
static string cs(const char* p) { return p ? p : "(null)"; }
static const std::uint32_t none = ~0u;
static string show(frame_ptr raw, frame_ptr obj, std::uint32_t line, std::uint32_t col, const string& file, const string& sym, bool inl) { return vh::fmt("%zx/%zx %u:%u %d ", (size_t)raw, (size_t)obj, line, col, (int)inl) + sym + " | " + file + "\n"; }
static string show(const ctrace_stacktrace& t) { string s = vh::fmt("%zu%s\n", t.count, t.count && !t.frames ? " (null)" : ""); for(size_t i = 0; t.frames && i < t.count; i++) { auto& f = t.frames[i]; if(f.is_inline != 0 && f.is_inline != 1) s += "(odd bool)"; s += show(f.raw_address, f.object_address, f.line, f.column, cs(f.filename), cs(f.symbol), f.is_inline); } return s; }
static string show(const cpptrace::stacktrace& t) { string s = vh::fmt("%zu\n", t.frames.size()); for(auto& f : t.frames) s += show(f.raw_address, f.object_address, f.line.value_or(none), f.column.value_or(none), f.filename, f.symbol, f.is_inline); return s; }
static string show(frame_ptr raw, frame_ptr obj, const string& path) { return vh::fmt("%zx/%zx ", (size_t)raw, (size_t)obj) + path + "\n"; }
static string show(const ctrace_object_trace& t) { string s = vh::fmt("%zu\n", t.count); for(size_t i = 0; t.frames && i < t.count; i++) s += show(t.frames[i].raw_address, t.frames[i].obj_address, cs(t.frames[i].obj_path)); return s; }
static string show(const cpptrace::object_trace& t) { string s = vh::fmt("%zu\n", t.frames.size()); for(auto& f : t.frames) s += show(f.raw_address, f.object_address, f.object_path); return s; }
static string show(const ctrace_raw_trace& t) { string s = vh::fmt("%zu\n", t.count); for(size_t i = 0; t.frames && i < t.count; i++) s += vh::fmt("%zx\n", (size_t)t.frames[i]); return s; }
static string show(const cpptrace::raw_trace& t) { string s = vh::fmt("%zu\n", t.frames.size()); for(auto f : t.frames) s += vh::fmt("%zx\n", (size_t)f); return s; }
static void same(const string& c, const string& cpp, const char* key) { vh::eval(); vh::check(c == cpp, string("capi:") + key, what_now + "\nC:   " + c + "\nC++: " + cpp); }
// the layouts differ in where "(inlined)" is padded and in blanks at the end of a line
static string layout(const string& s) {
    string r; const string mark = "(inlined)";
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '\n') while(!r.empty() && r.back() == ' ') r.pop_back();
        if(s.compare(i, mark.size(), mark) == 0) { while(!r.empty() && r.back() == ' ') r.pop_back(); r += ' ' + mark; i += mark.size() - 1; if(i + 1 < s.size() && s[i + 1] == ' ') { r += ' '; while(i + 1 < s.size() && s[i + 1] == ' ') i++; } continue; }
        r += s[i];
    }
    return r;
}
template<typename F> static string or_nothing(F f) { try { return f(); } catch(const std::exception&) { vh::stat("cpp_threw"); return "0\n"; } }
// ---- live call chains: both APIs asked from the same place, the frame of the asking call itself differs by its return address only ----
static NI void chain(int n, const std::function<void()>& f) { if(n > 0) chain(n - 1, f); else f(); asm volatile(""); }
// the asking functions live in a section of their own: their frames are the only ones that may differ
#define ASK __attribute__((noinline, noipa, section("asktext")))
extern "C" const char __start_asktext[], __stop_asktext[];
static bool asker(frame_ptr a) { return a > (frame_ptr)__start_asktext && a <= (frame_ptr)__stop_asktext; }
struct asked { vector<frame_ptr> raw; size_t count = 0; string text; size_t skip, depth, size; frame_ptr buf[64]; ctrace_raw_trace r{}; ctrace_object_trace o{}; ctrace_stacktrace t{}; cpptrace::raw_trace pr; cpptrace::object_trace po; cpptrace::stacktrace pt; };
static ASK void ask_raw_c(asked& q) { q.r = ctrace_generate_raw_trace(q.skip, q.depth); asm volatile(""); }
static ASK void ask_raw_p(asked& q) { q.pr = cpptrace::generate_raw_trace(q.skip, q.depth); asm volatile(""); }
static ASK void ask_obj_c(asked& q) { q.o = ctrace_generate_object_trace(q.skip, q.depth); asm volatile(""); }
static ASK void ask_obj_p(asked& q) { q.po = cpptrace::generate_object_trace(q.skip, q.depth); asm volatile(""); }
static ASK void ask_trace_c(asked& q) { q.t = ctrace_generate_trace(q.skip, q.depth); asm volatile(""); }
static ASK void ask_trace_p(asked& q) { q.pt = cpptrace::generate_trace(q.skip, q.depth); asm volatile(""); }
static ASK void ask_safe_c(asked& q) { q.count = ctrace_safe_generate_raw_trace(q.buf, q.size, q.skip, q.depth); asm volatile(""); }
static ASK void ask_safe_p(asked& q) { q.count = cpptrace::safe_generate_raw_trace(q.buf, q.size, q.skip, q.depth); asm volatile(""); }
static NI void ask(int kind, asked* q) {
    static void (*const table[4][2])(asked&) = {{ask_raw_c, ask_raw_p}, {ask_obj_c, ask_obj_p}, {ask_trace_c, ask_trace_p}, {ask_safe_c, ask_safe_p}};
    for(volatile int k = 0; k < 2; k = k + 1) table[kind][k](q[k]);
}
static void live(int kind, size_t skip, size_t depth, size_t size) {
    asked q[2]; for(auto& x : q) { x.skip = skip; x.depth = depth; x.size = size; }
    try { ask(kind, q); } catch(const std::exception&) { ctrace_free_stacktrace(&q[0].t); vh::stat("cpp_threw"); return; } what_now = vh::fmt("skip %zu depth %zu size %zu", skip, depth, size); string c, p;
    auto addr = [](frame_ptr a) { return asker(a) ? string("(asker)") : vh::fmt("%zx", (size_t)a); };
    switch(kind) {
        case 0: for(size_t i = 0; i < q[0].r.count; i++) c += addr(q[0].r.frames[i]) + "\n"; for(auto a : q[1].pr.frames) p += addr(a) + "\n"; same(c, p, "generate_raw"); vh::check(q[0].r.count <= depth, "capi:generate_raw", "more than max_depth"); ctrace_free_raw_trace(&q[0].r); vh::check(!q[0].r.frames && !q[0].r.count, "capi:free", "a freed raw trace isn't empty"); ctrace_free_raw_trace(&q[0].r); break;
        case 1: { auto one = [&](frame_ptr raw, frame_ptr obj, const string& path) { return (asker(raw) ? vh::fmt("(asker) base %zx ", (size_t)(raw - obj)) : vh::fmt("%zx/%zx ", (size_t)raw, (size_t)obj)) + path + "\n"; };
            for(size_t i = 0; i < q[0].o.count; i++) c += one(q[0].o.frames[i].raw_address, q[0].o.frames[i].obj_address, cs(q[0].o.frames[i].obj_path)); for(auto& f : q[1].po.frames) p += one(f.raw_address, f.object_address, f.object_path); same(c, p, "generate_object"); ctrace_free_object_trace(&q[0].o); vh::check(!q[0].o.frames && !q[0].o.count, "capi:free", "a freed object trace isn't empty"); ctrace_free_object_trace(&q[0].o); break; }
        case 2: { auto one = [&](frame_ptr raw, frame_ptr obj, std::uint32_t l, std::uint32_t col, const string& file, const string& sym, bool inl) { return asker(raw) ? string("(asker)\n") : show(raw, obj, l, col, file, sym, inl); };
            for(size_t i = 0; i < q[0].t.count; i++) { auto& f = q[0].t.frames[i]; c += one(f.raw_address, f.object_address, f.line, f.column, cs(f.filename), cs(f.symbol), f.is_inline); } for(auto& f : q[1].pt.frames) p += one(f.raw_address, f.object_address, f.line.value_or(none), f.column.value_or(none), f.filename, f.symbol, f.is_inline);
            same(c, p, "generate"); ctrace_free_stacktrace(&q[0].t); vh::check(!q[0].t.frames && !q[0].t.count, "capi:free", "a freed trace isn't empty"); ctrace_free_stacktrace(&q[0].t); break; }
        case 3: vh::check(q[0].count <= size && q[0].count <= depth, "capi:safe", what_now + vh::fmt(": %zu frames", q[0].count)); for(size_t i = 0; i < q[0].count; i++) c += addr(q[0].buf[i]) + "\n"; for(size_t i = 0; i < q[1].count; i++) p += addr(q[1].buf[i]) + "\n"; same(c, p, "safe"); break;
    }
}
// ---- histories over handles ------------------------------------------------------------------------------------------------------------
static string random_text(vh::rng& r) {
    switch(r.below(9)) { case 0: return ""; case 1: return "_ZNSt6vectorIiSaIiEE9push_backERKi"; case 2: return "%s%n%d%5$s"; case 3: return string(r.below(3000), 'x') + "end"; case 4: return "ns::f(std::vector<int, std::allocator<int> > const&)"; case 5: return "\xff\xfe binary \x01"; case 6: return "_Z1fIJiicEEvDpT_";
        default: { string s; for(size_t n = r.below(40); n--;) s += (char)r.range(1, 255); return s; } }
}
struct world {
    vh::rng r; explicit world(std::uint64_t s) : r(s) {}
    vector<ctrace_raw_trace> raws; vector<ctrace_object_trace> objs; vector<ctrace_stacktrace> traces; vector<ctrace_owning_string> strings; vector<string> s_raws, s_objs, s_traces, s_strings; string history;
    void note(const string& s) { history += s + "; "; what_now = history.size() > 600 ? history.substr(history.size() - 600) : history; vh::journal(what_now); }
    void verify() { // whatever else was called, every live handle still reads as when it was made
        for(size_t i = 0; i < raws.size(); i++) same(show(raws[i]), s_raws[i], "alive"); for(size_t i = 0; i < objs.size(); i++) same(show(objs[i]), s_objs[i], "alive"); for(size_t i = 0; i < traces.size(); i++) same(show(traces[i]), s_traces[i], "alive"); for(size_t i = 0; i < strings.size(); i++) same(cs(strings[i].data), s_strings[i], "alive");
    }
    template<typename T, typename F> void drop(vector<T>& v, vector<string>& m, F free_) { if(v.empty()) return; size_t i = r.below(v.size()); free_(&v[i]); v.erase(v.begin() + i); m.erase(m.begin() + i); }
    void drop_string() { if(strings.empty()) return; size_t i = r.below(strings.size()); ctrace_free_owning_string(&strings[i]); vh::check(!strings[i].data, "capi:free", "a freed string isn't null"); ctrace_free_owning_string(&strings[i]); strings.erase(strings.begin() + i); s_strings.erase(s_strings.begin() + i); }
    cpptrace::raw_trace addresses() { cpptrace::raw_trace t; for(size_t n = r.below(r.chance(1, 6) ? 40 : 6); n--;) t.frames.push_back(r.chance(1, 6) ? (frame_ptr)r.next() : r.pick(pool) + r.below(4)); return t; }
    void keep(ctrace_owning_string s) { strings.push_back(s); s_strings.push_back(cs(s.data)); }
    void step() {
        switch(r.below(15)) {
            case 0: { auto t = addresses(); note("raw"); ctrace_raw_trace c{t.frames.data(), t.frames.size()}; bool null = r.chance(1, 10); if(null) { c.frames = nullptr; if(r.chance(1, 2)) c.count = 0; t.frames.clear(); }
                auto o = ctrace_resolve_raw_trace_to_object_trace(&c); same(show(o), show(t.resolve_object_trace()), "raw_to_object"); objs.push_back(o); s_objs.push_back(show(o)); return; }
            case 1: { auto t = addresses(); note("resolve raw"); ctrace_raw_trace c{t.frames.data(), t.frames.size()}; bool null = r.chance(1, 10); if(null) { c.frames = nullptr; t.frames.clear(); } auto s = ctrace_resolve_raw_trace(&c); same(show(s), or_nothing([&] { return show(t.resolve()); }), "raw_resolve"); traces.push_back(s); s_traces.push_back(show(s)); return; }
            case 2: { note("resolve object"); cpptrace::object_trace t; vector<ctrace_object_frame> f; vector<string> hold; size_t n = r.below(6); hold.reserve(n);
                for(size_t i = 0; i < n; i++) { frame_ptr a = r.pick(pool) + r.below(4); cpptrace::stacktrace_frame q; q.raw_address = a; auto o = q.get_object_info(); if(r.chance(1, 3)) o = {r.next(), r.below(0x4000), r.pick(paths)}; t.frames.push_back(o); hold.push_back(o.object_path); f.push_back({o.raw_address, o.object_address, hold.back().c_str()}); if(hold.back().empty() && r.chance(1, 2)) f.back().obj_path = nullptr; }
                ctrace_object_trace c{f.data(), f.size()}; auto s = ctrace_resolve_object_trace(&c); same(show(s), or_nothing([&] { return show(t.resolve()); }), "object_resolve"); traces.push_back(s); s_traces.push_back(show(s)); return; }
            case 3: if(objs.empty()) return; { note("resolve live object trace"); auto& o = r.pick(objs); cpptrace::object_trace t; for(size_t i = 0; i < o.count; i++) t.frames.push_back({o.frames[i].raw_address, o.frames[i].obj_address, o.frames[i].obj_path}); auto s = ctrace_resolve_object_trace(&o); same(show(s), or_nothing([&] { return show(t.resolve()); }), "object_resolve"); traces.push_back(s); s_traces.push_back(show(s)); return; }
            case 4: case 5: { // a trace of the caller's own making, printed and stringified
                note("text"); cpptrace::stacktrace t; vector<ctrace_stacktrace_frame> f; vector<string> hold; static const size_t sizes[] = {0, 1, 2, 9, 10, 11, 99, 100, 101, 5}; size_t n = r.chance(1, 3) ? r.pick(sizes) : r.below(8); hold.reserve(2 * n);
                for(size_t i = 0; i < n; i++) {
                    auto num = [&]() -> std::uint32_t { return r.chance(1, 4) ? none : r.chance(1, 6) ? none - 1 : r.chance(1, 6) ? 0 : (std::uint32_t)r.next(); };
                    cpptrace::stacktrace_frame x; x.raw_address = r.chance(1, 5) ? 0 : r.next(); x.object_address = r.next(); auto l = num(), c = num(); x.line = cpptrace::nullable<std::uint32_t>{l}; x.column = cpptrace::nullable<std::uint32_t>{c}; x.filename = r.chance(1, 4) ? "" : "/dir/" + random_text(r); x.symbol = random_text(r); x.is_inline = r.chance(1, 4);
                    hold.push_back(x.filename); auto* fp = hold.back().c_str(); hold.push_back(x.symbol); auto* sp = hold.back().c_str(); if(!*fp && r.chance(1, 2)) fp = nullptr; if(!*sp && r.chance(1, 2)) sp = nullptr;
                    f.push_back({x.raw_address, x.object_address, l, c, fp, sp, (ctrace_bool)x.is_inline}); t.frames.push_back(x);
                }
                f.reserve(1); ctrace_stacktrace c{f.data(), f.size()}; bool color = r.chance(1, 2); auto s = ctrace_stacktrace_to_string(&c, color); same(cs(s.data), t.to_string(color), "to_string"); keep(s);
                char* buf = nullptr; size_t len = 0; FILE* m = open_memstream(&buf, &len); ctrace_print_stacktrace(&c, m, color); fclose(m); string printed(buf, len); free(buf);
                cpptrace::formatter fmt; fmt.hide_exception_machinery(false); vh::check(!printed.empty() && printed.back() == '\n', "capi:print-newline", printed); same(layout(printed), layout(fmt.format(t, color) + "\n"), "print"); return; }
            case 6: { note("null handles"); ctrace_free_owning_string(nullptr); ctrace_free_raw_trace(nullptr); ctrace_free_object_trace(nullptr); ctrace_free_stacktrace(nullptr);
                ctrace_raw_trace a{nullptr, 0}; ctrace_object_trace b{nullptr, 0}; ctrace_stacktrace c{nullptr, r.below(3)}; ctrace_owning_string d{nullptr}; ctrace_free_raw_trace(&a); ctrace_free_object_trace(&b); ctrace_free_stacktrace(&c); ctrace_free_owning_string(&d);
                auto s1 = ctrace_resolve_raw_trace(r.chance(1, 2) ? nullptr : &a), s2 = ctrace_resolve_object_trace(r.chance(1, 2) ? nullptr : &b); auto o = ctrace_resolve_raw_trace_to_object_trace(r.chance(1, 2) ? nullptr : &a); vh::eval(); vh::check(!s1.count && !s2.count && !o.count, "capi:null", "frames out of nothing"); ctrace_free_stacktrace(&s1); ctrace_free_stacktrace(&s2); ctrace_free_object_trace(&o);
                auto t = ctrace_stacktrace_to_string(r.chance(1, 2) ? nullptr : &c, 0); vh::check(cs(t.data).find("<empty trace>") != string::npos, "capi:null", cs(t.data)); ctrace_free_owning_string(&t);
                char* buf = nullptr; size_t len = 0; FILE* m = open_memstream(&buf, &len); ctrace_print_stacktrace(r.chance(1, 2) ? nullptr : &c, m, 0); fclose(m); vh::check(string(buf, len).find("<empty trace>") != string::npos, "capi:null", string(buf, len)); free(buf);
                auto e = ctrace_demangle(nullptr), g = ctrace_generate_owning_string(nullptr); vh::check(cs(e.data) == "" && (!g.data || !*g.data), "capi:null", "text out of nothing"); ctrace_free_owning_string(&e); ctrace_free_owning_string(&g);
                auto i = ctrace_get_object_info(nullptr); vh::check(i.raw_address == 0 && i.obj_address == 0 && (!i.obj_path || !*i.obj_path), "capi:null", "object info out of nothing"); ctrace_owning_string p{i.obj_path}; ctrace_free_owning_string(&p); return; }
            case 7: { note("string"); string x = random_text(r); auto s = ctrace_generate_owning_string(x.c_str()); same(cs(s.data), x, "string"); vh::check(s.data != x.c_str(), "capi:string", "not a copy"); keep(s); return; }
            case 8: { note("demangle"); string x = random_text(r); auto s = ctrace_demangle(x.c_str()); same(cs(s.data), cpptrace::demangle(x), "demangle"); keep(s); return; }
            case 9: { note("object info"); frame_ptr a = r.chance(1, 6) ? r.next() : r.pick(pool) + r.below(4); ctrace_stacktrace_frame f{a, r.next(), 1, 1, nullptr, nullptr, 0}; cpptrace::stacktrace_frame x; x.raw_address = a; x.object_address = f.object_address; x.is_inline = false; auto i = ctrace_get_object_info(&f); auto j = x.get_object_info(); same(show(i.raw_address, i.obj_address, cs(i.obj_path)), show(j.raw_address, j.object_address, j.object_path), "object_info"); ctrace_owning_string p{i.obj_path}; ctrace_free_owning_string(&p); return; }
            case 10: { note("safe object"); static ctrace_safe_object_frame f; static cpptrace::safe_object_frame g; frame_ptr a = r.chance(1, 6) ? r.below(4000) : r.pick(pool); memset(&f, 7, sizeof f); memset(&g, 7, sizeof g); ctrace_get_safe_object_frame(a, &f); cpptrace::get_safe_object_frame(a, &g); same(show(f.raw_address, f.relative_obj_address, f.object_path), show(g.raw_address, g.address_relative_to_object_start, g.object_path), "safe_object");
                vh::check(!!ctrace_can_signal_safe_unwind() == cpptrace::can_signal_safe_unwind() && !!ctrace_can_get_safe_object_frame() == cpptrace::can_get_safe_object_frame(), "capi:can", ""); return; }
            case 11: { note("terminal"); int fd = (int)r.range(-1, 12); vh::eval(); vh::check(!!ctrace_isatty(fd) == cpptrace::isatty(fd), "capi:isatty", vh::fmt("%d", fd)); vh::check(ctrace_stdin_fileno() == 0 && ctrace_stdout_fileno() == 1 && ctrace_stderr_fileno() == 2, "capi:fileno", ""); return; }
            case 12: note("free"); if(r.chance(1, 2)) drop(traces, s_traces, ctrace_free_stacktrace); else drop(objs, s_objs, ctrace_free_object_trace); drop_string(); return;
            case 13: if(traces.empty()) return; { note("live trace text"); auto& t = r.pick(traces); cpptrace::stacktrace x; for(size_t i = 0; i < t.count; i++) { auto& f = t.frames[i]; x.frames.push_back({f.raw_address, f.object_address, cpptrace::nullable<std::uint32_t>{f.line}, cpptrace::nullable<std::uint32_t>{f.column}, f.filename, f.symbol, (bool)f.is_inline}); } auto s = ctrace_stacktrace_to_string(&t, 0); if(t.frames) same(cs(s.data), x.to_string(false), "to_string"); keep(s); return; }
            case 14: { note("live"); int n = (int)r.below(8); size_t skip = r.chance(1, 3) ? r.below(12) : 0, depth = r.chance(1, 2) ? SIZE_MAX : r.below(12); if(r.chance(1, 20)) skip = SIZE_MAX - r.below(3); static const int kinds[] = {0, 0, 1, 1, 3, 3, 2}; int k = r.pick(kinds); size_t size = r.below(60); chain(n, [&] { live(k, skip, depth, size); }); return; }
        }
    }
    void clear() { while(!traces.empty()) drop(traces, s_traces, ctrace_free_stacktrace); while(!objs.empty()) drop(objs, s_objs, ctrace_free_object_trace); while(!strings.empty()) drop_string(); }
};
int main(int argc, char** argv) {
    vh::init(argc, argv); cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
    pool = {(frame_ptr)&main + 7, (frame_ptr)&chain + 4, (frame_ptr)&live + 9, (frame_ptr)dlsym(RTLD_DEFAULT, "qsort") + 3, (frame_ptr)dlsym(RTLD_DEFAULT, "__cxa_throw") + 2, (frame_ptr)&ctrace_demangle + 5, (frame_ptr)0x10};
    char exe[4096] = {}; (void)!readlink("/proc/self/exe", exe, sizeof exe - 1); paths = {exe, "/nowhere/lib.so", "", "relative.so", "/etc/passwd"};
    auto seed = (std::uint64_t)vh::iarg("seed", 1); long n = vh::iarg("histories", 50); bool fail = vh::iarg("failing", 0);
    if(fail) setenv("C16_MODE", "exit:1", 1);
    auto run = [&](std::uint64_t s) { world w(s); if(fail) cpptrace::absorb_trace_exceptions(w.r.chance(1, 2)); for(int i = 0, k = 10 + (int)w.r.below(60); i < k; i++) { w.step(); if(i % 8 == 7) w.verify(); } w.verify(); w.clear(); vh::distinct(w.history); vh::sample(w.history.substr(0, 300)); return w.history; };
    for(long h = 0; h < n; h++) { run(seed * 1000003 + h); vh::stat("histories"); }
    // the same histories again: everything cached by now, so what is still allocated afterwards was leaked
    long leaks = 0;
    for(long h = 0; h < n; h++) {
        size_t left[4]; string history;
        for(int k = 0; k < 4; k++) { { world w(seed * 1000003 + h); if(fail) cpptrace::absorb_trace_exceptions(w.r.chance(1, 2)); for(int i = 0, m = 10 + (int)w.r.below(60); i < m; i++) w.step(); w.clear(); if(k == 0) history = w.history; } string().swap(what_now); left[k] = live_bytes(); }
        vh::eval(); leaks++; if(exact_bytes && left[3] > left[2] && left[2] > left[1]) vh::violation("capi:leak", vh::fmt("%zu, %zu, %zu bytes allocated after the same history ", left[1], left[2], left[3]) + history);
    }
    vh::stat("leak_checked_histories", leaks);
    return vh::finish();
}
