// C15: histories of traced exception objects (construct, copy, move, assign, throw, store, wrap, query) against a value model.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/exceptions.hpp>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>
using cpptrace::frame_ptr; using std::string; using std::vector; using std::unique_ptr;
#define NI __attribute__((noinline, noipa))
typedef vector<frame_ptr> chain;
static thread_local long fail_in = -1; static long failures; // allocations until one fails
void* operator new(std::size_t n) { if(fail_in >= 0 && fail_in-- == 0) { failures++; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, std::size_t) noexcept { free(p); }
// ---- kinds of exceptions -----------------------------------------------------------------------------------------------------
struct custom : cpptrace::lazy_exception { string text; explicit custom(string t, cpptrace::raw_trace&& r = cpptrace::detail::get_raw_trace_and_absorb()) : lazy_exception(std::move(r)), text(std::move(t)) {} const char* message() const noexcept override { return text.c_str(); } };
struct object { int kind = 0; string message; chain tail; bool in_maker = false; int code = 0; bool specified = true; unique_ptr<cpptrace::exception> e; string trace_text; bool has_text = false; string wrapped; };
static const int KINDS = 14;
extern "C" { extern char __start_makers[] __attribute__((weak)); extern char __stop_makers[] __attribute__((weak)); }
#define MAKER __attribute__((noinline, noipa, section("makers")))
#define HERE cpptrace::generate_raw_trace().frames
#define SIMPLE(X) X(logic_error) X(domain_error) X(invalid_argument) X(length_error) X(out_of_range) X(runtime_error) X(range_error) X(overflow_error) X(underflow_error) X(exception_with_message)
static const char* const names[] = {"logic_error", "domain_error", "invalid_argument", "length_error", "out_of_range", "runtime_error", "range_error", "overflow_error", "underflow_error", "exception_with_message", "lazy_exception", "custom", "nested_exception", "system_error"};
// makers: default trace, and explicit skip
#define X(T) MAKER static cpptrace::exception* make_##T(string&& m, chain& c) { c = HERE; auto p = new cpptrace::T(std::move(m)); asm volatile("" ::: "memory"); return p; } \
    MAKER static cpptrace::exception* makeskip_##T(string&& m, chain& c, size_t skip) { c = HERE; auto p = new cpptrace::T(std::move(m), cpptrace::detail::get_raw_trace_and_absorb(skip)); asm volatile("" ::: "memory"); return p; }
SIMPLE(X)
#undef X
MAKER static cpptrace::exception* make_lazy(chain& c) { c = HERE; auto p = new cpptrace::lazy_exception(); asm volatile("" ::: "memory"); return p; }
MAKER static cpptrace::exception* make_custom(string&& m, chain& c) { c = HERE; auto p = new custom(std::move(m)); asm volatile("" ::: "memory"); return p; }
MAKER static cpptrace::exception* make_nested(const std::exception_ptr& q, chain& c) { c = HERE; auto p = new cpptrace::nested_exception(q); asm volatile("" ::: "memory"); return p; }
MAKER static cpptrace::exception* make_system(int code, string&& m, chain& c) { c = HERE; auto p = new cpptrace::system_error(code, std::move(m)); asm volatile("" ::: "memory"); return p; }
static string journal_text;
static void step(const string& s) { journal_text += s; if(journal_text.size() > 6000) journal_text.erase(0, 3000); vh::journal(journal_text); }
static string text_of(vh::rng& r) { switch(r.below(6)) { case 0: return ""; case 1: return string(r.below(3000), 'm'); case 2: return "with {} and %s and \033[31m\n second line"; case 3: return "short"; case 4: return string("\xff\xfe") + std::to_string(r.below(100)); default: return "message number " + std::to_string(r.below(1000)) + " long enough not to be stored inline"; } }
NI static void construct(vh::rng& r, object& o) {
    o = object(); o.kind = (int)r.below(KINDS); string m = text_of(r); o.message = m; chain c; size_t skip = 0; bool skipping = o.kind < 10 && r.chance(1, 3); if(skipping) switch(r.below(4)) { case 0: skip = r.below(4); break; case 1: skip = SIZE_MAX - r.below(5); break; case 2: skip = 1000; break; default: skip = r.below(30); }
    switch(o.kind) {
        #define X(T) case x_##T: o.e.reset(skipping ? makeskip_##T(std::move(m), c, skip) : make_##T(std::move(m), c)); break;
        enum { 
            #define Y(T) x_##T,
            x_logic_error, x_domain_error, x_invalid_argument, x_length_error, x_out_of_range, x_runtime_error, x_range_error, x_overflow_error, x_underflow_error, x_exception_with_message };
        SIMPLE(X)
        #undef X
        case 10: o.message = "cpptrace::lazy_exception"; o.e.reset(make_lazy(c)); break;
        case 11: o.e.reset(make_custom(std::move(m), c)); break;
        case 12: { std::exception_ptr q; switch(r.below(5)) { case 4: o.specified = false; break; case 0: q = std::make_exception_ptr(std::runtime_error(m)); o.message = "Nested exception: " + m; break; case 1: q = std::make_exception_ptr(42); o.message = "Nested exception holding instance of int"; break; case 2: q = std::make_exception_ptr(string("x")); o.message = "Nested exception holding instance of " + cpptrace::demangle(typeid(string).name()); break; default: q = std::make_exception_ptr(std::bad_alloc()); o.message = "Nested exception: std::bad_alloc"; }
            o.e.reset(make_nested(q, c)); vh::check(static_cast<cpptrace::nested_exception*>(o.e.get())->nested_ptr() == q, "exc:nested-ptr", ""); break; }
        default: { static const int codes[] = {0, 1, 2, 13, 32, 110, -1, 100000, 2147483647}; o.code = r.pick(codes); o.message = m + ": " + std::generic_category().message(o.code); o.e.reset(make_system(o.code, std::move(m), c)); }
    }
    o.in_maker = skip == 0; if(skip < c.size()) o.tail.assign(c.begin() + (long)std::max<size_t>(skip, 1), c.end());
    step(string(" new ") + names[o.kind] + (skipping ? vh::fmt("(skip %zu)", skip) : "")); 
}
#define ALL_KINDS(X) X(0, cpptrace::logic_error) X(1, cpptrace::domain_error) X(2, cpptrace::invalid_argument) X(3, cpptrace::length_error) X(4, cpptrace::out_of_range) X(5, cpptrace::runtime_error) X(6, cpptrace::range_error) X(7, cpptrace::overflow_error) X(8, cpptrace::underflow_error) X(9, cpptrace::exception_with_message) X(10, cpptrace::lazy_exception) X(11, custom) X(12, cpptrace::nested_exception) X(13, cpptrace::system_error)
enum transfer { COPY, MOVE };
static cpptrace::exception* clone(object& o, transfer t) {
    switch(o.kind) {
        #define X(k, T) case k: return t == COPY ? new T(static_cast<const T&>(*o.e)) : new T(static_cast<T&&>(*o.e));
        ALL_KINDS(X)
        #undef X
    } return nullptr;
}
static void assign(object& a, object& b, transfer t) {
    switch(a.kind) {
        #define X(k, T) case k: if(t == COPY) static_cast<T&>(*a.e) = static_cast<const T&>(*b.e); else static_cast<T&>(*a.e) = static_cast<T&&>(*b.e); break;
        ALL_KINDS(X)
        #undef X
    }
}
NI static void throw_it(object& o) {
    switch(o.kind) {
        #define X(k, T) case k: throw static_cast<const T&>(*o.e);
        ALL_KINDS(X)
        #undef X
    }
}
static void take(object& to, const object& from) { to.kind = from.kind; to.message = from.message; to.tail = from.tail; to.in_maker = from.in_maker; to.code = from.code; to.specified = from.specified; to.trace_text = from.trace_text; to.has_text = from.has_text; }
static void check_trace(const cpptrace::stacktrace& s, const chain& tail, bool in_maker, frame_ptr lo, frame_ptr hi, const string& d) {
    chain c; for(auto& f : s.frames) if(!f.is_inline) c.push_back(f.raw_address);
    string text = d + ": got"; for(auto f : c) text += vh::fmt(" %zx", (size_t)f); text += " expected"; for(auto f : tail) text += vh::fmt(" %zx", (size_t)f);
    if(!vh::check(c.size() == tail.size() + (in_maker ? 1 : 0), "exc:trace-length", text)) return;
    for(size_t i = 0; i < tail.size(); i++) if(!vh::check(c[c.size() - 1 - i] == tail[tail.size() - 1 - i], "exc:trace", text)) return;
    if(in_maker) vh::check(c[0] >= lo && c[0] < hi, "exc:trace-first", text);
}
static void query(vh::rng& r, object& o, const cpptrace::exception& e) {
    int order = (int)r.below(6); vh::eval(); vh::stat("queries");
    for(int k = 0; k < 3; k++) {
        int what = (order + k * (order < 3 ? 1 : 2)) % 3; step(vh::fmt(" %s", what == 0 ? "what" : what == 1 ? "message" : "trace"));
        if(!o.specified) { if(what == 0) (void)strlen(e.what()); else if(what == 1) (void)strlen(e.message()); else (void)e.trace().frames.size(); continue; }
        string d = string(names[o.kind]) + " '" + o.message + "' after" + journal_text.substr(journal_text.size() > 500 ? journal_text.size() - 500 : 0);
        if(what == 1) { string m = e.message(); vh::check(m == o.message, "exc:message", d + ": message '" + m + "'"); }
        else if(what == 2) { auto& t = e.trace(); check_trace(t, o.tail, o.in_maker, (frame_ptr)__start_makers, (frame_ptr)__stop_makers, d); vh::check(&t == &e.trace(), "exc:trace-stable", d); string s = t.to_string(); if(o.has_text) vh::check(s == o.trace_text, "exc:trace-changes", d + ": '" + s + "' was '" + o.trace_text + "'"); o.trace_text = s; o.has_text = true; }
        else { string w = e.what(); const char* p = e.what(); vh::check(p == e.what() && w == p, "exc:what-stable", d); string want = o.message + ":\n" + e.trace().to_string(); vh::check(w == want, "exc:what", d + ": what '" + w + "' expected '" + want + "'"); }
    }
    if(o.kind == 13 && o.specified) vh::check(static_cast<const cpptrace::system_error&>(e).code() == std::error_code(o.code, std::generic_category()), "exc:code", vh::fmt("%d", o.code));
}
static void history(vh::rng& r, int steps) {
    journal_text.clear(); vector<object> pool(4); string shape;
    for(auto& o : pool) construct(r, o);
    for(int i = 0; i < steps; i++) {
        size_t a = r.below(pool.size()), b = r.below(pool.size()); unsigned op = (unsigned)r.below(20);
        if(op < 5) { query(r, pool[a], *pool[a].e); shape += 'q'; }
        else if(op < 6) { construct(r, pool[a]); shape += 'n'; }
        else if(op < 8) { if(a == b) continue; step(" copy"); object o; take(o, pool[b]); o.e.reset(clone(pool[b], COPY)); pool[a] = std::move(o); shape += 'c'; }
        else if(op < 9) { if(a == b) continue; step(" move"); object o; take(o, pool[b]); o.e.reset(clone(pool[b], MOVE)); pool[a] = std::move(o); pool[b].specified = false; shape += 'm'; }
        else if(op < 14) { // assignment between objects of one type, or to itself
            if(pool[a].kind != pool[b].kind) { object o; take(o, pool[b]); o.e.reset(clone(pool[b], COPY)); if(r.chance(1, 2)) query(r, o, *o.e); string keep = o.message; pool[a] = std::move(o); }
            bool self = r.chance(1, 3); size_t src = self ? a : b; step(self ? " self-assign" : " assign"); assign(pool[a], pool[src], COPY); if(!self) take(pool[a], pool[src]); shape += self ? 's' : 'a'; if(self) vh::stat("self_assignments"); }
        else if(op < 15) { if(a == b) { step(" self-move"); assign(pool[a], pool[a], MOVE); pool[a].specified = false; shape += 'S'; } else if(pool[a].kind == pool[b].kind) { step(" move-assign"); assign(pool[a], pool[b], MOVE); take(pool[a], pool[b]); pool[b].specified = false; shape += 'M'; } }
        else if(op < 18) { // through a throw, by reference, by value, or stored
            step(" throw"); unsigned how = (unsigned)r.below(3); object& o = pool[a]; shape += 't';
            if(how == 0) { try { throw_it(o); } catch(const cpptrace::exception& e) { query(r, o, e); } }
            else if(how == 1) { std::exception_ptr p; try { throw_it(o); } catch(...) { p = std::current_exception(); } auto q = p; p = nullptr; for(int k = 0; k < 2; k++) try { std::rethrow_exception(q); } catch(const std::exception& e) { auto& c = dynamic_cast<const cpptrace::exception&>(e); query(r, o, c); } }
            else { object copy; take(copy, o); try { throw_it(o); } catch(cpptrace::lazy_exception& e) { switch(o.kind) {
                #define X(k, T) case k: copy.e.reset(new T(static_cast<T&>(e))); break;
                ALL_KINDS(X)
                #undef X
                } } query(r, copy, *copy.e); pool[b] = std::move(copy); }
        } else if(op < 19 && pool[a].kind == pool[b].kind && a != b) { // an assignment that runs out of memory in the middle
            step(" failing-assign"); failures = 0; bool failed = false; long in = (long)r.below(14); try { fail_in = in; assign(pool[a], pool[b], COPY); fail_in = -1; } catch(const std::bad_alloc&) { fail_in = -1; failed = true; } if(failed) { pool[a].specified = false; vh::stat("failed_assignments"); (void)pool[a].e->message(); } else take(pool[a], pool[b]); shape += 'f';
        } else { step(" failing-copy"); object o; take(o, pool[b]); cpptrace::exception* p = nullptr; long in = (long)r.below(14); try { fail_in = in; p = clone(pool[b], COPY); fail_in = -1; } catch(const std::bad_alloc&) { fail_in = -1; vh::stat("failed_copies"); } if(p) { o.e.reset(p); pool[a] = std::move(o); } shape += 'g'; }
    }
    for(auto& o : pool) query(r, o, *o.e);
    vh::distinct(shape + names[pool[0].kind]);
}
// ---- wrapping --------------------------------------------------------------------------------------------------------------------
extern "C" { extern char __start_wrappers[] __attribute__((weak)); extern char __stop_wrappers[] __attribute__((weak)); }
#define WRAPPER __attribute__((noinline, noipa, section("wrappers")))
static chain wrap_chain; static const void* thrown_at;
struct pod_t { int v; };
struct derived_traced : cpptrace::runtime_error { int extra; explicit derived_traced(int x) : cpptrace::runtime_error("derived"), extra(x) {} };
NI static void thrower(int what) {
    switch(what) { case 0: throw std::runtime_error("inner"); case 1: throw 17; case 2: throw pod_t{5}; case 3: throw cpptrace::logic_error("traced"); case 4: throw derived_traced(9); case 5: vector<int>(2).at(4); throw 0; case 6: throw "literal"; default: break; }
}
WRAPPER static void wrap_direct(int what, size_t skip) { wrap_chain = HERE; try { thrower(what); } catch(...) { cpptrace::rethrow_and_wrap_if_needed(skip); } asm volatile("" ::: "memory"); }
WRAPPER static void wrap_block(int what) { wrap_chain = HERE; CPPTRACE_WRAP_BLOCK(thrower(what); ); asm volatile("" ::: "memory"); }
WRAPPER static int wrap_expr(int what) { wrap_chain = HERE; int r = CPPTRACE_WRAP((thrower(what), 3)); asm volatile("" ::: "memory"); return r; }
NI static void wrap_nested(int what, int levels) { if(levels == 0) thrower(what); else { try { wrap_nested(what, levels - 1); } catch(...) { cpptrace::rethrow_and_wrap_if_needed(); } } asm volatile(""); }
static const char* const inner_messages[] = {"Nested exception: inner", "Nested exception holding instance of int", "Nested exception holding instance of pod_t", nullptr, nullptr, "Nested exception: vector::_M_range_check: __n (which is 4) >= this->size() (which is 2)", "Nested exception holding instance of char const*"};
NI static void wrapping(vh::rng& r, int n) {
    for(int i = 0; i < n; i++) {
        int what = (int)r.below(7), how = (int)r.below(4); size_t skip = 0; if(how == 0) switch(r.below(4)) { case 0: skip = 0; break; case 1: skip = r.below(8); break; case 2: skip = SIZE_MAX - r.below(4); break; default: skip = 500; }
        string d = vh::fmt("exception %d wrapped by %s skip %zu", what, how == 0 ? "rethrow_and_wrap_if_needed" : how == 1 ? "WRAP_BLOCK" : how == 2 ? "WRAP" : "nested wrappers", skip); vh::journal(d); vh::eval(); vh::stat("wrapped"); vh::distinct(d);
        bool caught = false;
        try { switch(how) { case 0: wrap_direct(what, skip); break; case 1: wrap_block(what); break; case 2: (void)wrap_expr(what); break; default: wrap_nested(what, 1 + (int)r.below(3)); } }
        catch(const cpptrace::nested_exception& e) {
            caught = true; if(!vh::check(inner_messages[what] != nullptr, "exc:wrapped-traced", d)) continue;
            vh::check(string(e.message()) == inner_messages[what], "exc:wrap-message", d + ": " + e.message());
            try { std::rethrow_exception(e.nested_ptr()); } catch(const cpptrace::exception&) { vh::violation("exc:wrap-wrapped-again", d); } catch(const std::exception& x) { vh::check((what == 0 && !strcmp(x.what(), "inner")) || what == 5, "exc:wrap-inner", d); } catch(int v) { vh::check(what == 1 && v == 17, "exc:wrap-inner", d); } catch(const pod_t& v) { vh::check(what == 2 && v.v == 5, "exc:wrap-inner", d); } catch(const char* v) { vh::check(what == 6 && !strcmp(v, "literal"), "exc:wrap-inner", d); }
            if(how == 0 || how == 1) { chain tail; if(skip < wrap_chain.size()) tail.assign(wrap_chain.begin() + (long)std::max<size_t>(skip, 1), wrap_chain.end()); check_trace(e.trace(), tail, skip == 0, (frame_ptr)__start_wrappers, (frame_ptr)__stop_wrappers, d); }
            else if(how == 2) { // the lambda may be merged into its function
                chain c; for(auto& f : e.trace().frames) if(!f.is_inline) c.push_back(f.raw_address); size_t want = wrap_chain.size(); vh::check(c.size() + 1 >= want && c.size() <= want, "exc:wrap-trace", d + vh::fmt(": %zu frames of %zu", c.size(), want)); for(size_t k = 0; k + 1 < want && k < c.size(); k++) if(!vh::check(c[c.size() - 1 - k] == wrap_chain[want - 1 - k], "exc:wrap-trace", d)) break; }
            vh::check(string(e.what()) == string(e.message()) + ":\n" + e.trace().to_string(), "exc:what", d);
        } catch(const derived_traced& e) { caught = true; vh::check(what == 4 && e.extra == 9, "exc:wrap-traced", d); }
        catch(const cpptrace::exception& e) { caught = true; vh::check(what == 3 && !strcmp(e.message(), "traced"), "exc:wrap-traced", d); }
        catch(...) { caught = true; vh::violation("exc:not-wrapped", d); }
        vh::check(caught, "exc:wrap-swallowed", d);
        if(r.chance(1, 4)) { int v = CPPTRACE_WRAP(5); vh::check(v == 5, "exc:wrap-value", ""); int x = 1; int& y = CPPTRACE_WRAP(x); vh::check(&y == &x, "exc:wrap-reference", ""); }
    }
}
NI static void deep(vh::rng& r, int levels, int steps) { if(levels) { deep(r, levels - 1, steps); asm volatile(""); } else { history(r, steps); wrapping(r, 4); } }
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1));
    for(long i = 0, n = vh::iarg("histories", 100); i < n; i++) {
        if(i % 10 == 9) { std::uint64_t s = r.next(); std::thread([&] { vh::rng q(s); deep(q, (int)q.below(10), 25); }).join(); } else deep(r, (int)r.below(12), 25);
        if(i < 3) vh::sample(journal_text);
    }
    return vh::finish();
}
