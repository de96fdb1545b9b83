// C12/C13: random programs of nested tries, throws, rethrows and destructors, run with the tracing facility under a model of its
// state machine (C12), and run again with plain try/catch to compare everything the program can see (C13).
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <dlfcn.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <unwind.h>
using cpptrace::frame_ptr; using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
typedef vector<frame_ptr> chain;
struct machine;
static thread_local machine* mp;
static void log_copy(const char* what, int id);
static std::atomic<int> live; // exception objects alive
// ---- what is thrown -------------------------------------------------------------------------------------------------------
struct A { int id; explicit A(int i) : id(i) { live++; } A(const A& o) : id(o.id) { live++; log_copy("A", id); } A(A&& o) : id(o.id) { live++; } virtual ~A() { live--; } };
struct B : A { using A::A; long pad = 3; };
struct V { int id = 0; V() { live++; } V(const V& o) : id(o.id) { live++; log_copy("V", id); } V(V&& o) : id(o.id) { live++; } virtual ~V() { live--; } };
struct L : virtual V { long l = 1; }; struct R : virtual V { long r = 2; };
struct J : L, R { explicit J(int i) { id = i; } };
struct B1 : A { using A::A; }; struct B2 : A { using A::A; };
struct M : B1, B2 { explicit M(int i) : B1(i), B2(i) {} };
struct P : private A { explicit P(int i) : A(i) {} int get() const { return id; } };
enum class E { zero }; enum F : unsigned char { f0 };
namespace { struct hidden { int id; }; }
static B pointees[] = {B(0), B(1), B(2), B(3)}; static void plain_fn() {} static void noexcept_fn() noexcept {}
struct std_err : std::runtime_error { int id; explicit std_err(int i) : std::runtime_error("std " + std::to_string(i)), id(i) {} };
typedef void (*fnp)(); typedef void (*nfnp)() noexcept; typedef int A::*memp;
typedef std::tuple<int, A, B, J, M, P, B*, const A*, std::nullptr_t, std_err, std::out_of_range, const char*, string, E, F, nfnp, memp, hidden, std::bad_cast, void*, long> thrown;
typedef std::tuple<int, const int&, A, A&, const A&, B&, const B&, V, const V&, L&, J, M&, const P&, A*, const A*, B*, void*, const void*, std::exception&, const std::exception&, std::runtime_error,
    const std::logic_error&, const char*, string&, E, F, fnp, memp, std::nullptr_t, const hidden&, A* const&, std_err&, const B1&, long, nfnp> catchers;
static const int NT = std::tuple_size<thrown>::value, NC = std::tuple_size<catchers>::value, ALL = NC; // handler number ALL is catch(...)
template<typename T, typename H> constexpr bool matches() {
    using C = std::remove_cv_t<std::remove_reference_t<H>>;
    if constexpr(std::is_same<T, C>::value) return true;
    else if constexpr(std::is_class<T>::value && std::is_class<C>::value) return std::is_base_of<C, T>::value && std::is_convertible<T*, C*>::value;
    else if constexpr(std::is_same<T, std::nullptr_t>::value) return std::is_pointer<C>::value || std::is_member_pointer<C>::value;
    else if constexpr(std::is_pointer<T>::value && std::is_pointer<C>::value) return std::is_convertible<T, C>::value;
    else return false;
}
static bool table[NT][NC + 1];
template<typename T, size_t... h> static void fill_row(bool* row, std::index_sequence<h...>) { int x[] = {(row[h] = matches<T, std::tuple_element_t<h, catchers>>(), 0)...}; (void)x; row[NC] = true; }
template<size_t... t> static void fill(std::index_sequence<t...>) { int x[] = {(fill_row<std::tuple_element_t<t, thrown>>(table[t], std::make_index_sequence<NC>()), 0)...}; (void)x; }
static string ident(int i) { return std::to_string(i); } static string ident(long i) { return std::to_string(i); } static string ident(const A& a) { return vh::fmt("A%d", a.id); } static string ident(const V& a) { return vh::fmt("V%d", a.id); }
static string ident(const M& a) { return vh::fmt("M%d", static_cast<const B1&>(a).id); } static string ident(const P& a) { return vh::fmt("P%d", a.get()); } static string ident(const A* a) { return a ? vh::fmt("*%d", a->id) : "null"; }
static string ident(const void* a) { return a ? "void*" : "null"; } static string ident(const std::exception& e) { return string(typeid(e).name()) + e.what(); } static string ident(const char* s) { return s ? s : "null"; } static string ident(const string& s) { return s; }
static string ident(E) { return "E"; } static string ident(F) { return "F"; } static string ident(fnp p) { return p ? "fn" : "null"; } static string ident(memp p) { return p ? "mem" : "null"; } static string ident(std::nullptr_t) { return "nullptr"; } static string ident(const hidden& h) { return vh::fmt("h%d", h.id); }
static const void* where(const A& a) { return &a; } static const void* where(const V& a) { return &a; } static const void* where(const std::exception& a) { return &a; } static const void* where(const M& m) { return &m; } template<typename T> static const void* where(const T&) { return nullptr; }

// ---- programs ---------------------------------------------------------------------------------------------------------------
enum op_t { SEQ, CALL, THROW, TRY_PLAIN, TRY_MACRO, TRY_LIST, GUARD, RETHROW_LANG, RETHROW_LIB, RETHROW_LIB_PTR, STORE, RETHROW_STORED, RETHROW_STORED_LIB, QUERY, CLEAR, RETURN_TRY, LOOP_TRY, RESOLVE, NOPS };
struct node { op_t op; int a = 0, b = 0; vector<node> k; };
static const int NLISTS = 48;
constexpr unsigned mix(unsigned x) { x = (x + 0x9e3779b9u) * 2654435761u; x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; return x; }
constexpr int list_len(int i) { return 2 + i % 3; }
constexpr int list_at(int i, int j) { return j == list_len(i) - 1 && i % 4 == 0 ? ALL : (int)(mix((unsigned)(i * 7 + j)) % NC); }
static node gen(vh::rng& r, int depth, bool in_handler) {
    node n; auto kids = [&](int c, bool h) { while(c-- > 0) n.k.push_back(gen(r, depth - 1, h)); };
    unsigned x = depth <= 0 ? (unsigned)r.below(45) : (unsigned)r.below(100);
    if(x < 16) { n.op = THROW; n.a = (int)r.below(NT); }
    else if(x < 24) n.op = QUERY;
    else if(x < 26) n.op = CLEAR;
    else if(x < 28) n.op = STORE;
    else if(x < 31) n.op = RETHROW_LANG;
    else if(x < 36) n.op = RETHROW_LIB;
    else if(x < 38) n.op = RETHROW_LIB_PTR;
    else if(x < 40) n.op = RETHROW_STORED;
    else if(x < 43) n.op = RETHROW_STORED_LIB;
    else if(x < 45) n.op = RESOLVE;
    else if(x < 54) { n.op = SEQ; kids((int)r.below(4) + 1, in_handler); }
    else if(x < 64) { n.op = CALL; n.a = (int)r.below(5); kids(1, in_handler); }
    else if(x < 70) { n.op = TRY_PLAIN; n.a = (int)r.below(NC + 1); if(r.chance(1, 3)) n.a = ALL; kids(1, false); kids((int)r.below(3), true); }
    else if(x < 83) { n.op = TRY_MACRO; n.a = (int)r.below(NC + 1); if(r.chance(1, 3)) n.a = ALL; kids(1, false); kids((int)r.below(3) + 1, true); }
    else if(x < 92) { n.op = TRY_LIST; n.a = (int)r.below(NLISTS); kids(1, false); kids((int)r.below(3) + 1, true); }
    else if(x < 96) { n.op = GUARD; kids(2, in_handler); }
    else if(x < 98) { n.op = RETURN_TRY; kids(1, false); }
    else { n.op = LOOP_TRY; kids(1, false); }
    // something that is likely to throw something likely to be caught
    if((n.op == TRY_PLAIN || n.op == TRY_MACRO || n.op == TRY_LIST) && r.chance(2, 3)) {
        int h = n.op == TRY_LIST ? list_at(n.a, (int)r.below(list_len(n.a))) : n.a; vector<int> ok; for(int t = 0; t < NT; t++) if(table[t][h]) ok.push_back(t);
        if(!ok.empty()) { node t; t.op = THROW; t.a = ok[r.below(ok.size())]; node c; c.op = CALL; c.a = (int)r.below(5); c.k.push_back(t); node s; s.op = SEQ; s.k = {n.k[0], c}; n.k[0] = s; }
    }
    return n;
}
static string show(const node& n) {
    static const char* names[] = {"", "call", "throw", "try", "TRY", "try_catch", "guard", "throw;", "cpptrace::rethrow", "cpptrace::rethrow(current)", "store", "rethrow-stored", "cpptrace::rethrow(stored)", "query", "clear", "TRY-return", "TRY-loop", "resolve"};
    string s = names[n.op]; if(n.op == THROW || n.op == TRY_PLAIN || n.op == TRY_MACRO || n.op == TRY_LIST) s += std::to_string(n.a);
    if(!n.k.empty()) { s += "{"; for(auto& k : n.k) { s += show(k); s += ";"; } s += "}"; } return s;
}

// ---- the machine -------------------------------------------------------------------------------------------------------------
struct entry { bool tracing; vector<int> handlers; bool sibling; };
struct thrown_info { int type; };
struct point { bool set = false; chain tail; frame_ptr lo = 0, hi = 0; string what; };
struct machine {
    bool tracing = true, can_resolve = false, execinfo = false; vector<string> log; vector<entry> shadow; int budget = 0, next_id = 0; string prog;
    std::exception_ptr stored; int stored_type = -1;
    vector<int> handling; // types being handled, innermost last
    point current, rethrow; bool current_resolved = false, rethrow_resolved = false;
    long throws = 0, captures = 0, queries = 0;
    void add(const string& s) { log.push_back(s); }
};
static void log_copy(const char* what, int id) { if(mp) mp->add(vh::fmt("copy %s%d", what, id)); }
static frame_ptr exe_a, exe_b;
static bool in_exe(frame_ptr p) { return p >= exe_a && p < exe_b; }
static string text(const chain& c) { string s; for(auto f : c) s += vh::fmt(" %zx", (size_t)f); return s; }
static void compare(const chain& got, const point& want, const char* which) {
    auto& m = *mp; m.queries++;
    string d = string(which) + ", program " + m.prog + ": got" + text(got) + "; expected chain" + text(want.tail) + " after a frame of " + want.what;
    if(!want.set) { vh::check(got.empty(), string("current:") + which + ":not-empty", d); return; }
    if(!vh::check(!got.empty(), string("current:") + which + ":missing", d)) return;
    size_t t = want.tail.size();
    if(!vh::check(got.size() > t, string("current:") + which + ":too-short", d)) return;
    for(size_t i = 0; i < t; i++) if(!vh::check(got[got.size() - 1 - i] == want.tail[t - 1 - i], string("current:") + which + ":chain", d)) return;
    frame_ptr f = got[got.size() - 1 - t];
    if(!vh::check(f >= want.lo && f < want.hi, string("current:") + which + ":throw-point", d + vh::fmt(" (%zx not in %zx-%zx)", (size_t)f, (size_t)want.lo, (size_t)want.hi))) return;
    size_t own = 0; for(size_t i = 0; i + t + 1 < got.size(); i++) own += in_exe(got[i]);
    vh::check(own <= (string(which) == "rethrow" ? 1 : 0), string("current:") + which + ":extra-frames", d);
}
static chain addresses(const cpptrace::stacktrace& s) { chain c; for(auto& f : s.frames) if(!f.is_inline) c.push_back(f.raw_address); return c; }
static void query(bool resolve) {
    auto& m = *mp; if(!m.tracing) return;
    if(resolve && m.can_resolve) { m.current_resolved = true; m.rethrow_resolved = true; }
    if(m.current_resolved) { chain c = addresses(cpptrace::from_current_exception()); compare(c, m.current, "throw"); }
    else compare(cpptrace::raw_trace_from_current_exception().frames, m.current, "throw");
    bool was = cpptrace::current_exception_was_rethrown();
    vh::check(was == m.rethrow.set, "current:was-rethrown", m.prog + vh::fmt(": %d, expected %d", was, m.rethrow.set));
    if(m.rethrow_resolved) { chain c = addresses(cpptrace::from_current_exception_rethrow()); compare(c, m.rethrow, "rethrow"); }
    else compare(cpptrace::raw_trace_from_current_exception_rethrow().frames, m.rethrow, "rethrow");
}
// which handler an exception of this type reaches; -2: one of the handlers listed after the running one in the same try_catch
static int target(int type) { auto& s = mp->shadow; for(int i = (int)s.size() - 1; i >= 0; i--) for(int h : s[(size_t)i].handlers) if(table[type][h]) return s[(size_t)i].sibling ? -2 : i; return -1; }
// announce a throw; false: the throw must not happen
enum how_t { FRESH, LIB };
static bool may_throw(int type) { auto& m = *mp; if(m.budget-- <= 0) return false; int t = target(type); if(t == -2) { vh::stat("throws_avoided_for_listed_siblings"); return false; } return t >= 0; }
static void announce(int type, how_t how, const chain& c, frame_ptr lo, frame_ptr hi, const string& what) {
    auto& m = *mp; m.throws++; int t = target(type); if(!m.tracing || !m.shadow[(size_t)t].tracing) return;
    m.captures++; point p; p.set = true; p.tail.assign(c.begin() + 1, c.end()); p.lo = lo; p.hi = hi; p.what = what;
    if(how == FRESH) { m.current = p; m.current_resolved = false; m.rethrow = point(); m.rethrow_resolved = false; } else { m.rethrow = p; m.rethrow_resolved = false; }
}
#define HERE cpptrace::generate_raw_trace().frames
// one section per throwing function: its extent is known
#define THROWER(name) extern "C" { extern char __start_##name[] __attribute__((weak)); extern char __stop_##name[] __attribute__((weak)); }
#define IN(name) __attribute__((noinline, noipa, section(#name)))
#define EXTENT(name) (frame_ptr)__start_##name, (frame_ptr)__stop_##name
THROWER(thr_fresh) THROWER(thr_lang) THROWER(thr_lib) THROWER(thr_libptr) THROWER(thr_stored) THROWER(thr_storedlib)
#define T(t, what) IN(thr_fresh) static void throw_##t(int id) { (void)id; { chain c = HERE; announce(t, FRESH, c, EXTENT(thr_fresh), "throw type " #t); } asm volatile("" ::: "memory"); what; }
T(0, throw (int)id)
T(1, throw A(id))
T(2, throw B(id))
T(3, throw J(id))
T(4, throw M(id))
T(5, throw P(id))
T(6, throw &pointees[id % 4])
T(7, throw (const A*)&pointees[id % 4])
T(8, throw nullptr)
T(9, throw std_err(id))
T(10, { vector<int> v(3); v.at((size_t)id + 3); throw 0; })
T(11, throw (const char*)"text")
T(12, throw string("string ") + std::to_string(id))
T(13, throw E::zero)
T(14, throw f0)
T(15, throw (nfnp)noexcept_fn)
T(16, throw (memp)&A::id)
T(17, throw hidden{id})
T(18, { A* volatile a = &pointees[0]; (void)dynamic_cast<B1&>(*a); throw 0; })
T(19, throw (void*)&pointees[id % 4])
T(20, throw (long)id)
typedef void (*throw_fn)(int);
static const throw_fn throwers[] = {throw_0, throw_1, throw_2, throw_3, throw_4, throw_5, throw_6, throw_7, throw_8, throw_9, throw_10, throw_11, throw_12, throw_13, throw_14, throw_15, throw_16, throw_17, throw_18, throw_19, throw_20};
static void note_current() { auto p = std::current_exception(); mp->add(vh::fmt("current %s uncaught %d", p ? p.__cxa_exception_type()->name() : "none", std::uncaught_exceptions())); }
IN(thr_lang) static void do_lang(int type) { { chain c = HERE; announce(type, FRESH, c, EXTENT(thr_lang), "throw;"); } asm volatile("" ::: "memory"); throw; }
IN(thr_lib) static void do_lib(int type) { { chain c = HERE; announce(type, LIB, c, EXTENT(thr_lib), "cpptrace::rethrow()"); } asm volatile("" ::: "memory"); if(mp->tracing) cpptrace::rethrow(); else std::rethrow_exception(std::current_exception()); }
IN(thr_libptr) static void do_libptr(int type, std::exception_ptr p) { { chain c = HERE; announce(type, LIB, c, EXTENT(thr_libptr), "cpptrace::rethrow(ptr)"); } asm volatile("" ::: "memory"); if(mp->tracing) cpptrace::rethrow(std::move(p)); else std::rethrow_exception(std::move(p)); }
IN(thr_stored) static void do_stored(int type, std::exception_ptr p) { { chain c = HERE; announce(type, FRESH, c, EXTENT(thr_stored), "std::rethrow_exception"); } asm volatile("" ::: "memory"); std::rethrow_exception(std::move(p)); }

static void exec(node& n);
static void exec_all(vector<node>& k, size_t from) { for(size_t i = from; i < k.size(); i++) exec(k[i]); }
struct call_base { virtual ~call_base() {} virtual void go(node& n) = 0; }; struct call_derived : call_base { NI void go(node& n) override { exec(n); asm volatile(""); } };
NI static void call_plain(node& n) { exec(n); asm volatile(""); }
NI static int call_args(node& n, int a, double b, long c, long d, long e, long f, long g) { exec(n); return (int)(a + b + (double)(c + d + e + f + g)); }
NI static void call_recurse(node& n, int k) { string local(40, 'x'); asm volatile("" :: "r"(local.data()) : "memory"); if(k) call_recurse(n, k - 1); else exec(n); asm volatile(""); }
static thread_local node* sort_node; static int sort_cmp(const void*, const void*) { if(node* n = sort_node) { sort_node = nullptr; exec(*n); } return 0; }
struct guard_t { node& n; size_t level; int id; guard_t(node& n_, size_t l, int i) : n(n_), level(l), id(i) {} 
    NI ~guard_t() { auto& m = *mp; m.shadow.resize(std::min(level, m.shadow.size())); auto handling = m.handling; m.handling.clear(); m.add(vh::fmt("dtor %d uncaught %d", id, std::uncaught_exceptions())); m.shadow.push_back({false, {ALL}, false}); size_t l = m.shadow.size() - 1;
        try { exec(n); } catch(...) { m.shadow.resize(l); m.add(vh::fmt("caught in dtor %d", id)); note_current(); } m.shadow.resize(l); m.handling = handling; } };
template<typename H> static void handler(node& n, size_t level, size_t handling, int h, int type_hint, H&& e, const vector<int>& siblings) {
    auto& m = *mp; m.shadow.resize(level); m.handling.resize(handling); (void)type_hint;
    m.add(vh::fmt("handler %d object ", h) + ident(e)); note_current();
    // the type being handled, for rethrows
    auto p = std::current_exception(); int type = -1; static const std::type_info* infos[] = {&typeid(int), &typeid(A), &typeid(B), &typeid(J), &typeid(M), &typeid(P), &typeid(B*), &typeid(const A*), &typeid(std::nullptr_t), &typeid(std_err), &typeid(std::out_of_range), &typeid(const char*), &typeid(string), &typeid(E), &typeid(F), &typeid(nfnp), &typeid(memp), &typeid(hidden), &typeid(std::bad_cast), &typeid(void*), &typeid(long)};
    for(int i = 0; i < NT; i++) if(*infos[i] == *p.__cxa_exception_type()) type = i;
    m.handling.push_back(type);
    if(!siblings.empty()) m.shadow.push_back({false, siblings, true});
    query(false);
    exec_all(n.k, 1); query(false);
    m.shadow.resize(level); m.handling.resize(handling);
}
struct nothing {}; static string ident(const nothing&) { return "..."; }
template<int h> struct single {
    using H = std::tuple_element_t<h, catchers>;
    NI static void plain(node& n) { auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({false, {h}, false}); try { exec(n.k[0]); } catch(H e) { handler(n, l, hl, h, 0, e, {}); } m.shadow.resize(l); m.handling.resize(hl); }
    NI static void macro(node& n) { auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({true, {h}, false}); CPPTRACE_TRY { exec(n.k[0]); } CPPTRACE_CATCH(H e) { handler(n, l, hl, h, 0, e, {}); } m.shadow.resize(l); m.handling.resize(hl); }
};
template<> struct single<ALL> {
    NI static void plain(node& n) { auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({false, {ALL}, false}); try { exec(n.k[0]); } catch(...) { handler(n, l, hl, ALL, 0, nothing(), {}); } m.shadow.resize(l); m.handling.resize(hl); }
    NI static void macro(node& n) { auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({true, {ALL}, false}); CPPTRACE_TRY { exec(n.k[0]); } CPPTRACE_CATCH(...) { handler(n, l, hl, ALL, 0, nothing(), {}); } m.shadow.resize(l); m.handling.resize(hl); }
};
template<size_t... h> static void run_single(bool macro, node& n, std::index_sequence<h...>) { static void (*const p[])(node&) = {single<(int)h>::plain...}; static void (*const q[])(node&) = {single<(int)h>::macro...}; (macro ? q : p)[n.a](n); }
template<int x, bool all> struct sel { using type = std::tuple_element_t<x, catchers>; }; template<int x> struct sel<x, true> { using type = nothing; };
template<int i, int j> struct ht { static const int h = list_at(i, j); using H = typename sel<h == ALL ? 0 : h, h == ALL>::type; };
template<int i> static vector<int> rest(int j) { vector<int> v; for(int k = j + 1; k < list_len(i); k++) v.push_back(list_at(i, k)); return v; }
#define HND(j) handler(n, l, hl, ht<i, j>::h, 0, e, rest<i>(j))
template<int i> NI static void list_plain(node& n) {
    auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({true, rest<i>(-1), false});
    constexpr int N = list_len(i); constexpr bool all = list_at(i, N - 1) == ALL; 
    typedef typename ht<i, 0>::H H0; typedef typename ht<i, (N > 1) ? 1 : 0>::H H1; typedef typename ht<i, (N > 2) ? 2 : 0>::H H2; typedef typename ht<i, (N > 3) ? 3 : 0>::H H3;
    if constexpr(N == 2 && all) { try { exec(n.k[0]); } catch(H0 e) { HND(0); } catch(...) { nothing e; HND(1); } }
    else if constexpr(N == 2) { try { exec(n.k[0]); } catch(H0 e) { HND(0); } catch(H1 e) { HND(1); } }
    else if constexpr(N == 3 && all) { try { exec(n.k[0]); } catch(H0 e) { HND(0); } catch(H1 e) { HND(1); } catch(...) { nothing e; HND(2); } }
    else if constexpr(N == 3) { try { exec(n.k[0]); } catch(H0 e) { HND(0); } catch(H1 e) { HND(1); } catch(H2 e) { HND(2); } }
    else if constexpr(all) { try { exec(n.k[0]); } catch(H0 e) { HND(0); } catch(H1 e) { HND(1); } catch(H2 e) { HND(2); } catch(...) { nothing e; HND(3); } }
    else { try { exec(n.k[0]); } catch(H0 e) { HND(0); } catch(H1 e) { HND(1); } catch(H2 e) { HND(2); } catch(H3 e) { HND(3); } }
    m.shadow.resize(l); m.handling.resize(hl);
}
template<int i, int j> static auto list_handler(node& n, size_t l, size_t hl) {
    if constexpr(list_at(i, j) == ALL) return [&n, l, hl]() { nothing e; HND(j); }; else return [&n, l, hl](typename ht<i, j>::H e) { HND(j); };
}
template<int i> NI static void list_traced(node& n) {
    auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({true, rest<i>(-1), false}); constexpr int N = list_len(i); auto f = [&] { exec(n.k[0]); };
    if constexpr(N == 2) cpptrace::try_catch(f, list_handler<i, 0>(n, l, hl), list_handler<i, 1>(n, l, hl));
    else if constexpr(N == 3) cpptrace::try_catch(f, list_handler<i, 0>(n, l, hl), list_handler<i, 1>(n, l, hl), list_handler<i, 2>(n, l, hl));
    else cpptrace::try_catch(f, list_handler<i, 0>(n, l, hl), list_handler<i, 1>(n, l, hl), list_handler<i, 2>(n, l, hl), list_handler<i, 3>(n, l, hl));
    m.shadow.resize(l); m.handling.resize(hl);
}
template<size_t... i> static void run_list(bool traced, node& n, std::index_sequence<i...>) { static void (*const p[])(node&) = {list_plain<(int)i>...}; static void (*const q[])(node&) = {list_traced<(int)i>...}; (traced ? q : p)[n.a](n); }
NI static int return_try(node& n) {
    auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); m.shadow.push_back({true, {ALL}, false}); struct out { machine& m; size_t l, hl; ~out() { m.shadow.resize(l); m.handling.resize(hl); } } o{m, l, hl};
    if(m.tracing) { CPPTRACE_TRY { exec(n.k[0]); return 7; } CPPTRACE_CATCH(...) { m.shadow.resize(l); return 8; } } else { try { exec(n.k[0]); return 7; } catch(...) { m.shadow.resize(l); return 8; } }
    return 9;
}
NI static int loop_try(node& n) {
    auto& m = *mp; size_t l = m.shadow.size(), hl = m.handling.size(); int rounds = 0;
    for(int i = 0; i < 4; i++) {
        m.shadow.resize(l); m.handling.resize(hl); m.shadow.push_back({true, {3}, false}); // A&
        if(m.tracing) { CPPTRACE_TRY { rounds++; if(i == 1) continue; exec(n.k[0]); if(i == 2) break; } CPPTRACE_CATCH(A& a) { rounds += 10 + a.id % 2; } } else { try { rounds++; if(i == 1) continue; exec(n.k[0]); if(i == 2) break; } catch(A& a) { rounds += 10 + a.id % 2; } }
    }
    m.shadow.resize(l); m.handling.resize(hl); return rounds;
}
NI static void exec(node& n) {
    auto& m = *mp; if(m.budget <= 0) return;
    int handling = m.handling.empty() ? -1 : m.handling.back();
    switch(n.op) {
        case SEQ: exec_all(n.k, 0); break;
        case CALL: switch(n.a) { case 0: call_plain(n.k[0]); break; case 1: { call_derived d; call_base* volatile b = &d; b->go(n.k[0]); break; } case 2: (void)call_args(n.k[0], 1, 2, 3, 4, 5, 6, 7); break; case 3: call_recurse(n.k[0], 5); break;
            default: { std::function<void()> f = [&] { exec(n.k[0]); asm volatile(""); }; f(); } } break;
        case THROW: if(may_throw(n.a)) { int id = ++m.next_id; m.add(vh::fmt("throw %d id %d", n.a, id)); throwers[n.a](id); } break;
        case TRY_PLAIN: run_single(false, n, std::make_index_sequence<NC + 1>()); break;
        case TRY_MACRO: run_single(m.tracing, n, std::make_index_sequence<NC + 1>()); break;
        case TRY_LIST: run_list(m.tracing, n, std::make_index_sequence<NLISTS>()); break;
        case GUARD: { guard_t g(n.k[0], m.shadow.size(), ++m.next_id); exec(n.k[1]); break; }
        case RETHROW_LANG: if(handling >= 0 && may_throw(handling)) { m.add("throw;"); do_lang(handling); } break;
        case RETHROW_LIB: if(handling >= 0 && may_throw(handling)) { m.add("rethrow"); do_lib(handling); } break;
        case RETHROW_LIB_PTR: if(handling >= 0 && may_throw(handling)) { m.add("rethrow ptr"); do_libptr(handling, std::current_exception()); } break;
        case STORE: if(handling >= 0) { m.stored = std::current_exception(); m.stored_type = handling; } break;
        case RETHROW_STORED: if(m.stored && may_throw(m.stored_type)) { m.add("rethrow stored"); do_stored(m.stored_type, m.stored); } break;
        case RETHROW_STORED_LIB: if(m.stored && may_throw(m.stored_type)) { m.add("rethrow stored"); do_libptr(m.stored_type, m.stored); } break;
        case QUERY: query(false); break;
        case RESOLVE: query(true); break;
        case CLEAR: if(m.tracing) { cpptrace::clear_current_exception_traces(); m.current = m.rethrow = point(); m.current_resolved = m.rethrow_resolved = false; query(false); } break;
        case RETURN_TRY: m.add(vh::fmt("returned %d", return_try(n))); break;
        case LOOP_TRY: m.add(vh::fmt("rounds %d", loop_try(n))); break;
        default: break;
    }
}
static long total_throws, total_captures, total_queries; static std::mutex totals;
NI static void run_program(node& n, machine& m) {
    mp = &m; m.budget = 60; m.shadow.push_back({false, {ALL}, false});
    try { exec(n); m.add("ended"); } catch(...) { m.shadow.clear(); m.add("escaped"); note_current(); }
    m.shadow.clear(); m.handling.clear(); query(false); m.add(vh::fmt("uncaught %d", std::uncaught_exceptions())); m.stored = nullptr; mp = nullptr;
    std::lock_guard<std::mutex> l(totals); total_throws += m.throws; total_captures += m.captures; total_queries += m.queries;
}
static void programs(vh::rng r, long count, bool compare_plain, int resolve_every, bool main_thread) {
    point cur, re; bool cr = false, rr = false; int live0 = live;
    for(long i = 0; i < count; i++) {
        node n = gen(r, 6, false); string s = show(n); if(main_thread) vh::journal(s);
        machine t; t.prog = s; t.can_resolve = resolve_every && i % resolve_every == 0; t.current = cur; t.rethrow = re; t.current_resolved = cr; t.rethrow_resolved = rr; // history carries over from program to program
        run_program(n, t); cur = t.current; re = t.rethrow; cr = t.current_resolved; rr = t.rethrow_resolved;
        vh::eval(); if(t.throws) vh::distinct(s); if(main_thread && s.size() > 60 && t.captures > 2) vh::sample(s);
        if(compare_plain) {
            machine p; p.tracing = false; p.prog = s; run_program(n, p);
            size_t k = 0; while(k < p.log.size() && k < t.log.size() && p.log[k] == t.log[k]) k++;
            vh::check(p.log == t.log, "trycatch:different", s + vh::fmt(": event %zu is '", k) + (k < t.log.size() ? t.log[k] : "(none)") + "' where plain try/catch gives '" + (k < p.log.size() ? p.log[k] : "(none)") + "'");
            vh::stat("events_compared", (long)p.log.size());
        }
    }
    if(main_thread) vh::check(live == live0, "trycatch:exception-objects-leaked", vh::fmt("%d exception objects still alive", live - live0));
}
// ---- single scenarios ---------------------------------------------------------------------------------------------------------
static void sibling_scenario() { // what escapes a handler of try_catch is for the enclosing handlers
    int plain = 0, traced = 0;
    try { try { throw std::runtime_error("a"); } catch(const std::runtime_error&) { throw std::logic_error("b"); } catch(const std::exception&) { plain = 1; } } catch(const std::logic_error&) { plain = 2; }
    try { cpptrace::try_catch([] { throw std::runtime_error("a"); }, [](const std::runtime_error&) { throw std::logic_error("b"); }, [&](const std::exception&) { traced = 1; }); } catch(const std::logic_error&) { traced = 2; }
    vh::eval(); vh::check(plain == traced, "trycatch:handler-throw-caught-by-sibling", vh::fmt("an exception thrown in a handler of try_catch went to %s", traced == 1 ? "a later handler of the same try_catch" : "nowhere"));
}
struct foreign { _Unwind_Exception e; bool deleted = false; };
static void foreign_cleanup(_Unwind_Reason_Code, _Unwind_Exception* e) { ((foreign*)e)->deleted = true; }
NI static void raise_foreign(foreign& f) { memset(&f.e, 0, sizeof f.e); memcpy(&f.e.exception_class, "VERIFFOR", 8); f.e.exception_cleanup = foreign_cleanup; _Unwind_RaiseException(&f.e); asm volatile(""); }
static void foreign_scenario(bool traced) {
    foreign f; int how = 0; struct d { int& h; ~d() { h += 100; } };
    if(traced) { CPPTRACE_TRY { d x{how}; CPPTRACE_TRY { raise_foreign(f); how += 1000; } CPPTRACE_CATCH(const std::exception&) { how += 1; } } CPPTRACE_CATCH(...) { how += 10; } }
    else { try { d x{how}; try { raise_foreign(f); how += 1000; } catch(const std::exception&) { how += 1; } } catch(...) { how += 10; } }
    vh::eval(); vh::check(how == 110 && f.deleted, "trycatch:foreign", vh::fmt("a foreign exception was handled as %d (%s)", how, traced ? "tracing" : "plain"));
    if(traced) vh::check(!cpptrace::raw_trace_from_current_exception().frames.empty(), "current:foreign", "no trace for a foreign exception");
}
static string exit_log; 
NI static void leave() { pthread_exit((void*)5); }
static void* exit_thread(void* a) {
    struct d { ~d() { exit_log += "d"; } } x;
    if(a) { CPPTRACE_TRY { struct e { ~e() { exit_log += "e"; } } y; CPPTRACE_TRY { leave(); } CPPTRACE_CATCH(const std::exception&) { exit_log += "!"; } } CPPTRACE_CATCH(...) { exit_log += "h"; throw; } }
    else { try { struct e { ~e() { exit_log += "e"; } } y; try { leave(); } catch(const std::exception&) { exit_log += "!"; } } catch(...) { exit_log += "h"; throw; } }
    exit_log += "?"; return nullptr;
}
static void exit_scenario() {
    string logs[2]; for(int k = 0; k < 2; k++) { exit_log.clear(); pthread_t t; pthread_create(&t, nullptr, exit_thread, k ? (void*)1 : nullptr); void* r; pthread_join(t, &r); logs[k] = exit_log + std::to_string((long)r); }
    vh::eval(); vh::check(logs[0] == logs[1] && logs[0] == "ehd5", "trycatch:thread-exit", logs[1] + " instead of " + logs[0]);
}
// ---- page protections -----------------------------------------------------------------------------------------------------------
static string all_maps() { string s; FILE* f = fopen("/proc/self/maps", "r"); char l[5000]; vector<string> v; while(fgets(l, sizeof l, f)) v.push_back(l); fclose(f); for(auto& x : v) s += x; return s; }
struct mapping { size_t a, b; string perm, path; };
static vector<mapping> maps() { vector<mapping> v; FILE* f = fopen("/proc/self/maps", "r"); char l[5000]; while(fgets(l, sizeof l, f)) { mapping m; char p[8]; int at = 0; if(sscanf(l, "%zx-%zx %4s %*s %*s %*s %n", &m.a, &m.b, p, &at) >= 3) { m.perm = p; m.path = at ? string(l + at) : ""; v.push_back(m); } } fclose(f); return v; }
static string perm_at(const vector<mapping>& v, size_t a) { for(auto& m : v) if(a >= m.a && a < m.b) return m.perm; return "none"; }
struct fake_exc {};
static void protections(vh::rng& r, long n) {
    static const int prots[] = {PROT_READ, PROT_READ | PROT_WRITE, PROT_READ | PROT_EXEC, PROT_READ | PROT_WRITE | PROT_EXEC};
    for(long i = 0; i < n; i++) {
        // a type_info somewhere in pages of every kind, between pages of every other kind
        int p[5]; for(auto& x : p) x = (int)r.below(4); char* m = (char*)mmap(nullptr, 5 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        size_t off = 2 * 4096; switch(r.below(4)) { case 0: break; case 1: off += 4096 - 16; break; case 2: off += 8 * r.below(510); break; default: off += 4096 - 8; } // the last: only the vtable pointer on this page
        const std::type_info& src = typeid(cpptrace::detail::unwind_interceptor<fake_exc>); void* orig[2]; { struct plain_t { virtual ~plain_t() {} }; const std::type_info& real = typeid(fake_exc); memcpy(orig, &real, 16); } (void)src;
        memcpy(m + off, orig, 16);
        for(int k = 0; k < 5; k++) mprotect(m + k * 4096, 4096, prots[p[k]]);
        vh::journal(vh::fmt("protections %d %d %d %d %d offset %zu", p[0], p[1], p[2], p[3], p[4], off));
        auto before = maps();
        cpptrace::detail::do_prepare_unwind_interceptor(*(const std::type_info*)(m + off), cpptrace::detail::unwind_interceptor<fake_exc>::can_catch);
        auto after = maps(); void* now[2]; memcpy(now, m + off, 16); vh::eval(); vh::stat("interceptors_prepared");
        vh::check(now[0] != orig[0] && now[1] == orig[1], "trycatch:not-prepared", vh::fmt("offset %zu", off));
        for(auto& b : before) for(size_t a = b.a; a < b.b; a += std::max<size_t>(4096, (b.b - b.a) / 8 / 4096 * 4096)) { if(b.path[0] != '/') continue; /* the rest is the allocator's business */ string now_p = perm_at(after, a); if(now_p != b.perm && now_p != "none") { vh::violation("trycatch:page-protection", vh::fmt("page %zx was %s and is %s (type_info at %p)", a, b.perm.c_str(), now_p.c_str(), m + off)); break; } }
        for(int k = 0; k < 5; k++) vh::check(perm_at(before, (size_t)m + (size_t)k * 4096) == perm_at(after, (size_t)m + (size_t)k * 4096), "trycatch:page-protection", vh::fmt("page %d of the type_info's neighbourhood was %s and is %s", k, perm_at(before, (size_t)m + (size_t)k * 4096).c_str(), perm_at(after, (size_t)m + (size_t)k * 4096).c_str()));
        // nothing both writable and executable, and the new table is not writable
        size_t vt = (size_t)now[0]; vh::check(perm_at(after, vt)[1] == '-', "trycatch:table-writable", perm_at(after, vt));
        munmap(m, 5 * 4096); vh::distinct(vh::fmt("prot %d %d %d %zu", p[1], p[2], p[3], off));
    }
}
int main(int argc, char** argv) {
    vh::init(argc, argv); fill(std::make_index_sequence<NT>()); vh::rng r(vh::iarg("seed", 1));
    { auto v = maps(); char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, 4095); exe[n] = 0; exe_a = ~(frame_ptr)0; for(auto& m : v) if(m.path.find(exe) == 0) { exe_a = std::min<frame_ptr>(exe_a, m.a); exe_b = std::max<frame_ptr>(exe_b, m.b); } 
      // the program starts with its relocated data read-only again
      Dl_info d; struct link_map* lm; dladdr1((void*)&main, &d, (void**)&lm, RTLD_DL_LINKMAP); (void)lm; vh::check(perm_at(v, (size_t)&typeid(cpptrace::detail::unwind_interceptor<A>))[1] == '-', "trycatch:page-protection", "type_info of an interceptor left writable: " + perm_at(v, (size_t)&typeid(cpptrace::detail::unwind_interceptor<A>))); 
      for(auto& m : v) vh::check(!(m.perm[1] == 'w' && m.perm[2] == 'x'), "trycatch:page-protection", "writable and executable page at start: " + m.path); }
    long n = vh::iarg("programs", 200); string mode = vh::arg("mode", "c12"); int resolve = (int)vh::iarg("resolve", 0);
    // reported by frames of the fixed-buffer unwinder only up to its documented limit; programs stay well below
    if(mode == "c12") {
        { machine m; mp = &m; m.prog = "start"; query(false); mp = nullptr; }
        programs(r, n, false, resolve, true); { machine m; mp = &m; } mp = nullptr;
        vector<std::thread> ts; for(int t = 0; t < 4; t++) { std::uint64_t s = r.next(); ts.emplace_back([s, n, resolve] { { machine m; mp = &m; m.prog = "fresh thread"; query(false); mp = nullptr; } programs(vh::rng(s), n / 8, false, resolve, false); }); }
        for(auto& t : ts) t.join();
    } else {
        programs(r, n, true, 0, true);
        vector<std::thread> ts; for(int t = 0; t < 3; t++) { std::uint64_t s = r.next(); ts.emplace_back([s, n] { programs(vh::rng(s), n / 8, true, 0, false); }); } for(auto& t : ts) t.join();
        vh::check(live == 4, "trycatch:exception-objects-leaked", vh::fmt("%d exception objects still alive after the threads ended", live - 4));
        sibling_scenario(); foreign_scenario(false); foreign_scenario(true); if(vh::iarg("exit", 1)) exit_scenario();
        protections(r, vh::iarg("protections", 60));
    }
    vh::stat("throws", total_throws); vh::stat("throws_reaching_tracing_handlers", total_captures); vh::stat("trace_queries", total_queries);
    return vh::finish();
}
