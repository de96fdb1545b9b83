// C01: traces against (a) a shadow stack kept by the program itself and (b) an independent walk by the system unwinder,
// over randomly composed call programs; then the slice law for every entry point.
#include "vh.hpp"
#include <algorithm>
#include <climits>
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <csignal>
#include <cstdarg>
#include <ctrace/ctrace.h>
#include <dlfcn.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <search.h>
#include <thread>
#include <ucontext.h>
#include <unwind.h>
using cpptrace::frame_ptr; using std::size_t; using std::string; using std::vector;

#ifndef FRAME_CAP
#define FRAME_CAP SIZE_MAX
#endif
#ifdef CPPTRACE_UNWIND_WITH_LIBUNWIND
static const bool safe_ok = true;
#else
static const bool safe_ok = false;
#endif
#ifdef CPPTRACE_UNWIND_WITH_EXECINFO
static const bool exact_signal_pc = false;
#else
static const bool exact_signal_pc = true;
#endif

#define NI __attribute__((noinline, noclone))
#define KEEP asm volatile("" ::: "memory")

// ---- reference walk -------------------------------------------------------------------------------------------------
struct refframe { frame_ptr pc; bool exact; };
// taken from libgcc explicitly: libunwind exports functions of the same names
static decltype(&_Unwind_Backtrace) ref_backtrace; static decltype(&_Unwind_GetIPInfo) ref_ipinfo;
static _Unwind_Reason_Code refcb(_Unwind_Context* c, void* a) {
    auto* v = (vector<refframe>*)a; int before = 0;
    frame_ptr ip = ref_ipinfo(c, &before);
    if(!ip) return _URC_END_OF_STACK;
    v->push_back({before ? ip : ip - 1, before != 0});
    return _URC_NO_REASON;
}
// ---- shadow stack ---------------------------------------------------------------------------------------------------
struct shadow { vector<frame_ptr> calls; bool direct = true; };
static thread_local shadow* sh;
struct push { // records where the current function will return to
    explicit push(void* ra) { sh->calls.push_back((frame_ptr)ra - 1); }
    ~push() { sh->calls.pop_back(); }
};
#define ENTER push vh_p_(__builtin_return_address(0))

// ---- entry points, each in its own section so that its own frame is recognisable --------------------------------------
struct result { vector<frame_ptr> f; bool threw = false; string what; bool resolved = false; };
#define SECT(n) __attribute__((noinline, noclone, section("take_" #n)))
#define BOUNDS(n) extern "C" char __start_take_##n[], __stop_take_##n[];
enum { E_RAW1, E_RAW2, E_RAWC1, E_RAWC2, E_OBJ1, E_OBJ2, E_OBJC1, E_OBJC2, E_ST1, E_ST2, E_STC1, E_STC2, E_CRAW, E_COBJ, E_CST, E_SAFE1, E_SAFE2, E_CSAFE, E_COUNT };
static const char* const names[] = {"generate_raw_trace(skip)", "generate_raw_trace(skip,depth)", "raw_trace::current(skip)", "raw_trace::current(skip,depth)",
    "generate_object_trace(skip)", "generate_object_trace(skip,depth)", "object_trace::current(skip)", "object_trace::current(skip,depth)",
    "generate_trace(skip)", "generate_trace(skip,depth)", "stacktrace::current(skip)", "stacktrace::current(skip,depth)",
    "ctrace_generate_raw_trace", "ctrace_generate_object_trace", "ctrace_generate_trace", "safe_generate_raw_trace(skip)", "safe_generate_raw_trace(skip,depth)", "ctrace_safe_generate_raw_trace"};
static void of(result& r, const cpptrace::raw_trace& t) { r.f = t.frames; }
static void of(result& r, const cpptrace::object_trace& t) { for(auto& f : t.frames) r.f.push_back(f.raw_address); }
static void of(result& r, const cpptrace::stacktrace& t) { r.resolved = true; for(auto& f : t.frames) if(!f.is_inline) r.f.push_back(f.raw_address); }
#define TAKE(n, expr) BOUNDS(n) SECT(n) static void take_##n(size_t skip, size_t depth, result& r) { \
    try { auto t = expr; of(r, t); } catch(const std::exception& e) { r.threw = true; r.what = e.what(); } KEEP; }
TAKE(0, cpptrace::generate_raw_trace(skip)) TAKE(1, cpptrace::generate_raw_trace(skip, depth))
TAKE(2, cpptrace::raw_trace::current(skip)) TAKE(3, cpptrace::raw_trace::current(skip, depth))
TAKE(4, cpptrace::generate_object_trace(skip)) TAKE(5, cpptrace::generate_object_trace(skip, depth))
TAKE(6, cpptrace::object_trace::current(skip)) TAKE(7, cpptrace::object_trace::current(skip, depth))
TAKE(8, cpptrace::generate_trace(skip)) TAKE(9, cpptrace::generate_trace(skip, depth))
TAKE(10, cpptrace::stacktrace::current(skip)) TAKE(11, cpptrace::stacktrace::current(skip, depth))
BOUNDS(12) SECT(12) static void take_12(size_t skip, size_t depth, result& r) { auto t = ctrace_generate_raw_trace(skip, depth); r.f.assign(t.frames, t.frames + t.count); ctrace_free_raw_trace(&t); KEEP; }
BOUNDS(13) SECT(13) static void take_13(size_t skip, size_t depth, result& r) { auto t = ctrace_generate_object_trace(skip, depth); for(size_t i = 0; i < t.count; i++) r.f.push_back(t.frames[i].raw_address); ctrace_free_object_trace(&t); KEEP; }
BOUNDS(14) SECT(14) static void take_14(size_t skip, size_t depth, result& r) { auto t = ctrace_generate_trace(skip, depth); r.resolved = true; for(size_t i = 0; i < t.count; i++) if(!t.frames[i].is_inline) r.f.push_back(t.frames[i].raw_address); ctrace_free_stacktrace(&t); KEEP; }
static frame_ptr sbuf[70000];
BOUNDS(15) SECT(15) static void take_15(size_t skip, size_t, result& r) { size_t n = cpptrace::safe_generate_raw_trace(sbuf, 65000, skip); r.f.assign(sbuf, sbuf + n); KEEP; }
BOUNDS(16) SECT(16) static void take_16(size_t skip, size_t depth, result& r) { size_t n = cpptrace::safe_generate_raw_trace(sbuf, 65000, skip, depth); r.f.assign(sbuf, sbuf + n); KEEP; }
BOUNDS(17) SECT(17) static void take_17(size_t skip, size_t depth, result& r) { size_t n = ctrace_safe_generate_raw_trace(sbuf, 65000, skip, depth); r.f.assign(sbuf, sbuf + n); KEEP; }
typedef void take_fn(size_t, size_t, result&);
static take_fn* const takes[] = {take_0, take_1, take_2, take_3, take_4, take_5, take_6, take_7, take_8, take_9, take_10, take_11, take_12, take_13, take_14, take_15, take_16, take_17};
#define B(n) {(frame_ptr)__start_take_##n, (frame_ptr)__stop_take_##n}
static const frame_ptr bounds[][2] = {B(0), B(1), B(2), B(3), B(4), B(5), B(6), B(7), B(8), B(9), B(10), B(11), B(12), B(13), B(14), B(15), B(16), B(17)};
static bool has_depth(int e) { return e >= E_CRAW ? e != E_SAFE1 : e % 2; }

// ---- trace point ----------------------------------------------------------------------------------------------------
struct gctx { vh::rng r{1}; string prog; bool in_signal = false; frame_ptr sig_pc = 0; int resolved_left = 0; long checks = 0; vector<uint8_t> ops; size_t pos = 0; int slices = 12; };
static thread_local gctx* g;

BOUNDS(probe)
SECT(probe) static void probe() {
    ENTER;
    vector<refframe> ref;
    ref.reserve(4096);
    ref_backtrace(refcb, &ref);
    // the independent walk must itself agree with what the program recorded
    size_t k = 0;
    auto& calls = sh->calls;
    for(size_t i = calls.size(); i-- > 0;) {
        while(k < ref.size() && ref[k].pc != calls[i]) k++;
        if(k == ref.size()) { vh::raw_line("@@ERROR shadow stack and system unwinder disagree for " + g->prog + "\n"); return; }
        k++;
    }
    // trampoline frames (the caller of a signal handler) have no call site: any of ra-1, ra is the frame
    vector<char> tramp(ref.size(), 0);
    for(size_t i = 0; i + 1 < ref.size(); i++) if(ref[i + 1].exact) tramp[i] = 1;
    size_t n = ref.size() + 1;
    const frame_ptr pb = (frame_ptr)__start_take_probe, pe = (frame_ptr)__stop_take_probe;
    vh::distinct(vh::fmt("%s/%zu", g->prog.c_str(), n));
    vh::stat("frames_seen", (long)n); vh::stat("chains");
    auto pick_skip = [&]() -> size_t {
        auto& r = g->r;
        static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2, SIZE_MAX - 3, SIZE_MAX - 400, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)INT_MAX, (size_t)INT_MAX + 1, UINT32_MAX, (size_t)UINT32_MAX + 1, (size_t)1 << 33, (size_t)1 << 40, 1000000};
        switch(r.below(8)) { case 0: return 0; case 1: return 1; case 2: return n - 1; case 3: return n; case 4: return n + 1 + r.below(500); case 5: return r.pick(big); default: return r.below(n + 2); }
    };
    for(int s = 0; s < g->slices + E_COUNT; s++) {
        int e = s < E_COUNT ? s : (int)g->r.below(E_COUNT);
        if(!safe_ok && e >= E_SAFE1) continue;
        size_t skip = s < E_COUNT && g->r.chance(1, 2) ? 0 : pick_skip();
        size_t depth = s < E_COUNT && g->r.chance(1, 2) ? SIZE_MAX : pick_skip();
        bool resolves = (e >= E_ST1 && e <= E_STC2) || e == E_CST;
        if(resolves && std::min(n > skip ? n - skip : 0, has_depth(e) ? depth : SIZE_MAX) > 0 && g->resolved_left-- <= 0) continue;
        if(n > 1500 && resolves) continue;
        result res;
        vh::journal(vh::fmt("%s skip=%zu depth=%zu frames=%zu program=%s", names[e], skip, depth, n, g->prog.c_str()));
        takes[e](skip, depth, res);
        // expected: the slice of {own frame in take_e, ref...}
        size_t lim = has_depth(e) ? depth : SIZE_MAX;
        if(e >= E_SAFE1) lim = std::min<size_t>(lim, 65000);
        size_t avail = skip < n ? n - skip : 0, cnt = std::min(avail, lim);
        if(cnt > FRAME_CAP) cnt = FRAME_CAP;
        string d = vh::fmt("%s skip=%zu depth=%zu, chain of %zu frames, got %zu expected %zu; program %s", names[e], skip, depth, n, res.f.size(), cnt, g->prog.c_str());
        vh::eval(); g->checks++;
        const char* shape = skip == 0 && lim >= n ? "full" : "slice";
        if(res.threw) { vh::violation(vh::fmt("trace:throws:%s", names[e]), d + ": " + res.what); continue; }
        if(res.f.size() != cnt) {
            string got; for(size_t i = 0; i < res.f.size() && i < 12; i++) got += vh::fmt(" %zx", res.f[i]);
            string exp; for(size_t i = 0; i < cnt && i < 12; i++) exp += vh::fmt(" %zx", skip + i ? ref[skip + i - 1].pc : bounds[e][0]);
            vh::violation(vh::fmt("trace:count:%s:%s", shape, names[e]), d + "\n got:" + got + "\nwant:" + exp); continue;
        }
        for(size_t i = 0; i < cnt; i++) {
            size_t idx = skip + i;
            if(idx == 0) {
                if(!(res.f[i] >= bounds[e][0] && res.f[i] < bounds[e][1])) { vh::violation(vh::fmt("trace:first-frame:%s", names[e]), d + vh::fmt(": first frame %zx is not in the calling function [%zx,%zx)", res.f[i], bounds[e][0], bounds[e][1])); break; }
                continue;
            }
            if(idx == 1) { // probe itself: each call site is a different address
                if(!(res.f[i] >= pb && res.f[i] < pe)) { vh::violation(vh::fmt("trace:frame:%s:%s", shape, names[e]), d + vh::fmt(": element %zu is %zx, outside the caller", i, res.f[i])); break; }
                continue;
            }
            const refframe& want = ref[idx - 1];
            bool ok = res.f[i] == want.pc;
            if(!ok && tramp[idx - 1] && res.f[i] == want.pc + 1) ok = true;
            if(!ok && want.exact && res.f[i] == want.pc - 1) {
                vh::stat("interrupted_frames_off_by_one");
                vh::violation(exact_signal_pc ? "trace:interrupted-frame-pc" : "trace:interrupted-frame-pc:execinfo", d + vh::fmt(": the frame interrupted at %zx is reported at %zx", want.pc, res.f[i]));
                continue;
            }
            if(want.exact) vh::stat("interrupted_frames");
            if(!ok) { vh::violation(vh::fmt("trace:frame:%s:%s", shape, names[e]), d + vh::fmt(": element %zu is %zx, the frame is at %zx", i, res.f[i], want.pc)); break; }
        }
    }
}

// ---- call programs --------------------------------------------------------------------------------------------------
NI static void step();
struct base { virtual ~base() {} virtual void v(int x) = 0; };
struct d1 : base { NI void v(int x) override { ENTER; char pad[1 + 40]; memset(pad, x, sizeof pad); asm volatile("" :: "r"(pad) : "memory"); step(); KEEP; } };
struct pad_base { virtual ~pad_base() {} int z = 1; };
struct d2 : pad_base, base { NI void v(int) override { ENTER; step(); KEEP; } }; // called through a this-adjusting thunk
NI static int recurse(int n) { ENTER; if(n <= 0) { step(); KEEP; return 0; } int r = recurse(n - 1) + 1; KEEP; return r; }
NI static void big_frame() { ENTER; volatile char b[70000]; b[0] = 1; b[sizeof b - 1] = 2; step(); KEEP; (void)b[0]; }
NI static void vla_frame(size_t n) { ENTER; char* p = (char*)__builtin_alloca(n); memset(p, 1, n); asm volatile("" :: "r"(p) : "memory"); step(); KEEP; }
NI static void variadic(int n, ...) { ENTER; va_list a; va_start(a, n); volatile double q = va_arg(a, double); (void)q; va_end(a); step(); KEEP; }
__attribute__((noinline, noclone, optimize("omit-frame-pointer"))) static void nofp(int a, int b) { ENTER; volatile int c = a + b; (void)c; step(); KEEP; }
template<int N> NI static void templ() { ENTER; step(); KEEP; }
static thread_local bool qs_done;
NI static int cmp(const void* a, const void* b) { ENTER; if(!qs_done) { qs_done = true; step(); KEEP; } return *(const int*)a - *(const int*)b; }
NI static void via_qsort() { ENTER; int v[3] = {3, 1, 2}; qs_done = false; qsort(v, 3, sizeof(int), cmp); KEEP; }
NI static void via_bsearch() { ENTER; int v[3] = {1, 2, 3}, k = 2; qs_done = false; bsearch(&k, v, 3, sizeof(int), cmp); KEEP; }
NI static void via_function() { ENTER; int x = 3; std::function<void(int)> f = [&](int y) { x += y; step(); KEEP; }; f(2); KEEP; }
NI static void via_algorithm() { ENTER; vector<int> v{1, 2, 3}; bool once = false; std::sort(v.begin(), v.end(), [&](int a, int b) { if(!once) { once = true; step(); KEEP; } return a < b; }); KEEP; }
static thread_local gctx* once_g; static thread_local shadow* once_s;
NI static void once_cb() { ENTER; step(); KEEP; }
NI static void via_once() { ENTER; pthread_once_t o = PTHREAD_ONCE_INIT; pthread_once(&o, once_cb); KEEP; }
struct dtor { NI ~dtor() { ENTER; step(); KEEP; } };
NI static void thrower() { ENTER; KEEP; throw 42; }
NI static void via_unwind_dtor() { ENTER; try { dtor d; thrower(); } catch(int) { KEEP; } KEEP; }
NI static void via_handler() { ENTER; try { thrower(); } catch(int) { step(); KEEP; } KEEP; }
NI static void via_dtor() { ENTER; { dtor d; KEEP; } KEEP; }
static void (*lib_call)(void (*)(void*), void*, int);
NI static void lib_cb(void*) { ENTER; step(); KEEP; }
NI static void via_library() { ENTER; if(lib_call) { lib_call(lib_cb, nullptr, 1 + (int)(g->ops.size() % 4)); } else step(); KEEP; }
NI static void indirect(void (*f)()) { ENTER; f(); KEEP; }
struct thr { gctx* g; shadow parent; };
static void* thread_main(void* p) { // a new thread: a new chain
    auto* t = (thr*)p; g = t->g; shadow s; sh = &s; { ENTER; step(); KEEP; } sh = nullptr; KEEP; return nullptr;
}
NI static void via_thread(bool std_thread) {
    ENTER;
    thr t{g, {}};
    if(std_thread) { std::thread th([&] { thread_main(&t); }); th.join(); }
    else { pthread_t th; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20); if(pthread_create(&th, &a, thread_main, &t) == 0) pthread_join(th, nullptr); pthread_attr_destroy(&a); }
    KEEP;
}
static thread_local int in_handler;
NI static void handler_body() { ENTER; step(); KEEP; }
static void handler(int, siginfo_t*, void* uc) {
    push p(__builtin_return_address(0));
    sh->calls.pop_back(); sh->calls.push_back((frame_ptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]); // the interrupted instruction
    bool o = g->in_signal; g->in_signal = true;
    handler_body();
    g->in_signal = o;
    ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP] += in_handler; // step over the faulting instruction
    KEEP;
}
extern "C" void fault_first(void); // faults at its very first instruction
asm(".text\n.type fault_first,@function\n.globl fault_first\nfault_first:\n.cfi_startproc\nud2\nret\n.cfi_endproc\n.size fault_first,.-fault_first\n");
NI static void via_fault() { ENTER; int o = in_handler; in_handler = 2; sh->calls.push_back(0); sh->calls.pop_back(); fault_first(); in_handler = o; KEEP; }
NI static void via_raise() { ENTER; int o = in_handler; in_handler = 0; raise(SIGUSR1); in_handler = o; KEEP; }
struct ctorer { NI ctorer() { ENTER; step(); KEEP; } };
NI static void via_ctor() { ENTER; ctorer c; KEEP; (void)c; }
NI static void via_memfn() { ENTER; struct m { NI void f() { ENTER; step(); KEEP; } }; void (m::*p)() = &m::f; m x; (x.*p)(); KEEP; }
NI static void noexcept_fn() noexcept { ENTER; step(); KEEP; }

enum { O_END, O_D1, O_D2, O_REC, O_BIG, O_VLA, O_VAR, O_NOFP, O_TMPL, O_QS, O_BS, O_FN, O_ALGO, O_ONCE, O_UNW, O_HND, O_DTOR, O_LIB, O_IND, O_THR, O_STDTHR, O_FAULT, O_RAISE, O_CTOR, O_MEM, O_NOEX, O_N };
static const char* const opn[] = {"end", "virtual", "thunk", "recurse", "bigframe", "alloca", "variadic", "nofp", "template", "qsort", "bsearch", "function", "sort", "once", "unwinding-dtor", "handler", "dtor", "library", "indirect", "pthread", "stdthread", "fault", "raise", "ctor", "memfn", "noexcept"};
NI static void step() {
    ENTER;
    uint8_t op = g->pos < g->ops.size() ? g->ops[g->pos++] : O_END;
    switch(op) {
        case O_END: probe(); break;
        case O_D1: { std::unique_ptr<base> b(new d1); b->v(1); break; }
        case O_D2: { std::unique_ptr<base> b(new d2); b->v(1); break; }
        case O_REC: recurse((int)g->r.below(g->r.chance(1, 6) ? 150 : 8)); break;
        case O_BIG: big_frame(); break;
        case O_VLA: vla_frame(1 + g->r.below(5000)); break;
        case O_VAR: variadic(1, 2.5, 3, "x", 4.5); break;
        case O_NOFP: nofp(1, 2); break;
        case O_TMPL: templ<7>(); break;
        case O_QS: via_qsort(); break;
        case O_BS: via_bsearch(); break;
        case O_FN: via_function(); break;
        case O_ALGO: via_algorithm(); break;
        case O_ONCE: via_once(); break;
        case O_UNW: via_unwind_dtor(); break;
        case O_HND: via_handler(); break;
        case O_DTOR: via_dtor(); break;
        case O_LIB: via_library(); break;
        case O_IND: indirect(step); break;
        case O_THR: via_thread(false); break;
        case O_STDTHR: via_thread(true); break;
        case O_FAULT: via_fault(); break;
        case O_RAISE: via_raise(); break;
        case O_CTOR: via_ctor(); break;
        case O_MEM: via_memfn(); break;
        case O_NOEX: noexcept_fn(); break;
    }
    KEEP;
}
static void run_program(gctx& gc) {
    gc.prog.clear();
    for(auto o : gc.ops) gc.prog += string(gc.prog.empty() ? "" : ">") + opn[o];
    gc.pos = 0; g = &gc; shadow s; sh = &s;
    step();
    sh = nullptr; g = nullptr;
}
int main(int argc, char** argv) {
    vh::init(argc, argv);
    long progs = vh::iarg("programs", 200);
    cpptrace::absorb_trace_exceptions(false); // an internal failure must surface here
    { void* h = dlopen("libgcc_s.so.1", RTLD_NOW); ref_backtrace = (decltype(ref_backtrace))dlsym(h, "_Unwind_Backtrace"); ref_ipinfo = (decltype(ref_ipinfo))dlsym(h, "_Unwind_GetIPInfo"); }
    string lib = vh::arg("lib");
    if(!lib.empty()) {
        void* h = dlopen(lib.c_str(), RTLD_NOW | RTLD_LOCAL);
        if(!h) { vh::raw_line(string("@@ERROR dlopen: ") + dlerror() + "\n"); return 3; }
        lib_call = (void (*)(void (*)(void*), void*, int))dlsym(h, "c01_lib_call");
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
    if(vh::iarg("altstack", 1)) { static char stack[1 << 20]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr); }
    sigaction(SIGILL, &sa, nullptr); sigaction(SIGUSR1, &sa, nullptr);
    gctx gc; gc.r = vh::rng(vh::iarg("seed", 1));
    int resolved_total = (int)vh::iarg("resolved", 60);
    for(long p = 0; p < progs; p++) {
        gc.ops.clear();
        size_t len = p < O_N ? 1 : gc.r.below(gc.r.chance(1, 10) ? 40 : 9);
        int signals = 0, threads = 0;
        for(size_t i = 0; i < len; i++) {
            int o = p < O_N ? (int)p : 1 + (int)gc.r.below(O_N - 1);
            if(vh::iarg("nosignal", 0) && (o == O_FAULT || o == O_RAISE)) o = O_REC;
            if((o == O_FAULT || o == O_RAISE) && ++signals > 1) o = O_D1; // one altstack
            if((o == O_THR || o == O_STDTHR) && (++threads > 2 || signals)) o = O_D2;
            if(signals && (o == O_BIG)) o = O_VLA;
            if(o == O_END) continue;
            gc.ops.push_back((uint8_t)o);
        }
        gc.resolved_left = resolved_total > 0 && p % std::max<long>(1, progs / resolved_total) == 0 ? 2 : 0;
        resolved_total -= gc.resolved_left;
        run_program(gc);
        vh::sample(gc.prog, 4);
    }
    if(vh::iarg("deep", 1)) { // one very deep recursion
        for(int depth : {300, 1500, 20000}) {
            if((size_t)depth > FRAME_CAP) break;
            gc.ops.clear(); gc.prog = "deep"; gc.resolved_left = 0; gc.slices = 4; gc.pos = 0; g = &gc; shadow s; sh = &s;
            recurse(depth); sh = nullptr;
        }
    }
    return vh::finish();
}
