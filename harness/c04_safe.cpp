// C04: the signal-safe interface under a monitor of everything it must not do, interrupted anywhere, and against the ordinary one.
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <cpptrace/cpptrace.hpp>
#include <csignal>
#include <ctrace/ctrace.h>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <setjmp.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>
using cpptrace::frame_ptr; using std::size_t; using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
// ---- the monitor ------------------------------------------------------------------------------------------------------
static thread_local volatile int in_safe; // set around calls of the safe interface
struct breach { const char* what; void* from; };
static std::atomic<int> n_breaches; static breach breaches[64];
static char exe_lo, *exe_end; static frame_ptr exe_a, exe_b;
static void breached(const char* what, void* from) { int i = n_breaches++; if(i < 64) breaches[i] = {what, from}; }
#ifndef NO_INTERPOSE
extern "C" {
    void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
    static std::atomic<long> in_malloc_hits;
    static thread_local volatile int in_alloc; // the program is inside the allocator
#define ALLOC(name) if(in_safe) breached(name, __builtin_return_address(0)); in_alloc = in_alloc + 1;
#define DONE in_alloc = in_alloc - 1;
    void* malloc(size_t n) { ALLOC("malloc") void* p = __libc_malloc(n); DONE return p; }
    void free(void* p) { ALLOC("free") __libc_free(p); DONE }
    void* calloc(size_t a, size_t b) { ALLOC("calloc") void* p = __libc_calloc(a, b); DONE return p; }
    void* realloc(void* q, size_t b) { ALLOC("realloc") void* p = __libc_realloc(q, b); DONE return p; }
    void* memalign(size_t a, size_t b) { ALLOC("memalign") void* p = __libc_memalign(a, b); DONE return p; }
    void* aligned_alloc(size_t a, size_t b) { ALLOC("aligned_alloc") void* p = __libc_memalign(a, b); DONE return p; }
    int posix_memalign(void** o, size_t a, size_t b) { ALLOC("posix_memalign") *o = __libc_memalign(a, b); DONE return *o ? 0 : 12; }
    // calls the library must not make from there; what its own dependencies do inside (libunwind locks with signals blocked) is theirs
#define MINE(from) ((frame_ptr)(from) >= exe_a && (frame_ptr)(from) < exe_b)
#define WATCH(ret, name, params, args) ret name params { static ret (*real) params = (ret (*) params)dlsym(RTLD_NEXT, #name); if(in_safe && MINE(__builtin_return_address(0))) breached(#name, __builtin_return_address(0)); return real args; }
    WATCH(FILE*, fopen, (const char* a, const char* b), (a, b)) WATCH(int, fclose, (FILE* f), (f)) WATCH(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f))
    WATCH(size_t, fread, (void* p, size_t a, size_t b, FILE* f), (p, a, b, f)) WATCH(int, fputs, (const char* s, FILE* f), (s, f)) WATCH(int, fflush, (FILE* f), (f)) WATCH(int, fputc, (int c, FILE* f), (c, f)) WATCH(int, puts, (const char* s), (s))
    WATCH(int, dladdr, (const void* a, Dl_info* i), (a, i)) WATCH(int, dladdr1, (const void* a, Dl_info* i, void** x, int f), (a, i, x, f)) WATCH(int, pipe, (int* p), (p)) WATCH(int, fork, (), ())
    WATCH(int, dl_iterate_phdr, (int (*cb)(dl_phdr_info*, size_t, void*), void* d), (cb, d))
    WATCH(char*, getenv, (const char* n), (n))
    int pthread_mutex_lock(pthread_mutex_t* m) { static int (*real)(pthread_mutex_t*); if(!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); if(in_safe && MINE(__builtin_return_address(0))) breached("pthread_mutex_lock", __builtin_return_address(0)); return real(m); }
}
#else
static thread_local volatile int in_alloc;
#endif
static void report_breaches(const char* phase) {
    int n = std::min(n_breaches.load(), 64);
    for(int i = 0; i < n; i++) { Dl_info d; d.dli_fname = nullptr; dladdr(breaches[i].from, &d); vh::violation(string("safe:calls-") + breaches[i].what, string(phase) + ": " + breaches[i].what + " called from " + (d.dli_fname ? d.dli_fname : "?") + vh::fmt("+%#zx", (size_t)breaches[i].from - (size_t)d.dli_fbase)); }
    n_breaches = 0;
}
static vector<int> descriptors() { vector<int> v; DIR* d = opendir("/proc/self/fd"); while(auto* e = readdir(d)) if(e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d)) v.push_back(atoi(e->d_name)); closedir(d); std::sort(v.begin(), v.end()); return v; }

// ---- interruptions anywhere ---------------------------------------------------------------------------------------------
struct record { frame_ptr pc; size_t n, skip, size, depth; bool alloc; frame_ptr f[48]; bool object_bad; };
static const size_t CAP = 3000;
static record* recs; static std::atomic<size_t> n_recs; static std::atomic<long> n_signals;
static const bool safe_unwind = cpptrace::can_signal_safe_unwind();
static void record_from(frame_ptr pc, unsigned k) {
    int saved = errno; n_signals++;
    size_t i = n_recs++;
    static thread_local record spare; record& r = i < CAP ? recs[i] : spare;
    r.pc = pc; r.alloc = in_alloc > 0; r.object_bad = false;
    r.skip = k % 5 == 4 ? (size_t)-1 : k % 5; r.size = (k / 5) % 3 == 0 ? 48 : (k / 5) % 3 == 1 ? 5 : 48; r.depth = (k / 15) % 3 == 0 ? SIZE_MAX : (k / 15) % 3 == 1 ? 3 : 30;
    if(k % 7 == 0) { r.skip = 0; r.size = 48; r.depth = SIZE_MAX; }
    for(auto& x : r.f) x = 0x5a5a5a5a;
    
    in_safe = 1;
    if(k & 1) r.n = cpptrace::safe_generate_raw_trace(r.f, r.size, r.skip, r.depth); else { r.n = ctrace_safe_generate_raw_trace(r.f, r.size, r.skip, r.depth); }
    static thread_local struct { char before[64]; cpptrace::safe_object_frame o; char after[64]; } box;
    memset(&box, 0x3c, sizeof box);
    for(size_t j = 0; j < 4 && j < r.n && r.n <= 48; j++) {
        frame_ptr a = r.f[j];
        if(k & 2) cpptrace::get_safe_object_frame(a, &box.o); else ctrace_get_safe_object_frame(a, (ctrace_safe_object_frame*)&box.o);
        if(box.o.raw_address != a || !memchr(box.o.object_path, 0, sizeof box.o.object_path)) r.object_bad = true;
    }
    in_safe = 0;
    for(size_t j = 0; j < 64; j++) if(box.before[j] != 0x3c || box.after[j] != 0x3c) r.object_bad = true;
    errno = saved;
}
static std::atomic<unsigned> sig_count;
extern "C" NI void on_signal(int, siginfo_t*, void* c) { record_from((frame_ptr)((ucontext_t*)c)->uc_mcontext.gregs[REG_RIP], sig_count++); }
extern "C" void on_signal_end() {}
static std::atomic<bool> stop;
// somebody to interrupt: allocation, buffered output, the dynamic linker, the library itself, plain code
static void* busy(void* a) {
    vh::rng r((std::uint64_t)a); FILE* sink = fopen("/dev/null", "w"); vector<void*> v; char b[300];
    while(!stop) {
        switch(r.below(7)) {
            case 0: for(int i = 0; i < 300; i++) { v.push_back(malloc(1 + r.below(r.chance(1, 20) ? 300000 : 600))); if(v.size() > 100) { size_t k = r.below(v.size()); free(v[k]); v[k] = v.back(); v.pop_back(); } } break;
            case 1: for(int i = 0; i < 100; i++) { fprintf(sink, "%d %s %f\n", i, "text", 1.0 * i); if(i % 30 == 0) fflush(sink); } break;
            case 2: for(int i = 0; i < 20; i++) { auto t = cpptrace::generate_raw_trace(); (void)t; } break;
            case 3: for(int i = 0; i < 5; i++) { auto t = cpptrace::generate_object_trace(); (void)t; } break;
            case 4: for(int i = 0; i < 20; i++) { frame_ptr f[30]; cpptrace::safe_generate_raw_trace(f, 30); cpptrace::safe_object_frame o; cpptrace::get_safe_object_frame(f[0], &o); } break;
            case 5: for(int i = 0; i < 50; i++) { Dl_info d; dladdr((void*)&busy, &d); dlsym(RTLD_DEFAULT, "nothing_of_that_name"); } break;
            default: for(int i = 0; i < 50; i++) { std::string s = cpptrace::demangle("_ZN3foo3barEv"); memset(b, i, sizeof b); qsort(b, sizeof b, 1, [](const void* x, const void* y) { return *(const char*)x - *(const char*)y; }); try { throw i; } catch(int) {} }
        }
    }
    for(auto p : v) free(p); fclose(sink); return nullptr;
}
// the first look at each kind of module comes in a handler, after a warm-up that saw only one of them
static void first_use(vh::rng& r) {
    for(int k = 0; k < 8; k++) {
        frame_ptr places[] = {(frame_ptr)&busy, (frame_ptr)dlsym(RTLD_DEFAULT, "qsort"), (frame_ptr)dlsym(RTLD_DEFAULT, "_ZNSt9exceptionD1Ev"), (frame_ptr)&r, 16}; int warm = (int)r.below(5); fflush(nullptr);
        pid_t p = fork(); if(p == 0) {
            alarm(60); frame_ptr f[10]; cpptrace::safe_generate_raw_trace(f, 10); static cpptrace::safe_object_frame o; cpptrace::get_safe_object_frame(places[warm], &o);
            in_safe = 1; for(auto a : places) if(a) { cpptrace::get_safe_object_frame(a, &o); ctrace_get_safe_object_frame(a, (ctrace_safe_object_frame*)&o); } in_safe = 0;
            bool bad = n_breaches.load() != 0; report_breaches(vh::fmt("first use after a warm-up on place %d", warm).c_str()); _exit(bad ? 3 : 0);
        }
        int st = 0; waitpid(p, &st, 0); vh::eval(); vh::stat("first_uses"); if(st && !(WIFEXITED(st) && WEXITSTATUS(st) == 3) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) vh::violation("safe:first-use", vh::fmt("child ended with %x after a warm-up on place %d", st, warm));
        if(WIFEXITED(st) && WEXITSTATUS(st) == 3) vh::violation("safe:first-use", "the first look at a module in a handler made calls that are not signal-safe");
    }
}
static void anywhere(vh::rng& r, long n) {
    recs = (record*)mmap(nullptr, CAP * sizeof(record), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGUSR1, &sa, nullptr);
    first_use(r);
    { frame_ptr f[10]; cpptrace::safe_generate_raw_trace(f, 10); ctrace_safe_generate_raw_trace(f, 10, 0, 10); cpptrace::safe_object_frame o; cpptrace::get_safe_object_frame(f[0], &o); raise(SIGUSR1); } // the documented warm-up
    n_recs = 0; n_signals = 0;
    auto fds = descriptors(); // before the threads start and once they ended: they hold and open files of their own meanwhile
    vector<pthread_t> ts(3); for(size_t i = 0; i < ts.size(); i++) pthread_create(&ts[i], nullptr, busy, (void*)(r.next() | 1));
    usleep(20000);
    for(long i = 0; i < n; i++) {
        pthread_kill(ts[r.below(ts.size())], SIGUSR1);
        if(i % 50 == 0) vh::journal(vh::fmt("signal %ld of %ld, %ld handled", i, n, n_signals.load()));
        for(volatile int k = (int)r.below(4000); k > 0; k = k - 1) {}
        long sent = i + 1; for(int k = 0; n_signals < sent - 200 && k < 100000; k++) usleep(10);
    }
    stop = true; for(auto t : ts) pthread_join(t, nullptr);
    auto fds2 = descriptors();
    vh::check(fds == fds2, "safe:descriptors", vh::fmt("%zu descriptors before, %zu after", fds.size(), fds2.size()));
    report_breaches("asynchronous signal");
    size_t total = std::min(n_recs.load(), CAP); long in_alloc_n = 0, in_libc = 0, in_exe = 0, elsewhere = 0;
    for(size_t i = 0; i < total; i++) {
        auto& x = recs[i]; vh::eval(); in_alloc_n += x.alloc;
        Dl_info d{}; bool known = dladdr((void*)x.pc, &d) && d.dli_fname; bool exe = x.pc >= exe_a && x.pc < exe_b; (exe ? in_exe : known && strstr(d.dli_fname, "libc.so") ? in_libc : elsewhere)++;
        string desc = vh::fmt("interrupted at %#zx (%s %s), skip %zu size %zu depth %zu -> %zu:", (size_t)x.pc, known ? d.dli_fname : "?", d.dli_sname ? d.dli_sname : "", x.skip, x.size, x.depth, x.n);
        for(size_t j = 0; j < 48 && j < x.n; j++) desc += vh::fmt(" %zx", (size_t)x.f[j]);
        vh::distinct(x.pc); 
        vh::check(!x.object_bad, "safe:object-frame", desc);
        if(!vh::check(x.n <= std::min(x.size, x.depth), "safe:count", desc)) continue;
        for(size_t j = x.n; j < 48; j++) if(!vh::check(x.f[j] == 0x5a5a5a5a, "safe:writes-past-count", desc + vh::fmt("; entry %zu written", j))) break;
        if(!safe_unwind) { vh::check(x.n == 0, "safe:unsupported-unwind", desc); continue; }
        if(x.skip == (size_t)-1) { vh::check(x.n == 0, "safe:skip-all", desc); continue; }
        if(x.skip == 0 && x.size == 48 && x.depth > 10) {
            bool found = false; size_t at = 0; for(size_t j = 0; j < x.n && j < 6; j++) if(x.f[j] == x.pc) { found = true; at = j; break; }
            if(x.n == 48 && false) continue;
            vh::check(found, "safe:interrupted-frame-missing", desc);
            if(found && exe) vh::check(x.n > at + 1, "safe:stops-at-signal", desc);
            vh::stat("complete_traces_from_handlers");
        }
    }
    vh::stat("signals_delivered", n_signals); vh::stat("interrupted_inside_allocator", in_alloc_n); vh::stat("interrupted_in_libc", in_libc); vh::stat("interrupted_in_program_or_library", in_exe); vh::stat("interrupted_elsewhere", elsewhere);
    if(total) vh::sample(vh::fmt("thread interrupted at %#zx, %zu entries", (size_t)recs[total / 2].pc, recs[total / 2].n));
    munmap(recs, CAP * sizeof(record));
}

// ---- agreement with ordinary traces -----------------------------------------------------------------------------------------
struct gctx { vh::rng* r; vector<int> ops; size_t pos = 0; string prog; bool sig = false; };
static gctx* g;
static void step();
static frame_ptr* guarded(size_t n, char** map, size_t* len) { // n entries right in front of an inaccessible page
    size_t bytes = (n * sizeof(frame_ptr) + 4095) / 4096 * 4096; *len = bytes + 8192;
    *map = (char*)mmap(nullptr, *len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(*map, 4096, PROT_NONE); mprotect(*map + 4096 + bytes, 4096, PROT_NONE);
    return (frame_ptr*)(*map + 4096 + bytes) - n;
}
struct both { vector<frame_ptr> normal, safe; };
// one calling function for both, so that only the call instruction of the innermost frame differs
extern "C" NI void take_both(both& b, size_t skip, frame_ptr* buf, size_t size, size_t depth, int api) {
    b.normal = cpptrace::generate_raw_trace(skip).frames;
    size_t n; in_safe = 1;
    switch(api) { case 0: n = cpptrace::safe_generate_raw_trace(buf, size, skip); break; case 1: n = cpptrace::safe_generate_raw_trace(buf, size, skip, depth); break; default: n = ctrace_safe_generate_raw_trace(buf, size, skip, depth); }
    in_safe = 0;
    b.safe.assign(1, n); // the count only; entries are read by the caller
}
static void probe() {
    auto& r = *g->r;
    size_t full = cpptrace::generate_raw_trace().frames.size() + 1;
    for(int k = 0; k < 12; k++) {
        auto pick = [&]() -> size_t { switch(r.below(7)) { case 0: return 0; case 1: return 1; case 2: return SIZE_MAX - r.below(4); case 3: return full + r.below(3) - 1; case 4: return full * 2; case 5: return SIZE_MAX / 2 + r.below(3); default: return r.below(full + 2); } };
        size_t skip = pick(), depth = pick(), size; switch(r.below(5)) { case 0: size = 0; break; case 1: size = 1; break; case 2: size = full + r.below(5) - 2; break; case 3: size = full + 700; break; default: size = r.below(full + 1); }
        int api = (int)r.below(3); size_t limit = api == 0 ? size : std::min(size, depth);
        char* map; size_t len; frame_ptr* buf = guarded(size, &map, &len); for(size_t i = 0; i < size; i++) buf[i] = 0x7777;
        vh::journal(g->prog + vh::fmt(" skip %zu size %zu depth %zu api %d", skip, size, depth, api));
        both b; take_both(b, skip, buf, size, depth, api);
        size_t n = b.safe[0]; vh::eval(); vh::stat("safe_against_ordinary");
        string d = g->prog + vh::fmt(": skip %zu size %zu depth %zu api %d: %zu entries, ordinary %zu", skip, size, depth, api, n, b.normal.size());
        size_t want = safe_unwind ? std::min(limit, b.normal.size()) : 0;
        vh::check(n == want, "safe:agree-count", d);
        for(size_t i = 0; i < n && i < want && i < size; i++) {
            if(skip == 0 && i == 0) { frame_ptr lo = (frame_ptr)&take_both; vh::check(buf[0] >= lo && buf[0] < lo + 4000, "safe:agree-first", d + vh::fmt(" %#zx", (size_t)buf[0])); continue; }
            if(!vh::check(buf[i] == b.normal[i], "safe:agree", d + vh::fmt(" entry %zu: %#zx, ordinary trace %#zx", i, (size_t)buf[i], (size_t)b.normal[i]))) break;
        }
        for(size_t i = std::min(n, size); i < size; i++) if(!vh::check(buf[i] == 0x7777, "safe:writes-past-count", d + vh::fmt(": entry %zu written", i))) break;
        // and the objects those lie in
        if(cpptrace::can_get_safe_object_frame()) for(size_t i = 0; i < n && i < want && i < 3; i++) {
            cpptrace::safe_object_frame o; memset(&o, 0x11, sizeof o); cpptrace::get_safe_object_frame(buf[i], &o); auto a = o.resolve();
            cpptrace::raw_trace t; t.frames = {buf[i]}; auto e = t.resolve_object_trace().frames[0];
            vh::check(o.raw_address == buf[i] && a.raw_address == e.raw_address && a.object_address == e.object_address && a.object_path == e.object_path, "safe:object-agree", d + ": '" + a.object_path + vh::fmt("' %#zx, '", (size_t)a.object_address) + e.object_path + vh::fmt("' %#zx", (size_t)e.object_address));
        }
        munmap(map, len);
    }
    vh::distinct(g->prog + vh::fmt("/%zu", full));
}
NI static void op_plain() { step(); asm volatile(""); }
NI static void op_recurse(int n) { if(n) op_recurse(n - 1); else step(); asm volatile(""); }
NI static int op_qsort_cmp(const void*, const void*) { static int done; if(!done) { done = 1; step(); done = 0; } return 0; }
NI static void op_qsort() { int a[2] = {1, 2}; qsort(a, 2, sizeof a[0], op_qsort_cmp); }
NI static void op_handler(int) { step(); asm volatile(""); }
NI static void op_signal() { struct sigaction sa{}, old; sa.sa_handler = op_handler; sa.sa_flags = SA_NODEFER; sigaction(SIGUSR2, &sa, &old); raise(SIGUSR2); sigaction(SIGUSR2, &old, nullptr); }
NI static void op_segv_handler(int, siginfo_t*, void* c) { step(); ((ucontext_t*)c)->uc_mcontext.gregs[REG_RIP] += 2; } // skips ud2
NI static void op_fault() { struct sigaction sa{}, old; sa.sa_sigaction = op_segv_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGILL, &sa, &old); asm volatile("ud2" ::: "memory"); sigaction(SIGILL, &old, nullptr); }
static void* thread_main(void*) { step(); return nullptr; }
NI static void op_thread() { pthread_t t; pthread_create(&t, nullptr, thread_main, nullptr); pthread_join(t, nullptr); }
static void (*jit_thunk)(void (*)());
NI static void jit_back() { step(); asm volatile(""); }
NI static void op_no_unwind_info() { jit_thunk(jit_back); asm volatile(""); } // code without unwind information but with frame pointers
struct base { virtual ~base() {} virtual void go() = 0; }; struct derived : base { NI void go() override { step(); asm volatile(""); } };
NI static void op_virtual() { derived d; base* volatile b = &d; b->go(); asm volatile(""); }
NI static void op_alt_stack() { // handler on its own stack
    char* st = (char*)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stack_t ss{}, old; ss.ss_sp = st; ss.ss_size = 1 << 18; bool mine = sigaltstack(&ss, &old) == 0; struct sigaction sa{}, o; sa.sa_handler = op_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGUSR2, &sa, &o); raise(SIGUSR2); sigaction(SIGUSR2, &o, nullptr); if(mine) sigaltstack(&old, nullptr); munmap(st, 1 << 18);
}
static void step() {
    if(g->pos >= g->ops.size()) { probe(); return; }
    switch(g->ops[g->pos++]) { case 0: op_plain(); break; case 1: op_recurse((int)(g->ops.size() * 7 % 40)); break; case 2: op_qsort(); break; case 3: op_signal(); break; case 4: op_fault(); break; case 5: op_thread(); break; case 6: op_no_unwind_info(); break; case 7: op_alt_stack(); break; default: op_virtual(); }
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1));
    { std::pair<frame_ptr, frame_ptr> range{~(frame_ptr)0, 0}; FILE* f = fopen("/proc/self/maps", "r"); char line[5000], exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, 4095); exe[n] = 0;
      while(fgets(line, sizeof line, f)) if(strstr(line, exe)) { unsigned long a, b; sscanf(line, "%lx-%lx", &a, &b); range.first = std::min(range.first, a); range.second = std::max(range.second, b); } fclose(f); exe_a = range.first; exe_b = range.second; }
    (void)exe_lo; (void)exe_end;
    { unsigned char code[] = {0x55, 0x48, 0x89, 0xe5, 0xff, 0xd7, 0x5d, 0xc3}; void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy((char*)p + 64, code, sizeof code); mprotect(p, 4096, PROT_READ | PROT_EXEC); jit_thunk = (void (*)(void (*)()))((char*)p + 64); }
    { frame_ptr f[10]; cpptrace::safe_generate_raw_trace(f, 10); }
    vh::stat(safe_unwind ? "safe_unwinding_supported" : "safe_unwinding_unsupported");
    for(long i = 0, n = vh::iarg("programs", 100); i < n; i++) {
        gctx c; c.r = &r; for(size_t k = r.below(6); k--;) { int op = (int)r.below(9); c.ops.push_back(op); c.prog += "0rqsFtjav"[op]; }
        g = &c; if(i < 3) vh::sample("call program " + c.prog); step(); report_breaches(c.prog.c_str());
    }
    { // very long module path
        string dir = "/tmp/c04-" + std::to_string(getpid()), lib = vh::arg("lib"); if(!lib.empty()) { mkdir(dir.c_str(), 0700); string d = dir; int depth = 0; if(chdir(dir.c_str()) == 0) { string p = dir; while(p.size() < 3700) { string c(200, 'a' + depth++ % 26); mkdir(c.c_str(), 0700); if(chdir(c.c_str())) break; p += "/" + c; }
            string file = p + "/x.so"; if(system(("cp '" + lib + "' x.so").c_str()) == 0) if(void* h = dlopen(file.c_str(), RTLD_NOW)) {
                auto a = (frame_ptr)dlsym(h, "c01_lib_call"); if(!a) { struct link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm); a = lm->l_addr + 0x1000; }
                cpptrace::safe_object_frame o; memset(&o, 0x22, sizeof o); cpptrace::get_safe_object_frame(a, &o); vh::eval(); vh::stat("long_module_path", file.size());
                if(cpptrace::can_get_safe_object_frame()) vh::check(memchr(o.object_path, 0, sizeof o.object_path) && file == o.object_path, "safe:long-path", string(o.object_path, strnlen(o.object_path, sizeof o.object_path)).substr(0, 200));
                dlclose(h); }
            (void)!chdir("/"); } (void)!system(("rm -rf '" + dir + "'").c_str()); }
    }
    if(long n = vh::iarg("signals", 0)) anywhere(r, n);
    return vh::finish();
}
