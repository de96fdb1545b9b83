// C19: what a process looks like before and after library calls, successful or failed.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/gdb_jit.hpp>
#include <elf.h>
#include <ctrace/ctrace.h>
#include <algorithm>
#include <atomic>
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <malloc.h>
using std::string; using std::vector;
#if defined(__SANITIZE_ADDRESS__)
#define SAN 1
#else
#define SAN 0
#endif
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak)); extern "C" void __lsan_do_leak_check() __attribute__((weak));
// ---- memory: how much is allocated, and one failure on request -----------------------------------------------------------------------
static thread_local long fail_in; static long live, made; // one thread
#if !SAN
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if(p) { live += 1; made++; } return p; }
void free(void* p) { if(p) live -= 1; __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if(p) { live += 1; made++; } return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if(p && !q) { live += 1; made++; } if(q && !n && !p) live -= 1; return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if(p) { live += 1; made++; } return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; } }
#endif
void* operator new(size_t n) { if(fail_in && --fail_in == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---- what a process looks like ---------------------------------------------------------------------------------------------------------
static std::set<int> private_fds;
static string link_of(const string& p) { char b[600]; ssize_t n = readlink(p.c_str(), b, sizeof b - 1); return n < 0 ? "?" : string(b, (size_t)n); }
static string descriptors() {
    string r; DIR* d = opendir("/proc/self/fd"); if(!d) abort(); int self = dirfd(d); vector<int> fds; while(dirent* e = readdir(d)) if(isdigit((unsigned char)e->d_name[0])) { int fd = atoi(e->d_name); if(fd != self && !private_fds.count(fd)) fds.push_back(fd); } closedir(d); std::sort(fds.begin(), fds.end());
    for(int fd : fds) { struct stat st; bool reg = fstat(fd, &st) == 0 && S_ISREG(st.st_mode); r += vh::fmt("%d %s fl%x fd%x", fd, link_of(vh::fmt("/proc/self/fd/%d", fd)).c_str(), fcntl(fd, F_GETFL), fcntl(fd, F_GETFD)) + (reg ? vh::fmt(" at %ld of %ld", (long)lseek(fd, 0, SEEK_CUR), (long)st.st_size) : "") + "\n"; }
    return r;
}
static string children() {
    string r; siginfo_t si; memset(&si, 0, sizeof si); if(waitid(P_ALL, 0, &si, WEXITED | WSTOPPED | WNOHANG | WNOWAIT) < 0) return errno == ECHILD ? "none" : "waitid fails";
    DIR* d = opendir("/proc"); if(!d) abort(); vector<string> v; while(dirent* e = readdir(d)) if(isdigit((unsigned char)e->d_name[0])) { std::ifstream f(string("/proc/") + e->d_name + "/stat"); string s; std::getline(f, s); size_t k = s.rfind(')'); char st; int pp; if(k != string::npos && sscanf(s.c_str() + k + 1, " %c %d", &st, &pp) == 2 && pp == getpid()) v.push_back(string(e->d_name) + (st == 'Z' ? " dead" : " alive")); } closedir(d); std::sort(v.begin(), v.end()); for(auto& s : v) r += s + ", "; return r;
}
static string signals() {
    string r; sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m); for(int s = 1; s < 65; s++) if(sigismember(&m, s) == 1) r += vh::fmt(" blocked %d", s); sigpending(&m); for(int s = 1; s < 65; s++) if(s != SIGCHLD && sigismember(&m, s) == 1) r += vh::fmt(" pending %d", s);
    for(int s = 1; s < 65; s++) { struct sigaction a; if(sigaction(s, nullptr, &a) == 0 && (a.sa_handler != SIG_DFL || (a.sa_flags & ~0x04000000))) r += vh::fmt(" %d=%p/%x", s, (void*)a.sa_handler, a.sa_flags & ~0x04000000); }
    stack_t ss; sigaltstack(nullptr, &ss); r += vh::fmt(" stack %p %d", ss.ss_sp, ss.ss_flags); for(int t : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { itimerval v; getitimer(t, &v); if(v.it_value.tv_sec || v.it_value.tv_usec || v.it_interval.tv_sec) r += vh::fmt(" timer %d", t); } return r;
}
static string protections() { // of what is writable or executable of the mapped files, by range; and nothing both writable and executable
    string r; std::ifstream f("/proc/self/maps"); string l; while(std::getline(f, l)) { char perm[8], range[64]; int at = 0; if(sscanf(l.c_str(), "%60s %4s %*s %*s %*s %n", range, perm, &at) < 2) continue; string name = at ? l.substr((size_t)at) : ""; if(perm[1] == 'w' && perm[2] == 'x') r += "WX " + l + "\n"; if((perm[1] == 'w' || perm[2] == 'x') && !name.empty() && name[0] == '/' && name.find(".so") + 1 + (name.find("c19") + 1)) r += string(range) + " " + perm + " " + name + "\n"; else if(name.empty() && perm[2] == 'x') r += string("code ") + range + "\n"; } return r;
}
extern char** environ;
static string surroundings() {
    string r; uint64_t h = 0; for(char** e = environ; *e; e++) h = h * 31 + vh::hash(*e) + (uintptr_t)*e; r += vh::fmt("env %lx", (long)h); char cwd[500]; r += string(" cwd ") + (getcwd(cwd, sizeof cwd) ? cwd : "?"); mode_t u = umask(0); umask(u); r += vh::fmt(" umask %o", u); r += string(" locale ") + setlocale(LC_ALL, nullptr) + " " + std::locale().name(); r += vh::fmt(" round %d except %d", fegetround(), fegetexcept());
    char n[20] = ""; prctl(PR_GET_NAME, n); r += string(" name ") + n + vh::fmt(" dumpable %d reaper", (int)prctl(PR_GET_DUMPABLE)); for(int k = 0; k < RLIM_NLIMITS; k++) { rlimit l; getrlimit((decltype(RLIMIT_CORE))k, &l); r += vh::fmt(" %lx/%lx", (long)l.rlim_cur, (long)l.rlim_max); }
    r += vh::fmt(" terminate %p new %p", (void*)std::get_terminate(), (void*)std::get_new_handler()); for(std::ostream* s : {(std::ostream*)&std::cout, (std::ostream*)&std::cerr, (std::ostream*)&std::clog}) r += vh::fmt(" stream %x %d %d %c %x %p %p", (int)s->flags(), (int)s->width(), (int)s->precision(), s->fill(), (int)s->rdstate(), (void*)s->rdbuf(), (void*)s->tie()); r += vh::fmt(" in %x", (int)std::cin.rdstate());
    int tasks = 0; DIR* d = opendir("/proc/self/task"); if(d) { while(dirent* e = readdir(d)) tasks += e->d_name[0] != '.'; closedir(d); } r += vh::fmt(" threads %d", tasks); sched_param sp; sched_getparam(0, &sp); r += vh::fmt(" sched %d %d", sched_getscheduler(0), sp.sched_priority); cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); r += vh::fmt(" cpus %d exceptions %d", CPU_COUNT(&cs), std::uncaught_exceptions()); return r;
}
struct picture { string part[5]; }; static const char* part_name[] = {"descriptors", "children", "signals", "protections", "surroundings"};
static picture look() { return {{descriptors(), children(), signals(), protections(), surroundings()}}; }
static string difference(const string& a, const string& b) { size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i > 60 ? i - 60 : 0; return "'" + a.substr(s, 200) + "' became '" + b.substr(s, 200) + "'"; }

// ---- library calls -------------------------------------------------------------------------------------------------------------------
struct operation { string name; std::function<string()> run; int fails; }; // fails: 1 may be made to fail by an allocation
static string files; static vector<string> modules; static string object_image;
[[gnu::noinline]] static cpptrace::raw_trace deep(int n, size_t skip) { if(n <= 0) return cpptrace::generate_raw_trace(skip); auto r = deep(n - 1, skip); asm volatile("" : : "r"(&r) : "memory"); return r; }
[[gnu::noinline]] static void throw_at(int n) { if(n <= 0) throw std::runtime_error("thrown"); throw_at(n - 1); asm volatile("" ::: "memory"); }
static vector<operation> operations() {
    vector<operation> v; auto add = [&](string n, std::function<string()> f, int fails = 1) { v.push_back({n, f, fails}); };
    add("raw trace", [] { return vh::fmt("%d", !deep(3, 0).empty()); }); add("trace", [] { return vh::fmt("%d", !cpptrace::generate_trace().empty()); }); add("object trace", [] { return vh::fmt("%d", !cpptrace::generate_object_trace(1, 10).empty()); });
    add("resolve", [] { return vh::fmt("%zu", deep(4, 1).resolve().frames.size()); }); add("unknown addresses", [] { return vh::fmt("%zu", cpptrace::raw_trace{{1, 0x1000, ~(cpptrace::frame_ptr)0, 0}}.resolve().frames.size()); });
    for(const char* n : {"missing", "dir", "text", "empty", "cut", "null", "closed"}) { string p = string(n) == "null" ? "/dev/null" : files + "/" + n; add(string("objects: ") + n, [p] { return vh::fmt("%zu", cpptrace::object_trace{{{0x10, 0x10, p}, {0x1000, 0x1000, p}, {0x2000, 0, ""}}}.resolve().frames.size()); }); }
    for(size_t i = 0; i < modules.size(); i++) add(vh::fmt("module %zu", i), [i] { void* h = dlopen(modules[i].c_str(), RTLD_NOW); if(!h) return string("not loaded"); struct closer { void* h; ~closer() { dlclose(h); } } c{h}; void* p = dlsym(h, "cm_work"); string r = "no symbol"; if(!p) p = dlsym(h, "_init"); if(p) { cpptrace::raw_trace t{{(cpptrace::frame_ptr)p + 1}}; r = vh::fmt("%zu", t.resolve().frames.size()); } return r; });
    static cpptrace::stacktrace synthetic; synthetic.frames.clear(); for(const char* n : {"text", "missing", "dir", "empty", "null", "cut"}) for(unsigned line : {1u, 3u, 4000000000u}) { cpptrace::stacktrace_frame f{}; f.raw_address = f.object_address = line; f.line = line; f.column = 2; f.filename = string(n) == "null" ? "/dev/null" : files + "/" + n; f.symbol = "some<symbol>"; synthetic.frames.push_back(f); }
    add("snippets", [] { cpptrace::formatter f; f.snippets(true).columns(true).snippet_context(2).colors(cpptrace::formatter::color_mode::always); return vh::fmt("%d", f.format(synthetic).size() > 10); }); add("print", [] { std::ostringstream s; synthetic.print_with_snippets(s, true); synthetic.frames[0].to_string(true); return vh::fmt("%d", s.str().size() > 10); });
    add("default formatter", [] { std::ostringstream s; cpptrace::get_default_formatter().print(s, synthetic); cpptrace::stacktrace{}.print(s, false); return vh::fmt("%d", s.str().size() > 10); });
    add("exception", [] { try { throw cpptrace::runtime_error("message"); } catch(const cpptrace::exception& e) { fail_in = 0; return vh::fmt("%d", e.what() != nullptr); } }); add("unread exception", [] { try { throw cpptrace::lazy_exception(); } catch(const std::exception&) { return string("caught"); } }); add("nested", [] { try { try { throw 1; } catch(...) { cpptrace::rethrow_and_wrap_if_needed(); } } catch(const std::exception& e) { return vh::fmt("%d", e.what() != nullptr); } catch(...) { } return string("?"); }, 0);
    add("from_current", [] { string r = "?"; CPPTRACE_TRY { throw_at(3); } CPPTRACE_CATCH(const std::exception&) { r = vh::fmt("%d", cpptrace::from_current_exception().frames.size() > 0); } return r; }, 2); add("rethrown", [] { string r = "?"; CPPTRACE_TRY { CPPTRACE_TRY { throw_at(2); } CPPTRACE_CATCH(const std::exception&) { cpptrace::rethrow(); } } CPPTRACE_CATCH(const std::exception&) { r = vh::fmt("%d", cpptrace::from_current_exception_rethrow().frames.size() > 0); } return r; }, 2);
    add("try_catch", [] { string r = "?"; cpptrace::try_catch([] { throw_at(1); }, [&](const std::logic_error&) { r = "wrong"; }, [&](const std::runtime_error&) { r = vh::fmt("%d", !cpptrace::raw_trace_from_current_exception().empty()); }); return r; }, 2); add("untaken", [] { try { CPPTRACE_TRY { throw_at(1); } CPPTRACE_CATCH(int) { } } catch(const std::runtime_error&) { } return string("1"); }, 2);
    add("registered", [] { struct remover { ~remover() { fail_in = 0; cpptrace::unregister_jit_object(object_image.data()); } } rm; cpptrace::register_jit_object(object_image.data(), object_image.size()); size_t n = cpptrace::raw_trace{{0x1000}}.resolve().frames.size(); return vh::fmt("%zu", n); }); add("rejected", [] { struct remover { ~remover() { fail_in = 0; cpptrace::clear_all_jit_objects(); } } rm; cpptrace::register_jit_object("garbage", 7); cpptrace::register_jit_object(object_image.data(), 200); cpptrace::unregister_jit_object("garbage"); return string("1"); });
    // objects whose registration is accepted although no code can be found through them, and one object registered several times
    static string textless; if(textless.empty()) { string names("\0.data\0.shstrtab\0", 17); Elf64_Ehdr h{}; Elf64_Shdr x[3]{}; memcpy(h.e_ident, "\x7f" "ELF\x02\x01\x01", 7); h.e_type = ET_REL; h.e_machine = EM_X86_64; h.e_version = 1; h.e_ehsize = sizeof h; h.e_shentsize = sizeof x[0]; h.e_shnum = 3; h.e_shstrndx = 2; h.e_shoff = sizeof h + 32; x[1].sh_name = 1; x[1].sh_type = SHT_PROGBITS; x[2].sh_name = 7; x[2].sh_type = SHT_STRTAB; x[2].sh_offset = sizeof h; x[2].sh_size = names.size(); textless = string((char*)&h, sizeof h) + names; textless.resize(sizeof h + 32); textless.append((char*)x, sizeof x); }
    add("textless", [] { struct remover { ~remover() { fail_in = 0; cpptrace::unregister_jit_object(textless.data()); } } rm; cpptrace::register_jit_object(textless.data(), textless.size()); size_t n = cpptrace::raw_trace{{0x1000}}.resolve().frames.size(); return vh::fmt("%zu", n); });
    add("registered twice", [] { struct remover { ~remover() { fail_in = 0; cpptrace::unregister_jit_object(object_image.data()); cpptrace::unregister_jit_object(object_image.data()); cpptrace::clear_all_jit_objects(); } } rm; for(int i = 0; i < 2; i++) { cpptrace::register_jit_object(object_image.data(), object_image.size()); cpptrace::register_jit_object(textless.data(), textless.size()); } return string("1"); });
    add("names", [] { return cpptrace::demangle("_ZN3foo3barIiSsEEvv") + cpptrace::demangle("_Z") + cpptrace::prune_symbol("a<b<c>>::d(int) const") + cpptrace::prune_symbol("a<((((") + cpptrace::prettify_symbol("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > x"); }, 0);
    add("safe", [] { cpptrace::frame_ptr b[20]; size_t n = cpptrace::safe_generate_raw_trace(b, 20); string r; for(size_t i = 0; i < std::min<size_t>(n, 3); i++) { cpptrace::safe_object_frame f; cpptrace::get_safe_object_frame(b[i], &f); r += f.resolve().object_path.empty() ? "0" : "1"; } return r; }); add("safe unknown", [] { cpptrace::safe_object_frame f; cpptrace::get_safe_object_frame(0x1000, &f); return f.resolve().object_path; });
    add("c", [] { auto t = ctrace_generate_trace(0, 20); auto s = ctrace_stacktrace_to_string(&t, 1); ctrace_free_owning_string(&s); ctrace_free_stacktrace(&t); auto w = ctrace_generate_raw_trace(0, 5); auto o = ctrace_resolve_raw_trace_to_object_trace(&w); auto full = ctrace_resolve_object_trace(&o); ctrace_free_stacktrace(&full); ctrace_free_object_trace(&o); ctrace_free_raw_trace(&w); auto d = ctrace_demangle("_Z3foov"); ctrace_free_owning_string(&d); return string("1"); }, 0);
    add("in a handler", [] { static string r; struct sigaction a {}, old; a.sa_handler = [](int) { cpptrace::frame_ptr b[10]; r = cpptrace::safe_generate_raw_trace(b, 10) || !cpptrace::can_signal_safe_unwind() ? "1" : "0"; }; sigaction(SIGUSR2, &a, &old); raise(SIGUSR2); sigaction(SIGUSR2, &old, nullptr); return r; }, 0);
    return v;
}
static long failures_hit; static bool absorbing = true;
static string perform(const operation& o, long k) { // k: the allocation that fails
    string r; bool armed = k && (o.fails == 1 || (o.fails == 2 && absorbing)); try { if(armed) fail_in = k; r = o.run(); } catch(const std::bad_alloc&) { r = "no memory"; } catch(const std::exception& e) { fail_in = 0; r = string("threw ") + e.what(); } if(armed && fail_in <= 0) failures_hit++; fail_in = 0; return r;
}
static void sigchld(int) {}
struct scene { string story; vector<pid_t> kids; };
static void set_scene(vh::rng& r, scene& s, const string& fake) {
    auto pick = [&](const char* what, int n) { int k = (int)r.below((uint64_t)n); s.story += vh::fmt(" %s%d", what, k); return k; };
    struct sigaction a {}; switch(pick("chld", 4)) { case 0: break; case 1: a.sa_handler = SIG_IGN; sigaction(SIGCHLD, &a, nullptr); break; case 2: a.sa_handler = sigchld; a.sa_flags = SA_RESTART; sigaction(SIGCHLD, &a, nullptr); break; case 3: a.sa_handler = sigchld; a.sa_flags = SA_NOCLDSTOP; sigaction(SIGCHLD, &a, nullptr); break; }
    switch(pick("pipe", 3)) { case 1: signal(SIGPIPE, SIG_IGN); break; case 2: signal(SIGPIPE, sigchld); break; } sigset_t m; sigemptyset(&m); for(int sig : {SIGCHLD, SIGPIPE, SIGTERM, SIGUSR1, SIGALRM, SIGINT}) if(r.chance(1, 4)) { sigaddset(&m, sig); s.story += vh::fmt(" block%d", sig); } sigprocmask(SIG_SETMASK, &m, nullptr);
    bool ignored = s.story.find("chld1") != string::npos; for(int k = pick("kids", 3); k-- > 0;) { pid_t p = fork(); if(p == 0) { bool quick = k == 1 && !ignored; if(quick) _exit(3); prctl(PR_SET_PDEATHSIG, SIGKILL); for(;;) pause(); } s.kids.push_back(p); if(k == 1 && !ignored) { siginfo_t si; while(waitid(P_PID, (id_t)p, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR) {} } }
    switch(pick("helper", 8)) { case 0: setenv("PATH", "/nonexistent", 1); break; case 1: setenv("PATH", (fake + ":/usr/bin:/bin").c_str(), 1); break; case 2: setenv("C16_MODE", "exit:1", 1); setenv("PATH", (fake + ":/usr/bin:/bin").c_str(), 1); break; case 3: setenv("C16_MODE", "kill", 1); setenv("PATH", (fake + ":/usr/bin:/bin").c_str(), 1); break; case 4: setenv("C16_MODE", "hup-out", 1); setenv("PATH", (fake + ":/usr/bin:/bin").c_str(), 1); break; case 5: setenv("C16_MODE", "random:7", 1); setenv("PATH", (fake + ":/usr/bin:/bin").c_str(), 1); break; case 6: setenv("C16_HELP", "k", 1); setenv("PATH", (fake + ":/usr/bin:/bin").c_str(), 1); break; default: setenv("PATH", "/usr/bin:/bin", 1); }
    int closed = pick("closed", 12); if(closed < 8) for(int fd = 0; fd < 3; fd++) if(closed & 1 << fd) close(fd);
    if(r.chance(1, 3)) { int fd = open("/dev/null", O_RDWR); if(fd >= 0 && fd < 3) fcntl(fd, F_SETFD, FD_CLOEXEC); s.story += " extra"; } if(r.chance(1, 4)) { umask(027); fesetround(FE_UPWARD); s.story += " rounding"; } if(r.chance(1, 4)) { static char stack[65536]; stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr); s.story += " altstack"; }
    if(r.chance(1, 4)) { std::cout << std::hex; std::cerr.width(7); std::cerr.fill('#'); s.story += " streams"; } if(r.chance(1, 5)) { itimerval t{{0, 0}, {1000, 0}}; setitimer(ITIMER_REAL, &t, nullptr); s.story += " timer"; } absorbing = !r.chance(1, 4); cpptrace::absorb_trace_exceptions(absorbing); if(r.chance(1, 3)) { cpptrace::experimental::set_cache_mode(r.pick({cpptrace::cache_mode::prioritize_memory, cpptrace::cache_mode::hybrid})); s.story += " cache"; } if(r.chance(1, 4)) cpptrace::enable_inlined_call_resolution(false);
}
static void one_process(uint64_t seed, const string& fake, long steps, bool nofail) {
    vh::rng r(seed); scene s; int in = open((files + "/text").c_str(), O_RDONLY); lseek(in, 5, SEEK_SET); dup2(in, 0); if(in > 2) close(in); for(int fd : {1, 2}) { char n[] = "/tmp/c19-XXXXXX"; int f = mkstemp(n); unlink(n); dup2(f, fd); if(f > 2) close(f); } set_scene(r, s, fake); auto ops = operations(); string history;
    picture before = look(); auto compare = [&](const string& what) { picture now = look(); vh::eval(); for(int i = 0; i < 5; i++) if(now.part[i] != before.part[i]) vh::violation(part_name[i], what + " in" + s.story + " after" + history + ": " + difference(before.part[i], now.part[i])); before = now; };
    compare("nothing"); cpptrace::frame_ptr warm[4]; cpptrace::safe_generate_raw_trace(warm, 4); compare("first safe trace");
    for(long i = 0; i < steps; i++) { auto& o = r.pick(ops); long k = nofail || r.chance(1, 2) ? 0 : 1 + (long)r.below(r.chance(1, 2) ? 6 : 120); string what = o.name + (k ? vh::fmt(" with allocation %ld failing", k) : ""); vh::journal("in" + s.story + " after" + history + ": " + what); string res = perform(o, k); compare(what); vh::distinct(what + s.story.substr(0, 20)); history += "; " + what; if(history.size() > 700) history.erase(0, 300); vh::stat("calls"); }
    vh::stat("allocation_failures", failures_hit); vh::sample(s.story + " " + history, 2);
    // the same calls again and again: once warm, nothing accumulates
    #if !SAN
    for(int round = 0; round < 3; round++) {
        vector<std::pair<size_t, long>> block; string what; for(int i = 0; i < 3; i++) { size_t o = r.below(ops.size()); long k = nofail || r.chance(2, 3) ? 0 : 1 + (long)r.below(40); block.push_back({o, k}); what += "; " + ops[o].name + (k ? vh::fmt(" (%ld fails)", k) : ""); } vh::journal("repeated in" + s.story + what);
        const int reps = 24; vector<long> at; for(int i = 0; i < reps; i++) { for(auto& b : block) perform(ops[b.first], b.second); long now = live; at.push_back(now); } long grown = at[reps - 1] - at[reps / 2 - 1]; vh::eval(); vh::stat("repetitions", reps);
        vh::check(grown < reps / 4, "heap", vh::fmt("%ld allocations more after %d further repetitions of", grown, reps / 2) + what + " in" + s.story); compare("repetitions of" + what);
    }
    #endif
    for(pid_t p : s.kids) { int st = 0; kill(p, SIGKILL); pid_t w; while((w = waitpid(p, &st, 0)) < 0 && errno == EINTR) {} vh::check(w == p || s.story.find("chld1") != string::npos, "child-reaped", vh::fmt("the program's own child %d", (int)p) + s.story); }
}
int main(int argc, char** argv) {
    vh::init(argc, argv); files = vh::arg("dir"); { string m = vh::arg("modules"); std::istringstream i(m); string x; while(std::getline(i, x, ',')) modules.push_back(x); } { std::ifstream f(vh::arg("object")); std::stringstream b; b << f.rdbuf(); object_image = b.str(); }
    uint64_t seed = (uint64_t)vh::iarg("seed", 1); long n = vh::iarg("processes", 10), only = vh::iarg("only", -1); cpptrace::frame_ptr w[2]; (void)w;
    for(long i = 0; i < n; i++) { if(only >= 0 && i != only) continue; fflush(nullptr);
        pid_t p = fork(); if(p == 0) { private_fds.insert(vh::st().out_fd); for(int fd : {200, 201, 202}) private_fds.insert(fd); alarm(0); if(__sanitizer_set_report_fd) { int f = fcntl(2, F_DUPFD_CLOEXEC, 210); private_fds.insert(f); __sanitizer_set_report_fd((void*)(long)f); } one_process(seed * 1000 + (uint64_t)i, vh::arg("fake"), vh::iarg("steps", 30), vh::iarg("nofail", 0)); vh::finish(); if(__lsan_do_leak_check) __lsan_do_leak_check(); _exit(0); }
        int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR) {} if(st) { vh::violation("crash", vh::fmt("process %ld of seed %lu ended with status %x: ", i, (long)seed, st) + string(vh::st().journal ? vh::st().journal : "")); } }
    return vh::finish();
}
