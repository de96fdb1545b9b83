// C16, other faults: module files that vanish or cannot be read (object addresses), broken debug information (libbacktrace),
// memory maps and page protections that cannot be read or changed (exception interceptors).
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <link.h>
#include <set>
#include <stdexcept>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using cpptrace::frame_ptr; using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
static long fail_mprotect = -1, fail_mmap = -1; static bool no_maps; static long mprotects, mmaps;
#ifdef WRAP_MM
extern "C" { int __real_mprotect(void*, size_t, int); void* __real_mmap(void*, size_t, int, int, int, off_t);
    int __wrap_mprotect(void* p, size_t n, int x) { mprotects++; if(fail_mprotect >= 0 && fail_mprotect-- == 0) { errno = ENOMEM; return -1; } return __real_mprotect(p, n, x); }
    void* __wrap_mmap(void* p, size_t n, int a, int b, int c, off_t d) { mmaps++; if(fail_mmap >= 0 && fail_mmap-- == 0) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(p, n, a, b, c, d); } }
#endif
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); return string(std::istreambuf_iterator<char>(f), {}); }
static void spit(const string& p, const string& s) { std::ofstream f(p, std::ios::binary); f << s; }
// ---- module files ------------------------------------------------------------------------------------------------------------------
struct limiter { vector<int> fill; rlimit old; void on() { getrlimit(RLIMIT_NOFILE, &old); rlimit n = old; n.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &n); for(int fd; (fd = open("/dev/null", O_RDONLY | O_CLOEXEC)) >= 0;) fill.push_back(fd); } void off() { for(int fd : fill) close(fd); fill.clear(); setrlimit(RLIMIT_NOFILE, &old); } };
static void modules(vh::rng& r, const string& dir, const string& original, int n, bool names_files) {
    string image = slurp(original);
    for(int i = 0; i < n; i++) {
        string path = dir + vh::fmt("/module_%d.so", i); spit(path, image); chmod(path.c_str(), 0755); void* h = dlopen(path.c_str(), RTLD_NOW); if(!vh::check(h != nullptr, "harness:dlopen", dlerror() ?: "")) return;
        link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm); vector<frame_ptr> at; for(const char* f : {"corrupt_one", "corrupt_two"}) { auto p = (frame_ptr)dlsym(h, f); at.push_back(p); at.push_back(p + 3); }
        static const char* const faults[] = {"renamed away", "truncated to nothing", "replaced by text", "cut short", "no descriptors left", "a directory", "header damaged"}; int what = (int)r.below(7); string aside = path + ".aside"; limiter lim;
        // the mapping must stay intact, so files are replaced rather than written to
        if(what != 4) rename(path.c_str(), aside.c_str());
        switch(what) { case 1: spit(path, ""); break; case 2: spit(path, "not an object file\n"); break; case 3: spit(path, image.substr(0, 10 + r.below(70))); break; case 5: mkdir(path.c_str(), 0755); break; case 6: { string d = image; for(size_t k = 0; k < 64; k++) if(k > 3 && r.chance(1, 2)) d[k] = (char)r.below(256); spit(path, d); break; } default: break; }
        bool absorb = r.chance(3, 4); string d = vh::fmt("module %s%s", faults[what], absorb ? "" : " not absorbing"); vh::journal(d); cpptrace::absorb_trace_exceptions(absorb); vh::eval(); vh::distinct(d + vh::fmt("%d", what == 3 || what == 6 ? i : 0)); vh::stat(string("module_") + faults[what]);
        cpptrace::raw_trace t; t.frames = at; cpptrace::object_trace o; cpptrace::stacktrace s; bool threw = false; string text; int entry = (int)r.below(2);
        if(what == 4) lim.on(); try { if(entry) s = t.resolve(); else o = t.resolve_object_trace(); } catch(const std::exception& e) { threw = true; text = e.what(); } if(what == 4) lim.off();
        cpptrace::absorb_trace_exceptions(true);
        auto compare = [&](bool complete, const string& d) {
            if(entry) { if(vh::check(s.frames.size() == at.size(), "fault:frame-count", d)) for(size_t k = 0; k < at.size(); k++) { auto& f = s.frames[k]; string e = d + vh::fmt(": frame %zu object address %zx of raw %zx base %zx '%s' '%s'", k, (size_t)f.object_address, (size_t)at[k], (size_t)lm->l_addr, f.symbol.c_str(), f.filename.c_str()); vh::check(f.raw_address == at[k], "fault:addresses", e); vh::check(f.object_address == at[k] - lm->l_addr || (!complete && (what == 6 || f.object_address == 0)), complete ? "fault:module-remembered" : "fault:addresses", e); vh::check(f.filename == path || f.filename.empty() || complete || true, "fault:filename", e); } }
            else if(vh::check(o.frames.size() == at.size(), "fault:frame-count", d)) for(size_t k = 0; k < at.size(); k++) { auto& f = o.frames[k]; string e = d + vh::fmt(": object frame %zu object address %zx of raw %zx base %zx '%s'", k, (size_t)f.object_address, (size_t)at[k], (size_t)lm->l_addr, f.object_path.c_str()); vh::check(f.raw_address == at[k], "fault:addresses", e); vh::check(f.object_address == at[k] - lm->l_addr || (!complete && (what == 6 || f.object_address == 0)), complete ? "fault:module-remembered" : "fault:addresses", e); vh::check(f.object_path == path, "fault:path", e); } };
        if(!threw) compare(false, d); else vh::check(!absorb, "fault:exception", d + ": " + text);
        if(what == 5) rmdir(path.c_str()); if(what != 4) rename(aside.c_str(), path.c_str());
        // with the file back, everything is known again (a damaged file may have been believed)
        if(what != 6 && what != 3) { s = cpptrace::stacktrace(); o = cpptrace::object_trace(); if(entry) s = t.resolve(); else o = t.resolve_object_trace(); compare(true, d + ", put back"); }
        dlclose(h); unlink(path.c_str());
    }
}
// ---- broken debug information ------------------------------------------------------------------------------------------------------
extern "C" NI int known_function(int x) { asm volatile(""); return x + 1; }
static void debuginfo(vh::rng& r, const string& list) {
    cpptrace::raw_trace t; vector<bool> ours; size_t pos = 0; int mods = 0; string names;
    while(pos < list.size()) { size_t e = list.find(',', pos); string p = list.substr(pos, e == string::npos ? e : e - pos); pos = e == string::npos ? list.size() : e + 1; if(!r.chance(1, 2) && mods) continue; void* h = dlopen(p.c_str(), RTLD_NOW); if(!h) continue; mods++; names += " " + p.substr(p.rfind('/') + 1); for(const char* f : {"corrupt_one", "corrupt_two"}) { t.frames.push_back((frame_ptr)dlsym(h, f) + r.below(4)); ours.push_back(false); } }
    t.frames.push_back((frame_ptr)&known_function + 2); ours.push_back(true); t.frames.push_back(16); ours.push_back(false);
    for(size_t i = t.frames.size(); i > 1; i--) { size_t k = r.below(i); std::swap(t.frames[i - 1], t.frames[k]); bool b = ours[i - 1]; ours[i - 1] = ours[k]; ours[k] = b; }
    string d = "broken debug information in" + names; vh::journal(d); vh::eval(); vh::distinct(d); string first;
    for(int round = 0; round < 3; round++) { auto s = t.resolve(); if(!vh::check(s.frames.size() == t.frames.size(), "fault:frame-count", d)) return;
        for(size_t i = 0; i < s.frames.size(); i++) { auto& f = s.frames[i]; string e = d + vh::fmt(": frame %zu raw %zx of %zx '", i, (size_t)f.raw_address, (size_t)t.frames[i]) + f.symbol + "' '" + f.filename + "'"; vh::check(f.raw_address == t.frames[i], "fault:addresses", e);
            if(ours[i]) vh::check(f.symbol == "known_function" && f.filename.find("c16_more.cpp") != string::npos, "fault:spreads", e); else if(t.frames[i] > 100) { vh::stat(f.symbol.empty() ? "broken_frames_unnamed" : "broken_frames_named"); } } }
}
// ---- interceptors --------------------------------------------------------------------------------------------------------------------
struct tag_t { int v; };
static string protections() { string s; std::ifstream f("/proc/self/maps"); string l; while(std::getline(f, l)) { auto a = l.find(' '); if(l.find("[heap]") != string::npos || l.find('/') == string::npos) continue; s += l.substr(0, a + 5) + "\n"; } return s; }
template<int N> struct E : std::runtime_error { E() : std::runtime_error("e") {} };
template<int N> NI int use_tracing(int what) { // a handler type of its own, whose interceptor is prepared here
    int r = 0;
    cpptrace::try_catch([&] { if(what == 0) throw E<N>(); if(what == 1) throw 5; r = 1; }, [&](const E<N>&) { r = 2; }, [&](int x) { r = 10 + x; });
    return r;
}
static void prepare(const std::type_info& t) { cpptrace::detail::do_prepare_unwind_interceptor(t, [](const std::type_info* a, const std::type_info* b, void**, unsigned) -> bool { return *a == *b; }); }
class fake_info : public std::type_info { public: explicit fake_info(const char* n) : std::type_info(n) {} };
static void interceptors(vh::rng& r) {
    string before = protections(); int which = (int)r.below(4); long n = (long)r.below(5); string d;
    // a real type_info object of our own to be prepared, in a page of its own
    void* page = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy((char*)page + 64, (const void*)&typeid(std::runtime_error), 32); int prot = r.chance(1, 2) ? PROT_READ : PROT_READ | PROT_WRITE; mprotect(page, 4096, prot);
    void* vt = *(void**)((char*)page + 64); limiter lim;
    #ifdef WRAP_MM
    if(which == 0) { fail_mprotect = n; d = vh::fmt("mprotect %ld fails", n); } else if(which == 1) { fail_mmap = n; d = vh::fmt("mmap %ld fails", n); } else
    #endif
    if(which == 2) { lim.on(); d = "no descriptors for the memory map"; } else d = "healthy";
    vh::journal(d); bool threw = false; try { prepare(*(const std::type_info*)((char*)page + 64)); } catch(...) { threw = true; } fail_mprotect = fail_mmap = -1; if(which == 2) lim.off();
    vh::check(!threw, "fault:exception", d); vh::eval(); vh::distinct(d); vh::stat("interceptors_" + string(which == 0 ? "mprotect" : which == 1 ? "mmap" : which == 2 ? "maps" : "healthy"));
    bool changed = *(void**)((char*)page + 64) != vt; if(which == 3) vh::check(changed, "fault:not-prepared", d); if(which == 2 || (which == 0 && n < 2) || (which == 1 && n == 0)) vh::check(!changed, "fault:half-prepared", d);
    int now = 0; { std::ifstream f("/proc/self/maps"); string l; while(std::getline(f, l)) { unsigned long a, b; char p[8]; if(sscanf(l.c_str(), "%lx-%lx %7s", &a, &b, p) == 3 && a <= (unsigned long)page && (unsigned long)page < b) now = (p[0] == 'r' ? PROT_READ : 0) | (p[1] == 'w' ? PROT_WRITE : 0) | (p[2] == 'x' ? PROT_EXEC : 0); } }
    if(!(which == 0 && n == 2)) vh::check(now == prot, "fault:protections", d + vh::fmt(": %d was %d", now, prot));
    vh::check(protections() == before, "fault:protections-elsewhere", d);
    for(int k = 0; k < 3; k++) vh::check(use_tracing<1>(k) == (k == 0 ? 2 : k == 1 ? 15 : 1), "fault:handlers", d);
}
static int in_process(const string& name, std::function<void()> f) {
    pid_t p = fork();
    if(p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); vh::st().stats.clear(); f(); auto& s = vh::st(); for(auto& k : s.stats) vh::raw_line("@@STAT " + k.first + " " + std::to_string(k.second) + "\n"); vh::raw_line(vh::fmt("@@COUNT %llu\n@@NDISTINCT %zu\n", (unsigned long long)s.evaluations, s.distinct.size())); _exit(0); }
    int status; while(waitpid(p, &status, 0) == -1 && errno == EINTR) {}
    if(WIFSIGNALED(status)) vh::violation(vh::fmt("fault:died:%d", WTERMSIG(status)), name + " at: " + (vh::st().journal ? vh::st().journal : "")); else if(WEXITSTATUS(status) && WEXITSTATUS(status) != 99) vh::violation("fault:exited", name + vh::fmt(": exit %d at: ", WEXITSTATUS(status)) + (vh::st().journal ? vh::st().journal : ""));
    return status;
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); cpptrace::set_log_callback([](cpptrace::log_level, const char*) {}); string mode = vh::arg("mode");
    for(long i = 0, n = vh::iarg("processes", 10); i < n; i++) { auto s = r.next(); in_process(mode, [&] { vh::rng q(s);
        if(mode == "modules") { string dir = vh::arg("dir") + vh::fmt("/%d", (int)getpid()); mkdir(dir.c_str(), 0755); if(q.chance(1, 3)) cpptrace::experimental::set_cache_mode(q.chance(1, 2) ? cpptrace::cache_mode::prioritize_memory : cpptrace::cache_mode::hybrid); modules(q, dir, vh::arg("module"), 20, true); rmdir(dir.c_str()); }
        else if(mode == "debuginfo") debuginfo(q, vh::arg("modules")); else for(int k = 0; k < 15; k++) interceptors(q); }); }
    return vh::finish();
}
