// C16: resolution while the environment fails underneath: misbehaving helper, failing/short/interrupted system calls at every
// placement, closed standard descriptors, signal storms, exhausted memory and descriptors. Every answer is compared with what the
// stand-in helper would have said; descriptors, children and signal state are compared before and after.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <algorithm>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <functional>
#include <new>
#include <poll.h>
#include <set>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
extern "C" {
#include "fake_answer.h"
}
using cpptrace::frame_ptr; using std::string; using std::vector;
#define NI __attribute__((noinline, noipa))
// ---- fault injection at system calls -----------------------------------------------------------------------------------------
enum call { PIPE, FORK, POLL, READ, WRITE, WAIT, FCNTL, DUP, EXEC, CLOSE, OPEN };
static const char* const call_names[] = {"pipe", "fork", "poll", "read", "write", "waitpid", "fcntl", "dup2", "exec", "close", "open"};
enum kind { NONE, INTR, SHORT, FAIL }; static const char* const kind_names[] = {"none", "EINTR", "short", "fail"};
static const int MAXC = 4096;
struct shared { long n, at, times, hits; int kind, err; unsigned char ids[MAXC]; };
static shared* S; static bool armed, planned;
static bool applicable(int c, int k) {
    switch(k) { case INTR: return c == POLL || c == READ || c == WRITE || c == WAIT || c == CLOSE; case SHORT: return c == READ || c == WRITE; case FAIL: return c != CLOSE; default: return false; }
}
static int decide(call c) {
    if(!armed) return NONE;
    long i = __atomic_fetch_add(&S->n, 1, __ATOMIC_SEQ_CST); if(i < MAXC) S->ids[i] = (unsigned char)c;
    if(S->kind == NONE || i < S->at || i >= S->at + S->times || !applicable(c, S->kind)) return NONE;
    __atomic_fetch_add(&S->hits, 1, __ATOMIC_SEQ_CST);
    static const int errs[][2] = {{EMFILE, ENFILE}, {EAGAIN, ENOMEM}, {ENOMEM, EINVAL}, {EIO, EIO}, {EPIPE, EIO}, {ECHILD, ECHILD}, {EMFILE, EINVAL}, {EBUSY, EMFILE}, {ENOENT, EAGAIN}, {EIO, EIO}, {EMFILE, ENOENT}};
    errno = S->kind == INTR ? EINTR : errs[c][S->err & 1]; return S->kind;
}
static bool broken_pipe_signal() { sigset_t s; pthread_sigmask(SIG_BLOCK, nullptr, &s); pthread_kill(pthread_self(), SIGPIPE); return true; }
extern "C" {
    #define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
    REAL(int, pipe, int*); REAL(int, pipe2, int*, int); REAL(pid_t, fork); REAL(int, poll, pollfd*, nfds_t, int); REAL(ssize_t, read, int, void*, size_t); REAL(ssize_t, write, int, const void*, size_t);
    REAL(pid_t, waitpid, pid_t, int*, int); REAL(int, dup2, int, int); REAL(int, dup3, int, int, int); REAL(int, close, int);
    int __real_fcntl(int, int, ...);
    int __wrap_pipe(int* p) { return decide(PIPE) ? -1 : __real_pipe(p); }
    int __wrap_pipe2(int* p, int f) { return decide(PIPE) ? -1 : __real_pipe2(p, f); }
    pid_t __wrap_fork() { return decide(FORK) ? -1 : __real_fork(); }
    int __wrap_poll(pollfd* f, nfds_t n, int t) { return decide(POLL) ? -1 : __real_poll(f, n, t); }
    ssize_t __wrap_read(int fd, void* b, size_t n) { int k = decide(READ); return k == SHORT ? __real_read(fd, b, n ? 1 : 0) : k ? -1 : __real_read(fd, b, n); }
    ssize_t __wrap_write(int fd, const void* b, size_t n) { int k = decide(WRITE); if(k == SHORT) return __real_write(fd, b, n ? 1 : 0); if(k) { int e = errno; if(e == EPIPE) broken_pipe_signal(); errno = e; return -1; } return __real_write(fd, b, n); }
    pid_t __wrap_waitpid(pid_t p, int* s, int o) { int k = decide(WAIT); if(k == FAIL) { int e = errno, st; while(__real_waitpid(p, &st, o) == -1 && errno == EINTR) {} errno = e; } return k ? -1 : __real_waitpid(p, s, o); }
    int __wrap_dup2(int a, int b) { return decide(DUP) ? -1 : __real_dup2(a, b); }
    int __wrap_dup3(int a, int b, int f) { return decide(DUP) ? -1 : __real_dup3(a, b, f); }
    int __wrap_close(int fd) { int k = decide(CLOSE); int r = __real_close(fd); if(k) { errno = EINTR; return -1; } return r; }
    int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* x = va_arg(a, void*); va_end(a); return decide(FCNTL) ? -1 : __real_fcntl(fd, cmd, x); }
    int __real_execvp(const char*, char* const*); int __real_execv(const char*, char* const*);
    int __wrap_execvp(const char* f, char* const* v) { return decide(EXEC) ? -1 : __real_execvp(f, v); }
    int __wrap_execv(const char* f, char* const* v) { return decide(EXEC) ? -1 : __real_execv(f, v); }
    #define VARGS char* v[64]; int n = 0; v[n++] = (char*)a0; va_list l; va_start(l, a0); if(a0) while(n < 63 && (v[n] = va_arg(l, char*))) n++; va_end(l); v[n] = nullptr
    int __wrap_execlp(const char* f, const char* a0, ...) { VARGS; return decide(EXEC) ? -1 : __real_execvp(f, v); }
    int __wrap_execl(const char* f, const char* a0, ...) { VARGS; return decide(EXEC) ? -1 : __real_execv(f, v); }
}
static void arm(int kind = NONE, long at = 0, long times = 1, int err = 0) { S->n = 0; S->hits = 0; S->kind = kind; S->at = at; S->times = times; S->err = err; planned = true; }
static void start() { armed = planned; } static void disarm() { armed = planned = false; }
// ---- allocation failures -------------------------------------------------------------------------------------------------------
static long fail_in = -1, live_blocks; static bool failing_allocs;
void* operator new(std::size_t n) { if(failing_allocs && fail_in >= 0 && fail_in-- == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED); return p; }
void operator delete(void* p) noexcept { if(p) __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED); free(p); } void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
// ---- the process's state -------------------------------------------------------------------------------------------------------
static string process_state() {
    string s = "fds"; vector<string> v; DIR* d = opendir("/proc/self/fd");
    if(d) { int own = dirfd(d); while(auto e = readdir(d)) { int fd = atoi(e->d_name); if(e->d_name[0] == '.' || fd == own) continue; char t[300]; ssize_t k = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), t, sizeof t - 1); v.push_back(std::to_string(fd) + "=" + (k > 0 ? string(t, (size_t)k) : "?") + (fcntl(fd, F_GETFD) & FD_CLOEXEC ? "c" : "") + std::to_string(fcntl(fd, F_GETFL))); } closedir(d); }
    std::sort(v.begin(), v.end()); for(auto& x : v) s += " " + x;
    sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m); s += " mask"; for(int i = 1; i < 65; i++) if(sigismember(&m, i) == 1) s += " " + std::to_string(i);
    sigpending(&m); s += " pending"; for(int i = 1; i < 65; i++) if(i != SIGALRM && i != SIGCHLD && sigismember(&m, i) == 1) s += " " + std::to_string(i);
    s += " actions"; for(int i = 1; i < 65; i++) { struct sigaction a; if(sigaction(i, nullptr, &a) == 0 && (a.sa_handler != SIG_DFL || a.sa_flags)) s += vh::fmt(" %d:%p:%x", i, (void*)a.sa_handler, (unsigned)a.sa_flags); }
    if(FILE* f = fopen("/proc/thread-self/children", "r")) { char b[4000]; size_t k = fread(b, 1, sizeof b - 1, f); fclose(f); b[k] = 0; s += " children "; s += b; }
    char cwd[300]; s += getcwd(cwd, sizeof cwd) ? cwd : ""; return s;
}
// ---- what is resolved ----------------------------------------------------------------------------------------------------------
struct subject { cpptrace::raw_trace raw; vector<cpptrace::object_frame> objects; };
static vector<frame_ptr> code; // addresses inside mapped code, several objects
static void find_code() {
    FILE* f = fopen("/proc/self/maps", "r"); char line[600];
    while(fgets(line, sizeof line, f)) { unsigned long a, b; char p[8]; if(sscanf(line, "%lx-%lx %7s", &a, &b, p) == 3 && p[2] == 'x' && !strstr(line, "[vs") && !strstr(line, "[uprobes")) { for(int i = 0; i < 40; i++) code.push_back(a + (b - a) / 41 * (unsigned)(i + 1)); } }
    fclose(f);
}
static subject make_subject(vh::rng& r, size_t n) {
    subject s; for(size_t i = 0; i < n; i++) s.raw.frames.push_back(r.chance(1, 15) ? (frame_ptr)r.below(4096) : r.pick(code) + r.below(16));
    s.objects = s.raw.resolve_object_trace().frames; return s;
}
struct answer_t { string symbol, filename; bool has_line = false; unsigned line = 0; };
static answer_t healthy(const cpptrace::object_frame& o) {
    answer_t a; if(o.object_path.empty()) return a;
    uint64_t x = o.object_address; char b[100]; snprintf(b, sizeof b, "%llx", (unsigned long long)x);
    switch(answer_kind(x)) {
        case 0: a.symbol = "??"; a.filename = o.object_path; a.has_line = true; a.line = 0; break;
        case 1: a.symbol = string("fn_") + b + "(int, char)"; a.filename = o.object_path; break;
        case 2: a.symbol = string("fn_") + b; a.filename = string("/src at dir/a:") + b + ".cpp"; a.has_line = true; a.line = (unsigned)(x % 977 + 1); break;
        default: a.symbol = string("ns::fn_") + b + "(int, char) const"; a.filename = string("/src/") + b + ".cpp"; a.has_line = true; a.line = (unsigned)(x % 977 + 1);
    } return a;
}
struct allow { int objects = 0; string garbage_in; int garbage_frames = 0; }; // how many objects may lack details; which may have arbitrary ones
static bool compare(const subject& s, const cpptrace::stacktrace& t, const allow& al, const string& d) {
    vh::eval(); vh::stat("frames_compared", (long)t.frames.size());
    if(!vh::check(t.frames.size() == s.raw.frames.size(), "fault:frame-count", d + vh::fmt(": %zu entries for %zu frames", t.frames.size(), s.raw.frames.size()))) return false;
    std::set<string> affected; int garbage = 0;
    for(size_t i = 0; i < t.frames.size(); i++) {
        auto& f = t.frames[i]; auto& o = s.objects[i]; auto h = healthy(o); string e = d + vh::fmt(": frame %zu of %zu (%s %zx): got '", i, t.frames.size(), o.object_path.c_str(), (size_t)o.object_address) + f.symbol.substr(0, 200) + "' '" + f.filename.substr(0, 200) + "' " + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + ", helper said '" + h.symbol + "' '" + h.filename + "' " + (h.has_line ? std::to_string(h.line) : "-");
        if(!vh::check(f.raw_address == s.raw.frames[i] && f.object_address == o.object_address, "fault:addresses", e)) return false;
        if(!vh::check(!f.is_inline && !f.column.has_value(), "fault:invented", e)) return false;
        bool line_same = f.line.has_value() == h.has_line && (!h.has_line || f.line.value() == h.line);
        if(f.symbol == h.symbol && f.filename == h.filename && line_same) continue;
        affected.insert(o.object_path);
        if(!al.garbage_in.empty() && o.object_path == al.garbage_in && garbage < al.garbage_frames) { garbage++; continue; }
        bool missing = (f.symbol.empty() || f.symbol == h.symbol) && (f.filename == o.object_path || f.filename.empty() || f.filename == h.filename) && (!f.line.has_value() || line_same);
        if(!vh::check(missing, "fault:wrong-detail", e)) return false;
    }
    if(!affected.empty()) vh::stat("degraded_results"); else vh::stat("complete_results");
    return vh::check((int)affected.size() <= al.objects, al.objects ? "fault:spreads" : "fault:lost-details", d + vh::fmt(": %zu objects lack details, %d may", affected.size(), al.objects) + (affected.empty() ? "" : ", e.g. " + *affected.begin()));
}
static cpptrace::stacktrace call_resolve(const subject& s, int entry) {
    if(entry == 0) return s.raw.resolve(); cpptrace::object_trace o; o.frames = s.objects; return o.resolve();
}
static void helper(const char* mode, const char* obj = "", const char* help = "0") { setenv("C16_MODE", mode, 1); setenv("C16_OBJ", obj, 1); setenv("C16_HELP", help, 1); }
// one call under observation; allow.objects tells what it may lose
static bool observed(const subject& s, int entry, bool absorb, const allow& al, const string& d) {
    vh::journal(d); cpptrace::absorb_trace_exceptions(absorb); string before = process_state(); bool threw = false; cpptrace::stacktrace t; string what;
    start(); try { t = call_resolve(s, entry); disarm(); } catch(const std::exception& e) { disarm(); threw = true; what = e.what(); } catch(...) { disarm(); threw = true; what = "?"; }
    string after = process_state(); cpptrace::absorb_trace_exceptions(true); bool ok = true;
    ok &= vh::check(before == after, "fault:residue", d + ": before: " + before + " after: " + after);
    if(threw) { vh::stat("surfaced_exceptions"); ok &= vh::check(!absorb && (al.objects > 0 || al.garbage_frames > 0), "fault:exception", d + ": " + what); }
    else ok &= compare(s, t, al, d);
    return ok;
}
// ---- scenarios (each in a process of its own) ------------------------------------------------------------------------------------
static void warm(vh::rng& r) { helper("ok"); subject s = make_subject(r, 5); observed(s, 0, true, {}, "healthy call"); }
static void placements(vh::rng& r, bool first, long lo, long hi) {
    if(!first) warm(r);
    subject s = make_subject(r, 6 + r.below(10)); helper("ok"); cpptrace::object_trace unused;
    for(long at = lo; at < hi; at++) for(int k = INTR; k <= FAIL; k++) for(int variant = 0; variant < (k == SHORT ? 1 : 2); variant++) {
        bool absorb = r.chance(2, 3); int entry = (int)r.below(2); if(r.chance(1, 3)) s = make_subject(r, 1 + r.below(20)); long times = k == FAIL ? 1 : variant ? 1 + (long)r.below(4) : 1;
        auto al = allow(); al.objects = k == FAIL ? (first ? 1000 : 1) : 0;
        string d = vh::fmt("%s call %ld%s%s%s entry %d times %ld", kind_names[k], at, k == FAIL ? variant ? " (second errno)" : " (first errno)" : "", first ? " of the first resolution" : "", absorb ? "" : " not absorbing", entry, times);
        arm(k, at, times, variant); observed(s, entry, absorb, al, d); long hits = S->hits; int id = at < MAXC && S->n > at ? S->ids[at] : -1;
        if(hits == 0) vh::stat("placements_past_end"); else { vh::stat(string("injected_") + kind_names[k] + "_" + call_names[id < 0 ? 0 : id], hits); vh::distinct(d + (id >= 0 ? call_names[id] : "")); }
        allow later; if(first && k == FAIL && id == EXEC) later.objects = 1000; // an absent helper may be remembered
        if(hits) observed(s, 0, true, later, "healthy call after " + d);
        if(first) return;
        if(S->n < at && k == FAIL && variant) return;
    }
}
static void first_placement(vh::rng& r, long at, int k) { // like placements, for one placement during the very first resolution
    helper("ok"); subject s = make_subject(r, 8); bool absorb = r.chance(2, 3); allow al; al.objects = k == FAIL ? 1000 : 0; int variant = (int)r.below(2);
    string d = vh::fmt("%s call %ld of the first resolution%s", kind_names[k], at, absorb ? "" : " not absorbing");
    arm(k, at, 1, variant); observed(s, 0, absorb, al, d); long hits = S->hits; int id = at < MAXC && S->n > at ? S->ids[at] : -1;
    if(!hits) { vh::stat("placements_past_end"); return; }
    vh::stat(string("first_injected_") + kind_names[k] + "_" + call_names[id < 0 ? 0 : id]); vh::distinct(d);
    allow later; if(k == FAIL && id == EXEC) later.objects = 1000;
    observed(s, 0, true, later, "healthy call after " + d);
}
static void first_help(vh::rng& r, const char* help) { // the helper's own probe
    helper("ok", "", help); subject s = make_subject(r, 8); allow al; if(strcmp(help, "0")) al.objects = 1000; observed(s, 0, true, al, string("probe exits ") + help); vh::distinct(string("help") + help);
    helper("ok"); if(*help == 'k') observed(s, 0, true, {}, "healthy call after the helper was killed while probed");
}
static void bad_helper(vh::rng& r, int rounds) {
    warm(r);
    for(int i = 0; i < rounds; i++) {
        bool big = r.chance(1, 8); subject s = make_subject(r, big ? 9000 + r.below(20000) : 1 + r.below(r.chance(1, 2) ? 6 : 60)); std::set<string> paths; for(auto& o : s.objects) if(!o.object_path.empty()) paths.insert(o.object_path);
        vector<string> pv(paths.begin(), paths.end()); string target = pv.empty() ? "" : r.pick(pv); bool all = r.chance(1, 4); string mode; allow al; al.objects = all ? 1000 : 1; long big_arg = (long)r.below(big ? 2000000 : 3000);
        switch(r.below(16)) {
            case 0: mode = vh::fmt("exit:%ld", (long)r.below(3)); break; case 1: mode = "kill"; break; case 2: mode = "hup-out"; break;
            case 3: mode = vh::fmt("early:%ld", (long)r.below(40)); al.garbage_frames = 1 << 30; break;
            case 4: mode = vh::fmt("hup-in:%ld", (long)r.below(5)); break; case 5: mode = vh::fmt("silent:%ld", (long)r.below(2)); break; case 6: mode = vh::fmt("status:%ld", (long)r.below(256)); break;
            case 7: mode = vh::fmt("trickle:%ld", 1 + (long)r.below(big ? 3000 : 9) + (big ? 2000 : 0)); al.objects = 0; break;
            case 8: mode = vh::fmt("truncate:%ld", big_arg); break; case 9: mode = vh::fmt("truncate-kill:%ld", big_arg); break;
            case 10: mode = vh::fmt("drop:%ld", (long)r.below(10)); break; case 11: mode = vh::fmt("double:%ld", (long)r.below(10)); break;
            case 12: mode = vh::fmt("random:%ld", (long)r.below(100000)); al.garbage_frames = 1 << 30; break;
            case 13: case 14: mode = vh::fmt("badline:%ld", (long)r.below(400)); al.garbage_frames = 1; break;
            default: mode = "ok"; al.objects = 0; }
        if(all && al.garbage_frames) { all = false; al.objects = 1; } al.garbage_in = target; if(!al.garbage_frames) al.garbage_in.clear();
        helper(mode.c_str(), all ? "" : target.c_str()); bool absorb = r.chance(3, 4);
        // an object whose path contains the target's is hit as well
        if(!all) { int k = 0; for(auto& p : pv) k += p.find(target) != string::npos; if(k > 1) continue; }
        string d = "helper " + mode + " for " + (all ? "all" : target) + vh::fmt(" with %zu frames%s", s.raw.frames.size(), absorb ? "" : " not absorbing");
        observed(s, (int)r.below(2), absorb, al, d); vh::stat("helper_" + mode.substr(0, mode.find(':'))); vh::distinct(mode + vh::fmt("%zu", s.raw.frames.size()));
        if(i < 2) vh::sample(d);
        helper("ok"); if(r.chance(1, 3)) observed(s, 0, true, {}, "healthy call after " + d);
    }
}
static volatile long ticks, pipes; static void tick(int) { ticks = ticks + 1; } static void on_pipe(int) { pipes = pipes + 1; }
static void reaper(int) { int e = errno; while(waitpid(-1, nullptr, WNOHANG) > 0) {} errno = e; }
static void storm(vh::rng& r, int rounds) {
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = tick; a.sa_flags = r.chance(3, 4) ? 0 : SA_RESTART; sigaction(SIGALRM, &a, nullptr);
    itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = (long)(150 + r.below(900)); it.it_value = it.it_interval; setitimer(ITIMER_REAL, &it, nullptr);
    for(int i = 0; i < rounds; i++) { bool big = r.chance(1, 6); subject s = make_subject(r, big ? 4000 + r.below(9000) : 1 + r.below(60)); string mode = r.chance(1, 2) ? vh::fmt("trickle:%ld", 1 + (long)r.below(90) + (big ? 4000 : 0)) : "ok"; helper(mode.c_str()); long t0 = ticks; observed(s, (int)r.below(2), r.chance(1, 2), {}, vh::fmt("interrupted by signals every %ldus (%s), helper %s, %zu frames", (long)it.it_interval.tv_usec, a.sa_flags ? "restarting" : "not restarting", mode.c_str(), s.raw.frames.size())); vh::stat("signals_during_calls", ticks - t0); vh::distinct(vh::fmt("storm%d%zu", i, s.raw.frames.size())); }
    it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_REAL, &it, nullptr);
}
static void surroundings(vh::rng& r, unsigned mask) { // closed standard descriptors, child handling, signal settings
    string d = "with"; allow al; helper("ok");
    for(int fd = 0; fd < 3; fd++) if(mask >> fd & 1) { close(fd); d += vh::fmt(" fd %d closed", fd); }
    unsigned chld = mask >> 3 & 3, sp = mask >> 5 & 3; struct sigaction a; memset(&a, 0, sizeof a); sigset_t m; sigemptyset(&m);
    static const char* const cn[] = {"", " SIGCHLD ignored", " SIGCHLD handler that reaps everything", " SA_NOCLDWAIT"}; d += cn[chld];
    if(chld == 1) signal(SIGCHLD, SIG_IGN); else if(chld == 2) { a.sa_handler = reaper; sigaction(SIGCHLD, &a, nullptr); } else if(chld == 3) { a.sa_handler = SIG_DFL; a.sa_flags = SA_NOCLDWAIT; sigaction(SIGCHLD, &a, nullptr); }
    static const char* const pn[] = {"", " SIGPIPE ignored", " SIGPIPE handled", " all signals blocked"}; d += pn[sp];
    if(sp == 1) signal(SIGPIPE, SIG_IGN); else if(sp == 2) signal(SIGPIPE, on_pipe); else if(sp == 3) { sigfillset(&m); if(chld == 2) sigdelset(&m, SIGCHLD); sigprocmask(SIG_SETMASK, &m, nullptr); }
    int status; pid_t own = 0; if(chld == 0) { own = fork(); if(own == 0) _exit(77); siginfo_t si; waitid(P_PID, (id_t)own, &si, WEXITED | WNOWAIT); }
    vh::distinct(d);
    for(int i = 0; i < 3; i++) { subject s = make_subject(r, 1 + r.below(40)); observed(s, (int)r.below(2), true, {}, vh::fmt("call %d ", i) + d); }
    for(const char* mode : {"exit:1", "hup-in:1", "silent:0"}) { subject s = make_subject(r, 15000); allow al; al.objects = 1000; helper(mode); observed(s, 0, true, al, string("helper ") + mode + " " + d); }
    helper("ok"); subject s = make_subject(r, 20); observed(s, 0, true, {}, "healthy call after all " + d); vh::check(pipes == 0, "fault:sigpipe-delivered", d);
    if(own > 0) vh::check(waitpid(own, &status, 0) == own && WIFEXITED(status) && WEXITSTATUS(status) == 77, "fault:foreign-child-reaped", d);
    vh::stat("surroundings");
}
static void descriptors(vh::rng& r, bool first) { // only k more descriptors available
    if(!first) warm(r); helper("ok"); subject s = make_subject(r, 12);
    for(int k = 0; k < 12; k++) {
        int top = dup(2 < 0 ? 0 : vh::st().out_fd); close(top); rlimit old, now; getrlimit(RLIMIT_NOFILE, &old);
        // fill every descriptor below the limit, then leave k free
        vector<int> fill; now = old; now.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &now); for(int fd; (fd = open("/dev/null", O_RDONLY | O_CLOEXEC)) >= 0;) fill.push_back(fd); for(int i = 0; i < k && !fill.empty(); i++) { close(fill.back()); fill.pop_back(); }
        allow al; al.objects = 1000; string d = vh::fmt("%d descriptors left%s", k, first ? " from the start" : ""); vh::journal(d);
        bool threw = false; cpptrace::stacktrace t; try { t = s.raw.resolve(); } catch(...) { threw = true; }
        for(int fd : fill) close(fd); setrlimit(RLIMIT_NOFILE, &old); vh::check(!threw, "fault:exception", d); compare(s, t, al, d); vh::distinct(d);
        observed(s, 0, true, {}, "healthy call after " + d); if(first) return;
    }
}
static void allocations(vh::rng& r) { // out of memory at the n-th allocation
    warm(r); helper("ok"); subject s = make_subject(r, 10); (void)s.raw.resolve();
    for(int entry = 0; entry < 5; entry++) for(long n = 0, tries = 0; n < 400; n++) {
        string d = vh::fmt("allocation %ld fails in entry %d", n, entry); vh::journal(d); bool threw = false; long blocks = live_blocks; bool all = false; string before = process_state(), after;
        { cpptrace::stacktrace t; cpptrace::object_trace ot; cpptrace::raw_trace rt; blocks = live_blocks; fail_in = n; failing_allocs = true;
          try { switch(entry) { case 0: t = s.raw.resolve(); break; case 1: ot = s.raw.resolve_object_trace(); break; case 2: rt = cpptrace::generate_raw_trace(); break; case 3: t = cpptrace::generate_trace(); break; default: ot = cpptrace::generate_object_trace(); } } catch(...) { threw = true; }
          failing_allocs = false; all = fail_in >= 0; fail_in = -1;
          if(entry == 0 && !t.frames.empty()) { allow al; al.objects = all ? 0 : 1000; compare(s, t, al, d); }
          vh::check(!threw, "fault:exception", d); vh::eval(); t.frames = {}; ot.frames = {}; rt.frames = {}; }
        long now = live_blocks;
        if(threw) break;
        after = process_state(); vh::check(before == after, "fault:residue", d + ": before: " + before + " after: " + after); if(now != blocks && !all && tries++ < 2) { n--; continue; } /* once-only caches */ vh::check(now == blocks || all, "fault:leak", d + vh::fmt(": %ld blocks", now - blocks));
        tries = 0; vh::stat("allocations_failed", !all); vh::distinct(d); if(all) break;
    }
    observed(s, 0, true, {}, "healthy call after running out of memory");
}
NI static void nested_live(vh::rng& r, int depth, int mode) {
    if(depth) { nested_live(r, depth - 1, mode); asm volatile(""); return; }
    auto raw = cpptrace::generate_raw_trace(); cpptrace::stacktrace t; static const char* const modes[] = {"ok", "exit:1", "kill", "random:5", "truncate:77", "silent:0", "hup-out"}; helper(modes[mode]);
    string d = string("live trace with helper ") + modes[mode]; vh::journal(d); t = cpptrace::generate_trace(); vh::eval();
    vh::check(t.frames.size() == raw.frames.size(), "fault:live-count", d + vh::fmt(": %zu of %zu", t.frames.size(), raw.frames.size()));
    for(size_t i = 1; i < t.frames.size() && i < raw.frames.size(); i++) if(!vh::check(t.frames[i].raw_address == raw.frames[i], "fault:live-address", d)) break;
    helper("ok"); vh::distinct(d + vh::fmt("%zu", t.frames.size()));
}
static void report() { auto& s = vh::st(); for(auto& k : s.stats) vh::raw_line("@@STAT " + k.first + " " + std::to_string(k.second) + "\n"); vh::raw_line(vh::fmt("@@COUNT %llu\n@@NDISTINCT %zu\n", (unsigned long long)s.evaluations, s.distinct.size())); }
static int in_process(const string& name, int seconds, std::function<void()> f) {
    for(int attempt = 0; ; attempt++) {
        pid_t p = fork();
        if(p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); signal(SIGPIPE, SIG_DFL); signal(SIGCHLD, SIG_DFL); vh::st().stats.clear(); f(); report(); _exit(0); }
        int status = 0; bool done = false; for(long t = 0; t < seconds * 200L; t++) { if(waitpid(p, &status, WNOHANG) == p) { done = true; break; } usleep(5000); }
        if(!done) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &status, 0); if(attempt == 0) continue; vh::violation("fault:hang", name + ": no progress; at: " + (vh::st().journal ? vh::st().journal : "")); return -1; }
        kill(-p, SIGKILL);
        if(WIFSIGNALED(status)) vh::violation(vh::fmt("fault:died:%d", WTERMSIG(status)), name + ": killed by signal " + std::to_string(WTERMSIG(status)) + " at: " + (vh::st().journal ? vh::st().journal : ""));
        else if(WEXITSTATUS(status) != 0) { if(WEXITSTATUS(status) != 99) vh::violation("fault:exited", name + vh::fmt(": exit %d at: ", WEXITSTATUS(status)) + (vh::st().journal ? vh::st().journal : "")); }
        return status;
    }
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
    S = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setenv("PATH", (vh::arg("fake") + ":/usr/bin:/bin").c_str(), 1); find_code(); long shard = vh::iarg("shard", 0), shards = vh::iarg("shards", 1), scale = vh::iarg("scale", 1); int T = 60;
    auto fresh = [&] { return r.next(); };
    // where the calls are: a dry run
    long first_calls = 0; { long* n = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); auto s = fresh(); in_process("dry run", T, [&] { vh::rng q(s); helper("ok"); subject x = make_subject(q, 12); arm(); observed(x, 0, true, {}, "dry run"); *n = S->n; }); first_calls = *n; }
    vh::stat("calls_in_first_resolution", shard == 0 ? first_calls : 0);
    for(long at = shard; at < first_calls + 4; at += shards) for(int k = INTR; k <= FAIL; k++) { auto s = fresh(); in_process("first resolution", T, [&] { vh::rng q(s); first_placement(q, at, k); }); }
    for(long round = 0; round < scale; round++) { auto s = fresh(); in_process("placements", T * 3, [&] { vh::rng q(s); placements(q, false, 0, 400); }); }
    for(const char* h : {"0", "1", "42", "127", "k"}) { auto s = fresh(); if(shard == 0 || *h == 'k') in_process("probe", T, [&] { vh::rng q(s); first_help(q, h); }); }
    for(unsigned m = (unsigned)shard; m < 128; m += (unsigned)shards) { auto s = fresh(); if(scale > 1 || m % 3 == (unsigned)vh::iarg("seed", 1) % 3 || m < 8 || m % 8 == 0) in_process("surroundings", T, [&] { vh::rng q(s); surroundings(q, m); }); }
    for(long round = 0; round < scale; round++) { auto s = fresh(); in_process("helpers", T * 3, [&] { vh::rng q(s); bad_helper(q, 150); }); s = fresh(); in_process("storm", T * 3, [&] { vh::rng q(s); storm(q, 60); }); }
    if(vh::iarg("alloc", 1)) { auto s = fresh(); in_process("descriptors", T, [&] { vh::rng q(s); descriptors(q, false); }); for(int i = 0; i < 3; i++) { s = fresh(); in_process("descriptors", T, [&] { vh::rng q(s); descriptors(q, true); }); } }
    if(vh::iarg("alloc", 1) && shard % 2 == 0) { auto s = fresh(); in_process("allocations", T * 2, [&] { vh::rng q(s); allocations(q); }); }
    { auto s = fresh(); in_process("live", T, [&] { vh::rng q(s); for(int i = 0; i < 40; i++) nested_live(q, (int)q.below(30), (int)q.below(7)); }); }
    return vh::finish();
}
