// A stand-in for addr2line whose answers are a function of the address and which misbehaves on request.
// C16_HELP: exit status of --help ("k" = dies by a signal). C16_MODE: "mode:arg", applied when the object's path contains C16_OBJ.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include "fake_answer.h"
static char* in; static size_t in_n, in_cap; static char* out; static size_t out_n, out_cap;
static void put(char** b, size_t* n, size_t* cap, const char* s, size_t k) { if(*n + k + 1 > *cap) { *cap = (*n + k + 1) * 2; *b = realloc(*b, *cap); } memcpy(*b + *n, s, k); *n += k; (*b)[*n] = 0; }
static int get(size_t want_lines) { // 0: everything
    char t[65536]; size_t lines = 0;
    for(;;) { ssize_t k = read(0, t, want_lines ? 1 : sizeof t); if(k < 0 && errno == EINTR) continue; if(k <= 0) return 0; put(&in, &in_n, &in_cap, t, (size_t)k); if(want_lines && t[0] == '\n' && ++lines == want_lines) return 1; }
}
static void emit(const char* s, size_t n) { while(n) { ssize_t k = write(1, s, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) return; s += k; n -= (size_t)k; } }
static void answer_all(void) { for(char* p = in; p && *p;) { char* e = strchr(p, '\n'); char line[600]; if(!e) break; answer(strtoull(p, NULL, 16), line, sizeof line); strcat(line, "\n"); put(&out, &out_n, &out_cap, line, strlen(line)); p = e + 1; } }
static char* nth_line(size_t k) { char* p = out; while(k-- && p) { p = strchr(p, '\n'); if(p) p++; } return p && *p ? p : out; }
int main(int argc, char** argv) {
    for(int i = 1; i < argc; i++) if(!strcmp(argv[i], "--help")) { const char* h = getenv("C16_HELP"); if(h && *h == 'k') { kill(getpid(), SIGKILL); pause(); } return h ? atoi(h) : 0; }
    const char* object = ""; for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "-e")) object = argv[i + 1];
    const char* mode = getenv("C16_MODE"); const char* only = getenv("C16_OBJ"); long arg = 0;
    if(!mode || (only && *only && !strstr(object, only))) mode = "ok";
    const char* colon = strchr(mode, ':'); if(colon) arg = atol(colon + 1);
    #define IS(s) (!strncmp(mode, s, sizeof s - 1) && (mode[sizeof s - 1] == 0 || mode[sizeof s - 1] == ':'))
    if(IS("exit")) return (int)arg;
    if(IS("kill")) { kill(getpid(), SIGKILL); pause(); }
    if(IS("hup-out")) { close(1); get(0); return 0; }
    if(IS("early")) { char junk[4096]; memset(junk, 'j', sizeof junk); junk[100] = '\n'; for(long i = 0; i < arg; i++) emit(junk, sizeof junk); get(0); return 0; }
    if(IS("hup-in")) { if(arg) get((size_t)arg); close(0); usleep(1000); answer_all(); emit(out, out_n); return 0; }
    get(0); answer_all(); if(!out) put(&out, &out_n, &out_cap, "", 0);
    if(IS("ok")) emit(out, out_n);
    else if(IS("silent")) return (int)arg;
    else if(IS("status")) { emit(out, out_n); return (int)arg; }
    else if(IS("trickle")) { size_t step = arg > 0 ? (size_t)arg : 1; for(size_t i = 0; i < out_n; i += step) { emit(out + i, i + step > out_n ? out_n - i : step); usleep(20); } }
    else if(IS("truncate")) emit(out, out_n ? (size_t)arg % out_n : 0);
    else if(IS("truncate-kill")) { emit(out, out_n ? (size_t)arg % out_n : 0); kill(getpid(), SIGKILL); pause(); }
    else if(IS("drop")) { char* l = nth_line((size_t)arg); char* e = strchr(l, '\n'); emit(out, (size_t)(l - out)); if(e) emit(e + 1, out_n - (size_t)(e + 1 - out)); }
    else if(IS("double")) { char* l = nth_line((size_t)arg); char* e = strchr(l, '\n'); if(e) emit(out, (size_t)(e + 1 - out)); emit(l, out_n - (size_t)(l - out)); }
    else if(IS("random")) { srand((unsigned)arg); size_t n = (size_t)rand() % 5000; char* b = malloc(n + 1); for(size_t i = 0; i < n; i++) b[i] = (char)(rand() % 9 ? rand() % 256 : '\n'); emit(b, n); }
    else if(IS("badline")) { // one malformed line, everything else as it should be
        static const char* const bad[] = {"", "??", "?? ", "?? ?", "??:", "nonsense", " at ", "x at ", "x at :", "x at y", "x at y:", "x at y:z", "x at y:99999999999999999999", "x at y:-1", "x at y:4294967296", "?? ??:", "?? :?", "a:b at c", ":", "?? x:12", " at :5", "x at y:\xff\xfe", "\r", "x at y:12 (discriminator 3)", "x at y:?", "x at ??:?", "x at ??:0"};
        size_t kinds = sizeof bad / sizeof *bad + 2, k = (size_t)arg % kinds; char* l = nth_line((size_t)arg / kinds); char* e = strchr(l, '\n');
        emit(out, (size_t)(l - out));
        if(k < kinds - 2) emit(bad[k], strlen(bad[k])); else if(k == kinds - 2) { char* b = malloc(200000); memset(b, 'L', 200000); emit(b, 200000); } else emit("x\0 at \0:\0", 9);
        if(e) emit(e, out_n - (size_t)(e - out)); }
    return 0;
}
