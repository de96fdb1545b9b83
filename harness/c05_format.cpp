// C05: formatter output against an independent model, over random traces, options, sinks and object histories.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <fstream>
#include <iostream>
#include <memory>
#include <pty.h>
#include <sstream>
#include <termios.h>
using namespace cpptrace;
using std::string; using std::vector;

static string snippet_file;
enum filt { F_NONE, F_SYM_ODD, F_NO_LINE, F_ALL, F_LAST, F_ADDR };
enum trans { T_NONE, T_UPPER, T_CLEARSYM, T_ADDLINE, T_INLINE, T_PATH };

static bool apply_filter(filt f, const stacktrace_frame& x) {
    switch(f) {
        case F_SYM_ODD: return x.symbol.size() % 2 == 0;
        case F_NO_LINE: return x.line.has_value();
        case F_ALL: return false;
        case F_LAST: return x.symbol != "last_one";
        case F_ADDR: return (x.raw_address & 1) == 0;
        default: return true;
    }
}
static stacktrace_frame apply_trans(trans t, stacktrace_frame x) {
    switch(t) {
        case T_UPPER: for(auto& c : x.symbol) c = (char)toupper((unsigned char)c); break;
        case T_CLEARSYM: x.symbol.clear(); break;
        case T_ADDLINE: x.line = 7; break;
        case T_INLINE: x.is_inline = !x.is_inline; break;
        case T_PATH: x.filename = "/x/" + x.filename; break;
        default: break;
    }
    return x;
}

struct opts {
    string header = "Stack trace (most recent call first):";
    formatter::color_mode color = formatter::color_mode::automatic;
    formatter::address_mode addr = formatter::address_mode::raw;
    formatter::path_mode path = formatter::path_mode::full;
    bool snippets = false; int context = 2; bool columns = true;
    formatter::symbol_mode sym = formatter::symbol_mode::full;
    bool placeholders = true; filt filter = F_NONE; trans transform = T_NONE; bool brk = false; bool hide = true;
};

static string model_frame(const opts& o, const stacktrace_frame& f, bool color, size_t col) {
    const string BLUE = color ? "\033[34m" : "", YEL = color ? "\033[33m" : "", GRN = color ? "\033[32m" : "", RST = color ? "\033[0m" : "";
    string s;
    size_t aw = 0;
    char buf[64];
    if(f.is_inline) { s += "(inlined)"; while(s.size() < 18) s += ' '; aw = 18; }
    else if(o.addr != formatter::address_mode::none) {
        std::snprintf(buf, sizeof buf, "0x%016llx", (unsigned long long)(o.addr == formatter::address_mode::raw ? f.raw_address : f.object_address));
        s += BLUE + buf + RST; aw = 18;
    }
    if(aw) { s += ' '; aw++; }
    if(!f.symbol.empty()) {
        string sym = f.symbol;
        if(o.sym == formatter::symbol_mode::pretty) sym = prettify_symbol(sym);
        if(o.sym == formatter::symbol_mode::pruned) sym = prune_symbol(sym);
        s += "in " + YEL + sym + RST;
    }
    if(!f.symbol.empty() && !f.filename.empty()) s += o.brk ? "\n" + string(col + aw, ' ') : string(" ");
    if(!f.filename.empty()) {
        string p = f.filename;
        if(o.path == formatter::path_mode::basename) { auto i = p.find_last_of("/\\"); if(i != string::npos) p = p.substr(i + 1); }
        s += "at " + GRN + p + RST;
        if(f.line.has_value()) {
            s += ":" + BLUE + std::to_string(f.line.value()) + RST;
            if(f.column.has_value() && o.columns) s += ":" + BLUE + std::to_string(f.column.value()) + RST;
        }
    }
    return s;
}
static stacktrace_frame pre(const opts& o, const stacktrace_frame& f) { return o.transform == T_NONE ? f : apply_trans(o.transform, f); }

static string model_trace(const opts& o, const stacktrace& t, bool color) {
    string s;
    if(!o.header.empty()) s += o.header + "\n";
    if(t.frames.empty()) return s + "<empty trace>";
    size_t w = std::to_string(t.frames.size() - 1).size();
    size_t i = 0;
    if(o.hide) for(size_t k = 0; k < t.frames.size(); k++) {
        const string& y = t.frames[k].symbol;
        if(y == "__cxa_throw" || y == "CxxThrowException" || y == "_CxxThrowException") { i = k + 1; break; }
    }
    size_t n = 0;
    for(; i < t.frames.size(); i++, n++) {
        stacktrace_frame f = pre(o, t.frames[i]);
        bool out = o.filter != F_NONE && !apply_filter(o.filter, f);
        if(out && !o.placeholders) continue;
        string num = std::to_string(n); while(num.size() < w) num += ' ';
        s += "#" + num + " ";
        if(out) s += "(filtered)";
        else {
            s += model_frame(o, f, color, w + 2);
            if(o.snippets && f.line.has_value() && !f.filename.empty()) {
                string sn = get_snippet(f.filename, f.line.value(), f.column, o.context, color);
                if(!sn.empty()) s += "\n" + sn;
            }
        }
        if(i + 1 != t.frames.size()) s += "\n";
    }
    return s;
}

static string strip(const string& s) {
    string r;
    for(size_t i = 0; i < s.size();) {
        if(s[i] == '\033') { while(i < s.size() && s[i] != 'm') i++; i++; } else r += s[i++];
    }
    return r;
}
static bool balanced(const string& s) { // every color opened is reset before the next one and before the end
    bool open = false;
    for(size_t i = 0; i < s.size(); i++) if(s[i] == '\033') {
        size_t e = s.find('m', i); if(e == string::npos) return false;
        string c = s.substr(i, e - i + 1);
        if(c == "\033[0m") { if(!open) return false; open = false; } else { if(open) return false; open = true; }
        i = e;
    }
    return !open;
}

static stacktrace gen_trace(vh::rng& r) {
    static const char* syms[] = {"", "foo(int)", "ns::S<int, std::vector<int, std::allocator<int> > >::bar(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >) const",
        "__cxa_throw", "main", "_CxxThrowException", "CxxThrowException", "last_one", "operator<<(std::ostream&, int)", "void f<char, 'a'>()::{lambda(int)#1}::operator()(int) const", "a {} b {<5} {{x}} %s %n", "__cxa_throw_not", "x"};
    static const char* files[] = {"", "/usr/src/foo.cpp", "foo.cpp", "dir/sub dir/foo bar.cpp", "C:\\src\\foo.cpp", "/a/b\\c.cpp", "a{}.cpp", "/trailing/", "\xc3\xa9.cpp"};
    static const std::uint32_t lines[] = {0, 1, 2, 3, 9, 10, 12, 99, 4294967294u};
    size_t n;
    switch(r.below(8)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 10 + r.below(3); break; case 3: n = 99 + r.below(4); break; default: n = 1 + r.below(8); }
    if(r.chance(1, 120)) n = 999 + r.below(4);
    stacktrace t;
    for(size_t i = 0; i < n; i++) {
        stacktrace_frame f;
        f.raw_address = r.chance(1, 10) ? ~(frame_ptr)0 : r.chance(1, 10) ? 0 : r.next() >> r.below(64);
        f.object_address = r.next() >> r.below(64);
        f.is_inline = r.chance(1, 4);
        f.symbol = (r.chance(1, 60) ? "__cxa_throw" : syms[r.below(r.chance(1, 5) ? 13 : 3)]);
        if(r.chance(1, 8)) f.symbol = syms[r.below(13)];
        f.filename = r.chance(1, 5) ? snippet_file : files[r.below(9)];
        f.line = r.chance(1, 4) ? nullable<std::uint32_t>::null() : nullable<std::uint32_t>{f.filename == snippet_file && r.chance(4, 5) ? (std::uint32_t)(1 + r.below(12)) : r.pick(lines)};
        f.column = r.chance(1, 3) ? nullable<std::uint32_t>::null() : nullable<std::uint32_t>{(std::uint32_t)(r.chance(1, 8) ? 4294967294u : 1 + r.below(80))};
        if(f.filename == snippet_file && f.column.has_value() && f.column.value() > 1000) f.column = 5;
        t.frames.push_back(f);
    }
    if(n && r.chance(1, 6)) t.frames.back().symbol = "last_one";
    return t;
}

struct slot { std::unique_ptr<formatter> f; opts o; bool moved = false; };

static void set_random(vh::rng& r, slot& s, string& log) {
    formatter* q = nullptr;
    switch(r.below(13)) {
        case 0: { static const char* hs[] = {"", "Stack trace:", "two\nlines", "{} braces {{}}", "h"}; string h = hs[r.below(5)]; q = &s.f->header(h); s.o.header = h; log += "header "; break; }
        case 1: { auto m = (formatter::color_mode)r.below(3); q = &s.f->colors(m); s.o.color = m; log += vh::fmt("colors%d ", (int)m); break; }
        case 2: { auto m = (formatter::address_mode)r.below(3); q = &s.f->addresses(m); s.o.addr = m; log += vh::fmt("addr%d ", (int)m); break; }
        case 3: { auto m = (formatter::path_mode)r.below(2); q = &s.f->paths(m); s.o.path = m; log += vh::fmt("paths%d ", (int)m); break; }
        case 4: { bool b = r.chance(1, 2); q = &s.f->snippets(b); s.o.snippets = b; log += vh::fmt("snip%d ", b); break; }
        case 5: { int c = (int)r.below(6); q = &s.f->snippet_context(c); s.o.context = c; log += vh::fmt("ctx%d ", c); break; }
        case 6: { bool b = r.chance(1, 2); q = &s.f->columns(b); s.o.columns = b; log += vh::fmt("cols%d ", b); break; }
        case 7: { auto m = (formatter::symbol_mode)r.below(3); q = &s.f->symbols(m); s.o.sym = m; log += vh::fmt("sym%d ", (int)m); break; }
        case 8: { bool b = r.chance(1, 2); q = &s.f->filtered_frame_placeholders(b); s.o.placeholders = b; log += vh::fmt("ph%d ", b); break; }
        case 9: { filt f = (filt)r.below(6); if(f == F_NONE) q = &s.f->filter(nullptr); else q = &s.f->filter([f](const stacktrace_frame& x) { return apply_filter(f, x); }); s.o.filter = f; log += vh::fmt("filter%d ", (int)f); break; }
        case 10: { trans t = (trans)r.below(6); if(t == T_NONE) q = &s.f->transform(nullptr); else q = &s.f->transform([t](stacktrace_frame x) { return apply_trans(t, std::move(x)); }); s.o.transform = t; log += vh::fmt("trans%d ", (int)t); break; }
        case 11: { bool b = r.chance(1, 2); if(b && r.chance(1, 2)) q = &s.f->break_before_filename(); else q = &s.f->break_before_filename(b); s.o.brk = b; log += vh::fmt("brk%d ", b); break; }
        case 12: { bool b = r.chance(1, 2); if(b && r.chance(1, 2)) q = &s.f->hide_exception_machinery(); else q = &s.f->hide_exception_machinery(b); s.o.hide = b; log += vh::fmt("hide%d ", b); break; }
    }
    vh::check(q == s.f.get(), "setter-returns-self", log);
}

// stdout redirection helpers
static int pty_m = -1, pty_s = -1, file_fd = -1;
static string capture_stdout(bool tty, const std::function<void()>& fn) {
    std::cout.flush(); std::fflush(stdout);
    if(!tty) { if(ftruncate(file_fd, 0)) {} lseek(file_fd, 0, SEEK_SET); }
    dup2(tty ? pty_s : file_fd, 1);
    fn();
    std::cout.flush(); std::fflush(stdout);
    string s;
    char b[65536];
    if(tty) {
        // bytes written are readable from the master in order; output is kept below the pty's buffer
        fcntl(pty_m, F_SETFL, O_NONBLOCK);
        if(write(pty_s, "\004\004END", 5) != 5) {}
        for(int spin = 0; s.find("\004\004END") == string::npos && spin < 100000; spin++) { ssize_t k = read(pty_m, b, sizeof b); if(k > 0) s.append(b, k); else usleep(100); }
        auto p = s.find("\004\004END"); if(p != string::npos) s.resize(p);
    } else { lseek(file_fd, 0, SEEK_SET); ssize_t k; while((k = read(file_fd, b, sizeof b)) > 0) s.append(b, k); }
    return s;
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::rng r(vh::iarg("seed", 1));
    long cases = vh::iarg("cases", 3000);
    char dir[] = "/tmp/c05-XXXXXX"; if(!mkdtemp(dir)) return 3;
    snippet_file = string(dir) + "/snip.txt";
    { std::ofstream f(snippet_file); f << "line one\n\nthird {} line\n\tfour\n\n\nseven 'x'\neight\nnine\n  ten\neleven\ntwelve"; }
    if(openpty(&pty_m, &pty_s, nullptr, nullptr, nullptr)) { vh::raw_line("@@ERROR openpty failed\n"); return 3; }
    struct termios tio; tcgetattr(pty_s, &tio); cfmakeraw(&tio); tcsetattr(pty_s, TCSANOW, &tio);
    file_fd = open((string(dir) + "/out").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    for(long c = 0; c < cases; c++) {
        // --- a history of operations on three formatter objects, shadowed by plain option structs
        slot s[3];
        for(auto& x : s) x.f.reset(new formatter());
        string log;
        int ops = (int)r.below(24);
        vh::journal("history");
        for(int k = 0; k < ops; k++) {
            auto& a = s[r.below(3)]; auto& b = s[r.below(3)];
            unsigned op = r.below(16);
            if(op < 10) { if(!a.moved) set_random(r, a, log); }
            else if(op == 10 && !b.moved && &a != &b) { a.f.reset(new formatter(*b.f)); a.o = b.o; a.moved = false; log += "copyctor "; }
            else if(op == 11 && !b.moved) { *a.f = *b.f; a.o = b.o; a.moved = false; log += &a == &b ? "selfassign " : "copyassign "; }
            else if(op == 12 && !b.moved && &a != &b) { a.f.reset(new formatter(std::move(*b.f))); a.o = b.o; a.moved = false; b.moved = true; log += "movector "; }
            else if(op == 13 && !b.moved && &a != &b) { *a.f = std::move(*b.f); a.o = b.o; a.moved = false; b.moved = true; log += "moveassign "; }
            else if(op == 14 && !a.moved && !b.moved && &a != &b) { std::swap(*a.f, *b.f); std::swap(a.o, b.o); log += "swap "; }
            else if(op == 15 && !a.moved) { auto& self = *a.f; *a.f = std::move(self); log += "selfmove "; }
            vh::journal(log);
        }
        stacktrace t = gen_trace(r);
        const stacktrace t0 = t;
        for(auto& x : s) {
            if(x.moved) continue;
            const opts& o = x.o;
            const formatter& f = *x.f;
            vh::journal(log + vh::fmt("frames=%zu", t.frames.size()));
            bool always = o.color == formatter::color_mode::always, autom = o.color == formatter::color_mode::automatic;
            auto cmp = [&](const string& got, const string& want, const char* what) {
                vh::eval();
                if(got != want) {
                    size_t i = 0; while(i < got.size() && i < want.size() && got[i] == want[i]) i++;
                    vh::violation(string("format:") + what, "ops: " + log + vh::fmt(" diff at byte %zu\n got: ...%s\nwant: ...%s", i, vh::esc(got.substr(i < 60 ? 0 : i - 60, 240)).c_str(), vh::esc(want.substr(i < 60 ? 0 : i - 60, 240)).c_str()));
                }
            };
            string wd = model_trace(o, t, always), wc = model_trace(o, t, true), wn = model_trace(o, t, false);
            vh::distinct(wd);
            if(!o.header.empty() && c < 40) vh::sample(log + " => " + wd.substr(0, 300));
            cmp(f.format(t), wd, "trace-string");
            cmp(f.format(t, true), wc, "trace-string-color");
            cmp(f.format(t, false), wn, "trace-string-nocolor");
            if(!vh::check(balanced(f.format(t, true)), "format:balanced-escapes", log)) {}
            if(!o.snippets || true) vh::check(strip(f.format(t, true)) == strip(wn), "format:color-only-adds-escapes", log);
            { std::ostringstream ss; f.print(ss, t); cmp(ss.str(), wd + "\n", "trace-ostream"); }
            { std::ostringstream ss; f.print(ss, t, true); cmp(ss.str(), wc + "\n", "trace-ostream-color"); }
            { std::ostringstream ss; f.print(ss, t, false); cmp(ss.str(), wn + "\n", "trace-ostream-nocolor"); }
            if(r.chance(1, 4)) {
                char* p = nullptr; size_t n = 0; FILE* m = open_memstream(&p, &n);
                int which = (int)r.below(3);
                if(which == 0) f.print(m, t); else f.print(m, t, which == 1);
                fclose(m); cmp(string(p, n), (which == 0 ? wd : which == 1 ? wc : wn) + "\n", "trace-FILE"); free(p);
            }
            if(r.chance(1, 8) && t.frames.size() < 12 && wc.size() < 3000) {
                bool tty = r.chance(1, 2);
                int which = (int)r.below(3); // default, color, nocolor
                bool viacout = r.chance(1, 2);
                string got = capture_stdout(tty, [&] {
                    if(viacout) { if(which == 0) f.print(std::cout, t); else f.print(std::cout, t, which == 1); }
                    else { if(which == 0) f.print(t); else f.print(t, which == 1); }
                });
                bool col = which == 1 || (which == 0 && (always || (autom && tty)));
                cmp(got, (col ? wc : wn) + "\n", tty ? "trace-stdout-tty" : "trace-stdout");
                vh::stat(tty ? "tty_sink_prints" : "file_sink_prints");
            }
            for(int q = 0; q < 3 && !t.frames.empty(); q++) {
                const auto& fr = t.frames[r.below(t.frames.size())];
                stacktrace_frame pf = pre(o, fr);
                size_t ind = r.below(30);
                string fd = model_frame(o, pf, always, 0), fc = model_frame(o, pf, true, 0), fn = model_frame(o, pf, false, 0);
                cmp(f.format(fr), fd, "frame-string");
                cmp(f.format(fr, true), fc, "frame-string-color");
                cmp(f.format(fr, false), fn, "frame-string-nocolor");
                cmp(f.format(fr, true, ind), model_frame(o, pf, true, ind), "frame-string-indent");
                { std::ostringstream ss; f.print(ss, fr); cmp(ss.str(), fd + "\n", "frame-ostream"); }
                { std::ostringstream ss; f.print(ss, fr, false); cmp(ss.str(), fn + "\n", "frame-ostream-nocolor"); }
                { std::ostringstream ss; f.print(ss, fr, true, ind); cmp(ss.str(), model_frame(o, pf, true, ind) + "\n", "frame-ostream-indent"); }
                if(r.chance(1, 4)) {
                    char* p = nullptr; size_t n = 0; FILE* m = open_memstream(&p, &n);
                    f.print(m, fr); f.print(m, fr, true); f.print(m, fr, false, ind); fclose(m);
                    cmp(string(p, n), fd + "\n" + fc + "\n" + model_frame(o, pf, false, ind) + "\n", "frame-FILE"); free(p);
                }
                if(r.chance(1, 16)) {
                    int which = (int)r.below(3); bool tty = r.chance(1, 2);
                    string got = capture_stdout(tty, [&] { if(which == 0) f.print(fr); else f.print(fr, which == 1); });
                    bool col = which == 1 || (which == 0 && (always || (autom && tty)));
                    cmp(got, (col ? fc : fn) + "\n", tty ? "frame-stdout-tty" : "frame-stdout");
                }
            }
            // the trace itself is an input only
            bool same = t.frames.size() == t0.frames.size();
            for(size_t i = 0; same && i < t.frames.size(); i++) same = t.frames[i] == t0.frames[i] && t.frames[i].is_inline == t0.frames[i].is_inline;
            vh::check(same, "format:trace-modified", log);
        }
        // --- the default entry points
        opts d; opts ds; ds.snippets = true;
        auto cmp2 = [&](const string& got, const string& want, const char* what) { vh::eval(); if(got != want) vh::violation(string("default:") + what, vh::esc(got.substr(0, 400)) + "\nwant " + vh::esc(want.substr(0, 400))); };
        vh::journal("default entry points");
        cmp2(t.to_string(), model_trace(d, t, false), "to_string");
        cmp2(t.to_string(true), model_trace(d, t, true), "to_string(true)");
        { std::ostringstream ss; t.print(ss); cmp2(ss.str(), model_trace(d, t, false) + "\n", "print(stream)"); }
        { std::ostringstream ss; t.print(ss, true); cmp2(ss.str(), model_trace(d, t, true) + "\n", "print(stream,color)"); }
        { std::ostringstream ss; ss << t; cmp2(ss.str(), model_trace(d, t, false) + "\n", "operator<<"); }
        { std::ostringstream ss; t.print_with_snippets(ss); cmp2(ss.str(), model_trace(ds, t, false) + "\n", "print_with_snippets"); }
        { std::ostringstream ss; t.print_with_snippets(ss, true); cmp2(ss.str(), model_trace(ds, t, true) + "\n", "print_with_snippets(color)"); }
        cmp2(get_default_formatter().format(t), model_trace(d, t, false), "get_default_formatter");
        if(r.chance(1, 8) && t.frames.size() < 12) {
            bool tty = r.chance(1, 2);
            cmp2(capture_stdout(tty, [&] { t.print(); }), model_trace(d, t, tty) + "\n", "print()");
            cmp2(capture_stdout(tty, [&] { t.print_with_snippets(); }), model_trace(ds, t, tty) + "\n", "print_with_snippets()");
        }
        for(auto& fr : t.frames) if(r.chance(1, 3)) {
            cmp2(fr.to_string(), model_frame(d, fr, false, 0), "frame.to_string");
            cmp2(fr.to_string(true), model_frame(d, fr, true, 0), "frame.to_string(color)");
            std::ostringstream ss; ss << fr; cmp2(ss.str(), model_frame(d, fr, false, 0), "frame.operator<<");
        }
        vh::stat("histories"); vh::stat("history_ops", ops); vh::stat("frames_formatted", (long)t.frames.size());
    }
    unlink(snippet_file.c_str()); unlink((string(dir) + "/out").c_str()); rmdir(dir);
    return vh::finish();
}
