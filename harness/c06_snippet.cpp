// C06: source snippets against an independent model over generated files.
#include "vh.hpp"
#include <climits>
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
using std::string; using std::vector;

static vector<string> split_lines(const string& c) {
    vector<string> v; size_t p = 0;
    for(;;) {
        size_t q = c.find('\n', p);
        if(q == string::npos) { v.push_back(c.substr(p)); break; }
        string l = c.substr(p, q - p);
        if(!l.empty() && l.back() == '\r') l.pop_back();
        v.push_back(l); p = q + 1;
    }
    return v;
}
static string model(const vector<string>& L, size_t line, cpptrace::nullable<std::uint32_t> col, size_t ctx, bool color) {
    size_t n = L.size();
    if(line > n) return "";
    size_t b = line > ctx ? line - ctx : 1; if(b < 1) b = 1;
    size_t e = ctx >= n - line ? n : line + ctx;
    while(b < line && L[b - 1].empty()) b++;
    while(e > line && e >= 1 && L[e - 1].empty()) e--;
    string out;
    for(size_t i = b; i <= e; i++) {
        string num = std::to_string(i);
        if(i == line) {
            string m = " > " + num + ": ";
            size_t w = num.size() + 3;
            string pad(w < 8 ? 8 - w : 0, ' ');
            out += (color ? "\033[33m" : "") + pad + m + (color ? "\033[0m" : "") + L[i - 1];
            if(col.has_value()) out += "\n" + string(9 + col.value(), ' ') + (color ? "\033[33m^\033[0m" : "^");
        } else out += string(num.size() < 8 ? 8 - num.size() : 0, ' ') + num + ": " + L[i - 1];
        if(i != e) out += "\n";
    }
    return out;
}
static string strip(const string& s) {
    string r;
    for(size_t i = 0; i < s.size();) { if(s[i] == '\033') { while(i < s.size() && s[i] != 'm') i++; i++; } else r += s[i++]; }
    return r;
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::rng r(vh::iarg("seed", 1));
    long files = vh::iarg("files", 300), queries = vh::iarg("queries", 40);
    char dir[] = "/tmp/c06-XXXXXX"; if(!mkdtemp(dir)) return 3;
    struct ent { string path; vector<string> lines; bool readable; };
    vector<ent> known;
    vector<string> made;
    auto query = [&](const ent& e, size_t line, cpptrace::nullable<std::uint32_t> col, size_t ctx, bool color, int how) {
        string desc = vh::fmt("file=%s lines=%zu line=%zu col=%s ctx=%zu color=%d", e.path.c_str(), e.lines.size(), line, col.has_value() ? std::to_string(col.value()).c_str() : "-", ctx, color);
        vh::journal(desc);
        string got;
        try {
            if(how == 0 && !col.has_value()) got = cpptrace::get_snippet(e.path, line, ctx, color);
            else got = cpptrace::get_snippet(e.path, line, col, ctx, color);
        } catch(const std::exception& ex) { vh::violation("snippet:throws", desc + ": " + ex.what()); return; }
        string want = e.readable ? model(e.lines, line, col, ctx, color) : "";
        vh::eval(); vh::distinct(desc.substr(desc.find("lines=")) + want.substr(0, 200));
        if(got != want) vh::violation("snippet:text", desc + "\n got: " + vh::esc(got, 900) + "\nwant: " + vh::esc(want, 900));
        if(color && want.find("\033[31m") == string::npos && strip(want).size() + 9 + (col.has_value() ? 9 : 0) == want.size()) vh::check(strip(got) == strip(model(e.lines, e.readable ? line : e.lines.size() + 1, col, ctx, false)), "snippet:color-only-adds-escapes", desc);
        vh::stat(want.empty() ? "empty_answers" : "nonempty_answers");
    };
    for(long f = 0; f < files; f++) {
        ent e; e.path = vh::fmt("%s/f%ld %s.cpp", dir, f, r.chance(1, 2) ? "x" : "y"); e.readable = true;
        string c;
        unsigned kind = r.below(12);
        if(kind == 0) c = "";
        else if(kind == 1) c = string(r.below(5), '\n');
        else if(kind == 2) { size_t n = 1 + r.below(40); for(size_t i = 0; i < n; i++) c += (char)r.below(256); }
        else if(kind == 3) { for(int i = 0; i < 1200; i++) c += "l" + std::to_string(i) + "\n"; if(r.chance(1, 8)) for(int i = 0; i < 100100; i++) c += "\n"; c += "end"; }
        else {
            size_t n = 1 + r.below(30); const char* eol = r.chance(1, 3) ? "\r\n" : "\n";
            for(size_t i = 0; i < n; i++) {
                unsigned w = r.below(10);
                if(w < 4) {} // blank
                else if(w == 4) c += string(r.below(4), ' ');
                else if(w == 5) c += string(1 + r.below(3000), 'x');
                else if(w == 6) c += "\t{}  {<3} \\ \"q\" // %s\r";
                else if(w == 7) c += "\033[31mred";
                else { size_t k = r.below(30); for(size_t j = 0; j < k; j++) c += (char)('!' + r.below(90)); }
                if(r.chance(1, 25)) c += (eol[0] == '\r' ? "\n" : "\r\n"); // mixed endings
                c += eol;
            }
            if(r.chance(1, 2)) { if(r.chance(1, 2)) c += "no newline at end"; else if(!c.empty()) c.pop_back(); }
        }
        { std::ofstream o(e.path, std::ios::binary); o << c; }
        made.push_back(e.path);
        e.lines = split_lines(c);
        known.push_back(e);
        if(f < 3) vh::sample("file with " + std::to_string(e.lines.size()) + " lines: " + c.substr(0, 120));
        for(long q = 0; q < queries; q++) {
            const ent& t = r.chance(3, 4) ? known.back() : r.pick(known);
            size_t n = t.lines.size(), line;
            switch(r.below(10)) {
                case 0: line = n; break; case 1: line = n + 1; break; case 2: line = n + 2 + r.below(20); break; case 3: line = 1; break;
                case 4: { static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, UINT32_MAX, (size_t)UINT32_MAX + 1, 1u << 31}; line = r.pick(big); break; }
                case 5: line = n > 1 ? n - 1 : 1; break;
                default: line = 1 + r.below(n + 2);
            }
            size_t ctx;
            switch(r.below(10)) { case 0: ctx = 0; break; case 1: ctx = n; break; case 2: ctx = n < 2000 ? (r.chance(1, 2) ? SIZE_MAX - r.below(3) : SIZE_MAX / 2 + r.below(3)) : 3; break; case 3: ctx = line; break; default: ctx = r.below(6); }
            if(n > 2000 && ctx > 50) ctx = r.below(50);
            cpptrace::nullable<std::uint32_t> col = cpptrace::nullable<std::uint32_t>::null();
            if(r.chance(1, 2)) col = (std::uint32_t)(1 + r.below(r.chance(1, 6) ? 5000 : 60));
            query(t, line, col, ctx, r.chance(1, 3), (int)r.below(2));
            // a formatted trace shows exactly the same text under its frame
            if(r.chance(1, 5) && line <= UINT32_MAX - 1 && ctx <= INT_MAX) {
                cpptrace::stacktrace st; cpptrace::stacktrace_frame fr;
                fr.raw_address = 1; fr.object_address = 2; fr.is_inline = false; fr.symbol = "f"; fr.filename = t.path; fr.line = (std::uint32_t)line; fr.column = col;
                st.frames.push_back(fr);
                bool color = r.chance(1, 2);
                auto fm = cpptrace::formatter{}.header("").addresses(cpptrace::formatter::address_mode::none).snippets(true).snippet_context((int)ctx);
                string got = fm.format(st, color);
                string bare = cpptrace::formatter{}.header("").addresses(cpptrace::formatter::address_mode::none).format(st, color);
                string sn = model(t.lines, line, col, ctx, color);
                vh::eval();
                vh::check(got == bare + (sn.empty() ? "" : "\n" + sn), "snippet:in-trace", vh::fmt("line=%zu ctx=%zu\n got: %s", line, ctx, vh::esc(got).c_str()));
            }
        }
    }
    // line 0 is before the file: nothing outside the requested neighbourhood may appear
    for(size_t i = 0; i < known.size() && i < 40; i++) for(size_t ctx = 0; ctx < 4; ctx++) {
        vh::journal("line 0 " + known[i].path);
        string got = cpptrace::get_snippet(known[i].path, 0, ctx);
        vh::eval();
        string want; if(ctx) want = model(known[i].lines, 0, cpptrace::nullable<std::uint32_t>::null(), ctx, false);
        vh::check(got == want || got.empty(), "snippet:line-zero", vh::esc(got));
    }
    // paths that are not readable text files of bounded size
    {
        vector<ent> odd;
        auto add = [&](const string& p) { odd.push_back({p, {}, false}); };
        add(""); add(dir); add(string(dir) + "/missing"); add(string(dir) + "/missing/dir/x.cpp"); add(string(5000, 'a')); add("/proc/self/mem-not"); add(string("nul\0byte", 8));
        string loop = string(dir) + "/loop"; if(symlink(loop.c_str(), loop.c_str())) {} made.push_back(loop); add(loop);
        string big = string(dir) + "/big.txt"; { std::ofstream o(big); string l(1023, 'b'); l += '\n'; for(int i = 0; i < 10240; i++) o << l; o << "x"; } made.push_back(big); add(big); // one byte over 10 MiB
        for(auto& e : odd) for(int q = 0; q < 6; q++) query(e, q == 0 ? 1 : 1 + r.below(20000), cpptrace::nullable<std::uint32_t>::null(), r.below(4), r.chance(1, 2), 0);
        string fit = string(dir) + "/fit.txt"; string c; { string l(1023, 'b'); l += '\n'; for(int i = 0; i < 10239; i++) c += l; c += string(1024, 'z'); std::ofstream o(fit); o << c; } made.push_back(fit); // exactly 10 MiB
        ent e{fit, split_lines(c), true};
        for(size_t l : {size_t(1), size_t(2), size_t(5000), size_t(10239), size_t(10240), size_t(10241)}) query(e, l, cpptrace::nullable<std::uint32_t>::null(), 2, false, 0);
        vh::stat("odd_paths", (long)odd.size());
    }
    for(auto& p : made) unlink(p.c_str());
    rmdir(dir);
    return vh::finish();
}
