// C08: prettify_symbol on symbols printed twice from one tree (as a demangler spells it, as the rewrites should leave it),
// on real symbols against an independent rewriter, and on hostile strings.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <cxxabi.h>
#include <fstream>
#include <sys/wait.h>
using std::string; using std::vector;

static string pretty(const string& s, const char* what) {
    vh::journal(string(what) + ": " + s);
    try { return cpptrace::prettify_symbol(s); }
    catch(const std::exception& e) { vh::violation("pretty:throws", vh::esc(s) + ": " + e.what()); return s; }
}

enum style { gcc, llvm_, libcxx, msvc };
struct P { string raw, want; };
static P operator+(const P& a, const P& b) { return {a.raw + b.raw, a.want + b.want}; }
static P lit(const string& s) { return {s, s}; }
struct gen {
    vh::rng& r; style st; int depth = 0;
    string ident() {
        static const char* const b[] = {"foo", "Bar", "ns", "detail", "class_", "subclass", "structure", "my_struct", "std_", "stdx", "mystd", "allocator_", "basic_string_", "T1", "_x", "char_", "f\xc3\xb6", "x$"};
        string s = r.pick(b); if(r.chance(1, 3)) s += std::to_string(r.below(50)); return s;
    }
    string kw() { return st == msvc ? (r.chance(3, 4) ? "class " : "struct ") : ""; }
    P comma() {
        if(st == msvc) return {r.chance(3, 4) ? "," : r.pick(vector<string>{", ", " , ", ",  ", " ,"}), ", "};
        return lit(", ");
    }
    P tmpl(const string& keyword, const P& name, const vector<std::pair<P, bool>>& args) { // bool: kept by the rewrites
        P out = P{keyword, ""} + name + lit("<");
        bool first_raw = true, first_want = true; string last;
        for(auto& a : args) {
            if(!first_raw) out.raw += comma().raw;
            first_raw = false;
            out.raw += a.first.raw;
            if(a.second) { if(!first_want) out.want += ", "; first_want = false; out.want += a.first.want; }
        }
        bool nested = !out.raw.empty() && out.raw.back() == '>' && !args.empty();
        out.raw += nested && (st == gcc || st == msvc) ? " >" : ">";
        out.want += ">";
        return out;
    }
    string stdns() { return st == libcxx ? "std::__1::" : "std::"; }
    P alloc(const P& t) { return tmpl(st == msvc ? "class " : "", lit(stdns() + "allocator"), {{t, true}}); }
    P deleter(const P& t) { return tmpl(st == msvc ? "struct " : "", lit(stdns() + "default_delete"), {{t, true}}); }
    P string_of(const string& c, const string& tmplname, const string& folded, bool has_alloc) {
        P ct = lit(c);
        P traits = tmpl(st == msvc ? "struct " : "", lit(stdns() + "char_traits"), {{ct, true}});
        string ns = st == libcxx ? "std::__1::" : st == msvc || !has_alloc ? "std::" : r.chance(4, 5) ? "std::__cxx11::" : "std::";
        P name{ns + tmplname, (ns == "std::__cxx11::" ? "std::" : ns) + tmplname};
        vector<std::pair<P, bool>> args = {{ct, true}, {traits, true}};
        if(has_alloc) args.push_back({alloc(ct), false});
        P p = tmpl(st == msvc ? "class " : "", name, args);
        if(!folded.empty()) p.want = folded;
        return p;
    }
    P type() {
        if(depth > 5) return lit("int");
        depth++;
        P p;
        switch(r.below(26)) {
            case 0: case 1: case 2: p = lit(r.pick(vector<string>{"int", "char", "unsigned long", "double", "bool", "wchar_t", "char16_t", "long long", "void*"})); break;
            case 3: case 4: { string i = ident(); p = P{kw() + i, i}; break; }
            case 5: { string i = ident() + "::" + ident(); p = P{kw() + i, i}; break; }
            case 6: case 7: p = string_of("char", "basic_string", "std::string", true); break;
            case 8: p = string_of("char", "basic_string_view", "std::string_view", false); break;
            case 9: p = string_of(r.pick(vector<string>{"wchar_t", "char16_t", "char32_t", "char8_t", "unsigned char"}), r.chance(2, 3) ? "basic_string" : "basic_string_view", "", r.chance(1, 2)); break;
            case 10: case 11: { P t = type(); p = container(r.pick(vector<string>{"vector", "deque", "list", "forward_list", "_Vector_base"}), {{t, true}, {alloc(t), false}}); break; }
            case 12: { P k = type(), v = type(); P pr = tmpl(st == msvc ? "struct " : "", lit(stdns() + "pair"), {{k + lit(" const"), true}, {v, true}});
                p = container(r.pick(vector<string>{"map", "multimap"}), {{k, true}, {v, true}, {tmpl(st == msvc ? "struct " : "", lit(stdns() + "less"), {{k, true}}), true}, {alloc(pr), false}}); break; }
            case 13: { P t = type(); p = container("unique_ptr", {{t, true}, {deleter(t), false}}); break; }
            case 14: { P t = type() + lit(" []"); p = container("unique_ptr", {{t, true}, {deleter(t), false}}); break; }
            case 15: { P t = type(); p = container("_Hashtable", {{t, true}, {alloc(t), false}, {type(), true}, {type(), true}}); break; }
            // look-alikes that must survive
            case 16: { P t = type(); string i = ident(); p = container("vector", {{t, true}, {tmpl(st == msvc ? "class " : "", lit(i + "::allocator"), {{t, true}}), true}}); break; }
            case 17: { P t = type(); p = container("unique_ptr", {{t, true}, {tmpl("", lit(r.pick(vector<string>{"my::default_delete", "mystd::allocator", "std_::allocator", "std::pmr::polymorphic_allocator"})), {{t, true}}), true}}); break; }
            case 18: p = tmpl("", lit(r.pick(vector<string>{"mystd::basic_string", "basic_string", "x_std::basic_string_view", "std::my_basic_string", "std::basic_string_", "other::basic_string"})), {{lit("char"), true}}); break;
            case 19: { string i = ident(); vector<std::pair<P, bool>> a; for(size_t n = 1 + r.below(3); n--;) a.push_back({r.chance(1, 4) ? targ() : type(), true}); p = tmpl(kw(), lit(i), a); break; }
            case 20: { P t = type(); p = t + lit(r.pick(vector<string>{"&", "*", " const&", "&&", " const*", "* const"})); break; }
            case 21: p = type() + lit(" (*)(") + params() + lit(")"); break;
            case 22: { P a = anon(); string i = ident(); p = P{kw(), ""} + a + lit("::" + i); break; }
            case 23: { P t = type(); p = tmpl("", lit(ident()), {{t, true}}) + lit("::" + ident()); break; }
            case 24: if(depth == 1) { P t = type(); p = alloc(t); } else p = lit("short"); break; // an allocator in its own right
            default: p = lit("int [" + std::to_string(1 + r.below(9)) + "]"); break;
        }
        depth--;
        return p;
    }
    P container(const string& n, const vector<std::pair<P, bool>>& args) {
        string cxx11 = st == gcc && n == "list" && r.chance(2, 3) ? "std::__cxx11::" : stdns();
        return tmpl(st == msvc ? "class " : "", P{cxx11 + n, (cxx11 == "std::__cxx11::" ? "std::" : cxx11) + n}, args);
    }
    P targ() { return lit(r.pick(vector<string>{"5", "-3", "true", "(char)65", "(ns::E)2", "12ul", "&foo::bar"})); }
    P anon() { return st == msvc ? P{"`anonymous namespace'", "(anonymous namespace)"} : lit("(anonymous namespace)"); }
    P params() {
        P p; size_t n = r.below(4); bool first = true;
        for(size_t i = 0; i < n; i++) {
            if(!first) p = p + comma();
            // a parameter that starts like a default argument but is not one
            P t = type(); bool al = r.chance(1, 8);
            if(al) t = (r.chance(1, 2) ? alloc(t) : deleter(t)) + lit(r.pick(vector<string>{" const&", "&", "*", "::value_type"}));
            else if(!first && starts_default(t.want)) t = lit("int"); // by-value allocators are a known finding, see below
            p = p + t; first = false;
        }
        return p;
    }
    bool starts_default(const string& w) {
        for(string ns : {"std::", "std::__1::"}) for(string n : {"allocator<", "default_delete<"}) if(w.compare(0, ns.size() + n.size(), ns + n) == 0) return true;
        return false;
    }
    P symbol() {
        P p;
        if(st == msvc && r.chance(1, 3)) p = type() + lit(" __cdecl ");
        else if(r.chance(1, 4)) p = type() + lit(" ");
        for(size_t n = r.below(3); n--;) {
            if(r.chance(1, 6)) p = p + anon(); else if(r.chance(1, 3)) p = p + type(); else p = p + lit(ident());
            p = p + lit("::");
        }
        string i = ident();
        if(r.chance(1, 3)) { vector<std::pair<P, bool>> a; for(size_t n = r.below(3); n--;) { P t = type(); if(starts_default(t.want) && !a.empty()) t = lit("char"); a.push_back({t, true}); } p = p + tmpl("", lit(i), a); }
        else p = p + lit(r.chance(1, 5) ? "~" + i : r.chance(1, 6) ? r.pick(vector<string>{"operator()", "operator[]", "operator==", "operator+=", "operator new"}) : i);
        return p + lit("(") + params() + lit(")") + lit(r.pick(vector<string>{"", " const", "", " const&", " [clone .cold]"}));
    }
};

// a separate rewriter for Itanium symbols without operator names made of angle brackets
static size_t close_of(const string& s, size_t open) { int d = 0; for(size_t i = open; i < s.size(); i++) { if(s[i] == '<') d++; else if(s[i] == '>' && --d == 0) return i; } return string::npos; }
static bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
// length of "std::" or "std::x::" in front of name at i, 0 if none
static size_t std_prefix(const string& s, size_t i) {
    if(s.compare(i, 5, "std::")) return 0;
    size_t j = i + 5; while(j < s.size() && word(s[j])) j++;
    return 5 + (j > i + 5 && s.compare(j, 2, "::") == 0 ? 1000 + (j + 2 - i - 5) : 0); // encoded: optional second part
}
static bool at_std_name(const string& s, size_t i, const string& name, size_t& lt) {
    size_t e = std_prefix(s, i); if(!e) return false;
    if(name.compare(0, 6, "basic_") == 0 && (s.compare(i + 5, 8, "string::") == 0 || s.compare(i + 5, 13, "string_view::") == 0)) return false; // a constructor of std::string, not a type
    if(s.compare(i + 5, name.size() + 1, name + "<") == 0) { lt = i + 5 + name.size(); return true; }
    if(e > 1000) { size_t j = i + 5 + (e - 1005); if(s.compare(j, name.size() + 1, name + "<") == 0) { lt = j + name.size(); return true; } }
    return false;
}
static string reference(string s) {
    string t;
    for(char c : s) { t += c; } // collapse "> >"
    for(size_t p; (p = t.find("> >")) != string::npos;) t.erase(p + 1, 1);
    for(const char* nm : {"basic_string", "basic_string_view"}) for(size_t i = 0; i < t.size(); i++) {
        size_t lt; if((i && word(t[i - 1])) || !at_std_name(t, i, nm, lt)) continue;
        if(t.compare(lt + 1, 4, "char") || (lt + 5 < t.size() && word(t[lt + 5]))) continue;
        size_t c = close_of(t, lt); if(c == string::npos) continue;
        t.replace(i, c + 1 - i, string(nm) == "basic_string" ? "std::string" : "std::string_view");
    }
    for(const char* nm : {"allocator", "default_delete"}) for(size_t i = 0; i + 2 < t.size(); i++) {
        if(t.compare(i, 2, ", ")) continue;
        size_t lt; if(!at_std_name(t, i + 2, nm, lt)) continue;
        size_t c = close_of(t, lt); if(c == string::npos || c + 1 >= t.size() || (t[c + 1] != '>' && t[c + 1] != ',')) continue;
        t.erase(i, c + 1 - i); i--;
    }
    for(size_t p; (p = t.find("std::__cxx11::")) != string::npos;) t.erase(p + 5, 9);
    return t;
}
static bool subsequence(const string& out, const string& in) {
    size_t i = 0;
    for(char c : out) { if(c == ' ' || c == '(' || c == ')') continue; while(i < in.size() && in[i] != c) i++; if(i == in.size()) return false; i++; }
    return true;
}
static void hostile(const string& s) {
    string o = pretty(s, "hostile"); vh::eval(); vh::distinct(s);
    vh::check(subsequence(o, s), "pretty:invents-text", vh::esc(s) + " -> " + vh::esc(o));
    // each one is removed once: text where removing one leaves another ("std::__cxx11::__cxx11::") is no symbol
    auto count = [&](const char* what) { size_t n = 0; for(size_t p = 0; (p = s.find(what, p)) != string::npos; p++) n++; return n; };
    if(count("__cxx11::") == count("std::__cxx11::")) vh::check(o.find("std::__cxx11::") == string::npos, "pretty:leaves-abi-namespace", vh::esc(s) + " -> " + vh::esc(o));
    vh::stat(o == s ? "hostile_unchanged" : "hostile_changed");
}
// runs with the default stack in a child, which may not crash
static void survives(const string& s, const char* key) {
    vh::eval(); vh::distinct(s.substr(0, 40) + std::to_string(s.size()));
    pid_t p = fork();
    if(!p) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); try { cpptrace::prettify_symbol(s); } catch(...) { _exit(7); } _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    vh::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, key, vh::fmt("status %#x for ", st) + vh::esc(s, 60));
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    cpptrace::absorb_trace_exceptions(false);
    vh::rng r(vh::iarg("seed", 1));
    long n = vh::iarg("cases", 5000);
    for(long i = 0; i < n; i++) {
        gen g{r, (style)r.below(4)};
        P p = g.symbol();
        if(p.raw.size() > 4000) continue;
        string got = pretty(p.raw, "generated");
        vh::eval(); vh::distinct(p.raw); vh::stat("generated_symbols"); vh::stat(got == p.raw ? "generated_already_pretty" : "generated_rewritten");
        if(i < 2) vh::sample(p.raw + "  =>  " + p.want);
        if(!vh::check(got == p.want, "pretty:generated-symbol", "symbol: " + vh::esc(p.raw, 1200) + "\n got: " + vh::esc(got) + "\nwant: " + vh::esc(p.want))) continue;
        string again = pretty(got, "again");
        vh::check(again == got, "pretty:not-idempotent", vh::esc(got) + " -> " + vh::esc(again));
        if(i % 5 == 0) {
            cpptrace::stacktrace_frame f; f.raw_address = 1; f.object_address = 1; f.is_inline = false; f.symbol = p.raw;
            auto fm = cpptrace::formatter{}.addresses(cpptrace::formatter::address_mode::none).symbols(cpptrace::formatter::symbol_mode::pretty);
            string line = fm.format(f);
            vh::check(line == "in " + p.want, "pretty:formatter-mode", "got '" + vh::esc(line) + "' for " + vh::esc(p.raw));
            auto full = cpptrace::formatter{}.addresses(cpptrace::formatter::address_mode::none).format(f);
            vh::check(full == "in " + p.raw, "pretty:formatter-full-mode", "got '" + vh::esc(full) + "' for " + vh::esc(p.raw));
        }
        hostile(p.raw.substr(0, r.below(p.raw.size() + 1)));
        string m = p.raw;
        for(size_t k = 1 + r.below(4); k-- && !m.empty();) {
            size_t at = r.below(m.size());
            switch(r.below(4)) {
                case 0: m.erase(at, 1 + r.below(6)); break;
                case 1: m.insert(at, r.pick(vector<string>{"<", ">", ",", " ", "> >", "class ", "struct ", ", std::allocator<", "std::basic_string<char", "std::", "::", "`anonymous namespace'", ">> >", "std::__cxx11::std::", string("\0", 1)})); break;
                case 2: m[at] = (char)r.below(256); break;
                default: m += m.substr(at, 20); break;
            }
        }
        hostile(m);
        string soup; for(size_t k = r.below(20); k--;) soup += r.pick(vector<string>{"<", ">", " ", ",", "class ", "struct\t", "std::", "std::x::", "basic_string", "basic_string_view", "<char", "allocator<", ", std::allocator<", ",std::default_delete<int>", "__cxx11::", "> ", "x", "(", ")"});
        hostile(soup);
    }
    for(const char* unit : {"<", ">", "> ", "class ", "struct ", ", std::allocator<", "std::basic_string<char", "std::basic_string<char>", "std::__cxx11::", ", ", "std::vector<", "`anonymous namespace'"})
        for(long k : {10L, 300L, vh::iarg("deep", 2000)}) { string s; for(long i = 0; i < k; i++) s += unit; hostile(s); vh::stat("repetitive_inputs"); }
    survives(string(60000, 'a') + "(int)", "pretty:crash");
    survives("std::vector<" + string(60000, 'a') + ">", "pretty:crash");
    survives("std::" + string(vh::iarg("long", 400000), 'a') + "::x()", "pretty:crash:long-run");
    survives("f(int" + string(vh::iarg("long", 400000), ' ') + ", int)", "pretty:crash:long-run");
    vh::check(pretty("f(int, std::allocator<int>, int)", "by-value") == "f(int, std::allocator<int>, int)", "pretty:by-value-allocator", "f(int, std::allocator<int>, int) -> " + pretty("f(int, std::allocator<int>, int)", "x"));

    for(string n : {"string", "string_view"}) { string c = "std::" + n + "::basic_" + n + "<char const*>(char const*, char const*)"; vh::eval(); vh::check(pretty(c, "constructor") == c, "pretty:string-constructor", c + " -> " + pretty(c, "constructor")); }
    std::ifstream f(vh::arg("corpus")); string l; vector<string> all;
    while(std::getline(f, l)) all.push_back(l);
    for(long k = 0, m = all.empty() ? 0 : vh::iarg("corpus-cases", 2000); k < m; k++) {
        const string& sym = r.pick(all); int st;
        char* d = abi::__cxa_demangle(sym.c_str(), nullptr, nullptr, &st); if(!d) continue;
        string s = d; free(d);
        if(s.size() > 5000) continue;
        string t = s; for(size_t p; (p = t.find("->")) != string::npos;) t[p + 1] = '.';
        { string once = pretty(s, "corpus"), twice = pretty(once, "again"); vh::eval(); if(!vh::check(once == twice, "pretty:not-idempotent", sym + ": " + vh::esc(s, 1500) + "\n once: " + vh::esc(once) + "\ntwice: " + vh::esc(twice))) continue; }
        if(s.find("operator<") != string::npos || s.find("operator>") != string::npos || s.find("operator,") != string::npos || t != s || s.find(">(") != string::npos || s.find("'") != string::npos || s.find('"') != string::npos || s.find(" > ") != string::npos) { vh::stat("corpus_outside_oracle"); continue; }
        string got = pretty(s, "corpus"), want = reference(s);
        vh::eval(); vh::distinct(sym); vh::stat(got == s ? "corpus_unchanged" : "corpus_rewritten");
        if(!vh::check(got == want, "pretty:real-symbol", sym + "\nsymbol: " + vh::esc(s, 1500) + "\n got: " + vh::esc(got) + "\nwant: " + vh::esc(want))) continue;
        vh::check(pretty(got, "again") == got, "pretty:not-idempotent", got);
    }
    return vh::finish();
}
