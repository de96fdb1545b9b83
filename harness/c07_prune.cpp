// C07: prune_symbol on generated symbols with a known qualified name, on real symbols with an independent demangler as oracle,
// and on hostile bytes.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <cxxabi.h>
#include <fstream>
#include <pthread.h>
#ifdef WITH_LLVM
#include <llvm/Demangle/Demangle.h>
#endif
using std::string; using std::vector;

static string prune(const string& s, const char* what) {
    string in(s.begin(), s.end()); in.shrink_to_fit();
    vh::journal(string(what) + ": " + s);
    try { return cpptrace::prune_symbol(in); }
    catch(const std::exception& e) { vh::violation("prune:throws", vh::esc(s) + ": " + e.what()); return s; }
}

// ---- generated symbols ------------------------------------------------------------------------------------------------
struct gen {
    vh::rng& r; bool llvm; // ">>" or "> >", lambda spelling
    int depth = 0;
    string ident() {
        static const char* const base[] = {"foo", "bar", "S", "ns", "v1", "a_b", "_M_x", "T2", "detail", "x$y", "operator_", "operators", "const_iterator", "volatile_t", "noexcept_x", "decltypex", "new_thing", "lambda", "lambda_x", "unnamed", "type", "class_", "delete_me", "f\xc3\xb6\xc3\xb6", "\xe6\x97\xa5", "auto_x", "co_await_x"};
        string s = r.pick(base);
        if(r.chance(1, 4)) s += std::to_string(r.below(100));
        return s;
    }
    string close(const string& inner) { return !llvm && !inner.empty() && inner.back() == '>' ? " >" : ">"; }
    string targs() {
        if(depth > 3) return "<int>";
        depth++;
        string s; size_t n = r.below(4);
        for(size_t i = 0; i < n; i++) { if(i) s += ", "; s += targ(); }
        depth--;
        return "<" + s + close(s);
    }
    string targ() {
        switch(r.below(14)) {
            case 0: return std::to_string(r.below(1000)) + r.pick(vector<string>{"", "u", "l", "ul", "ull"});
            case 1: return "(char)" + std::to_string(r.below(128));
            case 2: return r.chance(1, 2) ? "true" : "-5";
            case 3: return "&" + ident() + "::" + ident();
            case 4: return "(" + ident() + "::" + ident() + ")3";
            case 5: return ident() + "<" + std::to_string(r.below(9)) + "ul>{\"" + lit('"') + "\"}";
            case 6: return "(" + ident() + " > " + ident() + ")";
            case 7: return "(" + ident() + " >= 3) && (1 < 2)" == "" ? "" : "((" + ident() + ")>=(3))";
            case 8: return "&" + ident() + "::operator" + r.pick(vector<string>{">", ">>", ">=", ">>=", "<=", "->", "->*", "()", "[]", "<", "<<=", "+", "==", "<=>"}) + "(" + ident() + " const&)";
            case 9: return llvm ? ident() + "()::'lambda'()" : ident() + "()::{lambda()#1}";
            case 10: return llvm ? "0x1p-1" : "{(char)65, (char)39}";
            case 11: return "std::enable_if<((sizeof (int))>(4)), int>::type"; // demanglers parenthesise this one
            default: return type();
        }
    }
    string lit(char q) {
        string s; size_t n = r.below(8);
        for(size_t i = 0; i < n; i++) switch(r.below(7)) {
            case 0: s += string("\\") + q; break; case 1: s += "\\\\"; break; case 2: s += "\\n"; break;
            case 3: s += q == '"' ? "'" : "\""; break; case 4: s += r.pick(vector<string>{"<", ">", "(", ")", "`", "{", " ", "::"}); break;
            default: s += (char)('a' + r.below(26));
        }
        return s;
    }
    string tname() { // a class type
        string s = ident(); if(r.chance(1, 2)) s += targs();
        if(r.chance(1, 2)) { string t = ident(); if(r.chance(1, 3)) t += targs(); s = s + "::" + t; }
        if(r.chance(1, 12)) s = "(anonymous namespace)::" + s;
        return s;
    }
    string type() {
        if(depth > 4) return "int";
        depth++;
        string s;
        switch(r.below(9)) {
            case 0: case 1: case 2: s = r.pick(vector<string>{"int", "char", "unsigned long", "long long", "unsigned char", "double", "bool", "void*", "char const*", "float", "decltype(nullptr)", "..."}); if(s == "...") s = "int"; break;
            case 3: s = type() + r.pick(vector<string>{"&", " const&", "&&", "*", " const* const", " volatile"}); break;
            case 4: s = type() + " (*)(" + params() + ")"; break;
            case 5: s = type() + " (" + tname() + "::*)(" + params() + ")" + r.pick(vector<string>{"", " const"}); break;
            case 6: s = "int " + string(r.chance(1, 2) ? "(&) [" : "[") + std::to_string(1 + r.below(9)) + "]"; break;
            default: s = tname();
        }
        depth--;
        return s;
    }
    string params() { if(depth > 3) return "int"; depth++; string s; size_t n = r.below(4); for(size_t i = 0; i < n; i++) { if(i) s += ", "; s += type(); } if(r.chance(1, 15)) s += s.empty() ? "..." : ", ..."; depth--; return s; }
    string quals() { return r.pick(vector<string>{"", "", "", " const", " volatile", " const&", " &&", " const volatile", " &"}); }
    // conversion target: text, pruned
    std::pair<string, string> conv() {
        switch(r.below(8)) {
            case 0: { string b = r.pick(vector<string>{"int", "bool", "unsigned long", "unsigned long long", "long long", "signed char", "unsigned char"}); return {b, b}; }
            case 1: return {"void*", "void*"};
            case 2: { string a = ident(); return {a + "&", a + "&"}; }
            case 3: { string a = ident(), t = targs(); return {a + t, a}; }
            case 4: { string a = ident(), b = ident(); return {a + "::" + b, a + "::" + b}; }
            case 5: { string a = ident(), b = ident(); return {"int " + a + targs() + "::*", "int " + a + "::*"}; }
            case 6: return {"decltype(nullptr)", "decltype(nullptr)"};
            default: { string a = ident(); return {a + "**", a + "**"}; }
        }
    }
    struct sym { string text, pruned; };
    // last component of a function name, without its parameters
    sym fname(bool& templ, bool& ctor, bool& lambda) {
        templ = ctor = lambda = false;
        switch(r.below(10)) {
            case 0: case 1: case 2: { string i = ident(); return {i, i}; }
            case 3: case 4: { string i = ident(); templ = true; return {i + targs(), i}; }
            case 5: { static const char* const ops[] = {"+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", "<", ">", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ">>=", "<<=", "==", "!=", "<=", ">=", "<=>", "&&", "||", "++", "--", ",", "->*", "->", "()", "[]"};
                string o = r.pick(ops); string t; if(r.chance(1, 3)) { templ = true; t = targs(); if(o.back() == '<') t = " " + t; } return {"operator" + o + t, "operator" + o}; }
            case 6: { string o = r.pick(vector<string>{"operator new", "operator new[]", "operator delete", "operator delete[]"}); return {o, o}; }
            case 7: { string n = "_" + ident(); return {"operator\"\" " + n, "operator\"\"" + n}; }
            case 8: { auto c = conv(); ctor = true; return {"operator " + c.first, "operator " + c.second}; }
            default: { string i = "~" + ident(); ctor = true; return {i, i}; }
        }
    }
    sym scope(bool first) {
        switch(r.below(first ? 12 : 9)) {
            case 0: case 1: case 2: case 3: { string i = ident(); return {i, i}; }
            case 4: case 5: { string i = ident(); return {i + targs(), i}; }
            case 6: { string i = ident(); return {i + "[abi:cxx11]", i}; }
            case 7: { string i = ident(), t = r.chance(1, 2) ? targs() : ""; return {i + t + "(" + params() + ")" + quals2(), i}; } // local entity of a function
            case 8: { string a = ident(); string n = std::to_string(1 + r.below(20));
                if(llvm) { string k = r.chance(1, 2) ? "lambda" : "unnamed", m = r.chance(1, 2) ? n : ""; return {a + "()::'" + k + m + "'" + (k == "lambda" ? "(" + params() + ")" : ""), a + "::<" + k + m + ">"}; }
                if(r.chance(1, 3)) return {a + "(" + params() + ")::{unnamed type#" + n + "}", a + "::<unnamed type#" + n + ">"};
                return {a + "()::{lambda(" + params() + ")#" + n + "}", a + "::<lambda#" + n + ">"}; }
            case 9: case 10: return {"(anonymous namespace)", "(anonymous namespace)"};
            default: { string i = ident(); return {i + "::(anonymous namespace)", i + "::(anonymous namespace)"}; }
        }
    }
    string quals2() { return r.pick(vector<string>{"", " const", " &&"}); }
    sym symbol() {
        bool templ, ctor, lambda; sym out;
        size_t n = r.below(4);
        for(size_t i = 0; i < n; i++) { sym s = scope(i == 0); out.text += s.text + "::"; out.pruned += s.pruned + "::"; }
        sym f = fname(templ, ctor, lambda);
        if(r.chance(1, 8)) { // closure call operator
            string c = ident(), m = std::to_string(1 + r.below(9));
            f = llvm ? sym{c + "()::'lambda'(" + params() + ")::operator()", c + "::<lambda>::operator()"} : sym{c + "()::{lambda(" + params() + ")#" + m + "}::operator()", c + "::<lambda#" + m + ">::operator()"};
            templ = ctor = false;
        }
        out.text += f.text; out.pruned += f.pruned;
        if(r.chance(1, 10) && !ctor && f.text.find("operator new") && f.text.find("operator delete")) out.text += "[abi:v2]";
        string body = out.text + "(" + params() + ")";
        string q = quals();
        if(templ && !ctor) {
            if(r.chance(1, 6)) { body = type_simple() + " (" + r.pick(vector<string>{"*", "&", "**"}) + body + ")(" + params() + ")"; q = ""; } // returns a function pointer
            else if(r.chance(1, 6)) body = "decltype ((" + ident() + "{}(0))+(1)) " + body;
            else body = ret_type() + " " + body;
            if(body.find(" (") == string::npos) {}
        }
        out.text = body + q;
        if(r.chance(1, 20)) out.text += r.pick(vector<string>{" [clone .cold]", " [clone .isra.0] [clone .part.1]", " (.cold)"});
        return out;
    }
    string ret_type() { // function pointers and arrays wrap around the declarator instead
        if(r.chance(1, 12)) return r.pick(vector<string>{"int ", "char const* ", "std::vector<int> "}) + tname() + "::*";
        string t = r.chance(1, 2) ? tname() : string(r.pick(vector<string>{"int", "void", "unsigned long", "long long", "bool", "decltype(nullptr)"}));
        for(size_t n = r.below(3); n--;) t += r.pick(vector<string>{"*", " const", " volatile*", " const*"});
        return t + r.pick(vector<string>{"", "", "&", "&&"});
    }
    string type_simple() { return r.pick(vector<string>{"void", "int", "ns::T", "std::vector<int>"}); }
};

static bool subsequence(const string& out, const string& in) {
    size_t i = 0;
    for(char c : out) { if(strchr(" <>{}`'()", c) && c) continue; while(i < in.size() && in[i] != c) i++; if(i == in.size()) return false; i++; }
    return true;
}
static void hostile_one(const string& s, const char* kind) {
    string out = prune(s, kind);
    vh::eval(); vh::distinct(s.size() < 4000 ? s : s.substr(0, 50) + std::to_string(s.size()));
    vh::check(s.empty() || !out.empty(), "prune:empty-output", vh::esc(s));
    // nothing in the output that was not in the input (bracket and blank normalisation aside)
    string in = s; for(size_t p; (p = in.find("`anonymous namespace'")) != string::npos;) in.replace(p, 21, "(anonymous namespace)");
    vh::check(subsequence(out, in), "prune:invents-text", vh::esc(s, 900) + " -> " + vh::esc(out, 900));
    if(out == s) vh::stat("hostile_unchanged"); else vh::stat("hostile_changed");
}

#ifdef WITH_LLVM
static string strip_targs(const string& s) { // text without <...> and [abi:...]
    string r; int d = 0;
    for(size_t i = 0; i < s.size(); i++) { if(s[i] == '<') d++; else if(s[i] == '>') d--; else if(s.compare(i, 5, "[abi:") == 0) { while(i < s.size() && s[i] != ']') i++; } else if(!d) r += s[i]; }
    return r;
}
static void corpus(const string& path, long max, vh::rng& r) {
    std::ifstream f(path); string l; vector<string> all;
    while(std::getline(f, l)) all.push_back(l);
    if(all.empty()) return;
    for(long n = 0; n < max; n++) {
        const string& m = r.pick(all);
        llvm::ItaniumPartialDemangler d;
        if(d.partialDemangle(m.c_str()) || !d.isFunction() || m.size() > 6000) continue;
        auto get = [](char* p) { string s = p ? p : ""; free(p); return s; };
        size_t z = 0; string ctx = get(d.getFunctionDeclContextName(nullptr, &z)), base = get(d.getFunctionBaseName(nullptr, &z));
        if(base.empty()) continue;
        string anon = "(anonymous namespace)", probe = ctx;
        for(size_t p; (p = probe.find(anon)) != string::npos;) probe.replace(p, anon.size(), "anon");
        if(probe.find_first_of("('`{") != string::npos || probe.find("operator") != string::npos || probe.find("\"") != string::npos) { vh::stat("corpus_outside_oracle"); continue; }
        string b = base; size_t t = b.find("[abi:"); if(t != string::npos) b = b.substr(0, t);
        if(b.compare(0, 8, "operator") == 0 && b.size() > 8 && b[8] == ' ') { // conversions: only simple targets
            string tgt = b.substr(9); if(tgt.find_first_of("<([") != string::npos || tgt.find("const") != string::npos || tgt.find("volatile") != string::npos) { vh::stat("corpus_outside_oracle"); continue; }
        }
        if(b.find("\"\"") != string::npos) { size_t p = b.find("\"\" "); if(p != string::npos) b.erase(p + 2, 1); }
        else if(b.compare(0, 8, "operator") != 0) b = strip_targs(b);
        string want = ctx.empty() ? b : strip_targs(ctx) + "::" + b;
        for(int style = 0; style < 2; style++) {
            string full;
            if(style == 0) { int st; char* p = abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &st); if(!p) continue; full = p; free(p); }
            else full = get(d.finishDemangle(nullptr, &z));
            if(style == 1 && (full.find("operator<<") != string::npos || full.find("operator<=<") != string::npos) && base.find("operator<") == 0) { vh::stat("corpus_outside_oracle"); continue; } // ambiguous spelling
            if(full.find(" to ") != string::npos || full.find("guard variable") != string::npos) continue;
            string got = prune(full, "corpus");
            vh::eval(); vh::distinct(m); vh::stat(style ? "corpus_llvm_style" : "corpus_gnu_style");
            if(got != want) vh::violation("prune:real-symbol", m + "\n symbol: " + vh::esc(full, 1500) + "\n got: " + got.substr(0, 600) + "\nwant: " + want);
            else { string again = prune(got, "corpus-again"); vh::check(again == got, "prune:not-idempotent", "prune(" + got + ") = " + again); }
        }
    }
}
#endif

static void corner(const char* key, const char* in, const char* want) {
    string got = prune(in, "corner"); vh::eval(); vh::distinct(in);
    vh::check(got == want, key, string(in) + " -> " + got + ", expected " + want);
}
static void body(vh::rng& r) {
    // kinds of symbols with a known finding each
    corner("prune:returns-member-function-pointer", "int (S::*h<S>(S))(int) const", "h");
    corner("prune:conversion-to-function-or-array", "S::operator int (*)(int)()", "S::operator int (*)(int)");
    corner("prune:conversion-to-function-or-array", "S::operator int (&) [3]()", "S::operator int (&) [3]");
    long n = vh::iarg("cases", 20000);
    for(long i = 0; i < n; i++) {
        gen g{r, r.chance(1, 2)};
        auto s = g.symbol();
        string got = prune(s.text, "generated");
        vh::eval(); vh::distinct(s.text); vh::stat("generated_symbols");
        if(i < 3) vh::sample(s.text + "  =>  " + s.pruned);
        if(!vh::check(got == s.pruned, "prune:generated-symbol", "symbol: " + vh::esc(s.text, 1200) + "\n got: " + vh::esc(got) + "\nwant: " + vh::esc(s.pruned))) continue;
        string again = prune(got, "again");
        vh::check(again == got, "prune:not-idempotent", "prune(" + vh::esc(got) + ") = " + vh::esc(again));
        if(i % 7 == 0) { // the formatter's pruned mode is the same text
            cpptrace::stacktrace_frame f; f.raw_address = 1; f.object_address = 1; f.is_inline = false; f.symbol = s.text;
            auto fm = cpptrace::formatter{}.addresses(cpptrace::formatter::address_mode::none).symbols(cpptrace::formatter::symbol_mode::pruned);
            string line = fm.format(f);
            vh::check(line == "in " + s.pruned, "prune:formatter-mode", "got '" + vh::esc(line) + "' for " + vh::esc(s.text));
        }
        // truncations and mutations of it
        string m = s.text;
        switch(r.below(6)) {
            case 0: m = m.substr(0, r.below(m.size() + 1)); break;
            case 1: m = m.substr(r.below(m.size())); break;
            case 2: m.erase(r.below(m.size()), 1); break;
            case 3: m.insert(r.below(m.size() + 1), 1, "<>()[]{}`'\"\\:*&~ #\0\xff"[r.below(20)]); break;
            case 4: { size_t a = r.below(m.size()); m.insert(r.below(m.size() + 1), m.substr(a, r.below(20))); break; }
            default: for(int k = 0; k < 3; k++) m[r.below(m.size())] = (char)r.below(256);
        }
        hostile_one(m, "mutated");
        if(i % 4 == 0) {
            string q; size_t len = r.below(60); static const char* const frag[] = {"<", ">", "(", ")", "[", "]", "{", "}", "`", "'", "\"", "\\", "::", "operator", "operator ", "*", "&", "~", "{lambda", "{unnamed type", "#1}", "'lambda", "(anonymous namespace)", "`anonymous namespace'", "decltype", "(*", "__cdecl*", "new", "delete", "[]", "\"\"", " ", "a", "int ", "const", "lambda_", "1", "co_await", "->", ">>", "<=>", "\xc3", "\0"};
            for(size_t k = 0; k < len; k++) q += r.pick(frag);
            hostile_one(q, "fragments");
        }
        if(i % 16 == 0) { string q(r.below(40), 0); for(auto& c : q) c = (char)r.below(256); hostile_one("padpadpadpadpadpad" + q, "bytes"); hostile_one(q, "bytes"); }
    }
    // unterminated literals cannot be parsed: unchanged
    for(const char* s : {"void foo<bar(\"test)>::baz", "f('", "f(\"\\", "f(\"abc\\\"", "g<`x>::y", "h('\\", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa('\\", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa(\"\\\\\\"}) {
        string got = prune(s, "unterminated"); vh::eval();
        vh::check(got == s, "prune:unparsable-changed", string(s) + " -> " + got);
    }
    // nesting and length
    long deep = vh::iarg("deep", 20000);
    for(const char* unit : {"(", "<", "[", "{", "`", "(*", "operator ", "a<", "a(", "a::", "operator<", "(__cdecl*", "{lambda(", "'lambda'::", "~", "::", "*", "\"", "a b ", "X<(", "S<&operator<", "operator decltype(", "a ", "1", "a::operator X<"}) {
        for(long k : {50L, 99L, 100L, 101L, 1000L, deep}) {
            string s; for(long i = 0; i < k; i++) s += unit;
            hostile_one(s, "deep"); hostile_one("x" + s + "x", "deep");
            string t = s; for(long i = 0; i < k; i++) t += *unit == '`' ? '\'' : strchr(unit, '<') ? '>' : strchr(unit, '(') ? ')' : strchr(unit, '[') ? ']' : '}';
            hostile_one(t, "deep-closed");
            vh::stat("deep_inputs", 3);
        }
    }
#ifdef WITH_LLVM
    corpus(vh::arg("corpus"), vh::iarg("corpus-cases", 2000), r);
#endif
}
static void* main2(void*) { vh::rng r(vh::iarg("seed", 1)); body(r); return nullptr; }
int main(int argc, char** argv) {
    vh::init(argc, argv);
    cpptrace::absorb_trace_exceptions(false);
    // an ordinary thread: default-sized stack
    pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
    pthread_create(&t, &a, main2, nullptr); pthread_join(t, nullptr);
    return vh::finish();
}
