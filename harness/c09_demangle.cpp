// C09: demangle / ctrace_demangle against __cxa_demangle, on generated, real, mutated and arbitrary names.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include <cxxabi.h>
#include <fstream>
#include <malloc.h>
#include <typeinfo>
#ifdef INTERNAL
#include "demangle/demangle.hpp"
#endif
using std::string; using std::vector;

static bool abi_demangle(const string& s, string& out) {
    int st = 0; char* p = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if(!p || st) { free(p); return false; }
    out = p; free(p); return true;
}
// what the platform demangler and the documented treatment of prefix and suffix give
static string expect(const string& name, bool need_prefix) {
    bool z = name.compare(0, 2, "_Z") == 0, zz = name.compare(0, 3, "__Z") == 0;
    if(need_prefix && !z && !zz) return name;
    string core = name, rest; size_t sp = name.find(' ');
    if(sp != string::npos) { core = name.substr(0, sp); rest = name.substr(sp); }
    if(zz) core.erase(0, 1);
    string d;
    return abi_demangle(core, d) ? d + rest : name;
}
struct gen {
    vh::rng& r; int d = 0;
    string src() { static const char* const n[] = {"a", "foo", "bar", "ns", "S", "detail", "f\xc3\xb6o", "_x", "very_long_identifier_name"}; string s = r.pick(n); return std::to_string(s.size()) + s; }
    string type() {
        if(d > 5) return "i"; d++; string s;
        switch(r.below(14)) {
            case 0: case 1: case 2: s = r.pick(vector<string>{"i", "j", "c", "b", "l", "m", "d", "v", "x", "y", "Dn", "Ds", "w"}); break;
            case 3: s = "P" + type(); break; case 4: s = "RK" + type(); break; case 5: s = "O" + type(); break;
            case 6: s = "Ss"; break; case 7: s = "S_"; break; case 8: s = "S" + std::to_string(r.below(3)) + "_"; break;
            case 9: s = "PF" + type() + type() + "E"; break; case 10: s = "A" + std::to_string(r.below(9)) + "_" + type(); break;
            case 11: s = "St6vectorI" + type() + "SaI" + type() + "EE"; break;
            case 12: s = src() + targs(); break; default: s = name(); break;
        }
        d--; return s;
    }
    string targs() { string s = "I"; for(size_t n = 1 + r.below(3); n--;) s += r.chance(1, 4) ? "Li" + std::to_string(r.below(99)) + "E" : r.chance(1, 6) ? "T_" : type(); return s + "E"; }
    string name() { switch(r.below(5)) { case 0: return src(); case 1: return "N" + src() + src() + "E"; case 2: return "N12_GLOBAL__N_1" + src() + "E"; case 3: return "St" + src(); default: return "N" + src() + targs() + r.pick(vector<string>{"C2E", "D0E", "plE", "clE", "cviE", "5innerE", "UlvE_E", "Ut_E", "B5cxx11E"}); } }
    string mangled() {
        string s = "_Z";
        switch(r.below(8)) { case 0: s += "TV"; return s + name(); case 1: s += "TI"; return s + type(); case 2: s += "GV"; return s + name(); case 3: s += "Z" + name() + "vE" + src(); return s; case 4: s += "Thn16_"; break; case 5: return s + name() + targs() + type() + type(); default: break; }
        s += name(); for(size_t n = 1 + r.below(3); n--;) s += type();
        return s;
    }
};
static void one(const string& s, const char* kind) {
    string in(s.begin(), s.end()); in.shrink_to_fit();
    string want = expect(s, false), got;
    vh::journal(string(kind) + ": " + s);
    try { got = cpptrace::demangle(in); } catch(const std::exception& e) { vh::violation("demangle:throws", vh::esc(s) + ": " + e.what()); return; }
    vh::eval(); vh::distinct(s); vh::stat(string(kind) + (want == s ? ".unchanged" : ".demangled"));
    vh::check(in == s, "demangle:modifies-argument", vh::esc(s));
    vh::check(got == want, "demangle:result", vh::esc(s) + "\n got: " + vh::esc(got) + "\nwant: " + vh::esc(want));
    char* heap = strdup(s.c_str());
    ctrace_owning_string c = ctrace_demangle(heap);
    vh::check(strcmp(heap, s.c_str()) == 0, "demangle:c-modifies-argument", vh::esc(s));
    std::memset(heap, 'X', s.size()); free(heap); // the result is a copy
    vh::check(c.data && c.data == want, "demangle:c-result", vh::esc(s) + "\n got: " + vh::esc(c.data ? c.data : "(null)") + "\nwant: " + vh::esc(want));
    ctrace_free_owning_string(&c);
    vh::check(c.data == nullptr, "demangle:c-free-leaves-handle", vh::esc(s));
#ifdef INTERNAL
    string w2 = expect(s, true), g2 = cpptrace::detail::demangle(in, true);
    vh::check(g2 == w2, "demangle:symbol-result", vh::esc(s) + "\n got: " + vh::esc(g2) + "\nwant: " + vh::esc(w2));
#endif
}
static string suffix(vh::rng& r) { return r.pick(vector<string>{" [clone .cold]", " (.isra.0)", " ", "  two", " _Z1fv", " [inline] _ZN1aE", " trailing ", " \xff", " \tx"}); }
static string mutate(vh::rng& r, string m) {
    for(size_t k = 1 + r.below(3); k-- && !m.empty();) { size_t at = r.below(m.size());
        switch(r.below(4)) { case 0: m.erase(at, 1 + r.below(4)); break; case 1: m[at] = (char)(1 + r.below(255)); break; case 2: m.insert(at, r.pick(vector<string>{"_", "S_", "I", "E", "N", "9", "99999999", "T_", ".", "@@GLIBC_2.2", "$", " "})); break; default: m = m.substr(0, at); } }
    return m;
}
int main(int argc, char** argv) {
    vh::init(argc, argv);
    cpptrace::absorb_trace_exceptions(false);
    vh::rng r(vh::iarg("seed", 1));
    long n = vh::iarg("cases", 5000);
    std::ifstream f(vh::arg("corpus")); string l; vector<string> all;
    while(std::getline(f, l)) all.push_back(l);
    auto strip = [](string s) { for(auto& c : s) if(!c) c = '0'; return s; };
    for(const char* s : {"", " ", "_", "__", "_Z", "__Z", "___Z1fv", "_Z1fv", "__Z1fv", "__Z", "i", "f", "_Z ", "__Z x", " _Z1fv", "main", "St", "1f", "_Z1fv.cold", "_Z1fv@plt", "_GLOBAL__I_foo", "_D3foo", "_RNvC1a1b", "?f@@YAXXZ", "N1a1bE", "PFvvE", "_Z1fv\n", "_Z1fv\tx"}) { one(s, "fixed"); one(string(s) + " x", "fixed"); }
    for(auto* t : {&typeid(int), &typeid(std::string), &typeid(vector<string>), &typeid(gen), &typeid(void(*)(int))}) one(t->name(), "typeid");
    for(long i = 0; i < n; i++) {
        gen g{r};
        string m = all.empty() || r.chance(1, 2) ? g.mangled() : r.pick(all);
        if(m.size() > 3000) continue;
        if(i < 3) vh::sample(m + " -> " + expect(m, false));
        one(m, "names"); one("_" + m, "double_underscore"); one(m + suffix(r), "suffix"); one("_" + m + suffix(r), "suffix");
        if(r.chance(1, 3)) one("_" + ("_" + m), "triple_underscore");
        one(m.substr(2), "types"); one(g.type(), "types");
        one(mutate(r, m), "mutated"); one(m.substr(0, r.below(m.size() + 1)), "truncated");
        if(r.chance(1, 4)) { string s; for(size_t k = r.below(40); k--;) s += (char)(1 + r.below(255)); one(s, "bytes"); one("_Z" + s, "bytes"); one("__Z" + s, "bytes"); }
        if(r.chance(1, 4)) { string s = r.chance(1, 2) ? "_Z" : "__Z"; for(size_t k = r.below(30); k--;) s += r.pick(vector<string>{"N", "E", "I", "1a", "3foo", "S_", "St", "P", "K", "R", "i", "v", "L", "X", "T_", "Dp", "F", "Z", "_", "0", "C1", "cv", "Ul", "J", "sZ", " "}); one(s, "soup"); }
    }
    for(char c : string("NIPFKSLXZ(_1")) for(size_t k : {100u, 1000u, 2500u}) { one("_Z" + string(k, c), "repetitive"); one("_Z1fI" + string(k, c), "repetitive"); one("__Z" + string(k, c) + "v" + " x", "repetitive"); }
    { ctrace_owning_string c = ctrace_demangle(nullptr); vh::eval(); vh::check(c.data && !*c.data, "demangle:c-null", "null argument"); ctrace_free_owning_string(&c); ctrace_free_owning_string(&c); }
    if(vh::iarg("leak", 0)) { // steady heap: the same calls again must not need more memory
        vector<string> in; for(long i = 0; i < 300; i++) { gen g{r}; string m = g.mangled(); in.push_back(m); in.push_back(mutate(r, m)); in.push_back(m + " x"); in.push_back("_" + m); }
        auto pass = [&] { for(auto& s : in) { string x = cpptrace::demangle(s); auto c = ctrace_demangle(s.c_str()); ctrace_free_owning_string(&c); } };
        pass(); auto a = mallinfo2(); pass(); pass(); auto b = mallinfo2();
        vh::eval(in.size()); vh::stat("heap_growth_bytes", (long)b.uordblks - (long)a.uordblks);
        vh::check(b.uordblks <= a.uordblks, "demangle:leak", vh::fmt("%zu bytes more in use after %zu repeated calls", (size_t)(b.uordblks - a.uordblks), 2 * in.size()));
    }
    return vh::finish();
}
