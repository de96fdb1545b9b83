// C21: the public value types against reference models: nullable integers of every width against std::optional, traces as containers,
// frames as values, basename and the small conversion functions.
#include "vh.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <cpptrace/formatting.hpp>
#include <algorithm>
#include <iterator>
#include <limits>
#include <optional>
#include <pty.h>
#include <tuple>
#include <type_traits>
using std::string; using std::vector; using cpptrace::nullable;
// ---- nullable ---------------------------------------------------------------------------------------------------------------
template<typename T> struct width_name { static string get() { return string(std::is_signed<T>::value ? "int" : "uint") + std::to_string(sizeof(T) * 8); } };
template<> struct width_name<bool> { static string get() { return "bool"; } };
template<typename T> using model = std::optional<T>;
template<typename T> static model<T> model_of(T v) { if(v == std::numeric_limits<T>::max()) return std::nullopt; return v; } // the one value that stands for no value
template<typename T> static string show(T v) { string r; bool neg = v < T(0); unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while(u); return (neg ? "-" : "") + r; }
template<typename T> static T any(vh::rng& r) {
    T max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min();
    switch(r.below(9)) { case 0: return max; case 1: return (T)(max - (T)1); case 2: return min; case 3: return (T)(min + (T)(min != max)); case 4: return (T)0; case 5: return (T)1; case 6: return (T)((T)0 - (T)(std::is_signed<T>::value)); case 7: return (T)((unsigned __int128)1 << r.below(sizeof(T) * 8)); default: return (T)(((unsigned __int128)r.next() << 64) | r.next()); }
}
template<typename T> static void agree(const nullable<T>& n, const model<T>& m, const string& what) {
    const string w = width_name<T>::get() + " " + what; T max = std::numeric_limits<T>::max(); vh::eval();
    vh::check(n.has_value() == m.has_value(), "nullable:has-value", w); vh::check(n.raw_value == (m ? *m : max), "nullable:raw", w + " raw " + show(n.raw_value));
    if(m) vh::check(n.value() == *m && &n.value() == &n.raw_value, "nullable:value", w + " is " + show(n.value()));
    for(T alt : {(T)0, (T)7, max}) vh::check(n.value_or(alt) == m.value_or(alt), "nullable:value-or", w + " or " + show(alt));
    vh::check((n == nullable<T>::null()) == !m && (n != nullable<T>::null()) == m.has_value() && n == n && !(n != n), "nullable:null-equality", w);
}
template<typename T> static void histories(vh::rng& r, long n) {
    static_assert(std::is_trivially_copyable<nullable<T>>::value && sizeof(nullable<T>) == sizeof(T) && std::is_nothrow_copy_constructible<nullable<T>>::value, "a light value");
    static_assert(!nullable<T>().has_value() && nullable<T>((T)0).has_value() && !nullable<T>::null().has_value() && nullable<T>::null_value() == std::numeric_limits<T>::max(), "usable in constants");
    static_assert(nullable<T>((T)0).value_or((T)1) == (T)0 && nullable<T>().value_or((T)0) == (T)0 && nullable<T>((T)0) == nullable<T>((T)0) && nullable<T>((T)0) != nullable<T>(), "usable in constants");
    for(long h = 0; h < n; h++) {
        const int N = 4; nullable<T> v[N]; model<T> m[N]; string hist;
        for(int i = 0; i < N; i++) agree(v[i], m[i], "default");
        for(int s = (int)r.below(20); s-- > 0;) {
            int i = (int)r.below(N), j = (int)r.below(N); T x = any<T>(r);
            switch(r.below(9)) {
                case 0: v[i] = x; m[i] = model_of(x); hist += "=" + show(x) + " "; break;
                case 1: v[i] = nullable<T>(x); m[i] = model_of(x); hist += "=n" + show(x) + " "; break;
                case 2: v[i].reset(); m[i].reset(); hist += "reset "; break;
                case 3: v[i].swap(v[j]); std::swap(m[i], m[j]); hist += vh::fmt("swap%d%d ", i, j); break;
                case 4: v[i] = v[j]; m[i] = m[j]; hist += vh::fmt("copy%d%d ", i, j); break;
                case 5: { auto& back = (v[i] = x); m[i] = model_of(x); vh::check(&back == &v[i], "nullable:assignment-result", hist); break; }
                case 6: v[i].value() = x; m[i] = model_of(x); hist += "value=" + show(x) + " "; break;
                case 7: v[i] = nullable<T>::null(); m[i].reset(); hist += "null "; break;
                case 8: { using std::swap; swap(v[i], v[j]); swap(m[i], m[j]); hist += vh::fmt("stdswap%d%d ", i, j); break; }
            }
            agree(v[i], m[i], hist); agree(v[j], m[j], hist);
            vh::check((v[i] == v[j]) == (m[i] == m[j]) && (v[i] != v[j]) == (m[i] != m[j]), "nullable:equality", width_name<T>::get() + " " + hist);
        }
        vh::distinct(width_name<T>::get() + hist); vh::sample(string("nullable ") + width_name<T>::get() + ":" + hist.substr(0, 300));
    }
    if(sizeof(T) <= 2) for(long x = (long)std::numeric_limits<T>::min(); x <= (long)std::numeric_limits<T>::max(); x++) { nullable<T> a((T)x); agree(a, model_of((T)x), "every value " + std::to_string(x)); nullable<T> b; b = (T)x; vh::check(a == b, "nullable:equality", std::to_string(x)); }
    vh::stat("nullable_histories", n);
}
// ---- frames ------------------------------------------------------------------------------------------------------------------
typedef std::tuple<cpptrace::frame_ptr, cpptrace::frame_ptr, uint32_t, uint32_t, string, string> key;
static key key_of(const cpptrace::stacktrace_frame& f) { return key(f.raw_address, f.object_address, f.line.raw_value, f.column.raw_value, f.filename, f.symbol); }
static string small(vh::rng& r) { switch(r.below(5)) { case 0: return ""; case 1: return string("a\0b", 3); case 2: return "a"; case 3: return string(20 + r.below(3), 'x'); default: return string(1, (char)('a' + r.below(3))); } }
static cpptrace::frame_ptr address(vh::rng& r) { static const cpptrace::frame_ptr a[] = {0, 1, 0x100000000, 0x100000001, (cpptrace::frame_ptr)-1, 0x8000000000000000}; return r.chance(9, 10) ? r.pick(a) : r.next(); }
static cpptrace::stacktrace_frame frame(vh::rng& r) { cpptrace::stacktrace_frame f; f.raw_address = address(r); f.object_address = address(r); f.line = any<uint32_t>(r); f.column = r.chance(1, 2) ? nullable<uint32_t>() : nullable<uint32_t>(any<uint32_t>(r)); f.filename = small(r); f.symbol = small(r); f.is_inline = r.chance(1, 2); return f; }
static void frames(vh::rng& r, long n) {
    static const char* fields[] = {"raw address", "object address", "line", "column", "filename", "symbol", "nothing", "inline flag"};
    for(long i = 0; i < n; i++) {
        auto a = frame(r); auto b = a; int field = (int)r.below(8);
        switch(field) { case 0: b.raw_address ^= 1ull << r.below(64); break; case 1: b.object_address ^= 1ull << r.below(64); break; case 2: b.line.raw_value ^= 1u << r.below(32); break; case 3: b.column.raw_value ^= 1u << r.below(32); break;
            case 4: if(b.filename.empty() || r.chance(1, 2)) b.filename += (char)r.below(256); else b.filename[r.below(b.filename.size())] ^= (char)(1 << r.below(8)); break;
            case 5: if(b.symbol.empty() || r.chance(1, 2)) b.symbol += (char)r.below(256); else b.symbol[r.below(b.symbol.size())] ^= (char)(1 << r.below(8)); break; case 7: b.is_inline = !b.is_inline; break; }
        string d = string("frames differing in ") + fields[field]; vh::eval(); vh::stat(string("frame_pair ") + fields[field]);
        if(field < 6) vh::check(!(a == b) && a != b && !(b == a) && b != a, "frame:distinguishes", d); else if(field == 6) vh::check(a == b && !(a != b) && b == a, "frame:equal-copies", d);
        else { bool e = a == b; vh::check(e == (b == a) && e == !(a != b) && e == !(b != a), "frame:symmetry", d); } // whether the inline flag counts is left open
        auto c = frame(r), e = frame(r), f = frame(r); if(r.chance(1, 2)) { e = c; } if(r.chance(1, 2)) { f = e; } bool flag = r.chance(1, 2); c.is_inline = e.is_inline = f.is_inline = flag;
        vh::check(c == c && !(c != c), "frame:reflexive", d); vh::check((c == e) == (e == c), "frame:symmetry", d); if(c == e && e == f) vh::check(c == f, "frame:transitive", d);
        vh::check((c == e) == (key_of(c) == key_of(e)) && (c != e) == (key_of(c) != key_of(e)), "frame:equality", d); vh::distinct(vh::hash(d) ^ (uint64_t)i * 2654435761u);
        auto moved = std::move(b); b = moved; vh::check(b == moved, "frame:assignable", d);
    }
}
// ---- traces as containers -------------------------------------------------------------------------------------------------
template<typename Trace, typename Make, typename Same> static void container(vh::rng& r, Make make, Same same, const char* name) {
    Trace t; const Trace& c = t; decltype(t.frames) m; string w = name;
    static_assert(std::is_same<decltype(t.begin()), typename Trace::iterator>::value && std::is_same<decltype(c.begin()), typename Trace::const_iterator>::value && std::is_same<decltype(t.cbegin()), typename Trace::const_iterator>::value, "iterator kinds");
    vh::check(t.empty() && t.begin() == t.end() && c.begin() == c.end() && c.cbegin() == c.cend(), "trace:starts-empty", w);
    for(int s = (int)r.below(14); s-- > 0;) {
        switch(r.below(7)) {
            case 0: case 1: { auto f = make(r); t.frames.push_back(f); m.push_back(f); w += " push"; break; }
            case 2: t.clear(); m.clear(); w += " clear"; break;
            case 3: if(!m.empty()) { size_t i = r.below(m.size()); auto f = make(r); *(t.begin() + (long)i) = f; m[i] = f; w += " set"; } break;
            case 4: { Trace u = t; auto f = make(r); u.frames.push_back(f); w += " copy"; vh::check(u.frames.size() == t.frames.size() + 1, "trace:copies-are-independent", w); u.clear(); break; }
            case 5: { Trace u = std::move(t); t = std::move(u); w += " move"; break; }
            case 6: std::reverse(t.begin(), t.end()); std::reverse(m.begin(), m.end()); w += " reverse"; break;
        }
        vh::eval(); vh::check(t.empty() == m.empty() && c.empty() == m.empty(), "trace:empty", w); vh::check((size_t)std::distance(t.begin(), t.end()) == m.size() && (size_t)(c.end() - c.begin()) == m.size() && (size_t)(t.cend() - t.cbegin()) == m.size(), "trace:size", w);
        size_t i = 0; bool ok = true; for(auto& f : t) ok = ok && i < m.size() && same(f, m[i]) && &f == &t.frames[i], i++; ok = ok && i == m.size(); i = 0; for(const auto& f : c) ok = ok && i < m.size() && same(f, m[i++]); ok = ok && i == m.size();
        i = 0; for(auto it = c.cbegin(); it != c.cend(); ++it) ok = ok && i < m.size() && same(*it, m[i++]);
        vh::check(ok && i == m.size(), "trace:iteration", w);
    }
    vh::distinct(w); vh::stat(string("containers_") + name);
}
static void containers(vh::rng& r, long n) {
    for(long i = 0; i < n; i++) {
        container<cpptrace::raw_trace>(r, [](vh::rng& q) { return address(q); }, [](cpptrace::frame_ptr a, cpptrace::frame_ptr b) { return a == b; }, "raw_trace");
        container<cpptrace::object_trace>(r, [](vh::rng& q) { return cpptrace::object_frame{address(q), address(q), small(q)}; }, [](const cpptrace::object_frame& a, const cpptrace::object_frame& b) { return a.raw_address == b.raw_address && a.object_address == b.object_address && a.object_path == b.object_path; }, "object_trace");
        container<cpptrace::stacktrace>(r, [](vh::rng& q) { return frame(q); }, [](const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) { return key_of(a) == key_of(b) && a.is_inline == b.is_inline; }, "stacktrace");
    }
    // traces that were generated are the same kind of container
    auto raw = cpptrace::generate_raw_trace(); auto obj = raw.resolve_object_trace(); auto full = obj.resolve(); vh::check(!raw.empty() && !obj.empty() && !full.empty() && obj.frames.size() == raw.frames.size(), "trace:generated", "live traces");
    raw.clear(); obj.clear(); full.clear(); vh::check(raw.empty() && obj.empty() && full.empty() && raw.frames.empty() && obj.frames.empty() && full.frames.empty(), "trace:clear", "live traces");
    vh::check(raw.resolve().empty() && raw.resolve_object_trace().empty() && obj.resolve().empty(), "trace:empty-resolves-to-empty", "empty traces");
}
// ---- names -----------------------------------------------------------------------------------------------------------------
// either platform's separators count: traces may come from either
static string final_component(const string& p) { string r; for(char c : p) if(c == '/' || c == '\\') r.clear(); else r += c; return r; }
static void paths(vh::rng& r, long n) {
    static const char* parts[] = {"/", "//", "a", "b.c", "..", ".", "\\", "C:\\x", " ", "\xc3\xa9", "long-name-that-does-not-fit-in-a-small-string.cpp", "/tmp/", "\n", "a/b/c"};
    for(long i = 0; i < n; i++) {
        string p; for(size_t k = r.below(7); k--;) { if(r.chance(1, 8)) p += (char)r.below(256); else if(r.chance(1, 300)) p += string(r.below(5000), 'd') + "/"; else p += r.pick(parts); }
        vh::eval(); vh::distinct(p); vh::journal(p); vh::sample("basename of " + vh::esc(p), 6); string got = cpptrace::basename(p), want = final_component(p); vh::check(got == want, "basename:component", "'" + p + "' gave '" + got + "' not '" + want + "'");
        if(!p.empty() && p.back() != '/' && p.back() != '\\' && p.find('\0') == string::npos && p.find('/') != string::npos) { // as the formatter prints it
            cpptrace::stacktrace_frame f{}; f.raw_address = 0; f.filename = p; f.symbol = "s"; static const auto fm = cpptrace::formatter{}.paths(cpptrace::formatter::path_mode::basename).addresses(cpptrace::formatter::address_mode::none);
            string s = fm.format(f); vh::check(s == "in s at " + want, "basename:formatted", "'" + p + "' gave '" + s + "'");
        }
    }
}
static void constants() {
    using cpptrace::log_level; vh::check(string(cpptrace::to_string(log_level::debug)) == "debug" && string(cpptrace::to_string(log_level::info)) == "info" && string(cpptrace::to_string(log_level::warning)) == "warning" && string(cpptrace::to_string(log_level::error)) == "error", "names:log-level", "to_string");
    vh::check(cpptrace::stdin_fileno == 0 && cpptrace::stdout_fileno == 1 && cpptrace::stderr_fileno == 2, "names:filenos", "descriptors");
    int a, b; if(openpty(&a, &b, nullptr, nullptr, nullptr) == 0) { vh::check(cpptrace::isatty(a) && cpptrace::isatty(b), "names:isatty", "a terminal"); close(a); close(b); vh::check(!cpptrace::isatty(a), "names:isatty", "a closed descriptor"); }
    int p[2]; if(pipe(p) == 0) { vh::check(!cpptrace::isatty(p[0]) && !cpptrace::isatty(p[1]), "names:isatty", "a pipe"); close(p[0]); close(p[1]); } vh::check(!cpptrace::isatty(-1) && !cpptrace::isatty(1 << 20), "names:isatty", "no descriptor"); vh::eval();
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); long n = vh::iarg("histories", 1000);
    histories<bool>(r, n); histories<char>(r, n); histories<signed char>(r, n); histories<unsigned char>(r, n); histories<short>(r, n); histories<unsigned short>(r, n); histories<int>(r, n); histories<unsigned>(r, n); histories<long>(r, n); histories<unsigned long>(r, n);
    histories<long long>(r, n); histories<unsigned long long>(r, n); histories<wchar_t>(r, n); histories<char16_t>(r, n); histories<char32_t>(r, n);
    frames(r, 40 * n); containers(r, 4 * n); paths(r, 20 * n); constants();
    return vh::finish();
}
