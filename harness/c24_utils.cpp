// C24: the internal containers and text utilities against reference models.
#include "vh.hpp"
#include "utils/lru_cache.hpp"
#include "utils/microfmt.hpp"
#include "utils/optional.hpp"
#include "utils/replace_all.hpp"
#include "utils/result.hpp"
#include "utils/span.hpp"
#include "utils/string_view.hpp"
#include "utils/utils.hpp"
#include "utils/io/file.hpp"
#include "utils/io/memory_file_view.hpp"
#include <algorithm>
#include <list>
#include <optional>
#include <regex>
#include <sstream>
#include <string_view>
using std::string; using std::vector; namespace cd = cpptrace::detail;
static string q(const string& s) { return "'" + s + "'"; }
static string text(vh::rng& r, size_t max, const char* alphabet = "ab,; \t<>/\\{}") { string s; size_t n = r.below(max + 1), k = strlen(alphabet); while(n--) s += r.chance(1, 25) ? (char)r.below(256) : alphabet[r.below(k)]; return s; }
// ---- strings -----------------------------------------------------------------------------------------------------------------
static void strings(vh::rng& r, long n) {
    for(long i = 0; i < n; i++) {
        string s = text(r, r.chance(1, 10) ? 300 : 14), d = text(r, 4), p = r.chance(1, 2) ? s.substr(0, r.below(s.size() + 1)) : text(r, 4); vh::eval(); vh::journal(s); vh::distinct("str" + s + "|" + d + "|" + p);
        { vector<string> want{""}; for(char c : s) if(d.find(c) != string::npos) want.push_back(""); else want.back() += c; vh::check(cd::split(s, d) == want, "split", q(s) + " at " + q(d)); string w2; for(size_t k = 0; k < want.size(); k++) w2 += (k ? p : "") + want[k]; vh::check(cd::join(want, p) == w2, "join", w2); if(d.size() == 1) vh::check(cd::join(cd::split(s, d), d) == s, "split:join", q(s) + " at " + q(d)); }
        { vector<string> none; vh::check(cd::join(none, p).empty(), "join", "nothing"); }
        { const string ws = " \t\n\r\f\v"; size_t a = 0, b = s.size(); while(a < b && ws.find(s[a]) != string::npos) a++; while(b > a && ws.find(s[b - 1]) != string::npos) b--; string in = r.chance(1, 12) ? string(r.below(5), ' ') + string(r.below(2), '\n') : s; if(in != s) { a = b = 0; } string want = in == s ? s.substr(a, b - a) : ""; string got; try { got = cd::trim(in); } catch(const std::exception& e) { got = string("threw ") + e.what(); } vh::check(got == want, "trim", q(in) + " gave " + q(got)); }
        vh::check(cd::starts_with(s, p) == (s.compare(0, p.size(), p) == 0 && p.size() <= s.size()), "starts-with", q(s) + " " + q(p));
        // string views
        std::string_view m(s), mp(p), md(d); cd::string_view v(s), vp(p), vd(d); cd::cstring_view c(s); string w = q(s) + " with " + q(p) + " and " + q(d);
        vh::check(v.size() == m.size() && v.empty() == m.empty() && string(v) == s && string(c) == s && string(v.begin(), v.end()) == s, "view:contents", w);
        vh::check(v.starts_with(vp) == (m.substr(0, mp.size()) == mp) && c.starts_with(vp) == v.starts_with(vp), "view:starts-with", w);
        string tail = s.substr(s.size() - r.below(s.size() + 1)); for(const string& t : {tail, p}) { cd::string_view vt(t); vh::check(v.ends_with(vt) == (m.size() >= t.size() && m.substr(m.size() - t.size()) == t) && c.ends_with(vt) == v.ends_with(vt), "view:ends-with", w); }
        size_t fl = m.find_last_of(md); vh::check(v.find_last_of(vd) == (fl == std::string_view::npos ? cd::string_view::npos : fl) && c.find_last_of(vd) == v.find_last_of(vd), "view:find-last-of", w);
        vh::check((v == vp) == (m == mp) && (v != vp) == (m != mp) && v == cd::string_view(string(s)), "view:equality", w);
        size_t at = r.below(s.size() + 1), len = r.chance(1, 4) ? string::npos : r.below(20); auto sub = v.substr(at, len); vh::check(string(sub.data() ? sub.data() : "", sub.size()) == s.substr(at, len), "view:substr", w + vh::fmt(" %zu %zu", at, len)); vh::check(string(c.substr(at)) == s.substr(at), "view:substr", w);
        auto adv = v; adv.advance(at); vh::check(adv.size() == s.size() - at && (s.size() == at || adv.data() == v.data() + at), "view:advance", w);
        for(size_t k = 0; k < s.size(); k++) if(v[k] != s[k] || v.at(k) != s[k] || c[k] != s[k]) vh::violation("view:index", w); if(!s.empty()) vh::check(v.front() == s.front() && v.back() == s.back(), "view:ends", w);
        bool threw = false; try { (void)v.at(s.size() + r.below(3)); } catch(const std::exception&) { threw = true; } vh::check(threw, "view:at", w); threw = false; try { (void)v[s.size()]; } catch(const std::exception&) { threw = true; } vh::check(threw, "view:index", w);
        string base = cd::basename(s, false); size_t sl = s.rfind('/'); vh::check(base == (sl == string::npos ? s : s.substr(sl + 1)), "basename", w); size_t bs = s.find_last_of("/\\"); vh::check(cd::basename(s, true) == (bs == string::npos ? s : s.substr(bs + 1)), "basename", w);
        { string sum = s; sum += vp; vh::check(sum == s + p, "view:append", w); }
        if(!d.empty()) { string got = s, want; cd::replace_all(got, vd, vp); size_t k = 0; while(k < s.size()) if(s.compare(k, d.size(), d) == 0) { want += p; k += d.size(); } else want += s[k++]; vh::check(got == want, "replace-all", w + " gave " + q(got)); }
        { static const std::regex re("a+b?"); string got = s, want; cd::replace_all(got, re, vp); size_t k = 0; while(k < s.size()) if(s[k] == 'a') { while(k < s.size() && s[k] == 'a') k++; if(k < s.size() && s[k] == 'b') k++; want += p; } else want += s[k++]; vh::check(got == want, "replace-all:regex", w + " gave " + q(got)); }
    }
    vh::stat("strings", n);
}
// ---- numbers and ranges -----------------------------------------------------------------------------------------------------
template<typename T> static void swaps(vh::rng& r) { for(int i = 0; i < 50; i++) { T v = (T)r.next(); if(i < (int)sizeof(T) * 8) v = (T)((uint64_t)1 << i); T w = cd::byteswap(v); unsigned char a[sizeof(T)], b[sizeof(T)]; memcpy(a, &v, sizeof v); memcpy(b, &w, sizeof w); std::reverse(b, b + sizeof b); vh::eval(); vh::check(!memcmp(a, b, sizeof a) && cd::byteswap(w) == v, "byteswap", vh::fmt("%zu bytes %llx", sizeof(T), (unsigned long long)v)); } }
static void numbers(vh::rng& r, long n) {
    for(long i = 0; i < n; i++) {
        uint64_t x = r.next() >> r.below(64); if(r.chance(1, 3)) { x = 1; for(size_t k = r.below(19); k--;) x *= 10; x += r.below(3) - 1; } vh::eval();
        vh::check(cd::n_digits((unsigned)x) == std::to_string((unsigned)x).size(), "n-digits", std::to_string((unsigned)x));
        uint64_t y = r.chance(1, 2) ? (uint64_t)1 << r.below(64) : x; vh::check(cd::is_positive_power_of_two(y) == (__builtin_popcountll(y) == 1), "power-of-two", std::to_string(y)); int z = (int)y; vh::check(cd::is_positive_power_of_two(z) == (z > 0 && __builtin_popcount((unsigned)z) == 1), "power-of-two", std::to_string(z));
        vector<int> v; for(size_t k = r.below(9); k--;) v.push_back((int)r.below(12)); std::sort(v.begin(), v.end()); int key = (int)r.below(14) - 1; auto it = cd::first_less_than_or_equal(v.begin(), v.end(), key); auto want = v.end(); for(auto k = v.begin(); k != v.end(); ++k) if(*k <= key) want = k;
        vh::check(it == want, "first-less-or-equal", vh::fmt("%d of %zu", key, v.size())); vector<std::pair<int, int>> ps; for(int k : v) ps.push_back({k, 1}); auto pit = cd::first_less_than_or_equal(ps.begin(), ps.end(), key, [](int a, const std::pair<int, int>& b) { return a < b.first; }); vh::check(pit - ps.begin() == want - v.begin(), "first-less-or-equal", vh::fmt("%d of %zu, compared", key, v.size()));
        vector<int> content = v; auto sp = cd::make_span(content.data(), content.size()); vh::check(sp.size() == v.size() && sp.empty() == v.empty() && std::equal(sp.begin(), sp.end(), v.begin()), "span", "contents"); auto sp2 = cd::make_span(content.begin(), content.end()); vh::check(sp2.size() == v.size() && std::equal(sp2.begin(), sp2.end(), v.begin()), "span", "from iterators");
    }
    swaps<uint8_t>(r); swaps<int8_t>(r); swaps<uint16_t>(r); swaps<int16_t>(r); swaps<uint32_t>(r); swaps<int32_t>(r); swaps<uint64_t>(r); swaps<int64_t>(r); vh::stat("numbers", n);
}
// ---- formatting -------------------------------------------------------------------------------------------------------------
struct argument { enum { CHAR, INT, UINT, STR, VIEW, CSTR } kind; int64_t i = 0; uint64_t u = 0; string s; };
static string digits(uint64_t v, char base) { unsigned b = base == 'h' || base == 'H' ? 16 : base == 'o' ? 8 : base == 'b' ? 2 : 10; string r; do { char c = "0123456789abcdef"[v % b]; r.insert(r.begin(), base == 'H' ? (char)toupper(c) : c); v /= b; } while(v); return r; }
static cpptrace::microfmt::detail::format_value value_of(const argument& a) {
    switch(a.kind) { case argument::CHAR: return a.s[0]; case argument::INT: return (long long)a.i; case argument::UINT: return (unsigned long long)a.u; case argument::STR: return a.s; case argument::VIEW: return cd::string_view(a.s); default: return a.s.c_str(); }
}
static void formats(vh::rng& r, long n) {
    for(long i = 0; i < n; i++) {
        string fmt, want; vector<argument> args; size_t used = 0;
        auto make = [&](bool number) { argument a; switch(r.below(number ? 2 : 6)) { case 0: a.kind = argument::INT; a.i = number ? (int64_t)r.below(40) : (int64_t)(r.next() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1); if(!number && r.chance(1, 20)) a.i = INT64_MIN; break; case 1: a.kind = argument::UINT; a.u = number ? r.below(40) : r.next() >> r.below(64); break; case 2: a.kind = argument::CHAR; a.s = string(1, (char)r.below(256)); break; case 3: a.kind = argument::STR; a.s = text(r, 12); break; case 4: a.kind = argument::VIEW; a.s = text(r, 12); break; default: a.kind = argument::CSTR; a.s = text(r, 12); a.s = a.s.substr(0, a.s.find('\0')); } return a; };
        for(size_t pieces = r.below(5); pieces--;) {
            switch(r.below(4)) {
                case 0: { string lit = text(r, 8, "abc :<>09}"); string clean; for(char c : lit) if(c != '{' && c != '}') clean += c; fmt += clean; want += clean; break; }
                case 1: { bool open = r.chance(1, 2); fmt += open ? "{{" : "}}"; want += open ? "{" : "}"; break; }
                default: {
                    if(used >= 4) break; bool right = false; size_t width = 0; char fill = ' ', base = 'd'; fmt += '{'; bool aligned = r.chance(1, 2); if(aligned) { right = r.chance(1, 2); fmt += right ? '>' : '<'; }
                    if(r.chance(1, 3)) { width = r.below(30); fmt += std::to_string(width); } else if(aligned && used < 3 && r.chance(1, 4)) { // "{{" alone is an escape
                         auto a = make(true); width = a.kind == argument::INT ? (size_t)a.i : (size_t)a.u; args.push_back(a); used++; fmt += "{}"; }
                    if(r.chance(1, 2)) { fmt += ':'; switch(r.below(4)) { case 0: break; case 1: base = r.pick("dhHob"); if(!base) base = 'd'; fmt += base; break; case 2: fill = r.pick("x*0-"); if(!fill) fill = '*'; fmt += fill; break; default: fill = r.pick("x*0-"); if(!fill) fill = '0'; base = r.pick("dhHob"); if(!base) base = 'h'; fmt += fill; fmt += base; } }
                    fmt += '}'; auto a = make(false); args.push_back(a); used++; string s;
                    if(a.kind == argument::INT) s = (a.i < 0 ? "-" : "") + digits(a.i < 0 ? (uint64_t)0 - (uint64_t)a.i : (uint64_t)a.i, base); else if(a.kind == argument::UINT) s = digits(a.u, base); else s = a.s;
                    if(s.size() < width) { string pad(width - s.size(), fill); s = right ? pad + s : s + pad; } want += s;
                }
            }
        }
        vh::eval(); vh::journal(fmt); vh::sample("format " + vh::esc(fmt), 5); vh::distinct("fmt" + fmt); string got; auto out = std::back_inserter(got); namespace md = cpptrace::microfmt::detail;
        auto run = [&](auto o) { switch(args.size()) { case 0: md::format(o, fmt.begin(), fmt.end(), {}); break; case 1: md::format(o, fmt.begin(), fmt.end(), {value_of(args[0])}); break; case 2: md::format(o, fmt.begin(), fmt.end(), {value_of(args[0]), value_of(args[1])}); break; case 3: md::format(o, fmt.begin(), fmt.end(), {value_of(args[0]), value_of(args[1]), value_of(args[2])}); break; default: md::format(o, fmt.begin(), fmt.end(), {value_of(args[0]), value_of(args[1]), value_of(args[2]), value_of(args[3])}); } };
        run(out); string d = q(fmt); for(auto& a : args) d += " " + (a.kind == argument::INT ? std::to_string(a.i) : a.kind == argument::UINT ? std::to_string(a.u) : q(a.s));
        vh::check(got == want, "microfmt:format", d + " gave " + q(got) + " not " + q(want));
        std::ostringstream os; run(std::ostream_iterator<char>(os)); vh::check(os.str() == want, "microfmt:stream", d);
        string junk = text(r, 20, "{}<>:0123456789dhx"), sink; size_t digits_run = 0; bool long_number = false; for(char c : junk) { digits_run = isdigit((unsigned char)c) ? digits_run + 1 : 0; long_number |= digits_run > 4; } // whatever it means, it must be read within its bounds
        if(!long_number) { vh::journal("junk " + junk); string exact(junk); exact.shrink_to_fit(); md::format(std::back_inserter(sink), exact.data(), exact.data() + exact.size(), {md::format_value(1), md::format_value("x")}); }
    }
    vh::check(cpptrace::microfmt::format("{} {} {} {} {} {} {}", 'c', (short)-3, -4, 5u, 6ul, string("s"), "c") == "c -3 -4 5 6 s c", "microfmt:types", "one of each");
    vh::stat("formats", n);
}
// ---- containers -------------------------------------------------------------------------------------------------------------
static void lru(vh::rng& r, long n) {
    for(long i = 0; i < n; i++) {
        size_t max = r.below(6); std::optional<size_t> bound; cd::lru_cache<string, string> c = max ? cd::lru_cache<string, string>(cd::optional<size_t>(max)) : cd::lru_cache<string, string>(); if(max) bound = max;
        std::list<std::pair<string, string>> m; auto find = [&](const string& k) { return std::find_if(m.begin(), m.end(), [&](auto& x) { return x.first == k; }); }; auto trim = [&] { while(bound && m.size() > *bound) m.pop_back(); }; string h = vh::fmt("max %zu:", max);
        for(int s = (int)r.below(40); s-- > 0;) {
            string k(1, (char)('a' + r.below(7))), v = std::to_string(r.below(1000)) + string(r.below(30), 'v'); auto it = find(k); vh::eval();
            switch(r.below(6)) {
                case 0: { h += " get " + k; auto g = c.maybe_get(k); vh::check(g.has_value() == (it != m.end()) && (!g.has_value() || g.unwrap() == it->second), "lru:get", h); if(it != m.end()) { m.splice(m.begin(), m, it); if(r.chance(1, 3)) { g.unwrap() = v; m.front().second = v; h += "!"; } } break; }
                case 1: { h += " cget " + k; const auto& cc = c; auto g = cc.maybe_get(k); vh::check(g.has_value() == (it != m.end()) && (!g.has_value() || g.unwrap() == it->second), "lru:get", h); if(it != m.end()) m.splice(m.begin(), m, it); break; }
                case 2: h += " set " + k; c.set(k, v); if(it != m.end()) { it->second = v; m.splice(m.begin(), m, it); } else { m.push_front({k, v}); trim(); } break;
                case 3: { h += " insert " + k; auto g = c.insert(k, v); vh::check(g.has_value() == (it == m.end()), "lru:insert", h); if(it == m.end()) { m.push_front({k, v}); trim(); vh::check(g.unwrap() == v, "lru:insert", h); } break; }
                case 4: h += " touch " + k; c.maybe_touch(k); if(it != m.end()) m.splice(m.begin(), m, it); break;
                case 5: { size_t b = r.below(6); h += vh::fmt(" max %zu", b); if(b) { c.set_max_size(cd::optional<size_t>(b)); bound = b; trim(); } else { c.set_max_size(cd::nullopt); bound.reset(); } break; }
            }
            vh::check(c.size() == m.size(), "lru:size", h);
        }
        for(auto k = m.rbegin(); k != m.rend(); ++k) { auto g = c.maybe_get(k->first); vh::check(g.has_value() && g.unwrap() == k->second, "lru:final", h); }
        vh::distinct(h); vh::sample(vh::esc(h.substr(0, 300)), 8);
    }
    vh::stat("lru_histories", n);
}
static long alive; // every value made must be destroyed exactly once
struct counted { string s; counted(string s) : s(std::move(s)) { alive++; } counted(const counted& o) : s(o.s) { alive++; } counted(counted&& o) noexcept : s(std::move(o.s)) { alive++; o.s = "moved"; } counted& operator=(const counted&) = default; counted& operator=(counted&& o) noexcept { s = std::move(o.s); o.s = "moved"; return *this; } ~counted() { s = "dead"; alive--; } bool operator==(const counted& o) const { return s == o.s; } };
struct err : counted { using counted::counted; const char* what() const noexcept { return s.c_str(); } };
static void values(vh::rng& r, long n) {
    for(long i = 0; i < n; i++) {
        long before = alive; string h;
        { const int N = 3; cd::optional<counted> v[N]; std::optional<string> m[N];
          for(int s = (int)r.below(16); s-- > 0;) { int a = (int)r.below(N), b = (int)r.below(N); string x = std::to_string(r.below(1000)) + string(r.below(30), 'x'); vh::eval();
            switch(r.below(9)) { case 0: v[a] = counted(x); m[a] = x; h += vh::fmt(" %d=", a); break; case 1: { counted c(x); v[a] = c; m[a] = x; h += vh::fmt(" %d=l", a); vh::check(c.s == x, "optional:copy-from-lvalue", h); break; } case 2: v[a] = v[b]; m[a] = m[b]; h += vh::fmt(" %d=%d", a, b); break; case 3: { cd::optional<counted> c(v[b]); v[a] = std::move(c); m[a] = m[b]; h += vh::fmt(" %d=move%d", a, b); break; }
                case 4: v[a].reset(); m[a].reset(); h += vh::fmt(" reset%d", a); break; case 5: v[a] = cd::nullopt; m[a].reset(); h += vh::fmt(" null%d", a); break; case 6: if(a != b) { v[a].swap(v[b]); std::swap(m[a], m[b]); h += vh::fmt(" swap%d%d", a, b); } break; case 7: if(m[a]) { v[a].unwrap().s = x; m[a] = x; h += " in place"; } else { bool threw = false; try { (void)v[a].unwrap(); } catch(const std::exception&) { threw = true; } vh::check(threw, "optional:empty-unwrap", h); } break; case 8: { cd::optional<counted> c(std::move(v[a])); vh::check(c.has_value() == m[a].has_value() && (!m[a] || c.unwrap().s == *m[a]), "optional:move", h); v[a] = std::move(c); h += " through a move"; break; } }
            for(int k = 0; k < N; k++) { vh::check(v[k].has_value() == m[k].has_value() && bool(v[k]) == m[k].has_value() && (!m[k] || v[k].unwrap().s == *m[k]) && v[k].value_or(counted("alt")).s == m[k].value_or("alt"), "optional:model", h); } } }
        { string target[2] = {"t0", "t1"}; cd::optional<string&> o; vh::check(!o.has_value(), "optional:reference", "starts empty"); o = target[0]; o.unwrap() += "!"; cd::optional<string&> p(o); o = target[1]; vh::check(target[0] == "t0!" && &o.unwrap() == &target[1] && &p.unwrap() == &target[0], "optional:reference", "rebinding"); p.reset(); vh::check(!p.has_value() && target[0] == "t0!", "optional:reference", "reset"); }
        { typedef cd::Result<counted, err> res; auto make = [](bool ok, const string& x) { return ok ? res(counted(x)) : res(err(x)); }; bool ok[2] = {r.chance(1, 2), r.chance(1, 2)}; string x[2] = {"one" + std::to_string(i), "two"}; res a = make(ok[0], x[0]), b = make(ok[1], x[1]); h += vh::fmt(" result %d %d", ok[0], ok[1]);
          auto is = [&](res& z, bool good, const string& s) { vh::eval(); bool threw = false; try { if(good) (void)z.unwrap_error(); else (void)z.unwrap_value(); } catch(const std::exception&) { threw = true; } vh::check(threw && z.has_value() == good && z.is_error() == !good && bool(z) == good && (good ? z.unwrap_value().s : z.unwrap_error().s) == s && z.value().has_value() == good && z.error().has_value() == !good && (good ? z.value().unwrap().s : z.error().unwrap().s) == s && z.value_or(counted("alt")).s == (good ? s : "alt"), "result:model", h + " wanted " + s); };
          is(a, ok[0], x[0]); for(int s = (int)r.below(5); s-- > 0;) switch(r.below(4)) { case 0: a = b; ok[0] = ok[1]; x[0] = x[1]; break; case 1: { res c(std::move(b)); b = std::move(c); break; } case 2: { bool g = r.chance(1, 2); b = make(g, "new"); ok[1] = g; x[1] = "new"; break; } case 3: { auto& self = a; a = self; break; } } is(a, ok[0], x[0]); is(b, ok[1], x[1]);
          auto t = a.transform([](counted& c) { return (int)c.s.size(); }); vh::check(t.has_value() == ok[0] && (ok[0] ? t.unwrap_value() == (int)x[0].size() : t.unwrap_error().s == x[0]), "result:transform", h); is(a, ok[0], x[0]); auto t2 = std::move(a).transform([](counted&& c) { return c.s + "+"; }); vh::check(ok[0] ? t2.unwrap_value() == x[0] + "+" : t2.is_error(), "result:transform", h); if(ok[1]) { counted c = std::move(b).unwrap_value(); vh::check(c.s == x[1], "result:take", h); } else { err e = std::move(b).unwrap_error(); vh::check(e.s == x[1], "result:take", h); } }
        { int runs = 0; { auto g = cd::scope_exit([&] { runs++; }); auto g2 = std::move(g); vh::check(runs == 0, "guard:early", h); } vh::check(runs == 1, "guard:once", vh::fmt("%d times", runs)); int freed = 0; static int* fp; fp = &freed; { auto w = cd::raii_wrap(7, +[](int v) { *fp += v; }); auto w2 = std::move(w); vh::check(w2.get() == 7 && freed == 0, "wrapper:early", h); } vh::check(freed == 7, "wrapper:once", vh::fmt("freed %d", freed));
          counted outside("outside"); { cd::maybe_owned<counted> a(&outside); vh::check(a.get() == &outside && a->s == "outside", "owned:borrowed", h); cd::maybe_owned<counted> b(cd::make_unique<counted>(string("inside"))); cd::maybe_owned<counted> c(std::move(b)); vh::check((*c).s == "inside" && c.get()->s == "inside", "owned:moved", h); } vh::check(outside.s == "outside", "owned:borrowed", h); }
        vh::check(alive == before, "values:destroyed-once", vh::fmt("%ld left after", alive - before) + h); vh::distinct(h);
    }
    vh::stat("value_histories", n);
}
// ---- files ------------------------------------------------------------------------------------------------------------------
static void files(vh::rng& r, long n) {
    char name[] = "/tmp/c24-XXXXXX"; int fd = mkstemp(name); string content; for(int i = 0; i < 5000; i++) content += (char)r.below(256); if(write(fd, content.data(), content.size()) != (ssize_t)content.size()) abort(); close(fd);
    char* block = (char*)malloc(content.size()); memcpy(block, content.data(), content.size()); auto f = cd::file::open(string(name)); if(!vh::check(f.has_value(), "file:open", name)) return; cd::file file = std::move(f).unwrap_value(); cd::memory_file_view mem(cd::cbspan(block, content.size())); cd::memory_file_view none(cd::cbspan(block, (size_t)0));
    vh::check(string(file.path()) == name, "file:path", name); vh::check(cd::file::open(string(name) + ".missing").is_error() && cd::file::open(string("/tmp/") + string(5000, 'x')).is_error(), "file:open-missing", name);
    for(long i = 0; i < n; i++) {
        size_t len = r.below(r.chance(1, 5) ? 6000 : 40); off_t off; switch(r.below(7)) { case 0: off = (off_t)(content.size() - len); break; case 1: off = (off_t)(content.size() - len + 1); break; case 2: off = (off_t)r.next(); break; case 3: off = -(off_t)r.below(100); break; case 4: off = (off_t)((uint64_t)1 << r.below(64)); break; default: off = (off_t)r.below(content.size() + 10); }
        bool ok = off >= 0 && (uint64_t)off <= content.size() && len <= content.size() - (uint64_t)off; string d = vh::fmt("%zu bytes at %lld of %zu", len, (long long)off, content.size()); vh::eval(); vh::journal(d); vh::distinct(d);
        for(int k = 0; k < 2; k++) { vector<char> buf(len + 2, 'G'); cd::base_file& b = k ? (cd::base_file&)mem : (cd::base_file&)file; auto res = b.read_bytes(cd::bspan(buf.data() + 1, len), off); if(len || k) vh::check(res.has_value() == ok, "file:read", string(k ? "memory: " : "file: ") + d); if(ok && len && res.has_value()) vh::check(!memcmp(buf.data() + 1, content.data() + off, len), "file:contents", d); vh::check(buf.front() == 'G' && buf.back() == 'G', "file:overrun", d);
            struct rec { char a; int b; short c; }; auto one = b.read<rec>(off); bool fits = off >= 0 && (uint64_t)off + sizeof(rec) <= content.size() && (uint64_t)off <= content.size(); vh::check(one.has_value() == fits, "file:read-object", d); if(fits && one.has_value()) { rec w; memcpy(&w, content.data() + off, sizeof w); vh::check(w.a == one.unwrap_value().a && w.b == one.unwrap_value().b && w.c == one.unwrap_value().c, "file:object", d); }
            vector<uint32_t> items(r.below(20)); auto many = b.read_span(cd::make_span(items.begin(), items.end()), off); bool fit = off >= 0 && (uint64_t)off <= content.size() && items.size() * 4 <= content.size() - (uint64_t)off; if(!items.empty()) { vh::check(many.has_value() == fit, "file:read-span", d); if(fit && many.has_value()) vh::check(!memcmp(items.data(), content.data() + off, items.size() * 4), "file:span", d); } }
        { char b; vh::check(none.read_bytes(cd::bspan(&b, 1), off).is_error(), "file:read", "empty: " + d); }
    }
    unlink(name); free(block); vh::stat("file_reads", n);
}
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); long n = vh::iarg("cases", 1000);
    strings(r, 4 * n); numbers(r, 4 * n); formats(r, 4 * n); lru(r, n); values(r, n); files(r, n);
    return vh::finish();
}
