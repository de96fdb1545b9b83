// C10: the ELF reader on generated objects with known contents and on corrupted ones; every buffer is an exact heap block
// so that the address sanitizer sees any read past it.
#include "elfgen.hpp"
#include <cpptrace/cpptrace.hpp>
#include <sys/stat.h>
#ifdef INTERNAL
#include "binary/elf.hpp"
#include "jit/jit_objects.hpp"
#include "utils/io/memory_file_view.hpp"
using cpptrace::detail::elf;
#endif
using std::string; using std::vector;
struct block { char* p; size_t n; explicit block(const string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if(!n) { p = (char*)realloc(p, 1); } } ~block() { free(p); } block(const block&) = delete; };

static elf_spec random_spec(vh::rng& r) {
    elf_spec s; s.is64 = r.chance(2, 3); s.little = r.chance(1, 2); s.symtab = r.chance(4, 5); s.dynsym = r.chance(1, 2); s.phdr = r.chance(1, 2); s.load = r.chance(3, 4);
    s.base = r.chance(1, 2) ? 0 : (r.below(0x7000) << 16);
    if(r.chance(1, 4)) s.extra_phent = 8 * r.below(4); if(r.chance(1, 4)) s.extra_shent = 8 * r.below(4);
    if(r.chance(1, 3)) s.null_sections = r.below(6);
    std::uint64_t a = s.base + 0x1000 + r.below(0x800);
    for(size_t n = r.below(4); n--;) { std::uint64_t sz = 1 + r.below(0x4000); s.texts.push_back({a, sz, r.chance(4, 5) ? ".text" : r.pick(vector<string>{".text.hot", ".textual", ".data", ".tex", ""})}); a += sz + (r.chance(1, 2) ? 0 : r.below(0x1000)); }
    auto symbols = [&](vector<elf_sym>& v, const char* prefix) {
        std::uint64_t at = s.base + 0x800 + r.below(64); int id = 0;
        for(size_t n = r.below(r.chance(1, 8) ? 200 : 12); n--;) {
            std::uint64_t sz = 1 + r.below(r.chance(1, 4) ? 3 : 300);
            string name = string(prefix) + std::to_string(id++); if(r.chance(1, 6)) name += string(r.below(200), 'n');
            v.push_back({name, at, sz});
            if(r.chance(1, 4)) v.push_back({"zero_" + name, at + r.below(sz + 1), 0}); // zero-sized symbols name nothing
            at += sz + (r.chance(1, 2) ? 0 : r.below(50));
        }
        for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    };
    symbols(s.syms, "sym"); symbols(s.dynsyms, "dyn");
    return s;
}
#ifdef INTERNAL
static string lookup_model(const elf_spec& s, std::uint64_t pc) {
    if(s.symtab) for(auto& y : s.syms) if(y.size && pc >= y.value && pc - y.value < y.size) return y.name;
    if(s.dynsym) for(auto& y : s.dynsyms) if(y.size && pc >= y.value && pc - y.value < y.size) return y.name;
    return "(none)";
}
static string q_base(elf& e) { auto b = e.get_module_image_base(); return b.is_error() ? "error" : vh::fmt("%#zx", (size_t)b.unwrap_value()); }
static string q_ranges(elf& e) { auto b = e.get_pc_ranges(); if(b.is_error()) return "error"; string s; for(auto& x : b.unwrap_value()) s += vh::fmt("[%#zx,%#zx)", (size_t)x.low, (size_t)x.high); return s; }
static string q_lookup(elf& e, std::uint64_t pc) { auto x = e.lookup_symbol(pc); return x ? x.unwrap() : string("(none)"); }
template<typename R> static string entries(R b) {
    if(b.is_error()) return "error"; if(!b.unwrap_value()) return "absent";
    vector<string> v; for(auto& x : b.unwrap_value().unwrap()) v.push_back(vh::fmt("%zx+%zx:%d ", (size_t)x.st_value, (size_t)x.st_size, x.st_shndx) + x.st_name);
    std::sort(v.begin(), v.end()); string s; for(auto& x : v) s += x + ";"; return s;
}
static string query(elf& e, int q, std::uint64_t pc) {
    switch(q) { case 0: return q_base(e); case 1: return q_ranges(e); case 2: return entries(e.get_symtab_entries()); case 3: return entries(e.get_dynamic_symtab_entries()); default: return q_lookup(e, pc); }
}
static string model_entries(bool have, const vector<elf_sym>& v) {
    if(!have) return "absent"; vector<string> o; for(auto& y : v) if(y.size) o.push_back(vh::fmt("%zx+%zx:%d ", (size_t)y.value, (size_t)y.size, y.shndx) + y.name);
    std::sort(o.begin(), o.end()); string s; for(auto& x : o) s += x + ";"; return s;
}
static string model(const elf_spec& s, int q, std::uint64_t pc) {
    switch(q) {
        case 0: return vh::fmt("%#zx", (size_t)(s.phdr || s.load ? s.base : 0));
        case 1: { string o; for(auto& t : s.texts) if(t.name == ".text") o += vh::fmt("[%#zx,%#zx)", (size_t)t.addr, (size_t)(t.addr + t.size)); return o; }
        case 2: return model_entries(s.symtab, s.syms); case 3: return model_entries(s.dynsym, s.dynsyms);
        default: return lookup_model(s, pc);
    }
}
static vector<std::uint64_t> probes(vh::rng& r, const elf_spec& s) {
    vector<std::uint64_t> v = {0, 1, s.base, ~0ull, s.base + r.below(0x10000)};
    for(auto* l : {&s.syms, &s.dynsyms}) for(size_t k = 0; k < 4 && !l->empty(); k++) { auto& y = r.pick(*l); for(auto x : {y.value, y.value + y.size, y.value + y.size - 1, y.value - 1, y.value + y.size / 2, y.value + y.size + 1}) v.push_back(x); }
    return v;
}
static void well_formed(vh::rng& r, const string& dir) {
    elf_spec s = random_spec(r); elf_writer w(s); string bytes = w.write();
    string desc = vh::fmt("%d-bit %s-endian base=%#zx phdr=%d load=%d symtab=%d(%zu) dynsym=%d(%zu) texts=%zu", s.is64 ? 64 : 32, s.little ? "little" : "big", (size_t)s.base, s.phdr, s.load, s.symtab, s.syms.size(), s.dynsym, s.dynsyms.size(), s.texts.size());
    vh::journal("well-formed " + desc); vh::sample(desc);
    block b(bytes);
    string path = dir + "/obj";
    { FILE* f = fopen(path.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
    for(int disk = 0; disk < 2; disk++) {
        auto res = disk ? elf::open(cpptrace::detail::cstring_view(path)) : elf::open(cpptrace::detail::make_span((const char*)b.p, b.n));
        vh::eval();
        if(!vh::check(!res.is_error(), "elf:open", desc)) continue;
        elf e = std::move(res).unwrap_value();
        auto ps = probes(r, s);
        for(int k = 0; k < 25; k++) { // queries in any order on one object
            int q = k < 4 ? (int)r.below(4) : (int)r.below(8); auto pc = r.pick(ps);
            string got = query(e, q, pc), want = model(s, q, pc);
            static const char* const names[] = {"base", "ranges", "symtab", "dynsym", "lookup"};
            vh::eval(); vh::stat(string("well_formed_") + names[q > 4 ? 4 : q]);
            vh::check(got == want, string("elf:") + names[q > 4 ? 4 : q], desc + vh::fmt(" pc=%#zx %s", (size_t)pc, disk ? "disk" : "memory") + "\n got: " + got.substr(0, 900) + "\nwant: " + want.substr(0, 900));
        }
    }
    vh::distinct(bytes);
}
#endif
static std::uint64_t interesting(vh::rng& r, size_t size) {
    switch(r.below(12)) { case 0: return 0; case 1: return 1; case 2: return ~0ull; case 3: return ~0ull - r.below(64); case 4: return size; case 5: return size - 1 - r.below(8); case 6: return size + r.below(8); case 7: return 1ull << r.below(64); case 8: return (1ull << 63) - r.below(3); case 9: return r.next(); case 10: return r.below(256); default: return 0x7fffffffffffffffull; }
}
static void hostile_bytes(const string& bytes, vh::rng& r, const string& dir, const char* kind) {
    vh::journal(vh::fmt("%s %zu bytes: ", kind, bytes.size()) + vh::esc(bytes, 20000));
    vh::distinct(bytes); vh::stat(string("hostile_") + kind); vh::eval();
    block b(bytes);
    try {
        cpptrace::register_jit_object(b.p, b.n);
        if(r.chance(1, 2)) cpptrace::unregister_jit_object(b.p); else cpptrace::clear_all_jit_objects();
    } catch(const std::exception& e) { vh::violation("elf:hostile-registration-throws", string(kind) + ": " + e.what()); }
#ifdef INTERNAL
    string path = dir + "/hostile";
    if(r.chance(1, 4)) { FILE* f = fopen(path.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); } else path.clear();
    try {
        for(int disk = 0; disk < (path.empty() ? 1 : 2); disk++) {
            auto open = [&] { return disk ? elf::open(cpptrace::detail::cstring_view(path)) : elf::open(cpptrace::detail::make_span((const char*)b.p, b.n)); };
            auto res = open(); if(res.is_error()) { vh::stat("hostile_rejected_at_open"); continue; }
            elf e = std::move(res).unwrap_value();
            vector<std::pair<int, std::uint64_t>> qs; for(int k = 0; k < 8; k++) qs.push_back({k < 5 ? k : (int)r.below(5), interesting(r, bytes.size())});
            for(size_t i = qs.size(); i > 1; i--) std::swap(qs[i - 1], qs[r.below(i)]);
            for(auto& q : qs) {
                string got = query(e, q.first, q.second);
                auto res2 = open(); elf fresh = std::move(res2).unwrap_value();
                string alone = query(fresh, q.first, q.second);
                vh::stat(got == "error" ? "hostile_query_error" : got == "(none)" || got == "absent" || got.empty() ? "hostile_query_nothing" : "hostile_query_value");
                vh::check(got == alone, "elf:answer-depends-on-history", vh::fmt("%s query %d pc=%#zx: '", kind, q.first, (size_t)q.second) + got.substr(0, 300) + "' after other queries, '" + alone.substr(0, 300) + "' alone");
            }
        }
    } catch(const std::exception& ex) { vh::violation("elf:hostile-query-throws", string(kind) + ": " + ex.what()); }
#endif
}
int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::rng r(vh::iarg("seed", 1));
    cpptrace::absorb_trace_exceptions(r.chance(1, 2));
    char tmpl[] = "/tmp/c10-XXXXXX"; string dir = mkdtemp(tmpl);
    cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
#ifdef INTERNAL
    for(long i = 0, n = vh::iarg("good", 500); i < n; i++) well_formed(r, dir);
    { // unusable paths
        mkdir((dir + "/d").c_str(), 0700); { FILE* f = fopen((dir + "/empty").c_str(), "w"); fclose(f); }
        for(string p : {dir + "/missing", dir + "/d", dir + "/empty", string(""), string("/dev/null"), string("/dev/zero"), string(5000, 'x')}) {
            vh::eval(); try { auto x = elf::open(cpptrace::detail::cstring_view(p)); vh::check(x.is_error(), "elf:unusable-path", p); } catch(const std::exception& e) { vh::violation("elf:unusable-path-throws", p + e.what()); }
        }
    }
#endif
    try { // nothing, an empty range, and a null pointer
        char c = 0; cpptrace::register_jit_object(&c, 0); cpptrace::unregister_jit_object(&c); cpptrace::unregister_jit_object(nullptr); cpptrace::register_jit_object(nullptr, 0); cpptrace::clear_all_jit_objects(); vh::eval(5);
    } catch(const std::exception& e) { vh::violation("elf:empty-registration-throws", e.what()); }
    for(long i = 0, n = vh::iarg("bad", 500); i < n; i++) {
        elf_spec s = random_spec(r); elf_writer w(s); string good = w.write();
        string b = good;
        for(size_t k = 1 + r.below(3); k--;) { auto& f = r.pick(w.fields); auto v = interesting(r, b.size()); for(int j = 0; j < f.second; j++) { int sh = s.little ? j : f.second - 1 - j; b[f.first + j] = (char)(v >> (8 * sh)); } }
        hostile_bytes(b, r, dir, "field");
        string c = good; for(size_t k = 1 + r.below(20); k--;) c[r.below(c.size())] = (char)r.below(256); hostile_bytes(c, r, dir, "bytes");
        hostile_bytes(good.substr(0, r.below(good.size() + 1)), r, dir, "truncated");
        hostile_bytes(b.substr(0, r.below(b.size() + 1)), r, dir, "truncated");
        if(r.chance(1, 3)) { string d; for(size_t k = r.below(300); k--;) d += (char)r.below(256); hostile_bytes(d, r, dir, "random"); if(d.size() > 16) { d.replace(0, 7, string("\x7f""ELF", 4) + (char)(1 + r.below(2)) + (char)(1 + r.below(2)) + '\1'); hostile_bytes(d, r, dir, "random"); } }
    }
    for(size_t k = 0; k <= 64; k++) { string t = string("\x7f""ELF\2\1\1") + string(57, '\0'); hostile_bytes(t.substr(0, k), r, dir, "prefix"); }
    (void)!system(("rm -rf '" + dir + "'").c_str());
    return vh::finish();
}
