// C11: random histories over the JIT object registry against a map model. Objects live in their own pages, which are unmapped,
// made inaccessible, overwritten or reused as soon as the object is unregistered.
#include "elfgen.hpp"
#include "dwarf_stub.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/gdb_jit.hpp>
#include <new>
#include <set>
#include <sys/wait.h>
#ifdef INTERNAL
#include "jit/jit_objects.hpp"
#endif
using std::string; using std::vector;
namespace cpptrace { inline namespace v1 { namespace detail { extern "C" { jit_descriptor __jit_debug_descriptor = {1, 0, nullptr, nullptr}; } } } }
namespace cdj = cpptrace::detail;

// one allocation failure on request
static long fail_in;
void* operator new(size_t n) { if(fail_in && --fail_in == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
static bool registered(char* mem, size_t size, long k) { try { fail_in = k; cpptrace::register_jit_object(mem, size); fail_in = 0; return true; } catch(const std::bad_alloc&) { fail_in = 0; return false; } }

struct object { char* mem = nullptr; size_t cap = 0, size = 0; vector<elf_text> texts; string name; bool good = true; bool live = false; };
struct world {
    vh::rng r; vector<object*> objs; vector<char*> dead; int next = 0; size_t lookups = 0, hits = 0;
    std::uint64_t arena; std::set<std::uint64_t> interesting;
    explicit world(std::uint64_t seed) : r(seed), arena(0x10000000000ull + (r.below(1 << 20) << 16)) {}
    bool overlaps(std::uint64_t a, std::uint64_t b) { for(auto* o : objs) if(o->live && o->good) for(auto& t : o->texts) if(t.name == ".text" && a < t.addr + t.size && t.addr < b) return true; return false; }
    object* make() {
        auto* o = new object; o->name = "obj" + std::to_string(next++);
        elf_spec s; s.is64 = r.chance(3, 4); s.little = r.chance(2, 3); s.symtab = r.chance(3, 4); s.dynsym = !s.symtab; s.phdr = s.load = false; s.null_sections = r.below(3);
        if(!s.is64) { s.texts.clear(); }
        auto lim = s.is64 ? arena : 0x10000000ull;
        o->good = !r.chance(1, 8);
        for(size_t n = r.chance(1, 10) ? 0 : 1 + r.below(r.chance(1, 4) ? 4 : 1); n--;) {
            std::uint64_t a, sz; int tries = 0;
            do {
                sz = r.chance(1, 4) ? 1 + r.below(4) : 1 + r.below(0x300); a = lim + r.below(0x4000);
                if(!interesting.empty() && r.chance(1, 2)) { auto it = interesting.lower_bound(a); if(it == interesting.end()) it = interesting.begin(); if((*it > 0xffffffffu) == s.is64) a = r.chance(1, 2) ? *it : *it - sz; } // adjacent to something
            } while((overlaps(a, a + sz) || [&] { for(auto& t : s.texts) if(a < t.addr + t.size && t.addr < a + sz) return true; return false; }()) && ++tries < 50);
            if(tries >= 50) continue;
            s.texts.push_back({a, sz, ".text"}); interesting.insert(a); interesting.insert(a + sz);
        }
        if(r.chance(1, 4)) { auto a = lim + r.below(0x4000); s.texts.push_back({a, 0, ".text"}); } // no code at all
        if(r.chance(1, 4)) { auto a = lim + r.below(0x4000); s.texts.push_back({a, 1 + r.below(0x400), r.pick(vector<string>{".text.cold", ".data", ".textx"})}); } // not .text
        for(size_t i = s.texts.size(); i > 1; i--) std::swap(s.texts[i - 1], s.texts[r.below(i)]);
        (s.symtab ? s.syms : s.dynsyms).push_back({o->name, 0, 0x1000});
        string bytes = elf_writer(s).write();
        if(!o->good) switch(r.below(4)) { case 0: bytes = "not an elf at all"; break; case 1: bytes.resize(r.below(s.is64 ? 64 : 52)); break; case 2: bytes[6] = 9; break; default: bytes.resize(r.below(4)); }
        o->texts = s.texts; o->size = bytes.size();
        if(!dead.empty() && bytes.size() <= 0x8000 && r.chance(1, 2)) { o->mem = dead.back(); dead.pop_back(); mprotect(o->mem, 0x8000, PROT_READ | PROT_WRITE); } // reused memory
        else o->mem = (char*)mmap(nullptr, 0x8000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        o->cap = 0x8000; memcpy(o->mem, bytes.data(), bytes.size());
        objs.push_back(o); return o;
    }
    void bury(object* o) { // its memory is gone for good
        switch(r.below(4)) { case 0: munmap(o->mem, o->cap); break; case 1: case 2: mprotect(o->mem, o->cap, PROT_NONE); dead.push_back(o->mem); break; default: memset(o->mem, 0xa5, o->cap); mprotect(o->mem, o->cap, PROT_NONE); dead.push_back(o->mem); }
        o->mem = nullptr; o->live = false;
    }
    void forget(object* o) { for(size_t i = 0; i < objs.size(); i++) if(objs[i] == o) { objs.erase(objs.begin() + i); break; } delete o; }
    const object* owner(std::uint64_t pc, std::uint64_t* base) { for(auto* o : objs) if(o->live && o->good) for(auto& t : o->texts) if(t.name == ".text" && pc >= t.addr && pc - t.addr < t.size) { *base = t.addr; return o; } return nullptr; }
    vector<std::uint64_t> probe_addresses(size_t n) {
        vector<std::uint64_t> v;
        while(v.size() < n) {
            std::uint64_t pc = r.chance(1, 2) ? arena + r.below(0x4400) : 0x10000000 + r.below(0x4400);
            if(!interesting.empty() && r.chance(3, 4)) { auto it = interesting.begin(); std::advance(it, r.below(interesting.size())); pc = *it + r.range(-2, 2); }
            else if(r.chance(1, 20)) pc = r.pick(vector<std::uint64_t>{0, 1, ~0ull, ~0ull - 1, arena - 1});
            v.push_back(pc);
        }
        return v;
    }
    void look(const string& history) {
        auto pcs = probe_addresses(6);
        for(auto pc : pcs) {
            std::uint64_t base = 0; auto* o = owner(pc, &base); string want = o ? o->name : ""; hits += !!o; lookups++;
            vh::eval();
#ifdef INTERNAL
            auto got = cdj::lookup_jit_symbol(pc);
            string g = got ? got.unwrap() : "";
            if(!vh::check(g == want, "jit:lookup", vh::fmt("pc=%#zx: found '%s', registered there: '%s'\n", (size_t)pc, g.c_str(), want.c_str()) + history)) continue;
#endif
        }
        // the same question through trace resolution
        cpptrace::raw_trace t; for(auto pc : pcs) t.frames.push_back(pc);
        auto res = t.resolve();
        vh::check(res.frames.size() == pcs.size(), "jit:resolve-count", vh::fmt("%zu frames for %zu addresses", res.frames.size(), pcs.size()));
        for(size_t i = 0; i < res.frames.size() && i < pcs.size(); i++) {
            vh::eval();
            std::uint64_t base; auto* o = owner(pcs[i], &base);
            vh::check(res.frames[i].symbol == (o ? o->name : ""), "jit:resolve", vh::fmt("pc=%#zx resolved to '%s', registered there: '%s'\n", (size_t)pcs[i], res.frames[i].symbol.c_str(), o ? o->name.c_str() : "") + history);
            vh::check(res.frames[i].raw_address == pcs[i], "jit:resolve-address", vh::fmt("frame for %#zx in '%s' has raw address %#zx", (size_t)pcs[i], res.frames[i].symbol.c_str(), (size_t)res.frames[i].raw_address));
        }
    }
};
// every allocation of a registration failing once, with 0 to 4 objects registered before, in a fresh process each
static void failures(std::uint64_t seed) {
    for(int before = 0; before < 5; before++) for(long k = 1, failed = 1; failed && k < 60; k++) {
        fflush(nullptr); pid_t p = fork();
        if(p == 0) {
            world w(seed + (std::uint64_t)before); string history = vh::fmt("%d objects, the next fails at allocation %ld; ", before, k); vh::journal(history); int done = 1;
            for(int i = 0; i < before; i++) { auto* o = w.make(); cpptrace::register_jit_object(o->mem, o->size); o->live = true; }
            auto* o = w.make(); bool ok = registered(o->mem, o->size, k); if(ok) o->live = true; else { done = 2; w.bury(o); w.forget(o); }
            w.look(history); if(before) { auto* f = w.objs[0]; cpptrace::unregister_jit_object(f->mem); w.bury(f); w.forget(f); } w.look(history); { auto* n = w.make(); cpptrace::register_jit_object(n->mem, n->size); n->live = true; } w.look(history);
            vh::stat("enumerated_failures"); vh::finish(); _exit(done);
        }
        int st = 0; while(waitpid(p, &st, 0) < 0 && errno == EINTR) {} failed = !WIFEXITED(st) || WEXITSTATUS(st) != 1; if(!WIFEXITED(st) || (WEXITSTATUS(st) != 1 && WEXITSTATUS(st) != 2)) { vh::violation("jit:failed-registration", vh::fmt("%d objects, the next fails at allocation %ld: status %x", before, k, st)); break; }
    }
}
int main(int argc, char** argv) {
    vh::init(argc, argv);
    auto seed = (std::uint64_t)vh::iarg("seed", 1); failures(seed);
    cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
    for(long h = 0, n = vh::iarg("histories", 100); h < n; h++) {
        world w(seed * 100003 + h); auto& r = w.r;
        cpptrace::absorb_trace_exceptions(r.chance(1, 2));
        string history; std::uint64_t kinds = 0;
        auto note = [&](const string& s) { history += s + "; "; if(history.size() > 4000) history.erase(0, 2000); vh::journal(vh::fmt("seed %zu history %ld: ", (size_t)seed, h) + history); };
        auto describe = [](object* o) { string s = o->name + (o->good ? "" : "(malformed)"); for(auto& t : o->texts) s += vh::fmt(" %s[%#zx,+%#zx)", t.name.c_str(), (size_t)t.addr, (size_t)t.size); return s; };
        for(size_t step = 0, len = 5 + r.below(r.chance(1, 6) ? 150 : 40); step < len; step++) {
            vector<object*> live; for(auto* o : w.objs) if(o->live) live.push_back(o);
            int k = (int)r.below(20); kinds = kinds * 31 + k;
            if(k < 9 || live.empty()) { auto* o = w.make(); note("register " + describe(o)); long f = r.chance(1, 5) ? 1 + (long)r.below(30) : 0; // a registration that failed registered nothing, the object may go at once
                if(registered(o->mem, o->size, f)) { o->live = true; vh::stat("register"); } else { note(vh::fmt("failed at allocation %ld", f)); w.bury(o); w.forget(o); vh::stat("register_without_memory"); } }
            else if(k < 14) { auto* o = r.pick(live); note("unregister " + o->name); cpptrace::unregister_jit_object(o->mem); w.bury(o); w.forget(o); vh::stat("unregister"); }
            else if(k < 16) { char dummy; note("unregister unknown"); cpptrace::unregister_jit_object(r.chance(1, 2) ? &dummy : r.pick(live)->mem + 1); cpptrace::unregister_jit_object(nullptr); vh::stat("unregister_unknown"); }
            else if(k == 16) { auto* o = r.pick(live); note("register again " + o->name); registered(o->mem, o->size, r.chance(1, 4) ? 1 + (long)r.below(30) : 0); vh::stat("register_again"); }
            else if(k == 17 && r.chance(1, 3)) { note("clear"); cpptrace::clear_all_jit_objects(); for(auto* o : live) { w.bury(o); w.forget(o); } vh::stat("clear"); }
            else if(k == 18 && r.chance(1, 2)) { // what a debugger interface lists
                vector<cdj::jit_code_entry> es(r.below(live.size() + 1)); vector<object*> keep;
                for(size_t i = 0; i < es.size(); i++) { es[i] = {i + 1 < es.size() ? &es[i + 1] : nullptr, i ? &es[i - 1] : nullptr, live[i]->mem, live[i]->size}; keep.push_back(live[i]); }
                cdj::__jit_debug_descriptor.first_entry = es.empty() ? nullptr : es.data();
                note(vh::fmt("gdb interface with the first %zu of %zu", es.size(), live.size()));
                cpptrace::experimental::register_jit_objects_from_gdb_jit_interface();
                cdj::__jit_debug_descriptor.first_entry = nullptr;
                for(size_t i = es.size(); i < live.size(); i++) { w.bury(live[i]); w.forget(live[i]); }
                vh::stat("gdb_interface");
            }
            w.look(history);
        }
        vh::distinct(vh::hash(history) ^ kinds);
        if(h == 0) vh::sample(history.substr(0, 700));
        vh::stat("lookups", w.lookups); vh::stat("lookups_inside_a_live_object", w.hits);
        note("clear at end"); cpptrace::clear_all_jit_objects();
        for(auto* o : w.objs) if(o->mem) { w.bury(o); } w.look(history);
        for(auto* m : w.dead) munmap(m, 0x8000);
        for(auto* o : w.objs) delete o; w.objs.clear();
    }
    return vh::finish();
}
