// C03: object frames against /proc/self/maps and the files' own program headers and symbol tables.
#include "vh.hpp"
#include "c02_sites.hpp"
#include <cpptrace/cpptrace.hpp>
#include <algorithm>
#include <dlfcn.h>
#include <elf.h>
#include <sys/auxv.h>
#include <sys/stat.h>
using std::string; using std::vector;
typedef std::uint64_t u64;
struct segment { u64 off, va, filesz; };
struct image { vector<segment> loads; std::map<string, u64> dyn; u64 ino = 0, dev = 0; bool elf = false; };
static image read_image(const string& path) {
    image im; struct stat st; if(stat(path.c_str(), &st)) return im; im.ino = st.st_ino; im.dev = st.st_dev;
    FILE* f = fopen(path.c_str(), "rb"); string b; char buf[65536]; size_t n; if(!f) return im; while((n = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, n); fclose(f);
    if(b.size() < sizeof(Elf64_Ehdr) || memcmp(b.data(), ELFMAG, 4)) return im;
    auto* eh = (const Elf64_Ehdr*)b.data(); im.elf = true;
    for(int i = 0; i < eh->e_phnum; i++) { auto* ph = (const Elf64_Phdr*)(b.data() + eh->e_phoff + (size_t)i * eh->e_phentsize); if(ph->p_type == PT_LOAD) im.loads.push_back({ph->p_offset, ph->p_vaddr, ph->p_filesz}); }
    for(int i = 0; i < eh->e_shnum; i++) { auto* sh = (const Elf64_Shdr*)(b.data() + eh->e_shoff + (size_t)i * eh->e_shentsize); if(sh->sh_type != SHT_DYNSYM && sh->sh_type != SHT_SYMTAB) continue;
        auto* str = (const Elf64_Shdr*)(b.data() + eh->e_shoff + (size_t)sh->sh_link * eh->e_shentsize);
        for(u64 k = 0; k < sh->sh_size / sizeof(Elf64_Sym); k++) { auto* y = (const Elf64_Sym*)(b.data() + sh->sh_offset) + k; if(y->st_value && ELF64_ST_TYPE(y->st_info) == STT_FUNC) im.dyn[b.data() + str->sh_offset + y->st_name] = y->st_value; } }
    return im;
}
static std::map<string, image> images; // files keep their contents while the harness runs
static image& image_of(const string& path) { auto it = images.find(path); if(it == images.end()) it = images.emplace(path, read_image(path)).first; return it->second; }
struct mapping { u64 a, b, off; string path; };
static vector<mapping> maps() {
    vector<mapping> v; FILE* f = fopen("/proc/self/maps", "r"); char line[8192];
    while(fgets(line, sizeof line, f)) { unsigned long a, b, off; int at = 0; if(sscanf(line, "%lx-%lx %*s %lx %*s %*s %n", &a, &b, &off, &at) < 3 || !at) continue; string p = line + at; while(!p.empty() && p.back() == '\n') p.pop_back(); v.push_back({a, b, off, p}); }
    fclose(f); return v;
}
static vh::rng* R; static vector<string> not_modules; // files mapped as data
static bool safe_ok;
// 1: module with known file, 0: certainly no module, -1: cannot tell
static int expect(const vector<mapping>& ms, u64 a, string* path, u64* obj) {
    for(auto& m : ms) if(a >= m.a && a < m.b) {
        if(m.path.empty() || m.path[0] != '/') return m.path.empty() ? -1 : m.path == "[heap]" || m.path.compare(0, 6, "[stack") == 0 ? 0 : -1;
        for(auto& d : not_modules) if(d == m.path) return 0;
        auto& im = image_of(m.path); if(!im.elf) return 0;
        u64 off = m.off + (a - m.a); vector<u64> cands;
        for(auto& s : im.loads) if(off >= s.off && off < s.off + s.filesz) cands.push_back(s.va + off - s.off);
        if(cands.empty()) return -1;
        *path = m.path; *obj = cands[0];
        { // page shared by two segments in the file: tell them apart by the distance to the module's other mappings
            u64 lo = ~0ull; u64 first_va = im.loads[0].va / 4096 * 4096; for(auto& x : ms) if(x.path == m.path && x.a <= a && x.off == im.loads[0].off / 4096 * 4096) lo = x.a;
            if(lo == ~0ull) return -1;
            bool any = false; for(auto c : cands) if(c == a - lo + first_va) { *obj = c; any = true; }
            if(!any) return -1; // page padding
        }
        return 1;
    }
    return 0; // nothing is mapped here
}
static bool same_file(const string& a, const string& b) { struct stat x, y; return stat(a.c_str(), &x) == 0 && stat(b.c_str(), &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev; }
static void judge(const cpptrace::object_frame& f, u64 a, int kind, const string& path, u64 obj, const char* how) {
    vh::eval(); vh::stat(kind == 1 ? "in_module" : kind == 0 ? "outside" : "undetermined");
    string d = string(how) + vh::fmt(": %#zx -> '", (size_t)a) + f.object_path + vh::fmt("' %#zx raw %#zx; expected '", (size_t)f.object_address, (size_t)f.raw_address) + path + vh::fmt("' %#zx", (size_t)obj);
    vh::check(f.raw_address == a, "object:raw-address", d);
    if(kind == 1) { vh::check(!f.object_path.empty() && same_file(f.object_path, path), "object:path", d); vh::check(f.object_address == obj, "object:address", d); }
    else if(kind == 0) vh::check(f.object_path.empty() && f.object_address == 0, "object:nothing-there", d);
}
static void ask(const vector<u64>& as) {
    auto ms = maps(); cpptrace::raw_trace t; t.frames.assign(as.begin(), as.end());
    string j; for(auto a : as) j += vh::fmt("%zx ", (size_t)a); vh::journal(j);
    auto ot = t.resolve_object_trace();
    if(!vh::check(ot.frames.size() == as.size(), "object:count", vh::fmt("%zu for %zu", ot.frames.size(), as.size()))) return;
    for(size_t i = 0; i < as.size(); i++) {
        string path; u64 obj = 0; int kind = expect(ms, as[i], &path, &obj);
        judge(ot.frames[i], as[i], kind, path, obj, "resolve_object_trace");
        cpptrace::stacktrace_frame sf{}; sf.raw_address = as[i]; sf.object_address = 0x1234; sf.filename = "/else";
        auto g = sf.get_object_info(); judge(g, as[i], kind, path, obj, "get_object_info");
        vh::check(g.object_path == ot.frames[i].object_path && g.object_address == ot.frames[i].object_address, "object:disagree", vh::fmt("%#zx: '", (size_t)as[i]) + g.object_path + "' and '" + ot.frames[i].object_path + "'");
        if(safe_ok) {
            cpptrace::safe_object_frame s; memset(&s, 0x5c, sizeof s); cpptrace::get_safe_object_frame(as[i], &s);
            vh::check(s.raw_address == as[i] && memchr(s.object_path, 0, sizeof s.object_path), "object:safe-frame", vh::fmt("%#zx", (size_t)as[i]));
            auto r = s.resolve(); judge(r, as[i], kind, path, obj, "safe_object_frame");
            vh::check(r.object_path == ot.frames[i].object_path && r.object_address == ot.frames[i].object_address, "object:safe-disagrees", vh::fmt("%#zx: '", (size_t)as[i]) + r.object_path + "' and '" + ot.frames[i].object_path + "'");
        }
    }
    vh::distinct(j);
}
static cpptrace::raw_trace live_raw; static cpptrace::object_trace live_obj; static cpptrace::stacktrace live_res;
extern "C" __attribute__((noinline, noipa)) void c03_capture(ctx*) {
    int k = (int)R->below(2);
    live_raw = cpptrace::generate_raw_trace(); live_obj = k ? cpptrace::generate_object_trace() : cpptrace::object_trace::current();
    if(R->chance(1, 6)) live_res = cpptrace::generate_trace(); else live_res.clear();
}
struct module { string path, name; void* handle; step_table steps; };
static vector<module> modules;
static void live() {
    vector<stepfn> plan; for(size_t n = 1 + R->below(6); n--;) { auto& m = R->pick(modules); plan.push_back(m.steps.fns[R->below(m.steps.n)]); }
    plan.push_back(c03_capture); ctx c{plan.data(), 1, {}, 0}; plan[0](&c);
    auto ms = maps();
    vh::check(live_raw.frames.size() == live_obj.frames.size() && live_raw.frames.size() > 1, "object:live-count", vh::fmt("%zu raw and %zu object frames", live_raw.frames.size(), live_obj.frames.size()));
    for(size_t i = 1; i < live_raw.frames.size() && i < live_obj.frames.size(); i++) {
        string p; u64 o = 0; int kind = expect(ms, live_raw.frames[i], &p, &o);
        judge(live_obj.frames[i], live_raw.frames[i], kind, p, o, "generate_object_trace"); vh::stat("live_frames");
        if(i < live_res.frames.size() && live_res.frames.size() == live_raw.frames.size()) vh::check(live_res.frames[i].raw_address == live_raw.frames[i] && (kind != 1 || live_res.frames[i].object_address == o), "object:resolved-address", vh::fmt("%#zx resolved with object address %#zx, expected %#zx", (size_t)live_raw.frames[i], (size_t)live_res.frames[i].object_address, (size_t)o));
    }
}
extern "C" step_table steps_exe();
int main(int argc, char** argv) {
    vh::init(argc, argv); vh::rng r(vh::iarg("seed", 1)); R = &r; safe_ok = cpptrace::can_get_safe_object_frame();
    vh::stat(safe_ok ? "safe_frames_available" : "safe_frames_unavailable");
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n] = 0; modules.push_back({exe, "exe", nullptr, steps_exe()});
    struct lib { string name, path; }; vector<lib> avail;
    { string l = vh::arg("libs"), item; for(char ch : l + ",") if(ch == ',') { auto e = item.find('='); if(e != string::npos) avail.push_back({item.substr(0, e), item.substr(e + 1)}); item.clear(); } else item += ch; }
    char dir[] = "/tmp/c03-XXXXXX"; string tmp = mkdtemp(dir); int copies = 0; bool cwd = chdir(dir) == 0;
    { string data = tmp + "/mapped data"; FILE* f = fopen(data.c_str(), "wb"); fwrite(exe, 1, 4096, f); fclose(f); not_modules.push_back(data); f = fopen(data.c_str(), "rb"); mmap(nullptr, 4096, PROT_READ | PROT_EXEC, MAP_PRIVATE, fileno(f), 0); fclose(f); }
    static char bss[100000]; static int data = 5; void* heap = malloc(50); void* anon = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for(long k = 0, N = vh::iarg("rounds", 30); k < N; k++) {
        for(size_t i = modules.size(); i-- > 1;) if(r.chance(1, 2)) { dlclose(modules[i].handle); modules.erase(modules.begin() + i); vh::stat("dlclose"); }
        if(!avail.empty()) for(size_t j = r.below(4); j--;) {
            auto a = r.pick(avail); bool there = false; for(auto& m : modules) there |= m.name == a.name;
            string p = a.path;
            switch(r.below(6)) {
                case 3: { string d = tmp + "/d" + std::to_string(copies++) + (r.chance(1, 2) ? "/plugin" : ""), c = d + "/module.so"; if(system(("mkdir -p '" + d + "' && cp '" + a.path + "' '" + c + "'").c_str()) == 0) p = c; break; } // different contents under one file name
                case 0: { string c = tmp + "/copy " + std::to_string(copies++) + ".so"; if(system(("cp '" + a.path + "' '" + c + "'").c_str()) == 0) p = c; break; } // same contents elsewhere
                case 1: { string c = tmp + "/link" + std::to_string(copies++) + ".so"; if(!there && symlink(a.path.c_str(), c.c_str()) == 0) p = c; break; }
                case 2: { string c = "rel" + std::to_string(copies++) + ".so"; if(cwd && system(("cp '" + a.path + "' './" + c + "'").c_str()) == 0) p = "./" + c; break; }
                default: if(there) continue;
            }
            void* h = r.chance(1, 8) ? dlmopen(LM_ID_NEWLM, p.c_str(), RTLD_NOW) : dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
            if(!h) continue; // e.g. no more namespaces
            modules.push_back({p, a.name, h, ((step_table(*)())dlsym(h, ("steps_" + a.name).c_str()))()}); vh::stat("dlopen");
            auto sym = (u64)dlsym(h, ("f_" + a.name).c_str()); auto& im = image_of(a.path); // the file's own idea of the function's address
            cpptrace::raw_trace t; t.frames = {(cpptrace::frame_ptr)sym, (cpptrace::frame_ptr)sym + 3}; auto o = t.resolve_object_trace(); auto want = im.dyn["f_" + a.name];
            vh::eval(); vh::stat("symbol_table_addresses");
            vh::check(o.frames[0].object_address == want && o.frames[1].object_address == want + 3, "object:symbol-address", vh::fmt("f_%s of %s at %#zx: object address %#zx, symbol table %#zx", a.name.c_str(), p.c_str(), (size_t)sym, (size_t)o.frames[0].object_address, (size_t)want));
        }
        auto ms = maps(); vector<u64> as;
        for(int i = 0; i < 40; i++) {
            auto& m = r.pick(ms);
            switch(r.below(12)) {
                case 0: as.push_back(m.a); break; case 1: as.push_back(m.b - 1); break; case 2: as.push_back(m.b); break; case 3: as.push_back(m.a - 1); break;
                case 4: as.push_back(r.below(70000)); break; case 5: as.push_back(~0ull - r.below(5000)); break; case 6: as.push_back((u64)heap + r.below(40)); break; case 7: as.push_back((u64)&as); break;
                case 8: as.push_back((u64)anon + r.below(8192)); break; case 9: as.push_back(r.chance(1, 2) ? (u64)&data : (u64)(void*)&main + r.below(100)); break;
                default: as.push_back(m.a + r.below(m.b - m.a));
            }
        }
        (void)bss; ask(as); live(); live();
        if(k < 2) { string s; for(auto& m : modules) s += m.path + "; "; vh::sample(s); }
    }
    (void)!chdir("/"); (void)!system(("rm -rf '" + tmp + "'").c_str());
    return vh::finish();
}
