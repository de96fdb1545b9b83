// Writes well-formed ELF files of either class and byte order from a description.
#ifndef ELFGEN_HPP
#define ELFGEN_HPP
#include "vh.hpp"
#include <elf.h>
struct elf_sym { std::string name; std::uint64_t value, size; unsigned char info = (STB_GLOBAL << 4) | STT_FUNC; std::uint16_t shndx = 1; };
struct elf_text { std::uint64_t addr, size; std::string name = ".text"; };
struct elf_spec {
    bool is64 = true, little = true, symtab = true, dynsym = false, phdr = true, load = true;
    std::uint64_t base = 0;              // link-time base: first load segment
    unsigned extra_phent = 0, extra_shent = 0, null_sections = 0;
    std::vector<elf_text> texts; std::vector<elf_sym> syms, dynsyms;
};
class elf_writer {
    const elf_spec& s; std::string out;
    void put(std::uint64_t v, int n) { for(int i = 0; i < n; i++) { int sh = s.little ? i : n - 1 - i; out += (char)(v >> (8 * sh)); } }
    void word(std::uint64_t v) { put(v, s.is64 ? 8 : 4); }
    void align(size_t a) { while(out.size() % a) out += '\0'; }
public:
    // offsets of interest for targeted corruption
    std::vector<std::pair<size_t, int>> fields;
    elf_writer(const elf_spec& s) : s(s) {}
    void field(std::uint64_t v, int n) { fields.push_back({out.size(), n}); put(v, n); }
    std::string write() {
        struct sec { std::uint32_t name, type; std::uint64_t flags, addr, off, size; std::uint32_t link; std::uint64_t ent; };
        std::vector<sec> secs(1, sec{0, SHT_NULL, 0, 0, 0, 0, 0, 0});
        std::string shstr(1, '\0');
        auto nm = [&](const std::string& n) { auto at = shstr.size(); shstr += n; shstr += '\0'; return (std::uint32_t)at; };
        unsigned ehs = s.is64 ? 64 : 52, phs = (s.is64 ? 56 : 32) + s.extra_phent, shs = (s.is64 ? 64 : 40) + s.extra_shent;
        unsigned phnum = (s.phdr ? 1 : 0) + (s.load ? 2 : 0) + 1;
        std::string body; std::uint64_t at = ehs + phs * phnum;
        auto add_data = [&](const std::string& d) { while((at + body.size()) % 8) body += '\0'; auto o = at + body.size(); body += d; return o; };
        for(auto& t : s.texts) secs.push_back({nm(t.name), SHT_PROGBITS, SHF_ALLOC | SHF_EXECINSTR, t.addr, at, t.size, 0, 0});
        for(unsigned i = 0; i < s.null_sections; i++) secs.push_back({nm(".x" + std::to_string(i)), SHT_PROGBITS, 0, 0, at, 0, 0, 0});
        auto table = [&](const std::vector<elf_sym>& syms, bool dyn) {
            std::string str(1, '\0'), tab; std::swap(out, tab); // write into out
            auto one = [&](const elf_sym& y) {
                std::uint32_t n = y.name.empty() ? 0 : (std::uint32_t)str.size(); if(!y.name.empty()) { str += y.name; str += '\0'; }
                if(s.is64) { put(n, 4); put(y.info, 1); put(0, 1); put(y.shndx, 2); put(y.value, 8); put(y.size, 8); }
                else { put(n, 4); put(y.value, 4); put(y.size, 4); put(y.info, 1); put(0, 1); put(y.shndx, 2); }
            };
            one({"", 0, 0, 0, 0}); for(auto& y : syms) one(y);
            std::swap(out, tab);
            auto to = add_data(tab), so = add_data(str);
            auto link = (std::uint32_t)secs.size() + 1;
            secs.push_back({nm(dyn ? ".dynsym" : ".symtab"), (std::uint32_t)(dyn ? SHT_DYNSYM : SHT_SYMTAB), 0, 0, to, tab.size(), link, s.is64 ? 24u : 16u});
            secs.push_back({nm(dyn ? ".dynstr" : ".strtab"), SHT_STRTAB, 0, 0, so, str.size(), 0, 0});
        };
        if(s.dynsym) table(s.dynsyms, true);
        if(s.symtab) table(s.syms, false);
        auto shname = nm(".shstrtab"); auto sho = add_data(shstr);
        secs.push_back({shname, SHT_STRTAB, 0, 0, sho, shstr.size(), 0, 0});
        while((at + body.size()) % 8) body += '\0';
        std::uint64_t shoff = at + body.size();
        out.clear(); fields.clear();
        out += "\x7f""ELF"; out += (char)(s.is64 ? 2 : 1); out += (char)(s.little ? 1 : 2); out += '\1'; out.append(9, '\0');
        int w = s.is64 ? 8 : 4;
        field(s.phdr ? ET_DYN : ET_REL, 2); field(s.is64 ? EM_X86_64 : EM_386, 2); field(1, 4); field(0, w); field(ehs, w); field(shoff, w); field(0, 4);
        field(ehs, 2); field(phs, 2); field(phnum, 2); field(shs, 2); field(secs.size(), 2); field(secs.size() - 1, 2);
        auto ph = [&](std::uint32_t type, std::uint64_t off, std::uint64_t va, std::uint64_t sz) {
            size_t b = out.size();
            if(s.is64) { field(type, 4); field(5, 4); field(off, 8); field(va, 8); field(va, 8); field(sz, 8); field(sz, 8); field(0x1000, 8); }
            else { field(type, 4); field(off, 4); field(va, 4); field(va, 4); field(sz, 4); field(sz, 4); field(5, 4); field(0x1000, 4); }
            out.resize(b + phs, '\x5a');
        };
        ph(PT_GNU_STACK, 0, 0, 0);
        if(s.phdr) ph(PT_PHDR, ehs, s.base + ehs, phs * phnum);
        if(s.load) { ph(PT_LOAD, 0, s.base, 0x1000); ph(PT_LOAD, 0x1000, s.base + 0x3000, 0x1000); }
        out += body;
        for(auto& x : secs) {
            size_t b = out.size();
            field(x.name, 4); field(x.type, 4); field(x.flags, w); field(x.addr, w); field(x.off, w); field(x.size, w); field(x.link, 4); field(0, 4); field(8, w); field(x.ent, w);
            out.resize(b + shs, '\x5a');
        }
        return out;
    }
};
#endif
