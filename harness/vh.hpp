// Small support library for the harnesses: seeded randomness, case journal, verdict protocol on stdout.
#ifndef VH_HPP
#define VH_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
    struct rng {
        std::uint64_t s;
        explicit rng(std::uint64_t seed) : s(seed + 0x1234567) { s = next() ^ (seed << 32); s = next(); } // neighbouring seeds share no stretch of numbers
        std::uint64_t next() {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
        std::int64_t range(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        template<typename T, std::size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
    };

    struct state {
        std::mutex m;
        std::uint64_t evaluations = 0;
        std::unordered_set<std::uint64_t> distinct;
        std::map<std::string, std::int64_t> stats;
        std::map<std::string, int> viol;
        int samples = 0;
        char* journal = nullptr;
        std::size_t journal_size = 1 << 16;
        int out_fd = 1;
        std::map<std::string, std::string> args;
    };
    inline state& st() { static state* s = new state; return *s; }

    inline void raw_line(const std::string& s) {
        const char* p = s.data(); std::size_t n = s.size();
        while(n) { ssize_t k = ::write(st().out_fd, p, n); if(k <= 0) { if(errno == EINTR) continue; break; } p += k; n -= k; }
    }
    inline std::string esc(const std::string& s, std::size_t max = 600) {
        std::string r;
        for(unsigned char c : s) {
            if(r.size() > max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
            if(c == '\\') r += "\\\\";
            else if(c == '\n') r += "\\n";
            else if(c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += (char)c;
        }
        return r;
    }
    inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline std::string fmt(const char* f, ...) {
        va_list a; va_start(a, f); char* p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
        std::string r(p ? p : "", n > 0 ? n : 0); free(p); return r;
    }
    inline std::uint64_t hash(const std::string& s) {
        std::uint64_t h = 1469598103934665603ull;
        for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h ^ (h >> 29);
    }

    inline void init(int argc, char** argv) {
        auto& s = st();
        for(int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto eq = a.find('=');
            if(a.compare(0, 2, "--") == 0 && eq != std::string::npos) s.args[a.substr(2, eq - 2)] = a.substr(eq + 1);
        }
        // verdicts go to a private descriptor so that the code under test may do what it likes to stdout
        s.out_fd = fcntl(1, F_DUPFD_CLOEXEC, 200);
        if(s.out_fd < 0) s.out_fd = 1;
        auto it = s.args.find("journal");
        if(it != s.args.end()) {
            int fd = open(it->second.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
            if(fd >= 0 && ftruncate(fd, s.journal_size) == 0) {
                void* p = mmap(nullptr, s.journal_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if(p != MAP_FAILED) s.journal = (char*)p;
            }
            if(fd >= 0) close(fd);
        }
    }
    inline std::string arg(const char* k, const std::string& d = "") { auto i = st().args.find(k); return i == st().args.end() ? d : i->second; }
    inline std::int64_t iarg(const char* k, std::int64_t d) { auto i = st().args.find(k); return i == st().args.end() ? d : std::strtoll(i->second.c_str(), nullptr, 0); }

    // remembers what is running, so that a crash can be attributed to its input
    inline void journal(const std::string& what) {
        auto& s = st();
        if(s.journal) {
            std::size_t n = what.size() < s.journal_size - 1 ? what.size() : s.journal_size - 1;
            std::memcpy(s.journal, what.data(), n); s.journal[n] = 0;
        }
    }
    inline void eval(std::uint64_t n = 1) { std::lock_guard<std::mutex> l(st().m); st().evaluations += n; }
    inline void distinct(std::uint64_t h) { std::lock_guard<std::mutex> l(st().m); st().distinct.insert(h); }
    inline void distinct(const std::string& s) { distinct(hash(s)); }
    inline void stat(const std::string& k, std::int64_t n = 1) { std::lock_guard<std::mutex> l(st().m); st().stats[k] += n; }
    inline void sample(const std::string& s, int max = 3) {
        std::lock_guard<std::mutex> l(st().m);
        if(st().samples < max) { st().samples++; raw_line("@@SAMPLE " + esc(s, 1500) + "\n"); }
    }
    inline void violation(const std::string& key, const std::string& detail) {
        std::lock_guard<std::mutex> l(st().m);
        int n = st().viol[key]++;
        if(n < 2) raw_line("@@VIOL " + esc(key) + "\t" + esc(detail, 3000) + "\n");
    }
    inline bool check(bool ok, const std::string& key, const std::string& detail) {
        if(!ok) violation(key, detail);
        return ok;
    }
    // for children that run code which may have gone wrong
    inline void limit_memory() {
    #if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(__clang__)
        rlimit l{3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &l);
    #endif
    }
    inline int finish() {
        auto& s = st();
        std::lock_guard<std::mutex> l(s.m);
        for(auto& k : s.stats) raw_line("@@STAT " + k.first + " " + std::to_string(k.second) + "\n");
        std::string d = "@@DISTINCT";
        raw_line("@@COUNT " + std::to_string(s.evaluations) + "\n@@NDISTINCT " + std::to_string(s.distinct.size()) + "\n@@DONE\n");
        return 0;
    }
}
#endif
