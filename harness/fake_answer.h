// what the stand-in for addr2line says about an address
#include <stdio.h>
#include <stdint.h>
static int answer_kind(uint64_t a) { uint64_t h = a * 0x9E3779B97F4A7C15ull; return (int)((h >> 40) % 8); }
static void answer(uint64_t a, char* buf, size_t n) {
    switch(answer_kind(a)) {
        case 0: snprintf(buf, n, "?? ??:0"); break;
        case 1: snprintf(buf, n, "fn_%llx(int, char) at ??:?", (unsigned long long)a); break;
        case 2: snprintf(buf, n, "fn_%llx at /src at dir/a:%llx.cpp:%llu (discriminator 3)", (unsigned long long)a, (unsigned long long)a, (unsigned long long)(a % 977 + 1)); break;
        default: snprintf(buf, n, "ns::fn_%llx(int, char) const at /src/%llx.cpp:%llu", (unsigned long long)a, (unsigned long long)a, (unsigned long long)(a % 977 + 1)); break;
    }
}
