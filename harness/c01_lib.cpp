#include <cstring>
extern "C" __attribute__((visibility("default"), noinline)) void c01_lib_call(void (*f)(void*), void* p, int depth) {
    volatile char pad[100]; pad[0] = 1;
    if(depth <= 1) f(p); else c01_lib_call(f, p, depth - 1);
    asm volatile("" ::: "memory"); (void)pad[0];
}
