// One module's worth of functions of many shapes. MOD is the module's name; compiled into the executable and into shared objects.
#include "c02_sites.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(x) #x
#define STR(x) STR2(x)
#define N STR(MOD)
#define NI __attribute__((noinline, noipa))
namespace MOD {
    NI void plain(ctx* c) { GOX(c, N "::plain(ctx*)"); }
    namespace { NI void hidden(ctx* c) { GO(c, N "::(anonymous namespace)::hidden(ctx*)"); } }
    template<typename T, int K> NI void tmpl(ctx* c) { GOX(c, sizeof(T) == 4 ? "void " N "::tmpl<int, 3>(ctx*)" : "void " N "::tmpl<char const*, -1>(ctx*)"); }
    struct S {
        virtual ~S() {}
        NI virtual void method(ctx* c) const { GOX(c, N "::S::method(ctx*) const"); }
        NI void operator()(ctx* c, int) { GOX(c, N "::S::operator()(ctx*, int)"); }
        NI S& operator<<(ctx* c) { GOX(c, N "::S::operator<<(ctx*)"); return *this; }
        NI operator ctx*() { GOX(cc, N "::S::operator ctx*()"); return cc; }
        ctx* cc = nullptr;
    };
    NI void call_virtual(ctx* c) { S s; const S* volatile p = &s; c->shadow[c->depth++] = site{N "::call_virtual(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; p->method(c); c->depth--; }
    NI void call_functor(ctx* c) { S s; c->shadow[c->depth++] = site{N "::call_functor(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; s(c, 1); c->depth--; }
    NI void call_shift(ctx* c) { S s; c->shadow[c->depth++] = site{N "::call_shift(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; s << c; c->depth--; }
    NI void call_conversion(ctx* c) { S s; s.cc = c; c->shadow[c->depth++] = site{N "::call_conversion(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; c = s; c->depth--; }
    NI void with_lambda(ctx* c) {
        auto l = [](ctx* c) __attribute__((noinline, noipa)) { GO(c, N "::with_lambda(ctx*)::{lambda(ctx*)#1}::operator()(ctx*) const"); };
        c->shadow[c->depth++] = site{N "::with_lambda(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; l(c); c->depth--;
    }
    NI void local_class(ctx* c) {
        struct L { NI static void run(ctx* c) { GO(c, N "::local_class(ctx*)::L::run(ctx*)"); } };
        c->shadow[c->depth++] = site{N "::local_class(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; L::run(c); c->depth--;
    }
#line 1 "/odd path/with at word/and: colon.cpp"
    NI void odd_path(ctx* c) { GOX(c, N "::odd_path(ctx*)"); }
#line 2000000 "/generated.cpp"
    NI void far_line(ctx* c) { GOX(c, N "::far_line(ctx*)"); }
#line 100 "relative.cpp"
    NI void relative_path(ctx* c) { GOX(c, N "::relative_path(ctx*)"); }
#line 200 "/c02/inl.hpp"
    __attribute__((always_inline)) inline void inlined(ctx* c, unsigned outer) {
        c->shadow[c->depth++] = site{N "::with_inline(ctx*)", "/c02/inl.hpp", outer, N "::inlined(ctx*, unsigned int)", __LINE__ + 1, true};
        c->plan[c->pos++](c);
        c->depth--;
    }
#line 300 "/c02/inl.hpp"
    NI void with_inline(ctx* c) {
        inlined(c, __LINE__);
    }
    template<unsigned I> struct deep { NI static void run(ctx* c, unsigned k) {
        c->shadow[c->depth++] = site{I == 1 ? N "::deep<1u>::run(ctx*, unsigned int)" : N "::deep<0u>::run(ctx*, unsigned int)", __FILE__, __LINE__ + 1, nullptr, 0, true};
        if(k) run(c, k - 1); else c->plan[c->pos++](c); // the line of both calls
        c->depth--;
    } };
    NI void recursive(ctx* c) { c->shadow[c->depth++] = site{N "::recursive(ctx*)", __FILE__, __LINE__, nullptr, 0, true}; deep<1>::run(c, 2); c->depth--; }
}
extern "C" {
    NI void CAT(f_, MOD)(ctx* c) { GOX(c, "f_" N); }
    // names that look like something else to a demangler
#ifdef C_NAMES
    NI void f(ctx* c) { GOX(c, "f"); }
    NI void i(ctx* c) { GOX(c, "i"); }
    NI void _Znot_mangled(ctx* c) { GOX(c, "_Znot_mangled"); }
    NI void a1(ctx* c) { GOX(c, "a1"); }
    NI void v(ctx* c) { GOX(c, "v"); }
#endif
    static NI void static_c(ctx* c) { GO(c, "static_c"); }
    __attribute__((visibility("default"))) step_table CAT(steps_, MOD)() {
        static const stepfn t[] = {MOD::plain, MOD::hidden, MOD::tmpl<int, 3>, MOD::tmpl<const char*, -1>, MOD::call_virtual, MOD::call_functor, MOD::call_shift, MOD::call_conversion, MOD::with_lambda, MOD::local_class,
            MOD::odd_path, MOD::far_line, MOD::relative_path, MOD::with_inline, MOD::recursive, CAT(f_, MOD), static_c,
#ifdef C_NAMES
            f, i, _Znot_mangled, a1, v,
#endif
        };
        return step_table{t, sizeof t / sizeof *t};
    }
}
