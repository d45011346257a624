#define VP_NO_MAIN 1
#include "anyco.hpp"
#if defined(BOOST_USE_VALGRIND)
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
#endif
#if defined(BOOST_USE_ASAN)
extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
#endif
// The split: -DAPART=0..5 instantiates one variant, 6 the dispatcher and the allocator
template< int V > struct VT;
template<> struct VT< PullV > { typedef co2::coroutine< Tok > C; typedef C::pull_type H; typedef C::push_type S; };
template<> struct VT< PullR > { typedef co2::coroutine< Tok & > C; typedef C::pull_type H; typedef C::push_type S; };
template<> struct VT< PullN > { typedef co2::coroutine< void > C; typedef C::pull_type H; typedef C::push_type S; };
template<> struct VT< PushV > { typedef co2::coroutine< Tok > C; typedef C::push_type H; typedef C::pull_type S; };
template<> struct VT< PushR > { typedef co2::coroutine< Tok & > C; typedef C::push_type H; typedef C::pull_type S; };
template<> struct VT< PushN > { typedef co2::coroutine< void > C; typedef C::push_type H; typedef C::pull_type S; };

template< int V > struct PortOps;
template<> struct PortOps< PullV > {
    template< class S > static uint64_t xfer(S & s, uint64_t o) {
        switch (o % 3) { case 0: s(Tok(o)); break; case 1: { Tok t(o); s(t); t.check(); if ( ! t.ok(o)) fail("value.lvalue_modified", "lvalue changed"); } break; default: { Tok t(o); s(std::move(t)); t.check(); } break; }
        return 0;
    }
    template< class S > static uint64_t current(S &) { return 0; }
};
template<> struct PortOps< PullR > {
    template< class S > static uint64_t xfer(S & s, uint64_t o) { Tok t(o); s(t); if ( ! t.ok(o)) fail("ref.identity", "referenced object changed"); return 0; }
    template< class S > static uint64_t current(S &) { return 0; }
};
template<> struct PortOps< PullN > {
    template< class S > static uint64_t xfer(S & s, uint64_t) { s(); return 0; }
    template< class S > static uint64_t current(S &) { return 0; }
};
template<> struct PortOps< PushV > {
    template< class S > static uint64_t current(S & s) { Tok & t = * begin(s); t.check(); if ( ! t.ok(t.id)) fail("value.wrong", "damaged value"); return t.id; }
    template< class S > static uint64_t xfer(S & s, uint64_t) { s(); return current(s); }
};
template<> struct PortOps< PushR > {
    template< class S > static uint64_t current(S & s) { Tok & t = s.get(); t.check(); if ( ! t.ok(t.id)) fail("value.wrong", "damaged value"); return t.id; }
    template< class S > static uint64_t xfer(S & s, uint64_t) { s(); return current(s); }
};
template<> struct PortOps< PushN > {
    template< class S > static uint64_t current(S &) { return 0; }
    template< class S > static uint64_t xfer(S & s, uint64_t) { s(); return 0; }
};
template< int V > struct Port : AnyPort {
    typename VT< V >::S & s;
    explicit Port(typename VT< V >::S & s_) : s(s_) { variant = V; }
    uint64_t xfer(uint64_t o) { return PortOps< V >::xfer(s, o); }
    uint64_t current() { return PortOps< V >::current(s); }
    bool valid() { return bool(s) && ! ! s; }
};
template< int V > struct Fn {
    Body b;
    explicit Fn(Body const& x) : b(x) {}
    void operator()(typename VT< V >::S & s) { Port< V > p(s); b(p); }
};
template< int V > struct HandleOps; // pull flavour
template< int V > struct PullOps {
    template< class H > static void resume(H & h, uint64_t, unsigned how) {
        if (how % 2 && V != PullN) incr(h, std::integral_constant< bool, V == PullN >());
        else { H & r = h(); if (& r != & h) fail("control.self", "operator() does not return *this"); }
    }
    template< class H > static void incr(H & h, std::false_type) { auto i = begin(h); ++i; }
    template< class H > static void incr(H &, std::true_type) {}
};
template<> struct HandleOps< PullV > : PullOps< PullV > {
    template< class H > static uint64_t value(H & h, unsigned) { Tok & t = * begin(h); t.check(); if ( ! t.ok(t.id)) fail("value.wrong", "damaged value"); return t.id; }
    template< class H > static bool at_end(H & h) { return begin(h) == end(h); }
};
template<> struct HandleOps< PullR > : PullOps< PullR > {
    template< class H > static uint64_t value(H & h, unsigned how) { Tok & t = how % 2 ? h.get() : * begin(h); t.check(); if ( ! t.ok(t.id)) fail("value.wrong", "damaged value"); return t.id; }
    template< class H > static bool at_end(H & h) { return begin(h) == end(h); }
};
template<> struct HandleOps< PullN > : PullOps< PullN > {
    template< class H > static uint64_t value(H &, unsigned) { return 0; }
    template< class H > static bool at_end(H & h) { return ! h; }
};
template<> struct HandleOps< PushV > {
    template< class H > static void resume(H & h, uint64_t in, unsigned how) {
        switch (how % 4) {
        case 0: { H & r = h(Tok(in)); if (& r != & h) fail("control.self", "operator() does not return *this"); } break;
        case 1: { Tok t(in); h(t); if ( ! t.ok(in)) fail("value.lvalue_modified", "lvalue changed"); } break;
        case 2: { Tok t(in); h(std::move(t)); t.check(); } break;
        default: { auto i = begin(h); * i = Tok(in); ++i; } break;
        }
    }
    template< class H > static uint64_t value(H &, unsigned) { return 0; }
    template< class H > static bool at_end(H & h) { return begin(h) == end(h); }
};
template<> struct HandleOps< PushR > {
    template< class H > static uint64_t value(H &, unsigned) { return 0; }
    template< class H > static bool at_end(H & h) { return begin(h) == end(h); }
};
template<> struct HandleOps< PushN > {
    template< class H > static void resume(H & h, uint64_t, unsigned) { H & r = h(); if (& r != & h) fail("control.self", "operator() does not return *this"); }
    template< class H > static uint64_t value(H &, unsigned) { return 0; }
    template< class H > static bool at_end(H & h) { return ! h; }
};
template< int V > struct Co : AnyCo {
    std::unique_ptr< Tok > lastref;          // object of the last push<T&> transfer (dies after h)
    typedef typename VT< V >::H H;
    H h;
    template< class A, class F > Co(A && a, F && f) : h(std::forward< A >(a), std::forward< F >(f)) { variant = V; }
    template< class F > explicit Co(F && f, int) : h(std::forward< F >(f)) { variant = V; }
    explicit Co(Co & o, char) : lastref(std::move(o.lastref)), h(std::move(o.h)) { variant = V; }
    bool valid() const { return bool(h); }
    bool notvalid() const { return ! h; }
    void resume(uint64_t in, unsigned how) { res(in, how, std::integral_constant< bool, V == PushR >()); }
    void res(uint64_t in, unsigned how, std::false_type) { HandleOps< V >::resume(h, in, how); }
    void res(uint64_t in, unsigned how, std::true_type) {
        std::unique_ptr< Tok > t(new Tok(in));
        lastref.swap(t);                      // the previous one dies when this call returns
        if (how % 2) { auto i = begin(h); * i = * lastref; } else { H & q = h(* lastref); if (& q != & h) fail("control.self", "operator() does not return *this"); }
    }
    uint64_t value(unsigned how) { return HandleOps< V >::value(h, how); }
    bool at_end() { return HandleOps< V >::at_end(h); }
    std::unique_ptr< AnyCo > moved() { return std::unique_ptr< AnyCo >(new Co(* this, 'm')); }
    void assign(AnyCo & o_) {
        Co & o = static_cast< Co & >(o_);
        H & r = (h = std::move(o.h));
        if (& r != & h) fail("move.self", "operator= does not return *this");
        if (this != & o) lastref = std::move(o.lastref);
    }
};
template< int V > std::unique_ptr< AnyCo > mk(Body const& b, AllocState * st, bool lv) {
    if ( ! st) {
        if (lv) { Fn< V > f(b); return std::unique_ptr< AnyCo >(new Co< V >(f, 0)); }
        return std::unique_ptr< AnyCo >(new Co< V >(Fn< V >(b), 0));
    }
    if (lv) { XAlloc a(st); Fn< V > const f(b); return std::unique_ptr< AnyCo >(new Co< V >(a, f)); }
    return std::unique_ptr< AnyCo >(new Co< V >(XAlloc(st), Fn< V >(b)));
}
std::unique_ptr< AnyCo > mk0(Body const&, AllocState *, bool); std::unique_ptr< AnyCo > mk1(Body const&, AllocState *, bool);
std::unique_ptr< AnyCo > mk2(Body const&, AllocState *, bool); std::unique_ptr< AnyCo > mk3(Body const&, AllocState *, bool);
std::unique_ptr< AnyCo > mk4(Body const&, AllocState *, bool); std::unique_ptr< AnyCo > mk5(Body const&, AllocState *, bool);
#if APART == 0
std::unique_ptr< AnyCo > mk0(Body const& b, AllocState * s, bool l) { return mk< 0 >(b, s, l); }
std::unique_ptr< AnyCo > mk1(Body const& b, AllocState * s, bool l) { return mk< 1 >(b, s, l); }
#elif APART == 1
std::unique_ptr< AnyCo > mk2(Body const& b, AllocState * s, bool l) { return mk< 2 >(b, s, l); }
std::unique_ptr< AnyCo > mk3(Body const& b, AllocState * s, bool l) { return mk< 3 >(b, s, l); }
#else
std::unique_ptr< AnyCo > mk4(Body const& b, AllocState * s, bool l) { return mk< 4 >(b, s, l); }
std::unique_ptr< AnyCo > mk5(Body const& b, AllocState * s, bool l) { return mk< 5 >(b, s, l); }
std::unique_ptr< AnyCo > make_co(int v, Body const& b, AllocState * s, bool l) {
    switch (v) { case 0: return mk0(b, s, l); case 1: return mk1(b, s, l); case 2: return mk2(b, s, l); case 3: return mk3(b, s, l); case 4: return mk4(b, s, l); default: return mk5(b, s, l); }
}
static void xfill(char * p) { for (int i = 0; i < XCAN; ++i) p[i] = char(0x5A ^ (i * 7)); }
static bool xcheck(char const* p) { for (int i = 0; i < XCAN; ++i) if (p[i] != char(0x5A ^ (i * 7))) return false; return true; }
boost::context::stack_context XAlloc::allocate() {
    chk();
    std::lock_guard< std::mutex > l(s->mx);
    ++s->allocs;
    if (s->fail_at && s->allocs == s->fail_at) { AllocError e = { s->allocs }; throw e; }
    std::size_t sz = s->size;
#if defined(BOOST_NO_CXX11_STD_ALIGN)
    std::size_t off = 64 * s->rng.below(4);
#else
    std::size_t off = s->odd ? s->rng.below(256) : 16 * s->rng.below(16);
    if (s->odd) sz += s->rng.below(129);
#endif
    char * raw = (char *) malloc(sz + 2 * XCAN + 1024);
    char * lo = (char *) ((((uintptr_t) raw) + XCAN + 255) & ~(uintptr_t) 255) + off;
    xfill(lo - XCAN); xfill(lo + sz);
    boost::context::stack_context c;
    c.size = sz; c.sp = lo + sz;
    s->last_lo = lo; s->last_hi = lo + sz;
    s->live[c.sp] = std::make_pair(raw, sz);
    ++s->outstanding;
#if defined(BOOST_USE_VALGRIND)
    c.valgrind_stack_id = VALGRIND_STACK_REGISTER(c.sp, lo);
#endif
    return c;
}
void XAlloc::deallocate(boost::context::stack_context & c) noexcept {
    chk();
    std::unique_lock< std::mutex > l(s->mx);
    std::map< void *, std::pair< char *, std::size_t > >::iterator i = s->live.find(c.sp);
    if (i == s->live.end()) fail("alloc.bad_dealloc", "deallocate of a stack that is not outstanding (sp %p size %zu)", c.sp, c.size);
    if (i->second.second != c.size) fail("alloc.bad_dealloc", "deallocate with size %zu, allocated %zu", c.size, i->second.second);
    char * raw = i->second.first; std::size_t sz = c.size; char * lo = (char *) c.sp - sz; char * hi = (char *) c.sp;
    s->live.erase(i);
    char probe; char * pr = & probe; vp::opaque(pr);
    if (pr >= lo && pr < hi) fail("alloc.self", "stack deallocated while executing on it");
    if ( ! xcheck(lo - XCAN) || ! xcheck(hi)) fail("alloc.canary", "memory outside the allocated stack was written");
    ++s->deallocs; --s->outstanding;
    if (s->on_dealloc) s->on_dealloc(lo, hi);
#if defined(BOOST_USE_VALGRIND)
    VALGRIND_STACK_DEREGISTER(c.valgrind_stack_id);
    (void) VALGRIND_MAKE_MEM_UNDEFINED(lo, sz);
#endif
#if defined(BOOST_USE_ASAN)
    __asan_unpoison_memory_region(lo, sz);
#endif
    memset(hi - 4096, 0xDD, 4096);
    free(raw);
}
#endif
