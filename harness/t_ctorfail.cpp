// C22: constructions that fail (allocator, copy of the callable, function before its first suspension) or end early.
#include "vp.hpp"
#include <functional>
#include <memory>
#include <stdexcept>
#if defined(BOOST_USE_VALGRIND)
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
#endif
#if defined(BOOST_USE_ASAN)
extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
#endif
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
namespace {
struct Env { int allocs, deallocs, alloc_live, fn_live, obj_live, copies, moves, throw_alloc, throw_copy; char * raw; char * sp; std::size_t size; uint64_t key; Env() : allocs(0), deallocs(0), alloc_live(0), fn_live(0), obj_live(0), copies(0), moves(0), throw_alloc(0), throw_copy(0), raw(0), sp(0), size(0), key(0) {} };
struct EAlloc : std::bad_alloc { uint64_t k; explicit EAlloc(uint64_t x) : k(x) {} };
struct ECopy { uint64_t k; std::string s; };
struct EFn : std::runtime_error { uint64_t k; explicit EFn(uint64_t x) : std::runtime_error("fn " + std::to_string(x)), k(x) {} };
struct Al {
    typedef boost::context::stack_traits traits_type; Env * e; std::size_t size; uint32_t magic;
    Al(Env * x, std::size_t s) : e(x), size(s), magic(0xa11) { ++e->alloc_live; } Al(Al const& o) : e(o.e), size(o.size), magic(0xa11) { o.chk(); ++e->alloc_live; } Al(Al && o) : e(o.e), size(o.size), magic(0xa11) { o.chk(); ++e->alloc_live; } ~Al() { chk(); --e->alloc_live; magic = 0xdead; } void chk() const { if (magic != 0xa11) fail("alloc.dead", "operation on a dead allocator"); }
    boost::context::stack_context allocate() { chk(); if (e->throw_alloc == 1) throw EAlloc(e->key); if (e->throw_alloc == 2) throw e->key; if (e->allocs != e->deallocs) fail("alloc.count", "second allocation for one coroutine"); ++e->allocs; e->size = size; e->raw = (char *) malloc(size + 1024); memset(e->raw, 0x3c, 256); memset(e->raw + 256 + size, 0x3d, 256); e->sp = e->raw + 256 + size; boost::context::stack_context c; c.size = size; c.sp = e->sp;
#if defined(BOOST_USE_VALGRIND)
        c.valgrind_stack_id = VALGRIND_STACK_REGISTER(c.sp, e->raw + 256);
#endif
        return c; }
    void deallocate(boost::context::stack_context & c) noexcept { chk(); if (e->allocs != e->deallocs + 1) fail("alloc.bad_dealloc", "deallocate() without an outstanding stack"); if (c.sp != e->sp || c.size != e->size) fail("alloc.bad_dealloc", "deallocate() with other values than allocated"); ++e->deallocs;
#if defined(BOOST_USE_VALGRIND)
        VALGRIND_STACK_DEREGISTER(c.valgrind_stack_id); (void) VALGRIND_MAKE_MEM_UNDEFINED(e->raw + 256, e->size);
#endif
#if defined(BOOST_USE_ASAN)
        __asan_unpoison_memory_region(e->raw + 256, e->size);
#endif
        for (int i = 0; i < 256; ++i) if (e->raw[i] != 0x3c || e->raw[256 + e->size + i] != 0x3d) fail("alloc.canary", "memory outside the stack written"); memset(e->sp - 4096, 0xEE, 4096); free(e->raw); }
};
struct Obj { Env * e; uint32_t magic; explicit Obj(Env * x) : e(x), magic(0x0b1) { ++e->obj_live; } Obj(Obj const& o) : e(o.e), magic(0x0b1) { o.chk(); ++e->obj_live; } Obj(Obj && o) : e(o.e), magic(0x0b1) { o.chk(); ++e->obj_live; } Obj & operator=(Obj const&) = delete; ~Obj() { chk(); --e->obj_live; magic = 0xdead; } void chk() const { if (magic != 0x0b1) fail("life.use_dead", "operation on a dead object"); } };
template< int V > struct VT;
template<> struct VT< 0 > { typedef co2::coroutine< Obj > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, Env * e) { s(Obj(e)); } static void go(H & h, Env *) { h(); } };
template<> struct VT< 1 > { typedef co2::coroutine< Obj & > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, Env * e) { Obj o(e); s(o); } static void go(H & h, Env *) { h(); } };
template<> struct VT< 2 > { typedef co2::coroutine< void > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, Env * e) { Obj o(e); s(); } static void go(H & h, Env *) { h(); } };
template<> struct VT< 3 > { typedef co2::coroutine< Obj > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, Env * e) { Obj o(e); s(); } static void go(H & h, Env * e) { Obj o(e); h(o); } };
template<> struct VT< 4 > { typedef co2::coroutine< Obj & > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, Env * e) { Obj o(e); s(); } static void go(H & h, Env * e) { Obj o(e); h(o); } };
template<> struct VT< 5 > { typedef co2::coroutine< void > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, Env * e) { Obj o(e); s(); } static void go(H & h, Env *) { h(); } };

// callable: copies may throw; knows whether it was moved from
template< int V > struct Fn {
    Env * e; int act; bool moved; std::shared_ptr< int > res; uint32_t magic; Obj member;   // act: 0 run n suspensions, 1 throw at once, 2 return at once, 3 throw after a local, 4 throw from nested coroutine, 5 catch own exception, return
    Fn(Env * x, int a) : e(x), act(a), moved(false), res(new int(77)), magic(0xf00), member(x) { ++e->fn_live; }
    Fn(Fn const& o) : e(o.e), act(o.act), moved(o.moved), res(o.res), magic(0xf00), member(o.member) { o.chk(); ++e->copies; if (e->throw_copy && e->throw_copy-- == 1) { ECopy x = { e->key, std::string(40, 'c') }; throw x; } ++e->fn_live; }
    Fn(Fn && o) : e(o.e), act(o.act), moved(o.moved), res(std::move(o.res)), magic(0xf00), member(std::move(o.member)) { o.chk(); o.moved = true; ++e->moves; ++e->fn_live; }
    ~Fn() { chk(); --e->fn_live; magic = 0xdead; } void chk() const { if (magic != 0xf00) fail("functor.dead", "operation on a dead callable"); }
    void operator()(typename VT< V >::S & s) const { const_cast< Fn * >(this)->run(s); }
    void run(typename VT< V >::S & s) { chk(); if (moved || ! res || * res != 77) fail("functor.moved_from", "the coroutine runs a moved-from callable"); Obj a(e);
        switch (act) { case 1: throw EFn(e->key); case 2: return; case 3: { Obj b(e), c(e); std::vector< Obj > v(3, c); throw EFn(e->key); } case 4: { typename co2::coroutine< void >::pull_type p([this](co2::coroutine< void >::push_type &) { Obj q(e); throw EFn(e->key); }); fail("exc.lost", "constructor of a nested coroutine"); } case 5: try { Obj b(e); throw EFn(1); } catch (EFn const&) {} return; default: break; }
        for (int i = 0; i < 3; ++i) VT< V >::in(s, e); }
};
enum Fault { None, AllocStd, AllocOdd, Copy, Throws, ThrowsLocal, ThrowsNested, Empty, EmptyCatch, NF };
char const* const fnames[] = { "none", "allocator throws", "allocator throws a non-standard type", "copying the callable throws", "function throws at once", "function throws with locals", "nested construction throws", "function returns at once", "function catches and returns" };
int act_of(int f) { switch (f) { case Throws: return 1; case ThrowsLocal: return 3; case ThrowsNested: return 4; case Empty: return 2; case EmptyCatch: return 5; default: return 0; } }
template< int V > struct Try {
    typedef typename VT< V >::H H; enum { pull = V < 3 };
    // form: bit0-1 callable 0 lvalue 1 const lvalue 2 rvalue, 3 rvalue named; al: 0 temporary 1 lvalue 2 moved 3 default stack
    template< class F > static H * mk(int al, Al & a, F && f) { switch (al) { case 0: return new H(Al(a), std::forward< F >(f)); case 1: return new H(a, std::forward< F >(f)); case 2: return new H(std::move(a), std::forward< F >(f)); default: return new H(std::forward< F >(f)); } }
    static void attempt(int fault, int form, int al, Env & e, std::size_t size) {
        if (fault == AllocStd) e.throw_alloc = 1; if (fault == AllocOdd) e.throw_alloc = 2; if (al == 3 && (fault == AllocStd || fault == AllocOdd)) al = 0;
        if (fault == Copy && form >= 2) form = form - 2;
        e.throw_copy = fault == Copy ? 1 : 0; int caught = 0;
        {
            Al a(& e, size); Fn< V > f(& e, act_of(fault)); Fn< V > const& cf = f; std::unique_ptr< H > h; int fl = e.fn_live, ol = e.obj_live;
            try { switch (form) { case 0: h.reset(mk(al, a, f)); break; case 1: h.reset(mk(al, a, cf)); break; case 2: h.reset(mk(al, a, std::move(f))); break; default: h.reset(mk(al, a, std::move(f))); break; } }
            catch (EAlloc const& x) { caught = 1; if (x.k != e.key) fail("exc.wrong", "allocator's exception"); } catch (uint64_t const& x) { caught = 2; if (x != e.key) fail("exc.wrong", "allocator's exception"); }
            catch (ECopy const& x) { caught = 3; if (x.k != e.key || x.s != std::string(40, 'c')) fail("exc.wrong", "callable's exception"); } catch (EFn const& x) { caught = 4; if (x.k != e.key || std::string(x.what()) != "fn " + std::to_string(e.key)) fail("exc.wrong", "function's exception"); }
            bool fnthrows = fault == Throws || fault == ThrowsLocal || fault == ThrowsNested; int want = fault == AllocStd ? 1 : fault == AllocOdd ? 2 : fault == Copy ? 3 : fnthrows && pull ? 4 : 0;
            if (caught != want) fail("exc.lost", "%s: caught %d, expected %d", fnames[fault], caught, want);
            if (want) {
                if (h) fail("ctor.handle", "handle exists"); if (e.fn_live != fl) fail("functor.leaked", "%s: %d callables left behind", fnames[fault], e.fn_live - fl); if (e.obj_live != ol) fail("life.leak", "%s: %d objects left behind", fnames[fault], e.obj_live - ol);
                if (al != 3 && (want == 4 ? e.allocs != 1 : e.allocs > 1)) fail("alloc.count", "%d allocations", e.allocs);
                if (e.allocs != e.deallocs) fail("alloc.leaked", "%s: the stack was not returned", fnames[fault]);
                if (want <= 2 && (f.moved || ! f.res)) fail("functor.consumed", "%s: the rvalue callable was consumed although no coroutine was created", fnames[fault]);
                if (form < 2 && f.moved) fail("functor.consumed", "an lvalue callable was moved from"); vp::count("failed_constructions");
                // the same callable and allocator can be used for another attempt
                if (want <= 3 && ! f.moved) { e.throw_alloc = 0; e.throw_copy = 0; Al b(& e, size); std::unique_ptr< H > g(mk(1, b, cf)); for (int i = 0; i < 2; ++i) VT< V >::go(* g, & e); if ( ! * g) fail("valid.handle", "second attempt"); vp::count("retries"); }
            } else {
                bool early = fault == Empty || fault == EmptyCatch;
                if (form < 2 && f.moved) fail("functor.consumed", "an lvalue callable was moved from");
                if (pull && early) { empty(* h); vp::count("empty_pulls"); }
                else if (pull) { int n = 0; while (* h) { ++n; VT< V >::go(* h, & e); } if (n != 3) fail("control.count", "%d values", n); }
                else { if ( ! * h) fail("valid.handle", "a new push-coroutine is not valid"); int n = 0; bool got = false; try { while (* h) { VT< V >::go(* h, & e); ++n; if (n > 10) fail("control.count", "endless"); } } catch (EFn const& x) { got = true; if (x.k != e.key) fail("exc.wrong", "first call"); }
                    if (got != fnthrows) fail("exc.lost", "first call"); if ( ! got && n != (early ? 1 : 4)) fail("control.count", "%d calls", n); if (* h) fail("valid.handle", "complete push-coroutine"); }
                if (fault == None) vp::count("normal"); h.reset();
            }
            h.reset(); if (e.allocs != e.deallocs) fail("alloc.leaked", "stack outstanding after destruction");
        }
        if (e.fn_live) fail("functor.leaked", "%d callables alive", e.fn_live); if (e.obj_live) fail("life.leak", "%d objects alive", e.obj_live); if (e.alloc_live) fail("alloc.leaked", "%d allocator copies alive", e.alloc_live);
    }
    template< class T > static void empty(T & h) { if (h || ! ! h) fail("valid.handle", "an empty pull-coroutine is valid"); range(h, 0); }
    template< class T > static auto range(T & h, int) -> decltype(begin(h), void()) { if (begin(h) != end(h) || ! (begin(h) == end(h))) fail("iter.end", "empty range"); for (auto & x : h) { (void) x; fail("iter.end", "an empty pull-coroutine produced a value"); } T m(std::move(h)); if (m) fail("valid.handle", "moved"); h = std::move(m); if (h) fail("valid.handle", "moved"); }
    template< class T > static void range(T &, long) {}
};
void attempt(int v, int fault, int form, int al, Env & e, std::size_t size) { switch (v) { case 0: Try< 0 >::attempt(fault, form, al, e, size); break; case 1: Try< 1 >::attempt(fault, form, al, e, size); break; case 2: Try< 2 >::attempt(fault, form, al, e, size); break; case 3: Try< 3 >::attempt(fault, form, al, e, size); break; case 4: Try< 4 >::attempt(fault, form, al, e, size); break; default: Try< 5 >::attempt(fault, form, al, e, size); break; } }
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 122949823); int v = int(i % 6), fault = int((i / 6) % NF), form = int((i / 54) % 4), al = int((i / 216) % 4), ctx = int((i / 864) % 4); std::size_t size = ((VP_SAN ? 128 : 32) * 1024 + r.below(2048)) & ~63u;
        vp::begin_case(i, vp::fmt("ctor variant %d, %s, callable form %d, allocator form %d, context %d", v, fnames[fault], form, al, ctx)); int rounds = 1 + int(r.below(3));
        for (int k = 0; k < rounds; ++k) {
            auto once = [&] { Env e; e.key = r.next(); attempt(v, fault, form, al, e, size); };
            switch (ctx) {
            case 0: once(); break;
            case 1: { co2::coroutine< void >::pull_type outer([&](co2::coroutine< void >::push_type & s) { once(); s(); once(); }); outer(); if (outer) fail("control.count", "outer"); } break;             // inside a running coroutine
            case 2: { co2::coroutine< void >::push_type outer([&](co2::coroutine< void >::pull_type & s) { once(); s(); }); outer(); } break;
            default: try { throw 1; } catch (int) { once(); } break;                                                                                                                     // while an exception is being handled
            }
        }
        vp::end_case(mix(v + fault * 7 + form * 71 + al * 311 + ctx * 1511 + rounds * 7001), true, vp::G().cur_desc);
    }
    return vp::finish();
}
