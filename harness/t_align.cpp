// C16: placement inside arbitrary stack blocks: any address, any size, any alignment of the transferred type and of the callable.
#include "vp.hpp"
#include <functional>
#include <memory>
#include <type_traits>
#if defined(BOOST_USE_VALGRIND)
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
#endif
#if defined(BOOST_USE_ASAN)
extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
#endif
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
namespace {
enum { CAN = 8192, SLACK = 160 * 1024 }; // checked bytes on either side; beyond them, room for a stray large object to be reported rather than to crash
struct Block { char * raw; char * lo; char * hi; std::size_t size; int out; uint64_t key;
    Block(std::size_t s, std::size_t off, uint64_t k) : size(s), out(0), key(k) { raw = (char *) malloc(s + 2 * (CAN + SLACK) + 3 * 8192); lo = (char *) ((((uintptr_t) raw) + CAN + SLACK + 8191) & ~(uintptr_t) 8191) + off; hi = lo + s; for (int i = 0; i < CAN; ++i) { (lo - CAN)[i] = c(i); hi[i] = c(i + 7); } memset(lo, int(k), s); }
    char c(int i) const { return char(mix(key + i)); }
    void check() const { for (int i = 0; i < CAN; ++i) if ((lo - CAN)[i] != c(i)) fail("align.outside", "byte %d below the block written", CAN - i); else if (hi[i] != c(i + 7)) fail("align.outside", "byte %d above the block written", i); }
    ~Block() { check(); if (out) fail("alloc.leaked", "stack not returned");
#if defined(BOOST_USE_ASAN)
        __asan_unpoison_memory_region(lo, size);
#endif
        free(raw); }
    bool in(void const * p, std::size_t n) const { return (char const *) p >= lo && (char const *) p + n <= hi; } };
struct SA { typedef boost::context::stack_traits traits_type; Block * b; boost::context::stack_context allocate() { ++b->out; boost::context::stack_context c; c.size = b->size; c.sp = b->hi;
#if defined(BOOST_USE_VALGRIND)
        c.valgrind_stack_id = VALGRIND_STACK_REGISTER(b->hi, b->lo);
#endif
        return c; }
    void deallocate(boost::context::stack_context & c) noexcept { if (c.sp != b->hi || c.size != b->size) fail("alloc.bad_dealloc", "other stack"); --b->out;
#if defined(BOOST_USE_VALGRIND)
        VALGRIND_STACK_DEREGISTER(c.valgrind_stack_id); (void) VALGRIND_MAKE_MEM_UNDEFINED(b->lo, b->size);
#endif
        b->check(); } };
template< std::size_t A, std::size_t N > struct alignas(A) Pay { unsigned char d[N]; static Pay make(uint64_t k) { Pay p; for (std::size_t i = 0; i < N; ++i) p.d[i] = (unsigned char)(k * 3 + i * 7); return p; } bool ok(uint64_t k) const { for (std::size_t i = 0; i < N; ++i) if (d[i] != (unsigned char)(k * 3 + i * 7)) return false; return true; } };
struct Vec { typedef float v4 __attribute__((vector_size(16))); v4 v; static Vec make(uint64_t k) { Vec x; float f = float(k); x.v = v4{ f, f + 1, f + 2, f + 3 }; return x; } bool ok(uint64_t k) const { Vec e = make(k); return e.v[0] == v[0] && e.v[3] == v[3]; } };
struct Heap { std::string s; std::unique_ptr< int > p; static Heap make(uint64_t k) { Heap h; h.s = std::to_string(k); h.p.reset(new int(int(k))); return h; } bool ok(uint64_t k) const { return s == std::to_string(k) && p && * p == int(k); } };
struct LD { long double x; static LD make(uint64_t k) { LD l; l.x = (long double) k / 3; return l; } bool ok(uint64_t k) const { return x == (long double) k / 3; } };

template< class T > void val(T const& v, uint64_t k, Block const& b, char const* w) {
    uintptr_t a = (uintptr_t) std::addressof(v);
    if (a % alignof(T)) fail("align.value", "%s: value at %p, alignment %zu required (block %p..%p)", w, (void *) a, alignof(T), (void *) b.lo, (void *) b.hi);
    if ( ! b.in(& v, sizeof(T))) fail("align.outside", "%s: value at %p..%p outside the block %p..%p", w, (void *) a, (void *) (a + sizeof(T)), (void *) b.lo, (void *) b.hi);
    if ( ! v.ok(k)) fail("value.wrong", "%s: value %llu damaged", w, (unsigned long long) k);
}
// the function's own frames: filled completely and verified, must not share a byte with the library's data
template< class F > __attribute__((noinline)) void frames(int depth, Block const& b, F step) {
    unsigned char pad[160]; memset(pad, 0xA0 + depth, sizeof pad); vp::opaque(pad);
    if ( ! b.in(pad, sizeof pad)) fail("align.frame", "frame of the coroutine-function outside its block");
    if (depth > 0) frames(depth - 1, b, step); else step();
    for (unsigned i = 0; i < sizeof pad; ++i) if (pad[i] != (unsigned char)(0xA0 + depth)) fail("align.overlap", "frame at depth %d overwritten", depth);
}
template< std::size_t A > struct alignas(A) FnObj { std::function< void(void *, void const *) > f; uint64_t g; Block const * b;
    void check() const { if ((uintptr_t) this % A) fail("align.callable", "callable at %p, alignment %zu required", (void const *) this, A); if ( ! b->in(this, sizeof * this)) fail("align.outside", "invoked callable lives outside the block"); if (g != mix(A)) fail("functor.state", "callable damaged"); }
    template< class S > void operator()(S & s) { check(); f(& s, this); check(); } };
struct Plan { std::size_t size, off; int n, depth, stop, fa; bool pull; uint64_t key; };
template< class H, std::size_t A > std::unique_ptr< H > mk2(SA sa, std::function< void(void *, void const *) > const& f, Block const& b) { FnObj< A > o; o.f = f; o.g = mix(A); o.b = & b; return std::unique_ptr< H >(new H(sa, std::move(o))); }
template< class H > std::unique_ptr< H > mk(SA sa, int fa, std::function< void(void *, void const *) > const& f, Block const& b) { return fa == 0 ? mk2< H, 8 >(sa, f, b) : fa == 1 ? mk2< H, 16 >(sa, f, b) : fa == 2 ? mk2< H, 32 >(sa, f, b) : mk2< H, 64 >(sa, f, b); }
template< class T > void run(Plan const& p) {
    typedef co2::coroutine< T > C; Block b(p.size, p.off, p.key); SA sa = { & b }; int k = 0;
    if (p.pull) {
        { auto h = mk< typename C::pull_type >(sa, p.fa, [&](void * v, void const *) { typename C::push_type & s = * static_cast< typename C::push_type * >(v); if ( ! b.in(& s, sizeof s)) fail("align.outside", "synthesized handle outside the block"); int i = 0; for (; i < p.n; ++i) frames(p.depth, b, [&] { s(T::make(i)); }); }, b);
          while (* h) { val(* begin(* h), k, b, "pull"); b.check(); ++k; if (k == p.stop) break; (* h)(); } }
        if (k != (p.stop > 0 && p.stop < p.n ? p.stop : p.n)) fail("value.lost", "%d of %d", k, p.n);
    } else {
        { auto h = mk< typename C::push_type >(sa, p.fa, [&](void * v, void const *) { typename C::pull_type & s = * static_cast< typename C::pull_type * >(v); if ( ! b.in(& s, sizeof s)) fail("align.outside", "synthesized handle outside the block"); while (s) { val(* begin(s), k, b, "push"); T const * keep = & * begin(s); ++k; frames(p.depth, b, [&] { if ( ! keep->ok(k - 1)) fail("align.overlap", "stored value damaged by the function's frames"); s(); }); } }, b);
          for (int i = 0; i < p.n; ++i) { (* h)(T::make(i)); b.check(); if (k != i + 1) fail("value.lost", "%d of %d", k, i + 1); if (k == p.stop) break; } }
    }
    vp::count("values_placed", k);
}
void refs(Plan const& p) {
    typedef co2::coroutine< int & > C; typedef co2::coroutine< void > D; Block b(p.size, p.off, p.key); SA sa = { & b };
    if (p.pull) { auto h = mk< typename C::pull_type >(sa, p.fa, [&](void * v, void const *) { C::push_type & s = * static_cast< C::push_type * >(v); for (int i = 0; i < p.n; ++i) frames(p.depth, b, [&] { int x = i; s(x); if (x != i + 1) fail("ref.identity", "write lost"); }); }, b); int k = 0; while (* h) { int & x = h->get(); if ( ! b.in(& x, sizeof x) || x != k) fail("ref.identity", "reference"); ++x; b.check(); ++k; (* h)(); } if (k != p.n) fail("value.lost", "refs"); }
    else { int k = 0; { auto h = mk< typename D::push_type >(sa, p.fa, [&](void * v, void const *) { D::pull_type & s = * static_cast< D::pull_type * >(v); while (s) { ++k; frames(p.depth, b, [&] { s(); }); } }, b); for (int i = 0; i < p.n; ++i) { (* h)(); b.check(); } } if (k != p.n) fail("control.lost", "void transfers"); }
    vp::count("values_placed", p.n);
}
typedef void (* runner)(Plan const&);
struct Ent { char const* n; runner f; std::size_t need; };
#define E(T) { #T, & run< T >, sizeof(T) * 6 + alignof(T) * 3 }
typedef Pay< 1, 1 > P1; typedef Pay< 2, 6 > P2; typedef Pay< 4, 12 > P4; typedef Pay< 8, 24 > P8; typedef Pay< 16, 16 > P16; typedef Pay< 16, 48 > P16b; typedef Pay< 32, 32 > P32; typedef Pay< 64, 64 > P64; typedef Pay< 64, 192 > P64b; typedef Pay< 128, 128 > P128; typedef Pay< 256, 256 > P256; typedef Pay< 512, 1024 > P512; typedef Pay< 1024, 1024 > P1024; typedef Pay< 4096, 4096 > P4096; typedef Pay< 1, 3 > P1b; typedef Pay< 1, 4097 > P1c; typedef Pay< 1, 255 > P1d; typedef Pay< 1, 9001 > L9001; typedef Pay< 8, 20000 > L20000; typedef Pay< 64, 32768 > L32768; typedef Pay< 2, 70002 > L70002;
Ent const zoo[] = { E(P1), E(P2), E(P4), E(P8), E(P16), E(P16b), E(P32), E(P64), E(P64b), E(P128), E(P256), E(P512), E(P1024), E(P4096), E(P1b), E(P1c), E(P1d), E(L9001), E(L20000), E(L32768), E(L70002), E(Vec), E(Heap), E(LD), { "references and void", & refs, 0 } };
enum { NZ = sizeof zoo / sizeof zoo[0] };
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 999983); Plan p; unsigned w = unsigned(i % NZ); p.pull = (i / NZ) % 2;
        std::size_t base = VP_SAN ? 96 * 1024 : 16 * 1024;
        p.depth = int(r.below(6)); p.n = int(r.below(6)); p.stop = r.chance(60) ? 0 : int(r.below(5)); p.fa = int(r.below(4)); p.key = r.next();
        // sizes and start addresses that are not multiples of anything
        switch (r.below(4)) { case 0: p.size = base; break; case 1: p.size = base + r.below(16); break; case 2: p.size = base + r.below(4096); break; default: p.size = base + r.below(60000); break; }
        p.size += zoo[w].need * (VP_SAN ? 4 : 2);
        switch (r.below(4)) { case 0: p.off = 0; break; case 1: p.off = r.below(16); break; case 2: p.off = 16 * r.below(256); break; default: p.off = r.below(8192); break; }
        vp::begin_case(i, vp::fmt("align %s %s block size %zu offset %zu callable alignment %d n=%d depth=%d", zoo[w].n, p.pull ? "pull" : "push", p.size, p.off, 8 << p.fa, p.n, p.depth));
        zoo[w].f(p);
        vp::end_case(mix(w * 2 + p.pull + p.size * 101 + p.off * 7000003), true, vp::fmt("%s %s size %zu offset %zu", zoo[w].n, p.pull ? "pull" : "push", p.size, p.off));
    }
    return vp::finish();
}
