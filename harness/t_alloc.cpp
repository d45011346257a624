// C08: one allocate, one matching deallocate on (a copy of) the same allocator, at the right time, for every kind of allocator and ending.
#include "vp.hpp"
#include <memory>
#include <functional>
#if defined(BOOST_USE_VALGRIND)
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
#endif
#if defined(BOOST_USE_ASAN)
extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
#endif
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;

namespace {
enum { CAN = 512 };
// everything observed about one coroutine's memory
struct Ledger {
    int family; std::size_t size; std::size_t off; int allocs, deallocs, instances, made; char * raw; char * lo; char * hi; bool use_after; std::set< uintptr_t > objects; std::vector< std::string > log;
    explicit Ledger(int f, std::size_t s, std::size_t o) : family(f), size(s), off(o), allocs(0), deallocs(0), instances(0), made(0), raw(0), lo(0), hi(0), use_after(false) {}
    boost::context::stack_context get() {
        if (allocs) fail("alloc.count", "allocate() called %d times for one coroutine", allocs + 1);
        ++allocs;
        raw = (char *) malloc(size + 2 * CAN + 1024);
        lo = (char *) ((((uintptr_t) raw) + CAN + 255) & ~(uintptr_t) 255) + off; hi = lo + size;
        for (int i = 0; i < CAN; ++i) { (lo - CAN)[i] = char(0x31 + i * 3); hi[i] = char(0x77 + i * 5); }
        boost::context::stack_context c; c.size = size; c.sp = hi;
#if defined(BOOST_USE_VALGRIND)
        c.valgrind_stack_id = VALGRIND_STACK_REGISTER(hi, lo);
#endif
        return c;
    }
    void put(boost::context::stack_context & c, int fam) {
        if (fam != family) fail("alloc.instance", "deallocate() on an allocator that did not allocate this stack");
        if ( ! allocs || deallocs) fail("alloc.count", "deallocate() called %d times", deallocs + 1);
        if (c.sp != hi || c.size != size) fail("alloc.bad_dealloc", "deallocate(%p,%zu), allocated (%p,%zu)", c.sp, c.size, hi, size);
        ++deallocs;
        for (int i = 0; i < CAN; ++i) if ((lo - CAN)[i] != char(0x31 + i * 3) || hi[i] != char(0x77 + i * 5)) fail("alloc.canary", "memory outside the block written");
        std::set< uintptr_t >::iterator i = objects.lower_bound((uintptr_t) lo);
        if (i != objects.end() && * i < (uintptr_t) hi) fail("alloc.live_locals", "stack returned while an object on it is alive");
        char probe; char * p = & probe; vp::opaque(p); if (p >= lo && p < hi) fail("alloc.self", "stack deallocated while executing on it");
#if defined(BOOST_USE_VALGRIND)
        VALGRIND_STACK_DEREGISTER(c.valgrind_stack_id); (void) VALGRIND_MAKE_MEM_UNDEFINED(lo, size);
#endif
#if defined(BOOST_USE_ASAN)
        __asan_unpoison_memory_region(lo, size);
#endif
        memset(lo, 0xDB, size); // nothing may be read from here afterwards
        free(raw);
    }
};
struct Track { Ledger & l; char pad[24]; explicit Track(Ledger & x) : l(x) { l.objects.insert((uintptr_t) this); memset(pad, 0x42, sizeof pad); } Track(Track const& o) : l(o.l) { l.objects.insert((uintptr_t) this); memset(pad, 0x42, sizeof pad); }
    ~Track() { for (std::size_t i = 0; i < sizeof pad; ++i) if (pad[i] != 0x42) fail("alloc.live_locals", "object damaged before its destruction"); if ( ! l.objects.erase((uintptr_t) this)) fail("life.double_destroy", "destroyed twice"); memset(pad, 0, sizeof pad); } };

// allocator kinds
struct Common { typedef boost::context::stack_traits traits_type; Ledger * l; int family; uint32_t magic; explicit Common(Ledger * x) : l(x), family(x->family), magic(0xA11) { ++l->instances; ++l->made; }
    Common(Common const& o) : l(o.l), family(o.family), magic(0xA11) { o.chk(); ++l->instances; ++l->made; } ~Common() { chk(); magic = 0; --l->instances; } void chk() const { if (magic != 0xA11) fail("alloc.dead", "operation on a dead allocator"); }
    Common & operator=(Common const&) = delete;
    boost::context::stack_context allocate() { chk(); return l->get(); } void deallocate(boost::context::stack_context & c) noexcept { chk(); l->put(c, family); } };
struct CopyA : Common { explicit CopyA(Ledger * x) : Common(x) {} CopyA(CopyA const& o) : Common(o) {} };
struct MoveA : Common { bool moved; explicit MoveA(Ledger * x) : Common(x), moved(false) {} MoveA(MoveA const& o) : Common(o), moved(o.moved) { if (moved) fail("alloc.dead", "copy of a moved-from allocator"); } MoveA(MoveA && o) : Common(o), moved(o.moved) { if (moved) fail("alloc.dead", "move of a moved-from allocator"); o.moved = true; }
    void deallocate(boost::context::stack_context & c) noexcept { if (moved) fail("alloc.dead", "deallocate on a moved-from allocator"); Common::deallocate(c); } boost::context::stack_context allocate() { if (moved) fail("alloc.dead", "allocate on a moved-from allocator"); return Common::allocate(); } };
struct SharedA { typedef boost::context::stack_traits traits_type; std::shared_ptr< Ledger > l; explicit SharedA(std::shared_ptr< Ledger > x) : l(x) {} boost::context::stack_context allocate() { return l->get(); } void deallocate(boost::context::stack_context & c) noexcept { if ( ! l) fail("alloc.dead", "deallocate on an allocator without its state"); l->put(c, l->family); } };
Ledger * cur = 0;
struct EmptyA final { typedef boost::context::stack_traits traits_type; boost::context::stack_context allocate() { return cur->get(); } void deallocate(boost::context::stack_context & c) noexcept { cur->put(c, cur->family); } };

// move-only; usable through a const lvalue only; empty without a default constructor
struct OnlyMoveA { typedef boost::context::stack_traits traits_type; std::unique_ptr< std::shared_ptr< Ledger > > l; explicit OnlyMoveA(std::shared_ptr< Ledger > x) : l(new std::shared_ptr< Ledger >(x)) {} OnlyMoveA(OnlyMoveA &&) = default;
    boost::context::stack_context allocate() { if ( ! l) fail("alloc.dead", "allocate on a moved-from allocator"); return (* l)->get(); } void deallocate(boost::context::stack_context & c) noexcept { if ( ! l) fail("alloc.dead", "deallocate on a moved-from allocator"); (* l)->put(c, (* l)->family); } };
struct ConstA : Common { explicit ConstA(Ledger * x) : Common(x) {} ConstA(ConstA const& o) : Common(o) {} boost::context::stack_context allocate() const { chk(); return l->get(); } void deallocate(boost::context::stack_context & c) const noexcept { chk(); l->put(c, family); } };
struct NoDefA { typedef boost::context::stack_traits traits_type; explicit NoDefA(Ledger * x) { cur = x; ++x->instances; } NoDefA(NoDefA const&) { ++cur->instances; } ~NoDefA() { --cur->instances; } boost::context::stack_context allocate() { return cur->get(); } void deallocate(boost::context::stack_context & c) noexcept { cur->put(c, cur->family); } };

template< int V > struct VT;
template<> struct VT< 0 > { typedef co2::coroutine< Track > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, Ledger & l) { s(Track(l)); } static void go(H & h, Ledger &) { h(); } };
template<> struct VT< 1 > { typedef co2::coroutine< Track & > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, Ledger & l) { Track t(l); s(t); } static void go(H & h, Ledger &) { h(); } };
template<> struct VT< 2 > { typedef co2::coroutine< void > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, Ledger & l) { Track t(l); s(); } static void go(H & h, Ledger &) { h(); } };
template<> struct VT< 3 > { typedef co2::coroutine< Track > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, Ledger & l) { Track t(l); s(); } static void go(H & h, Ledger & l) { Track t(l); h(t); } };
template<> struct VT< 4 > { typedef co2::coroutine< Track & > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, Ledger & l) { Track t(l); s(); } static void go(H & h, Ledger & l) { Track t(l); h(t); } };
template<> struct VT< 5 > { typedef co2::coroutine< void > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, Ledger & l) { Track t(l); s(); } static void go(H & h, Ledger &) { h(); } };
struct Stop { int x; };
template< int V > struct Fn { Ledger * l; int n; bool thr; Track state; Fn(Ledger * x, int k, bool t) : l(x), n(k), thr(t), state(* x) {}
    void operator()(typename VT< V >::S & s) { Track a(* l); char buf[3000]; memset(buf, 0x19, sizeof buf); vp::opaque(buf); for (int i = 0; i < n; ++i) { Track b(* l); VT< V >::in(s, * l); } for (char c : buf) if (c != 0x19) fail("state.locals", "frame damaged"); if (thr) { Stop e = { n }; throw e; } } };

struct Plan { int v, n, resumes, end, akind, how, disp; std::size_t size, off; };
template< int V > struct Make {
    typedef typename VT< V >::H H;
    template< class F > static std::unique_ptr< H > mk(Plan const& p, std::shared_ptr< Ledger > const& l, F && f) {
        switch (p.akind) {
        case 0: return std::unique_ptr< H >(new H(CopyA(l.get()), std::forward< F >(f)));
        case 1: { CopyA a(l.get()); return std::unique_ptr< H >(new H(a, std::forward< F >(f))); }
        case 2: { CopyA a(l.get()); return std::unique_ptr< H >(new H(std::move(a), std::forward< F >(f))); }
        case 3: return std::unique_ptr< H >(new H(MoveA(l.get()), std::forward< F >(f)));
        case 4: { MoveA a(l.get()); std::unique_ptr< H > h(new H(a, std::forward< F >(f))); if (a.moved) fail("alloc.moved", "an lvalue allocator was moved from"); return h; }
        case 5: { MoveA a(l.get()); return std::unique_ptr< H >(new H(std::move(a), std::forward< F >(f))); }
        case 6: return std::unique_ptr< H >(new H(SharedA(l), std::forward< F >(f)));
        case 7: { SharedA a(l); return std::unique_ptr< H >(new H(a, std::forward< F >(f))); }
        case 9: return std::unique_ptr< H >(new H(OnlyMoveA(l), std::forward< F >(f)));
        case 10: { OnlyMoveA a(l); return std::unique_ptr< H >(new H(std::move(a), std::forward< F >(f))); }
        case 11: { ConstA const a(l.get()); return std::unique_ptr< H >(new H(a, std::forward< F >(f))); }
        case 12: return std::unique_ptr< H >(new H(NoDefA(l.get()), std::forward< F >(f)));
        case 13: { NoDefA a(l.get()); return std::unique_ptr< H >(new H(a, std::forward< F >(f))); }
        default: cur = l.get(); return std::unique_ptr< H >(new H(EmptyA(), std::forward< F >(f)));
        }
    }
};
template< int V > void run(Plan const& p) {
    typedef typename VT< V >::H H; typedef Fn< V > F; bool pull = V < 3;
    std::shared_ptr< Ledger > lp(new Ledger(p.v * 1000 + p.akind, p.size, p.off)); Ledger & l = * lp;
    bool thr = p.end == 1; bool ctor_throws = thr && pull && p.n == 0;
    std::string state;
    {
        std::unique_ptr< H > h; bool caught = false;
        try {
            if (p.how % 3 == 0) { F f(& l, p.n, thr); h = Make< V >::mk(p, lp, f); }
            else if (p.how % 3 == 1) { F const f(& l, p.n, thr); h = Make< V >::mk(p, lp, f); }
            else h = Make< V >::mk(p, lp, F(& l, p.n, thr));
        } catch (Stop const& s) { caught = true; if (s.x != p.n) fail("exc.wrong", "contents"); if (l.deallocs != 1) fail("alloc.leaked", "constructor threw and the stack was not returned"); if (l.instances) fail("alloc.leaked", "%d allocator copies leaked by a throwing constructor", l.instances); }
        if (caught != ctor_throws) fail("exc.lost", "constructor");
        if (l.allocs != 1) fail("alloc.count", "allocate() called %d times", l.allocs);
        if (h) {
            int left = pull ? p.n : p.n + 1; if (left == 0) left = 0;
            for (int i = 0; i < p.resumes && left > 0; ++i) { bool last = left == 1; try { VT< V >::go(* h, l); if (last && thr) fail("exc.lost", "resume"); } catch (Stop const&) { if ( ! (last && thr)) fail("exc.wrong", "early exception"); } --left; if (l.deallocs && ! last) fail("alloc.early", "stack returned while the coroutine is suspended"); }
            bool complete = left == 0; state = complete ? "complete" : p.resumes == 0 ? "initial" : "suspended";
            if (bool(* h) == complete) fail("valid.handle", "validity");
            switch (p.disp % 4) {
            case 0: h.reset(); break;
            case 1: { H m(std::move(* h)); h.reset(); if (l.deallocs && ! complete) fail("alloc.early", "destroying a moved-from handle returned the stack"); } break;
            case 2: { std::unique_ptr< H > n(new H([](typename VT< V >::S &) {})); * h = std::move(* n); if (l.deallocs != 1) fail("alloc.leaked", "assignment over a handle did not return the stack"); h.reset(); } break;
            default: try { std::unique_ptr< H > own(std::move(h)); Stop e = { -1 }; throw e; } catch (Stop const&) {} break;
            }
            if (l.deallocs != 1) fail("alloc.leaked", "%s coroutine destroyed, deallocate() called %d times", state.c_str(), l.deallocs);
        }
    }
    if (l.instances) fail("alloc.leaked", "%d copies of the allocator never destroyed", l.instances);
    if ((p.akind == 6 || p.akind == 7 || p.akind == 9 || p.akind == 10) && lp.use_count() != 1) fail("alloc.leaked", "allocator state still referenced (%ld)", lp.use_count() - 1);
    if ( ! l.objects.empty()) fail("life.leak", "%zu objects alive", l.objects.size());
    vp::count("stacks_returned"); if (ctor_throws) vp::count("constructors_threw"); vp::count(("state_" + (state.empty() ? std::string("threw") : state)).c_str());
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 15485863);
        Plan p; p.v = int(i % 6); p.akind = int((i / 6) % 14); p.end = int((i / 84) % 2); p.n = int((i / 168) % 5); p.resumes = int(r.below(8)); p.how = int(r.below(3)); p.disp = int(r.below(4));
        std::size_t base = VP_SAN ? 96 * 1024 : 24 * 1024;
#if defined(BOOST_NO_CXX11_STD_ALIGN)
        p.size = base + 64 * r.below(64); p.off = 64 * r.below(8);
#else
        p.size = base + r.below(4096); p.off = r.below(512);
#endif
        vp::begin_case(i, vp::fmt("alloc variant %d allocator %d end %d n=%d resumes=%d how=%d disp=%d size=%zu off=%zu", p.v, p.akind, p.end, p.n, p.resumes, p.how, p.disp, p.size, p.off));
        switch (p.v) { case 0: run< 0 >(p); break; case 1: run< 1 >(p); break; case 2: run< 2 >(p); break; case 3: run< 3 >(p); break; case 4: run< 4 >(p); break; default: run< 5 >(p); break; }
        vp::end_case(mix(p.v + p.akind * 7 + p.end * 197 + p.n * 431 + p.resumes * 1009 + p.how * 10007 + p.disp * 100003), true, vp::fmt("variant %d allocator kind %d n=%d resumes=%d end=%d disposal=%d size=%zu misalignment=%zu", p.v, p.akind, p.n, p.resumes, p.end, p.disp, p.size, p.off % 16));
    }
    return vp::finish();
}
