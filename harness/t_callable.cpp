// C10: every kind of callable x six coroutine kinds x lvalue/const lvalue/rvalue x every ending.
// -DCPART=0..5 instantiates one coroutine kind.
#ifndef CPART
#include "vp.hpp"
#else
#define VP_NO_MAIN 1
#include "vp.hpp"
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <functional>
#include <memory>
#endif
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
struct Plan { int kind, form, n, resumes, end; };
#ifdef CPART
namespace {
struct Reg { std::map< uintptr_t, int > live; long calls, copies, moves, made; int n, done; bool thr; uint64_t key; };
Reg R;
// tracked state: lives in every functor
struct State {
    uint32_t magic; uint64_t key; std::unique_ptr< uint64_t > h; bool gone;
    explicit State(uint64_t k) : magic(0x57A7E), key(k), h(new uint64_t(mix(k))), gone(false) { add(); }
    State(State const& o) : magic(0x57A7E), key(o.key), gone(o.gone) { o.chk(); if (o.gone) fail("functor.moved_from", "copy of a moved-from callable"); h.reset(new uint64_t(* o.h)); ++R.copies; add(); }
    State(State && o) : magic(0x57A7E), key(o.key), h(std::move(o.h)), gone(o.gone) { o.chk(); if (o.gone) fail("functor.moved_from", "move of a moved-from callable"); o.gone = true; ++R.moves; add(); }
    State & operator=(State const&) = delete;
    ~State() { chk(); if ( ! R.live.erase((uintptr_t) this)) fail("functor.double_destroy", "callable destroyed twice"); magic = 0xdead; }
    void add() { ++R.made; if ( ! R.live.insert(std::make_pair((uintptr_t) this, 1)).second) fail("functor.dup", "callable constructed over a live one"); }
    void chk() const { if (magic != 0x57A7E) fail("functor.dead", "operation on a dead callable (%x)", magic); }
    void ok(char const* w) const { chk(); if ( ! R.live.count((uintptr_t) this)) fail("functor.dead", "%s: the invoked callable is not alive", w); if (gone || ! h || key != R.key || * h != mix(key)) fail("functor.state", "%s: state of the callable lost", w); }
};
struct MoveOnly { State s; explicit MoveOnly(uint64_t k) : s(k) {} MoveOnly(MoveOnly &&) = default; };
template< int V > struct VT;
template<> struct VT< 0 > { typedef co2::coroutine< std::string > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, int i) { s(std::to_string(i)); } static void go(H & h, int) { h(); } static void chk(H & h, int i) { if (* begin(h) != std::to_string(i)) fail("value.wrong", "value %d", i); } };
template<> struct VT< 1 > { typedef co2::coroutine< int & > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, int i) { int x = i; s(x); if (x != i + 1) fail("ref.identity", "write lost"); } static void go(H & h, int) { h(); } static void chk(H & h, int i) { if (h.get() == i) ++h.get(); else if (h.get() != i + 1) fail("value.wrong", "value %d", i); } };
template<> struct VT< 2 > { typedef co2::coroutine< void > C; typedef C::pull_type H; typedef C::push_type S; static void in(S & s, int) { s(); } static void go(H & h, int) { h(); } static void chk(H &, int) {} };
int want = 0;
template<> struct VT< 3 > { typedef co2::coroutine< std::string > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, int) { if (s.get() != std::to_string(want)) fail("value.wrong", "value"); s(); } static void go(H & h, int i) { want = i; h(std::to_string(i)); } static void chk(H &, int) {} };
template<> struct VT< 4 > { typedef co2::coroutine< int & > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, int) { if (s.get() != want) fail("value.wrong", "value"); s(); } static void go(H & h, int i) { static int cell[2]; int & c = cell[i % 2]; c = want = i; h(c); } static void chk(H &, int) {} };
template<> struct VT< 5 > { typedef co2::coroutine< void > C; typedef C::push_type H; typedef C::pull_type S; static void in(S & s, int) { s(); } static void go(H & h, int) { h(); } static void chk(H &, int) {} };
typedef VT< CPART > Ty; typedef Ty::H H; typedef Ty::S S; enum { PULL = CPART < 3 };

struct Done { int n; };
// the common behaviour of every callable
void work(S & s, State const * st) {
    ++R.calls; if (R.calls > 1) fail("functor.calls", "callable invoked %ld times", R.calls);
    if (st) st->ok("at entry");
    for (int i = 0; i < R.n; ++i) { Ty::in(s, i); if (st) st->ok("after a suspension"); }
    ++R.done;
    if (R.thr) { Done d = { R.n }; throw d; }
}
void plainfn(S & s) { work(s, 0); }
int retfn(S & s) { work(s, 0); return 7; }
void noexfn(S & s) { work(s, 0); }
struct Mut { State s; int calls; explicit Mut(uint64_t k) : s(k), calls(0) {} void operator()(S & p) { ++calls; work(p, & s); if (calls != 1) fail("functor.state", "mutable state lost"); } };
struct Cst { State s; explicit Cst(uint64_t k) : s(k) {} void operator()(S & p) const { work(p, & s); } };
struct Tmpl { State s; explicit Tmpl(uint64_t k) : s(k) {} template< class X > void operator()(X & p) { work(p, & s); } };
struct Ret { State s; explicit Ret(uint64_t k) : s(k) {} std::string operator()(S & p) { work(p, & s); return "ignored"; } };
struct MO { std::unique_ptr< int > u; State s; explicit MO(uint64_t k) : u(new int(9)), s(k) {} MO(MO && o) : u(std::move(o.u)), s(std::move(o.s)) {} void operator()(S & p) { work(p, & s); if ( ! u || * u != 9) fail("functor.state", "move-only state lost"); } };
struct AmpF { State s; explicit AmpF(uint64_t k) : s(k) {} void operator()(S & p) { work(p, & s); } AmpF * operator&() { return 0; } AmpF const * operator&() const { return 0; } };
struct Huge { char big[9000]; State s; explicit Huge(uint64_t k) : s(k) { memset(big, 0x5e, sizeof big); } void operator()(S & p) { work(p, & s); for (char c : big) if (c != 0x5e) fail("functor.state", "large state damaged"); } };
struct alignas(64) Al { State s; explicit Al(uint64_t k) : s(k) {} void operator()(S & p) { work(p, & s); } };
struct VBase { virtual ~VBase() {} virtual void run(S & p) = 0; };
struct Poly final : virtual VBase { State s; explicit Poly(uint64_t k) : s(k) {} void run(S & p) { work(p, & s); } void operator()(S & p) { run(p); } };
struct Greedy { State s; explicit Greedy(uint64_t k) : s(k) {} Greedy(Greedy const&) = default; Greedy(Greedy &&) = default; template< class X, class = typename std::enable_if< ! std::is_same< typename std::decay< X >::type, Greedy >::value && ! std::is_integral< typename std::decay< X >::type >::value >::type > Greedy(X && x) : s(R.key) { (void) x; fail("functor.greedy", "callable converted from something else"); } void operator()(S & p) { work(p, & s); } };
struct Mem { State s; explicit Mem(uint64_t k) : s(k) {} void f(S & p) { work(p, & s); } void g(S & p, int a) { if (a != 17) fail("functor.state", "bound argument"); work(p, & s); } };
struct CopyThenMove { State s; explicit CopyThenMove(uint64_t k) : s(k) {} CopyThenMove(CopyThenMove const& o) : s(o.s) {} void operator()(S & p) const { work(p, & s); } }; // no move constructor
struct Over { State s; explicit Over(uint64_t k) : s(k) {} void operator()(S & p) { work(p, & s); } void operator()(int) { fail("functor.overload", "wrong overload"); } void operator()() { fail("functor.overload", "wrong overload"); } };
struct Owning { State s; typename co2::coroutine< int >::pull_type inner; explicit Owning(uint64_t k) : s(k), inner([](co2::coroutine< int >::push_type & q) { q(1); q(2); q(3); }) {} Owning(Owning && o) : s(std::move(o.s)), inner(std::move(o.inner)) {} void operator()(S & p) { if ( ! inner || inner.get() != 1) fail("functor.state", "coroutine inside the callable"); inner(); work(p, & s); if (inner.get() != 2) fail("functor.state", "coroutine inside the callable"); } };

struct LvOnly { State s; explicit LvOnly(uint64_t k) : s(k) {} void operator()(S & p) & { work(p, & s); } void operator()(S &) && = delete; };
struct Empty final { void operator()(S & p) const { work(p, 0); } };
struct VirtCall { State s; explicit VirtCall(uint64_t k) : s(k) {} VirtCall(VirtCall const&) = default; VirtCall(VirtCall &&) = default; virtual ~VirtCall() {} virtual void operator()(S & p) { work(p, & s); } };
struct Derived : VirtCall { State t; explicit Derived(uint64_t k) : VirtCall(k), t(k) {} void operator()(S & p) { work(p, & t); s.ok("base part"); } };
struct ByBase { State s; explicit ByBase(uint64_t k) : s(k) {} template< class X, class = typename std::enable_if< std::is_same< X, S >::value >::type > void operator()(X & p) { work(p, & s); } template< class X > void operator()(X const&) const { fail("functor.overload", "wrong overload"); } };
struct Form { int form; bool rv; };
template< class F > std::unique_ptr< H > mk(F && f) { return std::unique_ptr< H >(new H(std::forward< F >(f))); }
// finish: drive the coroutine to the wanted end, destroy it
void drive(std::unique_ptr< H > & h, Plan const& p, bool ctor_threw) {
    bool thr = p.end == 1; int total = PULL ? p.n : p.n + 1, left = total; bool complete = PULL && left == 0;
    if (ctor_threw != (PULL && p.n == 0 && thr)) fail("exc.lost", "constructor");
    if (h) {
        if (bool(* h) == complete) fail("valid.handle", "after construction");
        for (int i = 0; i < p.resumes && left > 0; ++i) {
            if (PULL) Ty::chk(* h, i);
            bool last = left == 1, got = false; try { Ty::go(* h, i); } catch (Done const& d) { got = true; if (d.n != p.n) fail("exc.wrong", "contents"); }
            if (got != (last && thr)) fail("exc.lost", "resume %d", i);
            --left;
        }
        if (left > 0 && PULL) Ty::chk(* h, p.n - left);
        complete = left == 0; if (bool(* h) == complete) fail("valid.handle", "after resumes");
        bool entered = PULL || p.resumes > 0;
        if (R.calls != (entered ? 1 : 0)) fail("functor.calls", "callable invoked %ld times, expected %d", R.calls, int(entered));
        h.reset();
    }
    if (R.calls > 1) fail("functor.calls", "invoked %ld times", R.calls);
    if (R.done != ((left == 0) ? 1 : 0)) fail("functor.calls", "function ran to its end %d times", R.done);
}
// lvalue / const lvalue / rvalue of a copyable callable
template< class F, bool Copyable > struct Forms {
    static void run(Plan const& p) {
        std::unique_ptr< H > h; bool threw = false;
        if (p.form == 0) { { F f(R.key); std::size_t n0 = R.live.size(); h = try_mk(f, threw); f.s.ok("caller's lvalue after construction"); drive(h, p, threw); f.s.ok("caller's lvalue at the end"); if (R.live.size() != n0) fail("functor.leaked", "%zu copies of the callable alive", R.live.size() - n0); } }
        else if (p.form == 1) { { F const f(R.key); h = try_mk(f, threw); f.s.ok("caller's const lvalue"); drive(h, p, threw); f.s.ok("caller's const lvalue at the end"); } }
        else if (p.form == 2) { { F f(R.key); h = try_mk(f, threw); { F g(f); (void) g; } } drive(h, p, threw); } // the source dies before the coroutine runs on
        else rvalue(p);
    }
    static void rvalue(Plan const& p) {
        std::unique_ptr< H > h; bool threw = false; long c0 = R.copies;
        if (p.n % 2) h = try_mk(F(R.key), threw); else { F f(R.key); h = try_mk(std::move(f), threw); }
        drive(h, p, threw);
        if (R.copies != c0 && ! std::is_same< F, CopyThenMove >::value) fail("functor.copied", "rvalue callable copied %ld times", R.copies - c0);
    }
    template< class X > static std::unique_ptr< H > try_mk(X && x, bool & threw) { try { return mk(std::forward< X >(x)); } catch (Done const&) { threw = true; return std::unique_ptr< H >(); } }
};
template< class F > struct Forms< F, false > { static void run(Plan const& p) { Forms< F, true >::rvalue(p); } };
template< class X > std::unique_ptr< H > tm(X && x, bool & threw) { try { return mk(std::forward< X >(x)); } catch (Done const&) { threw = true; return std::unique_ptr< H >(); } }

void kinds(Plan const& p) {
    std::unique_ptr< H > h; bool threw = false;
    switch (p.kind) {
    case 0: Forms< Mut, true >::run(p); break;
    case 1: Forms< Cst, true >::run(p); break;
    case 2: Forms< Tmpl, true >::run(p); break;
    case 3: Forms< Ret, true >::run(p); break;
    case 4: Forms< MO, false >::run(p); break;
    case 5: Forms< AmpF, true >::run(p); break;
    case 6: Forms< Huge, true >::run(p); break;
    case 7: Forms< Poly, true >::run(p); break;
    case 8: Forms< Greedy, true >::run(p); break;
    case 9: Forms< CopyThenMove, true >::run(p); break;
    case 10: Forms< Over, true >::run(p); break;
    case 11: Forms< Owning, false >::run(p); break;
    case 12: // functions and function pointers
        if (p.form == 0) h = tm(plainfn, threw); else if (p.form == 1) h = tm(& plainfn, threw); else if (p.form == 2) { void (* f)(S &) = plainfn; h = tm(f, threw); f = 0; } else h = tm(retfn, threw);
        drive(h, p, threw); break;
    case 13: { void (& r)(S &) = noexfn; void (* const cf)(S &) = noexfn; if (p.form % 2) h = tm(r, threw); else h = tm(cf, threw); drive(h, p, threw); } break;
    case 14: { State st(R.key); if (p.form % 2) h = tm([&st](S & s) { work(s, & st); }, threw); else { auto l = [&st](S & s) { work(s, & st); }; h = tm(l, threw); } drive(h, p, threw); } break;
    case 15: { std::unique_ptr< State > tmp(new State(R.key)); State const& src = * tmp; auto l = [src](S & s) mutable { work(s, & src); }; tmp.reset(); if (p.form == 0) h = tm(l, threw); else if (p.form == 1) { auto const l2 = [](S & s) { work(s, 0); }; h = tm(l2, threw); } else h = tm(std::move(l), threw); drive(h, p, threw); } break;
    case 16: { Mut f(R.key); if (p.form % 2) h = tm(std::ref(f), threw); else { std::reference_wrapper< Mut > w(f); h = tm(w, threw); } bool e = PULL || p.resumes > 0; drive(h, p, threw); if (e && f.calls != 1) fail("functor.ref", "reference-wrapped functor was not the one invoked"); } break;
    case 17: { Cst const f(R.key); h = tm(std::cref(f), threw); drive(h, p, threw); if (R.live.size() != 1) fail("functor.leaked", "copies"); } break;
    case 18: { std::function< void(S &) > f((Mut(R.key))); if (p.form == 0) { h = tm(f, threw); if ( ! f) fail("functor.moved_from", "caller's std::function emptied"); } else if (p.form == 1) { std::function< void(S &) > const cf = f; f = nullptr; h = tm(cf, threw); if ( ! cf) fail("functor.moved_from", "const std::function emptied"); } else if (p.form == 2) h = tm(std::move(f), threw); else { h = tm(f, threw); f = nullptr; } drive(h, p, threw); } break;
    case 19: { boost::function< void(S &) > f((Mut(R.key))); if (p.form == 0) { h = tm(f, threw); if ( ! f) fail("functor.moved_from", "caller's boost::function emptied"); } else h = tm(std::move(f), threw); drive(h, p, threw); } break;
    case 20: { Mem m(R.key); auto b = std::bind(& Mem::f, & m, std::placeholders::_1); if (p.form % 2) h = tm(b, threw); else h = tm(std::bind(& Mem::g, & m, std::placeholders::_1, 17), threw); drive(h, p, threw); } break;
    case 21: { Mem m(R.key); h = tm(boost::bind(& Mem::f, & m, boost::placeholders::_1), threw); drive(h, p, threw); } break;
    case 22: { std::shared_ptr< Mem > m(std::make_shared< Mem >(R.key)); auto b = std::bind(& Mem::f, m, std::placeholders::_1); std::weak_ptr< Mem > w(m); m.reset(); h = tm(std::move(b), threw); if (p.form == 2) { auto c = std::bind(& Mem::f, std::make_shared< Mem >(R.key), std::placeholders::_1); (void) c; } drive(h, p, threw); if ( ! w.expired() && p.form > 2) { /* b still holds it unless moved */ } } break;
    case 23: { std::function< void(S &) > f; f = std::ref(plainfn); h = tm(f, threw); drive(h, p, threw); } break;
    case 27: Forms< LvOnly, true >::run(p); break;
    case 28: if (p.form % 2) h = tm(Empty(), threw); else { Empty e; h = tm(e, threw); } drive(h, p, threw); break;
    case 29: { auto l = [](S & s) { work(s, 0); }; if (p.form == 0) h = tm(l, threw); else if (p.form == 1) h = tm(std::move(l), threw); else h = tm(static_cast< void (*)(S &) >(l), threw); drive(h, p, threw); } break;
    case 30: Forms< Derived, true >::run(p); break;
    case 31: Forms< ByBase, true >::run(p); break;
#if __cplusplus >= 201402L
    case 24: { std::unique_ptr< State > u(new State(R.key)); auto l = [u = std::move(u)](auto & s) mutable { work(s, u.get()); }; h = tm(std::move(l), threw); drive(h, p, threw); } break;
    case 25: { State st(R.key); auto l = [st](auto & s) { work(s, & st); }; if (p.form % 2) h = tm(l, threw); else h = tm(std::move(l), threw); drive(h, p, threw); } break;
#endif
    default: { struct Sub : Mut { explicit Sub(uint64_t k) : Mut(k) {} }; Forms< Sub, true >::run(p); } break;
    }
}
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(callable, CPART)(Plan const& p, uint64_t key) {
    R.calls = R.copies = R.moves = R.made = 0; R.n = p.n; R.done = 0; R.thr = p.end == 1; R.key = key;
    kinds(p);
    if ( ! R.live.empty()) fail("functor.leaked", "%zu copies of the callable never destroyed (kind %d form %d)", R.live.size(), p.kind, p.form);
    vp::count("callables", 1); vp::count("functor_objects_tracked", R.made);
}
#else
void callable0(Plan const&, uint64_t); void callable1(Plan const&, uint64_t); void callable2(Plan const&, uint64_t); void callable3(Plan const&, uint64_t); void callable4(Plan const&, uint64_t); void callable5(Plan const&, uint64_t);
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 6700417);
        Plan p; int v = int(i % 6); p.kind = int((i / 6) % 32); p.form = int((i / 192) % 4); p.end = r.chance(35); p.n = int(r.below(5)); p.resumes = r.chance(50) ? 100 : int(r.below(6));
        vp::begin_case(i, vp::fmt("callable coroutine kind %d, callable kind %d form %d n=%d resumes=%d end=%d", v, p.kind, p.form, p.n, p.resumes, p.end));
        switch (v) { case 0: callable0(p, i + 1); break; case 1: callable1(p, i + 1); break; case 2: callable2(p, i + 1); break; case 3: callable3(p, i + 1); break; case 4: callable4(p, i + 1); break; default: callable5(p, i + 1); break; }
        vp::end_case(mix(v + p.kind * 7 + p.form * 227 + p.end * 1009 + p.n * 10007 + (p.resumes > 9 ? 9 : p.resumes) * 100003), true, vp::fmt("coroutine kind %d callable kind %d form %d n=%d resumes=%d end=%d", v, p.kind, p.form, p.n, p.resumes, p.end));
    }
    return vp::finish();
}
#endif
