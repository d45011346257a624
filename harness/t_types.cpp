// C01/C02/C11: transferred types of every kind the language knows: fundamental, enumeration, pointer and member pointer, array and
// function references, abstract and incomplete classes, cv-qualified, aggregates, unions, vectors, unassignable classes, coroutine
// handles themselves. Oracle: the same sequence indexed directly.
// -DTPART=0..2 instantiates a third of the types.
#ifdef TPART
#define VP_NO_MAIN 1
#endif
#include "vp.hpp"
#include <array>
#include <exception>
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
struct Plan { int n; unsigned form, read; uint64_t base; bool abandon; int end; unsigned moves; };
struct Ent { char const* name; void (*f)(Plan const&); };
#ifdef TPART
namespace {
uint64_t h(Plan const& p, int i) { return mix(p.base + i); }
struct Boom { int k; };
enum class Colour : unsigned char { a, b, c }; enum Plain { p0, p1, p2 = 70000 };
struct Agg { int a; double b; char c[5]; }; struct Empty {}; union Uni { uint64_t u; double d; }; struct Bits { unsigned a : 3; unsigned b : 29; int64_t c : 40; };
struct ConstMember { int const v; std::string const s; explicit ConstMember(uint64_t x) : v(int(x)), s(std::to_string(x)) {} };
struct RefMember { int & r; };
struct NoAssign { uint64_t v; std::vector< int > w; explicit NoAssign(uint64_t x) : v(x), w(x % 5, int(x)) {} NoAssign(NoAssign const&) = default; NoAssign(NoAssign &&) = default; NoAssign & operator=(NoAssign const&) = delete; };
struct Base1 { int a; virtual ~Base1() {} virtual int id() const { return 1; } }; struct Base2 { int b; virtual ~Base2() {} }; struct Multi : Base1, virtual Base2 { int c; int id() const override { return 2; } };
struct Abstract { int tag; virtual int f() const = 0; virtual ~Abstract() {} }; struct Impl1 : Abstract { int f() const override { return 1; } }; struct Impl2 : Multi, Abstract { int f() const override { return 2; } };
struct Incomplete; Incomplete & incomplete(int i);
int f0(int x) { return x; } int f1(int x) { return x + 1; } int f2(int x) { return x + 2; }
struct Mem { int x, y, z; int g() { return x; } int k() { return y; } };
typedef float Vec4 __attribute__((vector_size(16))); typedef long Vec4l __attribute__((vector_size(32)));
struct FinalMoveOnly final { std::unique_ptr< uint64_t > p; explicit FinalMoveOnly(uint64_t x) : p(new uint64_t(x)) {} FinalMoveOnly(FinalMoveOnly &&) = default; };
struct ExplicitCopy { uint64_t v; explicit ExplicitCopy(uint64_t x) : v(x) {} ExplicitCopy(ExplicitCopy const& o) : v(o.v) {} };
struct NonConstCopy { uint64_t v; explicit NonConstCopy(uint64_t x) : v(x) {} NonConstCopy(NonConstCopy const& o) : v(o.v) {} NonConstCopy(NonConstCopy && o) : v(o.v) { o.v = 0; } NonConstCopy(NonConstCopy &) = delete; };
struct Big { uint64_t w[700]; };
struct InitList { std::vector< int > v; InitList(std::initializer_list< int > l) : v(l) {} InitList(int a, int b) : v{ a, b } {} };
struct ConvAny { int k; explicit ConvAny(int x) : k(x) {} template< class X, class = typename std::enable_if< ! std::is_same< typename std::decay< X >::type, ConvAny >::value >::type > ConvAny(X const&) : k(-1) {} };

// value types: mk(i) and ok(v, i)
template< class T > struct V;
#define VAL(T, MK, OK) template<> struct V< T > { static T mk(uint64_t i) { (void) i; return MK; } static bool ok(T const& v, uint64_t i) { (void) v; (void) i; return OK; } }
VAL(bool, i % 2 == 1, v == (i % 2 == 1)); VAL(char, char(i), v == char(i)); VAL(signed char, (signed char) i, v == (signed char) i); VAL(wchar_t, wchar_t(i), v == wchar_t(i)); VAL(char16_t, char16_t(i), v == char16_t(i)); VAL(short, short(i), v == short(i)); VAL(unsigned, unsigned(i), v == unsigned(i)); VAL(long long, (long long) i, v == (long long) i);
VAL(float, float(i % 1000) / 8, v == float(i % 1000) / 8); VAL(double, double(i), v == double(i)); VAL(long double, (long double) i + 0.5L, v == (long double) i + 0.5L); VAL(__int128, ((__int128) i << 64) + i, v == ((__int128) i << 64) + (__int128) i);
VAL(std::nullptr_t, nullptr, v == nullptr); VAL(Colour, Colour(i % 3), v == Colour(i % 3)); VAL(Plain, i % 3 == 0 ? p0 : i % 3 == 1 ? p1 : p2, v == (i % 3 == 0 ? p0 : i % 3 == 1 ? p1 : p2));
typedef int (*Fp)(int); VAL(Fp, i % 3 == 0 ? f0 : i % 3 == 1 ? f1 : f2, v(5) == 5 + int(i % 3));
typedef int Mem::*Mp; VAL(Mp, i % 3 == 0 ? & Mem::x : i % 3 == 1 ? & Mem::y : & Mem::z, (Mem{ 0, 1, 2 }.*v) == int(i % 3)); typedef int (Mem::*Mfp)(); struct MO { static bool t(Mfp f, uint64_t i) { Mem m = { 0, 1, 2 }; return (m.*f)() == int(i % 2); } }; VAL(Mfp, i % 2 ? & Mem::k : & Mem::g, MO::t(v, i));
typedef void const * Vp; VAL(Vp, (Vp) (uintptr_t) i, v == (Vp) (uintptr_t) i);
Agg agg(uint64_t i) { Agg a = { int(i), double(i % 999), { char(i), char(i >> 8), 3, 4, 5 } }; return a; }
VAL(Agg, agg(i), v.a == int(i) && v.b == double(i % 999) && v.c[0] == char(i) && v.c[1] == char(i >> 8) && v.c[4] == 5); VAL(Empty, Empty(), true); Uni uni(uint64_t i) { Uni u; u.u = i; return u; } VAL(Uni, uni(i), v.u == i);
Bits bits(uint64_t i) { Bits b; b.a = i & 7; b.b = (i >> 3) & 0xffff; b.c = int64_t(i & 0xffffff) - 100; return b; } VAL(Bits, bits(i), v.a == (i & 7) && v.b == ((i >> 3) & 0xffff) && v.c == int64_t(i & 0xffffff) - 100);
VAL(ConstMember, ConstMember(i % 100000), v.v == int(i % 100000) && v.s == std::to_string(i % 100000)); int cells[8]; RefMember rm(uint64_t i) { RefMember r = { cells[i % 8] }; return r; } VAL(RefMember, rm(i), & v.r == cells + i % 8); VAL(NoAssign, NoAssign(i), v.v == i && v.w == std::vector< int >(i % 5, int(i)));
Multi multi(uint64_t i) { Multi m; m.a = int(i); m.b = int(i >> 8); m.c = int(i >> 16); return m; } VAL(Multi, multi(i), v.a == int(i) && v.b == int(i >> 8) && v.c == int(i >> 16) && v.id() == 2);
VAL(FinalMoveOnly, FinalMoveOnly(i), v.p && * v.p == i); VAL(ExplicitCopy, ExplicitCopy(i), v.v == i); VAL(NonConstCopy, NonConstCopy(i), v.v == i); Big big(uint64_t i) { Big b; for (int k = 0; k < 700; ++k) b.w[k] = i + k; return b; } bool bigok(Big const& b, uint64_t i) { for (int k = 0; k < 700; ++k) if (b.w[k] != i + k) return false; return true; } VAL(Big, big(i), bigok(v, i));
VAL(InitList, (InitList{ int(i % 9), int(i % 7), int(i % 5) }), (v.v == std::vector< int >{ int(i % 9), int(i % 7), int(i % 5) })); VAL(ConvAny, ConvAny(int(i % 1000)), v.k == int(i % 1000));
Vec4 vec4(uint64_t i) { Vec4 v = { float(i % 10), float(i % 100), 3, 4 }; return v; } VAL(Vec4, vec4(i), v[0] == float(i % 10) && v[1] == float(i % 100) && v[3] == 4);
typedef std::array< std::string, 2 > Arr; VAL(Arr, (Arr{ { std::to_string(i), std::string(i % 50, 'z') } }), v[0] == std::to_string(i) && v[1].size() == i % 50); typedef std::pair< int const, std::unique_ptr< int > > Pr; VAL(Pr, Pr(int(i), std::unique_ptr< int >(new int(int(i) + 1))), v.first == int(i) && v.second && * v.second == int(i) + 1); typedef std::tuple<> Tp0; VAL(Tp0, Tp0(), true); typedef std::tuple< int, std::string, int & > Tp; VAL(Tp, Tp(int(i), std::to_string(i), cells[i % 8]), std::get< 0 >(v) == int(i) && std::get< 1 >(v) == std::to_string(i) && & std::get< 2 >(v) == cells + i % 8);
typedef std::function< uint64_t(int) > Fun; VAL(Fun, ([i](int x) { return i + x; }), v && v(3) == i + 3); typedef std::reference_wrapper< int > Rw; VAL(Rw, std::ref(cells[i % 8]), & v.get() == cells + i % 8); typedef std::shared_ptr< void > Sp; VAL(Sp, std::make_shared< uint64_t >(i), v && * static_cast< uint64_t * >(v.get()) == i);
bool epok(std::exception_ptr const& e, uint64_t i) { try { std::rethrow_exception(e); } catch (uint64_t x) { return x == i; } catch (...) {} return false; } VAL(std::exception_ptr, std::make_exception_ptr(uint64_t(i)), epok(v, i));
typedef co2::coroutine< int >::pull_type Pull; typedef co2::coroutine< int >::push_type Push;
Pull mkpull(uint64_t i) { int n = int(i % 4); return Pull([i, n](Push & s) { for (int k = 0; k < n; ++k) s(int(i) + k); }); }
bool pullok(Pull & p, uint64_t i) { int k = 0; for (int x : p) { if (x != int(i) + k) return false; ++k; } return k == int(i % 4); }
template<> struct V< Pull > { static Pull mk(uint64_t i) { return mkpull(i); } static bool ok(Pull const& v, uint64_t i) { return bool(v) == (i % 4 != 0) && pullok(const_cast< Pull & >(v), i); } };
#undef VAL

template< class T, bool C > struct PushOne { template< class S > static void f(S & s, Plan const& p, int i) { switch (p.form % 3) { case 0: s(V< T >::mk(h(p, i))); break; case 1: { T v(V< T >::mk(h(p, i))); s(std::move(v)); } break; default: { T const v(V< T >::mk(h(p, i))); s(v); if ( ! V< T >::ok(v, h(p, i))) fail("value.source", "the caller's lvalue changed"); } } } };
template< class T > struct PushOne< T, false > { template< class S > static void f(S & s, Plan const& p, int i) { if (p.form % 2) s(V< T >::mk(h(p, i))); else { T v(V< T >::mk(h(p, i))); s(std::move(v)); } } };
template< class T, bool C > void pushone(Plan const& p, int i, typename co2::coroutine< T >::push_type & s) { PushOne< T, C >::f(s, p, i); }
uint64_t hh(Plan const& p, int i) { return h(p, i); }
struct Guard { long & n; explicit Guard(long & x) : n(x) { ++n; } ~Guard() { --n; } };
struct Boom2 : Boom, std::runtime_error { explicit Boom2(int k) : Boom(), std::runtime_error("boom2") { Boom::k = k; } };
[[noreturn]] void leave(Plan const& p) { if (p.end == 2) throw Boom2(p.n); Boom b = { p.n }; throw b; }
// ownership moves between two transfers
template< class H > void shuffle(Plan const& p, int i, H & c) {
    if ( ! (p.moves >> (i % 8) & 1)) return;
    static_assert(std::is_nothrow_move_constructible< H >::value && std::is_nothrow_move_assignable< H >::value, "noexcept moves");
    H d(std::move(c)); if (c || ! d || ! ! c) fail("move.state", "after move construction: source %d target %d", int(bool(c)), int(bool(d)));
    if (p.form % 2) { H & r = (d = std::move(* & d)); if (& r != & d || ! d) fail("move.self", "self move assignment"); }
    H & r = (c = std::move(d)); if (d || ! c || & r != & c) fail("move.state", "after move assignment: source %d target %d", int(bool(d)), int(bool(c)));
    vp::count("handle_moves", 2);
}
// one read of the pending value
template< class T > void readone(Plan const& p, int i, typename co2::coroutine< T >::pull_type & s) {
    bool ok = true;
    switch ((p.read + unsigned(i)) % 4) {
    case 0: ok = V< T >::ok(* begin(s), h(p, i)); break;
    case 1: { T v(s.get()); ok = V< T >::ok(v, h(p, i)); } break;
    case 2: { auto it = begin(s); ok = it != end(s) && V< T >::ok(* it.operator->(), h(p, i)); } break;
    default: break; // skipped
    }
    if ( ! ok) fail("value.wrong", "value %d differs from the value sent", i);
}
template< class T, bool C > struct Assign { template< class S > static void f(S & c, Plan const& p, int i) { auto it = begin(c); * it = V< T >::mk(h(p, i)); ++it; } };
template< class T > struct Assign< T, false > { template< class S > static void f(S & c, Plan const& p, int i) { c(V< T >::mk(h(p, i))); } };
template< class T, bool C > void value(Plan const& p) {
    typedef co2::coroutine< T > K;
    static_assert( ! std::is_copy_constructible< typename K::pull_type >::value && ! std::is_copy_constructible< typename K::push_type >::value, "not copyable");
    long locals = 0;
    { // pull
        int got = 0; bool threw = false;
        { std::unique_ptr< typename K::pull_type > h;
        try {
            h.reset(new typename K::pull_type([&p, &locals](typename K::push_type & s) { Guard g(locals); for (int i = 0; i < p.n; ++i) { pushone< T, C >(p, i, s); if ( ! s || locals != 1) fail("valid.port", "sink false inside the running function"); } if (p.end) { Guard g2(locals); leave(p); } }));
            typename K::pull_type & c = * h;
            if (p.read % 5 == 4) { for (T & v : c) { if ( ! V< T >::ok(v, hh(p, got))) fail("value.wrong", "range-for: value %d", got); ++got; } }
            else while (c) { if ( ! c || begin(c) == end(c)) fail("valid.handle", "operator! or begin()==end() with a value available"); shuffle(p, got, c); readone< T >(p, got, c); ++got; if (p.abandon && got == p.n / 2 + 1) break; c(); }
            if (c && ! p.abandon) fail("valid.handle", "pull handle usable after the last value");
            if ( ! (p.abandon && c) && p.end) fail("exc.lost", "pull");
        } catch (Boom const& b) { threw = true; if (b.k != p.n || ! p.end) fail("exc.wrong", "pull"); }
        if (threw && locals) fail("exc.state", "%ld local objects of the function alive when its exception is delivered", locals);
        if (threw && h && (* h || ! ! * h || begin(* h) != end(* h))) fail("valid.handle", "pull handle valid after its function threw");
        if ( ! threw && h && * h && locals != 1) fail("unwind.early", "local object of a suspended coroutine gone");
        }
        if (locals) fail("unwind.leaked", "%ld local objects alive after the handle is gone", locals);
        if (( ! p.abandon || p.read % 5 == 4) && got != p.n) fail("value.lost", "%d of %d values", got, p.n);
    }
    { // push
        int got = 0, n = p.n; bool threw = false;
        { std::unique_ptr< typename K::push_type > h(new typename K::push_type([&p, &got, &locals](typename K::pull_type & s) { Guard g(locals); while (s) { readone< T >(p, got, s); ++got; if (p.end && got == p.n) { Guard g2(locals); leave(p); } if (p.abandon && got == p.n) return; s(); if ( ! s || begin(s) == end(s)) fail("valid.port", "source false inside the running function"); } }));
        typename K::push_type & c = * h;
        if (got || locals) fail("control.started", "the function of a push-coroutine ran at construction");
        try {
            for (int i = 0; i < n; ++i) {
                if ( ! c || ! ! ! c || begin(c) == end(c)) fail("valid.handle", "push handle invalid before completion");
                shuffle(p, i, c);
                if (p.form >= 3 && i % 2) Assign< T, C >::f(c, p, i); else pushone< T, C >(p, i, c); if (got != i + 1) fail("control.lost", "%d values sent, %d received", i + 1, got); }
            if (p.end && n) fail("exc.lost", "push");
        } catch (Boom const& b) { threw = true; if ( ! p.end || b.k != n || got != n) fail("exc.wrong", "push"); }
        bool over = n && (p.end || p.abandon);
        if (bool(c) == over || ! c != over || (begin(c) == end(c)) != over) fail("valid.handle", "push handle tests %d after its function %s", int(bool(c)), threw ? "threw" : over ? "returned" : "was suspended");
        if (locals != (over || ! n ? 0 : 1)) fail("unwind.locals", "%ld local objects of the function alive", locals);
        }
        if (locals) fail("unwind.leaked", "%ld local objects alive after the handle is gone", locals);
        if (got != n) fail("value.lost", "push: %d of %d values", got, n);
    }
    vp::count("values_transferred", 2 * p.n);
}
template< class T > void vonly(Plan const& p) { Plan q = p; if (q.form >= 3) q.form -= 3; value< T, true >(q); }       // no by-value iterator assignment
template< class T > void monly(Plan const& p) { Plan q = p; if (q.form >= 3) q.form -= 3; value< T, false >(q); }

// references: R is the transferred type without &, objs the designated objects
template< class R > void refs(Plan const& p, std::vector< R * > const& objs) {
    typedef co2::coroutine< R & > K; auto at = [&](int i) -> R * { return objs[h(p, i) % objs.size()]; };
    {
        int got = 0;
        try {
            typename K::pull_type c([&](typename K::push_type & s) { for (int i = 0; i < p.n; ++i) s(* at(i)); if (p.end) { Boom b = { 1 }; throw b; } });
            for (auto it = begin(c); it != end(c); ++it) { shuffle(p, got, c); R & a = * it; R & b = c.get(); if (std::addressof(a) != at(got) || std::addressof(b) != at(got) || it.operator->() != at(got)) fail("ref.identity", "reference %d designates another object", got); ++got; if (p.abandon && got == 1) break; }
            if (p.end && ! c) fail("exc.lost", "references");
        } catch (Boom const&) { if ( ! p.end) fail("exc.wrong", "references"); }
        if ( ! p.abandon && got != p.n) fail("ref.count", "%d of %d references", got, p.n);
    }
    {
        int got = 0;
        { typename K::push_type c([&](typename K::pull_type & s) { for (R & x : s) { if (std::addressof(x) != at(got) || std::addressof(s.get()) != at(got)) fail("ref.identity", "push: reference %d designates another object", got); ++got; } });
          auto it = begin(c); for (int i = 0; i < p.n; ++i) { shuffle(p, i, c); if (p.form % 2) { * it = * at(i); ++it; } else c(* at(i)); } }
        if (got != p.n) fail("ref.count", "push: %d of %d references", got, p.n);
    }
    vp::count("references_transferred", 2 * p.n);
}
template< class R, class O > std::vector< R * > ptrs(O & o) { std::vector< R * > v; for (auto & x : o) v.push_back(std::addressof(x)); return v; }
// push handles as values: moved into a coroutine and driven there
void pushhandles(Plan const& p) {
    typedef co2::coroutine< Push > K; std::vector< int > log; int n = p.n;
    { K::push_type c([&](K::pull_type & s) { int k = 0; for (Push & q : s) { if ( ! q) fail("valid.handle", "transferred push handle"); q(k); q(k + 1); if (k % 2) { Push mine(std::move(q)); mine(99); } ++k; } });
      for (int i = 0; i < n; ++i) c(Push([&log, i](Pull & in) { for (int x : in) log.push_back(i * 1000 + x); })); }
    std::vector< int > want; for (int i = 0; i < n; ++i) { want.push_back(i * 1000 + i); want.push_back(i * 1000 + i + 1); if (i % 2) want.push_back(i * 1000 + 99); }
    if (log != want) fail("value.wrong", "coroutine handles as values: %zu of %zu events", log.size(), want.size());
    vp::count("handles_transferred", n);
}
void r_array(Plan const& p) { static int a[5][3]; refs< int[3] >(p, ptrs< int[3] >(a)); }
void r_array2(Plan const& p) { static char const a[4][9] = { "one", "two", "three", "four" }; refs< char const[9] >(p, ptrs< char const[9] >(a)); }
void r_fun(Plan const& p) { std::vector< int (*)(int) > v{ f0, f1, f2 }; refs< int(int) >(p, v); }
void r_vol(Plan const& p) { static int volatile a[5]; refs< int volatile >(p, ptrs< int volatile >(a)); static int b[3]; refs< int const volatile >(p, ptrs< int const volatile >(b)); }
void r_abs(Plan const& p) { static Impl1 a[2]; static Impl2 b[2]; std::vector< Abstract * > v{ a, b, a + 1, b + 1 }; refs< Abstract >(p, v); std::vector< Abstract const * > w(v.begin(), v.end()); refs< Abstract const >(p, w); }
void r_vbase(Plan const& p) { static Impl2 b[3]; std::vector< Base2 * > v{ b, b + 1, b + 2 }; refs< Base2 >(p, v); }
void r_inc(Plan const& p) { std::vector< Incomplete * > v; for (int i = 0; i < 4; ++i) v.push_back(& incomplete(i)); refs< Incomplete >(p, v); }
void r_mo(Plan const& p) { static std::unique_ptr< int > a[3]; refs< std::unique_ptr< int > >(p, ptrs< std::unique_ptr< int > >(a)); refs< std::unique_ptr< int > const >(p, ptrs< std::unique_ptr< int > const >(a)); }
void r_handle(Plan const& p) { std::vector< Pull > v; for (int i = 0; i < 3; ++i) v.push_back(mkpull(7)); refs< Pull >(p, ptrs< Pull >(v)); }
void r_ptr(Plan const& p) { static int * a[3]; refs< int * >(p, ptrs< int * >(a)); static void const * const b[2] = { a, a + 1 }; refs< void const * const >(p, ptrs< void const * const >(b)); }
Ent const tests[] = {
#if TPART == 0
    { "bool", value< bool, true > }, { "char", value< char, true > }, { "signed char", value< signed char, true > }, { "wchar_t", value< wchar_t, true > }, { "char16_t", value< char16_t, true > }, { "short", value< short, true > }, { "unsigned", value< unsigned, true > }, { "long long", value< long long, true > }, { "float", value< float, true > }, { "double", value< double, true > }, { "long double", value< long double, true > }, { "__int128", value< __int128, true > }, { "nullptr_t", value< std::nullptr_t, true > }, { "enum class", value< Colour, true > }, { "enum", value< Plain, true > }, { "function pointer", value< Fp, true > }, { "member pointer", value< Mp, true > }, { "member function pointer", value< Mfp, true > }
#elif TPART == 1
    { "void const*", value< Vp, true > }, { "aggregate", value< Agg, true > }, { "empty", value< Empty, true > }, { "union", value< Uni, true > }, { "bit-fields", value< Bits, true > }, { "const members", vonly< ConstMember > }, { "reference member", vonly< RefMember > }, { "not assignable", vonly< NoAssign > }, { "multiple inheritance", value< Multi, true > }, { "final move-only", monly< FinalMoveOnly > }, { "copy constructor only", vonly< ExplicitCopy > }, { "no copy from non-const", monly< NonConstCopy > }, { "5600 bytes", value< Big, true > }, { "initializer_list", value< InitList, true > }, { "converting template", value< ConvAny, true > }, { "vector", value< Vec4, true > }
#elif TPART == 2
    { "array of string", value< Arr, true > }, { "pair const/unique_ptr", monly< Pr > }, { "empty tuple", value< Tp0, true > }, { "tuple with reference", vonly< Tp > }, { "std::function", value< Fun, true > }, { "reference_wrapper", value< Rw, true > }, { "shared_ptr<void>", value< Sp, true > }, { "exception_ptr", value< std::exception_ptr, true > }, { "pull handle", monly< Pull > }, { "int(&)[3]", r_array }, { "char const(&)[9]", r_array2 }, { "int(&)(int)", r_fun }, { "volatile&", r_vol }, { "abstract&", r_abs }, { "virtual base&", r_vbase }, { "incomplete&", r_inc }, { "unique_ptr&", r_mo }, { "handle&", r_handle }, { "pointer&", r_ptr }, { "push handle", pushhandles }
#endif
};
struct Incomplete { int x; };
Incomplete inc[4]; Incomplete & incomplete(int i) { return inc[i % 4]; }
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
unsigned CAT(types_part, TPART)(Ent const * & e) { e = tests; return sizeof tests / sizeof * tests; }
#else
unsigned types_part0(Ent const * &), types_part1(Ent const * &), types_part2(Ent const * &);
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    std::vector< Ent > tests; Ent const * e = 0;
    for (unsigned k = types_part0(e); k; --k) tests.push_back(* e++); for (unsigned k = types_part1(e); k; --k) tests.push_back(* e++); for (unsigned k = types_part2(e); k; --k) tests.push_back(* e++);
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 49979687); Plan p; p.n = int(r.below(9)); p.form = r.below(6); p.read = r.below(20); p.base = r.next() % 1000003; p.abandon = r.chance(20); p.end = r.chance(40) ? 1 + int(r.below(2)) : 0; p.moves = r.chance(40) ? r.below(256) : 0;
        unsigned t = unsigned(i % tests.size());
        vp::begin_case(i, vp::fmt("type %s n=%d form=%u read=%u abandon=%d end=%d", tests[t].name, p.n, p.form, p.read, int(p.abandon), p.end));
        tests[t].f(p);
        vp::end_case(mix(t + p.n * 101 + p.form * 1009 + p.read * 10007 + p.abandon * 100003 + p.end * 200003 + p.moves * 31), p.n > 0, vp::fmt("%s n=%d form=%u read=%u", tests[t].name, p.n, p.form, p.read));
    }
    return vp::finish();
}
#endif
