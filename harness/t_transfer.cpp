// C01: sequences of values of many payload types, both directions, every way of sending and of reading.
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <limits>
#include <list>
#include <memory>
#include <tuple>
#include <utility>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;

namespace {
// copy / move accounting
struct Ops { long copies, moves; };
Ops ops;
struct Counted {
    uint64_t id; std::unique_ptr< uint64_t > h; char pad[24];
    explicit Counted(uint64_t i) : id(i), h(new uint64_t(mix(i))) { memset(pad, int(i), sizeof pad); }
    Counted(Counted const& o) : id(o.id), h(o.h ? new uint64_t(* o.h) : 0) { memcpy(pad, o.pad, sizeof pad); ++ops.copies; }
    Counted(Counted && o) : id(o.id), h(std::move(o.h)) { memcpy(pad, o.pad, sizeof pad); ++ops.moves; }
    bool ok(uint64_t i) const { return id == i && h && * h == mix(i) && pad[23] == char(i); }
};
struct CopyOnly { // no move constructor: rvalues are copied
    uint64_t id; std::string s;
    explicit CopyOnly(uint64_t i) : id(i), s(i % 60, char('a' + i % 26)) {}
    CopyOnly(CopyOnly const& o) : id(o.id), s(o.s) {}
    CopyOnly & operator=(CopyOnly const&) = delete;
};
struct Amp { uint64_t id; std::string s; explicit Amp(uint64_t i) : id(i), s(std::to_string(mix(i))) {} Amp * operator&() const { return reinterpret_cast< Amp * >(8); } };
struct Sink { template< class X > Sink(X const&) {} };
struct Greedy { // brace-initialisation would choose the wrong constructor
    uint64_t id; int via; explicit Greedy(uint64_t i) : id(i), via(0) {} Greedy(Greedy const&) = default;
    Greedy(std::initializer_list< Sink > l) : id(~0ull), via(int(l.size())) {} };
struct Consts { uint64_t const a; int const b; std::string const s; explicit Consts(uint64_t i) : a(i), b(int(i * 3)), s(std::to_string(i)) {} };
struct Tiny { unsigned char c; };
struct Odd3 { unsigned char c[3]; };
struct Odd17 { unsigned char c[17]; };
struct Big4K { uint64_t w[512]; };
struct Bits { unsigned a : 3; unsigned b : 11; uint64_t c : 47; };
struct B1 { virtual ~B1() {} int x; }; struct B2 { virtual ~B2() {} int y; }; struct VB : virtual B1, B2 { std::string s; uint64_t id; };
struct NoNew { uint64_t id; std::string s; explicit NoNew(uint64_t i) : id(i), s(std::to_string(i) + "-long-enough-for-the-heap-storage") {}
    static void * operator new(std::size_t) = delete; static void * operator new(std::size_t, void *) = delete; };
struct Base0 {}; struct Empty {};
enum En { E0, E1, E2, E3, E4, E5, E6, E7 };
enum class Ec : unsigned char { a, b, c, d };
int f0(int x) { return x + 1; } int f1(int x) { return x + 2; } int f2(int x) { return x + 3; }
struct Mp { int a, b, c; void m0() {} void m1() {} };
struct Self { Self * me; uint64_t id; explicit Self(uint64_t i) : me(this), id(i) {} Self(Self const& o) : me(this), id(o.id) {} };

// operators that mean something else must not matter
struct KeyEq { int key; uint64_t id; std::string s; explicit KeyEq(uint64_t i) : key(7), id(i), s(std::to_string(mix(i))) {} bool operator==(KeyEq const& o) const { return key == o.key; } bool operator!=(KeyEq const& o) const { return key != o.key; } bool operator<(KeyEq const&) const { return false; } };
struct AssignOdd { uint64_t id; std::string s; explicit AssignOdd(uint64_t i) : id(i), s(std::to_string(mix(i))) {} AssignOdd(AssignOdd const&) = default; AssignOdd(AssignOdd &&) = default; AssignOdd & operator=(AssignOdd const&) { return * this; } AssignOdd & operator=(AssignOdd &&) { return * this; } };
struct Falsy { uint64_t id; explicit Falsy(uint64_t i) : id(i) {} explicit operator bool() const { return false; } bool operator!() const { return true; } };
struct PodEq { int key; uint64_t id; bool operator==(PodEq const& o) const { return key == o.key; } };
template< class T > struct Z;
#define SCALAR(T, EXPR, EQ) template<> struct Z< T > { enum { copy = 1 }; static T make(uint64_t i) { (void) i; return EXPR; } static bool eq(T const& t, uint64_t i) { (void) i; T e = make(i); (void) e; (void) t; return EQ; } };
SCALAR(bool, (mix(i) & 1) != 0, t == e)
SCALAR(char, char(mix(i)), t == e)
SCALAR(signed char, (signed char)(mix(i)), t == e)
SCALAR(short, short(mix(i)), t == e)
SCALAR(unsigned short, (unsigned short)(mix(i)), t == e)
SCALAR(int, int(mix(i)), t == e)
SCALAR(unsigned, unsigned(mix(i)), t == e)
SCALAR(long long, (long long)(mix(i)), t == e)
SCALAR(uint64_t, mix(i), t == e)
// floating point, compared bit for bit: the special values (both zeros, infinities, NaN, denormals) often follow one another
template< class T, std::size_t N > struct ZFloat { enum { copy = 1 };
    static T make(uint64_t i) {
        typedef std::numeric_limits< T > L; uint64_t m = mix(i);
        switch (m % 16) { case 0: case 1: return T(0); case 2: case 3: return - T(0); case 4: return L::infinity(); case 5: return - L::infinity(); case 6: case 7: return L::quiet_NaN(); case 8: return L::denorm_min(); case 9: return - L::denorm_min(); case 10: return (L::max)(); case 11: return (L::min)(); }
        return T(int64_t(m)) * T(0.37); }
    static bool eq(T const& t, uint64_t i) { T e = make(i); return memcmp(& t, & e, N) == 0; } };
template<> struct Z< float > : ZFloat< float, sizeof(float) > {};
template<> struct Z< double > : ZFloat< double, sizeof(double) > {};
template<> struct Z< long double > : ZFloat< long double, sizeof(long double) < 10 ? sizeof(long double) : 10 > {}; // the rest is padding
__extension__ typedef __int128 i128;
template<> struct Z< i128 > { enum { copy = 1 }; static i128 make(uint64_t i) { return (i128(mix(i)) << 64) | mix(i + 1); } static bool eq(i128 const& t, uint64_t i) { return t == make(i); } };
SCALAR(En, En(mix(i) % 8), t == e)
SCALAR(Ec, Ec(mix(i) % 4), t == e)
SCALAR(char const *, "abcdefghijklmnopqrstuvwxyz" + mix(i) % 26, t == e)
SCALAR(void *, reinterpret_cast< void * >(mix(i)), t == e)
typedef int (* fptr)(int);
SCALAR(fptr, (mix(i) % 3 == 0 ? f0 : mix(i) % 3 == 1 ? f1 : f2), t == e)
typedef int Mp::* mdp; typedef void (Mp::* mfp)();
SCALAR(mdp, (mix(i) % 3 == 0 ? & Mp::a : mix(i) % 3 == 1 ? & Mp::b : & Mp::c), t == e)
SCALAR(mfp, (mix(i) % 2 ? & Mp::m0 : & Mp::m1), t == e)
SCALAR(std::nullptr_t, nullptr, t == nullptr)
SCALAR(Empty, Empty(), true)
template<> struct Z< Tiny > { enum { copy = 1 }; static Tiny make(uint64_t i) { Tiny t = { (unsigned char)(mix(i)) }; return t; } static bool eq(Tiny const& t, uint64_t i) { return t.c == make(i).c; } };
template< class T, std::size_t N > struct ZBytes { enum { copy = 1 }; static T make(uint64_t i) { T t; unsigned char * p = reinterpret_cast< unsigned char * >(& t); for (std::size_t k = 0; k < N; ++k) p[k] = (unsigned char)(mix(i * 31 + k)); return t; }
    static bool eq(T const& t, uint64_t i) { T e = make(i); return memcmp(& t, & e, N) == 0; } };
template<> struct Z< Odd3 > : ZBytes< Odd3, 3 > {};
template<> struct Z< Odd17 > : ZBytes< Odd17, 17 > {};
template<> struct Z< Big4K > : ZBytes< Big4K, 4096 > {};
typedef std::array< int, 33 > Arr;
template<> struct Z< Arr > : ZBytes< Arr, sizeof(Arr) > {};
template<> struct Z< Bits > { enum { copy = 1 }; static Bits make(uint64_t i) { Bits b; b.a = mix(i); b.b = mix(i + 1); b.c = mix(i + 2); return b; } static bool eq(Bits const& t, uint64_t i) { Bits e = make(i); return t.a == e.a && t.b == e.b && t.c == e.c; } };
SCALAR(std::string, std::string(i % 70, char('a' + mix(i) % 26)) + std::to_string(i), t == e)
typedef std::vector< std::string > VS; typedef std::map< int, std::string > MapT; typedef std::list< int > LI;
SCALAR(VS, VS(1 + i % 4, std::to_string(mix(i))), t == e)
template<> struct Z< MapT > { enum { copy = 1 }; static MapT make(uint64_t i) { MapT m; for (unsigned k = 0; k < i % 5 + 1; ++k) m[int(mix(i + k))] = std::to_string(k); return m; } static bool eq(MapT const& t, uint64_t i) { return t == make(i); } };
SCALAR(LI, LI(1 + i % 3, int(mix(i))), t == e)
template<> struct Z< std::shared_ptr< uint64_t > > { enum { copy = 1 }; static std::shared_ptr< uint64_t > make(uint64_t i) { return std::make_shared< uint64_t >(mix(i)); } static bool eq(std::shared_ptr< uint64_t > const& t, uint64_t i) { return t && * t == mix(i); } };
typedef std::unique_ptr< uint64_t > UP; typedef std::vector< UP > VUP; typedef std::tuple< int, UP, std::string > TUP; typedef std::pair< std::string, double > PSD;
template<> struct Z< UP > { enum { copy = 0 }; static UP make(uint64_t i) { return UP(new uint64_t(mix(i))); } static bool eq(UP const& t, uint64_t i) { return t && * t == mix(i); } };
template<> struct Z< VUP > { enum { copy = 0 }; static VUP make(uint64_t i) { VUP v; for (unsigned k = 0; k < i % 4; ++k) v.push_back(UP(new uint64_t(i + k))); return v; } static bool eq(VUP const& t, uint64_t i) { if (t.size() != i % 4) return false; for (unsigned k = 0; k < t.size(); ++k) if ( ! t[k] || * t[k] != i + k) return false; return true; } };
template<> struct Z< TUP > { enum { copy = 0 }; static TUP make(uint64_t i) { return TUP(int(i), UP(new uint64_t(mix(i))), std::to_string(i)); } static bool eq(TUP const& t, uint64_t i) { return std::get< 0 >(t) == int(i) && std::get< 1 >(t) && * std::get< 1 >(t) == mix(i) && std::get< 2 >(t) == std::to_string(i); } };
SCALAR(PSD, PSD(std::to_string(mix(i)), double(i) / 3), t == e)
typedef std::function< uint64_t(uint64_t) > FnT;
template<> struct Z< FnT > { enum { copy = 1 }; static FnT make(uint64_t i) { std::string cap = std::to_string(i); return [i, cap](uint64_t x) { return mix(i) ^ x ^ cap.size(); }; } static bool eq(FnT const& t, uint64_t i) { return t && t(5) == (mix(i) ^ 5 ^ std::to_string(i).size()); } };
template<> struct Z< std::exception_ptr > { enum { copy = 1 }; static std::exception_ptr make(uint64_t i) { return std::make_exception_ptr(int(i)); } static bool eq(std::exception_ptr const& t, uint64_t i) { if ( ! t) return false; try { std::rethrow_exception(t); } catch (int v) { return v == int(i); } } };
template<> struct Z< Counted > { enum { copy = 1 }; static Counted make(uint64_t i) { return Counted(i); } static bool eq(Counted const& t, uint64_t i) { return t.ok(i); } };
template<> struct Z< CopyOnly > { enum { copy = 1 }; static CopyOnly make(uint64_t i) { return CopyOnly(i); } static bool eq(CopyOnly const& t, uint64_t i) { return t.id == i && t.s.size() == i % 60; } };
template<> struct Z< Amp > { enum { copy = 1 }; static Amp make(uint64_t i) { return Amp(i); } static bool eq(Amp const& t, uint64_t i) { return t.id == i && t.s == std::to_string(mix(i)); } };
template<> struct Z< Greedy > { enum { copy = 1 }; static Greedy make(uint64_t i) { return Greedy(i); } static bool eq(Greedy const& t, uint64_t i) { return t.id == i && t.via == 0; } };
template<> struct Z< Consts > { enum { copy = 1 }; static Consts make(uint64_t i) { return Consts(i); } static bool eq(Consts const& t, uint64_t i) { return t.a == i && t.b == int(i * 3) && t.s == std::to_string(i); } };
template<> struct Z< NoNew > { enum { copy = 1 }; static NoNew make(uint64_t i) { return NoNew(i); } static bool eq(NoNew const& t, uint64_t i) { return t.id == i && t.s == NoNew(i).s; } };
template<> struct Z< KeyEq > { enum { copy = 1 }; static KeyEq make(uint64_t i) { return KeyEq(i); } static bool eq(KeyEq const& t, uint64_t i) { return t.id == i && t.s == std::to_string(mix(i)); } };
template<> struct Z< AssignOdd > { enum { copy = 1 }; static AssignOdd make(uint64_t i) { return AssignOdd(i); } static bool eq(AssignOdd const& t, uint64_t i) { return t.id == i && t.s == std::to_string(mix(i)); } };
template<> struct Z< Falsy > { enum { copy = 1 }; static Falsy make(uint64_t i) { return Falsy(i); } static bool eq(Falsy const& t, uint64_t i) { return t.id == i; } };
template<> struct Z< PodEq > { enum { copy = 1 }; static PodEq make(uint64_t i) { PodEq t = { 3, mix(i) }; return t; } static bool eq(PodEq const& t, uint64_t i) { return t.key == 3 && t.id == mix(i); } };
template<> struct Z< Self > { enum { copy = 1 }; static Self make(uint64_t i) { return Self(i); } static bool eq(Self const& t, uint64_t i) { return t.id == i && t.me == & t; } };
template<> struct Z< VB > { enum { copy = 1 }; static VB make(uint64_t i) { VB v; v.x = int(i); v.y = int(i * 2); v.id = i; v.s = std::to_string(mix(i)); return v; } static bool eq(VB const& t, uint64_t i) { return t.x == int(i) && t.y == int(i * 2) && t.id == i && t.s == std::to_string(mix(i)) && dynamic_cast< VB const * >(static_cast< B2 const * >(& t)) == & t; } };
// a coroutine handle transferred through a coroutine
typedef co2::coroutine< int >::pull_type Handle;
template<> struct Z< Handle > { enum { copy = 0 }; static Handle make(uint64_t i) { return Handle([i](co2::coroutine< int >::push_type & s) { s(int(i)); s(int(i) + 1); }); } static bool eq(Handle const& t, uint64_t) { return bool(t); } };
typedef std::reference_wrapper< uint64_t > RW; uint64_t rwcells[16];
template<> struct Z< RW > { enum { copy = 1 }; static RW make(uint64_t i) { return std::ref(rwcells[i % 16]); } static bool eq(RW const& t, uint64_t i) { return & t.get() == & rwcells[i % 16]; } };
#if __cplusplus >= 201703L
template<> struct Z< std::any > { enum { copy = 1 }; static std::any make(uint64_t i) { if (i % 2) return std::any(int(i)); return std::any(std::to_string(mix(i))); } static bool eq(std::any const& t, uint64_t i) { if (i % 2) { int const * p = std::any_cast< int >(& t); return p && * p == int(i); } std::string const * p = std::any_cast< std::string >(& t); return p && * p == std::to_string(mix(i)); } };
typedef std::variant< int, std::string, UP > Var; typedef std::optional< std::string > Opt;
template<> struct Z< Var > { enum { copy = 0 }; static Var make(uint64_t i) { if (i % 3 == 0) return int(i); if (i % 3 == 1) return std::to_string(i); return UP(new uint64_t(i)); } static bool eq(Var const& t, uint64_t i) { if (t.index() != i % 3) return false; if (i % 3 == 0) return std::get< 0 >(t) == int(i); if (i % 3 == 1) return std::get< 1 >(t) == std::to_string(i); return std::get< 2 >(t) && * std::get< 2 >(t) == i; } };
SCALAR(Opt, i % 3 ? Opt(std::to_string(mix(i))) : Opt(), t == e)
#endif

struct Plan { int n; std::vector< unsigned > how, rd; unsigned consume; uint64_t base; unsigned mv; };

template< class T, int Copy > struct Send {
    template< class S > static void go(S & s, uint64_t id, unsigned how) {
        switch (how % 6) {
        case 0: { T t(Z< T >::make(id)); S & r = s(t); if (std::addressof(r) != std::addressof(s)) fail("control.return_ref", "call does not return its object"); if ( ! Z< T >::eq(t, id)) fail("value.lvalue_modified", "lvalue argument modified"); } break;
        case 1: { T const t(Z< T >::make(id)); ops.copies = 0; s(t); if ( ! Z< T >::eq(t, id)) fail("value.lvalue_modified", "const lvalue argument modified"); } break;
        case 2: { T t(Z< T >::make(id)); ops.copies = ops.moves = 0; s(std::move(t)); } break;
        case 3: s(Z< T >::make(id)); break;
        case 4: { typename S::iterator it = begin(s); T t(Z< T >::make(id)); * it = t; ++it; if ( ! Z< T >::eq(t, id)) fail("value.lvalue_modified", "assigned lvalue modified"); } break;
        default: { T t(Z< T >::make(id)); T const& ct = t; s(ct); if ( ! Z< T >::eq(t, id)) fail("value.lvalue_modified", "lvalue argument modified"); } break;
        }
    }
};
template< class T > struct Send< T, 0 > {
    template< class S > static void go(S & s, uint64_t id, unsigned how) {
        if (how % 2) s(Z< T >::make(id)); else { T t(Z< T >::make(id)); s(std::move(t)); }
    }
};
char const* tn = "";
template< class T > void check(T const& t, uint64_t id, char const* how) { if ( ! Z< T >::eq(t, id)) fail("value.wrong", "%s: %s yields a wrong value (expected the one with id %llu)", tn, how, (unsigned long long) id); }
template< class T, class S > void receive(S & s, uint64_t id, unsigned rd) {
    switch (rd % 5) {
    case 0: { T v(s.get()); check< T >(v, id, "get()"); } break;
    case 1: { T & v = * begin(s); check< T >(v, id, "*begin()"); T & w = * begin(s); check< T >(w, id, "second *begin()"); } break;
    case 2: { check< T >(* begin(s).operator->(), id, "begin()->"); T v(s.get()); check< T >(v, id, "get() after begin()->"); } break;
    case 3: { auto it = begin(s); check< T >(* it, id, "*it"); T v(std::move(* it)); check< T >(v, id, "moved out of *it"); } break;
    default: break;  // never looked at
    }
}
template< class T > uint64_t run(Plan const& p, bool pull) {
    typedef co2::coroutine< T > C; uint64_t h = 0;
    if (pull) {
        int done = 0;
        typename C::pull_type c([&](typename C::push_type & s) { for (int k = 0; k < p.n; ++k) { Send< T, Z< T >::copy >::go(s, p.base + k, p.how[k]); ++done; } });
        int k = 0;
        if (p.consume % 4 == 1) { for (T & v : c) { check< T >(v, p.base + k, "range-for"); h = mix(h + k); ++k; } }
        else if (p.consume % 4 == 2) { for (auto it = begin(c); it != end(c); ++it) { check< T >(* it, p.base + k, "iterator loop"); ++k; } }
        else {
            while (c) {
                if (k >= p.n) fail("value.extra", "%s: a %d-th value arrived, only %d were sent", tn, k + 1, p.n);
                receive< T >(c, p.base + k, p.rd[k]);
                if (int(p.mv % 8) == k) { typename C::pull_type d(std::move(c)); if ( ! d) fail("valid.handle", "moved handle lost its value"); c = std::move(d); }
                ++k; auto & r = c(); if (& r != & c) fail("control.return_ref", "pull call does not return its object");
            }
        }
        if (k != p.n) fail("value.lost", "%s: %d values sent, %d received", tn, p.n, k);
        if (done != p.n) fail("control.incomplete", "function did not run to its end");
        if (c || begin(c) != end(c)) fail("valid.handle", "complete coroutine still valid");
    } else {
        int k = 0; bool ended = false;
        {
            typename C::push_type c([&](typename C::pull_type & s) {
                if (p.consume % 4 == 1) { for (T & v : s) { check< T >(v, p.base + k, "range-for in function"); ++k; if (k == p.n) break; } }
                else while (s) { if (k >= p.n) fail("value.extra", "%s: too many values", tn); receive< T >(s, p.base + k, p.rd[k]); ++k; if (k == p.n) break; s(); }
                ended = true;
            });
            for (int j = 0; j < p.n; ++j) {
                if (k != j) fail("value.lost", "%s: before push %d the function has received %d values", tn, j, k);
                if ( ! c) fail("valid.handle", "push-coroutine complete after %d of %d values", j, p.n);
                Send< T, Z< T >::copy >::go(c, p.base + j, p.how[j]);
                if (int(p.mv % 8) == j) { typename C::push_type d(std::move(c)); c = std::move(d); }
            }
            if (p.n && (bool(c) || ! ended)) fail("valid.handle", "push-coroutine did not complete");
        }
        if (k != p.n) fail("value.lost", "%s: %d values sent, %d received", tn, p.n, k);
    }
    vp::count("values_transferred", p.n);
    return h;
}
// copies and moves of one transferred object
void accounting(Plan const& p, bool pull) {
    typedef co2::coroutine< Counted > C;
    auto sendone = [&](C::push_type & s, uint64_t id, unsigned how) {
        Counted t(id); ops.copies = ops.moves = 0; bool lv = how % 2;
        if (lv) s(t); else s(std::move(t));
        if (lv && ! t.ok(id)) fail("value.lvalue_modified", "lvalue argument modified");
    };
    auto look = [&](C::pull_type & s, uint64_t id, unsigned how) {
        long c = ops.copies; bool lv = how % 2;
        if ( ! lv && c) fail("value.copied", "an rvalue argument was copied %ld times", c);
        Counted & v = * begin(s);
        if ( ! v.ok(id)) fail("value.wrong", "wrong value");
        if (ops.copies != c) fail("value.copied", "dereferencing copies");
        vp::count("accounted_transfers");
    };
    if (pull) {
        C::pull_type c([&](C::push_type & s) { for (int k = 0; k < p.n; ++k) sendone(s, p.base + k, p.how[k]); });
        for (int k = 0; c; ++k, c()) look(c, p.base + k, p.how[k]);
    } else {
        C::push_type c([&](C::pull_type & s) { for (int k = 0; s; ++k, s()) look(s, p.base + k, p.how[k]); });
        for (int k = 0; k < p.n; ++k) sendone(c, p.base + k, p.how[k]);
    }
}
// arguments convertible to T
void converting(Plan const& p, bool pull) {
    typedef co2::coroutine< std::string > C; typedef co2::coroutine< double > D;
    auto expect = [&](int k) { return k % 3 == 0 ? std::string("literal") : k % 3 == 1 ? std::string(k + 20, 'x') : std::string("std string"); };
    auto send = [&](C::push_type & s, int k) { if (k % 3 == 0) s("literal"); else if (k % 3 == 1) s({ std::string(k + 20, 'x') }); else { char const * q = "std string"; s(q); } };
    if (pull) {
        C::pull_type c([&](C::push_type & s) { for (int k = 0; k < p.n; ++k) send(s, k); });
        int k = 0; for (std::string & v : c) { if (v != expect(k)) fail("value.wrong", "converted value"); ++k; }
        if (k != p.n) fail("value.lost", "converted values");
        D::pull_type d([&](D::push_type & s) { for (int j = 0; j < p.n; ++j) s(j); }); k = 0; for (double v : d) { if (v != k) fail("value.wrong", "int to double"); ++k; }
        if (k != p.n) fail("value.lost", "int to double");
    } else {
        int k = 0; C::push_type c([&](C::pull_type & s) { for (std::string & v : s) { if (v != expect(k)) fail("value.wrong", "converted value"); ++k; } });
        for (int j = 0; j < p.n; ++j) send(c, j);
        if (k != p.n) fail("value.lost", "converted values");
    }
}
typedef uint64_t (* runner)(Plan const&, bool);
struct Ent { char const* name; runner f; };
#define ENT(T) { #T, & run< T > }
Ent const zoo[] = { ENT(bool), ENT(char), ENT(signed char), ENT(short), ENT(unsigned short), ENT(int), ENT(unsigned), ENT(long long), ENT(uint64_t), ENT(float), ENT(double), ENT(long double), ENT(i128),
    ENT(En), ENT(Ec), ENT(char const *), ENT(void *), ENT(fptr), ENT(mdp), ENT(mfp), ENT(std::nullptr_t), ENT(Empty), ENT(Tiny), ENT(Odd3), ENT(Odd17), ENT(Big4K), ENT(Arr), ENT(Bits), ENT(std::string),
    ENT(VS), ENT(MapT), ENT(LI), ENT(std::shared_ptr< uint64_t >), ENT(UP), ENT(VUP), ENT(TUP), ENT(PSD), ENT(FnT), ENT(std::exception_ptr), ENT(Counted), ENT(CopyOnly), ENT(Amp), ENT(Greedy), ENT(Consts), ENT(NoNew), ENT(Self), ENT(VB), ENT(Handle), ENT(RW), ENT(KeyEq), ENT(AssignOdd), ENT(Falsy), ENT(PodEq)
#if __cplusplus >= 201703L
    , ENT(std::any), ENT(Var), ENT(Opt)
#endif
};
enum { NZ = sizeof zoo / sizeof zoo[0] };
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 7919);
        Plan p; p.n = r.below(12); p.consume = r.below(8); p.base = r.next() % 100000; p.mv = r.below(16);
        uint64_t h = i % 50021;
        for (int k = 0; k < 12; ++k) { p.how.push_back(r.below(12)); p.rd.push_back(r.below(10)); h = mix(h + p.how.back() * 16 + p.rd.back()); }
        bool pull = r.chance(50); unsigned which = r.below(NZ + 4);
        tn = which < NZ ? zoo[which].name : which < NZ + 2 ? "copy accounting" : "converting";
        vp::begin_case(i, vp::fmt("transfer %s %s n=%d", tn, pull ? "pull" : "push", p.n));
        if (which < NZ) zoo[which].f(p, pull); else if (which < NZ + 2) accounting(p, pull); else converting(p, pull);
        vp::end_case(mix(h + which * 2 + pull), p.n > 1, vp::fmt("%s %s n=%d consume=%u", tn, pull ? "pull" : "push", p.n, p.consume % 4));
    }
    return vp::finish();
}
