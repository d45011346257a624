// Quantities: long sequences, many moves, many handles alive, many lives, deep chains, large values.
// Nothing about a coroutine may depend on how often or how many.
// -DNPART=0..4 instantiates some of the kinds.
#ifdef NPART
#define VP_NO_MAIN 1
#endif
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <stdexcept>

namespace co2 = boost::coroutines2;
namespace {
using vp::fail; using vp::mix;
// ---- payload kinds: value k of a sequence, and whether an object is that value
struct P40 { uint64_t a[5]; };
template< int K > struct Pay;
template<> struct Pay< 0 > { typedef uint64_t T; static char const* name() { return "uint64_t"; } static T make(uint64_t k) { return mix(k); } static bool is(T const& t, uint64_t k) { return t == mix(k); } };
template<> struct Pay< 1 > { typedef P40 T; static char const* name() { return "struct"; } static T make(uint64_t k) { P40 p; for (int i = 0; i < 5; ++i) p.a[i] = mix(k + i); return p; } static bool is(T const& t, uint64_t k) { for (int i = 0; i < 5; ++i) if (t.a[i] != mix(k + i)) return false; return true; } };
template<> struct Pay< 2 > { typedef std::string T; static char const* name() { return "std::string"; } static T make(uint64_t k) { return std::to_string(k) + (k % 3 ? "" : std::string(40, char('a' + k % 20))); } static bool is(T const& t, uint64_t k) { return t == make(k); } };
template<> struct Pay< 3 > { typedef std::unique_ptr< uint64_t > T; static char const* name() { return "unique_ptr"; } static T make(uint64_t k) { return T(new uint64_t(mix(k))); } static bool is(T const& t, uint64_t k) { return t && * t == mix(k); } };
template<> struct Pay< 4 > { typedef uint64_t * T; static char const* name() { return "pointer"; } static uint64_t pool[256]; static T make(uint64_t k) { return pool + mix(k) % 256; } static bool is(T const& t, uint64_t k) { return t == pool + mix(k) % 256; } };
uint64_t Pay< 4 >::pool[256];
template<> struct Pay< 5 > { typedef char T; static char const* name() { return "char"; } static T make(uint64_t k) { return char(mix(k)); } static bool is(T const& t, uint64_t k) { return t == char(mix(k)); } };
enum { NPay = 6 };
template< int K > struct Val {
    typedef Pay< K > Y; typedef typename Y::T T; typedef co2::coroutine< T > C; typedef typename C::pull_type L; typedef typename C::push_type S;
    static char const* name() { return Y::name(); }
    static void send(S & s, uint64_t k, std::true_type) { if (k % 5 == 1) { T t(Y::make(k)); s(t); if ( ! Y::is(t, k)) fail("value.modified", "lvalue argument changed by transfer %llu", (unsigned long long) k); } else if (k % 5 == 2) { typename S::iterator i = begin(s); * i = Y::make(k); } else s(Y::make(k)); }
    static void send(S & s, uint64_t k, std::false_type) { if (k % 2) { T t(Y::make(k)); s(std::move(t)); } else s(Y::make(k)); }
    static void send(S & s, uint64_t k) { send(s, k, std::is_copy_constructible< T >()); }
    static bool got(L & l, uint64_t k) { switch (k % 4) { case 0: return Y::is(* l.begin(), k); case 1: { T t(l.get()); return Y::is(t, k); } default: return Y::is(* begin(l), k); } }
    static void next(L & l, uint64_t k) { if (k % 3 == 0) { typename L::iterator i = begin(l); ++i; } else if (k % 7 == 0) { typename L::iterator i = begin(l); i++; } else l(); }
    static bool end(L & l) { return begin(l) == l.end(); }
    static bool pend(S & s) { using co2::detail::end; return begin(s) == end(s); }
};
template< bool Const > struct Ref {
    typedef typename std::conditional< Const, uint64_t const &, uint64_t & >::type T; typedef co2::coroutine< T > C; typedef typename C::pull_type L; typedef typename C::push_type S;
    static char const* name() { return Const ? "T const&" : "T&"; }
    static uint64_t pool[512];
    static T at(uint64_t k) { return pool[mix(k * 2 + Const) % 512]; }
    static void send(S & s, uint64_t k) { if (k % 4 == 2) { typename S::iterator i = begin(s); * i = at(k); } else s(at(k)); }
    static bool got(L & l, uint64_t k) { return (k % 3 ? & l.get() : & * l.begin()) == & at(k); }
    static void next(L & l, uint64_t k) { if (k % 3 == 0) { typename L::iterator i = begin(l); ++i; } else if (k % 7 == 0) { typename L::iterator i = begin(l); i++; } else l(); }
    static bool end(L & l) { return begin(l) == l.end(); }
    static bool pend(S & s) { using co2::detail::end; return begin(s) == end(s); }
};
template< bool Const > uint64_t Ref< Const >::pool[512];
struct Nil {
    typedef co2::coroutine< void > C; typedef C::pull_type L; typedef C::push_type S;
    static char const* name() { return "void"; }
    static void send(S & s, uint64_t) { s(); }
    static bool got(L &, uint64_t) { return true; }
    static void next(L & l, uint64_t) { l(); }
    static bool end(L & l) { return ! l; }
    static bool pend(S & s) { return ! s; }
};
struct Thrown { uint64_t k; };

// ---- one coroutine, n transfers
struct Lives { static long & n() { static long x = 0; return x; } Lives() { ++n(); } Lives(Lives const&) { ++n(); } ~Lives() { --n(); } };
template< class X, class L > void expect(L & l, bool e, uint64_t k, uint64_t n) { if (bool(l) != e || ! l == e) fail("valid.handle", "%s: handle tests %d after %llu of %llu transfers", X::name(), int(bool(l)), (unsigned long long) k, (unsigned long long) n); }
template< class X > struct Work {
    typedef typename X::L L; typedef typename X::S S;
    static L pull(uint64_t n, uint64_t base, uint64_t * at, bool thr, bool) { return L([n, base, at, thr](S & s) { Lives g; for (uint64_t k = 0; k < n; ++k) { * at = k; expect< X >(s, true, k, n); X::send(s, base + k); if (* at != k + 1000000000ull) fail("control.back", "%s: transfer %llu resumed out of order", X::name(), (unsigned long long) k); } * at = n; if (thr) throw Thrown{ base }; }); }
    // the consumer of a push-coroutine
    static S push(uint64_t n, uint64_t base, uint64_t * at, bool thr) { return S([n, base, at, thr](L & l) { Lives g; for (uint64_t k = 0; k < n; ++k) { expect< X >(l, true, k, n); if ( ! X::got(l, base + k)) fail("value.wrong", "push %s: value %llu of %llu differs", X::name(), (unsigned long long) k, (unsigned long long) n); * at = k + 1; if (k + 1 < n) X::next(l, k); } if (thr) throw Thrown{ base }; }); }
    static bool step(L & l, uint64_t k, uint64_t * at, bool thr, uint64_t n, uint64_t base) {
        * at = k + 1000000000ull;
        try { X::next(l, k); } catch (Thrown const& t) { if ( ! thr || k + 1 != n || t.k != base) fail("exc.wrong", "pull %s: exception after %llu of %llu", X::name(), (unsigned long long) k, (unsigned long long) n); return true; }
        if (k + 1 == n && thr) fail("exc.lost", "pull %s: no exception after %llu values", X::name(), (unsigned long long) n);
        return true;
    }
    static void give(S & s, uint64_t k, bool thr, uint64_t n, uint64_t base) {
        try { X::send(s, base + k); } catch (Thrown const& t) { if ( ! thr || k + 1 != n || t.k != base) fail("exc.wrong", "push %s: exception after %llu of %llu", X::name(), (unsigned long long) k, (unsigned long long) n); return; }
        if (k + 1 == n && thr) fail("exc.lost", "push %s: no exception after %llu values", X::name(), (unsigned long long) n);
    }
    static void sequence(vp::Rng & r, uint64_t n, bool moves) {
        uint64_t base = r.next() >> 8, at = 0; bool thr = r.chance(30);
        { L l(pull(n, base, & at, thr, false)); std::unique_ptr< L > o;
          for (uint64_t k = 0; k < n; ++k) {
              expect< X >(l, true, k, n); if (X::end(l)) fail("iter.pull_end", "pull %s: begin()==end() after %llu of %llu", X::name(), (unsigned long long) k, (unsigned long long) n);
              if (at != k) fail("control.point", "pull %s: function at %llu, expected %llu", X::name(), (unsigned long long) at, (unsigned long long) k);
              if ( ! X::got(l, base + k)) fail("value.wrong", "pull %s: value %llu of %llu differs", X::name(), (unsigned long long) k, (unsigned long long) n);
              if (moves) { L t(std::move(l)); if (k % 2) { L u(std::move(t)); l = std::move(u); } else l = std::move(t); if (t) fail("move.source", "source of a move is valid"); }
              step(l, k, & at, thr, n, base);
          }
          expect< X >(l, false, n, n); if ( ! X::end(l)) fail("iter.pull_end", "pull %s: begin()!=end() after the last", X::name());
        }
        at = 0;
        { S s(push(n, base, & at, thr));
          for (uint64_t k = 0; k < n; ++k) {
              expect< X >(s, true, k, n); if (X::pend(s)) fail("iter.push_end", "push %s: begin()==end() after %llu of %llu", X::name(), (unsigned long long) k, (unsigned long long) n);
              if (at != k) fail("control.point", "push %s: function at %llu, expected %llu", X::name(), (unsigned long long) at, (unsigned long long) k);
              if (moves) { S t(std::move(s)); if (k % 2) { S u(std::move(t)); s = std::move(u); } else s = std::move(t); if (t) fail("move.source", "source of a move is valid"); }
              give(s, k, thr, n, base);
          }
          expect< X >(s, false, n, n); if ( ! X::pend(s)) fail("iter.push_end", "push %s: begin()!=end() after the last", X::name());
        }
        if (Lives::n()) fail("unwind.leaked", "%ld locals alive", Lives::n());
        vp::count("transfers", 2 * n);
    }
    // many alive at once
    static void crowd(vp::Rng & r, uint64_t m) {
        std::vector< uint64_t > at(2 * m), pos(2 * m); std::vector< L > ls; std::vector< S > ss; uint64_t base = r.next() >> 8; const uint64_t n = 4;
        co2::fixedsize_stack st(VP_SAN ? 64 * 1024 : 16 * 1024);
        for (uint64_t i = 0; i < m; ++i) {
            uint64_t b = base + i * 16, * a = & at[i], * c = & at[m + i];
            ls.push_back(L(st, [b, a, n](S & s) { Lives g; for (uint64_t k = 0; k < n; ++k) { * a = k; X::send(s, b + k); } * a = n; }));
            ss.push_back(S(st, [b, c, n](L & l) { Lives g; for (uint64_t k = 0; k < n; ++k) { if ( ! X::got(l, b + k)) fail("value.wrong", "push %s: value of one of many coroutines differs", X::name()); * c = k + 1; if (k + 1 < n) X::next(l, k); } }));
        }
        for (uint64_t j = 0; j < 4 * m; ++j) {
            uint64_t i = r.next() % m;
            if (r.chance(50)) { if (ls[i]) { if ( ! X::got(ls[i], base + i * 16 + pos[i])) fail("value.wrong", "pull %s: value of one of %llu coroutines differs", X::name(), (unsigned long long) m); X::next(ls[i], pos[i]); ++pos[i]; if (at[i] != pos[i]) fail("control.point", "another coroutine was resumed"); } else if (pos[i] != n) fail("valid.handle", "pull %s: coroutine %llu of %llu became invalid", X::name(), (unsigned long long) i, (unsigned long long) m); }
            else { if (ss[i]) { X::send(ss[i], base + i * 16 + pos[m + i]); ++pos[m + i]; if (at[m + i] != pos[m + i]) fail("control.point", "another coroutine was resumed"); } else if (pos[m + i] != n) fail("valid.handle", "push %s: coroutine became invalid", X::name()); }
        }
        while ( ! ls.empty()) { uint64_t i = r.next() % ls.size(); std::swap(ls[i], ls.back()); ls.pop_back(); }
        while ( ! ss.empty()) { uint64_t i = r.next() % ss.size(); ss[i] = std::move(ss.back()); ss.pop_back(); }
        if (Lives::n()) fail("unwind.leaked", "%ld locals alive", Lives::n());
        vp::count("alive_at_once", 2 * m);
    }
    // many lives one after the other
    static void lives(vp::Rng & r, uint64_t m) {
        uint64_t base = r.next() >> 8, at = 0; unsigned salt = r.below(1000);
        for (uint64_t i = 0; i < m; ++i) {
            uint64_t n = (i * 7 + salt) % 4, stop = (i * 5 + salt) % 5; bool thr = (i + salt) % 3 == 0;
            if (i % 2) {
                try { L l(pull(n, base + i, & at, thr, false)); if (thr && n == 0) fail("exc.lost", "life %llu: constructor swallowed the exception", (unsigned long long) i); for (uint64_t k = 0; k < n && k < stop; ++k) { if ( ! l || ! X::got(l, base + i + k)) fail("value.wrong", "life %llu of pull %s: value differs", (unsigned long long) i, X::name()); step(l, k, & at, thr, n, base + i); } if (bool(l) != (stop < n)) fail("valid.handle", "life %llu: wrong validity", (unsigned long long) i); }
                catch (Thrown const& t) { if ( ! thr || n || t.k != base + i) fail("exc.wrong", "exception out of a constructor"); }
            } else if (n) { at = 0; S s(push(n, base + i, & at, thr)); for (uint64_t k = 0; k < n && k < stop; ++k) give(s, k, thr, n, base + i); if (bool(s) != (stop < n)) fail("valid.handle", "life %llu: wrong validity", (unsigned long long) i); if (at != std::min(n, stop)) fail("control.point", "wrong number of steps"); }
        }
        if (Lives::n()) fail("unwind.leaked", "%ld locals alive", Lives::n());
        vp::count("lives", m);
    }
    // a chain of m coroutines, each driving the next; abandoned or completed or broken by an exception from the innermost
    static void relay(S & s, uint64_t d, uint64_t n, uint64_t base, bool thr) {
        Lives g;
        if (d == 0) { for (uint64_t k = 0; k < n; ++k) X::send(s, base + k); if (thr) throw Thrown{ base }; return; }
        L l(co2::fixedsize_stack(VP_SAN ? 128 * 1024 : 32 * 1024), [d, n, base, thr](S & o) { relay(o, d - 1, n, base, thr); });
        for (uint64_t k = 0; l; ++k) { if ( ! X::got(l, base + k)) fail("value.wrong", "chain of %s: value %llu differs", X::name(), (unsigned long long) k); X::send(s, base + k); X::next(l, k); }
    }
    static void chain(vp::Rng & r, uint64_t m) {
        uint64_t n = 1 + r.below(4), base = r.next() >> 8, stop = r.below(6), k = 0; bool thr = r.chance(40), got = false;
        {
            L l(co2::fixedsize_stack(VP_SAN ? 128 * 1024 : 32 * 1024), [m, n, base, thr](S & o) { relay(o, m, n, base, thr); });
            try { for (; l && k < stop; ++k) { if ( ! X::got(l, base + k)) fail("value.wrong", "chain of %s: value %llu differs", X::name(), (unsigned long long) k); X::next(l, k); } }
            catch (Thrown const& t) { got = true; if ( ! thr || t.k != base || k + 1 != n) fail("exc.wrong", "chain: wrong exception"); }
            if (got != (thr && stop >= n)) fail("exc.lost", "chain of %llu: exception seen %d", (unsigned long long) m, int(got));
            if ( ! got && k != std::min(stop, n)) fail("value.count", "chain of %llu delivered %llu of %llu values", (unsigned long long) m, (unsigned long long) k, (unsigned long long) n);
        }
        if (Lives::n()) fail("unwind.leaked", "%ld locals of a chain alive", Lives::n());
        vp::count("chain_links", m);
    }
};
// ---- values of many sizes
template< std::size_t N > struct Sized {
    typedef std::array< unsigned char, N > T; typedef co2::coroutine< T > C;
    static void fill(T & t, uint64_t k) { vp::Rng r(k); for (std::size_t i = 0; i < N; ++i) t[i] = (unsigned char) (mix(k + i / 8) >> (i % 8 * 8)); (void) r; }
    static bool is(T const& t, uint64_t k) { for (std::size_t i = 0; i < N; ++i) if (t[i] != (unsigned char) (mix(k + i / 8) >> (i % 8 * 8))) return false; return true; }
    static void go(vp::Rng & r) {
        uint64_t base = r.next(); int n = 3;
        co2::fixedsize_stack st(256 * 1024 + 8 * N);
        { typename C::pull_type l(st, [base, n](typename C::push_type & s) { for (int k = 0; k < n; ++k) { T t; fill(t, base + k); if (k % 2) s(t); else s(std::move(t)); } });
          for (int k = 0; k < n; ++k) { if ( ! l || ! is(* l.begin(), base + k)) fail("value.wrong", "pull: value of %zu bytes differs", N); T t = l.get(); if ( ! is(t, base + k)) fail("value.wrong", "pull: copy of %zu bytes differs", N); l(); } if (l) fail("valid.handle", "valid after the last value"); }
        { int seen = 0; typename C::push_type s(st, [base, n, & seen](typename C::pull_type & l) { for (int k = 0; k < n; ++k) { if ( ! is(* begin(l), base + k)) fail("value.wrong", "push: value of %zu bytes differs", N); ++seen; l(); } });
          for (int k = 0; k < n; ++k) { T t; fill(t, base + k); if (k % 2) s(t); else s(std::move(t)); } if (seen != n) fail("control.point", "values consumed: %d", seen); }
    }
};
template< std::size_t... N > struct SizeList { static void go(vp::Rng & r) { int x[] = { (Sized< N >::go(r), 0)... }; (void) x; vp::count("sizes", sizeof...(N)); } };
template< class X > void run(vp::Rng & r, int dim, uint64_t n) {
    switch (dim) { case 0: case 1: Work< X >::sequence(r, n, dim == 1); break; case 2: Work< X >::crowd(r, n); break; case 3: Work< X >::lives(r, n); break; default: Work< X >::chain(r, n); break; }
}
}
#ifdef NPART
#define NP_CAT2(a, b) a##b
#define NP_CAT(a, b) NP_CAT2(a, b)
void NP_CAT(counts_part, NPART)(vp::Rng & r, int kind, int dim, uint64_t n) {
#if NPART < 3
    if (kind % 2 == 0) run< Val< NPART * 2 > >(r, dim, n); else run< Val< NPART * 2 + 1 > >(r, dim, n);
#elif NPART == 3
    if (kind == 6) run< Ref< false > >(r, dim, n); else if (kind == 7) run< Ref< true > >(r, dim, n); else run< Nil >(r, dim, n);
#else
    (void) kind; (void) dim; (void) n;
    SizeList< 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 1024, 2048, 4095, 4096, 4097, 10000, 65536 >::go(r);
#endif
}
#else
void counts_part0(vp::Rng &, int, int, uint64_t); void counts_part1(vp::Rng &, int, int, uint64_t); void counts_part2(vp::Rng &, int, int, uint64_t); void counts_part3(vp::Rng &, int, int, uint64_t); void counts_part4(vp::Rng &, int, int, uint64_t);
// ---- as many transfers through one handle as a 32 bit counter can(not) count; the case reports its progress so that it is not taken for a hang
struct Far {
    uint64_t i, n; char const * what;
    void beat(uint64_t k) { if ((k & 0xffffff) == 0) vp::begin_case(i, vp::fmt("%llu transfers, %s: %llu", (unsigned long long) n, what, (unsigned long long) k)); }
    void bad(char const* code, uint64_t k) { fail(code, "%s: transfer %llu of %llu", what, (unsigned long long) k, (unsigned long long) n); }
};
void far(uint64_t i, uint64_t n) {
    Far f = { i, n, "" }; static uint64_t cells[256]; uint64_t at = 0, seen = 0; bool in = true;
    switch (i % 6) {
    case 0: { typedef co2::coroutine< uint64_t > C; f.what = "pull int";
        C::pull_type p([&](C::push_type & s) { for (uint64_t k = 0; k < n; ++k) { at = k; if ( ! s) in = false; s(k); } });
        for (uint64_t k = 0; k < n; ++k) { f.beat(k); if ( ! p || ! in) f.bad("valid.handle", k); if (at != k) f.bad("control.position", k); if (p.get() != k) f.bad("value.wrong", k); p(); } if (p) f.bad("valid.handle", n); } break;
    case 1: { typedef co2::coroutine< uint64_t > C; f.what = "push int";
        C::push_type p([&](C::pull_type & s) { for (uint64_t k = 0; k < n; ++k) { if ( ! s) in = false; seen = s.get(); at = k; if (k + 1 < n) s(); } });
        for (uint64_t k = 0; k < n; ++k) { f.beat(k); if ( ! p || ! in) f.bad("valid.handle", k); p(k); if (at != k) f.bad("control.position", k); if (seen != k) f.bad("value.wrong", k); } if (p) f.bad("valid.handle", n); } break;
    case 2: { typedef co2::coroutine< uint64_t & > C; f.what = "pull T&";
        C::pull_type p([&](C::push_type & s) { for (uint64_t k = 0; k < n; ++k) { at = k; if ( ! s) in = false; s(cells[k % 251]); } });
        for (uint64_t k = 0; k < n; ++k) { f.beat(k); if ( ! p || ! in) f.bad("valid.handle", k); if (at != k) f.bad("control.position", k); if (& p.get() != cells + k % 251) f.bad("ref.wrong", k); p(); } if (p) f.bad("valid.handle", n); } break;
    case 3: { typedef co2::coroutine< uint64_t & > C; f.what = "push T&"; uint64_t * who = 0;
        C::push_type p([&](C::pull_type & s) { for (uint64_t k = 0; k < n; ++k) { if ( ! s) in = false; who = & s.get(); at = k; if (k + 1 < n) s(); } });
        for (uint64_t k = 0; k < n; ++k) { f.beat(k); if ( ! p || ! in) f.bad("valid.handle", k); p(cells[k % 251]); if (at != k) f.bad("control.position", k); if (who != cells + k % 251) f.bad("ref.wrong", k); } if (p) f.bad("valid.handle", n); } break;
    case 4: { typedef co2::coroutine< void > C; f.what = "pull void";
        C::pull_type p([&](C::push_type & s) { for (uint64_t k = 0; k < n; ++k) { at = k; if ( ! s) in = false; s(); } });
        for (uint64_t k = 0; k < n; ++k) { f.beat(k); if ( ! p || ! in) f.bad("valid.handle", k); if (at != k) f.bad("control.position", k); p(); } if (p) f.bad("valid.handle", n); } break;
    default: { typedef co2::coroutine< void > C; f.what = "push void";
        C::push_type p([&](C::pull_type & s) { for (uint64_t k = 0; k < n; ++k) { at = k; if (k + 1 < n) s(); } (void) s; });
        for (uint64_t k = 0; k < n; ++k) { f.beat(k); if ( ! p) f.bad("valid.handle", k); p(); if (at != k) f.bad("control.position", k); } if (p) f.bad("valid.handle", n); } break;
    }
    vp::count("transfers", long(n));
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a; bool deep = a.mode == "deep";
    if (a.mode == "far" || a.mode == "farther") {
        for (uint64_t i = a.first; i < a.first + a.count; ++i) { uint64_t n = a.mode == "far" ? (1ull << 24) + 300 : (1ull << 32) + 70000; vp::begin_case(i, "far"); far(i, n); vp::end_case(mix(i * 77 + n), true, vp::fmt("%llu transfers through one handle", (unsigned long long) n)); }
        return vp::finish();
    }
    static char const* dims[] = { "long sequence", "sequence with moves", "many alive", "many lives", "long chain", "value sizes" };
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 15485863);
        int dim = int(i % 6), kind = int(i / 6 % 9); uint64_t n = 0; unsigned round = unsigned(i / 54);
        static uint64_t const edge[] = { 255, 256, 257, 65535, 65536, 65537 };
        switch (dim) {
        case 0: n = round % 3 == 0 ? 66000 + r.below(3000) : round % 3 == 1 ? edge[r.below(6)] : 1 + r.below(1 << (4 + r.below(13))); break;
        case 1: n = round % 4 == 0 ? 66000 + r.below(3000) : 200 + r.below(1200); break;
        case 2: n = round % 2 ? 1 + r.below(120) : 260 + r.below(500); if (round == 0 && kind % 4 == 0 && ! VP_SAN) n += 4200; if (deep) n = VP_SAN ? n * 4 : 33000 + r.below(4000); break;
        case 3: n = round % 4 == 0 && ! VP_SAN ? 66000 + r.below(3000) : 300 + r.below(1500); break;
        case 4: n = round % 2 ? r.below(40) : 100 + r.below(VP_SAN ? 30 : 220); if (deep && ! VP_SAN) n += 800; break;
        default: n = 0;
        }
        if (VP_SAN && dim < 2 && n > 20000 && ! deep) n = n % 2 ? 300 : 1000 + n % 500;
#ifdef BOOST_USE_VALGRIND
        if (dim < 4) n = n % 700 + 1;
        if (dim == 4) n %= 60;
#endif
        vp::begin_case(i, vp::fmt("counts %s kind=%d n=%llu", dims[dim], kind, (unsigned long long) n));
        if (dim == 5) counts_part4(r, kind, dim, n); else if (kind < 2) counts_part0(r, kind, dim, n); else if (kind < 4) counts_part1(r, kind, dim, n); else if (kind < 6) counts_part2(r, kind, dim, n); else counts_part3(r, kind, dim, n);
        vp::trace(mix(n));
        vp::end_case(mix(uint64_t(dim) * 1000003 + kind * 7919 + n * 131), true, vp::fmt("%s, kind %d, n=%llu", dims[dim], kind, (unsigned long long) n));
    }
    return vp::finish();
}
#endif
