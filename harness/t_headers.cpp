// C18: every public header on its own, in several translation units of one program. -DHPART=n: one translation unit
// with its own set and order of headers; all of them use the same instantiations, and hand handles to each other.
#ifdef HPART
#if HPART == 0
#include <boost/coroutine2/coroutine.hpp>
#elif HPART == 1
#include <boost/coroutine2/fixedsize_stack.hpp>
#include <boost/coroutine2/coroutine.hpp>
#elif HPART == 2
#include <boost/coroutine2/coroutine.hpp>
#include <boost/coroutine2/pooled_fixedsize_stack.hpp>
#elif HPART == 3
#include <boost/coroutine2/protected_fixedsize_stack.hpp>
#include <boost/coroutine2/coroutine.hpp>
#elif HPART == 4
#include <boost/coroutine2/segmented_stack.hpp>
#include <boost/coroutine2/coroutine.hpp>
#else
#include <boost/coroutine2/all.hpp>
#include <boost/coroutine2/all.hpp>
#endif
#include <memory>
#if defined(BOOST_ENABLE_ASSERT_HANDLER)
#include <boost/assert.hpp>
#endif
#define HP_CAT2(a, b) a##b
#define HP_CAT(a, b) HP_CAT2(a, b)
namespace co2 = boost::coroutines2;
namespace {
#if HPART == 1
typedef co2::fixedsize_stack Alloc;
#elif HPART == 2
typedef co2::pooled_fixedsize_stack Alloc;
#elif HPART == 3
typedef co2::protected_fixedsize_stack Alloc;
#elif HPART >= 4
typedef co2::default_stack Alloc;
#endif
struct Mark { int & n; explicit Mark(int & x) : n(x) { ++n; } ~Mark() { --n; } };
struct MyError { int k; };
}
// the sum of what a hand-written loop yields: n values
long HP_CAT(hsum, HPART)(int n, int stop, bool thr, int mode) {
    int marks = 0; long sum = 0;
    try {
        if (mode == 0) { co2::coroutine< int >::pull_type p([&](co2::coroutine< int >::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) s(i + 1); if (thr) throw MyError{ n }; }); for (int i = 0; p && i < stop; ++i) { sum += p.get(); p(); } }
        else if (mode == 1) { co2::coroutine< int >::push_type p([&](co2::coroutine< int >::pull_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { sum += s.get(); if (i + 1 < n) s(); } if (thr) throw MyError{ n }; }); for (int i = 0; i < n && i < stop; ++i) p(i + 1); }
        else if (mode == 2) { int x = 0; co2::coroutine< int & >::pull_type p([&](co2::coroutine< int & >::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { x = i + 1; s(x); } if (thr) throw MyError{ n }; }); for (int i = 0; p && i < stop; ++i) { if (& p.get() == & x) sum += p.get(); p(); } }
        else if (mode == 3) { int x = 0; co2::coroutine< int & >::push_type p([&](co2::coroutine< int & >::pull_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { if (& s.get() == & x) sum += s.get(); if (i + 1 < n) s(); } if (thr) throw MyError{ n }; }); for (int i = 0; i < n && i < stop; ++i) { x = i + 1; p(x); } }
        else if (mode == 4) { co2::coroutine< void >::pull_type p([&](co2::coroutine< void >::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { sum += i + 1; s(); } if (thr) throw MyError{ n }; }); for (int i = 0; p && i + 1 < stop; ++i) p(); }
        else if (mode == 5) { co2::coroutine< void >::push_type p([&](co2::coroutine< void >::pull_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { sum += i + 1; if (i + 1 < n) s(); } if (thr) throw MyError{ n }; }); for (int i = 0; i < n && i < stop; ++i) p(); }
        else if (mode == 6) { co2::asymmetric_coroutine< int >::pull_type p([&](co2::asymmetric_coroutine< int >::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) s(i + 1); if (thr) throw MyError{ n }; }); int i = 0; if (stop) for (auto & v : p) { sum += v; if (++i >= stop) break; } }
        // the other name of the template, every kind of transfer
        else if (mode == 8) { typedef co2::asymmetric_coroutine< int & > C; int x = 0; C::push_type p([&](C::pull_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { if (& s.get() == & x) sum += s.get(); if (i + 1 < n) s(); } if (thr) throw MyError{ n }; }); for (int i = 0; i < n && i < stop; ++i) { x = i + 1; p(x); } }
        else if (mode == 9) { typedef co2::asymmetric_coroutine< long const & > C; long const x[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }; C::pull_type p([&](C::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) s(x[i]); if (thr) throw MyError{ n }; }); for (int i = 0; p && i < stop; ++i) { if (& p.get() == x + i) sum += p.get(); p(); } }
        else if (mode == 10) { typedef co2::asymmetric_coroutine< void > C; C::push_type p([&](C::pull_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { sum += i + 1; if (i + 1 < n) s(); } if (thr) throw MyError{ n }; }); for (int i = 0; i < n && i < stop; ++i) p(); }
        else if (mode == 11) { typedef co2::asymmetric_coroutine< std::unique_ptr< int > > C; C::pull_type p([&](C::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) s(std::unique_ptr< int >(new int(i + 1))); if (thr) throw MyError{ n }; }); for (int i = 0; p && i < stop; ++i) { sum += * p.get(); p(); } }
#if HPART > 0
        else { co2::coroutine< int >::pull_type p(Alloc(), [&](co2::coroutine< int >::push_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) s(i + 1); if (thr) throw MyError{ n }; }); for (int i = 0; p && i < stop; ++i) { sum += p.get(); p(); } }
#else
        else { co2::coroutine< int >::push_type p([&](co2::coroutine< int >::pull_type & s) { Mark m(marks); for (int i = 0; i < n; ++i) { sum += s.get(); if (i + 1 < n) s(); } if (thr) throw MyError{ n }; }); auto it = begin(p); for (int i = 0; i < n && i < stop; ++i) { * it = i + 1; ++it; } }
#endif
    } catch (MyError const& e) { if ( ! thr || e.k != n) return -2; sum += 1000000; }
    if (marks) return -1;
    return sum;
}
// handles begun here, continued elsewhere
co2::coroutine< int >::pull_type HP_CAT(hmake, HPART)(int n) { return co2::coroutine< int >::pull_type([n](co2::coroutine< int >::push_type & s) { for (int i = 0; i < n; ++i) s(i * 3 + HPART); if (n % 2) throw n; }); }
long HP_CAT(huse, HPART)(co2::coroutine< int >::pull_type & p, int k) { long s = 0; try { for (int i = 0; i < k && p; ++i) { s += p.get(); p(); } } catch (int n) { s += 100000 + n; } return s; }
#else
#include "vp.hpp"
namespace co2 = boost::coroutines2;
#define DECL(n) long hsum##n(int, int, bool, int); co2::coroutine< int >::pull_type hmake##n(int); long huse##n(co2::coroutine< int >::pull_type &, int);
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5)
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    static long (* const sum[])(int, int, bool, int) = { hsum0, hsum1, hsum2, hsum3, hsum4, hsum5 };
    static co2::coroutine< int >::pull_type (* const make[])(int) = { hmake0, hmake1, hmake2, hmake3, hmake4, hmake5 };
    static long (* const use[])(co2::coroutine< int >::pull_type &, int) = { huse0, huse1, huse2, huse3, huse4, huse5 };
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(vp::mix(a.seed) + i * 15485867); int part = int(i % 6), mode = int(i / 6 % 12), n = 1 + int(r.below(9)), stop = int(r.below(12)), to = int(r.below(6)); bool thr = r.chance(40);
        vp::begin_case(i, vp::fmt("header set %d, mode %d, n=%d stop=%d thr=%d", part, mode, n, stop, int(thr)));
        long s = sum[part](n, stop, thr, mode), e = 0; int m = stop < n ? stop : n;
        bool void_pull = mode == 4, all = void_pull ? stop > n : mode == 6 ? stop > n : stop >= n;
        if (void_pull) m = stop < 1 ? 1 : m;
        for (int k = 0; k < m; ++k) e += k + 1;
        if (thr && all) e += 1000000;
        if (s != e) vp::fail(s == -1 ? "unwind.leaked" : s == -2 ? "exc.wrong" : "value.wrong", "header set %d, mode %d: %ld, expected %ld", part, mode, s, e);
        co2::coroutine< int >::pull_type p(make[part](n)); int k = int(r.below(5)); long g = use[to](p, k), w = 0; for (int j = 0; j < k && j < n; ++j) w += j * 3 + part; if (k >= n && n % 2) w += 100000 + n;
        if (g != w || bool(p) != (k < n)) vp::fail("value.wrong", "a coroutine begun with header set %d and continued with %d: %ld, expected %ld", part, to, g, w);
        vp::count("cross_unit_handles"); vp::trace(vp::mix(uint64_t(s) * 31 + uint64_t(g)));
        vp::end_case(vp::mix(uint64_t(part) + mode * 8 + n * 128 + stop * 2048 + thr * 65536 + to * 131072 + k * 1048576), true, vp::fmt("headers %d, mode %d", part, mode));
    }
    return vp::finish();
}
#endif
