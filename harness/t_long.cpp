// C21: identical work repeated many times leaves no residue (heap, stacks, objects, mappings).
#include "inst.hpp"
#include <fstream>
#include <malloc.h>
#include <thread>
#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace {
long heap_now() {
#ifdef VP_ASAN
    return long(__sanitizer_get_current_allocated_bytes());
#else
    struct mallinfo2 m = mallinfo2(); return long(m.uordblks + m.hblkhd);
#endif
}
long mappings() { std::ifstream f("/proc/self/maps"); std::string l; long n = 0; while (std::getline(f, l)) ++n; return n; }
typedef co2::coroutine< std::string > CS; typedef co2::coroutine< std::unique_ptr< std::string > > CU; typedef co2::coroutine< std::vector< int > & > CR; typedef co2::coroutine< void > CV;
struct Big { char b[200]; std::string s; explicit Big(int i) : s(std::size_t(i), 'q') { memset(b, i, sizeof b); } };
// ---- the kinds of work; each must leave nothing behind
typedef void (* work)(vp::Rng &);
void w_inst(vp::Rng & r) { std::shared_ptr< AllocState > st(r.chance(50) ? new AllocState(stk(), r.next()) : 0); for (int k = 0; k < 3; ++k) { Inst c(gen(r), st); c.start(); while ( ! c.dead) c.step(); } }
void w_throw(vp::Rng & r) { int n = int(r.below(4)); for (int k = 0; k < 4; ++k) try { switch (k) { case 0: { CS::pull_type p([n](CS::push_type & s) { Big b(9); for (int i = 0; i < n; ++i) s(std::string(40, 'x')); throw Big(100); }); while (p) p(); } break; case 1: { CS::push_type p([n](CS::pull_type & s) { Big b(9); for (int i = 0; i < n; ++i) s(); throw Big(100); }); while (p) p(std::string(50, 'y')); } break; case 2: { CV::pull_type p([n](CV::push_type & s) { for (int i = 0; i < n; ++i) { try { throw Big(20); } catch (Big &) {} s(); } throw std::runtime_error("some longer text that is allocated"); }); while (p) p(); } break; default: { std::vector< int > v(20, 1); CR::push_type p([n](CR::pull_type & s) { for (int i = 0; i < n; ++i) s(); throw 5; }); while (p) p(v); } break; } } catch (Big const&) {} catch (std::exception const&) {} catch (int) {} }
void w_moves(vp::Rng & r) { std::vector< CS::pull_type > v; for (int i = 0; i < 5; ++i) { std::string big(100, char('a' + i)); v.push_back(CS::pull_type([big](CS::push_type & s) { for (;;) s(big); })); } for (int k = 0; k < 12; ++k) { int a = int(r.below(5)), b = int(r.below(5)); if (a != b && v[a] && v[b]) { CS::pull_type t(std::move(v[a])); v[a] = std::move(v[b]); v[b] = std::move(t); } if (v[b]) v[b](); } v[0] = std::move(v[1]); std::vector< CU::push_type > u; for (int i = 0; i < 3; ++i) u.push_back(CU::push_type([](CU::pull_type & s) { while (s) { std::unique_ptr< std::string > x(s.get()); s(); } })); for (int k = 0; k < 6; ++k) { CU::push_type & t = u[r.below(3)]; if (t) t(std::unique_ptr< std::string >(new std::string(80, 'k'))); } u[2] = std::move(u[0]); }
void w_unread(vp::Rng & r) { int n = int(r.below(6)); { CS::pull_type p([](CS::push_type & s) { for (;;) s(std::string(90, 'u')); }); for (int i = 0; i < n; ++i) p(); } { CU::push_type p([](CU::pull_type & s) { for (;;) s(); }); for (int i = 0; i < n; ++i) p(std::unique_ptr< std::string >(new std::string(90, 'v'))); } { CS::push_type p([](CS::pull_type &) {}); if (n % 2) p(std::string(100, 'w')); } }
void w_nest(vp::Rng & r) { int depth = 1 + int(r.below(6)); std::function< void(int, CS::push_type &) > f = [&](int d, CS::push_type & s) { s(std::string(60, 'n')); if (d == 0) return; CS::pull_type p([&, d](CS::push_type & t) { f(d - 1, t); }); for (auto & x : p) s(x); }; CS::pull_type p([&](CS::push_type & s) { f(depth, s); }); int k = int(r.below(10)); for (int i = 0; i < k && p; ++i) p(); }
struct Refuse { typedef boost::context::stack_traits traits_type; boost::context::stack_context allocate() { throw std::bad_alloc(); } void deallocate(boost::context::stack_context &) noexcept {} };
struct Heavy { std::string s; int fail_on; explicit Heavy(int f) : s(200, 'h'), fail_on(f) {} Heavy(Heavy const& o) : s(o.s), fail_on(o.fail_on) { if (fail_on) throw 3; } Heavy(Heavy && o) noexcept : s(std::move(o.s)), fail_on(o.fail_on) {} void operator()(CS::push_type & s_) { s_(s); } void operator()(CS::pull_type & s_) { while (s_) s_(); } };
void w_fail(vp::Rng & r) { for (int k = 0; k < 4; ++k) { Heavy f(int(r.below(2))); Heavy const& c = f; try { CS::pull_type p(c); p(); } catch (int) {} try { CS::push_type p(c); p(std::string(70, 'z')); } catch (int) {} try { CS::pull_type p(Refuse(), c); } catch (std::bad_alloc const&) {} catch (int) {} try { CS::push_type p(Refuse(), Heavy(0)); } catch (std::bad_alloc const&) {} } }
void w_pool(vp::Rng & r) { co2::pooled_fixedsize_stack pool(32 * 1024 * (VP_SAN ? 4 : 1)); { std::vector< CV::pull_type > v; for (int i = 0; i < 4; ++i) v.push_back(CV::pull_type(pool, [](CV::push_type & s) { std::string x(100, 'p'); for (;;) s(); })); for (int i = 0; i < 6; ++i) v[r.below(4)](); } CV::pull_type q(co2::protected_fixedsize_stack(), [](CV::push_type & s) { std::string x(100, 'g'); s(); }); if (r.chance(50)) q(); }
// the same work in threads that end; and coroutines begun, continued and destroyed by different short-lived threads
void w_threads(vp::Rng & r) {
    static work const f[] = { w_throw, w_moves, w_unread, w_nest, w_fail, w_inst };
    uint64_t a = r.next(), b = r.next(); int i = int(r.below(6)), j = int(r.below(6));
    std::thread([=] { vp::Rng q(a); f[i](q); }).join(); std::thread([=] { vp::Rng q(b); f[j](q); w_throw(q); }).join();
    std::unique_ptr< CS::pull_type > p; std::unique_ptr< CR::push_type > h; std::vector< int > v(30, 1); bool boom = r.chance(40);
    std::thread([&] { p.reset(new CS::pull_type([](CS::push_type & s) { for (;;) s(std::string(60, 't')); })); h.reset(new CR::push_type([=](CR::pull_type & s) { for (int k = 0; k < 2; ++k) s(); if (boom) throw Big(30); })); (* h)(v); }).join();
    std::thread([&] { (* p)(); try { (* h)(v); (* h)(v); } catch (Big const&) {} CS::pull_type m(std::move(* p)); m(); * p = std::move(m); }).join();
    if (r.chance(50)) std::thread([&] { p.reset(); h.reset(); }).join();
}
struct Work { char const* n; work f; int cycles; };
Work const works[] = { { "programs", w_inst, 60 }, { "exceptions", w_throw, 400 }, { "moves", w_moves, 200 }, { "unread values", w_unread, 400 }, { "nests", w_nest, 200 }, { "failed constructions", w_fail, 300 }, { "allocators", w_pool, 60 }, { "threads", w_threads, 40 } };
enum { NW = sizeof works / sizeof * works };
// one coroutine that lives long: memory must not grow with the number of transfers
uint64_t marathon(vp::Rng & r, int v, long n) {
    long h1 = 0, h2 = 0, h3 = 0; long i = 0; vp::Rng seed(r.next());
    auto mark = [&] { if (i == n / 3) h1 = heap_now(); if (i == 2 * n / 3) h2 = heap_now(); if (i == n - 1) h3 = heap_now(); };
    switch (v) {
    case 0: { CS::pull_type p([](CS::push_type & s) { std::string t(70, 'm'); for (;;) { s(t); s(std::string(71, 'r')); } }); for (; i < n; ++i) { p(); if (i % 3 == 0) { std::string x = p.get(); vp::opaque(x); } mark(); } } break;
    case 1: { CS::push_type p([](CS::pull_type & s) { for (;;) { if (s.get().empty()) return; s(); } }); std::string t(66, 'l'); for (; i < n; ++i) { if (i % 2) p(t); else p(std::string(77, 'm')); mark(); } } break;
    case 2: { CU::pull_type p([](CU::push_type & s) { for (;;) s(std::unique_ptr< std::string >(new std::string(80, 'o'))); }); for (; i < n; ++i) { p(); if (i % 2) { std::unique_ptr< std::string > x(p.get()); } mark(); } } break;
    case 3: { CV::pull_type p([](CV::push_type & s) { for (;;) { try { throw std::runtime_error(std::string(60, 'e')); } catch (std::runtime_error const&) {} s(); } }); for (; i < n; ++i) { p(); mark(); } } break;
    default: { std::vector< int > w(5, 1); CR::push_type p([](CR::pull_type & s) { for (;;) { std::vector< int > c(s.get()); s(); } }); for (; i < n; ++i) { p(w); CR::push_type q(std::move(p)); p = std::move(q); mark(); } } break;
    }
    if (h3 - h2 > 256 + n / 6 && h2 - h1 > n / 6) fail("residue.transfer", "marathon %d: heap grows with the number of transfers: %ld -> %ld -> %ld bytes over %ld transfers", v, h1, h2, h3, n);
    vp::count("marathon_transfers", n); return mix(v);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); mallopt(M_ARENA_MAX, 1); vp::Args const& a = vp::G().a; int mul = a.mode == "deep" ? 10 : 1; int div = VP_SAN ? 4 : 1;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 49979687);
        if (i % (NW + 1) == NW) { int v = int(r.below(5)); vp::begin_case(i, vp::fmt("marathon %d", v)); long n = 30000L * mul / div; uint64_t h = marathon(r, v, n); vp::end_case(h, true, vp::fmt("one coroutine, %ld transfers (kind %d)", n, v)); continue; }
        Work const& w = works[i % (NW + 1)]; vp::begin_case(i, w.n); int n = w.cycles * mul / div; uint64_t s = r.next();
        // every cycle repeats exactly the same work
        auto cycle = [&] { vp::Rng q(s); for (int k = 0; k < 3; ++k) w.f(q); };
        for (int k = 0; k < n / 4 + 4; ++k) cycle();
        long h0 = heap_now(), m0 = mappings(), t0 = Tok::live();
        for (int k = 0; k < n; ++k) cycle();
        long h1 = heap_now(), m1 = mappings();
        for (int k = 0; k < n; ++k) cycle();
        long h2 = heap_now(), m2 = mappings();
        // a leak shows in every cycle; anything that settles is not one
        if (h2 - h1 >= 8 * n && h1 - h0 >= 8 * n) fail("residue.heap", "%s: heap in use %ld -> %ld -> %ld bytes over two runs of %d identical cycles", w.n, h0, h1, h2, n);
        if (m2 - m1 > n / 2 && m1 - m0 > n / 2) fail("residue.mappings", "%s: %ld -> %ld -> %ld mappings", w.n, m0, m1, m2);
        if (Tok::live() != t0) fail("life.leak", "%ld values alive", long(Tok::live()));
        vp::count("cycles", uint64_t(n) * 2); vp::count((std::string("cycles_") + w.n).c_str(), uint64_t(n) * 2);
        vp::end_case(mix(s), true, vp::fmt("%s: %d identical cycles, heap %ld -> %ld -> %ld", w.n, 2 * n, h0, h1, h2));
    }
    return vp::finish();
}
