// C19: coroutines on the provided stack allocators: sizes, guard page, pool reuse and lifetime, growth, release.
#include "vp.hpp"
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
namespace {
enum { SLACK = 12 * 1024 };   // control block, context record, entry frames, dig's last frame
long heap_now() {
#ifdef VP_ASAN
    return long(__sanitizer_get_current_allocated_bytes());
#else
    struct mallinfo2 m = mallinfo2(); return long(m.uordblks + m.hblkhd);
#endif
}
struct Map { uintptr_t lo, hi; std::string perm; };
std::vector< Map > maps() { std::vector< Map > v; std::ifstream f("/proc/self/maps"); std::string l; while (std::getline(f, l)) { Map m; char p[8] = { 0 }; unsigned long a, b; if (sscanf(l.c_str(), "%lx-%lx %7s", & a, & b, p) == 3) { m.lo = a; m.hi = b; m.perm = p; v.push_back(m); } } return v; }
// rw range containing x (adjacent rw mappings joined) and the mapping just below it
bool around(uintptr_t x, uintptr_t & lo, uintptr_t & hi, Map & below) { std::vector< Map > v = maps(); for (std::size_t i = 0; i < v.size(); ++i) if (v[i].lo <= x && x < v[i].hi) { std::size_t j = i; while (j > 0 && v[j - 1].hi == v[j].lo && v[j - 1].perm == v[i].perm) --j; lo = v[j].lo; hi = v[i].hi; below = j > 0 ? v[j - 1] : Map(); return true; } return false; }
// recurse until a frame lies below `limit`; every frame's contents are verified on the way back
__attribute__((noinline)) std::size_t dig(uintptr_t limit, int tag, std::function< void() > const* bottom) {
    unsigned char b[512]; for (int i = 0; i < 512; ++i) b[i] = (unsigned char) (tag * 13 + i); vp::opaque(b);
    std::size_t n = 1; if ((uintptr_t) b > limit) n += dig(limit, tag + 1, bottom); else if (bottom) (* bottom)();
    vp::opaque(b); for (int i = 0; i < 512; ++i) if (b[i] != (unsigned char) (tag * 13 + i)) fail("stack.frames", "frame %d damaged", tag);
    return n;
}
__attribute__((noinline)) uintptr_t here() { return (uintptr_t) __builtin_frame_address(0); }

struct Boom { int a; };
// one scripted life of a coroutine; body digs `depth` bytes deep and suspends at the bottom
struct Rec { uintptr_t top; bool done; int live; long got; Rec() : top(0), done(false), live(0), got(0) {} };
struct Obj { Rec & r; explicit Obj(Rec & x) : r(x) { ++r.live; } ~Obj() { --r.live; } };
typedef co2::coroutine< std::string > CS; typedef co2::coroutine< long & > CR; typedef co2::coroutine< void > CV;
std::string word(long i) { return std::string(size_t(20 + i % 50), char('a' + i % 26)); }
struct Any { virtual ~Any() {} virtual bool valid() = 0; virtual void go(long i) = 0; virtual void chk(long i) = 0; };
struct APullS : Any { CS::pull_type h; template< class A > APullS(A && a, Rec & r, std::size_t depth, bool thr, int n) : h(std::forward< A >(a), [& r, depth, thr, n](CS::push_type & s) { Obj o(r); r.top = here(); std::function< void() > f([&] { s(word(0)); }); dig(r.top - depth, 1, & f); for (int i = 1; i < n; ++i) { Obj q(r); s(word(i)); } r.done = true; if (thr) throw Boom{ n }; }) {} bool valid() { return bool(h); } void go(long) { h(); } void chk(long i) { if (h.begin()->size() != word(i).size() || * begin(h) != word(i)) fail("value.wrong", "on this allocator"); } };
struct APullR : Any { CR::pull_type h; template< class A > APullR(A && a, Rec & r, std::size_t depth, bool thr, int n) : h(std::forward< A >(a), [& r, depth, thr, n](CR::push_type & s) { Obj o(r); r.top = here(); long v = 0; std::function< void() > f([&] { s(v); }); dig(r.top - depth, 2, & f); for (int i = 1; i < n; ++i) { Obj q(r); v = i; s(v); } r.done = true; if (thr) throw Boom{ n }; }) {} bool valid() { return bool(h); } void go(long) { h(); } void chk(long i) { if (h.get() != i) fail("value.wrong", "on this allocator"); } };
struct APullV : Any { CV::pull_type h; template< class A > APullV(A && a, Rec & r, std::size_t depth, bool thr, int n) : h(std::forward< A >(a), [& r, depth, thr, n](CV::push_type & s) { Obj o(r); r.top = here(); std::function< void() > f([&] { s(); }); dig(r.top - depth, 3, & f); for (int i = 1; i < n; ++i) { Obj q(r); s(); } r.done = true; if (thr) throw Boom{ n }; }) {} bool valid() { return bool(h); } void go(long) { h(); } void chk(long) {} };
struct APushS : Any { CS::push_type h; template< class A > APushS(A && a, Rec & r, std::size_t depth, bool thr, int n) : h(std::forward< A >(a), [& r, depth, thr, n](CS::pull_type & s) { Obj o(r); r.top = here(); long k = 0; std::function< void() > f([&] { if (s.get() != word(k)) fail("value.wrong", "received"); ++k; s(); }); dig(r.top - depth, 4, & f); for (int i = 1; i < n; ++i) { Obj q(r); if (* begin(s) != word(k)) fail("value.wrong", "received"); ++k; s(); } r.done = true; if (thr) throw Boom{ n }; }) {} bool valid() { return bool(h); } void go(long i) { h(word(i)); } void chk(long) {} };
struct APushR : Any { CR::push_type h; long v; template< class A > APushR(A && a, Rec & r, std::size_t depth, bool thr, int n) : h(std::forward< A >(a), [& r, depth, thr, n](CR::pull_type & s) { Obj o(r); r.top = here(); long k = 0; std::function< void() > f([&] { if (s.get() != k) fail("value.wrong", "received"); ++k; s(); }); dig(r.top - depth, 5, & f); for (int i = 1; i < n; ++i) { Obj q(r); if (s.get() != k) fail("value.wrong", "received"); ++k; s(); } r.done = true; if (thr) throw Boom{ n }; }), v(0) {} bool valid() { return bool(h); } void go(long i) { v = i; h(v); } void chk(long) {} };
struct APushV : Any { CV::push_type h; template< class A > APushV(A && a, Rec & r, std::size_t depth, bool thr, int n) : h(std::forward< A >(a), [& r, depth, thr, n](CV::pull_type & s) { Obj o(r); r.top = here(); std::function< void() > f([&] { s(); }); dig(r.top - depth, 6, & f); for (int i = 1; i < n; ++i) { Obj q(r); s(); } r.done = true; if (thr) throw Boom{ n }; }) {} bool valid() { return bool(h); } void go(long) { h(); } void chk(long) {} };
template< class A > std::unique_ptr< Any > mk(int v, A && a, Rec & r, std::size_t depth, bool thr, int n) {
    switch (v) { case 0: return std::unique_ptr< Any >(new APullS(std::forward< A >(a), r, depth, thr, n)); case 1: return std::unique_ptr< Any >(new APullR(std::forward< A >(a), r, depth, thr, n)); case 2: return std::unique_ptr< Any >(new APullV(std::forward< A >(a), r, depth, thr, n)); case 3: return std::unique_ptr< Any >(new APushS(std::forward< A >(a), r, depth, thr, n)); case 4: return std::unique_ptr< Any >(new APushR(std::forward< A >(a), r, depth, thr, n)); default: return std::unique_ptr< Any >(new APushV(std::forward< A >(a), r, depth, thr, n)); }
}
// run a coroutine for up to `steps` resumes, then destroy it; returns the stack position its body saw
uintptr_t life(std::unique_ptr< Any > c, Rec & r, bool pull, bool thr, int n, int steps) {
    int i = 0; // pull: value i is current; push: i values passed
    if (pull) { if ( ! c->valid()) fail("valid.handle", "fresh coroutine"); c->chk(0); }
    bool thrown = false;
    for (int k = 0; k < steps && c->valid(); ++k) { try { if (pull) { c->go(0); ++i; } else { c->go(i); ++i; } } catch (Boom const& b) { thrown = true; if (b.a != n || ! thr) fail("exc.wrong", "contents"); } if (pull && c->valid()) c->chk(i); }
    bool complete = pull ? steps >= n : steps >= n + 1; if (c->valid() == complete || r.done != complete || thrown != (complete && thr)) fail("valid.handle", "after %d resumes of %d", steps, n);
    c.reset(); if (r.live) fail("unwind.lost", "%d locals alive after destruction", r.live);
    return r.top;
}
template< class Mk > void lives(vp::Rng & r, Mk make, std::size_t usable, char const* what) {
    for (int v = 0; v < 6; ++v) { Rec rec; bool thr = r.chance(30); int n = 1 + int(r.below(4)), steps = int(r.below(7)); std::size_t depth = r.chance(50) ? usable - SLACK : r.below(unsigned(usable - SLACK)); life(make(v, rec, depth, thr, n), rec, v < 3, thr, n, steps); vp::count("lives"); vp::count(what); vp::count("bytes_dug", rec.top ? depth : 0); }
}
#if ! defined(BOOST_USE_SEGMENTED_STACKS)
void fixed(vp::Rng & r) {
    std::size_t size = (r.chance(30) ? 512 * 1024 : 48 * 1024) + r.below(400 * 1024); size &= ~std::size_t(15); co2::fixedsize_stack lv(size); bool l = r.chance(50);
    lives(r, [&](int v, Rec & rec, std::size_t d, bool t, int n) { return l ? mk(v, lv, rec, d, t, n) : mk(v, co2::fixedsize_stack(size), rec, d, t, n); }, size, "fixedsize");
    std::size_t def = boost::context::stack_traits::default_size();
    lives(r, [&](int v, Rec & rec, std::size_t d, bool t, int n) { return mk(v, co2::default_stack(), rec, d, t, n); }, def, "default_stack");
    lives(r, [&](int v, Rec & rec, std::size_t d, bool t, int n) { return mk(v, co2::fixedsize_stack(), rec, d, t, n); }, def, "fixedsize_default");
}
void pooled(vp::Rng & r) {
    std::size_t size = (48 * 1024 + r.below(200 * 1024)) & ~15u; std::size_t next = 1 + r.below(8);
    lives(r, [&](int v, Rec & rec, std::size_t d, bool t, int n) { return mk(v, co2::pooled_fixedsize_stack(size, next), rec, d, t, n); }, size, "pooled_own");
    long before = 0;
    for (int round = 0; round < 3; ++round) {
        if (round == 1) before = heap_now();
        co2::pooled_fixedsize_stack * pool = new co2::pooled_fixedsize_stack(size, next); std::vector< void * > plug;
        // sequential use: the stack of the previous coroutine is handed out again although equally sized memory is requested elsewhere
        std::set< uintptr_t > tops; int vv = int(r.below(6)); for (int k = 0; k < 6; ++k) { Rec rec; int n = 1 + int(r.below(3)); tops.insert(life(mk(vv, * pool, rec, 3000, false, n), rec, vv < 3, false, n, 1 + int(r.below(5)))); for (int z = 0; z < 2; ++z) { void * p = malloc(size); memset(p, 0x55, 64); plug.push_back(p); } }
        if (tops.size() != 1) fail("stack.pool", "a pooled allocator with at most one stack in use handed out %zu different ones", tops.size()); vp::count("pool_reuses", 5);
        for (void * p : plug) free(p);
        // concurrent use: disjoint stacks, bounded number; the allocator goes away first
        int n = 2 + int(r.below(8)); std::vector< Rec > recs(n * 3); std::vector< std::unique_ptr< Any > > alive; std::vector< std::pair< int, int > > info; int used = 0; std::set< uintptr_t > all;
        for (int k = 0; k < n; ++k) { int v = int(r.below(6)); alive.push_back(r.chance(50) ? mk(v, * pool, recs[used], r.below(8000), false, 3) : mk(v, co2::pooled_fixedsize_stack(* pool), recs[used], r.below(8000), false, 3)); if (v >= 3) alive.back()->go(0); info.push_back(std::make_pair(v, used)); ++used; }
        for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) { uintptr_t x = recs[a].top, y = recs[b].top; if ((x > y ? x - y : y - x) < size - 6000) fail("stack.pool", "two live coroutines share one pooled stack"); }
        for (auto & i : recs) if (i.top) all.insert(i.top);
        std::size_t bound = std::size_t(n);
        for (int k = 0; k < n * 2; ++k) { std::size_t j = r.below(unsigned(n)); alive[j].reset(); if (recs[info[j].second].live) fail("unwind.lost", "pooled"); int v = int(r.below(6)); alive[j] = mk(v, * pool, recs[used], r.below(8000), false, 3); if (v >= 3) alive[j]->go(0); info[j] = std::make_pair(v, used); ++used; }
        (void) bound; delete pool;
        for (int k = 0; k < n * 4; ++k) { std::size_t j = r.below(unsigned(n)); if ( ! alive[j]) continue; bool pull = info[j].first < 3; if (alive[j]->valid() && ! r.chance(25)) { static long dummy = 0; (void) dummy; if (pull) alive[j]->go(0); else { /* the next value in its sequence */ alive[j]->go(1 + 0 * long(k)); alive[j].reset(); } } else alive[j].reset(); }
        alive.clear(); for (auto & i : recs) if (i.live) fail("unwind.lost", "pooled"); vp::count("pool_rounds");
    }
    long after = heap_now(); if (after - before > long(size / 2)) fail("stack.pool_leak", "%ld bytes of a pool outlive every user", after - before);
}
uintptr_t g_lo; void on_segv(int, siginfo_t * si, void *) { uintptr_t a = (uintptr_t) si->si_addr; _exit(a < g_lo && a >= g_lo - 4096 ? 42 : 44); }
// the stack mapping of the coroutine: at least `size` usable bytes, an inaccessible page below; an overrun in a child process must fault there
template< class A > void guard_case(vp::Rng & r, A && a, std::size_t size) {
    Rec rec; int v = int(r.below(6)); std::unique_ptr< Any > c = mk(v, std::forward< A >(a), rec, 2000, false, 2); if (v >= 3) c->go(0);
    uintptr_t lo = 0, hi = 0; Map below; if ( ! around(rec.top, lo, hi, below)) fail("stack.guard", "stack not mapped");
    if (below.hi != lo || below.perm.compare(0, 3, "---") != 0) fail("stack.guard", "no inaccessible page below a protected stack (%s)", below.perm.c_str());
    if (rec.top - lo + SLACK < size) fail("stack.size", "protected stack of %zu requested bytes has only %zu below its first frame", size, std::size_t(rec.top - lo));
    if (rec.top - lo > size + 3 * 4096) fail("stack.size", "protected stack of %zu requested bytes: guard page is %zu bytes away", size, std::size_t(rec.top - lo));
    int n = (v + int(r.below(5))) % 6; int pfd[2]; if (pipe(pfd)) _exit(3); fflush(stdout); pid_t pid = fork(); if (pid < 0) _exit(3);
    if (pid == 0) {
        static char alt[65536]; stack_t ss; memset(& ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(& ss, 0);
        struct sigaction sa; memset(& sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, & sa, 0); sigaction(SIGBUS, & sa, 0);
        co2::protected_fixedsize_stack al(size); Rec deep; uintptr_t target = 0; std::function< void() > none;
        CV::push_type p(al, [&](CV::pull_type &) { uintptr_t l2 = 0, h2 = 0; Map b2; around(here(), l2, h2, b2); g_lo = l2; (void) target; dig(l2 - 2048, n, 0); _exit(43); });
        p(); _exit(45);
    }
    close(pfd[0]); close(pfd[1]); int st = 0; while (waitpid(pid, & st, 0) < 0) {}
    if ( ! WIFEXITED(st) || WEXITSTATUS(st) != 42) fail("stack.guard", "overrun of a protected stack: child status %x (42 faulted at the guard, 43 ran on, 44 faulted elsewhere)", st);
    vp::count("guard_faults"); c.reset(); if (rec.live) fail("unwind.lost", "protected");
}
void prot(vp::Rng & r) {
    std::size_t size = 40 * 1024 + r.below(300 * 1024);
    lives(r, [&](int v, Rec & rec, std::size_t d, bool t, int n) { return mk(v, co2::protected_fixedsize_stack(size), rec, d, t, n); }, size, "protected");
    { co2::protected_fixedsize_stack a(size); guard_case(r, a, size); }
    guard_case(r, co2::protected_fixedsize_stack(), boost::context::stack_traits::default_size());
    std::size_t m0 = maps().size(); for (int k = 0; k < 40; ++k) { Rec rec; int v = k % 6; int n = 1 + int(r.below(3)); life(mk(v, co2::protected_fixedsize_stack(size), rec, 3000, false, n), rec, v < 3, false, n, int(r.below(5))); }
    std::size_t m1 = maps().size(); if (m1 > m0 + 8) fail("stack.unmap", "%zu mappings before, %zu after 40 coroutines", m0, m1); vp::count("mappings_checked");
}
// nested coroutines each on another kind of allocator
void mixed(vp::Rng & r) {
    co2::pooled_fixedsize_stack pool(64 * 1024); std::vector< int > order; int depth = 2 + int(r.below(10)); long sum = 0;
    struct G { std::vector< int > & o; int d; G(std::vector< int > & x, int y) : o(x), d(y) {} ~G() { o.push_back(d); } };
    std::function< void(int, CR::push_type &) > rec = [&](int d, CR::push_type & s) {
        G g(order, d); long v = d; s(v); if (d == 0) { for (;;) s(v); }
        auto body = [&, d](CR::push_type & t) { rec(d - 1, t); };
        switch (d % 4) { case 0: { CR::pull_type p(pool, body); for (auto & x : p) s(x); } break; case 1: { CR::pull_type p(co2::protected_fixedsize_stack(64 * 1024), body); for (auto & x : p) s(x); } break; case 2: { CR::pull_type p(co2::fixedsize_stack(64 * 1024), body); for (auto & x : p) s(x); } break; default: { CR::pull_type p(body); for (auto & x : p) s(x); } break; }
    };
    { CR::pull_type p(co2::fixedsize_stack(), [&](CR::push_type & s) { rec(depth, s); }); int k = int(r.below(unsigned(depth * 2))); for (int i = 0; i < k; ++i) { sum += p.get(); p(); } if (p.get() != std::max(0, depth - k)) fail("value.wrong", "nest of allocators"); }
    if (int(order.size()) > depth + 1) fail("unwind.twice", "nest"); for (std::size_t i = 1; i < order.size(); ++i) if (order[i] != order[i - 1] + 1) fail("unwind.order", "nest of allocators"); if (order.empty() || order.back() != depth) fail("unwind.lost", "nest of allocators");
    vp::count("nests");
}
// requested sizes far beyond the default: all of it can be used, and more than one such stack at a time
void large(vp::Rng & r) {
    static std::size_t const mb[] = { 1, 2, 3, 5, 8, 12, 17, 24 };
    std::size_t size = (mb[r.below(8)] << 20) + 16 * r.below(60000); int kind = int(r.below(3));
    auto two = [&](std::function< std::unique_ptr< Any >(int, Rec &, std::size_t, int) > make, std::size_t usable) {
        Rec ra, rb; int va = int(r.below(6)), vb = int(r.below(6)); std::size_t da = usable - SLACK, db = r.chance(50) ? usable - SLACK : r.below(unsigned(usable - SLACK));
        std::unique_ptr< Any > a = make(va, ra, da, 2), b = make(vb, rb, db, 2);
        if (va >= 3) a->go(0);
        if (vb >= 3) b->go(0);
        uintptr_t x = ra.top, y = rb.top; if ((x > y ? x - y : y - x) < usable - SLACK) fail("stack.size", "two stacks of %zu requested bytes are %zu bytes apart", size, std::size_t(x > y ? x - y : y - x));
        if (va < 3) a->chk(0);
        if (vb < 3) b->chk(0);
        if (r.chance(50)) { if (va < 3) a->go(0); else a->go(1); }
        b.reset(); a.reset(); if (ra.live || rb.live) fail("unwind.lost", "large stacks"); vp::count("large_stacks", 2); vp::count("bytes_dug", da + db);
    };
    if (kind == 0) { co2::fixedsize_stack a(size); { boost::context::stack_context c = a.allocate(); std::size_t got = c.size; char * lo = (char *) c.sp - got; lo[0] = 1; lo[got / 2] = 2; a.deallocate(c); if (got < size) fail("stack.size", "fixedsize_stack(%zu) allocates %zu bytes", size, got); } two([&](int v, Rec & q, std::size_t d, int n) { return mk(v, a, q, d, false, n); }, size); }
    else if (kind == 1) { co2::protected_fixedsize_stack a(size); two([&](int v, Rec & q, std::size_t d, int n) { return mk(v, a, q, d, false, n); }, size); guard_case(r, a, size); }
    else { co2::pooled_fixedsize_stack a(size, 1); two([&](int v, Rec & q, std::size_t d, int n) { return mk(v, a, q, d, false, n); }, size); }
}
enum { NS = 5 };
void scenario(int s, vp::Rng & r) { switch (s) { case 0: fixed(r); break; case 1: pooled(r); break; case 2: prot(r); break; case 3: large(r); break; default: mixed(r); break; } }
char const* const names[] = { "fixedsize_stack", "pooled_fixedsize_stack", "protected_fixedsize_stack", "large stacks", "mixed allocators" };
#else
static_assert(std::is_same< co2::segmented_stack, boost::context::segmented_stack >::value, "segmented_stack");
// stacks far deeper than the requested size
void seg(vp::Rng & r) {
    std::size_t size = 16 * 1024 + r.below(64 * 1024);
    for (int v = 0; v < 6; ++v) { Rec rec; int n = 1 + int(r.below(3)); bool thr = r.chance(30); std::unique_ptr< Any > c = mk(v, co2::segmented_stack(size), rec, 0, thr, n); life(std::move(c), rec, v < 3, thr, n, int(r.below(6))); vp::count("lives"); }
}
__attribute__((noinline)) long grow(int n, CR::push_type & s, long & v) { unsigned char b[1024]; memset(b, n & 255, sizeof b); vp::opaque(b); long k = n; if (n > 0) k += grow(n - 1, s, v); else s(v); vp::opaque(b); for (unsigned char c : b) if (c != (n & 255)) fail("stack.frames", "segmented frame damaged"); return k; }
void deep(vp::Rng & r) {
    int n = 500 + int(r.below(4000)); long v = 5; Rec rec; long res = 0; auto f = [&](CR::push_type & s) { Obj o(rec); s(v); res = grow(n, s, v); };
    int how = int(r.below(3)); int steps = int(r.below(3)); std::size_t size = 16 * 1024;
    { std::unique_ptr< CR::pull_type > p(how == 0 ? new CR::pull_type(f) : how == 1 ? new CR::pull_type(co2::default_stack(), f) : new CR::pull_type(co2::segmented_stack(size), f)); for (int i = 0; i < steps; ++i) (* p)(); if (steps == 2 && res != long(n) * (n + 1) / 2) fail("value.wrong", "deep recursion"); if (steps < 2 && & p->get() != & v) fail("ref.identity", "deep"); }
    if (rec.live) fail("unwind.lost", "segmented"); vp::count("segmented_frames", steps ? n : 0); vp::count("segmented_lives");
}
enum { NS = 2 };
void scenario(int s, vp::Rng & r) { if (s == 0) seg(r); else deep(r); }
char const* const names[] = { "segmented_stack lives", "segmented_stack growth" };
#endif
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) { vp::Rng r(mix(a.seed) + i * 86028121); int s = int(i % NS); vp::begin_case(i, names[s]); uint64_t h = mix(r.s + s); scenario(s, r); vp::end_case(h, true, names[s]); }
    return vp::finish();
}
