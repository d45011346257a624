// C12: locals, parameters, temporaries, call stacks, registers and the FP environment survive any number of suspensions.
#include "anyco.hpp"
#include <alloca.h>
#include <cfenv>
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>

namespace {
#define NOINL __attribute__((noinline))
#if VP_SAN
enum { MAXD = 60, STK = 1024 * 1024 };
#else
enum { MAXD = 200, STK = 512 * 1024 };
#endif
long switches = 0, frames = 0, maxdepth = 0;

// one execution context: a random call tree, a deterministic function of its seed; suspends through `sw`
struct Ctx { vp::Rng r; std::function< void() > sw; long budget; uint64_t acc; int depth; int limit; explicit Ctx(uint64_t s) : r(s), budget(0), acc(s), depth(0), limit(MAXD) {} };
void yieldpt(Ctx & c) { if (c.budget > 0) { --c.budget; ++switches; c.sw(); } }

struct Obj { uint64_t a; Obj * self; std::string s; uint64_t const tag; explicit Obj(uint64_t x) : a(x), self(this), s(x % 50, 'o'), tag(mix(x)) {} ~Obj() { if (self != this || tag != mix(a)) fail("state.locals", "local object changed"); } Obj(Obj const&) = delete; bool ok(uint64_t x) const { return a == x && self == this && s.size() == x % 50 && tag == mix(x); } };
// a temporary alive across a suspension
struct Temp { uint64_t v; explicit Temp(uint64_t x) : v(x) {} Temp(Temp const&) = delete; ~Temp() { v = 0; } };
uint64_t pass(Ctx & c, Temp const& t, uint64_t x) { yieldpt(c); return t.v + x; }

NOINL uint64_t regs(Ctx & c, uint64_t x) { // many values live across the switch: callee-saved registers and spills
    uint64_t a = mix(x), b = mix(x + 1), d = mix(x + 2), e = mix(x + 3), f = mix(x + 4), g = mix(x + 5), h = mix(x + 6), i = mix(x + 7), j = mix(x + 8), k = mix(x + 9), l = mix(x + 10), m = mix(x + 11);
    double p = double(x % 1000) / 7, q = p * p, s = q + 1.5, t = std::sqrt(s); float u = float(x % 77) / 3; long double w = (long double) x / 13.0L;
    __asm__ __volatile__("" : "+r"(a), "+r"(b), "+r"(d), "+r"(e), "+r"(f), "+r"(g));
    yieldpt(c);
    __asm__ __volatile__("" : "+r"(a), "+r"(b), "+r"(d), "+r"(e), "+r"(f), "+r"(g));
    yieldpt(c);
    if (a != mix(x) || b != mix(x + 1) || d != mix(x + 2) || e != mix(x + 3) || f != mix(x + 4) || g != mix(x + 5)) fail("state.registers", "integer values changed across a suspension");
    if (h != mix(x + 6) || i != mix(x + 7) || j != mix(x + 8) || k != mix(x + 9) || l != mix(x + 10) || m != mix(x + 11)) fail("state.registers", "integer values changed across a suspension");
    double p2 = double(x % 1000) / 7; vp::opaque(p2);
    if (p != p2 || q != p2 * p2 || s != p2 * p2 + 1.5 || t != std::sqrt(s) || u != float(x % 77) / 3 || w != (long double) x / 13.0L) fail("state.registers", "floating-point values changed across a suspension");
    return a ^ d ^ f ^ h ^ j ^ l ^ m;
}
NOINL uint64_t node(Ctx & c, uint64_t p1, uint64_t p2, uint64_t const& byref, std::string byval, double fp) {
    struct D { Ctx & c; explicit D(Ctx & x) : c(x) { ++c.depth; if (c.depth > maxdepth) maxdepth = c.depth; } ~D() { --c.depth; } } dd(c);
    ++frames;
    uint64_t id = c.r.next(), want1 = p1, want2 = p2, wantr = byref; std::string wants = byval; double wantf = fp; uint64_t const * addr = & byref; void * frame = & id; int depth0 = c.depth;
    Obj o(id % 1000);
    unsigned len = 8 + unsigned(id % 200); unsigned char * dyn = (unsigned char *) alloca(len); for (unsigned i = 0; i < len; ++i) dyn[i] = (unsigned char)(mix(id + i));
    uint64_t arr[16]; for (int i = 0; i < 16; ++i) arr[i] = mix(id ^ i);
    std::unique_ptr< Obj > heap(new Obj(id % 777));
    uint64_t res = id;
    int kids = int(c.r.below(4));
    for (int k = 0; k <= kids; ++k) {
        switch (c.r.below(7)) {
        case 0: yieldpt(c); break;
        case 1: { uint64_t x = c.r.next() % 100000; if (pass(c, Temp(x), 3) != x + 3) fail("state.temporary", "temporary destroyed or changed while suspended"); } break;
        case 2: res ^= regs(c, id); break;
        case 3: { Obj in(k + 5); yieldpt(c); if ( ! in.ok(k + 5)) fail("state.locals", "inner local changed"); } break;
        case 4: try { Obj in(id % 91); yieldpt(c); if (c.r.chance(50)) throw id; } catch (uint64_t e) { if (e != id) fail("state.exception", "exception value changed"); } break; // caught; no suspension inside a handler
        default: if (c.depth < c.limit && c.budget > 0) res = mix(res ^ node(c, res, k, arr[k], byval + char('a' + k), fp + k)); else yieldpt(c); break;
        }
        if (p1 != want1 || p2 != want2 || & byref != addr || byref != wantr || byval != wants || fp != wantf) fail("state.params", "parameters changed across a suspension (depth %d)", c.depth);
        if (frame != & id || c.depth != depth0) fail("state.frame", "resumed in another frame");
        for (unsigned i = 0; i < len; ++i) if (dyn[i] != (unsigned char)(mix(id + i))) fail("state.locals", "dynamic array changed");
        for (int i = 0; i < 16; ++i) if (arr[i] != mix(id ^ i)) fail("state.locals", "array changed");
        if ( ! o.ok(id % 1000) || ! heap || ! heap->ok(id % 777)) fail("state.locals", "object changed");
    }
    return mix(res + id);
}
// the same call tree without suspensions gives the reference result
uint64_t reference(uint64_t seed, long budget, int limit) { Ctx c(seed); c.budget = budget; c.limit = limit; c.sw = [] {}; uint64_t z = seed; uint64_t v = 0; for (int i = 0; i < 3; ++i) v = mix(v ^ node(c, seed, 1, z, "root", 0.5)); return v; }
uint64_t whole(Ctx & c, uint64_t seed) { uint64_t z = seed, v = 0; for (int i = 0; i < 3; ++i) v = mix(v ^ node(c, seed, 1, z, "root", 0.5)); return v; }

void trees(vp::Rng & r) {
    int n = 1 + int(r.below(4)); struct One { std::unique_ptr< AllocState > st; std::unique_ptr< AnyCo > co; uint64_t seed, got; long budget; bool done; int limit; }; std::vector< std::unique_ptr< One > > v;
    uint64_t sig = n;
    for (int i = 0; i < n; ++i) {
        std::unique_ptr< One > o(new One()); One * p = o.get(); p->st.reset(new AllocState(STK, r.next())); p->seed = r.next(); p->budget = 5 + r.below(120); p->done = false; p->limit = r.chance(20) ? int(MAXD) : 2 + int(r.below(12)); int var = int(r.below(NVariants)); sig = mix(sig + var + p->seed);
        p->co = make_co(var, [p](AnyPort & q) { Ctx c(p->seed); c.limit = p->limit; c.budget = p->budget; c.sw = [&q] { q.xfer(1); }; p->got = whole(c, p->seed); p->done = true; }, p->st.get());
        v.push_back(std::move(o));
    }
    // the resumer is itself deep inside a call tree when it resumes: its state must survive too
    Ctx me(r.next()); uint64_t ms = me.acc; long mb = 60 + r.below(200); me.budget = mb; me.limit = 8; unsigned turn = 0;
    me.sw = [&] { for (int z = 0; z < n; ++z) { One & o = * v[turn++ % n]; if (o.co->valid()) { o.co->resume(turn); break; } } };
    Ctx * pm = & me; (void) pm;
    me.r = vp::Rng(ms); uint64_t mine = whole(me, ms);
    for (int i = 0; i < n; ++i) { while (v[i]->co->valid()) v[i]->co->resume(1); if ( ! v[i]->done) fail("state.result", "function did not finish"); if (v[i]->got != reference(v[i]->seed, v[i]->budget, v[i]->limit)) fail("state.result", "call tree computed a different result across suspensions"); }
    if (mine != reference(ms, mb, 8)) fail("state.result", "the resumer's call tree computed a different result");
    vp::end_case(sig, switches > 0, vp::fmt("%d call trees, %ld switches so far, deepest %ld", n, switches, maxdepth));
}
NOINL double third(double x) { double y = x; vp::opaque(y); return y / 3.0; }
// the control words of the floating-point units: rounding, flushing of denormals, exception masks, precision
struct Env {
    int round; unsigned csr; unsigned cw;
    static Env some(vp::Rng & r) { static int const modes[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }; Env e; e.round = modes[r.below(4)]; e.csr = (r.chance(40) ? 0x8000u : 0) | (r.chance(40) ? 0x0040u : 0) | (0x1f80u & ~(r.chance(40) ? 0x0200u : 0)); e.cw = 0x3fu & ~(r.chance(40) ? 4u : 0); e.cw |= r.chance(30) ? 0x200u : 0x300u; return e; }
#if (defined(__x86_64__) || defined(__i386__)) && defined(__SSE2__) && ! defined(BOOST_USE_VALGRIND)
    static unsigned getcsr() { return __builtin_ia32_stmxcsr() & 0x9fc0u; }
    static unsigned getcw() { unsigned short w; __asm__ __volatile__("fnstcw %0" : "=m"(w)); return w & 0x033fu; }
    void set() const { fesetround(round); __builtin_ia32_ldmxcsr((__builtin_ia32_stmxcsr() & 0x6000u) | csr); unsigned short w; __asm__ __volatile__("fnstcw %0" : "=m"(w)); w = (unsigned short) ((w & ~0x033fu) | cw); __asm__ __volatile__("fnclex; fldcw %0" : : "m"(w)); }
    void check(char const* who) const { if (fegetround() != round) fail("state.fpenv", "rounding mode of %s is %x, it had set %x", who, fegetround(), round); if (getcsr() != csr) fail("state.fpenv", "SSE control word of %s is %x, it had set %x", who, getcsr(), csr); if (getcw() != cw) fail("state.fpenv", "x87 control word of %s is %x, it had set %x", who, getcw(), cw); }
#else
    void set() const { fesetround(round); }
    void check(char const* who) const { if (fegetround() != round) fail("state.fpenv", "rounding mode of %s is %x, it had set %x", who, fegetround(), round); }
#endif
};
void fpenv(vp::Rng & r) { // every context has its own floating-point environment
#if ! VP_SAN
    int n = 2 + int(r.below(5)); std::vector< std::unique_ptr< AnyCo > > v; uint64_t sig = n; int rounds = 3 + int(r.below(20)); fenv_t old; fegetenv(& old); int oldround = fegetround();
    for (int i = 0; i < n; ++i) { Env m = Env::some(r); int var = int(r.below(NVariants)); sig = mix(sig + m.round + var * 31 + m.csr + m.cw * 65536);
        fesetenv(& old); bool thr = r.chance(20);
        v.push_back(make_co(var, [=](AnyPort & p) { m.set(); double a = third(1.0), b = third(-2.0); for (int k = 0; k < rounds; ++k) { p.xfer(1); m.check("the coroutine"); if (third(1.0) != a || third(-2.0) != b) fail("state.fpenv", "division rounds differently"); } if (thr) { fesetenv(FE_DFL_ENV); throw 1; } })); }
    for (int k = 0; k < rounds * n * 2; ++k) { Env mine = Env::some(r); mine.set(); AnyCo & c = * v[r.below(unsigned(n))]; if (c.valid()) { try { c.resume(1); } catch (int) {} ++switches; mine.check("the resumer"); } if (r.chance(10)) { std::size_t j = r.below(unsigned(n)); std::unique_ptr< AnyCo > t = v[j]->moved(); v[j]->assign(* t); mine.check("the mover"); } }
    Env last = Env::some(r); last.set(); v.clear(); last.check("the destroyer"); fesetenv(& old); if (fegetround() != oldround) fail("state.fpenv", "rounding mode changed by destruction");
    vp::count("fp_environments", n);
    vp::end_case(sig, true, vp::fmt("%d coroutines with their own floating-point environments", n));
#else
    trees(r);
#endif
}
// recursion: suspends at the leaf and on the way back, at every depth
void deep(vp::Rng & r) {
    int depth = MAXD + int(r.below(MAXD)); AllocState st(STK * 2, r.next()); int var = int(r.below(NVariants)); long steps = 0; uint64_t sum = 0;
    std::function< uint64_t(AnyPort &, int, uint64_t) > f = [&](AnyPort & p, int d, uint64_t x) -> uint64_t { char pad[200]; memset(pad, int(d), sizeof pad); vp::opaque(pad); uint64_t mine = mix(x + d); ++steps; if (d % 7 == 3) p.xfer(d + 1); uint64_t s = d == 0 ? 1 : f(p, d - 1, mine); if (d % 5 == 1) p.xfer(d + 1); for (char c : pad) if (c != char(d)) fail("state.locals", "frame %d damaged", d); return s * 31 + mine; };
    uint64_t (* ref)(int, uint64_t) = [](int d, uint64_t x) -> uint64_t { struct R { static uint64_t go(int d, uint64_t x) { uint64_t mine = mix(x + d); uint64_t s = d == 0 ? 1 : go(d - 1, mine); return s * 31 + mine; } }; return R::go(d, x); };
    { std::unique_ptr< AnyCo > c = make_co(var, [&](AnyPort & p) { sum = f(p, depth, 5); }, & st); while (c->valid()) { c->resume(1); ++switches; } }
    if (sum != ref(depth, 5) || steps != depth + 1) fail("state.result", "recursion of depth %d", depth);
    if (depth > maxdepth) maxdepth = depth;
    vp::end_case(mix(depth * 7 + var), true, vp::fmt("%s recursion of depth %d with suspensions at every fifth and seventh frame", vname(var), depth));
}
// recursive traversal through one sink, and through nested coroutines
void tree(vp::Rng & r) {
    struct Node { int v; std::unique_ptr< Node > l, rr; }; int n = 1 + int(r.below(60)); std::unique_ptr< Node > root; std::vector< int > keys;
    for (int i = 0; i < n; ++i) { int k = int(r.below(10000)); keys.push_back(k); std::unique_ptr< Node > * q = & root; while (* q) q = k < (* q)->v ? & (* q)->l : & (* q)->rr; q->reset(new Node()); (* q)->v = k; }
    std::sort(keys.begin(), keys.end()); typedef co2::coroutine< int > C;
    std::function< void(Node *, C::push_type &) > walk = [&](Node * x, C::push_type & s) { if ( ! x) return; walk(x->l.get(), s); s(x->v); walk(x->rr.get(), s); };
    std::vector< int > got; { C::pull_type c([&](C::push_type & s) { walk(root.get(), s); }); for (int x : c) got.push_back(x); } if (got != keys) fail("state.result", "recursive traversal");
    std::function< void(Node *, C::push_type &) > own = [&](Node * x, C::push_type & s) { if ( ! x) return; { C::pull_type c([&](C::push_type & t) { own(x->l.get(), t); }); for (int y : c) s(y); } s(x->v); { C::pull_type c([&](C::push_type & t) { own(x->rr.get(), t); }); for (int y : c) s(y); } };
    if (n <= 20) { got.clear(); C::pull_type c([&](C::push_type & s) { own(root.get(), s); }); for (int x : c) got.push_back(x); if (got != keys) fail("state.result", "traversal by nested coroutines"); }
    vp::count("tree_nodes", n); vp::end_case(mix(n * 3 + keys[0]), n > 1);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 8191); vp::begin_case(i, vp::fmt("state scenario %u", unsigned(i % 8)));
        switch (i % 8) { case 5: fpenv(r); break; case 6: deep(r); break; case 7: tree(r); break; default: trees(r); break; }
        if (Tok::live()) fail("life.leak", "%ld values alive", long(Tok::live()));
    }
    vp::count("switches", switches); vp::count("frames", frames); vp::count("max_depth", maxdepth);
    return vp::finish();
}
