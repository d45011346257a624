// C07: lifetime conservation of transferred objects, including throwing copy/move constructors.
// Every script is run once without faults to count the construction points, then once per point with a fault there.
#include "vp.hpp"
#include <functional>
#include <memory>
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;

namespace {
struct Reg { std::map< uintptr_t, uint64_t > live; long countdown; bool armed; long ops; long thrown; uint64_t serial; Reg() : countdown(-1), armed(false), ops(0), thrown(0), serial(0) {} };
Reg * R;
struct Boom { uint64_t op; };
void tick() { if ( ! R->armed) return; ++R->ops; if (R->countdown > 0 && --R->countdown == 0) { ++R->thrown; Boom b = { uint64_t(R->ops) }; throw b; } }

// copyable; copy and move may throw
struct F {
    uint64_t id; std::unique_ptr< uint64_t > h; uint32_t magic;
    explicit F(uint64_t i) : id(i), h(new uint64_t(mix(i))), magic(0xfeed) { reg(); }
    F(F const& o) : id(0), magic(0) { o.chk(); tick(); id = o.id; if (o.h) h.reset(new uint64_t(* o.h)); magic = 0xfeed; reg(); }
    F(F && o) : id(0), magic(0) { o.chk(); tick(); id = o.id; h = std::move(o.h); magic = 0xfeed; reg(); }
    F & operator=(F const&) = delete;
    ~F() { chk(); if ( ! R->live.erase((uintptr_t) this)) fail("life.double_destroy", "object destroyed twice"); magic = 0xdead; }
    void reg() { if ( ! R->live.insert(std::make_pair((uintptr_t) this, id)).second) fail("life.dup_construct", "constructed over a live object"); }
    void chk() const { if (magic != 0xfeed || ! R->live.count((uintptr_t) this)) fail("life.use_dead", "operation on a dead object (magic %x)", magic); }
    uint64_t ident() const { return id; }
    bool ok(uint64_t i) const { return magic == 0xfeed && id == i && h && * h == mix(i); }
};
// move-only, move may throw
struct MF {
    F f; explicit MF(uint64_t i) : f(i) {} MF(MF && o) : f(std::move(o.f)) {} MF(MF const&) = delete;
    uint64_t ident() const { return f.id; }
    bool ok(uint64_t i) const { return f.ok(i); }
};
// polymorphic with members before and after, virtual destructor
struct PB { virtual ~PB() {} int pad; PB() : pad(5) {} };
struct PF : PB { F f; std::string s; explicit PF(uint64_t i) : f(i), s("string member long enough for the heap") {} PF(PF const&) = default; PF(PF &&) = default;
    uint64_t ident() const { return f.id; }
    bool ok(uint64_t i) const { return f.ok(i) && s.size() == 38 && pad == 5; } };

template< class T > struct CanCopy { enum { v = 1 }; };
template<> struct CanCopy< MF > { enum { v = 0 }; };

template< class T, class C, bool B > struct Push { // copyable
    static void go(C & c, uint64_t id, unsigned how) {
        R->armed = false;
        switch (how % 4) {
        case 0: { T t(id); R->armed = true; c(t); R->armed = false; if ( ! t.ok(id)) fail("value.lvalue_modified", "lvalue changed"); } break;
        case 1: { T const t(id); R->armed = true; c(t); R->armed = false; if ( ! t.ok(id)) fail("value.lvalue_modified", "const lvalue changed"); } break;
        case 2: { T t(id); R->armed = true; c(std::move(t)); R->armed = false; } break;
        default: { T t(id); R->armed = true; c(T(std::move(t))); R->armed = false; } break;
        }
    }
};
template< class T, class C > struct Push< T, C, false > {
    static void go(C & c, uint64_t id, unsigned) { R->armed = false; T t(id); R->armed = true; c(std::move(t)); R->armed = false; }
};
struct Script { bool pull; int n; std::vector< unsigned > how; std::vector< unsigned > rd; int stop; bool catch_in_body; unsigned take; int body_stop; };

// the id expected by the reader: ids are handed out per attempted push
template< class T, class S > void read(S & s, uint64_t id, unsigned how) {
    R->armed = false;
    if (how % 4 == 0) return;                       // never looked at
    T & r = * begin(s);
    if ( ! r.ok(id)) fail("value.wrong", "read object %llu (contents %s), expected %llu", (unsigned long long) r.ident(), r.ok(r.ident()) ? "intact" : "gone", (unsigned long long) id);
    if (how % 4 == 1) { T const& q = * begin(s); if (& q != & r || ! q.ok(id)) fail("value.wrong", "second dereference differs"); }
    if (how % 4 == 2) { T g(s.get()); if ( ! g.ok(id)) fail("value.wrong", "get()"); }
}

// returns the number of construction points passed
template< class T > long run(Script const& sc, long fault) {
    Reg reg; R = & reg;
    reg.countdown = fault;
    typedef co2::coroutine< T > C;
    long boom_seen = 0; uint64_t cur = 0; bool done = false;
    uint64_t serial = 0; int received = 0, sent = 0;
    if (sc.pull) {
        auto body = [&](typename C::push_type & sink) {
            for (int i = 0; i < sc.n; ++i) {
                uint64_t id = ++serial; cur = id;
                if (sc.catch_in_body) {
                    try { Push< T, typename C::push_type, CanCopy< T >::v >::go(sink, id, sc.how[i]); ++sent; }
                    catch (Boom const&) { reg.armed = false; ++boom_seen; }
                    // a value that could not be stored must not have been received
                } else { Push< T, typename C::push_type, CanCopy< T >::v >::go(sink, id, sc.how[i]); ++sent; }
                reg.armed = false;
            }
            done = true;
        };
        try {
            typename C::pull_type p(body);
            reg.armed = false;
            int k = 0;
            while (p) {
                ++received;
                read< T >(p, cur, sc.rd[k % sc.rd.size()]);
                if (k == sc.stop) break;
                ++k;
                if (sc.take % 3 == 0 && k == 2) { typename C::pull_type q(std::move(p)); if (q && sc.rd[(k - 1) % sc.rd.size()] % 4 != 2) read< T >(q, cur, 1); p = std::move(q); }
                reg.armed = true; p(); reg.armed = false;
            }
        } catch (Boom const&) { reg.armed = false; ++boom_seen; }
    } else {
        bool ended = false;
        auto body = [&](typename C::pull_type & src) {
            int k = 0;
            while (src) {
                reg.armed = false;
                ++received;
                read< T >(src, cur, sc.rd[k % sc.rd.size()]);
                if (++k > sc.body_stop) break;
                reg.armed = true; src(); reg.armed = false;
            }
            ended = true;
        };
        typename C::push_type p(body);
        reg.armed = false;
        for (int i = 0; i < sc.n && p; ++i) {
            uint64_t id = ++serial; uint64_t prev = cur; cur = id;
            try { Push< T, typename C::push_type, CanCopy< T >::v >::go(p, id, sc.how[i]); ++sent; }
            catch (Boom const&) { reg.armed = false; ++boom_seen; cur = prev; if ( ! p) fail("valid.handle", "push-coroutine invalid after the value's constructor threw in the caller"); if (sc.take % 2) break; }
            if (i == sc.stop) break;
            if (sc.take % 3 == 0 && i == 2) { typename C::push_type q(std::move(p)); p = std::move(q); }
        }
        done = ended;
    }
    reg.armed = false;
    if ( ! reg.live.empty()) fail("life.leak", "%zu objects alive after the coroutine is gone (fault at %ld)", reg.live.size(), fault);
    if (reg.thrown != boom_seen) fail("exc.lost", "%ld constructor exceptions thrown, %ld seen", reg.thrown, boom_seen);
    if (sent > received + 1 || (fault < 0 && received < sent)) fail("value.lost", "%d values sent, %d received", sent, received);
    if (fault > 0 && reg.thrown) vp::count("faults_injected");
    vp::count("objects_transferred", uint64_t(received));
    (void) done;
    return reg.ops;
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv);
    vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::begin_case(i, vp::fmt("life seed=%llu", (unsigned long long) a.seed));
        vp::Rng r(mix(a.seed) + i * 977);
        Script s; int type = int(i % 3);
        s.pull = (i / 3) % 2; s.n = r.below(8); s.stop = r.chance(50) ? int(r.below(8)) : 1000; s.catch_in_body = r.chance(50); s.take = r.below(12); s.body_stop = r.chance(60) ? 1000 : int(r.below(6));
        uint64_t h = i % 6;
        for (int k = 0; k < 9; ++k) { s.how.push_back(r.below(4)); s.rd.push_back(r.below(8)); h = mix(h ^ (s.how.back() * 8 + s.rd.back())); }
        h = mix(h + s.n * 100 + s.stop * 3 + s.catch_in_body + s.take * 1009 + s.body_stop * 77);
        long (* f)(Script const&, long) = type == 0 ? & run< F > : type == 1 ? & run< MF > : & run< PF >;
        long n = f(s, -1);
        // every construction point of this script in turn
        for (long k = 1; k <= n; ++k) f(s, k);
        vp::count("construction_points", n);
        vp::end_case(h, s.n > 0, vp::fmt("type=%d %s n=%d stop=%d construction points=%ld (a fault at each)", type, s.pull ? "pull" : "push", s.n, s.stop, n));
    }
    return vp::finish();
}
