// C02: channels of references and pointers: identity, no copy, no slicing, writes visible, in both directions.
#include "vp.hpp"
#include <deque>
#include <functional>
#include <memory>
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;

namespace {
// every class refuses copies, so that a copy made by the library would not even compile; Cp counts them
struct NoCopy { uint64_t tag; uint64_t out, in; NoCopy() : tag(0), out(0), in(0) {} NoCopy(NoCopy const&) = delete; NoCopy & operator=(NoCopy const&) = delete; };
long copies = 0;
struct Cp { uint64_t tag, out, in; Cp() : tag(0), out(0), in(0) {} Cp(Cp const& o) : tag(o.tag), out(o.out), in(o.in) { ++copies; } Cp & operator=(Cp const& o) { tag = o.tag; out = o.out; in = o.in; ++copies; return * this; } };
struct Abs { virtual ~Abs() {} virtual int kind() const = 0; uint64_t tag, out, in; Abs() : tag(0), out(0), in(0) {} };
struct Pad { char p[40]; virtual ~Pad() {} };
struct D1 : Abs { int kind() const { return 1; } std::string s; };
struct D2 : Pad, Abs { int kind() const { return 2; } uint64_t big[8]; };
struct D3 : virtual Abs { int kind() const { return 3; } };
struct Amp { uint64_t tag, out, in; Amp() : tag(0), out(0), in(0) {} Amp * operator&() = delete; Amp const * operator&() const = delete; };
struct alignas(128) Over { uint64_t tag, out, in; Over() : tag(0), out(0), in(0) {} };
struct One { unsigned char tag, out, in; One() : tag(0), out(0), in(0) {} };

// pool of candidate objects in different places: adjacent array elements, heap, sender's stack
template< class O > struct Pool {
    O arr[4]; std::deque< O > dq; std::vector< std::unique_ptr< O > > heap;
    Pool() : dq(4) { for (int i = 0; i < 4; ++i) heap.push_back(std::unique_ptr< O >(new O())); }
    O & at(unsigned i) { i %= 12; return i < 4 ? arr[i] : i < 8 ? dq[i - 4] : * heap[i - 8]; }
};
template<> struct Pool< Abs > { D1 a[2]; D2 b[2]; D3 c[2]; std::unique_ptr< Abs > h[3]; Pool() { h[0].reset(new D1); h[1].reset(new D2); h[2].reset(new D3); }
    Abs & at(unsigned i) { i %= 9; return i < 2 ? static_cast< Abs & >(a[i]) : i < 4 ? b[i - 2] : i < 6 ? c[i - 4] : * h[i - 6]; } };

struct Plan { int n; std::vector< unsigned > pick, rd; unsigned consume; unsigned mv; };

// One value channel of references O& or O const&. Sender writes obj.out before, receiver checks and writes obj.in.
template< class R, class O > struct Chan { // R = O& or O const&
    typedef co2::asymmetric_coroutine< R > C;
    typedef typename std::remove_reference< R >::type Q;
    static void put(Q & r, uint64_t k) { const_cast< O & >(r).in = (unsigned char)(mix(k + 99)); }
    static void see(Q & r, O * want, int k, char const* how) {
        if (std::addressof(r) != static_cast< Q * >(want)) fail("ref.identity", "%s: transfer %d delivers object at %p, sender designated %p", how, k, (void *) std::addressof(r), (void *) want);
        if (r.out != (unsigned char)(mix(k))) fail("ref.identity", "%s: contents of transfer %d", how, k);
    }
    template< class S > static void recv(S & s, O * want, int k, unsigned rd) {
        switch (rd % 4) {
        case 0: see(s.get(), want, k, "get()"); see(s.get(), want, k, "second get()"); break;
        case 1: { auto it = begin(s); see(* it, want, k, "*it"); see(* it.operator->(), want, k, "it->"); see(s.get(), want, k, "get() after *it"); } break;
        case 2: { R r = s.get(); see(r, want, k, "bound get()"); put(r, k); } return;
        default: { typename S::iterator::reference r = * begin(s); see(r, want, k, "*begin()"); } break;
        }
        put(s.get(), k);
    }
    template< class S > static void snd(S & s, O & o, int k, unsigned how) {
        o.out = (unsigned char)(mix(k)); o.in = 0;
        if (how % 3 == 0) { S & q = s(o); if (& q != & s) fail("control.return_ref", "push on references"); }
        else if (how % 3 == 1) { typename S::iterator it = begin(s); * it = o; }
        else { R r = o; s(r); }
        vp::count("references_transferred");
    }
    static void after(O & o, int k, bool must) { if (must && o.in != (unsigned char)(mix(k + 99))) fail("ref.identity", "write of the receiver not visible to the sender (transfer %d)", k); }

    static void run(Plan const& p, bool pull) {
        Pool< O > pool; O * cur = 0; copies = 0;
        if (pull) {
            typename C::pull_type c([&](typename C::push_type & s) {
                for (int k = 0; k < p.n; ++k) { O & o = pool.at(p.pick[k]); cur = std::addressof(o); snd(s, o, k, p.pick[k] / 16); after(o, k, true); }
            });
            int k = 0;
            if (p.consume % 3 == 1) for (Q & r : c) { see(r, cur, k, "range-for"); put(r, k); ++k; }
            else while (c) {
                recv(c, cur, k, p.rd[k]);
                if (int(p.mv % 8) == k) { typename C::pull_type d(std::move(c)); see(d.get(), cur, k, "get() of the moved handle"); c = std::move(d); }
                ++k; c();
            }
            if (k != p.n) fail("value.lost", "%d references sent, %d received", p.n, k);
        } else {
            int k = 0;
            typename C::push_type c([&](typename C::pull_type & s) {
                if (p.consume % 3 == 1) for (Q & r : s) { see(r, cur, k, "range-for"); put(r, k); ++k; }
                else while (s) { recv(s, cur, k, p.rd[k]); ++k; s(); }
            });
            for (int j = 0; j < p.n; ++j) {
                O & o = pool.at(p.pick[j]); cur = std::addressof(o);
                snd(c, o, j, p.pick[j] / 16); after(o, j, true);
                if (k != j + 1) fail("value.lost", "reference %d not received", j);
                if (int(p.mv % 8) == j) { typename C::push_type d(std::move(c)); c = std::move(d); }
            }
        }
        if (copies) fail("value.copied", "%ld copies of a referenced object", copies);
    }
};
// polymorphic identity
void poly(Plan const& p, bool pull) {
    typedef co2::coroutine< Abs & > C; Pool< Abs > pool; Abs * cur = 0; std::type_info const* ti = 0; void * full = 0;
    auto see = [&](Abs & a, int k) {
        if (& a != cur) fail("ref.identity", "polymorphic reference %d: other object", k);
        if (typeid(a) != * ti || dynamic_cast< void * >(& a) != full) fail("ref.identity", "dynamic type lost in transfer %d", k);
        if (ti == & typeid(D2)) { D2 & d = dynamic_cast< D2 & >(a); d.big[7] = k; }
    };
    auto pick = [&](int k) -> Abs & { Abs & a = pool.at(p.pick[k]); cur = & a; ti = & typeid(a); full = dynamic_cast< void * >(& a); return a; };
    if (pull) { C::pull_type c([&](C::push_type & s) { for (int k = 0; k < p.n; ++k) { Abs & a = pick(k); if (D1 * d = dynamic_cast< D1 * >(& a)) s(* d); else if (D2 * e = dynamic_cast< D2 * >(& a)) s(* e); else s(a); } });
        int k = 0; while (c) { see(c.get(), k); see(* begin(c), k); ++k; c(); } if (k != p.n) fail("value.lost", "poly"); }
    else { int k = 0; C::push_type c([&](C::pull_type & s) { while (s) { see(s.get(), k); ++k; s(); } }); for (int j = 0; j < p.n; ++j) { Abs & a = pick(j); if (D2 * e = dynamic_cast< D2 * >(& a)) c(* e); else c(a); } if (k != p.n) fail("value.lost", "poly"); }
    vp::count("references_transferred", p.n);
}
// arrays, function references, volatile, pointers, pointers to pointers
int fa(int x) { return x; } int fb(int x) { return x + 1; } int fc(int x) { return x + 2; }
template< class R, class Pick > void plain(Plan const& p, bool pull, Pick pick) {
    typedef co2::coroutine< R > C; typedef typename std::remove_reference< R >::type Q;
    if (pull) {
        typename C::pull_type c([&](typename C::push_type & s) { for (int k = 0; k < p.n; ++k) s(pick(p.pick[k])); });
        int k = 0; while (c) { Q & q = c.get(); if (std::addressof(q) != std::addressof(pick(p.pick[k]))) fail("ref.identity", "transfer %d", k); ++k; c(); }
        if (k != p.n) fail("value.lost", "plain");
    } else {
        int k = 0; typename C::push_type c([&](typename C::pull_type & s) { while (s) { Q & q = s.get(); if (std::addressof(q) != std::addressof(pick(p.pick[k]))) fail("ref.identity", "transfer %d", k); ++k; s(); } });
        for (int j = 0; j < p.n; ++j) c(pick(p.pick[j]));
        if (k != p.n) fail("value.lost", "plain");
    }
    vp::count("references_transferred", p.n);
}
template< class P, class Pick > void ptrs(Plan const& p, bool pull, Pick pick) {
    typedef co2::asymmetric_coroutine< P > C;
    if (pull) {
        typename C::pull_type c([&](typename C::push_type & s) { for (int k = 0; k < p.n; ++k) { P q = pick(p.pick[k]); if (p.pick[k] % 2) s(q); else s(pick(p.pick[k])); if (q != pick(p.pick[k])) fail("value.lvalue_modified", "pointer"); } });
        int k = 0; for (P & q : c) { if (q != pick(p.pick[k])) fail("ref.identity", "pointer transfer %d", k); if (c.get() != q) fail("ref.identity", "get() pointer"); ++k; }
        if (k != p.n) fail("value.lost", "ptrs");
    } else {
        int k = 0; typename C::push_type c([&](typename C::pull_type & s) { while (s) { P q = s.get(); if (q != pick(p.pick[k])) fail("ref.identity", "pointer transfer %d", k); ++k; s(); } });
        for (int j = 0; j < p.n; ++j) { P q = pick(p.pick[j]); c(q); }
        if (k != p.n) fail("value.lost", "ptrs");
    }
    vp::count("references_transferred", p.n);
}
// objects living on the sender's own stack, alive while suspended
void stacked(Plan const& p, bool pull) {
    typedef co2::coroutine< NoCopy & > C; NoCopy * cur = 0;
    struct Rec { static void down(C::push_type & s, int k, Plan const& p, NoCopy *& cur, NoCopy * parent) {
        if (k == p.n) return;
        NoCopy local; local.tag = mix(k); cur = & local; s(local);
        if (local.in != mix(k) + 1) fail("ref.identity", "write to a stack object of depth %d lost", k);
        down(s, k + 1, p, cur, & local);
        if (local.tag != mix(k)) fail("state.locals", "local changed");
        if (parent) { cur = parent; parent->in = 0; s(* parent); if (parent->in != parent->tag + 1) fail("ref.identity", "write to the caller's object lost"); }
    } };
    int cnt = 0;
    auto see = [&](NoCopy & o) { if (& o != cur) fail("ref.identity", "stack object"); o.in = o.tag + 1; ++cnt; };
    if (pull) { C::pull_type c([&](C::push_type & s) { Rec::down(s, 0, p, cur, 0); }); while (c) { if (cnt % 2) see(c.get()); else see(* begin(c)); c(); } if (cnt != (p.n ? 2 * p.n - 1 : 0)) fail("value.lost", "stack objects"); }
    else { C::push_type c([&](C::pull_type & s) { for (NoCopy & o : s) see(o); }); Rec::down(c, 0, p, cur, 0); if (cnt != (p.n ? 2 * p.n - 1 : 0)) fail("value.lost", "stack objects"); }
    vp::count("references_transferred", cnt);
}
// a reference handed back and forth through two channels: an object passed down a chain is the same object
void chain(Plan const& p, bool) {
    typedef co2::coroutine< NoCopy & > C; Pool< NoCopy > pool; int depth = 2 + p.consume % 4; std::vector< NoCopy * > sent, got;
    std::function< void(int, C::push_type &) > stage = [&](int d, C::push_type & up) {
        if (d == 0) { for (int k = 0; k < p.n; ++k) { NoCopy & o = pool.at(p.pick[k]); sent.push_back(& o); o.tag = 0; up(o); if (o.tag != uint64_t(depth) + 1) fail("ref.identity", "only %d of %d stages touched the object", int(o.tag), depth + 1); } return; }
        C::pull_type src([&](C::push_type & s) { stage(d - 1, s); });
        for (NoCopy & o : src) { ++o.tag; up(o); }
    };
    C::pull_type top([&](C::push_type & s) { stage(depth, s); });
    for (NoCopy & o : top) { ++o.tag; got.push_back(& o); }
    if (sent != got) fail("ref.identity", "references through a chain of %d stages", depth);
    vp::count("references_transferred", got.size() * depth);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    static int arrs[5][7]; static int volatile vols[5]; static int ints[6]; static int * pints[5]; static char const* const strs[3] = { "a", "b", "c" };
    for (int i = 0; i < 5; ++i) pints[i] = & ints[i];
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 104729);
        Plan p; p.n = r.below(12); p.consume = r.below(12); p.mv = r.below(16); uint64_t h = p.n;
        for (int k = 0; k < 12; ++k) { p.pick.push_back(r.below(256)); p.rd.push_back(r.below(8)); h = mix(h + p.pick.back() * 8 + p.rd.back()); }
        bool pull = r.chance(50); unsigned which = r.below(24);
        vp::begin_case(i, vp::fmt("ref scenario %u %s n=%d", which, pull ? "pull" : "push", p.n));
        switch (which) {
        case 0: case 1: Chan< NoCopy &, NoCopy >::run(p, pull); break;
        case 2: case 3: Chan< NoCopy const&, NoCopy >::run(p, pull); break;
        case 4: Chan< Cp &, Cp >::run(p, pull); break;
        case 5: Chan< Cp const&, Cp >::run(p, pull); break;
        case 6: Chan< Abs &, Abs >::run(p, pull); break;
        case 7: Chan< Abs const&, Abs >::run(p, pull); break;
        case 8: Chan< Amp &, Amp >::run(p, pull); break;
        case 9: Chan< One &, One >::run(p, pull); break;
        case 10: Chan< One const&, One >::run(p, pull); break;
        case 11: poly(p, pull); break;
        case 12: plain< int (&)[7] >(p, pull, [&](unsigned k) -> int (&)[7] { return arrs[k % 5]; }); break;
        case 13: plain< int volatile & >(p, pull, [&](unsigned k) -> int volatile & { return vols[k % 5]; }); break;
        case 14: plain< int & >(p, pull, [&](unsigned k) -> int & { return ints[k % 6]; }); break;
        case 15: plain< int *& >(p, pull, [&](unsigned k) -> int *& { return pints[k % 5]; }); break;
        case 16: plain< int const& >(p, pull, [&](unsigned k) -> int const& { return ints[k % 6]; }); break;
        case 17: ptrs< int * >(p, pull, [&](unsigned k) -> int * { return k % 7 == 6 ? nullptr : & ints[k % 7]; }); break;
        case 18: ptrs< char const * >(p, pull, [&](unsigned k) { return strs[k % 3]; }); break;
        case 19: ptrs< int ** >(p, pull, [&](unsigned k) { return & pints[k % 5]; }); break;
        case 20: plain< Over & >(p, pull, [&](unsigned k) -> Over & { static Over o[4]; return o[k % 4]; }); break;
        case 21: stacked(p, pull); break;
        case 22: chain(p, pull); break;
        default: ptrs< int (*)[7] >(p, pull, [&](unsigned k) { return & arrs[k % 5]; }); break;
        }
        vp::end_case(mix(h + which * 2 + pull), p.n > 1, vp::fmt("scenario %u %s n=%d", which, pull ? "pull" : "push", p.n));
    }
    (void) fa; (void) fb; (void) fc;
    return vp::finish();
}
