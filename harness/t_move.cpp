// C09: moving handles: all pairs of handle states, containers, swap, return values, traits.
#include "anyco.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <type_traits>

namespace {
struct Cor { int id; int n; int end; long entered; long steps; long locals; long freed; bool owned; std::unique_ptr< AllocState > st; bool complete; uint64_t lastin; int left; long copies; bool never;
    Cor() : id(0), n(0), end(0), entered(0), steps(0), locals(0), freed(0), owned(true), complete(false), lastin(0), left(0), copies(0), never(false) {} };
struct Loc { Cor & c; explicit Loc(Cor & x) : c(x) { ++c.locals; } ~Loc() { --c.locals; } };
// the functor's state must neither be copied nor duplicated by moves of the handle
struct BodyF {
    Cor * c; int v;
    void operator()(AnyPort & p) const {
        Loc a(* c); ++c->entered;
        for (int i = 0; i < c->n; ++i) { Loc b(* c); ++c->steps; if (is_pull(v)) p.xfer(c->id * 1000 + i); else { uint64_t x = p.current(); c->lastin = x; if (i + 1 < c->n) p.xfer(0); } }
        ++c->steps;
        if (c->end == 1) throw c->id;
    }
};
struct World {
    vp::Rng r; int v; int next; std::vector< std::unique_ptr< Cor > > all; std::vector< std::pair< std::unique_ptr< AnyCo >, Cor * > > h; uint64_t hash; long nops;
    World(uint64_t seed, int v_) : r(seed), v(v_), next(0), hash(v_), nops(0) {}
    struct Snap { long entered, steps, locals; };
    std::pair< std::unique_ptr< AnyCo >, Cor * > make() {
        for (;;) {
            all.push_back(std::unique_ptr< Cor >(new Cor()));
            Cor * c = all.back().get(); c->id = ++next; c->n = int(r.below(6)); c->end = r.chance(25); c->st.reset(new AllocState(VP_SAN ? 128 * 1024 : 32 * 1024, r.next()));
            BodyF f = { c, v };
            bool dies = is_pull(v) && c->n == 0 && c->end == 1;
            try {
                std::unique_ptr< AnyCo > p = make_co(v, f, c->st.get(), r.chance(30));
                if (dies) fail("exc.lost", "constructor did not throw");
                c->complete = is_pull(v) && c->n == 0; c->left = c->n; c->never = ! is_pull(v);
                return std::make_pair(std::move(p), c);
            } catch (int e) { if ( ! dies || e != c->id) fail("exc.wrong", "unexpected exception"); gone(c, "throwing constructor"); }
        }
    }
    // the coroutine must be gone completely
    void gone(Cor * c, char const* why) {
        c->owned = false;
        if (c->locals) fail("move.old_alive", "%s: %ld locals of the coroutine still alive", why, c->locals);
        if (c->st->outstanding || c->st->deallocs != 1) fail("move.old_alive", "%s: stack not returned (deallocated %d times)", why, c->st->deallocs);
    }
    void check(char const* op) {
        for (std::size_t i = 0; i < h.size(); ++i) {
            Cor * c = h[i].second; AnyCo & a = * h[i].first;
            bool want = c && ! c->complete;
            if (a.valid() != want || a.notvalid() == want) fail("move.validity", "%s after %s: handle %zu tests %d, expected %d (%s)", vname(v), op, i, int(a.valid()), int(want), c ? "owns a coroutine" : "moved from");
            if (a.at_end() == want) fail("move.validity", "%s after %s: begin()==end()", vname(v), op);
            if (want && is_pull(v) && has_value(v)) { uint64_t x = a.value(unsigned(r.below(2))); uint64_t e = c->id * 1000 + (c->n - c->left); if (x != e) fail("move.value", "%s after %s: pending value %llu, expected %llu", vname(v), op, (unsigned long long) x, (unsigned long long) e); }
        }
        for (std::size_t k = 0; k < all.size(); ++k) {
            Cor & c = * all[k];
            if (c.owned && c.st->outstanding != (c.complete && is_pull(v) && c.n == 0 ? c.st->outstanding : 1)) fail("move.lost", "%s after %s: coroutine %d was destroyed although a handle owns it", vname(v), op, c.id);
            if (c.owned && ! c.complete && c.locals != (c.never ? 0 : c.n ? 2 : 1)) fail("move.lost", "%s after %s: coroutine %d has %ld locals", vname(v), op, c.id, c.locals);
        }
    }
    void resume(std::size_t i) {
        Cor * c = h[i].second; if ( ! c || c->complete) return;
        long st = c->steps, en = c->entered; uint64_t in = 5000 + nops;
        bool last = c->left <= 1; c->never = false;
        bool thr = false;
        try { h[i].first->resume(in, unsigned(r.below(8))); } catch (int e) { thr = true; if (e != c->id) fail("exc.wrong", "exception of another coroutine"); }
        if (thr != (last && c->end == 1)) fail("move.position", "%s: exception %s after moves", vname(v), thr ? "too early" : "missing");
        --c->left; if (last) c->complete = true;
        long d = c->steps - st;
        long want = is_pull(v) ? 1 : (c->n == 0 ? 1 : (last ? 2 : 1));
        if (d != want || c->entered - en != (is_pull(v) ? 0 : (en == 0 ? 1 : 0))) fail("move.position", "%s: resume executed %ld steps, expected %ld (entered %ld times)", vname(v), d, want, c->entered);
        if ( ! is_pull(v) && has_value(v) && c->n && c->lastin != in) fail("value.wrong", "value passed to the wrong coroutine");
    }
    Snap snap() { Snap s = { 0, 0, 0 }; for (std::size_t k = 0; k < all.size(); ++k) { s.entered += all[k]->entered; s.steps += all[k]->steps; s.locals += all[k]->locals; } return s; }
    void noeffect(Snap const& a, char const* op) { Snap b = snap(); if (a.entered != b.entered || a.steps != b.steps || a.locals != b.locals) fail("move.effect", "%s: %s ran, restarted or unwound a coroutine", vname(v), op); }
    void move_new(std::size_t i) { // move construct into a fresh object, old handle destroyed or kept
        Snap s = snap(); bool keep = r.chance(40);
        std::unique_ptr< AnyCo > n = h[i].first->moved();
        if (h[i].first->valid() || ! h[i].first->notvalid()) fail("move.validity", "source of a move construction tests true");
        if (keep && h.size() < 8) { h.push_back(std::make_pair(std::move(h[i].first), (Cor *) 0)); h[i].first = std::move(n); }
        else { h[i].first = std::move(n); }
        noeffect(s, "move construction");
    }
    void assign(std::size_t i, std::size_t j) { // h[i] = move(h[j])
        Cor * old = h[i].second; Snap s = snap();
        h[i].first->assign(* h[j].first);
        if (i == j) { noeffect(s, "self-move-assignment"); return; }
        h[i].second = h[j].second; h[j].second = 0;
        if (old) gone(old, "move assignment"); else noeffect(s, "move assignment to an empty handle");
        if (h[j].first->valid()) fail("move.validity", "source of a move assignment tests true");
    }
    void swap3(std::size_t i, std::size_t j) { // what std::swap does
        if (i == j) return;
        Snap s = snap(); std::unique_ptr< AnyCo > t = h[i].first->moved(); h[i].first->assign(* h[j].first); h[j].first->assign(* t); std::swap(h[i].second, h[j].second); noeffect(s, "swap");
    }
    void destroy(std::size_t i) { Cor * c = h[i].second; h.erase(h.begin() + i); if (c) gone(c, "destruction"); }
    void step() {
        ++nops; unsigned op = r.below(10); char const* n = "";
        std::size_t i = h.empty() ? 0 : r.below(unsigned(h.size())), j = h.empty() ? 0 : r.below(unsigned(h.size()));
        if (h.empty() || (op == 0 && h.size() < 6)) { h.push_back(make()); n = "construction"; }
        else if (op <= 3) { resume(i); n = "resume"; }
        else if (op <= 5) { move_new(i); n = "move construction"; }
        else if (op <= 7) { assign(i, j); n = "move assignment"; }
        else if (op == 8) { swap3(i, j); n = "swap"; }
        else { destroy(i); n = "destruction"; }
        hash = mix(hash + op * 64 + i * 8 + j + (h.empty() ? 0 : 1));
        check(n);
    }
};
// state pairs: bring target and source handle into every combination of states, then assign
enum { SEmpty, SFresh, SMid, SLast, SDone, SThrown, NS };
void bring(World & w, std::size_t i, int st) {
    // replace handle i by one in the wanted state
    for (int guard = 0; guard < 400; ++guard) {
        std::pair< std::unique_ptr< AnyCo >, Cor * > p = w.make(); Cor * c = p.second;
        w.h.push_back(std::move(p)); std::size_t k = w.h.size() - 1; bool ok = false;
        if (st == SEmpty) { { std::unique_ptr< AnyCo > d = w.h[k].first->moved(); } w.gone(c, "moved to a temporary"); w.h[k].second = 0; ok = true; }
        else if (st == SFresh) ok = ! c->complete;
        else if (st == SMid) { if (c->n >= 3) { w.resume(k); w.resume(k); ok = true; } }
        else if (st == SLast) { if (c->n >= 1) { while (c->left > 1) w.resume(k); ok = true; } }
        else { while ( ! c->complete) w.resume(k); ok = st == SThrown ? c->end == 1 : c->end == 0; }
        if (ok) { std::swap(w.h[i], w.h[k]); w.destroy(k); return; }
        w.destroy(k);
    }
}
void pairs(uint64_t seed, int v, int a, int b, int how) {
    World w(seed, v); w.h.push_back(w.make()); w.h.push_back(w.make());
    bring(w, 0, a); bring(w, 1, b); w.check("preparation");
    if (how == 0) w.assign(0, 1); else if (how == 1) w.swap3(0, 1); else if (how == 2) { w.assign(0, 1); w.assign(1, 0); } else { w.assign(0, 0); w.move_new(1); w.assign(0, 1); w.assign(0, 0); }
    w.check("move");
    for (int k = 0; k < 8; ++k) { w.resume(0); w.check("resume"); w.resume(1); w.check("resume"); }
    // an emptied handle accepts a new coroutine
    for (int i = 0; i < 2; ++i) if ( ! w.h[i].second) { w.h.push_back(w.make()); w.assign(std::size_t(i), w.h.size() - 1); w.check("assignment to an emptied handle"); w.resume(std::size_t(i)); w.check("resume"); }
    while ( ! w.h.empty()) w.destroy(w.h.size() - 1);
}
// containers of real handles
template< class C > typename C::pull_type source(int from, int n, long * live) {
    struct G { long * l; explicit G(long * x) : l(x) { ++ * l; } ~G() { -- * l; } };
    typename C::pull_type p([=](typename C::push_type & s) { G g(live); for (int i = 0; i < n; ++i) s(from + i); });
    return p; // moved or elided
}
void containers(vp::Rng & r) {
    typedef co2::coroutine< int > C; long live = 0;
    {
        std::vector< C::pull_type > v; std::vector< int > next, end;
        int n = 3 + int(r.below(30));
        for (int i = 0; i < n; ++i) { v.push_back(source< C >(i * 100, 3 + int(r.below(5)), & live)); next.push_back(i * 100); }   // reallocations
        if (live != n) fail("move.effect", "vector growth destroyed coroutines: %ld of %d", live, n);
        std::vector< std::size_t > perm; for (int i = 0; i < n; ++i) perm.push_back(i);
        for (int k = 0; k < 60; ++k) {
            std::size_t i = r.below(unsigned(v.size())), j = r.below(unsigned(v.size()));
            switch (r.below(5)) {
            case 0: std::swap(v[i], v[j]); std::swap(next[i], next[j]); break;
            case 1: std::rotate(v.begin(), v.begin() + i, v.end()); std::rotate(next.begin(), next.begin() + i, next.end()); break;
            case 2: std::reverse(v.begin(), v.end()); std::reverse(next.begin(), next.end()); break;
            case 3: if (v[i]) { if (v[i].get() != next[i]) fail("move.value", "value %d expected %d", v[i].get(), next[i]); v[i](); ++next[i]; } break;
            default: v.insert(v.begin() + i, source< C >(7000 + k * 10, 2, & live)); next.insert(next.begin() + i, 7000 + k * 10); if (v.size() > 3) { v.erase(v.begin() + (j % v.size())); next.erase(next.begin() + (j % next.size())); } break;
            }
            for (std::size_t q = 0; q < v.size(); ++q) if (v[q] && * begin(v[q]) != next[q]) fail("move.value", "container element %zu has value %d, expected %d", q, * begin(v[q]), next[q]);
        }
        std::list< C::pull_type > l; for (auto & x : v) l.push_back(std::move(x));
        for (auto & x : v) if (x) fail("move.validity", "moved-from element tests true");
        v.clear();
        std::size_t q = 0; for (auto & x : l) { if (x && x.get() != next[q]) fail("move.value", "list element"); ++q; }
    }
    if (live) fail("move.lost", "%ld coroutines not unwound", live);
    vp::count("containers");
}
// the handle is moved while its coroutine is running, by the coroutine-function itself (a session that moves itself to a longer-lived place)
void running(uint64_t seed, int v) {
    vp::Rng r(seed); Cor c, o; c.id = 7; c.n = 2 + int(r.below(7)); c.end = r.chance(30); std::unique_ptr< AllocState > st(r.chance(60) ? new AllocState(VP_SAN ? 128 * 1024 : 32 * 1024, r.next()) : 0);
    std::unique_ptr< AnyCo > own; std::vector< std::unique_ptr< AnyCo > > emptied; long moves = 0; uint64_t got = 0; bool outside = false;
    auto maybe = [&] {
        if ( ! outside || r.chance(35)) return;
        ++moves; long steps = c.steps;
        switch (r.below(4)) {
        case 0: { std::unique_ptr< AnyCo > n = own->moved(); emptied.push_back(std::move(own)); own = std::move(n); } break;
        case 1: { Body b = [&](AnyPort & p) { Loc l(o); if ( ! is_pull(v)) { p.current(); p.xfer(0); } for (;;) p.xfer(1); }; std::unique_ptr< AnyCo > n = make_co(v, b); if (r.chance(50)) n->resume(3); n->assign(* own); if (o.locals) fail("move.old_alive", "%s: coroutine replaced from inside another one is still alive", vname(v)); emptied.push_back(std::move(own)); own = std::move(n); } break;
        case 2: { std::unique_ptr< AnyCo > t = own->moved(); own->assign(* t); emptied.push_back(std::move(t)); } break;
        default: own->assign(* own); break;
        }
        if ( ! is_pull(v) && ( ! own->valid() || own->notvalid())) fail("move.validity", "%s: moved while running, the target tests false", vname(v));
        for (auto & e : emptied) if (e->valid() || ! e->notvalid()) fail("move.validity", "%s: moved while running, the source tests true", vname(v));
        if (steps != c.steps) fail("move.effect", "%s: a move ran the coroutine", vname(v));
    };
    Body body = [&](AnyPort & p) {
        Loc a(c); ++c.entered;
        for (int i = 0; i < c.n; ++i) { Loc b(c); ++c.steps; maybe(); if ( ! is_pull(v)) { got = p.current(); maybe(); if (i + 1 < c.n) p.xfer(0); } else p.xfer(uint64_t(c.id * 1000 + i)); maybe(); }
        if (c.end) throw c.id;
    };
    own = make_co(v, body, st.get(), r.chance(30)); outside = true; int k = 0, stop = r.chance(30) ? int(r.below(unsigned(c.n))) : -1; bool thrown = false;
    while (own->valid()) {
        if (k == stop) break;
        if (is_pull(v) && has_value(v) && own->value(0) != uint64_t(c.id * 1000 + k)) fail("move.value", "%s: pending value after moves while running", vname(v));
        AnyCo * a = own.get(); long steps = c.steps;
        try { a->resume(uint64_t(900 + k), unsigned(r.below(8))); } catch (int e) { thrown = true; if (e != c.id) fail("exc.wrong", "contents"); }
        ++k;
        for (auto & e : emptied) if (e->valid() || ! e->notvalid()) fail("move.validity", "%s: source of a move made while running tests true after the resume", vname(v));
        if ( ! is_pull(v) && has_value(v) && got != uint64_t(899 + k)) fail("value.wrong", "%s: value passed through a handle moved meanwhile", vname(v));
        if (own->valid() == (k == c.n)) fail("move.validity", "%s: target of a move made while running tests %d after %d of %d resumes", vname(v), int(own->valid()), k, c.n);
        if (k < c.n && c.steps != steps + 1) fail("move.position", "%s: resume executed %ld steps", vname(v), c.steps - steps);
        emptied.clear();
    }
    if (stop < 0 && (k != c.n || thrown != (c.end != 0))) fail("exc.lost", "%s: %d of %d resumes, exception %d", vname(v), k, c.n, int(thrown));
    if (stop >= 0 && k == stop && c.locals != (stop || is_pull(v) ? 2 : 0)) fail("move.lost", "%s: %ld locals of a suspended coroutine", vname(v), c.locals);
    own.reset(); emptied.clear();
    if (c.locals || c.entered > 1) fail("unwind.lost", "%s: %ld locals alive, entered %ld times", vname(v), c.locals, c.entered);
    if (st && (st->outstanding || st->deallocs != 1)) fail("alloc.leaked", "%s: stack returned %d times", vname(v), st->deallocs);
    vp::count("moves_while_running", moves);
}
// classes derived from a handle: moved as a whole, sliced into a plain handle, assigned, used through the base
template< class H > struct Owner : H {
    std::string name;
    template< class Fn > Owner(std::string const& n, Fn && f) : H(std::forward< Fn >(f)), name(n) {}
    template< class SA, class Fn > Owner(std::string const& n, SA && s, Fn && f) : H(std::forward< SA >(s), std::forward< Fn >(f)), name(n) {}
    Owner(Owner && o) noexcept : H(std::move(o)), name(std::move(o.name)) {}
    Owner & operator=(Owner && o) noexcept { H::operator=(std::move(o)); name = std::move(o.name); return * this; }
};
template< class H > struct Plain : H { int tag; template< class Fn > explicit Plain(int t, Fn && f) : H(std::forward< Fn >(f)), tag(t) {} };   // implicit moves
static int dcell[64];
template< class K > struct Der;
template<> struct Der< co2::coroutine< int > > { static void give(co2::coroutine< int >::push_type & s, int k) { s(k); } static int take(co2::coroutine< int >::pull_type & s) { return s.get(); } };
template<> struct Der< co2::coroutine< int & > > { static void give(co2::coroutine< int & >::push_type & s, int k) { s(dcell[k]); } static int take(co2::coroutine< int & >::pull_type & s) { return int(& s.get() - dcell); } };
template<> struct Der< co2::coroutine< std::string > > { static void give(co2::coroutine< std::string >::push_type & s, int k) { s(std::string(std::size_t(k), 'q')); } static int take(co2::coroutine< std::string >::pull_type & s) { return int(begin(s)->size()); } };
template<> struct Der< co2::coroutine< void > > { static void give(co2::coroutine< void >::push_type & s, int) { s(); } static int take(co2::coroutine< void >::pull_type &) { return -1; } };
template< class K, bool Pull > struct DerRun;
struct DG { long & l; explicit DG(long & x) : l(x) { ++l; } ~DG() { --l; } };
template< class K > struct DerRun< K, true > {
    typedef typename K::pull_type H; struct F { long * live, * steps; int n; void operator()(typename K::push_type & s) { DG g(* live); for (int i = 1; i <= n; ++i) { ++ * steps; Der< K >::give(s, i); } } };
    static void next(H & h) { h(); } static bool at(H & h, int k) { int v = Der< K >::take(h); return v == -1 || v == k; }
    enum { ahead = 1 };
};
template< class K > struct DerRun< K, false > {
    typedef typename K::push_type H; struct F { long * live, * steps; int n; void operator()(typename K::pull_type & s) { DG g(* live); for (int i = 1; i <= n; ++i) { ++ * steps; if (i < n) s(); } } };
    static void next(H & h) { Der< K >::give(h, 1); } static bool at(H &, int) { return true; }
    enum { ahead = 0 };
};
template< class K, bool P > void derived(vp::Rng & r) {
    typedef DerRun< K, P > D; typedef typename D::H H; long live = 0, steps = 0, live2 = 0, steps2 = 0; int n = 3 + int(r.below(6));
    static_assert(std::is_nothrow_move_constructible< Plain< H > >::value && ! std::is_copy_constructible< Plain< H > >::value, "derived handle");
    auto expect = [&](H & h, long k, char const * what) {
        if ( ! h || ! ! ! h) fail("move.validity", "derived handle, %s: target tests false", what);
        if (steps != k + D::ahead) fail("move.effect", "derived handle, %s: %ld steps, expected %ld", what, steps, k + D::ahead);
        if ( ! D::at(h, int(k) + 1)) fail("move.value", "derived handle, %s: pending value", what);
    };
    auto gone = [&](H & h, char const * what) { if (h || ! ! h) fail("move.validity", "derived handle, %s: source tests true", what); };
    {
        typename D::F f = { & live, & steps, n }, g = { & live2, & steps2, n };
        Owner< H > a = r.chance(50) ? Owner< H >("alpha", f) : Owner< H >("alpha", co2::fixedsize_stack(VP_SAN ? 262144 : 65536), f); expect(a, 0, "construction");
        D::next(a); expect(a, 1, "resume");
        Owner< H > b(std::move(a)); gone(a, "move construction"); expect(b, 1, "move construction"); if (b.name != "alpha") fail("move.value", "member of a derived handle");
        Owner< H > c("beta", g); D::next(c); c = std::move(b); gone(b, "move assignment"); expect(c, 1, "move assignment");
        if (live2) fail("move.lost", "derived handle: the replaced coroutine was not destroyed");
        D::next(c); expect(c, 2, "resume");
        std::vector< Owner< H > > v; v.push_back(std::move(c)); long l2 = 0, s2 = 0; typename D::F q = { & l2, & s2, n };
        for (int i = 0; i < 5; ++i) v.emplace_back("other", q);
        expect(v[0], 2, "vector"); std::swap(v[0], v[4]); expect(v[4], 2, "swap"); gone(c, "vector");
        H plain(std::move(v[4])); gone(v[4], "moved into a plain handle"); expect(plain, 2, "moved into a plain handle"); v.clear(); expect(plain, 2, "vector cleared"); if (l2) fail("move.lost", "derived handles in a vector: %ld not unwound", l2);
        Plain< H > d(5, q); d.H::operator=(std::move(plain)); expect(d, 2, "assigned to the base"); Plain< H > e(std::move(d)); gone(d, "implicit move"); expect(e, 2, "implicit move"); d = std::move(e); gone(e, "implicit move assignment"); expect(d, 2, "implicit move assignment");
        plain = std::move(d); gone(d, "assigned to a plain handle"); expect(plain, 2, "assigned to a plain handle");
        if (r.chance(50)) { for (int k = 3; k <= n; ++k) { D::next(plain); if (k < n) expect(plain, k, "resume"); } if (plain) { if (P) fail("move.validity", "derived handle: %d values consumed, still valid", n); } }
    }
    if (live || live2) fail("move.lost", "derived handles: %ld coroutines not unwound", live + live2);
    vp::count("derived_handles");
}
void derived_all(vp::Rng & r, unsigned k) {
    switch (k % 8) {
    case 0: derived< co2::coroutine< int >, true >(r); break; case 1: derived< co2::coroutine< int >, false >(r); break;
    case 2: derived< co2::coroutine< int & >, true >(r); break; case 3: derived< co2::coroutine< int & >, false >(r); break;
    case 4: derived< co2::coroutine< std::string >, true >(r); break; case 5: derived< co2::coroutine< std::string >, false >(r); break;
    case 6: derived< co2::coroutine< void >, true >(r); break; default: derived< co2::coroutine< void >, false >(r); break;
    }
}
#define TRAIT(cond) do { if ( ! (cond)) fail("move.traits", "%s", #cond); } while (0)
template< class H > void traits() {
    TRAIT(std::is_nothrow_move_constructible< H >::value); TRAIT(std::is_nothrow_move_assignable< H >::value);
    TRAIT( ! std::is_copy_constructible< H >::value); TRAIT( ! std::is_copy_assignable< H >::value);
    TRAIT( ! (std::is_constructible< H, H & >::value)); TRAIT( ! (std::is_assignable< H &, H & >::value)); TRAIT( ! (std::is_assignable< H &, H const& >::value));
    TRAIT( ! (std::is_constructible< H, H const& >::value)); 
    TRAIT( ! (std::is_convertible< H, int >::value)); TRAIT((std::is_constructible< bool, H & >::value)); TRAIT((std::is_constructible< bool, H const& >::value)); TRAIT( ! (std::is_constructible< H, H const&& >::value)); TRAIT( ! (std::is_convertible< H &, bool >::value));
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    traits< co2::coroutine< int >::pull_type >(); traits< co2::coroutine< int >::push_type >(); traits< co2::coroutine< int & >::pull_type >(); traits< co2::coroutine< int & >::push_type >();
    traits< co2::coroutine< void >::pull_type >(); traits< co2::coroutine< void >::push_type >(); traits< co2::coroutine< std::unique_ptr< int > >::pull_type >(); traits< co2::coroutine< std::string >::push_type >(); traits< co2::coroutine< int const& >::pull_type >();
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 31337); int v = int(i % NVariants); uint64_t j = i / NVariants;
        if (j % 3 == 0) {
            int x = int((j / 3) % NS), y = int((j / 18) % NS), how = int((j / 108) % 4);
            vp::begin_case(i, vp::fmt("move %s target state %d, source state %d, how %d", vname(v), x, y, how));
            pairs(r.next(), v, x, y, how);
            vp::count("state_pairs"); vp::end_case(mix(v + x * 7 + y * 61 + how * 601), true, vp::fmt("%s target=%d source=%d how=%d", vname(v), x, y, how));
        } else if (j % 30 == 1) { vp::begin_case(i, "containers"); containers(r); vp::end_case(mix(i), true); }
        else if (j % 30 == 4) { vp::begin_case(i, vp::fmt("derived handles %d", v)); for (unsigned k = 0; k < 8; ++k) derived_all(r, k); vp::end_case(mix(i + 5), true, "derived handles"); }
        else if (j % 5 == 2) { vp::begin_case(i, vp::fmt("moved while running %s", vname(v))); uint64_t q = r.next(); running(q, v); vp::end_case(mix(q), true, vp::fmt("%s moved while running", vname(v))); }
        else {
            vp::begin_case(i, vp::fmt("move random %s", vname(v)));
            { World w(r.next(), v); int n = 10 + int(r.below(50)); for (int k = 0; k < n; ++k) w.step(); while ( ! w.h.empty()) w.destroy(w.r.below(unsigned(w.h.size()))); vp::count("move_ops", w.nops); vp::end_case(w.hash, true, vp::fmt("%s %d random operations", vname(v), n)); }
        }
        if (Tok::live()) fail("life.leak", "%ld values alive", long(Tok::live()));
    }
    return vp::finish();
}
