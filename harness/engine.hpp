// Random program engine over the World model: 8 payload kinds x {pull,push}.
#ifndef ENGINE_HPP
#define ENGINE_HPP
#include "world.hpp"

// ---- kinds ---------------------------------------------------------------------------------------
// send(w, co, act, mode): announce the value to the model, act.pre(); act.call(x); act.post();
template< char K > struct KT;

inline void expect_val(World & w, Co * co, uint64_t id) { co->has_val = true; co->val = id; co->consumed = false; ++w.n_val; }

template<> struct KT< 'I' > {
    typedef uint64_t T; typedef co2::coroutine< T > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned mode) {
        uint64_t id = ++w.vid; expect_val(w, co, id);
        uint64_t x = mix(id); uint64_t const y = mix(id);
        switch (mode % 4) {
        case 0: act.pre(); act.call(x); act.post(); break;
        case 1: act.pre(); act.call(y); act.post(); break;
        case 2: act.pre(); act.call(mix(id)); act.post(); break;
        default: act.pre(); act.assign(x); act.post(); break;
        }
        if (x != mix(id) || y != mix(id)) fail("value.lvalue_modified", "pushed integer changed");
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned mode) {
        uint64_t e = mix(co->val), g;
        switch (mode % 3) {
        case 0: g = p.get(); break;
        case 1: g = * begin(p); break;
        default: { g = p.get(); uint64_t g2 = p.get(); if (g != g2) fail("value.wrong", "two reads differ"); } break;
        }
        if (g != e) fail("value.wrong", "coroutine %d kind I: read %llx expected %llx", co->id, (unsigned long long) g, (unsigned long long) e);
        ++w.n_reads;
    }
};
template<> struct KT< 'B' > {
    typedef Big T; typedef co2::coroutine< T > C;
    static void mk(Big & b, uint64_t id) { for (int i = 0; i < 37; ++i) b.a[i] = mix(id + i); }
    static bool ok(Big const& b, uint64_t id) { for (int i = 0; i < 37; ++i) if (b.a[i] != mix(id + i)) return false; return true; }
    template< class A > static void send(World & w, Co * co, A & act, unsigned mode) {
        uint64_t id = ++w.vid; expect_val(w, co, id);
        Big x; mk(x, id);
        switch (mode % 3) {
        case 0: act.pre(); act.call(x); act.post(); break;
        case 1: { Big const& cx = x; act.pre(); act.call(cx); act.post(); } break;
        default: { Big y(x); act.pre(); act.call(std::move(y)); act.post(); } break;
        }
        if ( ! ok(x, id)) fail("value.lvalue_modified", "pushed struct changed");
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned mode) {
        bool o;
        switch (mode % 3) {
        case 0: { Big b = p.get(); o = ok(b, co->val); } break;
        case 1: o = ok(* begin(p), co->val) && ok(* begin(p), co->val); break;
        default: { Big b = p.get(); Big c = p.get(); o = ok(b, co->val) && ok(c, co->val); } break;
        }
        if ( ! o) fail("value.wrong", "coroutine %d kind B: wrong struct read", co->id);
        ++w.n_reads;
    }
};
template<> struct KT< 'V' > {
    typedef Val T; typedef co2::coroutine< T > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned mode) {
        uint64_t id = ++w.vid; expect_val(w, co, id);
        switch (mode % 5) {
        case 0: { Val v(& w, id); act.pre(); act.call(v); act.post(); if ( ! v.ok(id)) fail("value.lvalue_modified", "pushed lvalue changed"); } break;
        case 1: { Val const v(& w, id); act.pre(); act.call(v); act.post(); if ( ! v.ok(id)) fail("value.lvalue_modified", "pushed const lvalue changed"); } break;
        case 2: { Val v(& w, id); unsigned c = w.copies; act.mark = c; act.rv = true; act.pre(); act.call(std::move(v)); act.post(); if ( ! v.moved) fail("value.rvalue_not_moved", "pushed rvalue was not moved from"); } break;
        case 3: { act.pre(); act.call(Val(& w, id)); act.post(); } break;
        default: { Val v(& w, id); act.pre(); act.assign(v); act.post(); if ( ! v.ok(id)) fail("value.lvalue_modified", "assigned lvalue changed"); } break;
        }
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned mode) {
        if (co->consumed) return;
        if (mode % 3 != 0) {
            unsigned c = w.copies;
            Val const& r = * begin(p);
            if ( ! r.ok(co->val)) fail("value.wrong", "coroutine %d kind V: dereference yields id %llu, expected %llu", co->id, (unsigned long long) r.id, (unsigned long long) co->val);
            Val const& r2 = * begin(p);
            if (& r != & r2 || begin(p)->id != co->val) fail("value.wrong", "dereferencing twice yields different objects");
            if (c != w.copies) fail("value.deref_copies", "dereferencing copies");
        }
        if (mode % 3 != 1) {
            Val g(p.get());
            if ( ! g.ok(co->val)) fail("value.wrong", "coroutine %d kind V: get() id %llu moved=%d, expected %llu", co->id, (unsigned long long) g.id, int(g.moved), (unsigned long long) co->val);
            co->consumed = true;
        }
        ++w.n_reads;
    }
};
template<> struct KT< 'M' > {
    typedef Mov T; typedef co2::coroutine< T > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned mode) {
        uint64_t id = ++w.vid; expect_val(w, co, id);
        if (mode % 2) { Mov v(& w, id); act.pre(); act.call(std::move(v)); act.post(); if ( ! v.moved) fail("value.rvalue_not_moved", "pushed rvalue was not moved from"); }
        else { act.pre(); act.call(Mov(& w, id)); act.post(); }
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned mode) {
        if (co->consumed) return;
        if (mode % 2) {
            Mov & r = * begin(p);
            if ( ! r.ok(co->val)) fail("value.wrong", "coroutine %d kind M: dereference yields id %llu, expected %llu", co->id, (unsigned long long) r.id, (unsigned long long) co->val);
        }
        if (mode % 3) {
            Mov g(p.get());
            if ( ! g.ok(co->val)) fail("value.wrong", "coroutine %d kind M: get() id %llu, expected %llu", co->id, (unsigned long long) g.id, (unsigned long long) co->val);
            co->consumed = true;
        }
        ++w.n_reads;
    }
};
template<> struct KT< 'R' > {
    typedef Cell & T; typedef co2::coroutine< T > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned mode) {
        Cell * c = w.cell(); expect_val(w, co, c->id); co->addr = c;
        act.pre();
        if (mode % 3 == 2) act.assign(* c); else act.call(* c);
        act.post();
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned mode) {
        Cell & a = p.get(); Cell & b = * begin(p); Cell * d = & begin(p)->id == & a.id ? & a : 0;
        if ((void const *) & a != co->addr || (void const *) & b != co->addr || ! d)
            fail("ref.identity", "coroutine %d kind R: received reference to %p, sender passed %p", co->id, (void *) & a, co->addr);
        if (mode & 1) { uint64_t o = static_cast< Cell const * >(co->addr)->writes; ++a.writes; if (static_cast< Cell const * >(co->addr)->writes != o + 1) fail("ref.identity", "write through reference not visible"); }
        ++w.n_reads;
    }
};
template<> struct KT< 'C' > {
    typedef Cell const& T; typedef co2::coroutine< T > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned) {
        Cell * c = w.cell(); expect_val(w, co, c->id); co->addr = c;
        act.pre(); act.call(* c); act.post();
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned) {
        Cell const& a = p.get(); Cell const& b = * begin(p);
        if ((void const *) & a != co->addr || (void const *) & b != co->addr)
            fail("ref.identity", "coroutine %d kind C: received reference to %p, sender passed %p", co->id, (void const *) & a, co->addr);
        if (a.id != co->val) fail("ref.identity", "const reference target changed");
        ++w.n_reads;
    }
};
template<> struct KT< 'P' > {
    typedef Cell * T; typedef co2::coroutine< T > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned mode) {
        Cell * c = w.rng.chance(10) ? 0 : w.cell(); expect_val(w, co, c ? c->id : 0); co->addr = c;
        Cell * k = c;
        act.pre();
        if (mode % 3 == 0) act.call(c); else if (mode % 3 == 1) act.call(static_cast< Cell * >(k)); else act.assign(c);
        act.post();
        if (c != k) fail("value.lvalue_modified", "pushed pointer variable changed");
    }
    template< class P > static void read(World & w, Co * co, P & p, unsigned mode) {
        Cell * a = mode & 1 ? p.get() : * begin(p);
        if ((void const *) a != co->addr) fail("ref.identity", "coroutine %d kind P: received pointer %p, sender passed %p", co->id, (void *) a, co->addr);
        ++w.n_reads;
    }
};
template<> struct KT< 'N' > {
    typedef void T; typedef co2::coroutine< void > C;
    template< class A > static void send(World & w, Co * co, A & act, unsigned) {
        expect_val(w, co, ++w.vid); act.pre(); act.call0(); act.post();
    }
    template< class P > static void read(World &, Co *, P &, unsigned) {}
};

// does the kind offer  *it++ = x  on push handles
template< char K > struct HasAssign { enum { v = (K == 'I' || K == 'V' || K == 'R' || K == 'P') }; };

template< char K, class PushT, bool B = HasAssign< K >::v > struct Assign {
    template< class X > static void go(PushT & p, X & x) { p(x); }
};
template< char K, class PushT > struct Assign< K, PushT, true > {
    template< class X > static void go(PushT & p, X & x) {
        typename PushT::iterator i = begin(p);
        * i = x; ++i;
        if ((i != end(p)) != bool(p)) fail("iter.push_end", "output iterator equals end() iff the coroutine is complete: violated");
    }
};

// ---- body ----------------------------------------------------------------------------------------
struct Port { virtual void yield(World & w, Co * co, unsigned mode) = 0; virtual ~Port() {} };

struct Top { // outermost object of a body
    World & w; Co * co;
    Top(World & w_, Co * c) : w(w_), co(c) {}
    ~Top() {
        w.unwind_touch(co);
        if (w.cur() != co) fail("unwind.context", "body of %d ends while %d runs", co->id, w.curid());
        if ( ! co->guards.empty()) fail("unwind.leaked", "%zu locals of coroutine %d never destroyed", co->guards.size(), co->id);
        if (co->unwinding) { co->st = Gone; w.ev('U', co->id); }
        else w.leave(co, Complete);
    }
};

void frame(World & w, Co * co, Port & port, int depth);
// every functor instance counts itself
struct FnBase {
    World * w; Co * co; bool dead;
    FnBase(World * w_, Co * c) : w(w_), co(c), dead(false) { reg(); }
    FnBase(FnBase const& o) : w(o.w), co(o.co), dead(o.dead) { reg(); }
    FnBase(FnBase && o) : w(o.w), co(o.co), dead(o.dead) { o.dead = true; reg(); }
    ~FnBase() { --co->functors; w->del_live(w->live_fns, this, "coroutine-function"); }
    void reg() { ++co->functors; w->add_live(w->live_fns, this, "coroutine-function"); }
    void enter() {
        if (dead) fail("functor.moved_from", "moved-from coroutine-function invoked");
        if (co->entered) fail("control.reentry", "coroutine %d entered twice", co->id);
        w->gained(co, co->suspend_pt);
        co->entered = true;
    }
};

template< char K > struct SinkPort : Port {
    typedef typename KT< K >::C::push_type PushT;
    PushT & s;
    explicit SinkPort(PushT & s_) : s(s_) {}
    struct Act {
        World & w; Co * co; PushT & s; uint64_t sp; unsigned mark; bool rv;
        void pre() { sp = ++w.pt; co->suspend_pt = sp; ++co->yields; w.leave(co, Suspended); }
        template< class X > void call(X && x) { PushT & r = s(std::forward< X >(x)); if (& r != & s) fail("control.self", "operator() does not return *this"); }
        template< class X > void assign(X & x) { Assign< K, PushT >::go(s, x); }
        void call0() { s(); }
        void post() {
            w.gained(co, sp);
            if ( ! s || ! s == true) fail("valid.sink", "sink invalid inside the running coroutine %d", co->id);
            if (rv && w.copies < mark) fail("value.copies", "bad");
        }
    };
    void yield(World & w, Co * co, unsigned mode) { Act a = { w, co, s, 0, 0, false }; KT< K >::send(w, co, a, mode); }
};
template<> inline void SinkPort< 'N' >::yield(World & w, Co * co, unsigned) {
    Act a = { w, co, s, 0, 0, false }; expect_val(w, co, ++w.vid); a.pre(); a.call0(); a.post();
}
template< char K > struct SourcePort : Port {
    typedef typename KT< K >::C::pull_type PullT;
    PullT & s;
    explicit SourcePort(PullT & s_) : s(s_) {}
    void got(World & w, Co * co) {
        if ( ! s || ! s == true) fail("valid.source", "source invalid inside the running coroutine %d", co->id);
        unsigned n = w.rng.below(3);
        for (unsigned i = 0; i < n; ++i) KT< K >::read(w, co, s, unsigned(w.rng.below(12)));
    }
    void yield(World & w, Co * co, unsigned mode) {
        uint64_t sp = ++w.pt; co->suspend_pt = sp; ++co->yields;
        co->has_val = false;
        w.leave(co, Suspended);
        if (mode & 1) { typename PullT::iterator it = begin(s); ++it; w.gained(co, sp); if (it == end(s)) fail("iter.pull_end", "source iterator at end although a value was passed"); }
        else { PullT & r = s(); if (& r != & s) fail("control.self", "operator() does not return *this"); w.gained(co, sp); }
        got(w, co);
    }
};
template<> inline void SourcePort< 'N' >::yield(World & w, Co * co, unsigned) {
    uint64_t sp = ++w.pt; co->suspend_pt = sp; ++co->yields; co->has_val = false;
    w.leave(co, Suspended); s(); w.gained(co, sp);
    if ( ! s) fail("valid.source", "source invalid inside the running coroutine %d", co->id);
}
template< char K > struct PullFn : FnBase {
    PullFn(World * w, Co * c) : FnBase(w, c) {}
    void operator()(typename KT< K >::C::push_type & sink) {
        enter();
        Top t(* w, co);
        if ( ! sink) fail("valid.sink", "sink invalid on entry");
        SinkPort< K > p(sink);
        frame(* w, co, p, 0);
    }
};
template< char K > struct PushFn : FnBase {
    PushFn(World * w, Co * c) : FnBase(w, c) {}
    void operator()(typename KT< K >::C::pull_type & source) {
        enter();
        Top t(* w, co);
        SourcePort< K > p(source);
        p.got(* w, co);
        frame(* w, co, p, 0);
    }
};

// ---- handles -------------------------------------------------------------------------------------
struct HBase {
    Co * co; int type; bool busy;
    HBase() : co(0), type(0), busy(false) {}
    virtual ~HBase() {}
    virtual bool valid() const = 0;
    virtual bool notvalid() const = 0;
    virtual bool live() const = 0;                                   // a library object exists
    virtual int at_end() { return -1; }                              // begin() == end(), where the handle has a range
    virtual void resume(World & w, uint64_t rp, unsigned mode) = 0; // the library call only
    virtual void read(World & w, unsigned mode) = 0;
    virtual HBase * move_out() = 0;                                  // move-construct a new handle
    virtual void assign(HBase & o) = 0;
    virtual void reset() = 0;                                        // run the library destructor now
};

inline bool model_valid(HBase const& h) {
    if ( ! h.co) return false;
    if (h.co->pull) return h.co->st == Suspended;
    return h.co->st == Suspended || h.co->st == NotStarted;
}
inline void check_valid(World & w, HBase & h) {
    bool e = model_valid(h);
    bool a = h.valid(), b = h.notvalid(), c = h.valid();
    ++w.n_query;
    int r = h.at_end();
    if (r >= 0 && r != int( ! e)) fail("iter.range_end", "handle of coroutine %d (kind %c state %d): begin()==end() is %d, expected valid=%d", h.co ? h.co->id : -1, h.co ? h.co->kind : '-', h.co ? int(h.co->st) : -1, r, int(e));
    if (a != e || b == e || c != e)
        fail("valid.handle", "handle of coroutine %d (%s kind %c state %d): bool=%d !=%d expected valid=%d", h.co ? h.co->id : -1,
             h.co ? (h.co->pull ? "pull" : "push") : "empty", h.co ? h.co->kind : '-', h.co ? int(h.co->st) : -1, int(a), int(b), int(e));
}

template< char K, bool Pull > struct Handle;

template< char K > struct Handle< K, true > : HBase {
    typedef typename KT< K >::C::pull_type PT;
    std::unique_ptr< PT > p;
    bool valid() const { return p && bool(* p); }
    bool notvalid() const { return ! p || ! * p; }
    bool live() const { return p != nullptr; }
    int at_end() { return end_of(std::integral_constant< bool, K == 'N' >()); }
    int end_of(std::true_type) { return -1; }
    int end_of(std::false_type) { if ( ! p) return -1; typename PT::iterator i = begin(* p), e = end(* p); if ((i == e) == (i != e)) fail("iter.pull_end", "== and != agree"); return i == e; }
    void resume(World & w, uint64_t rp, unsigned mode) { res(w, rp, mode, std::integral_constant< bool, K == 'N' >()); }
    void res(World & w, uint64_t rp, unsigned, std::true_type) { int me = w.curid(); w.enter(co, rp); (* p)(); w.back(me, rp); }
    void res(World & w, uint64_t rp, unsigned mode, std::false_type) {
        int me = w.curid();
        if (mode % 3 == 0) {
            typename PT::iterator i = begin(* p), e = end(* p);
            if (i == e || ! (i != e)) fail("iter.pull_end", "begin()==end() although a value is available");
            w.enter(co, rp);
            if (mode & 8) ++i; else i++;
            w.back(me, rp);
            if ((i == e) != (co->st == Complete)) fail("iter.pull_end", "iterator end state %d but coroutine state %d", int(i == e), int(co->st));
        } else {
            w.enter(co, rp);
            PT & r = (* p)();
            w.back(me, rp);
            if (& r != p.get()) fail("control.self", "operator() does not return *this");
            if ((begin(* p) == end(* p)) != (co->st == Complete)) fail("iter.pull_end", "begin()==end() wrong after resume");
        }
    }
    void read(World & w, unsigned mode) { KT< K >::read(w, co, * p, mode); }
    HBase * move_out() {
        Handle * n = new Handle; n->type = type;
        n->p.reset(new PT(std::move(* p)));
        n->co = co; co = 0;
        return n;
    }
    void assign(HBase & o) { Handle & h = static_cast< Handle & >(o); PT & r = (* p = std::move(* h.p)); if (& r != p.get()) fail("move.self", "operator= does not return *this"); }
    void reset() { p.reset(); }
};
template< char K > struct Handle< K, false > : HBase {
    typedef typename KT< K >::C::push_type PT;
    std::unique_ptr< PT > p;
    bool valid() const { return p && bool(* p); }
    bool notvalid() const { return ! p || ! * p; }
    bool live() const { return p != nullptr; }
    struct Act {
        World & w; Co * co; PT & s; int me; uint64_t rp; unsigned mark; bool rv;
        void pre() { w.enter(co, rp); }
        template< class X > void call(X && x) { PT & r = s(std::forward< X >(x)); if (& r != & s) fail("control.self", "operator() does not return *this"); }
        template< class X > void assign(X & x) { Assign< K, PT >::go(s, x); }
        void call0() { s(); }
        void post() { w.back(me, rp); }
    };
    void resume(World & w, uint64_t rp, unsigned mode) {
        Act a = { w, co, * p, w.curid(), rp, 0, false };
        KT< K >::send(w, co, a, mode);
    }
    void read(World &, unsigned) {}
    HBase * move_out() {
        Handle * n = new Handle; n->type = type;
        n->p.reset(new PT(std::move(* p)));
        n->co = co; co = 0;
        return n;
    }
    void assign(HBase & o) { Handle & h = static_cast< Handle & >(o); PT & r = (* p = std::move(* h.p)); if (& r != p.get()) fail("move.self", "operator= does not return *this"); }
    void reset() { p.reset(); }
};

struct Pool {
    std::vector< HBase * > v;
    co2::pooled_fixedsize_stack pooled;
    TAlloc talloc;
    explicit Pool(World & w) : talloc(& w, VP_SAN ? 256 * 1024 : 64 * 1024) {}
};
// the pool belongs to one world; found through it
struct WorldX : World {
    Pool pool;
    WorldX(uint64_t s, Profile const& p) : World(s, p), pool(* this) {}
};
inline WorldX & X(World & w) { return static_cast< WorldX & >(w); }

template< class Fn > inline void not_more(World &, Co *, Fn &) {}

template< char K, bool Pull > struct FnOf;
template< char K > struct FnOf< K, true > { typedef PullFn< K > type; };
template< char K > struct FnOf< K, false > { typedef PushFn< K > type; };
template< char K > struct Wide { enum { v = (K == 'V' || K == 'R' || K == 'N') }; };

template< char K, bool Pull, bool W = Wide< K >::v > struct Make {
    typedef Handle< K, Pull > H; typedef typename H::PT PT; typedef typename FnOf< K, Pull >::type Fn;
    static unsigned variants() { return 3; }
    static void go(World & w, Co * co, H & h, unsigned v) {
        switch (v % 3) {
        case 0: h.p.reset(new PT(Fn(& w, co))); break;
        case 1: { Fn f(& w, co); co->lvalue_functors = 1; LV l(co); h.p.reset(new PT(X(w).pool.talloc, f)); if (f.dead) fail("functor.lvalue_modified", "coroutine-function passed as lvalue was moved from"); } break;
        default: h.p.reset(new PT(TAlloc(& w, VP_SAN ? 256 * 1024 : 32 * 1024), Fn(& w, co))); break;
        }
    }
    struct LV { Co * co; explicit LV(Co * c) : co(c) {} ~LV() { co->lvalue_functors = 0; } };
};
template< char K, bool Pull > struct Make< K, Pull, true > {
    typedef Handle< K, Pull > H; typedef typename H::PT PT; typedef typename FnOf< K, Pull >::type Fn;
    typedef Make< K, Pull, false > Base;
    static void go(World & w, Co * co, H & h, unsigned v) {
        switch (v % 8) {
        case 3: h.p.reset(new PT(co2::fixedsize_stack(VP_SAN ? 256 * 1024 : 64 * 1024), Fn(& w, co))); break;
        case 4: { Fn f(& w, co); co->lvalue_functors = 1; typename Base::LV l(co); h.p.reset(new PT(co2::protected_fixedsize_stack(), f)); if (f.dead) fail("functor.lvalue_modified", "coroutine-function passed as lvalue was moved from"); } break;
        case 5: h.p.reset(new PT(X(w).pool.pooled, Fn(& w, co))); break;
        case 6: { Fn f(& w, co); co->lvalue_functors = 1; typename Base::LV l(co); h.p.reset(new PT(f)); if (f.dead) fail("functor.lvalue_modified", "coroutine-function passed as lvalue was moved from"); } break;
        default: Base::go(w, co, h, v); break;
        }
    }
};

// run a library call that transfers control to co; classify what comes out
enum Res { Normal, Threw, Bad };

struct Caught { bool any; Exc e; Caught() : any(false) {} };

// what arrived must be exactly what left the body
inline void check_exc(World & w, Co * co, int me, uint64_t rp, Exc got) {
    w.back(me, rp);
    if (co->st != Complete) fail("exc.state", "exception came out of coroutine %d which is not complete", co->id);
    if (co->exc.k == XNone) fail("exc.spurious", "exception kind %d delivered, coroutine %d returned normally", got.k, co->id);
    if (got.k != co->exc.k || got.id != co->exc.id)
        fail("exc.wrong", "coroutine %d threw kind %d id %llu, resumer received kind %d id %llu", co->id, co->exc.k,
             (unsigned long long) co->exc.id, got.k, (unsigned long long) got.id);
    ++w.n_exc;
    w.ev('x', co->id, uint64_t(got.k));
}
// decides in advance whether the exception propagates through the current body
template< class F > inline bool guarded(World & w, Co * co, uint64_t rp, bool propagate, F f) {
    int me = w.curid(); Co * mec = w.cur(); Exc got;
    try { f(); }
    catch (EB const& e) { got.k = XB; got.id = e.id; if (e.id2 != mix(e.id)) fail("exc.wrong", "exception contents damaged"); check_exc(w, co, me, rp, got); if (propagate) { mec->exc = got; throw; } }
    catch (EA const& e) { got.k = XA; got.id = e.id; check_exc(w, co, me, rp, got); if (propagate) { mec->exc = got; throw; } }
    catch (EC const& e) { got.k = XC; got.id = e.id; check_exc(w, co, me, rp, got); if (propagate) { mec->exc = got; throw; } }
    catch (int e) { got.k = XI; got.id = uint64_t(e); check_exc(w, co, me, rp, got); if (propagate) { mec->exc = got; throw; } }
    catch (std::exception const& e) { fail("exc.unknown", "unexpected std::exception (%s) out of a resume of coroutine %d", e.what(), co->id); }
    catch (...) { fail("exc.unwind_leak", "foreign exception (forced unwinding?) out of a resume of coroutine %d", co->id); }
    if (got.k == XNone) {
        // control came back without exception
        if (co->st == Complete && co->exc.k != XNone) fail("exc.lost", "coroutine %d ended by exception kind %d but its resumer saw none", co->id, co->exc.k);
        return false;
    }
    return true;
}

inline void check_gone(World & w, Co * co, char const* how) {
    if ( ! co->guards.empty()) fail("unwind.leaked", "%s of coroutine %d: %zu locals still alive", how, co->id, co->guards.size());
    if (co->functors != co->lvalue_functors) fail("functor.leaked", "%s of coroutine %d: %d instances of its function alive", how, co->id, co->functors - co->lvalue_functors);
    if (co->stack >= 0 && w.stacks[co->stack].live) fail("alloc.leaked", "%s of coroutine %d: its stack was not deallocated", how, co->id);
    if (w.expect.what) fail("control.leave", "%s of coroutine %d: control transfer pending", how, co->id);
}

// one factory per payload kind; each is instantiated in its own translation unit (kinds.cpp)
struct Factory {
    HBase * (* fresh)(bool pull);
    void (* make)(World & w, Co * co, HBase & h, unsigned v);
};
template< char K > struct FactoryOf {
    static HBase * fresh(bool p) { return p ? (HBase *) new Handle< K, true > : (HBase *) new Handle< K, false >; }
    static void make(World & w, Co * co, HBase & h, unsigned v) {
        if (co->pull) Make< K, true >::go(w, co, static_cast< Handle< K, true > & >(h), v);
        else Make< K, false >::go(w, co, static_cast< Handle< K, false > & >(h), v);
    }
    static Factory get() { Factory f = { & fresh, & make }; return f; }
};
Factory factory_I(); Factory factory_B(); Factory factory_V(); Factory factory_M();
Factory factory_R(); Factory factory_C(); Factory factory_P(); Factory factory_N();
inline Factory factory(char k) {
    switch (k) {
    case 'I': return factory_I(); case 'B': return factory_B(); case 'V': return factory_V(); case 'M': return factory_M();
    case 'R': return factory_R(); case 'C': return factory_C(); case 'P': return factory_P(); default: return factory_N();
    }
}
struct CtorCall {
    World & w; Co * co; HBase * h; uint64_t rp; unsigned v;
    void operator()() const {
        int me = w.curid();
        if (co->pull) w.enter(co, rp);
        factory(co->kind).make(w, co, * h, v);
        if (co->pull) w.back(me, rp);
    }
};
inline HBase * new_handle(char k, bool p) { return factory(k).fresh(p); }
inline bool wide(char k) { return k == 'V' || k == 'R' || k == 'N'; }

struct ResumeCall { World & w; HBase * h; uint64_t rp; unsigned mode; void operator()() const { h->resume(w, rp, mode); } };

// create a coroutine; returns null if its construction threw
inline HBase * create(World & w, bool & threw, bool allow_prop = true) {
    char const* ks = w.prof.kinds;
    char kind = ks[w.rng.below(strlen(ks))];
    bool pull = w.rng.chance(50);
    Co * co = new Co();
    co->id = int(w.cos.size()); co->kind = kind; co->pull = pull; co->st = NotStarted;
    co->depth = w.cur() ? w.cur()->depth + 1 : 0; co->stack = -1;
    w.cos.push_back(co);
    ++w.n_created;
    HBase * h = new_handle(kind, pull);
    h->type = kind * 2 + pull;
    unsigned v = w.rng.below(8);
    co->suspend_pt = ++w.pt;
    uint64_t rp = ++w.pt;
    w.pull_ctor_alloc = -1;
    w.ev('c', co->id, kind * 16 + v);
    bool tracked = wide(kind) ? (v == 1 || v == 2 || v == 7) : v % 3 != 0;
    co->stack = tracked ? int(w.stacks.size()) : -1;
    // the handle belongs to the coroutine from the moment construction starts
    h->co = co;
    bool prop = allow_prop && w.cur() && w.rng.chance(25);
    CtorCall c = { w, co, h, rp, v };
    threw = false;
    bool ex;
    struct Del { HBase * h; ~Del() { delete h; } } del = { h };
    ex = guarded(w, co, rp, prop, c);
    if (tracked && (co->stack >= int(w.stacks.size()) || w.stacks[co->stack].allocs != 1))
        fail("alloc.count", "coroutine %d: the passed stack allocator was not used", co->id);
    if (ex) {
        co->st = Gone; check_gone(w, co, "failed construction");
        threw = true;
        return 0;
    }
    if (pull) {
        if (co->st != Suspended && co->st != Complete) fail("control.ctor", "pull constructor returned but coroutine %d is in state %d", co->id, co->st);
        if ( ! co->entered) fail("control.ctor", "pull constructor did not enter the coroutine-function");
    } else if (co->entered) fail("control.ctor", "push constructor entered the coroutine-function");
    del.h = 0;
    check_valid(w, * h);
    return h;
}

// destroy the coroutine owned by a handle; `act` performs the library operation doing it
struct ResetAct { HBase * h; void operator()() const { h->reset(); } };
struct AssignAct { HBase * h; HBase * o; void operator()() const { h->assign(* o); } };
template< class F > inline void destroy_model(World & w, Co * co, F act, char const* how) {
    Co * me = w.cur();
    if ( ! co) { act(); if (w.cur() != me || w.expect.what) fail("control.leave", "destroying an empty handle transferred control"); return; }
    St st = co->st;
    w.ev('D', co->id, st);
    if (st == Suspended) {
        co->unwinding = true; co->st = Active;
        w.chain.push_back(co);
        w.expect.what = 1; w.expect.co = co->id; w.expect.pt = ~0ull;
    }
    act();
    if (st == Suspended) {
        if (w.expect.what == 1) fail("unwind.missing", "%s of suspended coroutine %d did not unwind it", how, co->id);
        if (w.cur() != co) fail("unwind.context", "after %s context %d runs", how, w.curid());
        if (co->st != Gone) fail("unwind.missing", "%s of suspended coroutine %d did not finish its body", how, co->id);
        w.chain.pop_back();
    }
    if (w.cur() != me) fail("control.leave", "context changed by %s", how);
    if (st == NotStarted && co->entered) fail("unwind.entered", "%s of a never started coroutine entered its body", how);
    co->st = Gone;
    check_gone(w, co, how);
    ++w.n_destroyed;
}
inline void destroy(World & w, HBase * h) {
    h->busy = true;
    ResetAct a = { h };
    destroy_model(w, h->co, a, "destruction");
    h->co = 0;
    delete h;
}

inline HBase * pick(World & w, bool resumable) {
    std::vector< HBase * > c;
    std::vector< HBase * > & v = X(w).pool.v;
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (v[i]->busy || (v[i]->co && v[i]->co->st == Active)) continue;
        if (resumable && ! model_valid(* v[i])) continue;
        c.push_back(v[i]);
    }
    if (c.empty()) return 0;
    return c[w.rng.below(c.size())];
}
// a push-handle stays valid while its own function, or anything that runs on top of it, is running
inline void check_running(World & w) {
    std::vector< HBase * > & v = X(w).pool.v;
    for (std::size_t i = 0; i < v.size(); ++i) {
        HBase * h = v[i];
        if ( ! h->co || h->co->pull || h->co->st != Active || ! h->live()) continue;
        ++w.n_query;
        if ( ! h->valid() || h->notvalid()) fail("valid.handle", "handle of push-coroutine %d (kind %c) is invalid while its function is running", h->co->id, h->co->kind);
        vp::count("validity_while_running");
    }
}
inline void drop(World & w, HBase * h) {
    std::vector< HBase * > & v = X(w).pool.v;
    for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == h) { v.erase(v.begin() + i); return; }
    fail("harness.bug", "handle not in pool");
}
inline void resume(World & w, HBase * h, bool allow_prop) {
    Co * co = h->co;
    h->busy = true;
    uint64_t rp = ++w.pt;
    unsigned mode = w.rng.below(24);
    bool prop = allow_prop && w.cur() && w.rng.chance(25);
    struct Unbusy { HBase * h; ~Unbusy() { h->busy = false; } } u = { h };
    ResumeCall rc = { w, h, rp, mode };
    guarded(w, co, rp, prop, rc);
    if (co->st != Suspended && co->st != Complete) fail("control.state", "resume returned but coroutine %d is in state %d", co->id, co->st);
    check_valid(w, * h);
}
// one operation on the shared pool of handles, from whatever context is running
inline void pool_op_(World & w, bool allow_prop);
struct Odd { long x; };
struct OpInDtor { World & w; ~OpInDtor() { pool_op_(w, false); } };
inline void pool_op(World & w, bool allow_prop) {
    // now and then from a destructor while an exception unwinds the caller, or from a handler
    switch (w.rng.below(24)) {
    case 0: ++w.n_odd; try { OpInDtor o = { w }; (void) o; throw Odd{ 1 }; } catch (Odd const&) {} break;
    case 1: ++w.n_odd; try { throw Odd{ 2 }; } catch (Odd const& o) { pool_op_(w, false); if (o.x != 2) fail("exc.local", "exception object changed while its handler ran other coroutines"); } break;
    default: pool_op_(w, allow_prop);
    }
}
inline void pool_op_(World & w, bool allow_prop) {
    Profile const& p = w.prof;
    unsigned tot = p.w_create + p.w_resume + p.w_read + p.w_query + p.w_movec + p.w_movea + p.w_selfm + p.w_destroy;
    unsigned r = w.rng.below(tot);
    Pool & pool = X(w).pool;
    if (r < p.w_create) {
        unsigned depth = w.chain.size();
        if (pool.v.size() >= p.maxlive || depth > 6) return;
        bool threw; HBase * h = create(w, threw, allow_prop);
        if (h) pool.v.push_back(h);
        return;
    }
    r -= p.w_create;
    if (r < p.w_resume) {
        if (w.chain.size() > 7) return;
        HBase * h = pick(w, true);
        if (h) resume(w, h, allow_prop);
        return;
    }
    r -= p.w_resume;
    if (r < p.w_read) {
        HBase * h = pick(w, true);
        if (h && h->co->pull) { unsigned m = w.rng.below(12); h->read(w, m); w.ev('v', h->co->id, h->co->val); }
        return;
    }
    r -= p.w_read;
    if (r < p.w_query) {
        if (w.rng.chance(30)) { check_running(w); return; }
        HBase * h = pick(w, false); if (h) check_valid(w, * h);
        return;
    }
    r -= p.w_query;
    if (r < p.w_movec) {
        HBase * h = pick(w, false); if ( ! h) return;
        if (pool.v.size() >= p.maxlive + 4) return;
        uint64_t e0 = w.pt;
        Co * moved = h->co;
        unsigned f0 = w.live_fns.size(), v0 = w.live_vals.size();
        HBase * n = h->move_out();
        if (w.pt != e0 || w.live_fns.size() != f0 || w.live_vals.size() != v0) fail("move.effect", "move construction ran or copied something");
        pool.v.push_back(n);
        ++w.n_move; w.ev('m', moved ? moved->id : -1);
        check_valid(w, * n); check_valid(w, * h);
        return;
    }
    r -= p.w_movec;
    if (r < p.w_movea) {
        HBase * d = pick(w, false); if ( ! d) return;
        HBase * s = 0;
        for (std::size_t i = 0, o = w.rng.below(pool.v.size()); i < pool.v.size(); ++i) {
            HBase * c = pool.v[(i + o) % pool.v.size()];
            if (c != d && c->type == d->type && ! c->busy && ! (c->co && c->co->st == Active)) { s = c; break; }
        }
        if ( ! s) return;
        d->busy = s->busy = true;
        AssignAct a = { d, s };
        Co * old = d->co;
        Co * src = s->co;
        d->co = src; // while the old coroutine unwinds nobody looks at d (busy)
        s->co = 0;
        destroy_model(w, old, a, "move assignment over the handle");
        d->busy = s->busy = false;
        ++w.n_move; w.ev('M', src ? src->id : -1, old ? old->id + 1 : 0);
        check_valid(w, * d); check_valid(w, * s);
        if (src && src->pull && src->st == Suspended && ! src->consumed) d->read(w, 1);
        return;
    }
    r -= p.w_movea;
    if (r < p.w_selfm) {
        HBase * h = pick(w, false); if ( ! h) return;
        h->assign(* h);
        ++w.n_move; w.ev('s', h->co ? h->co->id : -1);
        check_valid(w, * h);
        return;
    }
    HBase * h = pick(w, false); if ( ! h) return;
    drop(w, h);
    destroy(w, h);
}

// a coroutine owned by a local of a body
struct LocalH {
    World & w; Co * owner; HBase * h;
    LocalH(World & w_, Co * o) : w(w_), owner(o), h(0) {}
    ~LocalH() { w.unwind_touch(owner); if (h) destroy(w, h); }
    LocalH(LocalH const&) = delete;
};
// a local whose destructor drives other coroutines
struct BusyGuard {
    World & w; Co * co;
    BusyGuard(World & w_, Co * c) : w(w_), co(c) {}
    ~BusyGuard() {
        w.unwind_touch(co);
        if (w.draining || ! w.budget) return;
        // Boost.Context's ucontext backend cannot switch contexts while a fiber is being
        // force-unwound; only the "+" modes (fcontext) do it.
        if (co->unwinding && ! w.unwind_resume) return;
        --w.budget;
        HBase * h = pick(w, true);
        if (h && co->unwinding) ++w.n_unwind_resume;
        if (h && w.chain.size() < 6) resume(w, h, false);
    }
    BusyGuard(BusyGuard const&) = delete;
};

[[noreturn]] inline void throw_some(World & w, Co * co) {
    uint64_t id = ++w.vid;
    int k = 1 + int(w.rng.below(4));
    co->exc.k = k; co->exc.id = k == XI ? (id & 0xffffff) : id;
    w.ev('t', co->id, k);
    switch (k) {
    case XA: throw EA(& w, id);
    case XB: throw EB(& w, id);
    case XC: throw EC(& w, id);
    default: throw int(id & 0xffffff);
    }
}
inline void caught_local(World & w, Co * co, int k, uint64_t id) {
    if (co->exc.k != k || co->exc.id != id) fail("exc.local", "body of %d caught kind %d id %llu, in flight was kind %d id %llu", co->id, k, (unsigned long long) id, co->exc.k, (unsigned long long) co->exc.id);
    co->exc = Exc();
    w.ev('h', co->id, k);
}

struct Locals {
    World & w; Co * co; uint64_t key; uint64_t a, b, c, d; double x, y; float z; unsigned char buf[120];
    Locals(World & w_, Co * co_, uint64_t k) : w(w_), co(co_), key(k), a(mix(k)), b(mix(k + 1)), c(mix(k + 2)), d(mix(k + 3)),
        x(double(k >> 11)), y(double(k >> 20) / 3), z(float(k >> 40)) { for (int i = 0; i < 120; ++i) buf[i] = (unsigned char) (key >> (i % 56)); }
    void check() const {
        bool o = a == mix(key) && b == mix(key + 1) && c == mix(key + 2) && d == mix(key + 3) && x == double(key >> 11) && y == double(key >> 20) / 3 && z == float(key >> 40);
        for (int i = 0; o && i < 120; ++i) o = buf[i] == (unsigned char) (key >> (i % 56));
        if ( ! o) fail("state.locals", "locals of coroutine %d changed while it was suspended", co->id);
    }
};

inline void frame_ops(World & w, Co * co, Port & port, int depth) {
    Profile const& p = w.prof;
    Locals loc(w, co, w.rng.next());
    unsigned n = 1 + w.rng.below(depth ? 5 : 14);
    unsigned tot = p.b_yield + p.b_frame + p.b_try + p.b_pool + p.b_throw + p.b_finish + p.b_local + p.b_verify;
    for (unsigned i = 0; i < n; ++i) {
        if (w.draining || ! w.budget) return;
        --w.budget;
        unsigned r = w.rng.below(tot);
        if (r < p.b_yield) { unsigned m = w.rng.below(60); port.yield(w, co, m); loc.check(); continue; }
        r -= p.b_yield;
        if (r < p.b_frame) { if (depth < 6) frame(w, co, port, depth + 1); loc.check(); continue; }
        r -= p.b_frame;
        if (r < p.b_try) {
            if (depth >= 6) continue;
            bool broad = w.rng.chance(30);
            try {
                try { frame(w, co, port, depth + 1); }
                catch (boost::context::detail::forced_unwind const&) { throw; }
                catch (...) { if (co->unwinding) fail("exc.unwind_visible", "forced unwinding visible as ordinary exception"); if (broad) throw; throw; }
            }
            catch (EB const& e) { caught_local(w, co, XB, e.id); }
            catch (EA const& e) { caught_local(w, co, XA, e.id); }
            catch (EC const& e) { caught_local(w, co, XC, e.id); }
            catch (int e) { if (broad) throw; caught_local(w, co, XI, uint64_t(e)); }
            loc.check();
            continue;
        }
        r -= p.b_try;
        if (r < p.b_pool) { pool_op(w, true); loc.check(); continue; }
        r -= p.b_pool;
        if (r < p.b_throw) throw_some(w, co);
        r -= p.b_throw;
        if (r < p.b_finish) { if (depth == 0) return; continue; }
        r -= p.b_finish;
        if (r < p.b_local) {
            if (w.chain.size() > 5 || depth >= 6) continue;
            LocalH l(w, co);
            bool threw;
            l.h = create(w, threw);
            ++w.n_local;
            unsigned m = w.rng.below(4);
            for (unsigned k = 0; k < m && l.h && model_valid(* l.h); ++k) {
                if (w.rng.chance(70)) { if (w.chain.size() < 7) resume(w, l.h, true); }
                else if (w.rng.chance(60)) { unsigned mm = w.rng.below(60); port.yield(w, co, mm); }
                else if (w.rng.chance(40)) frame(w, co, port, depth + 1);
            }
            if (w.rng.chance(30)) { BusyGuard b(w, co); if (w.rng.chance(60)) { unsigned mm = w.rng.below(60); port.yield(w, co, mm); } }
            loc.check();
            continue;
        }
        loc.check();
    }
}
inline void frame(World & w, Co * co, Port & port, int depth) {
    Guard g(w, co);
    ++w.n_frames;
    if (w.rng.chance(50)) { Guard g2(w, co); frame_ops(w, co, port, depth); }
    else frame_ops(w, co, port, depth);
}

inline void run_main(WorldX & w, unsigned steps) {
    for (unsigned i = 0; i < steps; ++i) {
        pool_op(w, false);
        if ( ! w.chain.empty() || w.expect.what) fail("control.leave", "main context regained control with a transfer pending");
    }
}
inline void drain(WorldX & w) {
    w.draining = true;
    while ( ! w.pool.v.empty()) {
        std::size_t k = w.rng.below(w.pool.v.size());
        HBase * h = w.pool.v[k];
        if (w.rng.chance(35)) { int g = 0; while (model_valid(* h)) { resume(w, h, false); if (++g > 64) fail("hang.drain", "coroutine does not finish"); } }
        drop(w, h);
        destroy(w, h);
    }
    if ( ! w.live_vals.empty()) fail("life.leak", "%zu transferred objects never destroyed", w.live_vals.size());
    if ( ! w.live_guards.empty()) fail("unwind.leaked", "%zu locals never destroyed", w.live_guards.size());
    if ( ! w.live_fns.empty()) fail("functor.leaked", "%zu coroutine-function instances never destroyed", w.live_fns.size());
    if (w.live_exc) fail("exc.leak", "%ld exception objects never destroyed", w.live_exc);
    for (std::size_t i = 0; i < w.stacks.size(); ++i) if (w.stacks[i].live || w.stacks[i].deallocs != 1) fail("alloc.leaked", "stack %zu deallocated %d times", i, w.stacks[i].deallocs);
}
static Profile const profiles[] = {
    //           name      steps budget cr  rs  rd  q mc ma sm de   y  f  t  p  th fi lo ve max kinds
    { "mixed",    60, 500,  8, 30, 12,  6, 4, 4, 1, 5, 30,10, 8,14, 4, 4, 5, 5, 10, "IBVMRCPN" },
    { "transfer", 80, 700,  6, 45, 30,  3, 1, 1, 0, 2, 50,10, 3, 8, 1, 2, 2, 3,  8, "IBVMIV" },
    { "refs",     80, 700,  6, 45, 30,  3, 1, 1, 0, 2, 50,10, 3, 8, 1, 2, 2, 3,  8, "RCP" },
    { "exc",      60, 500, 12, 30,  4,  6, 2, 2, 0, 4, 22, 8,14,14,12, 4, 6, 2, 10, "IVRN" },
    { "unwind",   60, 600, 14, 22,  3,  3, 2, 5, 0,14, 34,16, 6,12, 2, 2, 8, 2, 12, "IVMRN" },
    { "moves",    90, 400, 10, 22,  8, 12,14,16, 6,10, 40, 5, 3, 8, 2, 4, 3, 2, 14, "IVRN" },
    { "nest",     40, 900, 10, 30,  6,  3, 2, 2, 0, 3, 16,10, 6,34, 3, 2,14, 2, 14, "IVMRN" },
    { "observe",  60, 400, 10, 28,  8, 25, 5, 5, 2, 7, 30, 6, 5,10, 5, 8, 4, 1, 12, "IBVMRCPN" },
    { "state",    40, 700,  7, 40,  8,  2, 2, 2, 0, 3, 34,30, 4, 8, 2, 1, 4,14,  9, "IBVR" },
};
inline Profile const& profile(std::string n) {
    if ( ! n.empty() && n[n.size() - 1] == '+') n.resize(n.size() - 1);
    for (std::size_t i = 0; i < sizeof profiles / sizeof profiles[0]; ++i) if (n == profiles[i].name) return profiles[i];
    fprintf(stderr, "unknown profile %s\n", n.c_str()); exit(3);
}
inline void tally(World & w) {
    vp::count("switches", w.n_switch); vp::count("values", w.n_val); vp::count("reads", w.n_reads); vp::count("exceptions", w.n_exc);
    vp::count("locals_unwound", w.n_unwound); vp::count("frames", w.n_frames); vp::count("tracked_stacks", w.n_alloc);
    vp::count("handle_moves", w.n_move); vp::count("validity_queries", w.n_query); vp::count("local_coroutines", w.n_local);
    vp::count("coroutines_destroyed", w.n_destroyed); vp::count("coroutines", w.n_created); vp::count("events", w.events); if (w.n_odd) vp::count("operations_in_handlers_and_unwinding_destructors", w.n_odd); if (w.n_unwind_resume) vp::count("resumes_during_unwinding", w.n_unwind_resume);
    { vp::Global & g = vp::G(); std::lock_guard< std::mutex > l(g.mx); uint64_t & m = g.counters["max_chain"]; if (w.maxchain > m) m = w.maxchain; }
}
#endif
