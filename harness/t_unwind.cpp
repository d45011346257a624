// C06: destruction of suspended / never started / complete coroutines.
#include "anyco.hpp"
#include <deque>

namespace {
struct Log { std::vector< int > ev; std::set< uintptr_t > live; int next; Log() : next(0) {} };
// a local: logs +id at construction and -id at destruction
struct L { Log & g; int id; char pad[40]; explicit L(Log & x) : g(x), id(++x.next) { g.ev.push_back(id); g.live.insert((uintptr_t) this); for (int i = 0; i < 40; ++i) pad[i] = char(id + i); }
    ~L() { for (int i = 0; i < 40; ++i) if (pad[i] != char(id + i)) fail("state.locals", "local damaged before destruction"); g.ev.push_back(-id); g.live.erase((uintptr_t) this); }
    L(L const&) = delete; };
// the destroy events must mirror construction: LIFO, everything destroyed
void check_lifo(Log const& g, char const* what) {
    std::vector< int > st;
    for (std::size_t i = 0; i < g.ev.size(); ++i) {
        int e = g.ev[i];
        if (e > 0) { st.push_back(e); continue; }
        if (st.empty() || st.back() != -e) fail("unwind.lifo", "%s: local %d destroyed out of order", what, -e);
        st.pop_back();
    }
    if ( ! st.empty()) fail("unwind.leaked", "%s: %zu locals never destroyed", what, st.size());
}
struct St { Log log; int after; int cleanups; int entered; int body_steps; std::vector< std::unique_ptr< AnyCo > > * extra; St() : after(0), cleanups(0), entered(0), body_steps(0), extra(0) {} };

void nestf(St & s, AnyPort & p, int depth, int total, bool handlers) {
    L a(s.log);
    std::unique_ptr< L > heap(new L(s.log));
    if (depth > 0) {
        if (handlers) {
            try { nestf(s, p, depth - 1, total, handlers); }
            catch (...) { ++s.cleanups; throw; }
        } else nestf(s, p, depth - 1, total, handlers);
        return;
    }
    for (int i = 0; i < total; ++i) {
        L b(s.log);
        ++s.body_steps;
        if (i & 1) { L c(s.log); p.xfer(i + 1); }
        else p.xfer(i + 1);
        ++s.after;
    }
}

void one(vp::Rng & r, uint64_t ci) {
    int v = int(ci % NVariants);
    int depth = int((ci / NVariants) % 5);
    int total = 1 + r.below(6);
    int stop = r.below(total + 2);         // number of resumes made from outside
    int mode = int((ci / NVariants / 5) % 9);
    bool handlers = r.chance(50);
    St s;
    AllocState st(VP_SAN ? 256 * 1024 : 64 * 1024, r.next());
    long dealloc_locals = -1;
    st.on_dealloc = [&](char * lo, char * hi) { dealloc_locals = std::distance(s.log.live.lower_bound((uintptr_t) lo), s.log.live.lower_bound((uintptr_t) hi)); };
    AllocState * sp = r.chance(70) ? & st : 0;
    int after_before = 0, steps_before = 0;
    bool was_susp = false, never = false;
    Body b = [&](AnyPort & p) { ++s.entered; nestf(s, p, depth, total, handlers); };
    auto prep = [&](AnyCo & c) {
        for (int i = 0; i < stop && c.valid(); ++i) c.resume(1, unsigned(i + 1));
        after_before = s.after; steps_before = s.body_steps;
        never = s.entered == 0; was_susp = c.valid() && ! never;
    };
    char const* mname = "";
    switch (mode) {
    case 0: { mname = "scope"; std::unique_ptr< AnyCo > c = make_co(v, b, sp, r.chance(50)); prep(* c); } break;
    case 1: { mname = "assign"; std::unique_ptr< AnyCo > c = make_co(v, b, sp); prep(* c);
              int ran = 0; std::unique_ptr< AnyCo > d = make_co(v, [&](AnyPort & p) { ++ran; p.xfer(5); });
              c->assign(* d);
              check_lifo(s.log, "assign over");
              if (st.outstanding) fail("alloc.leaked", "stack of the replaced coroutine not returned by move assignment");
              if (d->valid() || ! c->valid()) fail("move.state", "validity after move assignment");
            } break;
    case 2: { mname = "exception"; try { std::unique_ptr< AnyCo > c = make_co(v, b, sp); prep(* c); throw 42; } catch (int e) { if (e != 42) fail("exc.wrong", "exception changed"); check_lifo(s.log, "exception propagation"); if (sp && st.outstanding) fail("alloc.leaked", "stack not returned during exception propagation"); } } break;
    case 3: { mname = "moved"; std::unique_ptr< AnyCo > c = make_co(v, b, sp); prep(* c); std::unique_ptr< AnyCo > d = c->moved(); std::size_t n = s.log.ev.size(); c.reset(); if (s.log.ev.size() != n) fail("move.effect", "destroying a moved-from handle unwound something"); } break;
    case 4: { mname = "container"; std::deque< std::unique_ptr< AnyCo > > q; for (int i = 0; i < 3; ++i) q.push_back(make_co(PullN, [](AnyPort & p) { p.xfer(0); })); q.push_back(make_co(v, b, sp)); prep(* q.back()); if (r.chance(50)) q.pop_back(); else q.clear(); } break;
    case 5: { mname = "inside another coroutine"; // owner coroutine holds it as a local and is destroyed while suspended
              int ov = r.below(NVariants);
              std::unique_ptr< AnyCo > o = make_co(ov, [&](AnyPort & p) { std::unique_ptr< AnyCo > c = make_co(v, b, sp); prep(* c); p.xfer(1); p.xfer(2); });
              if ( ! is_pull(ov)) o->resume(1);
              std::size_t n = s.log.ev.size();
              o.reset();
              if (was_susp && s.log.ev.size() == n) fail("unwind.missing", "owned coroutine not unwound with its owner");
              check_lifo(s.log, "owner destroyed"); } break;
    case 6: { mname = "from another coroutine"; std::unique_ptr< AnyCo > c = make_co(v, b, sp); prep(* c);
              std::unique_ptr< AnyCo > o = make_co(PullN, [&](AnyPort & p) { c.reset(); check_lifo(s.log, "destroyed by another coroutine"); p.xfer(0); });
              if ( ! o->valid()) fail("control.state", "outer coroutine lost"); } break;
    case 7: { mname = "destructor"; struct D { std::unique_ptr< AnyCo > c; Log & g; ~D() { c.reset(); check_lifo(g, "in destructor"); } }; try { D d = { make_co(v, b, sp), s.log }; prep(* d.c); throw 1; } catch (int) {} } break;
    default: { mname = "chain"; // c owns, in its frame, a coroutine which owns another one
              std::unique_ptr< AnyCo > o = make_co(PullR, [&](AnyPort & p) { L a(s.log); std::unique_ptr< AnyCo > i = make_co(PullN, [&](AnyPort & q) { L c(s.log); std::unique_ptr< AnyCo > in = make_co(v, b, sp); prep(* in); L d(s.log); q.xfer(0); }); L e(s.log); p.xfer(9); });
              o.reset(); } break;
    }
    check_lifo(s.log, mname);
    if (s.after != after_before || s.body_steps != steps_before) fail("unwind.ran_on", "%s, %s: statements after the suspension point ran during destruction", vname(v), mname);
    if (never && s.entered) fail("unwind.entered", "%s: never started coroutine entered by destruction", vname(v));
    if (never && mode != 8 && ! s.log.ev.empty()) fail("unwind.entered", "%s: locals of a never started coroutine", vname(v));
    int want_clean = was_susp && handlers ? depth : 0;
    if (s.cleanups != want_clean) fail("unwind.handlers", "%s, %s: %d cleanup handlers ran, expected %d", vname(v), mname, s.cleanups, want_clean);
    if (sp) { if (st.outstanding || st.allocs != 1 || st.deallocs != 1) fail("alloc.leaked", "%s, %s: stack allocs %d deallocs %d", vname(v), mname, st.allocs, st.deallocs);
              if (dealloc_locals != 0) fail("alloc.live_locals", "%s, %s: stack returned with %ld live locals", vname(v), mname, dealloc_locals); }
    if (Tok::live()) fail("life.leak", "%s, %s: %ld values alive", vname(v), mname, long(Tok::live()));
    vp::count("locals_tracked", s.log.next);
    vp::count(was_susp ? "suspended_destroyed" : never ? "never_started_destroyed" : "complete_destroyed");
    vp::end_case(mix(v + depth * 7 + total * 61 + stop * 599 + mode * 6151 + handlers * 50021), was_susp || never, vp::fmt("%s depth=%d suspensions=%d resumes=%d mode=%s handlers=%d", vname(v), depth, total, stop, mname, int(handlers)));
}
// deep stacks of owned coroutines: unwinding goes from the inside out, each level once
void tower(vp::Rng & r) {
    int n = 2 + r.below(24);
    Log log; int order_bad = 0;
    std::vector< int > destroyed;
    std::function< void(AnyPort &, int) > lev = [&](AnyPort & p, int k) {
        L a(log);
        struct Mark { std::vector< int > & d; int k; ~Mark() { d.push_back(k); } } m = { destroyed, k };
        std::unique_ptr< AnyCo > inner;
        if (k < n) { inner = make_co(k % 3, [&lev, k](AnyPort & q) { lev(q, k + 1); }); }
        p.xfer(uint64_t(k));
        if (inner && inner->valid()) inner->resume();
        p.xfer(uint64_t(k));
    };
    {
        std::unique_ptr< AnyCo > c = make_co(PullV, [&](AnyPort & p) { lev(p, 0); });
        unsigned k = r.below(3);
        for (unsigned i = 0; i < k && c->valid(); ++i) c->resume();
        c.reset();
    }
    check_lifo(log, "tower");
    if (int(destroyed.size()) != n + 1) fail("unwind.leaked", "tower of %d: %zu levels unwound", n + 1, destroyed.size());
    for (int i = 0; i <= n; ++i) if (destroyed[i] != n - i) ++order_bad;
    if (order_bad) fail("unwind.lifo", "tower not unwound from the inside out");
    vp::count("tower_levels", n + 1);
    vp::end_case(mix(n * 17 + 3), true);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv);
    vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::begin_case(i, vp::fmt("unwind seed=%llu", (unsigned long long) a.seed));
        vp::Rng r(mix(a.seed) + i * 977);
        if (i % 50 == 49) tower(r); else one(r, i - i / 50);
    }
    return vp::finish();
}
