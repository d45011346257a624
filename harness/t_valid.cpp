// C04: validity tests: exact at every point, and without effect (same program with and without tests).
#include "anyco.hpp"
#include <functional>
#include <string>

namespace {
struct Plan { int v; int n; int end; int stop; std::vector< int > inner; int mv; bool lv; };   // end: 0 return 1 throw int 2 throw std 3 caught inside then return
struct Trace { std::vector< uint64_t > e; void add(uint64_t a, uint64_t b) { e.push_back(mix(a * 1000003 + b)); } };
struct Obs { vp::Rng r; bool on; uint64_t done; };

void look(AnyCo & c, bool want, Obs & o, char const* where) {
    int k = o.on ? 1 + o.r.below(4) : 0;
    for (int i = 0; i < k; ++i) {
        ++o.done;
        switch (o.r.below(4)) {
        case 0: if (c.valid() != want) fail("valid.handle", "%s %s: operator bool is %d, coroutine is %s", vname(c.variant), where, ! want, want ? "usable" : "complete"); break;
        case 1: if (c.notvalid() == want) fail("valid.handle", "%s %s: operator! is %d", vname(c.variant), where, want); break;
        case 2: if (c.at_end() == want) fail("valid.iter", "%s %s: begin()==end() is %d", vname(c.variant), where, want); break;
        default: { AnyCo const& k2 = c; if (k2.valid() == k2.notvalid() || k2.valid() != want) fail("valid.handle", "%s %s: const tests", vname(c.variant), where); } break;
        }
    }
}
void port(AnyPort & p, Obs & o, char const* where) {
    int k = o.on ? 1 + o.r.below(3) : 0;
    for (int i = 0; i < k; ++i) { ++o.done; if ( ! p.valid()) fail("valid.port", "%s: handle of the running function tests false %s", vname(p.variant), where); }
}
Trace run(Plan const& pl, Obs & o) {
    Trace t; bool pull = is_pull(pl.v); int thrown = 0; AnyCo * self = nullptr;
    // the outer handle, tested by the function it runs (push: valid until the function has returned or thrown)
    auto own = [&](char const* where) { if ( ! pull && self) { look(* self, true, o, where); if (o.on) vp::count("own_handle_tests"); } };
    Body b = [&](AnyPort & p) {
        port(p, o, "at entry"); own("own handle at entry");
        for (int i = 0; i < pl.n; ++i) {
            t.add(1, i);
            if (pl.inner[i % pl.inner.size()] == 1) { try { port(p, o, "in try"); throw i; } catch (int x) { t.add(2, x); port(p, o, "in handler"); own("own handle in handler"); } }
            if (pl.inner[i % pl.inner.size()] == 2) { // a nested coroutine in between
                std::unique_ptr< AnyCo > c = make_co(PullV, [&](AnyPort & q) { own("handle of the resumer"); q.xfer(7); own("handle of the resumer"); }); look(* c, true, o, "inner"); c->resume(); look(* c, false, o, "inner complete"); port(p, o, "after inner"); }
            if (pull) { p.xfer(i + 1); } else { t.add(3, p.current()); port(p, o, "with value"); if (i + 1 < pl.n) p.xfer(0); }
            port(p, o, "after resumption"); own("own handle after resumption");
        }
        t.add(4, 0);
        if (pl.end == 1) { thrown = 1; throw 77; }
        if (pl.end == 2) { thrown = 1; throw std::runtime_error("x"); }
        if (pl.end == 3) { try { throw 5; } catch (int) { port(p, o, "before return"); } }
    };
    std::unique_ptr< AnyCo > c;
    bool complete = false;
    try { c = make_co(pl.v, b, 0, pl.lv); } catch (int) { t.add(9, 1); return t; } catch (std::runtime_error const&) { t.add(9, 2); return t; }
    self = c.get();
    int left = pl.n; // resumes until complete
    complete = pull ? pl.n == 0 : false;
    look(* c, ! complete, o, "after construction");
    for (int j = 0; j < pl.stop && ! complete; ++j) {
        if (pull) { t.add(5, c->value(0)); look(* c, true, o, "after reading"); t.add(5, c->value(1)); }
        if (pl.mv == j) { std::unique_ptr< AnyCo > d = c->moved(); look(* c, false, o, "moved from"); look(* d, true, o, "moved to"); c->assign(* d); look(* d, false, o, "moved from by assignment"); look(* c, true, o, "moved to by assignment"); }
        --left;
        try { c->resume(100 + j, j); t.add(6, j); } catch (int x) { t.add(7, x); } catch (std::runtime_error const&) { t.add(8, 0); }
        complete = pull ? left == 0 : (left <= 0 || pl.n == 0);
        look(* c, ! complete, o, complete ? "after completion" : "after a resume");
        if (complete && thrown) look(* c, false, o, "after exception");
    }
    t.add(10, complete);
    if (complete) { std::unique_ptr< AnyCo > d = c->moved(); look(* c, false, o, "moved from, complete"); look(* d, false, o, "complete, moved"); }
    if ( ! c->valid() && ! complete) fail("valid.handle", "handle invalid");
    return t;
}
// validity must not depend on the value
template< class T, class Mk > void falsy(Mk mk, char const* n) {
    typedef co2::coroutine< T > C;
    { typename C::pull_type p([&](typename C::push_type & s) { for (int i = 0; i < 3; ++i) { if ( ! s) fail("valid.port", "%s", n); s(mk()); } });
      for (int i = 0; i < 3; ++i) { if ( ! p || ! ! ! p || begin(p) == end(p) || p.begin() == p.end()) fail("valid.handle", "%s: handle with value %d pending tests false", n, i); p(); }
      if (p || begin(p) != end(p)) fail("valid.handle", "%s: complete handle tests true", n); }
    { int got = 0; typename C::push_type p([&](typename C::pull_type & s) { for (int i = 0; i < 3; ++i) { if ( ! s || begin(s) == end(s)) fail("valid.port", "%s: source handle with a value tests false", n); ++got; if (i < 2) s(); } });
      for (int i = 0; i < 3; ++i) { if ( ! p || begin(p) == end(p)) fail("valid.handle", "%s: push handle before completion", n); p(mk()); }
      if (p || got != 3) fail("valid.handle", "%s: push handle after completion", n); }
}
struct BoolTrap { operator bool() const { fail("valid.value_tested", "the value's own conversion was used"); return false; } bool operator!() const { fail("valid.value_tested", "the value's operator! was used"); return true; } };
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 65537);
        if (i % 64 == 63) {
            vp::begin_case(i, "falsy values");
            falsy< int >([] { return 0; }, "int 0"); falsy< bool >([] { return false; }, "false"); falsy< void * >([] { return (void *) 0; }, "null"); falsy< double >([] { return 0.0; }, "0.0");
            falsy< std::string >([] { return std::string(); }, "empty string"); falsy< std::unique_ptr< int > >([] { return std::unique_ptr< int >(); }, "null unique_ptr"); falsy< std::function< void() > >([] { return std::function< void() >(); }, "empty function");
            falsy< BoolTrap >([] { return BoolTrap(); }, "trap"); static int z = 0; falsy< int & >([]() -> int & { return z; }, "int&"); static char const ch = 0; falsy< char const& >([]() -> char const& { return ch; }, "char const&");
            vp::end_case(1, true); continue;
        }
        Plan p; p.v = int(i % NVariants); p.n = int((i / 6) % 7); p.end = int((i / 42) % 4); p.stop = r.chance(60) ? 100 : int(r.below(8)); p.mv = int(r.below(10)); p.lv = r.chance(30);
        int ni = 1 + int(r.below(3)); for (int k = 0; k < ni; ++k) p.inner.push_back(int(r.below(3)));
        vp::begin_case(i, vp::fmt("valid %s n=%d end=%d stop=%d", vname(p.v), p.n, p.end, p.stop));
        Obs off = { vp::Rng(1), false, 0 }, on = { vp::Rng(r.next()), true, 0 };
        Trace t0 = run(p, off), t1 = run(p, on);
        if (t0.e != t1.e) { std::size_t k = 0; while (k < t0.e.size() && k < t1.e.size() && t0.e[k] == t1.e[k]) ++k; fail("valid.effect", "%s: validity tests change the run (event %zu; %zu vs %zu events)", vname(p.v), k, t0.e.size(), t1.e.size()); }
        if (Tok::live()) fail("life.leak", "%ld values alive", long(Tok::live()));
        vp::count("validity_tests", on.done); vp::count("events_compared", t0.e.size());
        uint64_t h = p.v + p.n * 7 + p.end * 61 + p.stop * 599 + p.mv * 10007; for (int x : p.inner) h = mix(h + x);
        vp::end_case(h, p.n > 0, vp::fmt("%s n=%d end=%d stop=%d tests=%llu", vname(p.v), p.n, p.end, p.stop, (unsigned long long) on.done));
    }
    return vp::finish();
}
