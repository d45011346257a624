// C17: programs composed of several coroutines against the same program without coroutines.
#include "vp.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
namespace {
typedef co2::coroutine< long > CL; typedef co2::coroutine< std::string > CS; typedef co2::coroutine< std::unique_ptr< long > > CU; typedef co2::coroutine< long & > CR; typedef co2::coroutine< void > CV; typedef co2::coroutine< char > CC;
// stage life cycle: stages must be unwound from the inside out (innermost = started last)
struct Life { std::vector< int > up; std::vector< int > down; int next; Life() : next(0) {} };
struct Stage { Life & l; int id; explicit Stage(Life & x) : l(x), id(x.next++) { l.up.push_back(id); } ~Stage() { l.down.push_back(id); } };
// `lifo`: the stages form one chain of ownership
void alldown(Life const& l, char const* w) { if (l.up.size() != l.down.size()) fail("pipe.unwind", "%s: %zu stages started, %zu unwound", w, l.up.size(), l.down.size()); std::set< int > s(l.down.begin(), l.down.end()); if (s.size() != l.down.size()) fail("pipe.unwind", "%s: a stage was unwound twice", w); }

// ---- 1. pull pipeline: source -> stages -> consumer; stage kinds: map, filter, duplicate, take, skip, pair-sum
enum { Map, Filter, Dup, Take, Skip, Pair, Delay, NK };
std::vector< long > direct(std::vector< long > v, std::vector< std::pair< int, long > > const& st) {
    for (auto & s : st) { std::vector< long > o; long k = s.second; std::size_t i;
        switch (s.first) { case Map: for (long x : v) o.push_back(long(mix(x + k) % 100003)); break; case Filter: for (long x : v) if (x % (k + 2)) o.push_back(x); break; case Dup: for (long x : v) for (long j = 0; j <= k % 3; ++j) o.push_back(x); break;
            case Take: for (i = 0; i < v.size() && long(i) < k; ++i) o.push_back(v[i]); break; case Skip: for (i = std::size_t(k); i < v.size(); ++i) o.push_back(v[i]); break; case Pair: for (i = 0; i + 1 < v.size(); i += 2) o.push_back((v[i] + v[i + 1]) % 100003); break; default: { long last = 7; for (long x : v) { o.push_back(last); last = x; } if ( ! v.empty()) o.push_back(last); } break; }
        v.swap(o); }
    return v; }
template< class In, class Out > void stage(int kind, long k, In & in, Out out) { // pull flavour: in is a range
    long i = 0, last = 7, first = 0; bool any = false;
    for (auto & x : in) { long v = x;
        switch (kind) { case Map: out(long(mix(v + k) % 100003)); break; case Filter: if (v % (k + 2)) out(v); break; case Dup: for (long j = 0; j <= k % 3; ++j) out(v); break; case Take: if (k == 0) return; out(v); if (++i >= k) return; break; case Skip: if (i++ >= k) out(v); break; case Pair: if (i++ % 2 == 0) first = v; else out((first + v) % 100003); break; default: out(last); last = v; any = true; break; } }
    if (kind >= Delay && any) out(last);
}
std::vector< std::pair< int, long > > stages(vp::Rng & r, int n) { std::vector< std::pair< int, long > > s; for (int i = 0; i < n; ++i) s.push_back(std::make_pair(int(r.below(NK)), long(r.below(6)))); return s; }
std::vector< long > input(vp::Rng & r) { std::vector< long > v; int n = int(r.below(30)); for (int i = 0; i < n; ++i) v.push_back(long(r.below(10000))); return v; }

uint64_t pull_pipe(vp::Rng & r) { // each stage owns its upstream
    std::vector< long > in = input(r), got; auto st = stages(r, 1 + int(r.below(12))); std::vector< long > want = direct(in, st); long stop = r.chance(40) ? long(r.below(20)) : -1; Life life;
    std::function< CL::pull_type(int) > make = [&](int d) { return CL::pull_type([&, d](CL::push_type & s) { Stage g(life); if (d < 0) { for (long x : in) s(x); return; } CL::pull_type up(make(d - 1)); stage(st[d].first, st[d].second, up, [&](long v) { s(v); }); }); };
    { CL::pull_type p(make(int(st.size()) - 1)); for (long x : p) { if (stop >= 0 && long(got.size()) >= stop) break; got.push_back(x); } }
    if (stop >= 0 && std::size_t(stop) < want.size()) want.resize(stop);
    if (got != want) fail("pipe.output", "pull pipeline of %zu stages: %zu values, the direct algorithm gives %zu", st.size(), got.size(), want.size());
    alldown(life, "pull pipeline"); vp::count("pipe_values", got.size()); vp::count("stages", st.size() + 1); return mix(st.size() * 31 + in.size() + stop * 1009);
}
uint64_t push_pipe(vp::Rng & r) { // each stage drives its downstream
    std::vector< long > in = input(r), got; auto st = stages(r, 1 + int(r.below(12))); std::vector< long > want; Life life; std::size_t stop = r.chance(40) ? r.below(20) : std::size_t(-1);
    // the end of the input is visible to a push stage only as destruction: kinds that emit at the end are excluded; Take completes the stage early
    for (auto & s : st) if (s.first == Delay || s.first == Take) s.first = Map;
    want = direct(std::vector< long >(in.begin(), in.begin() + std::min(stop, in.size())), st);
    {
        std::vector< std::unique_ptr< CL::push_type > > chain; CL::push_type sink([&](CL::pull_type & s) { Stage g(life); for (long x : s) got.push_back(x); }); CL::push_type * next = & sink;
        for (std::size_t d = st.size(); d-- > 0; ) { CL::push_type * out = next; chain.push_back(std::unique_ptr< CL::push_type >(new CL::push_type([&st, &life, d, out](CL::pull_type & s) { Stage g(life); stage(st[d].first, st[d].second, s, [&](long v) { (* out)(v); }); }))); next = chain.back().get(); }
        for (std::size_t i = 0; i < in.size() && i < stop; ++i) (* next)(in[i]);
        while ( ! chain.empty()) chain.pop_back();
    }
    if (got != want) fail("pipe.output", "push pipeline of %zu stages: %zu values, expected %zu", st.size(), got.size(), want.size());
    alldown(life, "push pipeline"); vp::count("pipe_values", got.size()); vp::count("stages", st.size() + 1); return mix(st.size() * 37 + in.size() * 3 + stop);
}
uint64_t mixed_pipe(vp::Rng & r) { // pull upstream, a loop in the middle, push downstream; owned inside a coroutine or abandoned
    std::vector< long > in = input(r), got; auto a = stages(r, int(r.below(5))), b = stages(r, int(r.below(5))); for (auto & s : b) if (s.first == Delay || s.first == Take) s.first = Dup; auto all = a; all.insert(all.end(), b.begin(), b.end()); std::vector< long > want = direct(in, all); Life life; long cut = r.chance(40) ? long(r.below(25)) : -1; long n = 0;
    std::function< CL::pull_type(int) > make = [&](int d) { return CL::pull_type([&, d](CL::push_type & s) { Stage g(life); if (d < 0) { for (long x : in) s(x); return; } CL::pull_type up(make(d - 1)); stage(a[d].first, a[d].second, up, [&](long v) { s(v); }); }); };
    std::function< void(std::size_t, CL::pull_type &) > down = [&](std::size_t d, CL::pull_type & s) { Stage g(life); if (d == b.size()) { for (long x : s) got.push_back(x); return; } CL::push_type nx([&, d](CL::pull_type & t) { down(d + 1, t); }); stage(b[d].first, b[d].second, s, [&](long v) { nx(v); }); };
    {
        CV::pull_type driver([&](CV::push_type & y) { Stage g(life); CL::pull_type src(make(int(a.size()) - 1)); CL::push_type dst([&](CL::pull_type & s) { down(0, s); }); for (long x : src) { dst(x); y(); } });
        while (driver) { if (cut >= 0 && n >= cut) break; ++n; driver(); }
    }
    if (cut >= 0) { std::vector< long > up = direct(in, a); if (long(up.size()) > cut) up.resize(cut + 1); want = direct(up, b); }
    if (got != want) fail("pipe.output", "mixed pipeline %zu+%zu stages cut %ld: %zu values, expected %zu", a.size(), b.size(), cut, got.size(), want.size());
    alldown(life, "mixed pipeline"); vp::count("pipe_values", got.size()); vp::count("stages", all.size() + 2); return mix(a.size() * 41 + b.size() * 5 + in.size() + cut * 77);
}
// ---- 2. move-only values through a pipeline, ownership handed from stage to stage; references through a chain
uint64_t owned(vp::Rng & r) {
    int depth = 1 + int(r.below(10)), n = int(r.below(20)); std::vector< long > got; int cut = r.chance(30) ? 1 + int(r.below(20)) : 1000;
    std::function< void(int, CU::push_type &) > st = [&](int d, CU::push_type & s) { if (d == 0) { for (int i = 0; i < n; ++i) s(std::unique_ptr< long >(new long(i))); return; } CU::pull_type up([&](CU::push_type & t) { st(d - 1, t); }); while (up) { std::unique_ptr< long > p = up.get(); if ( ! p) fail("pipe.output", "ownership lost at stage %d", d); * p += 1000; s(std::move(p)); up(); } };
    { CU::pull_type p([&](CU::push_type & s) { st(depth, s); }); while (p) { std::unique_ptr< long > v = p.get(); if ( ! v) fail("pipe.output", "ownership lost"); got.push_back(* v); if (int(got.size()) == cut) break; p(); } }
    int m = std::min(n, cut); if (int(got.size()) != m) fail("pipe.output", "%zu of %d owned values", got.size(), m); for (int i = 0; i < m; ++i) if (got[i] != i + 1000 * depth) fail("pipe.output", "owned value %d is %ld", i, got[i]);
    vp::count("pipe_values", m); return mix(depth * 100 + n + cut * 7919);
}
// ---- 3. recursive generators owning generators: permutations, hanoi, nested ranges
uint64_t generators(vp::Rng & r) {
    typedef co2::coroutine< std::vector< int > const& > CP; int n = 1 + int(r.below(5)); std::vector< std::vector< int > > got, want;
    std::function< void(std::vector< int >, std::vector< int >, CP::push_type &) > perm = [&](std::vector< int > pre, std::vector< int > rest, CP::push_type & s) { if (rest.empty()) { s(pre); return; } for (std::size_t i = 0; i < rest.size(); ++i) { std::vector< int > p = pre, q = rest; p.push_back(q[i]); q.erase(q.begin() + i); CP::pull_type inner([&](CP::push_type & t) { perm(p, q, t); }); for (std::vector< int > const& v : inner) s(v); } };
    std::vector< int > base; for (int i = 0; i < n; ++i) base.push_back(i);
    { CP::pull_type p([&](CP::push_type & s) { perm(std::vector< int >(), base, s); }); for (auto & v : p) got.push_back(v); }
    do want.push_back(base); while (std::next_permutation(base.begin(), base.end()));
    if (got != want) fail("pipe.output", "permutations of %d: %zu generated, %zu expected", n, got.size(), want.size());
    int h = 1 + int(r.below(7)); std::vector< std::pair< int, int > > moves, ref; typedef co2::coroutine< std::pair< int, int > > CM;
    std::function< void(int, int, int, int, CM::push_type &) > hanoi = [&](int k, int a, int b, int c, CM::push_type & s) { if (k == 0) return; { CM::pull_type p([&](CM::push_type & t) { hanoi(k - 1, a, c, b, t); }); for (auto & m : p) s(m); } s(std::make_pair(a, b)); { CM::pull_type p([&](CM::push_type & t) { hanoi(k - 1, c, b, a, t); }); for (auto & m : p) s(m); } };
    std::function< void(int, int, int, int) > plain = [&](int k, int a, int b, int c) { if (k == 0) return; plain(k - 1, a, c, b); ref.push_back(std::make_pair(a, b)); plain(k - 1, c, b, a); };
    { CM::pull_type p([&](CM::push_type & s) { hanoi(h, 0, 1, 2, s); }); for (auto & m : p) moves.push_back(m); } plain(h, 0, 1, 2); if (moves != ref) fail("pipe.output", "hanoi %d", h);
    vp::count("pipe_values", got.size() + moves.size()); return mix(n * 10 + h);
}
// ---- 4. same fringe
struct Tree { int v; std::unique_ptr< Tree > l, r; };
std::unique_ptr< Tree > build(std::vector< int > const& f, std::size_t a, std::size_t b, vp::Rng & r) { std::unique_ptr< Tree > t(new Tree()); if (b - a == 1) { t->v = f[a]; return t; } std::size_t m = a + 1 + r.below(unsigned(b - a - 1)); t->l = build(f, a, m, r); t->r = build(f, m, b, r); return t; }
void leaves(Tree * t, co2::coroutine< int >::push_type & s) { if ( ! t->l) { s(t->v); return; } leaves(t->l.get(), s); leaves(t->r.get(), s); }
uint64_t fringe(vp::Rng & r) {
    std::vector< int > f; int n = 1 + int(r.below(40)); for (int i = 0; i < n; ++i) f.push_back(int(r.below(3))); std::vector< int > g = f; int how = int(r.below(4)); if (how == 1) g[r.below(unsigned(n))] ^= 1; if (how == 2) g.push_back(1); if (how == 3 && n > 1) g.pop_back();
    std::unique_ptr< Tree > a = build(f, 0, f.size(), r), b = build(g, 0, g.size(), r); typedef co2::coroutine< int > C;
    C::pull_type p([&](C::push_type & s) { leaves(a.get(), s); }), q([&](C::push_type & s) { leaves(b.get(), s); });
    bool same = true; int steps = 0; while (p && q) { if (p.get() != q.get()) { same = false; break; } ++steps; p(); q(); } if (same) same = bool(p) == bool(q);
    if (same != (f == g)) fail("pipe.output", "same fringe: %d, direct comparison %d", int(same), int(f == g));
    C::pull_type p2([&](C::push_type & s) { leaves(a.get(), s); }), q2([&](C::push_type & s) { leaves(b.get(), s); }); if (n <= int(g.size()) && std::equal(begin(p2), end(p2), begin(q2)) != std::equal(f.begin(), f.end(), g.begin())) fail("pipe.output", "std::equal on fringes");
    vp::count("pipe_values", steps); return mix(n * 4 + how + steps * 1000);
}
// ---- 5. inversion of control: recursive descent parser fed char by char / pulling tokens
struct Syntax : std::runtime_error { int at; Syntax(int a) : std::runtime_error("syntax"), at(a) {} };
template< class Src > struct Parser { Src & s; explicit Parser(Src & x) : s(x) {} long expr() { long v = term(); while (s.peek() == '+' || s.peek() == '-') { char c = s.peek(); s.next(); long w = term(); v = c == '+' ? (v + w) % 1000003 : (v - w) % 1000003; } return v; } long term() { long v = fac(); while (s.peek() == '*') { s.next(); v = (v * fac()) % 1000003; } return v; } long fac() { if (s.peek() == '(') { s.next(); long v = expr(); if (s.peek() != ')') throw Syntax(s.pos); s.next(); return v; } if (s.peek() < '0' || s.peek() > '9') throw Syntax(s.pos); long v = 0; while (s.peek() >= '0' && s.peek() <= '9') { v = (v * 10 + (s.peek() - '0')) % 1000003; s.next(); } return v; } };
struct StrSrc { std::string const& t; int pos; char peek() const { return pos < int(t.size()) ? t[pos] : ';'; } void next() { ++pos; } };
struct CoSrc { CC::pull_type & c; int pos; char peek() const { return c.get(); } void next() { c(); ++pos; } };
std::string gen(vp::Rng & r, int d) { std::ostringstream o; switch (d <= 0 ? 0 : r.below(5)) { case 0: o << r.below(1000); break; case 1: o << gen(r, d - 1) << '+' << gen(r, d - 1); break; case 2: o << gen(r, d - 1) << '*' << gen(r, d - 1); break; case 3: o << '(' << gen(r, d - 1) << ')'; break; default: o << gen(r, d - 1) << '-' << gen(r, d - 1); break; } return o.str(); }
uint64_t parser(vp::Rng & r) {
    std::string t = gen(r, int(r.below(7))); int how = int(r.below(4)); if (how == 1 && ! t.empty()) t[r.below(unsigned(t.size()))] = "()+*x"[r.below(5)]; if (how == 2) t += ')';
    long want = -1, got = -1; int werr = -1, gerr = -1, accepted = -1;
    try { StrSrc s = { t, 0 }; want = Parser< StrSrc >(s).expr(); if (s.pos != int(t.size())) { werr = s.pos; want = -1; } } catch (Syntax const& e) { werr = e.at; }
    std::string text = t + ";";
    if (how < 3 || r.chance(50)) { // pushed char by char
        try { CC::push_type p([&](CC::pull_type & s) { CoSrc c = { s, 0 }; long v = Parser< CoSrc >(c).expr(); if (s.get() != ';') throw Syntax(c.pos); got = v; accepted = c.pos; });
            std::size_t cut = how == 3 ? r.below(unsigned(text.size() + 1)) : text.size();
            for (std::size_t i = 0; i < cut; ++i) { if ( ! p) { gerr = int(i); break; } p(text[i]); } if (how == 3 && cut < text.size()) { if (bool(p) == false && gerr < 0) gerr = -2; want = -1; werr = -1; got = -1; gerr = -1; } }
        catch (Syntax const& e) { gerr = e.at; }
        if (how == 3 && got == -1 && gerr != -1) { want = -1; werr = gerr; }
    } else { CC::pull_type p([&](CC::push_type & s) { for (char c : text) s(c); }); try { CoSrc c = { p, 0 }; long v = Parser< CoSrc >(c).expr(); if (p.get() != ';') gerr = c.pos; else { got = v; accepted = c.pos; } } catch (Syntax const& e) { gerr = e.at; } }
    if (got != want || gerr != werr) fail("pipe.output", "parser on [%s]: value %ld error %d, direct parser value %ld error %d", t.c_str(), got, gerr, want, werr);
    if (got != -1 && accepted != int(t.size())) fail("pipe.output", "parser position %d", accepted);
    vp::count("pipe_values", t.size()); vp::count(werr >= 0 ? "parse_errors" : "parsed"); return mix(std::hash< std::string >()(t) + how);
}
// ---- 6. merge of many sorted generators, layout formatting through an output iterator, error thrown through several stages
uint64_t merge(vp::Rng & r) {
    int n = 1 + int(r.below(9)); std::vector< std::vector< long > > in(n); std::vector< long > want, got; for (auto & v : in) { int k = int(r.below(12)); for (int i = 0; i < k; ++i) v.push_back(long(r.below(500))); std::sort(v.begin(), v.end()); want.insert(want.end(), v.begin(), v.end()); } std::sort(want.begin(), want.end());
    std::function< CL::pull_type(int, int) > m = [&](int a, int b) { return CL::pull_type([&, a, b](CL::push_type & s) { if (b - a == 1) { for (long x : in[a]) s(x); return; } int mid = (a + b) / 2; CL::pull_type p(m(a, mid)), q(m(mid, b)); while (p || q) { if ( ! q || (p && p.get() <= q.get())) { s(* begin(p)); p(); } else { s(* begin(q)); q(); } } }); };
    // get() is only compared here; the value forwarded is the dereferenced one
    { CL::pull_type p(m(0, n)); std::copy(begin(p), end(p), std::back_inserter(got)); } if (got != want) fail("pipe.output", "merge of %d generators", n); vp::count("pipe_values", got.size()); return mix(n * 1000 + want.size());
}
uint64_t thrower(vp::Rng & r) {
    int depth = 1 + int(r.below(15)), at = int(r.below(10)), catcher = r.chance(50) ? int(r.below(unsigned(depth))) : -1; Life life; std::vector< long > got; bool caught = false; int local = 0; bool pull = r.chance(50);
    if (pull) {
        std::function< void(int, CL::push_type &) > st = [&](int d, CL::push_type & s) { Stage g(life); if (d == 0) { for (int i = 0; i < at; ++i) s(i); throw std::string("deep"); } try { CL::pull_type up([&](CL::push_type & t) { st(d - 1, t); }); for (long x : up) s(x + 1); } catch (std::string const& e) { if (d - 1 != catcher) throw; ++local; if (e != "deep") fail("exc.wrong", "contents"); } };
        try { CL::pull_type p([&](CL::push_type & s) { st(depth, s); }); for (long x : p) got.push_back(x); } catch (std::string const& e) { caught = true; if (e != "deep") fail("exc.wrong", "contents"); }
        for (std::size_t i = 0; i < got.size(); ++i) if (got[i] != long(i) + depth) fail("pipe.output", "value %zu", i);
    } else {
        std::function< void(int, CL::pull_type &) > st = [&](int d, CL::pull_type & s) { Stage g(life); if (d == 0) { int k = 0; for (long x : s) { if (k == at) throw std::string("deep"); got.push_back(x); ++k; } return; } CL::push_type nx([&](CL::pull_type & t) { st(d - 1, t); }); try { for (long x : s) { if ( ! nx) break; nx(x + 1); } } catch (std::string const& e) { if (d - 1 != catcher) throw; ++local; } };
        try { CL::push_type p([&](CL::pull_type & s) { st(depth, s); }); for (int i = 0; i < 12 && p; ++i) p(i); } catch (std::string const& e) { caught = true; if (e != "deep") fail("exc.wrong", "contents"); }
        for (std::size_t i = 0; i < got.size(); ++i) if (got[i] != long(i) + depth) fail("pipe.output", "value %zu", i);
    }
    if (int(got.size()) != at) fail("pipe.output", "%zu values before the exception, expected %d", got.size(), at);
    if (caught != (catcher < 0) || local != (catcher >= 0)) fail("exc.lost", "exception through %d stages (caught at %d)", depth, catcher);
    alldown(life, "exception through a pipeline"); for (std::size_t i = 0; i < life.down.size(); ++i) (void) i;
    vp::count("pipe_values", got.size()); vp::count("pipe_exceptions"); return mix(depth * 1000 + at * 10 + catcher + pull * 7);
}
// ---- 7. a chain abandoned at every point: stages unwound strictly from the inside out
uint64_t abandon(vp::Rng & r) {
    int depth = 1 + int(r.below(20)), take = int(r.below(6)); Life life; bool pull = r.chance(50);
    if (pull) { std::function< void(int, CL::push_type &) > st = [&](int d, CL::push_type & s) { Stage g(life); if (d == 0) { for (long i = 0; ; ++i) s(i); } CL::pull_type up([&](CL::push_type & t) { st(d - 1, t); }); for (long x : up) s(x); };
        CL::pull_type p([&](CL::push_type & s) { st(depth, s); }); for (int i = 0; i < take; ++i) p(); if (p.get() != take) fail("pipe.output", "value %d", take); }
    else { std::function< void(int, CL::pull_type &) > st = [&](int d, CL::pull_type & s) { Stage g(life); if (d == 0) { while (s) s(); return; } CL::push_type nx([&](CL::pull_type & t) { st(d - 1, t); }); for (long x : s) nx(x); };
        CL::push_type p([&](CL::pull_type & s) { st(depth, s); }); for (int i = 0; i < take + 1; ++i) p(i); }
    if (int(life.up.size()) != depth + 1) fail("pipe.output", "%zu stages started", life.up.size());
    alldown(life, "abandoned chain"); for (int i = 0; i <= depth; ++i) if (life.down[i] != depth - i) fail("pipe.unwind", "abandoned chain of %d: stage %d unwound at position %d", depth + 1, life.down[i], i);
    vp::count("stages", depth + 1); vp::count("abandoned"); return mix(depth * 10 + take + pull * 1000);
}
// ---- 8. producer/consumer scheduler of mixed coroutines exchanging work items through a queue
uint64_t sched(vp::Rng & r) {
    int n = 2 + int(r.below(8)), items = int(r.below(60)); std::vector< long > q, out; std::size_t head = 0; std::vector< CV::pull_type > tasks; std::vector< long > mine(n, 0); std::vector< int > quota; int rem = items; for (int i = 0; i < n; ++i) { int k = i + 1 == n ? rem : int(r.below(unsigned(rem + 1))); quota.push_back(k); rem -= k; } int done = 0;
    for (int i = 0; i < n; ++i) { int k = quota[i]; tasks.push_back(CV::pull_type([&, i, k](CV::push_type & y) { y(); for (int j = 0; j < k; ++j) { q.push_back(i * 1000 + j); y(); } ++done; })); }
    CL::push_type consumer([&](CL::pull_type & s) { for (long x : s) out.push_back(x); });
    while (true) { bool any = false; for (auto & t : tasks) if (t) { any = true; t(); } while (head < q.size()) consumer(q[head++]); if ( ! any) break; }
    if (done != n || out != q || int(out.size()) != items) fail("pipe.output", "scheduler: %zu of %d items, %d of %d tasks", out.size(), items, done, n);
    for (int i = 0; i < n; ++i) { int k = 0; for (long x : out) if (x / 1000 == i && x % 1000 != k++) fail("pipe.output", "order of task %d", i); }
    vp::count("pipe_values", items); return mix(n * 100 + items);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    typedef uint64_t (* fn)(vp::Rng &); struct E { char const* n; fn f; }; static E const sc[] = { { "pull pipeline", pull_pipe }, { "push pipeline", push_pipe }, { "mixed pipeline", mixed_pipe }, { "owned values", owned }, { "generators", generators }, { "same fringe", fringe }, { "parser", parser }, { "merge", merge }, { "exception through stages", thrower }, { "abandoned chain", abandon }, { "scheduler", sched } };
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 179424673); E const& e = sc[i % 11]; vp::begin_case(i, e.n); uint64_t h = e.f(r); vp::end_case(mix(h + i % 11), true, e.n);
    }
    return vp::finish();
}
