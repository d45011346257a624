// C13: every coroutine behaves in a crowd exactly as it does alone (differential: solo trace = trace in the interleaving).
#include "inst.hpp"

int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 131071); int n = 2 + int(r.below(i % 10 == 9 ? 40 : 8)); int mode = int(r.below(4)); // 0 own allocators 1 one shared allocator 2 default stacks 3 mixed
        vp::begin_case(i, vp::fmt("iso %d coroutines, allocator mode %d", n, mode));
        std::vector< Prog > ps; std::vector< Tr > solo; uint64_t h = n * 4 + mode;
        for (int k = 0; k < n; ++k) ps.push_back(gen(r));
        for (int k = 0; k < n; ++k) { Inst s(ps[k], std::shared_ptr< AllocState >(new AllocState(stk(), 1))); s.start(); while ( ! s.dead) s.step(); solo.push_back(s.t); }
        std::shared_ptr< AllocState > shared(new AllocState(stk(), r.next()));
        std::vector< std::unique_ptr< Inst > > crowd; std::vector< int > pos; long steps = 0;
        for (int k = 0; k < n; ++k) { std::shared_ptr< AllocState > st = mode == 1 || (mode == 3 && r.chance(50)) ? shared : mode == 2 ? std::shared_ptr< AllocState >() : std::shared_ptr< AllocState >(new AllocState(stk(), r.next())); crowd.push_back(std::unique_ptr< Inst >(new Inst(ps[k], st))); }
        std::vector< bool > started(n, false); int alive = n;
        // some instances are driven from inside another coroutine, the rest from here
        std::function< void(vp::Rng &) > act = [&](vp::Rng & q) { int k = int(q.below(unsigned(n))); Inst & c = * crowd[k]; h = mix(h + k); ++steps; if ( ! started[k]) { started[k] = true; c.start(); } else if ( ! c.dead) c.step(); if (c.dead && started[k] && pos.size() < std::size_t(n) && std::find(pos.begin(), pos.end(), k) == pos.end()) { pos.push_back(k); --alive; } };
        vp::Rng q(r.next());
        { std::unique_ptr< AnyCo > driver = make_co(PullN, [&](AnyPort & p) { vp::Rng z(q.next()); for (;;) { act(z); p.xfer(0); } });
          while (alive > 0 && steps < 20000) { if (q.chance(40)) driver->resume(); else act(q); } }
        for (int k = 0; k < n; ++k) {
            if ( ! started[k]) crowd[k]->start();
            while ( ! crowd[k]->dead) crowd[k]->step();
            if (crowd[k]->t != solo[k]) { std::size_t d = 0; while (d < solo[k].size() && d < crowd[k]->t.size() && solo[k][d] == crowd[k]->t[d]) ++d; fail("iso.divergence", "coroutine %d (%s) of %d behaves differently in the crowd: event %zu of %zu (alone) / %zu (crowd)", k, vname(ps[k].variant), n, d, solo[k].size(), crowd[k]->t.size()); }
            vp::count("events_compared", solo[k].size());
        }
        crowd.clear(); if (shared->outstanding) fail("alloc.leaked", "%d stacks of the shared allocator", shared->outstanding);
        if (Tok::live()) fail("life.leak", "%ld values alive", long(Tok::live()));
        { uint64_t th = 0; for (Tr const& t : solo) for (uint64_t x : t) th = mix(th ^ x); vp::trace(mix(th ^ h)); }
        vp::count("interleaved_steps", steps);
        vp::end_case(h, n > 1, vp::fmt("%d coroutines, %ld interleaved steps, allocator mode %d", n, steps, mode));
    }
    return vp::finish();
}
