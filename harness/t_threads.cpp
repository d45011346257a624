// C14: coroutines on several threads at once, and coroutines migrating between threads.
#include "inst.hpp"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <thread>
#include <unistd.h>

namespace {
std::atomic< long > migrations(0), steps(0), handovers(0);
void delay(vp::Rng & r) { switch (r.below(12)) { case 0: std::this_thread::yield(); break; case 1: usleep(r.below(60)); break; case 2: for (volatile int i = 0; i < 200; ++i) {} break; default: break; } }
void compare(Inst const& c, Tr const& solo, char const* how) {
    if (c.t == solo) return;
    std::size_t d = 0; while (d < solo.size() && d < c.t.size() && solo[d] == c.t[d]) ++d;
    fail("thread.divergence", "%s: %s behaves differently than on a single thread: event %zu of %zu/%zu", how, vname(c.p.variant), d, solo.size(), c.t.size());
}
struct Barrier { std::mutex m; std::condition_variable c; int n; explicit Barrier(int k) : n(k) {} void wait() { std::unique_lock< std::mutex > l(m); if (--n == 0) c.notify_all(); else c.wait(l, [&] { return n == 0; }); } };
std::vector< Tr > solos(std::vector< Prog > const& ps) { std::vector< Tr > v; for (auto & p : ps) { Inst s(p, std::shared_ptr< AllocState >(new AllocState(stk(), 1))); s.start(); while ( ! s.dead) s.step(); v.push_back(s.t); } return v; }

// 1: every thread runs its own coroutines, all at the same time (programs shared: the same functions run concurrently)
void parallel(vp::Rng & r, int nt, std::vector< Prog > const& ps, std::vector< Tr > const& ref) {
    Barrier b(nt); std::vector< std::thread > th; std::shared_ptr< AllocState > shared(new AllocState(stk(), r.next())); int mode = int(r.below(3)); std::vector< uint64_t > seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    for (int k = 0; k < nt; ++k) th.push_back(std::thread([&, k] {
        vp::Rng q(seeds[k]); std::vector< std::unique_ptr< Inst > > v; for (std::size_t i = 0; i < ps.size(); ++i) v.push_back(std::unique_ptr< Inst >(new Inst(ps[i], mode == 0 ? shared : mode == 1 ? std::shared_ptr< AllocState >() : std::shared_ptr< AllocState >(new AllocState(stk(), q.next())))));
        b.wait(); std::vector< bool > st(v.size(), false); int left = int(v.size());
        for (auto & i : v) { i->start(); }
        while (left > 0) { left = 0; for (auto & i : v) if ( ! i->dead) { if (q.chance(70)) { i->step(); ++steps; } if ( ! i->dead) ++left; if (q.chance(10)) delay(q); } }
        for (std::size_t i = 0; i < v.size(); ++i) compare(* v[i], ref[i], "parallel threads");
    }));
    for (auto & t : th) t.join();
}
// 2: a pool of coroutines, every worker takes one, runs a few steps, puts it back
void migrate(vp::Rng & r, int nt, std::vector< Prog > const& ps, std::vector< Tr > const& ref) {
    std::mutex m; std::deque< Inst * > q; std::vector< std::unique_ptr< Inst > > v; std::shared_ptr< AllocState > shared(new AllocState(stk(), r.next())); int mode = int(r.below(3));
    std::vector< int > last(ps.size(), -1); std::atomic< int > left(int(ps.size()));
    for (std::size_t i = 0; i < ps.size(); ++i) { v.push_back(std::unique_ptr< Inst >(new Inst(ps[i], mode == 0 ? shared : mode == 1 ? std::shared_ptr< AllocState >() : std::shared_ptr< AllocState >(new AllocState(stk(), r.next()))))); q.push_back(v.back().get()); }
    std::vector< std::thread > th; std::vector< uint64_t > seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    std::vector< char > started(ps.size(), 0);
    for (int k = 0; k < nt; ++k) th.push_back(std::thread([&, k] {
        vp::Rng z(seeds[k]);
        while (left.load() > 0) {
            Inst * c = 0; std::size_t idx = 0;
            { std::lock_guard< std::mutex > l(m); if ( ! q.empty()) { std::size_t j = z.below(unsigned(q.size())); c = q[j]; q.erase(q.begin() + j); for (std::size_t i = 0; i < v.size(); ++i) if (v[i].get() == c) idx = i; if (last[idx] != k) { if (last[idx] >= 0) ++migrations; last[idx] = k; } } }
            if ( ! c) { std::this_thread::yield(); continue; }
            int n = 1 + int(z.below(3));
            for (int s = 0; s < n && ! c->dead; ++s) {
                if ( ! started[idx]) { started[idx] = 1; c->start(); } else { if (c->co && z.chance(30)) { std::unique_ptr< AnyCo > d = c->co->moved(); c->co = std::move(d); } c->step(); }
                ++steps; delay(z);
            }
            if (c->dead) --left; else { std::lock_guard< std::mutex > l(m); q.push_back(c); }
        }
    }));
    for (auto & t : th) t.join();
    for (std::size_t i = 0; i < v.size(); ++i) compare(* v[i], ref[i], "migrating");
    v.clear(); if (shared->outstanding) fail("alloc.leaked", "%d stacks", shared->outstanding);
}
// 3: creation, each resumption and destruction on threads of their own that end immediately afterwards
void relay(vp::Rng & r, std::vector< Prog > const& ps, std::vector< Tr > const& ref) {
    std::size_t k = r.below(unsigned(ps.size())); Inst c(ps[k], r.chance(50) ? std::shared_ptr< AllocState >() : std::shared_ptr< AllocState >(new AllocState(stk(), r.next()))); int hops = 0;
    std::thread([&] { c.start(); }).join();
    while ( ! c.dead) { if (r.chance(50) && hops < 12) { std::thread([&] { if (c.co) { std::unique_ptr< AnyCo > d = c.co->moved(); c.co = std::move(d); } c.step(); }).join(); ++hops; ++handovers; } else c.step(); }
    compare(c, ref[k], "relay");
}
// 4: a coroutine resumes another one that was created on a different thread and is itself resumed by alternating threads
void nested(vp::Rng & r) {
    std::vector< int > got; int n = 3 + int(r.below(20)); int v = int(r.below(3)); long locals = 0; struct L { long & l; explicit L(long & x) : l(x) { ++l; } ~L() { --l; } };
    std::unique_ptr< AnyCo > inner, outer; bool thr = r.chance(40); bool caught = false;
    std::thread([&] { inner = make_co(v, [&](AnyPort & p) { L a(locals); for (int i = 0; i < n; ++i) p.xfer(i + 1); if (thr) throw 5; }); }).join();
    std::thread([&] { outer = make_co(PullV, [&](AnyPort & p) { L a(locals); int k = 0; while (inner->valid()) { uint64_t x = inner->value(0); ++k; p.xfer(x ? x : k); inner->resume(); } }); }).join();
    int k = 0;
    try { while (outer->valid()) { ++k; if (outer->value(0) != uint64_t(k)) fail("value.wrong", "nested across threads"); if (k == n && r.chance(50)) { outer->resume(); } else if (r.chance(50)) { int e = 0; std::thread([&] { try { outer->resume(); } catch (int x) { e = x; } }).join(); if (e) throw e; } else outer->resume(); if (r.chance(3)) break; } } catch (int e) { caught = true; if (e != 5 || ! thr) fail("exc.wrong", "nested across threads"); }
    if (k == n && ! outer->valid() && thr && ! caught) fail("exc.lost", "exception lost across threads");
    std::thread([&] { outer.reset(); }).join(); std::thread([&] { inner.reset(); }).join();
    if (locals) fail("unwind.leaked", "%ld locals after destruction on another thread", locals);
}
// 5: typed handles handed over by move through a synchronised mailbox
void mailbox(vp::Rng & r, int nt) {
    typedef co2::coroutine< std::string > C; std::mutex m; std::condition_variable cv; std::deque< std::pair< C::pull_type, int > > box; int total = 4 + int(r.below(20)), each = 1 + int(r.below(6)); std::atomic< int > seen(0), done(0); std::atomic< bool > end(false);
    std::vector< std::thread > th;
    for (int k = 0; k < nt; ++k) th.push_back(std::thread([&] {
        for (;;) { std::unique_lock< std::mutex > l(m); cv.wait(l, [&] { return ! box.empty() || end; }); if (box.empty()) return; std::pair< C::pull_type, int > j(std::move(box.front())); box.pop_front(); l.unlock();
            if (j.first) { if (* begin(j.first) != "value-" + std::to_string(j.second) + "-with-some-length-behind-it") fail("value.wrong", "mailbox"); ++seen; j.first(); ++j.second; l.lock(); box.push_back(std::move(j)); l.unlock(); cv.notify_one(); ++handovers; } else { ++done; } }
    }));
    for (int i = 0; i < total; ++i) { C::pull_type p([each](C::push_type & s) { for (int k = 0; k < each; ++k) s("value-" + std::to_string(k) + "-with-some-length-behind-it"); }); std::lock_guard< std::mutex > l(m); box.push_back(std::make_pair(std::move(p), 0)); cv.notify_one(); }
    while (done < total) std::this_thread::yield();
    { std::lock_guard< std::mutex > l(m); end = true; } cv.notify_all(); for (auto & t : th) t.join();
    if (seen != total * each) fail("value.lost", "%d of %d values", seen.load(), total * each);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 2097143); int nt = 2 + int(r.below(5)); int n = 2 + int(r.below(10)); int sc = int(i % 8);
        vp::begin_case(i, vp::fmt("threads scenario %d, %d threads, %d coroutines", sc, nt, n));
        std::vector< Prog > ps; for (int k = 0; k < n; ++k) ps.push_back(gen(r));
        uint64_t h = sc + nt * 11 + n * 101; for (auto & p : ps) h = mix(h + p.seed);
        std::vector< Tr > ref; if (sc < 6) ref = solos(ps);
        switch (sc) { case 0: case 1: parallel(r, nt, ps, ref); break; case 2: case 3: case 4: migrate(r, nt, ps, ref); break; case 5: relay(r, ps, ref); break; case 6: nested(r); break; default: mailbox(r, nt); break; }
        if (Tok::live()) fail("life.leak", "%ld values alive", long(Tok::live()));
        vp::end_case(h, true, vp::fmt("scenario %d, %d threads, %d coroutines", sc, nt, n));
    }
    vp::count("migrations", migrations); vp::count("steps", steps); vp::count("handovers", handovers);
    return vp::finish();
}
