// A deterministic coroutine program with a complete trace of what it observes (used by t_iso and t_threads).
#ifndef INST_HPP
#define INST_HPP
#include "anyco.hpp"
#include <functional>
#include <stdexcept>
#include <algorithm>

namespace {
typedef std::vector< uint64_t > Tr;
struct Err { uint64_t a; }; struct Err2 : std::runtime_error { uint64_t a; explicit Err2(uint64_t x) : std::runtime_error("e" + std::to_string(x)), a(x) {} };
struct Prog { uint64_t seed; int variant; int n; int end; int stop; bool lv; int kids; };   // stop: destroyed after that many resumes
struct Loc { Tr & t; uint64_t id; Loc(Tr & x, uint64_t i) : t(x), id(i) { t.push_back(mix(id * 4 + 1)); } ~Loc() { t.push_back(mix(id * 4 + 2)); } };
struct Inst {
    Prog p; Tr t; std::unique_ptr< AnyCo > co; int resumed; bool dead; std::shared_ptr< AllocState > st;
    explicit Inst(Prog const& q, std::shared_ptr< AllocState > s) : p(q), resumed(0), dead(false), st(s) {}
    void ev(uint64_t a, uint64_t b) { t.push_back(mix(a * 0x10001 + b)); }
    void body(AnyPort & q) {
        vp::Rng r(p.seed); Loc a(t, 100); ev(1, 0); uint64_t acc = p.seed;
        for (int i = 0; i < p.n; ++i) {
            Loc b(t, 200 + i);
            switch (r.below(6)) {
            case 0: try { Loc c(t, 300 + i); throw Err2(acc); } catch (Err2 const& e) { ev(2, e.a); } break;
            case 1: if (p.kids > 0) { Prog k = p; k.seed = r.next(); k.kids = p.kids - 1; k.n = 1 + int(r.below(4)); k.variant = int(r.below(NVariants)); k.stop = int(r.below(5)); Inst c(k, st); c.start(); for (int z = 0; z < 3; ++z) { c.step(); } c.finish(); for (uint64_t x : c.t) t.push_back(x); } break;
            case 2: sub(q, int(r.below(4)), r, acc); break;
            default: break;
            }
            ev(3, q.valid());
            if (is_pull(p.variant)) { uint64_t v = mix(acc + i) | 1; ev(4, v); q.xfer(v); }
            else { uint64_t x = q.current(); ev(5, x); acc = mix(acc ^ x); if (i + 1 < p.n) { uint64_t y = q.xfer(0); ev(6, y); } }
        }
        ev(7, acc);
        if (p.end == 1) throw Err{ acc }; if (p.end == 2) throw Err2(acc);
    }
    void sub(AnyPort & q, int d, vp::Rng & r, uint64_t & acc) { Loc c(t, 400 + d); if (d > 0) return sub(q, d - 1, r, acc); if (is_pull(p.variant)) { uint64_t v = mix(acc * 3) | 1; ev(8, v); q.xfer(v); } else { uint64_t x = q.xfer(0); ev(9, x); acc ^= x; } }
    template< class F > void guard(F f) { try { f(); } catch (Err const& e) { ev(10, e.a); } catch (Err2 const& e) { ev(11, e.a); if (std::string(e.what()) != "e" + std::to_string(e.a)) fail("exc.wrong", "what()"); } }
    void look() { if ( ! co) { ev(12, 0); return; } ev(13, co->valid()); ev(14, co->at_end()); if (co->valid() && is_pull(p.variant)) ev(15, co->value(0)); }
    void start() { guard([&] { co = make_co(p.variant, [this](AnyPort & q) { body(q); }, st.get(), p.lv); }); look(); if ( ! co) dead = true; }
    // one resumption; input depends only on the own step number
    void step() { if (dead) return; if (mix(p.seed + resumed) % 3) look(); if ( ! co->valid() || resumed >= p.stop) { finish(); return; } ++resumed; guard([&] { co->resume(mix(p.seed + resumed), unsigned(mix(p.seed * 3 + resumed) % 8)); }); look(); }
    void finish() { if (dead) return; dead = true; ev(16, 0); co.reset(); ev(17, 0); }
};
Prog gen(vp::Rng & r) { Prog p; p.seed = r.next(); p.variant = int(r.below(NVariants)); p.n = int(r.below(9)); p.end = int(r.below(3)); p.stop = r.chance(60) ? 1000 : int(r.below(8)); p.lv = r.chance(30); p.kids = int(r.below(3)); return p; }
std::size_t stk() { return VP_SAN ? 256 * 1024 : 64 * 1024; }
}
#endif
