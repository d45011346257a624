// C06: coroutines that outlive main() or the code of their thread: handles held by static and thread_local objects,
// begun before main, continued, moved and destroyed while the program or the thread is being torn down.
#include "anyco.hpp"
#include <sys/wait.h>
#include <thread>

namespace {
// what is observed; plain data, valid to the very end of the process
std::atomic< long > locals(0), built(0), entered(0), ended(0), handlers(0), errors(0), resumed(0), expect_ended(0), expect_errors(0);
void reset_obs() { locals = built = entered = ended = handlers = errors = resumed = expect_ended = expect_errors = 0; }
struct L { uint64_t k; char pad[24]; explicit L(uint64_t x) : k(mix(x)) { ++locals; ++built; for (char & c : pad) c = char(k); } ~L() { for (char c : pad) if (c != char(k)) fail("state.locals", "local damaged before destruction"); --locals; } L(L const&) = delete; };
struct Boom { uint64_t id; };
AllocState * shared_alloc() { static AllocState * s = new AllocState(VP_SAN ? 256 * 1024 : 64 * 1024, 7); return s; }   // never destroyed
// n transfers, then the end; throws at the end when thr
Body body(uint64_t id, int n, bool thr, int v) {
    return [=](AnyPort & p) {
        L a(id); ++entered;
        try {
            if ( ! is_pull(v) && has_value(v) && p.current() != mix(id)) fail("value.wrong", "first value");
            for (int i = 0; i < n; ++i) { L b(id + i); uint64_t x = p.xfer(mix(id + i)); if (v == PushV || v == PushR) { if (x != mix(id + i + 1)) fail("value.wrong", "value %d received during teardown", i); } }
        } catch (...) { ++handlers; throw; }
        ++ended; if (thr) throw Boom{ id };
    };
}
struct Held {
    std::unique_ptr< AnyCo > c; uint64_t id; int v, n, at; bool thr, begun;
    Held() : id(0), v(0), n(0), at(0), thr(false), begun(false) {}
    void make(uint64_t i, int vv, int nn, bool t, bool alloc, bool lv) {
        id = i; v = vv; n = nn; thr = t; at = 0; begun = is_pull(v); if (is_pull(v) && n == 0) { ++expect_ended; if (thr) ++expect_errors; }
        try { c = make_co(v, body(id, n, thr, v), alloc ? shared_alloc() : 0, lv); } catch (Boom const& b) { ++errors; if (b.id != id) fail("exc.wrong", "construction"); }
    }
    bool live() const { return begun ? at < n : true; }
    void look(char const* w) {
        if ( ! c) { if (live()) fail("control.state", "%s: coroutine lost", w); return; }
        if (c->valid() != live()) fail("valid.handle", "%s: %s valid=%d, expected %d", w, vname(v), int(c->valid()), int(live()));
        if (live() && (v == PullV || v == PullR) && c->value(0) != mix(id + at)) fail("value.wrong", "%s: %s value %d", w, vname(v), at);
    }
    void resume(char const* w, unsigned how) {
        if ( ! c || ! live()) return;
        bool last = is_pull(v) ? at + 1 == n : (begun ? at + 1 == n : n == 0); ++resumed; if (last) { ++expect_ended; if (thr) ++expect_errors; }
        bool got = false;
        try { c->resume(is_pull(v) ? 0 : mix(id + (begun ? at + 1 : 0)), how); } catch (Boom const& b) { got = true; ++errors; if (b.id != id) fail("exc.wrong", "%s: contents", w); }
        if (begun) ++at; begun = true;
        if (got != (last && thr)) fail("exc.lost", "%s: %s resume at %d of %d", w, vname(v), at, n);
        look(w);
    }
};
// owner: its destructor works with the coroutines and destroys them
struct Keeper {
    char const* name; std::vector< Held > h; int act; uint64_t seed; bool checks;
    Keeper(char const* n, bool last) : name(n), act(0), seed(0), checks(last) {}
    void fill(vp::Rng & r, int k) {
        for (int i = 0; i < k; ++i) {
            h.emplace_back(); h.back().make(r.next() >> 4, int(r.below(NVariants)), int(r.below(5)), r.chance(35), r.chance(50), r.chance(50));
            for (unsigned s = r.below(5); s > 0; --s) h.back().resume("before the teardown", unsigned(r.below(8)));
        }
        act = int(r.below(6)); seed = r.next();
    }
    ~Keeper() {
        vp::Rng r(seed);
        if (act == 1 || act == 4) for (auto & x : h) { x.look(name); for (unsigned s = 1 + r.below(3); s > 0; --s) x.resume(name, unsigned(r.below(8))); }
        if (act == 2) for (auto & x : h) while (x.c && x.live()) x.resume(name, unsigned(r.below(8)));
        if (act == 3) for (auto & x : h) if (x.c) { std::unique_ptr< AnyCo > d = x.c->moved(); if (x.c->valid()) fail("move.state", "%s: source valid", name); x.c = std::move(d); x.look(name); if (r.chance(50)) x.resume(name, 1); }
        if (act >= 4) { // coroutines begun during the teardown, and begun inside others
            Keeper fresh(name, false); fresh.fill(r, 3); fresh.act = int(r.below(4));
            std::unique_ptr< AnyCo > o = make_co(int(r.below(3)), [&](AnyPort & p) { L a(1); Keeper in(name, false); in.fill(r, 2); in.act = 1; p.xfer(4); });
            if (r.chance(50) && o->valid()) o->resume(1);
        }
        if (r.chance(50)) h.clear(); else while ( ! h.empty()) h.pop_back();
        if (checks) verdict(name);
    }
    static void verdict(char const* w) {
        if (locals) fail("unwind.leaked", "%s: %ld locals never destroyed", w, locals.load());
        if (ended != expect_ended) fail("unwind.ran_on", "%s: %ld functions reached their end, %ld were resumed to it", w, ended.load(), expect_ended.load());
        if (errors != expect_errors) fail("exc.lost", "%s: %ld exceptions, expected %ld", w, errors.load(), expect_errors.load());
        if (shared_alloc()->outstanding) fail("alloc.leaked", "%s: %d stacks not returned", w, shared_alloc()->outstanding);
        if (Tok::live()) fail("life.leak", "%s: %ld values alive", w, long(Tok::live()));
    }
};
// constructed before main, destroyed after everything that main and the library create later (in reverse order: early last)
Keeper last_one("static destruction (last)", true);
Keeper second("static destruction", false);
// typed handles begun before main
struct Before {
    co2::coroutine< std::string >::pull_type a; co2::coroutine< void >::pull_type b; co2::coroutine< int & >::push_type c; co2::coroutine< std::string >::push_type d; int cell; std::string got;
    Before() : a([](co2::coroutine< std::string >::push_type & s) { L l(1); for (int i = 0;; ++i) { L m(i); s(std::string(30, char('a' + i % 26))); } }),
               b(co2::protected_fixedsize_stack(VP_SAN ? 256 * 1024 : 64 * 1024), [](co2::coroutine< void >::push_type & s) { L l(2); for (;;) s(); }),
               c([](co2::coroutine< int & >::pull_type & s) { L l(3); for (; s; s()) ++s.get(); }),
               d(co2::pooled_fixedsize_stack(VP_SAN ? 256 * 1024 : 64 * 1024), [this](co2::coroutine< std::string >::pull_type & s) { L l(4); for (; s; s()) got = s.get(); }), cell(0) {}
    void use(int i) { a(); b(); c(cell); d(std::to_string(i)); if (a.get() != std::string(30, char('a' + (i + 1) % 26)) || cell != i + 1 || got != std::to_string(i)) fail("value.wrong", "coroutines begun before main, step %d", i); if ( ! a || ! b || ! c || ! d) fail("valid.handle", "coroutines begun before main"); }
} before;

int child(uint64_t seed, int sc) {
    vp::Rng r(seed);
    for (int i = 0, n = int(r.below(4)); i < n; ++i) before.use(i);
    switch (sc) {
    case 0: second.fill(r, 1 + int(r.below(6))); last_one.fill(r, 1 + int(r.below(4))); break;
    case 1: { std::thread t([&] { second.fill(r, 1 + int(r.below(5))); last_one.fill(r, 1 + int(r.below(5))); }); t.join(); } break;   // begun by a thread that is gone
    case 2: { // function-local static, constructed before and destroyed after whatever the library constructs on first use
        static Keeper local("destruction of a function-local static", false); local.fill(r, 3); last_one.fill(r, 2); } break;
    case 3: std::atexit([] { second.act = 0; vp::Rng q(second.seed); for (auto & x : second.h) for (int i = 0; i < 2; ++i) x.resume("atexit handler", unsigned(q.below(8))); second.fill(q, 2); }); second.fill(r, 3); break;
    default: { // the program exits from inside a coroutine that is never continued
        second.fill(r, 3); last_one.fill(r, 2); static std::unique_ptr< AnyCo > * leak = new std::unique_ptr< AnyCo >(); * leak = make_co(PullN, [](AnyPort & p) { p.xfer(0); std::exit(0); }, shared_alloc()); --shared_alloc()->outstanding; (* leak)->resume(); } break;
    }
    std::exit(0);
}
void process(vp::Rng & r, int sc) {
    fflush(stdout); uint64_t seed = r.next(); pid_t p = fork();
    if (p == 0) { child(seed, sc); _exit(9); }
    int st = 0; if (p < 0 || waitpid(p, & st, 0) != p) { vp::count("fork_failed"); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 101) _exit(101);       // already reported by the child
    if ( ! WIFEXITED(st) || WEXITSTATUS(st) != 0) fail("unwind.context", "program exit with coroutines held by static objects (scenario %d): status %x", sc, st);
    vp::count("process_exits");
}
// thread_local owners: constructed first, hence destroyed after the thread-local state created later
Keeper & tl(int which) { static thread_local Keeper a("thread exit (last)", false), b("thread exit", false); return which ? b : a; }
void threads(vp::Rng & r, int sc) {
    reset_obs(); int n = 1 + int(r.below(3)); std::vector< std::thread > th; std::vector< uint64_t > seeds; for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    // begun elsewhere, moved into the thread's own object
    std::vector< std::vector< Held > > given(n); if (sc == 1) for (int i = 0; i < n; ++i) { Keeper k("", false); vp::Rng q(seeds[i] + 5); k.fill(q, 3); k.act = 0; given[i] = std::move(k.h); k.h.clear(); }
    for (int i = 0; i < n; ++i) th.push_back(std::thread([&, i] { vp::Rng q(seeds[i]); Keeper & a = tl(0); Keeper & b = tl(1); if (sc == 1) { for (auto & x : given[i]) a.h.push_back(std::move(x)); given[i].clear(); a.act = int(q.below(6)); a.seed = q.next(); } else a.fill(q, 1 + int(q.below(4))); b.fill(q, int(q.below(4))); }));
    for (auto & t : th) t.join();
    given.clear(); Keeper::verdict("after the threads ended"); vp::count("thread_exits", uint64_t(n));
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 15487469); int sc = int(i % 9); vp::begin_case(i, vp::fmt("teardown scenario %d", sc)); long pre = locals;
        if (sc < 5) process(r, sc); else { long b = locals; reset_obs(); threads(r, sc % 2); locals = b; }
        (void) pre;
        vp::count("locals_tracked", uint64_t(built.load()));
        vp::end_case(mix(r.next()), true, vp::fmt("teardown scenario %d", sc));
    }
    return vp::finish();
}
