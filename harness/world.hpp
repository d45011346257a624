// Online reference model of a set of coroutines driven by one random program.
// Every transfer of control, value, exception and every construction/destruction is
// reported to the World, which knows what the contract requires next.
#ifndef WORLD_HPP
#define WORLD_HPP
#include "vp.hpp"
#include <memory>
#if defined(BOOST_USE_VALGRIND)
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
#endif
#if defined(BOOST_USE_ASAN)
extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
#define VP_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define VP_UNPOISON(p, n) ((void) 0)
#endif
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace co2 = boost::coroutines2;
using vp::fail;
using vp::mix;

enum St { NotStarted, Suspended, Active, Complete, Gone };
enum ExK { XNone, XA, XB, XC, XI };

struct World;

struct Exc { int k; uint64_t id; Exc() : k(XNone), id(0) {} };

struct StackRec {
    char * raw; char * lo; char * hi; std::size_t size; bool live; int co;
    int allocs, deallocs;
};

struct Co {
    int id; char kind; bool pull; St st; int depth;
    bool entered;
    uint64_t suspend_pt;       // where the body is parked
    uint64_t resume_pt;        // where the current resumer waits
    bool has_val; uint64_t val; void const* addr; bool consumed;
    std::vector< int > guards; // live guards on this coroutine's stack, outermost first
    int functors;              // live instances of its coroutine-function
    int lvalue_functors;       // of those, owned by the caller
    bool unwinding;
    Exc exc;                   // exception that left / is leaving the body
    int stack;                 // index of tracked stack or -1
    unsigned yields, resumes;
};

struct Cell { uint64_t id; uint64_t writes; };

struct Profile {
    char const* name;
    unsigned steps;             // main-context operations
    unsigned budget;            // total operations
    // main / pool operation weights
    unsigned w_create, w_resume, w_read, w_query, w_movec, w_movea, w_selfm, w_destroy;
    // body operation weights
    unsigned b_yield, b_frame, b_try, b_pool, b_throw, b_finish, b_local, b_verify;
    unsigned maxlive;
    char const* kinds;
};

struct World {
    vp::Rng rng;
    Profile prof;
    uint64_t h;                       // trace hash
    uint64_t events;
    uint64_t pt;                      // program points handed out
    uint64_t vid;                     // value ids
    int gid;
    std::vector< Co * > cos;
    std::vector< Co * > chain;        // running coroutine chain; empty: main
    struct { int what; int co; uint64_t pt; } expect; // what: 0 none 1 gain 2 back
    std::set< uintptr_t > live_vals;  // live transferred objects
    std::set< uintptr_t > live_guards;
    std::set< uintptr_t > live_fns;
    long live_exc;
    std::vector< StackRec > stacks;
    std::vector< Cell * > cells;
    unsigned budget;
    bool draining;
    std::string log; bool logging; bool unwind_resume;
    // observation counters
    uint64_t n_switch, n_val, n_exc, n_unwound, n_frames, n_alloc, n_move, n_query, n_local, n_destroyed, n_created, n_reads, n_unwind_resume, n_odd;
    unsigned maxchain;
    int pull_ctor_alloc;              // stack index of last allocation
    unsigned copies, moves;

    World(uint64_t seed, Profile const& p) :
        rng(seed), prof(p), h(seed), events(0), pt(0), vid(0), gid(0), live_exc(0), budget(p.budget), draining(false), logging(false), unwind_resume(false),
        n_switch(0), n_val(0), n_exc(0), n_unwound(0), n_frames(0), n_alloc(0), n_move(0), n_query(0), n_local(0), n_destroyed(0),
        n_created(0), n_reads(0), n_unwind_resume(0), n_odd(0), maxchain(0), pull_ctor_alloc(-1), copies(0), moves(0) {
        expect.what = 0; expect.co = -1; expect.pt = 0;
    }
    ~World() {
        for (std::size_t i = 0; i < cos.size(); ++i) delete cos[i];
        for (std::size_t i = 0; i < cells.size(); ++i) delete cells[i];
    }
    void ev(char t, int co, uint64_t x = 0) {
        h = mix(h ^ (uint64_t(t) << 56) ^ (uint64_t(co) << 40) ^ x);
        if (++events > 400000) fail("hang.steps", "event bound exceeded: control ping-pongs without progress");
        if (logging && log.size() < 6000) {
            char b[64]; snprintf(b, sizeof b, "%c%d%s", t, co, ""); log += b;
            if (x) { snprintf(b, sizeof b, ":%llu", (unsigned long long) (x & 0xffff)); log += b; }
            log += ' ';
        }
    }
    Co * cur() { return chain.empty() ? 0 : chain.back(); }
    int curid() { return chain.empty() ? -1 : chain.back()->id; }
    // a coroutine body (or the resumer) got control
    void gained(Co * co, uint64_t p) {
        ++n_switch;
        if (expect.what != 1 || expect.co != co->id || expect.pt != p)
            fail("control.gain", "coroutine %d gained control at point %llu, expected what=%d co=%d point=%llu", co->id,
                 (unsigned long long) p, expect.what, expect.co, (unsigned long long) expect.pt);
        expect.what = 0;
        ev('g', co->id, p);
    }
    void back(int who, uint64_t p) {
        ++n_switch;
        if (expect.what != 2 || expect.co != who || expect.pt != p)
            fail("control.back", "context %d got control back at point %llu, expected what=%d co=%d point=%llu", who,
                 (unsigned long long) p, expect.what, expect.co, (unsigned long long) expect.pt);
        expect.what = 0;
        if (curid() != who) fail("control.back", "returned to context %d, chain top is %d", who, curid());
        ev('b', who, p);
    }
    // body is about to give control away
    void leave(Co * co, St st) {
        if (expect.what) fail("control.leave", "coroutine %d runs while a transfer is pending", co->id);
        if (cur() != co) fail("control.leave", "coroutine %d leaves but %d is running", co->id, curid());
        chain.pop_back();
        co->st = st;
        expect.what = 2; expect.co = curid(); expect.pt = co->resume_pt;
        ev('l', co->id, st);
    }
    void enter(Co * co, uint64_t rp) {
        if (expect.what) fail("control.leave", "resume while a transfer is pending");
        chain.push_back(co);
        if (chain.size() > maxchain) maxchain = chain.size();
        co->st = Active; co->resume_pt = rp; ++co->resumes;
        expect.what = 1; expect.co = co->id; expect.pt = co->suspend_pt;
        ev('r', co->id, rp);
    }
    // something of a coroutine that is being destroyed runs: its unwinding has started
    void unwind_touch(Co * co) {
        if (co->unwinding && expect.what == 1 && expect.co == co->id) { expect.what = 0; ev('u', co->id); }
    }
    void add_live(std::set< uintptr_t > & s, void const* p, char const* what) {
        if ( ! s.insert((uintptr_t) p).second) fail("life.dup_construct", "%s constructed over a live object", what);
    }
    void del_live(std::set< uintptr_t > & s, void const* p, char const* what) {
        if ( ! s.erase((uintptr_t) p)) fail("life.double_destroy", "%s destroyed that is not alive", what);
    }
    static bool range(std::set< uintptr_t > const& s, void * lo, void * hi) {
        std::set< uintptr_t >::const_iterator i = s.lower_bound((uintptr_t) lo);
        return i != s.end() && * i < (uintptr_t) hi;
    }
    Cell * cell() {
        if (cells.size() < 12 || rng.chance(10)) {
            Cell * c = new Cell; c->id = mix(++vid); c->writes = 0; cells.push_back(c); return c;
        }
        return cells[rng.below(cells.size())];
    }
};

// ---- tracked payloads -------------------------------------------------------------------------
struct Val { // copyable, owns heap memory
    World * w; uint64_t id; uint64_t * heap; bool moved; uint32_t magic;
    Val(World * w_, uint64_t i) : w(w_), id(i), heap(new uint64_t[3]), moved(false), magic(0xabcd1234) {
        heap[0] = i; heap[1] = mix(i); heap[2] = ~i; w->add_live(w->live_vals, this, "value");
    }
    Val(Val const& o) : w(o.w), id(o.id), heap(0), moved(o.moved), magic(0xabcd1234) {
        o.alive();
        if (o.heap) { heap = new uint64_t[3]; memcpy(heap, o.heap, 24); }
        w->add_live(w->live_vals, this, "value"); ++w->copies;
    }
    Val(Val && o) : w(o.w), id(o.id), heap(o.heap), moved(o.moved), magic(0xabcd1234) {
        o.alive();
        o.heap = 0; o.moved = true; o.id = 0;
        w->add_live(w->live_vals, this, "value"); ++w->moves;
    }
    Val & operator=(Val const&) = delete;
    ~Val() { alive(); w->del_live(w->live_vals, this, "value"); delete [] heap; heap = 0; magic = 0xdeaddead; }
    void alive() const { if (magic != 0xabcd1234) fail("life.use_dead", "operation on a destroyed or never constructed value"); }
    bool ok(uint64_t i) const { return magic == 0xabcd1234 && ! moved && id == i && heap && heap[0] == i && heap[1] == mix(i) && heap[2] == ~i; }
};
struct Mov : Val { // move-only
    Mov(World * w_, uint64_t i) : Val(w_, i) {}
    Mov(Mov && o) : Val(static_cast< Val && >(o)) {}
    Mov(Mov const&) = delete;
};
struct Big { uint64_t a[37]; };

struct ExTok { // every exception object carries one
    World * w;
    explicit ExTok(World * w_) : w(w_) { ++w->live_exc; }
    ExTok(ExTok const& o) : w(o.w) { ++w->live_exc; }
    ~ExTok() { --w->live_exc; }
};
struct EA : std::runtime_error { uint64_t id; ExTok t; EA(World * w, uint64_t i) : std::runtime_error("EA"), id(i), t(w) {} };
struct EB : EA { uint64_t id2; EB(World * w, uint64_t i) : EA(w, i), id2(mix(i)) {} };
struct EC { uint64_t id; ExTok t; EC(World * w, uint64_t i) : id(i), t(w) {} };

// ---- stack allocator under observation ---------------------------------------------------------
enum { CAN = 256 };
inline void fill_canary(char * p) { for (int i = 0; i < CAN; ++i) p[i] = char(0xA5 ^ i); }
inline bool check_canary(char const* p) { for (int i = 0; i < CAN; ++i) if (p[i] != char(0xA5 ^ i)) return false; return true; }

struct TAlloc {
    typedef boost::context::stack_traits traits_type;
    World * w; std::size_t size;
    TAlloc(World * w_, std::size_t s) : w(w_), size(s) {}
    boost::context::stack_context allocate() {
        StackRec r;
        std::size_t off = 16 * w->rng.below(16);
        r.size = size; r.raw = (char *) malloc(size + 2 * CAN + 1024);
        r.lo = (char *) ((((uintptr_t) r.raw) + CAN + 255) & ~(uintptr_t) 255) + off;
        r.hi = r.lo + size;
        fill_canary(r.lo - CAN); fill_canary(r.hi);
        r.live = true; r.co = -1; r.allocs = 1; r.deallocs = 0;
        w->stacks.push_back(r);
        w->pull_ctor_alloc = int(w->stacks.size()) - 1;
        ++w->n_alloc;
        boost::context::stack_context s;
        s.size = size; s.sp = r.hi;
#if defined(BOOST_USE_VALGRIND)
        s.valgrind_stack_id = VALGRIND_STACK_REGISTER(s.sp, r.lo);
#endif
        return s;
    }
    void deallocate(boost::context::stack_context & s) noexcept {
        int k = -1;
        for (std::size_t i = w->stacks.size(); i-- > 0; ) if (w->stacks[i].hi == s.sp && w->stacks[i].live) { k = int(i); break; }
        if (k < 0) fail("alloc.bad_dealloc", "deallocate of a stack that is not outstanding sp=%p size=%zu", s.sp, s.size);
        StackRec & r = w->stacks[k];
        if (s.size != r.size) fail("alloc.bad_dealloc", "deallocate with size %zu, allocated %zu", s.size, r.size);
        if ( ! check_canary(r.lo - CAN) || ! check_canary(r.hi)) fail("alloc.canary", "memory outside the allocated stack was written");
        char probe;
        if (& probe >= r.lo && & probe < r.hi) fail("alloc.self", "stack deallocated while executing on it");
        if (World::range(w->live_guards, r.lo, r.hi)) fail("alloc.live_locals", "stack deallocated while locals on it are alive");
        if (World::range(w->live_vals, r.lo, r.hi)) fail("alloc.live_values", "stack deallocated while transferred values on it are alive");
        if (World::range(w->live_fns, r.lo, r.hi)) fail("alloc.live_functor", "stack deallocated while the coroutine-function on it is alive");
        r.live = false; ++r.deallocs;
#if defined(BOOST_USE_VALGRIND)
        VALGRIND_STACK_DEREGISTER(s.valgrind_stack_id);
        (void) VALGRIND_MAKE_MEM_UNDEFINED(r.lo, r.size);
#endif
        VP_UNPOISON(r.lo, r.size);
        memset(r.lo, 0xDD, r.size > 4096 ? 4096 : r.size); // poison the low end; high end below
        memset(r.hi - 4096, 0xDD, 4096);
        free(r.raw);
        r.raw = 0;
    }
};

// ---- guards -------------------------------------------------------------------------------------
struct Guard {
    World & w; Co * co; int id;
    Guard(World & w_, Co * c) : w(w_), co(c), id(++w_.gid) { co->guards.push_back(id); w.add_live(w.live_guards, this, "local"); }
    ~Guard() {
        if (w.cur() != co) fail("unwind.context", "local of coroutine %d destroyed while context %d runs", co->id, w.curid());
        w.unwind_touch(co);
        if (w.expect.what) fail("unwind.pending", "local of coroutine %d destroyed by an unexpected unwinding", co->id);
        if (co->guards.empty() || co->guards.back() != id) fail("unwind.lifo", "locals of coroutine %d not destroyed in reverse order", co->id);
        co->guards.pop_back();
        w.del_live(w.live_guards, this, "local");
        if (co->unwinding) ++w.n_unwound;
        w.ev('d', co->id);
    }
    Guard(Guard const&) = delete;
};
#endif
