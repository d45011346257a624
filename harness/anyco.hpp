// Type-erased coroutines: one interface over the six class specialisations, so that a scenario
// can be run unchanged on pull/push x {value, reference, void}.
#ifndef ANYCO_HPP
#define ANYCO_HPP
#include "vp.hpp"
#include <atomic>
#include <functional>
#include <memory>

namespace co2 = boost::coroutines2;
using vp::fail;
using vp::mix;

// transferred payload: heap owning, self-checking, globally counted
struct Tok {
    static std::atomic< long > & live() { static std::atomic< long > l(0); return l; }
    uint64_t id; uint64_t * heap; uint32_t magic;
    explicit Tok(uint64_t i) : id(i), heap(new uint64_t(mix(i))), magic(0x70cc70cc) { ++live(); }
    Tok(Tok const& o) : id(o.id), heap(o.heap ? new uint64_t(* o.heap) : 0), magic(0x70cc70cc) { o.check(); ++live(); }
    Tok(Tok && o) : id(o.id), heap(o.heap), magic(0x70cc70cc) { o.check(); o.heap = 0; ++live(); }
    Tok & operator=(Tok const&) = delete;
    ~Tok() { check(); delete heap; magic = 0xdead; --live(); }
    void check() const { if (magic != 0x70cc70cc) fail("life.use_dead", "operation on a destroyed or never constructed value (tok %llx)", (unsigned long long) id); }
    bool ok(uint64_t i) const { return magic == 0x70cc70cc && id == i && heap && * heap == mix(i); }
};

enum Variant { PullV, PullR, PullN, PushV, PushR, PushN, NVariants };
inline bool is_pull(int v) { return v < 3; }
inline bool has_value(int v) { return v != PullN && v != PushN; }
inline char const* vname(int v) { static char const* n[] = { "pull<T>", "pull<T&>", "pull<void>", "push<T>", "push<T&>", "push<void>" }; return n[v]; }

// seen from inside the coroutine-function
struct AnyPort {
    int variant;
    // pull: sends `out`; push: suspends and returns the next value received (0 for void)
    virtual uint64_t xfer(uint64_t out) = 0;
    // push: the value that is current now
    virtual uint64_t current() = 0;
    virtual bool valid() = 0;
    virtual ~AnyPort() {}
};
// the handle
struct AnyCo {
    int variant;
    virtual ~AnyCo() {}
    virtual bool valid() const = 0;
    virtual bool notvalid() const = 0;
    // push: passes `in`; how selects the call form
    virtual void resume(uint64_t in = 0, unsigned how = 0) = 0;
    virtual uint64_t value(unsigned how = 0) = 0;   // pull: the current value, 0 for void (non consuming)
    virtual bool at_end() = 0;                      // begin()==end()
    virtual std::unique_ptr< AnyCo > moved() = 0;   // move construction
    virtual void assign(AnyCo & o) = 0;             // move assignment (same variant)
};
typedef std::function< void(AnyPort &) > Body;

// stack allocator with observable effects, shared state by pointer
struct AllocState {
    vp::Rng rng; std::size_t size; int outstanding; int allocs; int deallocs; int fail_at; std::string err;
    std::function< void(char *, char *) > on_dealloc;
    bool recycle_poison; bool odd;
    std::map< void *, std::pair< char *, std::size_t > > live;   // sp -> raw,size
    std::mutex mx;
    char * last_lo; char * last_hi;
    explicit AllocState(std::size_t s = 64 * 1024, uint64_t seed = 1) : rng(seed), size(s), outstanding(0), allocs(0), deallocs(0), fail_at(0), recycle_poison(true), odd(false), last_lo(0), last_hi(0) {}
    ~AllocState() { if (outstanding) fail("alloc.leaked", "%d stacks never deallocated", outstanding); }
};
struct AllocError { int n; };
enum { XCAN = 256 };
struct XAlloc {
    typedef boost::context::stack_traits traits_type;
    AllocState * s; uint32_t magic;
    explicit XAlloc(AllocState * s_) : s(s_), magic(0xa110c) {}
    XAlloc(XAlloc const& o) : s(o.s), magic(0xa110c) { o.chk(); }
    XAlloc(XAlloc && o) : s(o.s), magic(0xa110c) { o.chk(); }
    ~XAlloc() { chk(); magic = 0xdead; }
    void chk() const { if (magic != 0xa110c) fail("alloc.dead", "operation on a dead stack allocator"); }
    boost::context::stack_context allocate();
    void deallocate(boost::context::stack_context & c) noexcept;
};

// build a coroutine; st==null: default allocator; lv: allocator passed as lvalue, functor as lvalue
std::unique_ptr< AnyCo > make_co(int variant, Body const& body, AllocState * st = 0, bool lv = false);
#endif
