// C20: reading does not consume. Reads of every kind are repeated between resumes and compared with the value sent.
#include "vp.hpp"
#include <functional>
#include <memory>
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
namespace {
struct Pod { uint64_t a; double b; char c[13]; bool operator==(Pod const& o) const { return a == o.a && b == o.b && ! memcmp(c, o.c, sizeof c); } };
enum Colour { Red, Green, Blue, Cyan };
struct Large { uint64_t a[70]; bool operator==(Large const& o) const { return ! memcmp(a, o.a, sizeof a); } };
// copyable, moving leaves a recognisable state
struct Mv { uint64_t v; bool gone; uint32_t magic; explicit Mv(uint64_t x = 0) : v(x), gone(false), magic(0xfeed) {} Mv(Mv const& o) : v(o.v), gone(o.gone), magic(0xfeed) { o.chk(); } Mv(Mv && o) : v(o.v), gone(o.gone), magic(0xfeed) { o.chk(); o.gone = true; o.v = ~0ull; } Mv & operator=(Mv const&) = delete; ~Mv() { chk(); magic = 0xdead; } void chk() const { if (magic != 0xfeed) fail("life.use_dead", "operation on a dead value"); } bool operator==(Mv const& o) const { chk(); return v == o.v && gone == o.gone; } };
// copyable, without a move constructor
struct Cp { uint64_t v; uint64_t * h; uint32_t magic; explicit Cp(uint64_t x = 0) : v(x), h(new uint64_t(x)), magic(0xbeef) {} Cp(Cp const& o) : v(o.v), h(new uint64_t(* o.h)), magic(0xbeef) { o.chk(); } Cp & operator=(Cp const&) = delete; ~Cp() { chk(); delete h; magic = 0xdead; } void chk() const { if (magic != 0xbeef) fail("life.use_dead", "operation on a dead value"); } bool operator==(Cp const& o) const { chk(); return v == o.v && * h == * o.h; } };
struct Uq { std::unique_ptr< uint64_t > p; explicit Uq(uint64_t x = 0) : p(new uint64_t(x)) {} Uq(Uq && o) : p(std::move(o.p)) {} bool operator==(Uq const& o) const { return p && o.p && * p == * o.p; } };

// how: what a get() does to the stored object: 0 nothing (trivial, copy-only, references) 1 moves it out although copyable (known finding) 2 move-only
template< class T > struct Ty;
template<> struct Ty< uint64_t > { enum { how = 0 }; static uint64_t mk(uint64_t x) { return mix(x); } static bool moved(uint64_t) { return false; } static char const* n() { return "uint64_t"; } };
template<> struct Ty< bool > { enum { how = 0 }; static bool mk(uint64_t x) { return x & 1; } static bool moved(bool) { return false; } static char const* n() { return "bool"; } };
template<> struct Ty< double > { enum { how = 0 }; static double mk(uint64_t x) { return double(x) / 3.0; } static bool moved(double) { return false; } static char const* n() { return "double"; } };
template<> struct Ty< Colour > { enum { how = 0 }; static Colour mk(uint64_t x) { return Colour(x & 3); } static bool moved(Colour) { return false; } static char const* n() { return "enum"; } };
template<> struct Ty< Pod > { enum { how = 0 }; static Pod mk(uint64_t x) { Pod p; memset(& p, 0, sizeof p); p.a = mix(x); p.b = double(x); memset(p.c, int(x), sizeof p.c); return p; } static bool moved(Pod const&) { return false; } static char const* n() { return "struct"; } };
template<> struct Ty< Large > { enum { how = 0 }; static Large mk(uint64_t x) { Large p; for (int i = 0; i < 70; ++i) p.a[i] = mix(x + i); return p; } static bool moved(Large const&) { return false; } static char const* n() { return "large struct"; } };
template<> struct Ty< int const* > { enum { how = 0 }; static int const* mk(uint64_t x) { static int a[64]; return x % 9 ? a + x % 64 : nullptr; } static bool moved(int const*) { return false; } static char const* n() { return "pointer"; } };
template<> struct Ty< Cp > { enum { how = 0 }; static Cp mk(uint64_t x) { return Cp(mix(x)); } static bool moved(Cp const&) { return false; } static char const* n() { return "copy-only class"; } };
template<> struct Ty< Mv > { enum { how = 1 }; static Mv mk(uint64_t x) { return Mv(mix(x)); } static bool moved(Mv const& m) { return m.gone && m.v == ~0ull; } static char const* n() { return "movable class"; } };
template<> struct Ty< std::string > { enum { how = 1 }; static std::string mk(uint64_t x) { return std::string(1 + x % 60, char('a' + x % 26)); } static bool moved(std::string const& s) { return s.empty(); } static char const* n() { return "std::string"; } };
template<> struct Ty< std::vector< int > > { enum { how = 1 }; static std::vector< int > mk(uint64_t x) { return std::vector< int >(1 + x % 20, int(x)); } static bool moved(std::vector< int > const& s) { return s.empty(); } static char const* n() { return "std::vector"; } };
template<> struct Ty< std::shared_ptr< int > > { enum { how = 1 }; static std::shared_ptr< int > mk(uint64_t x) { static std::shared_ptr< int > a[16]; std::shared_ptr< int > & p = a[x % 16]; if ( ! p) p.reset(new int(int(x))); return p; } static bool moved(std::shared_ptr< int > const& s) { return ! s; } static char const* n() { return "std::shared_ptr"; } };
template<> struct Ty< Uq > { enum { how = 2 }; static Uq mk(uint64_t x) { return Uq(mix(x)); } static bool moved(Uq const& u) { return ! u.p; } static char const* n() { return "move-only class"; } };

template< class T > struct Reader {
    bool taken; int gets; uint64_t id; Reader() : taken(false), gets(0), id(0) {}
    void fresh(uint64_t x) { taken = false; id = x; }
    // the dereferenced iterator designates the transferred object: what is assigned through it is what later reads see
    template< class P > void write(P & p, vp::Rng & r, std::true_type) { uint64_t x = r.next() >> 8; if (r.chance(50)) * begin(p) = Ty< T >::mk(x); else for (auto & v : p) { v = Ty< T >::mk(x); break; } fresh(x); vp::count("writes_through_iterator"); }
    template< class P > void write(P &, vp::Rng &, std::false_type) {}
    void eq(T const& v, char const* what) {
        T w(Ty< T >::mk(id));
        if ( ! taken) { if ( ! (v == w)) fail("read.changed", "%s: %s of value %llu differs from what was sent although it had not been retrieved by get()", Ty< T >::n(), what, (unsigned long long) id); return; }
        if (v == w) return;
        // the value had been retrieved by get() before
        if (Ty< T >::how == 1 && Ty< T >::moved(v)) { vp::finding(what[0] == 'g' ? "get-after-get" : "deref-after-get", vp::fmt("%s: %s after get() yields a moved-from value", Ty< T >::n(), what)); vp::count("known_moved_from_reads"); return; }
        fail("read.consumed", "%s: %s after get() yields a different value", Ty< T >::n(), what);
    }
    template< class P > void read(P & p, vp::Rng & r, int k) {
        for (int i = 0; i < k; ++i) {
            unsigned how = r.below(7);
            if (r.chance(8)) write(p, r, std::integral_constant< bool, std::is_assignable< T &, T >::value && Ty< T >::how != 2 >());
            if (Ty< T >::how == 2 && (taken || (how <= 1 && i + 1 < k))) { if (taken) return; how = 2; }
            switch (how) {
            case 0: { T v(p.get()); eq(v, "get()"); taken = true; } break;
            case 1: { T v = p.get(); eq(v, "get()"); taken = true; } break;
            case 2: eq(* begin(p), "dereference"); break;
            case 3: { auto it = begin(p); eq(* it, "dereference"); eq(* it, "dereference"); T const& c = * it; eq(c, "dereference"); } break;
            case 4: for (auto & v : p) { eq(v, "dereference in range-for"); break; } break;
            case 5: if ( ! p || ! bool(p) || begin(p) == end(p)) fail("valid.handle", "reading made the coroutine complete"); break;
            default: { auto it = begin(p); auto jt = it; eq(* jt.operator->(), "dereference through operator->"); eq(* it, "dereference"); } break;
            }
            vp::count("reads");
        }
    }
};
template< class T > uint64_t pull(vp::Rng & r) {
    typedef co2::coroutine< T > C; int n = 1 + int(r.below(6)); uint64_t base = r.next() >> 8; Reader< T > rd; uint64_t h = n;
    typename C::pull_type p([&](typename C::push_type & s) { for (int i = 0; i < n; ++i) s(Ty< T >::mk(base + i)); });
    for (int i = 0; i < n; ++i) { rd.fresh(base + i); if ( ! p) fail("valid.handle", "early"); int k = int(r.below(8)); h = mix(h + k); rd.read(p, r, k); if (r.chance(20)) { typename C::pull_type q(std::move(p)); rd.read(q, r, int(r.below(3))); p = std::move(q); } rd.read(p, r, int(r.below(3))); p(); }
    if (p) fail("valid.handle", "late"); return h;
}
template< class T > uint64_t push(vp::Rng & r) {
    typedef co2::coroutine< T > C; int n = 1 + int(r.below(6)); uint64_t base = r.next() >> 8; Reader< T > rd; uint64_t h = n; int seen = 0;
    typename C::push_type s([&](typename C::pull_type & p) { for (;;) { rd.fresh(base + seen); int k = int(r.below(8)); h = mix(h + k); rd.read(p, r, k); ++seen; p(); } });
    for (int i = 0; i < n; ++i) { s(Ty< T >::mk(base + i)); if (seen != i + 1) fail("value.lost", "push"); }
    return h;
}
// references: reads never change the identity
template< class R > uint64_t refs(vp::Rng & r) {
    typedef co2::coroutine< R > C; std::string a[4] = { "one", "two", "three", std::string(50, 'x') }; std::string const* cur = 0; int n = 1 + int(r.below(6)); bool dir = r.chance(50); uint64_t h = n + dir * 16; std::string const orig[4] = { a[0], a[1], a[2], a[3] };
    auto look = [&](typename C::pull_type & p) { int k = int(r.below(9)); h = mix(h + k); for (int i = 0; i < k; ++i) { switch (r.below(4)) { case 0: { R x = p.get(); if (& x != cur) fail("read.changed", "reference"); } break; case 1: { R x = * begin(p); if (& x != cur) fail("read.changed", "reference"); } break; case 2: if (& p.get() != & p.get()) fail("read.changed", "reference"); break; default: { std::string copy = p.get(); if (copy != * cur) fail("read.changed", "contents"); } break; } vp::count("reads"); } for (int i = 0; i < 4; ++i) if (a[i] != orig[i]) fail("read.consumed", "reading through a reference changed the object"); };
    if (dir) { typename C::pull_type p([&](typename C::push_type & s) { for (int i = 0; i < n; ++i) { std::string & t = a[r.below(4)]; cur = & t; s(t); } }); while (p) { look(p); p(); } }
    else { typename C::push_type s([&](typename C::pull_type & p) { while (p) { look(p); p(); } }); for (int i = 0; i < n; ++i) { std::string & t = a[r.below(4)]; cur = & t; s(t); } }
    return h;
}
typedef uint64_t (* fn)(vp::Rng &);
template< class T > void add(std::vector< std::pair< std::string, fn > > & v) { v.push_back(std::make_pair(std::string("pull ") + Ty< T >::n(), & pull< T >)); v.push_back(std::make_pair(std::string("push ") + Ty< T >::n(), & push< T >)); }
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a; std::vector< std::pair< std::string, fn > > sc;
    add< uint64_t >(sc); add< bool >(sc); add< double >(sc); add< Colour >(sc); add< Pod >(sc); add< Large >(sc); add< int const* >(sc); add< Cp >(sc); add< Mv >(sc); add< std::string >(sc); add< std::vector< int > >(sc); add< std::shared_ptr< int > >(sc); add< Uq >(sc);
    sc.push_back(std::make_pair(std::string("reference"), & refs< std::string & >)); sc.push_back(std::make_pair(std::string("const reference"), & refs< std::string const& >));
    for (uint64_t i = a.first; i < a.first + a.count; ++i) { vp::Rng r(mix(a.seed) + i * 32452843); auto const& s = sc[i % sc.size()]; vp::begin_case(i, s.first); uint64_t h = s.second(r); vp::end_case(mix(h * 64 + i % sc.size()), true, s.first); }
    return vp::finish();
}
