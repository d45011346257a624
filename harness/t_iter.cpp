// C11: iterators, ranges and standard algorithms visit exactly the transferred sequence.
#include "vp.hpp"
#include <algorithm>
#include <functional>
#include <iterator>
#include <memory>
#include <numeric>
#include <type_traits>
namespace co2 = boost::coroutines2;
using vp::fail; using vp::mix;
namespace {
long copies = 0;
struct Val { uint64_t id; std::string s; explicit Val(uint64_t i) : id(i), s(std::to_string(mix(i))) {} Val(Val const& o) : id(o.id), s(o.s) { ++copies; } Val(Val && o) : id(o.id), s(std::move(o.s)) {} Val & operator=(Val const& o) { id = o.id; s = o.s; ++copies; return * this; } Val & operator=(Val && o) { id = o.id; s = std::move(o.s); return * this; }
    bool ok(uint64_t i) const { return id == i && s == std::to_string(mix(i)); } bool operator==(Val const& o) const { return id == o.id && s == o.s; } bool operator<(Val const& o) const { return id < o.id; } };
template< class T > struct K;
template<> struct K< int > { static int mk(uint64_t i) { return int(mix(i)); } static bool ok(int v, uint64_t i) { return v == mk(i); } enum { cp = 1 }; };
template<> struct K< std::string > { static std::string mk(uint64_t i) { return std::to_string(mix(i)) + std::string(i % 40, 'q'); } static bool ok(std::string const& v, uint64_t i) { return v == mk(i); } enum { cp = 1 }; };
template<> struct K< Val > { static Val mk(uint64_t i) { return Val(i); } static bool ok(Val const& v, uint64_t i) { return v.ok(i); } enum { cp = 1 }; };
template<> struct K< std::unique_ptr< int > > { static std::unique_ptr< int > mk(uint64_t i) { return std::unique_ptr< int >(new int(int(mix(i)))); } static bool ok(std::unique_ptr< int > const& v, uint64_t i) { return v && * v == int(mix(i)); } enum { cp = 0 }; };
// a class whose operators mean something else: iterators must only construct, assign, destroy and designate it
struct Odd { uint64_t id; std::string s; explicit Odd(uint64_t i) : id(i), s(std::to_string(mix(i))) {}
    Odd * operator&() { static Odd o(77); return std::addressof(o); } Odd const * operator&() const { return nullptr; }
    int operator*() const { return 0; } Odd * operator->() { return nullptr; } bool operator!() const { return true; } operator bool() const { return false; } void operator()() const {}
    template< class X > void operator,(X const&) const { fail("iter.operator", "an overloaded operator of the transferred type was used"); } };
bool operator==(Odd const&, Odd const&) { return true; } bool operator!=(Odd const&, Odd const&) { return false; }
template<> struct K< Odd > { static Odd mk(uint64_t i) { return Odd(i); } static bool ok(Odd const& v, uint64_t i) { return v.id == i && v.s == std::to_string(mix(i)); } enum { cp = 1 }; };
int ptrs[16];
template<> struct K< int * > { static int * mk(uint64_t i) { return i % 3 ? ptrs + mix(i) % 16 : nullptr; } static bool ok(int * v, uint64_t i) { return v == mk(i); } enum { cp = 1 }; };
template<> struct K< bool > { static bool mk(uint64_t i) { return mix(i) % 2; } static bool ok(bool v, uint64_t i) { return v == mk(i); } enum { cp = 1 }; };
struct Plan { int n; unsigned how; int at; uint64_t base; int end; bool moved; };

template< class T > struct Iter {
    typedef co2::coroutine< T > C; typedef typename C::pull_type P; typedef typename P::iterator I;
    static typename C::pull_type make(Plan const& p, int & produced) {
        int * pr = & produced; Plan q = p;
        return P([pr, q](typename C::push_type & s) { for (int k = 0; k < q.n; ++k) { ++ * pr; s(K< T >::mk(q.base + k)); } if (q.end == 1) throw q.n; });
    }
    static void val(T const& v, Plan const& p, int k, char const* how) { if ( ! K< T >::ok(v, p.base + k)) fail("iter.value", "%s: element %d is wrong", how, k); }
    static void types() {
        static_assert(std::is_same< typename std::iterator_traits< I >::iterator_category, std::input_iterator_tag >::value, "category");
        static_assert(std::is_same< typename std::iterator_traits< I >::value_type, T >::value, "value_type");
        static_assert(std::is_same< typename std::iterator_traits< I >::reference, T & >::value, "reference");
        static_assert(std::is_copy_constructible< I >::value && std::is_default_constructible< I >::value && std::is_copy_assignable< I >::value, "copyable");
    }
    static void run(Plan const& p) {
        types(); int produced = 0, seen = 0; bool thrown = false;
        try {
            P c(make(p, produced));
            std::unique_ptr< P > other; P * h = & c; if (p.moved) { other.reset(new P(std::move(c))); h = other.get(); if (begin(c) != end(c) || c.begin() != c.end()) fail("iter.end", "moved-from handle has a non-empty range"); }
            try { switch (p.how) {
            case 0: for (T & v : * h) { val(v, p, seen, "range-for"); ++seen; } break;
            case 1: for (I i = begin(* h), e = end(* h); i != e; ++i) { T & a = * i; T & b = * i; if (std::addressof(a) != std::addressof(b) || i.operator->() != std::addressof(a) || static_cast< I const& >(i).operator->() != std::addressof(a) || std::addressof(* static_cast< I const& >(i)) != std::addressof(a)) fail("iter.deref", "repeated dereference"); val(a, p, seen, "*i"); ++seen; if (produced != seen) fail("iter.ahead", "%d values produced when %d were visited", produced, seen); } break;
            case 2: for (I i = h->begin(); ! (i == h->end()); i++) { val(* i, p, seen, "post-increment"); ++seen; } break;
            case 3: std::for_each(begin(* h), end(* h), [&](T const& v) { val(v, p, seen, "for_each"); ++seen; }); break;
            case 4: { auto n = std::distance(begin(* h), end(* h)); seen = int(n); } break;
            case 5: { // break out, then continue with a new range: the current element is visited again first
                for (T & v : * h) { val(v, p, seen, "first loop"); if (seen == p.at) break; ++seen; }
                if (* h) { bool first = true; for (T & v : * h) { val(v, p, seen, first ? "resumed loop" : "second loop"); first = false; ++seen; } } } break;
            case 6: { int before; while (* h) { before = produced; for (int z = 0; z < 3; ++z) { I i = begin(* h); if (i == end(* h)) fail("iter.end", "begin()==end() with a value pending"); val(* i, p, seen, "*begin()"); I j(i); if ( ! (i == j)) fail("iter.eq", "copy of an iterator differs"); } if (produced != before) fail("iter.consumes", "begin()/dereference resumed the coroutine"); ++seen; (* h)(); } } break;
            case 7: { auto i = std::find_if(begin(* h), end(* h), [&](T const& v) { val(v, p, seen, "find_if"); return seen++ == p.at; }); if (i != end(* h)) { val(* i, p, p.at, "found"); if (produced != p.at + 1) fail("iter.ahead", "find_if ran ahead"); ++i; for (; i != end(* h); ++i) { val(* i, p, seen, "after find_if"); ++seen; } } } break;
            case 8: { I i; I j = end(* h); if (i != j || ! (i == j)) fail("iter.eq", "default constructed iterator is not end()"); i = begin(* h); j = i; while (i != end(* h)) { val(* i, p, seen, "assigned iterator"); ++seen; I & r = ++i; if (std::addressof(r) != std::addressof(i)) fail("iter.self", "pre-increment does not return the iterator"); } } break;
            case 9: { long c0 = copies; for (I i = begin(* h); i != end(* h); ++i) { T & a = * i; * i; i.operator->(); I j(i); if (std::addressof(* j) != std::addressof(a) || std::addressof(* begin(* h)) != std::addressof(a) || h->begin().operator->() != std::addressof(a)) fail("iter.deref", "two iterators of one coroutine designate different objects"); val(a, p, seen, "dereference"); if (p.at % 2) { long c1 = copies; * i = K< T >::mk(p.base + 1000 + seen); copies = c1; if ( ! K< T >::ok(* begin(* h), p.base + 1000 + seen) || ! K< T >::ok(* j, p.base + 1000 + seen)) fail("iter.value", "what was assigned through an iterator is not what another one reads"); } ++seen; } if (copies != c0) { fail("iter.copies", "dereferencing copied %ld times", copies - c0); } } break;
            default: { // inside another coroutine
                co2::coroutine< int >::pull_type o([&](co2::coroutine< int >::push_type & s) { for (T & v : * h) { val(v, p, seen, "range-for inside a coroutine"); ++seen; s(seen); } }); int k = 0; for (int x : o) { ++k; if (x != k) fail("iter.value", "outer"); } } break;
            }
            if (p.end == 1 && p.n > 0) fail("exc.lost", "iteration ended although the function threw");
            } catch (int e) { thrown = true; if (p.end != 1 || e != p.n) fail("exc.wrong", "unexpected exception"); if (p.how == 4 || p.how == 5) seen = p.n; else if (seen == p.n - 1 || seen == p.n) seen = p.n; }
            if (thrown ? begin(* h) != end(* h) : begin(* h) != end(* h) || * h) fail("iter.end", "complete coroutine has a non-empty range");
        } catch (int e) { thrown = true; if (p.end != 1 || p.n != 0 || e != 0) fail("exc.wrong", "constructor"); }
        if (seen != p.n || produced != p.n) fail("iter.count", "way %u: %d values, %d visited, %d produced", p.how, p.n, seen, produced);
        vp::count("elements_visited", seen);
    }
};
// reference ranges
void refs(Plan const& p) {
    typedef co2::coroutine< int & > C; std::vector< int > v; for (int k = 0; k < p.n; ++k) v.push_back(int(mix(p.base + k)));
    std::vector< int > w = v; std::vector< int * > got;
    C::pull_type c([&](C::push_type & s) { for (int & x : v) s(x); });
    for (int & x : c) { got.push_back(& x); x ^= 1; }
    for (int k = 0; k < p.n; ++k) if (v[k] != (w[k] ^ 1)) fail("iter.value", "range-for over references");
    if (int(got.size()) != p.n) fail("iter.count", "%zu of %d references", got.size(), p.n); 
    for (int k = 0; k < p.n; ++k) if (got[k] != & v[k]) fail("ref.identity", "range-for reference %d", k);
    typedef co2::coroutine< int const& > D; D::pull_type d([&](D::push_type & s) { for (int & x : v) s(x); }); int k = 0;
    for (auto i = begin(d); i != end(d); ++i) { if (& * i != & v[k] || i.operator->() != & v[k]) fail("ref.identity", "const reference %d", k); ++k; }
    if (k != p.n) fail("iter.count", "const references");
    std::vector< int > t; D::pull_type d2([&](D::push_type & s) { for (int & x : v) s(x); }); std::copy(begin(d2), end(d2), std::back_inserter(t)); if (t != v) fail("iter.value", "std::copy from a range of references");
    vp::count("elements_visited", 3 * p.n);
}
template< class R > void oddrefs(Plan const& p) {
    typedef co2::coroutine< R & > C; std::vector< Odd > v; for (int k = 0; k < p.n; ++k) v.push_back(Odd(p.base + k)); int k = 0;
    typename C::pull_type c([&](typename C::push_type & s) { for (Odd & x : v) s(x); });
    for (auto i = begin(c); i != end(c); ++i) { if (k >= p.n || std::addressof(* i) != v.data() + k || i.operator->() != v.data() + k) fail("ref.identity", "reference %d to a class with overloaded operators", k); ++k; }
    if (k != p.n) fail("iter.count", "references to a class with overloaded operators"); k = 0;
    { typename C::push_type d([&](typename C::pull_type & s) { for (R & x : s) { if (k >= p.n || std::addressof(x) != v.data() + k) fail("ref.identity", "reference %d to a class with overloaded operators (push)", k); ++k; } }); auto o = begin(d); for (Odd & x : v) { * o = x; ++o; } }
    if (k != p.n) fail("iter.count", "references to a class with overloaded operators (push)");
}
// an increment or an assignment that throws: the iterator equals end() exactly if the coroutine is complete
struct Boom { int k; }; long fuse = -1;
struct Fragile { uint64_t id; explicit Fragile(uint64_t i) : id(i) {} Fragile(Fragile const& o) : id(o.id) { burn(); } Fragile(Fragile && o) : id(o.id) { burn(); } static void burn() { if (fuse > 0 && --fuse == 0) { Boom b = { -7 }; throw b; } } };
template< class C > void throwing_pull(Plan const& p, char const* what) {
    std::vector< uint64_t > v; for (int k = 0; k <= p.n; ++k) v.push_back(mix(p.base + k)); int n = p.n;
    typename C::pull_type c([&](typename C::push_type & s) { s(v[0]); for (int k = 1; k < n; ++k) s(v[k]); Boom b = { n }; throw b; });
    int seen = 0; bool caught = false; typename C::pull_type::iterator i = begin(c), e = end(c);
    while (i != e) {
        if (* i != v[seen]) fail("iter.value", "%s: element %d", what, seen); ++seen;
        try { if (p.how % 2) ++i; else i++; if (seen >= (n ? n : 1)) fail("exc.lost", "%s", what); } catch (Boom const& b) { if (b.k != n || caught) fail("exc.wrong", "%s", what); caught = true; if (c) fail("valid.handle", "%s: complete", what); if (i != e || i != begin(c)) fail("iter.end", "%s: iterator whose increment threw differs from end() of a complete coroutine", what); }
    }
    if ( ! caught || seen != (n ? n : 1)) fail("iter.count", "%s", what);
    vp::count("throwing_increments");
}
template< class C > void throwing_push(Plan const& p, char const* what) {
    std::vector< uint64_t > v; for (int k = 0; k <= p.n; ++k) v.push_back(mix(p.base + k)); int n = p.n ? p.n : 1, got = 0, sent = 0; bool caught = false;
    typename C::push_type c([&](typename C::pull_type & s) { while (got < n) { if (s.get() != v[got]) fail("iter.value", "%s", what); if (++got < n) s(); } Boom b = { n }; throw b; });
    typename C::push_type::iterator i = begin(c), e = end(c);
    v.resize(std::size_t(n) + 1, 5);
    while (i != e && sent < n + 1) { try { * i = v[sent]; ++sent; ++i; if (sent >= n) fail("exc.lost", "%s", what); } catch (Boom const& b) { ++sent; if (b.k != n || caught) fail("exc.wrong", "%s", what); caught = true; if (c) fail("valid.handle", "%s", what); if (i != e || i != begin(c)) fail("iter.end", "%s: iterator whose assignment threw differs from end() of a complete coroutine", what); } }
    if ( ! caught || sent != n || got != n) fail("iter.count", "%s", what);
    vp::count("throwing_increments");
}
void fragile(Plan const& p) { // the transfer itself throws: the coroutine is not complete and the iterator stays usable
    typedef co2::coroutine< Fragile > C; int got = 0; int n = p.n + 1;
    C::push_type c([&](C::pull_type & s) { while (s) { ++got; s(); } }); C::push_type::iterator i = begin(c); int done = 0;
    for (int k = 0; k < n; ++k) { Fragile f(k); for (long z = 1; z < 9; ++z) { fuse = z; bool thrown = false; try { * i = f; } catch (Boom const& b) { thrown = true; if (b.k != -7) fail("exc.wrong", "transfer"); } fuse = -1; if ( ! c || i == end(c)) fail("iter.end", "a transfer that threw ended the range"); if ( ! thrown) { ++done; break; } } if (got != done) fail("iter.count", "%d transfers, %d received", done, got); }
    vp::count("throwing_transfers");
}
// standard algorithms against the same algorithm on a vector
// containers and algorithms that choose a strategy by iterator category, over references
template< class R > void byref(std::vector< int > & v) {
    typedef co2::coroutine< R > D; typedef typename D::pull_type P; auto mk = [&v] { return P([&v](typename D::push_type & s) { for (int & x : v) s(x); }); };
    static_assert(std::is_same< typename std::iterator_traits< typename P::iterator >::reference, R >::value, "reference");
    { P c(mk()); std::vector< int > o(begin(c), end(c)); if (o != v) fail("iter.value", "vector(begin,end) over references"); }
    { P c(mk()); std::vector< int > o(2, 7); o.insert(o.begin() + 1, begin(c), end(c)); std::vector< int > w(2, 7); w.insert(w.begin() + 1, v.begin(), v.end()); if (o != w) fail("iter.value", "insert(range) over references"); }
    { P c(mk()); std::vector< int > o; o.assign(c.begin(), c.end()); if (o != v) fail("iter.value", "assign(range) over references"); }
    { P c(mk()); if (std::size_t(std::distance(begin(c), end(c))) != v.size() || c) fail("iter.value", "distance over references"); }
    { P c(mk()); std::size_t n = v.size() / 2; auto i = begin(c); std::advance(i, n); if ((n < v.size() ? i == end(c) || * i != v[n] : i != end(c))) fail("iter.value", "advance over references"); }
}

void algos(Plan const& p) {
    typedef co2::coroutine< int > C; std::vector< int > v; for (int k = 0; k < p.n; ++k) v.push_back(int(mix(p.base + k) % 7));
    auto mk = [&]() { return C::pull_type([&](C::push_type & s) { for (int x : v) s(x); }); };
    { C::pull_type c(mk()); std::vector< int > o(begin(c), end(c)); if (o != v) fail("iter.value", "vector(begin,end)"); }
    byref< int & >(v); byref< int const& >(v);
    { C::pull_type c(mk()); std::vector< int > o; std::copy(begin(c), end(c), std::back_inserter(o)); if (o != v) fail("iter.value", "copy"); }
    { C::pull_type c(mk()); if (std::accumulate(begin(c), end(c), 0) != std::accumulate(v.begin(), v.end(), 0)) fail("iter.value", "accumulate"); }
    { C::pull_type c(mk()); if (std::count(begin(c), end(c), 3) != std::count(v.begin(), v.end(), 3)) fail("iter.value", "count"); }
    { C::pull_type c(mk()); if ( ! std::equal(v.begin(), v.end(), begin(c))) fail("iter.value", "equal"); }
    { C::pull_type c(mk()); std::vector< int > o, w; std::transform(begin(c), end(c), std::back_inserter(o), [](int x) { return x * 3; }); for (int x : v) w.push_back(x * 3); if (o != w) fail("iter.value", "transform"); }
    { C::pull_type c(mk()), d(mk()); if ( ! std::equal(begin(c), end(c), begin(d))) fail("iter.value", "equal of two coroutines"); if (std::inner_product(v.begin(), v.end(), v.begin(), 0) != 0 || 1) { C::pull_type e(mk()); if (std::inner_product(begin(e), end(e), v.begin(), 0) != std::inner_product(v.begin(), v.end(), v.begin(), 0)) fail("iter.value", "inner_product"); } }
    { C::pull_type c(mk()); std::vector< int > o, w; std::copy_if(begin(c), end(c), std::back_inserter(o), [](int x) { return x % 2; }); std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](int x) { return x % 2; }); if (o != w) fail("iter.value", "copy_if"); }
    { std::vector< int > a = v, b = v; std::sort(a.begin(), a.end()); std::reverse(b.begin(), b.end()); std::sort(b.begin(), b.end()); C::pull_type c([&](C::push_type & s) { for (int x : a) s(x); }), d([&](C::push_type & s) { for (int x : b) s(x); }); std::vector< int > o, w; std::merge(begin(c), end(c), begin(d), end(d), std::back_inserter(o)); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w)); if (o != w) fail("iter.value", "merge of two coroutines"); C::pull_type e([&](C::push_type & s) { for (int x : a) s(x); }), f([&](C::push_type & s) { for (int x : b) s(x); }); if ( ! std::includes(begin(e), end(e), begin(f), end(f))) fail("iter.value", "includes"); }
    { C::pull_type c(mk()); if (std::any_of(begin(c), end(c), [](int x) { return x == 5; }) != std::any_of(v.begin(), v.end(), [](int x) { return x == 5; })) fail("iter.value", "any_of"); }
    vp::count("algorithms", 11);
}
// output iterators of push-coroutines
template< class T > void output(Plan const& p) {
    typedef co2::coroutine< T > C; typedef typename C::push_type S; typedef typename S::iterator O;
    static_assert(std::is_same< typename O::iterator_category, std::output_iterator_tag >::value, "category");
    int limit = p.at % (p.n + 2); // the function returns after this many values
    int got = 0; bool thr = p.end == 1;
    S c([&](typename C::pull_type & s) { while (got < limit && s) { if ( ! K< T >::ok(* begin(s), p.base + got)) fail("iter.value", "output element %d", got); ++got; if (got < limit) s(); } if (limit == 0) got = 0; if (thr) throw 31; });
    if (begin(c) == end(c)) fail("iter.end", "fresh push-coroutine has begin()==end()");
    O it = begin(c); int sent = 0; bool complete = false; bool thrown = false;
    int cap = limit == 0 ? 1 : limit; // pushes until complete
    int todo = p.n < cap ? p.n : cap;
    try {
        switch (p.how % 4) {
        case 0: while (sent < p.n && it != end(c)) { * it = K< T >::mk(p.base + sent); ++sent; ++it; if ((it == end(c)) != (sent == cap)) fail("iter.end", "output iterator is %s after %d of %d values", it == end(c) ? "end" : "not end", sent, cap); } break;
        case 1: for (; sent < todo; ++sent) { T v(K< T >::mk(p.base + sent)); O & r = ++it; if (& r != & it) fail("iter.self", "pre-increment"); if (& * it != & it) fail("iter.self", "dereference"); it = v; } break;
        case 2: { std::vector< T > v; for (int k = 0; k < todo; ++k) v.push_back(K< T >::mk(p.base + k)); it = std::copy(v.begin(), v.end(), it); sent = todo; } break;
        default: { int k = 0; it = std::generate_n(it, todo, [&] { return K< T >::mk(p.base + k++); }); sent = todo; } break;
        }
    } catch (int e) { thrown = true; if (e != 31) fail("exc.wrong", "output iterator"); sent = cap; }
    complete = sent >= cap;
    if (thrown != (thr && complete)) fail("exc.lost", "output iterator");
    if ( ! thrown && (it == end(c)) != complete) fail("iter.end", "output iterator after %d of %d values (limit)", sent, cap);
    if (bool(c) == complete || (begin(c) == end(c)) != complete) fail("iter.end", "push-coroutine range when %scomplete", complete ? "" : "not ");
    if (got != (sent < limit ? sent : limit)) fail("iter.count", "%d values assigned, %d received (limit %d)", sent, got, limit);
    if (complete) { O z = begin(c); if (z != end(c) || ! (z == end(c))) fail("iter.end", "begin() of a complete push-coroutine"); S d(std::move(c)); if (begin(c) != end(c) || begin(d) != end(d)) fail("iter.end", "moved complete push-coroutine"); }
    vp::count("elements_assigned", sent);
}
void outrefs(Plan const& p) {
    typedef co2::coroutine< int & > C; std::vector< int > v(std::size_t(p.n), 3); std::vector< int * > got;
    { C::push_type c([&](C::pull_type & s) { for (int & x : s) { got.push_back(& x); ++x; } }); auto it = begin(c); for (int & x : v) { * it = x; ++it; if (it == end(c)) fail("iter.end", "reference output"); } }
    if (int(got.size()) != p.n) fail("iter.count", "reference output"); for (int k = 0; k < p.n; ++k) if (got[k] != & v[k] || v[k] != 4) fail("ref.identity", "reference output %d", k);
}
// pull coroutine copied into a push coroutine through their iterators
void bridge(Plan const& p) {
    typedef co2::coroutine< std::string > C; std::vector< std::string > got;
    C::pull_type src([&](C::push_type & s) { for (int k = 0; k < p.n; ++k) s(K< std::string >::mk(p.base + k)); });
    { C::push_type dst([&](C::pull_type & s) { for (std::string & x : s) got.push_back(x); }); std::copy(begin(src), end(src), begin(dst)); }
    if (int(got.size()) != p.n) fail("iter.count", "bridge"); for (int k = 0; k < p.n; ++k) if ( ! K< std::string >::ok(got[k], p.base + k)) fail("iter.value", "bridge %d", k);
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv); vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::Rng r(mix(a.seed) + i * 524287); Plan p; p.n = int(r.below(14)); p.how = r.below(11); p.at = int(r.below(14)); p.base = r.next() % 100000; p.end = r.chance(25); p.moved = r.chance(25);
        unsigned w = unsigned(i % 20);
        vp::begin_case(i, vp::fmt("iter scenario %u way %u n=%d at=%d end=%d moved=%d", w, p.how, p.n, p.at, p.end, int(p.moved)));
        switch (w) {
        case 0: case 1: Iter< int >::run(p); break; case 2: Iter< std::string >::run(p); break; case 3: case 4: Iter< Val >::run(p); break; case 5: Iter< std::unique_ptr< int > >::run(p); break;
        case 6: refs(p); break; case 7: algos(p); break; case 8: output< int >(p); break; case 9: output< Val >(p); break; case 10: outrefs(p); break; case 12: Iter< Odd >::run(p); break; case 13: Iter< int * >::run(p); break; case 14: output< Odd >(p); break; case 15: oddrefs< Odd >(p); oddrefs< Odd const >(p); break; case 16: Iter< bool >::run(p); break; case 17: output< int * >(p); break;
        case 18: throwing_pull< co2::coroutine< uint64_t > >(p, "pull"); throwing_pull< co2::coroutine< uint64_t & > >(p, "pull reference"); throwing_pull< co2::coroutine< uint64_t const& > >(p, "pull const reference"); break;
        case 19: throwing_push< co2::coroutine< uint64_t > >(p, "push"); throwing_push< co2::coroutine< uint64_t & > >(p, "push reference"); fragile(p); break; default: bridge(p); break;
        }
        vp::end_case(mix(w + p.how * 17 + p.n * 211 + p.at * 3001 + p.end * 50021 + p.moved * 100003), p.n > 0, vp::fmt("scenario %u way %u n=%d at=%d", w, p.how, p.n, p.at));
    }
    return vp::finish();
}
