// C05: exceptions cross to the resumer exactly once. Also C22's body-throws-in-ctor cases.
#include "anyco.hpp"
#include <exception>
#include <stdexcept>
#include <system_error>

namespace {
struct Counted { static std::atomic< long > & live() { static std::atomic< long > l(0); return l; }
    Counted() { ++live(); } Counted(Counted const&) { ++live(); } ~Counted() { --live(); } };
struct XBase { virtual ~XBase() {} virtual int tag() const { return 1; } uint64_t id; Counted c; explicit XBase(uint64_t i) : id(i) {} };
struct XDerived : XBase { int tag() const { return 2; } uint64_t extra; explicit XDerived(uint64_t i) : XBase(i), extra(mix(i)) {} };
struct XStd : std::runtime_error { uint64_t id; Counted c; explicit XStd(uint64_t i) : std::runtime_error("xstd " + std::to_string(i)), id(i) {} };
struct XPlain { uint64_t a[8]; Counted c; explicit XPlain(uint64_t i) { for (int k = 0; k < 8; ++k) a[k] = mix(i + k); } };
struct XPriv : private std::exception { uint64_t id; Counted c; explicit XPriv(uint64_t i) : id(i) {} };
struct XVirt : virtual XBase { explicit XVirt(uint64_t i) : XBase(i) {} };
struct XVirt2 : virtual XBase { explicit XVirt2(uint64_t i) : XBase(i) {} };
struct XDiamond : XVirt, XVirt2 { int tag() const { return 3; } explicit XDiamond(uint64_t i) : XBase(i), XVirt(i), XVirt2(i) {} };
enum XEnum { XE0 = 7 };

[[noreturn]] void raise(int k, uint64_t id) {
    switch (k) {
    case 0: throw XBase(id);
    case 1: throw XDerived(id);
    case 2: throw XStd(id);
    case 3: throw XPlain(id);
    case 4: throw XPriv(id);
    case 5: throw XDiamond(id);
    case 6: throw int(id & 0xffff);
    case 7: throw XEnum(XE0);
    case 8: { static char const* s = "literal"; throw s; }
    case 9: throw std::string("a string long enough to live on the heap ") + std::to_string(id);
    case 10: throw std::system_error(std::make_error_code(std::errc::no_message), "se");
    case 11: throw std::bad_alloc();
    case 12: try { throw XStd(id); } catch (...) { std::throw_with_nested(XDerived(id)); }
    case 13: { std::exception_ptr p; try { throw XDerived(id); } catch (...) { p = std::current_exception(); } std::rethrow_exception(p); }
    default: throw long(id);
    }
}
// identify the in-flight exception; returns its kind, or -1
int classify(uint64_t id) {
    try { throw; }
    catch (XDerived & e) {
        if (e.id != id || e.extra != mix(id) || e.tag() != 2) return -2;
        std::nested_exception * n = dynamic_cast< std::nested_exception * >(& e);
        if (n) { try { n->rethrow_nested(); } catch (XStd & s) { return s.id == id ? 12 : -2; } catch (...) { return -2; } }
        return 1;
    }
    catch (XDiamond & e) { return e.id == id && e.tag() == 3 ? 5 : -2; }
    catch (XBase & e) { return e.id == id && e.tag() == 1 ? 0 : -2; }
    catch (XStd & e) { return e.id == id && e.what() == "xstd " + std::to_string(id) ? 2 : -2; }
    catch (XPlain & e) { for (int k = 0; k < 8; ++k) if (e.a[k] != mix(id + k)) return -2; return 3; }
    catch (XPriv & e) { return e.id == id ? 4 : -2; }
    catch (int e) { return e == int(id & 0xffff) ? 6 : -2; }
    catch (XEnum e) { return e == XE0 ? 7 : -2; }
    catch (char const* s) { return strcmp(s, "literal") == 0 ? 8 : -2; }
    catch (std::string & s) { return s == "a string long enough to live on the heap " + std::to_string(id) ? 9 : -2; }
    catch (std::system_error & e) { return e.code() == std::errc::no_message ? 10 : -2; }
    catch (std::bad_alloc &) { return 11; }
    catch (boost::context::detail::forced_unwind const&) { return -3; }
    catch (...) { return -1; }
}
bool same_kind(int got, int k) { return got == k || (k == 13 && got == 1) || (k == 12 && got == 12); }

// the resume is made by a destructor while another exception unwinds the resumer's stack
struct InDtor { AnyCo & c; unsigned how; std::exception_ptr & ep; ~InDtor() { try { c.resume(7, how); } catch (...) { ep = std::current_exception(); } } };
void resume_unwinding(AnyCo & c, unsigned how) {
    std::exception_ptr ep;
    try { InDtor d = { c, how, ep }; (void) d; throw 1L; } catch (long) {}
    vp::count("resumed_while_unwinding");
    if (ep) std::rethrow_exception(ep);
}
struct Local { long & n; explicit Local(long & x) : n(x) { ++n; } ~Local() { --n; } };

void deep(AnyPort & p, int d, int yields, int k, uint64_t id, long & locals, int catches) {
    Local l(locals);
    if (d > 0) {
        if (catches && d == 2) {
            // an exception caught inside must not be reported
            try { Local m(locals); raise(k, id ^ 1); } catch (...) { int g = classify(id ^ 1); if ( ! same_kind(g, k)) fail("exc.local", "local catch saw kind %d instead of %d", g, k); }
            vp::count("caught_inside");
        }
        deep(p, d - 1, yields, k, id, locals, catches);
        return;
    }
    for (int i = 0; i < yields; ++i) { Local m(locals); p.xfer(100 + i); }
    raise(k, id);
}

void one(vp::Rng & r, uint64_t ci) {
    int v = int(ci % NVariants), k = int((ci / NVariants) % 14), yields = r.below(6), depth = r.below(6), chain = r.below(5), catches = r.below(2);
    int form = r.below(6);
    uint64_t id = mix(r.next());
    long locals = 0, live0 = Counted::live();
    AllocState st(VP_SAN ? 256 * 1024 : 64 * 1024, r.next());
    AllocState * sp = r.chance(60) ? & st : 0;
    std::vector< int > vs;
    for (int c = 0; c < chain; ++c) vs.push_back(r.below(NVariants));
    bool lv = r.chance(50);
    int delivered = 0, wrong = 99, pass = 0;
    bool moved_before = r.chance(30);
    // innermost coroutine throws; every link of the chain lets the exception pass
    std::function< void(int, int) > drive;      // drive(level, ...) runs coroutine `level` of the chain to its end
    std::function< void(AnyPort &, int) > body = [&](AnyPort & p, int level) {
        Local l(locals);
        if (level == 0) { deep(p, depth, yields, k, id, locals, catches); return; }
        // the inner coroutine is resumed alternately from here and (after our own suspension) again from here
        Local l2(locals);
        drive(level - 1, 0);
        (void) p;
    };
    drive = [&](int level, int) {
        int var = level == 0 ? v : vs[level - 1];
        Body b = [&body, level](AnyPort & p) { body(p, level); };
        std::unique_ptr< AnyCo > c;
        bool in_ctor = true; int resumes = 0;
        try {
            c = make_co(var, b, sp, lv);
            in_ctor = false;
            if (moved_before && c->valid()) { c = c->moved(); }
            while (c->valid()) {
                if (++resumes > 64) fail("hang.exc", "coroutine does not end");
                // resume from another context half of the time
                if (form >= 4) { if (r.chance(60)) resume_unwinding(* c, unsigned(resumes)); else c->resume(7, unsigned(resumes)); }
                else if (form & 1) {
                    AnyCo * cp = c.get(); std::exception_ptr ep; bool threw = false;
                    std::unique_ptr< AnyCo > h = make_co(form & 2 ? PushN : PullN, [&](AnyPort &) {
                        try { cp->resume(7, unsigned(resumes)); }
                        catch (boost::context::detail::forced_unwind const&) { throw; }
                        catch (...) { threw = true; ep = std::current_exception(); }
                    });
                    if (form & 2) h->resume();
                    vp::count("resumed_from_helper_coroutine");
                    if (threw) std::rethrow_exception(ep);
                } else c->resume(7, unsigned(resumes));
                if ( ! c->valid() && level == 0) fail("exc.lost", "%s ended without delivering exception kind %d", vname(var), k);
            }
            fail("exc.lost", "%s chain level %d ended without exception kind %d (ctor=%d)", vname(var), level, k, int(in_ctor));
        } catch (boost::context::detail::forced_unwind const&) {
            throw;
        } catch (...) {
            ++delivered;
            int g = classify(id);
            if ( ! same_kind(g, k)) { wrong = g; fail(g == -3 ? "exc.unwind_leak" : "exc.wrong", "%s level %d: threw kind %d, received kind %d", vname(var), level, k, g); }
            if (in_ctor != (is_pull(var) && (level == 0 ? yields == 0 : true))) fail("exc.where", "%s level %d: exception out of the %s", vname(var), level, in_ctor ? "constructor" : "call");
            if (level == 0 && ! in_ctor) {
                int expect = is_pull(var) ? yields : yields + 1;
                if (resumes != expect) fail("exc.where", "%s: delivered at resume %d, expected %d", vname(var), resumes, expect);
            }
            if (c) {
                if (c->valid() || ! c->notvalid() || ! c->at_end()) fail("exc.state", "%s valid after its function threw", vname(var));
                std::unique_ptr< AnyCo > m = c->moved();
                if (m->valid() || c->valid()) fail("exc.state", "moved handle of a coroutine that threw is valid");
                if (r.chance(50)) c = std::move(m);
            }
            ++pass;
            if (level > 0 || ! vs.empty()) { throw; }
            throw;
        }
    };
    try { drive(chain, 0); fail("exc.lost", "nothing arrived at main"); }
    catch (boost::context::detail::forced_unwind const&) { fail("exc.unwind_leak", "forced unwinding arrived at main"); }
    catch (...) { int g = classify(id); if ( ! same_kind(g, k)) fail("exc.wrong", "main received kind %d instead of %d", g, k); }
    if (delivered != chain + 1) fail("exc.once", "exception seen %d times in a chain of %d", delivered, chain + 1);
    if (locals) fail("unwind.leaked", "%ld locals alive after the exception", locals);
    if (Counted::live() != live0) fail("exc.leak", "%ld exception objects leaked", Counted::live() - live0);
    if (std::uncaught_exception()) fail("exc.uncaught", "uncaught_exception() true in main");
    if (std::current_exception()) fail("exc.uncaught", "current_exception() non-null in main");
    if (st.outstanding) fail("alloc.leaked", "stack leaked by exception");
    if (Tok::live()) fail("life.leak", "%ld values alive", long(Tok::live()));
    vp::count("exceptions_delivered", delivered);
    vp::count("chain_levels", chain + 1);
    uint64_t h = mix(v * 1000003ull + k * 7919 + yields * 101 + depth * 11 + chain * 3 + catches * 31337 + form * 77777);
    for (std::size_t i = 0; i < vs.size(); ++i) h = mix(h ^ vs[i]);
    vp::end_case(h, true, vp::fmt("%s kind=%d suspensions=%d depth=%d chain=%d form=%d", vname(v), k, yields, depth, chain, form));
}
// two coroutines: exception of one while the other is suspended with its own in-flight history; exception
// thrown, caught by the resumer, other coroutine keeps working; two exceptions alternate
void two(vp::Rng & r) {
    int n = 2 + r.below(4);
    struct S { int v; int k; uint64_t id; int yields; std::unique_ptr< AnyCo > c; bool done; int res; };
    std::vector< S > s(n);
    long locals = 0;
    long live0 = Counted::live();
    for (int i = 0; i < n; ++i) {
        S & x = s[i]; x.v = r.below(NVariants); x.k = r.below(14); x.id = mix(r.next()); x.yields = 1 + r.below(5); x.done = false; x.res = 0;
        int k = x.k, y = x.yields; uint64_t id = x.id;
        x.c = make_co(x.v, [k, y, id, &locals](AnyPort & p) { deep(p, 2, y, k, id, locals, 1); });
    }
    int left = n;
    while (left) {
        S & x = s[r.below(n)];
        if (x.done) { if (x.c && x.c->valid()) fail("exc.state", "complete coroutine became valid"); continue; }
        ++x.res;
        try {
            if (r.chance(30)) { try { raise(6, 5); } catch (int) { x.c->resume(3, unsigned(x.res)); } }
            else if (r.chance(30)) resume_unwinding(* x.c, unsigned(x.res));
            else x.c->resume(3, unsigned(x.res));
            int e = is_pull(x.v) ? x.yields : x.yields + 1;
            if (x.res >= e) fail("exc.lost", "%s: no exception at resume %d", vname(x.v), x.res);
        } catch (boost::context::detail::forced_unwind const&) { fail("exc.unwind_leak", "forced unwinding out of a resume"); }
        catch (...) {
            int g = classify(x.id);
            if ( ! same_kind(g, x.k)) fail("exc.wrong", "%s: threw kind %d, received kind %d", vname(x.v), x.k, g);
            int e = is_pull(x.v) ? x.yields : x.yields + 1;
            if (x.res != e) fail("exc.where", "delivered at resume %d, expected %d", x.res, e);
            x.done = true; --left;
            if (r.chance(50)) x.c.reset();
        }
    }
    s.clear();
    if (locals) fail("unwind.leaked", "%ld locals alive", locals);
    if (Counted::live() != live0) fail("exc.leak", "%ld exception objects leaked", Counted::live() - live0);
    vp::count("interleaved_throwers", n);
    vp::end_case(r.next(), true);
}
// coroutine returns normally after catching; and forced unwinding is invisible to catch(std::exception) handlers and to the outside
void quiet(vp::Rng & r) {
    int v = r.below(NVariants), k = r.below(14), y = 1 + r.below(5), stop = r.below(y + 2);
    uint64_t id = mix(r.next());
    bool normal_handler = false, other_handler = false, after = false; int steps = 0;
    long locals = 0;
    {
        std::unique_ptr< AnyCo > c = make_co(v, [&](AnyPort & p) {
            Local l(locals);
            for (int i = 0; i < y; ++i) {
                try { raise(k, id); } catch (...) { int g = classify(id); if ( ! same_kind(g, k)) fail("exc.local", "kind %d", g); }
                try { p.xfer(i); ++steps; }
                catch (std::exception const&) { normal_handler = true; throw; }
                catch (boost::context::detail::forced_unwind const&) { other_handler = true; throw; }
            }
            after = true;
        });
        for (int i = 0; i < stop && c->valid(); ++i) c->resume(1, unsigned(i));
        bool comp = ! c->valid();
        if (comp != after) fail("control.state", "completion mismatch");
        try { c.reset(); } catch (...) { fail("exc.unwind_leak", "destruction threw"); }
        if ( ! comp && ! (v >= 3 && stop == 0) && ! other_handler) fail("unwind.missing", "no unwinding through the handlers");
        if (comp && other_handler) fail("exc.unwind_leak", "forced unwinding in a completed coroutine");
    }
    if (normal_handler) fail("exc.unwind_visible", "forced unwinding caught as std::exception");
    if (locals) fail("unwind.leaked", "%ld locals alive", locals);
    vp::end_case(mix(v * 31 + k * 7 + y * 1009 + stop * 65537), true);
}
// one exception object, held by an exception_ptr, leaves several coroutines - also while their resumer is handling or is being unwound by that very object
void shared(vp::Rng & r) {
    int k = int(r.below(14)), n = 1 + int(r.below(4)); uint64_t id = mix(r.next()), other = mix(r.next()); long locals = 0, live0 = Counted::live();
    {
        std::exception_ptr ep; try { raise(k, id); } catch (...) { ep = std::current_exception(); }
        for (int i = 0; i < n; ++i) {
            int v = int(r.below(NVariants)), y = 1 + int(r.below(4)), how = int(r.below(4)), res = 0, got = 0; unsigned form = unsigned(r.below(6)); bool nested = r.chance(25);
            std::unique_ptr< AnyCo > c = make_co(v, [&, y, how, nested](AnyPort & p) {
                Local l(locals);
                for (int j = 0; j < y; ++j) { Local m(locals); p.xfer(uint64_t(j)); }
                switch (how) {
                case 0: std::rethrow_exception(ep);
                case 1: try { std::rethrow_exception(ep); } catch (...) { throw; }
                case 2: try { raise(6, 3); } catch (int) { std::rethrow_exception(ep); }
                        /* fall through */
                default: if (nested) { std::unique_ptr< AnyCo > in = make_co(PushN, [&](AnyPort &) { std::rethrow_exception(ep); }); in->resume(); } std::rethrow_exception(ep);
                }
            });
            int expect = is_pull(v) ? y : y + 1;
            auto step = [&] { // one resume, judged
                ++res; bool threw = false;
                try { c->resume(5, unsigned(res)); } catch (boost::context::detail::forced_unwind const&) { fail("exc.unwind_leak", "shared exception"); } catch (...) { threw = true; ++got; int g = classify(id); if ( ! same_kind(g, k)) fail("exc.wrong", "%s: shared exception of kind %d received as %d", vname(v), k, g); }
                if (threw != (res == expect)) fail(threw ? "exc.where" : "exc.lost", "%s: shared exception kind %d, resume %d of %d, resumed in form %u: %s", vname(v), k, res, expect, form, threw ? "thrown" : "nothing thrown");
            };
            while (c->valid() && res < 20) {
                switch (r.chance(70) ? form : 0u) {
                case 1: try { std::rethrow_exception(ep); } catch (...) { step(); int g = classify(id); if ( ! same_kind(g, k)) fail("exc.local", "the exception being handled changed to kind %d", g); } break;
                case 2: try { raise(k, other); } catch (...) { step(); int g = classify(other); if ( ! same_kind(g, k)) fail("exc.local", "the exception being handled changed to kind %d", g); } break;
                case 3: { struct D { std::function< void() > f; ~D() { f(); } }; try { D d = { step }; (void) d; std::rethrow_exception(ep); } catch (...) {} } break;
                case 4: try { std::rethrow_exception(ep); } catch (...) { try { std::rethrow_exception(ep); } catch (...) { step(); } } break;
                default: step();
                }
            }
            if (got != 1 || c->valid() || ! c->at_end()) fail("exc.state", "%s: shared exception received %d times, valid %d", vname(v), got, int(c->valid()));
        }
        if (locals) fail("unwind.leaked", "%ld locals alive", locals);
        try { std::rethrow_exception(ep); } catch (...) { int g = classify(id); if ( ! same_kind(g, k)) fail("exc.wrong", "a shared exception was changed: kind %d", g); }
    }
    if (std::current_exception()) fail("exc.uncaught", "current_exception() non-null in main");
    if (Counted::live() != live0) fail("exc.leak", "%ld exception objects leaked", Counted::live() - live0);
    vp::count("shared_exceptions", n); vp::end_case(mix(id), true, vp::fmt("shared exception kind %d, %d coroutines", k, n));
}
}
int main(int argc, char ** argv) {
    vp::parse(argc, argv);
    vp::Args const& a = vp::G().a;
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::begin_case(i, vp::fmt("exc seed=%llu", (unsigned long long) a.seed));
        vp::Rng r(mix(a.seed) + i * 977);
        switch (i % 4) { case 0: case 1: one(r, i / 4 * 2 + i % 2); break; case 2: if (i / 4 % 2) two(r); else shared(r); break; default: quiet(r); break; }
    }
    return vp::finish();
}
