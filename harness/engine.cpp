#include "engine.hpp"
int main(int argc, char ** argv) {
    vp::parse(argc, argv);
    vp::Args const& a = vp::G().a;
    Profile const& p = profile(a.mode.empty() ? "mixed" : a.mode);
    for (uint64_t i = a.first; i < a.first + a.count; ++i) {
        vp::begin_case(i, vp::fmt("engine profile=%s seed=%llu", p.name, (unsigned long long) a.seed));
        WorldX w(mix(a.seed * 1000003 + i), p);
        w.unwind_resume = ! a.mode.empty() && a.mode[a.mode.size() - 1] == '+';
        w.logging = i < a.first + 2 || a.verbose;
        run_main(w, p.steps);
        drain(w);
        tally(w);
        vp::trace(w.h);
        std::string s;
        if (w.logging) s = vp::fmt("program %llu: ", (unsigned long long) i) + w.log.substr(0, 700);
        if (a.verbose) printf("%s\n", w.log.c_str());
        vp::end_case(w.h, w.n_switch >= 10 && w.n_created >= 2, s);
    }
    return vp::finish();
}
