// Common support for every harness: PRNG, failure reporting, observation counters.
// C++11, public boost::coroutine2 API only.
#ifndef VP_HPP
#define VP_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <boost/coroutine2/all.hpp>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VP_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define VP_SAN 1
#endif
#endif
#ifndef VP_SAN
#define VP_SAN 0
#endif

namespace vp {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
};

struct Args {
    uint64_t seed; uint64_t first; uint64_t count; std::string mode; std::string out; int verbose; int trace; std::string prop;
};
struct Global {
    Args a;
    int progress_fd;
    uint64_t cur;                       // index of the running case
    std::string cur_desc;
    std::mutex mx;
    std::map<std::string, uint64_t> counters;
    std::set<uint64_t> distinct;        // hashes of distinct non-trivial cases
    std::vector<std::string> samples;
    std::vector< std::pair< uint64_t, uint64_t > > trace;   // per case: hash of the complete event trace
    std::set< std::string > found;
    uint64_t evaluations;
    Global() : progress_fd(-1), cur(0), evaluations(0) { a.seed = 1; a.first = 0; a.count = 1; a.verbose = 0; a.trace = 0; }
};
inline Global & G() { static Global * g = new Global; return * g; }

inline void emit_escaped(FILE * f, std::string const& s) {
    fputc('"', f);
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

// A violation was observed: state may be arbitrary from here on, leave at once.
#if defined(__GNUC__)
__attribute__((noreturn, format(printf, 2, 3), noinline))
#endif
inline void fail(char const* code, char const* fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char * p = buf; * p; ++p) if (* p == '\n') * p = ' ';
    char line[2600];
    int n = snprintf(line, sizeof line, "\nFAIL code=%s case=%llu desc=[%s] detail=%s\n", code,
                     (unsigned long long) G().cur, G().cur_desc.c_str(), buf);
    if (n > (int) sizeof line - 1) n = sizeof line - 1;
    fflush(stdout);
    ssize_t r = write(1, line, n); (void) r;
    _exit(101);
}
#define VP_CHECK(cond, code, ...) do { if ( ! (cond) ) ::vp::fail(code, __VA_ARGS__); } while (0)

inline void parse(int argc, char ** argv) {
    Global & g = G();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") g.a.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--first") g.a.first = strtoull(v.c_str(), 0, 10);
        else if (k == "--count") g.a.count = strtoull(v.c_str(), 0, 10);
        else if (k == "--mode") g.a.mode = v;
        else if (k == "--prop") g.a.prop = v;
        else if (k == "--out") g.a.out = v;
        else if (k == "--verbose") g.a.verbose = atoi(v.c_str());
        else if (k == "--trace") g.a.trace = atoi(v.c_str());
        else if (k == "--progress") g.progress_fd = open(v.c_str(), O_RDWR | O_CREAT, 0644);
        else { fprintf(stderr, "bad argument %s\n", k.c_str()); exit(3); }
    }
}

// Start of case i (recorded so that a crash can be attributed).
inline void begin_case(uint64_t i, std::string const& desc) {
    Global & g = G();
    g.cur = i; g.cur_desc = desc;
    if (g.progress_fd >= 0) {
        char buf[160];
        int n = snprintf(buf, sizeof buf, "%llu %-120.120s\n", (unsigned long long) i, desc.c_str());
        ssize_t r = pwrite(g.progress_fd, buf, n, 0); (void) r;
    }
}
inline void count(char const* name, uint64_t n = 1) {
    Global & g = G(); std::lock_guard<std::mutex> l(g.mx); g.counters[name] += n;
}
inline void end_case(uint64_t hash, bool nontrivial, std::string const& sample = std::string()) {
    Global & g = G(); std::lock_guard<std::mutex> l(g.mx);
    ++g.evaluations;
    if (nontrivial) g.distinct.insert(hash);
    if ( ! sample.empty() && g.samples.size() < 4) g.samples.push_back(sample);
}
// the complete observable behaviour of the current case, to be compared between configurations
inline void trace(uint64_t hash) { Global & g = G(); if (g.a.trace) g.trace.push_back(std::make_pair(g.cur, hash)); }
// a deviation that the driver matches against the list of known findings; execution goes on
inline void finding(char const* key, std::string const& detail) {
    Global & g = G(); std::lock_guard<std::mutex> l(g.mx);
    if ( ! g.found.insert(key).second) return;
    printf("\nFINDING key=%s case=%llu %s\n", key, (unsigned long long) g.cur, detail.c_str()); fflush(stdout);
}
inline int finish() {
    Global & g = G();
    FILE * f = stdout;
    if ( ! g.a.out.empty()) { f = fopen(g.a.out.c_str(), "w"); if ( ! f) return 3; }
    fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"counters\":{", (unsigned long long) g.evaluations,
            (unsigned long long) g.distinct.size());
    bool c = false;
    for (std::map<std::string, uint64_t>::iterator i = g.counters.begin(); i != g.counters.end(); ++i) {
        if (c) fputc(',', f);
        c = true;
        emit_escaped(f, i->first); fprintf(f, ":%llu", (unsigned long long) i->second);
    }
    fprintf(f, "},\"samples\":[");
    for (std::size_t i = 0; i < g.samples.size(); ++i) { if (i) fputc(',', f); emit_escaped(f, g.samples[i]); }
    fprintf(f, "],\"hashes\":[");
    c = false;
    for (std::set<uint64_t>::iterator i = g.distinct.begin(); i != g.distinct.end(); ++i) {
        if (c) fputc(',', f);
        c = true;
        fprintf(f, "\"%llx\"", (unsigned long long) * i);
    }
    fprintf(f, "],\"trace\":[");
    for (std::size_t i = 0; i < g.trace.size(); ++i) fprintf(f, "%s[%llu,\"%llx\"]", i ? "," : "", (unsigned long long) g.trace[i].first, (unsigned long long) g.trace[i].second);
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    fprintf(stdout, "DONE evaluations=%llu\n", (unsigned long long) g.evaluations);
    fflush(stdout);
    return 0;
}

inline std::string fmt(char const* f, ...) {
    char buf[1024];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}

// keep a value opaque to the optimiser
template< typename T > inline void opaque(T & t) { __asm__ __volatile__("" : : "g"(& t) : "memory"); }

} // vp

// a failed BOOST_ASSERT inside the library on a legal program is a violation
#if defined(BOOST_ENABLE_ASSERT_HANDLER) && ! defined(VP_NO_MAIN)
namespace boost {
void assertion_failed(char const* expr, char const* fn, char const* file, long line) {
    ::vp::fail("assert", "library assertion failed: %s in %s (%s:%ld)", expr, fn, file, line);
}
void assertion_failed_msg(char const* expr, char const* msg, char const* fn, char const* file, long line) {
    ::vp::fail("assert", "library assertion failed: %s %s in %s (%s:%ld)", expr, msg, fn, file, line);
}
}
#endif
#endif
