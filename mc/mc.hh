// Bounded-exhaustive explorer used by every check in /verif/checks.
//
// A scenario is a function that drives the real code and asks mc::choose(n) for every nondeterministic
// decision (operation, argument, topology, environment answer, thread to run next).  The explorer runs the
// function once for every possible sequence of answers (depth-first, stateless: each execution rebuilds its
// objects), in 8 worker processes that partition the choice tree.  mc::cut() gives explicit-state pruning.
// A violation, crash, sanitizer report, escaped exception or hang is replayed alone, twice, before it is
// reported.
#ifndef MC_HH
#define MC_HH
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string what; };
struct Skip {};   // this execution belongs to another worker
struct Prune {};  // the combination of choices is outside the specified domain

int  choose(int n, const char* label = 0);            // 0 .. n-1
template <class T, size_t N> const T& pick(const T (&a)[N], const char* label = 0) { return a[choose((int)N, label)]; }
inline bool flip(const char* label = 0) { return choose(2, label) == 1; }
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void prune();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void step(long n = 1);                                // one transition of the real code
void validated(long n = 1);                           // n extra reference-model traces compared with the code
void state(uint64_t h);                               // one (possibly new) state
bool cut(uint64_t h, int remaining);                  // true: state already explored with >= remaining depth
void outcome(const std::string& o);                   // distinct observable outcomes
bool thorough();
int  tierPick(int quick, int thorough);
void known(const std::string& key, const std::string& what); // report; a violation unless listed in known_findings.txt

bool near(double a, double b, double rel = 1e-9, double abs = 1e-12);

struct Hash {
    uint64_t h;
    Hash() : h(0xcbf29ce484222325ull) {}
    Hash& raw(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return *this; }
    Hash& i(long v) { return raw((uint64_t)v); }
    Hash& d(double v) { if (v == 0.0) v = 0.0; if (v != v) return raw(0x7ff8dead); float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return raw(u); }
    Hash& s(const std::string& v) { for (size_t k = 0; k < v.size(); k++) raw((unsigned char)v[k]); return raw(v.size()); }
};

// A scenario explored by choices.  minTier: 0 quick and thorough, 1 thorough only.
void add(const std::string& name, std::function<void()> body, int minTier = 0);
void assume(const std::string& text);
void bounds(const std::string& text);   // description of alphabet and bounds, copied to the evidence

int run(int argc, char** argv, const char* property);
}

#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
#endif
