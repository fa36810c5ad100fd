// Property-based testing engine: cases as explicit data, seeded generation, crash-isolated
// workers, delta-debugging shrinker, replay files.
#pragma once
#include "spec.hpp"
#include "indicators.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
#include <map>

typedef std::vector<double> Vd;
typedef std::vector<Vd> Vvd;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    int u(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }            // [0, n)
    int in(int a, int b) { return a + u(b - a + 1); }                             // [a, b]
    double f() { return (double)(next() >> 11) * 0x1p-53; }
    double f(double a, double b) { return a + (b - a) * f(); }
    double g() { double t = 0; for (int i = 0; i < 6; ++i) t += f(); return (t - 3) * 1.4142; }
    bool p(double q) { return f() < q; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL ^ b); return r.next(); }
inline uint64_t hashs(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL; return h; }

struct Case {
    std::string prop, ind;
    Vd o; int n = 0; Vvd in; std::vector<long> aux;
    std::string ser() const; bool parse(const std::string& text);
    std::string brief() const; uint64_t hash() const;
};
struct Out {
    enum { OK = 0, BAD = 1, SKIP = 2 };
    int st = OK; bool nt = false; std::string msg;
    static Out ok(bool nontrivial) { Out r; r.nt = nontrivial; return r; }
    static Out bad(const std::string& m) { Out r; r.st = BAD; r.nt = true; r.msg = m; return r; }
    static Out skip() { Out r; r.st = SKIP; return r; }
};
typedef const ti_indicator_info Info;
struct Prop {
    std::string id, lib;                              // lib: "rel" or "san"
    std::string rule;
    std::function<bool(const Spec&, Info*)> want;
    std::function<Case(Rng&, const Spec&, Info*)> gen;
    std::function<Out(const Case&, const Spec&, Info*)> check;
    int quick, thorough;                              // cases per indicator
};
std::vector<Prop>& props();
struct PropReg { PropReg(const Prop& p) { props().push_back(p); } };

// -------- library access
struct Lib {
    void* h = nullptr;
    ti_indicator_info* inds = nullptr;
    const ti_indicator_info* (*find)(const char*) = nullptr;
    int (*count)() = nullptr;
    int (*srun)(ti_stream*, int, TI_REAL const* const*, TI_REAL* const*) = nullptr;
    ti_indicator_info* (*sinfo)(ti_stream*) = nullptr;
    int (*sprog)(ti_stream*) = nullptr;
    void (*sfree)(ti_stream*) = nullptr;
    bool open(const char* path);
    void* sym(const std::string& s);
};
extern Lib lib;
extern bool g_san;                                    // running against the sanitizer build
extern bool g_verbose;

// -------- guarded runs
struct Run {
    int code = -1, start = 0, m = 0;                  // m: outputs due
    Vvd out; std::string bad;                         // bad: extent violation (guard or unwritten)
    int progress0 = 0, progress1 = 0;
};
enum { PLAIN, REF };
extern bool g_readonly;                                 // inputs, options and pointer arrays in read-only pages
Run run_fn(Info* info, int which, int n, const Vvd& in, const Vd& o, unsigned fill = 0, int align = 0);
// chunks: sizes consumed in order (repeating); a 0 entry is a call with size 0.
Run run_stream(Info* info, int n, const Vvd& in, const Vd& o, const std::vector<int>& chunks, bool generic);
void scribble(unsigned char b);
double canary(unsigned long k);
bool is_canary(double d);
struct Arr {                                          // exact-size buffer with guards (or sanitizer redzones)
    double* raw = nullptr; double* p = nullptr; int n = 0; int align = 0; unsigned fill = 0; bool fin = false; double base = 0;
    Arr(int n_, unsigned fill = 0, int align = 0); ~Arr(); Arr(Arr&& a); Arr(const Arr&) = delete;
    bool guards() const; bool written(int i) const; int first_unwritten() const; int first_written() const; void around(double base);
};

// -------- generators
int gen_period(Rng& r, int lo, int cap);
Vd gen_opts(Rng& r, const Spec& s, bool wild);
void gen_data(Rng& r, Info* info, int n, Vvd& in, int regime = -1, bool allow_signed = true);
int gen_size(Rng& r, int start, int cap);
bool ohlc_ok(Info* info, const Vvd& in, int n);
int input_index(Info* info, const char* name);
std::vector<int> gen_chunks(Rng& r, int n);

// -------- oracle helpers
bool model_run(const Spec& s, int n, const Vvd& in, const Vd& o, std::vector<V>& out);
inline double tol_of(const E& w) { return 4 * w.e + 1e-11 * (double)fabsl(w.v) + 1e-300; }
inline bool usable(const E& w) { return w.known() && std::fabs((double)w.v) < 1e300 && w.e < 1e290; }
extern long g_decided, g_total;                      // output values the oracle decided / saw, this process
std::string fmt(const char* f, ...);
bool same_bits(const Vvd& a, const Vvd& b, std::string* why);

int driver_main(int argc, char** argv);
