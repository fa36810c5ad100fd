// Per-indicator specification: accepted options, start, generators, reference model.
#pragma once
#include "num.hpp"
#include <string>
#include <functional>
#include <map>

struct Ctx {
    int n = 0;                                  // number of bars
    const std::vector<std::vector<double>>* in; // inputs[k][i]
    const double* o;                            // options
    int start = 0;
    std::vector<V> out;                         // out[k], one E per emitted bar
    int P(int k) const { return (int)o[k]; }
    E O(int k) const { return E(o[k]); }
    V X(int k) const { V r((*in)[k].begin(), (*in)[k].end()); return r; }
    double x(int k, int i) const { return (*in)[k][i]; }
    void put(int k, const E& v) { out[k].push_back(g_amb ? E::unk() : v); }
};

enum {                       // per-indicator facts used by the metamorphic checks
    F_WINDOW   = 1,          // output at bar i depends on a fixed-length window only
    F_PRICEEQ  = 2,          // scaling all price inputs by c>0 scales all outputs by c
    F_PRICEINV = 4,          // scaling all price inputs by c>0 leaves all outputs unchanged
    F_SHIFTEQ  = 8,          // adding c to all price inputs adds c to all outputs
    F_SHIFTINV = 16,         // adding c to all price inputs leaves all outputs unchanged
    F_VOLINV   = 32,         // scaling volume by c>0 leaves outputs unchanged
    F_VOLEQ    = 64,         // scaling volume by c>0 scales outputs by c
    F_PRICEINVERSE = 128,    // reserved
    F_SLOW     = 256,        // superlinear cost: keep inputs short
};

struct Spec {
    std::string name;
    std::string group;                              // value-property group
    std::string opts;                               // option generator DSL
    std::function<bool(const double*)> valid;       // which option vectors are accepted
    std::function<int(const double*)> start;
    std::function<void(Ctx&)> model;                // may be empty
    unsigned flags;
    int window;                                     // F_WINDOW: extra lookback beyond start (0 = start)
};
std::map<std::string, Spec>& specs();
struct Reg { Reg(const Spec& s) { specs()[s.name] = s; } };

// SPEC(name, group, options DSL, valid expr over o, start expr over o, flags) { model body over c }
#define SPEC(NAME, GROUP, OPTS, VALID, START, FLAGS) \
    static void model_##NAME(Ctx& c); \
    static Reg reg_##NAME(Spec{#NAME, GROUP, OPTS, [](const double* o) -> bool { (void)o; return VALID; }, \
        [](const double* o) -> int { (void)o; return START; }, model_##NAME, FLAGS, 0}); \
    static void model_##NAME(Ctx& c)
#define I(k) ((int)o[k])
