// C18 scaling/shift, C19 bounds and ordering, C20 locality.
#include "engine.hpp"
static bool is_volume(Info* i, int k) { return !strcmp(i->input_names[k], "volume"); }

// ---------------------------------------------------------------- C18
// aux: kind (0 price scale, 1 volume scale, 2 shift), exponent or shift in ticks
static const double TICK = 0.0625;
static bool want_scale(const Spec& s, Info*) { return s.flags & (F_PRICEEQ | F_PRICEINV | F_SHIFTEQ | F_SHIFTINV | F_VOLINV | F_VOLEQ); }
static Case gen_scale(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data())); c.n = gen_size(r, st, s.flags & F_SLOW ? st + 60 : 1000);
    gen_data(r, info, c.n, c.in, r.u(10), false); std::vector<int> kinds;
    if (s.flags & (F_PRICEEQ | F_PRICEINV)) kinds.push_back(0); if (s.flags & (F_VOLEQ | F_VOLINV)) kinds.push_back(1); if (s.flags & (F_SHIFTEQ | F_SHIFTINV)) kinds.push_back(2);
    int k = kinds[r.u((int)kinds.size())]; long a = k == 2 ? r.in(-400, 4000) : r.p(.5) ? r.in(-12, 12) : r.p(.8) ? r.in(-40, 40) : r.in(-120, 120);
    if (k == 2) for (int q = 0; q < info->inputs; ++q) if (!is_volume(info, q)) for (auto& x : c.in[q]) { x = std::round(std::min(x, 1e6) / TICK) * TICK; }
    c.aux = {k, a ? a : 1}; return c;
}
// Their weights can all be zero, and then the value is 0 by convention whatever the prices.
static bool no_weight(const Spec& s) { return s.name == "edcf" || s.name == "vwma" || s.name == "evwma" || s.name == "vwap"; }
static Out check_scale(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || c.aux.size() < 2) return Out::skip();
    int kind = (int)c.aux[0]; double f = kind == 2 ? 0 : std::ldexp(1.0, (int)c.aux[1]), sh = c.aux[1] * TICK; if (kind < 2 && labs(c.aux[1]) > 200) return Out::skip();
    unsigned eq = kind == 0 ? F_PRICEEQ : kind == 1 ? F_VOLEQ : F_SHIFTEQ, inv = kind == 0 ? F_PRICEINV : kind == 1 ? F_VOLINV : F_SHIFTINV;
    if (!(s.flags & (eq | inv))) return Out::skip();
    if (kind == 2 && s.name == "evwma") for (double v : c.in[1]) if (v == 0) return Out::skip();
    Vvd in2 = c.in;
    for (int k = 0; k < info->inputs; ++k) { if (is_volume(info, k) != (kind == 1)) continue;
        for (size_t i = 0; i < in2[k].size(); ++i) { double x = c.in[k][i]; if (kind == 2) { if (x / TICK != std::floor(x / TICK) || std::fabs(x) > 1e7) return Out::skip(); in2[k][i] = x + sh; } else in2[k][i] = x * f; } }
    Run a = run_fn(info, PLAIN, c.n, c.in, c.o), b = run_fn(info, PLAIN, c.n, in2, c.o);
    if (a.code != TI_OKAY || b.code != TI_OKAY) return Out::bad(fmt("returned %d and %d", a.code, b.code));
    if (!a.bad.empty()) return Out::bad(a.bad); if (!b.bad.empty()) return Out::bad(b.bad);
    std::vector<V> w1, w2; model_run(s, c.n, c.in, c.o, w1); model_run(s, c.n, in2, c.o, w2); int cmp = 0; bool varied = false;
    for (int k = 0; k < info->outputs; ++k) for (int i = 0; i < a.m; ++i) {
        ++g_total; const E &e1 = w1[k][i], &e2 = w2[k][i]; if (!usable(e1) || !usable(e2)) continue;
        double x = a.out[k][i], y = b.out[k][i]; if (i && x != a.out[k][0]) varied = true;
        double want, t;
        if (s.flags & eq) { want = kind == 2 ? x + sh : x * f; t = (kind == 2 ? tol_of(e1) + 1e-11 * std::fabs(sh) : tol_of(e1) * f) + tol_of(e2); }
        else { want = x; t = tol_of(e1) + tol_of(e2); }
        if (kind == 2 && x == 0 && y == 0 && no_weight(s)) continue;
        ++cmp; ++g_decided;
        if (!(std::fabs(y - want) <= 2 * t)) return Out::bad(fmt("output '%s' element %d: %.17g, after %s the inputs by %g it is %.17g, want %.17g (tolerance %.3g)", info->output_names[k], i, x, kind == 2 ? "shifting" : kind == 1 ? "scaling the volume of" : "scaling", kind == 2 ? sh : f, y, want, 2 * t));
    }
    return Out::ok(cmp >= 3 && varied);
}
static PropReg c18(Prop{"C18", "rel", "prices or volumes multiplied by a power of two, or tick-quantised prices shifted by whole ticks: outputs must scale, shift or stay as the indicator's unit demands; non-trivial: at least 3 outputs decided, not all equal", want_scale, gen_scale, check_scale, 15000, 300000});

// ---------------------------------------------------------------- C20
// aux: bar, seed of another history
static int extra(const Spec& s) { return s.name == "tr" || s.name == "cmi" ? 1 : 0; }     // reads the previous close once there is one
static Case gen_loc(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data())); int W = st + 1 + extra(s);
    c.n = r.p(.06) ? W + r.in(2000, 4000) : W + r.in(1, 300); if (s.flags & F_SLOW) c.n = std::min(c.n, W + 60);
    gen_data(r, info, c.n, c.in, r.p(.3) ? 6 : -1); c.aux = {r.p(.5) ? c.n - 1 : r.in(W, c.n - 1), (long)(r.next() >> 2)}; return c;
}
static Out check_loc(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || c.aux.size() < 2) return Out::skip();
    int st = std::max(0, s.start(c.o.data())), W = st + 1 + extra(s); if (c.n <= W) return Out::skip();
    int t = W + (int)(labs(c.aux[0]) % (c.n - W)); if (c.aux[0] >= W && c.aux[0] < c.n) t = (int)c.aux[0];
    Vvd full, tail, other; for (auto& v : c.in) { full.push_back(Vd(v.begin(), v.begin() + t + 1)); tail.push_back(Vd(v.begin() + t + 1 - W, v.begin() + t + 1)); }
    Rng r((uint64_t)c.aux[1]); gen_data(r, info, r.u(60), other); for (size_t k = 0; k < other.size(); ++k) other[k].insert(other[k].end(), tail[k].begin(), tail[k].end());
    const Vvd* d[3] = {&full, &tail, &other}; Run a[3]; std::vector<V> w[3]; double tol[3]; int cmp = 0;
    for (int q = 0; q < 3; ++q) { a[q] = run_fn(info, PLAIN, (int)(*d[q])[0].size(), *d[q], c.o); if (a[q].code != TI_OKAY) return Out::bad(fmt("returned %d", a[q].code)); if (!a[q].bad.empty()) return Out::bad(a[q].bad); model_run(s, (int)(*d[q])[0].size(), *d[q], c.o, w[q]); if (a[q].m < 1) return Out::bad(fmt("no output after %d bars", (int)(*d[q])[0].size())); }
    static const char* nm[] = {"", "its window alone", "another history before its window"};
    for (int k = 0; k < info->outputs; ++k) {
        bool ok[3]; for (int q = 0; q < 3; ++q) { ++g_total; const E& e = w[q][k].back(); ok[q] = usable(e); tol[q] = ok[q] ? tol_of(e) : 0; g_decided += ok[q]; }
        for (int q = 1; q < 3; ++q) { if (!ok[0] || !ok[q]) continue; ++cmp; double x = a[0].out[k].back(), y = a[q].out[k].back();
            if (!(std::fabs(x - y) <= 2 * (tol[0] + tol[q]))) return Out::bad(fmt("output '%s' at bar %d is %.17g; with %s (%d bars) it is %.17g (tolerance %.3g)", info->output_names[k], t, x, nm[q], W, y, 2 * (tol[0] + tol[q]))); }
    }
    return Out::ok(cmp > 0 && t + 1 > W);
}
static PropReg c20(Prop{"C20", "rel", "long histories (6% of 2000-4000 bars, 30% with price spikes): the value at a bar against the value from its window alone and from another history before the window; non-trivial: the value was decided and bars precede the window", [](const Spec& s, Info*) { return (s.flags & F_WINDOW) && s.group != "math"; }, gen_loc, check_loc, 18000, 360000});

// ---------------------------------------------------------------- C19
// Each rule sees the bar's outputs and the window of inputs. slack is absolute.
struct Rule { const char* name; std::function<std::string(const Case&, Info*, const Run&, int i, int bar)> f; };
static std::map<std::string, std::vector<std::function<std::string(const Case&, Info*, const Run&, int, int)>>>& rules() { static std::map<std::string, std::vector<std::function<std::string(const Case&, Info*, const Run&, int, int)>>> m; return m; }
typedef std::function<std::string(const Case&, Info*, const Run&, int, int)> RF;
static double mag(const Case& c, int upto) { double m = 0; for (size_t k = 0; k < c.in.size(); ++k) for (int i = 0; i <= upto && i < c.n; ++i) m = std::max(m, std::fabs(c.in[k][i])); return m; }
static RF range(int k, double lo, double hi) { return [=](const Case&, Info* info, const Run& r, int i, int bar) -> std::string { double v = r.out[k][i]; double s = 1e-6 * std::max(1.0, hi - lo < 1e100 ? hi - lo : 1.0); if (v != v) return ""; return v >= lo - s && v <= hi + s ? "" : fmt("'%s' at bar %d is %.17g, outside [%g, %g]", info->output_names[k], bar, v, lo, hi); }; }
static RF ordered(int a, int b) { return [=](const Case& c, Info* info, const Run& r, int i, int bar) -> std::string { double x = r.out[a][i], y = r.out[b][i]; if (x != x || y != y) return ""; return x <= y + 1e-9 * mag(c, bar) ? "" : fmt("'%s' %.17g above '%s' %.17g at bar %d", info->output_names[a], x, info->output_names[b], y, bar); }; }
// output k within [min of input lo, max of input hi] over the last w bars (w <= 0: all bars so far)
static RF between(int k, int lo, int hi, std::function<int(const Case&)> w) { return [=](const Case& c, Info* info, const Run& r, int i, int bar) -> std::string {
    double v = r.out[k][i]; if (v != v) return ""; int n = w(c); int from = n <= 0 ? 0 : std::max(0, bar - n + 1); double a = INFINITY, b = -INFINITY; for (int j = from; j <= bar; ++j) { a = std::min(a, c.in[lo][j]); b = std::max(b, c.in[hi][j]); }
    double s = 1e-9 * mag(c, bar); return v >= a - s && v <= b + s ? "" : fmt("'%s' at bar %d is %.17g, outside the input range [%.17g, %.17g]", info->output_names[k], bar, v, a, b); }; }
static RF nonneg(int k) { return [=](const Case& c, Info* info, const Run& r, int i, int bar) -> std::string { double v = r.out[k][i]; if (v != v) return ""; return v >= -1e-9 * mag(c, bar) ? "" : fmt("'%s' at bar %d is negative: %.17g", info->output_names[k], bar, v); }; }
static int reg19() {
    auto& m = rules(); auto W = [](int add) { return [add](const Case& c) { return (int)c.o[0] + add; }; }; auto ALL = [](const Case&) { return 0; };
    for (const char* n : {"rsi", "mfi", "dx", "adx", "adxr", "ultosc", "rmi", "rvi"}) m[n] = {range(0, 0, 100)};
    m["di"] = {range(0, 0, 100), range(1, 0, 100)}; m["aroon"] = {range(0, 0, 100), range(1, 0, 100)}; m["aroonosc"] = {range(0, -100, 100)};
    m["stoch"] = {range(0, 0, 100), range(1, 0, 100)}; m["stochrsi"] = {range(0, 0, 1)}; m["willr"] = {range(0, -100, 0)}; m["cmo"] = {range(0, -100, 100)};
    m["tsi"] = {range(0, -100, 100)}; m["smi"] = {range(0, -100, 100)}; m["er"] = {range(0, 0, 1)}; m["vhf"] = {range(0, 0, 1)}; m["bop"] = {range(0, -1, 1)}; m["arsi"] = {range(0, 0, 100)}; m["posc"] = {range(0, 0, 100)};
    m["hd"] = {range(0, 0, 50)}; m["crossany"] = {range(0, 0, 1)}; m["crossover"] = {range(0, 0, 1)}; m["mass"] = {nonneg(0)};
    for (const char* n : {"atr", "natr", "tr", "stddev", "stderr", "var", "md", "volatility", "emsd"}) m[n] = {nonneg(0)};
    m["dm"] = {nonneg(0), nonneg(1)}; m["vi"] = {nonneg(0), nonneg(1)};
    for (const char* n : {"bbands"}) m[n] = {ordered(0, 1), ordered(1, 2)};
    m["kc"] = {ordered(0, 1), ordered(1, 2)}; m["pc"] = {ordered(0, 1)}; m["pbands"] = {ordered(0, 1)};
    m["pc"].push_back(between(0, 1, 0, W(0))); m["pc"].push_back(between(1, 1, 0, W(0)));
    for (const char* n : {"sma", "wma", "trima", "max", "min", "dwma"}) m[n] = {between(0, 0, 0, n == std::string("dwma") ? std::function<int(const Case&)>([](const Case& c) { return 2 * (int)c.o[0] - 1; }) : std::function<int(const Case&)>(W(0)))};
    for (const char* n : {"ema", "wilders", "kama", "idwma", "hf", "hfema", "hfsma"}) m[n] = {between(0, 0, 0, ALL)};
    m["vwma"] = {[=](const Case& c, Info* info, const Run& r, int i, int bar) -> std::string { return r.out[0][i] == 0 ? "" : between(0, 0, 0, W(0))(c, info, r, i, bar); }}; m["vwap"] = {[=](const Case& c, Info* info, const Run& r, int i, int bar) -> std::string { return r.out[0][i] == 0 ? "" : between(0, 1, 0, W(0))(c, info, r, i, bar); }};
    m["avgprice"] = {between(0, 2, 1, [](const Case&) { return 1; })}; m["medprice"] = {between(0, 1, 0, [](const Case&) { return 1; })}; m["typprice"] = {between(0, 1, 0, [](const Case&) { return 1; })}; m["wcprice"] = {between(0, 1, 0, [](const Case&) { return 1; })};
    m["frama"] = {between(0, 1, 0, ALL)}; m["mhlma"] = {between(0, 0, 0, ALL), between(1, 0, 0, ALL)}; m["ichi"] = {between(0, 1, 0, ALL), between(1, 1, 0, ALL), between(2, 1, 0, ALL), between(3, 1, 0, ALL)};
    m["psar"] = {between(0, 1, 0, ALL)};
    return 0;
}
static int reg19_ = reg19();
static Case gen_bound(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); if (s.name == "bbands") c.o[1] = std::fabs(c.o[1]);
    int st = std::max(0, s.start(c.o.data())); c.n = gen_size(r, st, s.flags & F_SLOW ? st + 60 : 1000);
    gen_data(r, info, c.n, c.in, r.u(10), false); return c;
}
static Out check_bound(const Case& c, const Spec& s, Info* info) {
    auto it = rules().find(s.name); if (it == rules().end() || !s.valid(c.o.data()) || !ohlc_ok(info, c.in, c.n)) return Out::skip();
    if ((s.name == "bbands" && c.o[1] < 0) || (s.name == "psar" && c.o[1] > 1)) return Out::skip();     // bands turned inside out, steps past the extreme
    Run r = run_fn(info, PLAIN, c.n, c.in, c.o); if (r.code != TI_OKAY) return Out::bad(fmt("returned %d", r.code)); if (!r.bad.empty()) return Out::bad(r.bad);
    std::vector<V> w; model_run(s, c.n, c.in, c.o, w);
    int cmp = 0; bool varied = false;
    for (int i = 0; i < r.m; ++i) {
        // a value whose rounding cannot be bounded is not judged
        bool ok = true; double amp = 0; for (int k = 0; k < info->outputs; ++k) { const E& e = w[k][i]; ++g_total; if (!usable(e)) ok = false; else { ++g_decided; amp = std::max(amp, e.e / (1e-300 + std::max(1.0, std::fabs((double)e.v)))); } }
        if (!ok || amp > 1e-8) continue;
        ++cmp; if (i && r.out[0][i] != r.out[0][0]) varied = true;
        for (int k = 0; k < info->outputs; ++k) if (r.out[k][i] != r.out[k][i]) return Out::bad(fmt("'%s' at bar %d is NaN", info->output_names[k], r.start + i));
        for (auto& f : it->second) { std::string m = f(c, info, r, i, r.start + i); if (!m.empty()) return Out::bad(m); }
    }
    return Out::ok(cmp >= 3 && varied);
}
static PropReg c19(Prop{"C19", "rel", "consistent positive OHLCV bars of every regime; every output against its documented range, band order or the range of its inputs; non-trivial: at least 3 outputs judged, not all equal", [](const Spec& s, Info*) { return rules().count(s.name) > 0; }, gen_bound, check_bound, 45000, 900000});

// ---------------------------------------------------------------- C26
static bool undefined_somewhere(const std::string& n) { static const char* x[] = {"cmi", "cvi", "emv", "mgdyn", "pwma", "rmf", "rmta", "vi"}; for (auto q : x) if (n == q) return true; return false; }
static Case gen_finite(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data())); c.n = gen_size(r, st, s.flags & F_SLOW ? st + 60 : 600);
    static const int reg[] = {2, 5, 7, 8, 1, -1, 2, 7}; gen_data(r, info, c.n, c.in, reg[r.u(8)], false);
    if (c.n && r.p(.3)) {                                    // a stretch without any movement, or without any trade
        int a = r.u(c.n), len = r.in(1, c.n); bool flat = r.p(.6); if (r.p(.3)) { a = 0; if (r.p(.5)) len = c.n; }
        double p = 0; for (int k = 0; k < info->inputs; ++k) if (!is_volume(info, k)) { p = c.in[k][a]; break; }
        for (int i = a; i < c.n && i < a + len; ++i) for (int k = 0; k < info->inputs; ++k) { if (is_volume(info, k)) { if (!flat) c.in[k][i] = 0; } else if (flat) c.in[k][i] = p; }
    }
    c.aux = {(long)r.u(3)}; return c;
}
static Out check_finite(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || c.aux.empty() || !ohlc_ok(info, c.in, c.n)) return Out::skip();
    for (auto& v : c.in) for (double x : v) if (!(x >= 0 && x < 1e15) || (x > 0 && x < 1e-12)) return Out::skip();
    for (int k = 0; k < info->inputs; ++k) if (!is_volume(info, k)) for (double x : c.in[k]) if (!(x > 0)) return Out::skip();
    int how = (int)(labs(c.aux[0]) % 3); if (how == 1 && !info->indicator_ref) how = 0; if (how == 2 && !info->stream_new) how = 0;
    Run r = how == 2 ? run_stream(info, c.n, c.in, c.o, {std::max(1, c.n)}, false) : run_fn(info, how ? REF : PLAIN, c.n, c.in, c.o);
    if (r.code != TI_OKAY) return Out::bad(fmt("returned %d", r.code)); if (!r.bad.empty()) return Out::bad(r.bad);
    bool still = false; for (int i = 1; i < c.n && !still; ++i) { still = true; for (int k = 0; k < info->inputs; ++k) if (!is_volume(info, k) && c.in[k][i] != c.in[k][i-1]) still = false; }
    for (int k = 0; k < info->outputs; ++k) for (int i = 0; i < r.m; ++i) { ++g_total; ++g_decided; if (!std::isfinite(r.out[k][i])) return Out::bad(fmt("%s '%s' at bar %d is %g", how == 2 ? "stream output" : how ? "reference output" : "output", info->output_names[k], r.start + i, r.out[k][i])); }
    // bounded oscillators stay near their range too: what rounding left of a busier past must not be divided by itself
    static const struct { const char* name; double lo, hi; } osc[] = {{"rsi", 0, 100}, {"mfi", 0, 100}, {"dx", 0, 100}, {"adx", 0, 100}, {"adxr", 0, 100}, {"ultosc", 0, 100}, {"rmi", 0, 100}, {"rvi", 0, 100}, {"di", 0, 100}, {"aroon", 0, 100}, {"aroonosc", -100, 100}, {"stoch", 0, 100}, {"stochrsi", 0, 1}, {"willr", -100, 0}, {"cmo", -100, 100}, {"tsi", -100, 100}, {"er", 0, 1}, {"vhf", 0, 1}, {"bop", -1, 1}, {"posc", 0, 100}};
    double hi = 0, lo = 1e300; for (int k = 0; k < info->inputs; ++k) if (!is_volume(info, k)) for (double x : c.in[k]) { hi = std::max(hi, x); lo = std::min(lo, x); }
    if (hi <= 1e3 * lo) for (auto& q : osc) if (s.name == q.name) for (int k = 0; k < info->outputs; ++k) for (int i = 0; i < r.m; ++i) {
        double d = .01 * (q.hi - q.lo), v = r.out[k][i]; if (v < q.lo - d || v > q.hi + d) return Out::bad(fmt("'%s' at bar %d is %.17g, outside [%g, %g]", info->output_names[k], r.start + i, v, q.lo, q.hi)); }
    return Out::ok(r.m >= 2 && still);
}
static PropReg c26(Prop{"C26", "rel", "consistent positive OHLCV bars, mostly quiet ones: unmoving prices, zero ranges, no volume, for all or part of the series; batch, reference or stream; non-trivial: at least 2 outputs and at least one bar without any movement", [](const Spec& s, Info*) { return s.group != "math" && !undefined_somewhere(s.name); }, gen_finite, check_finite, 60000, 1200000});
