// C27: indicators that are defined through one another agree.
#include "engine.hpp"

namespace {
struct S { int st = 0; Vd v; double at(int i) const { return v[i - st]; } int end() const { return st + (int)v.size(); } bool has(int i) const { return i >= st && i < end(); } };
typedef std::vector<S> Ss;
struct Undecided {};

// the library's own function over derived series, at the bars all of them have
Ss T(const char* name, const Vd& o, const Ss& in) {
    Info* f = lib.find(name); if (!f || f->inputs != (int)in.size() || f->options != (int)o.size()) throw Undecided();
    int st = 0, en = 1 << 30; for (auto& s : in) st = std::max(st, s.st), en = std::min(en, s.end());
    int n = std::max(0, en - st); Vvd d; for (auto& s : in) { Vd v; for (int i = st; i < st + n; ++i) { if (!std::isfinite(s.at(i))) throw Undecided(); v.push_back(s.at(i)); } d.push_back(v); }
    Run r = run_fn(f, PLAIN, n, d, o); if (r.code != TI_OKAY || !r.bad.empty()) throw Undecided();
    Ss out; for (auto& v : r.out) { S s; s.st = st + r.start; s.v = v; out.push_back(s); } return out;
}
S T1(const char* name, const Vd& o, const Ss& in) { return T(name, o, in)[0]; }
template <class F> S M(const Ss& in, F f) {
    int st = 0, en = 1 << 30; for (auto& s : in) st = std::max(st, s.st), en = std::min(en, s.end());
    S r; r.st = st; for (int i = st; i < en; ++i) { Vd a; for (auto& s : in) a.push_back(s.at(i)); r.v.push_back(f(a)); } return r;
}
S shift(const S& a, int k) { S r = a; r.st += k; return r; }          // the value k bars earlier
S from(const S& a, int st) { S r; r.st = std::max(a.st, st); for (int i = r.st; i < a.end(); ++i) r.v.push_back(a.at(i)); return r; }
S sub(const S& a, const S& b) { return M({a, b}, [](const Vd& x) { return x[0] - x[1]; }); }
S add(const S& a, const S& b) { return M({a, b}, [](const Vd& x) { return x[0] + x[1]; }); }
S mul(const S& a, const S& b) { return M({a, b}, [](const Vd& x) { return x[0] * x[1]; }); }
S quo(const S& a, const S& b) { return M({a, b}, [](const Vd& x) { return x[1] == 0 ? NAN : x[0] / x[1]; }); }   // a zero denominator has a convention of its own: not judged
S lin(const S& a, double k, double c = 0) { return M({a}, [=](const Vd& x) { return k * x[0] + c; }); }
S fabs_(const S& a) { return M({a}, [](const Vd& x) { return std::fabs(x[0]); }); }
S ema(const S& a, double p) { return T1("ema", {p}, {a}); }

#define R(name, ...) {name, [](const Ss& x, const Vd& o) -> Ss { (void)o; __VA_ARGS__ }}
const std::map<std::string, std::function<Ss(const Ss&, const Vd&)>>& rels() {
    static const std::map<std::string, std::function<Ss(const Ss&, const Vd&)>> m = {
        R("aroonosc", auto a = T("aroon", o, x); return {sub(a[1], a[0])};),
        R("natr", return {lin(quo(T1("atr", o, x), x[2]), 100)};),
        R("atr", return {T1("wilders", o, {T1("tr", {}, x)})};),
        R("tr", return {T1("atr", {1}, x)};),
        R("stddev", return {M({T1("var", o, x)}, [](const Vd& v) { return std::sqrt(std::max(0., v[0])); })};),
        R("stderr", return {lin(T1("stddev", o, x), 1 / std::sqrt(o[0]))};),
        R("var", S q = mul(x[0], x[0]), m = T1("sma", o, x); return {sub(T1("sma", o, {q}), mul(m, m))};),
        R("volatility", return {lin(T1("stddev", o, {quo(T1("mom", {1}, x), T1("lag", {1}, x))}), std::sqrt(252.))};),
        R("bbands", S m = T1("sma", {o[0]}, x), d = lin(T1("stddev", {o[0]}, x), o[1]); return Ss{sub(m, d), m, add(m, d)};),
        R("macd", if (o[0] == 12 && o[1] == 26) throw Undecided(); S d = from(sub(ema(x[0], o[0]), ema(x[0], o[1])), (int)o[1] - 1), g = ema(d, o[2]); return Ss{d, g, sub(d, g)};),
        R("apo", return {sub(ema(x[0], o[0]), ema(x[0], o[1]))};),
        R("ppo", S l = ema(x[0], o[1]); return {lin(quo(sub(ema(x[0], o[0]), l), l), 100)};),
        R("mom", return {sub(x[0], T1("lag", o, x))};),
        R("roc", return {quo(T1("mom", o, x), T1("lag", o, x))};),
        R("rocr", return {lin(quo(T1("mom", o, x), T1("lag", o, x)), 1, 1)};),
        R("lag", if (o[0] < 2) throw Undecided(); return {T1("lag", {o[0] - 1}, {T1("lag", {1}, x)})};),
        R("dx", auto d = T("dm", o, x); return {lin(quo(fabs_(sub(d[0], d[1])), add(d[0], d[1])), 100)};),
        R("adx", return {T1("wilders", o, {T1("dx", o, x)})};),
        R("adxr", S a = T1("adx", o, x); return {lin(add(a, shift(a, (int)o[0] - 1)), .5)};),
        R("tsf", return {add(T1("linreg", o, x), T1("linregslope", o, x))};),
        R("linreg", return {add(T1("linregintercept", o, x), lin(T1("linregslope", o, x), o[0] - 1))};),
        R("linregintercept", return {sub(T1("linreg", o, x), lin(T1("linregslope", o, x), o[0] - 1))};),
        R("linregslope", return {sub(T1("tsf", o, x), T1("linreg", o, x))};),
        R("fosc", return {lin(quo(sub(x[0], shift(T1("tsf", o, x), 1)), x[0]), 100)};),
        R("willr", S h = T1("max", o, {x[0]}), l = T1("min", o, {x[1]}); return {lin(quo(sub(h, x[2]), sub(h, l)), -100)};),
        R("stoch", S h = T1("max", {o[0]}, {x[0]}), l = T1("min", {o[0]}, {x[1]}), k = lin(quo(sub(x[2], l), sub(h, l)), 100); k = T1("sma", {o[1]}, {k}); S d = T1("sma", {o[2]}, {k}); return Ss{k, d};),
        R("stochrsi", S r = T1("rsi", {o[0]}, x), h = T1("max", {o[0]}, {r}), l = T1("min", {o[0]}, {r}); return {quo(sub(r, l), sub(h, l))};),
        R("dema", int p = (int)o[0]; S a = ema(x[0], p), b = ema(from(a, p - 1), p); return {sub(lin(a, 2), b)};),
        R("tema", int p = (int)o[0]; S a = ema(x[0], p), b = ema(from(a, p - 1), p), d = ema(from(b, 2 * (p - 1)), p); return {add(lin(sub(a, b), 3), d)};),
        R("trix", int p = (int)o[0]; S a = ema(x[0], p), b = ema(from(a, p - 1), p), d = from(ema(from(b, 2 * (p - 1)), p), 3 * (p - 1)); return {lin(quo(sub(d, shift(d, 1)), d), 100)};),
        R("hma", double h = std::max(1., std::floor(o[0] / 2)), q = std::floor(std::sqrt(o[0])); return {T1("wma", {q}, {sub(lin(T1("wma", {h}, x), 2), T1("wma", o, x))})};),
        R("dwma", return {T1("wma", o, {T1("wma", o, x)})};),
        R("trima", double p = o[0], a = std::floor((p + 1) / 2), b = p - a + 1; return {T1("sma", {b}, {T1("sma", {a}, x)})};),
        R("pwma", if (o[1] == 0) return {T1("sma", {o[0]}, x)}; if (o[1] == 1) return {T1("wma", {o[0]}, x)}; throw Undecided();),
        R("sum", return {lin(T1("sma", o, x), o[0])};),
        R("sma", return {lin(T1("sum", o, x), 1 / o[0])};),
        R("adosc", S a = T1("ad", {}, x); return {sub(ema(a, o[0]), ema(a, o[1]))};),
        R("ao", S m = T1("medprice", {}, x); return {sub(T1("sma", {5}, {m}), T1("sma", {34}, {m}))};),
        R("max", return {lin(T1("min", o, {lin(x[0], -1)}), -1)};),
        R("min", return {lin(T1("max", o, {lin(x[0], -1)}), -1)};),
        R("pc", return Ss{T1("min", o, {x[1]}), T1("max", o, {x[0]})};),
        R("ichi", auto mid = [&](double p) { return T1("medprice", {}, {T1("max", {p}, {x[0]}), T1("min", {p}, {x[1]})}); }; int b = (int)o[1]; S c = mid(o[0]), k = mid(o[1]); return Ss{c, k, shift(lin(add(c, k), .5), b), shift(mid(o[2]), b)};),
        R("vwma", return {quo(T1("sum", o, {mul(x[0], x[1])}), T1("sum", o, {x[1]}))};),
        R("vwap", S t = T1("typprice", {}, {x[0], x[1], x[2]}); return {T1("vwma", o, {t, x[3]})};),
        R("qstick", return {T1("sma", o, {sub(x[1], x[0])})};),
        R("cci", S t = T1("typprice", {}, x); return {quo(sub(t, T1("sma", o, {t})), lin(T1("md", o, {t}), .015))};),
        R("typprice", return {M({T1("medprice", {}, {x[0], x[1]}), x[2]}, [](const Vd& v) { return (2 * v[0] + v[1]) / 3; })};),
        R("wcprice", return {lin(add(T1("medprice", {}, {x[0], x[1]}), x[2]), .5)};),
        R("avgprice", return {M({T1("typprice", {}, {x[1], x[2], x[3]}), x[0]}, [](const Vd& v) { return (3 * v[0] + v[1]) / 4; })};),
        R("dpo", int b = (int)o[0] / 2 + 1; return {sub(shift(x[0], b), T1("sma", o, x))};),
        R("vosc", S l = T1("sma", {o[1]}, x); return {lin(quo(sub(T1("sma", {o[0]}, x), l), l), 100)};),
        R("kc", S m = ema(x[2], o[0]), w = lin(ema(T1("tr", {}, x), o[0]), o[1]); return Ss{sub(m, w), m, add(m, w)};),
        R("mass", S d = sub(x[0], x[1]), a = ema(d, 9), b = from(ema(from(a, 8), 9), 16); return {T1("sum", o, {quo(a, b)})};),
        R("cvi", S e = ema(sub(x[0], x[1]), o[0]), l = shift(e, (int)o[0]); return {lin(quo(sub(e, l), l), 100)};),
        R("crossany", return {M({T1("crossover", {}, x), T1("crossover", {}, {x[1], x[0]})}, [](const Vd& v) { return v[0] + v[1]; })};),
        R("crossover", return {M({T1("crossany", {}, x), x[0], x[1]}, [](const Vd& v) { return v[0] && v[1] > v[2]; })};),
        R("er", return {quo(fabs_(T1("mom", o, x)), T1("sum", o, {fabs_(T1("mom", {1}, x))}))};),
        R("vhf", return {quo(sub(T1("max", o, x), T1("min", o, x)), T1("sum", o, {fabs_(T1("mom", {1}, x))}))};),
        R("tsi", S d = T1("mom", {1}, x); return {lin(quo(ema(ema(d, o[0]), o[1]), ema(ema(fabs_(d), o[0]), o[1])), 100)};),
        R("fi", return {ema(mul(T1("mom", {1}, {x[0]}), x[1]), o[0])};),
        R("copp", return {T1("wma", {o[2]}, {lin(add(quo(T1("mom", {o[0]}, x), T1("lag", {o[0]}, x)), quo(T1("mom", {o[1]}, x), T1("lag", {o[1]}, x))), 50)})};),
        R("mhlma", S m = T1("medprice", {}, {T1("max", {o[0]}, {x[0]}), T1("min", {o[0]}, {x[0]})}); return {T1("sma", {o[1]}, {m})};),
        R("obv", S c = x[0], v = x[1]; S r; double t = 0; for (int i = 0; i < c.end(); ++i) { if (i) t += c.at(i) > c.at(i - 1) ? v.at(i) : c.at(i) < c.at(i - 1) ? -v.at(i) : 0; r.v.push_back(t); } return {r};),
        R("cmo", S d = T1("mom", {1}, x), a = T1("sum", o, {d}), b = T1("sum", o, {fabs_(d)}); return {lin(quo(a, b), 100)};),
        R("ema", S a = x[0], r; double v = 0; for (int i = 0; i < a.end(); ++i) { v = i ? v + 2 / (o[0] + 1) * (a.at(i) - v) : a.at(i); r.v.push_back(v); } return {r};),
        R("sub", return {T1("add", {}, {x[0], lin(x[1], -1)})};),
        R("div", return {T1("mul", {}, {x[0], M({x[1]}, [](const Vd& v) { return v[0] == 0 ? NAN : 1 / v[0]; })})};),
        R("tan", return {quo(T1("sin", {}, x), T1("cos", {}, x))};),
        R("todeg", return {quo(x[0], T1("torad", {}, {lin(x[0], 0, 1)}))};),
        R("log10", return {lin(T1("ln", {}, x), 1 / std::log(10.))};),
        R("cosh", return {lin(add(T1("exp", {}, x), T1("exp", {}, {lin(x[0], -1)})), .5)};),
        R("sinh", return {sub(T1("exp", {}, x), T1("cosh", {}, x))};),
        R("tanh", return {quo(T1("sinh", {}, x), T1("cosh", {}, x))};),
        R("acos", return {M({T1("asin", {}, x)}, [](const Vd& v) { return 1.57079632679489661923 - v[0]; })};),
        R("ceil", return {lin(T1("floor", {}, {lin(x[0], -1)}), -1)};),
        R("trunc", return {M({T1("floor", {}, x), T1("ceil", {}, x), x[0]}, [](const Vd& v) { return v[2] < 0 ? v[1] : v[0]; })};),
        R("sqrt", S r = M({x[0]}, [](const Vd& v) { return v[0] * v[0]; }); S q = T1("sqrt", {}, {r}); return {M({q, x[0]}, [](const Vd& v) { return std::fabs(v[0] - std::fabs(v[1])) <= 1e-13 * v[0] ? std::sqrt(v[1]) : v[0] - 1e300; })};),
    };
    return m;
}
bool simple_math(const std::string& n) { static const char* k[] = {"sub", "div", "tan", "todeg", "log10", "cosh", "sinh", "tanh", "acos", "ceil", "trunc", "sqrt"}; for (auto* s : k) if (n == s) return true; return false; }

Case gen_rel(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false);
    for (size_t k = 0; k < c.o.size(); ++k) if (!((s.name == "bbands" || s.name == "kc") && k == 1)) c.o[k] = std::max(1., std::floor(c.o[k]));
    if (s.name == "pwma") c.o[1] = r.u(2);
    if (!s.valid(c.o.data())) { Case d; d.o = c.o; for (int k = 0; k < info->inputs; ++k) d.in.push_back({}); return d; }
    int st = std::max(0, s.start(c.o.data())); c.n = std::min(gen_size(r, st, 1000), st + 400); gen_data(r, info, c.n, c.in);
    if (simple_math(s.name)) for (auto& v : c.in) for (auto& x : v) x = s.name == "acos" ? r.f(-1, 1) : s.name == "cosh" || s.name == "sinh" || s.name == "tanh" ? r.f(-20, 20) : r.p(.3) ? r.in(-9, 9) + .5 * r.u(2) : r.f(-50, 50);
    return c;
}
Out check_rel(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || !c.n) return Out::skip();
    Run r = run_fn(info, PLAIN, c.n, c.in, c.o);
    if (r.code != TI_OKAY) return Out::bad(fmt("returned %d for accepted options", r.code));
    if (!r.bad.empty()) return Out::bad(r.bad);
    Ss x, want; for (auto& v : c.in) { S q; q.v = v; x.push_back(q); }
    try { want = rels().at(s.name)(x, c.o); } catch (Undecided&) { return Out::skip(); }
    std::vector<V> w; if (!model_run(s, c.n, c.in, c.o, w)) return Out::skip();
    double mx = 0; if (s.flags & F_PRICEEQ) for (auto& v : c.in) for (double d : v) mx = std::max(mx, std::fabs(d));
    int cmp = 0; bool varied = false;
    for (size_t k = 0; k < want.size(); ++k)
        for (int i = 0; i < r.m; ++i) {
            int bar = r.start + i; if (!want[k].has(bar)) continue;
            ++g_total; double g = r.out[k][i], e = want[k].at(bar); const E& t = w[k][i];
            if (!std::isfinite(e) || !usable(t)) continue;
            ++g_decided; ++cmp; if (i && g != r.out[k][0]) varied = true;
            double tol = 60 * t.e + 1e-9 * std::fabs(e) + 1e-12 * mx + (s.flags & F_PRICEINV || simple_math(s.name) ? 1e-12 : 1e-300);
            if (!(std::fabs(g - e) <= tol)) return Out::bad(fmt("output '%s' at bar %d is %.17g, the related indicators give %.17g (tolerance %.3g)", info->output_names[k], bar, g, e, tol));
        }
    return Out::ok(cmp >= 3 && varied);
}
PropReg c27(Prop{"C27", "rel", "whole-number periods, all regimes; the indicator against the composition of other library functions that defines it, where no denominator is zero; non-trivial: 3 values compared, not all equal", [](const Spec& s, Info*) { return rels().count(s.name) > 0; }, gen_rel, check_rel, 12000, 240000});
}
