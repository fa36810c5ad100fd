// Reference models: elementwise maths, price averages, regressions, statistics, basic averages.
#include "spec.hpp"

static int reg_simple() {
    auto one = [](const char* name, E (*f)(const E&)) {
        Spec s; s.name = name; s.group = "math"; s.opts = ""; s.flags = F_WINDOW; s.window = 0;
        s.valid = [](const double*) { return true; };
        s.start = [](const double*) { return 0; };
        s.model = [f](Ctx& c) { for (int i = 0; i < c.n; ++i) { NB(); c.put(0, f(E(c.x(0, i)))); } };
        specs()[name] = s;
    };
    auto two = [](const char* name, E (*f)(const E&, const E&)) {
        Spec s; s.name = name; s.group = "math"; s.opts = ""; s.flags = F_WINDOW; s.window = 0;
        s.valid = [](const double*) { return true; };
        s.start = [](const double*) { return 0; };
        s.model = [f](Ctx& c) { for (int i = 0; i < c.n; ++i) { NB(); c.put(0, f(E(c.x(0, i)), E(c.x(1, i)))); } };
        specs()[name] = s;
    };
    one("abs", [](const E& x) { return eabs(x); });
    one("acos", [](const E& x) { return E(acosl(x.v), 0.0); });
    one("asin", [](const E& x) { return E(asinl(x.v), 0.0); });
    one("atan", [](const E& x) { return E(atanl(x.v), 0.0); });
    one("ceil", [](const E& x) { return E(ceill(x.v), 0.0); });
    one("cos", [](const E& x) { return E(cosl(x.v), 1e-15); });
    one("cosh", [](const E& x) { return E(coshl(x.v), 0.0); });
    one("exp", [](const E& x) { return E(expl(x.v), 0.0); });
    one("floor", [](const E& x) { return E(floorl(x.v), 0.0); });
    one("ln", [](const E& x) { return E(logl(x.v), 1e-16); });
    one("log10", [](const E& x) { return E(log10l(x.v), 1e-16); });
    one("round", [](const E& x) { LD f = floorl(x.v); return E(x.v - f >= 0.5L ? f + 1 : f, 0.0); });
    one("sin", [](const E& x) { return E(sinl(x.v), 1e-15); });
    one("sinh", [](const E& x) { return E(sinhl(x.v), 0.0); });
    one("sqrt", [](const E& x) { return E(sqrtl(x.v), 0.0); });
    one("tan", [](const E& x) { return E(tanl(x.v), 1e-15); });
    one("tanh", [](const E& x) { return E(tanhl(x.v), 0.0); });
    one("todeg", [](const E& x) { return E(x.v * (180.0L / acosl(-1.0L)), 0.0); });
    one("torad", [](const E& x) { return E(x.v * (acosl(-1.0L) / 180.0L), 0.0); });
    one("trunc", [](const E& x) { return E(truncl(x.v), 0.0); });
    two("add", [](const E& x, const E& y) { return x + y; });
    two("sub", [](const E& x, const E& y) { return x - y; });
    two("mul", [](const E& x, const E& y) { return x * y; });
    two("div", [](const E& x, const E& y) { return x / y; });
    return 0;
}
static int reg_simple_ = reg_simple();

// ---------------------------------------------------------------- regression
// Ordinary least squares of the window x = 1..p, evaluated at `at`.
struct Ols { E a, b; };
static std::vector<Ols> ols(const V& s, int p) {
    int n = (int)s.size(); std::vector<Ols> r(n);
    double hist = 0, roll = 0, rollxy = 0;
    bool ex = exactable(s, n - 1, (double)p * p * p);
    for (int i = 0; i < n; ++i) {
        hist = std::max(hist, (double)fabsl(s[i].v));
        roll += U * hist * p; rollxy += roll + U * hist * p * p;     // running Σy, and Σxy that integrates its error
        if (i < p - 1) continue;
        LD y = 0, xy = 0, sx = (LD)p * (p + 1) / 2, sxx = (LD)p * (p + 1) * (2 * p + 1) / 6;
        for (int j = 0; j < p; ++j) { y += s[i - p + 1 + j].v; xy += s[i - p + 1 + j].v * (j + 1); }
        double ey = ex ? 0 : roll, exy = ex ? 0 : rollxy;
        double den = (double)((LD)p * sxx - sx * sx);
        // b = (p*xy - sx*y) / den
        LD num = p * xy - sx * y;
        double enum_ = p * exy + (double)sx * ey + U * ((double)fabsl(p * xy) + (double)fabsl(sx * y));
        r[i].b = E(num / den, enum_ / den + rnd(num / den));
        r[i].a = (E(y, ey) - r[i].b * E(sx, 0.0)) / E(p);
        r[i].a.e += U * (hist * 4);
    }
    return r;
}
#define P2_1 I(0) >= 1
SPEC(linreg, "stat", "p2", P2_1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); auto r = ols(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, r[i].a + r[i].b * E(p)); }
}
SPEC(linregintercept, "stat", "p2", P2_1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); auto r = ols(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, r[i].a + r[i].b); }
}
SPEC(linregslope, "stat", "p2", P2_1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); auto r = ols(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, r[i].b); }
}
SPEC(tsf, "stat", "p2", P2_1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); auto r = ols(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, r[i].a + r[i].b * E(p + 1)); }
}
SPEC(fosc, "stat", "p2", P2_1, I(0), F_WINDOW | F_PRICEINV) {
    int p = c.P(0); V x = c.X(0); auto r = ols(x, p);
    for (int i = p; i < c.n; ++i) {
        NB(); E f = r[i-1].a + r[i-1].b * E(p + 1);
        c.put(0, E(100) * (x[i] - f) / x[i]);
    }
}
// ---------------------------------------------------------------- plain statistics
SPEC(sum, "stat", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ) {
    int p = c.P(0); V s = wsum(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, s[i]); }
}
SPEC(sma, "avg", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V s = wmean(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, s[i]); }
}
// Population variance of each window; the bound covers the Σx²/n - mean² formula on running sums.
static V wvar(const V& x, int p) {
    int n = (int)x.size(); V r(n); double roll = 0, mx = 0, ehist = 0; 
    for (int i = 0; i < n; ++i) {
        mx = std::max(mx, (double)fabsl(x[i].v) + x[i].e);
        ehist = std::max(ehist, x[i].e);
        roll += 4 * U * mx * mx;
        if (i < p - 1) continue;
        LD m = 0, v = 0;
        for (int j = i - p + 1; j <= i; ++j) m += x[j].v;
        m /= p;
        for (int j = i - p + 1; j <= i; ++j) v += (x[j].v - m) * (x[j].v - m);
        v /= p;
        r[i] = E(v, roll + 4 * ehist * mx + rnd(v));
    }
    return r;
}
SPEC(var, "stat", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_SHIFTINV) {
    int p = c.P(0); V s = wvar(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, s[i]); }
}
SPEC(stddev, "stat", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); V s = wvar(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, esqrt(s[i])); }
}
SPEC(stderr, "stat", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); V s = wvar(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, esqrt(s[i]) / esqrt(E(p))); }
}
SPEC(md, "stat", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); V x = c.X(0), s = wmean(x, p);
    for (int i = p - 1; i < c.n; ++i) {
        NB(); E a = 0;
        for (int j = i - p + 1; j <= i; ++j) a += eabs(x[j] - s[i]);
        c.put(0, a / E(p));
    }
}
SPEC(volatility, "stat", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV) {
    int p = c.P(0); V x = c.X(0), ch(std::max(0, c.n));
    for (int i = 1; i < c.n; ++i) ch[i] = c.x(0, i-1) != 0 ? x[i] / x[i-1] - E(1) : E(0);
    V v = wvar(tail(ch, 1), p);
    for (int i = p; i < c.n; ++i) { NB(); c.put(0, esqrt(v[i-1]) * esqrt(E(252))); }
}
// ---------------------------------------------------------------- price averages, differences
SPEC(medprice, "price", "", true, 0, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    for (int i = 0; i < c.n; ++i) { NB(); c.put(0, (E(c.x(0,i)) + E(c.x(1,i))) / E(2)); }
}
SPEC(typprice, "price", "", true, 0, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    for (int i = 0; i < c.n; ++i) { NB(); c.put(0, (E(c.x(0,i)) + E(c.x(1,i)) + E(c.x(2,i))) / E(3)); }
}
SPEC(wcprice, "price", "", true, 0, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    for (int i = 0; i < c.n; ++i) { NB(); c.put(0, (E(c.x(0,i)) + E(c.x(1,i)) + E(c.x(2,i)) * E(2)) / E(4)); }
}
SPEC(avgprice, "price", "", true, 0, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    for (int i = 0; i < c.n; ++i) { NB(); c.put(0, (E(c.x(0,i)) + E(c.x(1,i)) + E(c.x(2,i)) + E(c.x(3,i))) / E(4)); }
}
SPEC(lag, "price", "p0", o[0] > -1, I(0), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    for (int i = c.P(0); i < c.n; ++i) { NB(); c.put(0, E(c.x(0, i - c.P(0)))); }
}
SPEC(mom, "momentum", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    for (int i = c.P(0); i < c.n; ++i) { NB(); c.put(0, E(c.x(0, i)) - E(c.x(0, i - c.P(0)))); }
}
SPEC(roc, "momentum", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV) {
    for (int i = c.P(0); i < c.n; ++i) {
        NB(); E a = c.x(0, i), b = c.x(0, i - c.P(0));
        c.put(0, b.v != 0 ? loosen((a - b) / b, 8e-16 * (1 + std::fabs((a.v / b.v)))) : E(0));
    }
}
SPEC(rocr, "momentum", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV) {
    for (int i = c.P(0); i < c.n; ++i) { NB(); E a = c.x(0, i), b = c.x(0, i - c.P(0)); c.put(0, b.v != 0 ? a / b : E(0)); }
}
SPEC(crossover, "price", "", true, 1, F_WINDOW | F_PRICEINV) {
    for (int i = 1; i < c.n; ++i) { NB(); c.put(0, E((int)(c.x(0,i) > c.x(1,i) && c.x(0,i-1) <= c.x(1,i-1)))); }
}
SPEC(crossany, "price", "", true, 1, F_WINDOW | F_PRICEINV) {
    for (int i = 1; i < c.n; ++i) {
        bool up = c.x(0,i) > c.x(1,i) && c.x(0,i-1) <= c.x(1,i-1), dn = c.x(0,i) < c.x(1,i) && c.x(0,i-1) >= c.x(1,i-1);
        NB(); c.put(0, E((int)(up || dn)));
    }
}
SPEC(decay, "price", "p", I(0) >= 1, 0, 0) {
    E prev; for (int i = 0; i < c.n; ++i) { NB(); E x = c.x(0,i); prev = i ? emax(x, prev - E(1) / E(c.P(0))) : x; c.put(0, prev); }
}
SPEC(edecay, "price", "p", I(0) >= 1, 0, F_PRICEEQ) {
    E prev; for (int i = 0; i < c.n; ++i) { NB(); E x = c.x(0,i); prev = i ? emax(x, prev * (E(1) - E(1) / E(c.P(0)))) : x; c.put(0, prev); }
}
// ---------------------------------------------------------------- volume / money flow (no options)
SPEC(marketfi, "volume", "", true, 0, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    for (int i = 0; i < c.n; ++i) { NB(); c.put(0, c.x(2,i) != 0 ? (E(c.x(0,i)) - E(c.x(1,i))) / E(c.x(2,i)) : E(0)); }
}
static E clv(double h, double l, double cl) {       // close location value, 0 on a zero-range bar
    if (h - l == 0) return E(0);
    E r = ((E(cl) - E(l)) - (E(h) - E(cl))) / (E(h) - E(l));
    return loosen(r, U * 4 * (std::fabs(h) + std::fabs(l) + std::fabs(cl)) / std::fabs(h - l));
}
SPEC(ad, "volume", "", true, 0, F_PRICEINV | F_VOLEQ) {
    E s = 0; for (int i = 0; i < c.n; ++i) { NB(); s += clv(c.x(0,i), c.x(1,i), c.x(2,i)) * E(c.x(3,i)); c.put(0, s); }
}
SPEC(adosc, "volume", "p,p", I(0) >= 1 && I(1) >= I(0), I(1) - 1, F_PRICEINV | F_VOLEQ) {
    V a(c.n); E s = 0;
    for (int i = 0; i < c.n; ++i) { s += clv(c.x(0,i), c.x(1,i), c.x(2,i)) * E(c.x(3,i)); a[i] = s; }
    V f = emap(a, c.P(0)), g = emap(a, c.P(1));
    for (int i = c.P(1) - 1; i < c.n; ++i) { NB(); c.put(0, f[i] - g[i]); }
}
SPEC(cmf, "volume", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEINV | F_VOLINV) {
    int p = c.P(0); V a(c.n);
    for (int i = 0; i < c.n; ++i) a[i] = clv(c.x(0,i), c.x(1,i), c.x(2,i)) * E(c.x(3,i));
    V s = wsum(a, p), v = wsum(c.X(3), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, v[i].v == 0 && v[i].e == 0 ? E(0) : s[i] / v[i]); }
}
SPEC(bop, "momentum", "", true, 0, F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    for (int i = 0; i < c.n; ++i) { NB(); E hl = E(c.x(1,i)) - E(c.x(2,i)); c.put(0, c.x(1,i) - c.x(2,i) <= 0 ? E(0) : (E(c.x(3,i)) - E(c.x(0,i))) / hl); }
}
SPEC(emv, "volume", "", true, 1, F_WINDOW) {
    for (int i = 1; i < c.n; ++i) {
        NB(); E m = (E(c.x(0,i)) + E(c.x(1,i))) / E(2), l = (E(c.x(0,i-1)) + E(c.x(1,i-1))) / E(2);
        E v = c.x(2, i);
        if (m.v == l.v) c.put(0, E(0));
        else c.put(0, (m - l) * E(10000) * (E(c.x(0,i)) - E(c.x(1,i))) / v);
    }
}
SPEC(nvi, "volume", "", true, 0, F_PRICEINV | F_VOLINV) {
    E s = 1000; for (int i = 0; i < c.n; ++i) {
        if (i && c.x(1,i) < c.x(1,i-1)) s = s + s * ((E(c.x(0,i)) - E(c.x(0,i-1))) / E(c.x(0,i-1)));
        NB(); c.put(0, s);
    }
}
SPEC(pvi, "volume", "", true, 0, F_PRICEINV | F_VOLINV) {
    E s = 1000; for (int i = 0; i < c.n; ++i) {
        if (i && c.x(1,i) > c.x(1,i-1) && c.x(1,i-1) > 0) s = s + s * ((E(c.x(0,i)) - E(c.x(0,i-1))) / E(c.x(0,i-1)));
        NB(); c.put(0, s);
    }
}
SPEC(obv, "volume", "", true, 0, F_PRICEINV | F_SHIFTINV | F_VOLEQ) {
    E s = 0; for (int i = 0; i < c.n; ++i) {
        if (i && c.x(0,i) > c.x(0,i-1)) s += E(c.x(1,i));
        if (i && c.x(0,i) < c.x(0,i-1)) s -= E(c.x(1,i));
        NB(); c.put(0, s);
    }
}
SPEC(qstick, "momentum", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); V d(c.n); double m = 0;
    for (int i = 0; i < c.n; ++i) { d[i] = E(c.x(1,i)) - E(c.x(0,i)); m = std::max(m, std::fabs(c.x(1,i))); }
    V s = wmean(d, p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, s[i]); }
}
// ---------------------------------------------------------------- true range
static E trange(Ctx& c, int i, int H = 0, int L = 1, int C = 2) {
    E h = c.x(H,i), l = c.x(L,i);
    if (i == 0) return h - l;
    E pc = c.x(C,i-1);
    return emax(h - l, emax(eabs(h - pc), eabs(l - pc)));
}
V truerange(Ctx& c, int H, int L, int C) { V r(c.n); for (int i = 0; i < c.n; ++i) r[i] = trange(c, i, H, L, C); return r; }
SPEC(tr, "range", "", true, 0, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    V t = truerange(c, 0, 1, 2); for (int i = 0; i < c.n; ++i) { NB(); c.put(0, t[i]); }
}
SPEC(natr, "range", "p", I(0) >= 1, I(0) - 1, F_PRICEINV) {
    int p = c.P(0); V w = wilder(truerange(c, 0, 1, 2), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, w[i].v == 0 && w[i].e == 0 ? E(0) : E(100) * w[i] / E(c.x(2,i))); }
}
// ---------------------------------------------------------------- exponential family
SPEC(ema, "avg", "p", I(0) >= 1, 0, F_PRICEEQ | F_SHIFTEQ) {
    V r = emap(c.X(0), c.P(0)); for (int i = 0; i < c.n; ++i) { NB(); c.put(0, r[i]); }
}
SPEC(wilders, "avg", "p", I(0) >= 1, I(0) - 1, F_PRICEEQ | F_SHIFTEQ) {
    V r = wilder(c.X(0), c.P(0)); for (int i = c.P(0) - 1; i < c.n; ++i) { NB(); c.put(0, r[i]); }
}
SPEC(dema, "avg", "p", I(0) >= 1, (I(0) - 1) * 2, F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V a = emap(c.X(0), p), b = emap(tail(a, p - 1), p);
    for (int i = 2 * (p - 1); i < c.n; ++i) { NB(); c.put(0, E(2) * a[i] - b[i - (p - 1)]); }
}
SPEC(tema, "avg", "p", I(0) >= 1, (I(0) - 1) * 3, F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V a = emap(c.X(0), p), b = emap(tail(a, p - 1), p), d = emap(tail(b, p - 1), p);
    for (int i = 3 * (p - 1); i < c.n; ++i) { NB(); c.put(0, E(3) * a[i] - E(3) * b[i - (p - 1)] + d[i - 2 * (p - 1)]); }
}
SPEC(zlema, "avg", "p", I(0) >= 1, std::max(0, (I(0) - 1) / 2 - 1), F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0), lag = (p - 1) / 2; E per = per2(p), v;
    for (int i = std::max(0, lag - 1); i < c.n; ++i) {
        E x = c.x(0, i);
        if (i == std::max(0, lag - 1)) v = x;
        else v = lerp(v, x + (x - E(c.x(0, i - lag))), per);
        NB(); c.put(0, v);
    }
}
SPEC(rmta, "avg", "p,r:-0.4:1.3", I(0) >= 1, I(0) - 1, F_PRICEEQ) {
    E beta = c.O(1), alpha = E(1) - beta, b, r;
    for (int i = 0; i < c.n; ++i) {
        E x = c.x(0, i);
        if (i == 0) { b = beta * x + x; r = beta * x + alpha * (x + b); }
        else { E nb = beta * b + x; r = beta * r + alpha * (x + nb - b); b = nb; }
        if (i >= c.P(0) - 1) { NB(); c.put(0, r); }
    }
}
SPEC(apo, "momentum", "p,p2", I(0) >= 1 && I(1) >= 2 && I(1) >= I(0), 1, F_PRICEEQ | F_SHIFTINV) {
    V a = emap(c.X(0), c.P(0)), b = emap(c.X(0), c.P(1));
    for (int i = 1; i < c.n; ++i) { NB(); c.put(0, a[i] - b[i]); }
}
SPEC(ppo, "momentum", "p,p2", I(0) >= 1 && I(1) >= 2 && I(1) >= I(0), 1, F_PRICEINV) {
    V a = emap(c.X(0), c.P(0)), b = emap(c.X(0), c.P(1));
    for (int i = 1; i < c.n; ++i) { NB(); c.put(0, E(100) * (a[i] - b[i]) / b[i]); }
}
SPEC(cvi, "range", "p", I(0) >= 1, I(0) * 2 - 1, F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V d(c.n); for (int i = 0; i < c.n; ++i) d[i] = E(c.x(0,i)) - E(c.x(1,i));
    V a = emap(d, p);
    for (int i = 2 * p - 1; i < c.n; ++i) { NB(); c.put(0, E(100) * (a[i] - a[i-p]) / a[i-p]); }
}
// ---------------------------------------------------------------- windowed averages
SPEC(wma, "avg", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V x = c.X(0); bool ex = exactable(x, c.n - 1, p); double mx = 0, roll = 0, rolls = 0;
    for (int i = 0; i < c.n; ++i) {
        mx = std::max(mx, (double)fabsl(x[i].v)); rolls += U * mx * p; roll += rolls / p + U * mx * p;
        if (i < p - 1) continue;
        LD s = 0; for (int j = 0; j < p; ++j) s += x[i - p + 1 + j].v * (j + 1);
        NB(); c.put(0, E(s, ex ? 0 : roll * p) / E((double)p * (p + 1) / 2));
    }
}
SPEC(dpo, "momentum", "p", I(0) >= 1, std::max(I(0) - 1, I(0) / 2 + 1), F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0), back = p / 2 + 1; V s = wmean(c.X(0), p);
    for (int i = std::max(p - 1, back); i < c.n; ++i) { NB(); c.put(0, E(c.x(0, i - back)) - s[i]); }
}
SPEC(vwma, "avg", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ | F_VOLINV) {
    int p = c.P(0); V a(c.n); for (int i = 0; i < c.n; ++i) a[i] = E(c.x(0,i)) * E(c.x(1,i));
    V s = wsum(a, p), v = wsum(c.X(1), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, s[i].v == 0 && s[i].e == 0 ? E(0) : s[i] / v[i]); }
}
SPEC(ao, "momentum", "", true, 33, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    V m(c.n); for (int i = 0; i < c.n; ++i) m[i] = (E(c.x(0,i)) + E(c.x(1,i))) / E(2);
    V a = wmean(m, 5), b = wmean(m, 34);
    for (int i = 33; i < c.n; ++i) { NB(); c.put(0, a[i] - b[i]); }
}
SPEC(cmo, "momentum", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V u(c.n), d(c.n);
    for (int i = 1; i < c.n; ++i) { E x = E(c.x(0,i)) - E(c.x(0,i-1)); u[i] = emax(x, E(0)); d[i] = emax(-x, E(0)); }
    V us = wsum(u, p), ds = wsum(d, p);
    for (int i = p; i < c.n; ++i) {
        NB(); E t = us[i] + ds[i];
        c.put(0, t.v == 0 && t.e == 0 ? E(0) : E(100) * (us[i] - ds[i]) / t);
    }
}
SPEC(rsi, "momentum", "p", I(0) >= 1, I(0), F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V u(c.n), d(c.n);
    for (int i = 1; i < c.n; ++i) { E x = E(c.x(0,i)) - E(c.x(0,i-1)); u[i] = emax(x, E(0)); d[i] = emax(-x, E(0)); }
    V us = wilder(tail(u, 1), p), ds = wilder(tail(d, 1), p);
    for (int i = p; i < c.n; ++i) {
        NB(); E a = us[i-1], b = ds[i-1];
        c.put(0, a.v == 0 && a.e == 0 ? E(0) : E(100) * (a / (a + b)));
    }
}
SPEC(kama, "avg", "p", I(0) >= 1, I(0) - 1, F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V ch(c.n); for (int i = 1; i < c.n; ++i) ch[i] = eabs(E(c.x(0,i)) - E(c.x(0,i-1)));
    V s = wsum(ch, p); E fast = E(2) / E(3), slow = E(2) / E(31), k;
    NB();
    for (int i = p - 1; i < c.n; ++i) {
        E x = c.x(0,i);
        if (i == p - 1) k = x;
        else {
            E er = sel(s[i] == E(0), E(1), s[i].v == 0 ? E::unk() : eabs(x - E(c.x(0,i-p))) / s[i]);
            if (s[i].v == 0 && s[i].e == 0) er = E(1);
            E sc = esq(er * (fast - slow) + slow);
            k = k + sc * (x - k);
        }
        c.put(0, k);
    }
}
SPEC(wad, "volume", "", true, 1, F_PRICEEQ | F_SHIFTINV) {
    E s = 0;
    for (int i = 1; i < c.n; ++i) {
        double cl = c.x(2,i), y = c.x(2,i-1);
        if (cl > y) s += E(cl) - E(std::min(y, c.x(1,i)));
        if (cl < y) s += E(cl) - E(std::max(y, c.x(0,i)));
        NB(); c.put(0, s);
    }
}
SPEC(msw, "dsp", "p", I(0) >= 1, I(0), F_WINDOW) {
    int p = c.P(0); const LD pi = 3.1415926, tpi = 2 * pi;
    for (int i = p; i < c.n; ++i) {
        LD rp = 0, ip = 0; double mag = 0;
        for (int j = 0; j < p; ++j) { LD w = c.x(0, i-j); rp += cosl(tpi * j / p) * w; ip += sinl(tpi * j / p) * w; mag += (double)fabsl(w); }
        double er = mag * U * 16; E R(rp, er), Q(ip, er), ph;
        NB();
        if (eabs(R) > E(.001)) { ph = eatan(Q / R); if (R < E(0)) ph += E(pi, 0.0); }
        else { ph = E(pi, 1e-16) * (Q < E(0) ? E(-1) : E(1)); if (R < E(0)) ph += E(pi, 0.0); }
        ph += E(pi / 2, 1e-16);                  // adding multiples of tpi (2*3.1415926) is not exactly a period
        if (ph < E(0)) ph += E(tpi, 0.0);
        if (ph > E(tpi, 0.0)) ph -= E(tpi, 0.0);
        c.put(0, esin(ph)); c.put(1, esin(ph + E(pi / 4, 1e-16)));
    }
}
