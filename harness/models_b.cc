// Reference models: momentum oscillators, volume flow, directional movement, extremes, bands.
#include "spec.hpp"
V truerange(Ctx& c, int H, int L, int C);

// ---- helpers -----------------------------------------------------------------------------
// Exponential smoothing with an arbitrary (real) period, seeded with the first value.
static V emaR(const V& s, double period) { return ema(s, E(2) / (E(period) + E(1))); }
static V emaR(const V& s, const E& period) { return ema(s, E(2) / (period + E(1))); }
static V fromtail(const V& s, int from) { return tail(s, from); }
// Weighted (1..p) moving sum; the bound covers rolling implementations.
V wwsum(const V& s, int p) {
    int n = (int)s.size(); V r(n); double mx = 0, es = 0, roll = 0, em = 0; bool ex = exactable(s, n - 1, p);
    for (int i = 0; i < n; ++i) {
        mx = std::max(mx, (double)fabsl(s[i].v)); em = std::max(em, s[i].e + s[i].h);
        es += U * mx * p; roll += es / p + U * mx * p;      // the running plain sum's error is integrated by the weighted one
        if (i < p - 1) { r[i] = E::unk(); continue; }
        LD t = 0; for (int j = 0; j < p; ++j) t += s[i - p + 1 + j].v * (j + 1);
        r[i] = E(t, fixe((ex ? 0 : roll * p) + em * p * (p + 1) / 2 * (em > 0 ? 2 : 0)));
    }
    return r;
}
V wwma(const V& s, int p) { V r = wwsum(s, p); for (auto& x : r) x = x / E((double)p * (p + 1) / 2); return r; }
static V col(Ctx& c, int k) { return c.X(k); }
static V typ(Ctx& c) { V t(c.n); for (int i = 0; i < c.n; ++i) t[i] = (E(c.x(0,i)) + E(c.x(1,i)) + E(c.x(2,i))) / E(3); return t; }
static E zdiv(const E& num, const E& den) {          // num/den, 0 when the numerator is exactly 0
    if (num.v == 0 && num.e == 0) return E(0);
    return num / den;
}
static bool zero(const E& x) { return x.v == 0 && x.e == 0; }

// ---- chained exponential averages ----------------------------------------------------------
SPEC(trix, "momentum", "p", I(0) >= 1, 3 * (I(0) - 1) + 1, F_PRICEINV) {
    int p = c.P(0); V a = emap(c.X(0), p), b = emap(tail(a, p - 1), p), d = emap(tail(b, p - 1), p);
    for (int i = 3 * (p - 1) + 1; i < c.n; ++i) {
        NB(); E cur = d[i - 2 * (p - 1)], last = d[i - 2 * (p - 1) - 1];
        c.put(0, zero(cur) ? E(0) : E(100) * (cur - last) / cur);
    }
}
SPEC(macd, "momentum", "p,p2,p", I(0) >= 1 && I(1) >= 2 && I(1) >= I(0) && I(2) >= 1, I(1) - 1, F_PRICEEQ | F_SHIFTINV) {
    E sp = per2(c.P(0)), lp = per2(c.P(1));
    if (c.P(0) == 12 && c.P(1) == 26) { sp = E(0.15); lp = E(0.075); }
    V x = c.X(0), a = ema(x, sp), b = ema(x, lp), m(c.n);
    for (int i = 0; i < c.n; ++i) m[i] = a[i] - b[i];
    V t = tail(m, c.P(1) - 1), s = emap(t, c.P(2));
    for (size_t i = 0; i < t.size(); ++i) { NB(); c.put(0, t[i]); c.put(1, s[i]); c.put(2, t[i] - s[i]); }
}
SPEC(vosc, "volume", "p,p", I(0) >= 1 && I(1) >= I(0), I(1) - 1, F_WINDOW | F_VOLINV) {
    V a = wmean(c.X(0), c.P(0)), b = wmean(c.X(0), c.P(1));
    for (int i = c.P(1) - 1; i < c.n; ++i) { NB(); c.put(0, zdiv(E(100) * (a[i] - b[i]), b[i])); }
}
SPEC(mass, "range", "p", I(0) >= 1, 16 + I(0) - 1, F_PRICEINV | F_SHIFTINV) {
    V d(c.n); for (int i = 0; i < c.n; ++i) d[i] = E(c.x(0,i)) - E(c.x(1,i));
    V a = emap(d, 9), b = emap(tail(a, 8), 9), r;
    for (int i = 16; i < c.n; ++i) r.push_back(zdiv(a[i], b[i - 8]));
    V s = wsum(r, c.P(0));
    for (int i = 16 + c.P(0) - 1; i < c.n; ++i) { NB(); c.put(0, s[i - 16]); }
}
SPEC(fi, "volume", "R", o[0] >= 1, 1, F_PRICEEQ | F_SHIFTINV | F_VOLEQ) {
    V d; for (int i = 1; i < c.n; ++i) d.push_back(E(c.x(1,i)) * (E(c.x(0,i)) - E(c.x(0,i-1))));
    V r = emaR(d, c.o[0]); for (auto& v : r) { NB(); c.put(0, v); }
}
SPEC(kst, "momentum", "kst", I(0) < I(1) && I(1) < I(2) && I(2) < I(3) && [&]{ for (int i = 0; i < 8; ++i) if (o[i] < 1) return false; return true; }(), I(3), F_PRICEINV) {
    V x = c.X(0), acc; int start = c.P(3);
    for (int k = 0; k < 4; ++k) {
        int p = c.P(k); V r;
        for (int i = p; i < c.n; ++i) r.push_back((x[i] - x[i-p]) / x[i-p]);
        V e = emap(r, c.P(4 + k));
        for (int i = start; i < c.n; ++i) {
            E t = e[i - p] * E(k + 1);
            if (k == 0) acc.push_back(t); else acc[i - start] += t;
        }
    }
    for (auto& v : acc) v = v / E(10);
    V s = emap(acc, 9);
    for (size_t i = 0; i < acc.size(); ++i) { NB(); c.put(0, acc[i]); c.put(1, s[i]); }
}
SPEC(copp, "momentum", "copp", o[0] >= 1 && o[1] >= 1 && o[2] >= 1 && o[1] >= o[0], I(1) + I(2) - 1, F_WINDOW | F_PRICEINV) {
    int s = c.P(0), l = c.P(1), w = c.P(2); V x = c.X(0), r;
    for (int i = l; i < c.n; ++i) {
        if (x[i-s].v == 0 || x[i-l].v == 0) r.push_back(E(0));
        else r.push_back(((x[i] / x[i-s] - E(1)) + (x[i] / x[i-l] - E(1))) / E(2) * E(100));
    }
    V a = wwma(r, w);
    for (int i = w - 1; i < (int)r.size(); ++i) { NB(); c.put(0, a[i]); }
}
SPEC(tsi, "momentum", "R,R", o[0] >= 1 && o[1] >= 1, 1, F_PRICEINV | F_SHIFTINV) {
    V d, a; for (int i = 1; i < c.n; ++i) { d.push_back(E(c.x(0,i)) - E(c.x(0,i-1))); a.push_back(eabs(d.back())); }
    V n = emaR(emaR(d, c.o[0]), c.o[1]), m = emaR(emaR(a, c.o[0]), c.o[1]);
    for (size_t i = 0; i < d.size(); ++i) { NB(); c.put(0, zero(m[i]) ? E(0) : E(100) * (n[i] / m[i])); }
}
SPEC(rmi, "momentum", "R,p", o[0] >= 1 && o[1] >= 1, I(1), F_PRICEINV | F_SHIFTINV) {
    V u, d; int l = c.P(1);
    for (int i = l; i < c.n; ++i) { E x = E(c.x(0,i)) - E(c.x(0,i-l)); u.push_back(emax(E(0), x)); d.push_back(emax(E(0), -x)); }
    V a = emaR(u, c.o[0]), b = emaR(d, c.o[0]);
    for (size_t i = 0; i < a.size(); ++i) { NB(); c.put(0, zero(a[i]) ? E(0) : a[i] / (a[i] + b[i]) * E(100)); }
}
static V hiwin(const V& s, int p) { V r(s.size()); for (int i = 0; i < (int)s.size(); ++i) r[i] = hh(s, i, std::min(p, i + 1)); return r; }
static V lowin(const V& s, int p) { V r(s.size()); for (int i = 0; i < (int)s.size(); ++i) r[i] = ll(s, i, std::min(p, i + 1)); return r; }
SPEC(smi, "momentum", "p,R,R", o[0] >= 1 && o[1] >= 1 && o[2] >= 1, (int)(o[0] - 1), F_PRICEINV | F_SHIFTINV) {
    int q = c.P(0); V H = hiwin(c.X(0), q), L = lowin(c.X(1), q), n, d;
    for (int i = q - 1; i < c.n; ++i) { n.push_back(E(c.x(2,i)) - (H[i] + L[i]) / E(2)); d.push_back(H[i] - L[i]); }
    V a = emaR(emaR(n, c.o[1]), c.o[2]), b = emaR(emaR(d, c.o[1]), c.o[2]);
    for (size_t i = 0; i < a.size(); ++i) { NB(); c.put(0, zero(b[i]) ? E(0) : E(100) * a[i] / (b[i] / E(2))); }
}
SPEC(er, "momentum", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V ch; for (int i = 1; i < c.n; ++i) ch.push_back(eabs(E(c.x(0,i)) - E(c.x(0,i-1))));
    V s = wsum(ch, p);
    for (int i = p; i < c.n; ++i) { NB(); c.put(0, zdiv(eabs(E(c.x(0,i)) - E(c.x(0,i-p))), s[i-1])); }
}
SPEC(pfe, "momentum", "p,p", I(0) >= 1 && I(1) >= 1, I(0), 0) {
    int p = c.P(0); V x = c.X(0), l; for (int i = 1; i < c.n; ++i) l.push_back(esqrt(esq(x[i] - x[i-1]) + E(1)));
    V s = wsum(l, p), r;
    for (int i = p; i < c.n; ++i) {
        E d = x[i] - x[i-p]; r.push_back(E(d.v > 0 ? 100 : -100) * esqrt(esq(d) + E(100)) / s[i-1]);
    }
    V e = emap(r, c.P(1)); for (auto& v : e) { NB(); c.put(0, v); }
}
SPEC(vhf, "momentum", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V x = c.X(0), ch; for (int i = 1; i < c.n; ++i) ch.push_back(eabs(x[i] - x[i-1]));
    V s = wsum(ch, p);
    for (int i = p; i < c.n; ++i) { NB(); c.put(0, zdiv(hh(x, i, p) - ll(x, i, p), s[i-1])); }
}
SPEC(cci, "momentum", "p", I(0) >= 1, 2 * (I(0) - 1), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V t = typ(c), a = wmean(t, p);
    for (int i = 2 * (p - 1); i < c.n; ++i) {
        NB(); E md = 0; for (int j = i - p + 1; j <= i; ++j) md += eabs(a[i] - t[j]);
        md = md / E(p) * E(.015);
        c.put(0, zero(md) ? E(0) : (t[i] - a[i]) / md);
    }
}
SPEC(willr, "momentum", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V h = c.X(0), l = c.X(1);
    for (int i = p - 1; i < c.n; ++i) {
        NB(); E H = hh(h, i, p), L = ll(l, i, p);
        c.put(0, H.v == L.v ? E(0) : E(-100) * ((H - E(c.x(2,i))) / (H - L)));
    }
}
SPEC(stoch, "momentum", "p,p,p", I(0) >= 1 && I(1) >= 1 && I(2) >= 1, I(0) + I(1) + I(2) - 3, F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V H = hiwin(c.X(0), p), L = lowin(c.X(1), p), f(c.n);
    for (int i = 0; i < c.n; ++i) f[i] = H[i].v == L[i].v ? E(0) : E(100) * ((E(c.x(2,i)) - L[i]) / (H[i] - L[i]));
    V k = wmean(f, c.P(1)), k2 = tail(k, p - 1 + c.P(1) - 1), d = wmean(k2, c.P(2));
    for (int i = c.P(2) - 1; i < (int)k2.size(); ++i) { NB(); c.put(0, k2[i]); c.put(1, d[i]); }
}
SPEC(stochrsi, "momentum", "p2", I(0) >= 2, 2 * I(0) - 1, F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V u, d; for (int i = 1; i < c.n; ++i) { E x = E(c.x(0,i)) - E(c.x(0,i-1)); u.push_back(emax(x, E(0))); d.push_back(emax(-x, E(0))); }
    V a = wilder(u, p), b = wilder(d, p), r;
    for (int i = p - 1; i < (int)u.size(); ++i) r.push_back(zero(a[i]) ? E(0) : E(100) * (a[i] / (a[i] + b[i])));
    for (int i = p - 1; i < (int)r.size(); ++i) {
        NB(); E H = hh(r, i, p), L = ll(r, i, p), df = H - L;
        c.put(0, zero(df) ? E(0) : (r[i] - L) / df);
    }
}
SPEC(fisher, "momentum", "p", I(0) >= 1, I(0) - 1, F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V m(c.n); for (int i = 0; i < c.n; ++i) m[i] = (E(c.x(0,i)) + E(c.x(1,i))) / E(2);
    E v = 0, f = 0; NB();
    for (int i = p - 1; i < c.n; ++i) {
        E H = hh(m, i, p), L = ll(m, i, p), mm = H - L;
        if (zero(mm)) mm = E(.001);
        v = E(.33) * E(2) * ((m[i] - L) / mm - E(.5)) + E(.67) * v;
        v = sel(v > E(.99), E(.999), v); v = sel(v < E(-.99), E(-.999), v);
        c.put(1, f);
        f = E(.5) * elog((E(1) + v) / (E(1) - v)) + E(.5) * f;
        c.put(0, f);
    }
}
SPEC(ultosc, "momentum", "p,p,p", I(0) >= 1 && I(1) >= I(0) && I(2) >= I(1), I(2), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    V b, r;
    for (int i = 1; i < c.n; ++i) {
        E tl = emin(E(c.x(1,i)), E(c.x(2,i-1))), th = emax(E(c.x(0,i)), E(c.x(2,i-1)));
        b.push_back(E(c.x(2,i)) - tl); r.push_back(th - tl);
    }
    V q[3]; for (int k = 0; k < 3; ++k) { V x = wsum(b, c.P(k)), y = wsum(r, c.P(k)); for (size_t i = 0; i < x.size(); ++i) q[k].push_back(zdiv(x[i], y[i])); }
    for (int i = c.P(2); i < c.n; ++i) { NB(); c.put(0, (E(4) * q[0][i-1] + E(2) * q[1][i-1] + q[2][i-1]) * E(100) / E(7)); }
}
static int recentmax(Ctx& c, int k, int i, int p) { int m = i; for (int j = i - 1; j >= i - p; --j) if (c.x(k,j) > c.x(k,m)) m = j; return m; }
static int recentmin(Ctx& c, int k, int i, int p) { int m = i; for (int j = i - 1; j >= i - p; --j) if (c.x(k,j) < c.x(k,m)) m = j; return m; }
SPEC(aroon, "extreme", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0);
    for (int i = p; i < c.n; ++i) {
        NB(); c.put(0, E(100) * E(p - (i - recentmin(c, 1, i, p))) / E(p)); c.put(1, E(100) * E(p - (i - recentmax(c, 0, i, p))) / E(p));
    }
}
SPEC(aroonosc, "extreme", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0);
    for (int i = p; i < c.n; ++i) { NB(); c.put(0, E(100) * E(recentmax(c, 0, i, p) - recentmin(c, 1, i, p)) / E(p)); }
}
SPEC(max, "extreme", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    V x = c.X(0); for (int i = c.P(0) - 1; i < c.n; ++i) { NB(); c.put(0, hh(x, i, c.P(0))); }
}
SPEC(min, "extreme", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    V x = c.X(0); for (int i = c.P(0) - 1; i < c.n; ++i) { NB(); c.put(0, ll(x, i, c.P(0))); }
}
SPEC(pc, "extreme", "p", I(0) >= 1, (int)(o[0] - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V h = c.X(0), l = c.X(1);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, ll(l, i, p)); c.put(1, hh(h, i, p)); }
}
SPEC(ichi, "extreme", "ichi", 0 < I(0) && I(0) <= I(1) && I(1) <= I(2), I(2) - 1 + I(1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int a = c.P(0), b = c.P(1), d = c.P(2); V h = c.X(0), l = c.X(1);
    auto mid = [&](int i, int p) { return (hh(h, i, p) + ll(l, i, p)) / E(2); };
    for (int i = d - 1 + b; i < c.n; ++i) {
        NB(); c.put(0, mid(i, a)); c.put(1, mid(i, b));
        c.put(2, (mid(i - b, a) + mid(i - b, b)) / E(2)); c.put(3, mid(i - b, d));
    }
}
SPEC(mhlma, "extreme", "p,p", I(0) >= 1 && I(1) >= 1, (int)(o[1] - 1), F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0), m = c.P(1); V H = hiwin(c.X(0), p), L = lowin(c.X(0), p), a(c.n);
    for (int i = 0; i < c.n; ++i) a[i] = (H[i] + L[i]) / E(2);
    V s = wmean(a, m), e = emap(a, m);
    for (int i = m - 1; i < c.n; ++i) { NB(); c.put(0, s[i]); c.put(1, e[i]); }
}
static V kctr(Ctx& c) {       // true range, first bar high-low
    V r(c.n); for (int i = 0; i < c.n; ++i) r[i] = i == 0 ? E(c.x(0,0)) - E(c.x(1,0))
        : emax(E(c.x(0,i)), E(c.x(2,i-1))) - emin(E(c.x(1,i)), E(c.x(2,i-1)));
    return r;
}
SPEC(ce, "extreme", "p,r:-3:6", I(0) >= 1, I(0) - 1, F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V h = c.X(0), l = c.X(1), a = wilder(kctr(c), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, hh(h, i, p) - c.O(1) * a[i]); c.put(1, ll(l, i, p) + c.O(1) * a[i]); }
}
// ---- ranges and bands ------------------------------------------------------------------------
SPEC(atr, "range", "p", I(0) >= 1, I(0) - 1, F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); V w = wilder(truerange(c, 0, 1, 2), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, w[i]); }
}
SPEC(kc, "range", "R,r:0:9", o[0] >= 1 && o[1] >= 0, 0, F_PRICEEQ | F_SHIFTEQ) {
    V m = emaR(c.X(2), c.o[0]), t = emaR(kctr(c), c.o[0]);
    for (int i = 0; i < c.n; ++i) { NB(); E w = c.O(1) * t[i]; c.put(0, m[i] - w); c.put(1, m[i]); c.put(2, m[i] + w); }
}
static V rollvar(const V& x, int p) {
    int n = (int)x.size(); V r(n); double roll = 0, mx = 0;
    for (int i = 0; i < n; ++i) {
        mx = std::max(mx, (double)fabsl(x[i].v)); roll += 4 * U * mx * mx;
        if (i < p - 1) continue;
        LD m = 0, v = 0; for (int j = i - p + 1; j <= i; ++j) m += x[j].v;
        m /= p; for (int j = i - p + 1; j <= i; ++j) v += (x[j].v - m) * (x[j].v - m);
        v /= p; r[i] = E(v, roll + rnd(v));
    }
    return r;
}
SPEC(bbands, "range", "p,r:-3:6", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V x = c.X(0), m = wmean(x, p), v = rollvar(x, p);
    for (int i = p - 1; i < c.n; ++i) { NB(); E s = esqrt(v[i]) * c.O(1); c.put(0, m[i] - s); c.put(1, m[i]); c.put(2, m[i] + s); }
}
SPEC(emsd, "stat", "p,p", I(0) >= 1 && I(1) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); V v = rollvar(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, esqrt(v[i])); }
}
SPEC(abands, "range", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ) {
    int p = c.P(0); V u(c.n), d(c.n);
    for (int i = 0; i < c.n; ++i) {
        E h = c.x(0,i), l = c.x(1,i), s = h + l, m = s.v > 0 ? E(4) * (h - l) / s : E(0);
        u[i] = h * (E(1) + m); d[i] = l * (E(1) - m);
    }
    V a = wmean(u, p), b = wmean(d, p), m = wmean(c.X(2), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, b[i]); c.put(1, a[i]);
        double w = 0; for (int j = i - p + 1; j <= i; ++j) w = std::max(w, std::fabs(c.x(2, j))); E mid = m[i]; if (p > 1) mid.e += 4 * U * w; c.put(2, mid); }   // the reference divides before it sums
}
static std::vector<E> lrslope(const V& s, int p) {     // least-squares slope of each full window
    int n = (int)s.size(); std::vector<E> r(n); double hist = 0, roll = 0, acc = 0; bool ex = exactable(s, n - 1, (double)p * p * p);
    for (int i = 0; i < n; ++i) {
        hist = std::max(hist, (double)fabsl(s[i].v)); roll += U * hist * p; acc += roll + U * hist * p * p;      // the weighted sum integrates the plain sum's error
        if (i < p - 1) continue;
        LD y = 0, xy = 0, sx = (LD)p * (p + 1) / 2, sxx = (LD)p * (p + 1) * (2 * p + 1) / 6;
        for (int j = 0; j < p; ++j) { y += s[i-p+1+j].v; xy += s[i-p+1+j].v * (j + 1); }
        LD den = p * sxx - sx * sx, num = p * xy - sx * y;
        double ey = ex ? 0 : roll, exy = ex ? 0 : acc;
        double en = p * exy + (double)sx * ey + 2 * U * ((double)fabsl(p * xy) + (double)fabsl(sx * y));
        r[i] = p == 1 ? E(0) : E(num / den, en / (double)den + rnd(num / den));
    }
    return r;
}
struct PB { E lo, hi; };
static PB projband(Ctx& c, const std::vector<E>& b, int i, int p) {
    PB r{E(c.x(1,i)), E(c.x(0,i))};
    for (int j = 1; j < p; ++j) {
        r.hi = emax(r.hi, E(c.x(0,i-j)) + E(j) * b[i]); r.lo = emin(r.lo, E(c.x(1,i-j)) + E(j) * b[i]);
    }
    return r;
}
SPEC(pbands, "range", "p", I(0) >= 1, (int)(o[0] - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); auto b = lrslope(c.X(2), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); PB q = projband(c, b, i, p); c.put(0, q.lo); c.put(1, q.hi); }
}
SPEC(posc, "momentum", "p,p", I(0) >= 1 && I(1) >= 1, (int)(o[0] - 1), F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); auto b = lrslope(c.X(2), p); V r;
    for (int i = p - 1; i < c.n; ++i) { PB q = projband(c, b, i, p); r.push_back(zdiv((E(c.x(2,i)) - q.lo) * E(100), q.hi - q.lo)); }
    V e = emap(r, c.P(1)); for (auto& v : e) { NB(); c.put(0, v); }
}
SPEC(rvi, "momentum", "p,p", I(0) >= 1 && I(1) >= 1, (int)(o[1] - 1), F_PRICEINV | F_SHIFTINV) {
    int p = c.P(1); V x = c.X(0); auto b = lrslope(x, p); V s = wsum(x, p); E g = 0, l = 0, k = per2(c.P(0));
    NB();
    for (int i = p - 1; i < c.n; ++i) {
        E bs = b[i]; E a = s[i] / E(p) - bs * E((p + 1) / 2.0);
        E up = x[i] - (a + bs * E(p));
        up.e += U * 8 * ((double)fabsl(a.v) + (double)fabsl(bs.v) * p);
        if (p == 1) { c.put(0, E(50)); continue; }
        E sq = up * up / E(p);
        if (up > E(0)) g = lerp(g, sq, k); else l = lerp(l, sq, k);
        c.put(0, zero(g) ? E(50) : g / (g + l) * E(100));
    }
}
SPEC(cmi, "range", "p", I(0) >= 1, (int)(o[0] - 1), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V t = kctr(c), s = wsum(t, p);
    for (int i = p - 1; i < c.n; ++i) {
        NB(); E d = hh(t, i, p) - ll(t, i, p);
        c.put(0, p == 1 ? E::unk() : elog(d / s[i]) / elog(E(p)) * E(100));
    }
}
// ---- volume ----------------------------------------------------------------------------------
SPEC(mfi, "volume", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_VOLINV) {
    int p = c.P(0); V t = typ(c), u, d; NB();
    // an ambiguous comparison leaves the window for good after p bars; be conservative per bar
    std::vector<char> amb;
    for (int i = 1; i < c.n; ++i) {
        // typical prices are computed identically for equal bars: treat equal (h,l,c) as exactly equal
        bool same = c.x(0,i) == c.x(0,i-1) && c.x(1,i) == c.x(1,i-1) && c.x(2,i) == c.x(2,i-1);
        E v = t[i] * E(c.x(3,i)); B up = t[i] > t[i-1], dn = t[i] < t[i-1];
        if (same) { u.push_back(0); d.push_back(0); amb.push_back(0); continue; }
        u.push_back(up.v ? v : E(0)); d.push_back(dn.v ? v : E(0)); amb.push_back(up.amb || dn.amb);
    }
    V a = wsum(u, p), b = wsum(d, p);
    for (int i = p; i < c.n; ++i) {
        NB(); bool w = false; for (int j = i - p; j < i; ++j) w |= amb[j];
        c.put(0, w ? E::unk() : zero(a[i-1]) ? E(0) : a[i-1] / (a[i-1] + b[i-1]) * E(100));
    }
}
SPEC(vwap, "volume", "p", o[0] >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ | F_VOLINV) {
    int p = c.P(0); V t = typ(c), a(c.n); for (int i = 0; i < c.n; ++i) a[i] = t[i] * E(c.x(3,i));
    V s = wsum(a, p), v = wsum(c.X(3), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, zdiv(s[i], v[i])); }
}
SPEC(evwma, "volume", "p,r:0.5:20", I(0) >= 1 && o[1] > 0, I(0) - 1, F_PRICEEQ | F_SHIFTEQ | F_VOLINV) {
    int p = c.P(0); V N = wsum(c.X(1), p); E f; NB();
    for (int i = p - 1; i < c.n; ++i) {
        E x = c.x(0,i);
        if (i == p - 1) f = x;
        else if (zero(N[i])) f = E(0);
        else { E w = E(c.x(1,i)) / (c.O(1) * N[i]); f = lerp(f, x, w); }
        c.put(0, f);
    }
}
SPEC(pvt, "volume", "", true, 1, F_PRICEINV | F_VOLEQ) {
    E s = c.n ? E(c.x(1,0)) : E(0);
    for (int i = 1; i < c.n; ++i) { NB(); s += E(c.x(1,i)) * (E(c.x(0,i)) - E(c.x(0,i-1))) / E(c.x(0,i-1)); c.put(0, s); }
}
SPEC(kvo, "volume", "p,p", I(0) >= 1 && I(1) >= I(0), 1, F_PRICEINV | F_VOLEQ) {
    V f; E cm = 0; int trend = -1; bool bad = false;
    for (int i = 1; i < c.n; ++i) {
        E a = E(c.x(0,i)) + E(c.x(1,i)) + E(c.x(2,i)), b = E(c.x(0,i-1)) + E(c.x(1,i-1)) + E(c.x(2,i-1));
        bool same = c.x(0,i) == c.x(0,i-1) && c.x(1,i) == c.x(1,i-1) && c.x(2,i) == c.x(2,i-1);
        E dm = E(c.x(0,i)) - E(c.x(1,i));
        B up = a > b, dn = a < b; if (!same && (up.amb || dn.amb)) bad = true;
        if (!same && up.v && trend != 1) { trend = 1; cm = E(c.x(0,i-1)) - E(c.x(1,i-1)); }
        else if (!same && dn.v && trend != 0) { trend = 0; cm = E(c.x(0,i-1)) - E(c.x(1,i-1)); }
        cm += dm;
        E vf = zero(dm) ? E(0) : E(c.x(3,i)) * eabs(dm / cm * E(2) - E(1)) * E(100) * E(trend ? 1 : -1);
        f.push_back(bad ? E::unk() : vf);
    }
    V s = emap(f, c.P(0)), l = emap(f, c.P(1));
    for (size_t i = 0; i < f.size(); ++i) { NB(); c.put(0, s[i] - l[i]); }
}
SPEC(vi, "dir", "p", I(0) >= 1, I(0), F_WINDOW | F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V a, b, t;
    for (int i = 1; i < c.n; ++i) {
        E h = c.x(0,i), l = c.x(1,i), pc = c.x(2,i-1);
        a.push_back(eabs(h - E(c.x(1,i-1)))); b.push_back(eabs(l - E(c.x(0,i-1))));
        t.push_back(emax(h - l, emax(eabs(h - pc), eabs(l - pc))));
    }
    V x = wsum(a, p), y = wsum(b, p), z = wsum(t, p);
    for (int i = p; i < c.n; ++i) { NB(); c.put(0, zdiv(x[i-1], z[i-1])); c.put(1, zdiv(y[i-1], z[i-1])); }
}
// ---- directional movement ----------------------------------------------------------------------
struct DM { V up, dn; };
static DM dmove(Ctx& c) {                  // entries for bars 1..n-1
    DM r;
    for (int i = 1; i < c.n; ++i) {
        E u = E(c.x(0,i)) - E(c.x(0,i-1)), d = E(c.x(1,i-1)) - E(c.x(1,i));
        E pu = emax(u, E(0)), pd = emax(d, E(0));
        // the larger of the two positive moves wins; equal moves both stand
        double eu = c.x(0,i) - c.x(0,i-1), ed = c.x(1,i-1) - c.x(1,i);
        if (eu > 0 && ed > 0) { if (eu > ed) pd = E(0); else if (ed > eu) pu = E(0); }
        r.up.push_back(pu); r.dn.push_back(pd);
    }
    return r;
}
// Wilder accumulation: sum of the first p-1 moves at bar p-1, then s*(p-1)/p + x. Indexed by bar.
static V dsmooth(const V& m, int p, int n) {
    V r(n); E s = 0, k = E(p - 1) / E(p);
    for (int i = 0; i < n; ++i) {
        if (i >= 1) s = i < p ? s + m[i-1] : s * k + m[i-1];
        r[i] = s;
    }
    return r;
}
SPEC(dm, "dir", "p", I(0) >= 1, I(0) - 1, F_PRICEEQ | F_SHIFTINV) {
    int p = c.P(0); DM d = dmove(c); V a = dsmooth(d.up, p, c.n), b = dsmooth(d.dn, p, c.n);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, a[i]); c.put(1, b[i]); }
}
SPEC(di, "dir", "p", I(0) >= 1, I(0) - 1, F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); DM d = dmove(c); V a = dsmooth(d.up, p, c.n), b = dsmooth(d.dn, p, c.n), t = dsmooth(tail(truerange(c, 0, 1, 2), 1), p, c.n);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, zdiv(E(100) * a[i], t[i])); c.put(1, zdiv(E(100) * b[i], t[i])); }
}
static V dxs(Ctx& c, int p) {              // from bar p-1 on
    DM d = dmove(c); V a = dsmooth(d.up, p, c.n), b = dsmooth(d.dn, p, c.n), r;
    for (int i = p - 1; i < c.n; ++i) { E s = a[i] + b[i]; r.push_back(zero(s) ? E(0) : eabs(a[i] - b[i]) / s * E(100)); }
    return r;
}
SPEC(dx, "dir", "p", I(0) >= 1, I(0) - 1, F_PRICEINV | F_SHIFTINV) { for (auto& v : dxs(c, c.P(0))) { NB(); c.put(0, v); } }
SPEC(adx, "dir", "p2", I(0) >= 2, 2 * (I(0) - 1), F_PRICEINV | F_SHIFTINV) {
    V w = wilder(dxs(c, c.P(0)), c.P(0)); for (int i = c.P(0) - 1; i < (int)w.size(); ++i) { NB(); c.put(0, w[i]); }
}
SPEC(adxr, "dir", "p2", I(0) >= 2, 3 * (I(0) - 1), F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0); V w = wilder(dxs(c, p), p);
    for (int i = 2 * (p - 1); i < (int)w.size(); ++i) { NB(); c.put(0, (w[i] + w[i - (p - 1)]) / E(2)); }
}
SPEC(psar, "dir", "r:0.005:0.8,psarmax", o[0] > 0 && o[1] > o[0], 1, F_PRICEEQ | F_SHIFTEQ) {
    if (c.n < 2) return;
    auto H = [&](int i) { return E(c.x(0,i)); }; auto L = [&](int i) { return E(c.x(1,i)); };
    NB();
    E step = c.O(0), mx = c.O(1), af = step;
    bool up = (bool)(H(0) + L(0) <= H(1) + L(1));
    E ep = up ? H(0) : L(0), sar = up ? L(0) : H(0);
    for (int i = 1; i < c.n; ++i) {
        sar = lerp(sar, ep, af);
        if (up) {
            if (i >= 2) sar = emin(sar, L(i-2));
            sar = emin(sar, L(i-1));
            if (H(i) > ep) { af = emin(af + step, mx); ep = H(i); }
        } else {
            if (i >= 2) sar = emax(sar, H(i-2));
            sar = emax(sar, H(i-1));
            if (L(i) < ep) { af = emin(af + step, mx); ep = L(i); }
        }
        if (up ? (bool)(L(i) < sar) : (bool)(H(i) > sar)) {
            sar = ep; af = step; up = !up; ep = up ? H(i) : L(i);
        }
        c.put(0, sar);
    }
}
// ---- averages ----------------------------------------------------------------------------------
SPEC(trima, "avg", "p", I(0) >= 1, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V x = c.X(0); bool ex = exactable(x, c.n - 1, p); double mx = 0, roll = 0, rolls = 0;
    LD wt = 0; std::vector<int> w(p); for (int j = 0; j < p; ++j) { w[j] = std::min(j + 1, p - j); wt += w[j]; }
    for (int i = 0; i < c.n; ++i) {
        mx = std::max(mx, (double)fabsl(x[i].v)); rolls += U * mx * p; roll += rolls / p + U * mx * p;
        if (i < p - 1) continue;
        LD s = 0; for (int j = 0; j < p; ++j) s += x[i-p+1+j].v * w[j];
        NB(); c.put(0, E(s, ex ? 0 : roll * p) / E(wt, 0.0));
    }
}
SPEC(vidya, "avg", "p,p2,r:0:1", I(0) >= 1 && I(1) >= I(0) && I(1) >= 2 && o[2] >= 0 && o[2] <= 1, I(1) - 2, F_PRICEEQ) {
    int s = c.P(0), l = c.P(1); V x = c.X(0), a = rollvar(x, s), b = rollvar(x, l); E v; NB();
    for (int i = l - 2; i < c.n; ++i) {
        if (i == l - 2) v = x[i];
        else {
            E ss = esqrt(a[i]), sl = esqrt(b[i]), k;
            if (s == l) { B z = bor(ss == E(0), sl == E(0)); k = z.amb || z.v ? sel(z, E(0), E(1)) : E(1); if (z.v && !z.amb) k = E(0); }
            else k = zero(ss) ? E(0) : ss / sl;
            k = k * c.O(2);
            v = lerp(v, x[i], k);
        }
        c.put(0, v);
    }
}
SPEC(hma, "avg", "p", I(0) >= 1, I(0) + (int)std::sqrt((double)I(0)) - 2, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0), h = std::max(1, p / 2), q = (int)std::sqrt((double)p); V x = c.X(0), a = wwma(x, p), b = wwma(x, h), d;
    for (int i = p - 1; i < c.n; ++i) d.push_back(E(2) * b[i] - a[i]);
    V r = wwma(d, q); for (int i = q - 1; i < (int)r.size(); ++i) { NB(); c.put(0, r[i]); }
}
SPEC(dwma, "avg", "p", I(0) >= 1, 2 * (I(0) - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V r = wwma(tail(wwma(c.X(0), p), p - 1), p);
    for (int i = p - 1; i < (int)r.size(); ++i) { NB(); c.put(0, r[i]); }
}
SPEC(lma, "avg", "p", I(0) >= 1, (int)(o[0] - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V w = wwma(c.X(0), p), s = wmean(c.X(0), p);
    for (int i = p - 1; i < c.n; ++i) { NB(); c.put(0, E(2) * w[i] - s[i]); }
}
SPEC(shmma, "avg", "p", I(0) >= 1, (int)(o[0] - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    // mean plus 6/(p(p+1)) times the first moment about the window centre
    int p = c.P(0); V x = c.X(0); bool ex = exactable(x, c.n - 1, p); double mx = 0, roll = 0, rolls = 0;
    for (int i = 0; i < c.n; ++i) {
        mx = std::max(mx, (double)fabsl(x[i].v)); rolls += U * mx * p; roll += rolls / p + U * mx * p;
        if (i < p - 1) continue;
        LD T = 0, S = 0; for (int j = 0; j < p; ++j) { T += x[i-j].v; S += (p - (2 * j + 1.0L)) / 2 * x[i-j].v; }
        NB(); c.put(0, E(T, ex ? 0 : roll) / E(p) + E(6 * S, ex ? 0 : 6 * roll * p) / E((double)p * (p + 1)));
    }
}
SPEC(ahma, "avg", "p", I(0) >= 1, 0, F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); V x = c.X(0), a(c.n);
    for (int i = 0; i < c.n; ++i) {
        if (i < p) a[i] = x[i]; else { E q = E(1) / E(p); a[i] = a[i-1] * (E(1) - q / E(2)) + (x[i] - a[i-p] / E(2)) * q; a[i].e = fixe(a[i].e + U * (double)(fabsl(a[i-1].v) + fabsl(a[i-p].v) + fabsl(x[i].v))); }
        NB(); c.put(0, a[i]);
    }
}
static V normw(Ctx& c, const std::vector<LD>& w, double werr = 0) {      // weights: w[0] multiplies the newest bar
    int p = (int)w.size(); V r; LD den = 0, aden = 0; for (LD t : w) { den += t; aden += fabsl(t); }
    for (int i = p - 1; i < c.n; ++i) {
        LD s = 0; double m = 0; for (int j = 0; j < p; ++j) { s += w[j] * c.x(0,i-j); m += (double)fabsl(w[j] * c.x(0,i-j)) + werr * (j + 1) * std::fabs(c.x(0,i-j)); }
        r.push_back(E(s, U * m * 4 + U * m * p) / E(den, U * 4 * (double)aden));
    }
    return r;
}
SPEC(pwma, "avg", "p,r:-2:4", I(0) >= 1, (int)(o[0] - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); std::vector<LD> w(p); for (int j = 0; j < p; ++j) w[j] = powl(p - j, c.o[1]);
    for (auto& v : normw(c, w)) { NB(); c.put(0, v); }
}
SPEC(idwma, "avg", "p,r:1:2", I(0) >= 1 && o[1] >= 1 && o[1] <= 2, (int)(o[0] - 1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); std::vector<LD> w(p); for (int j = 0; j < p; ++j) w[j] = powl(j + 1, -c.o[1]);
    for (auto& v : normw(c, w)) { NB(); c.put(0, v); }
}
SPEC(swma, "avg", "swma", I(0) >= 1 && I(0) % 6 != 0 && (I(0) + 1) % 6 != 0, I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0); std::vector<LD> w(p); for (int j = 0; j < p; ++j) w[j] = sinl((j + 1) * acosl(-1.0L) / 6);
    for (auto& v : normw(c, w, 1)) { NB(); c.put(0, v); }
}
SPEC(hwma, "avg", "i:7:13", I(0) >= 7 && I(0) <= 13, I(0) - 1, F_WINDOW | F_PRICEEQ) {
    // Henderson asymmetric weights, newest bar last
    static const double T[7][13] = {
        {-0.092,-0.058,0.012,0.12,0.244,0.353,0.421}, {-0.043,-0.038,0.002,0.08,0.174,0.254,0.292,0.279},
        {-0.016,-0.025,0.003,0.068,0.149,0.216,0.241,0.216,0.148}, {-0.009,-0.022,0.004,0.066,0.145,0.208,0.23,0.201,0.131,0.046},
        {-0.011,-0.022,0.003,0.067,0.145,0.21,0.235,0.205,0.136,0.05,-0.018}, {-0.017,-0.025,0.001,0.066,0.147,0.213,0.238,0.212,0.144,0.061,-0.006,-0.034},
        {-0.019,-0.028,0,0.066,0.147,0.214,0.24,0.214,0.147,0.066,0,-0.028,-0.019}};
    int p = c.P(0);
    for (int i = p - 1; i < c.n; ++i) {
        NB(); E s = 0; double m = 0; for (int j = 0; j < p; ++j) { s += E(T[p-7][j]) * E(c.x(0,i-p+1+j)); m += std::fabs(c.x(0,i-p+1+j)); }
        c.put(0, loosen(s, U * m));
    }
}
SPEC(t3, "avg", "R,r:0:3", o[0] >= 1 && o[1] >= 0, 0, F_PRICEEQ | F_SHIFTEQ) {
    V x = c.X(0);
    for (int k = 0; k < 3; ++k) { V a = emaR(x, c.o[0]), b = emaR(a, c.o[0]); for (int i = 0; i < c.n; ++i) x[i] = a[i] * (E(1) + c.O(1)) - b[i] * c.O(1); }
    for (auto& v : x) { NB(); c.put(0, v); }
}
SPEC(ehma, "avg", "p", I(0) >= 1, 0, F_PRICEEQ | F_SHIFTEQ) {
    V x = c.X(0); E p = c.P(0); V a = emaR(x, p / E(2)), b = emaR(x, p), d(c.n);
    for (int i = 0; i < c.n; ++i) d[i] = E(2) * a[i] - b[i];
    V r = emaR(d, esqrt(p)); for (auto& v : r) { NB(); c.put(0, v); }
}
