// Reference models: recursive filters, robust filters, cycle measurement, adaptive averages.
#include "spec.hpp"
#include "dsp_tables.inc"

thread_local bool g_amb = false, g_flat = false;
std::map<std::string, Spec>& specs() { static std::map<std::string, Spec> m; return m; }

static const LD PIL = 3.14159265358979323846264338327950288L;
static inline B zero(const E& a) { return a == E(0); }

// Error of a linear recursion y = sum A_k y[-k] + ...: convolve the per-step errors with |impulse response|.
static std::vector<double> efeed(const std::vector<double>& r, const std::vector<LD>& A) {
    int n = (int)r.size(); std::vector<LD> h; LD mx = 1;
    for (int k = 0; k < n; ++k) {
        LD v = k == 0 ? 1 : 0;
        for (size_t j = 1; j <= A.size() && (int)j <= k; ++j) v += A[j-1] * h[k-j];
        h.push_back(v); mx = std::max(mx, fabsl(v));
        if (k > 8) { LD t = 0; for (size_t j = 0; j < A.size(); ++j) t = std::max(t, fabsl(h[k-j])); if (t < 1e-25L * mx) break; }
    }
    std::vector<double> e(n);
    for (int i = 0; i < n; ++i) { LD s = 0; for (int k = 0; k < (int)h.size() && k <= i; ++k) s += fabsl(h[k]) * r[i-k]; e[i] = fixe((double)s); }
    return e;
}
// y_i = sum_k B_k x_{i-k} + sum_k A_k y_{i-k}, zero before `from`; the first `copy` outputs equal x.
static V linfilt(const V& x, const std::vector<LD>& Bc, const std::vector<LD>& A, int copy = 0) {
    int n = (int)x.size(); V y(n); std::vector<double> r(n);
    for (int i = 0; i < n; ++i) {
        if (i < copy) { y[i] = x[i]; r[i] = x[i].e; continue; }
        LD s = 0; double m = 0, ex = 0;
        for (size_t k = 0; k < Bc.size() && (int)k <= i; ++k) { s += Bc[k] * x[i-k].v; m += (double)fabsl(Bc[k] * x[i-k].v); ex += (double)fabsl(Bc[k]) * x[i-k].e; }
        for (size_t k = 1; k <= A.size() && (int)k <= i; ++k) { s += A[k-1] * y[i-k].v; m += (double)fabsl(A[k-1] * y[i-k].v); }
        y[i] = E(s, 0.0); r[i] = ex + 3 * U * m;
    }
    auto e = efeed(r, A); for (int i = 0; i < n; ++i) y[i].e = e[i];
    return y;
}
static void emit(Ctx& c, const V& y, int from = 0, int k = 0) { for (int i = from; i < (int)y.size(); ++i) { NB(); c.put(k, y[i]); } }

static const LD SS_A1 = expl(-1.414L * 3.14159L / 10), SS_C2 = 2 * SS_A1 * cosl(1.414L * 3.14159L / 10), SS_C3 = -SS_A1 * SS_A1, SS_C1 = 1 - SS_C2 - SS_C3;
static V supersmooth(const V& x) { return linfilt(x, {SS_C1 / 2, SS_C1 / 2}, {SS_C2, SS_C3}); }
SPEC(ssmooth, "dsp", "", true, 0, F_PRICEEQ) { emit(c, supersmooth(c.X(0))); }
SPEC(roof, "dsp", "", true, 0, F_PRICEEQ) {
    LD t = .707L * 2 * 3.14159L / 48, a = (cosl(t) + sinl(t) - 1) / cosl(t), g = (1 - a / 2) * (1 - a / 2);
    emit(c, supersmooth(linfilt(c.X(0), {g, -2 * g, g}, {2 * (1 - a), -(1 - a) * (1 - a)})));
}
SPEC(lf, "dsp", "r:0:0.99", o[0] >= 0, 0, F_PRICEEQ) {
    E g = c.O(0), a = 0, b = 0, d = 0, f = 0;
    for (int i = 0; i < c.n; ++i) {
        E na = (E(1) - g) * E(c.x(0,i)) + g * a, nb = -g * na + a + g * b, nd = -g * nb + b + g * d, nf = -g * nd + d + g * f;
        a = na; b = nb; d = nd; f = nf;
        NB(); c.put(0, (a + E(2) * b + E(2) * d + f) / E(6));
    }
}
SPEC(rema, "dsp", "R,r:0:20", o[0] >= 1 && o[1] >= 0, 0, F_PRICEEQ | F_SHIFTEQ) {
    V x = c.X(0), y(c.n); std::vector<double> r(c.n); LD al = 2 / (1 + (LD)c.o[0]), la = c.o[1];
    for (int i = 0; i < c.n; ++i) {
        if (i == 0) y[i] = x[0];
        else if (i == 1) { y[i] = E((x[1].v - y[0].v) * al + y[0].v, 0.0); r[i] = U * 4 * (double)(fabsl(x[1].v) + fabsl(y[0].v)); }
        else {
            y[i] = E((y[i-1].v * (1 + 2 * la) + al * (x[i].v - y[i-1].v) - la * y[i-2].v) / (1 + la), 0.0);
            r[i] = U * 4 * (double)((fabsl(y[i-1].v) * (1 + 2 * la) + fabsl(x[i].v) + fabsl(y[i-1].v) + la * fabsl(y[i-2].v)) / (1 + la));
        }
    }
    auto e = efeed(r, {(1 + 2 * la - al) / (1 + la), -la / (1 + la)}); for (int i = 0; i < c.n; ++i) y[i].e = e[i];
    emit(c, y);
}
#define GFV I(0) >= 1 && I(0) % 2 == 0 && I(0) <= 40
static void gauss(Ctx& c, LD b0, std::vector<LD> a, int copy = 0) {
    LD s = b0; for (LD t : a) s += t; for (LD& t : a) t /= s;
    emit(c, linfilt(c.X(0), {b0 / s}, a, copy));
}
SPEC(gf1, "dsp", "even40", GFV, 0, F_PRICEEQ) { int k = c.P(0) / 2 - 1; gauss(c, gf1_B0[k], {gf1_A1[k]}); }
SPEC(gf2, "dsp", "even40", GFV, 0, F_PRICEEQ) { int k = c.P(0) / 2 - 1; gauss(c, gf2_B0[k], {gf2_A1[k], gf2_A2[k]}); }
SPEC(gf3, "dsp", "even40", GFV, 0, F_PRICEEQ) { int k = c.P(0) / 2 - 1; gauss(c, gf3_B0[k], {gf3_A1[k], gf3_A2[k], gf3_A3[k]}); }
SPEC(gf4, "dsp", "even40", GFV, 0, F_PRICEEQ) { int k = c.P(0) / 2 - 1; gauss(c, gf4_B0[k], {gf4_A1[k], gf4_A2[k], gf4_A3[k], gf4_A4[k]}, 5); }
SPEC(bf2, "dsp", "even40", GFV, (int)std::ceil(2 * o[0] / (3.1415 * 3.1415)), F_PRICEEQ) {
    int k = c.P(0) / 2 - 1; emit(c, linfilt(c.X(0), {bf2_B0[k], bf2_B1[k], bf2_B2[k]}, {bf2_A1[k], bf2_A2[k]}), c.start);
}
SPEC(bf3, "dsp", "even40", GFV, (int)std::ceil(3 * o[0] / (3.1415 * 3.1415)), F_PRICEEQ) {
    int k = c.P(0) / 2 - 1; emit(c, linfilt(c.X(0), {bf3_B0[k], bf3_B1[k], bf3_B2[k], bf3_B3[k]}, {bf3_A1[k], bf3_A2[k], bf3_A3[k]}), c.start);
}
SPEC(edcf, "dsp", "p:12", o[0] >= 1, 2 * I(0) - 1, F_WINDOW | F_PRICEEQ | F_SHIFTEQ | F_SLOW) {
    int L = c.P(0); V x = c.X(0);
    for (int i = 2 * L - 1; i < c.n; ++i) {
        NB(); E num = 0, den = 0; double m = 0;
        for (int k = 0; k < L; ++k) {
            E d = 0; for (int j = 1; j < L; ++j) d += esq(x[i-k] - x[i-k-j]);
            num += d * x[i-k]; den += d; m = std::max(m, (double)fabsl(x[i-k].v));
        }
        c.put(0, den.v == 0 ? E(0) : num / den);
    }
}
SPEC(rmf, "dsp", "R,odd", o[0] >= 1 && o[1] >= 1 && I(1) % 2 == 1, (int)(o[1] - 1), F_PRICEEQ) {
    int p = c.P(1); E w = E(2 * PIL, U * 7) / c.O(0), al = (ecos(w) + esin(w) - E(1)) / ecos(w), f;
    for (int i = p - 1; i < c.n; ++i) {
        std::vector<double> a; for (int j = i - p + 1; j <= i; ++j) a.push_back(c.x(0,j));
        std::sort(a.begin(), a.end()); E m = a[p/2];
        f = i == p - 1 ? m : lerp(f, m, al);
        NB(); c.put(0, f);
    }
}
// Hampel identifier over the last 2k+1 values; `cand` bars back is the value under test.
static E hampel(const V& x, int i, int k, int cand, double thr, bool strict) {
    std::vector<LD> a, d; double e = 0;
    for (int j = i - 2 * k; j <= i; ++j) { a.push_back(x[j].v); e = std::max(e, x[j].e); }
    std::sort(a.begin(), a.end()); E med(a[k], e);
    for (LD t : a) d.push_back(fabsl(t - a[k]));
    std::sort(d.begin(), d.end());
    E mad = E(d[k], 2 * e + (e ? 0 : rnd(d[k]))), x0 = x[i-cand], dev = eabs(x0 - med);
    // identical values are within the band or equal to the median: same answer
    E lim = E(thr) * E(1.4826) * mad;
    B in = strict ? dev < lim : dev <= lim;
    if (x0.v == med.v) return E(med.v, e);
    return sel(in, x0, med);
}
SPEC(hf, "dsp", "p:20,r:0:12", I(0) >= 1 && o[1] >= 0, 2 * I(0), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    V x = c.X(0); for (int i = c.start; i < c.n; ++i) { NB(); c.put(0, hampel(x, i, c.P(0), 0, c.o[1], true)); }
}
SPEC(hfema, "dsp", "p,p:20,r:0:12", I(0) >= 1 && I(1) >= 1 && o[2] >= 0, 2 * I(1), F_PRICEEQ | F_SHIFTEQ) {
    V y = emap(c.X(0), c.P(0)); int k = c.P(1); for (int i = 2 * k; i < c.n; ++i) { NB(); c.put(0, hampel(y, i, k, k, c.o[2], false)); }
}
SPEC(hfsma, "dsp", "p,p:20,r:0:12", I(0) >= 1 && I(1) >= 1 && o[2] >= 0, I(0) - 1 + 2 * I(1), F_WINDOW | F_PRICEEQ | F_SHIFTEQ) {
    V y = wmean(c.X(0), c.P(0)); int k = c.P(1); for (int i = c.start; i < c.n; ++i) { NB(); c.put(0, hampel(y, i, k, k, c.o[2], false)); }
}
SPEC(hurst, "stat", "p2", o[0] >= 2, (int)o[0], F_WINDOW | F_PRICEINV) {
    int p = c.P(0); V r; for (int i = 1; i < c.n; ++i) r.push_back(c.x(0,i) != 0 && c.x(0,i-1) != 0 ? (c.x(0,i) == c.x(0,i-1) ? E(0) : elog(E(c.x(0,i)) / E(c.x(0,i-1)))) : E(0));
    V s = wsum(r, p);
    for (int i = p; i < c.n; ++i) {
        NB(); E m = s[i-1] / E(p), cum = 0, var = 0, hi(-INFINITY), lo(INFINITY); 
        hi = E(-1e300L, 0.0); lo = E(1e300L, 0.0);
        for (int j = 0; j < p; ++j) {
            E d = r[i-1-j] - m; cum += d; hi = emax(hi, cum); lo = emin(lo, cum); var += d * d;
        }
        E R = hi - lo, S = esqrt(var / E(p)), H = zero(R) ? E(0) : elog(R / S) / elog(E(p));
        c.put(0, H); c.put(1, E(2) - H);
    }
}
// Homodyne discriminator. Its feedback through a measured period defeats worst-case error bounds, so the
// bound is estimated instead: the same recurrence is evaluated in long double and in several replicas
// whose every operation is perturbed at random by about an ulp of double, and the spread (times 64) is
// the error allowed. A branch decided by rounding noise shows as a large spread and is not judged.
static thread_local uint64_t q_rng; static thread_local bool q_noise;
static inline LD jit(LD v) {
    if (!q_noise) return v;
    q_rng ^= q_rng << 13; q_rng ^= q_rng >> 7; q_rng ^= q_rng << 17;
    return v * (1 + ((LD)(int64_t)q_rng / 9223372036854775808.0L) * 2.3e-16L);
}
struct Q { LD v; Q(LD x = 0) : v(x) {} };
static inline Q operator+(Q a, Q b) { return Q(jit(a.v + b.v)); }
static inline Q operator-(Q a, Q b) { return Q(jit(a.v - b.v)); }
static inline Q operator*(Q a, Q b) { return Q(jit(a.v * b.v)); }
static inline Q operator/(Q a, Q b) { return Q(jit(a.v / b.v)); }
static inline Q qmin(Q a, Q b) { return a.v < b.v ? a : b; }
static inline Q qmax(Q a, Q b) { return a.v > b.v ? a : b; }
struct Cycle {
    const Ctx& c; LD scale; typedef std::vector<Q> W; W Sm, De, I1, Q1, I2, Q2, Re, Im, Pe, SP;
    Cycle(const Ctx& c_, LD s) : c(c_), scale(s) {}
    // a quantity whose sign or relative size steers the recurrence, as something whose spread shows it
    static LD edge(Q q) { return q.v == 0 ? 0 : (q.v > 0 ? 1000 : -1000) + logl(fabsl(q.v)); }
    void watch(std::vector<std::vector<LD>>& r, size_t k) { r[k].push_back(Pe.back().v); r[k+1].push_back(edge(Re.back())); r[k+2].push_back(edge(Im.back())); }
    static Q at(const W& v, int k) { int n = (int)v.size(); return n - 1 - k < 0 ? Q(0) : v[n-1-k]; }
    void step(int i) {
        auto X = [&](int j) { return Q(c.x(0,j)); };
        auto fir = [&](const W& v) { return Q(.0962) * at(v,0) + Q(.5769) * at(v,2) - Q(.5769) * at(v,4) - Q(.0962) * at(v,6); };
        Q adj = Q(.075) * at(Pe,0) + Q(.54);
        Sm.push_back((Q(4) * X(i) + Q(3) * X(i-1) + Q(2) * X(i-2) + X(i-3)) / Q(10));
        De.push_back(fir(Sm) * adj);
        Q1.push_back(fir(De) * adj); I1.push_back(at(De, 3));
        Q jI = fir(I1) * adj, jQ = fir(Q1) * adj;
        Q i2 = at(I1,0) - jQ, q2 = at(Q1,0) + jI;
        Q pi = at(I2,0), pq = at(Q2,0);
        I2.push_back(Q(.2) * i2 + Q(.8) * pi); Q2.push_back(Q(.2) * q2 + Q(.8) * pq);
        Q re = at(I2,0) * pi + at(Q2,0) * pq, im = at(I2,0) * pq - at(Q2,0) * pi;
        Re.push_back(Q(.2) * re + Q(.8) * at(Re,0)); Im.push_back(Q(.2) * im + Q(.8) * at(Im,0));
        Q R = at(Re,0), M = at(Im,0), keep = at(Pe,1), p1 = at(Pe,0);
        Q p = M.v != 0 && R.v != 0 ? Q(scale) / Q(jit(atanl((M / R).v))) : keep;
        p = qmin(p, Q(1.5) * p1); p = qmax(p, Q(.67) * p1); p = qmax(p, Q(6)); p = qmin(p, Q(50));
        p = Q(.2) * p + Q(.8) * p1;
        Pe.push_back(p); SP.push_back(Q(.33) * p + Q(.67) * at(SP,0));
    }
};
// f fills one vector per output, then one per internal quantity to watch. Once any of them is in the
// hands of rounding noise nothing later is judged.
static void replicate(Ctx& c, int watch, std::function<void(std::vector<std::vector<LD>>&)> f) {
    size_t no = c.out.size(), nt = no + watch; std::vector<std::vector<LD>> base(nt); q_noise = false; f(base);
    size_t n = base[0].size(); std::vector<std::vector<double>> sp(nt, std::vector<double>(n, 0));
    q_noise = true; q_rng = 0x9e3779b97f4a7c15ULL;
    for (int rep = 0; rep < 9; ++rep) {
        std::vector<std::vector<LD>> r(nt); f(r);
        for (size_t k = 0; k < nt; ++k) for (size_t i = 0; i < n; ++i) { double d = (double)fabsl(r[k][i] - base[k][i]); sp[k][i] = d == d ? std::max(sp[k][i], d) : INF; }
    }
    q_noise = false; bool lost = false; std::vector<double> run(nt, 0);
    for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; k < nt; ++k) {
            run[k] = std::max(sp[k][i], run[k] * .7);       // a lucky agreement of the replicas does not reset it
            if (!(run[k] <= 1e-5 * (1e-3 + fabsl(base[k][i])))) { if (k >= no || run[k] > 1e-3) lost = true; }
        }
        for (size_t k = 0; k < no; ++k) { NB(); c.put((int)k, lost ? E::unk() : E(base[k][i], run[k] * 16)); }
    }
}
SPEC(hd, "dsp", "", true, 5, F_PRICEINV) {
    replicate(c, 3, [&](std::vector<std::vector<LD>>& r) { Cycle k(c, 2 * PIL); for (int i = 5; i < c.n; ++i) { k.step(i); r[0].push_back(k.SP.back().v); k.watch(r, 1); } });
}
SPEC(arsi, "dsp", "r:0.02:5", o[0] > 0, 5, F_PRICEINV) {
    replicate(c, 4, [&](std::vector<std::vector<LD>>& r) {
        Cycle k(c, 2 * PIL);
        for (int i = 5; i < c.n; ++i) {
            k.step(i); int m = (int)(Q(c.o[0]) * k.SP.back()).v; Q cu = 0, cd = 0;
            for (int j = 0; j < m && j < i; ++j) { LD d = (LD)c.x(0,i-j) - (LD)c.x(0,i-j-1); if (d > 0) cu = cu + Q(d); else cd = cd - Q(d); }
            LD s = cu.v + cd.v; r[1].push_back(m); k.watch(r, 2); r[0].push_back(s == 0 ? 0 : jit(100 * cu.v / s));
        }
    });
}
SPEC(mama, "dsp", "r:0:1,r:0:1", o[0] >= 0 && o[0] <= 1 && o[1] >= 0 && o[1] <= 1, 6, F_PRICEEQ) {
    replicate(c, 5, [&](std::vector<std::vector<LD>>& r) {
        Cycle k(c, 360); Q m = 0, f = 0, ph = 0;
        for (int i = 6; i < c.n; ++i) {
            k.step(i);
            Q I1 = k.I1.back(), np = I1.v != 0 ? Q(jit(atanl((k.Q1.back() / I1).v))) : Q(0);
            Q dp = qmax(Q(1), ph - np), al = qmax(Q(c.o[1]), Q(c.o[0]) / dp); ph = np;
            m = al * Q(c.x(0,i)) + (Q(1) - al) * m; f = Q(.5) * al * m + (Q(1) - Q(.5) * al) * f;
            r[0].push_back(m.v); r[1].push_back(f.v); r[2].push_back(np.v); r[3].push_back(Cycle::edge(I1)); k.watch(r, 4);
        }
    });
}
SPEC(mesastoch, "dsp", "p,i:2:80", I(0) >= 1 && I(1) >= 1, I(0) + 2, F_PRICEINV | F_SHIFTINV) {
    int p = c.P(0), mcc = c.P(1); const LD R = 3.141592L / 180;
    LD t = .707L * 360 / mcc * R, a = (cosl(t) + sinl(t) - 1) / cosl(t), g = (1 - a / 2) * (1 - a / 2);
    LD a1 = expl(-1.414L * 3.141459L / 10), c2 = 2 * a1 * cosl(1.414L * 180 / 10 * R), c3 = -a1 * a1, c1 = 1 - c2 - c3;
    V u; for (int i = 2; i < c.n; ++i) u.push_back(E(c.x(0,i)) - E(2) * E(c.x(0,i-1)) + E(c.x(0,i-2)));
    // second differences cancel: charge the magnitude of their terms
    for (int i = 2; i < c.n; ++i) u[i-2].e += u[i-2].e == 0 ? 0 : U * (std::fabs(c.x(0,i)) + 2 * std::fabs(c.x(0,i-1)) + std::fabs(c.x(0,i-2)));
    V hp = linfilt(u, {g}, {2 * (1 - a), -(1 - a) * (1 - a)}), f = linfilt(hp, {c1 / 2, c1 / 2}, {c2, c3}), st;
    double worst = 1 + 1e-12; (void)worst;
    for (int i = p; i < (int)f.size(); ++i) {
        E H = hh(f, i, p), L = ll(f, i, p), s;
        if (p == 1) s = E(0);
        else s = (f[i] - L) / (H - L);
        if (H.v == L.v) { bool ex = true; for (int j = i - p + 1; j <= i; ++j) ex &= f[j].e < 1e-300; s = ex ? E(0) : E(0.0L, 1.0); }
        if (!(s.e < 1)) s = E(std::isfinite((double)s.v) ? s.v : 0.0L, 1.0);
        st.push_back(s);
    }
    emit(c, linfilt(st, {c1 / 2, c1 / 2}, {c2, c3}));
}
SPEC(frama, "dsp", "even,r:2:120", o[0] >= 1 && o[1] >= 2 && I(0) % 2 == 0, 0, F_PRICEEQ | F_SHIFTEQ) {
    int p = c.P(0), h = p / 2; V H = c.X(0), L = c.X(1); E f; LD w = logl(2 / (1 + (LD)c.o[1]));
    for (int i = 0; i < c.n; ++i) {
        E mid = (H[i] + L[i]) / E(2); NB();
        if (i < p) { f = mid; c.put(0, f); continue; }
        E n3 = (hh(H, i, p) - ll(L, i, p)) / E(p), n1 = (hh(H, i, h) - ll(L, i, h)) / E(h), n2 = (hh(H, i - h, h) - ll(L, i - h, h)) / E(h);
        E dim = 0; if (n1.v > 0 && n2.v > 0 && n3.v > 0) dim = (elog(n1 + n2) - elog(n3)) / E(logl(2.0L), 1e-17);
        E al = eexp(E(w, U * (double)fabsl(w)) * (dim - E(1)));
        al = emin(emax(al, E(.01)), E(1));
        f = lerp(f, mid, al); c.put(0, f);
    }
}
SPEC(mgdyn, "avg", "r:0.5:90", true, 0, F_PRICEEQ) {
    replicate(c, 0, [&](std::vector<std::vector<LD>>& r) {
        Q f, N = c.o[0];
        for (int i = 0; i < c.n; ++i) {
            Q x = c.x(0,i);
            if (i == 0) f = x; else { Q q = x / f; f = f + (x - f) / (N * q * q * q * q); }
            r[0].push_back(f.v);
        }
    });
}
