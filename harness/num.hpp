// Running-error arithmetic for the reference models.
//
// E carries a value (long double) and an absolute bound on how far a plausible
// double-precision implementation of the same formula may be from it.  Inputs
// are exact (e = 0); every operation adds its own rounding unless the result is
// exactly representable.  A comparison whose operands overlap within their
// bounds is *ambiguous*: either outcome is legitimate, and whatever depends on
// it gets e = inf, which makes the oracle skip the value instead of guessing.
#pragma once
#include <cmath>
#include <vector>
#include <algorithm>
#include <cstdint>
#include <limits>
typedef long double LD;

extern thread_local bool g_amb;          // an `if` over E was ambiguous since last NB()
inline void NB() { g_amb = false; }

static const double U = 4 * 1.1102230246251565e-16;   // 4 half-ulps
static const double INF = std::numeric_limits<double>::infinity();

struct B {                                 // three-valued boolean
    bool v, amb;
    B(bool v_ = false, bool a = false) : v(v_), amb(a) {}
    operator bool() const { if (amb) g_amb = true; return v; }
};

struct E {
    LD v; double e;
    // Rounding that the value itself does not carry but that appears when the operands it was made of
    // are re-associated into a longer sum, as -ffast-math or a rewritten loop may do: (s + a) - b.
    double h;
    bool s;                                // every term behind h is a short multiple of one quantum: sums stay exact
    E() : v(0), e(0), h(0), s(true) {}
    E(double x) : v(x), e(0), h(0), s(true) {}
    E(int x) : v(x), e(0), h(0), s(true) {}
    E(LD x, double err, double hid = 0, bool soft = false) : v(x), e(err), h(hid), s(soft || hid == 0) {}
    static E unk() { return E(0.0L, INF); }
    double d() const { return (double)v; }
    bool known() const { return e < 1e200 && std::isfinite((double)v); }
};

inline double fixe(double e) { return e == e ? e : INF; }
inline bool rep(LD x) { return (LD)(double)x == x; }
inline double rnd(LD v) { return U * (double)fabsl(v) + 1e-320; }

// Exponent of the lowest set bit.
inline int lowbit(LD x) { int ex; LD m = frexpl(x, &ex); uint64_t k = (uint64_t)(fabsl(m) * 18446744073709551616.0L); return k ? ex - 64 + __builtin_ctzll(k) : 20000; }
// Sums of a few such numbers are exact in double in any order.
inline bool shortsum(LD a, LD b) {
    LD m = fabsl(a) > fabsl(b) ? fabsl(a) : fabsl(b);
    if (m == 0) return true;
    return ilogbl(m) - std::min(lowbit(a), lowbit(b)) <= 42;
}
inline bool pow2(LD x) { int ex; LD m = frexpl(fabsl(x), &ex); return m == 0.5L; }
// ... also when the terms behind their hidden rounding come into it.
inline bool shortsum(const E& a, const E& b) {
    if (a.e != 0 || b.e != 0 || !a.s || !b.s) return false;
    LD m = std::max(std::max(fabsl(a.v), fabsl(b.v)), (LD)std::max(a.h, b.h) / U);
    return m == 0 || ilogbl(m) - std::min(lowbit(a.v), lowbit(b.v)) <= 42;
}
inline E operator-(const E& a) { return E(-a.v, a.e, a.h, a.s); }
inline E operator+(const E& a, const E& b) {
    LD s = a.v + b.v;
    double big = U * (double)(fabsl(a.v) > fabsl(b.v) ? fabsl(a.v) : fabsl(b.v));
    if (shortsum(a, b)) return E(s, 0.0, std::max(big, std::max(a.h, b.h)), true);
    double e = a.e + b.e + a.h + b.h;
    if (a.v == 0 && a.e == 0 && a.h == 0) return b;
    if (b.v == 0 && b.e == 0 && b.h == 0) return a;
    bool exact = e == 0 && rep(s) && s - a.v == b.v && s - b.v == a.v;
    return E(s, fixe(e + (exact ? 0 : rnd(s))), fixe(big));
}
// Set while a market without any price movement is modelled: then x - x leaves nothing to re-associate.
extern thread_local bool g_flat;
inline E operator-(const E& a, const E& b) {
    if (g_flat && a.v == b.v && a.e == 0 && b.e == 0) return E(0);
    return a + (-b);
}
inline E operator*(const E& a, const E& b) {
    LD p = a.v * b.v;
    if ((a.v == 0 && a.e == 0 && a.h == 0 && b.known()) || (b.v == 0 && b.e == 0 && b.h == 0 && a.known())) return E(0);
    if (p == 0 && a.e == 0 && b.e == 0) return E(p, 0.0, (double)fabsl(a.v) * b.h + (double)fabsl(b.v) * a.h, a.s && b.s);
    bool exact = (a.e == 0 && b.e == 0 && rep(p)) || (a.e == 0 && pow2(a.v)) || (b.e == 0 && pow2(b.v));
    double e = 0, h = 0;
    if (b.e != 0) e += (double)fabsl(a.v) * b.e;
    if (a.e != 0) e += (double)fabsl(b.v) * a.e;
    if (a.e != 0 && b.e != 0) e += a.e * b.e;
    if (a.h != 0) h += (double)fabsl(b.v) * a.h;
    if (b.h != 0) h += (double)fabsl(a.v) * b.h;
    return E(p, fixe(e + (exact ? 0 : rnd(p))), fixe(h));
}
inline E operator/(const E& a, const E& b) {
    if (b.v == 0 && b.e == 0) return E(a.v / b.v, INF);
    double bv = (double)fabsl(b.v);
    if (!(b.e * 4 < bv)) return E::unk();
    LD q = a.v / b.v;
    if (q == 0 && a.e == 0) return E(q, 0.0);
    double e = (a.e + (double)fabsl(q) * b.e) / (bv - b.e);
    bool exact = b.e == 0 && pow2(b.v);
    return E(q, fixe(e + (exact ? 0 : rnd(q))), fixe(a.h / bv));
}
inline E& operator+=(E& a, const E& b) { a = a + b; return a; }
inline E& operator-=(E& a, const E& b) { a = a - b; return a; }
inline E& operator*=(E& a, const E& b) { a = a * b; return a; }
inline E& operator/=(E& a, const E& b) { a = a / b; return a; }

inline B cmpres(const E& a, const E& b, bool v) {
    double s = a.e + b.e;
    bool amb = s != 0 && !(fabsl(a.v - b.v) > 2 * s);
    return B(v, amb);
}
inline B operator<(const E& a, const E& b) { return cmpres(a, b, a.v < b.v); }
inline B operator>(const E& a, const E& b) { return cmpres(a, b, a.v > b.v); }
inline B operator<=(const E& a, const E& b) { return cmpres(a, b, a.v <= b.v); }
inline B operator>=(const E& a, const E& b) { return cmpres(a, b, a.v >= b.v); }
inline B operator==(const E& a, const E& b) { return cmpres(a, b, a.v == b.v); }
inline B operator!=(const E& a, const E& b) { return cmpres(a, b, a.v != b.v); }
inline B band(const B& a, const B& b) {
    if ((!a.v && !a.amb) || (!b.v && !b.amb)) return B(false);
    return B(a.v && b.v, a.amb || b.amb);
}
inline B bor(const B& a, const B& b) {
    if ((a.v && !a.amb) || (b.v && !b.amb)) return B(true);
    return B(a.v || b.v, a.amb || b.amb);
}
inline B bnot(const B& a) { return B(!a.v, a.amb); }
inline E sel(const B& c, const E& x, const E& y) {
    if (!c.amb) return c.v ? x : y;
    if (!x.known() || !y.known()) return E::unk();
    E r = c.v ? x : y; const E& o = c.v ? y : x;
    return E(r.v, fixe(std::max(r.e, (double)fabsl(r.v - o.v) + o.e)), std::max(r.h, o.h));
}
inline E emax(const E& a, const E& b) { return E(a.v > b.v ? a.v : b.v, std::max(a.e, b.e), std::max(a.h, b.h), a.s && b.s); }
inline E emin(const E& a, const E& b) { return E(a.v < b.v ? a.v : b.v, std::max(a.e, b.e), std::max(a.h, b.h), a.s && b.s); }
inline E eabs(const E& a) { return E(fabsl(a.v), a.e, a.h, a.s); }
inline E esqrt(const E& a) {
    if (!(a.e < 1e200)) return E::unk();
    if (a.v < 0) { if (-a.v > a.e) return E(sqrtl(a.v), INF); return E(0.0L, std::sqrt(a.e) * 1.5); }
    LD s = sqrtl(a.v);
    if (a.e == 0) return E(s, rep(s) && s * s == a.v ? 0 : rnd(s));
    double hi = (double)(sqrtl(a.v + a.e) - s), lo = (double)(s - sqrtl(a.v > a.e ? a.v - a.e : 0));
    return E(s, std::max(hi, lo) + rnd(s));
}
inline E elog(const E& a) {
    if (!(a.v > 2 * a.e) || !(a.v > 0)) return E::unk();
    LD l = logl(a.v);
    return E(l, 2 * a.e / (double)a.v + rnd(l) + 1e-17);
}
inline E elog10(const E& a) { return elog(a) / elog(E(10)); }
inline E eexp(const E& a) {
    LD x = expl(a.v);
    if (!(a.e < 1)) return E::unk();
    return E(x, (double)x * (std::expm1(a.e) + U * (1 + (double)fabsl(a.v))));
}
inline E esin(const E& a) { LD s = sinl(a.v); return E(s, std::min(2.0, a.e + U * (1 + (double)fabsl(a.v)))); }
inline E ecos(const E& a) { LD s = cosl(a.v); return E(s, std::min(2.0, a.e + U * (1 + (double)fabsl(a.v)))); }
inline E eatan(const E& a) { LD s = atanl(a.v); return E(s, a.e + U * (double)fabsl(s)); }
inline E epow(const E& a, const E& b) {
    if (a.v == 0 && a.e == 0) return E(powl(0, b.v), 0.0);
    if (!(a.v > 2 * a.e)) return E::unk();
    return eexp(b * elog(a));
}
inline E esq(const E& a) { return a * a; }
inline E loosen(const E& a, double abs_e) { return E(a.v, fixe(a.e + abs_e), a.h); }

typedef std::vector<E> V;

// True when every partial sum of the values is exact in double whatever the order.
inline bool exactable(const V& s, int upto, double weight = 1) {
    double m = 0; double tot = 0;
    for (int i = 0; i <= upto; ++i) { if (s[i].e != 0 || !s[i].s || !rep(s[i].v)) return false; double a = std::max((double)fabsl(s[i].v), s[i].h / U); m = std::max(m, a); tot += a; }
    if (m == 0) return true;
    // quantum: 2^-20 of ... values must be multiples of q with tot/q < 2^50
    double q = std::ldexp(1.0, std::ilogb(tot * weight) - 49);
    for (int i = 0; i <= upto; ++i) { double r = (double)s[i].v / q; if (r != std::floor(r)) return false; }
    return true;
}

// Windowed sums of s over [i-p+1, i], with an error bound that also covers implementations
// that keep a running sum since bar 0. Entries i < p-1 hold the sum over [0, i].
inline V wsum(const V& s, int p) {
    int n = (int)s.size(); V r(n);
    if (n == 0) return r;
    LD acc = 0; 
    // exactness per prefix is monotone: find the first non exact prefix lazily
    bool ex_all = exactable(s, n - 1);
    double roll = 0, maxwin = 0, eroll = 0; bool poison = false;
    (void)acc;
    for (int i = 0; i < n; ++i) {
        LD t = 0, ta = 0; double e = 0, h = 0;
        for (int j = std::max(0, i - p + 1); j <= i; ++j) { t += s[j].v; ta += fabsl(s[j].v); e += s[j].e + s[j].h; h = std::max(h, s[j].h); }
        maxwin = std::max(maxwin, (double)ta);
        roll += U * maxwin;
        if (!(s[i].e < 1e200) || !std::isfinite((double)s[i].v)) poison = true;    // a running sum never recovers
        eroll += 2 * s[i].h;
        r[i] = poison ? E::unk() : ex_all ? E(t, 0.0, h, true) : E(t, fixe(e + eroll + roll), h);
    }
    return r;
}
inline V wmean(const V& s, int p) { V r = wsum(s, p); for (auto& x : r) x = x / E(p); return r; }

// a + (b - a) * k, in whichever of its algebraic forms.
inline E lerp(const E& a, const E& b, const E& k) {
    E r = a * (E(1) - k) + b * k;
    if (!shortsum(a, b)) { r.e = fixe(r.e + U * (double)std::max(fabsl(a.v), fabsl(b.v)) + a.h + b.h); }
    return r;
}
// Exponential smoothing seeded with the first element.
inline V ema(const V& s, const E& per) {
    V r(s.size());
    for (size_t i = 0; i < s.size(); ++i) r[i] = i == 0 ? s[0] : lerp(r[i-1], s[i], per);
    return r;
}
inline E per2(int p) { return E(2) / (E(p) + E(1)); }
inline V emap(const V& s, int p) { return ema(s, per2(p)); }
// From index `from` on.
inline V tail(const V& s, int from) { return from >= (int)s.size() ? V() : V(s.begin() + from, s.end()); }
// Wilder smoothing: seeded at p-1 with mean of first p values; entries before are undefined.
inline V wilder(const V& s, int p) {
    V r(s.size());
    E sum = 0; double part = 0;              // the mean may be summed from already divided terms, where even integers round
    for (int i = 0; i < (int)s.size(); ++i) {
        if (i < p) { sum += s[i]; part += U * (double)fabsl(sum.v); if (i == p - 1) { r[i] = sum / E(p); if (!pow2(p)) r[i].e += part / p; } }
        else r[i] = lerp(r[i-1], s[i], E(1) / E(p));
    }
    return r;
}
inline E hh(const V& s, int i, int p) { E r = s[i]; for (int j = i - p + 1; j < i; ++j) r = emax(r, s[j]); return r; }
inline E ll(const V& s, int i, int p) { E r = s[i]; for (int j = i - p + 1; j < i; ++j) r = emin(r, s[j]); return r; }
