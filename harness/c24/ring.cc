#include "common.hpp"
#include "utils/ringbuf.hh"
// model: v[i] is the value i steps ago; a step brings the oldest slot to the front

enum { SET, STEP, SETAT, MAXP, MINP, RESIZE, NOPS };

static double value(Rng &r, int mode) {
    switch (mode) { case 0: return r.in(0, 3); case 1: return r.in(-9, 9); case 2: return (r.u() - .5) * std::pow(10., r.in(-6, 9)); default: return r.p(.2) ? r.pick<double>({0., -0., 1e300, -1e300, INFINITY, -INFINITY}) : r.in(-5, 5); }
}
static const int SIZES[] = {1, 2, 3, 4, 5, 7, 8, 13, 64};

Case gen(Rng &r) {
    Case c; int n;
    if (r.p(.5)) { c.kind = "fixed"; n = SIZES[r.in(0, 8)]; c.par = {n}; }
    else if (r.p(.7)) { c.kind = "heap"; n = r.p(.7) ? r.in(1, 9) : r.in(10, 90); c.par = {n}; }
    else { c.kind = "several"; n = 3; c.par = {r.in(1, 9)}; }
    int mode = r.in(0, 3), m = r.in(1, r.p(.8) ? 4 * n + 8 : 300); bool regular = r.p(.6);
    for (int i = 0; i < m; i++) {
        if (regular) c.ops.push_back({STEP, 0, 0}), c.ops.push_back({SET, 0, value(r, mode)});
        else c.ops.push_back({r.in(0, 2), r.in(0, 1000), value(r, mode)});
        if (r.p(.4)) c.ops.push_back({r.p(.5) ? MAXP : MINP, r.in(0, 1000), 0});
        if (c.kind == "heap" && r.p(.01)) c.ops.push_back({RESIZE, r.in(0, 40), 0});
    }
    return c;
}
bool nontrivial(const Case &c) {
    int steps = 0, looks = 0, n = c.kind == "several" ? 3 : c.par[0];
    for (auto &o : c.ops) { steps += o.op == STEP; looks += o.op == MAXP || o.op == MINP; }
    return steps > n && looks;
}


template <class R> void see(R &r, const std::vector<double> &v) {
    int n = (int)v.size(); const R &k = r;
    if (!same((double)r, v[0])) bad("current value is %.17g, %.17g was stored", (double)r, v[0]);
    for (int i = 0; i < n; i++) if (!same(k[i], v[i])) bad("value %d steps ago is %.17g, not %.17g", i, k[i], v[i]);
    if (r.phend() - r.phbegin() != n) bad("the physical range has %d elements, not %d", (int)(r.phend() - r.phbegin()), n);
    std::vector<int> seen(n);
    for (auto *p = r.phbegin(); p != r.phend(); ++p) {
        int a = r.iterator_to_age(p);
        if (a < 0 || a >= n || seen[a]++) bad("age %d of a physical element out of range or twice", a);
        if (!same(*p, v[a])) bad("the physical element of age %d holds %.17g, not %.17g", a, *p, v[a]);
    }
}
template <class R> void look(R &r, const std::vector<double> &v, int per, bool max) {
    auto *p = max ? r.find_max(per) : r.find_min(per);
    if (p < r.phbegin() || p >= r.phend()) bad("find_%s(%d) points outside", max ? "max" : "min", per);
    int a = r.iterator_to_age(p);
    double want = max ? *std::max_element(v.begin(), v.begin() + per) : *std::min_element(v.begin(), v.begin() + per);
    if (a < 0 || a >= per) bad("find_%s(%d) gives an element %d steps old", max ? "max" : "min", per, a);
    if (!(*p == want)) bad("find_%s(%d) gives %.17g, not %.17g", max ? "max" : "min", per, *p, want);
}
static void rot(std::vector<double> &v) { std::rotate(v.rbegin(), v.rbegin() + 1, v.rend()); }

template <int N> void fixed(const Case &c) {
    ringbuf<N> r; std::vector<double> v(N); see(r, v);
    for (auto &o : c.ops) {
        switch (o.op) {
            case SET: r = o.x; v[0] = o.x; break;
            case STEP: if (o.a & 1) r.step(); else step(r); rot(v); break;
            case SETAT: r[o.a % N] = o.x; v[o.a % N] = o.x; break;
            case MAXP: look(r, v, 1 + o.a % N, true); break;
            case MINP: look(r, v, 1 + o.a % N, false); break;
        }
        see(r, v);
    }
}
static void heap(const Case &c) {
    int n = c.par[0]; ringbuf<0> r; 
    if (n & 1) r.resize(n); else { ringbuf<0> t(n); r = std::move(t); }
    std::vector<double> v(n); see(r, v);
    for (auto &o : c.ops) {
        n = (int)v.size();
        switch (o.op) {
            case SET: r = o.x; v[0] = o.x; break;
            case STEP: if (o.a & 1) r.step(); else step(r); rot(v); break;
            case MAXP: look(r, v, 1 + o.a % n, true); break;
            case MINP: look(r, v, 1 + o.a % n, false); break;
            case RESIZE: r.resize(1 + o.a); v.assign(1 + o.a, 0); break;
        }
        see(r, v);
    }
}
static void several(const Case &c) {
    ringbuf<3> a; ringbuf<2> b; ringbuf<0> d(c.par[0]); ringbuf<1> e; std::vector<double> A(3), B(2), D(c.par[0]), E(1);
    for (auto &o : c.ops) {
        switch (o.op) {
            case SET: a = o.x; A[0] = o.x; b = o.x + 1; B[0] = o.x + 1; d = o.x + 2; D[0] = o.x + 2; e = o.x + 3; E[0] = o.x + 3; break;
            case STEP: switch (o.a % 4) {
                case 0: step(a, b, d, e); rot(A); rot(B); rot(D); break;
                case 1: step(d, a); rot(A); rot(D); break;
                case 2: step(b, d, a); rot(A); rot(B); rot(D); break;
                case 3: step(e, b); rot(B); break; } break;
        }
        see(a, A); see(b, B); see(d, D); see(e, E);
    }
}
void check(const Case &c) {
    if (c.kind == "heap") return heap(c);
    if (c.kind == "several") return several(c);
    switch (c.par[0]) {
        case 1: return fixed<1>(c); case 2: return fixed<2>(c); case 3: return fixed<3>(c); case 4: return fixed<4>(c); case 5: return fixed<5>(c);
        case 7: return fixed<7>(c); case 8: return fixed<8>(c); case 13: return fixed<13>(c); case 64: return fixed<64>(c);
    }
}
