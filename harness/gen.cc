// Generators: option vectors from the DSL in the specs, market data in many regimes, chunkings.
#include "engine.hpp"

int gen_period(Rng& r, int lo, int cap) {
    double q = r.f(); int p;
    if (q < .30) p = r.in(lo, lo + 3); else if (q < .78) p = r.in(lo, 20); else if (q < .95) p = r.in(5, 60); else p = r.in(40, 180);
    if (p > cap) p = r.in(lo, cap);
    return std::max(lo, p);
}
static double round_opt(Rng& r, double x) { int k = r.u(4); return k == 0 ? x : k == 1 ? std::round(x * 4) / 4 : k == 2 ? std::round(x * 100) / 100 : std::round(x * 10) / 10; }

static bool gen_once(Rng& r, const Spec& s, Vd& o) {
    o.clear(); std::string d = s.opts;
    if (d.empty()) return true;
    if (d == "kst") {
        int w = r.p(.1) ? 60 : 8, v[4]; v[0] = r.in(1, w); for (int k = 1; k < 4; ++k) v[k] = v[k-1] + r.in(1, w);
        for (int k = 0; k < 4; ++k) o.push_back(v[k]); for (int k = 0; k < 4; ++k) o.push_back(gen_period(r, 1, 40)); return true;
    }
    if (d == "copp") { int a = gen_period(r, 1, 60), b = a + r.u(r.p(.1) ? 150 : 20); o = {(double)a, (double)b, (double)gen_period(r, 1, 40)}; return true; }
    if (d == "ichi") { int a = gen_period(r, 1, 40), b = a + r.u(r.p(.1) ? 120 : 20), c = b + r.u(r.p(.1) ? 120 : 30); o = {(double)a, (double)b, (double)c}; return true; }
    if (d == "swma") { int p; do p = gen_period(r, 1, 180); while (p % 6 == 0 || (p + 1) % 6 == 0); o = {(double)p}; return true; }
    size_t i = 0; bool sameish = r.p(.15);
    while (i <= d.size()) {
        size_t j = d.find(',', i); if (j == std::string::npos) j = d.size();
        std::string t = d.substr(i, j - i); i = j + 1; double a = 0, b = 0;
        double v = 0;
        if (t == "p") v = gen_period(r, 1, 180); else if (t == "p2") v = gen_period(r, 2, 180); else if (t == "p0") v = gen_period(r, 0, 180);
        else if (t == "R") v = r.p(.5) ? gen_period(r, 1, 180) : 1 + round_opt(r, std::fabs(r.f(0, r.p(.5) ? 3 : 40)));
        else if (t == "even") v = 2 * gen_period(r, 1, 60); else if (t == "even40") v = 2 * r.in(1, 20); else if (t == "odd") v = 2 * gen_period(r, 0, 40) + 1;
        else if (t == "psarmax") v = o[0] + round_opt(r, r.f(0.01, r.p(.2) ? 3 : .5)) + .001;
        else if (sscanf(t.c_str(), "r:%lf:%lf", &a, &b) == 2) { v = r.p(.12) ? (r.p(.5) ? a : b) : round_opt(r, r.f(a, b)); v = std::min(b, std::max(a, v)); }
        else if (sscanf(t.c_str(), "i:%lf:%lf", &a, &b) == 2) v = r.in((int)a, (int)b);
        else if (sscanf(t.c_str(), "p:%lf", &a) == 1) v = gen_period(r, 1, (int)a);
        else return false;
        if (sameish && !o.empty() && t == "p") v = o.back();
        o.push_back(v);
        if (j == d.size()) break;
    }
    return true;
}
Vd gen_opts(Rng& r, const Spec& s, bool wild) {
    Vd o;
    for (int k = 0; k < 40; ++k) {
        gen_once(r, s, o);
        if (s.valid(o.data())) break;
        Vd t = o; std::sort(t.begin(), t.end()); if (s.valid(t.data())) { o = t; break; }
        if (t.size() > 1) { std::swap(t[0], t[1]); if (s.valid(t.data())) { o = t; break; } t = o; std::sort(t.begin(), t.end() - 1); if (s.valid(t.data())) { o = t; break; } }
    }
    // now and then a period in the hundreds or past 1024, or (sanitizer build) past the square root of 2^31; a multiple of 6 keeps parities
    if (!o.empty() && !(s.flags & F_SLOW) && s.opts.find("p:") == std::string::npos && r.p(g_san ? .002 : .006)) {
        int j = r.u((int)o.size()); Vd t = o; t[j] += 6 * (g_san ? r.in(7730, 7900) : r.p(.4) ? r.in(10, 170) : r.in(170, 240));
        if (o[j] == std::floor(o[j]) && o[j] >= 1 && s.valid(t.data())) o = t;
    }
    // now and then a fraction on a whole option: what truncates it must do so everywhere, what smooths with it must use all of it
    if (!o.empty() && r.p(.08)) {
        static const double fr[] = {.5, .25, .75, .9, .01, .999};
        for (size_t j = 0; j < o.size(); ++j) if (o[j] == std::floor(o[j]) && o[j] >= 1 && r.p(.6)) {
            Vd t = o; t[j] += fr[r.u(6)]; if (s.valid(t.data()) && s.start(t.data()) >= 0) o = t;
        }
    }
    if (wild && !o.empty()) {
        int m = r.in(1, (int)o.size());
        for (int k = 0; k < m; ++k) {
            int j = r.u((int)o.size());
            switch (r.u(11)) {
                case 0: o[j] = 0; break; case 1: o[j] = -1; break; case 2: o[j] = -r.in(1, 40); break;
                case 3: o[j] = 1; break; case 4: o[j] = 2; break; case 5: o[j] += .5; break; case 6: o[j] = o[j] * r.f(0, 1.5); break;
                case 7: o[j] = r.in(0, 45); break; case 8: o[j] = r.p(.03) ? r.in(3000, 9000) : r.p(.3) ? r.in(200, 3000) : r.in(30, 200); break; case 9: o[j] = .3; break;
                case 10: o[j] = o[r.u((int)o.size())] + r.in(-1, 1); break;
            }
        }
    }
    return o;
}
int gen_size(Rng& r, int start, int cap) {
    double q = r.f(); int n;
    if (q < .08) n = r.in(0, 5); else if (q < .22) n = start + r.in(-1, 3); else if (q < .70) n = start + r.in(2, 60); else n = start + r.in(20, 260);
    if (start > cap / 2 && start < 100000) cap = std::max(cap, start + 40);
    if (cap >= 500 && start < 400 && r.p(g_san ? .001 : .003)) return start + r.in(600, 5000);    // long enough for anything counted in thousands
    return std::max(0, std::min(n, cap));
}
int input_index(Info* info, const char* name) { for (int k = 0; k < info->inputs; ++k) if (!strcmp(info->input_names[k], name)) return k; return -1; }

struct Bar { double o, h, l, c, v; };
static void seg(Rng& r, int reg, int n, std::vector<Bar>& b) {
    double c = b.empty() ? (r.p(.5) ? 100 : r.f(1, 400)) : b.back().c; double step = r.f(.002, .04), dir = r.p(.5) ? 1 : -1; int volk = r.u(5);
    double tick = r.p(.5) ? .25 : .0625; if (reg == 1) c = std::round(c / tick) * tick;
    double hold = c; int per = r.in(1, 9);
    for (int i = 0; i < n; ++i) {
        Bar x; double o = c, nc = c, up = 0, dn = 0;
        switch (reg) {
            case 0: nc = c * (1 + step * r.g()); o = c * (1 + step * .3 * r.g()); up = c * step * .5 * r.f(); dn = c * step * .5 * r.f(); break;
            case 1: { auto tk = [&](int m) { return r.in(-m, m) * tick; }; nc = c + tk(3); o = c + tk(1); up = r.u(3) * tick; dn = r.u(3) * tick; if (nc < 8) { nc += 16; } if (o < 4) o += 8; break; }
            case 2: nc = r.p(.5) ? c : c * (1 + step * r.g()); o = nc; break;
            case 3: nc = c + dir * (r.p(.5) ? .5 : step * 10 * r.f()); if (nc < 1) { nc = 1; } o = c; up = r.p(.5) ? 0 : r.f(); dn = r.p(.5) ? 0 : r.f() * .5; break;
            case 4: nc = hold + ((i / per) % 2 ? step * 40 : -step * 5); o = c; break;
            case 5: if (i % (per * 3) == 0) nc = hold * r.f(.7, 1.4); o = nc; up = r.p(.3) ? .5 : 0; dn = r.p(.3) ? .5 : 0; break;
            case 6: nc = r.p(.06) ? c * r.f(3, 30) : r.p(.06) ? c / r.f(3, 30) : hold * (1 + step * r.g()); o = c; up = nc * .01; dn = nc * .01; break;
            case 7: nc = hold; o = hold; up = r.p(.05) ? 1 : 0; break;
            case 8: nc = r.in(1, 5); o = r.in(1, 5); up = r.u(2); break;
            default: nc = hold * (1 + .2 * std::sin(i * 6.2831853 / (per + 3)) ) * (1 + .01 * step * r.g()); o = c; up = .3 * r.f(); dn = .3 * r.f(); break;
        }
        if (!(nc > 1e-9) || nc > 1e12) nc = 50;
        if (!(o > 1e-9) || o > 1e12) o = nc;
        x.o = o; x.c = nc; x.h = std::max(o, nc) + up; x.l = std::min(o, nc) - dn; if (!(x.l > 0)) x.l = std::min(o, nc);
        switch (volk) { case 0: x.v = r.in(0, 20) * 100; break; case 1: x.v = r.p(.3) ? 0 : std::floor(r.f(1, 1e5)); break; case 2: x.v = 1000; break; case 3: x.v = r.f(1, 1e6); break; default: x.v = r.p(.7) ? 0 : r.in(1, 9); }
        b.push_back(x); c = nc;
    }
}
void gen_data(Rng& r, Info* info, int n, Vvd& in, int regime, bool allow_signed) {
    std::vector<Bar> b; in.clear();
    if (r.p(.65)) seg(r, regime >= 0 ? regime : r.u(10), n, b);
    else while ((int)b.size() < n) seg(r, regime >= 0 ? regime : r.u(10), std::min(n - (int)b.size(), r.in(1, 40)), b);
    if (n > 0 && regime < 0 && r.p(.02)) for (auto& x : b) { double v = x.v; x = b[0]; x.o = x.h = x.l = x.c; x.v = v; }      // no movement at all
    double sc = r.p(.12) ? std::ldexp(1.0, r.in(-30, 30)) : 1;
    bool sgn = allow_signed && regime < 0 && r.p(.2);
    if (r.p(.4)) { sc = sc; } else if (r.p(.3)) for (auto& x : b) { x.o = std::round(x.o * 100) / 100; x.h = std::round(x.h * 100) / 100; x.l = std::round(x.l * 100) / 100; x.c = std::round(x.c * 100) / 100; }
    if (allow_signed && regime < 0 && n > 0) {
        if (r.p(.04)) { double z = b[r.u(n)].c; for (auto& x : b) { x.o -= z; x.h -= z; x.l -= z; x.c -= z; } }            // spreads: bars on both sides of zero
        if (r.p(.02)) for (auto& x : b) { if (r.p(.3)) x.c += (x.h - x.l) * r.f(-2, 2); if (r.p(.3)) x.o += (x.h - x.l) * r.f(-2, 2); }   // faulty quotes
    }
    int hold = r.u(3);
    for (int k = 0; k < info->inputs; ++k) {
        std::string nm = info->input_names[k]; Vd v(n);
        for (int i = 0; i < n; ++i) {
            const Bar& x = b[i];
            if (nm == "open") v[i] = x.o * sc; else if (nm == "high") v[i] = x.h * sc; else if (nm == "low") v[i] = x.l * sc; else if (nm == "close") v[i] = x.c * sc;
            else if (nm == "volume") v[i] = x.v;
            else { v[i] = (k == 0 ? (hold == 0 ? x.h : x.c) : k == 1 ? x.o : x.l) * sc; if (sgn) v[i] -= b[0].c * sc; }
        }
        in.push_back(v);
    }
}
bool ohlc_ok(Info* info, const Vvd& in, int n) {
    int o = input_index(info, "open"), h = input_index(info, "high"), l = input_index(info, "low"), c = input_index(info, "close"), v = input_index(info, "volume");
    for (int i = 0; i < n; ++i) {
        if (h >= 0 && l >= 0 && in[h][i] < in[l][i]) return false;
        for (int k : {o, c}) if (k >= 0) { if (h >= 0 && in[k][i] > in[h][i]) return false; if (l >= 0 && in[k][i] < in[l][i]) return false; }
        for (int k : {o, h, l, c}) if (k >= 0 && !(in[k][i] > 0)) return false;
        if (v >= 0 && !(in[v][i] >= 0)) return false;
    }
    return true;
}
std::vector<int> gen_chunks(Rng& r, int n) {
    std::vector<int> c; int k = r.u(6);
    if (k == 0) { c = {1}; return c; }
    if (k == 1) { c = {r.in(1, std::max(1, n))}; return c; }
    int m = r.in(2, 8); for (int i = 0; i < m; ++i) c.push_back(r.p(.12) ? 0 : k == 2 ? r.in(1, 3) : k == 3 ? r.in(1, 40) : r.in(1, std::max(1, n / 2 + 1)));
    bool any = false; for (int x : c) any |= x > 0; if (!any) c.push_back(1);
    return c;
}
