// C09..C17: every output element against the reference model of the indicator.
#include "engine.hpp"

static Out check_values(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data())) return Out::skip();
    int st = s.start(c.o.data());
    Run r = run_fn(info, PLAIN, c.n, c.in, c.o);
    if (r.code != TI_OKAY) return Out::bad(fmt("returned %d for accepted options", r.code));
    if (r.start != st) return Out::bad(fmt("start() is %d, defined start is %d", r.start, st));
    if (!r.bad.empty()) return Out::bad(r.bad);
    std::vector<V> w; if (!model_run(s, c.n, c.in, c.o, w)) return Out::skip();
    int cmp = 0; bool varied = false;
    for (int k = 0; k < info->outputs; ++k) {
        if ((int)w[k].size() != r.m) return Out::bad(fmt("model emits %d values, %d due", (int)w[k].size(), r.m));
        for (int i = 0; i < r.m; ++i) {
            const E& e = w[k][i]; ++g_total; if (!usable(e)) continue; ++g_decided;
            double g = r.out[k][i]; ++cmp; if (i && g != r.out[k][0]) varied = true;
            if (!(std::fabs(g - (double)e.v) <= tol_of(e))) return Out::bad(fmt("output '%s' at bar %d is %.17g, definition gives %.17g (tolerance %.3g)", info->output_names[k], st + i, g, (double)e.v, tol_of(e)));
        }
    }
    return Out::ok(cmp >= 3 && varied);
}
static Case gen_values(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data()));
    c.n = gen_size(r, st, s.flags & F_SLOW ? st + 60 : 1000); gen_data(r, info, c.n, c.in); return c;
}
// Elementwise functions also see magnitudes, signs, halves, domain edges.
static Case gen_math(Rng& r, const Spec& s, Info* info) {
    Case c; c.n = r.in(1, 40); int mode = r.u(8); static const double sp[] = {0, -0.0, .5, -.5, 1, -1, 1.5, -1.5, 2.5, -2.5, .49999999999999994, -.49999999999999994, 4503599627370497.5, 4503599627370495.5, 9007199254740993., 2147483647.5, 2147483648., -2147483649.5, 4294967296.25, 1e15 + .5, -1e15 - .5, 1e18, -1e18, 1e-300, 1e300, 3.14159265358979, 1.5707963267948966, 10, 100, 1000, .1, .001};
    for (int k = 0; k < info->inputs; ++k) {
        Vd v(c.n);
        for (auto& x : v) switch (mode) {
            case 0: x = r.f(-1, 1); break; case 1: x = r.f(0, 700); break; case 2: x = (r.p(.5) ? 1 : -1) * std::exp2(r.f(-40, 40)); break;
            case 3: x = r.in(-20, 20) + (r.p(.5) ? .5 : 0); break; case 4: x = sp[r.u(sizeof sp / sizeof *sp)]; break;
            case 5: x = r.f(-700, 700); break; case 6: x = std::nextafter((double)r.in(-50, 50) + (r.p(.5) ? .5 : 0), r.p(.5) ? 1e9 : -1e9); break;
            default: x = (r.p(.5) ? 1 : -1) * std::exp2(r.f(-300, 300)); break;
        }
        c.in.push_back(v);
    }
    return c;
}
static Out check_math(const Case& c, const Spec& s, Info* info) {
    Run r = run_fn(info, PLAIN, c.n, c.in, c.o);
    if (r.code != TI_OKAY || r.start != 0) return Out::bad(fmt("returned %d, start %d", r.code, r.start));
    if (!r.bad.empty()) return Out::bad(r.bad);
    std::vector<V> w; model_run(s, c.n, c.in, c.o, w); int cmp = 0;
    for (int i = 0; i < c.n; ++i) {
        const E& e = w[0][i]; double g = r.out[0][i], v = (double)e.v;
        // outside the function's domain the answer is NaN, as in the C library
        if (v != v) { if (s.name == "acos" || s.name == "asin" || s.name == "ln" || s.name == "log10" || s.name == "sqrt") { ++cmp; if (g == g) return Out::bad(fmt("%s(%.17g) is %.17g, want NaN", s.name.c_str(), c.in[0][i], g)); } continue; }
        if (!std::isfinite(v)) { if (std::isfinite((double)c.in[0][i]) && s.name != "div" && g != v) return Out::bad(fmt("%s(%.17g) is %.17g, want %g", s.name.c_str(), c.in[0][i], g, v)); continue; }
        if (e.e > 1e200) continue;
        bool exact = s.name == "abs" || s.name == "floor" || s.name == "ceil" || s.name == "trunc" || s.name == "round";
        bool trig = s.name == "sin" || s.name == "cos" || s.name == "tan";
        if (trig && std::fabs(c.in[0][i]) > 1e6) continue;
        double t = exact ? 0 : 2 * e.e + 4e-15 * std::fabs(v) + 1e-300; ++cmp;
        if (std::fabs(v) < 1e-290 && !exact) continue;
        if (!(std::fabs(g - v) <= t)) return Out::bad(info->inputs == 1 ? fmt("%s(%.17g) is %.17g, want %.17g", s.name.c_str(), c.in[0][i], g, v) : fmt("%s(%.17g, %.17g) is %.17g, want %.17g", s.name.c_str(), c.in[0][i], c.in[1][i], g, v));
    }
    return Out::ok(cmp >= 2);
}
static int reg() {
    auto add = [](const char* id, std::vector<std::string> groups, int q) {
        Prop p; p.id = id; p.lib = "rel"; p.quick = q; p.thorough = q * 20;
        p.rule = "random accepted options and market data (walks, tick-quantised, flat, zero-range, monotone, steps, spikes, zero volume, wide magnitudes); non-trivial: at least 3 output values decided by the model and not all equal";
        p.want = [groups](const Spec& s, Info*) { for (auto& g : groups) if (s.group == g) return true; return false; };
        p.gen = gen_values; p.check = check_values; props().push_back(p);
    };
    { Prop p; p.id = "C09"; p.lib = "rel"; p.quick = 500000; p.thorough = 10000000; p.rule = "1-40 elements: unit interval, halves and their neighbours, integers beyond 2^31 and 2^52, log-uniform magnitudes; non-trivial: at least 2 elements inside the function's domain compared";
      p.want = [](const Spec& s, Info*) { return s.group == "math"; }; p.gen = gen_math; p.check = check_math; props().push_back(p); }
    add("C10", {"price", "avg"}, 100000); add("C11", {"dsp"}, 50000); add("C12", {"momentum"}, 100000); add("C13", {"volume"}, 200000);
    add("C14", {"range"}, 200000); add("C15", {"dir"}, 250000); add("C16", {"stat"}, 250000); add("C17", {"extreme"}, 250000);
    return 0;
}
static int reg_ = reg();
