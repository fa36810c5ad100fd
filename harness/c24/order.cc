#include "common.hpp"
#include "indicators.h"
#include "utils/minmax.h"
#include "utils/nanlast.hh"
// the ordering must be a strict weak one with NaN last; MIN and MAX pick one of the two

Case gen(Rng &r) {
    Case c; c.kind = "order"; int m = r.in(2, 12);
    for (int i = 0; i < m; i++) c.ops.push_back({0, 0, r.p(.25) ? NAN : r.p(.3) ? r.pick<double>({INFINITY, -INFINITY, 0., -0., 1e308, 5e-324}) : r.p(.5) ? r.in(-3, 3) : (r.u() - .5) * 1e6});
    return c;
}
bool nontrivial(const Case &c) { return c.ops.size() >= 3; }
void check(const Case &c) {
    nan_last lt; std::vector<double> v; for (auto &o : c.ops) v.push_back(o.x);
    for (double a : v) for (double b : v) {
        bool want = b != b ? a == a : a < b;
        if (lt(a, b) != want) bad("%.17g before %.17g: %d", a, b, (int)lt(a, b));
        if (a == a && b == b) { double lo = MIN(a, b), hi = MAX(a, b); if (lo != (a < b ? a : b) || hi != (a < b ? b : a)) bad("MIN/MAX of %.17g and %.17g are %.17g and %.17g", a, b, lo, hi); }
        if (a == a && b == b && std::fabs(a) < 1e6 && std::fabs(b) < 1e6) { int i = (int)a, j = (int)b; if (MIN(i + 1, j + 1) * 2 != std::min(i + 1, j + 1) * 2 || MAX(i - 1, j) - 1 != std::max(i - 1, j) - 1) bad("MIN/MAX of expressions"); }
    }
    std::sort(v.begin(), v.end(), lt);
    for (size_t i = 1; i < v.size(); i++) if (v[i - 1] != v[i - 1] ? v[i] == v[i] : v[i - 1] > v[i]) bad("sorted wrongly");
}
