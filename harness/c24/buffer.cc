#include "common.hpp"
#include "indicators.h"
#include "utils/buffer.h"
// model: the list of the values pushed

Case gen(Rng &r) {
    Case c; c.kind = r.p(.75) ? "sum" : "quick"; int n = r.p(.7) ? r.in(1, 8) : r.in(9, 120); c.par = {n};
    int mode = r.in(0, 3), m = r.in(1, r.p(.8) ? 4 * n + 8 : 400), zeros = 0;
    for (int i = 0; i < m; i++) {
        double x = mode == 0 ? r.in(0, 3) : mode == 1 ? r.in(-1000, 1000) : mode == 2 ? r.u() * 100 : (r.u() - .5) * std::pow(10., r.in(-9, 9));
        if (r.p(.03)) zeros = r.in(1, 2 * n);
        if (zeros) x = 0, zeros--;
        c.ops.push_back({0, 0, x});
    }
    return c;
}
bool nontrivial(const Case &c) { return (int)c.ops.size() > c.par[0] && c.par[0] > 1; }

void check(const Case &c) {
    int n = c.par[0]; ti_buffer *b = ti_buffer_new(n); if (!b) bad("no buffer");
    std::vector<double> v; long double err = 0, mx = 0; bool ints = true; std::string f;
    try {
        for (auto &o : c.ops) {
            double x = o.x; v.push_back(x); ints = ints && x == std::floor(x) && std::fabs(x) < 1e6;
            if (c.kind == "sum") ti_buffer_push(b, x); else ti_buffer_qpush(b, x);
            int k = std::min<int>(n, v.size()); long double s = 0, ab = 0; bool zero = true;
            for (int i = 0; i < k; i++) { double y = v[v.size() - 1 - i]; s += y; ab += std::fabs(y); zero = zero && y == 0; double g = ti_buffer_get(b, -i); if (!same(g, y)) bad("after %zu pushes get(%d) is %.17g, not %.17g", v.size(), -i, g, y); }
            if (c.kind == "quick") continue;
            mx = std::max(mx, ab + std::fabs((double)x)); err += 4 * mx * 0x1p-53L;
            if (ints && (double)s != b->sum) bad("after %zu pushes the sum of whole numbers is %.17g, not %.17Lg", v.size(), b->sum, s);
            if (std::fabs((double)(b->sum - s)) > (double)err) bad("after %zu pushes the sum is %.17g, not %.17Lg", v.size(), b->sum, s);
            if (zero && k == n && b->sum != 0) bad("the sum of zeros is %.17g", b->sum);
        }
    } catch (Fail &e) { f = e.msg; }
    ti_buffer_free(b);
    if (!f.empty()) throw Fail{f};
}
