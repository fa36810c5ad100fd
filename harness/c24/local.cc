#include "common.hpp"
#include "utils/localbuffer.h"
// model: per buffer the list of the values pushed

struct S { int index; double keep[3]; BUFFERS( BUFFER(a) BUFFER(b) BUFFER(c) ) };
struct T1 { int index; int progress; BUFFERS( BUFFER(only) ) };

Case gen(Rng &r) {
    Case c; bool one = r.p(.2); c.kind = one ? "one" : "three";
    for (int i = 0; i < (one ? 1 : 3); i++) c.par.push_back(r.p(.8) ? r.in(1, 9) : r.in(10, 60));
    int m = r.in(1, 200); double id = 0; int only = r.p(.3) ? r.in(0, 2) : -1;
    for (int i = 0; i < m; i++) c.ops.push_back({only >= 0 && r.p(.8) ? only : r.in(0, 2), r.in(0, 1000), id += 1});
    return c;
}
bool nontrivial(const Case &c) { size_t s = 0; for (int p : c.par) s += p; return c.ops.size() > s; }

#define LOOK(p, name, v) do { \
    int k = std::min<int>(v.size(), v##n); \
    for (int i = 0; i < k; i++) { double want = v[v.size() - 1 - i], g; \
        g = BUFFER_AT1(p, name, -i); if (!same(g, want)) bad("element %d of buffer " #name " is %.17g, not %.17g", -i, g, want); \
        BUFFER_AT(g, p, name, -i); if (!same(g, want)) bad("element %d of buffer " #name " (AT) is %.17g, not %.17g", -i, g, want); } \
    if ((int)v.size() >= v##n) { double g = BUFFER_AT1(p, name, +1), want = v[v.size() - v##n]; if (!same(g, want)) bad("the oldest element of buffer " #name " is %.17g, not %.17g", g, want); } \
} while (0)

void check(const Case &c) {
    if (c.kind == "one") {
        T1 *s = (T1 *)calloc(1, sizeof(T1)); int An = c.par[0]; std::vector<double> A; s->progress = 77;
        BUFFER_INIT(s, only, An);
        int size = BUFFERS_SIZE(s); if (size != An) bad("total size %d, not %d", size, An);
        s = (T1 *)realloc(s, sizeof(T1) + sizeof(double) * size);
        for (auto &o : c.ops) { BUFFER_PUSH(s, only, o.x); A.push_back(o.x); LOOK(s, only, A); if (s->progress != 77) bad("a neighbouring member changed"); }
        free(s); return;
    }
    S *s = (S *)calloc(1, sizeof(S)); int An = c.par[0], Bn = c.par[1], Cn = c.par[2]; std::vector<double> A, B, C; s->keep[2] = 5;
    BUFFER_INIT(s, a, An); BUFFER_INIT(s, b, Bn); BUFFER_INIT(s, c, Cn);
    int size = BUFFERS_SIZE(s); if (size != An + Bn + Cn) bad("total size %d, not %d", size, An + Bn + Cn);
    s = (S *)realloc(s, sizeof(S) + sizeof(double) * size);
    for (auto &o : c.ops) {
        if (o.op == 0) { BUFFER_PUSH(s, a, o.x); A.push_back(o.x); }
        else if (o.op == 1) { BUFFER_PUSH(s, b, o.x); B.push_back(o.x); }
        else { BUFFER_PUSH(s, c, o.x); C.push_back(o.x); }
        if (!A.empty()) LOOK(s, a, A);
        if (!B.empty()) LOOK(s, b, B);
        if (!C.empty()) LOOK(s, c, C);
        if (s->keep[2] != 5) bad("a neighbouring member changed");
    }
    free(s);
}
