// C25: allocation failures.  aux: [0 one failure / 1 every allocation from that point on fails, chunks...]
#include "engine.hpp"
struct Inject { bool on; long count, fail_at; bool sticky; long live, failed; };
Inject* inject_state() __attribute__((weak));

struct Armed {                                        // faults are on only inside the library
    Inject& g; Armed(long at, bool sticky) : g(*inject_state()) { g.count = 0; g.fail_at = at; g.sticky = sticky; g.failed = 0; g.on = true; }
    ~Armed() { g.on = false; }
};
static Case gen_oom(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data()));
    c.n = std::min(gen_size(r, st, 400), s.flags & F_SLOW ? st + 20 : st + 60); gen_data(r, info, c.n, c.in); c.aux = {r.u(2)};
    for (int x : gen_chunks(r, c.n)) c.aux.push_back(x);
    return c;
}
struct Res { int code = 0; Vvd out; long allocs = 0, live = 0, failed = 0; std::string bad; };
static Res batch(Info* info, int which, const Case& c, long at, bool sticky) {
    Res r; int m = std::max(0, c.n - std::max(0, info->start(c.o.data()))); std::vector<Arr> oa; std::vector<double*> op; std::vector<const double*> ip;
    for (int k = 0; k < info->outputs; ++k) oa.emplace_back(m, k); for (auto& a : oa) op.push_back(a.p); for (auto& v : c.in) ip.push_back(v.data());
    Inject& g = *inject_state(); g.live = 0;
    { Armed a(at, sticky); r.code = (which == REF ? info->indicator_ref : info->indicator)(c.n, ip.data(), c.o.data(), op.data()); }
    r.allocs = g.count; r.live = g.live; r.failed = g.failed;
    for (auto& a : oa) { if (!a.guards()) r.bad = "output written out of bounds"; r.out.push_back(Vd(a.p, a.p + m)); }
    return r;
}
// Opens a stream, feeds the chunks, frees it; allocations are counted over the whole life.
static Res stream(Info* info, const Case& c, const std::vector<int>& ch, long at, bool sticky) {
    Res r; r.out.resize(info->outputs); int st = std::max(0, info->start(c.o.data())); Inject& g = *inject_state(); g.live = 0; g.count = 0; g.failed = 0; ti_stream* s = nullptr;
    { Armed a(at, sticky); r.code = info->stream_new(c.o.data(), &s); } r.allocs = g.count; r.failed = g.failed; long used = g.count;
    if (r.code != TI_OKAY) { r.live = g.live; return r; }
    int done = 0; size_t ci = 0;
    while (done < c.n) {
        int k = std::min(c.n - done, std::max(0, ch[ci++ % ch.size()])); if (ci > 200) k = c.n - done;
        int due = std::max(0, done + k - st) - std::max(0, done - st); std::vector<Arr> oa; std::vector<double*> op; std::vector<const double*> ip;
        for (int q = 0; q < info->outputs; ++q) oa.emplace_back(due, q); for (auto& a : oa) op.push_back(a.p); for (auto& v : c.in) ip.push_back(v.data() + done);
        long left = at ? at - used : 0; bool past = at && left <= 0;
        if (past && sticky) left = 1;
        { Armed a(past && !sticky ? 0 : left, sticky); r.code = info->stream_run(s, k, ip.data(), op.data()); }
        used += g.count; r.allocs = used; r.failed += g.failed;
        for (auto& a : oa) if (!a.guards()) r.bad = "output written out of bounds";
        if (r.code != TI_OKAY) break;
        for (int q = 0; q < info->outputs; ++q) r.out[q].insert(r.out[q].end(), oa[q].p, oa[q].p + due);
        done += k;
    }
    { Armed a(0, false); info->stream_free(s); }
    r.live = g.live; return r;
}
static Out check_oom(const Case& c, const Spec& s, Info* info) {
    if (!inject_state || !s.valid(c.o.data()) || c.aux.empty()) return Out::skip();
    bool sticky = c.aux[0] != 0; std::vector<int> ch; bool pos = false; for (size_t k = 1; k < c.aux.size(); ++k) { ch.push_back((int)std::max<long>(0, std::min<long>(c.aux[k], 100000))); pos |= ch.back() > 0; } if (!pos) ch = {1};
    static const char* names[] = {"batch call", "reference call", "stream"}; long faults = 0;
    for (int w = 0; w < 3; ++w) {
        if (w == 1 && !info->indicator_ref) continue; if (w == 2 && !info->stream_new) continue;
        auto go = [&](long at) { return w == 2 ? stream(info, c, ch, at, sticky) : batch(info, w == 1 ? REF : PLAIN, c, at, sticky); };
        Res base = go(0); if (base.code != TI_OKAY) return Out::bad(fmt("%s returned %d for acceptable options", names[w], base.code));
        if (base.live > 0) { base = go(0); if (base.live > 0) return Out::bad(fmt("%s leaves %ld allocations behind", names[w], base.live)); }
        for (long at = 1; at <= base.allocs; at += base.allocs > 60 && at > 20 ? base.allocs / 40 : 1) {
            Res r = go(at); ++faults;
            const char* how = sticky ? "every allocation from" : "allocation"; std::string why;
            if (!r.bad.empty()) return Out::bad(fmt("%s, %s %ld of %ld failing: %s", names[w], how, at, base.allocs, r.bad.c_str()));
            if (r.live > 0) return Out::bad(fmt("%s, %s %ld of %ld failing: %ld allocations leaked", names[w], how, at, base.allocs, r.live));
            if (r.failed && r.code != TI_OUT_OF_MEMORY && !(r.code == TI_OKAY && same_bits(base.out, r.out, &why))) return Out::bad(fmt("%s, %s %ld of %ld failing: returned %d%s", names[w], how, at, base.allocs, r.code, r.code == TI_OKAY ? " with other results" : ""));
        }
        Res again = go(0); std::string why;
        if (again.code != TI_OKAY || !same_bits(base.out, again.out, &why)) return Out::bad(fmt("%s after allocation failures: code %d, %s", names[w], again.code, why.c_str()));
    }
    return Out::ok(faults > 0);
}
static PropReg c25(Prop{"C25", "rel", "for each case every allocation of the batch call, the reference call and a whole stream life made to fail in turn (alone, or it and all later ones); non-trivial: at least one fault injected", [](const Spec&, Info*) { return inject_state != nullptr; }, gen_oom, check_oom, 20000, 200000});
