// C01..C08: memory safety, output extent, option validation, streaming, reference variants,
// stream isolation, causality, purity.  C21: registry.
#include "engine.hpp"
#include <malloc.h>
#include <thread>
#include <set>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

static bool any(const Spec&, Info*) { return true; }
static bool has_stream(const Spec&, Info* i) { return i->stream_new != nullptr; }
static bool has_ref(const Spec&, Info* i) { return i->indicator_ref != nullptr; }
static std::vector<int> chunks_of(const Case& c, size_t from) { std::vector<int> v; for (size_t k = from; k < c.aux.size(); ++k) v.push_back((int)std::min<long>(100000, std::max<long>(0, c.aux[k]))); bool pos = v.empty(); for (int x : v) pos |= x > 0; if (!pos) v.push_back(1); return v; }
static void add_chunks(Rng& r, Case& c) { for (int x : gen_chunks(r, c.n)) c.aux.push_back(x); }

// Compare two runs of the same computation; the model supplies how far apart rounding may drive them.
static Out compare(const char* what, const Case& c, const Spec& s, Info* info, const Vvd& a, const Vvd& b, int m, const std::vector<V>* w, int start) {
    int cmp = 0; bool varied = false;
    for (int k = 0; k < info->outputs; ++k) for (int i = 0; i < m; ++i) {
        double x = a[k][i], y = b[k][i]; ++g_total;
        if (memcmp(&x, &y, 8) == 0) { if (x == x) { ++cmp; ++g_decided; } if (i && x != a[k][0]) varied = true; continue; }
        if (!w || !usable((*w)[k][i])) continue;
        ++cmp; ++g_decided; if (i && x != a[k][0]) varied = true;
        double t = 2 * tol_of((*w)[k][i]);
        if (!(std::fabs(x - y) <= t)) return Out::bad(fmt("%s: output '%s' at bar %d: %.17g against %.17g (tolerance %.3g)", what, info->output_names[k], start + i, y, x, t));
    }
    (void)c; (void)s;
    return Out::ok(cmp >= 3 && varied);
}

// Not-a-number, infinite and enormous values from bar `from` on.
static void spoil(Rng& r, Vvd& in, int from) {
    static const double sp[] = {NAN, INFINITY, -INFINITY, 0, -1, 1e300, -1e300, 5e-324};
    for (auto& v : in) if ((int)v.size() > from && r.p(.7)) for (int k = r.in(1, 3); k--;) v[r.in(from, (int)v.size() - 1)] = sp[r.u(8)];
}

// ---------------------------------------------------------------- C01
static Case gen_mem(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, r.p(.55));
    int st = s.valid(c.o.data()) ? std::max(0, s.start(c.o.data())) : r.u(30);
    c.n = gen_size(r, st > 40000 ? st : std::min(st, 400), s.flags & F_SLOW ? 120 : 700); gen_data(r, info, c.n, c.in);
    if (r.p(.12)) spoil(r, c.in, 0);
    add_chunks(r, c); return c;
}
static Out check_mem(const Case& c, const Spec& s, Info* info) {
    (void)s; bool ran = false; auto ch = chunks_of(c, 0);
    auto all = [&]() {
        { Run r = run_fn(info, PLAIN, c.n, c.in, c.o); ran = r.code == TI_OKAY && r.m > 0; }
        if (info->indicator_ref) run_fn(info, REF, c.n, c.in, c.o);
        if (info->stream_new) run_stream(info, c.n, c.in, c.o, ch, c.n & 1);
    };
    if (__sanitizer_get_current_allocated_bytes) {
        size_t b0 = __sanitizer_get_current_allocated_bytes(); all();
        if (__sanitizer_get_current_allocated_bytes() != b0) {                // not a one-time lazy allocation?
            all(); size_t b1 = __sanitizer_get_current_allocated_bytes(); all(); size_t b2 = __sanitizer_get_current_allocated_bytes();
            if (b2 > b1) return Out::bad(fmt("%ld bytes leaked per call", (long)(b2 - b1)));
        }
    } else all();
    return Out::ok(ran);
}
static PropReg c01(Prop{"C01", "san", "options: accepted vectors plus zero, negative, fractional, huge, swapped; 0-960 bars, sometimes with NaN/inf; every entry point with exactly-sized heap buffers under ASan+UBSan and a leak count; non-trivial: the batch call accepted the options and produced output", any, gen_mem, check_mem, 15000, 300000});

// ---------------------------------------------------------------- C02
static Case gen_ext(Rng& r, const Spec& s, Info* info) { return gen_mem(r, s, info); }
static Out check_ext(const Case& c, const Spec& s, Info* info) {
    bool ok = s.valid(c.o.data()); bool nt = false;
    struct Ro { Ro(bool b) { g_readonly = b; } ~Ro() { g_readonly = false; } } ro(c.n % 5 == 0);
    for (int which : {PLAIN, REF}) {
        if (which == REF && !info->indicator_ref) continue;
        Run r = run_fn(info, which, c.n, c.in, c.o, which * 7);
        if (r.code != TI_OKAY && r.bad.compare(0, 7, "start()") == 0) r.bad.clear();
        if (!r.bad.empty()) return Out::bad(fmt("%s%s: %s", s.name.c_str(), which ? "_ref" : "", r.bad.c_str()));
        if (r.code == TI_OKAY && r.m >= 2) nt = true;
    }
    if (info->stream_new) {
        Run r = run_stream(info, c.n, c.in, c.o, chunks_of(c, 0), c.n & 1);
        if (r.code != TI_OKAY && r.bad.compare(0, 7, "start()") == 0) r.bad.clear();
        if (!r.bad.empty()) return Out::bad(s.name + "_stream: " + r.bad);
    }
    if (!ok) nt = !c.o.empty();
    return Out::ok(nt);
}
static PropReg c02(Prop{"C02", "rel", "as C01, outputs in canary-filled guarded buffers of exactly size-start elements; in a fifth of the cases inputs, options and pointer arrays in read-only pages; non-trivial: at least 2 elements due, or a rejected option vector", any, gen_ext, check_ext, 50000, 1000000});

// ---------------------------------------------------------------- C03
static Case gen_opt(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, r.p(.8)); int st = s.valid(c.o.data()) ? std::max(0, std::min(1000, s.start(c.o.data()))) : r.u(30);
    c.n = r.p(.3) ? r.in(0, 3) : std::min(1200, st + r.in(0, 10)); gen_data(r, info, c.n, c.in, 0); return c;
}
static Out check_opt(const Case& c, const Spec& s, Info* info) {
    bool ok = s.valid(c.o.data()); int want = ok ? TI_OKAY : TI_INVALID_OPTION;
    auto verdict = [&](const char* what, int code) { return fmt("%s returned %d, options are %s", what, code, ok ? "acceptable" : "not acceptable"); };
    Run r = run_fn(info, PLAIN, c.n, c.in, c.o);
    if (r.code != want) return Out::bad(verdict(("ti_" + s.name).c_str(), r.code));
    if (ok && r.start < 0) return Out::bad(r.bad);
    if (!ok) { for (auto& v : r.out) for (double d : v) if (!is_canary(d)) return Out::bad("output written although the options were rejected"); }
    if (info->indicator_ref) { Run q = run_fn(info, REF, c.n, c.in, c.o); if (q.code != want) return Out::bad(verdict(("ti_" + s.name + "_ref").c_str(), q.code)); }
    if (info->stream_new) {
        Vd o = c.o; ti_stream* st = (ti_stream*)0x1; int code = info->stream_new(o.data(), &st);
        if (code != want) { if (code == TI_OKAY) info->stream_free(st); return Out::bad(verdict(("ti_" + s.name + "_stream_new").c_str(), code)); }
        if (code == TI_OKAY) { if (st == (ti_stream*)0x1 || !st) return Out::bad("stream_new stored no stream"); info->stream_free(st); }
        else if (st != (ti_stream*)0x1 && st != nullptr) return Out::bad("stream_new rejected the options but stored a stream pointer");
    }
    return Out::ok(!ok || c.n > 0);
}
static PropReg c03(Prop{"C03", "rel", "option vectors at and around every acceptance boundary (zero, negative, one, fractional, parity, ordering, limits) against the acceptance table; non-trivial: rejected vector, or accepted with at least one bar", [](const Spec& s, Info*) { return !s.opts.empty() || true; }, gen_opt, check_opt, 60000, 1200000});

// ---------------------------------------------------------------- C04 / C05
static Case gen_two(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data()));
    c.n = gen_size(r, st, s.flags & F_SLOW ? st + 60 : 1000); gen_data(r, info, c.n, c.in); add_chunks(r, c); return c;
}
static Out check_stream(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data())) return Out::skip();
    Run a = run_fn(info, PLAIN, c.n, c.in, c.o), b = run_stream(info, c.n, c.in, c.o, chunks_of(c, 0), c.n & 1);
    if (a.code != b.code) return Out::bad(fmt("batch returned %d, stream %d", a.code, b.code));
    if (!a.bad.empty()) return Out::bad("batch: " + a.bad);
    if (!b.bad.empty()) return Out::bad("stream: " + b.bad);
    if (b.progress0 != -a.start || b.progress1 != -a.start + c.n) return Out::bad(fmt("progress went from %d to %d over %d bars with start %d", b.progress0, b.progress1, c.n, a.start));
    std::vector<V> w; model_run(s, c.n, c.in, c.o, w);
    return compare("stream against batch", c, s, info, a.out, b.out, a.m, &w, a.start);
}
static PropReg c04(Prop{"C04", "rel", "accepted options, data of every regime, chunkings incl. 1-bar, empty and uneven chunks; non-trivial: at least 3 outputs decided and not all equal", has_stream, gen_two, check_stream, 30000, 600000});
// These references go through ti_ema, which only takes whole periods; the plain variants smooth with the fraction.
static bool whole(const Spec& s) { static const std::set<std::string> w = {"fi", "rmi", "smi", "t3", "tsi"}; return w.count(s.name) > 0; }
static Case gen_ref(Rng& r, const Spec& s, Info* info) {
    Case c = gen_two(r, s, info); if (whole(s)) { for (double& x : c.o) if (x >= 1) x = std::floor(x); }
    c.aux.clear(); return c;
}
static Out check_ref(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data())) return Out::skip();
    if (whole(s)) for (double x : c.o) if (x >= 1 && x != std::floor(x)) return Out::skip();
    Run a = run_fn(info, PLAIN, c.n, c.in, c.o), b = run_fn(info, REF, c.n, c.in, c.o);
    if (a.code != b.code) return Out::bad(fmt("plain returned %d, reference %d", a.code, b.code));
    if (!a.bad.empty()) return Out::bad("plain: " + a.bad);
    if (!b.bad.empty()) return Out::bad("reference: " + b.bad);
    std::vector<V> w; model_run(s, c.n, c.in, c.o, w);
    return compare("reference against plain", c, s, info, a.out, b.out, a.m, &w, a.start);
}
static PropReg c05(Prop{"C05", "rel", "accepted options (whole periods for fi, rmi, smi, t3, tsi), data of every regime; non-trivial: at least 3 outputs decided and not all equal", has_ref, gen_ref, check_ref, 35000, 700000});

// ---------------------------------------------------------------- C06
// aux: [seed of the companions, number of companions, schedule seed, chunks...]
struct St { Info* info; const Spec* sp; Vd o; int n; Vvd in; ti_stream* s; int done; Vvd out; int start; std::vector<int> steps; };
static Case gen_iso(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data())); c.n = std::min(gen_size(r, st, 400), s.flags & F_SLOW ? 80 : 300); gen_data(r, info, c.n, c.in);
    c.aux = {(long)(r.next() >> 2), r.p(.03) && !(s.flags & F_SLOW) ? r.in(10, 80) : r.in(1, 3), (long)(r.next() >> 2)}; return c;
}
static Out check_iso(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || c.aux.size() < 3) return Out::skip();
    std::vector<St> v; v.push_back(St{info, &s, c.o, c.n, c.in, nullptr, 0, {}, 0, {}});
    static std::vector<Info*> streams; if (streams.empty()) for (auto& p : specs()) { Info* i = lib.find(p.first.c_str()); if (i && i->stream_new && !(p.second.flags & F_SLOW)) streams.push_back(i); }
    Rng r((uint64_t)c.aux[0]); int comp = (int)std::min<long>(80, std::max<long>(0, c.aux[1])); bool crowd = comp > 4;
    for (int k = 0; k < comp; ++k) {
        Info* i = r.p(crowd ? .85 : .5) ? info : streams[r.u((int)streams.size())]; auto it = specs().find(i->name); if (it == specs().end()) continue;
        St t; t.info = i; t.sp = &it->second; t.o = gen_opts(r, *t.sp, false); t.n = std::min(200, gen_size(r, std::max(0, t.sp->start(t.o.data())), 400)); if (t.sp->flags & F_SLOW) t.n = std::min(t.n, 60);
        if (crowd) t.n = std::min(t.n, 1 + std::max(0, t.sp->start(t.o.data())) + r.u(8));
        gen_data(r, i, t.n, t.in); if (r.p(.08)) spoil(r, t.in, 0); t.s = nullptr; t.done = 0; v.push_back(t);
    }
    auto feed = [](St& t, ti_stream* s, int c, Vvd& out, bool generic) -> int {
        int st = std::max(0, t.start), due = std::max(0, t.done + c - st) - std::max(0, t.done - st);
        std::vector<const double*> ip; for (auto& x : t.in) ip.push_back(x.data() + t.done);
        std::vector<Vd> o(t.info->outputs, Vd(due + 4, 0)); std::vector<double*> op; for (auto& x : o) op.push_back(x.data());
        int code = generic ? lib.srun(s, c, ip.data(), op.data()) : t.info->stream_run(s, c, ip.data(), op.data());
        out.resize(t.info->outputs); for (int k = 0; k < t.info->outputs; ++k) out[k].insert(out[k].end(), o[k].begin(), o[k].begin() + due);
        return code;
    };
    Out res = Out::ok(true); bool opened = true;
    auto open = [&](St& t) {
        t.start = t.info->start(t.o.data()); Vd o = t.o; if (t.info->stream_new(o.data(), &t.s) != TI_OKAY) { t.s = nullptr; opened = false; }
        for (double& x : o) x = 3;
        if (t.s && res.st == Out::OK) {
            if (lib.sinfo(t.s) != t.info) res = Out::bad(fmt("ti_stream_get_info of a %s stream names %s", t.info->name, lib.sinfo(t.s) ? lib.sinfo(t.s)->name : "nothing"));
            if (lib.sprog(t.s) != -t.start) res = Out::bad(fmt("fresh %s stream has progress %d, start is %d", t.info->name, lib.sprog(t.s), t.start));
        }
    };
    Rng q((uint64_t)c.aux[2]); int guard = 0;
    auto close = [&](St& t) { if (t.s) { if (q.p(.5)) lib.sfree(t.s); else t.info->stream_free(t.s); } t.s = nullptr; };
    bool late = q.p(.4), early = q.p(.4);              // opened when first fed, freed when fed for the last time; or all at once
    if (!late) for (auto& t : v) open(t);
    while (opened && res.st == Out::OK && ++guard < 4000) {
        std::vector<int> alive; for (size_t k = 0; k < v.size(); ++k) if (v[k].done < v[k].n) alive.push_back((int)k);
        if (alive.empty()) break;
        St& t = v[alive[q.u((int)alive.size())]]; if (late && !t.s && !t.done) { open(t); if (!opened || res.st != Out::OK) break; }
        int ch = std::min(t.n - t.done, q.p(.3) ? 1 : q.p(.1) ? 0 : q.in(1, 40));
        int code = feed(t, t.s, ch, t.out, q.p(.5)); t.done += ch; t.steps.push_back(ch);
        if (code != TI_OKAY) res = Out::bad(fmt("%s stream_run returned %d", t.info->name, code));
        else if (lib.sprog(t.s) != t.done - t.start) res = Out::bad(fmt("%s: ti_stream_get_progress is %d after %d bars, start %d", t.info->name, lib.sprog(t.s), t.done, t.start));
        if (early && res.st == Out::OK && t.done == t.n) close(t);
        if (q.p(.1)) { St& u = v[q.u((int)v.size())]; run_fn(u.info, PLAIN, u.n, u.in, u.o); }
    }
    for (auto& t : v) close(t);
    if (res.st == Out::OK && opened) for (auto& t : v) {                // each one alone, same chunks
        ti_stream* s1 = nullptr; if (t.info->stream_new(t.o.data(), &s1) != TI_OKAY) continue;
        Vvd alone; t.done = 0; for (int ch : t.steps) { feed(t, s1, ch, alone, false); t.done += ch; }
        t.info->stream_free(s1); std::string why; if (alone.empty()) continue;
        if (!same_bits(alone, t.out, &why)) { res = Out::bad(fmt("%s stream differs when run among other streams: %s", t.info->name, why.c_str())); break; }
    }
    if (!opened && res.st == Out::OK) return Out::bad("stream_new rejected acceptable options");
    res.nt = v.size() >= 2 && v[0].steps.size() >= 2; return res;
}
static PropReg c06(Prop{"C06", "rel", "2-4 streams (in 3% of the cases 11-81; same or different indicators and options), opened at once or when first fed, freed at the end or when done, fed in a random interleaving with batch calls in between, through direct and generic entry points, against each stream run alone; non-trivial: at least 2 streams and 2 feeds of the first", has_stream, gen_iso, check_iso, 50000, 1000000});

// ---------------------------------------------------------------- C07
static Case gen_cau(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data()));
    c.n = std::min(gen_size(r, st, 1000) + r.u(10), s.flags & F_SLOW ? st + 60 : 1000); gen_data(r, info, c.n, c.in); c.aux = {c.n > st ? r.in(st, c.n) : r.u(c.n + 1), (long)(r.next() >> 2)}; return c;
}
static Out check_cau(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || c.aux.size() < 2) return Out::skip();
    int m = (int)(labs(c.aux[0]) % (c.n + 1)); Run a = run_fn(info, PLAIN, c.n, c.in, c.o); if (a.code != TI_OKAY) return Out::bad(fmt("returned %d", a.code));
    if (!a.bad.empty()) return Out::bad(a.bad);
    Vvd pre; for (auto& v : c.in) pre.push_back(Vd(v.begin(), v.begin() + m));
    Run b = run_fn(info, PLAIN, m, pre, c.o); if (b.code != TI_OKAY) return Out::bad(fmt("returned %d on a prefix of %d bars", b.code, m));
    if (!b.bad.empty()) return Out::bad(b.bad);
    std::vector<V> w; model_run(s, m, pre, c.o, w);
    for (int k = 0; k < info->outputs; ++k) if ((int)w[k].size() < b.m) return Out::skip();
    Out o = compare("prefix alone against the same bars inside the longer series", c, s, info, a.out, b.out, b.m, &w, b.start); if (o.st == Out::BAD) return o;
    Rng r((uint64_t)c.aux[1]); Vvd alt, mixd = pre; gen_data(r, info, c.n, alt); if (r.p(.2)) spoil(r, alt, m); for (size_t k = 0; k < mixd.size(); ++k) mixd[k].insert(mixd[k].end(), alt[k].begin() + m, alt[k].end());
    Run d = run_fn(info, PLAIN, c.n, mixd, c.o); if (d.code != TI_OKAY) return Out::bad(fmt("returned %d", d.code));
    Out e = compare("the same bars with another future", c, s, info, a.out, d.out, b.m, &w, b.start); if (e.st == Out::BAD) return e;
    return Out::ok(o.nt && m < c.n);
}
static PropReg c07(Prop{"C07", "rel", "a series cut at a random bar: the prefix alone, and the prefix with a different future, against the full run; non-trivial: at least 3 prefix outputs decided, not all equal, and a non-empty future", any, gen_cau, check_cau, 25000, 500000});

// ---------------------------------------------------------------- C08
static Case gen_pure(Rng& r, const Spec& s, Info* info) {
    Case c; c.o = gen_opts(r, s, false); int st = std::max(0, s.start(c.o.data()));
    c.n = gen_size(r, st, s.flags & F_SLOW ? st + 60 : 1000); gen_data(r, info, c.n, c.in); if (r.p(.06)) spoil(r, c.in, 0); c.aux = {(long)(r.next() >> 2), r.p(.08) ? 1 : 0}; add_chunks(r, c); return c;
}
static Out check_pure(const Case& c, const Spec& s, Info* info) {
    if (!s.valid(c.o.data()) || c.aux.size() < 2) return Out::skip();
    std::vector<int> ch = chunks_of(c, 2); std::string why;
    auto three = [&](int fill, std::vector<Run>& rs) {
        rs.push_back(run_fn(info, PLAIN, c.n, c.in, c.o, fill)); if (info->indicator_ref) rs.push_back(run_fn(info, REF, c.n, c.in, c.o, fill));
        if (info->stream_new) rs.push_back(run_stream(info, c.n, c.in, c.o, ch, false));
    };
    std::vector<Run> a, b; mallopt(M_PERTURB, 0x11); three(1, a);
    // leave different garbage in the heap, on the stack and in any hidden state, then repeat
    { Rng r((uint64_t)c.aux[0]); mallopt(M_PERTURB, 0xE7); std::vector<void*> g; for (int k = 0; k < 12; ++k) { size_t z = 16 + r.u(4000); void* p = malloc(z); memset(p, r.u(256), z); g.push_back(p); } for (void* p : g) free(p);
      Case d = c; d.o = gen_opts(r, s, false); d.n = std::min(120, gen_size(r, std::max(0, s.start(d.o.data())), 300)); gen_data(r, info, d.n, d.in); if (r.p(.06)) spoil(r, d.in, 0);
      run_fn(info, PLAIN, d.n, d.in, d.o, 3); if (info->indicator_ref) run_fn(info, REF, d.n, d.in, d.o, 3); if (info->stream_new) run_stream(info, d.n, d.in, d.o, {3}, false);
      scribble((unsigned char)r.u(256)); }
    mallopt(M_PERTURB, 0x5C); three(9, b); mallopt(M_PERTURB, 165);
    static const char* names[] = {"call", "second variant", "third variant"};
    for (size_t k = 0; k < a.size(); ++k) {
        if (a[k].bad.find("modified") != std::string::npos) return Out::bad(a[k].bad);
        if (a[k].code != b[k].code) return Out::bad(fmt("repeating the %s returned %d after %d", names[k], b[k].code, a[k].code));
        if (a[k].code == TI_OKAY && !same_bits(a[k].out, b[k].out, &why)) return Out::bad(fmt("repeating the %s with the same arguments: %s", names[k], why.c_str()));
    }
    if (c.aux[1]) {
        const int T = 4; std::vector<Vvd> outs(T); std::vector<std::thread> th; volatile bool go = false;
        for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
            Rng r((uint64_t)c.aux[0] + t); Case d; d.o = gen_opts(r, s, false); d.n = std::min(200, gen_size(r, std::max(0, s.start(d.o.data())), 300)); gen_data(r, info, d.n, d.in);
            while (!go) std::this_thread::yield();
            for (int rep = 0; rep < 12; ++rep) {
                Run x = run_fn(info, PLAIN, c.n, c.in, c.o, t); std::string w; if (!same_bits(x.out, a[0].out, &w)) { outs[t] = x.out; break; }
                if (info->stream_new) { Run y = run_stream(info, c.n, c.in, c.o, ch, false); if (!same_bits(y.out, a.back().out, &w)) { outs[t] = y.out; break; } }
                run_fn(info, PLAIN, d.n, d.in, d.o, t);
            }
        });
        go = true; for (auto& t : th) t.join();
        for (int t = 0; t < T; ++t) if (!outs[t].empty()) return Out::bad("result differs when other threads use the library at the same time");
    }
    bool varied = false; for (auto& v : a[0].out) for (size_t i = 1; i < v.size(); ++i) varied |= v[i] != v[0];
    return Out::ok(varied);
}
static PropReg c08(Prop{"C08", "rel", "every entry point repeated after other calls with different heap/stack contents and output prefill (bitwise), 8% also from 4 threads at once; non-trivial: output not constant", any, gen_pure, check_pure, 8000, 160000});

// ---------------------------------------------------------------- C21
// aux: characters of the name looked up
static Case gen_reg(Rng& r, const Spec& s, Info*) {
    Case c; std::string n = s.name; int k = r.u(10);
    if (k == 1) n += (char)r.in(32, 126); else if (k == 2 && !n.empty()) n.pop_back(); else if (k == 3) n[r.u((int)n.size())] = (char)r.in(32, 126);
    else if (k == 4) n.insert(n.begin() + r.u((int)n.size() + 1), (char)r.in(97, 122)); else if (k == 5) n[0] = (char)toupper(n[0]); else if (k == 6) { n.clear(); for (int j = r.in(0, 8); j--;) n += (char)r.in(1, 255); }
    else if (k == 7) n = n + n; else if (k == 8) n = " " + n; else if (k == 9) n = n.substr(0, 1 + r.u((int)n.size()));
    for (unsigned char ch : n) c.aux.push_back(ch);
    return c;
}
static Out check_reg(const Case& c, const Spec& s, Info*) {
    std::string n; for (long a : c.aux) n += (char)a;
    ti_indicator_info* hit = nullptr; int cnt = 0;
    for (ti_indicator_info* p = lib.inds; p->name; ++p) { ++cnt; if (n == p->name) { if (hit) return Out::bad("two entries named '" + n + "'"); hit = p; } if (p != lib.inds && strcmp(p[-1].name, p->name) >= 0) return Out::bad(fmt("table not in ascending order at '%s'", p->name)); }
    if (cnt != lib.count()) return Out::bad(fmt("table has %d entries, ti_indicator_count() is %d", cnt, lib.count()));
    char* z = (char*)malloc(n.size() + 1); memcpy(z, n.c_str(), n.size() + 1); const ti_indicator_info* f = lib.find(z); free(z);
    if (f != hit) return Out::bad(fmt("lookup of '%s' gives %s, the table has %s", n.c_str(), f ? f->name : "nothing", hit ? "that entry" : "no such entry"));
    Info* i = lib.find(s.name.c_str()); if (!i) return Out::bad("'" + s.name + "' not found");
    auto same = [&](const std::string& sym, void* p) { void* q = lib.sym(sym); return q == p; };
    std::string t = "ti_" + s.name;
    if (!same(t + "_start", (void*)i->start)) return Out::bad(t + ": start is another function");
    if (!same(t, (void*)i->indicator)) return Out::bad(t + ": indicator is another function");
    if (!same(t + "_ref", (void*)i->indicator_ref)) return Out::bad(t + ": indicator_ref does not match the library");
    if (!same(t + "_stream_new", (void*)i->stream_new) || !same(t + "_stream_run", (void*)i->stream_run) || !same(t + "_stream_free", (void*)i->stream_free)) return Out::bad(t + ": stream functions do not match the library");
    auto names = [&](char* const* v, int k, const char* what) -> std::string {
        if (k < 0 || k > TI_MAXINDPARAMS) return fmt("%s count is %d", what, k);
        for (int j = 0; j < TI_MAXINDPARAMS; ++j) { bool has = v[j] && *v[j]; if (has != (j < k)) return fmt("%s name %d %s", what, j, has ? "beyond the count" : "missing"); }
        for (int a = 0; a < k; ++a) for (int b = 0; b < a; ++b) if (!strcmp(v[a], v[b]) && strcmp(what, "input")) return fmt("%s name '%s' twice", what, v[a]);
        return "";
    };
    for (auto& e : {names(i->input_names, i->inputs, "input"), names(i->option_names, i->options, "option"), names(i->output_names, i->outputs, "output")}) if (!e.empty()) return Out::bad(t + ": " + e);
    return Out::ok(f != nullptr || !n.empty());
}
static PropReg c21(Prop{"C21", "rel", "exact names, one-character edits, prefixes, doubled, padded, case-changed and random byte strings against a linear scan of the table, plus the table entry against the exported symbols; non-trivial: a hit, or a non-empty miss", any, gen_reg, check_reg, 120000, 2400000});
