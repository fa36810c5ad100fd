#include "engine.hpp"
#include <cstdarg>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <atomic>
#include <set>
#include <chrono>
#include <errno.h>

Lib lib; bool g_san = false, g_verbose = false; long g_decided = 0, g_total = 0;
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }

std::string fmt(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

bool Lib::open(const char* path) {
    h = dlopen(path, RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
    inds = (ti_indicator_info*)dlsym(h, "ti_indicators");
    find = (decltype(find))dlsym(h, "ti_find_indicator"); count = (decltype(count))dlsym(h, "ti_indicator_count");
    srun = (decltype(srun))dlsym(h, "ti_stream_run"); sinfo = (decltype(sinfo))dlsym(h, "ti_stream_get_info");
    sprog = (decltype(sprog))dlsym(h, "ti_stream_get_progress"); sfree = (decltype(sfree))dlsym(h, "ti_stream_free");
    return inds && find && count && srun && sinfo && sprog && sfree;
}
void* Lib::sym(const std::string& s) { return dlsym(h, s.c_str()); }

// ---------------------------------------------------------------- cases
std::string Case::ser() const {
    std::string s = "property " + prop + "\nindicator " + ind + "\nbars " + std::to_string(n) + "\noptions";
    for (double d : o) s += fmt(" %a", d);
    s += "\naux"; for (long a : aux) s += fmt(" %ld", a);
    s += "\n"; for (auto& v : in) { s += "input"; for (double d : v) s += fmt(" %a", d); s += "\n"; }
    s += "# decimal view\n# options"; for (double d : o) s += fmt(" %.17g", d);
    s += "\n"; for (auto& v : in) { s += "# input"; int k = 0; for (double d : v) { if (k++ > 40) { s += " ..."; break; } s += fmt(" %.17g", d); } s += "\n"; }
    return s;
}
bool Case::parse(const std::string& t) {
    size_t i = 0; in.clear(); o.clear(); aux.clear();
    while (i < t.size()) {
        size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size();
        std::string l = t.substr(i, j - i); i = j + 1;
        if (l.empty() || l[0] == '#') continue;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), r = sp == std::string::npos ? "" : l.substr(sp + 1);
        auto nums = [&](Vd& v) { const char* p = r.c_str(); char* e; for (;;) { while (*p == ' ') ++p; if (!*p) break; double d = strtod(p, &e); if (e == p) break; v.push_back(d); p = e; } };
        if (k == "property") prop = r; else if (k == "indicator") ind = r; else if (k == "bars") n = atoi(r.c_str());
        else if (k == "options") nums(o);
        else if (k == "aux") { const char* p = r.c_str(); char* e; for (;;) { while (*p == ' ') ++p; if (!*p) break; long d = strtol(p, &e, 10); if (e == p) break; aux.push_back(d); p = e; } }
        else if (k == "input") { Vd v; nums(v); in.push_back(v); }
    }
    return !prop.empty();
}
std::string Case::brief() const {
    std::string s = ind + "("; for (size_t i = 0; i < o.size(); ++i) s += fmt(i ? ",%g" : "%g", o[i]);
    s += fmt(") bars=%d", n);
    if (!aux.empty()) { s += " aux=["; for (size_t i = 0; i < aux.size() && i < 12; ++i) s += fmt(i ? ",%ld" : "%ld", aux[i]); s += aux.size() > 12 ? ",..]" : "]"; }
    for (size_t k = 0; k < in.size(); ++k) { s += k ? " | " : " data="; for (int i = 0; i < n && i < 8 && i < (int)in[k].size(); ++i) s += fmt(i ? ",%.6g" : "%.6g", in[k][i]); if (n > 8) s += ",.."; }
    return s;
}
uint64_t Case::hash() const {
    uint64_t h = hashs(ind) ^ (uint64_t)n * 77; auto add = [&](uint64_t x) { h = (h ^ x) * 0x100000001b3ULL; h ^= h >> 29; };
    for (double d : o) { uint64_t b; memcpy(&b, &d, 8); add(b); }
    for (long a : aux) add((uint64_t)a);
    for (auto& v : in) for (double d : v) { uint64_t b; memcpy(&b, &d, 8); add(b); }
    return h;
}

// ---------------------------------------------------------------- guarded runs
double canary(unsigned long k) { uint64_t b = 0x7ff4dead00000000ULL | (k & 0xffffff); double d; memcpy(&d, &b, 8); return d; }
bool is_canary(double d) { uint64_t b; memcpy(&b, &d, 8); return (b >> 32) == 0x7ff4deadULL; }
static const int GUARD = 48;
Arr::Arr(int n_, unsigned f, int al) : n(n_), align(al), fill(f) {
    if (g_san) { raw = (double*)malloc((size_t)n * 8); p = raw; }
    else { raw = (double*)malloc((size_t)(n + 2 * GUARD) * 8); p = raw + GUARD + (al & 1); for (int i = 0; i < n + 2 * GUARD; ++i) { uint64_t b = 0x7ff4dead00000000ULL | ((fill & 0xff) << 16) | (i & 0xffff); memcpy(&raw[i], &b, 8); } return; }
    for (int i = 0; i < n; ++i) { uint64_t b = 0x7ff4dead00000000ULL | ((fill & 0xff) << 16) | (i & 0xffff); memcpy(&raw[i], &b, 8); }
}
static uint64_t around_bits(double base, unsigned fill, int i) { double d = base * (1.4 + .07 * ((i * 5 + fill * 3) % 16)) + (i % 3); uint64_t b; memcpy(&b, &d, 8); return b; }
// plausible numbers around an input, so that a read outside it changes the result and not only a NaN comparison
void Arr::around(double b) {
    if (g_san || !std::isfinite(b)) return;
    fin = true; base = b; int lo = GUARD + (align & 1);
    for (int i = 0; i < n + 2 * GUARD; ++i) if (i < lo || i >= lo + n) { uint64_t v = around_bits(base, fill, i); memcpy(&raw[i], &v, 8); }
}
Arr::~Arr() { free(raw); }
Arr::Arr(Arr&& a) { fin = a.fin; base = a.base; raw = a.raw; p = a.p; n = a.n; align = a.align; fill = a.fill; a.raw = nullptr; }
bool Arr::guards() const {
    if (g_san) return true;
    int lo = GUARD + (align & 1);
    for (int i = 0; i < n + 2 * GUARD; ++i) { if (i >= lo && i < lo + n) continue; uint64_t b; memcpy(&b, &raw[i], 8); if (b != (fin ? around_bits(base, fill, i) : 0x7ff4dead00000000ULL | ((fill & 0xff) << 16) | (i & 0xffff))) return false; }
    return true;
}
bool Arr::written(int i) const { return !is_canary(p[i]); }
int Arr::first_unwritten() const { for (int i = 0; i < n; ++i) if (!written(i)) return i; return -1; }
int Arr::first_written() const { for (int i = 0; i < n; ++i) if (written(i)) return i; return -1; }

__attribute__((noinline)) void scribble(unsigned char b) {
    if (g_san) return;
    char a[24576]; memset(a, b, sizeof a); asm volatile("" : : "r"(a) : "memory");
}
static unsigned char g_stackbyte = 0x5a;

// A page-protected copy of what a call may only read: a write there ends the process, even one that is undone before returning.
bool g_readonly = false;
namespace { struct Sealed {
    char* base = nullptr; size_t cap = 0, used = 0;
    void open(size_t need) {
        if (need > cap) { if (base) munmap(base, cap); cap = (need + (1 << 16)) & ~(size_t)0xffff; base = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == (char*)MAP_FAILED) { perror("mmap"); _exit(70); } }
        else mprotect(base, cap, PROT_READ | PROT_WRITE);
        used = 0;
    }
    template <class T> T* put(const T* p, size_t n) { T* q = (T*)(base + used); if (n) memcpy((void*)q, p, n * sizeof(T)); used += (n + 1) * sizeof(T); return q; }
    void seal() { mprotect(base, cap, PROT_READ); }
    // bars first..first+n-1 of every input behind the array of pointers, then the output pointers and the options
    const double* const* inputs(int k, double const* const* ip, int n) { std::vector<const double*> t; for (int i = 0; i < k; ++i) t.push_back(put(ip[i], n)); return put(t.data(), t.size()); }
}; }
static thread_local Sealed g_sealed;

Run run_fn(Info* info, int which, int n, const Vvd& in, const Vd& o, unsigned fill, int align) {
    Run r; double* op = (double*)malloc(o.size() * 8); if (!o.empty()) memcpy(op, o.data(), o.size() * 8);
    r.start = info->start(op);
    if (r.start < 0) r.bad = fmt("start() is %d for these options", r.start);
    r.m = std::max(0, n - std::max(0, r.start));
    std::vector<Arr> ia, oa;
    for (int k = 0; k < info->inputs; ++k) { ia.emplace_back(n, fill, align); for (int i = 0; i < n; ++i) ia[k].p[i] = in[k][i]; if ((n ^ fill) & 1) ia[k].around(n ? in[k][n / 2] : 100); }
    for (int k = 0; k < info->outputs; ++k) oa.emplace_back(r.m, fill + k, align);
    double const** ip = (double const**)malloc(sizeof(double*) * info->inputs); double** outp = (double**)malloc(sizeof(double*) * info->outputs);
    for (int k = 0; k < info->inputs; ++k) ip[k] = ia[k].p;
    for (int k = 0; k < info->outputs; ++k) outp[k] = oa[k].p;
    scribble(g_stackbyte);
    auto fn = which == REF ? info->indicator_ref : info->indicator;
    if (g_readonly && !g_san) {
        Sealed& z = g_sealed; z.open((info->inputs * (size_t)(n + 2) + o.size() + 64) * 8);
        auto zi = z.inputs(info->inputs, ip, n); auto zo = z.put(outp, info->outputs); auto zp = z.put(op, o.size()); z.seal();
        r.code = fn(n, zi, zp, zo);
    } else r.code = fn(n, ip, op, outp);
    for (int k = 0; k < info->outputs && r.bad.empty(); ++k) {
        if (!oa[k].guards()) r.bad = fmt("output '%s' written outside its %d elements", info->output_names[k], r.m);
        else if (r.code == TI_OKAY) { int u = oa[k].first_unwritten(); if (u >= 0) r.bad = fmt("output '%s' element %d of %d never written", info->output_names[k], u, r.m); }
        else { int u = oa[k].first_written(); if (u >= 0) r.bad = fmt("output '%s' element %d written although the call returned %d", info->output_names[k], u, r.code); }
    }
    for (int k = 0; k < info->inputs && r.bad.empty(); ++k) {
        if (!ia[k].guards()) r.bad = fmt("memory around input '%s' modified", info->input_names[k]);
        if (n && memcmp(ia[k].p, in[k].data(), (size_t)n * 8)) r.bad = fmt("input '%s' modified", info->input_names[k]);
    }
    if (!o.empty() && r.bad.empty() && memcmp(op, o.data(), o.size() * 8)) r.bad = "options modified";
    for (int k = 0; k < info->outputs; ++k) r.out.push_back(Vd(oa[k].p, oa[k].p + r.m));
    free(op); free(ip); free(outp);
    return r;
}
Run run_stream(Info* info, int n, const Vvd& in, const Vd& o, const std::vector<int>& chunks, bool generic) {
    Run r; double* op = (double*)malloc(o.size() * 8); if (!o.empty()) memcpy(op, o.data(), o.size() * 8);
    r.start = info->start(op); int st = std::max(0, r.start);
    if (r.start < 0) r.bad = fmt("start() is %d for these options", r.start);
    r.m = std::max(0, n - st); r.out.resize(info->outputs);
    ti_stream* s = nullptr; scribble(g_stackbyte);
    if (g_readonly && !g_san) { Sealed& z = g_sealed; z.open((o.size() + 8) * 8); auto zp = z.put(op, o.size()); z.seal(); r.code = info->stream_new(zp, &s); }
    else r.code = info->stream_new(op, &s);
    if (!o.empty() && r.bad.empty() && memcmp(op, o.data(), o.size() * 8)) r.bad = "options modified";
    for (size_t i = 0; i < o.size(); ++i) op[i] = canary(i);          // the caller may reuse its options array
    free(op);
    if (r.code != TI_OKAY) { if (s) { r.bad = "stream_new failed but stored a stream"; } return r; }
    if (!s) { r.bad = "stream_new returned OKAY without a stream"; return r; }
    r.progress0 = generic ? lib.sprog(s) : s->progress;
    int done = 0; size_t ci = 0; int zeros = 0; int guardcount = 0;
    double const** ip = (double const**)malloc(sizeof(double*) * info->inputs); double** outp = (double**)malloc(sizeof(double*) * info->outputs);
    bool first = true;
    while (done < n || first || (n == 0 && first)) {
        first = false;
        int c = chunks.empty() ? n - done : chunks[ci++ % chunks.size()];
        if (c < 0) c = 0;
        if (c == 0) { if (++zeros > 50) c = n - done; }
        c = std::min(c, n - done);
        int due = std::max(0, done + c - st) - std::max(0, done - st);
        { std::vector<Arr> ia, oa;
        for (int k = 0; k < info->inputs; ++k) { ia.emplace_back(c); for (int i = 0; i < c; ++i) ia[k].p[i] = in[k][done + i]; if ((c ^ done ^ k) & 1) ia[k].around(n ? in[k][done ? done - 1 : 0] : 100); ip[k] = ia[k].p; }
        for (int k = 0; k < info->outputs; ++k) { oa.emplace_back(due, k); outp[k] = oa[k].p; }
        scribble(g_stackbyte);
        double const* const* ipc = ip; double* const* opc = outp;
        if (g_readonly && !g_san) { Sealed& z = g_sealed; z.open((info->inputs * (size_t)(c + 2) + 64) * 8); ipc = z.inputs(info->inputs, ip, c); opc = z.put(outp, info->outputs); z.seal(); }
        int code = generic ? lib.srun(s, c, ipc, opc) : info->stream_run(s, c, ipc, opc);
        if (code != TI_OKAY && r.bad.empty()) r.bad = fmt("stream_run returned %d after %d bars", code, done);
        for (int k = 0; k < info->outputs; ++k) {
            if (r.bad.empty()) {
                int u = oa[k].first_unwritten();
                if (!oa[k].guards()) r.bad = fmt("stream output '%s' written outside the %d elements due for bars %d..%d", info->output_names[k], due, done, done + c);
                else if (u >= 0) r.bad = fmt("stream output '%s' element %d of %d due for bars %d..%d never written", info->output_names[k], u, due, done, done + c);
            }
            r.out[k].insert(r.out[k].end(), oa[k].p, oa[k].p + due);
        }
        for (int k = 0; k < info->inputs && r.bad.empty(); ++k) {
            if (!ia[k].guards()) r.bad = fmt("memory around input '%s' modified", info->input_names[k]);
            for (int i = 0; i < c; ++i) if (memcmp(&ia[k].p[i], &in[k][done + i], 8)) { r.bad = fmt("input '%s' modified", info->input_names[k]); break; }
        }
        }
        done += c; if (++guardcount > 100000) break;
        if (done >= n) break;
    }
    r.progress1 = generic ? lib.sprog(s) : s->progress;
    if (generic) lib.sfree(s); else info->stream_free(s);
    free(ip); free(outp);
    return r;
}
bool same_bits(const Vvd& a, const Vvd& b, std::string* why) {
    if (a.size() != b.size()) { *why = "different number of outputs"; return false; }
    for (size_t k = 0; k < a.size(); ++k) {
        if (a[k].size() != b[k].size()) { *why = fmt("output %d has %d values against %d", (int)k, (int)a[k].size(), (int)b[k].size()); return false; }
        for (size_t i = 0; i < a[k].size(); ++i)
            if (memcmp(&a[k][i], &b[k][i], 8) && !(a[k][i] != a[k][i] && b[k][i] != b[k][i])) { *why = fmt("output %d element %d: %.17g against %.17g", (int)k, (int)i, a[k][i], b[k][i]); return false; }
    }
    return true;
}
bool model_run(const Spec& s, int n, const Vvd& in, const Vd& o, std::vector<V>& out) {
    Ctx c; c.n = n; c.in = &in; c.o = o.data(); c.start = s.start(o.data());
    Info* info = lib.find(s.name.c_str()); if (!info) return false;
    c.out.resize(info->outputs); NB();
    g_flat = n > 0; double p0 = 0; bool any = false;
    for (int k = 0; k < info->inputs && g_flat; ++k) if (strcmp(info->input_names[k], "volume")) for (int i = 0; i < n; ++i) { if (!any) { p0 = in[k][i]; any = true; } if (in[k][i] != p0) { g_flat = false; break; } }
    g_flat = g_flat && any;
    if (n > c.start) s.model(c);
    g_flat = false;
    out.swap(c.out); return true;
}

// ---------------------------------------------------------------- driver
static uint64_t now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Viol { int ind, idx, w, base, end; char kind[24]; char msg[1000]; };
struct Item { int ind, from, to; };
struct Slot { std::atomic<int> ind, idx; };
static const int NV = 512, NLOG = 60000; static const uint64_t HT = 1 << 24;
struct Shared {
    std::atomic<int> next; std::atomic<int> nv; Viol v[NV]; Slot slot[128];
    std::atomic<long> evals, nt, skips, distinct, decided, total, late; std::atomic<char> bad[512];
    std::atomic<int> indnt[512];
    std::atomic<uint64_t> ht[HT];
    Item log[128][NLOG]; int nlog[128], base[128];    // what each worker ran, for failures that need their history
};
static Shared* S;
static uint64_t g_seed = 1, g_deadline = 0;
static Prop* P;
static std::vector<const Spec*> g_specs; static std::vector<Info*> g_infos;

static void timer(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
static Case make(int ind, int idx) {
    Rng r(mix(mix(g_seed, hashs(P->id)), mix(hashs(g_specs[ind]->name), idx)));
    Case c = P->gen(r, *g_specs[ind], g_infos[ind]); c.prop = P->id; c.ind = g_specs[ind]->name; return c;
}
static void insert_hash(uint64_t h) {
    if (!h) h = 1; if (S->distinct > (long)(HT / 4 * 3)) return;      // counted up to 12.5 million
    for (uint64_t i = h % HT, k = 0; k < 64; ++k, i = (i + 1) % HT) {
        uint64_t e = 0; if (S->ht[i].compare_exchange_strong(e, h)) { S->distinct++; return; } if (e == h) return;
    }
}
static void quiet() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
static void worker(int w, const std::vector<Item>& items) {
    if (!g_verbose) quiet();
    for (;;) {
        int it = S->next++; if (it >= (int)items.size()) break;
        const Item& I_ = items[it]; int lg = S->nlog[w]; if (lg < NLOG - 1) S->nlog[w]++; else lg = NLOG - 1;
        S->log[w][lg] = Item{I_.ind, I_.from, I_.from};
        if (g_deadline && now_ms() > g_deadline) { S->late++; continue; }
        for (int idx = I_.from; idx < I_.to; ++idx) {
            if (S->bad[I_.ind]) break;
            S->slot[w].idx = idx; S->slot[w].ind = I_.ind; S->log[w][lg].to = idx + 1;
            timer(20);
            Case c = make(I_.ind, idx);
            Out o = P->check(c, *g_specs[I_.ind], g_infos[I_.ind]);
            S->evals++; S->decided += g_decided; S->total += g_total; g_decided = g_total = 0; if (o.st == Out::SKIP) S->skips++;
            if (o.st == Out::OK && o.nt) { S->nt++; S->indnt[I_.ind]++; insert_hash(c.hash()); }
            if (o.st == Out::BAD) {
                S->bad[I_.ind] = 1; int k = S->nv++;
                if (k < NV) { S->v[k].ind = I_.ind; S->v[k].idx = idx; S->v[k].w = w; S->v[k].base = S->base[w]; S->v[k].end = lg; strcpy(S->v[k].kind, "check"); snprintf(S->v[k].msg, sizeof S->v[k].msg, "%s", o.msg.c_str()); }
                break;
            }
        }
        S->slot[w].ind = -1;
    }
    timer(0); _exit(0);
}
// Run one case in a child of its own; 0 ok, 1 violation (message filled).
static int in_child(const std::function<Out()>& body, std::string& msg, bool asanlog = true) {
    int pfd[2], efd[2]; if (pipe(pfd)) return 0; if (pipe(efd)) return 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]); close(efd[0]); dup2(efd[1], 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        timer(20);
        Out o = body();
        std::string m = std::string(o.st == Out::BAD ? "B" : "O") + o.msg;
        if (write(pfd[1], m.data(), m.size()) < 0) {}
        _exit(0);
    }
    close(pfd[1]); close(efd[1]);
    std::string m, e; char b[4096]; ssize_t k;
    // drain stderr first (bounded), then the result
    while ((k = read(efd[0], b, sizeof b)) > 0) if (e.size() < 100000) e.append(b, k);
    while ((k = read(pfd[0], b, sizeof b)) > 0) m.append(b, k);
    close(pfd[0]); close(efd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (!m.empty() && m[0] == 'B') { msg = m.substr(1); return 1; } return 0; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) { msg = "no answer after 20 s of CPU time"; return 1; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { msg = "killed"; return 0; }      // the sandbox, not the code
    msg = WIFSIGNALED(st) ? fmt("process died on signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("process exited with status %d", WEXITSTATUS(st));
    if (asanlog) {
        for (const char* key : {"ERROR: AddressSanitizer", "runtime error:", "terminate called", "Assertion `"}) {
            size_t i = e.find(key); if (i == std::string::npos) continue;
            size_t b0 = e.rfind('\n', i); b0 = b0 == std::string::npos ? 0 : b0 + 1;
            size_t e0 = e.find('\n', i); msg += ": " + e.substr(b0, e0 - b0);
            int shown = 0; size_t q = e0;
            while (shown < 8 && q != std::string::npos && (q = e.find("    #", q)) != std::string::npos) { size_t z = e.find('\n', q); std::string fr = e.substr(q, z - q); if (fr.find("ti_") != std::string::npos) { msg += "\n   " + fr; if (++shown >= 3) break; } q = z; if (q > i + 4000) break; }
            break;
        }
    }
    return 1;
}
static int isolated(const Case& c, int ind, std::string& msg) { return in_child([&]() { return P->check(c, *g_specs[ind], g_infos[ind]); }, msg); }
// A run of generated cases in one process: the last one fails because of what the earlier ones left behind.
static int history(const std::vector<Item>& v, std::string& msg) {
    return in_child([&]() {
        for (size_t k = 0; k < v.size(); ++k) for (int idx = v[k].from; idx < v[k].to; ++idx) {
            timer(20); Out o = P->check(make(v[k].ind, idx), *g_specs[v[k].ind], g_infos[v[k].ind]);
            if (o.st == Out::BAD && k + 1 == v.size() && idx + 1 == v[k].to) return o;
        }
        return Out::ok(false); }, msg);
}
static std::vector<Item> shrink_history(std::vector<Item> v, std::string& msg) {
    uint64_t t0 = now_ms(); auto fails = [&](const std::vector<Item>& d) { if (now_ms() - t0 > 60000) return false; std::string m; if (history(d, m)) { msg = m; return true; } return false; };
    for (size_t keep = 1; keep < v.size(); keep *= 4) { std::vector<Item> d(v.end() - keep, v.end()); if (fails(d)) { v = d; break; } }
    for (size_t step = std::max<size_t>(1, v.size() / 2); ; step /= 2) {
        for (size_t a = 0; a + 1 < v.size();) { std::vector<Item> d = v; size_t b = std::min(a + step, v.size() - 1); d.erase(d.begin() + a, d.begin() + b); if (fails(d)) v = d; else a = b; }
        if (step <= 1) break;
    }
    for (size_t k = 0; k < v.size(); ++k) for (int half = v[k].to - v[k].from; half >= 1; half /= 2) {
        for (;;) { std::vector<Item> d = v; d[k].from += half; if (d[k].from >= d[k].to - (k + 1 == v.size() ? 0 : 0) || !fails(d)) break; v = d; }
        if (k + 1 < v.size()) for (;;) { std::vector<Item> d = v; d[k].to -= half; if (d[k].from >= d[k].to || !fails(d)) break; v = d; }
    }
    return v;
}
static Case shrink(Case c, int ind, std::string& msg) {
    int budget = 500; uint64_t t0 = now_ms();
    auto fails = [&](const Case& d) { if (budget <= 0 || now_ms() - t0 > 40000) return false; --budget; std::string m; if (isolated(d, ind, m)) { msg = m; return true; } return false; };
    auto cut = [](const Case& s, int a, int b) { Case d = s; for (auto& v : d.in) if ((int)v.size() >= b) v.erase(v.begin() + a, v.begin() + b); d.n -= b - a; return d; };
    bool more = true; int rounds = 0;
    while (more && rounds++ < 4) {
        more = false;
        for (int step = std::max(1, c.n / 2); step >= 1; step /= 2) {
            for (int a = c.n; a > 0;) {                     // from the end
                int b = a, f = std::max(0, a - step);
                Case d = cut(c, f, b); if (d.n < c.n && fails(d)) { c = d; more = true; a = std::min(f, c.n); } else a = f;
                if (budget <= 0) break;
            }
            if (step == 1) break;
        }
        for (size_t k = 0; k < c.aux.size() && c.aux.size() < 200; ++k) for (long t : {0L, 1L, c.aux[k] / 2}) if (t != c.aux[k] && labs(t) < labs(c.aux[k])) { Case d = c; d.aux[k] = t; if (fails(d)) { c = d; more = true; break; } }
        for (size_t k = 0; k < c.o.size(); ++k) for (double t : {0., 1., 2., 3., std::floor(c.o[k] / 2), std::floor(c.o[k])}) if (std::fabs(t) < std::fabs(c.o[k])) { Case d = c; d.o[k] = t; if (fails(d)) { c = d; more = true; break; } }
        for (size_t k = 0; k < c.in.size(); ++k) {
            auto tryall = [&](double (*f)(double)) { Case d = c; bool ch = false; for (auto& x : d.in[k]) { double y = f(x); if (y != x && x == x) { x = y; ch = true; } } if (ch && fails(d)) { c = d; more = true; return true; } return false; };
            tryall([](double) { return 1.0; }) || tryall([](double x) { return std::round(x); }) || tryall([](double x) { return std::round(x * 4) / 4; }) || tryall([](double x) { return std::round(x * 100) / 100; });
            if (c.n <= 24) for (int i = 0; i < c.n; ++i) for (double t : {1.0, i ? c.in[k][i-1] : 0.0, std::round(c.in[k][i])}) if (t != c.in[k][i] && std::fabs(t) <= std::fabs(c.in[k][i])) { Case d = c; d.in[k][i] = t; if (fails(d)) { c = d; more = true; break; } }
        }
        if (budget <= 0) break;
    }
    return c;
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += fmt("\\u%04x", c); else r += c; } return r; }
static std::string slurp(const char* p) { std::string s; FILE* f = fopen(p, "r"); if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }

int driver_main(int argc, char** argv) {
    std::string mode, prop, libp, out, rdir, file, tier = "quick", only; int jobs = 8; double scale = 1; long fixedn = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--lib") libp = nx(); else if (a == "--out") out = nx(); else if (a == "--replays") rdir = nx();
        else if (a == "--seed") g_seed = strtoull(nx().c_str(), nullptr, 10); else if (a == "--tier") tier = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--only") only = nx(); else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--cases") fixedn = atol(nx().c_str());
        else if (a == "--san") g_san = true; else if (a == "--verbose") g_verbose = true; else if (a == "--file") file = nx();
        else if (a == "--deadline") g_deadline = now_ms() + atol(nx().c_str()) * 1000;
        else if (a == "--byte") g_stackbyte = (unsigned char)atoi(nx().c_str());
        else mode = a;
    }
    if (!lib.open(libp.c_str())) return 3;
    for (auto& p : props()) if (p.id == prop) P = &p;
    Case rc;
    if (mode == "replay" && slurp(file.c_str()).find("\nrun ") != std::string::npos) {
        std::vector<Item> h; std::string t = slurp(file.c_str()), m; char a[64]; int x, y; unsigned long long sd; size_t i = 0;
        for (size_t j; (j = t.find('\n', i)) != std::string::npos; i = j + 1) {
            std::string l = t.substr(i, j - i);
            if (sscanf(l.c_str(), "property %63s", a) == 1) { for (auto& p : props()) if (p.id == a) P = &p; }
            else if (sscanf(l.c_str(), "seed %llu", &sd) == 1) g_seed = sd;
            else if (sscanf(l.c_str(), "run %63s %d %d", a, &x, &y) == 3) {
                Info* info = lib.find(a); auto it = specs().find(a); if (!info || it == specs().end()) return 3;
                g_specs.push_back(&it->second); g_infos.push_back(info); h.push_back(Item{(int)g_specs.size() - 1, x, y});
            }
        }
        if (!P || h.empty()) return 3;
        int r = history(h, m); printf("%s %s\n", r ? "FAIL" : "PASS", m.c_str()); return r;
    }
    if (mode == "replay") { if (!rc.parse(slurp(file.c_str()))) { fprintf(stderr, "cannot parse %s\n", file.c_str()); return 3; } for (auto& p : props()) if (p.id == rc.prop) P = &p; }
    if (!P) { fprintf(stderr, "unknown property\n"); return 3; }
    if (mode == "replay") {
        auto it = specs().find(rc.ind); Info* info = lib.find(rc.ind.c_str());
        static Spec none; const Spec* sp = it == specs().end() ? &none : &it->second;
        g_specs.push_back(sp); g_infos.push_back(info); std::string m;
        int r = 0; for (int k = 0; k < 3 && !r; ++k) r = isolated(rc, 0, m);
        printf("%s %s\n", r ? "FAIL" : "PASS", m.c_str());
        return r;
    }
    std::vector<std::string> missing;
    for (auto& p : specs()) {
        Info* info = lib.find(p.first.c_str()); if (!info) { missing.push_back(p.first); continue; }
        if (!only.empty() && ("," + only + ",").find("," + p.first + ",") == std::string::npos) continue;
        if (P->want(p.second, info)) { g_specs.push_back(&p.second); g_infos.push_back(info); }
    }
    long per = fixedn ? fixedn : (long)((tier == "thorough" ? P->thorough : P->quick) * scale);
    std::vector<Item> items; int blk = (int)std::min<long>(per, std::max<long>(10, per / 8));
    for (long f = 0; f < per; f += blk) for (size_t i = 0; i < g_specs.size(); ++i) items.push_back(Item{(int)i, (int)f, (int)std::min<long>(per, f + blk)});
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t t0 = now_ms();
    std::map<pid_t, int> kids; int respawns = 0;
    auto spawn = [&](int w) { fflush(stdout); pid_t p = fork(); if (p == 0) worker(w, items); kids[p] = w; };
    for (int w = 0; w < jobs; ++w) { S->slot[w].ind = -1; spawn(w); }
    bool broken = false;
    while (!kids.empty()) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
        auto it = kids.find(p); if (it == kids.end()) continue;
        int w = it->second; kids.erase(it);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        int ind = S->slot[w].ind, idx = S->slot[w].idx;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed\n"); broken = true; continue; }
        if (ind >= 0) { S->bad[ind] = 1; int k = S->nv++; if (k < NV) { S->v[k].ind = ind; S->v[k].idx = idx; S->v[k].w = w; S->v[k].base = S->base[w]; S->v[k].end = std::max(0, S->nlog[w] - 1); strcpy(S->v[k].kind, "crash"); strcpy(S->v[k].msg, "worker died"); } }
        S->slot[w].ind = -1; S->base[w] = S->nlog[w];
        if (++respawns < 400) spawn(w);
    }
    double wall = (now_ms() - t0) / 1000.0;
    // violations: confirm, shrink, write replay
    std::string vj; int nviol = std::min<int>(S->nv, NV), real = 0, unrepro = 0;
    std::map<int, int> firsts; for (int k = 0; k < nviol; ++k) { auto& v = S->v[k]; if (!firsts.count(v.ind) || S->v[firsts[v.ind]].idx > v.idx) firsts[v.ind] = k; }
    int shown = 0;
    for (auto& fk : firsts) {
        auto& v = S->v[fk.second]; Case c = make(v.ind, v.idx); std::string m;
        int rep = 0; for (int k = 0; k < (P->id == "C08" ? 40 : 5) && !rep; ++k) rep += isolated(c, v.ind, m);
        if (!rep) {
            std::vector<Item> h(&S->log[v.w][v.base], &S->log[v.w][v.end] + 1); h.back().to = v.idx + 1; if (h.back().from > v.idx) h.back().from = v.idx;
            if (history(h, m) && history(h, m)) {
                h = shrink_history(h, m); real++; long cases = 0; for (auto& x : h) cases += x.to - x.from;
                std::string path = rdir + "/" + P->id + "-" + c.ind + ".case"; FILE* f = fopen(path.c_str(), "w");
                if (f) { std::string mm = m; for (char& ch : mm) if (ch == '\n') ch = ' '; fprintf(f, "# %s\n# fails only after the cases before it in the same process\nproperty %s\nseed %llu\n", mm.c_str(), P->id.c_str(), (unsigned long long)g_seed); for (auto& x : h) fprintf(f, "run %s %d %d\n", g_specs[x.ind]->name.c_str(), x.from, x.to); fclose(f); }
                if (vj.size()) vj += ",";
                vj += "{\"indicator\":\"" + jesc(c.ind) + "\",\"case\":" + std::to_string(v.idx) + ",\"message\":\"" + jesc(m) + "\",\"replay\":\"" + jesc(path) + "\",\"brief\":\"" + fmt("history of %ld cases ending with ", cases) + jesc(c.brief()) + "\"}";
                continue;
            }
        }
        if (!rep && std::string(v.kind) == "crash") { unrepro++; fprintf(stderr, "not reproduced: %s case %d (%s)\n", c.ind.c_str(), v.idx, v.kind); continue; }
        if (!rep) { unrepro++; fprintf(stderr, "not reproduced: %s case %d: %s\n", c.ind.c_str(), v.idx, v.msg); continue; }
        real++; Case s = c; if (shown < 12) s = shrink(c, v.ind, m);
        ++shown;
        std::string path = rdir + "/" + P->id + "-" + c.ind + ".case"; FILE* f = fopen(path.c_str(), "w");
        if (f) { std::string mm = m; for (char& ch : mm) if (ch == '\n') ch = ' '; fprintf(f, "# %s\n%s", mm.c_str(), s.ser().c_str()); fclose(f); }
        if (vj.size()) vj += ",";
        vj += "{\"indicator\":\"" + jesc(c.ind) + "\",\"case\":" + std::to_string(v.idx) + ",\"message\":\"" + jesc(m) + "\",\"replay\":\"" + jesc(path) + "\",\"brief\":\"" + jesc(s.brief()) + "\"}";
    }
    // samples: regenerate a spread of cases
    std::string sj; int ns = 0;
    for (size_t k = 0; k < g_specs.size() && ns < 6; k += std::max<size_t>(1, g_specs.size() / 6)) { if (S->bad[k]) continue; Case c = make((int)k, (int)(k % std::max<long>(1, per))); if (ns++) sj += ","; sj += "\"" + jesc(c.brief()) + "\""; }
    std::string zero; int nz = 0; for (size_t k = 0; k < g_specs.size(); ++k) if (!S->indnt[k] && !S->bad[k]) { if (nz++) zero += ","; zero += "\"" + g_specs[k]->name + "\""; }
    long mn = -1; for (size_t k = 0; k < g_specs.size(); ++k) if (!S->bad[k] && (mn < 0 || S->indnt[k] < mn)) mn = S->indnt[k];
    std::string mj; for (size_t k = 0; k < missing.size(); ++k) mj += (k ? ",\"" : "\"") + missing[k] + "\"";
    std::string js = fmt("{\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%ld,\"discarded\":%ld,\"values_decided\":%ld,\"values_seen\":%ld,\"indicators\":%d,\"cases_per_indicator\":%ld,\"least_nontrivial_per_indicator\":%ld,\"unreproduced\":%d,\"blocks_past_deadline\":%ld,\"broken\":%s,\"wall_s\":%.2f,",
        (long)S->evals, (long)S->nt, (long)S->distinct, (long)S->skips, (long)S->decided, (long)S->total, (int)g_specs.size(), per, mn, unrepro, (long)S->late, broken ? "true" : "false", wall)
        + "\"rule\":\"" + jesc(P->rule) + "\",\"never_nontrivial\":[" + zero + "],\"missing\":[" + mj + "],\"samples\":[" + sj + "],\"violations\":[" + vj + "]}\n";
    if (out.empty()) fputs(js.c_str(), stdout); else { FILE* f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(js.c_str(), f); fclose(f); }
    return broken ? 4 : real ? 1 : 0;
}
int main(int argc, char** argv) { return driver_main(argc, argv); }
