// C24: stateful (model-based) testing of one container family. A case is a kind, its parameters and a list of operations;
// it runs in a forked process against the real container and a plain model; failures are shrunk and written out.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <functional>
#include <limits>
#include <random>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

struct Op { int op = 0, a = 0; double x = 0; };
struct Case { std::string kind; std::vector<int> par; std::vector<Op> ops; };
struct Fail { std::string msg; };
[[noreturn]] inline void bad(const char *f, ...) { char b[400]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); throw Fail{b}; }
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool bits(double a, double b) { return !memcmp(&a, &b, 8); }

struct Rng {
    std::mt19937_64 g;
    int in(int lo, int hi) { return lo + (int)(g() % (uint64_t)(hi - lo + 1)); }
    bool p(double q) { return (g() >> 11) * 0x1p-53 < q; }
    double u() { return (g() >> 11) * 0x1p-53; }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[in(0, (int)l.size() - 1)]; }
};

// provided by each family
Case gen(Rng &r);
void check(const Case &c);                // throws Fail
bool nontrivial(const Case &c);

inline std::string text(const Case &c) {
    std::ostringstream o;
    o << c.kind; for (int p : c.par) o << ' ' << p; o << '\n';
    for (auto &p : c.ops) { char b[80]; snprintf(b, sizeof b, "%d %d %.17g\n", p.op, p.a, p.x); o << b; }
    return o.str();
}
inline Case parse(const std::string &t) {
    Case c; std::istringstream i(t); std::string l; getline(i, l); std::istringstream h(l); h >> c.kind; int p; while (h >> p) c.par.push_back(p);
    while (getline(i, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream q(l); Op o; std::string x; q >> o.op >> o.a >> x; o.x = strtod(x.c_str(), nullptr); c.ops.push_back(o); }
    return c;
}
// "" passes; otherwise what failed. In a child, so that a crash is an answer too.
inline std::string judge(const Case &c) {
    int fd[2]; if (pipe(fd)) exit(3);
    pid_t pid = fork();
    if (!pid) {
        close(fd[0]); rlimit rl{10, 10}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
        std::string m; try { check(c); } catch (Fail &f) { m = f.msg.empty() ? "?" : f.msg; }
        if (!m.empty() && write(fd[1], m.data(), m.size()) < 0) _exit(3);
        _exit(0);
    }
    close(fd[1]); std::string m; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) m.append(b, n);
    close(fd[0]); int st; waitpid(pid, &st, 0);
    if (m.empty() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) m = "crash, sanitizer report or failed assertion";
    return m;
}
inline Case shrink(Case c) {
    for (size_t k = c.ops.size(); k; k = k > 1 ? k / 2 : 0)
        for (size_t i = 0; i < c.ops.size();) {
            Case d = c; d.ops.erase(d.ops.begin() + i, d.ops.begin() + std::min(d.ops.size(), i + k));
            if (!judge(d).empty()) c = d; else i += k;
        }
    for (auto &p : c.par) while (p > 1) { int o = p; p--; if (judge(c).empty()) { p = o; break; } }
    for (size_t i = 0; i < c.ops.size(); i++) for (double v : {0., 1., 2.}) { Case d = c; d.ops[i].x = v; if (c.ops[i].x != v && !judge(d).empty()) { c = d; break; } }
    return c;
}
inline std::string esc(const std::string &s) { std::string o; for (char ch : s) if (ch == '\n') o += "; "; else if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else o += ch; return o; }

int main(int n, char **v) {
    if (n == 3 && !strcmp(v[1], "replay")) {
        std::ifstream f(v[2]); std::stringstream s; s << f.rdbuf();
        std::string m = judge(parse(s.str())); puts(m.empty() ? "passes" : m.c_str()); return !m.empty();
    }
    if (n != 5) return 3;
    // SEED CASES OUT REPLAY-PREFIX
    uint64_t seed = strtoull(v[1], 0, 10); long cases = atol(v[2]); std::string out = v[3], pre = v[4];
    std::set<size_t> distinct; long nontriv = 0; std::vector<std::string> samples, viol; std::set<std::string> seen;
    const long B = 100; int fails = 0;
    volatile int *at = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (long i = 0; i < cases && fails < 40; i += B) {
        std::vector<Case> cs;
        for (long j = i; j < std::min(cases, i + B); j++) {
            Rng r; r.g.seed(seed * 1000003 + j); for (int k = 0; k < 3; k++) r.g();
            cs.push_back(gen(r));
            if (nontrivial(cs.back())) { nontriv++; std::string t = text(cs.back()); distinct.insert(std::hash<std::string>()(t)); if (samples.size() < 2 && t.size() < 600) samples.push_back(esc(t)); }
        }
        size_t from = 0;
        while (from < cs.size() && fails < 40) {
            pid_t pid = fork();
            if (!pid) { if (!freopen("/dev/null", "w", stderr)) _exit(3); alarm(120); try { for (*at = (int)from; *at < (int)cs.size(); ++*at) check(cs[*at]); } catch (Fail &) { _exit(1); } _exit(0); }
            int st; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            fails++; from = *at + 1;
            const Case &c = cs[std::min<size_t>(*at, cs.size() - 1)];
            if (viol.size() >= 6 || seen.count(c.kind) || judge(c).empty()) continue;
            seen.insert(c.kind);
            Case s = shrink(c); std::string p = pre + s.kind + ".txt"; std::ofstream(p) << text(s);
            viol.push_back("{\"indicator\": \"" + s.kind + "\", \"message\": \"" + esc(judge(s)) + "\", \"replay\": \"" + p + "\", \"brief\": \"" + esc(text(s)).substr(0, 500) + "\"}");
        }
    }
    std::ofstream o(out);
    o << "{\"evaluations\": " << cases << ", \"nontrivial\": " << nontriv << ", \"distinct\": " << distinct.size() << ", \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? ", " : "") << '"' << samples[i] << '"';
    o << "], \"violations\": [";
    for (size_t i = 0; i < viol.size(); i++) o << (i ? ", " : "") << viol[i];
    o << "]}\n";
    return 0;
}
