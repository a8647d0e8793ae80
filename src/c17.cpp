// C17: all processor variants compute the same results.  The variants of the
// real program are loaded as shared objects into one explorer.
#include "solve.hpp"
#include "zdim.hpp"
#include <dlfcn.h>

typedef std::vector<std::string> Args;
typedef int (*main_t)(int, char **);
static std::vector<std::pair<std::string, main_t>> V;
static size_t cur;
extern "C" int msolve_main(int c, char **v) { return V[cur].second(c, v); }

// m dense linear forms in n variables, coefficients from a stream close to p or over all of the field
static Sys lin(int n, int m, uint64_t p, uint64_t seed, bool high) {
    Sys s; s.name = "linear " + std::to_string(n) + " variables, " + std::to_string(m) + " equations"; s.vars.clear();
    for (int i = 0; i < n; ++i) s.vars.push_back("x" + std::to_string(i + 1));
    uint64_t st = seed * 2862933555777941757ull + 3037000493ull + n;
    for (int j = 0; j < m; ++j) {
        std::string q;
        for (int i = 0; i <= n; ++i) {
            st = st * 6364136223846793005ull + 1442695040888963407ull;
            uint64_t c = high ? p - 1 - (st >> 33) % std::min<uint64_t>(4, p - 1) : (st >> 33) % p;
            if (!c) continue;
            q += (q.empty() ? "" : "+") + std::to_string(c) + (i < n ? "*" + s.vars[i] : "");
        }
        s.polys.push_back(q.empty() ? "0" : q);
    }
    return s;
}
// two dense polynomials of degrees a and b in two variables
static Sys plane(int a, int b, uint64_t p, uint64_t seed, bool high) {
    Sys s; s.name = "plane curves of degrees " + std::to_string(a) + "," + std::to_string(b); s.vars = vnames(2);
    uint64_t st = seed * 2862933555777941757ull + 3037000493ull + a * 31 + b;
    for (int d : {a, b}) {
        std::vector<std::vector<int>> M; allmonos(2, d, M); std::string q;
        for (auto &e : M) { st = st * 6364136223846793005ull + 1442695040888963407ull; uint64_t c = high ? p - 1 - (st >> 33) % std::min<uint64_t>(16, p - 1) : (st >> 33) % p; if (!c) continue; q += (q.empty() ? "" : "+") + std::to_string(c) + "*" + monostr(e, s.vars); }
        s.polys.push_back(q.empty() ? "0" : q);
    }
    return s;
}
// monomials and binomials in many variables (divisibility of exponent vectors of every length)
static Sys chain(int n, int kind) {
    Sys s; s.name = "chain " + std::to_string(n) + "/" + std::to_string(kind);
    for (int i = 0; i < n; ++i) s.vars.push_back("x" + std::to_string(i + 1));
    auto v = [&](int i) { return s.vars[((i % n) + n) % n]; };
    if (kind == 0) { for (int i = 0; i + 1 < n; ++i) s.polys.push_back(v(i) + "^2-" + v(i + 1)); if (n <= 16) s.polys.push_back(v(n - 1) + "^2-" + v(n - 1)); }
    if (kind == 1) { for (int i = 0; i + 2 < n; ++i) s.polys.push_back(i + 2 == n ? v(i) + "-1" : v(i) + "*" + v(i + 1) + "-" + v(i + 2)); s.polys.push_back(v(0) + "-" + v(n - 1)); if (n > 1) s.polys.push_back(v(0) + "^2-2*" + v(1) + "+1"); }
    if (kind == 2) { for (int i = 0; i < n; ++i) for (int j = i; j < n && j < i + 3; ++j) s.polys.push_back(v(i) + (i == j ? "^2" : "*" + v(j)) + "-" + v(n - 1) + (j + 1 < n ? "-" + v(j + 1) : "")); }
    if (kind == 3) { for (int i = 0; i < n; ++i) s.polys.push_back(v(i) + "^" + std::to_string(3 + i % 5) + "-1"); std::string m; for (int i = 0; i < n; ++i) m += (i ? "*" : "") + v(i); s.polys.push_back(m + "-" + v(n - 1)); if (n > 3) s.polys.resize(std::min<size_t>(s.polys.size(), 4)); }
    return s;
}

int main(int argc, char **argv) {
    run::Check ck("C17");
    bool th = ck.thorough();
    std::string names;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; size_t q = a.find('=');
        void *h = dlopen(a.substr(q + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
        main_t f = h ? (main_t)dlsym(h, "msolve_main") : NULL;
        if (!f) { fprintf(stderr, "%s\n", dlerror()); return 2; }
        V.push_back({a.substr(0, q), f}); names += (names.empty() ? "" : ",") + a.substr(0, q);
    }
    ck.rule = "case = (system, characteristic, options), run by every processor variant (" + names + ") under the same random stream and compared text by text; non-trivial = the answer has more than 60 characters";
    ck.assumptions = {"variants this processor cannot execute are not compared", "small systems are compared with the reference model by C01 to C09 on the native variant"};
    ck.extra["variants"] = run::Check::js(names);
    struct Part { std::string name; uint64_t n; std::function<void(uint64_t, run::Ctx &)> fn; };
    std::vector<Part> parts;
    auto cmp = [&](run::Ctx &c, const Args &o, const std::string &in, double limit = 20) {
        run::Result r0; std::string out;
        for (size_t v = 0; v < V.size(); ++v) {
            cur = v; run::Opts ro; ro.timeout = limit;
            auto same = [&](const run::Result &r) -> std::string {
                if (r.timeout || r.code >= 1000) return V[v].first + " variant ended with " + r.how();
                if (v == 0) return "";
                if (r.code != r0.code) return V[v].first + " variant ended with " + r.how() + ", " + V[0].first + " variant with " + r0.how();
                return r.out == r0.out ? "" : "the " + V[v].first + " variant prints another answer than the " + V[0].first + " variant";
            };
            run::Result r;
            if (!run::judge(c, o, in, ro, same, "variant " + V[v].first, &r)) return;
            if (v == 0) r0 = r;
        }
        c.states.insert(run::h64(r0.out)); if (r0.out.size() > 60) c.nontriv.insert(run::h64(in + run::join(o)));
    };
    std::vector<Args> LA{{"-g", "2"}, {"-g", "2", "-l", "1"}, {"-g", "2", "-l", "42"}, {"-g", "2", "-l", "44"}};
    {   // row lengths
        int N = th ? 200 : 135; std::vector<uint64_t> ps{3, 251, 257, 65521, 65537, 2147483647}; if (th) for (uint64_t p : {2, 127, 241, 32003, 1073741827}) ps.push_back(p);
        std::vector<int> ms_{3, 7}; uint64_t per = ps.size() * ms_.size() * 2;
        parts.push_back({"linear systems in 1.." + std::to_string(N) + " variables (every row length) x 3/7 equations x full/high coefficients x " + std::to_string(ps.size()) + " primes x linear algebras", (uint64_t)N * per, [=](uint64_t i, run::Ctx &c) {
            int n = i / per + 1; uint64_t j = i % per; uint64_t p = ps[j % ps.size()]; j /= ps.size(); int m = ms_[j % 2]; bool high = j / 2;
            auto s = lin(n, m, p, 5, high); std::string in = ms(s, p);
            for (auto &o : LA) if (th || o.size() == 2 || (n % 8) == 1 || (n + i) % 5 == 0) cmp(c, o, in);
        }});
        parts.push_back({"square linear systems, many rows", (uint64_t)(th ? 60 : 20) * ps.size(), [=](uint64_t i, run::Ctx &c) {
            int n = (i / ps.size() + 1) * (th ? 2 : 4); uint64_t p = ps[i % ps.size()];
            for (bool high : {false, true}) { std::string in = ms(lin(n, n - n / 4, p, 9, high), p); for (auto &o : LA) cmp(c, o, in); }
        }});
    }
    {   // dimensions of the quotient (multiplication matrices of every size and density)
        int D = th ? 13 : 10; std::vector<std::pair<int, int>> ab; for (int a = 1; a <= D; ++a) for (int b = 1; b <= a; ++b) ab.push_back({a, b});
        for (int b = 2; b <= (th ? 60 : 36); ++b) ab.push_back({b, 1});
        std::vector<uint64_t> ps{65537, 1073741827, 1518500183}; if (th) { ps.push_back(65521); ps.push_back(1500450271); }
        uint64_t per = ps.size() * 2;
        parts.push_back({"solving: dense plane curves, " + std::to_string(ab.size()) + " pairs of degrees x full/high coefficients x " + std::to_string(ps.size()) + " primes", ab.size() * per, [=](uint64_t i, run::Ctx &c) {
            auto d = ab[i / per]; uint64_t p = ps[i % ps.size()]; bool high = i / ps.size() % 2;
            auto s = plane(d.first, d.second, p, 3, high); std::string in = ms(s, p);
            cmp(c, {}, in); cmp(c, {"-g", "2"}, in); if (th) cmp(c, {"-l", "44"}, in);
        }});
        std::vector<uint64_t> pb{3, 251, 257, 65521};
        parts.push_back({"bases: dense plane curves over small fields", ab.size() * pb.size(), [=](uint64_t i, run::Ctx &c) {
            auto d = ab[i / pb.size()]; uint64_t p = pb[i % pb.size()]; if (d.first > 20) return;
            for (bool high : {false, true}) { std::string in = ms(plane(d.first, d.second, p, 4, high), p); for (auto &o : LA) cmp(c, o, in); }
        }});
    }
    {   // lengths of exponent vectors
        int N = th ? 48 : 36; std::vector<uint64_t> ps{251, 65521, 1073741827, 0};
        parts.push_back({"sparse systems in 1.." + std::to_string(N) + " variables (every length of exponent vectors), 4 kinds", (uint64_t)N * 4 * ps.size(), [=](uint64_t i, run::Ctx &c) {
            int n = i / 4 / ps.size() + 1, k = i % 4; uint64_t p = ps[i / 4 % ps.size()];
            if (n > 12 && k == 1) return; if (n > (th ? 20 : 14) && k == 2) return; if (n > 5 && k == 3) return;
            auto s = chain(n, k); if (s.polys.empty()) return; std::string in = ms(s, p);
            cmp(c, {"-g", "2"}, in); if (p && n < 8) { cmp(c, {"-g", "2", "-l", "44"}, in); if (n > 1) cmp(c, {"-g", "2", "-e", std::to_string(n / 2 + (n == 1))}, in); }
        }});
    }
    {   // named systems with every mode
        std::vector<Sys> L = named_small(); for (auto &s : named_medium()) L.push_back(s); if (th) for (auto &s : named_large()) L.push_back(s);
        std::vector<uint64_t> ps{0, 2, 251, 65521, 65537, 1073741827, 1518500183, 2147483647};
        parts.push_back({"named systems x " + std::to_string(ps.size()) + " characteristics x modes", L.size() * ps.size(), [=](uint64_t i, run::Ctx &c) {
            Sys s = L[i / ps.size()]; uint64_t p = ps[i % ps.size()]; std::string in = ms(s, p); bool ex = s.name.substr(0, 3) == "exp" || s.name == "manyvars";
            bool heavy = i / ps.size() >= named_small().size();
            for (auto &o : LA) if (p || o.size() == 2) { if (heavy && !p && !th) continue; cmp(c, o, in, 60); }
            if (p) { cmp(c, {"-g", "2", "-e", "1"}, in, 60); }
            if (!ex && (!p || (p >= 65521 && p < 1518500213))) { if (heavy && !p && !th) return; cmp(c, p ? Args{} : Args{"-P", "1"}, in, 60); }
            if (p && !ex) { Sys t = s; t.polys.push_back(s.polys[0]); std::swap(t.polys[0], t.polys.back()); cmp(c, {"-n", "1"}, ms(t, p), 60); if (p > 65536 && !heavy) cmp(c, {"-g", "2", "-S"}, ms(t, p), 60); }
        }});
    }
    uint64_t n = 0; std::vector<uint64_t> start; std::string fam = "[";
    for (size_t k = 0; k < parts.size(); ++k) { start.push_back(n); n += parts[k].n; fam += (k ? "," : "") + run::Check::js(parts[k].name + " (" + std::to_string(parts[k].n) + " cases)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0; size_t k = parts.size() - 1; while (start[k] > i) --k;
        double t0 = run::now();
        c.last = parts[k].name.substr(0, 30) + " " + std::to_string(i - start[k]);
        parts[k].fn(i - start[k], c);
        c.cnt["ms in part " + std::to_string(k)] += (uint64_t)((run::now() - t0) * 1000);
    });
    return ck.finish();
}
