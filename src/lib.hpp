// Calls of msolve as a library: argument marshalling, canonical results, and
// their oracles.
#pragma once
#include "solve.hpp"
#include "zdim.hpp"
#include "real.hpp"

extern "C" {
int64_t export_f4(void *(*)(size_t), int32_t *, int32_t **, int32_t **, void **, const int32_t *, const int32_t *, const void *, const uint32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t);
int64_t export_nf(void *(*)(size_t), int32_t *, int32_t **, int32_t **, void **, const int32_t, const int32_t *, const int32_t *, const void *, const int32_t, const int32_t *, const int32_t *, const void *, const uint32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t);
int64_t export_groebner_qq(void *(*)(size_t), int32_t *, int32_t **, int32_t **, void **, const int32_t *, const int32_t *, const void *, const uint32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t);
void msolve_julia(void *(*)(size_t), int32_t *, int32_t *, int32_t *, int32_t *, int32_t **, char ***, void **, void **, int32_t *, void **, int32_t **, int32_t *, int32_t *, void *, char **, char *, const uint32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t);
void free_f4_julia_result_data(void (*)(void *), int32_t **, int32_t **, void **, const int64_t, const int64_t);
void free_msolve_julia_result_data(void (*)(void *), int32_t **, void **, void **, int32_t **, const int64_t, const int64_t, const int64_t);
}

struct LibCall {
    enum Kind { F4, NF, QQ, SOLVE } kind = F4;
    Sys s; uint64_t p = 0;
    int mo = 0, elim = 0, la = 2, reset = 0, reduce = 1, pairs = 0, ht = 12, thr = 1, isgb = 0, getparam = 1, prec = 64, gen = 2;
    std::vector<std::string> probes;
    std::string name() const {
        static const char *K[] = {"export_f4", "export_nf", "export_groebner_qq", "msolve_julia"};
        std::string r = std::string(K[kind]) + "(" + run::join(s.vars, ",") + "; " + run::join(s.polys, ", ") + "; char " + std::to_string(p);
        auto add = [&](const char *n, int v, int d) { if (v != d) r += std::string(", ") + n + " " + std::to_string(v); };
        add("order", mo, 0); add("elim", elim, 0); add("la", la, 2); add("reset_ht", reset, 0); add("reduce", reduce, 1); add("pairs", pairs, 0); add("ht", ht, 12); add("threads", thr, 1); add("is_gb", isgb, 0);
        if (kind == NF) r += ", reducing " + run::join(probes, ", ");
        if (kind == SOLVE) { r += ", get_param " + std::to_string(getparam); add("precision", prec, 64); add("genericity", gen, 2); }
        return r + ")";
    }
};

// a polynomial list as the arrays of the library
struct Arrays {
    std::vector<int32_t> lens, exps, cfs; std::vector<mpz_ptr> q; std::vector<std::string> before;
    int nv = 0; uint64_t p = 0;
    void load(const std::vector<std::string> &t, const std::vector<std::string> &vars, uint64_t p_) {
        nv = vars.size(); p = p_;
        AQ A = mkq(nv);
        int g = 0;
        for (auto &s : t) {
            auto f = A.parse(s, vars);
            if (p) { AP B = mkp(p, nv); AQ::Poly h; for (auto &m : f) if (B.f.fromq(m.c)) h.push_back(m); f = h; }
            if (g++ % 2) std::reverse(f.begin(), f.end()); // the terms may come in any order
            if (f.empty()) { lens.push_back(1); for (int i = 0; i < nv; ++i) exps.push_back(0); push(0); continue; }
            lens.push_back(f.size());
            int k = 0;
            for (auto &m : f) {
                for (int i = 0; i < nv; ++i) exps.push_back(m.m.e[i]);
                push(m.c, k++);
            }
        }
        for (auto z : q) before.push_back(mpz_class(z).get_str());
        cfs0 = cfs; lens0 = lens; exps0 = exps;
    }
    std::vector<int32_t> cfs0, lens0, exps0;
    void push(const mpq_class &c, int k = 0) {
        if (p) {
            FieldP f; f.p = p; uint64_t v = f.fromq(c);
            int64_t x = v;
            if (k % 3 == 1) x = (int64_t)v - (int64_t)p;          // a negative representative
            if (k % 3 == 2 && v + p < 2147483648ull) x = v + p;    // one that is not reduced
            cfs.push_back((int32_t)x);
        } else {
            mpz_ptr a = (mpz_ptr)malloc(sizeof(*a)), b = (mpz_ptr)malloc(sizeof(*b));
            mpz_init_set(a, c.get_num_mpz_t()); mpz_init_set(b, c.get_den_mpz_t());
            if (k % 3 == 1) { mpz_mul_ui(a, a, 6); mpz_mul_ui(b, b, 6); } // an unreduced fraction
            q.push_back(a); q.push_back(b);
        }
    }
    void *cf() { return p ? (void *)cfs.data() : (void *)q.data(); }
    // the caller's data must be unchanged (coefficients: modulo the characteristic)
    std::string changed() const {
        if (lens != lens0) return "the caller's lengths were changed";
        if (exps != exps0) return "the caller's exponents were changed";
        for (size_t i = 0; i < cfs.size(); ++i) if (((int64_t)cfs[i] - (int64_t)cfs0[i]) % (int64_t)p) return "a coefficient of the caller was changed";
        for (size_t i = 0; i < q.size(); ++i) if (mpz_class(q[i]).get_str() != before[i]) return "a coefficient of the caller was changed";
        return "";
    }
    ~Arrays() { for (auto z : q) { mpz_clear(z); free(z); } }
};

namespace lib {
static std::string term(const std::string &c, const int32_t *e, const std::vector<std::string> &vars) {
    std::string s = c;
    for (size_t i = 0; i < vars.size(); ++i) if (e[i]) s += "*" + vars[i] + (e[i] != 1 ? "^" + std::to_string(e[i]) : "");
    return s;
}
// executes the call in this process; the result as text, or "!..." for a broken result
inline std::string exec(const LibCall &k) {
    g_rand.calls = 0; g_rand.pos = 0; g_rand.state = 88172645463325252ull;
    Arrays a; a.load(k.s.polys, k.s.vars, k.p);
    int nv = k.s.vars.size();
    std::string r;
    if (k.kind == LibCall::F4 || k.kind == LibCall::NF || k.kind == LibCall::QQ) {
        int32_t ld = -7, *len = (int32_t *)1, *exp = (int32_t *)1; void *cf = (void *)1; int64_t n = 0;
        Arrays b; if (k.kind == LibCall::NF) b.load(k.probes, k.s.vars, k.p);
        if (k.kind == LibCall::F4)
            n = export_f4(malloc, &ld, &len, &exp, &cf, a.lens.data(), a.exps.data(), a.cf(), k.p, k.mo, k.elim, nv, a.lens.size(), k.ht, k.thr, k.pairs, k.reset, k.la, k.reduce, 0, 0);
        else if (k.kind == LibCall::NF)
            n = export_nf(malloc, &ld, &len, &exp, &cf, b.lens.size(), b.lens.data(), b.exps.data(), b.cf(), a.lens.size(), a.lens.data(), a.exps.data(), a.cf(), k.p, k.mo, k.elim, nv, k.isgb, k.thr, 0);
        else
            n = export_groebner_qq(malloc, &ld, &len, &exp, &cf, a.lens.data(), a.exps.data(), a.cf(), 0, k.mo, k.elim, nv, a.lens.size(), k.ht, k.thr, k.pairs, k.reset, k.la, k.reduce, 0, 0, 0);
        if (len == (void *)1 || exp == (void *)1 || cf == (void *)1 || ld == -7) return "!the results were not returned";
        int64_t t = 0;
        for (int i = 0; i < ld; ++i) {
            if (len[i] < 0) return "!a negative length was returned";
            for (int j = 0; j < len[i]; ++j, ++t) r += (j ? " + " : "") + term(k.p ? std::to_string(((int32_t *)cf)[t]) : "(" + mpz_class(((mpz_t *)cf)[t]).get_str() + ")", exp + t * nv, k.s.vars);
            r += "\n";
        }
        if (t != n) return "!" + std::to_string(n) + " terms were announced, " + std::to_string(t) + " are in the polynomials";
        std::string e = a.changed(); if (e.empty()) e = b.changed();
        free_f4_julia_result_data(free, &len, &exp, &cf, ld, k.p);
        if (!e.empty()) return "!" + e;
        return r;
    }
    // msolve_julia, in the notation of the program's answer
    int32_t ld = -7, nvr = -7, dim = -7, dq = -7, *lens = NULL, nreal = -7, *den = NULL; char **names = NULL; void *form = NULL, *cf = NULL, *num = NULL;
    std::vector<char *> vn; std::vector<std::string> vcopy = k.s.vars; for (auto &s : vcopy) vn.push_back((char *)s.c_str());
    msolve_julia(malloc, &ld, &nvr, &dim, &dq, &lens, &names, &form, &cf, &nreal, &num, &den, a.lens.data(), a.exps.data(), a.cf(), vn.data(), NULL, k.p, k.mo, k.elim, nv, a.lens.size(), k.ht, k.thr, k.pairs, k.reset, k.la, 0, 0, k.getparam, k.gen, k.prec, 0);
    std::string e = a.changed(); if (!e.empty()) return "!" + e;
    if (vcopy != k.s.vars) return "!the caller's names were changed";
    if (dim == -1) return "[-1] load " + std::to_string(ld);
    if (dim > 0) return "[1, " + std::to_string(nvr) + ", -1, []]";
    if (dim == 0 && dq == 0) return "[-1] load " + std::to_string(ld) + " degree 0";
    if (!lens || !cf || !names) return "!the results were not returned (dimension " + std::to_string(dim) + ", degree " + std::to_string(dq) + ")";
    auto Z = [&](void *z, int64_t i) { return mpz_class(((mpz_t *)z)[i]).get_str(); };
    int64_t t = 0;
    auto poly = [&](int n) { std::string s = "[" + std::to_string(n - 1) + ", ["; for (int i = 0; i < n; ++i) { s += i ? ", " : ""; s += Z(cf, t++); } return s + "]]"; };
    r = "[0, [0,\n" + std::to_string(nvr) + ",\n" + std::to_string(dq) + ",\n[";
    for (int i = 0; i < nvr; ++i) r += std::string(i ? ", " : "") + "'" + names[i] + "'";
    r += "],\n[";
    for (int i = 0; i < nvr; ++i) r += (i ? ", " : "") + (form ? Z(form, i) : std::string(i + 1 < nvr ? "0" : "1"));
    r += "],\n[1,\n["; r += poly(lens[0]); r += ",\n"; r += poly(lens[1]); r += ",\n[";
    if (ld != nvr + 1) return "!the load is " + std::to_string(ld) + ", but there are " + std::to_string(nvr) + " variables";
    for (int i = 2; i < ld; ++i) { std::string s = poly(lens[i] - 1); std::string d = Z(cf, t++); r += (i > 2 ? ",\n" : "") + std::string("[") + s + ", " + d + "]"; }
    r += "]]]],\n[1, [";
    t = 0;
    for (int i = 0; i < nreal; ++i) { // a side is (num * 2^-den), both ends; every point has the variables of the parametrization or of the input
        r += i ? ", [" : "[";
        for (int j = 0; j < nv; ++j) { r += (j ? ", [" : "["); for (int q = 0; q < 2; ++q, ++t) { mpq_class v(mpz_class(((mpz_t *)num)[t])); if (den[t] >= 0) mpq_div_2exp(v.get_mpq_t(), v.get_mpq_t(), den[t]); else mpq_mul_2exp(v.get_mpq_t(), v.get_mpq_t(), -den[t]); r += (q ? ", " : "") + v.get_str(); } r += "]"; }
        r += "]";
    }
    r += "]]]:";
    free_msolve_julia_result_data(free, &lens, &cf, &num, &den, ld, nreal, k.p);
    return r;
}

// is this the right result of the call?
inline std::string judge(const LibCall &k, const std::string &r, run::Ctx *c = NULL) {
    if (!r.empty() && r[0] == '!') return r.substr(1);
    int nv = k.s.vars.size();
    std::vector<std::string> lines; { std::istringstream is(r); std::string l; while (std::getline(is, l)) lines.push_back(l); }
    auto strip = [](std::vector<std::string> v) { for (auto &s : v) { std::string t; for (char ch : s) if (ch != ' ' && ch != '(' && ch != ')') t += ch; size_t q; while ((q = t.find("+-")) != std::string::npos) t.erase(q, 1); s = t; } return v; };
    try {
        if (k.kind == LibCall::F4 && (k.la == 42 || k.la == 44) && k.p < (1u << 29)) return ""; // documented as probabilistic
        if (k.kind == LibCall::F4) {
            AP A = mkp(k.p, nv, k.mo ? nv - 1 : k.elim);
            auto I = parse_all(A, k.s.polys, k.s.vars); auto G = A.gb(I); if (c) c->modelsteps += A.steps;
            auto H = parse_all(A, strip(lines), k.s.vars);
            if (G.empty()) { for (auto &h : H) if (!h.empty()) return "the zero ideal has a nonzero basis element"; return ""; }
            for (auto &h : H) if (h.empty() || h[0].c != A.f.one()) return "a basis element is zero or not monic";
            if (!k.reduce) { H = A.gb(H); return A.strs(H, k.s.vars) == A.strs(G, k.s.vars) ? "" : "the basis generates another ideal"; }
            return A.strs(G, k.s.vars) == A.strs(H, k.s.vars) ? "" : "wrong basis: expected " + run::oneline(A.strs(G, k.s.vars), 600) + " got " + run::oneline(A.strs(H, k.s.vars), 600);
        }
        if (k.kind == LibCall::NF) {
            AP A = mkp(k.p, nv, k.mo ? nv - 1 : k.elim);
            auto I = parse_all(A, k.s.polys, k.s.vars); auto G = A.gb(I); if (c) c->modelsteps += A.steps;
            auto H = parse_all(A, strip(lines), k.s.vars);
            if (H.size() != k.probes.size()) return std::to_string(k.probes.size()) + " polynomials were given, " + std::to_string(H.size()) + " returned";
            for (size_t i = 0; i < H.size(); ++i) { auto w = A.nf(A.parse(k.probes[i], k.s.vars), G); if (!A.eq(w, H[i])) return "wrong remainder of " + k.probes[i] + ": expected " + A.str(w, k.s.vars) + " got " + A.str(H[i], k.s.vars); }
            return "";
        }
        if (k.kind == LibCall::QQ) {
            AQ A = mkq(nv, k.elim);
            auto I = parse_all(A, k.s.polys, k.s.vars); auto G = A.gb(I); if (c) c->modelsteps += A.steps;
            if (k.elim) { std::vector<AQ::Poly> E; for (auto &g : G) { bool in = true; for (int i = 0; i < k.elim; ++i) if (g[0].m.e[i]) in = false; if (in) E.push_back(g); } G = E; }
            auto H = parse_all(A, strip(lines), k.s.vars);
            if (G.empty()) { for (auto &h : H) if (!h.empty()) return "the zero ideal has a nonzero basis element"; return ""; }
            for (auto &h : H) { if (h.empty()) return "a basis element is zero"; A.monic(h); }
            return A.strs(G, k.s.vars) == A.strs(H, k.s.vars) ? "" : "wrong basis: expected " + run::oneline(A.strs(G, k.s.vars), 600) + " got " + run::oneline(A.strs(H, k.s.vars), 600);
        }
        AQ A = mkq(nv);
        auto I = parse_all(A, k.s.polys, k.s.vars);
        Solutions<FieldQ> sol; sol.solve(A, I, 60); if (c) c->modelsteps += sol.steps;
        if (sol.verdict == -1) return r.substr(0, 4) == "[-1]" ? "" : "the system has no solution, got " + run::oneline(r, 100);
        if (sol.verdict == 1) return r.substr(0, 3) == "[1," ? "" : "the system has infinitely many solutions, got " + run::oneline(r, 100);
        if (sol.big) return "";
        if (r.substr(0, 3) != "[0,") return "the system has finitely many solutions, got " + run::oneline(r, 100);
        Tree t = parse_answer(r);
        std::string e = cmp_param(sol, I, t[1], k.s.vars, 0);
        if (!e.empty()) { if (hidden_class(sol, I, t[1], k.s.vars, 0)) return "class:hidden-solutions"; return e; }
        if (k.getparam > 1) return "";
        RealModel R; if (!R.build(sol)) return "";
        std::vector<int> where(nv, 0); int pv = -1;
        for (int v = 0; v < nv; ++v) for (size_t q = 0; q < t[1][3].size(); ++q) if (t[1][3][q].a() == "'" + k.s.vars[v] + "'") { where[v] = q; if (q + 1 == t[1][3].size()) pv = v; }
        return R.boxes(t[2], where, nullptr, k.prec, pv);
    } catch (std::exception &e) { return std::string("unreadable result: ") + e.what() + " in " + run::oneline(r, 300); }
}
} // namespace lib
