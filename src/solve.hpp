// oracles for the solving mode
#pragma once
#include "gb.hpp"
#include "uni.hpp"

// what the output claims: "" if the verdict is the expected one
template <class F> std::string cmp_verdict(const Solutions<F> &s, const Tree &t) {
    if (s.verdict == -1) return t.size() == 1 && t[0].a() == "-1" ? "" : "the system has no solution, but another verdict was printed";
    if (s.verdict == 1) return t.size() == 4 && t[0].a() == "1" && t[1].num() == s.a.o.nv && t[2].a() == "-1" && t[3].size() == 0 ? "" : "the system has infinitely many solutions, but another verdict was printed";
    return t.size() >= 2 && t[0].a() == "0" ? "" : "the system has finitely many solutions, but another verdict was printed";
}
inline Uni<FieldP>::P upoly(const Tree &t, const Uni<FieldP> &u) { // [deg,[c...]]
    Uni<FieldP>::P r; long d = t[0].num();
    if (d == -1 && t[1].size() == 1 && t[1][0].a() == "0") return r; // the zero polynomial
    if ((long)t[1].size() != d + 1) throw std::runtime_error("a printed polynomial has the wrong number of coefficients");
    for (size_t i = 0; i < t[1].size(); ++i) { mpz_class z = t[1][i].z(); if (z < 0 || z >= mpz_class(std::to_string(u.f.p))) throw std::runtime_error("a printed coefficient is not reduced"); r.push_back(z.get_ui()); }
    u.trim(r); return r;
}
inline Uni<FieldQ>::P upoly(const Tree &t, const Uni<FieldQ> &u) {
    Uni<FieldQ>::P r; long d = t[0].num();
    if (d == -1 && t[1].size() == 1 && t[1][0].a() == "0") return r; // the zero polynomial
    if ((long)t[1].size() != d + 1) throw std::runtime_error("a printed polynomial has the wrong number of coefficients");
    for (size_t i = 0; i < t[1].size(); ++i) r.push_back(mpq_class(t[1][i].z()));
    u.trim(r); return r;
}
// value of a polynomial at coordinates modulo w
template <class F> typename Uni<F>::P subst(const Uni<F> &u, const typename Alg<F>::Poly &f, const std::vector<typename Uni<F>::P> &x, const typename Uni<F>::P &w) {
    typedef typename Uni<F>::P P;
    std::vector<std::vector<P>> pw(x.size());
    for (size_t i = 0; i < x.size(); ++i) pw[i].push_back(u.rem(P{u.f.one()}, w));
    P r;
    for (auto &t : f) {
        P m{t.c};
        m = u.rem(m, w);
        for (size_t i = 0; i < x.size(); ++i) if (t.m.e[i]) {
            while (pw[i].size() <= t.m.e[i]) pw[i].push_back(u.rem(u.mul(pw[i].back(), x[i]), w));
            m = u.rem(u.mul(m, pw[i][t.m.e[i]]), w);
        }
        r = u.add(r, m);
    }
    return r;
}
// The printed parametrization p = [char, nvars, deg, vars, form, [1,[elim, denom, coords]]]
// describes exactly the solutions of the polynomials I.  With a smaller degree
// (incomplete separation) it is wrong.
template <class F> std::string cmp_param(const Solutions<F> &s, const std::vector<typename Alg<F>::Poly> &I, const Tree &p, const std::vector<std::string> &vars, long chr) {
    typedef typename Uni<F>::P P;
    const Uni<F> &u = s.u;
    if (p.size() != 6) return "the parametrization has " + std::to_string(p.size()) + " entries";
    if (p[0].num() != chr) return "the parametrization announces characteristic " + p[0].a();
    size_t nl = p[3].size();
    if (p[1].num() != (long)nl) return "the parametrization announces " + p[1].a() + " variables, but lists " + std::to_string(nl);
    if (p[2].num() != (long)s.mult) return "the number of solutions with multiplicity is " + std::to_string(s.mult) + ", printed " + p[2].a();
    std::vector<int> where(vars.size(), -1);
    bool extra = nl == vars.size() + 1;
    if (nl != vars.size() && !extra) return "the parametrization lists " + std::to_string(nl) + " variables";
    for (size_t i = 0; i < vars.size(); ++i) {
        std::string n = p[3][i].a();
        if (n.size() < 2 || n[0] != '\'' || n.back() != '\'') return "badly quoted variable " + n;
        n = n.substr(1, n.size() - 2);
        int k = -1; for (size_t j = 0; j < vars.size(); ++j) if (vars[j] == n && where[j] < 0) { k = j; break; }
        if (k < 0) return "the parametrization lists the variable " + n + " wrongly";
        where[k] = i;
    }
    if (extra && p[3][nl - 1].a() != "'A'") return "the parametrization lists an unknown variable " + p[3][nl - 1].a();
    if (p[4].size() != nl) return "the linear form has " + std::to_string(p[4].size()) + " coefficients";
    if (p[5].size() != 2 || p[5][0].a() != "1" || p[5][1].size() != 3) return "malformed parametrization";
    const Tree &q = p[5][1];
    P w = upoly(q[0], u), den;
    if ((long)q[2].size() != (long)nl - 1) return "the parametrization has " + std::to_string(q[2].size()) + " coordinates";
    if (Uni<F>::deg(w) != (long)s.N) return "the eliminating polynomial has degree " + std::to_string(Uni<F>::deg(w)) + ", but there are " + std::to_string(s.N) + " distinct solutions";
    P wd = u.der(w);
    if (Uni<F>::deg(u.gcd(w, wd)) != 0) return "the eliminating polynomial is not squarefree";
    P denom = upoly(q[1], u);
    P dinv;
    if (chr == 0) { if (denom != wd) return "the denominator is not the derivative of the eliminating polynomial"; dinv = u.invmod(denom, w); if (dinv.empty() && Uni<F>::deg(w) > 0) return "the denominator is not invertible"; }
    else { if (Uni<F>::deg(denom) != 0 || denom[0] != u.f.one()) return "the denominator is not one"; dinv = denom; }
    std::vector<P> X(nl);
    for (size_t i = 0; i + 1 < nl; ++i) {
        P v; 
        if (chr == 0) { if (q[2][i].size() != 2) return "malformed coordinate"; v = upoly(q[2][i][0], u); mpz_class c = q[2][i][1].z(); if (c == 0) return "a coordinate has denominator zero"; v = u.scale(v, u.f.inv(u.f.fromz(c))); }
        else { if (q[2][i].size() != 1) return "malformed coordinate"; v = upoly(q[2][i][0], u); }
        if (Uni<F>::deg(v) >= Uni<F>::deg(w)) return "a coordinate polynomial has too large degree";
        X[i] = u.rem(u.mul(u.sub(P(), v), dinv), w);
    }
    X[nl - 1] = u.rem(P{u.f.zero(), u.f.one()}, w);
    std::vector<P> x(vars.size());
    for (size_t i = 0; i < vars.size(); ++i) x[i] = X[where[i]];
    for (size_t i = 0; i < I.size(); ++i) {
        P r = subst(u, I[i], x, w);
        if (!r.empty()) return "input polynomial " + std::to_string(i + 1) + " does not vanish at the parametrized solutions";
    }
    P form; bool unit = true;
    for (size_t i = 0; i < nl; ++i) {
        mpq_class c = p[4][i].q();
        if (c != (i + 1 < nl ? 0 : 1)) unit = false;
        form = u.add(form, u.scale(X[i], u.f.fromq(c)));
    }
    if (extra) { if (unit && nl > 1) return "the linear form of the added variable is not stated"; form = u.rem(form, w); if (!form.empty()) return "the stated linear form does not vanish at the parametrized solutions"; }
    else { form = u.rem(u.sub(form, X[nl - 1]), w); if (!form.empty()) return "the stated linear form is not the parameter"; }
    return "";
}

// The recorded defect "hidden-solutions": outside shape position msolve checks a
// parametrization by t (the last listed variable, or the added linear form) only
// through sequences l(x_i^k t^j), which do not see a solution Q if another
// solution with the same t has a larger index of nilpotency of t - t(Q).  This
// function says whether the printed answer differs from the right one exactly
// by such solutions.
template <class F> bool hidden_class(const Solutions<F> &s, const std::vector<typename Alg<F>::Poly> &I, const Tree &p, const std::vector<std::string> &vars, long chr) {
    typedef typename Uni<F>::P P; typedef typename Alg<F>::Poly Poly;
    try {
        Alg<F> A = s.a; const Uni<F> &u = s.u;
        Poly t;
        size_t nl = p[3].size();
        auto varof = [&](size_t i) { for (size_t j = 0; j < vars.size(); ++j) if ("'" + vars[j] + "'" == p[3][i].a()) return (int)j; return -1; };
        Mono one;
        if (nl == vars.size()) { int ti = varof(nl - 1); if (ti < 0 || nl < 2) return false; t = A.var(ti); }
        else { // an added variable A with sum l_i x_i + l_A A = 0
            for (size_t i = 0; i + 1 < nl; ++i) { int j = varof(i); if (j < 0) return false; t = A.submul(t, u.f.fromq(p[4][i].q()), one, A.var(j)); }
            auto la = u.f.fromq(p[4][nl - 1].q()); if (u.f.is0(la)) return false;
            for (auto &x : t) x.c = u.f.mul(x.c, u.f.inv(la));
        }
        t = A.nf(t, s.G);
        P mu = s.minpoly(t, s.G, A.stair(s.G)), w = u.sqf(mu);
        if (Uni<F>::deg(w) >= (int)s.N || mu.size() == w.size()) return false;
        // the answer must be right as a description of deg(w) of the solutions
        Solutions<F> z = s; z.N = Uni<F>::deg(w);
        if (!cmp_param(z, I, p, vars, chr).empty()) return false;
        // the ideal of the solutions that are not described
        const Tree &q = p[5][1];
        P ww = upoly(q[0], u); if (u.monic(ww) != w) return false;
        P dinv = chr == 0 ? u.invmod(u.der(ww), ww) : P{u.f.one()};
        auto topoly = [&](const P &g) { Poly r, pw = A.cst(u.f.one()); for (auto &cc : g) { r = A.submul(r, u.f.sub(u.f.zero(), cc), one, pw); pw = A.nf(A.mulp(pw, t), s.G); } return r; };
        Poly h; long lam = 1;
        for (size_t i = 0; i + 1 < nl; ++i) {
            P v = upoly(q[2][i][0], u);
            if (chr == 0) v = u.scale(v, u.f.inv(u.f.fromz(q[2][i][1].z())));
            P x = u.rem(u.mul(u.sub(P(), v), dinv), ww);
            h = A.submul(h, u.f.fromz(-lam), one, A.sub(A.var(varof(i)), topoly(x)));
            lam = lam * 1009 + 17;
        }
        auto H = A.saturate(s.G, h);
        Solutions<F> sh; sh.solve(s.a, H);
        if (sh.verdict != 0 || sh.N != s.N - Uni<F>::deg(w)) return false;
        P muh = sh.minpoly(A.nf(t, sh.G), sh.G, A.stair(sh.G));
        return u.rem(mu, u.mul(muh, u.sqf(muh))).empty();
    } catch (std::exception &) { return false; }
}
