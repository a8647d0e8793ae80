// Univariate polynomials over FieldP / FieldQ, naive; ascending coefficients.
#pragma once
#include "ref.hpp"
namespace ref {
template <class F> struct Uni {
    typedef typename F::C C;
    typedef std::vector<C> P;
    F f;
    void trim(P &a) const { while (!a.empty() && f.is0(a.back())) a.pop_back(); }
    static int deg(const P &a) { return (int)a.size() - 1; }
    P add(const P &a, const P &b) const { P r(std::max(a.size(), b.size()), f.zero()); for (size_t i = 0; i < a.size(); ++i) r[i] = a[i]; for (size_t i = 0; i < b.size(); ++i) r[i] = f.add(r[i], b[i]); trim(r); return r; }
    P sub(const P &a, const P &b) const { P r(std::max(a.size(), b.size()), f.zero()); for (size_t i = 0; i < a.size(); ++i) r[i] = a[i]; for (size_t i = 0; i < b.size(); ++i) r[i] = f.sub(r[i], b[i]); trim(r); return r; }
    P scale(const P &a, const C &c) const { P r = a; for (auto &x : r) x = f.mul(x, c); trim(r); return r; }
    P mul(const P &a, const P &b) const {
        if (a.empty() || b.empty()) return P();
        P r(a.size() + b.size() - 1, f.zero());
        for (size_t i = 0; i < a.size(); ++i) if (!f.is0(a[i])) for (size_t j = 0; j < b.size(); ++j) r[i + j] = f.add(r[i + j], f.mul(a[i], b[j]));
        trim(r); return r;
    }
    void divrem(const P &a, const P &b, P &q, P &r) const {
        r = a; trim(r); q.assign(r.size() >= b.size() ? r.size() - b.size() + 1 : 0, f.zero());
        C ib = f.inv(b.back());
        while (r.size() >= b.size()) {
            size_t s = r.size() - b.size(); C c = f.mul(r.back(), ib);
            q[s] = c;
            for (size_t i = 0; i + 1 < b.size(); ++i) r[s + i] = f.sub(r[s + i], f.mul(c, b[i]));
            r.pop_back(); trim(r);
        }
        trim(q);
    }
    P rem(const P &a, const P &b) const { P q, r; divrem(a, b, q, r); return r; }
    P quo(const P &a, const P &b) const { P q, r; divrem(a, b, q, r); return q; }
    P monic(const P &a) const { if (a.empty()) return a; return scale(a, f.inv(a.back())); }
    P gcd(P a, P b) const { trim(a); trim(b); a = monic(a); b = monic(b); while (!b.empty()) { P r = monic(rem(a, b)); a.swap(b); b.swap(r); } return a; }
    P der(const P &a) const { P r; C k = f.one(); for (size_t i = 1; i < a.size(); ++i) { r.push_back(f.mul(k, a[i])); k = f.add(k, f.one()); } trim(r); return r; }
    // inverse of a modulo b; empty if not invertible
    P invmod(const P &a, const P &b) const {
        P r0 = b, r1 = rem(a, b), s0, s1{f.one()};
        while (!r1.empty()) { P q, r; divrem(r0, r1, q, r); P s = sub(s0, mul(q, s1)); r0.swap(r1); r1.swap(r); s0.swap(s1); s1.swap(s); }
        if (r0.size() != 1) return P();
        return rem(scale(s0, f.inv(r0[0])), b);
    }
    C eval(const P &a, const C &x) const { C r = f.zero(); for (size_t i = a.size(); i-- > 0;) r = f.add(f.mul(r, x), a[i]); return r; }
    P sqf(const P &a0) const; // product of the distinct irreducible factors
    std::string str(const P &a) const { std::string s = "["; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + f.str(a[i]); return s + "]"; }
};
template <> inline Uni<FieldQ>::P Uni<FieldQ>::sqf(const P &a0) const { P a = monic(a0); P g = gcd(a, der(a)); return monic(quo(a, g)); }
template <> inline Uni<FieldP>::P Uni<FieldP>::sqf(const P &a0) const {
    P a = monic(a0);
    if (deg(a) <= 0) return P{f.one()};
    P d = der(a);
    if (d.empty()) { P b; for (size_t i = 0; i < a.size(); i += f.p) b.push_back(a[i]); return sqf(b); } // a = b^p
    P g = gcd(a, d), h = quo(a, g);
    // remove from g every factor of h; what is left is a p-th power
    for (;;) { P t = gcd(g, h); if (deg(t) <= 0) break; g = quo(g, t); }
    if (deg(g) <= 0) return monic(h);
    return monic(mul(h, sqf(g)));
}

// The solution set of a polynomial system, from the model.
template <class F> struct Solutions {
    typedef Alg<F> A; typedef typename A::Poly Poly; typedef typename F::C C; typedef Uni<F> U; typedef typename U::P P;
    A a; U u;
    std::vector<Poly> G, R;       // reduced basis of the ideal and (dimension 0) of its radical
    int verdict = 0;              // -1 empty, 0 finite, 1 infinite
    size_t mult = 0, N = 0;
    std::vector<Mono> Rb;         // monomial basis of the radical's quotient
    // minimal polynomial of t modulo the zero-dimensional ideal with basis g
    P minpoly(const Poly &t, const std::vector<Poly> &g, const std::vector<Mono> &st) const {
        size_t D = st.size();
        std::map<Mono, size_t> ix; for (size_t i = 0; i < D; ++i) ix[st[i]] = i;
        std::vector<std::pair<std::vector<C>, std::vector<C>>> rows; // reduced vector, combination of powers
        std::vector<size_t> piv;
        Poly cur = a.cst(f().one());
        for (size_t k = 0;; ++k) {
            std::vector<C> v(D, f().zero()), w(k + 1, f().zero()); w[k] = f().one();
            for (auto &m : cur) v[ix[m.m]] = m.c;
            for (size_t r = 0; r < rows.size(); ++r) if (!f().is0(v[piv[r]])) {
                C c = v[piv[r]];
                for (size_t i = 0; i < D; ++i) v[i] = f().sub(v[i], f().mul(c, rows[r].first[i]));
                for (size_t i = 0; i < rows[r].second.size(); ++i) w[i] = f().sub(w[i], f().mul(c, rows[r].second[i]));
            }
            size_t p = 0; while (p < D && f().is0(v[p])) ++p;
            if (p == D) return u.monic(w);
            C ic = f().inv(v[p]);
            for (auto &x : v) x = f().mul(x, ic);
            for (auto &x : w) x = f().mul(x, ic);
            rows.push_back({v, w}); piv.push_back(p);
            cur = a.nf(a.mulp(cur, t), g);
        }
    }
    const F &f() const { return a.f; }
    uint64_t steps = 0;
    bool big = false; // more solutions than the model handles: only verdict and mult are known
    void solve(const A &a_, const std::vector<Poly> &I, size_t maxmult = 120) {
        a = a_; u.f = a.f; a.steps = 0;
        G = a.gb(I); 
        int d = a.dim(G);
        steps = a.steps;
        if (d < 0) { verdict = -1; return; }
        if (d > 0) { verdict = 1; return; }
        verdict = 0;
        auto st = a.stair(G); mult = st.size();
        if (mult > maxmult) { big = true; return; }
        std::vector<Poly> J = G;
        for (int i = 0; i < a.o.nv; ++i) {
            P m = u.sqf(minpoly(a.var(i), G, st));
            Poly q, pw = a.cst(f().one());
            for (size_t k = 0; k < m.size(); ++k) { Mono one; q = a.submul(q, f().sub(f().zero(), m[k]), one, pw); pw = a.nf(a.mulp(pw, a.var(i)), G); }
            if (!q.empty()) J.push_back(q);
        }
        R = J.size() == G.size() ? G : a.gb(J); Rb = a.stair(R); N = Rb.size();
        steps = a.steps;
    }
};

// nested lists as msolve prints them
struct Tree {
    bool list = false; std::string atom; std::vector<Tree> c;
    const Tree &operator[](size_t i) const { if (!list || i >= c.size()) throw std::runtime_error("the output misses an entry"); return c[i]; }
    size_t size() const { if (!list) throw std::runtime_error("the output has '" + atom + "' where a list is expected"); return c.size(); }
    const std::string &a() const { if (list) throw std::runtime_error("the output has a list where a number is expected"); return atom; }
    long num() const { char *e; long v = strtol(a().c_str(), &e, 10); if (atom.empty() || *e) throw std::runtime_error("the output has '" + atom + "' where a number is expected"); return v; }
    mpz_class z() const { mpz_class r; if (a().empty() || r.set_str(atom, 10)) throw std::runtime_error("the output has '" + atom + "' where an integer is expected"); return r; }
    mpq_class q() const { // a, a/b, a/2^k
        std::string s = a(); size_t p = s.find('/');
        if (p == std::string::npos) return mpq_class(z());
        mpz_class n, d; std::string ds = s.substr(p + 1);
        if (n.set_str(s.substr(0, p), 10)) throw std::runtime_error("bad number " + s);
        size_t k = ds.find('^');
        if (k != std::string::npos) {
            char *e; long x = strtol(ds.c_str() + k + 1, &e, 10);
            if (*e || x < 0 || ds.substr(0, k) != "2") throw std::runtime_error("bad number " + s);
            mpz_ui_pow_ui(d.get_mpz_t(), 2, x);
        } else if (d.set_str(ds, 10) || d == 0) throw std::runtime_error("bad number " + s);
        mpq_class r(n, d); r.canonicalize(); return r;
    }
};
inline Tree parse_tree(const std::string &s, size_t &p) {
    Tree t;
    auto ws = [&] { while (p < s.size() && isspace((unsigned char)s[p])) ++p; };
    ws();
    if (p < s.size() && s[p] == '[') {
        t.list = true; ++p; ws();
        if (p < s.size() && s[p] == ']') { ++p; return t; }
        for (;;) {
            t.c.push_back(parse_tree(s, p)); ws();
            if (p >= s.size()) throw std::runtime_error("the output ends inside a list");
            if (s[p] == ',') { ++p; continue; }
            if (s[p] == ']') { ++p; return t; }
            throw std::runtime_error("unexpected character in the output");
        }
    }
    while (p < s.size() && s[p] != ',' && s[p] != ']' && s[p] != '[') { if (!isspace((unsigned char)s[p])) t.atom += s[p]; ++p; }
    return t;
}
// exactly one printed answer "[...]:" and nothing else
inline Tree parse_answer(const std::string &out) {
    size_t p = 0; Tree t = parse_tree(out, p);
    if (!t.list) throw std::runtime_error("no answer printed");
    std::string rest; for (; p < out.size(); ++p) if (!isspace((unsigned char)out[p])) rest += out[p];
    if (rest != ":") throw std::runtime_error("unexpected text after the answer: " + rest.substr(0, 100));
    return t;
}
} // namespace ref
