// Real solutions of a zero-dimensional system over Q, from the model: Sturm
// isolation of the minimal polynomial of a separating linear form, coordinates
// as polynomials in it.  Shares no code with msolve.
#pragma once
#include "uni.hpp"
namespace ref {
// sorted real roots of a squarefree polynomial with integer coefficients
struct RealRoots {
    typedef std::vector<mpz_class> Z;
    struct Root { bool exact = false; mpz_class n; long k = 0; }; // exact: n/2^k; otherwise inside (n/2^k, (n+1)/2^k), k may be negative
    Z w; std::vector<Z> st; std::vector<Root> r;
    static void prim(Z &a) { mpz_class g = 0; for (auto &c : a) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t()); if (g > 1) for (auto &c : a) c /= g; }
    static Z fromq(const std::vector<mpq_class> &a) {
        mpz_class l = 1; for (auto &c : a) l = lcm(l, c.get_den());
        Z r; for (auto &c : a) r.push_back(c.get_num() * (l / c.get_den()));
        prim(r); return r;
    }
    // sign of a at n/2^k (k >= 0), or n * 2^-k
    static int sgn(const Z &a, const mpz_class &n, long k) {
        mpz_class s = 0, p = 1, x = n;
        if (k < 0) { x <<= -k; k = 0; }
        // Horner on numerators: sum a_i x^i 2^(k(d-i))
        s = 0; mpz_class t; size_t d = a.size();
        unsigned long sh = 0;
        for (size_t i = d; i-- > 0;) { s *= x; t = a[i]; mpz_mul_2exp(t.get_mpz_t(), t.get_mpz_t(), sh); s += t; sh += k; }
        return ::sgn(s);
    }
    static Z negrem(Z a, const Z &b) { // - remainder, up to a positive factor
        mpz_class lb = b.back(), alb = abs(lb);
        while (a.size() >= b.size()) {
            mpz_class c = a.back(); size_t s = a.size() - b.size();
            if (lb < 0) c = -c;
            for (auto &x : a) x *= alb;
            for (size_t i = 0; i < b.size(); ++i) a[s + i] -= c * b[i];
            while (!a.empty() && a.back() == 0) a.pop_back();
            prim(a);
        }
        for (auto &x : a) x = -x;
        return a;
    }
    int var(const mpz_class &n, long k) const { int v = 0, l = 0; for (auto &p : st) { int s = sgn(p, n, k); if (s) { if (l && s != l) ++v; l = s; } } return v; }
    int varinf(int side) const { int v = 0, l = 0; for (auto &p : st) { int s = ::sgn(p.back()); if (side < 0 && p.size() % 2 == 0) s = -s; if (l && s != l) ++v; l = s; } return v; }
    void solve(const Z &w_) {
        w = w_; prim(w); st.clear(); r.clear();
        if (w.size() <= 1) return;
        Z d; for (size_t i = 1; i < w.size(); ++i) d.push_back(w[i] * (unsigned long)i);
        st.push_back(w); prim(d); st.push_back(d);
        while (st.back().size() > 1) { Z z = negrem(st[st.size() - 2], st.back()); if (z.empty()) throw std::runtime_error("model: polynomial not squarefree"); st.push_back(z); }
        long B = 1; // every root is inside (-2^B, 2^B)
        { mpz_class m = 0; for (size_t i = 0; i + 1 < w.size(); ++i) if (abs(w[i]) > m) m = abs(w[i]); long a = mpz_sizeinbase(m.get_mpz_t(), 2), b = mpz_sizeinbase(w.back().get_mpz_t(), 2); B = std::max(1L, a - b + 2) + 1; }
        int V0 = varinf(-1), V1 = varinf(1), Vm = var(0, 0);
        rec(-1, -B, V0, Vm);
        rec(0, -B, Vm, V1);
        if ((int)r.size() != V0 - V1) throw std::runtime_error("model: real root count");
    }
    // roots in (n/2^k, (n+1)/2^k], Va and Vb variations at the ends
    void rec(const mpz_class &n, long k, int Va, int Vb) {
        if (Va == Vb) return;
        if (Va - Vb == 1) {
            Root x;
            mpz_class e = n + 1;
            if (sgn(w, e, k) == 0) { x.exact = true; x.n = e; x.k = k; if (k < 0) { x.n <<= -k; x.k = 0; } }
            else { x.n = n; x.k = k; }
            r.push_back(x); return;
        }
        mpz_class m = 2 * n + 1;
        int Vm = var(m, k + 1);
        rec(2 * n, k + 1, Va, Vm);
        rec(m, k + 1, Vm, Vb);
    }
    void refine(Root &x, long prec) const {
        if (x.exact || x.k >= prec) return;
        int sb = sgn(w, x.n + 1, x.k);
        while (x.k < prec) {
            mpz_class m = 2 * x.n + 1; int s = sgn(w, m, x.k + 1);
            if (s == 0) { x.exact = true; x.n = m; x.k++; if (x.k < 0) { x.n <<= -x.k; x.k = 0; } return; }
            x.n = s == sb ? mpz_class(2 * x.n) : m; x.k++;
        }
    }
    static mpq_class val(const mpz_class &n, long k) { mpz_class a = n, b = 1; if (k >= 0) b <<= k; else a <<= -k; mpq_class q(a, b); q.canonicalize(); return q; }
    static mpq_class lo(const Root &x) { return val(x.n, x.k); }
    static mpq_class hi(const Root &x) { return x.exact ? val(x.n, x.k) : val(x.n + 1, x.k); }
    // is the root a root of h (h a divisor of w)?
    bool isroot(Root &x, const Z &h) const {
        if (h.size() <= 1) return false;
        if (x.exact) return sgn(h, x.n, x.k) == 0;
        for (;;) {
            int a = sgn(h, x.n, x.k), b = sgn(h, x.n + 1, x.k);
            if (a && b && sgn(w, x.n, x.k)) return a != b;
            refine(x, x.k + 1);
            if (x.exact) return sgn(h, x.n, x.k) == 0;
        }
    }
};

struct RealModel {
    typedef Alg<FieldQ> A; typedef Uni<FieldQ> U; typedef U::P P;
    U u; P w; std::vector<P> g; RealRoots rr; int nv = 0;
    std::vector<std::vector<mpq_class>> L, H; // enclosures [root][variable]
    std::vector<long> pr;                     // precision of the enclosure
    void enclose(size_t k, long prec) {
        rr.refine(rr.r[k], prec); pr[k] = prec;
        L[k].assign(nv, 0); H[k].assign(nv, 0);
        for (int i = 0; i < nv; ++i) {
            mpq_class a = RealRoots::lo(rr.r[k]), b = RealRoots::hi(rr.r[k]), l = 0, h = 0;
            for (size_t j = g[i].size(); j-- > 0;) {
                mpq_class c[4] = {l * a, l * b, h * a, h * b};
                l = *std::min_element(c, c + 4) + g[i][j]; h = *std::max_element(c, c + 4) + g[i][j];
                if (l == h) continue;
                // outward rounding keeps the numbers short
                mpz_class t; mpz_fdiv_q(t.get_mpz_t(), mpz_class(l.get_num() << (prec + 64)).get_mpz_t(), l.get_den().get_mpz_t()); l = RealRoots::val(t, prec + 64);
                mpz_cdiv_q(t.get_mpz_t(), mpz_class(h.get_num() << (prec + 64)).get_mpz_t(), h.get_den().get_mpz_t()); h = RealRoots::val(t, prec + 64);
            }
            L[k][i] = l; H[k][i] = h;
        }
    }
    bool build(const Solutions<FieldQ> &s, long prec = 200) {
        u = s.u; A a = s.a; nv = a.o.nv;
        size_t N = s.N;
        A::Poly t; bool ok = false; Mono one;
        for (long k = 0; k < 40 && !ok; ++k) {
            t.clear(); long c = 1;
            for (int i = nv; i-- > 0;) { if (c) t = a.submul(t, mpq_class(-c), one, a.var(i)); c *= (k % 2 ? -(k + 1) / 2 : k / 2); }
            t = a.nf(t, s.R);
            w = s.minpoly(t, s.R, s.Rb);
            ok = w.size() == N + 1;
        }
        if (!ok) return false;
        // coordinates: solve M g = v, the columns of M are the powers of t
        std::map<Mono, size_t> ix; for (size_t i = 0; i < N; ++i) ix[s.Rb[i]] = i;
        std::vector<std::vector<mpq_class>> M(N, std::vector<mpq_class>(N + nv, 0));
        A::Poly cur = a.nf(a.cst(1), s.R);
        for (size_t j = 0; j < N; ++j) { for (auto &m : cur) M[ix[m.m]][j] = m.c; cur = a.nf(a.mulp(cur, t), s.R); }
        for (int i = 0; i < nv; ++i) { auto v = a.nf(a.var(i), s.R); for (auto &m : v) M[ix[m.m]][N + i] = m.c; }
        for (size_t c = 0; c < N; ++c) {
            size_t p = c; while (p < N && M[p][c] == 0) ++p;
            if (p == N) throw std::runtime_error("model: powers not independent");
            std::swap(M[p], M[c]);
            mpq_class iv = 1 / M[c][c]; for (auto &x : M[c]) if (x != 0) x *= iv;
            for (size_t r = 0; r < N; ++r) if (r != c && M[r][c] != 0) { mpq_class f = M[r][c]; for (size_t k = c; k < N + nv; ++k) if (M[c][k] != 0) M[r][k] -= f * M[c][k]; }
        }
        g.assign(nv, P());
        for (int i = 0; i < nv; ++i) { for (size_t j = 0; j < N; ++j) g[i].push_back(M[j][N + i]); u.trim(g[i]); }
        rr.solve(RealRoots::fromq(w));
        L.resize(rr.r.size()); H.resize(rr.r.size()); pr.assign(rr.r.size(), 0);
        for (size_t k = 0; k < rr.r.size(); ++k) enclose(k, prec);
        return true;
    }
    size_t nb() const { return rr.r.size(); }
    // sign of (coordinate i of solution k) - c
    int cmp(size_t k, int i, const mpq_class &c) {
        bool tested = false;
        for (;;) {
            if (L[k][i] > c) return 1;
            if (H[k][i] < c) return -1;
            if (L[k][i] == H[k][i]) return 0;
            if (!tested) {
                tested = true;
                P d = u.sub(g[i], c == 0 ? P() : P{c});
                P h = d.empty() ? w : u.gcd(d, w);
                if (d.empty() || rr.isroot(rr.r[k], RealRoots::fromq(h))) return 0;
            }
            enclose(k, pr[k] * 2);
        }
    }
    // 0 outside, 1 inside
    bool inbox(size_t k, const std::vector<mpq_class> &lo, const std::vector<mpq_class> &hi) {
        for (int i = 0; i < nv; ++i) if (cmp(k, i, lo[i]) < 0 || cmp(k, i, hi[i]) > 0) return false;
        return true;
    }
    // t = [1, [points]]; where[i] = position of variable i in a point
    std::string boxes(const Tree &t, const std::vector<int> &where, long *slack = nullptr, long p = 0, int paramvar = -1) {
        if (t.size() != 2 || t[0].a() != "1") return "malformed list of real solutions";
        const Tree &pts = t[1];
        if (pts.size() != nb()) return "there are " + std::to_string(nb()) + " real solutions, but " + std::to_string(pts.size()) + " boxes were printed";
        std::vector<int> seen(nb(), 0);
        std::vector<std::vector<mpq_class>> lo(nb()), hi(nb());
        for (size_t b = 0; b < nb(); ++b) {
            if (pts[b].size() != (size_t)nv) return "a box has " + std::to_string(pts[b].size()) + " sides";
            for (int i = 0; i < nv; ++i) {
                const Tree &side = pts[b][where[i]];
                if (side.size() != 2) return "malformed side of a box";
                lo[b].push_back(side[0].q()); hi[b].push_back(side[1].q());
                if (lo[b][i] > hi[b][i]) return "a box has an empty side";
            }
            int in = 0;
            for (size_t k = 0; k < nb(); ++k) if (inbox(k, lo[b], hi[b])) { ++in; if (seen[k]++) return "a real solution lies in two boxes"; }
            if (in != 1) return "box " + std::to_string(b + 1) + " contains " + std::to_string(in) + " real solutions";
            for (int i = 0; i < nv; ++i) {
                mpq_class wd = hi[b][i] - lo[b][i];
                if (wd == 0) continue;
                if (i == paramvar && p >= 0 && wd > RealRoots::val(1, p)) return "the side of box " + std::to_string(b + 1) + " for the parameter is wider than 2^-" + std::to_string(p);
                if (slack) {
                    mpq_class m = std::max(mpq_class(1), mpq_class(abs(lo[b][i])));
                    mpq_class q = wd / m; long l = (long)mpz_sizeinbase(q.get_num().get_mpz_t(), 2) - (long)mpz_sizeinbase(q.get_den().get_mpz_t(), 2) + p;
                    *slack = std::max(*slack, l);
                }
            }
        }
        for (size_t a = 0; a < nb(); ++a) for (size_t b = a + 1; b < nb(); ++b) {
            bool apart = false;
            for (int i = 0; i < nv; ++i) if (hi[a][i] < lo[b][i] || hi[b][i] < lo[a][i]) apart = true;
            if (!apart) return "two boxes overlap";
        }
        return "";
    }
};
} // namespace ref
