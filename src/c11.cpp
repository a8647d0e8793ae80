// C11: univariate real root isolation and refinement.
#include "run.hpp"
#include "real.hpp"
#include "fam.hpp"
using namespace ref;
typedef RealRoots::Z Z;

extern "C" {
typedef struct { mpz_t numer; long k; unsigned int isexact; int sign_left; } us_interval;
us_interval *real_roots(mpz_t *, unsigned long, unsigned long *, unsigned long *, const int32_t, int, int);
}

static Z mulz(const Z &a, const Z &b) { Z r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static Z scaled(const Z &a, long k) { Z r = a; size_t d = a.size() - 1; for (size_t i = 0; i <= d; ++i) r[i] <<= (k >= 0 ? k * i : -k * (d - i)); RealRoots::prim(r); return r; }
static Z shifted(const Z &a, const mpz_class &c) { Z r = a; size_t d = a.size() - 1; for (size_t i = 0; i < d; ++i) for (size_t j = d; j-- > i;) r[j] += c * r[j + 1]; return r; }
static Z mirrored(const Z &a) { Z r = a; for (size_t i = 1; i < r.size(); i += 2) r[i] = -r[i]; return r; }
static Z reversed(const Z &a) { Z r(a.rbegin(), a.rend()); while (r.size() > 1 && r.back() == 0) r.pop_back(); return r; }
static Z zp(std::initializer_list<long> l) { Z r; for (long x : l) r.push_back(x); return r; }
static Z lin(const mpz_class &n, const mpz_class &d) { Z r; r.push_back(-n); r.push_back(d); return r; } // root n/d
static std::string zstr(const Z &a) { std::string s; for (auto &c : a) s += (s.empty() ? "" : ",") + c.get_str(); return s; }

// squarefree: decided modulo primes (sufficient)
static bool sqfree(const Z &w) {
    for (unsigned long p : {2147483647ul, 2147483629ul, 2147483587ul}) {
        typedef std::vector<uint64_t> V; V a, b;
        for (auto &c : w) a.push_back(mpz_fdiv_ui(c.get_mpz_t(), p));
        if (a.back() == 0) continue;
        for (size_t i = 1; i < a.size(); ++i) b.push_back(a[i] * (i % p) % p);
        while (!b.empty() && b.back() == 0) b.pop_back();
        while (!b.empty()) {
            uint64_t inv = 1, e = p - 2, x = b.back(); while (e) { if (e & 1) inv = (unsigned __int128)inv * x % p; x = (unsigned __int128)x * x % p; e >>= 1; }
            while (a.size() >= b.size()) {
                uint64_t q = a.back() * inv % p; size_t s = a.size() - b.size();
                if (q) for (size_t i = 0; i < b.size(); ++i) a[s + i] = (a[s + i] + (p - q) * b[i]) % p;
                a.pop_back();
            }
            while (!a.empty() && a.back() == 0) a.pop_back();
            std::swap(a, b);
        }
        if (a.size() == 1) return true;
    }
    return false;
}

struct Case { std::string name; std::vector<Z> f; std::vector<bool> rootless; };
struct Fam11 { std::string name; uint64_t n; std::function<Case(uint64_t)> get; std::vector<long> precs; int threads; };

// the roots of a product, factor by factor
struct Roots {
    std::vector<RealRoots> R; size_t total = 0, neg = 0, pos = 0;
    void init(const std::vector<Z> &f, const std::vector<bool> &rootless) {
        for (size_t i = 0; i < f.size(); ++i) {
            if ((i < rootless.size() && rootless[i]) || f[i].size() < 2) continue;
            R.emplace_back(); R.back().solve(f[i]); total += R.back().r.size();
            RealRoots &q = R.back();
            int z = ::sgn(q.w[0]) == 0;
            int ng = q.varinf(-1) - q.var(0, 0) - z; // roots in (-inf,0] minus the root zero
            neg += ng; pos += q.r.size() - ng;
        }
    }
    bool isroot(const mpz_class &n, long k) { for (auto &q : R) if (RealRoots::sgn(q.w, n, k) == 0) return true; return false; }
    // number of roots inside the open interval
    size_t inside(const mpz_class &a, long ka, const mpz_class &b, long kb) {
        size_t c = 0;
        for (auto &q : R) { c += q.var(a, ka) - q.var(b, kb); if (RealRoots::sgn(q.w, b, kb) == 0) --c; }
        return c;
    }
};

int main() {
    run::Check ck("C11");
    ck.rule = "case = (squarefree integer polynomial, precision, threads) given to real_roots() of the real code; non-trivial = at least one real root";
    ck.assumptions = {"reference Sturm sequences in src/real.hpp", "polynomials of high degree are products of small factors and of factors without real roots, so that their roots are known"};
    bool th = ck.thorough();
    std::vector<Fam11> F;
    const std::vector<long> P1{-1, 1, 64}, P2{-1, 1, 2, 7, 31, 33, 64, 128, 200}, P3{-1, 1, 3, 5, 13, 32, 63, 65, 127, 129, 255, 500, 1000, 3000};
    auto dense = [&](int deg, std::vector<long> cf, std::vector<long> precs) {
        uint64_t n = 1; for (int i = 0; i <= deg; ++i) n *= cf.size();
        F.push_back({"all polynomials of degree " + std::to_string(deg) + " with coefficients from a set of " + std::to_string(cf.size()), n, [=](uint64_t i) { Case c; Z z; for (int k = 0; k <= deg; ++k) { z.push_back(cf[i % cf.size()]); i /= cf.size(); } c.f = {z}; return c; }, precs, 1});
    };
    dense(1, {-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 64, -1024}, P3);
    dense(2, {-8, -5, -3, -2, -1, 0, 1, 2, 4, 7, 9, 16}, P2);
    dense(3, {-6, -3, -1, 0, 1, 2, 8, 11}, P1);
    dense(4, {-5, -2, -1, 0, 1, 3, 4}, P1);
    dense(5, {-2, -1, 0, 1, 3}, P1);
    dense(7, {-1, 0, 1}, P1);
    if (th) { dense(4, {-9, -7, -4, -3, -2, -1, 0, 1, 2, 5, 6, 8}, P2); dense(6, {-3, -1, 0, 1, 2}, P2); dense(10, {-1, 0, 1}, P1); dense(5, {-4, -3, -1, 0, 1, 2, 7}, P1); }
    // products of prescribed factors
    std::vector<Z> fac{zp({0, 1}), zp({-1, 2}), zp({1, 2}), zp({-1, 1}), zp({1, 1}), zp({-3, 4}), zp({3, 4}), zp({-2, 1}), zp({4, 1}), zp({-1, 3}), zp({1, 3}), zp({-5, 8}), zp({-1, 1024}), zp({1023, 1024}), zp({-1025, 1024}), zp({1, 0, 1}), zp({-2, 0, 1}), zp({-1, -1, 1}), zp({1, -3, 0, 1}), zp({-2, 0, 0, 0, 1})};
    fac.push_back(lin((mpz_class(1) << 40) + 1, mpz_class(1) << 40)); fac.push_back(lin(-((mpz_class(1) << 66) - 1), 3)); fac.push_back(lin(1, (mpz_class(1) << 70) + 1)); fac.push_back(lin(mpz_class(1) << 65, 1));
    auto products = [&](int k, std::vector<long> scales, std::vector<long> precs, int thr) {
        uint64_t n = choose(fac.size(), k);
        F.push_back({"products of " + std::to_string(k) + " of " + std::to_string(fac.size()) + " factors, " + std::to_string(scales.size()) + " scalings, " + std::to_string(thr) + " thread(s)", n * scales.size() * 2, [=](uint64_t i) {
            Case c; long s = scales[i % scales.size()]; i /= scales.size(); bool ng = i & 1; i >>= 1;
            for (auto j : subset(i, k)) { Z z = scaled(fac[j], s); if (ng) for (auto &x : z) x = -x; c.f.push_back(z); }
            return c; }, precs, thr});
    };
    products(1, {-200, -64, -3, -1, 0, 1, 2, 5, 33, 100}, P3, 1);
    products(2, {-70, -1, 0, 1, 31}, P2, 1);
    products(3, th ? std::vector<long>{-40, -2, -1, 0, 1, 2, 63} : std::vector<long>{-1, 0, 65}, th ? P2 : P1, 1);
    products(4, th ? std::vector<long>{-33, 0, 1, 7} : std::vector<long>{0}, P1, 1);
    products(2, {0}, P1, 3);
    if (th) products(5, {0, -5}, P1, 1);
    {   // clusters around exact and inexact centres
        std::vector<Case> L;
        auto add = [&](std::string nm, std::vector<Z> f) { Case c; c.name = nm; c.f = f; L.push_back(c); };
        std::vector<Z> base;
        for (int n = 3; n <= (th ? 24 : 12); ++n) for (long e : {2, 5, 11, 20, 45}) { // x^n - (a x - 1)^2
            Z z(n + 1, 0); z[n] = 1; mpz_class a = (mpz_class(1) << e) + (n % 2); z[0] -= 1; z[1] += 2 * a; z[2] -= a * a; base.push_back(z);
        }
        for (long e : {3, 10, 31, 64, 90}) for (long m : {1, 3, 5, -7}) { // (2^e x - m)^2 - eps with a root exactly at the centre
            mpz_class d = mpz_class(1) << e;
            Z c = lin(m, d), q = mulz(c, c); q[0] *= d; q[1] *= d; q[2] *= d; q[0] -= 1;
            base.push_back(q); base.push_back(mulz(q, c)); base.push_back(mulz(mulz(q, c), lin(m + 1, d)));
            Z q2 = mulz(c, c); q2[0] -= 2; base.push_back(q2); base.push_back(mulz(q2, c));
        }
        for (auto &z : base) { add("cluster", {z}); add("cluster mirrored", {mirrored(z)}); add("cluster reversed", {reversed(z)}); add("cluster shifted", {shifted(z, 1)}); add("cluster shifted", {shifted(z, -3)}); add("cluster and zero", {mulz(z, zp({0, 1}))}); add("cluster scaled", {scaled(z, -30)}); add("cluster scaled", {scaled(z, 17)}); }
        F.push_back({"clusters", L.size(), [=](uint64_t i) { return L[i]; }, th ? P3 : P2, 1});
    }
    {   // classical sequences
        std::vector<Case> L;
        auto add = [&](std::string nm, Z z) {
            for (int v = 0; v < 4; ++v) { Case c; c.name = nm; c.f = {v & 1 ? mirrored(z) : z}; if (v & 2) c.f[0] = scaled(c.f[0], nm.size() % 2 ? -9 : 9); L.push_back(c); }
        };
        int N = th ? 40 : 24;
        Z t0 = zp({1}), t1 = zp({0, 1}), h0 = zp({1}), h1 = zp({0, 2}), l0 = zp({1}), l1 = zp({0, 1}), la0 = zp({1}), la1 = zp({1, -1});
        for (int n = 1; n <= N; ++n) {
            add("Chebyshev " + std::to_string(n), t1); add("Hermite " + std::to_string(n), h1); add("Legendre " + std::to_string(n), l1); add("Laguerre " + std::to_string(n), la1);
            auto next = [](Z &a, Z &b, Z m, long s, long den) { Z r = mulz(m, b); if (r.size() < a.size()) r.resize(a.size(), 0); for (size_t i = 0; i < a.size(); ++i) r[i] -= s * a[i]; for (auto &x : r) x /= den; a = b; b = r; };
            next(t0, t1, zp({0, 2}), 1, 1); next(h0, h1, zp({0, 2}), 2 * n, 1);
            { Z a = l1; for (auto &x : a) x *= 1; // n! 2^n P_n kept integral: (n+1)P_{n+1} = (2n+1) x P_n - n P_{n-1}, multiplied out
              Z r = mulz(zp({0, 2 * n + 1}), l1); if (r.size() < l0.size()) r.resize(l0.size(), 0); for (size_t i = 0; i < l0.size(); ++i) r[i] -= (long)n * n * l0[i]; l0 = l1; l1 = r; }
            { Z r = mulz(zp({2 * n + 1, -1}), la1); if (r.size() < la0.size()) r.resize(la0.size(), 0); for (size_t i = 0; i < la0.size(); ++i) r[i] -= (long)n * n * la0[i]; la0 = la1; la1 = r; }
            Z w = zp({1}); for (int k = 1; k <= n; ++k) w = mulz(w, zp({-k, 1}));
            add("Wilkinson " + std::to_string(n), w);
            Z w2 = w; if (n >= 2) { w2[n - 1] *= 1 << 10; w2[n] *= 1 << 10; w2[n - 1] -= 1; add("perturbed Wilkinson " + std::to_string(n), w2); }
            Z s(n + 1, 0); s[n] = 1; s[0] = -(n + 1); add("binomial " + std::to_string(n), s); s[0] = n + 1; add("binomial+ " + std::to_string(n), s);
            s[n / 2] -= 1L << n; add("trinomial " + std::to_string(n), s);
        }
        F.push_back({"classical sequences up to degree " + std::to_string(N), L.size(), [=](uint64_t i) { return L[i]; }, th ? P2 : P1, 1});
    }
    {   // degrees around the thresholds of the divide and conquer shift
        std::vector<Case> L;
        for (int d : th ? std::vector<int>{250, 254, 255, 256, 257, 258, 259, 260, 300, 400, 511, 512, 513, 514, 515, 600} : std::vector<int>{254, 256, 257, 258, 300, 513}) for (int v = 0; v < 9; ++v) {
            Case c; c.name = "degree " + std::to_string(d) + " variant " + std::to_string(v);
            std::vector<Z> r;
            if (v == 0) r = {zp({-1, 2})};
            if (v == 1) r = {zp({0, 1}), zp({-1, 1}), zp({-1, 2})};
            if (v == 2) r = {zp({-1, 4}), zp({-1, 2}), zp({-3, 4}), zp({-1, 1}), zp({1, 2}), zp({1, 4})};
            if (v == 3) r = {zp({-2, 0, 1}), zp({-3, 0, 1}), zp({1, -3, 0, 1})};
            if (v == 4) r = {zp({-1, 3}), zp({-1, 5}), zp({-1, 1024}), zp({0, 1})};
            if (v == 5) for (int k = 1; k <= 12; ++k) r.push_back(zp({-k, 8}));
            if (v == 6) r = {zp({-7, 1}), zp({7, 1}), zp({0, 1}), zp({-100, 1})};
            if (v == 7) r = {zp({-1, 2}), zp({1, 2})};
            size_t e = 0; for (auto &z : r) e += z.size() - 1;
            c.f = r; c.rootless.assign(r.size(), false);
            int m = d - (int)e;
            if (m % 2) { c.f.push_back(zp({-5, 1})); c.rootless.push_back(false); --m; }
            if (m >= 2) { Z q(m + 1, 0); q[0] = 1; q[m] = 1; if (v == 4) { q[0] = 3; q[m / 2 / 2 * 2] += 1; } if (v == 8) { for (int k = 0; k <= m; k += 2) q[k] = 1 + k % 7; } c.f.push_back(q); c.rootless.push_back(true); }
            L.push_back(c);
        }
        F.push_back({"high degrees", L.size(), [=](uint64_t i) { return L[i]; }, {-1, 64}, 1});
        if (th) F.push_back({"high degrees, 2 threads", L.size(), [=](uint64_t i) { return L[i]; }, {-1, 64}, 2});
    }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].n; fam += (k ? "," : "") + run::Check::js(F[k].name + " (" + std::to_string(F[k].n) + " polynomials x " + std::to_string(F[k].precs.size()) + " precisions)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        Case cs = F[k].get(i - start[k]);
        Z w = zp({1}); for (auto &f : cs.f) { while (f.size() > 1 && f.back() == 0) f.pop_back(); w = mulz(w, f); }
        if (w.size() < 2) { c.cnt["constant"]++; return; }
        c.last = cs.name + " " + std::to_string(i);
        if (!sqfree(w)) { c.cnt["not squarefree, left out"]++; return; }
        Roots R; R.init(cs.f, cs.rootless);
        c.modelsteps += w.size();
        uint64_t hw = run::h64(zstr(w)); c.states.insert(hw);
        c.cnt["real roots in the model"] += R.total;
        if (R.total) c.nontriv.insert(hw);
        int thr = F[k].threads;
        auto &precs = F[k].precs;
        run::Opts ro; ro.timeout = 30;
        auto body = [&]() -> int {
            size_t d = w.size() - 1;
            for (long p : precs) {
                mpz_t *u = (mpz_t *)malloc(sizeof(mpz_t) * (d + 1));
                for (size_t j = 0; j <= d; ++j) mpz_init_set(u[j], w[j].get_mpz_t());
                unsigned long np = 0, nn = 0;
                us_interval *r = real_roots(u, d, &np, &nn, (int32_t)p, thr, 0);
                printf("%ld %lu %lu", p, nn, np);
                for (unsigned long j = 0; j < np + nn; ++j) gmp_printf(" %Zd %ld %u", r[j].numer, r[j].k, r[j].isexact);
                printf("\n"); fflush(stdout);
            }
            return 0;
        };
        auto ok = [&](const run::Result &r) -> std::string {
            if (r.code) return "root isolation ended with " + r.how();
            std::istringstream is(r.out); std::string line; size_t q = 0;
            while (std::getline(is, line)) {
                std::istringstream ls(line); long p; size_t nn, np;
                if (!(ls >> p >> nn >> np)) return "unreadable output";
                std::string at = " (precision " + std::to_string(p) + ")";
                if (nn != R.neg || np != R.pos) return "there are " + std::to_string(R.neg) + " negative and " + std::to_string(R.pos) + " non-negative roots, reported " + std::to_string(nn) + " and " + std::to_string(np) + at;
                struct I { mpz_class a, b; long ka, kb; bool ex; }; std::vector<I> v;
                for (size_t j = 0; j < nn + np; ++j) {
                    I x; unsigned ex; long kk;
                    if (!(ls >> x.a >> kk >> ex)) return "unreadable output";
                    x.ex = ex; x.ka = x.kb = kk;
                    if (kk < 0) { x.ka = x.kb = 0; x.b = x.ex ? x.a : mpz_class(x.a + (mpz_class(1) << -kk)); } else x.b = x.ex ? x.a : mpz_class(x.a + 1);
                    if (x.ex ? !R.isroot(x.a, x.ka) : R.inside(x.a, x.ka, x.b, x.kb) != 1) return (x.ex ? "a point is reported that is no root" : "an interval contains " + std::to_string(R.inside(x.a, x.ka, x.b, x.kb)) + " roots") + at;
                    bool neg = j < nn;
                    if (neg ? (x.b > 0 || (x.ex && x.a == 0)) : x.a < 0) return "a root is listed on the wrong side of zero" + at;
                    if (p > 0 && !x.ex && kk < p) return "an interval is wider than 2^-" + std::to_string(p) + at;
                    v.push_back(x);
                }
                for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b) {
                    auto le = [&](const mpz_class &x, long kx, const mpz_class &y, long ky) { mpz_class l = x, r = y; if (kx < ky) l <<= ky - kx; else r <<= kx - ky; return l <= r; };
                    bool apart = le(v[a].b, v[a].kb, v[b].a, v[b].ka) || le(v[b].b, v[b].kb, v[a].a, v[a].ka);
                    if (v[a].ex && v[b].ex && le(v[a].a, v[a].ka, v[b].a, v[b].ka) && le(v[b].a, v[b].ka, v[a].a, v[a].ka)) return "the same root is reported twice" + at;
                    if (!apart) return "two intervals overlap" + at;
                }
                ++q;
            }
            return q == precs.size() ? "" : "answers are missing";
        };
        run::Result r = run::in_child(body, ro); c.transitions += precs.size();
        std::string e = ok(r);
        if (!e.empty()) { ro.timeout *= 4; r = run::in_child(body, ro); c.transitions += precs.size(); std::string e2 = ok(r); if (!r.timeout && !e2.empty()) e = e2; else if (e2.empty()) e.clear(); else e = e2; }
        if (e.empty()) { c.validated += precs.size(); if (i % 7001 == 13) c.samples.push_back(run::oneline(zstr(w), 120) + " -> " + run::oneline(r.out, 160)); return; }
        run::Finding f; f.key = "real_roots :: " + zstr(w); f.what = e + " [real_roots() on " + (cs.name.empty() ? "" : cs.name + " ") + "coefficients (constant first) " + run::oneline(zstr(w)) + "]";
        f.detail = "coefficients, constant first: " + zstr(w) + "\nprecisions:"; for (long p : precs) f.detail += " " + std::to_string(p);
        f.detail += "\nthreads: " + std::to_string(thr) + "\n--- output lines: precision, negative, non-negative, then numerator k exact\n" + r.out + "\n--- stderr\n" + r.err;
        c.bad.push_back(f);
    });
    return ck.finish();
}
