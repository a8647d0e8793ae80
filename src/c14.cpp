// C14: results do not depend on random choices.
#include "solve.hpp"
#include "zdim.hpp"

typedef std::vector<std::string> Args;
static mpz_class nextp(mpz_class z) { mpz_nextprime(z.get_mpz_t(), z.get_mpz_t()); return z; }
template <class G> std::string leads(const G &g, int nv) { std::string r; for (auto &f : g) { for (int k = 0; k < nv; ++k) r += std::to_string(f[0].m.e[k]) + ","; r += ";"; } return r; }

struct Verdict { std::string e; bool hidden = false; };
template <class F> struct Oracle {
    Alg<F> A; Sys s; uint64_t p; std::vector<typename Alg<F>::Poly> I; Solutions<F> sol; bool usable = false; std::string in;
    Oracle(const Alg<F> &a, const Sys &s_, uint64_t p_, long cap = 25) : A(a), s(s_), p(p_) {
        I = parse_all(A, s.polys, s.vars);
        if (!any_nonzero(I)) return;
        sol.solve(A, I, cap);
        usable = !sol.big; in = ms(s, p);
    }
    std::string ok(const run::Result &r) const {
        if (r.code) return "msolve ended with " + r.how();
        try {
            Tree t = parse_answer(r.out);
            std::string e = cmp_verdict(sol, t);
            if (!e.empty() || sol.verdict != 0) return e;
            if (t.size() != 2) return "the answer has " + std::to_string(t.size()) + " entries";
            return cmp_param(sol, I, t[1], s.vars, (long)p);
        } catch (std::exception &e) { return e.what(); }
    }
    std::string cls(const run::Result &r) const { try { return sol.verdict == 0 && hidden_class(sol, I, parse_answer(r.out)[1], s.vars, (long)p) ? "class:hidden-solutions" : ""; } catch (std::exception &) { return ""; } }
    bool test(run::Ctx &c, const Args &o, const run::Opts &ro, const std::string &env, run::Result *res = NULL) const {
        return run::judge(c, o, in, ro, [&](const run::Result &r) { return ok(r); }, env, res, [&](const run::Result &r) { return cls(r); });
    }
};
static std::string num(const std::vector<int> &v) { std::string s; for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
static std::string num(const std::vector<long> &v) { std::string s; for (long x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }

int main() {
    run::Check ck("C14");
    bool th = ck.thorough();
    ck.rule = "case = (system, behaviour of the random number generator or of the clock); the explorer owns rand(), gettimeofday() and clock(); non-trivial = a linear form was drawn, a later prime is unlucky, or the stream is degenerate";
    ck.assumptions = {"reference Buchberger, radical and univariate arithmetic in src/ref.hpp and src/uni.hpp",
                      "inside a run with a chosen linear form the vectors of the FGLM step come from one fair stream",
                      "over Q the documented probabilistic criterion is not provoked: the first prime is one with the same leading monomials as over Q (or, for solving, one where the system still has finitely many solutions)"};
    auto v2 = vnames(2), v3 = vnames(3);
    struct Part { std::string name; uint64_t n; std::function<void(uint64_t, run::Ctx &)> fn; };
    std::vector<Part> parts;

    // ---- A: bases over prime fields under degenerate streams
    {
        std::vector<Family> F{subsets("pairs,2 vars,deg<=2,coeffs +-1,<=2 terms", v2, signfree(pl(2, 2, {1, -1}, 2)), 2),
                              subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), listed("named", named_small())};
        std::vector<uint64_t> ps = th ? primes_few() : std::vector<uint64_t>{3, 251, 65521, 1073741827};
        struct Str { Args o; int kind; int val; bool fair; };
        std::vector<Str> S;
        for (auto l : {"2", "1"}) for (int v : {0, 1, 0x7fffffff}) S.push_back({{"-g", "2", "-l", l}, 1, v, false});
        for (auto l : {"44", "42"}) for (int sd : {2, 3}) S.push_back({{"-g", "2", "-l", l}, 0, sd, true});
        for (auto &f : F) {
            uint64_t step = th || f.n < 1000 ? 1 : 5; // quick: every fifth of the large family
            parts.push_back({"A bases over prime fields: " + f.name + " x " + std::to_string(ps.size()) + " primes x " + std::to_string(S.size()) + " streams" + (step > 1 ? " (every fifth system)" : ""), f.n / step * ps.size(), [=](uint64_t i, run::Ctx &c) {
                Sys s = f.get(i / ps.size() * step); uint64_t p = ps[i % ps.size()];
                if (s.name.substr(0, 3) == "exp") return;
                AP A = mkp(p, s.vars.size()); auto I = parse_all(A, s.polys, s.vars); if (!any_nonzero(I)) return;
                auto G = A.gb(I); c.modelsteps += A.steps; c.states.insert(run::h64(A.strs(G, s.vars)));
                Want w; w.vars = s.vars;
                for (auto &t : S) {
                    if (t.fair && p < (1 << 29)) continue;
                    run::Opts o; if (t.kind == 1) { o.rconst = true; o.rcval = t.val; } else o.rseed = t.val;
                    std::string in = ms(s, p);
                    run::judge(c, t.o, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); }, (t.kind ? "rand() always " : "stream ") + std::to_string(t.val));
                    if (t.kind) c.nontriv.insert(run::h64(in + std::to_string(t.val)));
                }
            }});
        }
    }
    // ---- B: solving: every word of low bytes (the linear form) and several fair streams
    {
        std::vector<Sys> L = zdim_named();
        L.push_back(S("cube", {"x", "y", "z"}, {"x^2-x", "y^2-y", "z^2-1"}));
        L.push_back(S("cube4", {"x", "y", "z", "t"}, {"x^2-1", "y^2-1", "z^2-1", "t^2-1"}));
        L.push_back(S("cross", {"x", "y", "z"}, {"x*y", "x*z", "y*z", "x^2+y^2+z^2-x-y-z"}));
        std::vector<Family> F{listed("named", L), subsets("pairs of reducible polynomials, 2 vars", v2, red2(), 2), subsets("triples of reducible polynomials, 3 vars", v3, red3(), 3)};
        std::vector<uint64_t> ps{1073741827, 0}; if (th) { ps.push_back(65537); ps.push_back(1518500183); }
        std::vector<int> V = th ? std::vector<int>{0, 1, -1, 2, 127, -128} : std::vector<int>{0, 1, -128};
        int seeds = th ? 24 : 4;
        for (auto &f : F) parts.push_back({"B solving: " + f.name + " x " + std::to_string(ps.size()) + " characteristics x (" + std::to_string(seeds) + " fair streams + every word of linear form coefficients over {" + num(V) + "} when a form is drawn)", f.n * ps.size(), [=](uint64_t i, run::Ctx &c) {
            Sys s = f.get(i / ps.size()); uint64_t p = ps[i % ps.size()];
            auto go = [&](auto &&O) {
                if (!O.usable || O.sol.verdict != 0) return;
                c.modelsteps += O.sol.steps; c.states.insert(run::h64(std::to_string(p) + O.A.strs(O.sol.R, s.vars)));
                Args o; if (!p) o = {"-P", "2"};
                run::Opts ro; ro.timeout = 20;
                bool form = false; uint64_t N = 0;
                for (int sd = 1; sd <= seeds; ++sd) {
                    run::Opts q = ro; q.rseed = sd; run::Result r;
                    if (p && p < (1 << 20)) { // a fair stream fails with probability about (degree^2/p): three streams per case
                        bool good = false; for (int k = 0; k < 3 && !good; ++k) { q.rseed = sd + 1000 * k; r = run::msolve(o, O.in, q); c.transitions++; good = O.ok(r).empty() || !O.cls(r).empty(); if (!good) c.cnt["unlucky fair streams (16 bit prime)"]++; }
                        if (good) c.validated++; else { O.test(c, o, q, "stream " + std::to_string(q.rseed), &r); }
                    } else O.test(c, o, q, "stream " + std::to_string(sd), &r);
                    N = std::max(N, r.rands); if (r.out.find("'A'") != std::string::npos) form = true;
                }
                if (!form) { c.cnt["systems needing no linear form"]++; return; }
                c.cnt["systems needing a linear form"]++;
                int m = s.vars.size() + 1; uint64_t T = 1; for (int k = 0; k < m; ++k) T *= V.size();
                uint64_t step = m > 4 ? (th ? 7 : 3) : 1;
                for (uint64_t w = 0; w < T; w += step) {
                    if (c.late()) return;
                    std::vector<int> l; uint64_t x = w; for (int k = 0; k < m; ++k) { l.push_back(V[x % V.size()]); x /= V.size(); }
                    run::Opts q = ro; q.rlow = l; q.rlown = N;
                    O.test(c, o, q, "low bytes " + num(l) + " for the first " + std::to_string(N) + " answers");
                    c.nontriv.insert(run::h64(O.in + num(l)));
                }
            };
            if (p) go(Oracle<FieldP>(mkp(p, s.vars.size()), s, p)); else go(Oracle<FieldQ>(mkq(s.vars.size()), s, 0));
        }});
    }
    // ---- C: unlucky primes over Q.  B is the product of a subset of the primes
    // that will be used; the coefficient B+1 collapses to 1 exactly modulo those.
    std::vector<mpz_class> Q; { mpz_class z = 1073741824; for (int i = 0; i < 8; ++i) Q.push_back(z = nextp(z)); }
    auto collapse = [=](const std::string &t, const mpz_class &B) { std::string r; for (size_t a = 0; a < t.size(); ++a) if (t[a] == '2' && (a == 0 || t[a - 1] != '^')) r += mpz_class(B + 1).get_str(); else r += t[a]; return r; };
    {
        struct C { std::string name; std::vector<std::string> vars, P; int k; uint64_t sets, step; };
        std::vector<C> Cs;
        uint64_t sets = th ? 31 : 15;
        Cs.push_back({"pairs,2 vars,deg<=2,coeffs 1/B+1,<=2 terms", v2, signfree(pl(2, 2, {1, 2}, 2)), 2, sets, 1});
        Cs.push_back({"triples,3 vars,linear,coeffs 1/B+1,<=3 terms", v3, signfree(pl(3, 1, {1, 2}, 3)), 3, 7, (uint64_t)(th ? 1 : 37)});
        Cs.push_back({"pairs,2 vars,deg<=2,coeffs 1/B+1,<=3 terms", v2, signfree(pl(2, 2, {1, 2}, 3)), 2, 7, (uint64_t)(th ? 1 : 11)});
        for (auto &C0 : Cs) {
            uint64_t np = choose(C0.P.size(), C0.k) / C0.step;
            parts.push_back({"C unlucky primes: " + C0.name + " (" + std::to_string(np) + " systems" + (C0.step > 1 ? ", every " + std::to_string(C0.step) + "th of the family" : "") + ") x every nonempty subset of the first " + std::to_string((int)log2(C0.sets + 1)) + " primes", np * C0.sets, [=](uint64_t i, run::Ctx &c) {
                uint64_t S = i % C0.sets + 1; mpz_class B = 1; for (int k = 0; k < 5; ++k) if (S >> k & 1) B *= Q[k];
                Sys s; s.vars = C0.vars; bool any = false;
                for (auto j : subset(i / C0.sets * C0.step, C0.k)) { std::string t = collapse(C0.P[j], B); if (t != C0.P[j]) any = true; s.polys.push_back(t); }
                if (!any) return;
                int nv = s.vars.size();
                AQ A = mkq(nv); auto I = parse_all(A, s.polys, s.vars); auto G = A.gb(I); c.modelsteps += A.steps;
                std::string lq = leads(G, nv); int bad = 0, n0 = -2;
                for (int k = 0; k < 5; ++k) if (S >> k & 1) {
                    AP M = mkp(Q[k].get_ui(), nv); auto J = parse_all(M, s.polys, s.vars); auto H = M.gb(J); c.modelsteps += M.steps;
                    if (leads(H, nv) != lq) bad |= 1 << k;
                    if (k == 0) { Solutions<FieldP> z; z.solve(M, J, 40); n0 = z.verdict; }
                }
                if (!bad) { c.cnt["primes all lucky (not run)"]++; return; }
                run::Opts o; o.rdev[0] = 0; // the first prime is the smallest above 2^30
                std::string in = ms(s, "0"), env = "the first answer of rand() is 0: the first prime is 1073741827";
                c.states.insert(run::h64(A.strs(G, s.vars)));
                if (!(bad & 1)) for (auto g : {"1", "2"}) {
                    Want w; w.vars = s.vars; w.monic = false; if (g[0] == '1') w.lead = true;
                    run::judge(c, {"-g", g}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); }, env);
                    c.cnt[std::string("bases with an unlucky later prime")]++;
                }
                Oracle<FieldQ> O(A, s, 0, 40); if (!O.usable) return;
                if ((bad & 1) && !(O.sol.verdict == 0 && n0 == 0)) { c.cnt["first prime unlucky beyond recognition (not run)"]++; return; }
                c.cnt[bad & 1 ? "solving with an unlucky first prime" : "solving with an unlucky later prime"]++;
                c.nontriv.insert(run::h64(in));
                O.test(c, {"-P", "2"}, o, env);
            }});
        }
    }
    // ---- D: first primes at both ends of the range (the sequence of primes wraps around)
    {
        std::vector<int> R; // answers giving the last primes below the upper end, and the first ones
        { std::vector<long> pr; mpz_class z = 1303905299 - 600; while ((z = nextp(z)) <= 1303905301 + 60) pr.push_back(z.get_si());
          size_t from = pr.size() > (th ? 24u : 9u) ? pr.size() - (th ? 24 : 9) : 0;
          for (size_t k = from; k < pr.size(); ++k) { long v = pr[k] - 1 - (1 << 30); if (v >= 0 && v <= 1303905301 - (1 << 30)) R.push_back(v); }
          R.push_back(0); R.push_back(3); R.push_back(1303905301 - (1 << 30)); R.push_back(0x7fffffff); }
        std::vector<Sys> L{dense(2, 2, 3, 61, 1000000000), dense(2, 2, 4, 62, 1000000), dense(3, 3, 2, 63, 2000000000), katsura(3), cyclic(3), dense(2, 3, 3, 64, 1000), S("linbig2", {"x", "y", "z"}, {"2147483647*x+2147483646*y+1", "123456789*x-987654321*y+z", "1000000007*z-x-y"})};
        std::vector<Args> O{{"-P", "2"}, {"-P", "2", "-L", "1"}, {"-g", "2"}, {"-g", "1"}};
        uint64_t nr = R.size();
        parts.push_back({"D first prime at the ends of its range: " + std::to_string(L.size()) + " systems x " + std::to_string(nr) + " first answers x 4 option sets", L.size() * nr, [=](uint64_t i, run::Ctx &c) {
            Sys s = L[i / nr]; int v = R[i % nr]; run::Opts o; o.timeout = 30; o.rdev[0] = v; std::string env = "first answer of rand() " + std::to_string(v);
            Oracle<FieldQ> Q0(mkq(s.vars.size()), s, 0, 60); auto G = Q0.A.gb(Q0.I);
            c.states.insert(run::h64(Q0.A.strs(G, s.vars))); c.nontriv.insert(run::h64(Q0.in + env));
            for (auto &a : O) {
                if (a[0] == "-g") { Want w; w.vars = s.vars; w.monic = false; if (a[1] == "1") w.lead = true; run::judge(c, a, Q0.in, o, [&](const run::Result &r) { return cmp_basis(Q0.A, G, r, w); }, env); }
                else if (Q0.usable) Q0.test(c, a, o, env);
            }
        }});
    }
    // ---- E: the clock (it decides when rational reconstruction is attempted)
    {
        std::vector<long> V{0, 1, 1000, 1000000}; std::vector<std::vector<long>> W;
        for (int m = 1; m <= (th ? 4 : 2); ++m) { int T = 1; for (int k = 0; k < m; ++k) T *= V.size(); for (int w = 0; w < T; ++w) { std::vector<long> l; int x = w; for (int k = 0; k < m; ++k) { l.push_back(V[x % V.size()]); x /= V.size(); } W.push_back(l); } }
        for (int at : {0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89}) { std::vector<long> l(4096, 10); l[at] = -3600l * 1000000; W.push_back(l); } // one step back
        std::vector<Sys> L{dense(2, 2, 3, 61, 1000000000), dense(3, 3, 2, 63, 2000000000), katsura(3), dense(2, 2, 4, 62, 1000), S("linbig2", {"x", "y", "z"}, {"2147483647*x+2147483646*y+1", "123456789*x-987654321*y+z", "1000000007*z-x-y"})};
        if (th) { L.push_back(katsura(4)); L.push_back(noon(3)); L.push_back(dense(2, 2, 5, 66, 1000000)); }
        std::vector<Args> O{{"-P", "2"}, {"-P", "2", "-L", "1"}, {"-g", "2"}};
        uint64_t nw = W.size();
        parts.push_back({"E clocks: " + std::to_string(L.size()) + " systems x " + std::to_string(nw) + " clock behaviours (periodic increments and single backward steps) x 3 option sets", L.size() * nw, [=](uint64_t i, run::Ctx &c) {
            Sys s = L[i % L.size()]; auto &w0 = W[i / L.size()]; run::Opts o; o.timeout = 30; o.clk = w0;
            std::string env = w0.size() > 10 ? "clock steps back once" : "clock increments " + num(w0);
            Oracle<FieldQ> Q0(mkq(s.vars.size()), s, 0, 60); auto G = Q0.A.gb(Q0.I);
            c.states.insert(run::h64(Q0.A.strs(G, s.vars))); c.nontriv.insert(run::h64(Q0.in + num(w0)));
            for (auto &a : O) {
                if (a[0] == "-g") { Want w; w.vars = s.vars; w.monic = false; run::judge(c, a, Q0.in, o, [&](const run::Result &r) { return cmp_basis(Q0.A, G, r, w); }, env); }
                else if (Q0.usable) Q0.test(c, a, o, env);
            }
        }});
    }
    uint64_t n = 0; std::vector<uint64_t> start; std::string fam = "[";
    for (size_t k = 0; k < parts.size(); ++k) { start.push_back(n); n += parts[k].n; fam += (k ? "," : "") + run::Check::js(parts[k].name); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0; size_t k = parts.size() - 1; while (start[k] > i) --k;
        double t0 = run::now();
        parts[k].fn(i - start[k], c);
        c.cnt["ms in part " + parts[k].name.substr(0, 1)] += (uint64_t)((run::now() - t0) * 1000);
    });
    return ck.finish();
}
