// C05: normal forms of the last k polynomials.
#include "gb.hpp"
#include "fam.hpp"

static std::string cmp_nf(const AP &A, const std::vector<AP::Poly> &N, const run::Result &r, const std::vector<std::string> &vars) {
    if (r.code) return "msolve ended with " + r.how();
    PrintedBasis b = parse_basis(r.out);
    if (!b.err.empty()) return b.err;
    std::vector<AP::Poly> H;
    try { H = parse_all(A, b.polys, vars); } catch (std::exception &e) { return std::string("unreadable normal forms: ") + e.what(); }
    bool same = H.size() == N.size();
    for (size_t i = 0; same && i < N.size(); ++i) same = A.eq(N[i], H[i]);
    if (same) return "";
    return "wrong normal forms: expected " + run::oneline(A.strs(N, vars), 800) + " got " + run::oneline(A.strs(H, vars), 800);
}

int main() {
    run::Check ck("C05");
    ck.rule = "case = (ideal, list of polynomials to reduce, prime, declared-basis flag); complete enumerations of small ideals and polynomials, all named systems; non-trivial = some remainder differs from its polynomial";
    ck.assumptions = {"reference Buchberger implementation and division in src/ref.hpp"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    struct E { Family f; std::vector<uint64_t> ps; int mode; };  // mode 0: fixed probe list; 1: every single polynomial of a list
    std::vector<E> F;
    auto P2 = signfree(pl(2, 2, {1, -1}, 3));
    F.push_back({subsets("ideals: pairs,2 vars,deg<=2,coeffs +-1,<=3 terms; probes: all monomials deg<=4 and four polynomials", v2, P2, 2), th ? primes_few() : std::vector<uint64_t>{251, 65521}, 0});
    F.push_back({subsets("ideals: triples,3 vars,squarefree,<=2 terms; probes: all monomials deg<=3 and more", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? primes_few() : std::vector<uint64_t>{1073741827}, 0});
    F.push_back({subsets("ideals: single polynomials,2 vars,deg<=3,<=3 terms", v2, signfree(pl(2, 3, {1, -1}, th ? 4 : 3)), 1), th ? primes_few() : std::vector<uint64_t>{2, 7, 32003, 2147483647}, 0});
    F.push_back({subsets("all pairs over GF(2),2 vars,deg<=2 x every polynomial of degree<=2 (single)", v2, pl(2, 2, {1}, th ? 6 : 3), 2), {2}, 1});
    F.push_back({subsets("pairs over GF(3),1 var x every polynomial (single)", v1, signfree(pl(1, 3, {1, 2}, 3)), 1), {3, 5}, 1});
    std::vector<Sys> L;
    for (auto &s : named_small()) if (s.name != "exp4k") L.push_back(s);
    F.push_back({listed("named small systems", L), primes_all(), 0});
    { std::vector<Sys> M; for (auto &s : {katsura(5), cyclic(5), noon(4), eco(6), dense(5, 5, 2, 21, 9), dense(3, 3, 4, 26, 9)}) M.push_back(s); F.push_back({listed("named medium systems", M), primes_few(), 0}); }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n * F[k].ps.size(); fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " ideals x " + std::to_string(F[k].ps.size()) + " primes)"); }
    ck.extra["families"] = fam + "]";
    auto all2 = pl(2, 2, {1}, 6), all1 = pl(1, 5, {1, 2}, 3);
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        Sys s = F[k].f.get(j / F[k].ps.size());
        uint64_t p = F[k].ps[j % F[k].ps.size()];
        int nv = s.vars.size();
        c.last = s.name;
        AP A = mkp(p, nv);
        auto I = parse_all(A, s.polys, s.vars);
        if (!any_nonzero(I)) return;
        auto G = A.gb(I); c.modelsteps += A.steps;
        run::Opts o; o.timeout = 60;
        auto go = [&](const std::vector<std::string> &gens, const std::vector<std::string> &probes, bool isgb) -> bool {
            std::vector<AP::Poly> N; bool nt = false; std::string st;
            for (auto &t : probes) { auto q = A.parse(t, s.vars); N.push_back(A.nf(q, G)); if (!A.eq(N.back(), q)) nt = true; st += A.str(N.back(), s.vars) + ";"; }
            Sys t = s; t.polys = gens; for (auto &q : probes) t.polys.push_back(q);
            std::string in = ms(t, p);
            std::vector<std::string> a{"-n", std::to_string(probes.size())};
            if (isgb) { a.push_back("-i"); a.push_back("1"); }
            c.states.insert(run::h64(std::to_string(p) + st));
            if (nt) c.nontriv.insert(run::h64(in + run::join(a)));
            bool ok = run::judge(c, a, in, o, [&](const run::Result &r) { return cmp_nf(A, N, r, s.vars); });
            c.cnt[isgb ? "runs with a declared basis" : "runs"]++; c.cnt["normal forms compared"] += N.size();
            if (c.cnt["runs"] % 997 == 5) c.samples.push_back("msolve " + run::join(a) + " on " + run::oneline(in, 150) + " -> " + run::oneline(st, 150));
            return ok;
        };
        if (F[k].mode == 1) {
            for (auto &q : nv == 1 ? all1 : all2) if (!go(s.polys, {q}, false)) return;
            return;
        }
        std::vector<std::string> pr;
        int md = nv <= 2 ? 4 : nv == 3 ? 3 : nv <= 5 ? 2 : 1;
        std::vector<std::vector<int>> M; allmonos(nv, md, M);
        for (auto &e : M) pr.push_back(monostr(e, s.vars));
        const std::string x = s.vars[0], y = s.vars.back();
        std::string mem = A.str(A.mulp(I[0].empty() ? A.var(0) : I[0], A.add(A.var(0), A.var(nv - 1))), s.vars); // member of the ideal
        if (I[0].empty()) mem = "0";
        std::vector<std::string> more{x + "^5+3*" + y + "-1", x + "^7", y + "^6-" + x, mem, "0", "2"};
        for (auto &q : more) if (nv > 1 || q != x + "^5+3*" + y + "-1") pr.push_back(q);
        if (!go(s.polys, pr, false)) return;
        std::reverse(pr.begin(), pr.end());
        if (!go(s.polys, pr, false)) return;
        if (k >= 5 || i % 8 == 0) {
            if (!go(s.polys, {mem}, false)) return;
            if (!go(s.polys, {pr.back()}, false)) return;
            if (!go(s.polys, {"0", x + "^7"}, false)) return;
        }
        // declared basis: the reduced basis in several orders, scaled and with a redundant element
        std::vector<std::string> g; for (auto &q : G) g.push_back(A.str(q, s.vars));
        if (!go(g, pr, true)) return;
        if (k >= 5 || i % 8 == 0) {
            std::reverse(g.begin(), g.end());
            if (!go(g, pr, true)) return;
            std::vector<std::string> h; uint64_t cc = 2;
            for (auto q : G) { for (auto &t : q) t.c = A.f.mul(t.c, cc % p ? cc % p : 1); h.push_back(A.str(q, s.vars)); cc = cc * 3 + 1; }
            std::rotate(h.begin(), h.begin() + h.size() / 2, h.end());
            if (!go(h, pr, true)) return;
        }
    });
    return ck.finish();
}
