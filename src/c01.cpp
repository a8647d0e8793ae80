// C01: reduced Groebner bases over prime fields.
#include "gb.hpp"
#include "fam.hpp"

int main() {
    run::Check ck("C01");
    ck.rule = "case = (system, prime); systems: complete enumerations of small coefficient/monomial patterns plus all named systems, over every listed prime; non-trivial = the reduced basis differs from the normalised input";
    ck.assumptions = {"reference Buchberger implementation in src/ref.hpp", "bounds: see coverage.families"};
    std::vector<std::pair<Family, std::vector<uint64_t>>> F;
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    // every pair of trinomials of degree <= 2 in two variables
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), th ? primes_all() : std::vector<uint64_t>{3, 251, 65521, 2147483647}});
    // every triple of binomials in squarefree monomials, three variables
    F.push_back({subsets("triples,3 vars,squarefree deg<=2,coeffs +-1,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? primes_few() : std::vector<uint64_t>{7, 32003, 1073741827}});
    if (th) F.push_back({subsets("triples,3 vars,deg<=2,coeffs +-1,<=2 terms", v3, signfree(pl(3, 2, {1, -1}, 2)), 3), {2, 251, 65521, 2147483647}});
    // all of GF(2)[x,y]_{<=2}: pairs and triples
    F.push_back({subsets("all pairs over GF(2),2 vars,deg<=2", v2, pl(2, 2, {1}, 6), 2), {2}});
    F.push_back({subsets("all triples over GF(2),2 vars,deg<=2,<=4 terms", v2, pl(2, 2, {1}, th ? 6 : 3), 3), {2}});
    // univariate gcds over GF(3), GF(5)
    F.push_back({subsets("all pairs over GF(3),1 var,deg<=3", v1, signfree(pl(1, 3, {1, 2}, 4)), 2), {3}});
    F.push_back({subsets("pairs,1 var,deg<=3,coeffs 1..4", v1, pl(1, 3, {1, 3, 4}, 3), 2), {5, 257, 65537}});
    // coefficients that vanish in the field: coefficients 0..p+1 written out
    F.push_back({tuples("pairs with coefficients up to 4 (vanishing in GF(2),GF(3))", v2, pl(2, 1, {1, 2, 3, 4}, 2), 2), {2, 3}});
    F.push_back({tuples("pairs with coefficients p,2p-1,-p", v2, pl(2, 2, {1, 65521, -65521, 131041}, 2), 1), {65521}});
    // named systems over every prime
    F.push_back({listed("named small systems", named_small()), primes_all()});
    F.push_back({listed("named medium systems", named_medium()), th ? primes_all() : primes_few()});
    F.push_back({listed("named large systems", named_large()), th ? primes_few() : std::vector<uint64_t>{251, 65521, 1073741827}});
    { // permuted variable orders
        std::vector<Sys> L;
        for (auto s : {katsura(2), katsura(3), eco(4), dense(3, 3, 2, 3, 9), cyclic(4), S("toric", {"x", "y", "z", "t"}, {"x^3-y*z*t", "y^3-x*z*t", "x*y-z*t"})}) {
            int f = 1; for (size_t i = 2; i <= s.vars.size(); ++i) f *= i;
            for (int k = 1; k < f; ++k) L.push_back(permuted(s, k));
        }
        F.push_back({listed("all variable permutations of named systems", L), {2, 251, 65521, 1073741827}});
    }
    std::vector<uint64_t> start; uint64_t n = 0;
    for (auto &f : F) { start.push_back(n); n += f.first.n * f.second.size(); }
    std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) fam += (k ? "," : "") + run::Check::js(F[k].first.name + " (" + std::to_string(F[k].first.n) + " systems x " + std::to_string(F[k].second.size()) + " primes)");
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i, run::Ctx &c) {
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        Sys s = F[k].first.get(j / F[k].second.size());
        uint64_t p = F[k].second[j % F[k].second.size()];
        AP A = mkp(p, s.vars.size());
        auto I = parse_all(A, s.polys, s.vars);
        if (!any_nonzero(I)) return; // the zero ideal has no generators to print
        auto G = A.gb(I);
        c.modelsteps += A.steps;
        std::string st = A.strs(G, s.vars);
        c.states.insert(run::h64(std::to_string(p) + st));
        std::vector<AP::Poly> J; for (auto q : I) if (!q.empty()) { A.monic(q); J.push_back(q); }
        bool same = J.size() == G.size();
        for (auto &q : J) { bool in = false; for (auto &g : G) if (A.eq(q, g)) in = true; if (!in) same = false; }
        std::string in = ms(s, p);
        if (!same) c.nontriv.insert(run::h64(in));
        Want w; w.chr = std::to_string(p); w.order = DRL(); w.vars = s.vars;
        run::Opts o; o.timeout = 30;
        bool ok = run::judge(c, {"-g", "2"}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
        if (i % 9001 == 17) c.samples.push_back("p=" + std::to_string(p) + " " + run::oneline(in, 200) + " -> " + run::oneline(st, 200));
        c.cnt["runs:" + F[k].first.name]++;
        if (ok && (k >= 9 || i % 16 == 0)) {
            w.lead = true;
            run::judge(c, {"-g", "1"}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
            c.cnt["leading ideal runs"]++;
        }
    });
    return ck.finish();
}
