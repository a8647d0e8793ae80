// C06: saturation bases.
#include "gb.hpp"
#include "fam.hpp"

int main() {
    run::Check ck("C06");
    ck.rule = "case = (ideal, saturating polynomial, prime >= 2^16); complete enumerations of small ideals x polynomials plus named systems; non-trivial = the saturation differs from the ideal";
    ck.assumptions = {"reference saturation by elimination of 1-t*h in src/ref.hpp"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    std::vector<uint64_t> PA{65537, 65539, 131071, 8388617, 1073741827, 2147483647};
    struct E { Family f; std::vector<std::string> H; std::vector<uint64_t> ps; };
    std::vector<E> F;
    auto one = [&](std::vector<uint64_t> v) { return th ? PA : v; };
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=2 terms", v2, signfree(pl(2, 2, {1, -1}, 2)), 2), pl(2, 1, {1, -1}, 2), one({65537})});
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), {"x", "y-1"}, one({1073741827})});
    F.push_back({subsets("single,2 vars,deg<=3,coeffs +-1,<=3 terms", v2, signfree(pl(2, 3, {1, -1}, 3)), 1), {"x", "y", "x-y", "x+y", "x*y", "x^2", "x^2-y", "x-1", "y-1", "x*y-1", "1", "3"}, one({2147483647})});
    F.push_back({subsets("pairs,3 vars,squarefree deg<=3 monomials,<=2 terms", v3, signfree(plsf(3, 3, {1, -1}, 2)), 2), {"x", "z", "y*z", "x-y", "x*y-z"}, one({131071})});
    F.push_back({subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), {"x", "x-z"}, one({65537})});
    F.push_back({subsets("single,1 var,deg<=4", v1, signfree(pl(1, 4, {1, -2, 3}, 3)), 1), pl(1, 2, {1, -2}, 2), one({65539})});
    {   // ideals with prescribed components: (product of linear forms) and multiplicities
        std::vector<std::string> P{"x^2", "x*y", "y^2", "x^3-x", "x^2*y-y", "x*y^2-x*y", "y^3", "x^3-x^2*y", "x^2-2*x+1", "x*y-y", "x^4", "y^4-y^3", "x^3*y-x^2*y", "x*y-x-y+1"};
        F.push_back({subsets("pairs of reducible polynomials, 2 vars", v2, P, 2), {"x", "y", "x-1", "y-1", "x*y", "x-y", "x+y-1", "x^2-x"}, PA});
        F.push_back({subsets("triples of reducible polynomials, 2 vars", v2, P, 3), {"x", "y", "x-1", "y-1", "x*y", "x-y", "x+y-1", "x^2-x"}, one({65537, 1073741827})});
    }
    {
        std::vector<Sys> L;
        for (auto &s : named_small()) if (s.vars.size() > 1 && s.name.substr(0, 3) != "exp" && s.name != "manyvars" && s.name != "dense3_3_3_6_100000" && s.name != "dense4_3_2_8_30" && s.name != "hdense4_3_2_12_9") L.push_back(s);
        L.push_back(S("comp", {"x", "y", "z"}, {"x^2*y-x*y*z", "x*y^2-y^2*z+x*y*z", "x*z^3-y*z^3"}));
        L.push_back(S("comp2", {"x", "y", "z"}, {"x*y*z-x^2", "y^3-x*y^2", "z^4*y-z^3*x"}));
        L.push_back(S("comp3", {"x", "y", "z", "t"}, {"x*y-x*z", "y*z-y*t", "z^2*t-z*t^2", "x^2*t-x*t"}));
        L.push_back(S("deep", {"x", "y"}, {"x^9*y-x^9", "x^4*y^5"}));
        L.push_back(S("deep2", {"x", "y", "z"}, {"x^5*y-x^5*z^2", "x^3*z^3-x^3*y", "x^7"}));
        F.push_back({listed("named systems", L), {"@0", "@1", "@01", "@lin", "@quad"}, PA});
    }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n * F[k].ps.size() * F[k].H.size(); fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " ideals x " + std::to_string(F[k].H.size()) + " polynomials x " + std::to_string(F[k].ps.size()) + " primes)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        uint64_t p = F[k].ps[j % F[k].ps.size()]; j /= F[k].ps.size();
        std::string h = F[k].H[j % F[k].H.size()];
        Sys s = F[k].f.get(j / F[k].H.size());
        c.last = s.name + " " + h + " " + std::to_string(p);
        if (h == "@0") h = s.vars[0];
        if (h == "@1") h = s.vars.back();
        if (h == "@01") h = s.vars[0] + "*" + s.vars[1];
        if (h == "@lin") h = s.vars[0] + "-" + s.vars[1] + "+1";
        if (h == "@quad") h = s.vars[0] + "^2-" + s.vars[1];
        AP A = mkp(p, s.vars.size());
        auto I = parse_all(A, s.polys, s.vars); auto hp = A.parse(h, s.vars);
        if (!any_nonzero(I) || hp.empty()) return;
        auto G = A.saturate(I, hp); c.modelsteps += A.steps;
        auto G0 = A.gb(I);
        Sys t = s; t.polys.push_back(h);
        std::string in = ms(t, p), st = A.strs(G, s.vars);
        c.states.insert(run::h64(std::to_string(p) + st));
        bool nt = st != A.strs(G0, s.vars);
        if (nt) c.nontriv.insert(run::h64(in));
        Want w; w.chr = std::to_string(p); w.order = DRL(); w.vars = s.vars;
        run::Opts o; o.timeout = 60; o.ofile = true; // progress messages share stdout
        bool ok = run::judge(c, {"-S", "-g", "2"}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
        c.cnt[nt ? "saturation differs from the ideal" : "ideal already saturated"]++;
        if (A.is_one(G)) c.cnt["saturation is the whole ring"]++;
        if (i % 2003 == 7) c.samples.push_back(run::oneline(in, 150) + " -> " + run::oneline(st, 150));
        if (ok && k + 1 == F.size()) {
            for (auto l : {"1", "44"}) run::judge(c, {"-S", "-g", "2", "-l", l}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
            w.lead = true;
            run::judge(c, {"-S", "-g", "1"}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
        }
    });
    return ck.finish();
}
