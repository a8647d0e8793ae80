// C02: reduced Groebner bases over the rationals.
#include "gb.hpp"
#include "fam.hpp"

// linear systems and triangular systems with prescribed solutions a/b of every bit size
static std::string zbits(int bits, int k) { // a fixed odd integer with the given number of bits
    mpz_class z = 1;
    uint64_t st = 1234567 + 977 * k;
    for (int i = 1; i < bits; ++i) { st = st * 6364136223846793005ull + 1442695040888963407ull; z = 2 * z + ((st >> 40) & 1); }
    if (z % 2 == 0) z += 1;
    return z.get_str();
}
static std::string zpow(int bits, int d) { mpz_class z = 1; z <<= bits; z += d; return z.get_str(); }

int main() {
    run::Check ck("C02");
    ck.rule = "case = input system over Q; complete enumeration of small coefficient/monomial patterns, of numerator/denominator bit sizes, and of all named systems; non-trivial = the reduced basis differs from the normalised input";
    ck.assumptions = {"reference Buchberger implementation over GMP rationals in src/ref.hpp", "random choices fixed here (varied in C14)"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    std::vector<Family> F;
    F.push_back(subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2));
    F.push_back(subsets("pairs,2 vars,deg<=2,coeffs 1,-2,3,<=2 terms", v2, pl(2, 2, {1, -2, 3}, 2), 2));
    F.push_back(subsets("triples,3 vars,squarefree deg<=2,coeffs +-1,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3));
    if (th) F.push_back(subsets("triples,3 vars,deg<=2,coeffs +-1,<=2 terms", v3, signfree(pl(3, 2, {1, -1}, 2)), 3));
    F.push_back(subsets("pairs,1 var,deg<=3,coeffs 1,-2,3", v1, pl(1, 3, {1, -2, 3}, 4), 2));
    {   // x = a/b with every combination of bit sizes, alone and coupled
        std::vector<int> B;
        for (int b = 1; b <= (th ? 300 : 130); ++b) B.push_back(b);
        for (int b : {150, 200, 255, 256, 257, 300, 400, 511, 512, 640, 1000, 1500, 2000}) B.push_back(b);
        std::vector<Sys> L;
        for (int a : B) {
            L.push_back(S("frac", {"x"}, {zbits(a, 1) + "*x-" + zbits(a, 2)}));
            L.push_back(S("frac", {"x", "y"}, {zbits(a, 3) + "*x-y-" + zbits(a, 4), "x+" + zbits(a, 5) + "*y^2-1"}));
            L.push_back(S("pow2", {"x", "y"}, {zpow(a, 0) + "*x-" + zpow(a, 1), zpow(a, -1) + "*y-x"}));
            L.push_back(S("int", {"x", "y"}, {"x-" + zpow(a, 0), "y^2-" + zpow(a, -1) + "*x"}));
            L.push_back(S("den", {"x", "y"}, {"1/" + zbits(a, 6) + "*x^2-y", "x*y-1/" + zbits(a, 7)}));
            L.push_back(S("unb", {"x"}, {zbits(a, 8) + "*x-1"}));
            L.push_back(S("unb2", {"x"}, {zbits(a, 8) + "*x-" + zbits(3 * a, 9)}));
            L.push_back(S("gcd", {"x", "y"}, {zbits(a, 10) + "*x*y-" + zbits(a, 10), "x^2-" + zbits(a, 10) + "*y"}));
        }
        F.push_back(listed("prescribed coefficient bit sizes", L));
        std::vector<Sys> M;
        std::vector<int> C = th ? std::vector<int>{1, 2, 3, 5, 8, 13, 16, 21, 28, 29, 30, 31, 32, 33, 34, 45, 55, 60, 61, 62, 63, 64, 65, 66, 89, 120, 127, 128, 129, 144, 200, 233} : std::vector<int>{1, 2, 5, 15, 16, 29, 30, 31, 32, 33, 60, 63, 64, 65, 127, 128};
        for (int a : C) for (int b : C) {
            M.push_back(S("num/den", {"x", "y"}, {zbits(a, 1) + "*x-" + zbits(b, 2), "y-x"}));
            M.push_back(S("signed", {"x", "y"}, {zbits(a, 1) + "*x^2+" + zbits(b, 2) + "*y", "x*y-" + zbits(b, 3)}));
        }
        F.push_back(listed("numerator x denominator bit sizes", M));
    }
    {   // all small fractions
        std::vector<Sys> L;
        int m = th ? 60 : 24;
        for (int a = -m; a <= m; ++a) for (int b = 1; b <= m; ++b) if (a) L.push_back(S("small", {"x", "y"}, {"y-" + std::to_string(b) + "*x*y+1", std::to_string(b) + "*x" + (a < 0 ? "" : "+") + std::to_string(a)}));
        F.push_back(listed("all fractions a/b", L));
    }
    F.push_back(listed("named small systems", named_small()));
    { auto L = named_medium(); std::vector<Sys> M; for (auto &s : L) if (s.name != "dense2_4_9_29_1000000" && s.name != "dense5_5_2_21_9" && s.name != "dense7_8_2_30_9" && s.name != "dense4_3_3_22_9" && s.name != "dense3_3_4_26_9" && s.name.substr(0,7)!="dense6_") M.push_back(s); F.push_back(listed("named medium systems", M)); }
    std::vector<uint64_t> start; uint64_t n = 0;
    for (auto &f : F) { start.push_back(n); n += f.n; }
    std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) fam += (k ? "," : "") + run::Check::js(F[k].name + " (" + std::to_string(F[k].n) + " systems)");
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0; // expensive cases first
        size_t k = F.size() - 1; while (start[k] > i) --k;
        Sys s = F[k].get(i - start[k]);
        AQ A = mkq(s.vars.size());
        auto I = parse_all(A, s.polys, s.vars);
        auto G = A.gb(I);
        c.modelsteps += A.steps;
        std::string st = A.strs(G, s.vars);
        c.states.insert(run::h64(st));
        bool same = I.size() == G.size();
        for (auto q : I) { A.monic(q); bool in = false; for (auto &g : G) if (A.eq(q, g)) in = true; if (!in) same = false; }
        std::string in = ms(s, 0);
        if (!same) c.nontriv.insert(run::h64(in));
        Want w; w.chr = "0"; w.order = DRL(); w.vars = s.vars; w.monic = false;
        run::Opts o; o.timeout = 60;
        bool ok = run::judge(c, {"-g", "2"}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
        if (i % 4001 == 17) c.samples.push_back(run::oneline(in, 200) + " -> " + run::oneline(st, 200));
        c.cnt["runs:" + F[k].name]++;
        if (ok && (k >= F.size() - 2 || i % 16 == 0)) {
            w.lead = true;
            run::judge(c, {"-g", "1"}, in, o, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
            c.cnt["leading ideal runs"]++;
        }
    });
    return ck.finish();
}
