// C07: empty, finite or infinite.
#include "solve.hpp"
#include "zdim.hpp"

template <class F> static std::string verdict(const Solutions<F> &sol, const run::Result &r, bool quits, int P, long chr, size_t nv) {
    if (sol.verdict == 0 && quits && r.out.find('[') == std::string::npos && r.code <= 1 && !r.timeout) return "";
    if (r.code) return "msolve ended with " + r.how();
    try {
        Tree t = parse_answer(r.out);
        std::string e = cmp_verdict(sol, t);
        if (!e.empty() || sol.verdict) return e;
        if (chr == 0 && P == 0) { // [0, [1, [boxes]]]
            if (t.size() != 2 || t[1].size() != 2 || t[1][0].a() != "1") return "malformed list of real solutions";
            for (auto &b : t[1][1].c) if (b.size() != nv) return "a box has " + std::to_string(b.size()) + " sides";
            if (t[1][1].size() > sol.mult) return "more real solutions than solutions";
            return "";
        }
        if (t[1][0].num() != chr) return "wrong characteristic printed";
        if (t[1][2].num() != (long)sol.mult) return "the number of solutions with multiplicity is " + std::to_string(sol.mult) + ", printed " + t[1][2].a();
        return "";
    } catch (std::exception &e) { return e.what(); }
}

int main() {
    run::Check ck("C07");
    ck.rule = "case = (system, characteristic, options); complete enumerations of small systems, named systems with added zero, constant and redundant generators; non-trivial = the verdict is not decided by a constant or by fewer generators than variables";
    ck.assumptions = {"reference Buchberger and staircase in src/ref.hpp", "finite solution sets over fields with fewer than 2^16 elements are left out: separating linear forms need not exist there"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    typedef std::vector<std::string> Args;
    std::vector<Args> one{{}}, few{{"-P", "2"}, {"-l", "44"}}, some{{}, {"-P", "1"}, {"-P", "2"}, {"-c", "0", "-d", "0"}, {"-c", "1", "-d", "4"}, {"-l", "44"}}, all = some;
    for (auto c : {"0", "1", "2"}) for (auto d : {"0", "1", "2", "3", "4"}) all.push_back({"-c", c, "-d", d, "-P", "2"});
    for (auto l : {"1", "2", "42"}) all.push_back({"-l", l, "-P", "1"});
    all.push_back({"-m", "5"}); all.push_back({"-s", "2", "-u", "1"}); all.push_back({"-p", "7"}); all.push_back({"-L", "1"}); all.push_back({"-v", "0"});
    struct E { Family f; std::vector<uint64_t> ps; std::vector<Args> os; };
    std::vector<uint64_t> PA{0}; for (auto p : primes_all()) if (p < 1518500213) PA.push_back(p);
    auto pr = [&](std::vector<uint64_t> v) { return th ? PA : v; };
    std::vector<E> F;
    F.push_back({subsets("single,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 1), pr({0, 2, 251, 65521, 1073741827}), one});
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), pr({0, 251, 65521}), one});
    F.push_back({subsets("pairs,2 vars,deg<=3,coeffs 1/-2,<=2 terms", v2, signfree(pl(2, 3, {1, -2}, 2)), 2), pr({0, 2, 1073741827}), th ? few : one});
    F.push_back({subsets("triples,2 vars,deg<=2,coeffs +-1,<=2 terms", v2, signfree(pl(2, 2, {1, -1}, 2)), 3), pr({0, 3, 65537}), one});
    F.push_back({subsets("pairs,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 2), pr({0, 2, 131071}), one});
    F.push_back({subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), pr({0, 65521}), one});
    F.push_back({subsets("single,1 var,deg<=4", v1, signfree(pl(1, 4, {1, -2, 3}, 5)), 1), pr({0, 1073741827}), few});
    F.push_back({subsets("pairs,1 var,deg<=3", v1, signfree(pl(1, 3, {1, -2, 3}, 3)), 2), pr({0, 5, 1073741827}), few});
    F.push_back({subsets("pairs of reducible polynomials, 2 vars", v2, red2(), 2), pr({0, 2, 251, 65521, 65537}), some});
    F.push_back({subsets("triples of reducible polynomials, 2 vars", v2, red2(), 3), pr({0, 131071}), few});
    F.push_back({subsets("pairs, 3 vars", v3, red3(), 2), pr({0, 2, 251, 65521, 1073741827}), some});
    F.push_back({subsets("triples, 3 vars", v3, red3(), 3), pr({0, 3, 65537}), few});
    F.push_back({subsets("quadruples, 3 vars", v3, red3(), 4), pr({0, 1073741827}), th ? some : one});
    {   // staircases of monomial ideals: every pair and triple of monomials with extra pure powers
        std::vector<std::string> M; std::vector<std::vector<int>> E; allmonos(3, th ? 4 : 3, E);
        for (auto &e : E) { std::string s; for (int i = 0; i < 3; ++i) if (e[i]) s += (s.empty() ? "" : "*") + v3[i] + "^" + std::to_string(e[i]); if (!s.empty()) M.push_back(s); }
        F.push_back({subsets("pairs of monomials, 3 vars", v3, M, 2), pr({0, 251, 1073741827}), one});
        F.push_back({subsets("triples of monomials, 3 vars", v3, M, 3), pr({0, 1073741827}), one});
        F.push_back({subsets("pairs of monomials plus one, 3 vars", v3, [&] { auto N = M; for (auto &s : N) s += "+1"; return N; }(), 2), pr({0, 131071}), one});
    }
    {   // added generators
        std::vector<Sys> L;
        auto base = zdim_named();
        base.push_back(S("posdim1", {"x", "y", "z"}, {"x*y-1", "x*z-y"}));
        base.push_back(S("posdim2", {"x", "y", "z", "t"}, {"x*z-y^2", "y*t-z^2", "x*t-y*z"}));
        base.push_back(S("posdim3", {"x", "y", "z"}, {"x^2-x", "x*y", "x*z"}));
        base.push_back(S("posdim4", {"x", "y"}, {"x^2*y-1"}));
        base.push_back(S("posdim5", {"x", "y", "z", "t", "u"}, {"x-y", "z^2-1"}));
        base.push_back(S("posdim6", {"x", "y", "z"}, {"z-1"}));
        base.push_back(S("posdim7", {"x", "y", "z"}, {"x-1"}));
        base.push_back(S("posdim8", {"x", "y", "z"}, {"x-1", "y-2"}));
        base.push_back(S("empty1", {"x", "y"}, {"x", "x-1"}));
        base.push_back(S("empty2", {"x", "y", "z"}, {"x*y-1", "x^2-z", "z*y^2-2"}));
        base.push_back(S("empty3", {"x", "y"}, {"x^2+y^2-1", "x^2+y^2-2"}));
        base.push_back(S("empty4", {"x"}, {"x^2-1", "x-2"}));
        base.push_back(S("vanish1", {"x", "y"}, {"65521*x-65521", "x*y-1"}));
        base.push_back(S("vanish2", {"x", "y"}, {"6*x^2-6*y", "y^2-x"}));
        base.push_back(S("const", {"x", "y"}, {"7"}));
        base.push_back(S("const6", {"x", "y"}, {"6", "x"}));
        for (auto &s : base) {
            L.push_back(s);
            for (auto e : {"0", "1", "6", "1073741827", "65521", "251"}) { Sys t = s; t.polys.push_back(e); t.name += "+const"; L.push_back(t); t = s; t.polys.insert(t.polys.begin(), e); L.push_back(t); }
            { Sys t = s; t.polys.push_back(s.polys[0]); L.push_back(t); }
            { Sys t = s; t.polys.push_back(s.polys.back()); t.polys.push_back("0"); t.polys.push_back("0"); L.push_back(t); }
            { Sys t = s; t.vars.push_back("free"); L.push_back(t); }
            { Sys t = s; t.vars.insert(t.vars.begin(), "free"); L.push_back(t); }
            for (int k = 1; k < 3; ++k) if (s.vars.size() > 1 + (k > 1) && s.vars.size() < 6) L.push_back(permuted(s, k));
        }
        F.push_back({listed("named systems with added generators and variables", L), pr({0, 2, 3, 251, 65521, 65537, 1073741827}), th ? some : few});
        F.push_back({listed("named systems, all options", base), pr({0, 2, 1073741827}), all});
    }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n * F[k].ps.size(); fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " systems x " + std::to_string(F[k].ps.size()) + " characteristics x " + std::to_string(F[k].os.size()) + " option sets)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        uint64_t p = F[k].ps[j % F[k].ps.size()];
        Sys s = F[k].f.get(j / F[k].ps.size());
        c.last = s.name + " " + std::to_string(p);
        std::string in = ms(s, std::to_string(p));
        auto go = [&](auto A, auto sol, bool zero) {
            auto I = parse_all(A, s.polys, s.vars);
            bool nz = any_nonzero(I);
            if (nz) { sol.solve(A, I, 0); c.modelsteps += sol.steps; c.states.insert(run::h64(std::to_string(p) + A.strs(sol.G, s.vars))); }
            int V = nz ? sol.verdict : 2;
            c.cnt[V == 2 ? "all generators zero" : V == -1 ? "empty" : V ? "infinite" : "finite"]++;
            if (V == 0 && ((p && p < 65536) || sol.mult > (p ? 150 : 80))) { c.cnt["left out: finite over a small field, or too many solutions"]++; return; }
            if (V == 2) return; // refused: there is nothing to solve (C12 has these inputs)
            if (V == 0 || s.polys.size() >= s.vars.size()) c.nontriv.insert(run::h64(in));
            for (auto &o : F[k].os) {
                bool quits = false; int P = 0;
                for (size_t a = 0; a + 1 < o.size(); ++a) { if (o[a] == "-c" && o[a + 1] != "2") quits = true; if (o[a] == "-P") P = o[a + 1][0] - '0'; }
                run::Opts ro; ro.timeout = 30;
                auto ok = [&](const run::Result &r) { return verdict(sol, r, quits, P, (long)p, s.vars.size()); };
                if (V == 0 && p && p < (1u << 29)) { // retries with other random streams
                    bool good = false;
                    for (uint64_t sd = 2; sd < 5 && !good; ++sd) { ro.rseed = sd; auto r = run::msolve(o, in, ro); c.transitions++; good = ok(r).empty(); if (!good) c.cnt["unlucky random streams"]++; }
                    if (good) { c.validated++; continue; }
                    ro.rseed = 1;
                }
                run::Result res;
                run::judge(c, o, in, ro, ok, "", &res);
                if (i % 1503 == 7 && &o == &F[k].os[0]) c.samples.push_back(run::oneline(in, 150) + " -> " + run::oneline(res.out, 100));
            }
        };
        if (p) go(mkp(p, s.vars.size()), Solutions<FieldP>(), true); else go(mkq(s.vars.size()), Solutions<FieldQ>(), true);
    });
    return ck.finish();
}
