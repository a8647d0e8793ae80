// C09: parametrizations over the rationals.
#include "solve.hpp"
#include "zdim.hpp"

static std::string pw2(int k, int d) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, k); z += d; return z.get_str(); }

int main() {
    run::Check ck("C09");
    ck.rule = "case = (system over Q, options); complete enumerations of small systems, all coefficient sizes on a bit grid, named systems; non-trivial = at least two distinct solutions";
    ck.assumptions = {"reference Buchberger, radical and univariate arithmetic over Q in src/ref.hpp and src/uni.hpp", "random choices are fixed to one stream here; C14 varies them"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    typedef std::vector<std::string> Args;
    std::vector<Args> none{{}}, few{{}, {"-L", "1"}}, some{{}, {"-L", "1"}, {"-d", "0"}, {"-d", "4"}, {"-c", "1"}, {"-l", "44"}}, all = some;
    for (auto c : {"0", "1", "2"}) for (auto d : {"0", "1", "2", "3", "4"}) for (auto L : {"0", "1"}) all.push_back({"-c", c, "-d", d, "-L", L});
    for (auto l : {"1", "2", "42"}) all.push_back({"-l", l});
    all.push_back({"-m", "5"}); all.push_back({"-s", "2", "-u", "1"}); all.push_back({"-P", "1"}); all.push_back({"-p", "7"});
    struct E { Family f; std::vector<Args> os; };
    std::vector<E> F;
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), th ? some : none});
    F.push_back({subsets("pairs,2 vars,deg<=3,coeffs 1/-2,<=2 terms", v2, signfree(pl(2, 3, {1, -2}, 2)), 2), th ? some : none});
    if (th) F.push_back({subsets("pairs,2 vars,deg<=3,coeffs +-1,<=3 terms", v2, signfree(pl(2, 3, {1, -1}, 3)), 2), none});
    F.push_back({subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? few : none});
    F.push_back({subsets("single,1 var,deg<=4", v1, signfree(pl(1, 4, {1, -2, 3}, 5)), 1), few});
    F.push_back({subsets("pairs of reducible polynomials, 2 vars", v2, red2(), 2), some});
    F.push_back({subsets("triples of reducible polynomials, 2 vars", v2, red2(), 3), th ? some : few});
    F.push_back({subsets("triples, 3 vars", v3, red3(), 3), th ? some : few});
    F.push_back({subsets("quadruples, 3 vars", v3, red3(), 4), th ? some : none});
    {   // coefficient sizes
        std::vector<Sys> L;
        for (int k = 0; k <= (th ? 400 : 200); k += (th ? 1 : 5)) for (int d : {-1, 0, 1}) {
            std::string c = pw2(k, d);
            if (c == "0") continue;
            L.push_back(S("size1", {"x"}, {"x^2-" + c}));
            L.push_back(S("size2", {"x", "y"}, {c + "*x^2-3*y-1", "y^2-" + c + "*x+7"}));
            L.push_back(S("size3", {"x", "y"}, {"x^2-1/" + c + "*y", "y^2-x-2/3"}));
            L.push_back(S("size4", {"x", "y"}, {"x-" + c, "y^2-1/3"}));
            L.push_back(S("size5", {"x", "y"}, {"x^2-" + c + "*x", "y^2-x*y"}));
        }
        F.push_back({listed("coefficient sizes", L), none});
    }
    {
        std::vector<Sys> L = zdim_named();
        if (th) { L.push_back(eco(6)); L.push_back(noon(4)); L.push_back(katsura(5)); L.push_back(cyclic(5)); }
        std::vector<Sys> M;
        for (auto &s : L) { M.push_back(s); for (int k = 1; k < 4; ++k) if (s.vars.size() > 1 + (k > 1) && s.vars.size() < 6) M.push_back(permuted(s, k)); }
        F.push_back({listed("named systems, variable orders", M), th ? some : few});
        F.push_back({listed("named systems, all options", zdim_named()), th ? all : some});
    }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n; fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " systems x " + std::to_string(F[k].os.size()) + " option sets)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        Sys s = F[k].f.get(i - start[k]);
        c.last = s.name;
        AQ A = mkq(s.vars.size());
        auto I = parse_all(A, s.polys, s.vars);
        if (!any_nonzero(I)) return;
        {   // dimension first, modulo a prime, cheaply (a hint only: the exact answer follows)
            AP B = mkp(1073741827, s.vars.size());
            auto J = parse_all(B, s.polys, s.vars);
            Solutions<FieldP> z; z.solve(B, J, 70);
            if (z.verdict != 0 || z.big) { c.cnt["not zero-dimensional (C07) or more solutions than the model handles"]++; return; }
        }
        Solutions<FieldQ> sol;
        sol.solve(A, I, 70); c.modelsteps += sol.steps;
        if (sol.verdict != 0 || sol.big) return;
        std::string in = ms(s, "0");
        c.cnt[sol.N == sol.mult ? "radical" : "not radical"]++;
        if (sol.N > 1) c.nontriv.insert(run::h64(in));
        c.states.insert(run::h64(A.strs(sol.R, s.vars)));
        for (auto &o0 : F[k].os) {
            Args o = o0; bool quits = false, hasP = false;
            for (size_t a = 0; a + 1 < o.size(); ++a) { if (o[a] == "-c" && o[a + 1] != "2") quits = true; if (o[a] == "-P") hasP = true; }
            if (!hasP) { o.push_back("-P"); o.push_back("2"); }
            run::Opts ro; ro.timeout = 30;
            run::Result res;
            run::judge(c, o, in, ro, [&](const run::Result &r) -> std::string {
                if (quits && r.out.find('[') == std::string::npos && r.code <= 1 && !r.timeout) return "";
                if (r.code) return "msolve ended with " + r.how();
                try {
                    Tree t = parse_answer(r.out);
                    std::string e = cmp_verdict(sol, t);
                    if (!e.empty()) return e;
                    if (t.size() != (hasP ? 3 : 2)) return "the answer has " + std::to_string(t.size()) + " entries";
                    return cmp_param(sol, I, t[1], s.vars, 0);
                } catch (std::exception &e) { return e.what(); }
            }, "", &res, [&](const run::Result &r) -> std::string { try { return hidden_class(sol, I, parse_answer(r.out)[1], s.vars, 0) ? "class:hidden-solutions" : ""; } catch (std::exception &) { return ""; } });
            if (res.out.find('[') == std::string::npos) c.cnt["quits because of -c 0/1"]++;
            if (i % 503 == 7 && &o0 == &F[k].os[0]) c.samples.push_back(run::oneline(in, 150) + " -> " + run::oneline(res.out, 200));
        }
    });
    return ck.finish();
}
