// C08: parametrizations over prime fields.
#include "solve.hpp"
#include "fam.hpp"

int main() {
    run::Check ck("C08");
    ck.rule = "case = (system, prime, options); complete enumerations of small systems plus named zero-dimensional systems; non-trivial = zero-dimensional with at least two distinct solutions";
    ck.assumptions = {"reference Buchberger, radical and univariate arithmetic in src/ref.hpp and src/uni.hpp",
                      "characteristics below 2^29: the algorithm may fail with probability about (degree/p); a case fails only if four independent random streams fail"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    typedef std::vector<std::string> Args;
    std::vector<Args> none{{}}, few{{}, {"-d", "0"}, {"-d", "4"}}, some{{}, {"-c", "1"}, {"-c", "0"}, {"-d", "0"}, {"-d", "1"}, {"-d", "3"}, {"-d", "4"}, {"-l", "1"}, {"-l", "44"}},
        all = some;
    for (auto c : {"0", "1", "2"}) for (auto d : {"0", "1", "2", "3", "4"}) for (auto l : {"2", "42"}) all.push_back({"-c", c, "-d", d, "-l", l});
    all.push_back({"-m", "5"}); all.push_back({"-s", "2", "-u", "1"}); all.push_back({"-P", "1"}); all.push_back({"-P", "2"}); all.push_back({"-L", "1"}); all.push_back({"-p", "7"});
    std::vector<uint64_t> P2{1073741827, 1518500183}, PF{65537, 65539, 131071, 8388617, 16777259, 536870909, 1073741827, 1518500183};
    struct E { Family f; std::vector<uint64_t> ps; std::vector<Args> os; };
    std::vector<E> F;
    auto pr = [&](std::vector<uint64_t> v) { return th ? PF : v; };
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), pr({1073741827, 65537}), th ? some : few});
    if (th) F.push_back({subsets("pairs,2 vars,deg<=3,coeffs +-1,<=3 terms", v2, signfree(pl(2, 3, {1, -1}, 3)), 2), {1073741827}, few});
    if (th) F.push_back({subsets("triples,3 vars,deg<=2,<=2 terms", v3, signfree(pl(3, 2, {1, -1}, 2)), 3), {1518500183}, none});
    F.push_back({subsets("pairs,2 vars,deg<=3,coeffs 1/-2,<=2 terms", v2, signfree(pl(2, 3, {1, -2}, 2)), 2), pr({1518500183}), th ? some : few});
    F.push_back({subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), pr({1073741827}), none});
    F.push_back({subsets("single,1 var,deg<=4", v1, signfree(pl(1, 4, {1, -2, 3}, 5)), 1), pr({1073741827, 65537}), none});
    {   // prescribed multiplicities and positions of the solutions
        std::vector<std::string> P{"x^2", "x*y", "y^2", "x^3-x", "x^2*y-y", "x*y^2-x*y", "y^3", "x^3-x^2*y", "x^2-2*x+1", "x*y-y", "x^4", "y^4-y^3", "x^3*y-x^2*y", "x*y-x-y+1", "y^2-3*y+2", "x^2+1", "y^5-x"};
        F.push_back({subsets("pairs of reducible polynomials, 2 vars", v2, P, 2), PF, some});
        F.push_back({subsets("triples of reducible polynomials, 2 vars", v2, P, 3), pr({1073741827, 131071}), some});
        F.push_back({subsets("quadruples of reducible polynomials, 2 vars", v2, P, 4), pr({1073741827}), th ? some : few});
        std::vector<std::string> Q{"x^2-x", "y^2-y", "z^2-z", "x^2", "y^2-x", "z^3-y", "z^2-x*y", "x*y-z", "x*z", "y*z-x", "x^3", "y^3-1", "z^2-1", "x-y", "x+y+z-1", "x-1"};
        F.push_back({subsets("triples, 3 vars", v3, Q, 3), pr({1073741827}), some});
        F.push_back({subsets("quadruples, 3 vars", v3, Q, 4), pr({1073741827}), th ? some : few});
    }
    {
        std::vector<Sys> L = named_small();
        L.erase(std::remove_if(L.begin(), L.end(), [](const Sys &s) { return s.name.substr(0, 3) == "exp" || s.name == "manyvars"; }), L.end());
        L.push_back(eco(6)); L.push_back(dense(5, 5, 2, 21, 9)); L.push_back(dense(2, 2, 6, 25, 9));
        if (th) { L.push_back(katsura(5)); L.push_back(noon(4)); L.push_back(cyclic(5)); L.push_back(dense(3, 3, 4, 26, 9)); L.push_back(dense(2, 2, 8, 25, 9)); }
        L.push_back(S("grid", {"x", "y", "z"}, {"x^3-x", "y^3-y", "z^2-1"}));
        L.push_back(S("grid2", {"x", "y", "z", "t"}, {"x^2-1", "y^2-4", "z^2-9", "t^2-16"}));
        L.push_back(S("fat", {"x", "y", "z"}, {"x^2", "x*y", "x*z", "y^2", "y*z", "z^2"}));
        L.push_back(S("fat2", {"x", "y", "z"}, {"x^2-x", "x*y", "x*z", "y^2-y", "y*z", "z^2-z"}));
        L.push_back(S("shape", {"x", "y", "z"}, {"x-z^5+3*z", "y-z^4-1", "z^7-z-3"}));
        L.push_back(S("linear1", {"x", "y", "z"}, {"x-1", "y-2", "z-3"}));
        L.push_back(S("linpart", {"x", "y", "z", "t"}, {"x-y", "y-z", "z-t+1", "t^3-t^2-1"}));
        L.push_back(S("linpart2", {"x", "y", "z", "t"}, {"t-x", "z-y", "y-x^2", "x^3-x-1"}));
        L.push_back(S("sqvars", {"x", "y", "z"}, {"x^2-z", "y^2-z-1", "z^2-z-1"}));
        L.push_back(S("deg1coord", {"x", "y"}, {"x^2", "x*y-y^2"}));
        std::vector<Sys> M;
        for (auto &s : L) { M.push_back(s); for (int k = 1; k < 4; ++k) if (s.vars.size() > 1 + (k > 1) && s.vars.size() < 6) M.push_back(permuted(s, k)); }
        F.push_back({listed("named systems, variable orders", M), pr(P2), some});
        F.push_back({listed("named systems, all options", L), pr({1073741827}), all});
    }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n * F[k].ps.size(); fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " systems x " + std::to_string(F[k].ps.size()) + " primes x " + std::to_string(F[k].os.size()) + " option sets)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        uint64_t p = F[k].ps[j % F[k].ps.size()];
        Sys s = F[k].f.get(j / F[k].ps.size());
        c.last = s.name + " " + std::to_string(p);
        AP A = mkp(p, s.vars.size());
        auto I = parse_all(A, s.polys, s.vars);
        if (!any_nonzero(I)) return;
        Solutions<FieldP> sol;
        sol.solve(A, I); c.modelsteps += sol.steps;
        if (sol.verdict != 0 || sol.big) { c.cnt["not zero-dimensional (C07) or more solutions than the model handles"]++; return; }
        std::string in = ms(s, p);
        c.cnt[sol.N == sol.mult ? "radical" : "not radical"]++;
        if (sol.N > 1) c.nontriv.insert(run::h64(in));
        c.states.insert(run::h64(std::to_string(p) + A.strs(sol.R, s.vars)));
        auto ok = [&](const Args &o, const run::Result &r) -> std::string {
            if (r.code) return "msolve ended with " + r.how();
            bool quits = false;
            for (size_t a = 0; a + 1 < o.size(); ++a) if (o[a] == "-c" && o[a + 1] != "2") quits = true;
            if (quits && r.out.find('[') == std::string::npos) return "";
            try {
                Tree t = parse_answer(r.out);
                std::string e = cmp_verdict(sol, t);
                if (!e.empty()) return e;
                if (t.size() != 2) return "the answer has " + std::to_string(t.size()) + " entries";
                return cmp_param(sol, I, t[1], s.vars, (long)p);
            } catch (std::exception &e) { return e.what(); }
        };
        for (auto &o : F[k].os) {
            run::Opts ro; ro.timeout = 20;
            auto known = [&](const run::Result &r) { try { return hidden_class(sol, I, parse_answer(r.out)[1], s.vars, (long)p); } catch (std::exception &) { return false; } };
            if (p < (1ull << 29)) { // retries with other random streams
                bool good = false;
                for (uint64_t sd = 2; sd < 5 && !good; ++sd) { ro.rseed = sd; auto r = run::msolve(o, in, ro); c.transitions++; good = ok(o, r).empty(); if (!good && known(r)) break; if (!good) c.cnt["unlucky random streams"]++; }
                if (good) { c.validated++; continue; }
                ro.rseed = 1;
            }
            run::Result res;
            if (!run::judge(c, o, in, ro, [&](const run::Result &r) { return ok(o, r); }, "", &res,
                            [&](const run::Result &r) -> std::string { try { return hidden_class(sol, I, parse_answer(r.out)[1], s.vars, (long)p) ? "class:hidden-solutions" : ""; } catch (std::exception &) { return ""; } })) continue;
            if (res.out.find('[') == std::string::npos) c.cnt["quits because of -c 0/1"]++;
            if (i % 503 == 7 && &o == &F[k].os[0]) c.samples.push_back(run::oneline(in, 150) + " -> " + run::oneline(res.out, 200));
        }
    });
    return ck.finish();
}
