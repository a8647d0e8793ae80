// C10: boxes of the real solutions.
#include "solve.hpp"
#include "zdim.hpp"
#include "real.hpp"

int main() {
    run::Check ck("C10");
    ck.rule = "case = (system over Q, options); non-trivial = at least one real solution";
    ck.assumptions = {"reference Buchberger, radical, Sturm sequences and interval arithmetic over Q in src/", "random choices are fixed to one stream here; C14 varies them"};
    bool th = ck.thorough();
    auto v1 = vnames(1), v2 = vnames(2), v3 = vnames(3);
    typedef std::vector<std::string> Args;
    std::vector<Args> one{{"-P", "1"}}, two{{"-P", "1"}, {"-P", "0", "-p", "10"}}, some{{"-P", "1"}, {"-P", "0"}, {"-P", "1", "-p", "1"}, {"-P", "0", "-p", "40", "-L", "1"}, {"-P", "1", "-p", "129"}, {"-P", "1", "-p", "1000"}}, all = some;
    for (auto p : {"0", "2", "16", "63", "64", "65", "128", "200", "256", "300", "513", "2000"}) { all.push_back({"-P", "1", "-p", p}); all.push_back({"-P", "0", "-p", p}); }
    for (auto c : {"0", "1"}) all.push_back({"-P", "1", "-c", c});
    for (auto d : {"0", "1", "3", "4"}) all.push_back({"-P", "0", "-d", d});
    all.push_back({"-P", "0", "-l", "44"}); 
    struct E { Family f; std::vector<Args> os; };
    std::vector<E> F;
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), th ? two : one});
    F.push_back({subsets("pairs,2 vars,deg<=3,coeffs 1/-2,<=2 terms", v2, signfree(pl(2, 3, {1, -2}, 2)), 2), th ? some : one});
    if (th) F.push_back({subsets("pairs,2 vars,deg<=3,coeffs +-1,<=3 terms", v2, signfree(pl(2, 3, {1, -1}, 3)), 2), one});
    F.push_back({subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? two : one});
    F.push_back({subsets("single,1 var,deg<=4", v1, signfree(pl(1, 4, {1, -2, 3}, 5)), 1), two});
    F.push_back({subsets("pairs of reducible polynomials, 2 vars", v2, red2(), 2), some});
    F.push_back({subsets("triples of reducible polynomials, 2 vars", v2, red2(), 3), th ? some : one});
    F.push_back({subsets("triples, 3 vars", v3, red3(), 3), th ? some : two});
    F.push_back({subsets("quadruples, 3 vars", v3, red3(), 4), th ? some : one});
    {   // prescribed positions
        auto fs = rootfactors(); std::vector<Sys> L;
        for (int k = 1; k <= (th ? 3 : 2); ++k) for (uint64_t i = 0; i < choose(fs.size(), k); ++i) {
            std::vector<std::string> f; for (auto j : subset(i, k)) f.push_back(fs[j]);
            std::string p = product(f, {"x", "y"});
            for (auto q : {"y-x", "y^2-y", "y^2-x", "x*y-y+x", "3*y-2*x^2+1", "y^2-x^2", "36893488147419103232*y-x-1"}) { L.push_back(S("rootpos", {"x", "y"}, {p, q})); L.push_back(S("rootpos", {"y", "x"}, {p, q})); }
        }
        F.push_back({listed("prescribed root positions", L), th ? some : two});
    }
    {
        std::vector<Sys> L = zdim_named();
        if (th) { L.push_back(eco(6)); L.push_back(noon(4)); L.push_back(katsura(5)); L.push_back(cyclic(5)); }
        std::vector<Sys> M;
        for (auto &s : L) { M.push_back(s); for (int k = 1; k < 4; ++k) if (s.vars.size() > 1 + (k > 1) && s.vars.size() < 6) M.push_back(permuted(s, k)); }
        F.push_back({listed("named systems, variable orders", M), th ? some : two});
        F.push_back({listed("named systems, all options", zdim_named()), th ? all : some});
    }
    std::vector<uint64_t> start; uint64_t n = 0; std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n; fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " systems x " + std::to_string(F[k].os.size()) + " option sets)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        Sys s = F[k].f.get(i - start[k]);
        c.last = s.name;
        AQ A = mkq(s.vars.size());
        auto I = parse_all(A, s.polys, s.vars);
        if (!any_nonzero(I)) return;
        {
            AP B = mkp(1073741827, s.vars.size());
            auto J = parse_all(B, s.polys, s.vars);
            Solutions<FieldP> z; z.solve(B, J, 70);
            if (z.verdict != 0 || z.big) { c.cnt["not zero-dimensional (C07) or more solutions than the model handles"]++; return; }
        }
        Solutions<FieldQ> sol;
        sol.solve(A, I, 70); c.modelsteps += sol.steps;
        if (sol.verdict != 0 || sol.big) return;
        RealModel R;
        if (!R.build(sol)) { c.cnt["model found no separating form"]++; return; }
        std::string in = ms(s, "0");
        c.cnt["real solutions"] += R.nb();
        if (R.nb()) c.nontriv.insert(run::h64(in));
        c.states.insert(run::h64(A.strs(sol.R, s.vars)));
        for (auto &o : F[k].os) {
            bool quits = false; int P = 0; long p = 128;
            for (size_t a = 0; a + 1 < o.size(); ++a) { if (o[a] == "-c" && o[a + 1] != "2") quits = true; if (o[a] == "-P") P = o[a + 1][0] - '0'; if (o[a] == "-p") p = atol(o[a + 1].c_str()); }
            run::Opts ro; ro.timeout = 30;
            run::Result res; long slack = -1000000;
            run::judge(c, o, in, ro, [&](const run::Result &r) -> std::string {
                if (quits && r.out.find('[') == std::string::npos && r.code <= 1 && !r.timeout) return "";
                if (r.code) return "msolve ended with " + r.how();
                try {
                    Tree t = parse_answer(r.out);
                    std::string e = cmp_verdict(sol, t);
                    if (!e.empty()) return e;
                    if (t.size() != (P ? 3 : 2)) return "the answer has " + std::to_string(t.size()) + " entries";
                    std::vector<int> where; int pv = -1;
                    for (size_t v = 0; v < s.vars.size(); ++v) where.push_back(v);
                    if (P) {
                        e = cmp_param(sol, I, t[1], s.vars, 0);
                        if (!e.empty()) return e;
                        for (size_t v = 0; v < s.vars.size(); ++v) for (size_t q = 0; q < t[1][3].size(); ++q) if (t[1][3][q].a() == "'" + s.vars[v] + "'") { where[v] = q; if (q + 1 == t[1][3].size()) pv = v; }
                    }
                    slack = -1000000;
                    return R.boxes(t[P ? 2 : 1], where, &slack, p, pv);
                } catch (std::exception &e) { return e.what(); }
            }, "", &res, [&](const run::Result &r) -> std::string {
                try {
                    Args o1 = o; run::Result r1 = r;
                    if (P == 0) { for (size_t a = 0; a + 1 < o1.size(); ++a) if (o1[a] == "-P") o1[a + 1] = "1"; r1 = run::msolve(o1, in, ro); }
                    Tree t = parse_answer(r1.out);
                    return hidden_class(sol, I, t[1], s.vars, 0) ? "class:hidden-solutions" : "";
                } catch (std::exception &) { return ""; }
            });
            if (slack > -1000000 && getenv("SLACK")) { c.cnt["slack " + std::to_string(slack / 8 * 8)]++; if (slack > 8) fprintf(stderr, "slack %ld: %s :: %s\n", slack, run::join(o).c_str(), run::oneline(in).c_str()); }
            if (i % 503 == 7 && &o == &F[k].os[0]) c.samples.push_back(run::oneline(in, 150) + " -> " + run::oneline(res.out, 300));
        }
    });
    return ck.finish();
}
