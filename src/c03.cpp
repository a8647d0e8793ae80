// C03: tuning options never change the basis.  Every option vector of the
// bounded option space is run on every system of the space; the model's basis
// is computed once per (system, field).
#include "gb.hpp"
#include "fam.hpp"

int main() {
    run::Check ck("C03");
    ck.rule = "case = (system, characteristic, option vector); the full product of linear algebra variant x pairs per matrix x initial hash table size x hash table regeneration, for every system and field; non-trivial = option vector other than the defaults";
    ck.assumptions = {"reference Buchberger implementation in src/ref.hpp", "one thread (thread counts and schedules are C13)"};
    bool th = ck.thorough();
    std::vector<std::string> la{"1", "2", "42", "44"}, mp, hs, up, vb;
    if (th) { mp = {"0", "1", "2", "3", "5", "10", "100"}; hs = {"1", "2", "3", "5", "8", "12", "17"}; up = {"0", "1", "2", "3", "7"}; vb = {"0"}; }
    else { mp = {"0", "1", "3", "10"}; hs = {"1", "4", "17"}; up = {"0", "1", "3"}; vb = {"0"}; }
    std::vector<std::vector<std::string>> V;
    for (auto &a : la) for (auto &b : mp) for (auto &c : hs) for (auto &d : up) for (auto &e : vb) V.push_back({"-l", a, "-m", b, "-s", c, "-u", d, "-v", e});
    for (auto &a : la) for (auto v : {"1", "2"}) V.push_back({"-l", a, "-v", v, "-m", "2", "-s", "3"});
    for (auto &a : la) V.push_back({"-l", a, "-s", "0", "-m", "-1", "-u", "-1"});
    std::vector<uint64_t> P{0, 2, 7, 251, 257, 32003, 65521, 65537, 1073741827, 2147483647};
    Space S0;
    std::vector<Sys> small = named_small();
    std::vector<Sys> L;
    for (auto &s : small) if (th || (s.name != "exp255" && s.name != "exp256" && s.name != "exp257" && s.name != "exp4k" && s.name != "dense2_3_4_9_9" && s.name != "dense1_2_6_10_9" && s.name != "dense2_2_3_1_9" && s.name != "katsura2" && s.name != "cyclic3" && s.name != "eco3" && s.name != "dense3_2_2_4_9")) L.push_back(s);
    S0.add(listed("named small systems", L), P.size());
    std::vector<Sys> M; for (auto &s : named_medium()) if (s.name == "katsura5" || s.name == "cyclic5" || s.name == "eco6" || s.name == "dense4_6_3_23_9") M.push_back(s);
    S0.add(listed("named medium systems", M), P.size());
    ck.extra["families"] = S0.describe();
    ck.extra["option_vectors"] = std::to_string(V.size());
    uint64_t nv = V.size(), block = 12, nb = (nv + block - 1) / block; // a case = a block of option vectors
    std::map<uint64_t, int> dummy;
    ck.explore(S0.n * nb, [&](uint64_t i, run::Ctx &c) {
        auto at = S0.at(S0.n - 1 - i / nb);
        uint64_t p = P[at.par];
        Sys &s = at.s;
        std::string in = ms(s, p);
        run::Opts o; o.timeout = 60;
        Want w; w.order = DRL(); w.vars = s.vars; w.chr = std::to_string(p);
        std::function<std::string(const run::Result &)> ok;
        AP A; AQ B; std::vector<AP::Poly> G; std::vector<AQ::Poly> H;
        if (p) {
            A = mkp(p, s.vars.size()); auto I = parse_all(A, s.polys, s.vars);
            if (!any_nonzero(I)) return;
            G = A.gb(I); c.modelsteps += A.steps; c.states.insert(run::h64(in + A.strs(G, s.vars)));
            ok = [&](const run::Result &r) { return cmp_basis(A, G, r, w); };
        } else {
            B = mkq(s.vars.size()); H = B.gb(parse_all(B, s.polys, s.vars)); c.modelsteps += B.steps; w.monic = false;
            c.states.insert(run::h64(in + B.strs(H, s.vars)));
            ok = [&](const run::Result &r) { return cmp_basis(B, H, r, w); };
        }
        for (uint64_t k = (i % nb) * block; k < std::min<uint64_t>(nv, (i % nb + 1) * block); ++k) {
            if (p == 0 && !th && at.k == 1 && k % 4) continue; // rational medium systems: every 4th vector in the quick tier
            std::vector<std::string> a{"-g", "2"}; a.insert(a.end(), V[k].begin(), V[k].end());
            o.ofile = V[k][3] != "0" && V[k][2] == "-v"; // diagnostics share stdout; the answer goes to the -o file
            c.nontriv.insert(run::h64(in + run::join(a)));
            if (!run::judge(c, a, in, o, ok)) return;
            c.cnt["runs p=" + std::to_string(p)]++;
            if (i % 997 == 5 && k % block == 0) c.samples.push_back("msolve " + run::join(a) + " on " + run::oneline(in, 200));
        }
    });
    return ck.finish();
}
