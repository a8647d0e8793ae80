// C04: elimination (two-block) orders.
#include "gb.hpp"
#include "fam.hpp"

static std::string ordname(int k) { return k == 1 ? "eliminating first variable, blocks: graded reverse lexicographical" : "eliminating first " + std::to_string(k) + " variables, blocks: graded reverse lexicographical"; }

int main() {
    run::Check ck("C04");
    ck.rule = "case = (system, block length 1..n-1, characteristic); complete enumerations of small patterns plus all named systems with every block length; non-trivial = the block basis differs from the graded reverse lexicographical one";
    ck.assumptions = {"reference Buchberger implementation in src/ref.hpp"};
    bool th = ck.thorough();
    auto v2 = vnames(2), v3 = vnames(3);
    std::vector<uint64_t> P = th ? std::vector<uint64_t>{2, 3, 7, 251, 257, 32003, 65521, 65537, 1073741827, 2147483647, 0} : std::vector<uint64_t>{7, 65521, 1073741827, 0};
    std::vector<uint64_t> PN{2, 251, 257, 32003, 65521, 65537, 1073741827, 2147483647, 0};
    struct E { Family f; std::vector<uint64_t> ps; };
    std::vector<E> F;
    F.push_back({subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), th ? P : std::vector<uint64_t>{0}});
    F.push_back({subsets("triples,3 vars,squarefree deg<=2,coeffs +-1,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? P : std::vector<uint64_t>{1073741827, 0}});
    F.push_back({subsets("pairs,3 vars,deg<=2,coeffs +-1,<=2 terms", v3, signfree(pl(3, 2, {1, -1}, 2)), 2), th ? P : std::vector<uint64_t>{251}});
    std::vector<Sys> L;
    auto skip = [](const Sys &s) { return s.name.substr(0, 3) == "exp" || s.name == "manyvars" || s.name == "noon3" || s.name == "dense3_3_3_6_100000" || s.name == "dense4_4_2_7_9" || s.name == "dense4_3_2_8_30" || s.name == "hdense4_3_2_12_9" || s.name == "dense2_2_4_2_1000" || s.name == "katsura4" || s.name == "eco5"; };
    auto heavyq = [](const Sys &s) { return s.name.substr(0, 7) == "dense3_" || s.name == "linbig"; }; // reference over Q too slow
    for (auto &s : named_small()) if (s.vars.size() > 1 && !skip(s)) L.push_back(s);
    std::vector<Sys> X{S("curve", {"t", "x", "y"}, {"x-t^2", "y-t^3"}), S("curve2", {"s", "t", "x", "y", "z"}, {"x-s^2", "y-s*t", "z-t^2"}), S("unit", {"x", "y"}, {"x*y-1", "x*y"}), S("unit3", {"x", "y", "z"}, {"x^2-y", "x*y-1", "y^2-x+z", "z-5"}),
                       S("circ", {"t", "x", "y"}, {"x+x*t^2-1+t^2", "y+y*t^2-2*t"}), S("implicit", {"u", "v", "x", "y", "z"}, {"x-u*v", "y-u-v", "z-u^2-v^2"}), S("segre", {"a", "b", "c", "d", "x", "y", "z", "w"}, {"x-a*c", "y-a*d", "z-b*c", "w-b*d"}),
                       S("sep", {"x", "y", "z"}, {"x^2-x", "y^2-2", "z^3-z"}), S("last", {"x", "y"}, {"y^3-2"}), S("first", {"x", "y"}, {"x^3-2"}), S("both", {"x", "y", "z"}, {"x^2+y+z", "y^2-z"}), S("deg", {"x", "y", "z"}, {"x*z^5-y", "x^2-y*z"})};
    for (auto &s : X) L.push_back(s);
    F.push_back({listed("named systems", L), PN});
    { std::vector<Sys> M; for (auto &s : {katsura(4), eco(5), dense(4, 4, 2, 7, 9)}) M.push_back(s);
      F.push_back({listed("larger systems", M), th ? std::vector<uint64_t>{2, 251, 32003, 65521, 1073741827, 0} : std::vector<uint64_t>{251, 65521, 2147483647}}); }
    std::vector<uint64_t> start; uint64_t n = 0;
    std::string fam = "[";
    for (size_t k = 0; k < F.size(); ++k) { start.push_back(n); n += F[k].f.n * F[k].ps.size(); fam += (k ? "," : "") + run::Check::js(F[k].f.name + " (" + std::to_string(F[k].f.n) + " systems x " + std::to_string(F[k].ps.size()) + " characteristics x every block length)"); }
    ck.extra["families"] = fam + "]";
    ck.explore(n, [&](uint64_t i0, run::Ctx &c) {
        uint64_t i = n - 1 - i0;
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        Sys s = F[k].f.get(j / F[k].ps.size());
        uint64_t p = F[k].ps[j % F[k].ps.size()];
        int nv = s.vars.size();
        std::string in = ms(s, p); c.last = s.name + " " + std::to_string(p);
        run::Opts o; o.timeout = 60;
        if (p == 0 && k == 3 && heavyq(s)) return;
        for (int e = 1; e < nv; ++e) {
            std::vector<std::string> a{"-g", "2", "-e", std::to_string(e)};
            Want w; w.chr = std::to_string(p); w.vars = s.vars;
            std::string st;
            std::function<std::string(const run::Result &)> ok;
            AP A; AQ B; std::vector<AP::Poly> G; std::vector<AQ::Poly> H;
            if (p) {
                A = mkp(p, nv, e); auto I = parse_all(A, s.polys, s.vars); if (!any_nonzero(I)) return;
                G = A.gb(I); c.modelsteps += A.steps; w.order = ordname(e); st = A.strs(G, s.vars);
                AP D = mkp(p, nv); auto GD = D.gb(parse_all(D, s.polys, s.vars));
                if (D.strs(GD, s.vars) != st) c.nontriv.insert(run::h64(in + run::join(a)));
                ok = [&](const run::Result &r) { return cmp_basis(A, G, r, w); };
            } else {
                AQ T = mkq(nv, e); auto Q = T.gb(parse_all(T, s.polys, s.vars)); c.modelsteps += T.steps;
                B = mkq(nv - e); w.order = DRL(); w.monic = false;
                w.vars = std::vector<std::string>(s.vars.begin() + e, s.vars.end());
                for (auto &q : Q) {
                    bool in1 = false; for (auto &t : q) for (int v = 0; v < e; ++v) if (t.m.e[v]) in1 = true;
                    if (in1) continue;
                    AQ::Poly r = q; for (auto &t : r) { for (int v = 0; v < nv; ++v) t.m.e[v] = v + e < nv ? t.m.e[v + e] : 0; }
                    B.norm(r); H.push_back(r);
                }
                st = B.strs(H, w.vars);
                if (!H.empty()) c.nontriv.insert(run::h64(in + run::join(a)));
                ok = [&](const run::Result &r) -> std::string {
                    if (H.empty()) { // the zero ideal
                        if (r.code) return "msolve ended with " + r.how();
                        PrintedBasis b = parse_basis(r.out);
                        if (!b.err.empty()) return b.err;
                        if (b.polys.size() == 1 && b.polys[0] == "0" && b.len == 0) return "";
                        return "wrong basis: expected the zero ideal, got " + run::join(b.polys, ", ");
                    }
                    return cmp_basis(B, H, r, w);
                };
            }
            c.states.insert(run::h64(std::to_string(p) + "," + std::to_string(e) + st));
            if (!run::judge(c, a, in, o, ok)) return;
            c.cnt[p ? "runs over prime fields" : "runs over Q"]++;
            if (k >= 3 && e == 1) { // the leading ideal
                w.lead = true;
                if (p || !H.empty()) { std::vector<std::string> a1{"-g", "1", "-e", std::to_string(e)}; if (!run::judge(c, a1, in, o, ok)) return; }
            }
            if (i % 3001 == 7) c.samples.push_back("msolve " + run::join(a) + " on " + run::oneline(in, 150) + " -> " + run::oneline(st, 150));
        }
    });
    return ck.finish();
}
