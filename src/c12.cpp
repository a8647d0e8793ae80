// C12: equivalent input texts, refused inputs.
#include "gb.hpp"
#include "fam.hpp"
#include "zdim.hpp"
#include "style.hpp"

// identifiers of the output renamed
static std::string renamed(const std::string &o, const std::map<std::string, std::string> &m) {
    std::string r; size_t i = 0;
    while (i < o.size()) {
        if (isalpha((unsigned char)o[i]) || o[i] == '_') {
            size_t j = i; while (j < o.size() && (isalnum((unsigned char)o[j]) || o[j] == '_' || o[j] == '\'' && o[i - 1] != '\'')) ++j;
            std::string w = o.substr(i, j - i); auto k = m.find(w); r += k == m.end() ? w : k->second; i = j;
        } else if (isdigit((unsigned char)o[i])) { while (i < o.size() && isdigit((unsigned char)o[i])) r += o[i++]; }
        else r += o[i++];
    }
    return r;
}

int main() {
    run::Check ck("C12");
    ck.rule = "case = (system, characteristic, mode, way of writing it); non-trivial = the text differs from the plain one";
    ck.assumptions = {"the plain text's answer is compared with the model in C01..C10; for Groebner bases also here", "with the characteristic as modulus, coefficients are written with absolute values below 2^31 as the documentation demands"};
    bool th = ck.thorough();
    typedef std::vector<std::string> Args;
    std::vector<Base> B;
    for (auto &s : {S("a", {"x", "y"}, {"x^2+2*x*y-3*y+1", "y^3-x-5"}), S("b", {"x", "y", "z"}, {"x+2*y+2*z-1", "x^2+2*y^2+2*z^2-x", "2*x*y+2*y*z-y"}), S("c", {"x", "y"}, {"-x*y+1", "-3*x^2+y-7", "x-y^4"}), S("d", {"x"}, {"x^3-2*x+11"}), S("e", {"x", "y", "z"}, {"-1", "x"}), S("f", {"x", "y", "z"}, {"x*y*z-1", "-x+y"}), S("g", {"x", "y"}, {"0", "x^2-1", "y*x-2"}), S("h", {"x", "y", "z", "t"}, {"x*z-y^2", "y*t-z^2", "x*t-y*z", "x-t-1"}), S("i", {"x", "y"}, {"1073741789*x^2-1073741788*y-1", "y^2-2147483646*x"})}) B.push_back(base(s));
    size_t nplain = B.size();
    for (auto &s : zdim_named()) { try { B.push_back(base(s)); } catch (std::exception &) {} }
    for (auto &s : named_small()) if (s.name.substr(0, 3) != "exp" && s.vars.size() < 6) B.push_back(base(s));
    struct Mode { std::string name; Args a; bool chr0, chrp, big; };
    std::vector<Mode> modes{{"gb", {"-g", "2"}, true, true, false}, {"solve", {"-P", "2"}, true, true, true}, {"boxes", {"-P", "1"}, true, false, false}, {"lead", {"-g", "1"}, true, true, false}, {"elim", {"-g", "2", "-e", "1"}, true, true, false}, {"nf", {"-g", "2", "-n", "1"}, false, true, false}, {"sat", {"-g", "2", "-S"}, false, true, true}};
    struct Job { size_t b; int mode; uint64_t p; Style s; int kind; uint64_t perm; }; // kind 0 style, 1 term order, 2 generator order, 3 names, 4 long names, 5 generators scaled
    std::vector<Job> J;
    auto usable = [&](size_t b, int m, uint64_t p) {
        if (p ? !modes[m].chrp : !modes[m].chr0) return false;
        if (p && modes[m].big && p < 65537) return false;
        if (p >= 1518500213 && (m == 1 || m == 6)) return false;
        size_t nz = 0; for (auto &g : B[b].g) if (!g.empty()) ++nz;
        if (m == 4 && B[b].vars.size() < 2) return false;
        if ((m == 5 || m == 6) && B[b].g.size() < 2) return false;
        return nz > 0;
    };
    // the whole product of styles
    auto product_ = [&](size_t b, int m, uint64_t p, bool full) {
        if (!usable(b, m, p)) return;
        for (int sp = 0; sp < 4; ++sp) for (int nl = 0; nl < 2; ++nl) for (int fin = 0; fin < 4; ++fin) for (int bl = 0; bl < 3; ++bl) for (int lay = 0; lay < 4; ++lay)
            for (int one = 0; one < 2; ++one) for (int ex = 0; ex < 3; ++ex) for (int pl = 0; pl < 2; ++pl) for (int rep = 0; rep < (p > 2 ? 5 : 4); ++rep) for (int sw = 0; sw < 2; ++sw) {
                if (!full && (bl == 1 || (nl && ex == 1) || (sw && rep) || (fin == 2) || (lay == 3 && sp == 2) || (sp == 3 && fin))) continue;
                Style s; s.space = sp; s.nl = nl; s.fin = fin; s.blank = bl; s.lay = lay; s.one = one; s.ex = ex; s.plus = pl; s.rep = rep; s.swap = sw;
                J.push_back({b, m, p, s, 0, 0});
            }
    };
    product_(2, 0, 65521, th); product_(0, 0, 0, th);
    if (th) { product_(0, 1, 65537, true); product_(2, 2, 0, true); product_(7, 0, 3, true); product_(5, 4, 0, true); product_(8, 0, 2147483647, true); }
    // every pair of deviations from the plain style
    std::vector<Style> pairs = style_pairs();
    std::vector<uint64_t> P{0, 2, 3, 251, 257, 65521, 65537, 1073741827, 2147483647};
    for (size_t b = 0; b < nplain; ++b) for (size_t m = 0; m < modes.size(); ++m) for (auto p : th ? P : std::vector<uint64_t>{0, 3, 251, 65537, 2147483647}) if (usable(b, m, p)) for (auto &s : pairs) {
        if (p == 2 && s.rep == 4) continue;
        if (!p && s.rep == 4) continue;
        if (!th && (m > 2 && m != 5) && (s.nl || s.swap)) continue;
        J.push_back({b, (int)m, p, s, 0, 0});
    }
    // orders and names
    auto fact = [](size_t n) { uint64_t r = 1; for (size_t i = 2; i <= n; ++i) r *= i; return r; };
    for (size_t b = 0; b < B.size(); ++b) for (size_t m = 0; m < modes.size(); ++m) for (auto p : th ? P : b < nplain ? std::vector<uint64_t>{0, 257, 65537, 2147483647} : std::vector<uint64_t>{0, 65537}) if (usable(b, m, p)) {
        size_t T = 1; for (auto &g : B[b].g) T = std::max(T, g.size());
        for (uint64_t k = 1; k < std::min<uint64_t>(fact(std::min<size_t>(T, 4)), 24); ++k) J.push_back({b, (int)m, p, Style(), 1, k});
        if (m != 5 && m != 6) for (uint64_t k = 1; k < std::min<uint64_t>(fact(std::min<size_t>(B[b].g.size(), 4)), th ? 24 : 6); ++k) J.push_back({b, (int)m, p, Style(), 2, k});
        for (uint64_t k = 0; k < 9; ++k) J.push_back({b, (int)m, p, Style(), 3, k});
        if (m == 0 || m == 1) for (uint64_t k = 40; k < (b < nplain ? 130 : 42); k += b < nplain ? (th ? 1 : 7) : 1) J.push_back({b, (int)m, p, Style(), 4, k});
        if (m != 5) for (uint64_t k = 1; k < 4; ++k) J.push_back({b, (int)m, p, Style(), 5, k});
    }
    // refused inputs
    struct Ref { std::string in; Args a; };
    std::vector<Ref> R;
    {
        std::vector<Args> as; for (auto &m : modes) as.push_back(m.a); as.push_back({});
        for (auto &a : as) {
            for (auto c : {"-1", "-2", "-65521", "2147483648", "2147483659", "4294967291", "4294967296", "4294967297", "1000000000000", "9223372036854775807", " -7", "-2147483647", "-2147483648"}) R.push_back({std::string("x,y\n") + c + "\nx^2-1,\nx*y-2\n", a});
            for (auto v : {"x,x", "x,y,x", "x, x", " x,x ", "x1,x10,x1", "y,x,x", "a,b,c,d,e,a", "x,y,y,y", "x\t,x", "xx,x,xx"}) for (auto c : {"0", "65537"}) R.push_back({std::string(v) + "\n" + c + "\nx^2-1,\nx*y-2\n", a});
            for (auto d : {"1/65537*x^2-1", "x^2-3/131074", "5*x*y-2/65537*x+1"}) R.push_back({std::string("x,y\n65537\n") + d + ",\nx*y-2\n", a});
        }
    }
    // documented elsewhere as a known finding: repeated variables inside a term
    size_t nrep = 1;
    uint64_t n = J.size() + R.size() + nrep;
    ck.extra["families"] = "[" + run::Check::js("whole product of writing styles, pairs of styles, term and generator orders, names, scaled generators: " + std::to_string(J.size()) + " texts of " + std::to_string(B.size()) + " systems") + "," + run::Check::js("refused inputs: " + std::to_string(R.size())) + "]";
    std::map<std::string, run::Result> memo;
    ck.explore(n, [&](uint64_t i, run::Ctx &c) {
        run::Opts ro; ro.timeout = 30;
        if (i >= J.size() + R.size()) {
            std::string in = "x,y\n0\nx*x-2,\ny-x\n";
            AQ A = mkq(2); std::vector<std::string> v{"x", "y"}; auto G = A.gb(parse_all(A, {"x^2-2", "y-x"}, v));
            Want w; w.monic = false; w.chr = "0"; w.order = DRL(); w.vars = v;
            run::judge(c, {"-g", "2"}, in, ro, [&](const run::Result &r) { return cmp_basis(A, G, r, w); });
            return;
        }
        if (i >= J.size()) {
            auto &x = R[i - J.size()];
            c.nontriv.insert(run::h64(run::join(x.a) + x.in));
            run::judge(c, x.a, x.in, ro, [&](const run::Result &r) -> std::string {
                if (r.code != 1) return "this input has to be refused with exit code 1; msolve ended with " + r.how();
                if (r.out.find('[') != std::string::npos) return "an answer was printed for an input that has to be refused";
                return "";
            });
            c.cnt["refused inputs"]++;
            return;
        }
        auto &j = J[i];
        const Base &b = B[j.b]; const Mode &m = modes[j.mode];
        std::string chr = std::to_string(j.p);
        std::string plain = text(b, b.vars, chr, (long)j.p, Style());
        std::string mk = m.name + "\n" + plain;
        c.last = b.name + " " + m.name + " " + j.s.str();
        auto it = memo.find(mk);
        if (it == memo.end()) {
            run::Result r = run::msolve(m.a, plain, ro); c.transitions++;
            if (r.timeout) { run::Opts r2 = ro; r2.timeout = 120; r = run::msolve(m.a, plain, r2); c.transitions++; }
            if (memo.size() > 400) memo.clear();
            it = memo.emplace(mk, r).first;
            if (j.mode == 0) { // the plain text against the model
                Sys s; std::vector<std::string> ps;
                auto chk = [&](auto A) {
                    typedef typename decltype(A)::Poly PP; std::vector<PP> I;
                    AQ Q = mkq(b.vars.size()); std::vector<std::string> t;
                    for (auto &g : b.g) { std::string q; for (auto &x : g) { std::string mm = x.c.get_str(); for (size_t k = 0; k < b.vars.size(); ++k) if (x.e[k]) mm += "*" + b.vars[k] + "^" + std::to_string(x.e[k]); q += (q.empty() || mm[0] == '-' ? "" : "+") + mm; } t.push_back(q.empty() ? "0" : q); }
                    I = parse_all(A, t, b.vars);
                    if (!any_nonzero(I)) return;
                    auto G = A.gb(I); c.modelsteps += A.steps; c.states.insert(run::h64(chr + A.strs(G, b.vars)));
                    Want w; w.chr = chr; w.order = DRL(); w.vars = b.vars; w.monic = j.p != 0;
                    std::string e = cmp_basis(A, G, r, w);
                    if (!e.empty()) { run::Finding f; f.key = run::oneline(run::join(m.a) + " :: " + plain, 2000); f.what = e + " [msolve " + run::join(m.a) + " on " + run::oneline(plain) + "]"; f.detail = f.what; c.bad.push_back(f); }
                };
                if (j.p) chk(mkp(j.p, b.vars.size())); else chk(mkq(b.vars.size()));
            }
        }
        const run::Result &want = it->second;
        Base v = b; std::vector<std::string> names = b.vars; std::map<std::string, std::string> back;
        if (j.kind == 1) for (auto &g : v.g) if (g.size() > 1) { // permute the leading and trailing terms
            std::vector<int> ix; size_t k = std::min<size_t>(g.size(), 4); for (size_t q = 0; q < k; ++q) ix.push_back(q);
            for (uint64_t q = 0; q < j.perm; ++q) if (!std::next_permutation(ix.begin(), ix.end())) break;
            Poly h; for (int q : ix) h.push_back(g[q % 2 ? g.size() - 1 - q / 2 : q / 2]);
            for (size_t q = (k + 1) / 2; q + k / 2 < g.size(); ++q) h.push_back(g[q]);
            g = h;
        }
        if (j.kind == 2) {
            std::vector<int> ix; size_t k = std::min<size_t>(v.g.size(), 4); for (size_t q = 0; q < k; ++q) ix.push_back(q);
            for (uint64_t q = 0; q < j.perm; ++q) if (!std::next_permutation(ix.begin(), ix.end())) break;
            for (size_t q = 0; q < k; ++q) v.g[q] = b.g[ix[q]];
        }
        if (j.kind == 3 || j.kind == 4) {
            size_t nv = names.size();
            static const char *greek[] = {"alpha", "al", "alp", "a", "alph", "alpha1"};
            for (size_t q = 0; q < nv; ++q) {
                std::string s = std::to_string(q + 1);
                if (j.kind == 4) names[q] = std::string(j.perm - 1, 'v') + (char)('a' + q % 26);
                else switch (j.perm) {
                    case 0: names[q] = "x" + s; break;
                    case 1: names[q] = "x_" + s; break;
                    case 2: names[q] = std::string(q + 1, 'x'); break;
                    case 3: names[q] = std::string(nv - q, 'x'); break;
                    case 4: names[q] = "x" + std::string(q, '1'); break;
                    case 5: names[q] = q < 6 ? greek[q] : "g" + s; break;
                    case 6: names[q] = "X" + s + "Y"; break;
                    case 7: names[q] = std::string(1, "zyxwvutsrqponmlk"[q % 16]); break;
                    case 8: names[q] = "e" + s; break;
                }
                back[names[q]] = b.vars[q];
            }
        }
        if (j.kind == 5) { // generators multiplied by units
            for (size_t q = 0; q < v.g.size(); ++q) for (auto &t : v.g[q]) {
                long u = j.perm == 1 ? -1 : j.perm == 2 ? (j.p == 2 ? 1 : 2) : (q % 2 ? -1 : (j.p == 7 || j.p == 2 || j.p == 3 ? 1 : 4));
                if (j.mode == 6 && q + 1 == v.g.size()) u = 1;
                t.c *= u; if (j.p) t.c %= (long)j.p;
            }
        }
        std::string in = text(v, names, chr, (long)j.p, j.s);
        if (in == plain) { c.cnt["same text"]++; return; }
        c.nontriv.insert(run::h64(m.name + in));
        c.cnt[std::string("texts: ") + (j.kind == 0 ? "style" : j.kind == 1 ? "term order" : j.kind == 2 ? "generator order" : j.kind == 5 ? "scaled generators" : "names")]++;
        run::Result res;
        run::judge(c, m.a, in, ro, [&](const run::Result &r) -> std::string {
            if (r.code != want.code) return "msolve ended with " + r.how() + ", with " + want.how() + " for the plain text";
            std::string o = back.empty() ? r.out : renamed(r.out, back);
            if (o != want.out) return "the answer depends on how the input is written: " + run::oneline(o, 300) + " instead of " + run::oneline(want.out, 300);
            return "";
        }, "", &res);
        if (i % 20011 == 5) c.samples.push_back(run::oneline(in, 160) + " -> " + run::oneline(res.out, 80));
    });
    return ck.finish();
}
