// C15: no memory error and no undefined behaviour on valid input; results do
// not depend on what uninitialised memory contains.
// Pass 1 ("plain"): the ordinary build, with the heap filled with one pattern,
// records a digest of every result.  Pass 2: the instrumented build (address
// and undefined behaviour monitors, heap and stack filled with other patterns)
// executes the same cases; a report of a monitor, an abnormal end or another
// result is a violation.
#include "lib.hpp"
#include "style.hpp"
extern int g_fill;
extern int g_fill __attribute__((weak));

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=86:max_malloc_fill_size=1048576:malloc_fill_byte=190:quarantine_size_mb=24:max_allocation_size_mb=8000:detect_stack_use_after_return=0:strict_string_checks=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=86"; }

typedef std::vector<std::string> Args;
struct Mode { Args a; int dom; bool cmp; }; // dom: 0 any prime, 1 primes of at least 17 bits, 2 rationals; +4: elimination; +8: last generators are reduced; +16: saturation

// one report, reduced to what and where
static std::string report(const std::string &err) {
    size_t q = err.find("runtime error:");
    if (q != std::string::npos) { size_t b = err.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1; size_t e = err.find('\n', q); std::string l = err.substr(b, e - b); size_t s = l.find("src/"); return "undefined behaviour: " + (s == std::string::npos ? l : l.substr(s)); }
    q = err.find("ERROR: AddressSanitizer");
    if (q != std::string::npos) {
        std::string l = err.substr(q + 7, err.find('\n', q) - q - 7); size_t p = l.find(" on "); if (p == std::string::npos) p = l.find(" 0x"); if (p != std::string::npos) l = l.substr(0, p);
        size_t s = 0; while ((s = err.find("    #", s)) != std::string::npos) { size_t e = err.find('\n', s); std::string f = err.substr(s, e - s); size_t k = f.find("src/neogb"); if (k == std::string::npos) k = f.find("src/msolve"); if (k == std::string::npos) k = f.find("src/fglm"); if (k == std::string::npos) k = f.find("src/usolve"); if (k != std::string::npos) { size_t in = f.find(" in "); return l + " in " + f.substr(in + 4, f.find(' ', in + 4) - in - 4) + " at " + f.substr(k); } s = e; }
        return l;
    }
    return "";
}

int main(int argc, char **argv) {
    bool plain = argc > 1 && !strcmp(argv[1], "plain");
    const char *hf = argc > 2 ? argv[2] : NULL;
    run::Check ck("C15");
    bool th = ck.thorough();
    ck.rule = "case = (system, options) or (library call); every execution is monitored by the address and undefined behaviour instrumentation and its result is compared with the one of an uninstrumented execution with other contents of uninitialised memory";
    ck.assumptions = {"the monitors of gcc (AddressSanitizer, UndefinedBehaviorSanitizer without the alignment check) see every access of msolve's own code, not of FLINT, GMP, MPFR", "leaks are not violations", "one thread"};
    std::vector<Mode> M{
        {{"-g", "2"}, 0, true}, {{"-g", "1", "-l", "1", "-s", "1"}, 0, true}, {{"-g", "2", "-l", "42", "-u", "1"}, 0, true}, {{"-g", "2", "-l", "44", "-m", "1"}, 0, true}, {{"-g", "2", "-l", "1", "-r", "0", "-m", "3"}, 0, true}, {{"-g", "2", "-v", "2", "-s", "2"}, 0, false},
        {{"-g", "2", "-e", "1"}, 4, true}, {{"-g", "2", "-e", "1", "-l", "44"}, 6, true}, {{"-n", "1"}, 8, true}, {{"-n", "1", "-l", "1", "-s", "1"}, 8, true}, {{"-g", "2", "-S"}, 17, true},
        {{"-P", "1"}, 1, true}, {{"-P", "2", "-d", "0", "-v", "2"}, 1, false}, {{"-P", "2", "-d", "4", "-l", "44"}, 1, true}, {{"-c", "1", "-d", "1"}, 1, true},
        {{}, 2, true}, {{"-P", "1", "-p", "200"}, 2, true}, {{"-P", "2", "-l", "44", "-L", "1"}, 2, true}, {{"-d", "0", "-v", "2", "-P", "1"}, 2, false}, {{"-d", "3", "-p", "1", "-l", "1"}, 2, true}, {{"-g", "2"}, 2, true}, {{"-g", "2", "-m", "2", "-s", "1", "-u", "2"}, 2, true}, {{"-c", "0"}, 2, true}, {{"-g", "1", "-v", "2"}, 2, false}};
    auto v2 = vnames(2), v3 = vnames(3);
    Space sp;
    int k1 = th ? 24 : 1, kn = M.size(), st = th ? 1 : 5;
    // every mode for the small families at thorough; at quick, the modes go round over the systems
    sp.add(subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), th ? kn : 2);
    sp.add(subsets("pairs,2 vars,deg<=3,coeffs 1/-2,<=2 terms", v2, signfree(pl(2, 3, {1, -2}, 2)), 2), th ? kn : 2);
    sp.add(subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? kn : 1);
    sp.add(subsets("pairs of reducible polynomials,2 vars", v2, red2(), 2), kn);
    sp.add(subsets("triples of reducible polynomials,2 vars", v2, red2(), 3), th ? kn : 3);
    sp.add(subsets("triples,3 vars,special position", v3, red3(), 3), th ? kn : 3);
    sp.add(subsets("single,1 var,deg<=4", vnames(1), signfree(pl(1, 4, {1, -2, 3}, 4)), 1), th ? kn : 6);
    { std::vector<Sys> L = zdim_named(); for (auto &s : named_small()) { bool in = false; for (auto &t : L) if (t.name == s.name) in = true; if (!in) L.push_back(s); } if (th) for (auto &s : named_medium()) L.push_back(s); sp.add(listed("named systems", L), kn); }
    std::vector<std::vector<std::string>> RF; { auto F = rootfactors(); for (size_t i = 0; i < F.size(); ++i) { RF.push_back({F[i]}); for (size_t j = i; j < F.size(); ++j) RF.push_back({F[i], F[j]}); } }
    (void)k1; (void)st;
    // texts
    std::vector<Base> TB; for (auto &s : {S("a", {"x", "y"}, {"x^2+2*x*y-3*y+1", "y^3-x-5"}), S("b", {"x", "y", "z"}, {"x*y*z-1", "-x+y"}), S("d", {"x"}, {"x^3-2*x+11"}), S("e", {"x", "y", "z"}, {"-1", "x"})}) TB.push_back(base(s));
    auto PR = style_pairs();
    struct T { std::string in; Args a; }; std::vector<T> TX;
    for (auto &b : TB) for (long p : {0L, 251L, 65537L, 2147483647L}) for (auto &s : PR) { if ((p == 0 || p == 251) && s.rep == 4) continue; TX.push_back({text(b, b.vars, std::to_string(p), p, s), p == 65537 ? Args{"-P", "2"} : Args{"-g", "2"}}); }
    // generators behind each other up to every buffer size, long names, long coefficients
    for (int k = 1; k <= (th ? 400 : 60); ++k) { std::string in = "x,y\n65537\n"; for (int j = 0; j < k; ++j) in += "x^" + std::to_string(1 + j % 3) + "-" + std::to_string(j + 1) + "*y" + (j + 1 < k ? ",\n" : "\n"); TX.push_back({in, {"-g", "2"}}); }
    for (int k = 1; k <= (th ? 130 : 70); ++k) { std::string nm(k, 'v'); TX.push_back({nm + "a," + nm + "\n0\n" + nm + "a-2,\n" + nm + "^2-3\n", {"-P", "2"}}); TX.push_back({nm + "a," + nm + "\n251\n" + nm + "a-2,\n" + nm + "^2-3\n", {"-g", "2"}}); }
    for (int k : {1, 9, 10, 18, 19, 20, 38, 64, 100, 500, 1000, 4000, 9999}) { std::string c(k, '7'); for (auto a : {Args{"-g", "2"}, Args{"-P", "2"}, Args{}}) { if (k > 1000 && a.size() != 2) continue; TX.push_back({"x,y\n0\nx^2-" + c + ",\n" + c + "*y-x\n", a}); TX.push_back({"x,y\n0\n1/" + c + "*x^2-" + c + "/3,\ny-x-" + c + "\n", a}); } }
    for (int nv = 1; nv <= (th ? 40 : 26); ++nv) { std::string v, g; for (int i = 0; i < nv; ++i) { v += (i ? ",v" : "v") + std::to_string(i); g += (i ? ",\nv" : "v") + std::to_string(i) + (i % 2 ? "-v0" : "^2-" + std::to_string(i + 1)); } for (auto a : {Args{"-g", "2"}, Args{"-P", "2"}}) for (auto c : {"65537", "0"}) if (nv <= (a[0] == "-g" ? 40 : 5)) TX.push_back({v + "\n" + c + "\n" + g + "\n", a}); }
    for (int d : {1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 100, 127, 128, 255, 256, 300}) for (auto a : {Args{"-g", "2"}, Args{"-P", "2"}, Args{}, Args{"-g", "2", "-s", "1"}}) { if (d > 64 && a.size() != 2) continue; std::string D = std::to_string(d); TX.push_back({"x,y\n0\nx^" + D + "-x-1,\ny-x^2+1\n", a}); TX.push_back({"x,y\n65537\nx^" + D + "*y-1,\ny^3-x\n", a}); TX.push_back({"x\n1073741827\nx^" + D + "-2*x-1\n", a}); }
    // real root isolation buffers
    for (size_t i = 0; i < RF.size(); i += th ? 1 : 7) { std::string f = product(RF[i], {"x", "y"}); for (auto pr : {"32", "1", "300"}) if (th || pr[0] == '3') TX.push_back({"x,y\n0\ny-x,\n" + f + "\n", {"-p", pr}}); }
    // options of which only these inputs are explored: they fail (known findings)
    for (auto c : {"251", "65537"}) TX.push_back({std::string("x,y,z\n") + c + "\nx^2-y*z,\nx*y-z^2,\ny^3-x*z^2\n", {"-g", "2", "-q", "1"}});
    TX.push_back({"x,y\n0\nx^2-2*y,\nx*y-3\n", {"-g", "2", "-q", "1"}});
    TX.push_back({"x,y\n65537\nx^2-2*y,\nx*y-3\n", {"-g", "2", "-q", "1"}});
    TX.push_back({"x,y,z\n65537\nx^2-y,\ny^2-z,\nz^2-x,\nx-1\n", {"-C"}});
    TX.push_back({"x,y,z\n1073741827\nx^2-y,\ny^2-z,\nz^2-x,\nx-1\n", {"-C"}});
    // library calls
    std::vector<LibCall> LC;
    {
        std::vector<Sys> L; for (auto &s : zdim_named()) if (s.vars.size() <= 5 && s.name.find("dense")) L.push_back(s);
        for (auto f : {subsets("", v2, red2(), 2), subsets("", v3, red3(), 3)}) for (uint64_t i = 0; i < f.n; ++i) L.push_back(f.get(i));
        size_t q = 0;
        for (auto &s : L) for (int m = 0; m < 6; ++m) {
            int nv = s.vars.size(); ++q;
            if (!th && m != (int)(q % 7) && m != (int)((q + 3) % 7)) continue;
            LibCall k; k.s = s; static const uint64_t PS[] = {251, 65521, 1073741827, 3, 2147483647, 131, 46337, 65537}; k.p = PS[q % 8];
            if (m < 4) { bool any = false; Sys z = s; z.polys.clear(); AP P = mkp(k.p, nv); auto I = parse_all(P, s.polys, s.vars); for (size_t j = 0; j < I.size(); ++j) if (!I[j].empty()) { any = true; z.polys.push_back(s.polys[j]); } if (!any) continue; k.s = z; }
            static const int la[] = {2, 44, 1, 42}; k.la = la[(q / 8) % 4];
            k.ht = 1 + q % 12; k.pairs = q % 3; k.reset = q % 5 == 0;
            if (m == 0) k.kind = LibCall::F4; if (m == 1) { if (nv < 2) continue; k.kind = LibCall::F4; k.elim = 1; } if (m == 2 || m == 3) { k.kind = LibCall::NF; k.probes = {s.vars[0] + "^3*" + s.vars.back() + "^2-1", "0", s.vars.back() + "^5", "1"}; if (m == 3 && nv > 1) k.elim = 1; }
            if (m == 4) { k.kind = LibCall::QQ; k.p = 0; k.la = 2; } if (m == 5) { k.kind = LibCall::SOLVE; k.p = 0; k.getparam = 1 + q % 2; k.la = q % 2 ? 2 : 44; }
            LC.push_back(k);
        }
    }
    uint64_t n1 = sp.n, n2 = TX.size(), n3 = LC.size(), n = n1 + n2 + n3;
    uint64_t *H = NULL;
    if (hf) {
        int fd = open(hf, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || (plain && ftruncate(fd, 0)) || ftruncate(fd, (n + 1) * 8)) { perror(hf); return 2; }
        H = (uint64_t *)mmap(NULL, (n + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (H == MAP_FAILED) return 2;
    }
    ck.extra["families"] = sp.describe();
    ck.extra["counts"] = "{\"systems x modes\":" + std::to_string(n1) + ",\"texts\":" + std::to_string(n2) + ",\"library calls\":" + std::to_string(n3) + "}";
    static const uint64_t PA[] = {251, 65521, 1073741827, 2, 7, 32003, 257, 2147483647, 3, 131, 65537, 46337, 2147483629}, PB[] = {65537, 1073741827, 131071, 1073741789, 1048573, 536870909};
    if (plain) { ck.budget = th ? 1e9 : 200; if (&g_fill) g_fill = 0x37; }
    ck.explore(n, [&](uint64_t i, run::Ctx &c) {
        Args a; std::string in; bool cmp = true; run::Result r; std::string what, res; run::Opts o; o.timeout = plain ? 20 : 90; o.mem = 0;
        if (i < n1) {
            auto at = sp.at(i); Sys s = at.s; c.last = s.name;
            uint64_t m = sp.F[at.k].m, mi = (m == M.size() ? at.par : (at.idx * m + at.par)) % M.size();
            // other systems meet the modes in another rotation
            if (m != M.size()) mi = (mi + at.idx / M.size()) % M.size();
            const Mode &md = M[mi]; a = md.a; cmp = md.cmp;
            int dom = md.dom & 3; int nv = s.vars.size();
            if (!s.name.compare(0, 3, "exp") && mi > 5) { c.cnt["mode does not apply"]++; if (plain) H[i] = 0; return; }
            if (((md.dom & 4) && nv < 2) || ((md.dom & 24) && s.polys.size() < 2)) { c.cnt["mode does not apply"]++; return; }
            uint64_t p = dom == 2 ? 0 : dom == 1 ? PB[i % 6] : PA[i % 13];
            size_t use = s.polys.size() - ((md.dom & 24) ? 1 : 0); bool any = false;
            if (p) { AP P = mkp(p, nv); auto I = parse_all(P, s.polys, s.vars); for (size_t j = 0; j < use; ++j) if (!I[j].empty()) any = true; if ((md.dom & 16) && I.back().empty()) any = false; }
            else { AQ Q = mkq(nv); for (auto &f : parse_all(Q, s.polys, s.vars)) if (!f.empty()) any = true; }
            if (!any) { c.cnt["no nonzero generator"]++; return; }
            in = ms(s, std::to_string(p));
        } else if (i < n1 + n2) { a = TX[i - n1].a; in = TX[i - n1].in; c.last = run::oneline(in, 60); }
        std::string name = i < n1 + n2 ? "msolve " + run::join(a) + " on " + run::oneline(in) : LC[i - n1 - n2].name();
        auto exec = [&]() {
            if (i < n1 + n2) { r = run::msolve(a, in, o); return; }
            r = run::in_child([&]() -> int { std::string s = lib::exec(LC[i - n1 - n2]); fflush(stdout); s = "\x01" + s; size_t d = 0; while (d < s.size()) { ssize_t w = write(1, s.data() + d, s.size() - d); if (w <= 0) return 9; d += w; } return 0; }, o);
            size_t q = r.out.rfind('\x01'); if (q != std::string::npos) r.out = r.out.substr(q + 1);
        };
        auto digest = [&]() { return r.timeout ? 1 : (run::h64(std::to_string(r.code) + (cmp ? r.out : "")) | 2); };
        exec(); c.transitions++;
        if (plain) { H[i] = digest(); return; }
        std::string e = report(r.err);
        bool refused = r.code == 1 && r.out.find('[') == std::string::npos;
        if (e.empty() && r.code && !refused && !r.timeout) e = "msolve ended with " + r.how();
        if (e.empty() && r.timeout) {
            if (H[i] == 1 || H[i] == 0) { c.cnt["too slow for the instrumented build"]++; return; }
            o.timeout = 400; exec(); c.transitions++; e = report(r.err);
            if (e.empty() && r.timeout) e = "no answer from the instrumented build within 400 s";
        }
        if (e.empty() && H[i] > 1 && H[i] != digest()) e = "the result depends on the contents of uninitialised memory, or on the build: " + run::oneline(r.out, 300);
        c.states.insert(run::h64(std::to_string(r.code) + r.out)); c.nontriv.insert(run::h64(name)); c.validated++;
        c.cnt[i < n1 ? "systems" : i < n1 + n2 ? "texts" : "library calls"]++;
        if (refused) c.cnt["refused or without answer"]++;
        if (i % 4999 == 7) c.samples.push_back(name);
        if (e.empty()) return;
        c.bad.push_back({name, e + " [" + name + "]", name + "\n--- input\n" + in + "\n--- " + e + "\n" + r.err + "\n--- output\n" + r.out});
    });
    if (plain) return ck.stop() ? 3 : 0;
    return ck.finish();
}
