// C13: results do not depend on the thread schedule.  The real program runs on
// the OpenMP runtime of sched.cpp, whose scheduler is driven from here: every
// schedule with at most D deviations from a fixed one is executed.
#include "solve.hpp"
#include "fam.hpp"
#include "sched.hpp"

typedef std::vector<std::string> Args;
struct Case { Sys s; std::string ch; Args a; int D = 1; bool heavy = false, first = false; double limit = 20; }; // heavy: more than about 10 ms per execution; first: the first prime is the smallest above 2^30
static sched::Shared *sh;
static std::vector<Case> cases;

static void own() { // one record per worker
    static pid_t p = 0; if (p == getpid()) return; p = getpid();
    sh = sched::ctl.sh = (sched::Shared *)mmap(NULL, sizeof(sched::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static run::Result exec1(const Case &k, const Args &a) {
    own();
    memset(sh, 0, offsetof(sched::Shared, pcs));
    run::Opts o; o.timeout = k.limit; o.clk = {1000}; if (k.first) o.rdev[0] = 0;
    return run::msolve(a, ms(k.s, k.ch), o);
}
static Args one(const Args &a) { Args b; for (size_t i = 0; i < a.size(); ++i) if (a[i] == "-t") { b.push_back("-t"); b.push_back("1"); ++i; } else b.push_back(a[i]); return b; }
static std::string sched_text() {
    std::string t = "schedule:"; if (sched::ctl.dev.empty()) t += " default";
    for (auto &d : sched::ctl.dev) t += " at scheduling point " + std::to_string(d.first) + " thread " + std::to_string(d.second) + ",";
    return t;
}
// executes the schedule in ctl.dev and compares; false if it was wrong
static bool step(run::Ctx &c, const Case &k, const run::Result &ref) {
    memset(sh, 0, offsetof(sched::Shared, pcs));
    run::Opts o; o.timeout = k.limit; o.clk = {1000}; if (k.first) o.rdev[0] = 0;
    auto verdict = [&](const run::Result &r) -> std::string {
        if (sh->deadlock) return "deadlock: no thread can go on (" + sched_text() + ")";
        if (r.code == 79 || r.code == 80) return "the scheduler was left in an impossible state (" + sched_text() + ")";
        if (r.code != ref.code) return "ended with " + r.how() + " instead of " + ref.how() + " (" + sched_text() + ")";
        if (r.out != ref.out) return "prints another answer than the single-threaded run (" + sched_text() + "): " + run::oneline(r.out, 300) + " instead of " + run::oneline(ref.out, 300);
        return "";
    };
    auto ok = [&](const run::Result &r) { std::string e = verdict(r); if (!e.empty()) memset(sh, 0, offsetof(sched::Shared, pcs)); return e; };
    bool good = run::judge(c, k.a, ms(k.s, k.ch), o, ok, sched_text());
    if (!good) return false;
    c.states.insert(run::h64(k.s.name + k.ch + run::join(k.a) + ref.out));
    if (sh->overflow) c.cnt["executions with more scheduling points than recorded"]++;
    return true;
}
static std::vector<sched::Point> points() { return std::vector<sched::Point>(sh->pt, sh->pt + sh->npoints); }
// all schedules that extend the present one by up to D more deviations at points >= from
static bool extend(run::Ctx &c, const Case &k, const run::Result &ref, const std::vector<sched::Point> &P, uint32_t from, uint32_t to, int D) {
    if (D <= 0) return true;
    for (uint32_t i = from; i < P.size() && i < to; ++i)
        for (int t = 0; t < 8; ++t) {
            if (!(P[i].enabled >> t & 1) || t == P[i].chosen) continue;
            if (c.late()) return true;
            sched::ctl.dev[i] = t;
            if (!step(c, k, ref)) { sched::ctl.dev.erase(i); return false; }
            c.cnt["schedules"]++; c.nontriv.insert(run::h64(std::to_string(&k - &cases[0]) + sched_text()));
            std::vector<sched::Point> Q = points();
            bool same = Q.size() > i; for (uint32_t j = 0; same && j <= i; ++j) if (Q[j].what != P[j].what || Q[j].enabled != P[j].enabled) same = false;
            if (!same) c.cnt["replays that left the recorded prefix"]++;
            if (D > 1 && !extend(c, k, ref, Q, i + 1, ~0u, D - 1)) { sched::ctl.dev.erase(i); return false; }
            sched::ctl.dev.erase(i);
        }
    return true;
}
static std::string site(uint64_t pc) {
    static uint64_t base = 0;
    if (!base) { std::ifstream f("/proc/self/maps"); std::string l; getline(f, l); base = strtoull(l.c_str(), NULL, 16); }
    char cmd[256]; snprintf(cmd, sizeof cmd, "addr2line -s -f -e /proc/%d/exe 0x%llx 2>/dev/null", (int)getpid(), (unsigned long long)(pc - base - 1));
    FILE *p = popen(cmd, "r"); char b[512] = ""; std::string r; while (p && fgets(b, sizeof b, p)) { r += (r.empty() ? "" : " ") + std::string(b); if (!r.empty() && r.back() == '\n') r.pop_back(); }
    if (p) pclose(p);
    size_t q = r.find("._omp_fn"); if (q != std::string::npos) { size_t e = r.find(' ', q); r.erase(q, e == std::string::npos ? std::string::npos : e - q); }
    return r;
}
static Sys mk(const std::string &name, int n, const std::vector<std::string> &P) { Sys s; s.name = name; s.vars = vnames(n); s.polys = P; return s; }

int main() {
    run::Check ck("C13");
    bool th = ck.thorough();
    ck.rule = "case = (system, options, number of threads); all schedules with at most D deviations from the default schedule are executed and compared text by text with the single-threaded run; non-trivial = every schedule that differs from the default one";
    ck.assumptions = {"sequentially consistent memory", "scheduling points: atomic operations, locks, barriers, the taking of loop iterations, the start of a parallel region, and every access that conflicts with an unordered access of another thread in some explored execution (found to a fixpoint)", "accesses made inside libgmp and libflint are not scheduling points", "iterations are handed out by the explorer's own OpenMP runtime"};
    auto add = [&](const Sys &s, const std::string &ch, const Args &a, bool heavy = false) { Case k; k.s = s; k.ch = ch; k.a = a; k.heavy = heavy; cases.push_back(k); };
    // ---- the explored cases
    std::vector<Sys> G = {
        mk("three quadrics", 3, {"x^2+y*z+1", "y^2+x*z+2", "z^2+x*y+3"}),
        mk("dense linear forms", 4, {"x+y+z+t+1", "x+2*y+3*z+4*t+5", "x+4*y+9*z+16*t+25", "x+8*y+27*z+64*t+125", "2*x+3*y+4*z+5*t+6"}),
        mk("rows with one pivot", 3, {"x*y+z", "x*y+2*z+1", "x*y+3*z+y", "x*y+5*x"}),
        mk("conics with a double point", 2, {"x^2+y^2-1", "x^2+2*y^2-1+x", "x*y+3"}),
        mk("cyclic 4", 4, {"x+y+z+t", "x*y+y*z+z*t+t*x", "x*y*z+y*z*t+z*t*x+t*x*y", "x*y*z*t-1"}),
        mk("katsura 3", 3, {"x+2*y+2*z-1", "x^2+2*y^2+2*z^2-x", "2*x*y+2*y*z-y"}),
        mk("dependent rows", 3, {"x^2+y", "x^2+y+z", "2*x^2+2*y+z", "3*x^2+3*y+2*z", "y^2-z"}),
        mk("inconsistent", 2, {"x*y+1", "x*y+2", "x^2+y"}),
        mk("positive dimension", 3, {"x*y-z", "x*z-y", "y*z-x"}),
    };
    for (size_t g = 0; g < G.size(); ++g) {
        for (std::string p : {"251", "65521", "1073741827"}) {
            for (std::string l : {"1", "2"}) { add(G[g], p, {"-g", "2", "-l", l, "-t", "2"}); add(G[g], p, {"-g", "2", "-l", l, "-t", "3"}); }
            if (p == "1073741827") for (std::string l : {"42", "43", "44"}) { add(G[g], p, {"-g", "2", "-l", l, "-t", "2"}); add(G[g], p, {"-g", "2", "-l", l, "-t", "3"}); }
        }
        add(G[g], "65521", {"-g", "2", "-m", "1", "-t", "2"});
        add(G[g], "1073741827", {"-g", "2", "-m", "2", "-t", "4"});
        add(G[g], "1073741827", {"-g", "2", "-r", "0", "-u", "1", "-s", "4", "-t", "2"});
        if (G[g].vars.size() > 2) { add(G[g], "65521", {"-g", "2", "-e", "1", "-t", "2"}); add(G[g], "0", {"-g", "2", "-e", "1", "-t", "2"}, true); }
        add(G[g], "0", {"-g", "2", "-t", "2"}, true);
        add(G[g], "0", {"-g", "2", "-t", "3"}, true);
    }
    // saturation and normal forms
    for (std::string p : {"65521", "1073741827"}) {
        add(mk("saturation", 3, {"x*y-x*z", "x^2*y-x", "x"}), p, {"-g", "2", "-S", "-t", "2"});
        add(mk("saturation of a cone", 3, {"x^2-y^2", "x*z+y*z", "y^2*z-x*y", "z"}), p, {"-g", "2", "-S", "-t", "2"});
        for (std::string n : {"1", "2"}) add(mk("normal forms", 3, {"x^2+y*z+1", "y^2+x*z+2", "z^2+x*y+3", "x^3+y^3+z", "x^2*y^2"}), p, {"-n", n, "-t", "2"});
    }
    // solving
    std::vector<Sys> Z = {G[0], G[3], G[5], G[7], G[8],
        mk("circle and hyperbola", 2, {"x^2+y^2-5", "x*y-2"}),
        mk("linear", 2, {"x+y-3", "x-y-1"}),
        mk("close roots", 1, {"(1000*x-1)*(1001*x-1)*(x^2-2)"}),
        mk("double roots", 2, {"x^2-2*x*y+y^2", "x^2-2"}),
        mk("two cubics", 2, {"x^3-3*x+y", "y^3-3*y+x-1"}),
        mk("no real solution", 2, {"x^2+y^2+1", "x*y-1"}),
    };
    Z[7].polys = {"1001000*x^4-2001*x^3-2001999*x^2+4002*x-2"};
    for (size_t g = 0; g < Z.size(); ++g) {
        add(Z[g], "0", {"-t", "2"}, true);
        if (g != 4) add(Z[g], "0", {"-P", "2", "-t", "3"}, true);
        add(Z[g], "1073741827", {"-P", "1", "-t", "2"}, true);
    }
    for (int d : {6, 12, 24}) { // many real roots: the threads of the root isolation
        std::vector<mpz_class> q = {1}; for (int r = 1; r <= d; ++r) { int v = (r & 1 ? r : -r); std::vector<mpz_class> n(q.size() + 1); for (size_t i = 0; i < q.size(); ++i) { n[i + 1] += q[i]; n[i] -= v * q[i]; } q = n; }
        q[0] += 1; std::string t; for (size_t i = q.size(); i-- > 0;) if (q[i] != 0) t += (q[i] > 0 && !t.empty() ? "+" : "") + q[i].get_str() + (i ? "*x" : "") + (i > 1 ? "^" + std::to_string(i) : "");
        for (std::string T : {"2", "4"}) { if (!th && d == 24 && T == "4") continue; add(mk("wilkinson " + std::to_string(d), 1, {t}), "0", {"-t", T}, true); }
    }
    // primes that are unlucky, in one thread or in several
    {
        std::vector<mpz_class> Q; mpz_class z = 1073741824; for (int i = 0; i < 6; ++i) { mpz_nextprime(z.get_mpz_t(), z.get_mpz_t()); Q.push_back(z); }
        for (int S = 2; S < (th ? 32 : 16); S += 2) {
            mpz_class B = 1; for (int i = 0; i < 6; ++i) if (S >> i & 1) B *= Q[i];
            mpz_class b = B + 1; std::string nm = "unlucky primes, set " + std::to_string(S);
            for (std::string T : {"2", "3"}) for (int v = 0; v < (th ? 3 : 2); ++v) {
                Sys s = v == 0 ? mk(nm + " a", 2, {"x^2+x*y-3", "x^2+" + b.get_str() + "*x*y+y^2-2"}) : v == 1 ? mk(nm + " b", 2, {"x*y-1", "x^2+y^2-" + b.get_str() + "*y^2+x-2*y"}) : mk(nm + " c", 2, {"x+y-1", "x+" + b.get_str() + "*y+y^2"});
                if (T == "3" && S > 6 && !th) continue;
                add(s, "0", {"-P", "2", "-t", T}, true); cases.back().first = true;
            }
        }
    }
    if (getenv("C13_ONLY")) { std::vector<Case> k2; for (auto &k : cases) if ((k.s.name + " " + k.ch + " " + run::join(k.a)).find(getenv("C13_ONLY")) != std::string::npos) k2.push_back(k); cases = k2; }
    // ---- stage 1: the scheduling points of every case, to a fixpoint
    std::vector<uint64_t> npts(cases.size()); std::vector<double> cost(cases.size()); std::vector<std::set<uint64_t>> pcs(cases.size()); std::set<uint64_t> allpcs;
    ck.explore(cases.size(), [&](uint64_t j, run::Ctx &c) {
        const Case &k = cases[j]; c.last = "stage 1: " + k.s.name + " " + k.ch + " " + run::join(k.a);
        sched::ctl.detect = true; sched::ctl.dev.clear(); sched::ctl.pcs.clear();
        run::Result ref = exec1(k, one(k.a)); c.transitions++;
        const uint32_t many = th ? 64 : k.heavy ? 12 : 32;
        for (int round = 0; round < 5; ++round) {
            std::set<uint64_t> S = sched::ctl.pcs;
            auto collect = [&]() { for (uint32_t i = 0; i < sh->npcs; ++i) S.insert(sh->pcs[i]); };
            sched::ctl.dev.clear();
            if (!step(c, k, ref)) return;
            collect(); std::vector<sched::Point> P = points();
            // conflicts that only appear when threads alternate: single deviations, evenly spaced
            uint32_t w = std::max<uint32_t>(1, P.size() / many);
            for (uint32_t i = 0; i < P.size(); i += w) { int q = -1; for (int t = 0; t < 8; ++t) if ((P[i].enabled >> t & 1) && t != P[i].chosen) { q = t; break; } if (q < 0) continue; sched::ctl.dev = {{i, (uint8_t)q}}; if (!step(c, k, ref)) return; collect(); }
            sched::ctl.dev.clear();
            if (S.size() == sched::ctl.pcs.size()) break;
            sched::ctl.pcs = S;
        }
        sched::ctl.detect = false; double t = run::now();
        if (!step(c, k, ref)) return;
        std::string J = std::to_string(j);
        c.cnt["#us " + J] = (uint64_t)((run::now() - t) * 1e6); c.cnt["#n " + J] = sh->npoints;
        c.cnt["parallel regions entered (default schedules)"] += sh->regions;
        for (auto p : sched::ctl.pcs) c.cnt["#pc " + J + " " + std::to_string(p)] = 1;
    });
    { std::map<std::string, uint64_t> keep;
      for (auto &v : ck.all.cnt) {
        if (v.first[0] != '#') { keep[v.first] = v.second; continue; }
        std::istringstream is(v.first); std::string a; size_t i; uint64_t p; is >> a >> i;
        if (a == "#pc") { is >> p; pcs[i].insert(p); allpcs.insert(p); } else if (a == "#n") npts[i] = v.second; else cost[i] = v.second * 1e-6;
      }
      ck.all.cnt = keep; }
    double tstage1 = run::now() - ck.t0;
    // ---- stage 2: all schedules with at most D deviations, cut into pieces by the first deviation
    struct Piece { size_t k; uint32_t from, to; };
    std::vector<Piece> W; double total = 0;
    for (size_t i = 0; i < cases.size(); ++i) {
        int &D = cases[i].D; // the bound follows from the number of scheduling points
        if (th) D = npts[i] <= 45 && !cases[i].heavy ? 3 : npts[i] <= (cases[i].heavy ? 120 : 500) ? 2 : 1;
        else D = npts[i] <= 75 && !cases[i].heavy ? 2 : 1;
        if (!th && npts[i] > 1000) { ck.all.cnt["cases with more than 1000 scheduling points, left to the thorough tier"]++; continue; }
        double n = npts[i] ? npts[i] : 1, c1 = cost[i] > 0 ? cost[i] : 0.004;
        double est = cases[i].D == 1 ? n * c1 : cases[i].D == 2 ? n * n / 2 * c1 : n * n * n / 6 * c1; total += est;
        if (getenv("C13_EST")) fprintf(stderr, "%s %s %s: %g points, %g s each, D %d, %g s\n", cases[i].s.name.c_str(), cases[i].ch.c_str(), run::join(cases[i].a).c_str(), n, c1, cases[i].D, est);
        uint32_t w = (uint32_t)std::max(1.0, n / std::max(1.0, est / 1.0));
        for (uint32_t f = 0; f < npts[i]; f += w) W.push_back({i, f, f + w >= npts[i] ? ~0u : f + w});
        if (!npts[i]) W.push_back({i, 0, ~0u});
    }
    fprintf(stderr, "%zu cases, %zu pieces, %zu conflicting places, stage 1 took %.0f s, about %.0f s of work\n", cases.size(), W.size(), allpcs.size(), tstage1, total);
    if (!ck.stop()) ck.explore(W.size(), [&](uint64_t j, run::Ctx &c) {
        const Case &k = cases[W[j].k]; c.last = k.s.name + " " + k.ch + " " + run::join(k.a);
        sched::ctl.detect = false; sched::ctl.dev.clear(); sched::ctl.pcs = pcs[W[j].k];
        run::Result ref = exec1(k, one(k.a)); c.transitions++;
        if (!step(c, k, ref)) return;
        std::vector<sched::Point> P = points();
        if (W[j].from == 0) { c.cnt["cases"]++; c.cnt["cases with " + std::to_string(k.D) + " deviations"]++; c.cnt["scheduling points of default schedules"] += P.size(); c.cnt["schedules"]++; }
        extend(c, k, ref, P, W[j].from, W[j].to, k.D);
        if (c.samples.size() < 3 && j % 37 == 0) c.samples.push_back(c.last + ": " + std::to_string(P.size()) + " scheduling points, " + std::to_string(k.D) + " deviations");
    });
    std::string s; for (auto p : allpcs) { std::string t = site(p); if (s.find(t) == std::string::npos) s += (s.empty() ? "" : ",") + run::Check::js(t); }
    ck.extra["conflicting_places"] = "[" + s + "]";
    return ck.finish();
}
