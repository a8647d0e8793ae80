// C16: library calls return the right results and do not influence each other.
#include "lib.hpp"

static std::vector<LibCall> alphabet() {
    typedef LibCall L; std::vector<L> A;
    Sys s2 = S("s2", {"x", "y"}, {"x^2*y-3*y+1", "x*y^2-2*x-y"}), h2 = S("h2", {"x", "y"}, {"x^3-2*x*y^2", "x^2*y-y^3"}), s3 = S("s3", {"x", "y", "z"}, {"x*y-z^2+1", "y*z-x-2", "x*z-3*y"}),
        u2 = S("u2", {"x", "y"}, {"x*y-1", "x^2", "y+2"}), o1 = S("o1", {"t"}, {"t^3-2*t-1", "t^4-1"}), s4 = S("s4", {"a", "b", "c", "d"}, {"a*d-b*c", "a^2-b*d-1", "c^2-d"});
    auto f4 = [&](const Sys &s, uint64_t p, int la = 2, int elim = 0, int mo = 0) { L k; k.kind = L::F4; k.s = s; k.p = p; k.la = la; k.elim = elim; k.mo = mo; A.push_back(k); return A.size() - 1; };
    auto nf = [&](const Sys &s, uint64_t p, std::vector<std::string> pr, int isgb = 0, int elim = 0) { L k; k.kind = L::NF; k.s = s; k.p = p; k.probes = pr; k.isgb = isgb; k.elim = elim; A.push_back(k); };
    auto qq = [&](const Sys &s, int elim = 0, int la = 2) { L k; k.kind = L::QQ; k.s = s; k.elim = elim; k.la = la; A.push_back(k); };
    auto so = [&](const Sys &s, int gp, int prec = 64, int la = 2) { L k; k.kind = L::SOLVE; k.s = s; k.getparam = gp; k.prec = prec; k.la = la; A.push_back(k); };
    f4(s2, 7); f4(s3, 251, 1); f4(s2, 251, 44); f4(h2, 3); f4(s3, 127, 42);
    f4(s2, 257); f4(s3, 65521, 1); f4(s2, 65521, 44); f4(s3, 32003, 42);
    f4(s2, 65537); f4(s3, 131071, 44); f4(s2, 1073741827, 1); f4(s3, 2147483647, 44); f4(h2, 2147483629, 42);
    f4(s3, 1073741827, 2, 1); f4(s4, 251, 2, 2); f4(s2, 65521, 2, 0, 1); f4(u2, 101); f4(o1, 65537);
    A[f4(s3, 65521)].reduce = 0; A[f4(s3, 1073741827)].reset = 1; A[f4(s3, 251)].pairs = 1; A[f4(s4, 1073741827)].ht = 1;
    nf(s2, 251, {"x^4-y^3", "x", "x^2*y-3*y+1"}); nf(s3, 65521, {"x^3*y", "z^5-1"}); nf(s2, 1073741827, {"x^4*y^2", "0", "y"}); nf(S("g", {"x", "y"}, {"3*x^2-5*y", "7*y^2-1"}), 251, {"x^5", "y^3-x", "1"}, 1); nf(s3, 32003, {"x^2*z-1", "y^3"}, 0, 1);
    qq(s2); qq(s3, 1); qq(u2); qq(s4);
    so(s2, 1); so(S("f", {"x", "y"}, {"x^2-1", "y^2-1"}), 1, 20); so(u2, 1); so(s4, 2); so(S("c", {"x", "y"}, {"y-1", "x^3-2*x+1"}), 2); so(s3, 1, 128, 44);
    return A;
}

static std::string fresh(const LibCall &k, run::Ctx *c = NULL, double limit = 30) {
    run::Opts o; o.timeout = limit;
    auto r = run::in_child([&]() { std::string s = lib::exec(k); fflush(stdout); s = "\x01" + s; size_t d = 0; while (d < s.size()) { ssize_t w = write(1, s.data() + d, s.size() - d); if (w <= 0) return 9; d += w; } return 0; }, o);
    if (c) c->transitions++;
    size_t q = r.out.rfind('\x01');
    if (r.code || q == std::string::npos) return "!the process ended with " + r.how() + " " + run::oneline(r.out, 100);
    return r.out.substr(q + 1);
}

int main() {
    run::Check ck("C16");
    bool th = ck.thorough();
    ck.rule = "case = (sequence of library calls in one process); every call's result is compared with the model and with the same call in a fresh process, and the caller's arrays are inspected; non-trivial = the sequence contains calls over different fields";
    ck.assumptions = {"one thread (C13 varies threads)", "at least one generator is nonzero", "fork() is used to share prefixes of sequences"};
    auto A = alphabet(); size_t K = A.size();
    std::vector<std::string> want(K);
    // the alphabet in fresh processes, against the model
    for (size_t i = 0; i < K; ++i) {
        want[i] = fresh(A[i], &ck.all);
        std::string e = lib::judge(A[i], want[i], &ck.all);
        ck.all.validated++; ck.all.states.insert(run::h64(want[i]));
        if (!e.empty()) ck.all.bad.push_back({"fresh: " + A[i].name(), e + " [" + A[i].name() + "]", A[i].name() + "\n" + want[i] + "\n" + e});
    }
    if (ck.stop()) return ck.finish();
    auto differ = [&](size_t i, const std::string &r) { return r == want[i] ? std::string() : !r.empty() && r[0] == '!' ? r.substr(1) : "the result differs from that in a fresh process: expected " + run::oneline(want[i], 500) + " got " + run::oneline(r, 500); };
    // part 1: all sequences up to a length
    int len = th ? 4 : 3;
    std::vector<size_t> sub; for (size_t i = 0; i < K; ++i) sub.push_back(i);
    uint64_t pre = 1; for (int i = 1; i < len; ++i) pre *= K;
    ck.extra["alphabet"] = [&] { std::string s = "["; for (size_t i = 0; i < K; ++i) s += (i ? "," : "") + run::Check::js(A[i].name()); return s + "]"; }();
    ck.extra["sequence_length"] = std::to_string(len);
    auto report = [&](run::Ctx &c, std::vector<size_t> seq, const std::string &what, const std::string &extra = "") {
        // shortest suffix that still shows it is not searched: the whole history is the replay
        std::string names, d; for (auto i : seq) { names += (names.empty() ? "" : " ; ") + A[i].name(); d += A[i].name() + "\n"; }
        c.bad.push_back({"sequence: " + names, what + " [library calls " + run::oneline(names, 700) + "]", d + "\n" + what + "\n" + extra});
    };
    auto seqcase = [&](uint64_t i, run::Ctx &c) {
        std::vector<size_t> seq; for (int k = 1; k < len; ++k) { seq.push_back(i % K); i /= K; }
        c.last = "sequences " + std::to_string(i);
        run::Opts o; o.timeout = 120;
        auto body = [&]() -> int {
            std::string log;
            auto say = [&](const std::string &s) { size_t d = 0; while (d < s.size()) { ssize_t w = write(1, s.data() + d, s.size() - d); if (w <= 0) break; d += w; } };
            for (size_t k = 0; k < seq.size(); ++k) {
                std::string e = differ(seq[k], lib::exec(A[seq[k]])); fflush(stdout);
                if (!e.empty()) { say("\x01" "BAD " + std::to_string(k) + " -1 " + e + "\x02"); return 0; }
            }
            for (size_t b = 0; b < K; ++b) {
                pid_t pid = fork();
                if (pid == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(40);
                    std::string e = differ(b, lib::exec(A[b])); fflush(stdout);
                    if (!e.empty()) { say("\x01" "BAD " + std::to_string(seq.size()) + " " + std::to_string(b) + " " + e + "\x02"); _exit(7); }
                    _exit(0);
                }
                int st = 0; waitpid(pid, &st, 0);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return 0;
                if (!WIFEXITED(st) || WEXITSTATUS(st)) { say("\x01" "BAD " + std::to_string(seq.size()) + " " + std::to_string(b) + " the process ended with " + (WIFEXITED(st) ? "exit code " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st))) + "\x02"); return 0; }
            }
            say("\x01" "OK\x02"); return 0;
        };
        auto r = run::in_child(body, o);
        if (r.out.find("\x01" "OK\x02") == std::string::npos) r = run::in_child(body, o);
        c.transitions += seq.size() + K; c.cnt["sequences"] += K;
        std::set<uint64_t> fields; for (auto x : seq) fields.insert(A[x].p);
        if (fields.size() > 1 || K > 1) c.nontriv.insert(run::h64(run::join({std::to_string(seq[0]), std::to_string(seq.back()), std::to_string(i)})));
        if (r.out.find("\x01" "OK\x02") != std::string::npos && r.code == 0) { c.validated += seq.size() + K; return; }
        size_t q = r.out.find("\x01" "BAD ");
        if (q == std::string::npos) { report(c, seq, "the process ended with " + r.how(), r.out + r.err); return; }
        std::istringstream is(r.out.substr(q + 5)); long k, b; is >> k >> b; std::string e; std::getline(is, e, '\x02');
        if (b >= 0) seq.push_back(b); else seq.resize(k + 1);
        report(c, seq, e, r.err);
    };
    // part 2: one long history that contains every pair of calls
    auto longcase = [&](uint64_t start, run::Ctx &c) {
        std::vector<size_t> seq; // Eulerian circuit of the complete digraph with loops: all ordered pairs
        { std::vector<size_t> nxt(K, 0), st{start}; while (!st.empty()) { size_t v = st.back(); if (nxt[v] < K) st.push_back((v + start + nxt[v]++) % K); else { seq.push_back(v); st.pop_back(); } } std::reverse(seq.begin(), seq.end()); }
        run::Opts o; o.timeout = 300;
        auto body = [&]() -> int { for (size_t k = 0; k < seq.size(); ++k) { std::string e = differ(seq[k], lib::exec(A[seq[k]])); fflush(stdout); if (!e.empty()) { e = "\x01" "BAD " + std::to_string(k) + " " + e + "\x02"; if (write(1, e.data(), e.size())) {} return 0; } } if (write(1, "\x01OK\x02", 4)) {} return 0; };
        auto r = run::in_child(body, o);
        if (r.out.find("\x01OK\x02") == std::string::npos) r = run::in_child(body, o);
        c.transitions += seq.size(); c.cnt["long histories"]++; c.cnt["calls in long histories"] += seq.size(); c.nontriv.insert(start + 1000003);
        if (r.out.find("\x01OK\x02") != std::string::npos) { c.validated += seq.size(); return; }
        size_t q = r.out.find("\x01" "BAD ");
        if (q == std::string::npos) { c.bad.push_back({"long history " + std::to_string(start), "a history of " + std::to_string(seq.size()) + " library calls ended with " + r.how(), r.out + r.err}); return; }
        std::istringstream is(r.out.substr(q + 5)); size_t k; is >> k; std::string e; std::getline(is, e, '\x02'); seq.resize(k + 1);
        if (seq.size() > 6) { std::string h; for (auto x : seq) h += A[x].name() + "\n"; c.bad.push_back({"long history " + std::to_string(start) + " call " + std::to_string(k), e + " [call " + std::to_string(k + 1) + " of a history, " + A[seq.back()].name() + "]", h + e}); }
        else report(c, seq, e, r.err);
    };
    // part 3: every system of the families through every entry point, in one process per system
    auto v2 = vnames(2), v3 = vnames(3);
    Space sp;
    sp.add(subsets("pairs,2 vars,deg<=2,coeffs +-1,<=3 terms", v2, signfree(pl(2, 2, {1, -1}, 3)), 2), th ? 4 : 1);
    sp.add(subsets("pairs,2 vars,deg<=3,coeffs 1/-2,<=2 terms", v2, signfree(pl(2, 3, {1, -2}, 2)), 2), th ? 4 : 1);
    sp.add(subsets("triples,3 vars,squarefree,<=2 terms", v3, signfree(plsf(3, 2, {1, -1}, 2)), 3), th ? 4 : 1);
    sp.add(subsets("pairs of reducible polynomials,2 vars", v2, red2(), 2), 4);
    sp.add(subsets("single,1 var,deg<=4", vnames(1), signfree(pl(1, 4, {1, -2, 3}, 4)), 1), 4);
    { std::vector<Sys> L; for (auto &s : zdim_named()) if (s.vars.size() <= 5 && s.name.find("noon") == std::string::npos && s.name.find("dense4") && s.name.find("dense2_2_5") && s.name.find("dense3_3_3")) L.push_back(s); for (auto n : {"mono", "binom", "toric", "redund", "gap", "unitlate"}) for (auto &s : named_small()) if (s.name == n) L.push_back(s); sp.add(listed("named systems", L), 4); }
    auto famcase = [&](uint64_t i, run::Ctx &c) {
        auto at = sp.at(i); Sys s = at.s; c.last = "families " + s.name;
        int nv = s.vars.size();
        static const uint64_t PS[4][3] = {{251, 65521, 1073741827}, {3, 257, 2147483647}, {13, 32003, 65537}, {127, 8191, 2147483629}};
        const uint64_t *ps = PS[(at.par + (sp.F[at.k].m == 1 ? at.idx : 0)) % 4];
        std::vector<LibCall> B; const std::string x = s.vars[0], y = s.vars.back();
        bool el = nv > 1; // elimination orders only where the reference is quick
        { AQ Q = mkq(nv); auto I = parse_all(Q, s.polys, s.vars); double bz = 1; for (auto &f : I) { int d = 0; for (auto &m : f) { int e = 0; for (auto v : m.m.e) e += v; d = std::max(d, e); } bz *= std::max(d, 1); } if (bz > (nv == 2 ? 20 : 12)) el = false; }
        for (int t = 0; t < 3; ++t) {
            LibCall k; k.s = s; k.p = ps[t];
            AP P = mkp(ps[t], nv); auto I = parse_all(P, s.polys, s.vars); if (!any_nonzero(I)) continue;
            { Sys z = s; z.polys.clear(); for (size_t j = 0; j < I.size(); ++j) if (!I[j].empty()) z.polys.push_back(s.polys[j]); k.s = z; }
            static const int la[3] = {2, 44, 1}; k.la = la[(t + i) % 3]; if (k.la == 44 && k.p < (1u << 29)) k.la = 2; // probabilistic
            k.kind = LibCall::F4; B.push_back(k);
            if (el) { k.elim = 1 + (i % (nv - 1)); B.push_back(k); k.elim = 0; }
            if (nv == 2 && el) { k.mo = 1; B.push_back(k); k.mo = 0; }
            k.kind = LibCall::NF; k.probes = {x + "^3*" + y + "-1", y + "^4", "0", x + "+" + y}; if (nv > 2) k.probes.push_back(s.vars[1] + "^2*" + x);
            if (nv == 1) k.probes = {x + "^6-1", "0", x};
            B.push_back(k); if (el) { k.elim = nv - 1; B.push_back(k); k.elim = 0; }
            // the computed basis, declared to be one
            { auto G = P.gb(I); k.s.polys.clear(); for (auto &g : G) k.s.polys.push_back(P.str(g, s.vars)); k.isgb = 1; B.push_back(k); }
        }
        AQ Q = mkq(nv); auto I = parse_all(Q, s.polys, s.vars);
        if (any_nonzero(I)) {
            LibCall k; k.s = s; k.s.polys.clear(); for (size_t j = 0; j < I.size(); ++j) if (!I[j].empty()) k.s.polys.push_back(s.polys[j]);
            k.kind = LibCall::QQ; B.push_back(k);
            if (el) { k.elim = 1; B.push_back(k); k.elim = 0; }
            k.kind = LibCall::SOLVE; k.getparam = 1; B.push_back(k);
            k.getparam = 2; k.la = 44; B.push_back(k);
        }
        if (B.empty()) return;
        std::rotate(B.begin(), B.begin() + i % B.size(), B.end());
        run::Opts o; o.timeout = 60;
        auto body = [&]() -> int { for (auto &k : B) { std::string s = lib::exec(k); fflush(stdout); s = "\x01" + s + "\x02"; size_t d = 0; while (d < s.size()) { ssize_t w = write(1, s.data() + d, s.size() - d); if (w <= 0) return 9; d += w; } } return 0; };
        auto r = run::in_child(body, o); c.transitions += B.size();
        std::vector<std::string> outs; for (size_t p = 0; (p = r.out.find('\x01', p)) != std::string::npos;) { size_t e = r.out.find('\x02', p); if (e == std::string::npos) break; outs.push_back(r.out.substr(p + 1, e - p - 1)); p = e; }
        c.nontriv.insert(run::h64(run::join(s.polys) + std::to_string(at.par)));
        for (size_t k = 0; k < B.size(); ++k) {
            std::string out = k < outs.size() ? outs[k] : "", e;
            if (k >= outs.size()) { // alone?
                e = "the process ended with " + r.how() + " during this call";
                if (r.timeout) { std::string f = fresh(B[k], &c, 120); if (f.empty() || f[0] != '!') { c.cnt["histories cut by the time limit"]++; return; } }
            } else e = lib::judge(B[k], out, &c);
            c.validated++; c.states.insert(run::h64(out));
            if (e.empty()) continue;
            std::string h; for (size_t j = 0; j <= k; ++j) h += B[j].name() + "\n";
            bool cls = e == "class:hidden-solutions";
            c.bad.push_back({e == "class:hidden-solutions" ? e : "call: " + B[k].name(), e + " [" + B[k].name() + " after " + std::to_string(k) + " other calls]", h + "\n" + out + "\n" + e + "\n" + r.err});
            if (cls) { c.cnt["failures of " + e]++; continue; }
            return;
        }
        if (i % 997 == 3) c.samples.push_back(B[0].name() + " and " + std::to_string(B.size() - 1) + " more calls");
    };
    uint64_t n1 = pre, n2 = th ? K : std::min<uint64_t>(K, 8), n3 = sp.n;
    ck.extra["families"] = sp.describe();
    ck.extra["counts"] = "{\"prefixes\":" + std::to_string(n1) + ",\"long histories\":" + std::to_string(n2) + ",\"systems\":" + std::to_string(n3) + "}";
    ck.explore(n1 + n2 + n3, [&](uint64_t i, run::Ctx &c) {
        double t0 = run::now(); int part;
        if (i < n2) { part = 2; longcase(i, c); } else if (i < n2 + n3) { part = 3; famcase(i - n2, c); } else { part = 1; seqcase(i - n2 - n3, c); }
        c.cnt["ms in part " + std::to_string(part)] += (uint64_t)((run::now() - t0) * 1000);
    });
    return ck.finish();
}
