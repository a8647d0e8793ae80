// shared by the Groebner basis checks
#pragma once
#include "run.hpp"
#include "sys.hpp"
using namespace ref;
typedef Alg<FieldP> AP;
typedef Alg<FieldQ> AQ;

inline AP mkp(uint64_t p, int nv, int elim = 0) { AP A; A.f.p = p; A.o.nv = nv; A.o.elim = elim; return A; }
inline AQ mkq(int nv, int elim = 0) { AQ A; A.o.nv = nv; A.o.elim = elim; return A; }

template <class A> std::vector<typename A::Poly> parse_all(const A &a, const std::vector<std::string> &t, const std::vector<std::string> &v) {
    std::vector<typename A::Poly> r;
    for (auto &s : t) r.push_back(a.parse(s, v));
    return r;
}
// true if at least one generator is nonzero in the field
template <class P> bool any_nonzero(const std::vector<P> &I) { for (auto &p : I) if (!p.empty()) return true; return false; }

struct Want { // how the printed basis must look
    std::string chr, order; bool lead = false; bool monic = true; std::vector<std::string> vars;
};

template <class A> std::string cmp_basis(const A &a, const std::vector<typename A::Poly> &G, const run::Result &r, const Want &w) {
    if (r.code != 0) return "msolve ended with " + r.how();
    PrintedBasis b = parse_basis(r.out);
    if (!b.err.empty()) return b.err;
    std::vector<typename A::Poly> H;
    try { H = parse_all(a, b.polys, w.vars); } catch (std::exception &e) { return std::string("unreadable basis: ") + e.what(); }
    if (w.lead != b.leadonly) return "wrong kind of basis announced";
    if (!w.chr.empty() && b.chr != w.chr) return "header announces characteristic " + b.chr;
    std::string vo = run::join(w.vars, ", ");
    if (b.vars != vo) return "header announces variables " + b.vars + " instead of " + vo;
    if (!w.order.empty() && b.order != w.order) return "header announces order '" + b.order + "'";
    if (b.len != (long)H.size()) return "header announces " + std::to_string(b.len) + " elements, printed " + std::to_string(H.size());
    std::vector<typename A::Poly> E = G;
    if (w.lead) for (auto &p : E) p.resize(1);
    bool same = E.size() == H.size();
    for (size_t i = 0; same && i < E.size(); ++i) {
        auto h = H[i];
        if (!w.monic) a.monic(h);
        same = a.eq(E[i], h);
    }
    if (same) return "";
    std::string x = a.strs(E, w.vars), y = a.strs(H, w.vars);
    return "wrong basis: expected " + run::oneline(x, 1500) + " got " + run::oneline(y, 1500);
}

inline const char *DRL() { return "graded reverse lexicographical"; }
