// Bounded input spaces, enumerated completely.
#pragma once
#include "sys.hpp"
#include <functional>

struct Family {
    std::string name;
    uint64_t n;
    std::function<Sys(uint64_t)> get;
};

inline uint64_t choose(uint64_t n, uint64_t k) { uint64_t r = 1; for (uint64_t i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
// i-th k-subset of {0..n-1} (combinatorial number system)
inline std::vector<uint64_t> subset(uint64_t i, uint64_t k) {
    std::vector<uint64_t> r(k);
    for (uint64_t j = k; j > 0; --j) {
        uint64_t c = j - 1;
        while (choose(c + 1, j) <= i) ++c;
        r[j - 1] = c; i -= choose(c, j);
    }
    return r;
}
// all k-subsets of a list of polynomials
inline Family subsets(const std::string &name, const std::vector<std::string> &vars, const std::vector<std::string> &P, int k) {
    Family f; f.name = name; f.n = choose(P.size(), k);
    f.get = [=](uint64_t i) { Sys s; s.name = name; s.vars = vars; for (auto j : subset(i, k)) s.polys.push_back(P[j]); return s; };
    return f;
}
// all ordered k-tuples
inline Family tuples(const std::string &name, const std::vector<std::string> &vars, const std::vector<std::string> &P, int k) {
    Family f; f.name = name; f.n = 1; for (int i = 0; i < k; ++i) f.n *= P.size();
    f.get = [=](uint64_t i) { Sys s; s.name = name; s.vars = vars; for (int j = 0; j < k; ++j) { s.polys.push_back(P[i % P.size()]); i /= P.size(); } return s; };
    return f;
}
inline Family listed(const std::string &name, const std::vector<Sys> &L) {
    Family f; f.name = name; f.n = L.size(); f.get = [=](uint64_t i) { return L[i]; };
    return f;
}
inline std::vector<std::string> signfree(const std::vector<std::string> &P) { // drop p when -p is listed: keep those not starting with '-'
    std::vector<std::string> r; for (auto &p : P) if (p[0] != '-') r.push_back(p);
    return r;
}
inline std::vector<std::string> pl(int nv, int d, const std::vector<long> &cs, size_t maxt) {
    std::vector<std::vector<int>> M; allmonos(nv, d, M);
    return allpolys(M, vnames(nv), cs, maxt);
}
inline std::vector<std::string> plsf(int nv, int d, const std::vector<long> &cs, size_t maxt) { // squarefree monomials only
    std::vector<std::vector<int>> M, N; allmonos(nv, d, M);
    for (auto &e : M) { bool ok = true; for (int x : e) if (x > 1) ok = false; if (ok) N.push_back(e); }
    return allpolys(N, vnames(nv), cs, maxt);
}
inline Sys permuted(const Sys &s, int k) { // k-th permutation of the variable order
    std::vector<int> idx; for (size_t i = 0; i < s.vars.size(); ++i) idx.push_back(i);
    for (int i = 0; i < k; ++i) std::next_permutation(idx.begin(), idx.end());
    Sys r = s; for (size_t i = 0; i < idx.size(); ++i) r.vars[i] = s.vars[idx[i]];
    r.name += "/perm" + std::to_string(k);
    return r;
}
// every polynomial text re-expanded with coefficients multiplied by c (keeps the ideal when c is a unit)
inline std::vector<Sys> named_small() {
    std::vector<Sys> L{katsura(2), katsura(3), katsura(4), cyclic(3), cyclic(4), noon(3), eco(3), eco(4), eco(5),
                       dense(2, 2, 3, 1, 9), dense(2, 2, 4, 2, 1000), dense(3, 3, 2, 3, 9), dense(3, 2, 2, 4, 9), dense(3, 4, 2, 5, 9), dense(3, 3, 3, 6, 100000),
                       dense(4, 4, 2, 7, 9), dense(4, 3, 2, 8, 30), dense(2, 3, 4, 9, 9), dense(1, 2, 6, 10, 9), dense(3, 3, 2, 11, 9, true), dense(4, 3, 2, 12, 9, true), dense(3, 2, 3, 13, 2)};
    L.push_back(S("mono", {"x", "y", "z"}, {"x^3*y", "y^2*z^2", "x*z^4", "x^5", "y^7"}));
    L.push_back(S("binom", {"x", "y", "z", "t"}, {"x*z-y^2", "y*t-z^2", "x*t-y*z"}));
    L.push_back(S("toric", {"x", "y", "z", "t"}, {"x^3-y*z*t", "y^3-x*z*t", "x*y-z*t"}));
    L.push_back(S("redund", {"x", "y"}, {"x^2-y", "x^2-y", "x^3-x*y", "x^2*y^2-y^3"}));
    L.push_back(S("gap", {"x", "y"}, {"x^11-y^3", "x^2*y^9-x"}));
    L.push_back(S("unitlate", {"x", "y", "z"}, {"x*y*z-1", "x^2*y-z", "y^2*z-x", "z^2*x-y+1", "x+y+z"}));
    // binomial exponent patterns around sizes where exponents need more than one byte
    L.push_back(S("exp255", {"x", "y"}, {"x^255-y", "x*y^3-1"}));
    L.push_back(S("exp256", {"x", "y"}, {"x^256-y", "x*y^3-1"}));
    L.push_back(S("exp257", {"x", "y"}, {"x^257-y^2", "x^2*y-1"}));
    L.push_back(S("exp4k", {"x", "y"}, {"x^4097-y", "y^3-2"}));
    L.push_back(S("manyvars", {"x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12"},
                  {"x1*x2-x3", "x3*x4-x5", "x5*x6-x7", "x7*x8-x9", "x9*x10-x11", "x11*x12-x1", "x1+x12-1", "x2*x11-x6"}));
    L.push_back(S("linear", {"x", "y", "z", "t", "u"}, {"x+2*y+3*z+4*t+5*u-6", "3*x-y+z-t+u", "x+y+z+t+u-1", "7*x+11*y-13*z"}));
    L.push_back(S("linbig", {"x", "y", "z", "t", "u"}, {"2147483647*x+2147483646*y+1", "123456789*x-987654321*y+z", "z+1000000007*t-u", "x+y+z+t+u", "u-2147483629*t+5"}));
    return L;
}
inline std::vector<Sys> named_medium() {
    return {katsura(5), cyclic(5), noon(4), eco(6), dense(5, 5, 2, 21, 9), dense(4, 3, 3, 22, 9), dense(4, 6, 3, 23, 9), dense(3, 5, 5, 24, 9), dense(2, 2, 8, 25, 9), dense(3, 3, 4, 26, 9),
            dense(6, 5, 2, 27, 1), dense(5, 4, 2, 28, 9, true), dense(2, 4, 9, 29, 1000000), dense(7, 8, 2, 30, 9)};
}
inline std::vector<Sys> named_large() {
    return {katsura(6), cyclic(6), noon(5), eco(7), dense(6, 6, 2, 31, 9), dense(4, 4, 3, 32, 9), dense(3, 3, 5, 33, 9)};
}
inline std::vector<uint64_t> primes_all() {
    return {2, 3, 5, 7, 13, 31, 127, 131, 241, 251, 257, 509, 521, 4093, 8191, 16381, 32003, 32749, 32771, 46337, 65519, 65521, 65537, 65539, 131071, 1048573, 4194301, 8388593, 8388617, 16777213, 16777259, 536870909, 1073741789, 1073741827, 1610612741, 2147483629, 2147483647};
}
inline std::vector<uint64_t> primes_few() { return {2, 3, 7, 251, 257, 32003, 65521, 65537, 1073741827, 2147483647}; }

// a list of (family, parameter count) with one flat index; case = (system, parameter)
struct Space {
    struct E { Family f; uint64_t m; };
    std::vector<E> F; std::vector<uint64_t> start; uint64_t n = 0;
    void add(const Family &f, uint64_t m = 1) { start.push_back(n); F.push_back({f, m}); n += f.n * m; }
    struct At { size_t k; Sys s; uint64_t par; uint64_t idx; };
    At at(uint64_t i) const {
        size_t k = F.size() - 1; while (start[k] > i) --k;
        uint64_t j = i - start[k];
        return At{k, F[k].f.get(j / F[k].m), j % F[k].m, j / F[k].m};
    }
    std::string describe() const {
        std::string s = "[";
        for (size_t k = 0; k < F.size(); ++k) s += std::string(k ? "," : "") + "\"" + F[k].f.name + " (" + std::to_string(F[k].f.n) + " x " + std::to_string(F[k].m) + ")\"";
        return s + "]";
    }
};
