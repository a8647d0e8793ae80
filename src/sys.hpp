// Input families: systems of polynomials with integer coefficients as text.
#pragma once
#include "ref.hpp"
#include <string>
#include <vector>

struct Sys {
    std::string name;
    std::vector<std::string> vars;
    std::vector<std::string> polys; // parseable by ref::Alg::parse
};

inline std::string ms(const Sys &s, const std::string &p) {
    std::string r;
    for (size_t i = 0; i < s.vars.size(); ++i) { if (i) r += ","; r += s.vars[i]; }
    r += "\n" + p + "\n";
    for (size_t i = 0; i < s.polys.size(); ++i) r += s.polys[i] + (i + 1 < s.polys.size() ? ",\n" : "\n");
    return r;
}
inline std::string ms(const Sys &s, uint64_t p) { return ms(s, std::to_string(p)); }

inline std::vector<std::string> vnames(int n) {
    static const char *small[] = {"x", "y", "z", "t", "u"};
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(n <= 5 ? small[i] : "x" + std::to_string(i + 1));
    return v;
}
inline std::string monostr(const std::vector<int> &e, const std::vector<std::string> &v) {
    std::string s;
    for (size_t i = 0; i < e.size(); ++i) if (e[i]) {
        if (!s.empty()) s += "*";
        s += v[i];
        if (e[i] > 1) s += "^" + std::to_string(e[i]);
    }
    return s.empty() ? "1" : s;
}
inline void allmonos(int n, int d, std::vector<std::vector<int>> &out) { // degree <= d
    std::vector<int> e(n, 0);
    std::function<void(int, int)> rec = [&](int i, int left) {
        if (i == n) { out.push_back(e); return; }
        for (int k = 0; k <= left; ++k) { e[i] = k; rec(i + 1, left - k); }
        e[i] = 0;
    };
    rec(0, d);
    std::sort(out.begin(), out.end(), [](const std::vector<int> &a, const std::vector<int> &b) {
        int da = 0, db = 0; for (int x : a) da += x; for (int x : b) db += x;
        if (da != db) return da > db;
        return a > b;
    });
}
// polynomial text from (coefficient, monomial) list
inline std::string polystr(const std::vector<std::pair<long, std::string>> &t) {
    std::string s;
    for (auto &a : t) {
        if (!a.first) continue;
        long c = a.first;
        if (c < 0) { s += "-"; c = -c; } else if (!s.empty()) s += "+";
        if (a.second == "1") s += std::to_string(c);
        else if (c == 1) s += a.second;
        else s += std::to_string(c) + "*" + a.second;
    }
    return s.empty() ? "0" : s;
}
// all nonzero polynomials with coefficients from cs on the given monomials, with at most maxt terms
inline std::vector<std::string> allpolys(const std::vector<std::vector<int>> &M, const std::vector<std::string> &v, const std::vector<long> &cs, size_t maxt) {
    std::vector<std::string> r;
    std::vector<std::pair<long, std::string>> cur;
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == M.size()) { if (!cur.empty()) r.push_back(polystr(cur)); return; }
        rec(i + 1);
        if (cur.size() < maxt)
            for (long c : cs) { cur.push_back({c, monostr(M[i], v)}); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    return r;
}

// ---------------------------------------------------------------- named systems
inline Sys katsura(int n) { // n+1 variables
    Sys s; s.name = "katsura" + std::to_string(n);
    s.vars = vnames(n + 1);
    auto u = [&](int i) -> int { if (i < 0) i = -i; return i <= n ? i : -1; };
    std::string l;
    for (int i = -n; i <= n; ++i) { if (u(i) >= 0) l += (l.empty() ? "" : "+") + s.vars[u(i)]; }
    s.polys.push_back(l + "-1");
    for (int m = 0; m < n; ++m) {
        std::string q;
        for (int i = -n; i <= n; ++i) { int a = u(i), b = u(m - i); if (a >= 0 && b >= 0) q += (q.empty() ? "" : "+") + s.vars[a] + "*" + s.vars[b]; }
        s.polys.push_back(q + "-" + s.vars[m]);
    }
    // combine like terms
    ref::Alg<ref::FieldQ> A; A.o.nv = n + 1;
    for (auto &p : s.polys) p = A.str(A.parse(p, s.vars), s.vars);
    return s;
}
inline Sys cyclic(int n) {
    Sys s; s.name = "cyclic" + std::to_string(n); s.vars = vnames(n);
    for (int d = 1; d < n; ++d) {
        std::string q;
        for (int i = 0; i < n; ++i) { std::string m; for (int k = 0; k < d; ++k) m += (k ? "*" : "") + s.vars[(i + k) % n]; q += (i ? "+" : "") + m; }
        s.polys.push_back(q);
    }
    std::string m; for (int k = 0; k < n; ++k) m += (k ? "*" : "") + s.vars[k];
    s.polys.push_back(m + "-1");
    return s;
}
inline Sys noon(int n) {
    Sys s; s.name = "noon" + std::to_string(n); s.vars = vnames(n);
    for (int i = 0; i < n; ++i) {
        std::string q;
        for (int j = 0; j < n; ++j) if (j != i) q += (q.empty() ? "" : "+") + ("10*" + s.vars[i] + "*" + s.vars[j] + "^2");
        s.polys.push_back(q + "-11*" + s.vars[i] + "+10");
    }
    return s;
}
inline Sys eco(int n) {
    Sys s; s.name = "eco" + std::to_string(n); s.vars = vnames(n);
    for (int i = 0; i < n - 1; ++i) {
        std::string q = s.vars[i] + "*" + s.vars[n - 1];
        for (int j = 0; j + i + 1 < n - 1; ++j) q += "+" + s.vars[j] + "*" + s.vars[j + i + 1] + "*" + s.vars[n - 1];
        s.polys.push_back(q + "-" + std::to_string(i + 1));
    }
    std::string q; for (int i = 0; i < n - 1; ++i) q += (i ? "+" : "") + s.vars[i];
    s.polys.push_back(q + "+1");
    return s;
}
// dense system with coefficients from a fixed congruential stream
inline Sys dense(int nv, int neq, int d, uint64_t seed, long maxc, bool homog = false) {
    Sys s; s.name = (homog ? "hdense" : "dense") + std::to_string(nv) + "_" + std::to_string(neq) + "_" + std::to_string(d) + "_" + std::to_string(seed) + "_" + std::to_string(maxc);
    s.vars = vnames(nv);
    std::vector<std::vector<int>> M; allmonos(nv, d, M);
    uint64_t st = seed * 2862933555777941757ull + 3037000493ull;
    for (int i = 0; i < neq; ++i) {
        std::vector<std::pair<long, std::string>> t;
        for (auto &e : M) {
            int dd = 0; for (int x : e) dd += x;
            if (homog && dd != d) continue;
            st = st * 6364136223846793005ull + 1442695040888963407ull;
            long c = (long)((st >> 33) % (2 * (uint64_t)maxc + 1)) - maxc;
            t.push_back({c, monostr(e, s.vars)});
        }
        s.polys.push_back(polystr(t));
    }
    return s;
}
inline Sys S(const std::string &name, const std::vector<std::string> &vars, const std::vector<std::string> &polys) {
    Sys s; s.name = name; s.vars = vars; s.polys = polys; return s;
}

// ------------------------------------------------------- msolve's own output
// The printed basis: returns false with a reason if the text is not one
// well-formed basis.
struct PrintedBasis {
    std::vector<std::string> polys;
    std::string order, chr, vars; long len = -1; bool leadonly = false;
    std::string err;
};
inline PrintedBasis parse_basis(const std::string &out) {
    PrintedBasis b;
    std::string body;
    size_t p = 0;
    while (p < out.size()) {
        size_t q = out.find('\n', p);
        if (q == std::string::npos) q = out.size();
        std::string l = out.substr(p, q - p);
        p = q + 1;
        if (!l.empty() && l[0] == '#') {
            auto after = [&](const char *k) -> std::string {
                size_t a = l.find(k);
                if (a == std::string::npos) return "";
                std::string v = l.substr(a + strlen(k));
                size_t x = v.find_first_not_of(' ');
                return x == std::string::npos ? "" : v.substr(x);
            };
            std::string v;
            if (!(v = after("#field characteristic:")).empty()) b.chr = v;
            if (!(v = after("#variable order:")).empty()) b.vars = v;
            if (!(v = after("#monomial order:")).empty()) b.order = v;
            if (!(v = after("#length of basis:")).empty()) b.len = atol(v.c_str());
            if (l.find("Leading ideal data") != std::string::npos) b.leadonly = true;
        } else body += l + " ";
    }
    size_t s = body.find_first_not_of(' ');
    size_t e = body.find_last_not_of(' ');
    if (s == std::string::npos) { b.err = "no basis printed"; return b; }
    body = body.substr(s, e - s + 1);
    if (body.size() < 3 || body[0] != '[' || body.substr(body.size() - 2) != "]:") { b.err = "malformed basis output: " + body.substr(0, 200); return b; }
    b.polys = ref::split(body.substr(1, body.size() - 3), ',');
    return b;
}
