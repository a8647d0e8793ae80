// Independent reference algebra ("the model"): naive, slow, small.  Shares no
// code with msolve.  Everything here is written for obviousness.
#pragma once
#include <gmpxx.h>
#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <stdexcept>
#include <sstream>

namespace ref {

static const int MAXV = 16;

struct Mono {
    std::array<uint32_t, MAXV> e;
    Mono() { e.fill(0); }
    bool operator==(const Mono &o) const { return e == o.e; }
    bool operator!=(const Mono &o) const { return e != o.e; }
    bool operator<(const Mono &o) const { return e < o.e; } // arbitrary total order for containers
};

// a monomial order: elim = 0 -> grevlex on nv variables with x_0 > ... > x_{nv-1};
// elim = k > 0 -> two grevlex blocks, first k variables bigger.
struct Ord {
    int nv = 0;
    int elim = 0;
    static int grev(const Mono &a, const Mono &b, int lo, int hi) {
        uint64_t da = 0, db = 0;
        for (int i = lo; i < hi; ++i) { da += a.e[i]; db += b.e[i]; }
        if (da != db) return da < db ? -1 : 1;
        for (int i = hi - 1; i >= lo; --i)
            if (a.e[i] != b.e[i]) return a.e[i] > b.e[i] ? -1 : 1;
        return 0;
    }
    int cmp(const Mono &a, const Mono &b) const {
        if (elim > 0) {
            int c = grev(a, b, 0, elim);
            if (c) return c;
            return grev(a, b, elim, nv);
        }
        return grev(a, b, 0, nv);
    }
};

inline Mono mul(const Mono &a, const Mono &b) {
    Mono r;
    for (int i = 0; i < MAXV; ++i) r.e[i] = a.e[i] + b.e[i];
    return r;
}
inline bool divides(const Mono &a, const Mono &b) {
    for (int i = 0; i < MAXV; ++i) if (a.e[i] > b.e[i]) return false;
    return true;
}
inline Mono quo(const Mono &b, const Mono &a) {
    Mono r;
    for (int i = 0; i < MAXV; ++i) r.e[i] = b.e[i] - a.e[i];
    return r;
}
inline Mono lcm(const Mono &a, const Mono &b) {
    Mono r;
    for (int i = 0; i < MAXV; ++i) r.e[i] = std::max(a.e[i], b.e[i]);
    return r;
}
inline bool coprime(const Mono &a, const Mono &b) {
    for (int i = 0; i < MAXV; ++i) if (a.e[i] && b.e[i]) return false;
    return true;
}
inline uint64_t deg(const Mono &a) {
    uint64_t d = 0;
    for (int i = 0; i < MAXV; ++i) d += a.e[i];
    return d;
}

// ---------------------------------------------------------------- fields
struct FieldP {
    typedef uint64_t C;
    uint64_t p = 0;
    C zero() const { return 0; }
    C one() const { return 1 % p; }
    bool is0(const C &a) const { return a == 0; }
    C add(const C &a, const C &b) const { C s = a + b; return s >= p ? s - p : s; }
    C sub(const C &a, const C &b) const { return a >= b ? a - b : a + p - b; }
    C mul(const C &a, const C &b) const { return (unsigned __int128)a * b % p; }
    C inv(const C &a) const {
        // Fermat
        C r = 1, b = a; uint64_t e = p - 2;
        if (p == 2) return a;
        while (e) { if (e & 1) r = mul(r, b); b = mul(b, b); e >>= 1; }
        return r;
    }
    C fromz(const mpz_class &z) const {
        mpz_class r; mpz_fdiv_r_ui(r.get_mpz_t(), z.get_mpz_t(), p);
        return r.get_ui();
    }
    C fromq(const mpq_class &q) const { return mul(fromz(q.get_num()), inv(fromz(q.get_den()))); }
    std::string str(const C &a) const { return std::to_string(a); }
};
struct FieldQ {
    typedef mpq_class C;
    C zero() const { return 0; }
    C one() const { return 1; }
    bool is0(const C &a) const { return a == 0; }
    C add(const C &a, const C &b) const { return a + b; }
    C sub(const C &a, const C &b) const { return a - b; }
    C mul(const C &a, const C &b) const { return a * b; }
    C inv(const C &a) const { return 1 / a; }
    C fromz(const mpz_class &z) const { return mpq_class(z); }
    C fromq(const mpq_class &q) const { return q; }
    std::string str(const C &a) const { return a.get_str(); }
};

template <class F> struct Alg {
    typedef typename F::C C;
    struct Term { Mono m; C c; };
    typedef std::vector<Term> Poly; // strictly descending, nonzero coefficients
    F f;
    Ord o;

    bool eq(const Poly &a, const Poly &b) const {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (a[i].m != b[i].m || !(a[i].c == b[i].c)) return false;
        return true;
    }
    void norm(Poly &p) const { // sort + combine
        std::sort(p.begin(), p.end(), [&](const Term &a, const Term &b) { return o.cmp(a.m, b.m) > 0; });
        Poly r;
        for (auto &t : p) {
            if (!r.empty() && r.back().m == t.m) r.back().c = f.add(r.back().c, t.c);
            else { if (!r.empty() && f.is0(r.back().c)) r.pop_back(); r.push_back(t); }
        }
        while (!r.empty() && f.is0(r.back().c)) r.pop_back();
        Poly q; for (auto &t : r) if (!f.is0(t.c)) q.push_back(t);
        p.swap(q);
    }
    void monic(Poly &p) const {
        if (p.empty()) return;
        C i = f.inv(p[0].c);
        for (auto &t : p) t.c = f.mul(t.c, i);
    }
    // a - c*m*b  (from index ia of a, ib of b)
    Poly submul(const Poly &a, const C &c, const Mono &m, const Poly &b) const {
        Poly r; r.reserve(a.size() + b.size());
        size_t i = 0, j = 0;
        while (i < a.size() || j < b.size()) {
            if (j == b.size()) { r.push_back(a[i++]); continue; }
            Mono bm = ref::mul(b[j].m, m);
            if (i == a.size()) { r.push_back({bm, f.sub(f.zero(), f.mul(c, b[j].c))}); ++j; continue; }
            int k = o.cmp(a[i].m, bm);
            if (k > 0) r.push_back(a[i++]);
            else if (k < 0) { r.push_back({bm, f.sub(f.zero(), f.mul(c, b[j].c))}); ++j; }
            else {
                C s = f.sub(a[i].c, f.mul(c, b[j].c));
                if (!f.is0(s)) r.push_back({bm, s});
                ++i; ++j;
            }
        }
        return r;
    }
    Poly add(const Poly &a, const Poly &b) const { Mono one; return submul(a, f.sub(f.zero(), f.one()), one, b); }
    Poly sub(const Poly &a, const Poly &b) const { Mono one; return submul(a, f.one(), one, b); }
    Poly mulp(const Poly &a, const Poly &b) const {
        Poly r;
        for (auto &t : a) r = submul(r, f.sub(f.zero(), t.c), t.m, b);
        return r;
    }
    Poly cst(const C &c) const { Poly r; if (!f.is0(c)) { Term t; t.c = c; r.push_back(t); } return r; }
    Poly var(int i) const { Term t; t.m.e[i] = 1; t.c = f.one(); return Poly{t}; }

    // full normal form modulo (not necessarily Groebner) monic-able set g
    Poly nf(const Poly &in, const std::vector<Poly> &g, bool tail = true) const {
        Poly a = in, r;
        size_t pos = 0;
        while (pos < a.size()) {
            bool red = false;
            for (auto &b : g) {
                if (b.empty() || !divides(b[0].m, a[pos].m)) continue;
                Mono q = quo(a[pos].m, b[0].m);
                C c = f.mul(a[pos].c, f.inv(b[0].c));
                if (pos) a.erase(a.begin(), a.begin() + pos), pos = 0;
                a = submul(a, c, q, b);
                red = true;
                break;
            }
            if (!red) {
                if (!tail) { r.insert(r.end(), a.begin() + pos, a.end()); return r; }
                r.push_back(a[pos]); ++pos;
            }
        }
        return r;
    }
    struct Pair { size_t i, j; Mono l; uint64_t sd; };
    uint64_t steps = 0; // S-pairs processed
    // reduced Groebner basis, ascending leading monomials
    std::vector<Poly> gb(std::vector<Poly> in) {
        std::vector<Poly> G; std::vector<char> red; std::vector<Pair> P;
        for (auto &p : in) norm(p);
        std::sort(in.begin(), in.end(), [&](const Poly &a, const Poly &b) {
            if (a.empty() || b.empty()) return a.size() < b.size();
            return o.cmp(a[0].m, b[0].m) < 0;
        });
        std::vector<Poly> act;
        auto insert = [&](Poly h) {
            monic(h);
            size_t k = G.size();
            // Gebauer-Moeller
            std::vector<Pair> nw;
            for (size_t i = 0; i < k; ++i) { Pair q{i, k, lcm(G[i][0].m, h[0].m), 0}; q.sd = deg(q.l); nw.push_back(q); }
            std::vector<Pair> oldp;
            for (auto &q : P) {
                if (divides(h[0].m, q.l) && lcm(G[q.i][0].m, h[0].m) != q.l && lcm(G[q.j][0].m, h[0].m) != q.l) continue;
                oldp.push_back(q);
            }
            P.swap(oldp);
            std::vector<char> drop(nw.size(), 0);
            for (size_t a = 0; a < nw.size(); ++a) {
                if (red[nw[a].i]) { drop[a] = 1; continue; }
            }
            for (size_t a = 0; a < nw.size(); ++a) {
                if (drop[a]) continue;
                for (size_t b = 0; b < nw.size(); ++b) {
                    if (a == b || drop[b] == 1) continue;
                    if (nw[b].l == nw[a].l) {
                        // keep one representative; prefer a coprime one
                        bool ca = coprime(G[nw[a].i][0].m, h[0].m), cb = coprime(G[nw[b].i][0].m, h[0].m);
                        if (cb && !ca) { drop[a] = 1; break; }
                        if (ca == cb && b < a) { drop[a] = 1; break; }
                    } else if (divides(nw[b].l, nw[a].l)) { drop[a] = 1; break; }
                }
            }
            for (size_t a = 0; a < nw.size(); ++a)
                if (!drop[a] && !coprime(G[nw[a].i][0].m, h[0].m)) P.push_back(nw[a]);
            for (size_t i = 0; i < k; ++i) if (!red[i] && divides(h[0].m, G[i][0].m)) red[i] = 1;
            G.push_back(h); red.push_back(0);
        };
        for (auto &p : in) {
            Poly h = nf(p, live(G, red));
            if (!h.empty()) insert(h);
        }
        while (!P.empty()) {
            size_t best = 0;
            for (size_t i = 1; i < P.size(); ++i)
                if (P[i].sd < P[best].sd || (P[i].sd == P[best].sd && o.cmp(P[i].l, P[best].l) < 0)) best = i;
            Pair q = P[best];
            P[best] = P.back(); P.pop_back();
            ++steps;
            Poly s;
            s = submul(s, f.sub(f.zero(), f.one()), quo(q.l, G[q.i][0].m), G[q.i]);
            s = submul(s, f.one(), quo(q.l, G[q.j][0].m), G[q.j]);
            Poly h = nf(s, live(G, red), false);
            if (!h.empty()) insert(h);
        }
        std::vector<Poly> L = live(G, red);
        // minimal (red handles), then tail-reduce
        std::vector<Poly> R;
        for (size_t i = 0; i < L.size(); ++i) {
            Poly head{L[i][0]}, tail(L[i].begin() + 1, L[i].end());
            Poly t = nf(tail, L);
            head.insert(head.end(), t.begin(), t.end());
            R.push_back(head);
        }
        std::sort(R.begin(), R.end(), [&](const Poly &a, const Poly &b) { return o.cmp(a[0].m, b[0].m) < 0; });
        return R;
    }
    static std::vector<Poly> live(const std::vector<Poly> &G, const std::vector<char> &red) {
        std::vector<Poly> r; for (size_t i = 0; i < G.size(); ++i) if (!red[i]) r.push_back(G[i]);
        return r;
    }
    // is `g` (any list) a Groebner basis? every S-polynomial reduces to zero
    bool isgb(const std::vector<Poly> &g) {
        for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < i; ++j) {
            if (g[i].empty() || g[j].empty()) return false;
            if (coprime(g[i][0].m, g[j][0].m)) continue;
            Mono l = lcm(g[i][0].m, g[j][0].m);
            Poly s;
            s = submul(s, f.sub(f.zero(), f.inv(g[i][0].c)), quo(l, g[i][0].m), g[i]);
            s = submul(s, f.inv(g[j][0].c), quo(l, g[j][0].m), g[j]);
            if (!nf(s, g, false).empty()) return false;
        }
        return true;
    }
    // ---------------------------------------------------------- ideal data
    bool is_one(const std::vector<Poly> &g) const { return g.size() == 1 && deg(g[0][0].m) == 0; }
    int dim(const std::vector<Poly> &g) const { // g a Groebner basis (degree order); -1 for <1>
        if (is_one(g)) return -1;
        int best = 0;
        for (int s = 0; s < (1 << o.nv); ++s) {
            bool ok = true;
            for (auto &p : g) {
                bool inside = true;
                for (int i = 0; i < o.nv; ++i) if (p[0].m.e[i] && !(s >> i & 1)) { inside = false; break; }
                if (inside) { ok = false; break; }
            }
            if (ok) best = std::max(best, __builtin_popcount(s));
        }
        return best;
    }
    // monomial basis of the quotient (dim 0)
    std::vector<Mono> stair(const std::vector<Poly> &g) const {
        std::vector<Mono> r, cur{Mono()};
        std::set<Mono> seen;
        if (is_one(g)) return r;
        seen.insert(Mono());
        while (!cur.empty()) {
            std::vector<Mono> nx;
            for (auto &m : cur) {
                r.push_back(m);
                for (int i = 0; i < o.nv; ++i) {
                    Mono t = m; t.e[i]++;
                    if (seen.count(t)) continue;
                    bool red = false;
                    for (auto &p : g) if (divides(p[0].m, t)) { red = true; break; }
                    if (!red) { seen.insert(t); nx.push_back(t); }
                }
            }
            cur.swap(nx);
            if (r.size() > 50000) throw std::runtime_error("stair too large");
        }
        std::sort(r.begin(), r.end(), [&](const Mono &a, const Mono &b) { return o.cmp(a, b) < 0; });
        return r;
    }
    // shift variables right by one (new variable 0)
    Poly shift1(const Poly &p) const {
        Poly r = p;
        for (auto &t : r) { for (int i = MAXV - 1; i > 0; --i) t.m.e[i] = t.m.e[i - 1]; t.m.e[0] = 0; }
        return r;
    }
    Poly unshift1(const Poly &p) const {
        Poly r = p;
        for (auto &t : r) { for (int i = 0; i + 1 < MAXV; ++i) t.m.e[i] = t.m.e[i + 1]; t.m.e[MAXV - 1] = 0; }
        return r;
    }
    // I : h^infinity
    std::vector<Poly> saturate(const std::vector<Poly> &I, const Poly &h) {
        Alg<F> B; B.f = f; B.o.nv = o.nv + 1; B.o.elim = 1;
        std::vector<Poly> J;
        for (auto &p : I) { Poly q = shift1(p); B.norm(q); if (!q.empty()) J.push_back(q); }
        Poly q = shift1(h); B.norm(q);
        q = B.mulp(B.var(0), q);
        q = B.sub(q, B.cst(f.one()));
        J.push_back(q);
        auto G = B.gb(J);
        std::vector<Poly> R;
        for (auto &g : G) if (g[0].m.e[0] == 0) { Poly t = unshift1(g); norm(t); R.push_back(t); }
        steps += B.steps;
        return gb(R);
    }
    // I : h
    std::vector<Poly> colon(const std::vector<Poly> &I, const Poly &h) {
        // (I cap <h>) / h
        Alg<F> B; B.f = f; B.o.nv = o.nv + 1; B.o.elim = 1;
        std::vector<Poly> J;
        for (auto &p : I) { Poly q = shift1(p); B.norm(q); if (!q.empty()) J.push_back(B.mulp(B.var(0), q)); }
        Poly q = shift1(h); B.norm(q);
        J.push_back(B.mulp(B.sub(B.cst(f.one()), B.var(0)), q));
        auto G = B.gb(J);
        std::vector<Poly> R;
        Poly hh = h; norm(hh);
        for (auto &g : G) if (g[0].m.e[0] == 0) { Poly t = unshift1(g); norm(t); R.push_back(divexact(t, hh)); }
        steps += B.steps;
        return gb(R);
    }
    Poly divexact(Poly a, const Poly &b) const {
        Poly r;
        while (!a.empty()) {
            if (!divides(b[0].m, a[0].m)) throw std::runtime_error("divexact");
            Mono q = quo(a[0].m, b[0].m); C c = f.mul(a[0].c, f.inv(b[0].c));
            r.push_back({q, c});
            a = submul(a, c, q, b);
        }
        return r;
    }
    // ------------------------------------------------------------ text
    std::string str(const Poly &p, const std::vector<std::string> &vn) const {
        if (p.empty()) return "0";
        std::string s;
        for (size_t i = 0; i < p.size(); ++i) {
            std::string c = f.str(p[i].c);
            if (i && c[0] != '-') s += "+";
            s += c;
            for (int v = 0; v < o.nv; ++v) if (p[i].m.e[v]) {
                s += "*" + vn[v];
                if (p[i].m.e[v] > 1) s += "^" + std::to_string(p[i].m.e[v]);
            }
        }
        return s;
    }
    std::string strs(const std::vector<Poly> &g, const std::vector<std::string> &vn) const {
        std::string s = "[";
        for (size_t i = 0; i < g.size(); ++i) { if (i) s += ", "; s += str(g[i], vn); }
        return s + "]";
    }
    // parse "c*x^2*y+...": throws on anything unexpected
    Poly parse(const std::string &in, const std::vector<std::string> &vn) const {
        std::string s; for (char ch : in) if (!isspace((unsigned char)ch)) s += ch;
        Poly r; size_t i = 0;
        if (s.empty()) throw std::runtime_error("empty polynomial text");
        while (i < s.size()) {
            int sign = 1;
            if (s[i] == '+') ++i; else if (s[i] == '-') { sign = -1; ++i; }
            else if (i) throw std::runtime_error("bad polynomial text: " + s);
            Term t; t.c = f.one(); bool any = false;
            mpq_class c = sign;
            while (i < s.size() && s[i] != '+' && s[i] != '-') {
                if (any) { if (s[i] != '*') throw std::runtime_error("bad polynomial text: " + s); ++i; }
                any = true;
                if (i < s.size() && isdigit((unsigned char)s[i])) {
                    size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j;
                    mpz_class a(s.substr(i, j - i)); i = j;
                    mpz_class b = 1;
                    if (i < s.size() && s[i] == '/') {
                        ++i; j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j;
                        if (j == i) throw std::runtime_error("bad polynomial text: " + s);
                        b = mpz_class(s.substr(i, j - i)); i = j;
                    }
                    mpq_class q(a, b); q.canonicalize(); c *= q;
                } else {
                    size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '[' || s[j] == ']')) ++j;
                    std::string nm = s.substr(i, j - i); i = j;
                    int v = -1; for (size_t k = 0; k < vn.size(); ++k) if (vn[k] == nm) v = k;
                    if (v < 0) throw std::runtime_error("unknown variable '" + nm + "' in " + s);
                    uint64_t e = 1;
                    if (i < s.size() && s[i] == '^') {
                        ++i; j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j;
                        if (j == i) throw std::runtime_error("bad exponent: " + s);
                        e = std::stoull(s.substr(i, j - i)); i = j;
                    }
                    t.m.e[v] += e;
                }
            }
            if (!any) throw std::runtime_error("bad polynomial text: " + s);
            t.c = f.fromq(c);
            r.push_back(t);
        }
        norm(r);
        return r;
    }
};

// split "a, b, c" at top level commas
inline std::vector<std::string> split(const std::string &s, char sep) {
    std::vector<std::string> r; std::string cur; int d = 0;
    for (char c : s) {
        if (c == '[') ++d;
        if (c == ']') --d;
        if (c == sep && d == 0) { r.push_back(cur); cur.clear(); } else cur += c;
    }
    r.push_back(cur);
    return r;
}

} // namespace ref
