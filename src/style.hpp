// systems as terms, and the ways of writing them (C12, C15)
#pragma once
#include "gb.hpp"
#include "fam.hpp"

struct Term { mpz_class c; std::vector<int> e; };
typedef std::vector<Term> Poly;
struct Base { std::string name; std::vector<std::string> vars; std::vector<Poly> g; };

inline Base base(const Sys &s) {
    Base b; b.name = s.name; b.vars = s.vars;
    AQ A = mkq(s.vars.size());
    for (auto &t : s.polys) {
        Poly p; for (auto &m : A.parse(t, s.vars)) { Term x; if (m.c.get_den() != 1) throw std::runtime_error("integer coefficients wanted"); x.c = m.c.get_num(); for (size_t i = 0; i < s.vars.size(); ++i) x.e.push_back(m.m.e[i]); p.push_back(x); }
        b.g.push_back(p);
    }
    return b;
}

struct Style {
    int space = 0;  // 0 none, 1 one blank around everything, 2 tabs, 3 three blanks before operators only
    int nl = 0;     // 0 LF, 1 CRLF
    int fin = 1;    // 0 nothing after the last generator, 1 line break, 2 two line breaks, 3 blank line with spaces
    int blank = 0;  // between generators: 0 nothing, 1 empty line, 2 line of blanks, two of them
    int lay = 0;    // 0 one generator per line, 1 all on one line, 2 one term per line, 3 break before the comma
    int one = 0;    // 0 unit coefficients left out, 1 written
    int ex = 0;     // 0 unit exponents left out, 1 written, 2 also zero exponents written
    int plus = 0;   // leading plus sign
    int rep = 0;    // coefficients: char p: 0 signed, 1 least non-negative, 2 largest below 2^31, 3 most negative above -2^31; char 0: 1 c/1, 2 2c/2, 3 -(6c)/6 as written sign and unreduced
    int swap = 0;   // factors of a term in reverse order
    std::string str() const { char b[160]; snprintf(b, sizeof b, "space%d nl%d fin%d blank%d lay%d one%d ex%d plus%d rep%d swap%d", space, nl, fin, blank, lay, one, ex, plus, rep, swap); return b; }
};

inline std::string text(const Base &b, const std::vector<std::string> &vars, const std::string &chr, long p, const Style &s) {
    std::string NL = s.nl ? "\r\n" : "\n";
    std::string b1 = s.space == 1 ? " " : s.space == 2 ? "\t" : s.space == 3 ? "   " : "", b2 = s.space == 3 ? "" : b1;
    std::string r;
    for (size_t i = 0; i < vars.size(); ++i) r += (i ? b1 + "," + b2 : (s.space == 1 ? " " : "")) + vars[i];
    r += b1 + NL + chr + b1 + NL;
    for (size_t i = 0; i < b.g.size(); ++i) {
        bool first = true;
        if (s.space == 1 || s.space == 2) r += b1;
        if (b.g[i].empty()) r += "0";
        for (auto &t : b.g[i]) {
            mpz_class c = t.c; std::string den;
            if (p) {
                mpz_class m = p, lim = 2147483647; // least non-negative, then largest representative below 2^31
                if (s.rep == 1 || s.rep == 2) mpz_fdiv_r(c.get_mpz_t(), c.get_mpz_t(), m.get_mpz_t());
                if (s.rep == 2) c += ((lim - c) / m) * m;
                if (s.rep == 3) { mpz_class q; mpz_fdiv_r(q.get_mpz_t(), c.get_mpz_t(), m.get_mpz_t()); c = q - m; c -= ((lim + c) / m) * m; }
                if (s.rep == 4) { c *= 2; den = "/2"; }
            } else if (s.rep) { mpz_class k = s.rep == 1 ? 1 : s.rep == 2 ? 2 : 6; c *= k; den = "/" + k.get_str(); }
            std::string sg = c < 0 ? "-" : "+"; mpz_class a = abs(c);
            if (first) { if (sg == "-") r += "-" + b2; else if (s.plus) r += "+" + b2; }
            else r += (s.lay == 2 ? NL : b1) + sg + b2;
            first = false;
            std::vector<std::string> f;
            for (size_t k = 0; k < vars.size(); ++k) {
                int e = t.e[k];
                if (!e && s.ex < 2) continue;
                f.push_back(vars[k] + (e != 1 || s.ex ? b1 + "^" + b2 + std::to_string(e) : ""));
            }
            if (s.swap) std::reverse(f.begin(), f.end());
            bool cons = true; for (int e : t.e) if (e) cons = false;
            if (f.empty() || a != 1 || !den.empty() || s.one || cons) f.insert(f.begin(), a.get_str() + den);
            r += run::join(f, b1 + "*" + b2);
        }
        if (i + 1 < b.g.size()) {
            r += b1;
            if (s.lay == 3) r += NL;
            r += ",";
            if (s.lay != 1) r += NL; else r += b2;
            if (s.blank == 1) r += NL;
            if (s.blank == 2) r += "  " + NL + NL + " " + NL;
        } else {
            if (s.fin) r += NL;
            if (s.fin == 2) r += NL;
            if (s.fin == 3) r += "   " + NL + " ";
        }
    }
    return r;
}

// the plain style, every deviation from it and every pair of deviations
inline std::vector<Style> style_pairs() {
    std::vector<Style> pairs;
    {
        int lim[10] = {4, 2, 4, 3, 4, 2, 3, 2, 5, 2};
        auto setf = [](Style &s, int f, int v) { int *q[10] = {&s.space, &s.nl, &s.fin, &s.blank, &s.lay, &s.one, &s.ex, &s.plus, &s.rep, &s.swap}; *q[f] = v; };
        for (int f = 0; f < 10; ++f) for (int v = 0; v < lim[f]; ++v) {
            Style s; setf(s, f, v); pairs.push_back(s);
            for (int g = f + 1; g < 10; ++g) for (int w = 0; w < lim[g]; ++w) { Style t = s; setf(t, g, w); pairs.push_back(t); }
        }
    }
    return pairs;
}
