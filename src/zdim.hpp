// families of (mostly zero-dimensional) systems shared by C07, C09, C10, C14
#pragma once
#include "fam.hpp"
inline std::vector<Sys> zdim_named() {
    std::vector<Sys> L = named_small();
    L.erase(std::remove_if(L.begin(), L.end(), [](const Sys &s) { return s.name.substr(0, 3) == "exp" || s.name == "manyvars" || s.name.find("_100000") != std::string::npos; }), L.end());
    L.push_back(dense(2, 2, 5, 25, 9));
    L.push_back(S("grid", {"x", "y", "z"}, {"x^3-x", "y^3-y", "z^2-1"}));
    L.push_back(S("grid2", {"x", "y", "z", "t"}, {"x^2-1", "y^2-4", "z^2-9", "t^2-16"}));
    L.push_back(S("fat", {"x", "y", "z"}, {"x^2", "x*y", "x*z", "y^2", "y*z", "z^2"}));
    L.push_back(S("fat2", {"x", "y", "z"}, {"x^2-x", "x*y", "x*z", "y^2-y", "y*z", "z^2-z"}));
    L.push_back(S("shape", {"x", "y", "z"}, {"x-z^5+3*z", "y-z^4-1", "z^7-z-3"}));
    L.push_back(S("linear1", {"x", "y", "z"}, {"x-1", "y-2", "z-3"}));
    L.push_back(S("linear2", {"x", "y", "z"}, {"3*x-y-z", "7*y-2*z", "11*z-13"}));
    L.push_back(S("linpart", {"x", "y", "z", "t"}, {"x-y", "y-z", "z-t+1", "t^3-t^2-1"}));
    L.push_back(S("linpart2", {"x", "y", "z", "t"}, {"t-x", "z-y", "y-x^2", "x^3-x-1"}));
    L.push_back(S("sqvars", {"x", "y", "z"}, {"x^2-z", "y^2-z-1", "z^2-z-1"}));
    L.push_back(S("deg1coord", {"x", "y"}, {"x^2", "x*y-y^2"}));
    return L;
}
// polynomials whose subsets have prescribed multiplicities and positions
inline std::vector<std::string> red2() { return {"x^2", "x*y", "y^2", "x^3-x", "x^2*y-y", "x*y^2-x*y", "y^3", "x^3-x^2*y", "x^2-2*x+1", "x*y-y", "x^4", "y^4-y^3", "x^3*y-x^2*y", "x*y-x-y+1", "y^2-3*y+2", "x^2+1", "y^5-x"}; }
inline std::vector<std::string> red3() { return {"x^2-x", "y^2-y", "z^2-z", "x^2", "y^2-x", "z^3-y", "z^2-x*y", "x*y-z", "x*z", "y*z-x", "x^3", "y^3-1", "z^2-1", "x-y", "x+y+z-1", "x-1"}; }
// products of factors in x (prescribed positions of the first coordinate), with
// several ways to hang the second coordinate on it
inline std::vector<std::string> rootfactors() {
    std::string a = "18446744073709551616", b = "18446744073709551617", c = "1393796574908163946345982392040522594123776", c3 = "4181389724724491839037947176121567782371328", d = "340282366920938463463374607431768211456", d1 = "340282366920938463463374607431768211457";
    return {"x", "x-1", "x+1", "x-2", "2*x-1", "2*x+1", "3*x-1", "3*x+2", "x-" + a, "x-" + b, "x+" + a, a + "*x-1", a + "*x-" + b, a + "*x+1", "x-" + c, c + "*x-3", c3 + "*x-" + c, "x^2-2", "x^2-" + d1, d1 + "*x^2-2", "x^2+1", "x^3-x-1", d + "*x^2-" + d1, "x^2-2*x-1"};
}
inline std::string product(const std::vector<std::string> &f, const std::vector<std::string> &vars) {
    using namespace ref; Alg<FieldQ> A; A.o.nv = vars.size();
    auto r = A.cst(1); for (auto &s : f) r = A.mulp(r, A.parse(s, vars));
    mpz_class l = 1; for (auto &m : r) l = lcm(l, m.c.get_den());
    for (auto &m : r) m.c *= l;
    return A.str(r, vars);
}
