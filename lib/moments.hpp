// Exact integrals of all monomials over unions of simplices, in any dimension and embedding:
// int_S x^a = |S| d! a!/(|a|+d)! [t^a] prod_i 1/(1 - t.v_i)  (d = dimension of the simplex, v_i its vertices)
#pragma once
#include <vector>
#include <array>
#include <cmath>
namespace mm {
using ld = long double;
template<size_t D> struct moments {
    using V = std::array<ld, D>; using A = std::array<int, D>;
    int n; std::vector<A> al; std::vector<size_t> pred; std::vector<ld> m; // all exponents of total degree <= n
    moments(int nn) : n(nn)
    {
        std::vector<size_t> where(size_t(std::pow(n + 1, D) + 0.5), size_t(-1)); A a{};
        auto code = [&](const A& x) { size_t c = 0; for (size_t k = 0; k < D; k++) c = c * (n + 1) + x[k]; return c; };
        while (true) {
            int s = 0; for (auto x : a) s += x;
            if (s <= n) { where[code(a)] = al.size(); al.push_back(a); for (size_t k = 0; k < D; k++) if (a[k]) { A b = a; b[k]--; pred.push_back(where[code(b)]); } else pred.push_back(size_t(-1)); }
            size_t k = D; while (k-- > 0) { if (++a[k] <= n) break; a[k] = 0; } if (k == size_t(-1)) break;
        }
        m.assign(al.size(), 0);
    }
    void clear() { m.assign(al.size(), 0); }
    template<typename P> void simplex(const std::vector<P>& v, ld meas)
    {
        std::vector<ld> q(al.size(), 0); q[0] = 1; bool first = true;
        for (auto& p : v) for (size_t i = 1; i < al.size(); i++) for (size_t k = 0; k < D; k++) if (pred[i * D + k] != size_t(-1)) q[i] += ld(p[k]) * q[pred[i * D + k]];
        (void)first; size_t d = v.size() - 1;
        for (size_t i = 0; i < al.size(); i++) { ld f = meas; int s = 0; for (auto x : al[i]) { s += x; for (int y = 2; y <= x; y++) f *= y; } for (size_t y = 2; y <= d; y++) f *= y; for (size_t y = 2; y <= s + d; y++) f /= y; m[i] += f * q[i]; }
    }
    int degree(size_t i) const { int s = 0; for (auto x : al[i]) s += x; return s; }
    template<typename P> double eval(size_t i, const P& p) const { double r = 1; for (size_t k = 0; k < D; k++) for (int y = 0; y < al[i][k]; y++) r *= p[k]; return r; }
    std::string name(size_t i) const { std::string s; for (size_t k = 0; k < D; k++) s += std::string(k ? "," : "x^(") + std::to_string(al[i][k]); return s + ")"; }
};
// checks a set of quadrature points against the moments, for all monomials up to the degree
template<size_t D, typename Q> bool exact_rule(const moments<D>& mo, const Q& qps, int degree, double tol, double scale, std::string& bad)
{
    std::vector<double> num(mo.al.size(), 0), val(mo.al.size());
    for (auto& qp : qps) {
        auto p = qp.point();
        for (size_t i = 0; i < mo.al.size(); i++) { if (mo.degree(i) > degree) continue; double v = 1; for (size_t k = 0; k < D; k++) if (mo.al[i][k]) { v = val[mo.pred[i * D + k]] * p[k]; break; } val[i] = v; num[i] += v * qp.weight(); }
    }
    for (size_t i = 0; i < mo.al.size(); i++) if (mo.degree(i) <= degree && !(std::abs(num[i] - double(mo.m[i])) <= tol * std::max(scale, std::abs(double(mo.m[i]))))) { char b[160]; snprintf(b, sizeof b, "%s: got %.16g, exact %.16g", mo.name(i).c_str(), num[i], double(mo.m[i])); bad = b; return false; }
    return true;
}
} // namespace mm
