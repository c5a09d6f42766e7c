// Deciding polynomial identities: a function known to be a polynomial of degree <= n is determined by
// its values on a unisolvent grid. fit<D>: values on a tensor grid of an affine frame <-> coefficients of
// scaled monomials, and exact derivatives of them.
#pragma once
#include <Eigen/Dense>
#include <array>
#include <map>
#include <vector>
#include <cmath>
namespace mm {
using MX = Eigen::MatrixXd;
template<int D> struct fit {
    int n, ng; std::vector<std::array<int, D>> ex; std::vector<std::array<double, D>> u; MX V, pinv; std::map<std::array<int, D>, int> id;
    fit(int n_) : n(n_), ng(n_ + 2)
    {
        for (int k = 0; k <= n; k++) { std::array<int, D> e; e.fill(0); rec(e, 0, k); }
        for (size_t i = 0; i < ex.size(); i++) id[ex[i]] = i;
        size_t N = 1; for (int d = 0; d < D; d++) N *= ng;
        for (size_t q = 0; q < N; q++) { std::array<double, D> p; size_t r = q; for (int d = 0; d < D; d++) { p[d] = std::cos(M_PI * (double(r % ng) + 0.5) / ng + 0.01 * d); r /= ng; } u.push_back(p); }
        V.resize(N, ex.size()); for (size_t q = 0; q < N; q++) for (size_t j = 0; j < ex.size(); j++) V(q, j) = mono(ex[j], u[q]);
        pinv = V.completeOrthogonalDecomposition().pseudoInverse();
    }
    void rec(std::array<int, D> e, int d, int left) { if (d == D - 1) { e[d] = left; ex.push_back(e); return; } for (int a = left; a >= 0; a--) { e[d] = a; rec(e, d + 1, left - a); } }
    static double mono(const std::array<int, D>& e, const std::array<double, D>& p) { double r = 1; for (int d = 0; d < D; d++) for (int a = 0; a < e[d]; a++) r *= p[d]; return r; }
    int deg(size_t j) const { int s = 0; for (int a : ex[j]) s += a; return s; }
    size_t dim(int k) const { size_t c = 0; for (size_t j = 0; j < ex.size(); j++) if (deg(j) <= k) c++; return c; }
    // coefficients (rows: monomials; columns: as in vals)
    MX coef(const MX& vals) const { return pinv * vals; }
    // derivative in reference direction d: coefficients -> coefficients
    MX diff(const MX& C, int d) const { MX R = MX::Zero(C.rows(), C.cols()); for (size_t j = 0; j < ex.size(); j++) if (ex[j][d] > 0) { auto e = ex[j]; e[d]--; R.row(id.at(e)) += ex[j][d] * C.row(j); } return R; }
    MX times(const MX& C, int d) const { MX R = MX::Zero(C.rows(), C.cols()); for (size_t j = 0; j < ex.size(); j++) { auto e = ex[j]; e[d]++; auto it = id.find(e); if (it != id.end()) R.row(it->second) += C.row(j); } return R; }
};
template<int D> const fit<D>& fitter(int n) { static std::map<int, fit<D>*> m; auto& p = m[n]; if (!p) p = new fit<D>(n); return *p; }
// frame of an element: points c + h * sum_d u_d ax_d
template<typename P, int D> struct frame {
    P c; double h = 0; std::vector<Eigen::VectorXd> ax;
    P at(const std::array<double, D>& u) const { P r = c; for (int d = 0; d < D; d++) for (size_t k = 0; k < P::dimension; k++) r[k] += h * u[d] * ax[d](k); return r; }
};
template<typename P, int D> frame<P, D> make_frame(const std::vector<P>& pts)
{
    constexpr size_t N = P::dimension; frame<P, D> f; for (size_t k = 0; k < N; k++) { f.c[k] = 0; for (auto& p : pts) f.c[k] += p[k] / pts.size(); }
    for (auto& p : pts) f.h = std::max(f.h, (p - f.c).to_vector().norm());
    if (D == int(N)) { for (int d = 0; d < D; d++) { Eigen::VectorXd a = Eigen::VectorXd::Zero(N); a(d) = 1; f.ax.push_back(a); } return f; }
    auto vec = [&](const P& a, const P& b) { Eigen::VectorXd v(N); for (size_t k = 0; k < N; k++) v(k) = b[k] - a[k]; return v; };
    Eigen::VectorXd a0; double best = 0; for (auto& p : pts) { auto v = vec(pts[0], p); if (v.norm() > best) best = v.norm(), a0 = v.normalized(); }
    f.ax.push_back(a0);
    if (D == 2) { Eigen::VectorXd a1; best = 0; for (auto& p : pts) { Eigen::VectorXd v = vec(pts[0], p); v -= v.dot(a0) * a0; if (v.norm() > best) best = v.norm(), a1 = v.normalized(); } f.ax.push_back(a1); }
    return f;
}
// columns scaled by their largest entry; smallest singular value / largest
inline double indep(MX C) { for (int j = 0; j < C.cols(); j++) { double m = C.col(j).norm(); if (m == 0 || !std::isfinite(m)) return 0; C.col(j) /= m; } Eigen::JacobiSVD<MX> s(C); auto& v = s.singularValues(); return v(v.size() - 1) / v(0); }
inline double gap(const MX& A, const MX& B) { double r = 0; for (int j = 0; j < A.cols(); j++) { double s = std::max(1e-300, std::max(A.col(j).cwiseAbs().maxCoeff(), B.col(j).cwiseAbs().maxCoeff())), g = (A.col(j) - B.col(j)).cwiseAbs().maxCoeff() / s; if (!(g <= r)) r = std::isfinite(g) ? g : 1e300; } return r; }
}
