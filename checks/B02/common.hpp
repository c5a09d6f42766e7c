// Vector and matrix bases decided through the polynomial coefficients of their components.
#pragma once
#include "scalarbasis.hpp"
#include "diskpp/geometry/geometry.hpp"
using namespace mm;
// values of all functions at a point: functions x components
using valf = std::function<MX(size_t)>;
// coefficients stacked by component (monomials of component 0, of component 1, ...)
template<int D> MX stacked(const std::string& w, const fit<D>& F, size_t n, size_t nc, const valf& f, int k, double tol)
{
    std::vector<MX> v(nc, MX(F.u.size(), n)); for (size_t q = 0; q < F.u.size(); q++) { MX x = f(q); if (size_t(x.rows()) != n || size_t(x.cols()) != nc) { mc::fail("eval-size", w + mc::str(" ", x.rows(), " x ", x.cols())); return MX(); } for (size_t c = 0; c < nc; c++) v[c].row(q) = x.col(c).transpose(); }
    MX S(nc * F.ex.size(), n); Eigen::VectorXd sc = Eigen::VectorXd::Zero(n); double res = 0, hi = 0; mc::trans(F.u.size() * n * nc);
    for (size_t c = 0; c < nc; c++) { if (!v[c].allFinite()) { mc::fail("finite", w); return MX(); } for (size_t i = 0; i < n; i++) sc(i) = std::max(sc(i), v[c].col(i).cwiseAbs().maxCoeff()); }
    for (size_t c = 0; c < nc; c++) { MX C = F.coef(v[c]); MX r = F.V * C - v[c]; for (size_t i = 0; i < n; i++) { res = std::max(res, r.col(i).cwiseAbs().maxCoeff() / std::max(sc(i), 1e-300)); for (size_t j = 0; j < F.ex.size(); j++) if (F.deg(j) > k) hi = std::max(hi, std::abs(C(j, i)) / std::max(sc(i), 1e-300)); } S.middleRows(c * F.ex.size(), F.ex.size()) = C; }
    mc::check(res <= tol, "polynomial", w + mc::str(" residual ", res)); mc::check(hi <= 100 * tol, "degree-bound", w + mc::str(" content above the degree ", hi)); return S;
}
inline double outside(const MX& G, const MX& S) { Eigen::ColPivHouseholderQR<MX> qr(G); qr.setThreshold(1e-10); MX Q = qr.householderQ() * MX::Identity(G.rows(), qr.rank()); double r = 0; for (int i = 0; i < S.cols(); i++) { double x = (S.col(i) - Q * (Q.transpose() * S.col(i))).norm() / std::max(S.col(i).norm(), 1e-300); if (!(x <= r)) r = std::isfinite(x) ? x : 1e300; } return r; }
inline void space(const std::string& w, const MX& S, const MX& G, size_t size, double tol)
{
    if (!S.size()) return; Eigen::ColPivHouseholderQR<MX> qr(G); qr.setThreshold(1e-10); size_t dim = qr.rank();
    mc::check(size == dim, "size", w + mc::str(" has ", size, " functions, its space dimension ", dim)); double in = indep(S); mc::check(in > 1e-9, "independent", w + mc::str(" singular value ratio ", in));
    double o = outside(G, S); mc::check(o <= tol * 100, "space", w + mc::str(" functions leave the space by ", o));
}
// generators: P^k in each of the directions given (columns, components x directions)
template<int D> MX full(const fit<D>& F, int k, const MX& dirs)
{ std::vector<Eigen::VectorXd> g; size_t N = F.ex.size(), nc = dirs.rows(); for (size_t j = 0; j < N; j++) if (F.deg(j) <= k) for (int d = 0; d < dirs.cols(); d++) { Eigen::VectorXd x = Eigen::VectorXd::Zero(N * nc); for (size_t c = 0; c < nc; c++) x(c * N + j) = dirs(c, d); g.push_back(x); } MX G(N * nc, g.size()); for (size_t i = 0; i < g.size(); i++) G.col(i) = g[i]; return G; }
inline MX cat(const MX& A, const std::vector<Eigen::VectorXd>& b) { if (b.empty()) return A; MX G(b[0].size(), A.cols() + b.size()); if (A.cols()) G.leftCols(A.cols()) = A; for (size_t i = 0; i < b.size(); i++) G.col(A.cols() + i) = b[i]; return G; }
inline MX symdirs(int D) { MX R = MX::Zero(D * D, D * (D + 1) / 2); int c = 0; for (int i = 0; i < D; i++) for (int j = i; j < D; j++) R(i * D + j, c) = R(j * D + i, c) = 1, c++; return R; }
// derivative operators of every function against the derivatives of its components; f: grid point -> functions x entries,
// e: component coefficients -> entries of the operator
template<int D> void oper(const std::string& w, const std::string& key, const fit<D>& F, const MX& S, double h, size_t ne, const valf& f, const std::function<MX(const std::function<MX(int, int)>&, size_t)>& e, double tol)
{
    if (!S.size()) return; size_t N = F.ex.size(), n = S.cols(); auto der = [&](int c, int d) { return MX(F.V * F.diff(MX(S.middleRows(c * N, N)), d) / h); };
    Eigen::VectorXd sc = S.cwiseAbs().colwise().maxCoeff() / h; double worst = 0; size_t bi = 0, be = 0; std::vector<MX> ex; for (size_t k = 0; k < ne; k++) ex.push_back(e(der, k));
    for (size_t q = 0; q < F.u.size(); q++) { MX g = f(q); if (size_t(g.rows()) != n || size_t(g.cols()) != ne) { mc::fail(key + "-size", w); return; } for (size_t i = 0; i < n; i++) for (size_t k = 0; k < ne; k++) { double x = std::abs(g(i, k) - ex[k](q, i)) / sc(i); if (!(x <= worst)) worst = std::isfinite(x) ? x : 1e300, bi = i, be = k; } }
    mc::check(worst <= tol * 100, key, w + mc::str(" function ", bi, " entry ", be, " differs by ", worst)); mc::trans(F.u.size() * n);
}
template<typename V> MX mats(const V& v) { if (v.empty()) return MX(); int s = v[0].size(); MX R(v.size(), s); for (size_t i = 0; i < v.size(); i++) for (int a = 0; a < v[i].rows(); a++) for (int b = 0; b < v[i].cols(); b++) R(i, a * v[i].cols() + b) = v[i](a, b); return R; }
template<int D, typename B, typename FR> void vector_cell(const std::string& w, const FR& fr, const B& b, int k, double tol)
{
    auto& F = fitter<D>(k + 1); auto at = [&](size_t q) { return fr.at(F.u[q]); };
    MX S = stacked<D>(w, F, b.size(), D, [&](size_t q) { return MX(b.eval_functions(at(q)).real()); }, k, tol); space(w, S, full<D>(F, k, MX::Identity(D, D)), b.size(), tol); mc::check(b.degree() == size_t(k), "degree", w);
    oper<D>(w, "gradient", F, S, fr.h, D * D, [&](size_t q) { auto g = b.eval_gradients(at(q)); MX R(g.size(), D * D); for (size_t i = 0; i < g.size(); i++) for (int a = 0; a < D; a++) for (int c = 0; c < D; c++) R(i, a * D + c) = std::real(g[i](a, c)); return R; }, [&](auto& der, size_t e) { return der(e / D, e % D); }, tol);
    oper<D>(w, "sym-gradient", F, S, fr.h, D * D, [&](size_t q) { auto g = b.eval_sgradients(at(q)); MX R(g.size(), D * D); for (size_t i = 0; i < g.size(); i++) for (int a = 0; a < D; a++) for (int c = 0; c < D; c++) R(i, a * D + c) = std::real(g[i](a, c)); return R; }, [&](auto& der, size_t e) { return MX(0.5 * (der(e / D, e % D) + der(e % D, e / D))); }, tol);
    oper<D>(w, "divergence", F, S, fr.h, 1, [&](size_t q) { return MX(b.eval_divergences(at(q)).real()); }, [&](auto& der, size_t) { MX r = der(0, 0); for (int d = 1; d < D; d++) r += der(d, d); return r; }, tol);
    // the scalar curl in the plane has the orientation d_y v_x - d_x v_y; in space the usual one
    if constexpr (D == 2) oper<D>(w, "curl", F, S, fr.h, 1, [&](size_t q) { return MX(b.eval_curls(at(q)).real()); }, [&](auto& der, size_t) { return MX(der(0, 1) - der(1, 0)); }, tol);
    else oper<D>(w, "curl", F, S, fr.h, 3, [&](size_t q) { return MX(b.eval_curls2(at(q)).real()); }, [&](auto& der, size_t e) { int a = (e + 1) % 3, c = (e + 2) % 3; return MX(der(c, a) - der(a, c)); }, tol);
}
template<typename M> void cell_bases(const std::string& nm, const M& m, int kmax, int kmat, int krt)
{
    using P = typename M::point_type; constexpr int D = M::dimension; size_t ic = 0; const double tol = 1e-9;
    for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); std::string w0 = nm + mc::str(" cell ", ic); mc::state(w0);
        for (int in = 0; in < 2; in++) for (int k = 0; k <= kmax; k++) { std::string w = w0 + mc::str(" vector degree ", k, in ? " inertia" : ""); auto b = disk::make_vector_monomial_basis(m, cl, k, in); mc::check(disk::vector_basis_size(k, D, D) == b.size(), "size-function", w); vector_cell<D>(w, fr, b, k, tol); mc::trace();
            if (k <= 1) { auto bc = disk::make_vector_monomial_basis_complex(m, cl, k, in); double e = 0; for (auto& u : fitter<D>(1).u) { auto x = fr.at(u); e = std::max(e, (bc.eval_functions(x) - b.eval_functions(x).template cast<std::complex<double>>()).cwiseAbs().maxCoeff()); } mc::check(bc.size() == b.size() && e == 0, "complex", w); vector_cell<D>(w + " complex", fr, bc, k, tol); } }
        for (int in = 0; in < 2; in++) for (int k = 0; k <= kmat; k++) { auto& F = fitter<D>(k + 1);
            { std::string w = w0 + mc::str(" matrix degree ", k, in ? " inertia" : ""); auto b = disk::make_matrix_monomial_basis(m, cl, k, in); mc::check(disk::matrix_basis_size(k, D, D) == b.size() && b.degree() == size_t(k), "size-function", w); MX S = stacked<D>(w, F, b.size(), D * D, [&](size_t q) { return mats(b.eval_functions(fr.at(F.u[q]))); }, k, tol); space(w, S, full<D>(F, k, MX::Identity(D * D, D * D)), b.size(), tol); mc::trace(); }
            { std::string w = w0 + mc::str(" symmetric matrix degree ", k, in ? " inertia" : ""); auto b = disk::make_sym_matrix_monomial_basis(m, cl, k, in); mc::check(disk::sym_matrix_basis_size(k, D, D) == b.size() && b.degree() == size_t(k), "size-function", w); MX S = stacked<D>(w, F, b.size(), D * D, [&](size_t q) { return mats(b.eval_functions(fr.at(F.u[q]))); }, k, tol); space(w, S, full<D>(F, k, symdirs(D)), b.size(), tol); mc::trace(); } }
        bool simplex = pts.size() == D + 1;
        auto refused = [&](auto f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
        if (!simplex) { for (int k = 1; k <= 2; k++) mc::check(refused([&]{ disk::make_vector_monomial_basis_RT(m, cl, k); }) && refused([&]{ disk::make_matrix_monomial_basis_RT(m, cl, k); }) && refused([&]{ disk::make_sym_matrix_monomial_basis_RT(m, cl, k); }), "simplices-only", w0); }
        else { mc::check(refused([&]{ disk::make_vector_monomial_basis_RT(m, cl, 0); }) && refused([&]{ disk::make_matrix_monomial_basis_RT(m, cl, 0); }) && refused([&]{ disk::make_sym_matrix_monomial_basis_RT(m, cl, 0); }), "degree-0-refused", w0);
            for (int k = 1; k <= krt; k++) { auto& F = fitter<D>(k + 1); size_t N = F.ex.size();
                { std::string w = w0 + mc::str(" Raviart-Thomas degree ", k); auto b = disk::make_vector_monomial_basis_RT(m, cl, k); mc::check(disk::vector_basis_size_RT(k, D, D) == b.size() && b.degree() == size_t(k), "size-function", w); MX S = stacked<D>(w, F, b.size(), D, [&](size_t q) { return MX(b.eval_functions(fr.at(F.u[q]))); }, k, tol);
                  std::vector<Eigen::VectorXd> x; for (size_t j = 0; j < N; j++) if (F.deg(j) == k - 1) { MX c = MX::Zero(N, 1); c(j) = 1; Eigen::VectorXd g(N * D); for (int d = 0; d < D; d++) g.segment(d * N, N) = F.times(c, d).col(0); x.push_back(g); } space(w, S, cat(full<D>(F, k - 1, MX::Identity(D, D)), x), b.size(), tol);
                  oper<D>(w, "RT-divergence", F, S, fr.h, 1, [&](size_t q) { return MX(b.eval_divergences(fr.at(F.u[q]))); }, [&](auto& der, size_t) { MX r = der(0, 0); for (int d = 1; d < D; d++) r += der(d, d); return r; }, tol); mc::trace(); }
                std::vector<Eigen::VectorXd> x, y; for (size_t j = 0; j < N; j++) if (F.deg(j) == k - 1) for (int r = 0; r < D; r++) { MX c = MX::Zero(N, 1); c(j) = 1; Eigen::VectorXd g = Eigen::VectorXd::Zero(N * D * D), s = g; for (int d = 0; d < D; d++) { MX t = F.times(c, d); g.segment((r * D + d) * N, N) += t.col(0); s.segment((r * D + d) * N, N) += t.col(0); s.segment((d * D + r) * N, N) += t.col(0); } x.push_back(g); y.push_back(s); }
                { std::string w = w0 + mc::str(" matrix Raviart-Thomas degree ", k); auto b = disk::make_matrix_monomial_basis_RT(m, cl, k); mc::check(disk::matrix_basis_size_RT(k, D, D) == b.size() && b.degree() == size_t(k), "size-function", w); MX S = stacked<D>(w, F, b.size(), D * D, [&](size_t q) { return mats(b.eval_functions(fr.at(F.u[q]))); }, k, tol); space(w, S, cat(full<D>(F, k - 1, MX::Identity(D * D, D * D)), x), b.size(), tol); mc::trace(); }
                { std::string w = w0 + mc::str(" symmetric Raviart-Thomas degree ", k); auto b = disk::make_sym_matrix_monomial_basis_RT(m, cl, k); mc::check(disk::sym_matrix_basis_size_RT(k, D, D) == b.size() && b.degree() == size_t(k), "size-function", w); MX S = stacked<D>(w, F, b.size(), D * D, [&](size_t q) { return mats(b.eval_functions(fr.at(F.u[q]))); }, k, tol); space(w, S, cat(full<D>(F, k - 1, symdirs(D)), y), b.size(), tol); mc::trace(); } } }
        ic++; }
}
template<typename M> void face_bases(const std::string& nm, const M& m, int kmax)
{
    using P = typename M::point_type; constexpr int D = M::dimension, E = D - 1; size_t jf = 0; const double tol = 1e-9;
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it, jf++) { auto fc = *it; auto p = points(m, fc); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, E>(pts); std::string w0 = nm + mc::str(" face ", jf); mc::state(w0); MX T(D, E); for (int d = 0; d < E; d++) T.col(d) = fr.ax[d];
        for (int in = 0; in < 2; in++) for (int k = 0; k <= kmax; k++) { std::string w = w0 + mc::str(" vector degree ", k, in ? " inertia" : ""); auto& F = fitter<E>(k + 1); auto b = disk::make_vector_monomial_basis(m, fc, k, in); mc::check(disk::vector_basis_size(k, E, D) == b.size() && b.degree() == size_t(k), "size-function", w); MX S = stacked<E>(w, F, b.size(), D, [&](size_t q) { return MX(b.eval_functions(fr.at(F.u[q]))); }, k, tol); space(w, S, full<E>(F, k, MX::Identity(D, D)), b.size(), tol); mc::trace();
            if (k <= 1) { auto bc = disk::make_vector_monomial_basis_complex(m, fc, k, in); double e = 0; for (auto& u : fitter<E>(1).u) { auto x = fr.at(u); e = std::max(e, (bc.eval_functions(x) - b.eval_functions(x).template cast<std::complex<double>>()).cwiseAbs().maxCoeff()); } mc::check(bc.size() == b.size() && e == 0, "complex", w); } }
        if constexpr (D == 3) for (int k = 0; k <= kmax; k++) { auto& F = fitter<2>(k + 1); size_t N = F.ex.size();
            auto inplane = [&](const auto& b, const std::string& w) { Eigen::Vector3d n = Eigen::Vector3d(fr.ax[0]).cross(Eigen::Vector3d(fr.ax[1])); double r = 0; for (size_t q = 0; q < F.u.size(); q++) { MX f = b.eval_functions(fr.at(F.u[q])); double x = (f * n).cwiseAbs().maxCoeff() / std::max(1e-300, f.cwiseAbs().maxCoeff()); if (!(x <= r)) r = std::isfinite(x) ? x : 1e300; } mc::check(r < 1e-11, "tangential", w + mc::str(" normal part ", r)); };
            // the functions promise orthonormality only if they are orthonormal
            auto honest = [&](const auto& b, const std::string& w) { if (!b.is_orthonormal()) return; MX G = MX::Zero(b.size(), b.size()); for (auto& qp : disk::integrate(m, fc, 2 * k + 2)) { MX f = b.eval_functions(qp.point()); G += qp.weight() * f * f.transpose(); } double e = (G - MX::Identity(G.rows(), G.cols())).cwiseAbs().maxCoeff(); mc::check(e < 1e-9, "orthonormal", w + mc::str(" departs from the identity by ", e)); };
            { std::string w = w0 + mc::str(" tangential degree ", k); auto b = disk::make_vector_monomial_tangential_basis(m, fc, k); mc::check(b.degree() == size_t(k), "degree", w); MX S = stacked<2>(w, F, b.size(), 3, [&](size_t q) { return MX(b.eval_functions(fr.at(F.u[q]))); }, k, tol); space(w, S, full<2>(F, k, T), b.size(), tol); inplane(b, w); honest(b, w); mc::trace(); }
            if (k) { std::string w = w0 + mc::str(" Nedelec tangential degree ", k); auto b = disk::make_vector_monomial_nedelec_tangential_basis(m, fc, k); mc::check(b.degree() == size_t(k) && b.size() == disk::nedelec_tangential_basis_size(k), "size-function", w); MX S = stacked<2>(w, F, b.size(), 3, [&](size_t q) { return MX(b.eval_functions(fr.at(F.u[q]))); }, k, tol);
              std::vector<Eigen::VectorXd> x; for (size_t j = 0; j < N; j++) if (F.deg(j) == k + 1) { MX c = MX::Zero(N, 1); c(j) = 1; Eigen::VectorXd g = Eigen::VectorXd::Zero(3 * N); for (int d = 0; d < 2; d++) { MX t = F.diff(c, d); for (int cc = 0; cc < 3; cc++) g.segment(cc * N, N) += T(cc, d) * t.col(0); } x.push_back(g); }
              space(w, S, cat(full<2>(F, k - 1, T), x), b.size(), tol); inplane(b, w); honest(b, w); mc::trace(); } } }
}
