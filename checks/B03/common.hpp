// Mass, stiffness, right-hand sides and projections against exact integrals of the polynomials involved.
#pragma once
#include "scalarbasis.hpp"
#include "gram.hpp"
#include "diskpp/geometry/geometry.hpp"
using namespace mm;
// matrices of integrals: entries relative to the norms of the functions they involve
inline double relerr(const MX& A, const MX& B, const Eigen::VectorXd& na, const Eigen::VectorXd& nb) { if (A.rows() != B.rows() || A.cols() != B.cols() || !A.allFinite()) return 1e300; double r = 0; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) r = std::max(r, std::abs(A(i, j) - B(i, j)) / (na(i) * nb(j))); return r; }
inline Eigen::VectorXd norms(const MX& G) { return G.diagonal().cwiseAbs().cwiseSqrt().cwiseMax(1e-300); }
template<int D, typename P> struct elem { const fit<D>& F; frame<P, D> fr; MX G; Eigen::VectorXd nf;
    double mono(size_t j, const P& p) const { return fit<D>::mono(F.ex[j], local<P, D>(fr, p)); }
    template<typename B> MX coefs(const B& b) const { return F.coef(bvalues<D, P>(F, fr, b.size(), [&](const P& p) { return Eigen::VectorXd(b.eval_functions(p)); })); }
    // components of a vector / matrix basis
    template<typename B> std::vector<MX> vcoefs(const B& b, int nc) const { std::vector<MX> v(nc, MX(F.u.size(), b.size())); for (size_t q = 0; q < F.u.size(); q++) { auto x = b.eval_functions(fr.at(F.u[q])); for (size_t i = 0; i < b.size(); i++) for (int c = 0; c < nc; c++) { if constexpr (requires { x.cols(); }) v[c](q, i) = x(i, c); else v[c](q, i) = x[i](c / int(x[i].cols()), c % int(x[i].cols())); } } for (auto& c : v) c = F.coef(c); return v; } };
template<int D, typename P> elem<D, P> make_elem(const fit<D>& F, const frame<P, D>& fr, const MX& G) { return {F, fr, G, norms(G)}; }
template<int D, typename P> MX sum_gram(const elem<D, P>& e, const std::vector<MX>& A, const std::vector<MX>& B) { MX R = A[0].transpose() * e.G * B[0]; for (size_t c = 1; c < A.size(); c++) R += A[c].transpose() * e.G * B[c]; return R; }
// a projection of f (given by its coefficients) is exact in the span and orthogonal otherwise
template<int D, typename P> void projection(const std::string& w, const elem<D, P>& e, const std::vector<MX>& C, const std::vector<MX>& f, const Eigen::VectorXd& dofs, bool inspan, double tol)
{
    if (dofs.size() != C[0].cols() || !dofs.allFinite()) { mc::fail("projection-size", w + mc::str(" ", dofs.size())); return; } std::vector<MX> r; for (size_t c = 0; c < C.size(); c++) r.push_back(C[c] * dofs - f[c]); double nf = std::sqrt(std::abs(sum_gram(e, f, f)(0, 0))), err = std::sqrt(std::abs(sum_gram(e, r, r)(0, 0))) / nf;
    if (inspan) mc::check(err < tol, "reproduces", w + mc::str(" error ", err)); MX o = sum_gram(e, C, r); auto n = norms(sum_gram(e, C, C)); double q = 0; for (int i = 0; i < o.rows(); i++) q = std::max(q, std::abs(o(i)) / (n(i) * nf)); mc::check(q < tol, "orthogonal", w + mc::str(" residual ", q)); mc::trans(C[0].cols());
}
template<int D, typename P, typename M, typename E> void scalar_old(const std::string& w0, const M& m, const E& el, const elem<D, P>& e, size_t k, double tol)
{
    const size_t nmax = e.F.n; constexpr int N = P::dimension;
    auto one = [&](const auto& b, const std::string& w, bool stiff) {
        MX C = e.coefs(b), X = C.transpose() * e.G * C; auto n = norms(X); for (size_t di = 0; di < 2; di++) { MX A = make_mass_matrix(m, el, b, di); double r = relerr(A, X, n, n); mc::check(r < tol, "mass", w + mc::str(" error ", r)); }
        if constexpr (int(P::dimension) == D) if (stiff) { MX S = MX::Zero(b.size(), b.size()); for (int d = 0; d < D; d++) { MX g = e.F.diff(C, d) / e.fr.h; S += g.transpose() * e.G * g; } MX A = make_stiffness_matrix(m, el, b); Eigen::VectorXd ns = n / e.fr.h; double r = relerr(A, S, ns, ns); mc::check(r < tol, "stiffness", w + mc::str(" error ", r)); }
        for (size_t di = 0; di < 3; di++) for (size_t j = 0; j < e.F.ex.size(); j++) { if (e.F.deg(j) > int(k + 2 * di) || (di && e.F.deg(j) <= int(k + 2 * di - 2))) continue; disk::scalar_rhs_function<M> f = [&](const P& p) { return e.mono(j, p); }; MX fc = MX::Zero(e.F.ex.size(), 1); fc(j) = 1;
            MX ex = C.transpose() * e.G * fc, r = make_rhs(m, el, b, f, di); Eigen::VectorXd nj(1); nj(0) = e.nf(j); double q = relerr(r, ex, n, nj); mc::check(q < tol, "rhs", w + mc::str(" function ", j, " extra degree ", di, " error ", q));
            Eigen::VectorXd p = project_function(m, el, b, f, di); projection(w + mc::str(" monomial ", j, " extra degree ", di), e, {C}, {fc}, p, e.F.deg(j) <= int(k), tol * 1e3); }
        mc::trace(); };
    auto b = make_scalar_monomial_basis(m, el, k); one(b, w0 + mc::str(" monomials degree ", k), D == N);
    if constexpr (N > 1) { auto bi = make_scalar_monomial_basis(m, el, k, true); one(bi, w0 + mc::str(" inertia monomials degree ", k), D == N); auto l = make_scalar_legendre_basis(m, el, k, false); one(l, w0 + mc::str(" Legendre degree ", k), D == N); }
    MX C = e.coefs(b); for (size_t di = 0; di < 2; di++) for (size_t j = 0; j < e.F.ex.size(); j++) if (e.F.deg(j) <= int(k + 2 * di)) { MX fc = MX::Zero(e.F.ex.size(), 1); fc(j) = 1; Eigen::VectorXd p = disk::project_function(m, el, k, disk::scalar_rhs_function<M>([&](const P& p) { return e.mono(j, p); }), di); projection(w0 + mc::str(" by degree ", k, " monomial ", j), e, {C}, {fc}, p, e.F.deg(j) <= int(k), tol * 1e3); }
    (void)nmax;
}
template<int D, typename P, typename M, typename E> void vector_old(const std::string& w0, const M& m, const E& el, const elem<D, P>& e, size_t k, double tol)
{
    constexpr int N = P::dimension; std::string w = w0 + mc::str(" vector degree ", k); using vec = Eigen::Matrix<double, N, 1>; auto b = make_vector_monomial_basis(m, el, k); auto C = e.vcoefs(b, N); MX X = sum_gram(e, C, C); auto n = norms(X);
    for (size_t di = 0; di < 2; di++) { double r = relerr(make_mass_matrix(m, el, b, di), X, n, n); mc::check(r < tol, "vector-mass", w + mc::str(" error ", r)); }
    for (int c = 0; c < N; c++) for (size_t di = 0; di < 2; di++) for (size_t j = 0; j < e.F.ex.size(); j++) { if (e.F.deg(j) > int(k + 2 * di)) continue; disk::vector_rhs_function<M> f = [&](const P& p) { vec v = vec::Zero(); v(c) = e.mono(j, p); return v; }; std::vector<MX> fc(N, MX::Zero(e.F.ex.size(), 1)); fc[c](j) = 1;
        MX ex = sum_gram(e, C, fc), r = make_rhs(m, el, b, f, di); Eigen::VectorXd nj(1); nj(0) = e.nf(j); double q = relerr(r, ex, n, nj); mc::check(q < tol, "vector-rhs", w + mc::str(" monomial ", j, " error ", q)); bool in = e.F.deg(j) <= int(k); std::string wj = w + mc::str(" component ", c, " monomial ", j, " extra degree ", di);
        Eigen::VectorXd p = disk::project_function(m, el, b, f, di); projection(wj, e, C, fc, p, in, tol * 1e3); p = disk::project_function(m, el, k, f, di); projection(wj + " by degree", e, C, fc, p, in, tol * 1e3); }
    if constexpr (D == N && D > 1) {
        std::vector<MX> g; for (int c = 0; c < N; c++) for (int d = 0; d < D; d++) g.push_back(e.F.diff(C[c], d) / e.fr.h); MX S = sum_gram(e, g, g); Eigen::VectorXd ns = n / e.fr.h; double r = relerr(make_stiffness_matrix(m, el, b), S, ns, ns); mc::check(r < tol, "vector-stiffness", w + mc::str(" error ", r));
        if (k) for (int c = 0; c < N; c++) for (size_t j = 1; j < e.F.ex.size(); j++) if (e.F.deg(j) <= int(k) + 1) { MX fc = MX::Zero(e.F.ex.size(), 1); fc(j) = 1; std::vector<MX> dg; for (int d = 0; d < D; d++) dg.push_back(e.F.diff(fc, d) / e.fr.h);
            disk::matrix_rhs_function<M> f = [&](const P& p) { Eigen::Matrix<double, N, N> R = Eigen::Matrix<double, N, N>::Zero(); auto u = local<P, D>(e.fr, p); for (int d = 0; d < D; d++) for (size_t l = 0; l < e.F.ex.size(); l++) if (dg[d](l)) R(c, d) += dg[d](l) * fit<D>::mono(e.F.ex[l], u); return R; };
            Eigen::VectorXd p = disk::project_gradient(m, el, k, f, 0); if (p.size() != long(b.size() - N)) { mc::fail("project-gradient-size", w); continue; } std::vector<MX> C2, F2; for (int a = 0; a < N; a++) for (int d = 0; d < D; d++) { MX x = g[a * D + d]; C2.push_back(x.rightCols(b.size() - N)); F2.push_back(a == c ? dg[d] : MX(MX::Zero(e.F.ex.size(), 1))); } projection(w + mc::str(" gradient of component ", c, " monomial ", j), e, C2, F2, p, e.F.deg(j) <= int(k), tol * 1e3); }
        // a constant tensor in the scalar product
        Eigen::Matrix<double, N, N> K; for (int a = 0; a < N; a++) for (int c = 0; c < N; c++) K(a, c) = a == c ? 2 + a : 0.25 * a - 0.5 * c; MX Y = MX::Zero(b.size(), b.size()); for (int a = 0; a < N; a++) for (int c = 0; c < N; c++) Y += K(a, c) * C[a].transpose() * e.G * C[c]; double rk = relerr(make_mass_matrix(m, el, b, [&](const P&) { return K; }), Y, n, n); mc::check(rk < 10 * tol, "material-mass", w + mc::str(" error ", rk));
        double rs = relerr(make_mass_matrix(m, el, b, [&](const P&) { return -3.0; }), -3 * X, n, n); mc::check(rs < 10 * tol, "material-mass", w + mc::str(" scalar error ", rs));
        if (k <= 2) { auto mb = make_matrix_monomial_basis(m, el, k); auto sb = make_sym_matrix_monomial_basis(m, el, k); auto MC = e.vcoefs(mb, N * N), SC = e.vcoefs(sb, N * N); MX a = sum_gram(e, MC, MC), s = sum_gram(e, SC, SC); double q = relerr(make_mass_matrix(m, el, mb), a, norms(a), norms(a)), t = relerr(make_mass_matrix(m, el, sb), s, norms(s), norms(s)); mc::check(q < tol, "matrix-mass", w + mc::str(" error ", q)); mc::check(t < tol, "sym-matrix-mass", w + mc::str(" error ", t));
            // right-hand sides of matrix functions
            for (int c = 0; c < N * N; c++) for (size_t j = 0; j < e.F.ex.size(); j += 2) if (e.F.deg(j) <= int(k)) { disk::matrix_rhs_function<M> f = [&](const P& p) { Eigen::Matrix<double, N, N> R = Eigen::Matrix<double, N, N>::Zero(); R(c / N, c % N) = e.mono(j, p); return R; }; std::vector<MX> fc(N * N, MX::Zero(e.F.ex.size(), 1)); fc[c](j) = 1; Eigen::VectorXd nj(1); nj(0) = e.nf(j); double q1 = relerr(make_rhs(m, el, mb, f), sum_gram(e, MC, fc), norms(a), nj), q2 = relerr(make_rhs(m, el, sb, f), sum_gram(e, SC, fc), norms(s), nj); mc::check(q1 < tol && q2 < tol, "matrix-rhs", w + mc::str(" entry ", c, " monomial ", j, " errors ", q1, " ", q2)); } }
    }
    mc::trace();
}
template<typename M> void older(const std::string& nm, const M& m, int kmax, int kvec, double tol)
{
    using P = typename M::point_type; constexpr int D = M::dimension; size_t ic = 0; auto& F = fitter<D>(kmax + 4);
    for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); auto e = make_elem<D, P>(F, fr, cell_gram<M, D>(m, cl, fr, F)); std::string w = nm + mc::str(" cell ", ic++); mc::state(w);
        for (int k = 0; k <= kmax; k++) scalar_old<D, P>(w, m, cl, e, k, tol); if constexpr (D > 1) for (int k = 0; k <= kvec; k++) vector_old<D, P>(w, m, cl, e, k, tol); }
    if constexpr (D > 1) { size_t jf = 0; auto& FF = fitter<D - 1>(kmax + 4); for (auto it = m.faces_begin(); it != m.faces_end(); ++it, jf++) { auto fc = *it; auto p = points(m, fc); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D - 1>(pts); auto e = make_elem<D - 1, P>(FF, fr, face_gram<M, D - 1>(m, fc, fr, FF)); std::string w = nm + mc::str(" face ", jf); mc::state(w);
        for (int k = 0; k <= kmax; k++) scalar_old<D - 1, P>(w, m, fc, e, k, tol); for (int k = 0; k <= kvec; k++) vector_old<D - 1, P>(w, m, fc, e, k, tol); } }
}
