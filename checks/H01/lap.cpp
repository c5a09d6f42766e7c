// Potential reconstructions of every flavour.
// MC: libs=jburkardt triangle
#include "hhorec.hpp"
template<typename M> MX monos(const hcell<M>& c, size_t k) { return c.coefs(make_scalar_monomial_basis(c.m, c.cl, k)); }
template<typename M> disk::diffusion_tensor<M> tens(const KM& K) { disk::diffusion_tensor<M> t; for (int a = 0; a < K.rows(); a++) for (int b = 0; b < K.cols(); b++) t(a, b) = K(a, b); return t; }
// harmonic polynomials on top of all polynomials of degree cd + 2
template<typename M> void harmonic(const std::string& w0, const hcell<M>& c, int cd, int fd, int rd, double tol)
{
    constexpr int D = M::dimension; auto& m = c.m; auto& cl = c.cl; disk::hho_degree_info h(cd, fd); h.reconstruction_degree(rd); std::string w = w0 + mc::str(" cell ", cd, " face ", fd, " reconstruction ", rd); auto hb = make_scalar_harmonic_top_basis(m, cl, rd); hb.maximum_polynomial_degree(cd + 2); MX W = c.coefs(hb); std::vector<int> f(c.fs.size(), fd); dofs<M> U(c, cd, f); MX I = MX::Identity(D, D); int v = std::min(cd, fd);
    potential(w + " harmonic", U, W, disk::make_shl_harmonic(m, cl, h), I, plain, rd <= fd + 1 ? rd : v, v, tol); potential(w + " harmonic, face projection", U, W, disk::make_shl_face_proj_harmonic(m, cl, h), I, faceproj, v, v, tol);
    for (auto& K : tensors<D>()) { std::string wk = w + mc::str(" K ", K(0, D - 1), " ", K(D - 1, D - 1)); auto t = tens<M>(K); potential(wk + " harmonic", U, W, disk::make_shl_harmonic(m, cl, h, t), K, plain, v, v, tol); potential(wk + " harmonic, face projection", U, W, disk::make_shl_face_proj_harmonic(m, cl, h, t), K, faceproj, v, v, tol);
        // the flux-consistent one: exact up to fd + 1 as long as div(K grad w) is in the cell space (harmonic tops are K-harmonic for isotropic K only); the inner reconstruction is the standard one of degree fd + 1
        MX Wi = monos(c, fd + 1).rightCols(disk::scalar_basis_size(fd + 1, D) - 1); auto KW = kmul(K, c.grad(Wi)); MX Ri = MX(c.ip(KW, c.grad(Wi))).ldlt().solve(rec_rhs(U, KW, plain)); MX inner = Wi * Ri; int ev = rd <= cd + 2 || K.isDiagonal() && K(0, 0) == K(D - 1, D - 1) ? fd + 1 : std::min(cd, fd + 1); potential(wk + " flux", U, W, disk::make_sfl(m, cl, h, t), K, fluxes, ev, ev, tol * 10, &inner); }
}
template<typename M> void nitsche(const std::string& w0, const hcell<M>& c, int cd, int fd, double tol)
{
    auto& m = c.m; auto& cl = c.cl; constexpr int D = M::dimension; disk::hho_degree_info h(cd, fd); std::vector<int> f(c.fs.size(), fd); dofs<M> U(c, cd, f); disk::dynamic_matrix<double> R = disk::make_scalar_hho_laplacian(m, cl, h).first; MX W = monos(c, fd + 1), P = W.rightCols(W.cols() - 1) * R; auto gP = c.grad(P);
    for (double pen : {1.0, 7.5}) for (size_t j = 0; j < c.F.ex.size(); j++) { if (c.F.deg(j) > fd + 1) continue; std::string w = w0 + mc::str(" cell ", cd, " face ", fd, " penalty ", pen, " data ", j); disk::dynamic_matrix<double> L = MX::Constant(U.n, U.n, 0.5); disk::dynamic_vector<double> b = VX::Constant(U.n, -0.25); MX L0 = L; VX b0 = b;
        auto g = [&](const typename M::point_type& p) { return c.mono(j, p); }; disk::apply_dirichlet_via_nitsche(m, cl, R, L, b, h, g, pen); VX fc = c.mono_col(j);
        for (size_t i = 0; i < c.fs.size(); i++) { auto& s = c.fs[i]; if (!m.is_boundary(s.fc)) continue; MX q = MX::Zero(s.G.rows(), U.n); for (int a = 0; a < D; a++) q += s.n(a) * s.T * gP[a]; double hf = disk::measure(m, s.fc); MX B = U.facepart(i), t = B.transpose() * s.G * q; L0 += -t - t.transpose() + pen / hf * B.transpose() * s.G * B; VX gf = s.T * fc; b0 += pen / hf * B.transpose() * s.G * gf - q.transpose() * s.G * gf; }
        double sf = gnorm(fc, c.G)(0) / c.h; for (auto& s : c.fs) sf = std::max(sf, gnorm(s.T * fc, s.G)(0) / std::sqrt(c.h)); VX one = VX::Constant(1, sf); double x = rel(L, L0, U.s.cwiseMax(1) * pen, U.s.cwiseMax(1)), y = rel(b, b0, U.s.cwiseMax(1) * pen, one.cwiseMax(1)); double z = 1; for (auto& s : c.fs) z = std::max(z, c.h / disk::measure(m, s.fc)); mc::check(x < tol * z, "nitsche-matrix", w + mc::str(" error ", x)); mc::check(y < tol * z, "nitsche-rhs", w + mc::str(" error ", y)); mc::trans(1); if (pen == 1.0) mc::trace(); }
}
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-9; int fmax = th ? (D == 3 ? 2 : 4) : D == 1 ? 4 : D == 2 ? (cat ? 3 : 2) : cat && m.cells_size() < 20 ? 2 : 1; hcell<M> c(m, cl, fmax + (th && D < 3 ? 5 : 4)); mc::state(w0);
    orders(fmax, [&](int cd, int fd) { std::string w = w0 + mc::str(" cell ", cd, " face ", fd); disk::hho_degree_info h(cd, fd); std::vector<int> f(c.fs.size(), fd); dofs<M> U(c, cd, f); MX W = monos(c, fd + 1), I = MX::Identity(D, D); int vmax = c.F.n - 1, ex = fd + 1;
        // the interpolant
        for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= fd + 2) interpolant(w + mc::str(" monomial ", j), U, disk::project_function(m, cl, h, disk::scalar_rhs_function<M>([&](const typename M::point_type& p) { return c.mono(j, p); }), 2), c.mono_col(j));
        potential(w, U, W, disk::make_scalar_hho_laplacian(m, cl, h), I, plain, vmax, ex, tol); potential(w + " by cell info", U, W, disk::make_scalar_hho_laplacian(m, cl, disk::CellDegreeInfo<M>(m, cl, cd, fd)), I, plain, vmax, ex, tol); potential(w + " by mesh info", U, W, disk::make_scalar_hho_laplacian(m, cl, disk::MeshDegreeInfo<M>(m, cd, fd)), I, plain, vmax, ex, tol);
        if (fd < fmax || D == 1) { potential(w + " face projection", U, W, disk::make_shl_face_proj(m, cl, h), I, faceproj, vmax, ex, tol); for (auto& K : tensors<D>()) { std::string wk = w + mc::str(" K ", K(0, D - 1), " ", K(D - 1, D - 1)); auto t = tens<M>(K); potential(wk, U, W, disk::make_scalar_hho_laplacian(m, cl, h, t), K, plain, vmax, ex, tol); potential(wk + " face projection", U, W, disk::make_shl_face_proj(m, cl, h, t), K, faceproj, vmax, ex, tol); } }
        if (fd <= 1 || th) nitsche(w0, c, cd, fd, tol);
        if constexpr (D > 1) if (fd <= 1 || th) for (int l = 0; l < (th ? 3 : 2); l++) if (cd + 2 + l <= c.F.n && cd + 2 + l >= fd + 1) harmonic(w0, c, cd, fd, cd + 2 + l, tol); });
    // interpolation by mesh degrees: all faces of the mesh at once, degrees from a cyclic pattern
    for (int sh = 0; sh < 3; sh++) for (int cd = 0; cd < 3; cd++) { disk::MeshDegreeInfo<M> mi(m, size_t(cd), size_t(1)); std::vector<int> f; size_t q = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, q++) { int k = int((q + sh) % 3) - 1; typename M::face fc = *it; mi.degreeInfo(m, fc, k < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(k))); } for (auto& s : c.fs) f.push_back(int((m.lookup(s.fc) + sh) % 3) - 1);
        dofs<M> U(c, cd, f); std::string w = w0 + mc::str(" cell ", cd, " face degrees by number, shift ", sh); for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= 3) interpolant(w + mc::str(" monomial ", j), U, disk::project_function(m, cl, mi, disk::scalar_rhs_function<M>([&](const typename M::point_type& p) { return c.mono(j, p); }), 3), c.mono_col(j)); }
    // faces of different degrees, and faces without unknowns
    if (cat && D > 1 && (c.fs.size() <= 5 || th)) patterns(c.fs.size(), c.fs.size() <= 4 ? 1 : 0, [&](const std::vector<int>& f) { for (int cd = 0; cd <= (D == 2 ? 2 : 1); cd++) for (int rd = std::max(1, cd); rd <= 2; rd++) { std::vector<disk::DegreeInfo> di; std::string w = w0 + mc::str(" cell ", cd, " reconstruction ", rd, " faces"); for (int k : f) { di.push_back(k < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(k))); w += mc::str(" ", k); } dofs<M> U(c, cd, f); int lo = *std::min_element(f.begin(), f.end()), v = cd; for (int k : f) if (k >= 0) v = std::min(v, k); if (lo >= rd - 1) v = c.F.n - 1; potential(w, U, monos(c, rd), disk::make_scalar_hho_laplacian(m, cl, disk::CellDegreeInfo<M>(cd, rd, 1, di)), MX(MX::Identity(D, D)), plain, v, std::min(v, rd), tol); } });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }); return mc::finish();
}
