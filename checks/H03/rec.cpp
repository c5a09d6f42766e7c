// Vector-valued potential, gradient, strain and divergence reconstructions, interpolation of vector fields.
// MC: libs=jburkardt triangle
#include "hhovec.hpp"
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-9; int fmax = th ? (D == 3 ? 2 : 3) : D == 2 ? (cat ? 2 : 1) : cat && m.cells_size() < 20 ? 1 : 0; hcell<M> c(m, cl, fmax + 3); mc::state(w0); size_t nf = c.fs.size();
    bool simplex = points(m, cl).size() == D + 1 && nf == D + 1;
    orders(fmax, [&](int cd, int fd) { vdofs<M> U(c, cd, std::vector<int>(nf, fd)); { disk::hho_degree_info h(cd, fd); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd + 1); std::string w = w0 + mc::str(" cell ", cd, " face ", fd); auto W = c.vcoefs(make_vector_monomial_basis(m, cl, fd + 1));
            vpotential(w + " laplacian", U, W, disk::make_vector_hho_laplacian(m, cl, h), false, cd, fd, fd + 1, tol); auto sc = disk::make_scalar_hho_laplacian(m, cl, h); vpotential(w + " laplacian of scalar", U, W, disk::make_vector_hho_laplacian(m, cl, h, sc), false, cd, fd, fd + 1, tol); vpotential(w + " stokes", U, W, disk::make_hho_stokes(m, cl, h, false), false, cd, fd, fd + 1, tol); vpotential(w + " laplacian by mesh info", U, W, disk::make_vector_hho_laplacian(m, cl, mi), false, cd, fd, fd + 1, tol); vpotential(w + " laplacian of scalar by mesh info", U, W, disk::make_vector_hho_laplacian(m, cl, mi, sc), false, cd, fd, fd + 1, tol);
            vpotential(w + " symmetric", U, W, disk::make_vector_hho_symmetric_laplacian(m, cl, h), true, cd, fd, fd + 1, tol); vpotential(w + " symmetric by mesh info", U, W, disk::make_vector_hho_symmetric_laplacian(m, cl, mi), true, cd, fd, fd + 1, tol); vpotential(w + " symmetric by cell info", U, W, disk::make_vector_hho_symmetric_laplacian(m, cl, disk::CellDegreeInfo<M>(m, cl, cd, fd)), true, cd, fd, fd + 1, tol); vpotential(w + " symmetric stokes", U, W, disk::make_hho_stokes(m, cl, h, true), true, cd, fd, fd + 1, tol);
            { MX q = c.coefs(make_scalar_monomial_basis(m, cl, fd)); VM T(D * D, MX::Zero(q.rows(), q.cols())); for (int a = 0; a < D; a++) T[a * D + a] = q; auto dr = disk::make_hho_divergence_reconstruction(m, cl, h); MX R = dr.first, A = dr.second; if (shape(w + " divergence", R, q.cols(), U.n) && shape(w + " divergence", A, U.n, U.n)) { VM g = T * R; for (auto& x : g) x /= D; vdefinition(w + " divergence", U, T, g, false, cd, fd, fd - 1, fd, tol); MX d = q * R; same("energy", w + " divergence", A, d.transpose() * c.G * d, U.s, U.s, tol); MX b = disk::make_hho_divergence_reconstruction_rhs(m, cl, h); if (shape(w + " divergence rhs", b, q.cols(), U.n)) same("divergence-rhs", w, b, vrhs(U, T), vnorm(T, c.G), U.s, tol); } }
            for (size_t j = 0; j < c.F.ex.size(); j++) for (int a = 0; a < D; a++) { VM f = U.mono(j, a); auto u = [&](const typename M::point_type& p) { Eigen::Matrix<double, D, 1> r = Eigen::Matrix<double, D, 1>::Zero(); r(a) = c.mono(j, p); return r; }; int di = (c.F.deg(j) + 1) / 2; vinterpolant(w, U, disk::project_function(m, cl, h, disk::vector_rhs_function<M>(u), di), f); vinterpolant(w + " by mesh info", U, disk::project_function(m, cl, mi, disk::vector_rhs_function<M>(u), di), f); } }
        for (int gd = fd; gd <= fd + 1; gd++) { std::string w = w0 + mc::str(" cell ", cd, " face ", fd, " gradient ", gd); disk::hho_degree_info h(cd, fd, gd); disk::MeshDegreeInfo<M> mi(m, cd, fd, gd); auto T = c.vcoefs(make_matrix_monomial_basis(m, cl, gd), D * D), S = c.vcoefs(make_sym_matrix_monomial_basis(m, cl, gd), D * D);
            auto full = disk::make_matrix_hho_gradrec(m, cl, h); vgradient(w + " full", U, T, full, false, cd, fd, gd - 1, gd, tol); vgradient(w + " full hlow", U, T, disk::make_hlow_stokes(m, cl, h, false), false, cd, fd, gd - 1, gd, tol); vgradient(w + " full by mesh info", U, T, disk::make_matrix_hho_gradrec(m, cl, mi), false, cd, fd, gd - 1, gd, tol);
            vgradient(w + " strain", U, S, disk::make_matrix_hho_symmetric_gradrec(m, cl, h), true, cd, fd, gd - 1, gd, tol); vgradient(w + " strain hlow", U, S, disk::make_hlow_stokes(m, cl, h, true), true, cd, fd, gd - 1, gd, tol); vgradient(w + " strain by mesh info", U, S, disk::make_matrix_hho_symmetric_gradrec(m, cl, mi), true, cd, fd, gd - 1, gd, tol); vgradient(w + " strain by cell info", U, S, disk::make_matrix_hho_symmetric_gradrec(m, cl, disk::CellDegreeInfo<M>(m, cl, cd, fd, gd)), true, cd, fd, gd - 1, gd, tol);
            { auto sg = disk::make_matrix_hho_symmetric_gradrec(m, cl, h, full.first); MX A = sg.second; std::string ws = w + " strain of the gradient"; if (shape(ws, A, U.n, U.n)) { VM g = symm<D>(T * MX(full.first)); same("energy", ws, A, c.ip(g, g), U.s, U.s, tol); } mc::check(MX(sg.first) == MX(full.first), "operator", ws); }
            if (gd >= 1 && simplex) { auto R = c.vcoefs(make_sym_matrix_monomial_basis_RT(m, cl, gd), D * D); vgradient(w + " strain RT", U, R, disk::make_matrix_hho_symmetric_gradrec_RT(m, cl, h), true, cd, fd, gd, gd, tol); } } });
    // faces of different degrees, and faces without unknowns
    if (cat && (nf <= 5 || th)) patterns(nf, nf <= 4 ? 1 : 0, [&](const std::vector<int>& f) { for (int cd = 0; cd <= (D == 2 ? 2 : 1); cd++) for (int gd = 0; gd <= 2; gd++) { if (cd + 1 < gd || (D == 3 && gd > 1)) continue; std::vector<disk::DegreeInfo> di; std::string w = w0 + mc::str(" cell ", cd, " gradient ", gd, " faces"); int lo = 9; for (int k : f) { di.push_back(k < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(k))); w += mc::str(" ", k); if (k >= 0) lo = std::min(lo, k); } vdofs<M> U(c, cd, f); disk::CellDegreeInfo<M> ci(cd, std::max(1, gd), gd, di); vgradient(w, U, c.vcoefs(make_sym_matrix_monomial_basis(m, cl, gd), D * D), disk::make_matrix_hho_symmetric_gradrec(m, cl, ci), true, cd, lo, gd - 1, gd, tol); } });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes<false>(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }, 14, 6); return mc::finish();
}
