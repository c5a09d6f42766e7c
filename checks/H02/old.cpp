// Every scalar stabilization, every way to ask for it, both scalings.
// MC: libs=jburkardt triangle
#include "hhostab.hpp"
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-8; int fmax = th ? (D == 3 ? 2 : 3) : D == 1 ? 3 : D == 2 ? (cat ? 2 : 1) : cat && m.cells_size() < 20 ? 2 : 1; hcell<M> c(m, cl, fmax + 4); mc::state(w0); double lo = 1e-3;
    auto mon = [&](size_t k) { return c.coefs(make_scalar_monomial_basis(m, cl, k)); }; const char* nm[2] = {" by face", " by cell"};
    orders(fmax, [&](int cd, int fd) { std::string w = w0 + mc::str(" cell ", cd, " face ", fd); disk::hho_degree_info h(cd, fd); dofs<M> U(c, cd, std::vector<int>(c.fs.size(), fd)); disk::CellDegreeInfo<M> ci(m, cl, cd, fd); disk::MeshDegreeInfo<M> mi(m, cd, fd);
        auto RA = disk::make_scalar_hho_laplacian(m, cl, h); disk::dynamic_matrix<double> R = RA.first, A = RA.second; MX W = mon(fd + 1), P = W.rightCols(W.cols() - 1) * R; int low = std::min(cd, fd);
        MX Df = disk::make_scalar_hho_difference(m, cl, h); int dd = std::max(cd, fd); { std::vector<MX> B; int r = 0; bool ok = true; double e = 0; for (size_t i = 0; i < c.fs.size(); i++) { auto& f = c.fs[i]; MX b = c.fcoefs(f, make_scalar_monomial_basis(m, f.fc, dd)); if (Df.cols() != U.n || r + b.cols() > Df.rows()) { ok = false; break; } MX z = b * Df.middleRows(r, b.cols()) - (U.facepart(i) - f.T * U.cellpart()); for (int j = 0; j < U.n; j++) if (U.s(j) > 0) e = std::max(e, gnorm(z.col(j), f.G)(0) / std::sqrt(c.h) / U.s(j)); r += b.cols(); } mc::check(ok && r == Df.rows(), "difference-size", w + mc::str(" ", Df.rows(), "x", Df.cols())); mc::check(e < tol, "difference", w + mc::str(" error ", e)); if (!ok || r != Df.rows()) return; }
        for (int k = 0; k < 2; k++) { scaling s = scaling(k); bool hF = s == by_face; auto wt = weights(c, s); std::string ws = w + nm[k]; MX X = hho_form(U, P, wt), H = hdg_form(U, wt, true), G = hdg_form(U, wt, false);
            stab(ws + " hho cell info", U, disk::make_scalar_hho_stabilization(m, cl, R, ci, hF), X, wt, fd + 1, tol); stab(ws + " hho mesh info", U, disk::make_scalar_hho_stabilization(m, cl, R, mi, hF), X, wt, fd + 1, tol); stab(ws + " hho degree info", U, disk::make_scalar_hho_stabilization(m, cl, R, h, hF), X, wt, fd + 1, tol);
            stab(ws + " hdg cell info", U, disk::make_scalar_hdg_stabilization(m, cl, ci, hF), H, wt, cd, tol); stab(ws + " hdg mesh info", U, disk::make_scalar_hdg_stabilization(m, cl, mi, hF), H, wt, cd, tol); stab(ws + " hdg degree info", U, disk::make_scalar_hdg_stabilization(m, cl, h, hF), H, wt, cd, tol);
            stab(ws + " dg cell info", U, disk::make_scalar_dg_stabilization(m, cl, ci, hF), G, wt, low, tol); stab(ws + " dg mesh info", U, disk::make_scalar_dg_stabilization(m, cl, mi, hF), G, wt, low, tol); stab(ws + " dg degree info", U, disk::make_scalar_dg_stabilization(m, cl, h, hF), G, wt, low, tol);
            // the same forms on the differences u_F - u_T
            stab(ws + " hdg from differences", U, Df.transpose() * MX(disk::make_scalar_hdg_stabilization_diff(m, cl, h, hF)) * Df, H, wt, cd, tol * 10); stab(ws + " hdg from differences, cell info", U, Df.transpose() * MX(disk::make_scalar_hdg_stabilization_diff(m, cl, ci, hF)) * Df, H, wt, cd, tol * 10); stab(ws + " dg from differences", U, Df.transpose() * MX(disk::make_scalar_dg_stabilization_diff(m, cl, ci, hF)) * Df, G, wt, low, tol * 10);
            // fluxes: (1/h)(flux, v_F - v_T) reproduces the form
            auto flux = [&](const MX& fl, const MX& form, const std::string& q, int deg) { MX L = MX::Zero(U.n, U.n); int r = 0; for (size_t i = 0; i < c.fs.size(); i++) { auto& f = c.fs[i]; MX b = c.fcoefs(f, make_scalar_monomial_basis(m, f.fc, deg)); if (fl.cols() != U.n || r + b.cols() > fl.rows()) { mc::fail("flux-size", ws + q); return; } MX z = U.facepart(i) - f.T * U.cellpart(); L += wt[i] * z.transpose() * f.G * b * fl.middleRows(r, b.cols()); r += b.cols(); } double mx = 0; for (double x : wt) mx = std::max(mx, x * c.h); double e = rel(L, form, U.s * mx, U.s); mc::check(e < tol * 10, "flux", ws + q + mc::str(" error ", e)); };
            flux(disk::make_scalar_hho_stabilization_fluxes(m, cl, R, h, hF), X, " hho", fd); flux(disk::make_scalar_hho_stabilization_fluxes(m, cl, R, ci, hF), X, " hho cell info", fd); flux(disk::make_scalar_dg_stabilization_fluxes(m, cl, h, hF), G, " dg", dd); flux(disk::make_scalar_dg_stabilization_fluxes(m, cl, ci, hF), G, " dg cell info", dd);
            coercive(ws + " hho", U, A + X, lo); if (cd > fd) coercive(ws + " hdg", U, A + H, lo); }
        { auto wt = weights(c, by_cell); stab(w + " hho by default", U, disk::make_scalar_hho_stabilization(m, cl, R, h), hho_form(U, P, wt), wt, fd + 1, tol); auto wf = weights(c, by_face); stab(w + " hdg by default", U, disk::make_scalar_hdg_stabilization(m, cl, h), hdg_form(U, wf, true), wf, cd, tol); }
        if constexpr (D > 1) for (auto& K : tensors<D>()) { std::string wk = w + mc::str(" K ", K(0, D - 1), " ", K(D - 1, D - 1)); disk::static_matrix<double, D, D> t = K; auto wt = weights(c, K); disk::dynamic_matrix<double> Rk = disk::make_scalar_hho_laplacian(m, cl, h, disk::diffusion_tensor<M>(t)).first; MX Pk = W.rightCols(W.cols() - 1) * Rk; stab(wk + " hho", U, disk::make_scalar_hho_stabilization2(m, cl, Rk, h, t), hho_form(U, Pk, wt), wt, fd + 1, tol); stab(wk + " hdg", U, disk::make_scalar_hdg_stabilization2(m, cl, h, t), hdg_form(U, wt, true), wt, cd, tol); }
        // with the harmonic reconstruction
        if constexpr (D > 1) if (fd <= 1) { disk::hho_degree_info hh(cd, fd); hh.reconstruction_degree(cd + 3); if (cd + 3 <= c.F.n) { auto hb = make_scalar_harmonic_top_basis(m, cl, cd + 3); hb.maximum_polynomial_degree(cd + 2); disk::dynamic_matrix<double> Rh = disk::make_shl_harmonic(m, cl, hh).first; MX Wh = c.coefs(hb), Ph = Wh.rightCols(Wh.cols() - 1) * Rh; auto wt = weights(c, by_cell); stab(w + " hho, harmonic reconstruction", U, disk::make_scalar_hho_stabilization(m, cl, hb, Rh, hh), hho_form(U, Ph, wt), wt, low, tol); } } });
    // faces of different degrees, and faces without unknowns
    if (cat && D > 1 && (c.fs.size() <= 5 || th)) patterns(c.fs.size(), c.fs.size() <= 4 ? 1 : 0, [&](const std::vector<int>& f) { for (int cd = 0; cd <= (D == 2 ? 2 : 1); cd++) for (int rd = std::max(1, cd); rd <= 2; rd++) { std::vector<disk::DegreeInfo> di; std::string w = w0 + mc::str(" cell ", cd, " reconstruction ", rd, " faces"); int lo = cd; bool act = false; for (int k : f) { di.push_back(k < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(k))); w += mc::str(" ", k); if (k >= 0) lo = std::min(lo, k), act = true; } dofs<M> U(c, cd, f); if (U.s.minCoeff() <= 0) U.s = U.s.cwiseMax(1e-3); disk::CellDegreeInfo<M> ci(cd, rd, 1, di); disk::dynamic_matrix<double> R = disk::make_scalar_hho_laplacian(m, cl, ci).first; MX W = mon(rd), P = W.rightCols(W.cols() - 1) * R;
        for (int k = 0; k < 2; k++) { scaling s = scaling(k); auto wt = weights(c, s); std::string ws = w + nm[k]; stab(ws + " hho", U, disk::make_scalar_hho_stabilization(m, cl, R, ci, s == by_face), hho_form(U, P, wt), wt, std::min(lo, rd), tol); stab(ws + " hdg", U, disk::make_scalar_hdg_stabilization(m, cl, ci, s == by_face), hdg_form(U, wt, true), wt, cd, tol); stab(ws + " dg", U, disk::make_scalar_dg_stabilization(m, cl, ci, s == by_face), hdg_form(U, wt, false), wt, lo, tol); } } });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }, 14, 6); return mc::finish();
}
