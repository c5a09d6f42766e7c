// Vector-valued stabilizations, and the kernel of energy plus stabilization.
// MC: libs=jburkardt triangle
#include "hhovec.hpp"
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-8; int fmax = th ? (D == 3 ? 2 : 3) : D == 2 ? (cat ? 2 : 1) : cat && m.cells_size() < 20 ? 1 : 0; hcell<M> c(m, cl, fmax + 3); mc::state(w0); size_t nf = c.fs.size();
    orders(fmax, [&](int cd, int fd) { vdofs<M> U(c, cd, std::vector<int>(nf, fd)); std::string w = w0 + mc::str(" cell ", cd, " face ", fd); disk::hho_degree_info h(cd, fd); disk::MeshDegreeInfo<M> mi(m, cd, fd, fd + 1); VM W; for (auto& x : c.vcoefs(make_vector_monomial_basis(m, cl, fd + 1))) W.push_back(x.rightCols(x.cols() - D));
        auto L = disk::make_vector_hho_laplacian(m, cl, h), S = disk::make_vector_hho_symmetric_laplacian(m, cl, h); auto sc = disk::make_scalar_hho_laplacian(m, cl, h); MX R = L.first, Q = S.first, A = L.second, B = S.second;
        for (bool hF : {true, false}) { auto wt = weights(c, hF ? by_face : by_cell); std::string v = w + (hF ? " by face" : " by cell"); MX X = vhho_form(U, W * R, wt), Y = vhho_form(U, W * Q, wt);
            vstab(v, U, disk::make_vector_hho_stabilization(m, cl, L.first, h, hF), X, wt, fd + 1, tol); vstab(v + " mesh info", U, disk::make_vector_hho_stabilization(m, cl, L.first, mi, hF), X, wt, fd + 1, tol); vstab(v + " cell info", U, disk::make_vector_hho_stabilization(m, cl, L.first, mi.cellDegreeInfo(m, cl), hF), X, wt, fd + 1, tol); vstab(v + " optim", U, disk::make_vector_hho_stabilization_optim(m, cl, sc.first, h, hF), X, wt, fd + 1, tol); vstab(v + " optim mesh info", U, disk::make_vector_hho_stabilization_optim(m, cl, sc.first, mi, hF), X, wt, fd + 1, tol);
            vstab(v + " symmetric", U, disk::make_vector_hho_stabilization(m, cl, S.first, h, hF), Y, wt, cd ? fd + 1 : 0, tol); vstab(v + " symmetric mesh info", U, disk::make_vector_hho_stabilization(m, cl, S.first, mi, hF), Y, wt, cd ? fd + 1 : 0, tol);
            vkernel(v, U, A + X, false, 1e-6); if (fd >= 1 && cd >= 1) vkernel(v + " symmetric", U, B + Y, true, 1e-7);
            MX H = vhdg_form(U, wt, true), G = vhdg_form(U, wt, false); vstab(v + " hdg", U, disk::make_vector_hdg_stabilization(m, cl, h, hF), H, wt, cd, tol); vstab(v + " hdg mesh info", U, disk::make_vector_hdg_stabilization(m, cl, mi, hF), H, wt, cd, tol); vstab(v + " dg", U, disk::make_vector_dg_stabilization(m, cl, h, hF), G, wt, std::min(cd, fd), tol); vstab(v + " dg mesh info", U, disk::make_vector_dg_stabilization(m, cl, mi, hF), G, wt, std::min(cd, fd), tol); } 
        auto wf = weights(c, by_face); vstab(w + " default", U, disk::make_vector_hho_stabilization(m, cl, L.first, h), vhho_form(U, W * R, wf), wf, fd + 1, tol); vstab(w + " default optim", U, disk::make_vector_hho_stabilization_optim(m, cl, sc.first, h), vhho_form(U, W * R, wf), wf, fd + 1, tol); vstab(w + " default hdg", U, disk::make_vector_hdg_stabilization(m, cl, h), vhdg_form(U, wf, true), wf, cd, tol); vstab(w + " default dg", U, disk::make_vector_dg_stabilization(m, cl, h), vhdg_form(U, wf, false), wf, std::min(cd, fd), tol); });
    // faces of different degrees, and faces without unknowns
    if (cat && (nf <= 5 || th)) patterns(nf, nf <= 4 ? 1 : 0, [&](const std::vector<int>& f) { int cd = 1; std::vector<disk::DegreeInfo> di; std::string w = w0 + " faces"; int lo = 9; for (int k : f) { di.push_back(k < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(k))); w += mc::str(" ", k); if (k >= 0) lo = std::min(lo, k); } vdofs<M> U(c, cd, f); disk::CellDegreeInfo<M> ci(cd, 2, 1, di); auto S = disk::make_vector_hho_symmetric_laplacian(m, cl, ci); VM W; for (auto& x : c.vcoefs(make_vector_monomial_basis(m, cl, 2))) W.push_back(x.rightCols(x.cols() - D)); auto wt = weights(c, by_face); MX Q = S.first; if (!shape(w, Q, W[0].cols(), U.n)) return; vstab(w, U, disk::make_vector_hho_stabilization(m, cl, S.first, ci), vhho_form(U, W * Q, wt), wt, std::min(1, lo == 9 ? 0 : lo), tol); });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes<false>(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }, 14, 6); return mc::finish();
}
