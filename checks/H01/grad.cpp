// Gradient reconstructions in vector-valued polynomials and in Raviart-Thomas spaces, with and without material tensor.
// MC: libs=jburkardt triangle
#include "hhorec.hpp"
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-9; int fmax = th ? (D == 3 ? 2 : 3) : D == 2 ? (cat ? 2 : 1) : cat && m.cells_size() < 20 ? 1 : 0; hcell<M> c(m, cl, fmax + 4); mc::state(w0); MX I = MX::Identity(D, D);
    auto field = [&](const KM& K) { return [K](const typename M::point_type&) { Eigen::Matrix<double, D, D> t = K; return t; }; };
    orders(fmax, [&](int cd, int fd) { std::vector<int> f(c.fs.size(), fd); dofs<M> U(c, cd, f);
        for (int gd = fd; gd <= fd + 1; gd++) { std::string w = w0 + mc::str(" cell ", cd, " face ", fd, " gradient ", gd); disk::hho_degree_info h(cd, fd, gd); auto gb = make_vector_monomial_basis(m, cl, gd); disk::MeshDegreeInfo<M> mi(m, cd, fd, gd);
            gradient(w, U, gb, disk::make_vector_hho_gradrec(m, cl, h), I, cd, fd, gd - 1, gd, tol); gradient(w + " by mesh info", U, gb, disk::make_vector_hho_gradrec(m, cl, mi), I, cd, fd, gd - 1, gd, tol); gradient(w + " by cell info", U, gb, disk::make_vector_hho_gradrec(m, cl, disk::CellDegreeInfo<M>(m, cl, cd, fd, gd)), I, cd, fd, gd - 1, gd, tol);
            for (auto& K : tensors<D>()) { std::string wk = w + mc::str(" K ", K(0, D - 1), " ", K(D - 1, D - 1)); gradient(wk, U, gb, disk::make_vector_hho_gradrec(m, cl, h, field(K)), K, cd, fd, gd - 1, gd, tol); gradient(wk + " by mesh info", U, gb, disk::make_vector_hho_gradrec(m, cl, mi, field(K)), K, cd, fd, gd - 1, gd, tol); }
            if (gd >= 1 && points(m, cl).size() == D + 1 && c.fs.size() == D + 1) { auto rt = make_vector_monomial_basis_RT(m, cl, gd); gradient(w + " RT", U, rt, disk::make_vector_hho_gradrec_RT(m, cl, h), I, cd, fd, gd - 1, gd - 1, tol); gradient(w + " RT by mesh info", U, rt, disk::make_vector_hho_gradrec_RT(m, cl, mi), I, cd, fd, gd - 1, gd - 1, tol);
                for (auto& K : tensors<D>()) { std::string wk = w + mc::str(" RT K ", K(0, D - 1), " ", K(D - 1, D - 1)); gradient(wk, U, rt, disk::make_vector_hho_gradrec_RT(m, cl, h, field(K)), K, cd, fd, gd - 1, gd - 1, tol); gradient(wk + " by mesh info", U, rt, disk::make_vector_hho_gradrec_RT(m, cl, mi, field(K)), K, cd, fd, gd - 1, gd - 1, tol); } } } });
    // faces of different degrees, and faces without unknowns
    if (cat && (c.fs.size() <= 5 || th)) patterns(c.fs.size(), c.fs.size() <= 4 ? 1 : 0, [&](const std::vector<int>& f) { for (int cd = 0; cd <= (D == 2 ? 2 : 1); cd++) for (int gd = 0; gd <= 2; gd++) { if (cd + 1 < gd) continue; std::vector<disk::DegreeInfo> di; std::string w = w0 + mc::str(" cell ", cd, " gradient ", gd, " faces"); int lo = 9; for (int k : f) { di.push_back(k < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(k))); w += mc::str(" ", k); if (k >= 0) lo = std::min(lo, k); } dofs<M> U(c, cd, f); gradient(w, U, make_vector_monomial_basis(m, cl, gd), disk::make_vector_hho_gradrec(m, cl, disk::CellDegreeInfo<M>(cd, 1, gd, di)), I, cd, lo, gd - 1, gd, tol); } });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes<false>(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }); return mc::finish();
}
