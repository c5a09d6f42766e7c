// Static condensation: the eliminated system, the recovery of the cell unknowns, and the full system agree.
// MC: libs=jburkardt triangle
#include "hhorec.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
#include <complex>
using cplx = std::complex<double>;
template<typename T> using DM = Eigen::Matrix<T, -1, -1>;
template<typename T> using DV = Eigen::Matrix<T, -1, 1>;
struct sized { size_t n; size_t size() const { return n; } };
template<typename A, typename B> bool same(const A& a, const B& b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && a.allFinite() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff())); }
template<typename T> struct blocks { DM<T> TT, TF, FT, FF; blocks(const DM<T>& K, int t) { int f = K.rows() - t; TT = K.topLeftCorner(t, t); TF = K.topRightCorner(t, f); FT = K.bottomLeftCorner(f, t); FF = K.bottomRightCorner(f, f); } };
// the definition of the eliminated system and of the recovery
template<typename T> void eliminated(const std::string& w, const DM<T>& K, const DV<T>& bT, const DV<T>& bF, int t, const DM<T>& AC, const DV<T>& bC, double tol) { blocks<T> k(K, t); Eigen::FullPivLU<DM<T>> lu(k.TT); mc::check(same(AC, DM<T>(k.FF - k.FT * lu.solve(k.TF)), tol), "matrix", w); mc::check(same(bC, DV<T>(bF - k.FT * lu.solve(bT)), tol), "rhs", w); mc::trace(); mc::trans(AC.size() + bC.size()); }
template<typename T> void recovered(const std::string& w, const DM<T>& K, const DV<T>& bT, const DV<T>& xF, int t, const DV<T>& x, double tol) { blocks<T> k(K, t); Eigen::FullPivLU<DM<T>> lu(k.TT); if (!mc::check(x.size() == K.rows(), "size", w)) return; mc::check(x.tail(xF.size()) == xF, "face-part", w); mc::check(same(DV<T>(x.head(t)), DV<T>(lu.solve(bT - k.TF * xF)), tol), "cell-part", w); mc::trans(1); }
template<typename T> void whole(const std::string& w, const DM<T>& K, const DV<T>& b, int t, const DM<T>& AC, const DV<T>& bC, const std::function<DV<T>(const DV<T>&)>& rec, double tol) { if (K.rows() == t) return; Eigen::FullPivLU<DM<T>> lu(AC); if (!lu.isInvertible()) return; DV<T> xF = lu.solve(bC); DV<T> x = rec(xF); mc::check(x.size() == b.size() && (K * x - b).norm() <= tol * 100 * (b.norm() + K.norm() * x.norm()), "full-system", w); mc::trans(1); }
// a deterministic dense system: symmetric positive definite cell block, unrelated off-diagonal blocks
DM<double> dense(int t, int n) { DM<double> K(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) K(i, j) = double((i * i * 7 + j * 13 + i * j * 3 + (i > j ? 5 : 0)) % 11) - 5; for (int i = 0; i < t; i++) for (int j = 0; j < t; j++) K(i, j) = (i == j ? 3.0 + i % 2 : 0.0) + 1.0 / (1 + i + j); return K; }
using A3 = std::tuple<DM<double>, DV<double>>;
template<typename R> void with(const std::string& w, const R& r, const DM<double>& K, const DV<double>& b, int t) { int n = K.rows(); DV<double> bT = b.head(t), bF = b.size() == n ? DV<double>(b.tail(n - t)) : DV<double>(DV<double>::Zero(n - t)); eliminated<double>(w, K, bT, bF, t, std::get<0>(r).first, std::get<0>(r).second, 1e-10); blocks<double> k(K, t); mc::check(same(DM<double>(k.TT * std::get<1>(r)), k.TF, 1e-10), "AL", w); mc::check(same(DV<double>(k.TT * std::get<2>(r)), bT, 1e-10), "bL", w); }
template<typename M> void cellwise(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; size_t nf = faces(m, cl).size(); mc::state(w0);
    orders(th ? 3 : 2, [&](int cd, int fd) { for (int vec = 0; vec < (D > 1 ? 2 : 1); vec++) { size_t N = vec ? D : 1, t = N * disk::scalar_basis_size(cd, D), f = nf * N * disk::scalar_basis_size(fd, D - 1), n = t + f; if (n > 150) continue; disk::hho_degree_info h(cd, fd); std::string w = w0 + mc::str(vec ? " vector" : " scalar", " cell ", cd, " face ", fd); DM<double> K = dense(t, n); std::vector<DV<double>> bs; for (size_t i = 0; i < std::min<size_t>(n, 8); i++) bs.push_back(DV<double>::Unit(n, (i * 5) % n)); DV<double> lin(n); for (size_t i = 0; i < n; i++) lin(i) = 1 + double((i * 3) % 7); bs.push_back(lin); bs.push_back(lin.head(t));
            for (size_t k = 0; k < bs.size(); k++) { auto& b = bs[k]; std::string v = w + mc::str(" rhs ", k); bool fullrhs = b.size() == Eigen::Index(n); DV<double> bT = b.head(t), xF = DV<double>::Zero(f); for (size_t i = 0; i < f; i++) xF(i) = double((i * 3 + k) % 5) - 2;
                auto go = [&](auto r, auto r2, auto dec, auto decm) { with(v, r, K, b, t); mc::check(r2.first == std::get<0>(r).first && r2.second == std::get<0>(r).second, "overload", v); recovered<double>(v, K, bT, xF, t, dec(xF), 1e-10); recovered<double>(v + " with matrix", K, bT, xF, t, decm(xF), 1e-10); if (fullrhs) whole<double>(v, K, b, t, r2.first, r2.second, dec, 1e-10); };
                if (vec) { if constexpr (D > 1) { auto r = disk::make_vector_static_condensation_withMatrix(m, cl, h, K, b); go(r, disk::make_vector_static_condensation(m, cl, h, K, b), [&](const DV<double>& x) { return disk::make_vector_static_decondensation(m, cl, h, K, b, x); }, [&](const DV<double>& x) { return disk::make_vector_static_decondensation_withMatrix<double>(std::get<1>(r), std::get<2>(r), x); }); disk::MeshDegreeInfo<M> mi(m, cd, fd); with(v + " mesh info", disk::make_vector_static_condensation_withMatrix(m, cl, mi, K, b), K, b, t); if (fullrhs) with(v + " unchecked", disk::make_vector_static_condensation_withMatrix(m, cl, mi, K, b, false), K, b, t);
                        if (fullrhs && k == 0) { for (size_t extra : {1, 4}) { DM<double> K2 = dense(t, n + extra); DV<double> b2 = DV<double>::LinSpaced(n + extra, 1, 3); with(v + " unchecked larger", disk::make_vector_static_condensation_withMatrix(m, cl, mi, K2, b2, false), K2, b2, t); } } } }
                else { auto r = disk::make_scalar_static_condensation_withMatrix(m, cl, h, K, b); go(r, disk::make_scalar_static_condensation(m, cl, h, K, b), [&](const DV<double>& x) { return disk::make_scalar_static_decondensation(m, cl, h, K, b, x); }, [&](const DV<double>& x) { return disk::make_scalar_static_decondensation_withMatrix<double>(std::get<1>(r), std::get<2>(r), x); }); } }
            // right-hand sides of any other size are refused
            for (int d : {-1, 1}) { for (size_t base : {t, n}) { long s = long(base) + d; if (s < 0 || s == long(n) || s == long(t)) continue; DV<double> b = DV<double>::Ones(s); bool threw = false; try { if (vec) { if constexpr (D > 1) disk::make_vector_static_condensation(m, cl, h, K, b); } else disk::make_scalar_static_condensation(m, cl, h, K, b); } catch (const std::invalid_argument&) { threw = true; } mc::check(threw, "refuse-rhs", w + mc::str(" size ", s)); } } } });
    // faces of different degrees and without unknowns
    if constexpr (D > 1) if (cat && nf <= 4) patterns(nf, 1, [&](const std::vector<int>& p) { disk::MeshDegreeInfo<M> mi(m, 1, 1); auto fs = faces(m, cl); size_t f = 0; std::string w = w0 + " faces"; for (size_t i = 0; i < nf; i++) { mi.degreeInfo(m, fs[i], p[i] < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(p[i]))); w += mc::str(" ", p[i]); if (p[i] >= 0) f += D * disk::scalar_basis_size(p[i], D - 1); } size_t t = D * disk::scalar_basis_size(1, D); DM<double> K = dense(t, t + f); DV<double> b = DV<double>::LinSpaced(t + f, 1, 2); with(w, disk::make_vector_static_condensation_withMatrix(m, cl, mi, K, b), K, b, t); });
}
template<typename T> void generic(const std::string& w, const DM<T>& K, const DV<T>& b, int t, bool positive)
{
    int n = K.rows(); DV<T> bT = b.head(t), bF = b.tail(n - t), xF = DV<T>::Ones(n - t); for (int i = 0; i < n - t; i++) xF(i) = T(i + 1);
    auto [LC, bC] = disk::static_condensation<T>(K, b, t); eliminated<T>(w, K, bT, bF, t, LC, bC, 1e-11); DM<T> L2 = disk::static_condensation<T>(K, t); mc::check(same(L2, LC, 1e-12), "overload", w); auto dec = [&](const DV<T>& x) -> DV<T> { return disk::static_decondensation<T>(K, b, x); }; recovered<T>(w, K, bT, xF, t, dec(xF), 1e-11); whole<T>(w, K, b, t, LC, bC, dec, 1e-11); { DM<T> X(n - t, 2); X.col(0) = xF; X.col(1) = T(2) * xF; DM<T> R = disk::static_decondensation<T>(K, X); if (mc::check(R.cols() == 2, "size", w)) for (int c = 0; c < 2; c++) recovered<T>(w + " homogeneous", K, DV<T>::Zero(t), X.col(c), t, R.col(c), 1e-11); }
    if (positive) { auto [SC, sc] = disk::hho::schur<sized, T>(K, b, sized{size_t(t)}); eliminated<T>(w + " schur", K, bT, bF, t, SC, sc, 1e-11); recovered<T>(w + " deschur", K, bT, xF, t, disk::hho::deschur<sized, T>(K, b, xF, sized{size_t(t)}), 1e-11); auto r = disk::priv::static_condensation_impl<T>(K, b, t, n - t); eliminated<T>(w + " hho", K, bT, bF, t, std::get<0>(r).first, std::get<0>(r).second, 1e-11); recovered<T>(w + " hho", K, bT, xF, t, disk::priv::static_decondensation_impl<T>(K, b, xF, t, n - t), 1e-11); }
}
// the condensed matrix is affine in the face block and bilinear in the two coupling blocks: unit couplings decide them for a given cell block
template<typename T> void couplings(const std::string& w, const DM<T>& TT, bool positive) { int t = TT.rows(); for (int f = 0; f <= 2; f++) { int n = t + f; for (int a = 0; a < std::max(1, t * f); a++) for (int c = 0; c < std::max(1, t * f); c++) { DM<T> K = DM<T>::Zero(n, n); K.topLeftCorner(t, t) = TT; for (int i = 0; i < f; i++) for (int j = 0; j < f; j++) K(t + i, t + j) = T(i == j ? 3 : i + 2 * j); if (f) { K(a / f, t + a % f) = T(1); K(t + c % f, c / f) = T(1); } DV<T> b(n); for (int i = 0; i < n; i++) b(i) = T(i + 1); generic<T>(w + mc::str(" faces ", f, " couplings ", a, ",", c), K, b, t, positive); } } }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    shapes(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { cellwise(w, m, cl, cat, th); }, 14, 6);
    // all symmetric integer blocks with a positive definite or at least invertible cell block
    for (int t = 1; t <= 3; t++) mc::scenario(mc::str("real blocks:", t), [&]{ int e = t * (t + 1) / 2, base = t == 3 ? (th ? 4 : 3) : 5, tot = 1; for (int i = 0; i < e; i++) tot *= base; for (int k = 0; k < tot; k++) { DM<double> A(t, t); int z = k; for (int i = 0; i < t; i++) for (int j = 0; j <= i; j++) { int v = z % base; z /= base; A(i, j) = A(j, i) = i == j ? v : v - 1; } if (std::abs(A.determinant()) < 0.5) continue; Eigen::LLT<DM<double>> l(A); bool pos = l.info() == Eigen::Success; mc::state(mc::str("real ", t, " ", k)); couplings<double>(mc::str("cell block ", k), A, pos); } });
    // complex symmetric (not Hermitian) cell blocks: lossy media, impedance conditions
    for (int t = 1; t <= 2; t++) mc::scenario(mc::str("complex blocks:", t), [&]{ std::vector<cplx> v{{0, 0}, {1, 0}, {0, 1}, {2, -1}, {-1, 0}}; int e = t * (t + 1) / 2, tot = 1; for (int i = 0; i < e; i++) tot *= v.size(); for (int k = 0; k < tot; k++) { DM<cplx> A(t, t); int z = k; for (int i = 0; i < t; i++) for (int j = 0; j <= i; j++) { A(i, j) = A(j, i) = v[z % v.size()]; z /= v.size(); } if (std::abs(A.determinant()) < 0.5) continue; mc::state(mc::str("complex ", t, " ", k)); couplings<cplx>(mc::str("cell block ", k), A, false); } });
    return mc::finish();
}
