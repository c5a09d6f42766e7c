// The two assemblers of the Stokes problem: every set of Dirichlet faces, every order of the cells, full matrix with the
// pressure blocks and the zero-mean constraint.
// MC: libs=jburkardt triangle
#include "vecasm.hpp"
#include "hho.hpp"
using namespace mm;
template<typename M> struct flow {
    static constexpr int D = M::dimension; const M& m; int cd, fd, nA, nF, nB, Nc, N; std::vector<gface<M>> gf; std::vector<typename M::cell> cells; std::vector<std::vector<size_t>> cf; std::vector<size_t> bf; std::vector<MX> A, B; std::vector<VX> b, mean; std::vector<char> fixed; VX g;
    flow(const M& m_, int cd_, int fd_) : m(m_), cd(cd_), fd(fd_)
    {
        nA = disk::vector_basis_size(cd, D, D); nF = disk::vector_basis_size(fd, D - 1, D); nB = disk::scalar_basis_size(fd, D); Nc = m.cells_size(); size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) { gf.emplace_back(m, *it, fd, std::max(fd, 2) + 2); if (m.is_boundary(*it)) bf.push_back(i); } N = nA * Nc + nF * gf.size() + nB * Nc + 1;
        for (auto& cl : m) { size_t c = cells.size(); cells.push_back(cl); std::vector<size_t> v; for (auto& fc : faces(m, cl)) { size_t k = 0; for (auto it = m.faces_begin(); !(*it == fc); ++it) k++; v.push_back(k); } cf.push_back(v); int n = nA + nF * v.size(); MX K(n, n), Q(nB, n); VX r(n); for (int a = 0; a < n; a++) { r(a) = entry(c, a, 1000); for (int d = 0; d < n; d++) K(a, d) = entry(c, a, d); for (int d = 0; d < nB; d++) Q(d, a) = entry(c + 31, d, a); } A.push_back(K); B.push_back(Q); b.push_back(r);
            hcell<M> h(m, cl, fd + 1); MX C = h.coefs(make_scalar_monomial_basis(m, cl, size_t(fd))); VX one = VX::Zero(C.rows()); for (size_t j = 0; j < h.F.ex.size(); j++) { int s = 0; for (int x : h.F.ex[j]) s += x; if (!s) one(j) = 1; } mean.push_back(C.transpose() * h.G * one); }
    }
    std::vector<int> velocity(size_t c) const { std::vector<int> r; for (int i = 0; i < nA; i++) r.push_back(nA * c + i); for (size_t f : cf[c]) for (int i = 0; i < nF; i++) r.push_back(nA * Nc + nF * f + i); return r; }
    int pressure(size_t c, int i) const { return nA * Nc + nF * gf.size() + nB * c + i; }
    void fix(const std::vector<char>& d, int deg) { fixed.assign(N, 0); g = VX::Zero(N); for (size_t i = 0; i < d.size(); i++) if (d[i]) { size_t f = bf[i]; for (int a = 0; a < D; a++) { VX v = gf[f].proj([&](const auto& p) { return polyval(int(i) + 5 * a, deg, p); }); for (int q = 0; q < v.size(); q++) { int k = nA * Nc + nF * f + q * D + a; fixed[k] = 1; g(k) = v(q); } } } }
    int size() const { int n = 0; for (char c : fixed) n += !c; return n; }
};
// numbering of the unknowns from the recovery of velocities and pressures of a solution with distinct entries
template<typename M, typename AS> bool numbering(const flow<M>& C, const std::string& w, const AS& as, std::vector<int>& num, double tol)
{
    int n = C.size(); VX x(n); for (int i = 0; i < n; i++) x(i) = 100000.0 + i; num.assign(C.N, -1); std::vector<char> used(n, 0); bool ok = true;
    auto put = [&](int k, double v, const std::string& t) { if (C.fixed[k]) return mc::check(std::abs(v - C.g(k)) <= tol * (1 + C.g.cwiseAbs().maxCoeff()), "imposed-value", t + mc::str(": ", v, " not ", C.g(k))); int z = int(std::lround(v - 100000.0)); if (!mc::check(z >= 0 && z < n && v == 100000.0 + z, "free-value", t)) return false; if (num[k] >= 0) return mc::check(num[k] == z, "numbering", t); bool q = mc::check(!used[z], "shared-unknown", t); used[z] = 1; num[k] = z; return q; };
    for (size_t c = 0; c < C.cells.size(); c++) { VX v = as.take_velocity(C.m, C.cells[c], x), p = as.take_pressure(C.m, C.cells[c], x); auto l = C.velocity(c); if (!mc::check(v.size() == Eigen::Index(l.size()) && p.size() == C.nB, "local-size", w)) return false; for (size_t i = 0; i < l.size(); i++) ok &= put(l[i], v(i), w + mc::str(" velocity ", c, " ", i)); for (int i = 0; i < C.nB; i++) ok &= put(C.pressure(c, i), p(i), w + mc::str(" pressure ", c, " ", i)); }
    int left = 0; for (int i = 0; i < n; i++) if (!used[i]) { left++; num[C.N - 1] = i; } return mc::check(left == 1, "multiplier", w + mc::str(" ", left)) && ok;
}
// whole: the right-hand side has entries on the faces as well
template<typename M> void verify(const flow<M>& C, const std::string& w, const MX& L, const VX& R, const std::vector<int>& num, bool whole, double tol)
{
    int n = C.size(); if (!mc::check(L.rows() == n && L.cols() == n && R.size() == n && L.allFinite() && R.allFinite(), "system-size", w)) return; MX A = MX::Zero(C.N, C.N); VX r = VX::Zero(C.N);
    for (size_t c = 0; c < C.cells.size(); c++) { auto l = C.velocity(c); for (size_t i = 0; i < l.size(); i++) { if (whole || int(i) < C.nA) r(l[i]) += C.b[c](i); for (size_t j = 0; j < l.size(); j++) A(l[i], l[j]) += C.A[c](i, j); for (int k = 0; k < C.nB; k++) { A(C.pressure(c, k), l[i]) += C.B[c](k, i); A(l[i], C.pressure(c, k)) += C.B[c](k, i); } } for (int k = 0; k < C.nB; k++) { A(C.pressure(c, k), C.N - 1) += C.mean[c](k); A(C.N - 1, C.pressure(c, k)) += C.mean[c](k); } }
    VX t = r - A * C.g; double s = 1 + A.cwiseAbs().maxCoeff(), e = 0, q = 0; for (int i = 0; i < C.N; i++) if (!C.fixed[i]) { q = std::max(q, std::abs(t(i) - R(num[i]))); for (int j = 0; j < C.N; j++) if (!C.fixed[j]) e = std::max(e, std::abs(A(i, j) - L(num[i], num[j]))); } mc::check(e <= tol * s, "matrix", w + mc::str(" ", e)); mc::check(q <= tol * s * (1 + C.g.cwiseAbs().maxCoeff()), "rhs", w + mc::str(" ", q)); mc::trace(); mc::trans(size_t(n) * n);
}
template<typename M> void run(const std::string& nm, const M& m, int cd, int fd, bool th)
{
    flow<M> C(m, cd, fd); double tol = 1e-10; disk::hho_degree_info h(cd, fd); size_t nb = C.bf.size(), tot = nb < 16 ? size_t(1) << nb : size_t(1) << 16, cap = th ? 4096 : 64, step = tot > cap ? (tot / cap) | 1 : 1; std::vector<size_t> sel; for (size_t s = 0; s < tot; s += step) sel.push_back(s); if (sel.back() != tot - 1) sel.push_back(tot - 1);
    for (size_t s : sel) { std::vector<char> d(nb); std::string w = nm + mc::str(" degrees ", cd, " ", fd, " fixed "); disk::vector_boundary_conditions<M> bnd(m); int deg = s % 3 ? 2 : fd + 2 > 2 ? 2 : 1; for (size_t i = 0; i < nb; i++) { d[i] = s >> i & 1; w += d[i] ? '1' : '0'; if (d[i]) bnd.addDirichletBC(disk::DIRICHLET, 100 + C.bf[i], vector_fun<M>(i, deg)); } C.fix(d, deg); mc::state(w);
        std::vector<size_t> ord(C.cells.size()); std::iota(ord.begin(), ord.end(), 0); bool all_orders = s % 8 == 0 && ord.size() <= 4;
        { auto as = disk::make_stokes_assembler(m, h, bnd); std::vector<int> num; mc::check(as.global_system_size() == size_t(C.size()) && as.num_assembled_faces() == C.gf.size() - std::count(d.begin(), d.end(), 1), "unknown-count", w); if (numbering(C, w, as, num, tol)) { for (size_t f = 0; f < C.gf.size(); f++) { int k = C.nA * C.Nc + C.nF * f; if (!C.fixed[k]) mc::check(int(as.global_face_offset(m, C.gf[f].fc)) == num[k] && int(std::as_const(as).global_face_offset(m, C.gf[f].fc)) == num[k], "face-offset", w); }
            do { for (int alg = 0; alg < 2; alg++) { as.initialize(); for (size_t c : ord) if (alg) as.assemble_alg(m, C.cells[c], C.A[c], C.B[c], C.b[c]); else as.assemble(m, C.cells[c], C.A[c], C.B[c], C.b[c]); as.finalize(); verify(C, w + (alg ? " with face loads" : ""), MX(as.LHS), as.RHS, num, alg, tol); } } while (all_orders && std::next_permutation(ord.begin(), ord.end())); } }
        { auto as = disk::make_stokes_assembler_alg(m, h, bnd); std::vector<int> num; mc::check(as.global_system_size() == size_t(C.size()), "unknown-count", w + " split"); if (numbering(C, w + " split", as, num, tol)) { as.initialize_lhs(); for (size_t c : ord) as.assemble_lhs(m, C.cells[c], C.A[c], C.B[c]); as.finalize_lhs();
            // several right-hand sides for one matrix, then a new matrix
            auto b0 = C.b; for (int it = 0; it < 3; it++) { if (it == 2) { as.initialize_lhs(); for (size_t c = ord.size(); c-- > 0;) as.assemble_lhs(m, C.cells[c], C.A[c], C.B[c]); as.finalize_lhs(); } for (auto& r : C.b) r *= 1 + it; as.initialize_rhs(); for (size_t c : ord) as.assemble_rhs(m, C.cells[c], C.b[c]); as.finalize_rhs(); verify(C, w + mc::str(" split, load ", it), MX(as.LHS), as.RHS, num, true, tol); } C.b = b0; } } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    for (int fd = 0; fd <= (th ? 2 : 1); fd++) for (int cd = std::max(0, fd - 1); cd <= fd + 1; cd++) small_meshes<false>([&](const std::string& nm, auto& m) { mc::scenario(nm + mc::str(":", cd, ":", fd), [&]{ run(nm, m, cd, fd, th); }); });
    return mc::finish();
}
