// Vector-valued local spaces: reconstructions and stabilizations against the variational definition with exact integrals.
#pragma once
#include "hhostab.hpp"
namespace mm {
using VM = std::vector<MX>; // components of a set of vector (or row-major tensor) fields
inline VM operator*(const VM& A, const MX& X) { VM r; for (auto& a : A) r.push_back(a * X); return r; }
inline VM plus(const VM& A, const VM& B, double s = 1) { VM r; for (size_t i = 0; i < A.size(); i++) r.push_back(A[i] + s * B[i]); return r; }
inline VM trace(const MX& T, const VM& A) { VM r; for (auto& a : A) r.push_back(T * a); return r; }
template<typename M> VM vgrad(const hcell<M>& c, const VM& A) { VM r; for (auto& a : A) for (auto& g : c.grad(a)) r.push_back(g); return r; }
template<int D> VM symm(const VM& A) { VM r; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) r.push_back((A[i * D + j] + A[j * D + i]) / 2); return r; }
template<int D> VM dotn(const VM& A, const VX& n) { VM r; for (int i = 0; i < D; i++) { MX x = n(0) * A[i * D]; for (int j = 1; j < D; j++) x += n(j) * A[i * D + j]; r.push_back(x); } return r; }
inline VX vnorm(const VM& A, const MX& G) { VX q = VX::Zero(A[0].cols()); for (auto& a : A) q += gnorm(a, G).cwiseAbs2(); return q.cwiseSqrt(); }
inline MX vip(const VM& A, const MX& G, const VM& B) { MX R = A[0].transpose() * G * B[0]; for (size_t c = 1; c < A.size(); c++) R += A[c].transpose() * G * B[c]; return R; }
inline MX vl2(const VM& B, const MX& G, const VM& f) { MX X = vip(B, G, B); VX d = X.diagonal().cwiseSqrt().cwiseMax(1e-300).cwiseInverse(); MX Y = d.asDiagonal() * X * d.asDiagonal(); return d.asDiagonal() * Y.ldlt().solve(d.asDiagonal() * vip(B, G, f)); }
template<typename M> struct vdofs { const hcell<M>& c; VM C; std::vector<VM> B; std::vector<int> off; int n = 0; VX s; static constexpr int D = M::dimension;
    vdofs(const hcell<M>& c_, size_t cd, const std::vector<int>& fd) : vdofs(c_, cd, fd, [&](const auto& s, size_t k) { return c_.vfcoefs(s, make_vector_monomial_basis(c_.m, s.fc, k)); }) {}
    template<typename FB> vdofs(const hcell<M>& c_, size_t cd, const std::vector<int>& fd, FB fb) : c(c_)
    {
        C = c.vcoefs(make_vector_monomial_basis(c.m, c.cl, cd)); n = C[0].cols();
        for (size_t i = 0; i < c.fs.size(); i++) { off.push_back(n); if (fd[i] < 0) { B.push_back(VM()); continue; } B.push_back(fb(c.fs[i], size_t(fd[i]))); n += B.back()[0].cols(); }
        s = VX::Zero(n); VX q = vnorm(vgrad(c, C), c.G).cwiseAbs2(); for (auto& f : c.fs) q += vnorm(trace(f.T, C), f.G).cwiseAbs2() / c.h; s.head(C[0].cols()) = q.cwiseSqrt(); for (size_t i = 0; i < B.size(); i++) if (active(i)) s.segment(off[i], B[i][0].cols()) = vnorm(B[i], c.fs[i].G) / std::sqrt(c.h);
    }
    bool active(size_t i) const { return B[i].size() > 0; }
    VM cellpart() const { VM R; for (auto& x : C) { MX r = MX::Zero(x.rows(), n); r.leftCols(x.cols()) = x; R.push_back(r); } return R; }
    VM facepart(size_t i) const { VM R; for (int a = 0; a < D; a++) { MX r = MX::Zero(c.fs[i].G.rows(), n); if (active(i)) r.middleCols(off[i], B[i][a].cols()) = B[i][a]; R.push_back(r); } return R; }
    VX interpolate(const VM& f) const { VX v(n); v.head(C[0].cols()) = vl2(C, c.G, f); for (size_t i = 0; i < B.size(); i++) if (active(i)) v.segment(off[i], B[i][0].cols()) = vl2(B[i], c.fs[i].G, trace(c.fs[i].T, f)); return v; }
    VM mono(size_t j, int a) const { VM v(D, MX::Zero(c.F.ex.size(), 1)); v[a](j, 0) = 1; return v; }
    double scale(const VM& v) const { return vnorm(v, c.G)(0) / c.h + vnorm(vgrad(c, v), c.G)(0); }
};
inline bool shape(const std::string& w, const MX& R, int r, int n) { if (R.rows() == r && R.cols() == n && R.allFinite()) return true; mc::fail("size", w + mc::str(" operator ", R.rows(), "x", R.cols(), " expected ", r, "x", n, " finite ", R.allFinite())); return false; }
inline void same(const char* key, const std::string& w, const MX& A, const MX& X, const VX& sa, const VX& sb, double tol) { double d = rel(A, X, sa, sb); mc::check(d < tol, key, w + mc::str(" error ", d)); }
// T: test tensors, Gr: the reconstructed tensor of every unknown, Te: what the data is projected from (gradient, or strain when sym). (T, Gr) = (T, grad u_T) + sum (T n, u_F - u_T)
template<typename M> MX vrhs(const vdofs<M>& U, const VM& T) { auto& c = U.c; VM uT = U.cellpart(); MX b = c.ip(T, vgrad(c, uT)); for (size_t i = 0; i < c.fs.size(); i++) if (U.active(i)) { auto& f = c.fs[i]; b += vip(dotn<M::dimension>(trace(f.T, T), f.n), f.G, plus(U.facepart(i), trace(f.T, uT), -1)); } return b; }
template<typename M> void vdefinition(const std::string& w, const vdofs<M>& U, const VM& T, const VM& Gr, bool sym, int cd, int fd, int ddiv, int dn, double tol)
{
    auto& c = U.c; constexpr int D = M::dimension; VX nt = vnorm(T, c.G); bool full = true; for (size_t i = 0; i < c.fs.size(); i++) full = full && U.active(i); same("definition", w, c.ip(T, Gr), vrhs(U, T), nt.cwiseMax(1e-300), U.s, tol);
    for (size_t j = 0; j < c.F.ex.size(); j++) { int dg = c.F.deg(j); if (dg > c.F.n - 2 || !(dg <= cd || ddiv <= cd) || !(dg <= fd || dn <= fd) || (!full && dg > cd)) continue; for (int a = 0; a < D; a++) { VM v = U.mono(j, a); VX u = U.interpolate(v); VM dv = vgrad(c, v); if (sym) dv = symm<D>(dv); MX o = c.ip(T, plus(Gr * u, dv, -1)); double s = U.scale(v), q = 0; for (int i = 0; i < o.rows(); i++) q = std::max(q, std::abs(o(i)) / (std::max(nt(i), 1e-300) * s)); mc::check(q < tol, "projection", w + mc::str(" monomial ", j, " component ", a, " residual ", q)); } }
    mc::trace(); mc::trans(U.n);
}
// full or symmetric gradients in the tensors T
template<typename M, typename Pair> void vgradient(const std::string& w, const vdofs<M>& U, const VM& T, const Pair& GA, bool sym, int cd, int fd, int ddiv, int dn, double tol) { MX R = GA.first, A = GA.second; if (!shape(w, R, T[0].cols(), U.n) || !shape(w, A, U.n, U.n)) return; VM g = T * R; vdefinition(w, U, T, g, sym, cd, fd, ddiv, dn, tol); same("energy", w, A, U.c.ip(g, g), U.s, U.s, tol); }
// full or symmetric gradients of potentials in W (constants excluded)
template<typename M, typename Pair> void vpotential(const std::string& w, const vdofs<M>& U, const VM& Wf, const Pair& RA, bool sym, int cd, int fd, int rd, double tol)
{
    constexpr int D = M::dimension; auto& c = U.c; MX R = RA.first, A = RA.second; VM W; for (auto& x : Wf) W.push_back(x.rightCols(x.cols() - D)); if (!shape(w, R, W[0].cols(), U.n) || !shape(w, A, U.n, U.n)) return; VM P = W * R, T = vgrad(c, W), g = vgrad(c, P); if (sym) T = symm<D>(T), g = symm<D>(g); vdefinition(w, U, T, g, sym, cd, fd, rd - 2, rd - 1, tol); same("energy", w, A, c.ip(g, g), U.s, U.s, tol);
    if (sym) { VM z = vgrad(c, P); for (int a = 0; a < D; a++) for (int b = 0; b < a; b++) { MX I = c.mono_col(0).transpose() * c.G * (z[a * D + b] - z[b * D + a]); double vol = c.G(0, 0), q = 0; for (int j = 0; j < U.n; j++) q = std::max(q, std::abs(I(0, j)) / (std::sqrt(vol) * U.s(j))); mc::check(q < tol, "rotation", w + mc::str(" mean curl ", q)); } }
    for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= rd) for (int a = 0; a < D; a++) { VM v = U.mono(j, a); VX u = U.interpolate(v); VM e = vgrad(c, plus(P * u, v, -1)); if (sym) e = symm<D>(e); double q = vnorm(e, c.G)(0) / U.scale(v); mc::check(q < 10 * tol, "exact", w + mc::str(" monomial ", j, " component ", a, " error ", q)); }
}
template<typename M> MX vhdg_form(const vdofs<M>& U, const std::vector<double>& wt, bool project) { auto& c = U.c; MX S = MX::Zero(U.n, U.n); for (size_t i = 0; i < c.fs.size(); i++) if (U.active(i)) { auto& f = c.fs[i]; VM t = trace(f.T, U.cellpart()); if (project) t = U.B[i] * vl2(U.B[i], f.G, t); VM z = plus(U.facepart(i), t, -1); S += wt[i] * vip(z, f.G, z); } return S; }
template<typename M> MX vhho_form(const vdofs<M>& U, const VM& P, const std::vector<double>& wt) { auto& c = U.c; MX S = MX::Zero(U.n, U.n); VM q = plus(plus(U.cellpart(), P), U.C * vl2(U.C, c.G, P), -1); for (size_t i = 0; i < c.fs.size(); i++) if (U.active(i)) { auto& f = c.fs[i]; VM z = plus(U.facepart(i), U.B[i] * vl2(U.B[i], f.G, trace(f.T, q)), -1); S += wt[i] * vip(z, f.G, z); } return S; }
template<typename M> void vstab(const std::string& w, const vdofs<M>& U, const MX& S, const MX& X, const std::vector<double>& wt, int vmax, double tol)
{
    auto& c = U.c; if (!shape(w, S, U.n, U.n)) return; double q = 0; for (double x : wt) q = std::max(q, x * c.h); same("form", w, S, X, U.s * q, U.s, tol); same("symmetric", w, S, S.transpose(), U.s * q, U.s, tol); MX N = U.s.cwiseInverse().asDiagonal() * S * U.s.cwiseInverse().asDiagonal(); double ev = Eigen::SelfAdjointEigenSolver<MX>((N + N.transpose()) / 2).eigenvalues()(0); mc::check(ev > -tol * q * U.n, "semidefinite", w + mc::str(" eigenvalue ", ev));
    for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= vmax) for (int a = 0; a < c.D; a++) { VM v = U.mono(j, a); VX u = U.interpolate(v), r = S * u; double s = U.scale(v), z = 0; for (int i = 0; i < r.size(); i++) z = std::max(z, std::abs(r(i)) / (U.s(i) * s * q)); mc::check(z < tol, "consistent", w + mc::str(" monomial ", j, " component ", a, " residual ", z)); } mc::trace(); mc::trans(U.n);
}
// A: energy + stabilization; it must vanish exactly on the interpolants of the kernel fields (translations, or rigid motions when sym)
template<typename M> void vkernel(const std::string& w, const vdofs<M>& U, const MX& A, bool sym, double lo)
{
    constexpr int D = M::dimension; int k = sym ? D * (D + 1) / 2 : D; MX N = U.s.cwiseInverse().asDiagonal() * A * U.s.cwiseInverse().asDiagonal(); auto ev = Eigen::SelfAdjointEigenSolver<MX>((N + N.transpose()) / 2).eigenvalues(); mc::check(std::abs(ev(k - 1)) < 1e-9 * ev(ev.size() - 1), "kernel", w + mc::str(" eigenvalue ", k - 1, " is ", ev(k - 1))); mc::check(ev(k) > lo * ev(ev.size() - 1), "coercive", w + mc::str(" eigenvalue ", k, " is ", ev(k), " of ", ev(ev.size() - 1))); mc::trace(); mc::trans(1);
}
template<typename M> void vinterpolant(const std::string& w, const vdofs<M>& U, const VX& x, const VM& f)
{
    auto& c = U.c; VX y = U.interpolate(f); if (x.size() != y.size() || !x.allFinite()) { mc::fail("interpolant-size", w + mc::str(" ", x.size(), " expected ", y.size())); return; } double s = vnorm(f, c.G)(0), e = vnorm(U.C * (x - y).head(U.C[0].cols()), c.G)(0) / s; for (size_t k = 0; k < c.fs.size(); k++) if (U.active(k)) e = std::max(e, vnorm(U.B[k] * (x - y).segment(U.off[k], U.B[k][0].cols()), c.fs[k].G)(0) / (vnorm(trace(c.fs[k].T, f), c.fs[k].G)(0) + s / std::sqrt(c.h))); mc::check(e < 1e-8, "interpolant", w + mc::str(" error ", e)); mc::trace(); mc::trans(1);
}
}
