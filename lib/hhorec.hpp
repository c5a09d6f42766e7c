// Potential and gradient reconstructions against the variational definition evaluated with exact integrals.
#pragma once
#include "hho.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
#include "diskpp/methods/hho"
using namespace mm;
enum mode { plain, faceproj, fluxes };
using KM = MX;
// right-hand side of the reconstruction for the test functions W (without the constant one) and all local unknowns
template<typename M> MX rec_rhs(const dofs<M>& U, const std::vector<MX>& KW, mode md, const MX* inner = nullptr)
{
    auto& c = U.c; MX uT = U.cellpart(); MX R = c.ip(KW, c.grad(uT));
    for (size_t i = 0; i < c.fs.size(); i++) { if (!U.active(i)) continue; auto& f = c.fs[i]; MX q = MX::Zero(f.G.rows(), KW[0].cols()); for (int a = 0; a < c.D; a++) q += f.n(a) * f.T * KW[a]; MX t = f.T * uT; if (md == faceproj) t = U.B[i] * l2(U.B[i], f.G, t); MX v = U.facepart(i) - t; if (md == fluxes) { MX r = f.T * *inner; v += r - U.B[i] * l2(U.B[i], f.G, r); } R += q.transpose() * f.G * v; }
    return R;
}
inline std::vector<MX> kmul(const KM& K, const std::vector<MX>& g) { std::vector<MX> r; for (int a = 0; a < K.rows(); a++) { MX x = K(a, 0) * g[0]; for (int b = 1; b < K.cols(); b++) x += K(a, b) * g[b]; r.push_back(x); } return r; }
template<typename M> VX gradnorm(const hcell<M>& c, const MX& W) { VX q = VX::Zero(W.cols()); auto g = c.grad(W); for (auto& x : g) q += gnorm(x, c.G).cwiseAbs2(); return q.cwiseSqrt(); }
// (R, A) as returned, W: coefficients of the reconstruction basis; vmax: degree up to which the reconstruction is the elliptic projection
template<typename M, typename Pair> void potential(const std::string& w, const dofs<M>& U, const MX& Wf, const Pair& RA, const KM& K, mode md, int vmax, int exact, double tol, const MX* inner = nullptr)
{
    auto& c = U.c; MX W = Wf.rightCols(Wf.cols() - 1), R = RA.first, A = RA.second; if (R.rows() != W.cols() || R.cols() != U.n || A.rows() != U.n || A.cols() != U.n || !R.allFinite() || !A.allFinite()) { mc::fail("size", w + mc::str(" operator ", R.rows(), "x", R.cols(), " expected ", W.cols(), "x", U.n, " finite ", R.allFinite())); return; }
    auto KW = kmul(K, c.grad(W)); MX b = rec_rhs(U, KW, md, inner); VX nw = gradnorm(c, W); double kn = K.norm(); MX P = W * R; MX a = c.ip(KW, c.grad(P));
    double r = rel(a, b, nw * kn, U.s); mc::check(r < tol, "definition", w + mc::str(" residual ", r)); MX X = c.ip(kmul(K, c.grad(P)), c.grad(P)); double d = rel(A, X, U.s * kn, U.s); mc::check(d < tol, "energy", w + mc::str(" error ", d)); double sy = rel(A, A.transpose(), U.s * kn, U.s); mc::check(sy < tol, "symmetric", w + mc::str(" error ", sy));
    for (size_t j = 0; j < c.F.ex.size(); j++) { int dg = c.F.deg(j); if (dg > vmax) continue; MX v = c.mono_col(j); VX u = U.interpolate(v); MX e = P * u - v; double s = std::sqrt(gnorm(v, c.G)(0) * gnorm(v, c.G)(0)) / c.h + gradnorm(c, v)(0);
        MX o = c.ip(KW, c.grad(e)); double q = 0; for (int i = 0; i < o.rows(); i++) q = std::max(q, std::abs(o(i)) / (nw(i) * s * kn)); mc::check(q < tol, "projection", w + mc::str(" monomial ", j, " residual ", q)); if (dg <= exact) { double g = gradnorm(c, e)(0) / s; mc::check(g < tol * 10, "exact", w + mc::str(" monomial ", j, " error ", g)); } if (dg == 0) { double z = (u.transpose() * A * u).value(); mc::check(std::abs(z) < tol * s * s * kn, "constants", w + mc::str(" energy ", z)); } }
    mc::trace(); mc::trans(U.n);
}
template<typename M, typename Pair, typename GB> void gradient(const std::string& w, const dofs<M>& U, const GB& gb, const Pair& GA, const KM& K, int cd, int fd, int ddiv, int dn, double tol)
{
    auto& c = U.c; auto T = c.vcoefs(gb); MX R = GA.first, A = GA.second; if (R.rows() != T[0].cols() || R.cols() != U.n || A.rows() != U.n || A.cols() != U.n || !R.allFinite() || !A.allFinite()) { mc::fail("gradient-size", w + mc::str(" operator ", R.rows(), "x", R.cols(), " expected ", T[0].cols(), "x", U.n)); return; }
    MX dv = MX::Zero(T[0].rows(), T[0].cols()); for (int a = 0; a < c.D; a++) dv += c.d(T[a], a); MX uT = U.cellpart(); MX b = -dv.transpose() * c.G * uT; bool full = true;
    for (size_t i = 0; i < c.fs.size(); i++) { auto& f = c.fs[i]; MX q = MX::Zero(f.G.rows(), T[0].cols()); for (int a = 0; a < c.D; a++) q += f.n(a) * f.T * T[a]; full = full && U.active(i); b += q.transpose() * f.G * (U.active(i) ? U.facepart(i) : MX(f.T * uT)); }
    std::vector<MX> g; for (int a = 0; a < c.D; a++) g.push_back(T[a] * R); VX nt = VX::Zero(T[0].cols()); for (auto& x : T) nt += gnorm(x, c.G).cwiseAbs2(); nt = nt.cwiseSqrt(); double kn = K.norm(); double r = rel(c.ip(T, g), b, nt, U.s); mc::check(r < tol, "gradient-definition", w + mc::str(" residual ", r)); MX X = c.ip(kmul(K, g), g); double d = rel(A, X, U.s * kn, U.s); mc::check(d < tol, "gradient-energy", w + mc::str(" error ", d));
    for (size_t j = 0; j < c.F.ex.size(); j++) { int dg = c.F.deg(j); if (dg > c.F.n - 2 || !(dg <= cd || ddiv <= cd) || !(dg <= fd || dn <= fd)) continue; if (!full && dg > cd) continue; MX v = c.mono_col(j); VX u = U.interpolate(v); auto dv = c.grad(v); std::vector<MX> e; for (int a = 0; a < c.D; a++) e.push_back(g[a] * u - dv[a]); double s = gnorm(v, c.G)(0) / c.h + gradnorm(c, v)(0); MX o = c.ip(T, e); double q = 0; for (int i = 0; i < o.rows(); i++) q = std::max(q, std::abs(o(i)) / (nt(i) * s)); mc::check(q < tol, "gradient-projection", w + mc::str(" monomial ", j, " residual ", q)); }
    mc::trace(); mc::trans(U.n);
}
template<int D> std::vector<KM> tensors() { std::vector<KM> v; MX I = MX::Identity(D, D); v.push_back(2 * I); MX A = I; for (int i = 0; i < D; i++) A(i, i) = 1 + 3 * i; v.push_back(A); MX S = A; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (i != j) S(i, j) = 0.5 / (1 + i + j); v.push_back(S); return v; }
// an interpolant computed by the library
template<typename M> void interpolant(const std::string& w, const dofs<M>& U, const VX& x, const VX& f)
{
    auto& c = U.c; VX y = U.interpolate(f); if (x.size() != y.size() || !x.allFinite()) { mc::fail("interpolant-size", w); return; } double s = gnorm(f, c.G)(0), e = gnorm(U.C * (x - y).head(U.C.cols()), c.G)(0) / s; for (size_t k = 0; k < c.fs.size(); k++) if (U.active(k)) e = std::max(e, gnorm(U.B[k] * (x - y).segment(U.off[k], U.B[k].cols()), c.fs[k].G)(0) / (gnorm(c.fs[k].T * f, c.fs[k].G)(0) + s / std::sqrt(c.h))); mc::check(e < 1e-8, "interpolant", w + mc::str(" error ", e));
}
// the admissible (cell, face) degrees
template<typename Fn> void orders(int fmax, Fn f) { for (int fd = 0; fd <= fmax; fd++) for (int cd = std::max(0, fd - 1); cd <= fd + 1; cd++) f(cd, fd); }
// all assignments of -1 (no unknowns) or 0..dmax to nf faces
template<typename Fn> void patterns(int nf, int dmax, Fn f) { std::vector<int> v(nf, -1); while (true) { f(v); int i = 0; while (i < nf && v[i] == dmax) v[i++] = -1; if (i == nf) break; v[i]++; } }
// the same shapes as in the other checks: catalogue meshes, lattice polygons and lattice hulls
template<bool d1 = true, typename Fn> void shapes(bool th, Fn fn, int pstep = 7, int hstep = 3)
{
    if constexpr (d1) catalogue1([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ size_t ic = 0; for (auto& cl : m) fn(nm + mc::str(" cell ", ic++), m, cl, true); }); });
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ size_t ic = 0; for (auto& cl : m) fn(nm + mc::str(" cell ", ic++), m, cl, true); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ size_t ic = 0; for (auto& cl : m) fn(nm + mc::str(" cell ", ic++), m, cl, true); }); }, th);
    auto L = lattice(3, 3);
    for (int n = 3; n <= (th ? 6 : 5); n++) for (int part = 0; part < 4; part++) mc::scenario(mc::str("polygons:", n, ":", part), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (c % 4 != size_t(part) || (!th && c % pstep)) return; std::vector<P2> pts; std::vector<size_t> pl; for (auto& q : idx) pl.push_back(pts.size()), pts.push_back(P2(double(q[0]) + 0.25 * q[1], double(q[1]) * 1.5)); gen2 m; poly2(m, pts, {pl}); for (auto& cl : m) fn(mc::str("polygon ", n, " #", c), m, cl, false); }); });
    for (unsigned part = 0; part < 8; part++) mc::scenario(mc::str("hulls:", part), [&]{ auto L3 = lattice3(2, 2, 2); size_t k = 0; hulls(L3, 32 * part, 32 * (part + 1), [&](unsigned mask, const hull& H) { if (!th && k++ % hstep) return; std::vector<P3> pts; for (auto& q : H.pts) pts.push_back(P3(q[0] + 0.5 * q[2], double(q[1]), 1.25 * q[2])); std::vector<size_t> idf; for (size_t i = 0; i < H.faces.size(); i++) idf.push_back(i); gen3 m; poly3(m, pts, H.faces, {idf}); for (auto& cl : m) fn(mc::str("hull ", mask), m, cl, false); }, 99); });
}
