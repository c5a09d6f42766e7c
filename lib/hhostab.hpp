// Stabilization forms evaluated with exact integrals.
#pragma once
#include "hhorec.hpp"
enum scaling { by_face, by_cell };
template<typename M> double hs(const hcell<M>& c, size_t i, scaling s) { return s == by_face ? c.fs[i].h : c.h; }
template<typename M> MX hho_residual(const dofs<M>& U, size_t i, const MX& P, const MX& Pc) { auto& f = U.c.fs[i]; MX t = f.T * (U.cellpart() + P - U.C * Pc); return U.facepart(i) - U.B[i] * l2(U.B[i], f.G, t); } // P: reconstruction, Pc: its projection in the cell space
template<typename M> MX hho_form(const dofs<M>& U, const MX& P, const std::vector<double>& wt) { auto& c = U.c; MX Pc = l2(U.C, c.G, P), S = MX::Zero(U.n, U.n); for (size_t i = 0; i < c.fs.size(); i++) if (U.active(i)) { MX z = hho_residual(U, i, P, Pc); S += wt[i] * z.transpose() * c.fs[i].G * z; } return S; }
template<typename M> MX hdg_form(const dofs<M>& U, const std::vector<double>& wt, bool project) { auto& c = U.c; MX S = MX::Zero(U.n, U.n); for (size_t i = 0; i < c.fs.size(); i++) if (U.active(i)) { MX t = c.fs[i].T * U.cellpart(); if (project) t = U.B[i] * l2(U.B[i], c.fs[i].G, t); MX z = U.facepart(i) - t; S += wt[i] * z.transpose() * c.fs[i].G * z; } return S; }
template<typename M> std::vector<double> weights(const hcell<M>& c, scaling s) { std::vector<double> w; for (size_t i = 0; i < c.fs.size(); i++) w.push_back(1 / hs(c, i, s)); return w; }
template<typename M> std::vector<double> weights(const hcell<M>& c, const KM& K) { std::vector<double> w; for (auto& f : c.fs) w.push_back((f.n.transpose() * K * f.n).value() / c.h); return w; }
// S as returned, X the form; scale of the unknowns s, worst weight in wt
template<typename M> void stab(const std::string& w, const dofs<M>& U, const MX& S, const MX& X, const std::vector<double>& wt, int vmax, double tol)
{
    auto& c = U.c; double q = 0; for (double x : wt) q = std::max(q, x * c.h); double e = rel(S, X, U.s * q, U.s); mc::check(e < tol, "form", w + mc::str(" error ", e)); if (S.rows() != U.n || S.cols() != U.n || !S.allFinite()) return; double sy = rel(S, S.transpose(), U.s * q, U.s); mc::check(sy < tol, "symmetric", w + mc::str(" error ", sy));
    MX N = U.s.cwiseInverse().asDiagonal() * S * U.s.cwiseInverse().asDiagonal(); if (U.s.minCoeff() > 0) { double ev = Eigen::SelfAdjointEigenSolver<MX>((N + N.transpose()) / 2).eigenvalues()(0); mc::check(ev > -tol * q * U.n, "semidefinite", w + mc::str(" eigenvalue ", ev)); }
    for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= vmax) { VX v = c.mono_col(j), u = U.interpolate(v), r = S * u; double s = gnorm(v, c.G)(0) / c.h + gradnorm(c, v)(0), z = 0; for (int i = 0; i < r.size(); i++) z = std::max(z, std::abs(r(i)) / (U.s(i) * s * q)); mc::check(z < tol, "consistent", w + mc::str(" monomial ", j, " residual ", z)); } mc::trace(); mc::trans(U.n);
}
// reconstruction energy + stabilization against the discrete seminorm |grad u_T|^2 + sum 1/h |u_F - u_T|^2: vanishes on constants only
template<typename M> void coercive(const std::string& w, const dofs<M>& U, const MX& A, double lo)
{
    auto& c = U.c; MX uT = U.cellpart(); auto g = c.grad(uT); MX N = c.ip(g, g); for (size_t i = 0; i < c.fs.size(); i++) { MX z = U.facepart(i) - c.fs[i].T * uT; N += z.transpose() * c.fs[i].G * z / c.h; }
    MX Q = U.s.cwiseMax(1e-12).cwiseInverse().asDiagonal(); MX Nn = Q * N * Q, An = Q * A * Q; Eigen::SelfAdjointEigenSolver<MX> es((Nn + Nn.transpose()) / 2); auto ev = es.eigenvalues(); int z = 0; while (z < ev.size() && ev(z) < 1e-9 * ev(ev.size() - 1)) z++; mc::check(z == 1, "seminorm-kernel", w + mc::str(" dimension ", z));
    MX Z = es.eigenvectors().rightCols(ev.size() - z) * ev.tail(ev.size() - z).cwiseSqrt().cwiseInverse().asDiagonal(); MX B = Z.transpose() * An * Z; double m = Eigen::SelfAdjointEigenSolver<MX>((B + B.transpose()) / 2).eigenvalues()(0); mc::check(m > lo, "coercive", w + mc::str(" constant ", m)); mc::trace(); mc::trans(1);
}
