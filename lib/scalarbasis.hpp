// What a scalar basis of P^k must satisfy on one element, decided through its polynomial coefficients.
#pragma once
#include "mc.hpp"
#include "meshes.hpp"
#include "polyfit.hpp"
#include "diskpp/bases/bases.hpp"
namespace mm {
template<int D, typename P> MX bvalues(const fit<D>& F, const frame<P, D>& fr, size_t n, const std::function<Eigen::VectorXd(const P&)>& f)
{ MX v(F.u.size(), n); for (size_t q = 0; q < F.u.size(); q++) v.row(q) = f(fr.at(F.u[q])).transpose(); return v; }
inline size_t binom(size_t n, size_t k) { size_t r = 1; for (size_t i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
// returns the coefficients
template<int D, typename P, typename B> MX scalar_basis(const std::string& w, const frame<P, D>& fr, const B& b, size_t k, size_t expect, double tol = 1e-9)
{
    auto& F = fitter<D>(k + 1); mc::check(b.size() == expect, "size", w + mc::str(" size ", b.size(), " expected ", expect)); mc::check(b.degree() == k, "degree", w);
    bool len = true; for (size_t q = 0; q < F.u.size(); q += 3) len = len && size_t(b.eval_functions(fr.at(F.u[q])).size()) == b.size(); mc::check(len, "eval-size", w); if (!len || b.size() != expect) return MX();
    MX v = bvalues<D, P>(F, fr, b.size(), [&](const P& p) { return Eigen::VectorXd(b.eval_functions(p).real()); }); mc::trans(v.size());
    bool fin = v.allFinite(); mc::check(fin, "finite", w); if (!fin) return MX();
    MX C = F.coef(v); double res = gap(F.V * C, v); bool poly = res <= tol; mc::check(poly, "polynomial", w + mc::str(" not a polynomial, residual ", res));
    double hi = 0; for (size_t j = 0; j < F.ex.size(); j++) if (F.deg(j) > int(k)) for (int i = 0; i < C.cols(); i++) hi = std::max(hi, std::abs(C(j, i)) / v.col(i).cwiseAbs().maxCoeff()); mc::check(hi <= tol * 100, "degree-bound", w + mc::str(" content above the degree ", hi));
    double ind = indep(C); mc::check(ind > 1e-9, "independent", w + mc::str(" singular value ratio ", ind)); return C;
}
// the first functions are a basis of every smaller degree; the first one is constant
template<int D, typename B> void nested(const std::string& w, const MX& C, size_t k, bool nst)
{
    if (!C.size()) return; auto& F = fitter<D>(k + 1);
    for (int i = 0; i < C.cols(); i++) { size_t lev = 0; while (F.dim(lev) <= size_t(i)) lev++; if (!nst && i) break; double hi = 0; for (size_t j = 0; j < F.ex.size(); j++) if (F.deg(j) > int(lev)) hi = std::max(hi, std::abs(C(j, i)) / C.col(i).norm()); mc::check(hi <= 1e-9, i ? "nested" : "first-constant", w + mc::str(" function ", i, " should have degree ", lev)); }
}
template<int D, typename P, typename B> void gradients(const std::string& w, const frame<P, D>& fr, const B& b, const MX& C, size_t k, double tol = 1e-9)
{
    if (!C.size()) return; auto& F = fitter<D>(k + 1);
    for (int d = 0; d < D; d++) { MX ex = F.V * F.diff(C, d) / fr.h, g(F.u.size(), b.size()); for (size_t q = 0; q < F.u.size(); q++) { auto G = b.eval_gradients(fr.at(F.u[q])); if (size_t(G.rows()) != b.size() || G.cols() != D) { mc::fail("gradient-size", w); return; } for (size_t i = 0; i < b.size(); i++) g(q, i) = std::real(G(i, d)); }
        double s = 0; size_t bi = 0; for (size_t i = 0; i < b.size(); i++) { double sc = 0; for (int e = 0; e < D; e++) sc = std::max(sc, (F.V * F.diff(C, e).col(i)).cwiseAbs().maxCoeff() / fr.h); sc = std::max(sc, C.col(i).cwiseAbs().maxCoeff() / fr.h * 1e-3); double x = (g.col(i) - ex.col(i)).cwiseAbs().maxCoeff() / sc; if (!(x <= s)) s = std::isfinite(x) ? x : 1e300, bi = i; }
        mc::check(s <= tol * 10, "gradient", w + mc::str(" function ", bi, " component ", d, " relative error ", s)); mc::trans(g.size()); }
}
}
