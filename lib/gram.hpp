// Exact integrals of products of frame monomials (polyfit.hpp) over a cell or a face.
#pragma once
#include "integ.hpp"
#include "polyfit.hpp"
namespace mm {
template<typename P, int D> std::array<double, D> local(const frame<P, D>& fr, const P& p) { std::array<double, D> u; for (int d = 0; d < D; d++) { u[d] = 0; for (size_t k = 0; k < P::dimension; k++) u[d] += (p[k] - fr.c[k]) * fr.ax[d](k); u[d] /= fr.h; } return u; }
template<int D> MX gram_of(const fit<D>& F, const moments<D>& mo)
{ std::map<std::array<int, D>, size_t> id; for (size_t i = 0; i < mo.al.size(); i++) id[mo.al[i]] = i; size_t N = F.ex.size(); MX G(N, N); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { auto e = F.ex[i]; for (int d = 0; d < D; d++) e[d] += F.ex[j][d]; G(i, j) = double(mo.m[id.at(e)]); } return G; }
// Gram matrix of the frame monomials over a cell / over a face (its own D-1 dimensional frame)
template<typename M, int D> MX cell_gram(const M& m, const typename M::cell& cl, const frame<typename M::point_type, D>& fr, const fit<D>& F)
{
    using A = std::array<double, D>; struct Q { A a; double operator[](size_t k) const { return a[k]; } }; moments<D> mo(2 * F.n); auto U = [&](const auto& p) { return Q{local<typename M::point_type, D>(fr, p)}; }; double s = std::pow(fr.h, D);
    if constexpr (D == 1) { auto p = points(m, cl); mo.template simplex<Q>({U(p[0]), U(p[1])}, std::abs(p[1].x() - p[0].x())); }
    else if constexpr (D == 2) { auto o = outline2(m, cl); for (size_t i = 1; i + 1 < o.size(); i++) { auto a = o[i] - o[0], b = o[i + 1] - o[0]; mo.template simplex<Q>({U(o[0]), U(o[i]), U(o[i + 1])}, (a.x() * b.y() - a.y() * b.x()) / 2); } }
    else { P3 c = fr.c; for (auto& fc : faces(m, cl)) { auto p = points(m, fc); for (size_t i = 1; i + 1 < p.size(); i++) mo.template simplex<Q>({U(c), U(p[0]), U(p[i]), U(p[i + 1])}, std::abs((p[0] - c).to_vector().dot((p[i] - c).to_vector().cross((p[i + 1] - c).to_vector()))) / 6); } }
    (void)s; return gram_of<D>(F, mo);
}
template<typename M, int E> MX face_gram(const M& m, const typename M::face& fc, const frame<typename M::point_type, E>& fr, const fit<E>& F)
{
    struct Q { std::array<double, E> a; double operator[](size_t k) const { return a[k]; } }; moments<E> mo(2 * F.n); auto U = [&](const auto& p) { return Q{local<typename M::point_type, E>(fr, p)}; }; auto p = points(m, fc);
    if constexpr (E == 1) mo.template simplex<Q>({U(p[0]), U(p[1])}, (p[1] - p[0]).to_vector().norm());
    else { auto cr = [&](size_t i) { return Eigen::Vector3d((p[i] - p[0]).to_vector().cross((p[i + 1] - p[0]).to_vector())); }; Eigen::Vector3d n = Eigen::Vector3d::Zero(); for (size_t i = 1; i + 1 < p.size(); i++) n += cr(i); n.normalize(); for (size_t i = 1; i + 1 < p.size(); i++) mo.template simplex<Q>({U(p[0]), U(p[i]), U(p[i + 1])}, cr(i).dot(n) / 2); }
    return gram_of<E>(F, mo);
}
}
