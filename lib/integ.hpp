// integrate() on cells and faces against exact moments, and the divergence theorem between them.
#pragma once
#include "meshes.hpp"
#include "moments.hpp"
#include "diskpp/quadratures/quadratures.hpp"
namespace mm {
// corners of a planar cell in cyclic order, chained from its faces
template<typename M> std::vector<P2> outline2(const M& m, const typename M::cell& cl)
{
    std::map<size_t, std::vector<size_t>> nb; for (auto& fc : faces(m, cl)) { auto id = fc.point_ids(); nb[id[0]].push_back(id[1]); nb[id[1]].push_back(id[0]); }
    std::vector<size_t> o{nb.begin()->first}; size_t prev = size_t(-1);
    while (true) { auto& v = nb[o.back()]; size_t nx = v[0] != prev ? v[0] : v[1]; prev = o.back(); if (nx == o[0] || o.size() > nb.size()) break; o.push_back(nx); }
    std::vector<P2> r; for (auto i : o) r.push_back(*std::next(m.points_begin(), i));
    double A = 0; for (size_t i = 0; i < r.size(); i++) { auto &p = r[i], &q = r[(i + 1) % r.size()]; A += p.x() * q.y() - q.x() * p.y(); } if (A < 0) std::reverse(r.begin(), r.end());
    return r;
}
template<typename M> void cell_moments(const M& m, const typename M::cell& cl, moments<M::dimension>& mo)
{
    mo.clear();
    if constexpr (M::dimension == 1) { auto p = points(m, cl); mo.template simplex<P1>({p[0], p[1]}, std::abs(p[1].x() - p[0].x())); }
    else if constexpr (M::dimension == 2) { auto o = outline2(m, cl); for (size_t i = 1; i + 1 < o.size(); i++) { auto a = o[i] - o[0], b = o[i + 1] - o[0]; mo.template simplex<P2>({o[0], o[i], o[i + 1]}, (a.x() * b.y() - a.y() * b.x()) / 2); } }
    else { auto pp = points(m, cl); P3 c(0.0, 0.0, 0.0); for (auto& p : pp) c = c + p; c = c / double(pp.size()); // convex cells with planar convex faces
        for (auto& fc : faces(m, cl)) { auto p = points(m, fc); for (size_t i = 1; i + 1 < p.size(); i++) mo.template simplex<P3>({c, p[0], p[i], p[i + 1]}, std::abs((p[0] - c).to_vector().dot((p[i] - c).to_vector().cross((p[i + 1] - c).to_vector()))) / 6); } }
}
template<typename M> void face_moments(const M& m, const typename M::face& fc, moments<M::dimension>& mo)
{
    mo.clear(); auto p = points(m, fc);
    if constexpr (M::dimension == 1) mo.template simplex<P1>({p[0]}, 1);
    else if constexpr (M::dimension == 2) mo.template simplex<P2>({p[0], p[1]}, (p[1] - p[0]).to_vector().norm());
    else for (size_t i = 1; i + 1 < p.size(); i++) mo.template simplex<P3>({p[0], p[i], p[i + 1]}, (p[i] - p[0]).to_vector().cross((p[i + 1] - p[0]).to_vector()).norm() / 2);
}
// tolerance: quadrature with weights of both signs (generic solid cells) loses digits with the degree
template<typename M> void integrates(const std::string& w, const M& m, int dmax, int dface, double size)
{
    constexpr size_t D = M::dimension; bool gm = std::is_same_v<M, gen3>;
    moments<D> mo(dmax), mf(dface); double scale = std::pow(size, D), fscale = D == 1 ? 1 : std::pow(size, D - 1);
    for (auto& cl : m) {
        cell_moments(m, cl, mo); std::string c = mc::str(w, " cell ", offset(m, cl));
        for (int d = 0; d <= dmax; d++) { auto q = integrate(m, cl, d); double tol = gm ? 2e-13 * std::pow(1.6, d) : 1e-12; std::string bad; bool ok = exact_rule(mo, q, d, tol, scale, bad); mc::check(ok, "cell-integral", mc::str(c, " degree ", d, " ", bad)); double S = 0; for (auto& x : q) S += x.weight(); mc::near(S, double(mo.m[0]), tol, "cell-weights", mc::str(c, " degree ", d), scale); mc::near(S, measure(m, cl), tol, "cell-measure", mc::str(c, " degree ", d), scale); mc::trans(q.size()); }
        // divergence theorem: sum_F int_F x^a n_k = int_T d_k x^a, with one quadrature degree for all
        if constexpr (D > 1) { int d = std::min({dmax, dface, 6}); std::vector<double> lhs(mo.al.size() * D, 0); auto fcs = faces(m, cl);
            for (auto& fc : fcs) { auto n = normal(m, cl, fc); for (auto& q : integrate(m, fc, d)) for (size_t i = 0; i < mo.al.size(); i++) if (mo.degree(i) <= d) { double v = mo.eval(i, q.point()) * q.weight(); for (size_t k = 0; k < D; k++) lhs[i * D + k] += v * n[k]; } }
            std::vector<double> vol(mo.al.size(), 0); for (auto& q : integrate(m, cl, d)) for (size_t i = 0; i < mo.al.size(); i++) if (mo.degree(i) <= d) vol[i] += mo.eval(i, q.point()) * q.weight();
            for (size_t i = 0; i < mo.al.size(); i++) if (mo.degree(i) <= d) for (size_t k = 0; k < D; k++) { auto p = mo.pred[i * D + k]; double rhs = p == size_t(-1) ? 0 : mo.al[i][k] * vol[p]; if (std::abs(lhs[i * D + k] - rhs) > 1e-11 * std::max({1.0, scale, fscale}) * std::max(1.0, std::abs(rhs))) mc::check(false, "divergence", mc::str(c, " ", mo.name(i), " direction ", k, ": faces ", lhs[i * D + k], " cell ", rhs)); } }
        mc::trace();
    }
    size_t fn = 0; for (auto fi = m.faces_begin(); fi != m.faces_end(); ++fi) {
        auto& fc = *fi; face_moments(m, fc, mf); std::string c = mc::str(w, " face ", fn++);
        for (int d = 0; d <= dface; d++) { auto q = integrate(m, fc, d); std::string bad; bool ok = exact_rule(mf, q, d, 2e-12, fscale, bad); mc::check(ok, "face-integral", mc::str(c, " degree ", d, " ", bad)); bool pos = true; for (auto& x : q) pos = pos && x.weight() > -1e-15; mc::check(pos, "face-weights", mc::str(c, " degree ", d)); mc::trans(q.size()); }
        mc::trace();
    }
}
} // namespace mm
