// Global systems assembled on small meshes: local systems with integer entries, an independent dense reference over all
// face unknowns, and the numbering of the unknowns observed through the recovery of local solutions.
#pragma once
#include "gram.hpp"
#include "scalarbasis.hpp"
namespace mm {
using VX = Eigen::VectorXd;
// one face: exact moments and projections of polynomials on its scalar basis
template<typename M> struct gface {
    using P = typename M::point_type; static constexpr int D = M::dimension, E = D > 1 ? D - 1 : 1; typename M::face fc; frame<P, E> fr; const fit<E>* F = nullptr; MX G, B; P pt; int n = 0;
    gface(const M& m, const typename M::face& f, int deg, int nmax) : fc(f)
    {
        auto pf = points(m, fc); std::vector<P> q(pf.begin(), pf.end()); pt = q[0]; if (deg < 0) return;
        if constexpr (D == 1) { G = MX::Ones(1, 1); B = MX::Ones(1, 1); }
        else { F = &fitter<E>(nmax); fr = make_frame<P, E>(q); G = face_gram<M, E>(m, fc, fr, *F); auto b = make_scalar_monomial_basis(m, fc, size_t(deg)); B = F->coef(bvalues<E, P>(*F, fr, b.size(), [&](const P& p) { return VX(b.eval_functions(p)); })); }
        n = B.cols();
    }
    template<typename Fn> VX coef(Fn f) const { if constexpr (D == 1) { VX v(1); v(0) = f(pt); return v; } else { MX V(F->u.size(), 1); for (size_t k = 0; k < F->u.size(); k++) V(k, 0) = f(fr.at(F->u[k])); return F->coef(V); } }
    MX mass() const { return B.transpose() * G * B; }
    template<typename Fn> VX moments(Fn f) const { return B.transpose() * G * coef(f); }
    template<typename Fn> VX proj(Fn f) const { return mass().ldlt().solve(moments(f)); }
};
// polynomial number k of degree deg
template<typename P> double polyval(int k, int deg, const P& p) { double x = p[0], y = P::dimension > 1 ? p[1] : 0, z = P::dimension > 2 ? p[P::dimension - 1] : 0, s = 1 + k % 7; if (deg >= 1) s += (k % 3 + 0.5) * x - y + 0.25 * z; if (deg >= 2) s += (k % 2 ? 1 : -0.75) * std::pow(x, deg) + 0.5 * std::pow(y, deg - 1) * x - (k % 5) * 0.25 * std::pow(z, deg - 1) * (x + y); return s; }
inline double entry(size_t c, size_t i, size_t j) { size_t h = (c + 1) * 2654435761u ^ (i + 1) * 40503u ^ (j + 7) * 2246822519u; h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; return double(h % 41) - 20; }
template<typename M> struct asmcase {
    static constexpr int D = M::dimension; using P = typename M::point_type; const M& m; int nc; std::vector<int> fdeg; std::vector<gface<M>> gf; std::vector<int> off, nd; int N = 0; std::vector<typename M::cell> cells; std::vector<std::vector<size_t>> cf; std::vector<size_t> bf;
    std::vector<MX> K; std::vector<VX> b; std::vector<char> fixed; VX g, extra; MX extraK;
    asmcase(const M& m_, int comps, const std::vector<int>& fd, int nmax) : m(m_), nc(comps), fdeg(fd)
    {
        size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) { gf.emplace_back(m, *it, fd[i], nmax); off.push_back(N); nd.push_back(nc * gf.back().n); N += nd.back(); if (m.is_boundary(*it)) bf.push_back(i); }
        for (auto& cl : m) { cells.push_back(cl); std::vector<size_t> v; int n = 0; for (auto& fc : faces(m, cl)) { size_t k = 0; for (auto it = m.faces_begin(); !(*it == fc); ++it) k++; v.push_back(k); n += nd[k]; } cf.push_back(v); MX A(n, n); VX r(n); size_t c = cells.size() - 1; for (int a = 0; a < n; a++) { r(a) = entry(c, a, 1000); for (int d = 0; d < n; d++) A(a, d) = entry(c, a, d); } K.push_back(A); b.push_back(r); }
        reset();
    }
    void reset() { fixed.assign(N, 0); g = VX::Zero(N); extra = VX::Zero(N); extraK = MX::Zero(N, N); }
    int size() const { int n = 0; for (char c : fixed) n += !c; return n; }
    // positions of the local unknowns of a cell in the list of all face unknowns
    std::vector<int> local(size_t c) const { std::vector<int> r; for (size_t f : cf[c]) for (int i = 0; i < nd[f]; i++) r.push_back(off[f] + i); return r; }
    template<typename Fn> VX on_face(size_t f, Fn q, bool projected) const { VX r(nd[f]); for (int a = 0; a < nc; a++) { auto s = [&](const P& p) { return q(p, a); }; VX v = projected ? gf[f].proj(s) : gf[f].moments(s); for (int i = 0; i < gf[f].n; i++) r(i * nc + a) = v(i); } return r; }
    // numbering: position of every free unknown in the global system, from recovered local solutions of a system solution with distinct entries
    template<typename Take> bool numbering(const std::string& w, int n, Take take, std::vector<int>& num, double tol, bool incr = false) const
    {
        VX x(n); for (int i = 0; i < n; i++) x(i) = 100000.0 + i; num.assign(N, -1); std::vector<char> used(n, 0); bool ok = true;
        for (size_t c = 0; c < cells.size(); c++) { VX l = take(c, x); auto p = local(c); if (!mc::check(l.size() == Eigen::Index(p.size()) && l.allFinite(), "local-size", w)) return false;
            for (size_t i = 0; i < p.size(); i++) { if (fixed[p[i]]) ok &= mc::check(std::abs(l(i) - g(p[i])) <= tol * (1 + std::abs(g(p[i])) + g.cwiseAbs().maxCoeff()), incr ? "imposed-increment" : "imposed-value", w + mc::str(" cell ", c, " unknown ", i, ": ", l(i), " not ", g(p[i])));
                else { int k = int(std::lround(l(i) - 100000.0)); if (!mc::check(k >= 0 && k < n && l(i) == 100000.0 + k, "free-value", w + mc::str(" cell ", c, " unknown ", i, ": ", l(i)))) return false; if (num[p[i]] < 0) { ok &= mc::check(!used[k], "shared-unknown", w + mc::str(" cell ", c, " unknown ", i)); used[k] = 1; num[p[i]] = k; } else ok &= mc::check(num[p[i]] == k, "numbering", w + mc::str(" cell ", c, " unknown ", i)); } } }
        return ok;
    }
    void verify(const std::string& w, const MX& L, const VX& R, const std::vector<int>& num, double tol) const
    {
        int n = size(); if (!mc::check(L.rows() == n && L.cols() == n && R.size() == n && L.allFinite() && R.allFinite(), "system-size", w + mc::str(": ", L.rows(), "x", L.cols(), ", ", R.size(), " not ", n))) return;
        MX A = extraK; VX r = extra; for (size_t c = 0; c < cells.size(); c++) { auto p = local(c); for (size_t i = 0; i < p.size(); i++) { r(p[i]) += b[c](i); for (size_t j = 0; j < p.size(); j++) A(p[i], p[j]) += K[c](i, j); } }
        MX e = MX::Zero(n, n); VX q = VX::Zero(n); double s = 1 + A.cwiseAbs().maxCoeff(); for (int i = 0; i < N; i++) if (!fixed[i]) { double t = r(i); for (int j = 0; j < N; j++) if (fixed[j]) t -= A(i, j) * g(j); else e(num[i], num[j]) = A(i, j); q(num[i]) = t; }
        mc::check(n == 0 || (e - L).cwiseAbs().maxCoeff() <= tol * s, "matrix", w); double sr = 1 + r.cwiseAbs().maxCoeff() + s * g.cwiseAbs().maxCoeff(); mc::check(n == 0 || (q - R).cwiseAbs().maxCoeff() <= tol * sr, "rhs", w + mc::str(" error ", n ? (q - R).cwiseAbs().maxCoeff() : 0)); mc::trace(); mc::trans(size_t(n) * n + n);
    }
};
// every boundary face gets an id of its own
template<typename M> void label(M& m) { auto st = m.backend_storage(); size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) if (m.is_boundary(*it)) st->boundary_info[i] = disk::boundary_descriptor(100 + i, true); }
// all assignments of a condition out of `base` to the boundary faces (to the sides of the domain when there are too many)
template<typename M, typename F> void assignments(const M& m, const std::vector<size_t>& bf, int base, size_t cap, F f)
{
    std::vector<size_t> grp; double tot = 1; for (size_t i = 0; i < bf.size(); i++) grp.push_back(i), tot *= base; size_t ng = bf.size();
    if (tot > double(cap)) { std::map<size_t, size_t> id; for (size_t i = 0; i < bf.size(); i++) { auto fc = *std::next(m.faces_begin(), bf[i]); auto p = points(m, fc); auto c = p[0]; for (size_t k = 1; k < p.size(); k++) c = c + p[k]; size_t s = side(c / double(p.size())); if (!id.count(s)) { size_t z = id.size(); id[s] = z; } grp[i] = id[s]; } ng = id.size(); tot = std::pow(double(base), double(ng)); }
    size_t step = tot > double(cap) ? size_t(tot / cap) + 1 : 1; while (step > 1 && step % base == 0) step++;
    std::vector<int> a(bf.size()); for (size_t k = 0; k < size_t(tot + 0.5); k += step) { std::vector<int> v(ng); size_t z = k; for (auto& x : v) x = z % base, z /= base; for (size_t i = 0; i < bf.size(); i++) a[i] = v[grp[i]]; f(k, a); }
}
// only: 0 for every dimension
template<bool d1, int only = 0, typename F> void small_meshes(F f)
{
    if constexpr (d1) { { gen1 m; segs(m, {0, 0.5}); label(m); f("seg:one", m); } { gen1 m; segs(m, {0, 0.25, 0.375, 1}); label(m); f("seg:three", m); } }
    if constexpr (only != 3) {
    { tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}, {{0, 1, 2}, {1, 2, 3}}); label(m); f("tri:two", m); }
    { tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0.375, 0.25}}, {{0, 1, 4}, {1, 3, 4}, {3, 2, 4}, {2, 0, 4}}); label(m); f("tri:fan", m); }
    { car2 m; grid2(m, {0, 0.25, 1}, {0, 0.5}); label(m); f("car:two", m); }
    { gen2 m; poly2(m, {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0}, {0.5, 0.25}, {0.75, 0.5}, {0.5, 1}}, {{0, 4, 5, 6, 7, 3}, {4, 1, 2, 7, 6, 5}}); label(m); f("poly:two", m); }
    }
    if constexpr (only != 2) {
    { tet3 m; tets(m, {P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 1., 1.)}, {{0, 1, 2, 3}, {1, 2, 3, 4}}); label(m); f("tet:two", m); }
    { car3 m; grid3(m, {0, 1}, {0, 0.5}, {0, 1}); label(m); f("car3:one", m); }
    { gen3 m; prisms(m); label(m); f("prisms", m); }
    }
}
}
