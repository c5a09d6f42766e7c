// The newer interface: integrals of (operators of) trial and test functions of every pair of degrees, L2 projections.
// MC: libs=jburkardt triangle
#include "common.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
namespace db = disk::basis;
template<int D, typename P, typename B> MX ncoefs(const elem<D, P>& e, const B& b) { return e.F.coef(bvalues<D, P>(e.F, e.fr, b.size(), [&](const P& p) { return Eigen::VectorXd(b(p)); })); }
template<int D, typename P, typename M, typename E> void newer_elem(const std::string& w0, const M& m, const E& el, const elem<D, P>& e, int kmax, double tol)
{
    constexpr int N = P::dimension; auto& F = e.F; std::vector<MX> C, S;
    for (int k = 0; k <= kmax; k++) { auto b = db::scaled_monomial_basis(m, el, k); C.push_back(ncoefs<D, P>(e, b)); }
    for (int kt = 0; kt <= kmax; kt++) for (int ks = 0; ks <= kmax; ks++) { std::string w = w0 + mc::str(" trial degree ", kt, " test degree ", ks); auto t = db::scaled_monomial_basis(m, el, kt); auto s = db::scaled_monomial_basis(m, el, ks); MX X = C[ks].transpose() * e.G * C[kt]; Eigen::VectorXd nt = norms(C[kt].transpose() * e.G * C[kt]), ns = norms(C[ks].transpose() * e.G * C[ks]);
        double r = relerr(db::integrate(m, el, t, s), X, ns, nt); mc::check(r < tol, "mass", w + mc::str(" error ", r));
        { db::L2_projector<decltype(s)> proj(m, el, s); MX O = proj.basis(t); bool sz = O.rows() == long(s.size()) && O.cols() == long(t.size()) && O.allFinite(); mc::check(sz, "projector-size", w); if (sz) { MX R = C[ks].transpose() * e.G * (C[ks] * O - C[kt]); double o = relerr(R, MX::Zero(R.rows(), R.cols()), ns, nt); mc::check(o < tol * 10, "projector-of-basis", w + mc::str(" residual ", o)); } }
        if constexpr (D == N) { std::vector<MX> dt, ds; for (int d = 0; d < D; d++) dt.push_back(F.diff(C[kt], d) / e.fr.h), ds.push_back(F.diff(C[ks], d) / e.fr.h); MX Y = sum_gram(e, ds, dt); double h = e.fr.h; Eigen::VectorXd mt = nt / h, ms = ns / h;
            r = relerr(db::integrate(m, el, db::grad(t), db::grad(s)), Y, ms, mt); mc::check(r < tol, "stiffness", w + mc::str(" error ", r));
            Eigen::Matrix<double, N, 1> n; for (int d = 0; d < N; d++) n(d) = 0.75 - d; MX Z = n(0) * dt[0]; for (int d = 1; d < D; d++) Z += n(d) * dt[d]; MX W = C[ks].transpose() * e.G * Z; auto gt = db::grad(t); auto dn = gt.dot(n); r = relerr(db::integrate(m, el, dn, s), W, ns, mt); mc::check(r < tol, "directional", w + mc::str(" error ", r));
            if constexpr (D > 1) { Eigen::Matrix<double, N, N> K; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) K(a, b) = a == b ? 2 + a : 0.25 * a - 0.5 * b; std::vector<MX> Kd; for (int a = 0; a < N; a++) { MX x = MX::Zero(dt[0].rows(), dt[0].cols()); for (int b = 0; b < N; b++) x += K(b, a) * dt[b]; Kd.push_back(x); } MX V = sum_gram(e, ds, Kd); auto km = K * gt; r = relerr(db::integrate(m, el, km, db::grad(s)), V, ms, mt); mc::check(r < 10 * tol, "tensor", w + mc::str(" error ", r));
                db::variable_material_tensor<decltype(gt)> vK = [&](const P&) { return K; }; auto vm = vK * gt; r = relerr(db::integrate(m, el, vm, db::grad(s)), V, ms, mt); mc::check(r < 10 * tol, "tensor", w + mc::str(" as a function, error ", r));
                auto kn = km.dot(n); MX Zn = n(0) * Kd[0]; for (int d = 1; d < D; d++) Zn += n(d) * Kd[d]; MX Wn = C[ks].transpose() * e.G * Zn; r = relerr(db::integrate(m, el, kn, s), Wn, ns, mt); mc::check(r < 10 * tol, "tensor-directional", w + mc::str(" error ", r)); } }
        mc::trace(); }
    for (int k = 0; k <= kmax; k++) { std::string w = w0 + mc::str(" degree ", k); auto b = db::scaled_monomial_basis(m, el, k); MX& c = C[k]; Eigen::VectorXd n = norms(c.transpose() * e.G * c); db::L2_projector<decltype(b)> proj(m, el, b);
        for (size_t j = 0; j < F.ex.size(); j++) if (F.deg(j) <= k + 1) { std::string wj = w + mc::str(" monomial ", j); db::fun<decltype(b)> f = [&](const P& p) { return e.mono(j, p); }; MX fc = MX::Zero(F.ex.size(), 1); fc(j) = 1; Eigen::VectorXd nj(1); nj(0) = e.nf(j); MX ex = c.transpose() * e.G * fc; double r = relerr(db::integrate(m, el, f, b), ex, n, nj); mc::check(r < tol, "rhs", wj + mc::str(" error ", r));
            Eigen::VectorXd p = db::L2_project(m, el, f, b), q = proj(f); projection(wj, e, {c}, {fc}, p, F.deg(j) <= k, tol * 1e3); projection(wj + " by projector", e, {c}, {fc}, q, F.deg(j) <= k, tol * 1e3);
            auto at = e.fr.at(F.u[j % F.u.size()]); double v = db::eval(at, p, b); mc::near(v, (MX(b(at).transpose()) * p)(0), 1e-12, "eval", wj, 100);
            double I = db::integrate(m, el, size_t(k + 1), [&](const P& p) { return e.mono(j, p); }); mc::near(I, e.G(0, j), tol * 10, "integral", wj, e.nf(j) * e.nf(0)); } mc::trace(); }
}
template<typename M> void newer(const std::string& nm, const M& m, int kmax, double tol)
{
    using P = typename M::point_type; constexpr int D = M::dimension; size_t ic = 0; auto& F = fitter<D>(kmax + 2);
    for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); auto e = make_elem<D, P>(F, fr, cell_gram<M, D>(m, cl, fr, F)); std::string w = nm + mc::str(" cell ", ic++); mc::state(w); newer_elem<D, P>(w, m, cl, e, kmax, tol);
        // traces of cell functions and of their fluxes tested on the faces
        if constexpr (D > 1) { auto& FF = fitter<D - 1>(kmax + 2); for (auto& fc : faces(m, cl)) { auto pf = points(m, fc); std::vector<P> ptf(pf.begin(), pf.end()); auto ff = make_frame<P, D - 1>(ptf); auto ef = make_elem<D - 1, P>(FF, ff, face_gram<M, D - 1>(m, fc, ff, FF)); auto n = normal(m, cl, fc);
            for (int kc = 0; kc <= kmax; kc++) for (int kf = 0; kf <= kmax; kf++) { std::string wf = w + mc::str(" face ", offset(m, fc), " cell degree ", kc, " face degree ", kf); auto cb = db::scaled_monomial_basis(m, cl, kc); auto fb = db::scaled_monomial_basis(m, fc, kf); auto g = db::grad(cb); auto gn = g.dot(n); MX A = ncoefs<D - 1, P>(ef, cb), B = ncoefs<D - 1, P>(ef, fb), Q = ncoefs<D - 1, P>(ef, gn); Eigen::VectorXd na = norms(A.transpose() * ef.G * A), nb = norms(B.transpose() * ef.G * B), nq = na / e.fr.h; double sc = std::sqrt(ef.G(0, 0)); for (int i = 0; i < na.size(); i++) na(i) = std::max(na(i), 1e-2 * sc), nq(i) = std::max(nq(i), 1e-2 * sc / e.fr.h);
                double r = relerr(db::integrate(m, fc, cb, fb), B.transpose() * ef.G * A, nb, na), s = relerr(db::integrate(m, fc, gn, fb), B.transpose() * ef.G * Q, nb, nq), t = relerr(db::integrate(m, fc, gn, cb), A.transpose() * ef.G * Q, na, nq); mc::check(r < tol, "trace-mass", wf + mc::str(" error ", r)); mc::check(s < tol * 10, "flux", wf + mc::str(" error ", s)); mc::check(t < tol * 10, "flux-trace", wf + mc::str(" error ", t)); mc::trace(); } } } }
    if constexpr (D > 1) { size_t jf = 0; auto& FF = fitter<D - 1>(kmax + 2); for (auto it = m.faces_begin(); it != m.faces_end(); ++it, jf++) { typename M::face fc = *it; auto p = points(m, fc); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D - 1>(pts); auto e = make_elem<D - 1, P>(FF, fr, face_gram<M, D - 1>(m, fc, fr, FF)); std::string w = nm + mc::str(" face ", jf); mc::state(w); newer_elem<D - 1, P>(w, m, fc, e, kmax, tol); } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); const double tol = 1e-10;
    catalogue1([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ newer(nm, m, th ? 6 : 4, tol); }); });
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ newer(nm, m, th ? 4 : 3, tol); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ newer(nm, m, th ? 3 : 2, tol); }); }, th);
    auto L = lattice(3, 3);
    for (int n = 3; n <= (th ? 6 : 5); n++) for (int part = 0; part < 4; part++) mc::scenario(mc::str("polygons:", n, ":", part), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (c % 4 != size_t(part) || (!th && c % 3)) return; std::vector<P2> pts; std::vector<size_t> pl; for (size_t i = 0; i < idx.size(); i++) pl.push_back(i), pts.push_back(c % 2 ? P2(idx[i][0], idx[i][1]) : P2(0.1 * idx[i][0] + 0.03 * idx[i][1] + 2, 0.05 * idx[i][1] - 3)); gen2 m; poly2(m, pts, {pl}); newer(mc::str("polygon ", n, ":", c), m, 2, tol); }); });
    for (unsigned part = 0; part < 8; part++) mc::scenario(mc::str("hulls:", part), [&]{ auto L3 = lattice3(2, 2, 2); hulls(L3, 32 * part, 32 * (part + 1), [&](unsigned mask, const hull& H) { std::vector<P3> pts; for (auto& q : H.pts) pts.push_back(mask % 2 ? P3(q[0], q[1], q[2]) : P3(q[0] + 0.5 * q[2], 0.5 * q[1] - 0.2 * q[0] + 3., q[2] + 0.05 * q[1])); std::vector<size_t> idf; for (size_t i = 0; i < H.faces.size(); i++) idf.push_back(i); gen3 m; poly3(m, pts, H.faces, {idf}); newer(mc::str("hull ", mask), m, th ? 2 : 1, tol); }, 99); });
    return mc::finish();
}
