// Curl operators: reconstructions in polynomials and tangential / Nedelec face spaces, stabilizations, impedance terms, tangential interpolation.
// MC: libs=jburkardt triangle
#include "hhovec.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
using cplx = std::complex<double>;
template<typename M> VM vcurl(const hcell<M>& c, const VM& A) { return {c.d(A[2], 1) - c.d(A[1], 2), c.d(A[0], 2) - c.d(A[2], 0), c.d(A[1], 0) - c.d(A[0], 1)}; }
inline VM crossn(const VM& A, const VX& n) { return {A[1] * n(2) - A[2] * n(1), A[2] * n(0) - A[0] * n(2), A[0] * n(1) - A[1] * n(0)}; }
inline VM cut(const VM& A, int k) { VM r; for (auto& a : A) r.push_back(a.rightCols(a.cols() - k)); return r; }
// strong: (curl u_T, T) + sum (u_F - u_T, T x n); the same number as (u_T, curl T) + sum (u_F, T x n)
template<typename M> MX crhs(const vdofs<M>& U, const VM& T) { auto& c = U.c; MX b = c.ip(vcurl(c, T), U.cellpart()); for (size_t i = 0; i < c.fs.size(); i++) b += vip(crossn(trace(c.fs[i].T, T), c.fs[i].n), c.fs[i].G, U.facepart(i)); return b; }
template<typename M> bool inface(const vdofs<M>& U, const VM& t, size_t i) { auto& f = U.c.fs[i]; VM e = plus(t, U.B[i] * vl2(U.B[i], f.G, t), -1); return vnorm(e, f.G).maxCoeff() <= 1e-9 * vnorm(t, f.G).maxCoeff(); }
// T: test fields, g: reconstructed curl; scale: size of the tests in the weak form
template<typename M> void cdefinition(const std::string& w, const vdofs<M>& U, const VM& T, const VM& g, int cd, int dcurl, double tol)
{
    auto& c = U.c; VX nt = vnorm(T, c.G), sc = U.s; double big = nt.maxCoeff(); if (T[0].cols() == 0) return; VX flo = nt.cwiseMax(1e-2 * big + 1e-300); for (size_t i = 0; i < c.fs.size(); i++) flo = flo.cwiseMax(vnorm(trace(c.fs[i].T, T), c.fs[i].G) * std::sqrt(c.h) * 1e-6); same("definition", w, c.ip(T, g), crhs(U, T), flo, sc, tol);
    bool tin = true; for (size_t i = 0; i < c.fs.size() && tin; i++) tin = inface(U, crossn(trace(c.fs[i].T, T), c.fs[i].n), i);
    for (size_t j = 0; j < c.F.ex.size(); j++) { int dg = c.F.deg(j); if (dg > c.F.n - 2 || !(dg <= cd || dcurl <= cd)) continue; for (int a = 0; a < 3; a++) { VM v = U.mono(j, a); bool in = tin; if (!in) { in = true; for (size_t i = 0; i < c.fs.size() && in; i++) { VM t = crossn(trace(c.fs[i].T, v), c.fs[i].n); VM n = crossn(t, -c.fs[i].n); in = inface(U, n, i); } } if (!in) continue; VX u = U.interpolate(v); MX o = c.ip(T, plus(g * u, vcurl(c, v), -1)); double s = U.scale(v), q = 0; for (int i = 0; i < o.rows(); i++) q = std::max(q, std::abs(o(i)) / (flo(i) * s)); mc::check(q < tol, "projection", w + mc::str(" monomial ", j, " component ", a, " residual ", q)); } }
    mc::trace(); mc::trans(U.n);
}
template<typename M> void one3(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    double tol = 1e-8; int fmax = th ? 3 : cat && m.cells_size() < 20 ? 2 : 1; hcell<M> c(m, cl, fmax + 3); mc::state(w0); size_t nf = c.fs.size(); using P = typename M::point_type; using V3 = Eigen::Vector3d;
    auto tb = [&](const auto& s, size_t k) { return c.vfcoefs(s, make_vector_monomial_tangential_basis(m, s.fc, k)); }; auto nb = [&](const auto& s, size_t k) { return c.vfcoefs(s, make_vector_monomial_nedelec_tangential_basis(m, s.fc, k)); };
    auto w1 = [&](double x) { return std::vector<double>(nf, x); };
    for (int fd = 1; fd <= fmax; fd++) for (int cd = fd - 1; cd <= fd + 1; cd++) for (int rd = fd; rd <= fd + 1; rd++) {
        disk::hho_degree_info h(disk::priv::hdi_named_args{size_t(rd), size_t(cd), size_t(fd)}); std::string w = w0 + mc::str(" reconstruction ", rd, " cell ", cd, " face ", fd); VM W = c.vcoefs(make_vector_monomial_basis(m, cl, rd));
        for (int ned = 0; ned < 2; ned++) { vdofs<M> U = ned ? vdofs<M>(c, cd, std::vector<int>(nf, fd), nb) : vdofs<M>(c, cd, std::vector<int>(nf, fd), tb); std::string v = w + (ned ? " nedelec" : "");
            { auto pk = ned ? disk::curl_reconstruction_nedelec(m, cl, h) : disk::curl_reconstruction_pk(m, cl, h); MX R = pk.first, A = pk.second; if (shape(v + " pk", R, W[0].cols(), U.n) && shape(v + " pk", A, U.n, U.n)) { VM g = W * R; cdefinition(v + " pk", U, W, g, cd, rd - 1, tol); same("energy", v + " pk", A, c.ip(g, g), U.s, U.s, tol); } }
            if (cd <= fd + 1 && rd == fd) { double wt = ned ? 1 / c.h : 1; vstab(v + " hdg", U, ned ? disk::curl_hdg_stabilization_nedelec(m, cl, h) : disk::curl_hdg_stabilization(m, cl, h), vhdg_form(U, w1(wt), true), w1(wt), std::min(cd, fd - ned), tol);
                // interpolation
                for (size_t j = 0; j < c.F.ex.size(); j++) for (int a = 0; a < 3; a++) { VM f = U.mono(j, a); auto u = [&](const P& p) { V3 r = V3::Zero(); r(a) = c.mono(j, p); return r; }; disk::vector_rhs_function<M> uu(u); vinterpolant(v, U, ned ? disk::project_tangent_nedelec(m, cl, h, uu, (c.F.deg(j) + 1) / 2) : disk::project_tangent(m, cl, h, uu, (c.F.deg(j) + 1) / 2), f);
                    if (!ned && cd == fd) for (size_t i = 0; i < nf; i++) { VX x = disk::project_tangent(m, c.fs[i].fc, size_t(fd), uu, (c.F.deg(j) + 1) / 2), y = vl2(U.B[i], c.fs[i].G, trace(c.fs[i].T, f)); double q = x.size() == y.size() ? vnorm(U.B[i] * (x - y), c.fs[i].G)(0) / (vnorm(trace(c.fs[i].T, f), c.fs[i].G)(0) + vnorm(f, c.G)(0) / std::sqrt(c.h)) : 1e300; mc::check(q < 1e-8, "interpolant", v + mc::str(" face ", i, " error ", q)); }
                    if (!ned && c.F.deg(j) <= std::min(cd, fd)) { auto z = disk::maxwell_prj(m, cl, h, [&](const P& p) { return Eigen::Vector3cd(cplx(0, 1) * u(p)); }); VX x = z.imag(); vinterpolant(v + " complex", U, x, f); mc::check(z.real().norm() <= 1e-9 * x.norm(), "interpolant-real", v); } } }
            if (!ned && cd <= rd) { auto cr = disk::curl_reconstruction(m, cl, h); MX R = cr.first, A = cr.second; VM W1 = cut(W, 3), T = vcurl(c, W1); if (shape(v, R, W1[0].cols(), U.n) && shape(v, A, U.n, U.n)) { VM Pt = W1 * R, g = vcurl(c, Pt); cdefinition(v, U, T, g, cd, rd - 2, tol); same("energy", v, A, c.ip(g, g), U.s, U.s, tol);
                    vstab(v + " hho", U, disk::curl_hho_stabilization(m, cl, Eigen::Matrix<double, -1, -1>(cr.first), h), vhho_form(U, Pt, weights(c, by_face)), weights(c, by_face), 0, tol * 100); }
                auto dr = disk::curl_reconstruction_div(m, cl, h); MX Q = dr.first, B = dr.second; if (shape(v + " div", Q, W[0].cols(), U.n) && shape(v + " div", B, U.n, U.n)) { VM Pt = W * Q, g = vcurl(c, Pt), T2 = vcurl(c, W); cdefinition(v + " div", U, T, g, cd, rd - 2, tol); same("energy", v + " div", B, c.ip(g, g), U.s, U.s, tol); MX q = c.coefs(make_scalar_monomial_basis(m, cl, rd)); VM gr = c.grad(MX(q.rightCols(q.cols() - 1))); VM df = plus(Pt, U.cellpart(), -1); VX ng = vnorm(gr, c.G); MX o = c.ip(gr, df); double e = 0; for (int i = 0; i < o.rows(); i++) for (int j = 0; j < U.n; j++) e = std::max(e, std::abs(o(i, j)) / (ng(i) * U.s(j) * c.h)); mc::check(e < tol * 10, "divergence", v + mc::str(" residual ", e)); double vol = c.G(0, 0), x = 0; for (int a = 0; a < 3; a++) { MX z = c.G.row(0) * df[a]; for (int j = 0; j < U.n; j++) x = std::max(x, std::abs(z(0, j)) / (std::sqrt(vol) * U.s(j) * c.h)); } mc::check(x < tol * 10, "mean", v + mc::str(" residual ", x)); } }
            if (!ned && rd == fd) { MX Mm = MX::Zero(U.n, U.n); VM uT = U.cellpart(); Mm = c.ip(uT, uT); same("mass", v, disk::make_vector_mass_oper(m, cl, h), Mm, U.s * c.h, U.s * c.h, tol);
                auto z2 = disk::make_vector_mass_oper<cplx>(m, cl, h); same("mass", v + " complex", MX(z2.real()), Mm, U.s * c.h, U.s * c.h, tol); mc::check(z2.imag().norm() == 0, "mass-real", v);
                { cplx mur(2, 1), jw(0, 3), Z(1.5, -0.5); auto S = disk::curl_Z_stabilization<cplx>(m, cl, h, mur, jw, Z); MX X = vhdg_form(U, w1(1), true); cplx k = jw / Z * jw / Z; same("impedance-stabilization", v, MX((S / k).real()), X, U.s * c.h, U.s, tol); same("impedance-stabilization", v + " imaginary", MX((S / k).imag()), MX(0 * X), U.s * c.h, U.s, tol); auto S2 = disk::curl_hdg_stabilization<cplx>(m, cl, h); same("form", v + " complex hdg", MX(S2.real()), X, U.s * c.h, U.s, tol); }
                { auto C = make_vector_monomial_basis(m, cl, cd); VM g = vcurl(c, U.C); same("curl-curl", v, disk::make_curl_curl_matrix(m, cl, C), c.ip(g, g), U.s.head(g[0].cols()), U.s.head(g[0].cols()), tol); }
                for (size_t i = 0; i < nf; i++) { auto& f = c.fs[i]; MX Y = vip(U.B[i], f.G, U.B[i]); VX nrm = vnorm(U.B[i], f.G); same("impedance", v, disk::make_impedance_term(m, f.fc, fd), Y, nrm, nrm, tol);
                    for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= fd) for (int a = 0; a < 3; a++) { auto pw = disk::make_plane_wave_term(m, f.fc, size_t(fd), [&](const P& p) { V3 r = V3::Zero(); r(a) = c.mono(j, p); return r; }); same("plane-wave", v, MX(pw.first), Y, nrm, nrm, tol); VM t = trace(f.T, U.mono(j, a)); VX one = VX::Ones(1) * (vnorm(t, f.G)(0) + std::sqrt(f.G(0, 0))); same("plane-wave-rhs", v, MX(pw.second), vip(U.B[i], f.G, t), nrm, one, tol); } }
                std::set<size_t> ids; for (auto& f : c.fs) if (m.is_boundary(f.fc)) ids.insert(m.boundary_id(f.fc)); ids.insert(77); for (size_t id : ids) { auto im = disk::make_impedance_term(m, cl, h, id, 2.0); MX Y = MX::Zero(U.n, U.n); VX y = VX::Zero(U.n); for (size_t i = 0; i < nf; i++) if (m.is_boundary(c.fs[i].fc) && m.boundary_id(c.fs[i].fc) == id) { int k = U.B[i][0].cols(); Y.block(U.off[i], U.off[i], k, k) = 2 * vip(U.B[i], c.fs[i].G, U.B[i]); VM e(3, MX::Zero(c.fs[i].G.rows(), 1)); e[2](0, 0) = 1; y.segment(U.off[i], k) = 2 * vip(U.B[i], c.fs[i].G, e); } same("impedance-cell", v, MX(im.first), Y, U.s, U.s * c.h, tol); same("impedance-cell-rhs", v, MX(im.second), MX(y), U.s, VX::Ones(1) * c.h * c.h, tol); } } } }
}
template<typename M> void one2(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    double tol = 1e-9; int fmax = th ? 4 : 3; hcell<M> c(m, cl, fmax + 3); mc::state(w0); MX I = MX::Identity(2, 2);
    orders(fmax, [&](int cd, int fd) { disk::hho_degree_info h(cd, fd); std::string w = w0 + mc::str(" cell ", cd, " face ", fd); dofs<M> U(c, cd, std::vector<int>(c.fs.size(), fd)); potential(w, U, c.coefs(make_scalar_monomial_basis(m, cl, fd + 1)), disk::curl_reconstruction(m, cl, h), I, plain, fd + 1, fd + 1, tol); auto wt = weights(c, by_face); stab(w, U, disk::curl_hdg_stabilization(m, cl, h), hdg_form(U, wt, true), wt, cd, tol); });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes<false>(th, [&]<typename M>(const std::string& w, M& m, auto& cl, bool cat) { if constexpr (M::dimension == 3) one3(w, m, cl, cat, th); else one2(w, m, cl, cat, th); }, 7, 6); return mc::finish();
}
