// Local virtual element operators on every cell: all degrees, all monomials, all unit degrees of freedom.
// MC: libs=jburkardt triangle
#include "hhorec.hpp"
#include "complex.hpp"
#include "diskpp/methods/vem"
using namespace mm;
namespace ve = disk::vem_2d;
// Gauss-Lobatto nodes of k+1 points on [0,1], from the derivative of the Legendre polynomial
static std::vector<double> lobatto(int k) { auto dp = [&](double x) { double p0 = 1, p1 = x; for (int n = 2; n <= k; n++) { double p = ((2 * n - 1) * x * p1 - (n - 1) * p0) / n; p0 = p1; p1 = p; } return k * (x * p1 - p0) / (x * x - 1); }; std::vector<double> r{0}; if (k > 1) { int N = 2000; std::vector<double> z; for (int i = 1; i < N - 1; i++) { double a = -1 + 2.0 * i / N + 1e-7, b = a + 2.0 / N; if (b >= 1) break; if (dp(a) * dp(b) < 0) { for (int q = 0; q < 100; q++) { double c = (a + b) / 2; (dp(a) * dp(c) <= 0 ? b : a) = c; } z.push_back((a + b) / 2); } } for (double x : z) r.push_back((x + 1) / 2); } r.push_back(1); if (int(r.size()) != k + 1) abort(); return r; }
template<typename M> void local_op(const std::string& w, const M& m, const typename M::cell& cl, int K, bool ccw_known)
{
    // the faces make a closed counter-clockwise path
    auto fcc = disk::faces_ccw(m, cl); std::vector<P2> v; bool chain = true; std::vector<typename M::face> fs; for (auto& [fc, flip] : fcc) { auto p = points(m, fc); v.push_back(p[flip ? 1 : 0]); fs.push_back(fc); }
    { size_t i = 0; for (auto& [fc, flip] : fcc) { auto p = points(m, fc); auto e = p[flip ? 0 : 1], s = v[(i + 1) % v.size()]; chain &= e.x() == s.x() && e.y() == s.y(); i++; } } std::vector<size_t> a, b; for (auto& f : fs) a.push_back(offset(m, f)); for (auto& f : faces(m, cl)) b.push_back(offset(m, f)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (!mc::check(chain && a == b, "faces-chain", w)) return; double ar = 0; for (size_t i = 0; i < v.size(); i++) { auto &p = v[i], &q = v[(i + 1) % v.size()]; ar += p.x() * q.y() - p.y() * q.x(); } if (ccw_known) mc::check(ar > 0, "faces-ccw", w);
    size_t nf = v.size(); double A = std::abs(ar) / 2;
    for (int k = 1; k <= K; k++) { std::string W = w + mc::str(" degree ", k); hcell<M> c(m, cl, k + 2); int lbs = k < 2 ? 0 : k * (k - 1) / 2, n = nf * k + lbs, cbs = (k + 1) * (k + 2) / 2; auto gl = lobatto(k); MX B = c.coefs(make_scalar_monomial_basis(m, cl, size_t(k))), Q; if (lbs) Q = c.coefs(make_scalar_monomial_basis(m, cl, size_t(k - 2))); VX one = VX::Zero(c.F.ex.size()); for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.ex[j][0] + c.F.ex[j][1] == 0) one(j) = 1;
        auto dof = [&](const VX& p) { VX r(n); int q = 0; for (size_t i = 0; i < nf; i++) for (int s = 0; s < k; s++) { auto x = v[i] + (v[(i + 1) % nf] - v[i]) * gl[s]; r(q++) = c.value(p, x); } if (lbs) r.tail(lbs) = Q.transpose() * c.G * p / A; return r; };
        // degrees of freedom of the basis
        MX D = ve::matrix_D(m, cl, k); MX R(n, cbs); for (int j = 0; j < cbs; j++) R.col(j) = dof(B.col(j)); double tol = 1e-9; auto close = [&](const MX& X, const MX& Y, double s) { return X.rows() == Y.rows() && X.cols() == Y.cols() && X.allFinite() && (X - Y).cwiseAbs().maxCoeff() <= tol * s; };
        if (!mc::check(close(D, R, 1 + R.cwiseAbs().maxCoeff()), "degrees-of-freedom", W)) continue;
        // the exact functional (grad q, grad v) = sum_F (v, dq/dn)_F - (v, lap q): v is known on the faces and through its moments
        MX Kx = MX::Zero(cbs, cbs), Bx = MX::Zero(cbs, n); auto g = c.grad(B); for (auto& x : g) Kx += x.transpose() * c.G * x; MX lap = c.d(g[0], 0) + c.d(g[1], 1); if (lbs) Bx.rightCols(lbs) -= A * l2(Q, c.G, lap).transpose();
        for (size_t i = 0; i < nf; i++) { const typename hcell<M>::side* s = nullptr; for (auto& t : c.fs) if (t.fc == fs[i]) s = &t; auto &p0 = v[i], &p1 = v[(i + 1) % nf]; double L = std::hypot(p1.x() - p0.x(), p1.y() - p0.y()); MX dn = g[0] * s->n(0) + g[1] * s->n(1);
            // Lagrange polynomials on the nodes, integrated with as many Gauss points as needed (here: Simpson-free closed form through the monomial matrix)
            int N = 2 * k + 2; std::vector<double> x(N), wt(N); for (int q = 0; q < N; q++) { double t = std::cos(M_PI * (q + 0.75) / (N + 0.5)), p, pp; for (int it = 0; it < 60; it++) { double a0 = 1, a1 = t; for (int z = 2; z <= N; z++) { double a2 = ((2 * z - 1) * t * a1 - (z - 1) * a0) / z; a0 = a1; a1 = a2; } p = a1; pp = N * (t * a1 - a0) / (t * t - 1); t -= p / pp; } x[q] = (1 + t) / 2; wt[q] = 1 / ((1 - t * t) * pp * pp); }
            for (int q = 0; q < N; q++) { auto P = p0 + (p1 - p0) * x[q]; VX d = (c.row(P) * dn).transpose(); for (int s2 = 0; s2 <= k; s2++) { double l = 1; for (int z = 0; z <= k; z++) if (z != s2) l *= (x[q] - gl[z]) / (gl[s2] - gl[z]); Bx.col((i * k + s2) % (nf * k)) += wt[q] * L * l * d; } } }
        MX G = ve::matrix_G(m, cl, k), Bm = ve::matrix_B(m, cl, k), Pn = ve::projector_nabla(m, cl, k, G); double bs = 1 + Bx.cwiseAbs().maxCoeff(), ks = 1 + Kx.cwiseAbs().maxCoeff();
        mc::check(close(Bm.bottomRows(cbs - 1), Bx.bottomRows(cbs - 1), bs), "right-hand-side-of-the-projection", W); mc::check(close(G.bottomRows(cbs - 1), Kx.bottomRows(cbs - 1), ks), "stiffness-of-the-basis", W);
        // reproduction of polynomials, definition for all unit degrees of freedom, fixing of the constant
        double ps = 1 + Pn.cwiseAbs().maxCoeff() * D.cwiseAbs().maxCoeff(); mc::check(close(Pn * D, MX::Identity(cbs, cbs), ps), "reproduction", W); mc::check(close(Kx * Pn, Bx, bs * (1 + Pn.cwiseAbs().maxCoeff())), "projection-definition", W);
        { VX r(n); if (k == 1) { VX s = VX::Zero(cbs); for (auto& p : v) s += (c.row(p) * B).transpose() / double(nf); r = VX::Constant(n, 1.0 / nf); mc::check(close((s.transpose() * Pn).transpose(), r, ps), "constant-fixing", W); } else { r = VX::Zero(n); r(nf * k) = 1; mc::check(close((one.transpose() * c.G * B * Pn / A).transpose(), r, ps), "constant-fixing", W); } }
        // local matrix: symmetric, positive, constants in the kernel only, exact against polynomials
        MX S = ve::local_stiffness_matrix(m, cl, k, G, D, Pn); double ss = 1 + S.cwiseAbs().maxCoeff(); if (!mc::check(S.rows() == n && S.cols() == n && S.allFinite(), "stiffness-size", W)) continue; mc::check(close(S, S.transpose(), ss), "stiffness-symmetric", W); mc::check(close(S * D, Bx.transpose(), bs + ss * D.cwiseAbs().maxCoeff()), "stiffness-consistent", W); Eigen::SelfAdjointEigenSolver<MX> es((S + S.transpose()) / 2, Eigen::EigenvaluesOnly); mc::check(es.eigenvalues()(0) > -1e-11 * ss, "stiffness-positive", W); mc::check(n < 2 || es.eigenvalues()(1) > 1e-10 * ss, "stiffness-kernel", W + mc::str(" second eigenvalue ", es.eigenvalues()(1)));
        // projection onto polynomials of every lower degree
        for (int q = std::max(0, k - 2); q <= k; q++) { int pb = (q + 1) * (q + 2) / 2; MX Bq = c.coefs(make_scalar_monomial_basis(m, cl, size_t(q))), P0 = ve::projector_zero(m, cl, k, q, Pn); if (!mc::check(P0.rows() == pb && P0.cols() == n && P0.allFinite(), "l2-size", W)) continue; std::string V = W + mc::str(" onto ", q); double p0s = 1 + P0.cwiseAbs().maxCoeff() * (1 + D.cwiseAbs().maxCoeff()); mc::check(close(P0 * D, l2(Bq, c.G, B), p0s), "l2-projection", V); if (lbs) mc::check(close(Q.transpose() * c.G * Bq * P0.leftCols(n) / A, (MX(lbs, n) << MX::Zero(lbs, n - lbs), MX::Identity(lbs, lbs)).finished(), p0s), "l2-moments", V);
            // loads of all monomials
            for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.ex[j][0] + c.F.ex[j][1] <= k) { VX f = c.mono_col(j), r = ve::local_rhs(m, cl, k, q, P0, [&](const P2& x) { return c.mono(j, x); }), e = (Bq * P0).transpose() * c.G * f; mc::check(close(r, e, A * p0s), "load", V); mc::trans(); } }
        for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.ex[j][0] + c.F.ex[j][1] <= k) { auto [L, r] = ve::compute_local(m, cl, k, [&](const P2& x) { return c.mono(j, x); }); mc::check(close(L, S, ss), "compute-local", W); VX f = c.mono_col(j); double e = (D.transpose() * r - B.transpose() * c.G * f).head(k * (k + 1) / 2).cwiseAbs().maxCoeff(); mc::check(e <= tol * (1 + A) * (1 + r.cwiseAbs().maxCoeff() * D.cwiseAbs().maxCoeff()), "compute-local-load", W); }
        mc::state(W); mc::trace(); mc::trans(n); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); int K = th ? 5 : 4;
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ size_t ic = 0; for (auto& cl : m) local_op(nm + mc::str(" cell ", ic++), m, cl, K, true); }); }, th);
    auto L = lattice(3, 3); for (int n = 3; n <= (th ? 7 : 5); n++) for (int part = 0; part < 4; part++) mc::scenario(mc::str("polygons:", n, ":", part), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& q) { c++; if (c % 4 != size_t(part) || (!th && n == 5 && c % 3) || (n == 6 && c % 3) || (n == 7 && c % 19)) return; for (int rot = 0; rot < (n == 3 ? 3 : n < 5 ? 2 : 1); rot++) { std::vector<P2> pts; std::vector<size_t> id; for (size_t i = 0; i < q.size(); i++) { auto& x = q[(i + rot) % q.size()]; pts.push_back(P2(0.5 * x[0] - 0.25, 0.375 * x[1] + 1)); id.push_back(i); } gen2 m; poly2(m, pts, {id}); local_op(mc::str("polygon ", n, " ", c, " rotated ", rot), m, *m.cells_begin(), n < 5 ? K : n < 7 ? 3 : 2, true); if (n == 3) { for (int f = 0; f < 2; f++) { tri2 t; tris(t, f ? std::vector<P2>{pts[0], pts[2], pts[1]} : pts, {{0, 1, 2}}); local_op(mc::str("triangle ", c, " rotated ", rot, " ", f), t, *t.cells_begin(), K, true); } } } }); });
    for (double hx : {0.25, 1.0, 3.0}) for (double hy : {0.5, 2.0}) mc::scenario(mc::str("quad:", hx, ":", hy), [&]{ car2 m; grid2(m, {-1, -1 + hx}, {2, 2 + hy}); local_op("quad", m, *m.cells_begin(), K, true); });
    return mc::finish();
}
