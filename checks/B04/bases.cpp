// Legendre and harmonic bases on every element shape and degree.
// MC: libs=jburkardt triangle
#include "scalarbasis.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
#include "diskpp/geometry/geometry.hpp"
using namespace mm;
template<typename M> void legendre(const std::string& nm, const M& m, size_t kmax, size_t kmaxf)
{
    using P = typename M::point_type; constexpr int D = M::dimension; size_t ic = 0;
    for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); mc::state(nm + mc::str(" cell ", ic));
        for (int in = 0; in < 2; in++) for (size_t k = 0; k <= kmax; k++) { std::string w = nm + mc::str(" cell ", ic, " legendre degree ", k, in ? " inertia" : ""); auto b = make_scalar_legendre_basis(m, cl, k, in); MX C = scalar_basis<D, P>(w, fr, b, k, binom(k + D, D), 1e-8); nested<D, decltype(b)>(w, C, k, true); gradients<D, P>(w, fr, b, C, k, 1e-8); mc::trace(); }
        ic++; }
    size_t jf = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, jf++) { auto fc = *it; auto p = points(m, fc); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D - 1>(pts); mc::state(nm + mc::str(" face ", jf));
        for (size_t k = 0; k <= kmaxf; k++) { std::string w = nm + mc::str(" face ", jf, " legendre degree ", k); auto b = make_scalar_legendre_basis(m, fc, k, false); MX C = scalar_basis<D - 1, P>(w, fr, b, k, binom(k + D - 1, D - 1), 1e-8); nested<D - 1, decltype(b)>(w, C, k, true); mc::trace();
            if constexpr (D == 2) { MX G = make_mass_matrix(m, fc, b); double e = (G - MX::Identity(G.rows(), G.cols())).cwiseAbs().maxCoeff(), off = 0; for (int i = 0; i < G.rows(); i++) for (int j = 0; j < G.cols(); j++) if (i != j) off = std::max(off, std::abs(G(i, j)) / std::sqrt(G(i, i) * G(j, j))); mc::check(off < 1e-11, "orthogonal", w + mc::str(" ", off)); if (b.is_orthonormal()) mc::check(e < 1e-11, "orthonormal", w + mc::str(" departs from the identity by ", e)); } }
    }
}
// on boxes aligned with the axes the cell functions are orthonormal
template<typename M> void boxes(const std::string& nm, const M& m, size_t kmax)
{
    size_t ic = 0; for (auto& cl : m) { for (size_t k = 0; k <= kmax; k++) { auto b = make_scalar_legendre_basis(m, cl, k, false); MX G = make_mass_matrix(m, cl, b); double e = (G - MX::Identity(G.rows(), G.cols())).cwiseAbs().maxCoeff(); mc::check(e < 1e-10, "box-orthonormal", nm + mc::str(" cell ", ic, " degree ", k, " ", e)); mc::trans(G.size()); mc::trace(); } ic++; }
}
template<typename M> void harmonic(const std::string& nm, const M& m, size_t kmax)
{
    using P = typename M::point_type; constexpr int D = M::dimension; size_t ic = 0;
    auto hsize = [](size_t k) { return D == 2 ? 2 * k + 1 : (k + 1) * (k + 1); };
    for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); mc::state(nm + mc::str(" cell ", ic));
        for (size_t k = 0; k <= kmax; k++) { mc::check(disk::harmonic_basis_size(k, D) == hsize(k), "harmonic-size", nm);
            for (size_t pd = 0; pd <= k; pd++) { std::string w = nm + mc::str(" cell ", ic, " harmonic degree ", k, " polynomials up to ", pd); auto b = make_scalar_harmonic_top_basis(m, cl, k); b.maximum_polynomial_degree(pd); mc::check(b.maximum_polynomial_degree() == pd, "max-degree-kept", w);
                size_t np = binom(pd + D, D), n = np + hsize(k) - hsize(pd); mc::check(b.poly_size() == np && b.harmonic_size() == n - np, "part-sizes", w);
                MX C = scalar_basis<D, P>(w, fr, b, k, n, 1e-8); nested<D, decltype(b)>(w, C, k, false); gradients<D, P>(w, fr, b, C, k, 1e-8); mc::trace(); if (!C.size()) continue;
                auto& F = fitter<D>(k + 1); double lap = 0; size_t bi = 0; for (size_t i = np; i < n; i++) { MX c = C.col(i), l = MX::Zero(c.rows(), 1); for (int d = 0; d < D; d++) l += F.diff(F.diff(c, d), d); double x = l.cwiseAbs().maxCoeff() / c.cwiseAbs().maxCoeff(); if (!(x <= lap)) lap = std::isfinite(x) ? x : 1e300, bi = i; } mc::check(lap < 1e-7, "laplacian", w + mc::str(" function ", bi, " ", lap));
                // together with the harmonic polynomials of degree up to pd (all of P^pd): dimension counts above + independence
                // the special points of the element: barycenter, vertices, the axes through the barycenter
                std::vector<P> sp(pts); P bar = barycenter(m, cl); sp.push_back(bar); for (int d = 0; d < D; d++) for (double s : {-0.25, 0.5}) { P q = bar; q[d] += s * fr.h; sp.push_back(q); }
                bool ok = true; double worst = 0; for (auto& q : sp) { auto f = b.eval_functions(q); MX g = b.eval_gradients(q); if (!f.allFinite() || !g.allFinite()) { ok = false; continue; }
                    std::array<double, D> u; for (int d = 0; d < D; d++) u[d] = (q[d] - fr.c[d]) / fr.h; Eigen::RowVectorXd mo(F.ex.size()); for (size_t j = 0; j < F.ex.size(); j++) mo(j) = fit<D>::mono(F.ex[j], u);
                    for (size_t i = 0; i < n; i++) { double sc = C.col(i).cwiseAbs().maxCoeff(); worst = std::max(worst, std::abs((mo * C.col(i))(0) - f(i)) / sc); for (int d = 0; d < D; d++) worst = std::max(worst, std::abs((mo * F.diff(MX(C.col(i)), d))(0) / fr.h - g(i, d)) * fr.h / sc); } }
                mc::check(ok, "finite-at-special-points", w); mc::check(worst < 1e-7, "special-points", w + mc::str(" ", worst));
            } }
        ic++; }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    // the one dimensional Legendre polynomials themselves: three term recurrence and derivatives
    mc::scenario("legendre1d", [&]{ for (size_t k = 0; k <= 12; k++) { std::string w = mc::str("degree ", k); bool refused = false; try { disk::legendre_1D<double> L(k); mc::check(L.size() == k + 1 && L.degree() == k, "legendre-size", w);
            for (int i = -40; i <= 40; i++) { double x = i / 40.0; auto f = L.eval_functions(x); auto g = L.eval_gradients(x); std::vector<double> P(k + 2, 1), Q(k + 2, 0); if (k) P[1] = x, Q[1] = 1; for (size_t n = 1; n < k; n++) P[n + 1] = ((2 * n + 1) * x * P[n] - n * P[n - 1]) / (n + 1), Q[n + 1] = (2 * n + 1) * P[n] + Q[n - 1];
                for (size_t n = 0; n <= k; n++) { double s = std::sqrt((2.0 * n + 1) / 2); mc::near(f(n), s * P[n], 1e-11, "legendre-value", w + mc::str(" function ", n, " at ", x)); mc::near(g(n), s * Q[n], 1e-10, "legendre-derivative", w + mc::str(" function ", n, " at ", x), n * n * s + 1); } mc::trans(k + 1); } } catch (const std::exception&) { refused = true; } mc::check(refused == (k > 10), "legendre-offered", w); mc::trace(); } });
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario("leg:" + nm, [&]{ legendre(nm, m, th ? 10 : 8, 10); }); mc::scenario("harm:" + nm, [&]{ harmonic(nm, m, th ? 9 : 6); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario("leg:" + nm, [&]{ legendre(nm, m, th ? 5 : 3, th ? 8 : 6); }); mc::scenario("harm:" + nm, [&]{ harmonic(nm, m, th ? 6 : 4); }); }, th);
    for (double sx : {1.0, 0.25, 3.0}) for (double sy : {1.0, 0.5}) mc::scenario(mc::str("box:", sx, ":", sy), [&]{ car2 m; grid2(m, {0, sx * 0.25, sx}, {-1, -1 + sy}); boxes("car2", m, th ? 10 : 8); legendre("car2", m, 3, 4); harmonic("car2", m, 5); gen2 g; polycopy2(m, g); boxes("gen2", g, 6); car3 m3; grid3(m3, {0, sx}, {1, 1 + sy}, {0, 0.5, 2}); boxes("car3", m3, 4); legendre("car3", m3, 2, 3); harmonic("car3", m3, 4); });
    auto L = lattice(3, 3);
    for (int n = 3; n <= (th ? 6 : 5); n++) mc::scenario(mc::str("polygons:", n), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (!th && c % 3) return; std::vector<P2> pts; std::vector<size_t> pl; for (size_t i = 0; i < idx.size(); i++) pl.push_back(i), pts.push_back(c % 2 ? P2(idx[i][0], idx[i][1]) : P2(0.25 * idx[i][0] + 0.1 * idx[i][1] + 2, 0.2 * idx[i][1] - 3)); gen2 m; poly2(m, pts, {pl}); legendre(mc::str("polygon ", n, ":", c), m, th ? 5 : 3, 3); harmonic(mc::str("polygon ", n, ":", c), m, th ? 5 : 4); }); });
    struct { int x, y, z; unsigned parts; } ls[] = {{2, 2, 2, 4}, {2, 2, 3, 16}};
    for (auto& l : ls) { if (l.z > 2 && !th) continue; auto L3 = lattice3(l.x, l.y, l.z); unsigned N = 1u << L3.size(); for (unsigned part = 0; part < l.parts; part++) mc::scenario(mc::str("hulls:", L3.size(), ":", part), [&]{ hulls(L3, N / l.parts * part, N / l.parts * (part + 1), [&](unsigned mask, const hull& H) { std::vector<P3> pts; bool pl = mask % 3; for (auto& q : H.pts) pts.push_back(pl ? P3(q[0], q[1], q[2]) : P3(q[0] + 0.5 * q[2], 0.5 * q[1] - 0.2 * q[0] + 3., q[2] + 0.05 * q[1])); std::vector<size_t> allf; for (size_t i = 0; i < H.faces.size(); i++) allf.push_back(i); gen3 m; poly3(m, pts, H.faces, {allf}); legendre(mc::str("hull ", mask), m, 2, 2); harmonic(mc::str("hull ", mask), m, 3); }, l.z > 2 ? 7 : 99); }); }
    return mc::finish();
}
