// The newer scalar basis interface (disk::basis): every strategy, degree ranges, scale factors, faces.
// MC: libs=jburkardt triangle
#include "scalarbasis.hpp"
#include "gens.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
using namespace mm; using disk::basis::rescaling_strategy;
// the older interface's shape, so that the same oracle applies
template<typename B> struct as_old { const B& b; size_t size() const { return b.size(); } size_t degree() const { return b.degree(); }
    template<typename P> Eigen::VectorXd eval_functions(const P& p) const { return b(p); } template<typename P> MX eval_gradients(const P& p) const { return b.grad(p); } };
template<int D, typename P, typename B> void basis_ok(const std::string& w, const frame<P, D>& fr, const B& b, size_t k, bool grads = true)
{
    as_old<B> o{b}; size_t n = binom(k + D, D); mc::check(B::size_of_degree(k) == n, "size-of-degree", w); MX co = scalar_basis<D, P>(w, fr, o, k, n); nested<D, as_old<B>>(w, co, k, true);
    if constexpr (int(P::dimension) == D) if (grads) gradients<D, P>(w, fr, o, co, k); mc::trace();
}
template<typename M> void every(const std::string& nm, const M& m, size_t kmax)
{
    using namespace disk::basis; using P = typename M::point_type; constexpr int D = M::dimension; size_t ic = 0;
    for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); mc::state(nm + mc::str(" cell ", ic));
        for (size_t k = 0; k <= kmax; k++) { std::string w = nm + mc::str(" cell ", ic, " degree ", k);
            auto b = scaled_monomial_basis(m, cl, k); basis_ok<D, P>(w, fr, b, k); mc::check(b.integration_degree() >= k, "integration-degree", w); std::array<double, D> u; u.fill(0.3); P x = fr.at(u);
            { auto g = grad(b); MX a = g(x), c = b.grad(x); mc::check(a.rows() == c.rows() && a == c, "grad-evaluator", w); mc::check(g.size() == b.size() && g.integration_degree() >= (k ? k - 1 : 0), "grad-evaluator-degree", w);
              Eigen::Matrix<double, D, 1> n; for (int d = 0; d < D; d++) n(d) = 0.5 - d; auto dn = g.dot(n); Eigen::VectorXd v = dn(x), e = c * n; mc::check(v.size() == e.size() && (v - e).norm() <= 1e-13 * (1 + e.norm()), "grad-dot", w); mc::check(dn.integration_degree() >= (k ? k - 1 : 0), "dot-degree", w);
              Eigen::VectorXd dofs = Eigen::VectorXd::LinSpaced(b.size(), -1, 2); double ev = disk::basis::eval(x, dofs, b); mc::near(ev, dofs.dot(b(x)), 1e-12, "eval", w, 10); }
            if constexpr (D == 1) { for (size_t lo = 0; lo <= k; lo++) { for (size_t hi = lo; hi <= k; hi++) { auto r = disk::basis::degs(lo, hi); MX f = b(x), fr_ = b(x, r), g = b.grad(x), gr = b.grad(x, r); mc::check(fr_.rows() == long(hi - lo + 1) && fr_ == f.block(lo, 0, hi - lo + 1, 1) && gr.rows() == long(hi - lo + 1) && gr == g.block(lo, 0, hi - lo + 1, 1), "degree-range", w + mc::str(" [", lo, ",", hi, "]")); }
                auto r = disk::basis::degs(lo, disk::basis::_); MX f = b(x), fr_ = b(x, r), g = b.grad(x), gr = b.grad(x, r); mc::check(fr_.rows() == long(k - lo + 1) && fr_ == f.bottomRows(k - lo + 1) && gr == g.bottomRows(k - lo + 1), "degree-range", w + mc::str(" [", lo, ",max]")); }
              for (double sf : {1.0, 2.0, 0.5}) { auto b2 = scaled_monomial_basis(m, cl, k); b2.scalefactor(sf); mc::check(b2.scalefactor() == sf, "scalefactor-kept", w); basis_ok<D, P>(w + mc::str(" scale ", sf), fr, b2, k); } }
            if constexpr (D >= 2) if (!k) { auto A = element_local_axes(m, cl); double off = 0, lo = 1e300, hi = 0; for (int i = 0; i < D; i++) { double n = A.col(i).norm(); lo = std::min(lo, n); hi = std::max(hi, n); for (int j = 0; j < i; j++) off = std::max(off, std::abs(A.col(i).dot(A.col(j))) / (n * A.col(j).norm())); } mc::check(std::isfinite(off) && off < 1e-9 && lo > 1e-7 * hi, "local-axes", w + mc::str(" orthogonality ", off, " lengths ", lo, " ", hi)); }
            if constexpr (D == 2) { for (auto rs : {rescaling_strategy::none, rescaling_strategy::unspecified, rescaling_strategy::gram_schmidt, rescaling_strategy::inertial}) { auto b2 = scaled_monomial_basis(m, cl, k, rs); basis_ok<D, P>(w + mc::str(" strategy ", int(rs)), fr, b2, k); b2.scalefactor(1.0); basis_ok<D, P>(w + mc::str(" rescaled, strategy ", int(rs)), fr, b2, k); } }
        } ic++; }
    size_t jf = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, jf++) { const typename M::face& fc = *it; auto p = points(m, fc); std::vector<P> pts(p.begin(), p.end()); 
        for (size_t k = 0; k <= kmax; k++) { std::string w = nm + mc::str(" face ", jf, " degree ", k); auto b = scaled_monomial_basis(m, fc, k);
            if constexpr (D == 1) { mc::check(b.size() == 1 && b(pts[0]) == 1, "point-basis", w); }
            else { auto fr = make_frame<P, D - 1>(pts); basis_ok<D - 1, P>(w, fr, b, k);
                // surface gradients: along the face they are the derivatives of the functions
                if constexpr (D == 3) if (k) { auto& F = fitter<2>(k + 1); as_old<decltype(b)> o{b}; MX v = bvalues<2, P>(F, fr, b.size(), [&](const P& q) { return o.eval_functions(q); }), C = F.coef(v); double worst = 0; for (int d = 0; d < 2; d++) { MX ex = F.V * F.diff(C, d) / fr.h, g(F.u.size(), b.size()); for (size_t q = 0; q < F.u.size(); q++) g.row(q) = (b.grad(fr.at(F.u[q])) * fr.ax[d]).transpose(); for (size_t i = 0; i < b.size(); i++) { double e = (g.col(i) - ex.col(i)).cwiseAbs().maxCoeff() / (C.col(i).cwiseAbs().maxCoeff() / fr.h); if (!(e <= worst)) worst = std::isfinite(e) ? e : 1e300; } } mc::check(worst < 1e-8, "surface-gradient", w + mc::str(" error ", worst)); }
            } } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    catalogue1([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ every(nm, m, th ? 8 : 5); }); });
    mc::scenario("seg:reversed", [&]{ gen1 m; disk::uniform_mesh_loader<double, 1> L(1.0, -0.5, 3); L.populate_mesh(m); every("reversed", m, 4); });
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ every(nm, m, th ? 7 : 4); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ every(nm, m, th ? 4 : 3); }); }, th);
    // hanging vertices first in the vertex list
    for (int r = 0; r < 6; r++) mc::scenario(mc::str("hanging:", r), [&]{ std::vector<P2> pts{{0, 0}, {0.5, 0}, {1, 0}, {1, 0.5}, {1, 1}, {0, 1}}; std::vector<size_t> pl; for (size_t i = 0; i < 6; i++) pl.push_back((i + r) % 6); gen2 m; poly2(m, pts, {pl}); every(mc::str("hanging ", r), m, 3); });
    for (int r = 0; r < 5; r++) mc::scenario(mc::str("hanging-face:", r), [&]{ std::vector<P3> pts{P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(0.5, 0., 0.)}; std::vector<size_t> a{0, 4, 1, 2}, b{0, 4, 1, 3}; std::rotate(a.begin(), a.begin() + r % 4, a.end()); std::rotate(b.begin(), b.begin() + (r + 1) % 4, b.end()); gen3 m; poly3(m, pts, {a, b, {0, 2, 3}, {1, 2, 3}}, {{0, 1, 2, 3}}); every(mc::str("hanging face ", r), m, 3); });
    auto L = lattice(3, 3);
    for (int n = 3; n <= (th ? 7 : 6); n++) mc::scenario(mc::str("polygons:", n), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (n > 5 && c % (th ? 3 : 11)) return; std::vector<P2> pts; std::vector<size_t> pl; for (size_t i = 0; i < idx.size(); i++) pl.push_back(i), pts.push_back(P2(idx[i][0] + 0.3 * idx[i][1], 0.25 * idx[i][1] - 3)); for (int r = 0; r < (n < 6 ? 2 : 1); r++) { gen2 m; poly2(m, pts, {pl}); every(mc::str("polygon ", n, ":", c, ":", r), m, 2); std::rotate(pl.begin(), pl.begin() + 1, pl.end()); } }); });
    struct { int x, y, z; unsigned parts; } ls[] = {{2, 2, 2, 4}, {2, 2, 3, 16}};
    for (auto& l : ls) { if (l.z > 2 && !th) continue; auto L3 = lattice3(l.x, l.y, l.z); unsigned N = 1u << L3.size(); for (unsigned part = 0; part < l.parts; part++) mc::scenario(mc::str("hulls:", L3.size(), ":", part), [&]{ hulls(L3, N / l.parts * part, N / l.parts * (part + 1), [&](unsigned mask, const hull& H) { std::vector<P3> pts; for (auto& q : H.pts) pts.push_back(P3(q[0] + 0.5 * q[2], 0.5 * q[1] - 0.2 * q[0] + 3., q[2] + 0.05 * q[1])); std::vector<size_t> allf; for (size_t i = 0; i < H.faces.size(); i++) allf.push_back(i); gen3 m; poly3(m, pts, H.faces, {allf}); every(mc::str("hull ", mask), m, 2); }, l.z > 2 ? 7 : 99); }); }
    return mc::finish();
}
