// Numbering of the virtual element unknowns, condensation of the inner ones, and complete solutions with polynomial data.
// MC: libs=jburkardt triangle
#include "hhorec.hpp"
#include "complex.hpp"
#include "diskpp/methods/vem"
using namespace mm;
namespace ve = disk::vem_2d;
static bool same(const P2& a, const P2& b) { return std::hypot(a.x() - b.x(), a.y() - b.y()) < 1e-11; }
template<typename M> void numbering(const std::string& w, const M& m, disk::dof_mapper<M>& map, int k)
{
    size_t np = m.points_size(), nfc = m.faces_size(); std::map<size_t, P2> where; std::set<size_t> all; std::vector<P2> pts(m.points_begin(), m.points_end());
    // position of a node: the nodes of a side are symmetric, any increasing sequence does
    auto node = [&](const P2& a, const P2& b, int s) { double t = (1 - std::cos(M_PI * s / k)) / 2; return a + (b - a) * t; };
    size_t ci = 0; for (auto& cl : m) { auto l = map.cell_to_global(ci); auto fc = disk::faces_ccw(m, cl); if (!mc::check(l.size() == fc.size() * k && std::set<size_t>(l.begin(), l.end()).size() == l.size(), "cell-unknowns", w + mc::str(" cell ", ci))) return; size_t q = 0; for (auto& [f, flip] : fc) { auto p = points(m, f); P2 a = p[flip ? 1 : 0], b = p[flip ? 0 : 1]; for (int s = 0; s < k; s++, q++) { P2 x = node(a, b, s); size_t g = l[q]; auto it = where.find(g); if (it == where.end()) where.emplace(g, x); else mc::check(same(it->second, x), "shared-unknown", w + mc::str(" cell ", ci, " unknown ", q)); all.insert(g); if (s == 0) mc::check(g < np && same(pts[g], a), "vertex-unknown", w); } auto fl = map.face_to_global(offset(m, f)); std::vector<size_t> mine; for (int s = 0; s <= k; s++) mine.push_back(l[(q - k + s) % l.size()]); if (flip) std::reverse(mine.begin(), mine.end()); mc::check(mine == fl, "face-unknowns", w + mc::str(" cell ", ci)); mc::trans(); } ci++; }
    mc::check(all.size() == np + nfc * (k - 1) && *all.rbegin() == all.size() - 1, "contiguous", w + mc::str(" ", all.size())); size_t fi = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++fi) { auto b = map.bnd_to_global(fi), f = map.face_to_global(fi), r = f; std::reverse(r.begin(), r.end()); auto bi = m.boundary_info(*it); if (bi.is_boundary() && !bi.is_internal()) mc::check(b == f || b == r, "boundary-unknowns", w + mc::str(" face ", fi)); else mc::check(b.empty(), "inner-face", w + mc::str(" face ", fi)); } mc::trace(); mc::state(w);
}
template<typename M> void maps(const std::string& nm, M& m, int K)
{
    for (int k = 1; k <= K; k++) { disk::dof_mapper<M> map(m, k); numbering(nm + mc::str(" degree ", k), m, map, k); for (int q = 1; q <= K; q++) { disk::dof_mapper<M> again(m, k); again.recompute(m, q); numbering(nm + mc::str(" degree ", k, " then ", q), m, again, q); } }
    auto st = m.backend_storage(); auto keep = st->boundary_info; size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) if (!m.is_boundary(*it) && i % 2) { st->boundary_info[i] = disk::boundary_descriptor(900, true); st->boundary_info[i].is_internal(true); } { disk::dof_mapper<M> map(m, 2); numbering(nm + " with interfaces", m, map, 2); } st->boundary_info = keep;
    bool r = false; try { disk::dof_mapper<M> z(m, 0); } catch (const std::invalid_argument&) { r = true; } mc::check(r, "degree-zero", nm);
}
// -div grad u = f with a polynomial u given on the boundary
template<typename M> void solve(const std::string& nm, const M& m, int k)
{
    disk::dof_mapper<M> map(m, k); size_t nb = m.points_size() + m.faces_size() * (k - 1), lbs = k < 2 ? 0 : k * (k - 1) / 2, N = nb + lbs * m.cells_size(); std::vector<char> bd(nb); for (size_t f = 0; f < m.faces_size(); f++) for (size_t g : map.bnd_to_global(f)) bd[g] = 1;
    for (int a = 0; a <= k; a++) for (int b = 0; a + b <= k; b++) { std::string w = nm + mc::str(" degree ", k, " x^", a, " y^", b); auto u = [&](const P2& p) { return std::pow(p.x(), a) * std::pow(p.y() - 0.25, b); }; auto f = [&](const P2& p) { double r = 0; if (a > 1) r -= a * (a - 1) * std::pow(p.x(), a - 2) * std::pow(p.y() - 0.25, b); if (b > 1) r -= b * (b - 1) * std::pow(p.x(), a) * std::pow(p.y() - 0.25, b - 2); return r; };
        MX A = MX::Zero(N, N), C = MX::Zero(nb, nb); VX F = VX::Zero(N), Fc = VX::Zero(nb), ex(N); std::vector<std::pair<MX, VX>> loc; size_t ci = 0; for (auto& cl : m) { auto [L, r] = ve::compute_local(m, cl, k, f); auto l = map.cell_to_global(ci); size_t ns = l.size(); for (size_t i = 0; i < lbs; i++) l.push_back(nb + ci * lbs + i); MX D = ve::matrix_D(m, cl, k); hcell<M> c(m, cl, k + 1); MX B = c.coefs(make_scalar_monomial_basis(m, cl, size_t(k))); VX uc = c.F.coef(MX([&]{ MX V(c.F.u.size(), 1); for (size_t q = 0; q < c.F.u.size(); q++) V(q, 0) = u(c.fr.at(c.F.u[q])); return V; }())); VX d = D * l2(B, c.G, uc);
            for (size_t i = 0; i < l.size(); i++) { ex(l[i]) = d(i); F(l[i]) += r(i); for (size_t j = 0; j < l.size(); j++) A(l[i], l[j]) += L(i, j); } if (lbs) { auto [Lc, Rc] = disk::vem::schur<double>(L, r, ns); mc::check(Lc.rows() == Eigen::Index(ns) && Rc.size() == Eigen::Index(ns), "schur-size", w); for (size_t i = 0; i < ns; i++) { Fc(l[i]) += Rc(i); for (size_t j = 0; j < ns; j++) C(l[i], l[j]) += Lc(i, j); } } loc.emplace_back(L, r); ci++; }
        auto reduced = [&](const MX& K, const VX& R, size_t n) { std::vector<int> fr; VX x = VX::Zero(n); for (size_t i = 0; i < n; i++) if (i < nb && bd[i]) x(i) = ex(i); else fr.push_back(i); MX k2(fr.size(), fr.size()); VX r2(fr.size()); VX t = R - K * x; for (size_t i = 0; i < fr.size(); i++) { r2(i) = t(fr[i]); for (size_t j = 0; j < fr.size(); j++) k2(i, j) = K(fr[i], fr[j]); } if (fr.size()) { VX s = k2.ldlt().solve(r2); for (size_t i = 0; i < fr.size(); i++) x(fr[i]) = s(i); } return x; };
        double s = 1 + ex.cwiseAbs().maxCoeff(); VX x = reduced(A, F, N); mc::check((x - ex).cwiseAbs().maxCoeff() <= 1e-8 * s, "solution", w + mc::str(" error ", (x - ex).cwiseAbs().maxCoeff()));
        if (lbs) { VX y = reduced(C, Fc, nb); mc::check((y - ex.head(nb)).cwiseAbs().maxCoeff() <= 1e-8 * s, "condensed-solution", w); ci = 0; for (auto& cl : m) { auto l = map.cell_to_global(ci); VX yb(l.size()); for (size_t i = 0; i < l.size(); i++) yb(i) = y(l[i]); VX full = disk::vem::deschur<int, double>(loc[ci].first, loc[ci].second, yb, l.size()); mc::check(full.size() == Eigen::Index(l.size() + lbs) && (full.head(l.size()) - yb).norm() == 0 && (full.tail(lbs) - ex.segment(nb + ci * lbs, lbs)).cwiseAbs().maxCoeff() <= 1e-8 * s, "recovered-moments", w); ci++; } }
        mc::trace(); mc::trans(N); mc::state(w); }
}
// symmetric integer systems: the condensed system is the Schur complement
static void condensation(int n, int t)
{
    int N = n + t; for (int s = 0; s < 40; s++) { MX L(N, N); VX r(N); for (int i = 0; i < N; i++) { r(i) = (i * 7 + s * 3) % 11 - 5; for (int j = 0; j <= i; j++) L(i, j) = L(j, i) = (i * 5 + j * 3 + s * (i + 2 * j + 1)) % 7 - 3 + (i == j ? 12 : 0); } MX Ti = L.bottomRightCorner(t, t).inverse(); auto [C, R] = disk::vem::schur<double>(L, r, n); MX e = L.topLeftCorner(n, n) - L.topRightCorner(n, t) * Ti * L.bottomLeftCorner(t, n); VX q = r.head(n) - L.topRightCorner(n, t) * Ti * r.tail(t); std::string w = mc::str(n, " ", t, " ", s); mc::check((C - e).cwiseAbs().maxCoeff() < 1e-10 && (R - q).cwiseAbs().maxCoeff() < 1e-10, "schur", w); for (int i = 0; i < n; i++) { VX x = VX::Unit(n, i); VX f = disk::vem::deschur<int, double>(L, r, x, n); mc::check((f.head(n) - x).norm() == 0 && (L.bottomRows(t) * f - r.tail(t)).norm() < 1e-10, "deschur", w); } mc::trace(); mc::trans(); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); int K = th ? 5 : 4;
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario("numbering:" + nm, [&]{ maps(nm, m, K); }); mc::scenario("solution:" + nm, [&]{ for (int k = 1; k <= (m.cells_size() > 12 ? 2 : K - 1); k++) if (m.cells_size() < (th ? 300 : 80)) solve(nm, m, k); }); }, th);
    for (int n = 1; n <= 4; n++) for (int t = 1; t <= 4; t++) mc::scenario(mc::str("condensation:", n, ":", t), [&]{ condensation(n, t); });
    return mc::finish();
}
