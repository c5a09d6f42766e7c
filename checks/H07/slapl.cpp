// The basic Poisson solver (hho_slapl): homogeneous Dirichlet conditions on some sides, fluxes on the others.
// MC: libs=jburkardt triangle
// MC: cpu=800
#include "solve.hpp"
#include "diskpp/methods/hho_slapl.hpp"
using namespace mm;
namespace sl = disk::hho::slapl;
using DMX = disk::dynamic_matrix<double>; using DVX = disk::dynamic_vector<double>;
// the product of the affine functions vanishing on the Dirichlet sides, times a monomial: values, gradients and Laplacians
template<typename P> struct product { static constexpr int D = P::dimension; std::vector<std::pair<VX, double>> lin; gmono q;
    double value(const P& p, int drop1 = -1, int drop2 = -1) const { double r = 1; for (size_t i = 0; i < lin.size(); i++) if (int(i) != drop1 && int(i) != drop2) { double s = lin[i].second; for (int a = 0; a < D; a++) s += lin[i].first(a) * p[a]; r *= s; } return r; }
    double d(const P& p, int a) const { double r = value(p) * q.d(p, a); for (size_t i = 0; i < lin.size(); i++) r += lin[i].first(a) * value(p, i) * q.at(p); return r; }
    double lap(const P& p) const { double r = 0; for (int a = 0; a < D; a++) { r += value(p) * q.dd(p, a, a); for (size_t i = 0; i < lin.size(); i++) { r += 2 * lin[i].first(a) * value(p, i) * q.d(p, a); for (size_t j = 0; j < lin.size(); j++) if (i != j) r += lin[i].first(a) * lin[j].first(a) * value(p, i, j) * q.at(p); } } return r; } };
// the call operator of the bases under the name the other bases use
template<typename B> struct named { B b; size_t size() const { return b.size(); } template<typename P> VX eval_functions(const P& p) const { return VX(b(p)); } };
template<typename B> named<B> as_named(const B& b) { return {b}; }
template<typename M> void run(const std::string& nm, M& m, int fdmax, double tol)
{
    constexpr int D = M::dimension; using P = typename M::point_type; world<M> W(m, fdmax + 2); size_t nc = W.cells.size(); std::map<size_t, P> on; size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) if (m.is_boundary(*it)) { auto b = m.boundary_info(*it); on.emplace(b.id(), points(m, *it)[0]); }
    using Space = sl::hho_space<M>;
    for (int fd = 0; fd <= (D == 1 ? 0 : fdmax); fd++) for (int cd = std::max(0, fd - 1); cd <= fd + 1; cd++) { if (D == 1 && cd > 1) continue; sl::degree_info di(cd, fd); std::vector<dofs<M>> U; U.reserve(nc); std::vector<DMX> K; std::string w0 = nm + mc::str(" cell ", cd, " face ", fd); mc::state(w0);
        for (auto& c : W.cells) { U.emplace_back(c, c.coefs(as_named(typename Space::cell_basis_type(m, c.cl, cd))), std::vector<int>(c.fs.size(), fd), [&](const auto& s, size_t k) { return c.fcoefs(s, as_named(typename Space::face_basis_type(m, s.fc, k))); }); auto [R, A] = sl::local_operator(m, c.cl, di); K.push_back(A + sl::local_stabilization(m, c.cl, di, R)); }
        auto trial = [&](const std::vector<int>& a, bool given) { int nd = std::count(a.begin(), a.end(), DRC); if (nd > fd + 1) return; std::vector<bool> fixed; for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { bool f = false; if (m.is_boundary(*it)) { auto id = m.boundary_info(*it).id(); for (size_t k = 0; k < a.size(); k++) f = f || (W.ids[k] == id && a[k] == DRC); } fixed.push_back(f); } dense_solver S;
            for (auto& q : gmonos(D, fd + 1 - nd)) { product<P> u; u.q = q; for (size_t k = 0; k < a.size(); k++) if (a[k] == DRC) { VX n = W.normals.at(W.ids[k]); double o = 0; for (int b = 0; b < D; b++) o -= n(b) * on.at(W.ids[k])[b]; u.lin.push_back({n, o}); } std::string w = w0 + ctext(a) + " times " + q.text(); auto val = [&](const P& p) -> double { return u.value(p) * q.at(p); }; auto src = [&](const P& p) -> double { return -u.lap(p); };
                auto as = given ? disk::hho::basic_condensed_assembler<M, typename Space::face_basis_type>(m, di.face, fixed) : sl::make_assembler(m, di); judge J; std::vector<DVX> rhs; size_t free = 0; for (size_t f = 0; f < fixed.size(); f++) free += !fixed[f] ; mc::check(as.dofs() == free * Space::face_basis_type::size_of_degree(fd), "unknown-count", w);
                for (size_t c = 0; c < nc; c++) { auto& h = W.cells[c]; VX I = U[c].interpolate(W.local(c, val)); J.expect(U[c].s, I); DVX red = sl::local_reduction(m, h.cl, di, val); if (nd + q.deg() <= std::min(cd, fd)) mc::check(red.size() == I.size() && U[c].s.cwiseProduct(red - I).norm() <= tol * (1 + U[c].s.cwiseProduct(I).norm()), "reduction", w);
                    auto phi = typename Space::cell_basis_type(m, h.cl, cd); DVX r = DVX::Zero(K[c].rows()); r.head(phi.size()) = disk::basis::integrate(m, h.cl, src, phi); size_t o = phi.size(); for (auto& s : h.fs) { auto pf = typename Space::face_basis_type(m, s.fc, fd); if (m.is_boundary(s.fc)) { VX n = s.n; auto g = [&](const P& p) -> double { double x = 0; for (int b = 0; b < D; b++) x += u.d(p, b) * n(b); return x; }; r.segment(o, pf.size()) += DVX(disk::basis::integrate(m, s.fc, g, pf)); } o += pf.size(); }
                    rhs.push_back(r); auto [lc, rc] = disk::hho::schur(K[c], r, phi); as.assemble(m, h.cl, lc, rc); }
                as.finalize(); DVX x = S(MX(as.LHS), as.RHS); for (size_t c = 0; c < nc; c++) { auto phi = typename Space::cell_basis_type(m, W.cells[c].cl, cd); J.got(c, disk::hho::deschur(K[c], rhs[c], DVX(as.take_local_solution(m, W.cells[c].cl, x)), phi)); } J.end(w + (given ? " given faces" : ""), S.ok, tol); } };
        W.choices(2, 4096, [&](const std::vector<int>& a) { trial(a, true); }); trial(std::vector<int>(W.ids.size(), DRC), false); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto go = [&](const std::string& nm, auto& m) { constexpr int D = std::decay_t<decltype(m)>::dimension; mc::scenario(nm, [&]{ run(nm, m, D == 3 ? (th ? 3 : 2) : (th ? 5 : 4), D == 3 && th ? 1e-6 : 1e-8); }); };
    small_meshes<false>(go); catalogue2(go, true); catalogue3(go, th);
    { tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {0.25, 0.25}}, {{0, 1, 3}, {1, 2, 3}, {0, 2, 3}}); go("tri:three", m); }
    return mc::finish();
}
