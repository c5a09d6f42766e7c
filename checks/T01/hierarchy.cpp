// Hierarchies of refined triangular meshes over all small initial meshes: structure of every level, nesting, inherited ids,
// and location of points of every level in every level.
// MC: libs=jburkardt triangle
#include "complex.hpp"
#include "lattice.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include "diskpp/mesh/meshgen.hpp"
using namespace mm;
using V2 = Eigen::Vector2d; using tri = std::array<V2, 3>;
static double cr(V2 a, V2 b) { return a.x() * b.y() - a.y() * b.x(); }
static double area(const tri& t) { return std::abs(cr(t[1] - t[0], t[2] - t[0])) / 2; }
// smallest barycentric coordinate
static double depth(const tri& t, V2 p) { double A = cr(t[1] - t[0], t[2] - t[0]), r = 1e9; for (int i = 0; i < 3; i++) r = std::min(r, cr(t[(i + 1) % 3] - p, t[(i + 2) % 3] - p) / A); return r; }
static tri corners(const tri2& m, const tri2::cell& c) { auto q = points(m, c); tri t; for (int i = 0; i < 3; i++) t[i] = V2(q[i].x(), q[i].y()); return t; }
static void label(tri2& m) { auto st = m.backend_storage(); size_t i = 0; st->boundary_info.resize(m.faces_size()); for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) if (m.is_boundary(*it)) st->boundary_info[i] = disk::boundary_descriptor(7 + 3 * i, true); st->subdomain_info.resize(m.cells_size()); for (size_t c = 0; c < m.cells_size(); c++) st->subdomain_info[c] = disk::subdomain_descriptor(40 + c); }
// refinements: expected numbers of cells, edges, points, boundary edges
struct level { std::vector<tri> t; std::vector<std::pair<std::pair<V2, V2>, size_t>> b; std::vector<size_t> dom; };
static level read(const tri2& m) { level l; for (auto& c : m) l.t.push_back(corners(m, c)); for (auto it = m.faces_begin(); it != m.faces_end(); ++it) if (m.is_boundary(*it)) { auto q = points(m, *it); l.b.push_back({{V2(q[0].x(), q[0].y()), V2(q[1].x(), q[1].y())}, m.boundary_id(*it)}); } auto st = m.backend_storage(); for (auto& d : st->subdomain_info) l.dom.push_back(d.id()); return l; }
static double seg(V2 a, V2 b, V2 p) { double L = (b - a).norm(), t = (p - a).dot(b - a) / L / L; return std::max({std::abs(cr(b - a, p - a)) / L / L, -t, t - 1}); }
static void hierarchy(const std::string& nm, const tri2& m0, int levels)
{
    disk::mesh_hierarchy<double> H(m0, levels); mc::check(H.meshes_size() == size_t(levels) + 1 && std::distance(H.meshes_begin(), H.meshes_end()) == levels + 1, "levels", nm); std::vector<level> L; double A = 0; { size_t C = m0.cells_size(), F = m0.faces_size(), V = m0.points_size(), B = 0; for (auto it = m0.faces_begin(); it != m0.faces_end(); ++it) B += m0.is_boundary(*it); for (auto& c : m0) A += area(corners(m0, c));
        int k = 0; for (auto it = H.meshes_begin(); it != H.meshes_end(); ++it, k++) { if (k) check_complex(nm + mc::str(" level ", k), *it, C, F, 0, V, B, A); auto c = C; V += F; F = 2 * F + 3 * c; C *= 4; B *= 2; L.push_back(read(*it)); mc::trace(); } }
    mc::check(H.coarsest_mesh().cells_size() == L[0].t.size() && H.finest_mesh().cells_size() == L.back().t.size(), "ends", nm);
    const double eps = 1e-10;
    for (int k = 0; k < levels; k++) { auto &c = L[k], &f = L[k + 1]; std::string w = nm + mc::str(" level ", k + 1); if (f.t.size() != 4 * c.t.size()) continue; std::vector<int> kids(c.t.size()); std::vector<double> sum(c.t.size());
        for (size_t i = 0; i < f.t.size(); i++) { V2 g = (f.t[i][0] + f.t[i][1] + f.t[i][2]) / 3; int par = -1; for (size_t j = 0; j < c.t.size(); j++) if (depth(c.t[j], g) > 0.01) par = j; if (!mc::check(par >= 0, "parent", w)) continue; kids[par]++; sum[par] += area(f.t[i]); double d = 1; for (auto& p : f.t[i]) d = std::min(d, depth(c.t[par], p)); mc::check(d >= -eps, "contained", w + mc::str(" cell ", i)); mc::check(f.dom.size() == f.t.size() && c.dom.size() == c.t.size() && f.dom[i] == c.dom[par], "domain-id", w + mc::str(" cell ", i)); mc::trans(); }
        for (size_t j = 0; j < c.t.size(); j++) { mc::check(kids[j] == 4, "children", w); mc::near(sum[j], area(c.t[j]), 1e-12, "tiling", w, area(c.t[j])); }
        for (auto& [e, id] : f.b) { int n = 0; size_t got = 0; for (auto& [q, pid] : c.b) if (seg(q.first, q.second, e.first) < eps && seg(q.first, q.second, e.second) < eps) n++, got = pid; mc::check(n == 1 && got == id, "boundary-id", w + mc::str(" id ", id, " parent ", got)); mc::trans(); } }
    // points: corners, points dividing the edges, the barycentre and points of the interior of every cell of every level
    for (int k = 0; k <= levels; k++) for (size_t i = 0; i < L[k].t.size(); i++) { auto& t = L[k].t[i]; for (int n : {1, 2, 3, 4}) for (int a = 0; a <= n; a++) for (int b = 0; a + b <= n; b++) { if (n == 4 && std::gcd(std::gcd(a, b), 4 - a - b) != 1) continue; V2 p = (t[0] * double(a) + t[1] * double(b) + t[2] * double(n - a - b)) / n; mc::state(mc::str(nm, p.x(), ",", p.y()));
        for (int q = 0; q <= levels; q++) { std::string w = nm + mc::str(" level ", q, " point ", p.x(), " ", p.y()); try { size_t c = H.locate_point(P2(p.x(), p.y()), q); mc::check(c < L[q].t.size() && depth(L[q].t[c], p) >= -eps, "located", w + mc::str(" in ", c)); } catch (const std::invalid_argument& e) { mc::fail("not-located", w + ": " + e.what()); } mc::trans(); } } }
    // points outside the domain and levels that do not exist are refused
    double lx = 1e9, hx = -1e9, ly = 1e9, hy = -1e9; for (auto& t : L[0].t) for (auto& p : t) lx = std::min(lx, p.x()), hx = std::max(hx, p.x()), ly = std::min(ly, p.y()), hy = std::max(hy, p.y());
    double sx = (hx - lx) / 6, sy = (hy - ly) / 6; for (int a = -1; a <= 7; a++) for (int b = -1; b <= 7; b++) { V2 p(lx + a * sx, ly + b * sy); double d = -1e9; for (auto& t : L[0].t) d = std::max(d, depth(t, p)); if (d > -1e-6) continue; for (int q = 0; q <= levels; q++) { bool r = false; try { H.locate_point(P2(p.x(), p.y()), q); } catch (const std::invalid_argument&) { r = true; } mc::check(r, "outside-located", nm + mc::str(" ", p.x(), " ", p.y())); mc::trans(); } }
    V2 g = (L[0].t[0][0] + L[0].t[0][1] + L[0].t[0][2]) / 3; for (int q = levels + 1; q < levels + 3; q++) { bool r = false; try { H.locate_point(P2(g.x(), g.y()), q); } catch (const std::exception&) { r = true; } mc::check(r, "missing-level", nm + mc::str(" ", q)); }
}
static void unbuilt() { disk::mesh_hierarchy<double> H; bool r = false; try { H.locate_point(P2(0., 0.), 0); } catch (const std::logic_error&) { r = true; } mc::check(r && H.meshes_size() == 0, "unbuilt", ""); tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}}, {{0, 1, 2}}); label(m); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { H.build_hierarchy(m, a); H.build_hierarchy(m, b); mc::check(H.meshes_size() == size_t(b) + 1 && H.finest_mesh().cells_size() == size_t(1) << (2 * b), "rebuilt", mc::str(a, b)); for (int q = 0; q <= b; q++) try { H.locate_point(P2(0.125, 0.25), q); } catch (...) { mc::fail("rebuilt", mc::str(a, b, q)); } } }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); mc::scenario("unbuilt", [&]{ unbuilt(); });
    auto L = lattice(th ? 4 : 3, 3); int N = L.size(); auto at = [&](int i) { return P2(L[i][0] * 0.5, L[i][1] * 0.75 - 0.25); };
    // every lattice triangle, in every order of its vertices
    for (int i = 0; i < N; i++) mc::scenario(mc::str("triangle:", i), [&]{ for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { if (j == i || !icross(L[i], L[j], L[k])) continue; tri2 m; tris(m, {at(i), at(j), at(k)}, {{0, 1, 2}}); label(m); hierarchy(mc::str("triangle ", i, " ", j, " ", k), m, th ? 3 : 2); } });
    // pairs of lattice triangles on both sides of an edge, numbered in four ways
    for (int i = 0; i < N; i++) mc::scenario(mc::str("pair:", i), [&]{ for (int j = i + 1; j < N; j++) for (int k = 0; k < N; k++) for (int l = k + 1; l < N; l++) { int a = icross(L[i], L[j], L[k]), b = icross(L[i], L[j], L[l]); if (!a || !b || (a > 0) == (b > 0)) continue; std::array<int, 4> v{i, j, k, l}; for (int rot = 0; rot < 4; rot++) { std::vector<P2> p(4); std::array<size_t, 4> id; for (size_t q = 0; q < 4; q++) { id[q] = (q + rot) % 4; p[id[q]] = at(v[q]); } tri2 m; tris(m, p, {{id[0], id[1], id[2]}, {id[0], id[1], id[3]}}); label(m); hierarchy(mc::str("pair ", i, " ", j, " ", k, " ", l, " ", rot), m, th ? 2 : 1); } } });
    mc::scenario("fan", [&]{ tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0.375, 0.25}}, {{0, 1, 4}, {1, 3, 4}, {3, 2, 4}, {2, 0, 4}}); label(m); hierarchy("fan", m, th ? 4 : 3); });
    for (int r = 0; r < (th ? 3 : 2); r++) mc::scenario(mc::str("mesher:", r), [&]{ tri2 m; auto g = disk::make_simple_mesher(m); for (int i = 0; i < r; i++) g.refine(); label(m); hierarchy(mc::str("mesher ", r), m, 3 - r); });
    return mc::finish();
}
