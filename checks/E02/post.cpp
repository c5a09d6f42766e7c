// Post-processing meshes of every catalogue and generated mesh, lattice polygon and lattice hull, and their conversion for GMSH.
// MC: libs=jburkardt triangle common lua5.4
// MC: shards=8
#include "gens.hpp"
#include "integ.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
#include "diskpp/output/gmshDisk.hpp"
#include "diskpp/output/postMesh.hpp"
#include "diskpp/output/gmshConvertMesh.hpp"
using namespace mm;
using V3 = Eigen::Vector3d;
template<typename P> static V3 vv(const P& p) { V3 v = V3::Zero(); for (size_t d = 0; d < P::dimension; d++) v[d] = p[d]; return v; }
static bool inside(const std::vector<P2>& o, double x, double y) { bool in = false; for (size_t i = 0, n = o.size(); i < n; i++) { auto a = o[i], b = o[(i + 1) % n]; if ((a.y() > y) != (b.y() > y) && x < (b.x() - a.x()) * (y - a.y()) / (b.y() - a.y()) + a.x()) in = !in; } return in; }
template<int D> static double size_of(const std::vector<V3>& p) { if (D == 1) return p[1][0] - p[0][0]; V3 a = p[1] - p[0], b = p[2] - p[0]; if (D == 2) return a.cross(b)[2] / 2; return a.cross(b).dot(p[3] - p[0]) / 6; }
template<typename M> static void one(const std::string& w, const M& m)
{
    constexpr int D = M::dimension; using P = typename M::point_type; disk::PostMesh<M> pm(m); auto q = std::as_const(pm).mesh(); auto st = q.backend_storage(); auto so = m.backend_storage(); size_t np = m.points_size(), n = st->points.size(); mc::state(w); mc::trace();
    if (!mc::check(n >= np && st->nodes.size() == n, "nodes", w)) return;
    for (size_t i = 0; i < n; i++) { auto id = st->nodes[i].point_ids(); mc::check(id.size() == 1 && size_t(id[0]) == i, "node-number", w + mc::str(" node ", i)); if (i < np) mc::check(vv(st->points[i]) == vv(so->points[i]), "coordinates", w + mc::str(" node ", i)); mc::trans(); }
    if constexpr (D > 1) { mc::check(st->edges.size() == so->edges.size(), "edges", w); for (size_t i = 0; i < so->edges.size() && i < st->edges.size(); i++) { auto a = st->edges[i].point_ids(); auto b = so->edges[i].point_ids(); mc::check(std::minmax(size_t(a[0]), size_t(a[1])) == std::minmax(size_t(b[0]), size_t(b[1])), "edge", w + mc::str(" edge ", i)); } }
    // the node lists of the cells: the vertices once, in the order of the cell, then nodes added inside the cell or its faces
    std::vector<std::set<size_t>> list; std::vector<char> used(n); std::map<size_t, std::set<size_t>> owner; size_t ic = 0;
    for (auto& cl : m) { std::string wc = w + mc::str(" cell ", ic); auto l = std::as_const(pm).nodes_cell(ic); auto ids = cl.point_ids(); bool ok = l.size() >= ids.size(); for (size_t k = 0; ok && k < ids.size(); k++) ok = size_t(l[k]) == size_t(ids[k]); mc::check(ok, "cell-nodes", wc); std::set<size_t> s; for (auto x : l) { if (!mc::check(size_t(x) < n, "node-range", wc)) return; s.insert(x); used[x] = 1; if (size_t(x) >= np) owner[x].insert(ic); } mc::check(s.size() == l.size(), "cell-nodes-once", wc); list.push_back(s); ic++; mc::trans(); }
    if constexpr (M::dimension > 0) for (size_t i = np; i < n; i++) mc::check(used[i] && owner[i].size() <= 2, "added-node", w + mc::str(" node ", i));
    // elements: grouped by cell, positive size, exact moments
    std::vector<moments<D>> mo(list.size(), moments<D>(3)); double scale = 0; std::vector<std::vector<P2>> outl; if constexpr (D == 2) for (auto& cl : m) outl.push_back(outline2(m, cl));
    std::map<std::vector<size_t>, int> elems; auto element = [&](std::vector<size_t> e) { std::vector<V3> p; std::vector<P> pp; V3 g = V3::Zero(); for (auto x : e) { if (!mc::check(x < n, "element-range", w)) return; p.push_back(vv(st->points[x])); pp.push_back(st->points[x]); g += p.back() / e.size(); } std::vector<size_t> key = e; std::sort(key.begin(), key.end()); elems[key]++; mc::check(elems[key] == 1, "element-once", w);
        double s = std::abs(size_of<D>(p)); if (s < 1e-12) { mc::trans(); return; } // rounding of aligned vertices
        int home = -1; for (size_t c = 0; c < list.size(); c++) { bool in = true; for (auto x : e) in &= list[c].count(x) > 0; if (in && D == 2) in = inside(outl[c], g[0], g[1]); if (in) { home = c; break; } } if (!mc::check(home >= 0, "element-cell", w + mc::str(" nodes ", e[0], " ", e[1]))) return; mo[home].simplex(pp, s); mc::trans(); };
    if constexpr (D == 1) for (auto& s : st->edges) { auto i = s.point_ids(); element({size_t(i[0]), size_t(i[1])}); }
    if constexpr (D == 2) for (auto& s : st->surfaces) { auto i = s.point_ids(); element({size_t(i[0]), size_t(i[1]), size_t(i[2])}); }
    if constexpr (D == 3) for (auto& s : st->volumes) { auto i = s.point_ids(); element({size_t(i[0]), size_t(i[1]), size_t(i[2]), size_t(i[3])}); }
    ic = 0; for (auto& cl : m) { moments<D> ex(3); cell_moments(m, cl, ex); for (size_t i = 0; i < ex.m.size(); i++) if (!mc::near(double(mo[ic].m[i]), double(ex.m[i]), 1e-11, "tiling", w + mc::str(" cell ", ic, " moment ", ex.name(i)), std::max(1e-3, std::abs(double(ex.m[0]))))) break; ic++; }
    // conversion: same nodes numbered from one, same edges and elements, elements counter-clockwise or of positive volume
    const auto& cpm = pm; auto g = disk::convertMesh(cpm); bool ok = g.nodes.size() == n && g.vertices.size() == n; mc::check(ok, "converted-nodes", w); for (size_t i = 0; ok && i < n; i++) { auto c = g.nodes[i].getCoordinate(); mc::check(g.nodes[i].i == i + 1 && g.vertices[i].n == i + 1 && V3(c[0], c[1], c[2]) == vv(st->points[i]), "converted-node", w + mc::str(" node ", i)); }
    mc::check(g.edges.size() == st->edges.size(), "converted-edges", w); for (size_t i = 0; i < st->edges.size() && i < g.edges.size(); i++) { auto a = st->edges[i].point_ids(); mc::check(g.edges[i].n.size() == 2 && std::minmax(g.edges[i].n[0], g.edges[i].n[1]) == std::minmax(size_t(a[0]) + 1, size_t(a[1]) + 1), "converted-edge", w); }
    if constexpr (D > 1) { std::map<std::vector<size_t>, int> got; auto conv = [&](const auto& E) { for (auto& e : E) { std::vector<size_t> k; std::vector<V3> p; for (auto x : e.n) { if (!mc::check(x >= 1 && x <= n, "converted-range", w)) return; k.push_back(x - 1); p.push_back(vv(st->points[x - 1])); } if (p.size() != D + 1) { mc::fail("converted-element", w); return; } double s = size_of<D>(p); mc::check(s >= -1e-12, "converted-orientation", w + mc::str(" ", s)); std::sort(k.begin(), k.end()); got[k]++; mc::trans(); } }; if constexpr (D == 2) conv(g.triangles); else conv(g.tets); mc::check(got == elems, "converted-elements", w); }
    std::set<size_t> nums; auto num = [&](const auto& E) { for (auto& e : E) mc::check(nums.insert(e.i).second, "element-number", w); }; num(g.vertices); num(g.edges); num(g.triangles); num(g.tets); mc::check(nums.size() == g.getNumberofElements() && (nums.empty() || (*nums.begin() == 1 && *nums.rbegin() == nums.size())), "element-numbers", w);
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); auto run = [&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ one(nm, m); }); };
    catalogue1(run); catalogue2(run, true); catalogue3(run, true);
    generated([&](const std::string& nm, auto mk) { mc::scenario("gen:" + nm, [&]{ mk([&](auto& m, const auto&, auto...) { if (m.cells_size() <= (th ? 3000 : 600)) one("gen:" + nm, m); }); }); });
    for (int s = 0; s < 3; s++) for (size_t k = 3; k <= (th ? 9 : 8); k++) mc::scenario(mc::str("lattice:", k, ":", s), [&]{ int idx = 0; auto lat2 = lattice(th && k < 7 ? 4 : 3, 3); polygons(lat2, k, [&](const std::vector<IP>& poly) { idx++; for (size_t rot = 0; rot < k; rot++) { std::vector<P2> p; std::vector<size_t> c; for (size_t i = 0; i < k; i++) { double x = poly[i][0], y = poly[i][1]; p.push_back(s == 0 ? P2(x, y) : s == 1 ? P2(1e-3 * x + 1, 1e-3 * y - 2) : P2(x + 0.25 * y, 20 * y)); c.push_back((i + rot) % k); } gen2 m; poly2(m, p, {c}); std::string w; for (auto& v : poly) w += mc::str(v[0], v[1], " "); one(mc::str(w, "start ", rot, " place ", s), m); } }); });
    auto lat = lattice3(3, 2, 2); for (int part = 0; part < 8; part++) mc::scenario(mc::str("hulls:", part), [&]{ hulls(lat, 512 * part, 512 * (part + 1), [&](unsigned mask, const hull& h) { std::vector<P3> p; for (auto& q : h.pts) p.push_back(P3(double(q[0]), double(q[1]), double(q[2]))); for (int rot = 0; rot < 3; rot++) for (int tn = 0; tn < 2; tn++) { auto fs = h.faces; std::vector<size_t> all; for (auto& x : fs) { all.push_back(all.size()); std::rotate(x.begin(), x.begin() + rot % x.size(), x.end()); if (tn) std::reverse(x.begin(), x.end()); } gen3 m; poly3(m, p, fs, {all}); one(mc::str("hull ", mask, " start ", rot, " turn ", tn), m); } }); });
    return mc::finish();
}
