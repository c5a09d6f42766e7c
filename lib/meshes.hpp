// Meshes used by the explorations. Two sources: the library's own generators
// (what the mesh checks judge), and meshes written directly into the public
// backend storage from an explicit description (points + cells), which serve
// as independent inputs for geometry, quadrature, bases and methods.
#pragma once
#include "mc.hpp"
#include <array>
#include <numeric>
#include <algorithm>
#include <type_traits>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/mesh/meshgen.hpp"

namespace mm {
using T = double;
using P1 = disk::point<T, 1>; using P2 = disk::point<T, 2>; using P3 = disk::point<T, 3>;
using gen1 = disk::generic_mesh<T, 1>; using gen2 = disk::generic_mesh<T, 2>; using gen3 = disk::generic_mesh<T, 3>;
using tri2 = disk::simplicial_mesh<T, 2>; using tet3 = disk::simplicial_mesh<T, 3>;
using car2 = disk::cartesian_mesh<T, 2>; using car3 = disk::cartesian_mesh<T, 3>;

template<typename M> struct kind_of { static const char* name() { return "?"; } };
template<> struct kind_of<gen1> { static const char* name() { return "generic1"; } };
template<> struct kind_of<gen2> { static const char* name() { return "generic2"; } };
template<> struct kind_of<gen3> { static const char* name() { return "generic3"; } };
template<> struct kind_of<tri2> { static const char* name() { return "simplicial2"; } };
template<> struct kind_of<tet3> { static const char* name() { return "simplicial3"; } };
template<> struct kind_of<car2> { static const char* name() { return "cartesian2"; } };
template<> struct kind_of<car3> { static const char* name() { return "cartesian3"; } };

// side of the unit cube a face lies on, numbered x=0:0 x=1:1 y=0:2 y=1:3 z=0:4 z=1:5; other boundary: 9
template<typename P> size_t side(const P& b)
{
    for (size_t k = 0; k < P::dimension; k++) {
        if (std::abs(b[k]) < 1e-9) return 2 * k;
        if (std::abs(b[k] - 1) < 1e-9) return 2 * k + 1;
    }
    return 9;
}

// marks the faces owned by one cell as boundary, with the id given by idf(centre of the face)
template<typename M, typename F> void mark_boundary(M& msh, F idf)
{
    auto st = msh.backend_storage();
    std::vector<int> own(msh.faces_size(), 0);
    for (auto& cl : msh) for (auto id : faces_id(msh, cl)) own[id]++;
    st->boundary_info.assign(msh.faces_size(), disk::boundary_descriptor());
    size_t i = 0;
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it, ++i)
        if (own[i] == 1) {
            auto pts = points(msh, *it);
            auto c = pts[0]; for (size_t k = 1; k < pts.size(); k++) c = c + pts[k];
            st->boundary_info[i] = disk::boundary_descriptor(idf(c / T(pts.size())), true);
        }
    st->subdomain_info.resize(msh.cells_size());
}
template<typename M> void mark_boundary(M& msh) { mark_boundary(msh, [](const auto& b) { return side(b); }); }

inline void poly2(gen2& msh, const std::vector<P2>& pts, const std::vector<std::vector<size_t>>& polys)
{
    using M = gen2; using nid = M::node_type::id_type; using eid = M::edge_type::id_type;
    auto st = msh.backend_storage(); *st = {};
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back(M::node_type(disk::point_identifier<2>(i)));
    std::vector<std::pair<size_t, size_t>> es;
    for (auto& p : polys) for (size_t i = 0; i < p.size(); i++) { size_t a = p[i], b = p[(i + 1) % p.size()]; if (a > b) std::swap(a, b); es.push_back({a, b}); }
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
    for (auto& e : es) st->edges.push_back(M::edge_type(nid(e.first), nid(e.second)));
    std::vector<M::surface_type> ss;
    for (auto& p : polys) {
        std::vector<eid> ids; std::vector<size_t> ps(p.begin(), p.end());
        for (size_t i = 0; i < p.size(); i++) {
            size_t a = p[i], b = p[(i + 1) % p.size()]; if (a > b) std::swap(a, b);
            ids.push_back(eid(std::lower_bound(es.begin(), es.end(), std::make_pair(a, b)) - es.begin()));
        }
        M::surface_type s(ids); s.set_point_ids(ps.begin(), ps.end()); ss.push_back(s);
    }
    std::sort(ss.begin(), ss.end());
    st->surfaces = ss;
    mark_boundary(msh);
}

// fcs: cyclic vertex lists; cells: lists of face indices
inline void poly3(gen3& msh, const std::vector<P3>& pts, const std::vector<std::vector<size_t>>& fcs, const std::vector<std::vector<size_t>>& cells)
{
    using M = gen3; using nid = M::node_type::id_type; using eid = M::edge_type::id_type; using fid = M::surface_type::id_type; using pid = disk::point_identifier<3>;
    auto st = msh.backend_storage(); *st = {};
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back(M::node_type(pid(i)));
    std::vector<std::pair<size_t, size_t>> es;
    for (auto& p : fcs) for (size_t i = 0; i < p.size(); i++) { size_t a = p[i], b = p[(i + 1) % p.size()]; if (a > b) std::swap(a, b); es.push_back({a, b}); }
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
    for (auto& e : es) st->edges.push_back(M::edge_type(nid(e.first), nid(e.second)));
    std::vector<std::pair<std::vector<size_t>, size_t>> fs;
    for (size_t k = 0; k < fcs.size(); k++) {
        std::vector<size_t> ids; auto& p = fcs[k];
        for (size_t i = 0; i < p.size(); i++) {
            size_t a = p[i], b = p[(i + 1) % p.size()]; if (a > b) std::swap(a, b);
            ids.push_back(std::lower_bound(es.begin(), es.end(), std::make_pair(a, b)) - es.begin());
        }
        fs.push_back({ids, k});
    }
    std::sort(fs.begin(), fs.end());
    std::vector<size_t> conv(fcs.size());
    for (size_t i = 0; i < fs.size(); i++) {
        M::surface_type s(disk::convert_to<eid>(fs[i].first));
        auto pl = disk::convert_to<pid>(fcs[fs[i].second]); s.set_point_ids(std::move(pl));
        st->surfaces.push_back(s); conv[fs[i].second] = i;
    }
    std::vector<M::volume_type> vs;
    for (auto& c : cells) {
        std::vector<size_t> ids, ps;
        for (auto f : c) { ids.push_back(conv[f]); for (auto q : fcs[f]) if (std::find(ps.begin(), ps.end(), q) == ps.end()) ps.push_back(q); }
        M::volume_type v(disk::convert_to<fid>(ids));
        auto pl = disk::convert_to<pid>(ps); v.set_point_ids(std::move(pl)); vs.push_back(v);
    }
    std::sort(vs.begin(), vs.end());
    st->volumes = vs;
    mark_boundary(msh);
}

template<typename V> void suniq(V& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }

inline void tris(tri2& msh, const std::vector<P2>& pts, std::vector<std::array<size_t, 3>> cs)
{
    using M = tri2; using pid = disk::point_identifier<2>;
    auto st = msh.backend_storage(); *st = {};
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back({pid(i)});
    for (auto& c : cs) {
        std::sort(c.begin(), c.end()); pid a(c[0]), b(c[1]), d(c[2]);
        st->edges.push_back({a, b}); st->edges.push_back({a, d}); st->edges.push_back({b, d}); st->surfaces.push_back({a, b, d});
    }
    suniq(st->edges); suniq(st->surfaces); mark_boundary(msh);
}
inline void tets(tet3& msh, const std::vector<P3>& pts, std::vector<std::array<size_t, 4>> cs)
{
    using pid = disk::point_identifier<3>;
    auto st = msh.backend_storage(); *st = {};
    st->points = pts;
    for (size_t i = 0; i < pts.size(); i++) st->nodes.push_back({pid(i)});
    for (auto& c : cs) {
        std::sort(c.begin(), c.end()); pid p[4] = {pid(c[0]), pid(c[1]), pid(c[2]), pid(c[3])};
        for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) st->edges.push_back({p[i], p[j]});
        for (int i = 0; i < 4; i++) { std::vector<pid> q; for (int j = 0; j < 4; j++) if (j != i) q.push_back(p[j]); st->surfaces.push_back({q[0], q[1], q[2]}); }
        st->volumes.push_back({p[0], p[1], p[2], p[3]});
    }
    suniq(st->edges); suniq(st->surfaces); suniq(st->volumes); mark_boundary(msh);
}
// tensor grids: xs, ys, zs are the (increasing) grid coordinates
inline void grid2(car2& msh, const std::vector<T>& xs, const std::vector<T>& ys)
{
    using pid = disk::point_identifier<2>;
    auto st = msh.backend_storage(); *st = {};
    size_t nx = xs.size(), ny = ys.size();
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) { st->nodes.push_back({pid(st->points.size())}); st->points.push_back(P2(xs[i], ys[j])); }
    for (size_t j = 0; j + 1 < ny; j++) for (size_t i = 0; i + 1 < nx; i++) {
        pid a(j * nx + i), b(j * nx + i + 1), c((j + 1) * nx + i), d((j + 1) * nx + i + 1);
        st->edges.push_back({a, b}); st->edges.push_back({a, c}); st->edges.push_back({b, d}); st->edges.push_back({c, d});
        st->surfaces.push_back({a, b, c, d});
    }
    suniq(st->edges); suniq(st->surfaces); mark_boundary(msh);
}
inline void grid3(car3& msh, const std::vector<T>& xs, const std::vector<T>& ys, const std::vector<T>& zs)
{
    using pid = disk::point_identifier<3>;
    auto st = msh.backend_storage(); *st = {};
    size_t nx = xs.size(), ny = ys.size(), nz = zs.size();
    for (size_t k = 0; k < nz; k++) for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) { st->nodes.push_back({pid(st->points.size())}); st->points.push_back(P3(xs[i], ys[j], zs[k])); }
    auto id = [&](size_t i, size_t j, size_t k) { return (k * ny + j) * nx + i; };
    for (size_t k = 0; k + 1 < nz; k++) for (size_t j = 0; j + 1 < ny; j++) for (size_t i = 0; i + 1 < nx; i++) {
        std::vector<pid> p; for (int q = 0; q < 8; q++) p.push_back(pid(id(i + (q & 1), j + (q >> 1 & 1), k + (q >> 2))));
        int ed[12][2] = {{0,1},{0,2},{1,3},{2,3},{0,4},{1,5},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}};
        for (auto& e : ed) st->edges.push_back({p[e[0]], p[e[1]]});
        int fc[6][4] = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
        for (auto& f : fc) st->surfaces.push_back({p[f[0]], p[f[1]], p[f[2]], p[f[3]]});
        st->volumes.push_back({p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]});
    }
    suniq(st->edges); suniq(st->surfaces); suniq(st->volumes); mark_boundary(msh);
}
inline void segs(gen1& msh, const std::vector<T>& xs)
{
    using M = gen1; using nid = M::node_type::id_type;
    auto st = msh.backend_storage(); *st = {};
    for (size_t i = 0; i < xs.size(); i++) { st->points.push_back(P1(xs[i])); st->nodes.push_back(M::node_type(disk::point_identifier<1>(i))); }
    for (size_t i = 0; i + 1 < xs.size(); i++) st->edges.push_back(M::edge_type(nid(i), nid(i + 1)));
    st->boundary_info.assign(xs.size(), {}); st->boundary_info.front() = disk::boundary_descriptor(0, true); st->boundary_info.back() = disk::boundary_descriptor(1, true);
    st->subdomain_info.resize(st->edges.size());
}
inline std::vector<T> lin(size_t n, T a = 0, T b = 1) { std::vector<T> r; for (size_t i = 0; i <= n; i++) r.push_back(a + (b - a) * T(i) / T(n)); return r; }

// a polyhedral copy of a tetrahedral or hexahedral mesh
template<typename M> void polycopy(const M& m, gen3& out)
{
    std::vector<P3> pts; std::vector<std::vector<size_t>> fcs, cells;
    for (auto it = m.points_begin(); it != m.points_end(); ++it) pts.push_back(*it);
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { std::vector<size_t> v; for (auto p : it->point_ids()) v.push_back(size_t(p)); fcs.push_back(v); }
    for (auto& cl : m) { std::vector<size_t> v; for (auto f : faces_id(m, cl)) v.push_back(size_t(f)); cells.push_back(v); }
    poly3(out, pts, fcs, cells);
}
// a polygonal copy of a triangular or quadrangular mesh, in counter-clockwise order
template<typename M> void polycopy2(const M& m, gen2& out, size_t rot = 0)
{
    std::vector<P2> pts; std::vector<std::vector<size_t>> cells;
    for (auto it = m.points_begin(); it != m.points_end(); ++it) pts.push_back(*it);
    for (auto& cl : m) {
        std::vector<size_t> v; for (auto p : cl.point_ids()) v.push_back(size_t(p));
        P2 c(0, 0); for (auto i : v) c = c + pts[i]; c = c / T(v.size());
        std::sort(v.begin(), v.end(), [&](size_t a, size_t b) { return std::atan2(pts[a].y() - c.y(), pts[a].x() - c.x()) < std::atan2(pts[b].y() - c.y(), pts[b].x() - c.x()); });
        std::rotate(v.begin(), v.begin() + rot % v.size(), v.end());
        cells.push_back(v);
    }
    poly2(out, pts, cells);
}

inline const std::vector<P2>& Lpoly() { static std::vector<P2> p{{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}}; return p; }

// A small catalogue of meshes per storage kind, all covering the unit square/cube.
// f(name, mesh)
template<typename F> void catalogue1(F f)
{
    { gen1 m; segs(m, {0, 1}); f("seg1", m); }
    { gen1 m; segs(m, lin(3)); f("seg3", m); }
    { gen1 m; segs(m, {0, 0.25, 0.375, 1}); f("segg", m); }
}
template<typename F> void catalogue2(F f, bool big = false)
{
    { tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}, {{0, 1, 2}, {1, 2, 3}}); f("tri:two", m); }
    { tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0.375, 0.25}}, {{0, 1, 4}, {1, 3, 4}, {3, 2, 4}, {2, 0, 4}}); f("tri:fan", m); }
    { tri2 m; disk::make_simple_mesher(m); f("tri:simple", m); }
    { car2 m; grid2(m, {0, 1}, {0, 1}); f("car:one", m); }
    { car2 m; grid2(m, {0, 0.25, 1}, {0, 0.5, 1}); f("car:grid", m); }
    { gen2 m; disk::fvca5_hex_mesher<gen2> h(m); h.make_level(0); f("hex:0", m); }
    { gen2 m; poly2(m, {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0}, {0.5, 0.25}, {0.75, 0.5}, {0.5, 0.75}, {0.5, 1}}, {{0, 4, 5, 6, 7, 8, 3}, {4, 1, 2, 8, 7, 6, 5}}); f("poly:nonconvex", m); }
    { gen2 m; poly2(m, {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0.0}, {1, 0.5}, {0.5, 1}, {0, 0.5}, {0.5, 0.5}, {0.75, 0.5}}, {{0, 4, 8, 7}, {4, 1, 5, 9, 8}, {8, 9, 5, 2, 6}, {7, 8, 6, 3}}); f("poly:hanging", m); }
    if (!big) return;
    { tri2 m; auto ms = disk::make_simple_mesher(m); ms.refine(); f("tri:simple1", m); }
    { car2 m; grid2(m, {0, 0.125, 0.5, 1}, {0, 0.75, 1}); f("car:grid3", m); }
    { gen2 m; disk::fvca5_hex_mesher<gen2> h(m); h.make_level(1); f("hex:1", m); }
}
inline void cube6(tet3& m)
{
    std::vector<P3> p; for (int q = 0; q < 8; q++) p.push_back(P3(q & 1, q >> 1 & 1, q >> 2));
    tets(m, p, {{0, 1, 3, 7}, {0, 1, 5, 7}, {0, 2, 3, 7}, {0, 2, 6, 7}, {0, 4, 5, 7}, {0, 4, 6, 7}});
}
inline void cube5(tet3& m)
{
    std::vector<P3> p; for (int q = 0; q < 8; q++) p.push_back(P3(q & 1, q >> 1 & 1, q >> 2));
    tets(m, p, {{0, 1, 2, 4}, {3, 1, 2, 7}, {5, 1, 4, 7}, {6, 2, 4, 7}, {1, 2, 4, 7}});
}
// unit cube cut into two prisms-like cells by the plane x=y, with a hexagonal face split on top: two triangular prisms
inline void prisms(gen3& m)
{
    std::vector<P3> p; for (int q = 0; q < 8; q++) p.push_back(P3(q & 1, q >> 1 & 1, q >> 2));
    poly3(m, p, {{0, 1, 3}, {0, 3, 2}, {4, 5, 7}, {4, 7, 6}, {0, 1, 5, 4}, {1, 3, 7, 5}, {3, 2, 6, 7}, {2, 0, 4, 6}, {0, 3, 7, 4}}, {{0, 2, 4, 5, 8}, {1, 3, 6, 7, 8}});
}
template<typename F> void catalogue3(F f, bool big = false)
{
    { tet3 m; cube5(m); f("tet:cube5", m); }
    { car3 m; grid3(m, {0, 1}, {0, 1}, {0, 1}); f("car3:one", m); }
    { gen3 m; prisms(m); f("poly3:prisms", m); }
    if (!big) return;
    { tet3 m; cube6(m); f("tet:cube6", m); }
    { car3 m; grid3(m, {0, 0.25, 1}, {0, 1}, {0, 0.5, 1}); f("car3:grid", m); }
    { gen3 m; car3 c; grid3(c, {0, 0.5, 1}, {0, 1}, {0, 1}); polycopy(c, m); f("poly3:hex", m); }
    { gen3 m; tet3 c; cube5(c); polycopy(c, m); f("poly3:tet", m); }
}
} // namespace mm
