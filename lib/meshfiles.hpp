// Mesh files: explicit descriptions, writers for every supported format, and the comparison of a loaded mesh with its description.
#pragma once
#include "complex.hpp"
#include <fstream>
#include <functional>
#include <unistd.h>
#include <sys/stat.h>
#include "diskpp/loaders/loader.hpp"
namespace mm {
using vs = std::vector<size_t>; using pr = std::pair<size_t, size_t>;
inline pr mk(size_t a, size_t b) { return a < b ? pr{a, b} : pr{b, a}; }
// cells of a planar mesh as vertex loops; marked edges carry an id
struct d2 { std::vector<P2> p; std::vector<vs> c; vs dom; std::map<pr, size_t> bnd; };
// faces as vertex loops, cells as lists of faces; marked faces carry an id; cv: vertex lists of tetrahedra and hexahedra
struct d3 { std::vector<P3> p; std::vector<vs> f, c, cv; vs dom; std::map<size_t, size_t> bnd; };
inline std::map<pr, vs> owners(const d2& d) { std::map<pr, vs> o; for (size_t k = 0; k < d.c.size(); k++) for (size_t i = 0; i < d.c[k].size(); i++) o[mk(d.c[k][i], d.c[k][(i + 1) % d.c[k].size()])].push_back(k); return o; }
inline std::vector<pr> edges_of(const d2& d) { std::vector<pr> r; for (auto& x : owners(d)) r.push_back(x.first); return r; }
inline std::vector<pr> edges_of(const d3& d) { std::set<pr> s; for (auto& f : d.f) for (size_t i = 0; i < f.size(); i++) s.insert(mk(f[i], f[(i + 1) % f.size()])); return {s.begin(), s.end()}; }
inline size_t owners(const d3& d, size_t f) { size_t n = 0; for (auto& c : d.c) n += std::count(c.begin(), c.end(), f); return n; }
inline vs cverts(const d3& d, size_t k) { if (!d.cv.empty()) return d.cv[k]; vs r; for (auto f : d.c[k]) for (auto v : d.f[f]) if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); return r; }
// marks every edge with one owner: ids 1.. by side (9 when not on a side), shifted by s; interface: also mark the edges between different subdomains with 20
inline void mark(d2& d, size_t s = 1, bool iface = false) { d.bnd.clear(); for (auto& [e, o] : owners(d)) { P2 m = (d.p[e.first] + d.p[e.second]) / 2.; if (o.size() == 1) d.bnd[e] = side(m) + s; else if (iface && d.dom[o[0]] != d.dom[o[1]]) d.bnd[e] = 20; } }
inline void mark(d3& d, size_t s = 1, bool iface = false) { d.bnd.clear(); for (size_t f = 0; f < d.f.size(); f++) { P3 m(0., 0., 0.); for (auto v : d.f[f]) m = m + d.p[v]; m = m / double(d.f[f].size()); vs o; for (size_t k = 0; k < d.c.size(); k++) if (std::count(d.c[k].begin(), d.c[k].end(), f)) o.push_back(k); if (o.size() == 1) d.bnd[f] = side(m) + s; else if (iface && d.dom[o[0]] != d.dom[o[1]]) d.bnd[f] = 20; } }
// renumbering of the points: point i becomes point n[i]
inline d2 renumber(const d2& d, const vs& n) { d2 r = d; for (size_t i = 0; i < n.size(); i++) r.p[n[i]] = d.p[i]; for (auto& c : r.c) for (auto& v : c) v = n[v]; r.bnd.clear(); for (auto& [e, b] : d.bnd) r.bnd[mk(n[e.first], n[e.second])] = b; return r; }
inline d3 renumber(const d3& d, const vs& n) { d3 r = d; for (size_t i = 0; i < n.size(); i++) r.p[n[i]] = d.p[i]; for (auto* x : {&r.f, &r.cv}) for (auto& c : *x) for (auto& v : c) v = n[v]; return r; }
template<typename D> D recell(const D& d, const vs& o) { D r = d; for (size_t i = 0; i < o.size(); i++) { r.c[i] = d.c[o[i]]; r.dom[i] = d.dom[o[i]]; if constexpr (std::is_same_v<D, d3>) if (!d.cv.empty()) r.cv[i] = d.cv[o[i]]; } return r; }
inline d3 reface(const d3& d, const vs& n) { d3 r = d; for (size_t i = 0; i < n.size(); i++) r.f[n[i]] = d.f[i]; for (auto& c : r.c) for (auto& f : c) f = n[f]; r.bnd.clear(); for (auto& [f, b] : d.bnd) r.bnd[n[f]] = b; return r; }
// a listing: in which order edges (or marked entries) are written and which are written backwards
struct order { vs e, b, n, f, c; bool flip = false; };
inline vs id_order(size_t n) { vs r(n); std::iota(r.begin(), r.end(), 0); return r; }
inline vs take(const vs& o, size_t n) { return o.size() == n ? o : id_order(n); }
template<typename P> std::string co(const P& p) { std::ostringstream s; s.precision(17); for (size_t i = 0; i < P::dimension; i++) s << (i ? " " : "") << p[i]; return s.str(); }
template<typename M> std::vector<std::pair<typename M::key_type, size_t>> blist(const M& m, const order& o) { std::vector<std::pair<typename M::key_type, size_t>> v(m.begin(), m.end()), r; for (auto i : take(o.b, v.size())) r.push_back(v[i]); return r; }
inline std::string fvca5(const d2& d, const order& o = {}, bool withdom = false)
{
    std::ostringstream s; s << "vertices\n" << d.p.size() << "\n"; for (auto& p : d.p) s << co(p) << "\n";
    static const char* nm[] = {"triangles", "quadrangles", "pentagons", "hexagons"}; std::map<size_t, size_t> no; size_t n = 0;
    for (size_t k = 3; k <= 6; k++) { size_t q = 0; for (auto& c : d.c) q += c.size() == k; if (!q) continue; s << nm[k - 3] << "\n" << q << "\n"; for (size_t i = 0; i < d.c.size(); i++) if (d.c[i].size() == k) { no[i] = ++n; for (size_t j = 0; j < k; j++) s << (j ? " " : "") << d.c[i][j] + 1; if (withdom) s << " " << d.dom[i]; s << "\n"; } }
    std::vector<pr> outer, inner; auto ow = owners(d); for (auto& [e, b] : blist(d.bnd, o)) (ow.at(e).size() == 1 ? outer : inner).push_back(e);
    auto pe = [&](pr e, size_t i) { bool fl = o.flip && i % 2 == 0; return mc::str(fl ? e.second + 1 : e.first + 1, " ", fl ? e.first + 1 : e.second + 1); };
    s << "edges of the boundary\n" << outer.size() << "\n"; for (size_t i = 0; i < outer.size(); i++) s << pe(outer[i], i) << "\n";
    if (!inner.empty()) { s << "edges of transmission\n" << inner.size() << "\n"; for (size_t i = 0; i < inner.size(); i++) s << pe(inner[i], i) << "\n"; }
    auto es = edges_of(d); s << "all edges\n" << es.size() << "\n"; size_t i = 0; for (auto k : take(o.e, es.size())) { auto& w = ow.at(es[k]); size_t a = no[w[0]], b = w.size() > 1 ? no[w[1]] : 0; if (o.flip && i % 3 == 0) std::swap(a, b); s << pe(es[k], i++) << " " << a << " " << b << "\n"; }
    return s.str();
}
inline std::string medit2d(const d2& d, const order& o = {}, bool edges_first = false)
{
    std::ostringstream s, e; s << "MeshVersionFormatted 2\nDimension\n3\n"; s << "Vertices\n" << d.p.size() << "\n"; for (auto& p : d.p) s << co(p) << " 0 1\n";
    auto bl = blist(d.bnd, o); e << "Edges\n" << bl.size() << "\n"; size_t i = 0; for (auto& [x, b] : bl) { bool fl = o.flip && i++ % 2 == 0; e << (fl ? x.second : x.first) + 1 << " " << (fl ? x.first : x.second) + 1 << " " << b << "\n"; }
    if (edges_first) s << e.str(); static const char* nm[] = {"Triangles", "Quadrilaterals", "Pentagons", "Hexagons"};
    for (size_t k = 3; k <= 6; k++) { size_t q = 0; for (auto& c : d.c) q += c.size() == k; if (!q) continue; s << nm[k - 3] << "\n" << q << "\n"; for (size_t i = 0; i < d.c.size(); i++) if (d.c[i].size() == k) { for (auto v : d.c[i]) s << v + 1 << " "; s << d.dom[i] << "\n"; } }
    if (!edges_first) s << e.str(); s << "End\n"; return s.str();
}
template<typename MP> std::string groups(const char* kw, const MP& m) { std::map<size_t, vs> g; for (auto& [e, b] : m) g[b].push_back(e); std::ostringstream s; s << kw << " " << g.size() << "\n"; for (auto& [b, l] : g) { s << "grp" << b << " " << b << " " << l.size(); for (auto x : l) s << " " << x; s << "\n"; } return s.str(); }
inline std::string poly2d(const d2& d, const order& o = {})
{
    std::ostringstream s; s << "**BeginMesh\n*Version 1\n*Dimension 2\n*Nodes " << d.p.size() << "\n"; for (auto i : take(o.n, d.p.size())) s << i << " " << co(d.p[i]) << " 0\n";
    auto es = edges_of(d); auto num = take(o.e, es.size()); std::map<pr, size_t> id; for (size_t i = 0; i < es.size(); i++) id[es[i]] = num[i]; // edge i has id num[i], listed in the order of o.f
    auto eo = take(o.f, es.size()); s << "*Edges->Nodes " << es.size() << "\n"; for (auto i : eo) { bool fl = o.flip && i % 2; s << id[es[i]] << " 2 " << (fl ? es[i].second : es[i].first) << " " << (fl ? es[i].first : es[i].second) << "\n"; }
    s << "*Faces->Nodes " << d.c.size() << "\n"; for (auto k : take(o.c, d.c.size())) { s << k << " " << d.c[k].size(); for (auto v : d.c[k]) s << " " << v; s << "\n"; }
    s << "*Faces->Edges " << d.c.size() << "\n"; auto co2 = take(o.c, d.c.size()); if (o.flip) std::reverse(co2.begin(), co2.end()); for (auto k : co2) { s << k << " " << d.c[k].size(); for (size_t i = 0; i < d.c[k].size(); i++) s << " " << id[mk(d.c[k][i], d.c[k][(i + 1) % d.c[k].size()])]; s << "\n"; }
    std::vector<std::pair<size_t, size_t>> g; for (auto& [e, b] : blist(d.bnd, o)) g.push_back({id[e], b}); s << groups("*Edges->Groups", g); std::vector<std::pair<size_t, size_t>> h; for (size_t k = 0; k < d.c.size(); k++) h.push_back({k, d.dom[k]}); s << groups("*Faces->Groups", h) << "**EndMesh\n"; return s.str();
}
inline std::string netgen(const d2& d, const order& o = {})
{
    std::ostringstream s; s << d.p.size() << "\n"; for (auto& p : d.p) s << "  " << co(p) << "\n"; s << d.c.size() << "\n"; for (size_t k = 0; k < d.c.size(); k++) { s << "  " << d.dom[k]; for (auto v : d.c[k]) s << "  " << v + 1; s << "\n"; }
    auto bl = blist(d.bnd, o); s << bl.size() << "\n"; size_t i = 0; for (auto& [e, b] : bl) { bool fl = o.flip && i++ % 2 == 0; s << "  " << b << "  " << (fl ? e.second : e.first) + 1 << "  " << (fl ? e.first : e.second) + 1 << "\n"; } return s.str();
}
inline std::string netgen(const d3& d, const order& o = {})
{
    std::ostringstream s; s << d.p.size() << "\n"; for (auto& p : d.p) s << "  " << co(p) << "\n"; s << d.c.size() << "\n"; for (size_t k = 0; k < d.c.size(); k++) { s << "  " << d.dom[k]; for (auto v : d.cv[k]) s << "  " << v + 1; s << "\n"; }
    auto bl = blist(d.bnd, o); s << bl.size() << "\n"; size_t i = 0; for (auto& [f, b] : bl) { vs v = d.f[f]; if (o.flip) std::rotate(v.begin(), v.begin() + i++ % 3, v.end()); s << "  " << b; for (auto x : v) s << "  " << x + 1; s << "\n"; } return s.str();
}
inline std::string quad(const d2& d, const order& o = {})
{
    std::ostringstream s; s << d.p.size() << "\n"; for (auto& p : d.p) s << co(p) << "\n"; s << d.c.size() << "\n"; for (auto& c : d.c) s << c[0] << " " << c[1] << " " << c[3] << " " << c[2] << "\n"; // lower left, lower right, upper left, upper right
    auto bl = blist(d.bnd, o); s << bl.size() << "\n"; for (auto& [e, b] : bl) s << e.first << " " << e.second << "\n"; return s.str();
}
inline std::string hex(const d3& d, const order& o = {})
{
    std::ostringstream s; s << d.p.size() << "\n"; for (auto& p : d.p) s << co(p) << "\n"; s << d.c.size() << "\n"; for (auto& c : d.cv) { for (size_t i = 0; i < 8; i++) s << (i ? " " : "") << c[i]; s << "\n"; }
    auto bl = blist(d.bnd, o); s << bl.size() << "\n"; for (auto& [f, b] : bl) { for (size_t i = 0; i < 4; i++) s << (i ? " " : "") << d.f[f][i]; s << "\n"; } return s.str();
}
inline std::string line(const vs& v, size_t base) { std::ostringstream s; s << v.size(); for (auto x : v) s << " " << x + base; s << "\n"; return s.str(); }
inline std::string polyhedra(const d3& d, const order& o, bool fvca) // FVCA6 and medit3d share the layout
{
    size_t B = fvca; std::ostringstream s; auto es = edges_of(d); auto num = take(o.e, es.size()); std::map<pr, size_t> id; for (size_t i = 0; i < es.size(); i++) id[es[num[i]]] = i;
    if (fvca) { for (int i = 0; i < 16; i++) s << "header line " << i << "\n"; s << "Vertices\n"; } else s << "MeshVersionFormatted 2\nDimension\n3\nVertices\n";
    s << d.p.size() << "\n"; for (auto& p : d.p) s << co(p) << "\n"; s << (fvca ? "Volumes->faces\n" : "Volumes->Faces\n") << d.c.size() << "\n"; for (auto& c : d.c) s << line(c, B); s << (fvca ? "Volumes->Verticess\n" : "Volumes->Vertices\n") << d.c.size() << "\n"; for (size_t k = 0; k < d.c.size(); k++) s << line(cverts(d, k), B);
    s << (fvca ? "Faces->Edgess\n" : "Faces->Edges\n") << d.f.size() << "\n"; for (auto& f : d.f) { vs l; for (size_t i = 0; i < f.size(); i++) l.push_back(id[mk(f[i], f[(i + 1) % f.size()])]); s << line(l, B); } s << "Faces->Vertices\n" << d.f.size() << "\n"; for (auto& f : d.f) s << line(f, B);
    s << "Faces->Control volumes\n"; if (fvca) { s << d.f.size() << "\n"; for (size_t f = 0; f < d.f.size(); f++) { vs w; for (size_t k = 0; k < d.c.size(); k++) if (std::count(d.c[k].begin(), d.c[k].end(), f)) w.push_back(k + 1); s << w[0] << " " << (w.size() > 1 ? int(w[1]) : -1) << "\n"; } } else { auto bl = blist(d.bnd, o); s << bl.size() << "\n"; for (auto& [f, b] : bl) s << f << " " << b << "\n"; }
    s << "Edges\n" << es.size() << "\n"; for (size_t i = 0; i < es.size(); i++) { auto e = es[num[i]]; bool fl = o.flip && i % 2 == 0; s << (fl ? e.second : e.first) + B << " " << (fl ? e.first : e.second) + B << "\n"; } return s.str();
}
inline std::string poly3d(const d3& d, const order& o = {})
{
    std::ostringstream s; s << "**BeginMesh\n*Version 1\n*Dimension 3\n*Nodes " << d.p.size() << "\n"; for (auto i : take(o.n, d.p.size())) s << i << " " << co(d.p[i]) << "\n";
    auto es = edges_of(d); auto num = take(o.e, es.size()); std::map<pr, size_t> id; for (size_t i = 0; i < es.size(); i++) id[es[i]] = num[i]; auto rev = [&](vs v) { if (o.flip) std::reverse(v.begin(), v.end()); return v; };
    s << "*Edges->Nodes " << es.size() << "\n"; for (auto i : rev(id_order(es.size()))) { bool fl = o.flip && i % 2; s << id[es[i]] << " 2 " << (fl ? es[i].second : es[i].first) << " " << (fl ? es[i].first : es[i].second) << "\n"; }
    auto fo = take(o.f, d.f.size()), co3 = take(o.c, d.c.size()); s << "*Faces->Nodes " << d.f.size() << "\n"; for (auto f : fo) s << f << " " << line(d.f[f], 0); s << "*Faces->Edges " << d.f.size() << "\n"; for (auto f : rev(fo)) { vs l; for (size_t i = 0; i < d.f[f].size(); i++) l.push_back(id[mk(d.f[f][i], d.f[f][(i + 1) % d.f[f].size()])]); s << f << " " << line(l, 0); }
    s << "*Volumes->Nodes " << d.c.size() << "\n"; for (auto k : co3) s << k << " " << line(cverts(d, k), 0); s << "*Volumes->Edges " << d.c.size() << "\n"; for (auto k : co3) { std::set<size_t> l; for (auto f : d.c[k]) for (size_t i = 0; i < d.f[f].size(); i++) l.insert(id[mk(d.f[f][i], d.f[f][(i + 1) % d.f[f].size()])]); s << k << " " << line(vs(l.begin(), l.end()), 0); } s << "*Volumes->Faces " << d.c.size() << "\n"; for (auto k : rev(co3)) s << k << " " << line(d.c[k], 0);
    std::vector<std::pair<size_t, size_t>> g, h; for (auto& [f, b] : blist(d.bnd, o)) g.push_back({f, b}); s << groups("*Faces->Groups", g); for (size_t k = 0; k < d.c.size(); k++) h.push_back({k, d.dom[k]}); s << groups("*Volumes->Groups", h) << "**EndMesh"; return s.str();
}
// scratch file of this process
inline std::string scratch(const char* ext) { static std::string dir; if (dir.empty()) { dir = mc::str("/tmp/mcload.", getpid()); mkdir(dir.c_str(), 0700); } return dir + "/m." + ext; }
inline void scratch_gone() { for (auto e : {"typ1", "mesh2d", "mesh", "quad", "hex", "msh", "medit2d", "medit3d", "poly2d", "poly3d"}) unlink(scratch(e).c_str()); auto s = scratch("x"); rmdir(s.substr(0, s.rfind('/')).c_str()); }
inline void put(const std::string& file, const std::string& text) { std::ofstream f(file, std::ios::binary | std::ios::trunc); f << text; }
struct quiet { std::ostringstream s; std::streambuf* o; quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~quiet() { std::cout.rdbuf(o); } };
struct expectation { bool ids = true; bool dom = true; bool marked_only = false; size_t flat = size_t(-1); bool hyper = false; }; // ids: face ids compared; dom: subdomain ids; flat: all ids are this; hyper: sides of the unit square or cube by outward direction
// expected outward number of a side of the square or the cube, as the loaders without boundary ids promise
inline int axis(const Eigen::Vector3d& n) { for (int k = 0; k < 3; k++) if (std::abs(std::abs(n(k)) - 1) < 1e-9) return 2 * k + (n(k) > 0); return -1; } // 2k: minus direction k, 2k+1: plus
inline bool with_ids = true; // off: faces are not expected to carry the marks of the description
inline std::map<pr, size_t> hyper(const d2& d) { static const size_t t[4] = {3, 1, 0, 2}; std::map<pr, size_t> r, z; bool ok = true; for (auto& [e, o] : owners(d)) if (o.size() == 1) { auto& c = d.c[o[0]]; double a = 0; Eigen::Vector3d n(0, 0, 0); for (size_t i = 0; i < c.size(); i++) { auto &p = d.p[c[i]], &q = d.p[c[(i + 1) % c.size()]]; a += p.x() * q.y() - p.y() * q.x(); if (mk(c[i], c[(i + 1) % c.size()]) == e) n = {q.y() - p.y(), p.x() - q.x(), 0}; } if (a < 0) n = -n; int k = axis(n.normalized()); ok &= k >= 0; r[e] = k >= 0 ? t[k] : 0; z[e] = 0; } return ok ? r : z; }
inline std::map<size_t, size_t> hyper(const d3& d) { static const size_t t[6] = {2, 5, 1, 4, 0, 3}; std::map<size_t, size_t> r, z; bool ok = true; for (size_t k = 0; k < d.c.size(); k++) { auto cv = cverts(d, k); Eigen::Vector3d c(0, 0, 0); for (auto v : cv) c += V3(d.p[v]); c /= cv.size(); for (auto f : d.c[k]) if (owners(d, f) == 1) { Eigen::Vector3d x0 = V3(d.p[d.f[f][0]]), a = (V3(d.p[d.f[f][1]]) - x0).cross(V3(d.p[d.f[f][2]]) - x0); if (a.dot(x0 - c) < 0) a = -a; int q = axis(a.normalized()); ok &= q >= 0; r[f] = q >= 0 ? t[q] : 0; z[f] = 0; } } return ok ? r : z; }
template<typename M> void same_points(const std::string& w, const M& m, const auto& p) { mc::check(m.points_size() == p.size(), "points", w); if (m.points_size() != p.size()) return; size_t i = 0; for (auto it = m.points_begin(); it != m.points_end(); ++it, ++i) for (size_t k = 0; k < M::dimension; k++) mc::check((*it)[k] == p[i][k], "point-coordinates", mc::str(w, " point ", i)); }
template<typename M> void marks(const std::string& w, const M& m, size_t fid, bool marked, bool one, size_t id, const std::string& what)
{
    if (!with_ids) return; auto& bi = m.backend_storage()->boundary_info.at(fid); mc::check(bi.is_boundary() == (marked || one), "boundary-flag", w + what); if (!(marked || one)) return; mc::check(bi.is_internal() == !one, "internal-flag", w + what); if (bi.id() != id) mc::fail("boundary-id", mc::str(w, what, " got ", bi.id(), " expected ", id)); }
template<typename M> void compare2(const std::string& w, const M& m, const d2& d, expectation ex)
{
    mc::trace(); same_points(w, m, d.p); auto ow = owners(d); double area = 0; size_t nb = 0; for (auto& c : d.c) { double a = 0; for (size_t i = 0; i < c.size(); i++) { auto &p = d.p[c[i]], &q = d.p[c[(i + 1) % c.size()]]; a += p.x() * q.y() - p.y() * q.x(); } area += std::abs(a) / 2; } for (auto& x : ow) nb += x.second.size() == 1;
    if (m.cells_size() != d.c.size() || m.faces_size() != ow.size() || m.points_size() != d.p.size()) { mc::fail("sizes", mc::str(w, " cells ", m.cells_size(), "/", d.c.size(), " faces ", m.faces_size(), "/", ow.size(), " points ", m.points_size(), "/", d.p.size())); return; }
    check_complex(w, m, d.c.size(), ow.size(), ow.size(), d.p.size(), nb, area);
    std::map<std::set<size_t>, size_t> byset; for (size_t k = 0; k < d.c.size(); k++) byset[std::set<size_t>(d.c[k].begin(), d.c[k].end())] = k; size_t ci = 0; std::set<size_t> seen;
    for (auto& cl : m) { auto v = ids(cl); auto it = byset.find(std::set<size_t>(v.begin(), v.end())); mc::check(it != byset.end(), "cell", w); if (it == byset.end()) return; mc::check(seen.insert(it->second).second, "cell-twice", w); auto& c = d.c[it->second];
        if constexpr (std::is_same_v<M, gen2>) mc::check(v == c, "cell-vertex-order", w); if constexpr (std::is_same_v<M, car2>) mc::check(v == vs({c[0], c[1], c[3], c[2]}), "cell-vertex-order", w);
        std::set<pr> es, ee; for (auto f : faces(m, cl)) { auto q = ids(f); es.insert(mk(q[0], q[1])); } for (size_t i = 0; i < c.size(); i++) ee.insert(mk(c[i], c[(i + 1) % c.size()])); mc::check(es == ee, "cell-edges", w);
        if (ex.dom && m.backend_storage()->subdomain_info.size() > ci) mc::check(m.backend_storage()->subdomain_info[ci].id() == d.dom[it->second], "subdomain", mc::str(w, " got ", m.backend_storage()->subdomain_info[ci].id(), " expected ", d.dom[it->second])); ci++; }
    auto hy = hyper(d); size_t fi = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++fi) { auto q = ids(*it); auto e = mk(q[0], q[1]); auto o = ow.find(e); mc::check(o != ow.end(), "edge", w); if (o == ow.end()) return; bool one = o->second.size() == 1; size_t id = d.bnd.count(e) ? d.bnd.at(e) : 0; if (ex.flat != size_t(-1)) id = ex.flat; if (ex.hyper) id = one ? hy.at(e) : 0; marks(w, m, fi, d.bnd.count(e), one, id, mc::str(" edge ", e.first, "-", e.second)); }
}
template<typename M> void compare3(const std::string& w, const M& m, const d3& d, expectation ex)
{
    mc::trace(); same_points(w, m, d.p); size_t nb = 0, E = edges_of(d).size(); for (size_t f = 0; f < d.f.size(); f++) nb += owners(d, f) == 1;
    if (m.cells_size() != d.c.size() || m.faces_size() != d.f.size() || m.points_size() != d.p.size()) { mc::fail("sizes", mc::str(w, " cells ", m.cells_size(), "/", d.c.size(), " faces ", m.faces_size(), "/", d.f.size(), " points ", m.points_size(), "/", d.p.size())); return; }
    double vol = 0; for (size_t k = 0; k < d.c.size(); k++) { auto cv = cverts(d, k); Eigen::Vector3d c(0, 0, 0); for (auto v : cv) c += V3(d.p[v]); c /= cv.size(); for (auto f : d.c[k]) { Eigen::Vector3d a(0, 0, 0), x0 = V3(d.p[d.f[f][0]]); for (size_t i = 1; i + 1 < d.f[f].size(); i++) a += .5 * (V3(d.p[d.f[f][i]]) - x0).cross(V3(d.p[d.f[f][i + 1]]) - x0); vol += std::abs(a.dot(x0 - c)) / 3; } }
    check_complex(w, m, d.c.size(), d.f.size(), E, d.p.size(), nb, vol);
    std::map<std::set<size_t>, size_t> fs, cs; for (size_t f = 0; f < d.f.size(); f++) fs[std::set<size_t>(d.f[f].begin(), d.f[f].end())] = f; for (size_t k = 0; k < d.c.size(); k++) { auto v = cverts(d, k); cs[std::set<size_t>(v.begin(), v.end())] = k; }
    auto eset = [&](const vs& v) { std::set<pr> r; for (size_t i = 0; i < v.size(); i++) r.insert(mk(v[i], v[(i + 1) % v.size()])); return r; }; size_t fi = 0; std::set<size_t> seen; auto hy = hyper(d);
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++fi) { auto q = ids(*it); auto o = fs.find(std::set<size_t>(q.begin(), q.end())); mc::check(o != fs.end(), "face", w); if (o == fs.end()) return; mc::check(eset(q) == eset(d.f[o->second]), "face-vertex-order", w);
        if constexpr (std::is_same_v<M, gen3>) { std::set<pr> r; for (auto e = it->subelement_id_begin(); e != it->subelement_id_end(); ++e) { auto z = ids(m.backend_storage()->edges.at(size_t(*e))); r.insert(mk(z[0], z[1])); } mc::check(r == eset(d.f[o->second]), "face-edges", w); }
        bool one = owners(d, o->second) == 1; size_t id = d.bnd.count(o->second) ? d.bnd.at(o->second) : 0; if (ex.flat != size_t(-1)) id = ex.flat; if (ex.hyper) id = one ? hy.at(o->second) : 0; marks(w, m, fi, d.bnd.count(o->second), one, id, mc::str(" face ", o->second)); }
    size_t ci = 0; for (auto& cl : m) { auto v = ids(cl); auto o = cs.find(std::set<size_t>(v.begin(), v.end())); mc::check(o != cs.end(), "cell", w); if (o == cs.end()) return; size_t k = o->second; mc::check(seen.insert(k).second, "cell-twice", w); if constexpr (std::is_same_v<M, car3>) mc::check(v == d.cv[k], "cell-vertex-order", w);
        std::set<std::set<size_t>> a, b; for (auto f : faces(m, cl)) { auto q = ids(f); a.insert(std::set<size_t>(q.begin(), q.end())); } for (auto f : d.c[k]) b.insert(std::set<size_t>(d.f[f].begin(), d.f[f].end())); mc::check(a == b, "cell-faces", w);
        if (ex.dom && m.backend_storage()->subdomain_info.size() > ci) mc::check(m.backend_storage()->subdomain_info[ci].id() == d.dom[k], "subdomain", w); ci++; }
}
// descriptions
inline d3 from_cells(const std::vector<P3>& p, const std::vector<vs>& cv, const std::vector<std::vector<vs>>& cf) { d3 d; d.p = p; d.cv = cv; std::map<std::set<size_t>, size_t> m; for (auto& fl : cf) { vs c; for (auto& f : fl) { std::set<size_t> k(f.begin(), f.end()); if (!m.count(k)) { m[k] = d.f.size(); d.f.push_back(f); } c.push_back(m[k]); } d.c.push_back(c); } d.dom.assign(d.c.size(), 0); return d; }
inline d3 tet_desc(const std::vector<P3>& p, const std::vector<vs>& cv) { std::vector<std::vector<vs>> cf; for (auto& c : cv) cf.push_back({{c[0], c[1], c[2]}, {c[0], c[1], c[3]}, {c[0], c[2], c[3]}, {c[1], c[2], c[3]}}); return from_cells(p, cv, cf); }
inline d3 hex_desc(size_t nx, size_t ny, size_t nz) { std::vector<P3> p; for (size_t k = 0; k <= nz; k++) for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) p.push_back(P3(double(i) / nx, double(j) / ny, double(k) / nz)); std::vector<vs> cv; std::vector<std::vector<vs>> cf; auto id = [&](size_t i, size_t j, size_t k) { return (k * (ny + 1) + j) * (nx + 1) + i; }; static const size_t fc[6][4] = {{0, 2, 6, 4}, {1, 3, 7, 5}, {0, 1, 3, 2}, {4, 5, 7, 6}, {0, 4, 5, 1}, {2, 6, 7, 3}};
    for (size_t k = 0; k < nz; k++) for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) { vs c; for (size_t q = 0; q < 8; q++) c.push_back(id(i + (q & 1), j + (q >> 1 & 1), k + (q >> 2))); cv.push_back(c); std::vector<vs> fl; for (auto& f : fc) fl.push_back({c[f[0]], c[f[1]], c[f[2]], c[f[3]]}); cf.push_back(fl); } return from_cells(p, cv, cf); }
} // namespace mm
