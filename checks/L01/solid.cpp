// Solid mesh files in every listing order, loaded by the real loaders and compared with what was written.
// MC: libs=common jburkardt triangle
#include "meshfiles.hpp"
using namespace mm;
template<typename M, typename F> void go(const std::string& w, const char* ext, const std::string& text, F load, const d3& d, expectation ex)
{
    auto fn = scratch(ext); put(fn, text); M m; bool ok = false; { quiet q; ok = load(fn.c_str(), m); } mc::check(ok, "load", w); if (ok) compare3(w, m, d, ex); mc::trans(); }
static bool iface(const d3& d) { for (auto& [f, b] : d.bnd) if (owners(d, f) > 1) return true; return false; }
static void do_fvca6(const std::string& w, const d3& d, const order& o) { if (iface(d)) return; d3 e = d; e.dom.assign(d.c.size(), 0); expectation ex; ex.hyper = true; go<gen3>(w + " fvca6", "msh", polyhedra(e, o, true), [](auto f, auto& m) { return disk::load_mesh_fvca6_3d(f, m); }, e, ex); }
static void do_medit(const std::string& w, const d3& d, const order& o) { d3 e = d; e.dom.assign(d.c.size(), 0); go<gen3>(w + " medit3d", "medit3d", polyhedra(e, o, false), [](auto f, auto& m) { return disk::load_mesh_medit(f, m); }, e, {}); }
static void do_poly(const std::string& w, const d3& d, const order& o) { go<gen3>(w + " poly3d", "poly3d", poly3d(d, o), [](auto f, auto& m) { return disk::load_mesh_poly(f, m); }, d, {}); }
static void do_netgen(const std::string& w, const d3& d, const order& o) { for (auto& c : d.cv) if (c.size() != 4) return; if (d.cv.empty()) return; go<tet3>(w + " netgen", "mesh", netgen(d, o), [](auto f, auto& m) { return disk::load_mesh_netgen(f, m); }, d, {}); }
static void every(const std::string& w, const d3& d, const order& o) { mc::state(w); do_fvca6(w, d, o); do_medit(w, d, o); do_poly(w, d, o); do_netgen(w, d, o); }
static void perms(size_t n, size_t cap, std::function<void(const vs&)> f) { vs p = id_order(n); double all = 1; for (size_t i = 2; i <= n; i++) all *= i; if (all <= cap) { do f(p); while (std::next_permutation(p.begin(), p.end())); return; } f(p); vs r = p; std::reverse(r.begin(), r.end()); f(r); for (size_t i = 1; i < n; i++) { r = p; std::rotate(r.begin(), r.begin() + i, r.end()); f(r); } for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { r = p; std::swap(r[i], r[j]); f(r); } }
static std::string tx(const vs& v) { std::string s; for (auto x : v) s += mc::str(x, "."); return s; }
static d3 general(const std::vector<P3>& p, const std::vector<std::vector<vs>>& cf) { auto d = from_cells(p, {}, cf); d.cv.clear(); return d; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    std::vector<std::pair<std::string, d3>> ms; auto add = [&](const char* n, d3 d) { for (size_t k = 0; k < d.c.size(); k++) d.dom[k] = k % 3 + 1; ms.push_back({n, d}); };
    add("two tetrahedra", tet_desc({P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 1., 1.)}, {{0, 1, 2, 3}, {1, 2, 3, 4}})); add("one tetrahedron", tet_desc({P3(0., 0., 0.), P3(1., 0., .25), P3(0., 1., 0.), P3(.125, 0., 1.)}, {{0, 1, 2, 3}}));
    add("cube in five tetrahedra", tet_desc({P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(1., 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.), P3(0., 1., 1.), P3(1., 1., 1.)}, {{0, 1, 2, 4}, {3, 1, 2, 7}, {5, 1, 4, 7}, {6, 2, 4, 7}, {1, 2, 4, 7}}));
    auto cv0 = [](d3 d) { d.cv.clear(); return d; }; add("two hexahedra", cv0(hex_desc(2, 1, 1))); add("one hexahedron", cv0(hex_desc(1, 1, 1)));
    add("two prisms", general({P3(0., 0., 0.), P3(1., 0., 0.), P3(1., 1., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.), P3(1., 1., 1.), P3(0., 1., 1.)}, {{{0, 1, 2}, {4, 5, 6}, {0, 1, 5, 4}, {1, 2, 6, 5}, {0, 2, 6, 4}}, {{0, 2, 3}, {4, 6, 7}, {0, 2, 6, 4}, {2, 3, 7, 6}, {3, 0, 4, 7}}}));
    add("pyramid on a hexahedron", general({P3(0., 0., 0.), P3(1., 0., 0.), P3(1., 1., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.), P3(1., 1., 1.), P3(0., 1., 1.), P3(.5, .5, 1.5)}, {{{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}, {{4, 5, 6, 7}, {4, 5, 8}, {5, 6, 8}, {6, 7, 8}, {7, 4, 8}}}));
    for (auto& [nm, d0] : ms) for (int ifc = 0; ifc < 2; ifc++) { if (ifc && d0.c.size() < 2) continue; mc::scenario(nm + (ifc ? " with interfaces" : ""), [&, nm = nm, d0 = d0] {
        d3 d = d0; mark(d, 1, ifc); size_t n = d.p.size(), ne = edges_of(d).size(), nb = d.bnd.size(), nf = d.f.size(), cap = th ? 5040 : 120; std::string w = nm; auto at = [&](const std::string& k, const d3& x, const order& o) { every(w + k, x, o); };
        perms(n, cap, [&](const vs& p) { at(" nodes " + tx(p), renumber(d, p), {}); });
        perms(nf, cap, [&](const vs& p) { at(" faces " + tx(p), reface(d, p), {}); });
        perms(d.c.size(), cap, [&](const vs& p) { auto r = recell(d, p); for (int fl = 0; fl < 2; fl++) { order o; o.flip = fl; at(" cells " + tx(p), r, o); } });
        perms(ne, cap, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.e = p; o.flip = fl; at(" edges " + tx(p), d, o); } });
        perms(nb, cap, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.b = p; o.flip = fl; at(" boundary " + tx(p), d, o); } });
        // faces of each cell in another order, faces starting elsewhere or traversed backwards
        for (size_t k = 0; k < d.c.size(); k++) perms(d.c[k].size(), 720, [&](const vs& p) { d3 r = d; for (size_t i = 0; i < p.size(); i++) r.c[k][i] = d.c[k][p[i]]; if (d.cv.empty()) { d3 z = d; r.cv.clear(); for (size_t c = 0; c < d.c.size(); c++) r.cv.push_back(cverts(z, c)); } at(mc::str(" faces of cell ", k, " ", tx(p)), r, {}); });
        for (size_t f = 0; f < nf; f++) for (size_t s = 0; s < d.f[f].size(); s++) for (int b = 0; b < 2; b++) { d3 r = d; std::rotate(r.f[f].begin(), r.f[f].begin() + s, r.f[f].end()); if (b) std::reverse(r.f[f].begin(), r.f[f].end()); at(mc::str(" face ", f, " start ", s, b ? " backwards" : ""), r, {}); }
        if (d.cv.size() && d.cv[0].size() == 4) for (size_t k = 0; k < d.c.size(); k++) perms(4, 24, [&](const vs& p) { d3 r = d; for (size_t i = 0; i < 4; i++) r.cv[k][i] = d.cv[k][p[i]]; at(mc::str(" vertices of cell ", k, " ", tx(p)), r, {}); });
        // explicit numbers, listed in any order
        perms(n, cap, [&](const vs& p) { order o; o.n = p; do_poly(w + " listed nodes " + tx(p), d, o); }); perms(nf, cap, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.f = p; o.flip = fl; do_poly(w + " listed faces " + tx(p), d, o); } }); perms(d.c.size(), cap, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.c = p; o.flip = fl; do_poly(w + " listed cells " + tx(p), d, o); } });
        if (n <= 5) perms(n, 120, [&](const vs& p) { auto r = renumber(d, p); perms(d.c.size(), 24, [&](const vs& q) { auto x = recell(r, q); for (int s = 0; s < 2; s++) { order o; o.flip = s; o.n = p; std::reverse(o.n.begin(), o.n.end()); o.e = id_order(ne); if (s) std::reverse(o.e.begin(), o.e.end()); at(" product " + tx(p) + tx(q), x, o); } }); }); }); }
    for (size_t nx = 1; nx <= 2; nx++) for (size_t ny = 1; ny <= 2; ny++) for (size_t nz = 1; nz <= 2; nz++) mc::scenario(mc::str("grid ", nx, ny, nz), [&] {
        d3 d = hex_desc(nx, ny, nz); mark(d, 0); expectation ex; ex.flat = 0; auto at = [&](const std::string& k, const d3& x, const order& o) { mc::state(mc::str(nx, ny, nz, k)); go<car3>(mc::str("grid ", nx, ny, nz, k), "hex", hex(x, o), [](auto f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, x, ex); };
        perms(d.c.size(), 24, [&](const vs& p) { at(" cells " + tx(p), recell(d, p), {}); }); perms(d.bnd.size(), 720, [&](const vs& p) { order o; o.b = p; at(" boundary " + tx(p), d, o); });
        vs p; for (size_t k = 0; k <= nz; k++) for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) p.push_back((i * (ny + 1) + j) * (nz + 1) + k); at(" z first", renumber(d, p), {}); });
    mc::scenario("dispatch", [&] { size_t n = 0, nc = 0; auto f = [&](auto& m) { n++; nc = m.cells_size(); }; auto d = ms[0].second; mark(d); auto h = hex_desc(2, 1, 1); mark(h); for (auto& [ext, text] : std::vector<std::pair<const char*, std::string>>{{"mesh", netgen(d)}, {"msh", polyhedra(d, {}, true)}, {"hex", hex(h)}}) { put(scratch(ext), text); n = nc = 0; int rc; { quiet q; rc = disk::dispatch_all_meshes(scratch(ext).c_str(), f); } mc::check(rc == 0 && n == 1 && nc == 2, "dispatch", ext); } });
    scratch_gone(); return mc::finish();
}
