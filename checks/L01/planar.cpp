// Planar mesh files in every listing order, loaded by the real loaders and compared with what was written.
// MC: libs=common jburkardt triangle
#include "meshfiles.hpp"
using namespace mm;
struct fmt { const char* name; std::function<void(const std::string&, const d2&, const order&)> run; };
template<typename M, typename F> void go(const std::string& w, const char* ext, const std::string& text, F load, const d2& d, expectation ex)
{
    auto fn = scratch(ext); put(fn, text); M m; bool ok = false; { quiet q; ok = load(fn.c_str(), m); } mc::check(ok, "load", w); if (ok) compare2(w, m, d, ex); mc::trans(); }
static void do_fvca5(const std::string& w, const d2& d, const order& o) { d2 e = d; expectation ex; ex.hyper = true; for (bool dom : {false, true}) { if (!dom) e.dom.assign(d.c.size(), 0); else e.dom = d.dom; go<gen2>(w + (dom ? " fvca5+domains" : " fvca5"), "typ1", fvca5(e, o, dom), [](auto f, auto& m) { return disk::load_mesh_fvca5_2d(f, m); }, e, ex); } }
static void do_medit(const std::string& w, const d2& d, const order& o) { for (bool first : {false, true}) go<gen2>(w + " medit2d", "medit2d", medit2d(d, o, first), [](auto f, auto& m) { return disk::load_mesh_medit(f, m); }, d, {}); }
static void do_poly(const std::string& w, const d2& d, const order& o) { go<gen2>(w + " poly2d", "poly2d", poly2d(d, o), [](auto f, auto& m) { return disk::load_mesh_poly(f, m); }, d, {}); }
static void do_netgen(const std::string& w, const d2& d, const order& o) { for (auto& c : d.c) if (c.size() != 3) return; go<tri2>(w + " netgen", "mesh2d", netgen(d, o), [](auto f, auto& m) { return disk::load_mesh_netgen(f, m); }, d, {}); }
static void every(const std::string& w, const d2& d, const order& o) { mc::state(w); do_fvca5(w, d, o); do_medit(w, d, o); do_poly(w, d, o); do_netgen(w, d, o); }
static void perms(size_t n, size_t cap, std::function<void(const vs&)> f) { vs p = id_order(n); double all = 1; for (size_t i = 2; i <= n; i++) all *= i; if (all <= cap) { do f(p); while (std::next_permutation(p.begin(), p.end())); return; } f(p); vs r = p; std::reverse(r.begin(), r.end()); f(r); for (size_t i = 1; i < n; i++) { r = p; std::rotate(r.begin(), r.begin() + i, r.end()); f(r); } for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { r = p; std::swap(r[i], r[j]); f(r); } }
static std::string tx(const vs& v) { std::string s; for (auto x : v) s += mc::str(x, "."); return s; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    std::vector<std::pair<std::string, d2>> ms; auto add = [&](const char* n, std::vector<P2> p, std::vector<vs> c) { d2 d; d.p = p; d.c = c; for (size_t k = 0; k < c.size(); k++) d.dom.push_back(k % 3 + 1); ms.push_back({n, d}); };
    add("two triangles", {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {{0, 1, 2}, {0, 2, 3}}); add("triangle and quadrangle", {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {.5, 0}}, {{4, 1, 2}, {0, 4, 2, 3}}); add("fan", {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {.375, .25}}, {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}});
    add("hanging", {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {.5, 0}, {1, .5}, {.5, 1}, {0, .5}, {.5, .5}, {.75, .5}}, {{0, 4, 8, 7}, {4, 1, 5, 9, 8}, {8, 9, 5, 2, 6}, {7, 8, 6, 3}}); add("nonconvex", {{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}, {2, 2}}, {{0, 1, 2, 3, 4, 5}, {3, 2, 6, 4}}); add("slanted", {{0, 0}, {2, .5}, {1.5, 2}, {.25, 1}, {1, .25}}, {{0, 4, 3}, {4, 1, 2}, {4, 2, 3}}); add("reentrant", {{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}, {1, 0}, {0, 1}}, {{0, 6, 3, 7}, {6, 1, 2, 3}, {7, 3, 4, 5}}); add("single", {{0, 0}, {1, 0}, {.25, 1}}, {{0, 1, 2}}); add("far", {{1e6, -1e-6}, {1e6 + 1, 0}, {1e6, 1. / 3}}, {{0, 1, 2}});
    for (auto& [nm, d0] : ms) for (int iface = 0; iface < 2; iface++) mc::scenario(nm + (iface ? " with interfaces" : ""), [&, nm = nm, d0 = d0] {
        d2 d = d0; mark(d, 1, iface); size_t n = d.p.size(), ne = edges_of(d).size(), nb = d.bnd.size(); std::string w = nm; auto at = [&](const std::string& k, const d2& x, const order& o) { every(w + k, x, o); };
        perms(n, th ? 5040 : 120, [&](const vs& p) { auto r = renumber(d, p); at(" nodes " + tx(p), r, {}); });
        perms(d.c.size(), 24, [&](const vs& p) { auto r = recell(d, p); for (int fl = 0; fl < 2; fl++) { order o; o.flip = fl; at(" cells " + tx(p), r, o); } });
        // every combination of starting vertices
        vs rot(d.c.size(), 0); for (;;) { d2 r = d; for (size_t k = 0; k < rot.size(); k++) std::rotate(r.c[k].begin(), r.c[k].begin() + rot[k], r.c[k].end()); at(" starts " + tx(rot), r, {}); for (auto& c : r.c) std::reverse(c.begin(), c.end()); at(" backwards " + tx(rot), r, {}); size_t k = 0; while (k < rot.size() && ++rot[k] == d.c[k].size()) rot[k++] = 0; if (k == rot.size()) break; }
        perms(ne, th ? 5040 : 120, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.e = p; o.flip = fl; at(" edges " + tx(p), d, o); } }); perms(nb, th ? 5040 : 120, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.b = p; o.flip = fl; at(" boundary " + tx(p), d, o); } });
        // formats with explicit numbers: nodes, edges and faces listed in any order
        perms(n, th ? 5040 : 120, [&](const vs& p) { order o; o.n = p; do_poly(w + " listed nodes " + tx(p), d, o); }); perms(ne, th ? 5040 : 120, [&](const vs& p) { order o; o.f = p; do_poly(w + " listed edges " + tx(p), d, o); }); perms(d.c.size(), 24, [&](const vs& p) { for (int fl = 0; fl < 2; fl++) { order o; o.c = p; o.flip = fl; do_poly(w + " listed faces " + tx(p), d, o); } });
        // products of small permutations
        if (n <= (th ? 5 : 4)) perms(n, 120, [&](const vs& p) { auto r = renumber(d, p); perms(d.c.size(), 24, [&](const vs& q) { auto x = recell(r, q); for (size_t s = 0; s < 3; s++) { auto y = x; for (size_t k = 0; k < y.c.size(); k++) std::rotate(y.c[k].begin(), y.c[k].begin() + (s * (k + 1)) % y.c[k].size(), y.c[k].end()); order o; o.flip = s & 1; o.n = p; std::reverse(o.n.begin(), o.n.end()); at(" product " + tx(p) + tx(q), y, o); } }); }); });
    // cartesian grids
    for (size_t nx = 1; nx <= 3; nx++) for (size_t ny = 1; ny <= 3; ny++) mc::scenario(mc::str("grid ", nx, "x", ny), [&] {
        d2 d; for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) d.p.push_back(P2(double(i * i) / (nx * nx), double(j) / ny)); auto id = [&](size_t i, size_t j) { return j * (nx + 1) + i; }; for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) { d.c.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)}); d.dom.push_back(0); } mark(d, 0); expectation ex; ex.flat = 0;
        auto at = [&](const std::string& k, const d2& x, const order& o) { mc::state(mc::str(nx, ny, k)); go<car2>(mc::str("grid ", nx, "x", ny, k), "quad", quad(x, o), [](auto f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, x, ex); };
        perms(d.c.size(), 24, [&](const vs& p) { at(" cells " + tx(p), recell(d, p), {}); }); perms(d.bnd.size(), 720, [&](const vs& p) { order o; o.b = p; at(" boundary " + tx(p), d, o); });
        // numberings that keep the direction of the edges
        { d2 r = d; vs p; for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) p.push_back(i * (ny + 1) + j); at(" columns first", renumber(r, p), {}); } });
    // the dispatcher picks the loader from the extension and reports success
    mc::scenario("dispatch", [&] { auto d = ms[0].second; mark(d); size_t n = 0, nc = 0; auto f = [&](auto& m) { n++; nc = m.cells_size(); }; for (auto& [ext, text] : std::vector<std::pair<const char*, std::string>>{{"typ1", fvca5(d)}, {"mesh2d", netgen(d)}}) { put(scratch(ext), text); n = nc = 0; int rc; { quiet q; rc = disk::dispatch_all_meshes(scratch(ext).c_str(), f); } mc::check(rc == 0 && n == 1 && nc == 2, "dispatch", ext); }
        d2 g; g.p = {{0, 0}, {1, 0}, {0, 1}, {1, 1}}; g.c = {{0, 1, 3, 2}}; g.dom = {0}; mark(g); put(scratch("quad"), quad(g)); n = 0; int rc; { quiet q; rc = disk::dispatch_all_meshes(scratch("quad").c_str(), f); } mc::check(rc == 0 && n == 1 && nc == 1, "dispatch", "quad"); n = 0; { quiet q; rc = disk::dispatch_all_meshes((scratch("typ1") + "x").c_str(), f); } mc::check(rc != 0 && n == 0, "dispatch", "unknown extension"); });
    scratch_gone(); return mc::finish();
}
