// Meshes handed over by GMSH, with every numbering, grouping and cell orientation within the bound, loaded by the real loaders.
// MC: libs=common jburkardt triangle gmsh
// MC: flags=-DHAVE_GMSH
#include "meshfiles.hpp"
using namespace mm;
static std::string tx(const vs& v) { std::string s; for (auto x : v) s += mc::str(x, "."); return s; }
static void perms(size_t n, size_t cap, std::function<void(const vs&)> f) { vs p = id_order(n); double all = 1; for (size_t i = 2; i <= n; i++) all *= i; if (all <= cap) { do f(p); while (std::next_permutation(p.begin(), p.end())); return; } f(p); vs r = p; std::reverse(r.begin(), r.end()); f(r); for (size_t i = 1; i < n; i++) { r = p; std::rotate(r.begin(), r.begin() + i, r.end()); f(r); } for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { r = p; std::swap(r[i], r[j]); f(r); } }
// dom and bnd of a description hold the tags of the entities
struct numbering { vs tag; vs nodes, elems; int shift = 0; bool flip = false; }; // tag of every node, orders of listing
static std::string put3(const double* x) { std::ostringstream s; s.precision(17); s << x[0] << " " << x[1] << " " << x[2]; return s.str(); }
struct elem { int type; size_t entity; vs v; };
template<typename D> std::string msh(const D& d, const std::vector<elem>& es, const numbering& o)
{
    std::ostringstream s; size_t n = d.p.size(); auto tag = [&](size_t i) { return o.tag.empty() ? i + 1 : o.tag[i]; }; s << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << n << "\n"; for (size_t k = 0; k < n; k++) { size_t i = o.nodes.empty() ? k : o.nodes[k]; double x[3] = {0, 0, 0}; for (int c = 0; c < int(std::is_same_v<D, d2> ? 2 : 3); c++) x[c] = d.p[i][c]; s << tag(i) << " " << put3(x) << "\n"; }
    s << "$EndNodes\n$Elements\n" << es.size() << "\n"; for (size_t k = 0; k < es.size(); k++) { auto& e = es[o.elems.empty() ? k : o.elems[k]]; s << 2 * k + 3 << " " << e.type << " 2 0 " << e.entity; for (auto v : e.v) s << " " << tag(v); s << "\n"; } s << "$EndElements\n"; return s.str();
}
static vs turn(vs v, const numbering& o, size_t k) { if (o.shift) std::rotate(v.begin(), v.begin() + (o.shift * (k + 1)) % v.size(), v.end()); if (o.flip && k % 2 == 0) std::reverse(v.begin(), v.end()); return v; }
static std::vector<elem> elems(const d2& d, const numbering& o) { std::vector<elem> r; size_t k = 0; for (auto& [e, b] : d.bnd) r.push_back({1, b, turn({e.first, e.second}, o, k++)}); for (size_t c = 0; c < d.c.size(); c++) r.push_back({2, d.dom[c], turn(d.c[c], o, c)}); return r; }
static std::vector<elem> elems(const d3& d, const numbering& o) { std::vector<elem> r; size_t k = 0; for (auto& [f, b] : d.bnd) r.push_back({d.f[f].size() == 3 ? 2 : 3, b, turn(d.f[f], o, k++)}); for (size_t c = 0; c < d.c.size(); c++) { auto v = d.cv[c]; if (v.size() == 4) v = turn(v, o, c); else { size_t s = o.shift * (c + 1) % 3; std::rotate(v.begin(), v.begin() + s, v.begin() + 3); std::rotate(v.begin() + 3, v.begin() + 3 + s, v.end()); if (o.flip && c % 2 == 0) std::rotate(v.begin(), v.begin() + 3, v.end()); } r.push_back({v.size() == 4 ? 4 : 6, d.dom[c], v}); } return r; }
// what a loaded mesh says, against the description (points are matched by their coordinates)
template<typename M, typename D> void judge(const std::string& w, const M& m, D d)
{
    constexpr size_t dim = M::dimension; size_t n = d.p.size(); mc::check(m.points_size() == n, "points", mc::str(w, " ", m.points_size(), "/", n)); if (m.points_size() != n) return; vs to(n, n); std::set<size_t> used; size_t k = 0;
    for (auto it = m.points_begin(); it != m.points_end(); ++it, ++k) { size_t best = n; double at = 1e-12; for (size_t i = 0; i < n; i++) { double q = 0; for (size_t c = 0; c < dim; c++) q = std::max(q, std::abs((*it)[c] - d.p[i][c])); if (q < at) { at = q; best = i; } } mc::check(best < n && used.insert(best).second, "point-coordinates", mc::str(w, " point ", k)); if (best == n) return; to[best] = k; d.p[best] = d.p[best]; }
    if (used.size() != n) return; d = renumber(d, to); with_ids = false; expectation ex; ex.dom = false; if constexpr (dim == 2) compare2(w, m, d, ex); else compare3(w, m, d, ex);
    auto st = m.backend_storage(); mc::check(st->boundary_info.size() == m.faces_size() && st->subdomain_info.size() == m.cells_size(), "sizes", w + " descriptors"); if (st->boundary_info.size() != m.faces_size() || st->subdomain_info.size() != m.cells_size()) return;
    std::map<std::set<size_t>, std::pair<size_t, size_t>> mark; std::map<std::set<size_t>, size_t> own; // faces: owners and tag (0: none)
    if constexpr (dim == 2) for (auto& [e, o] : owners(d)) mark[{e.first, e.second}] = {o.size(), d.bnd.count(e) ? d.bnd.at(e) : 0}; else for (size_t f = 0; f < d.f.size(); f++) mark[std::set<size_t>(d.f[f].begin(), d.f[f].end())] = {owners(d, f), d.bnd.count(f) ? d.bnd.at(f) : 0};
    auto one2one = [&](std::map<size_t, size_t>& a, std::map<size_t, size_t>& b, size_t x, size_t y) { bool ok = (!a.count(x) || a[x] == y) && (!b.count(y) || b[y] == x); a[x] = y; b[y] = x; return ok; }; std::map<size_t, size_t> bi, bt, si, stg; k = 0;
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++k) { auto q = ids(*it); auto f = mark.find(std::set<size_t>(q.begin(), q.end())); mc::check(f != mark.end(), "face", w); if (f == mark.end()) return; auto [no, tag] = f->second; auto& b = st->boundary_info[k]; std::string at = mc::str(w, " face ", tx(vs(q.begin(), q.end())), " tag ", tag, " got ", b.tag()); mc::check(b.is_boundary() == (tag != 0), "boundary-flag", at); mc::check(b.is_internal() == (tag != 0 && no == 2), "internal-flag", at); if (tag) { mc::check(b.tag() == tag, "boundary-tag", at); mc::check(one2one(bi, bt, b.id(), tag), "boundary-number", at); } }
    if constexpr (dim == 2) { for (size_t c = 0; c < d.c.size(); c++) own[std::set<size_t>(d.c[c].begin(), d.c[c].end())] = d.dom[c]; } else for (size_t c = 0; c < d.c.size(); c++) { auto v = cverts(d, c); own[std::set<size_t>(v.begin(), v.end())] = d.dom[c]; }
    k = 0; for (auto& cl : m) { auto v = ids(cl); auto o = own.find(std::set<size_t>(v.begin(), v.end())); if (o == own.end()) { mc::fail("cell", w); return; } auto& s = st->subdomain_info[k++]; mc::check(s.tag() == o->second, "domain-tag", mc::str(w, " got ", s.tag(), " expected ", o->second)); mc::check(one2one(si, stg, s.id(), s.tag()), "domain-number", mc::str(w, " cells of domain ", s.tag(), " carry several numbers, or several domains the number ", s.id())); mc::check(m.domain_info(cl).tag() == o->second, "domain-info", w); }
}
// sides of an entity are all triangles or all quadrangles
template<typename D> void label(D& d, size_t s, bool iface) { mark(d, s, iface); if constexpr (std::is_same_v<D, d3>) for (auto& [f, b] : d.bnd) if (d.f[f].size() == 4) b += 30; }
static std::string file() { return scratch("msh"); }
template<typename M, typename D> void go(const std::string& w, const D& d, const numbering& o) { mc::state(w); mc::trans(); put(file(), msh(d, elems(d, o), o)); M m; { quiet q; disk::gmsh_geometry_loader<M> l; l.read_mesh(file()); l.populate_mesh(m); } judge(w, m, d); }
// geometries meshed by GMSH: the same instructions given to its own interface
template<typename M> void geo(std::string w, const std::string& text)
{
    constexpr int dim = M::dimension; w += std::is_same_v<M, gen3> ? " (general)" : ""; mc::state(w); put(scratch("geo"), text); M m; bool threw = false; try { quiet q; disk::gmsh_geometry_loader<M> l; l.read_mesh(scratch("geo")); l.populate_mesh(m); } catch (...) { threw = true; }
    gmsh::initialize(0, nullptr); gmsh::option::setNumber("General.Terminal", 0); gmsh::open(scratch("geo")); gmsh::model::mesh::generate(dim); gmsh::model::mesh::setOrder(1);
    std::vector<size_t> t; std::vector<double> x, y; gmsh::model::mesh::getNodes(t, x, y); std::map<size_t, size_t> at; std::conditional_t<dim == 2, d2, d3> d; for (size_t i = 0; i < t.size(); i++) { at[t[i]] = i; if constexpr (dim == 2) d.p.push_back(P2(x[3 * i], x[3 * i + 1])); else d.p.push_back(P3(x[3 * i], x[3 * i + 1], x[3 * i + 2])); }
    bool supported = true; auto each = [&](int dd, auto f) { gmsh::vectorpair en; gmsh::model::getEntities(en, dd); for (auto [a, tag] : en) { std::vector<int> ty; std::vector<std::vector<size_t>> el, nn; gmsh::model::mesh::getElements(ty, el, nn, a, tag); for (size_t k = 0; k < ty.size(); k++) { size_t q = nn[k].size() / el[k].size(); for (size_t i = 0; i < el[k].size(); i++) { vs v; for (size_t j = 0; j < q; j++) v.push_back(at.at(nn[k][q * i + j])); f(ty[k], size_t(tag), v); } } } };
    std::vector<vs> cells; vs tags; each(dim, [&](int ty, size_t tag, const vs& v) { bool gen = std::is_same_v<M, gen3>; supported &= gen ? ty == 6 : ty == (dim == 2 ? 2 : 4); cells.push_back(v); tags.push_back(tag); });
    if (supported) { if constexpr (dim == 2) { d.c = cells; each(1, [&](int, size_t tag, const vs& v) { d.bnd[mk(v[0], v[1])] = tag; }); } else { std::vector<std::vector<vs>> cf; for (auto& c : cells) cf.push_back(c.size() == 4 ? std::vector<vs>{{c[0], c[1], c[2]}, {c[0], c[1], c[3]}, {c[0], c[2], c[3]}, {c[1], c[2], c[3]}} : std::vector<vs>{{c[0], c[1], c[2]}, {c[3], c[4], c[5]}, {c[0], c[1], c[4], c[3]}, {c[1], c[2], c[5], c[4]}, {c[0], c[2], c[5], c[3]}}); auto p = d.p; d = from_cells(p, cells, cf); std::map<std::set<size_t>, size_t> fid; for (size_t f = 0; f < d.f.size(); f++) fid[std::set<size_t>(d.f[f].begin(), d.f[f].end())] = f; each(2, [&](int, size_t tag, const vs& v) { d.bnd[fid.at(std::set<size_t>(v.begin(), v.end()))] = tag; }); } d.dom = tags; }
    gmsh::finalize(); mc::trans(); if (!supported) { mc::check(threw, "unsupported-accepted", w + ": cells of a kind the loader does not know"); return; } mc::check(!threw, "load", w); if (!threw) { mc::count("cells of geometries", cells.size()); judge(w, m, d); }
}
template<typename M, typename D> void family(const std::string& nm, const D& d0, bool th)
{
    size_t n = d0.p.size(), nc = d0.c.size();
    mc::scenario(nm + " numbering", [=] { D d = d0; for (size_t c = 0; c < nc; c++) d.dom[c] = 5 + 3 * (c % 2); label(d, 3, true); std::string w = nm;
        perms(n, th ? 5040 : 120, [&](const vs& p) { numbering o; for (auto x : p) o.tag.push_back(x + 1); go<M>(w + " tags " + tx(p), d, o); for (auto& x : o.tag) x = 3 * x + 2; go<M>(w + " spread tags " + tx(p), d, o); o.tag.clear(); o.nodes = p; go<M>(w + " listed " + tx(p), d, o); });
        size_t ne = elems(d, {}).size(); perms(ne, 120, [&](const vs& p) { numbering o; o.elems = p; go<M>(w + " elements " + tx(p), d, o); });
        for (int s = 0; s < 4; s++) for (int f = 0; f < 2; f++) perms(nc, 24, [&](const vs& p) { numbering o; o.shift = s; o.flip = f; go<M>(mc::str(w, " turned ", s, f, " ", tx(p)), recell(d, p), o); }); });
    // every grouping of the cells and of the boundary faces into entities, with increasing and decreasing tags
    mc::scenario(nm + " grouping", [=] { vs g(nc, 0); std::string w = nm; for (;;) { for (int dir = 0; dir < 2; dir++) { D d = d0; for (size_t c = 0; c < nc; c++) d.dom[c] = dir ? 9 - 3 * g[c] : 2 + 5 * g[c]; for (int ifc = 0; ifc < 2; ifc++) { label(d, 1, ifc); go<M>(mc::str(w, " domains ", tx(d.dom), " interfaces ", ifc), d, {}); } } size_t k = 0; while (k < nc && ++g[k] == 3) g[k++] = 0; if (k == nc) break; }
        D d = d0; for (size_t c = 0; c < nc; c++) d.dom[c] = 1 + c % 2; label(d, 1, true); size_t nb = d.bnd.size(); if (nb <= (th ? 12 : 8)) for (size_t b = 0; b < (size_t(1) << nb); b++) { D e = d; size_t k = 0; for (auto& x : e.bnd) { bool quad = false; if constexpr (std::is_same_v<D, d3>) quad = d.f[x.first].size() == 4; x.second = ((b >> k++) & 1 ? 3 : 8) + quad; } go<M>(mc::str(w, " sides ", b), e, {}); } });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto pl = [&](const char* n, std::vector<P2> p, std::vector<vs> c) { d2 d; d.p = p; d.c = c; d.dom.assign(c.size(), 1); family<tri2>(n, d, th); };
    pl("two triangles", {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {{0, 1, 2}, {0, 2, 3}}); pl("fan", {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {.375, .25}}, {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}); pl("slanted", {{0, 0}, {2, .5}, {1.5, 2}, {.25, 1}, {1, .25}}, {{0, 4, 3}, {4, 1, 2}, {4, 2, 3}}); pl("single", {{0, 0}, {1, 0}, {.25, 1}}, {{0, 1, 2}}); pl("four in a row", {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}}, {{0, 1, 4}, {0, 4, 3}, {1, 2, 5}, {1, 5, 4}});
    auto te = [&](const char* n, d3 d) { family<tet3>(n, d, th); };
    te("two tetrahedra", tet_desc({P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 1., 1.)}, {{0, 1, 2, 3}, {1, 2, 3, 4}})); te("one tetrahedron", tet_desc({P3(0., 0., 0.), P3(1., 0., .25), P3(0., 1., 0.), P3(.125, 0., 1.)}, {{0, 1, 2, 3}})); te("three round an edge", tet_desc({P3(0., 0., 0.), P3(0., 0., 1.), P3(1., 0., 0.), P3(-.5, 1., 0.), P3(-.5, -1., 0.)}, {{0, 1, 2, 3}, {0, 1, 3, 4}, {0, 1, 4, 2}}));
    te("cube in five", tet_desc({P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(1., 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.), P3(0., 1., 1.), P3(1., 1., 1.)}, {{0, 1, 2, 4}, {3, 1, 2, 7}, {5, 1, 4, 7}, {6, 2, 4, 7}, {1, 2, 4, 7}}));
    auto pr6 = [](const std::vector<P3>& p, const std::vector<vs>& cv) { std::vector<std::vector<vs>> cf; for (auto& c : cv) cf.push_back({{c[0], c[1], c[2]}, {c[3], c[4], c[5]}, {c[0], c[1], c[4], c[3]}, {c[1], c[2], c[5], c[4]}, {c[0], c[2], c[5], c[3]}}); return from_cells(p, cv, cf); }; auto fam = [&](const char* n, d3 d) { family<gen3>(n, d, th); };
    fam("one prism", pr6({P3(0., 0., 0.), P3(1., 0., 0.), P3(.25, 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.5), P3(.25, 1., 1.25)}, {{0, 1, 2, 3, 4, 5}}));
    fam("two prisms side by side", pr6({P3(0., 0., 0.), P3(1., 0., 0.), P3(1., 1., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.), P3(1., 1., 1.), P3(0., 1., 1.)}, {{0, 1, 2, 4, 5, 6}, {0, 2, 3, 4, 6, 7}}));
    fam("two prisms stacked", pr6({P3(0., 0., 0.), P3(1., 0., 0.), P3(0., 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.), P3(0., 1., 1.), P3(0., 0., 2.), P3(1., 0., 2.5), P3(0., 1., 2.)}, {{0, 1, 2, 3, 4, 5}, {3, 4, 5, 6, 7, 8}}));
    // geometries
    std::string sq = "SetFactory(\"Built-in\");\nPoint(1)={0,0,0,h};Point(2)={1,0,0,h};Point(3)={1,1,0,h};Point(4)={0,1,0,h};Line(11)={1,2};Line(5)={2,3};Line(7)={3,4};Line(2)={4,1};Curve Loop(1)={11,5,7,2};Plane Surface(4)={1};\n", two = sq + "Point(5)={2,0,0,h};Point(6)={2,1,0,h};Line(20)={2,5};Line(21)={5,6};Line(22)={6,3};Curve Loop(2)={20,21,22,-5};Plane Surface(2)={2};\n";
    std::string embedded = sq + "Point(7)={.25,.5,0,h};Point(8)={.75,.5,0,h};Line(30)={7,8};Curve{30} In Surface{4};\n", hole = sq + "Point(7)={.25,.25,0,h};Point(8)={.75,.25,0,h};Point(9)={.5,.75,0,h};Line(30)={7,8};Line(31)={8,9};Line(32)={9,7};Curve Loop(3)={30,31,32};Plane Surface(9)={1,3};Delete{Surface{4};}\n", island = hole + "Plane Surface(6)={3};\n";
    auto structured = [](const std::string& s, bool re) { return s + "Transfinite Curve{:}=3;Transfinite Surface{:};\n" + (re ? "Recombine Surface{:};\n" : ""); };
    for (double h : th ? std::vector<double>{2, .5, .25, .125} : std::vector<double>{2, .5, .25}) mc::scenario(mc::str("planar geometries ", h), [=] { std::string H = mc::str("h=", h, ";\n"); geo<tri2>("square", H + sq); geo<tri2>("two squares", H + two); geo<tri2>("embedded line", H + embedded); geo<tri2>("island", H + island); geo<tri2>("structured", H + structured(two, false)); geo<tri2>("quadrangles", H + structured(sq, true)); geo<tri2>("quadrangles in one of two", H + two + "Transfinite Curve{:}=3;Transfinite Surface{:};Recombine Surface{2};\n"); geo<tri2>("second order", H + two + "Mesh.ElementOrder=2;\n"); });
    auto ex = [](const std::string& s, const char* layers) { return s + "Extrude{0,0,1}{Surface{:};" + layers + "}\n"; };
    for (double h : th ? std::vector<double>{2, .5, .25} : std::vector<double>{2, .5}) mc::scenario(mc::str("solid geometries ", h), [=] { std::string H = mc::str("h=", h, ";\n"); geo<tet3>("cube", H + ex(sq, "")); geo<tet3>("two cubes", H + ex(two, "")); geo<tet3>("layers", H + ex(two, "Layers{2};")); geo<tet3>("island", H + ex(island, "")); geo<tet3>("second order", H + ex(two, "") + "Mesh.ElementOrder=2;\n"); geo<gen3>("prisms", H + ex(two, "Layers{2};Recombine;")); geo<gen3>("prisms with an island", H + ex(island, "Layers{1};Recombine;")); geo<gen3>("tetrahedra", H + ex(sq, "")); geo<tet3>("prisms", H + ex(sq, "Layers{2};Recombine;")); geo<gen3>("prisms and hexahedra", H + ex(two + "Transfinite Curve{:}=3;Transfinite Surface{:};Recombine Surface{2};\n", "Layers{2};Recombine;")); geo<gen3>("hexahedra", H + ex(structured(sq, true), "Layers{2};Recombine;")); geo<tet3>("hexahedra", H + ex(structured(sq, true), "Layers{2};Recombine;")); });
    // files with a cell the loader does not know, with and without boundary entities, before or after the others
    mc::scenario("foreign cells", [=] { std::vector<P3> p; for (int k = 0; k < 12; k++) p.push_back(P3(k % 3, k / 3 % 2, k / 6)); const std::vector<elem> tet{{4, 3, {0, 1, 3, 6}}}, pri{{6, 3, {0, 1, 3, 6, 7, 9}}}, hex{{5, 4, {1, 2, 5, 4, 7, 8, 11, 10}}}, pyr{{7, 4, {1, 2, 5, 4, 8}}}; d3 d; d.p = p; d2 q; for (int k = 0; k < 6; k++) q.p.push_back(P2(k % 3, k / 3)); const std::vector<elem> tri{{2, 3, {0, 1, 3}}}, qua{{3, 4, {1, 2, 5, 4}}};
        auto at = [&]<typename M>(const char* n, const auto& d, M, std::vector<std::vector<elem>> x) { for (int same = 0; same < 2; same++) for (int rev = 0; rev < 2; rev++) { std::vector<elem> es; for (auto& e : x) for (auto f : e) { if (same) f.entity = 3; es.push_back(f); } if (rev) std::reverse(es.begin(), es.end()); std::string w = mc::str(n, same ? " one entity" : "", rev ? " reversed" : ""); mc::state(w); mc::trans(); put(file(), msh(d, es, {})); bool threw = false; M m; try { quiet g; disk::gmsh_geometry_loader<M> l; l.read_mesh(file()); l.populate_mesh(m); } catch (...) { threw = true; } mc::check(threw, "unsupported-accepted", w); } };
        at("tetrahedron and hexahedron", d, tet3{}, {tet, hex}); at("tetrahedron and pyramid", d, tet3{}, {tet, pyr}); at("tetrahedron and prism", d, tet3{}, {tet, pri}); at("hexahedron", d, tet3{}, {hex}); at("prism and hexahedron", d, gen3{}, {pri, hex}); at("prism and tetrahedron", d, gen3{}, {pri, tet}); at("prism and pyramid", d, gen3{}, {pri, pyr}); at("pyramid", d, gen3{}, {pyr}); at("triangle and quadrangle", q, tri2{}, {tri, qua}); at("quadrangle", q, tri2{}, {qua}); });
    mc::scenario("dispatch", [=] { d2 d; d.p = {{0, 0}, {1, 0}, {.25, 1}}; d.c = {{0, 1, 2}}; d.dom = {1}; mark(d); auto t = tet_desc({P3(0., 0., 0.), P3(1., 0., .25), P3(0., 1., 0.), P3(.125, 0., 1.)}, {{0, 1, 2, 3}}); t.dom[0] = 1; mark(t); auto p = pr6({P3(0., 0., 0.), P3(1., 0., 0.), P3(.25, 1., 0.), P3(0., 0., 1.), P3(1., 0., 1.5), P3(.25, 1., 1.25)}, {{0, 1, 2, 3, 4, 5}}); p.dom[0] = 1; label(p, 1, false); for (auto& x : p.bnd) x.second = x.first + 1;
        for (auto& [e, x, dim, nf] : std::vector<std::tuple<const char*, std::string, int, size_t>>{{"geo2s", msh(d, elems(d, {}), {}), 2, 3}, {"geo3s", msh(t, elems(t, {}), {}), 3, 4}, {"geo3g", msh(p, elems(p, {}), {}), 3, 5}}) { put(scratch(e), x); int n = 0, rc; size_t got = 0; int gd = 0; auto f = [&](auto& m) { n++; got = m.faces_size(); gd = std::decay_t<decltype(m)>::dimension; }; { quiet q; rc = disk::dispatch_all_meshes(scratch(e).c_str(), f); } mc::check(rc == 0 && n == 1 && got == nf && gd == dim, "dispatch", e); } });
    for (auto e : {"geo", "geo2s", "geo3s", "geo3g"}) unlink(scratch(e).c_str()); scratch_gone(); return mc::finish();
}
