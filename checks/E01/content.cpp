// Every catalogue and generated mesh, every kind of field: written through silo_database, read back with the Silo library.
// MC: libs=jburkardt triangle siloh5
// MC: shards=4
#include <utility>
#include "gens.hpp"
#include "hull3.hpp"
#include "diskpp/mesh/rational.hpp"
#include "diskpp/output/silo.hpp"
#include "siloread.hpp"
using namespace mm;
using V3 = Eigen::Vector3d;
static V3 at(const sr::mesh& r, int n) { V3 v = V3::Zero(); for (int d = 0; d < r.dim; d++) v[d] = r.x[d].at(n); return v; }
static V3 area(const sr::mesh& r, const std::vector<int>& q) { V3 a = V3::Zero(), o = at(r, q[0]); for (size_t i = 1; i + 1 < q.size(); i++) a += (at(r, q[i]) - o).cross(at(r, q[i + 1]) - o) / 2; return a; }
template<typename T, size_t D> static V3 vp(const disk::point<T, D>& p) { V3 v = V3::Zero(); for (size_t d = 0; d < D; d++) v[d] = double(p.at(d)); return v; }
template<typename M, typename C> static std::vector<V3> corners(const M& m, const C& c) { std::vector<V3> r; for (auto& p : points(m, c)) r.push_back(vp(p)); return r; }
static bool same(std::vector<V3> a, std::vector<V3> b) { auto lt = [](const V3& p, const V3& q) { return std::lexicographical_compare(p.data(), p.data() + 3, q.data(), q.data() + 3); }; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); return a == b; }
// the sides of a ring as unordered pairs of points
static std::vector<V3> gather(const sr::mesh& r, const std::vector<int>& q) { std::vector<V3> a; for (auto n : q) a.push_back(at(r, n)); return a; }
template<typename M> void check_mesh(const std::string& w, M& m, const sr::mesh& r)
{
    constexpr size_t D = M::dimension; using T = typename M::coordinate_type; 
    if (!mc::check(r.ok, "mesh-readable", w + " " + r.why)) return;
    if (!mc::check(r.dim == int(D) && r.x.size() == D && r.x[0].size() == m.points_size(), "nodes", w)) return;
    if constexpr (std::is_same_v<T, float>) mc::check(r.type == DB_FLOAT || r.type == DB_DOUBLE, "coordinate-type", w);
    size_t i = 0; for (auto& p : points(m)) { for (size_t d = 0; d < D; d++) mc::check(r.x[d][i] == double(p.at(d)), "coordinates", w + mc::str(" node ", i, " got ", r.x[d][i])); i++; mc::trans(); }
    if (!mc::check(r.nzones == int(m.cells_size()), "zones", w)) return;
    int nn = m.points_size();
    if constexpr (D == 3) if (r.poly) {
        mc::check(r.faces.size() == m.faces_size(), "faces", w); for (auto& q : r.faces) for (auto n : q) if (!mc::check(n >= 0 && n < nn, "node-range", w)) return;
        i = 0; for (auto& cl : m) { std::string wc = w + mc::str(" cell ", i); auto& z = r.zfaces[i++]; auto fcs = faces(m, cl); if (!mc::check(z.size() == fcs.size(), "face-count", wc)) continue; std::vector<char> used(fcs.size()); V3 sum = V3::Zero(); double vol = 0; auto b = corners(m, cl); V3 g = V3::Zero(); for (auto& p : b) g += p / b.size();
            for (auto s : z) { size_t f = s < 0 ? ~s : s; if (!mc::check(f < r.faces.size(), "face-range", wc)) continue; auto ring = gather(r, r.faces[f]); V3 a = area(r, r.faces[f]) * (s < 0 ? -1 : 1); sum += a; vol += a.dot(ring[0] - g) / 3;
                mc::check(a.dot(ring[0] - g) > 0, "face-orientation", wc + mc::str(" face ", f)); bool hit = false; for (size_t k = 0; k < fcs.size(); k++) if (!used[k] && same(ring, corners(m, fcs[k]))) { used[k] = 1; hit = true; mc::near(a.norm(), double(measure(m, fcs[k])), 1e-10, "face-ring", wc); break; } mc::check(hit, "face-nodes", wc); }
            mc::check(sum.norm() < 1e-12, "closed", wc); mc::near(vol, double(measure(m, cl)), 1e-10, "volume", wc, 1e-3); mc::trans(); }
        return;
    }
    if (r.poly) { mc::fail("zone-kind", w); return; }
    if (!mc::check(r.zones.size() == m.cells_size(), "zones", w)) return;
    i = 0; for (auto& cl : m) { std::string wc = w + mc::str(" cell ", i); auto& z = r.zones[i++]; auto c = corners(m, cl); bool in = true; for (auto n : z.nodes) in &= n >= 0 && n < nn; if (!mc::check(in, "node-range", wc)) continue; auto q = gather(r, z.nodes); if (!mc::check(same(q, c), "zone-nodes", wc)) continue; mc::trans();
        if constexpr (D == 2) { // the ring must run along the edges of the cell and enclose its area
            auto fcs = faces(m, cl); std::vector<char> used(fcs.size()); for (size_t k = 0; k < q.size(); k++) { std::vector<V3> e{q[k], q[(k + 1) % q.size()]}; bool hit = false; for (size_t j = 0; j < fcs.size(); j++) if (!used[j] && same(e, corners(m, fcs[j]))) { used[j] = 1; hit = true; break; } mc::check(hit, "ring", wc); } mc::check(fcs.size() == q.size(), "ring-length", wc); }
        else if (c.size() == 4) mc::check(z.type == DB_ZONETYPE_TET, "zone-type", wc);
        else if (c.size() == 8) { // hexahedron: lower ring 0123, upper ring 4567 above it
            mc::check(z.type == DB_ZONETYPE_HEX, "zone-type", wc); static const int F[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}; auto fcs = faces(m, cl); for (auto& f : F) { std::vector<int> n; for (int k : f) n.push_back(z.nodes[k]); bool hit = false; for (auto& fc : fcs) if (same(gather(r, n), corners(m, fc))) { hit = true; mc::near(area(r, n).norm(), double(measure(m, fc)), 1e-12, "hexahedron-ring", wc); } mc::check(hit, "hexahedron-face", wc); } } }
}
static void check_var(const std::string& w, const sr::file& f, const std::string& n, const std::string& mesh, int cent, const sr::vec& v)
{
    auto r = f.get(n); if (!mc::check(r.ok, "field-missing", w + " " + n)) return; mc::check(r.mesh == mesh, "field-mesh", w + " " + n); mc::check(r.centering == cent, "field-centering", w + " " + n + mc::str(" ", r.centering)); mc::check(r.v.size() == 1 && r.v[0] == v, "field-values", w + " " + n); mc::trans(); mc::trace();
}
template<typename M> void one(const std::string& nm, M& m)
{
    using T = typename M::coordinate_type; using X = Eigen::Matrix<double, Eigen::Dynamic, 1>; using C = std::complex<double>; constexpr int D = M::dimension; mc::state(nm);
    sr::scratch dir; size_t np = m.points_size(), nc = m.cells_size(); auto val = [](size_t i, int k) { return 0.125 * double(i * i + 1) - 3.5 * k + (i == 2 ? 1e-7 : 0); };
    struct fld { std::string n; int cent; sr::vec v; }; std::vector<fld> want; std::map<std::string, std::pair<int, std::string>> defs;
    { disk::silo_database db; if (!mc::check(db.create(dir("a.silo")), "create", nm)) return; mc::check(db.add_mesh(std::as_const(m), "mesh"), "add-mesh", nm); mc::check(db.add_mesh(m, "again"), "add-mesh", nm);
      for (int z = 0; z < 2; z++) { size_t n = z ? nc : np; auto ct = z ? disk::zonal_variable_t : disk::nodal_variable_t; int want_ct = z ? DB_ZONECENT : DB_NODECENT; std::string s = z ? "z" : "n";
        auto expect = [&](const std::string& q, int k) { sr::vec v(n); for (size_t i = 0; i < n; i++) v[i] = val(i, k); want.push_back({q, want_ct, v}); };
        { X x(n); for (size_t i = 0; i < n; i++) x[i] = val(i, 1); mc::check(db.add_variable("mesh", s + "eigen", x, ct), "add-variable", nm + " eigen"); expect(s + "eigen", 1); }
        { std::vector<double> x(n); for (size_t i = 0; i < n; i++) x[i] = val(i, 2); mc::check(db.add_variable("mesh", s + "stl", x, ct), "add-variable", nm + " stl"); expect(s + "stl", 2); }
        { Eigen::Matrix<float, Eigen::Dynamic, 1> x(n); sr::vec v(n); for (size_t i = 0; i < n; i++) { x[i] = val(i, 3); v[i] = x[i]; } mc::check(db.add_variable("mesh", s + "float", x, ct), "add-variable", nm + " float"); want.push_back({s + "float", want_ct, v}); }
        { Eigen::Matrix<double, Eigen::Dynamic, 2> x(n, 2); for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++) x(i, k) = val(i, 4 + k); mc::check(db.add_variable("mesh", s + "two", x, ct), "add-variable", nm + " two"); expect(s + "two_x", 4); expect(s + "two_y", 5); defs[s + "two"] = {DB_VARTYPE_VECTOR, "{" + s + "two_x," + s + "two_y}"}; }
        { Eigen::Matrix<double, Eigen::Dynamic, 3> x(n, 3); for (size_t i = 0; i < n; i++) for (int k = 0; k < 3; k++) x(i, k) = val(i, 6 + k); mc::check(db.add_variable("mesh", s + "three", x, ct), "add-variable", nm + " three"); expect(s + "three_x", 6); expect(s + "three_y", 7); expect(s + "three_z", 8); defs[s + "three"] = {DB_VARTYPE_VECTOR, "{" + s + "three_x," + s + "three_y," + s + "three_z}"}; }
        std::vector<double> o(n); std::vector<C> oc(n); for (size_t i = 0; i < n; i++) o[i] = val(i, 9), oc[i] = C(val(i, 10), val(i, 11));
        if (z) { disk::silo_zonal_variable<double> a("zold", o); mc::check(a.size() == n && a.name() == "zold", "variable", nm); mc::check(db.add_variable("mesh", a), "add-variable", nm + " old"); disk::silo_zonal_variable<C> b("zcplx", std::vector<C>(oc)); mc::check(db.add_variable("mesh", b), "add-variable", nm + " complex"); }
        else { disk::silo_nodal_variable<double> a("nold", std::vector<double>(o)); mc::check(db.add_variable("mesh", a), "add-variable", nm + " old"); disk::silo_nodal_variable<C> b("ncplx", oc); mc::check(db.add_variable("mesh", b), "add-variable", nm + " complex"); }
        expect(s + "old", 9); expect(s + "cplx_real", 10); expect(s + "cplx_imag", 11);
        { X x(n); for (size_t i = 0; i < n; i++) x[i] = val(i, 12); mc::check(db.add_variable("again", s + "other", x, ct), "add-variable", nm + " other"); } }
      mc::check(db.add_expression("e", "znorm(1)", DB_VARTYPE_SCALAR), "add-expression", nm); defs["e"] = {DB_VARTYPE_SCALAR, "znorm(1)"};
      mc::check(db.close(), "close", nm); }
    sr::file f(dir("a.silo")); if (!mc::check(f.f, "readable", nm)) return;
    check_mesh(nm, m, f.ucd("mesh")); check_mesh(nm + " second", m, f.ucd("again")); mc::check(f.names("ucdmesh") == std::vector<std::string>{"again", "mesh"}, "mesh-names", nm);
    for (auto& q : want) check_var(nm, f, q.n, "mesh", q.cent, q.v); mc::check(f.names("ucdvar").size() == want.size() + 2, "field-names", nm); { sr::vec v(np); for (size_t i = 0; i < np; i++) v[i] = val(i, 12); check_var(nm, f, "nother", "again", DB_NODECENT, v); v.resize(nc); for (size_t i = 0; i < nc; i++) v[i] = val(i, 12); check_var(nm, f, "zother", "again", DB_ZONECENT, v); }
    auto got = f.definitions(); mc::check(got.size() == defs.size(), "expressions", nm + mc::str(" ", got.size())); for (auto& [n, d] : defs) { auto g = got.count(n) ? got[n] : std::pair<int, std::string>{}; std::string t; for (char ch : g.second) if (ch != ' ') t += ch; mc::check(g.first == d.first && t == d.second, "expression", nm + " " + n + " " + g.second); }
}
// two meshes of one kind in one database, in both orders, under names of which one may begin the other
template<typename M> void pairs(const std::string& nm, std::vector<std::pair<std::string, M>>& pool)
{
    static const char* names[][2] = {{"mesh", "mesh2"}, {"b", "a"}};
    for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < pool.size(); j++) if (i != j) for (auto& n : names) { sr::scratch dir; std::string w = nm + " " + pool[i].first + " then " + pool[j].first + " as " + n[0] + ", " + n[1];
        { disk::silo_database db; db.create(dir("p.silo")); mc::check(db.add_mesh(pool[i].second, n[0]), "add-mesh", w); mc::check(db.add_mesh(pool[j].second, n[1]), "add-mesh", w); }
        sr::file f(dir("p.silo")); if (!mc::check(f.f, "readable", w)) continue; check_mesh(w + " first", pool[i].second, f.ucd(n[0])); check_mesh(w + " second", pool[j].second, f.ucd(n[1])); mc::state(w); mc::trace(); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); DBShowErrors(DB_NONE, nullptr); DBSetDeprecateWarnings(0); bool th = mc::thorough();
    auto run = [&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ one(nm, m); }); };
    catalogue2(run, true); catalogue3(run, true);
    generated([&](const std::string& nm, auto mk) { mc::scenario("gen:" + nm, [&]{ mk([&](auto& m, const auto&, auto...) { if constexpr (std::decay_t<decltype(m)>::dimension > 1) if (m.cells_size() <= (th ? 4000 : 300)) one("gen:" + nm, m); }); }); });
    mc::scenario("float", [&]{ disk::simplicial_mesh<float, 2> m; auto s = disk::make_simple_mesher(m); s.refine(); one("float:tri", m); disk::simplicial_mesh<float, 3> t; disk::make_simple_mesher(t); one("float:tet", t); disk::cartesian_mesh<float, 2> c; auto sc = disk::make_simple_mesher(c); sc.refine(); one("float:car", c); });
    mc::scenario("rational", [&]{ using Q = disk::rational<int>; disk::simplicial_mesh<Q, 2> m; auto s = disk::make_simple_mesher(m); one("rational:tri0", m); s.refine(); one("rational:tri1", m); });
    auto lat = lattice3(3, 2, 2); for (int part = 0; part < 4; part++) mc::scenario(mc::str("hulls:", part), [&]{ hulls(lat, 1024 * part, 1024 * (part + 1), [&](unsigned mask, const hull& h) { if (!th && mask % 3) return; std::vector<P3> p; for (auto& q : h.pts) p.push_back(P3(double(q[0]), double(q[1]), double(q[2]))); for (int rot = 0; rot < 3; rot++) for (int tn = 0; tn < 2; tn++) { auto fs = h.faces; std::vector<size_t> all; for (auto& x : fs) { all.push_back(all.size()); std::rotate(x.begin(), x.begin() + rot % x.size(), x.end()); if (tn) std::reverse(x.begin(), x.end()); } gen3 m; poly3(m, p, fs, {all}); sr::scratch dir; std::string w = mc::str("hull ", mask, " start ", rot, " turn ", tn); { disk::silo_database db; db.create(dir("h.silo")); mc::check(db.add_mesh(m, "mesh"), "add-mesh", w); } sr::file f(dir("h.silo")); if (mc::check(f.f, "readable", w)) check_mesh(w, m, f.ucd("mesh")); mc::state(w); mc::trace(); } }); });
    auto pool = [&](const std::string& nm, auto mesh, auto fill) { mc::scenario("pairs:" + nm, [&]{ std::vector<std::pair<std::string, decltype(mesh)>> v; fill([&](const std::string& n, auto& m) { if constexpr (std::is_same_v<std::decay_t<decltype(m)>, decltype(mesh)>) if (m.cells_size() <= 64 && v.size() < (th ? 40 : 12)) v.push_back({n, m}); }); pairs(nm, v); }); };
    auto c2 = [](auto f) { catalogue2(f, true); }; auto c3 = [](auto f) { catalogue3(f, true); };
    pool("triangles", tri2{}, c2); pool("quadrangles", car2{}, c2); pool("polygons", gen2{}, c2); pool("tetrahedra", tet3{}, c3); pool("hexahedra", car3{}, c3); pool("polyhedra", gen3{}, c3);
    // convex polyhedra with equal numbers of faces
    pool("equal faces", gen3{}, [&](auto f) { std::map<size_t, int> by; hulls(lat, 0, 4096, [&](unsigned mask, const hull& h) { if (by[h.faces.size()]++ >= 4) return; std::vector<P3> p; for (auto& q : h.pts) p.push_back(P3(double(q[0]), double(q[1]), double(q[2]))); std::vector<size_t> all; for (auto& x : h.faces) (void)x, all.push_back(all.size()); gen3 m; poly3(m, p, h.faces, {all}); f(mc::str("hull", mask), m); }); });
    mc::scenario("points", [&]{ for (size_t n = 1; n <= 5; n++) { sr::scratch dir; std::vector<P2> p; for (size_t i = 0; i < n; i++) p.push_back(P2(0.5 * i, 1.0 / (i + 1))); std::vector<std::vector<double>> v(2, std::vector<double>(n)); std::vector<double> s(n); for (size_t i = 0; i < n; i++) v[0][i] = i, v[1][i] = -2.5 * i, s[i] = 7 + i; { disk::silo_database db; db.create(dir("p.silo")); mc::check(db.add_mesh(p, "pts"), "add-points", ""); mc::check(db.add_variable("pts", "two", v), "add-point-fields", ""); mc::check(db.add_variable("pts", "one", s), "add-point-field", ""); }
        sr::file f(dir("p.silo")); if (!mc::check(f.f, "readable", "points")) continue; auto m = f.points("pts"); bool ok = m.ok && m.dim == 2 && m.x[0].size() == n; for (size_t i = 0; ok && i < n; i++) ok = m.x[0][i] == p[i].x() && m.x[1][i] == p[i].y(); mc::check(ok, "points", mc::str(n)); auto a = f.point("two"), b = f.point("one"); mc::check(a.ok && a.mesh == "pts" && a.v == v, "point-fields", mc::str(n)); mc::check(b.ok && b.mesh == "pts" && b.v.size() == 1 && b.v[0] == s, "point-field", mc::str(n)); mc::state(mc::str("points", n)); mc::trace(); } });
    return mc::finish();
}
