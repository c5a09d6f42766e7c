// Discrete geometric operators on lattice tetrahedra in every vertex order and on all generated tetrahedral meshes.
#include "gens.hpp"
#include "hull3.hpp"
#include "diskpp/methods/dga"
#include <Eigen/Sparse>
using namespace mm; using V = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using M = tet3;
static const V E3[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
static const std::vector<M3>& sym() { static std::vector<M3> s; if (s.empty()) for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { M3 k = M3::Zero(); k(i, j) = k(j, i) = 1; s.push_back(k); } return s; }
static const std::vector<M3>& spd() { static std::vector<M3> s; if (s.empty()) { M3 a, b, c; a << 1, 0, 0, 0, 1, 0, 0, 0, 1; b << 4, 1, .5, 1, 2, -.75, .5, -.75, 1; c << 1, 0, 0, 0, 1e-2, 0, 0, 0, 10; s = {a, b, c}; } return s; }
static void cell(const M& m, const M::cell& cl, const std::string& w)
{

    auto ids = cl.point_ids(); V p[4]; for (int i = 0; i < 4; i++) p[i] = m.backend_storage()->points[size_t(ids[i])].to_vector();
    double v6 = (p[1] - p[0]).dot((p[2] - p[0]).cross(p[3] - p[0])), vol = std::abs(v6) / 6, h = 0; for (auto& a : p) for (auto& b : p) h = std::max(h, (a - b).norm()); double s = v6 > 0 ? 1 : -1;
    auto near = [&](double a, double b, const char* k, double sc) { if (!(std::abs(a - b) <= 1e-11 * sc)) mc::fail(k, mc::str(w, " got ", a, " expected ", b)); };
    auto vnear = [&](const V& a, const V& b, const char* k, double sc) { if (!((a - b).norm() <= 1e-11 * sc)) mc::fail(k, mc::str(w, " got ", a.transpose(), " expected ", b.transpose())); };
    near(disk::priv::volume_signed(m, cl), v6 / 6, "signed-volume", h * h * h); near(disk::priv::volume_unsigned(m, cl), vol, "unsigned-volume", h * h * h);
    // incidence: edges run from the lower to the higher vertex, face i is the face opposite to vertex i
    static const int ev[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; static const int fv[4][3] = {{1, 2, 3}, {0, 2, 3}, {0, 1, 3}, {0, 1, 2}};
    auto es = edges(m, cl); auto eid = edge_ids(m, cl); auto pev = primal_edge_vectors(m, cl); auto fcs = faces(m, cl); auto pav = primal_area_vectors(m, cl); auto dev = dual_edge_vectors(m, cl); auto dav = dual_area_vectors(m, cl);
    V bc = (p[0] + p[1] + p[2] + p[3]) / 4, fb[4], eb[6], A[4], L[6]; M3 I1 = M3::Zero(), I2 = I1; V cl0 = V::Zero();
    for (int i = 0; i < 6; i++) { auto q = es[i].point_ids(); mc::check(size_t(q[0]) == size_t(ids[ev[i][0]]) && size_t(q[1]) == size_t(ids[ev[i][1]]), "edges", w); L[i] = p[ev[i][1]] - p[ev[i][0]]; eb[i] = (p[ev[i][1]] + p[ev[i][0]]) / 2; vnear(pev[i], L[i], "primal-edge", h); vnear(primal_edge_vectors(m, es[i]), L[i], "primal-edge", h); mc::check(size_t(eid[i]) < m.backend_storage()->edges.size() && m.backend_storage()->edges[eid[i]] == es[i] && size_t(offset(m, es[i])) == eid[i], "edge-ids", w); I1 += pev[i] * dav[i].transpose(); }
    V nsum = V::Zero(); auto ns = disk::priv::normals(m, cl);
    for (int i = 0; i < 4; i++) { auto q = fcs[i].point_ids(); for (int k = 0; k < 3; k++) mc::check(size_t(q[k]) == size_t(ids[fv[i][k]]), "faces", w); const V &a = p[fv[i][0]], &b = p[fv[i][1]], &c = p[fv[i][2]]; fb[i] = (a + b + c) / 3; A[i] = (b - a).cross(c - a) / 2; vnear(pav[i], A[i], "primal-area", h * h); double o = (a - bc).dot(A[i]) > 0 ? 1 : -1; vnear(dev[i], (fb[i] - bc) * o, "dual-edge", h); vnear(ns[i], o * A[i].normalized(), "normals", 1); I2 += pav[i] * dev[i].transpose();
        // the triangle as an element of its own, and its part of the dual complex
        auto te = edges(m, fcs[i]); auto ti = edge_ids(m, fcs[i]); auto tv = primal_edge_vectors(m, fcs[i]); auto td = dual_edge_vectors(m, fcs[i], cl); auto tn = disk::priv::normals(m, fcs[i]); const V* t[3] = {&a, &b, &c}; static const int tl[3][2] = {{0, 1}, {0, 2}, {1, 2}};
        for (int k = 0; k < 3; k++) { auto r = te[k].point_ids(); mc::check(size_t(r[0]) == size_t(q[tl[k][0]]) && size_t(r[1]) == size_t(q[tl[k][1]]), "face-edges", w); mc::check(m.backend_storage()->edges[ti[k]] == te[k], "face-edge-ids", w); V l = *t[tl[k][1]] - *t[tl[k][0]], in = fb[i] - (*t[tl[k][1]] + *t[tl[k][0]]) / 2; vnear(tv[k], l, "face-primal-edge", h); V no = o * A[i].normalized(); double sg = l.cross(in).dot(no) > 0 ? 1 : -1; vnear(td[k], in * sg, "face-dual-edge", h); V out = l.cross(no); if (out.dot(in) > 0) out = -out; vnear(tn[k], out.normalized(), "face-normals", 1); }
        auto ti3 = integrate_on_primal_edges(m, fcs[i], V(2, -3, 5)); for (int k = 0; k < 3; k++) near(ti3(k), tv[k].dot(V(2, -3, 5)), "integrate-face-edges", 10 * h); }
    for (int i = 0; i < 6; i++) { // dual face of edge i: two triangles joining the edge midpoint, the two face centres and the cell centre
        int f[2], k = 0; for (int j = 0; j < 4; j++) if (j != ev[i][0] && j != ev[i][1]) f[k++] = j; V d = ((fb[f[0]] - eb[i]).cross(bc - eb[i]) + (bc - eb[i]).cross(fb[f[1]] - eb[i])) / 2; if (d.dot(L[i]) < 0) d = -d; vnear(dav[i], d, "dual-area", h * h); mc::check(pev[i].dot(dav[i]) >= -1e-14 * h * h * h, "orientation", w); }
    vnear(I1 * V(1, 2, 3), vol * V(1, 2, 3), "edge-duality", h * h * h * 4); mc::check((I1 - vol * M3::Identity()).norm() <= 1e-11 * h * h * h && (I2 - vol * M3::Identity()).norm() <= 1e-11 * h * h * h, "duality", w);
    auto G = disk::grad_matrix(m, cl); auto C = disk::curl_matrix(m, cl); mc::check((C * G).cwiseAbs().maxCoeff() == 0, "curl-grad", w); Eigen::Matrix<double, 1, 4> D; for (int i = 0; i < 4; i++) D(i) = (fb[i] - bc).dot(A[i]) > 0 ? 1 : -1; mc::check((D * C).cwiseAbs().maxCoeff() == 0, "div-curl", w);
    // gradient and curl of affine functions
    for (auto& g : E3) { Eigen::Vector4d u; for (int i = 0; i < 4; i++) u(i) = 7 + g.dot(p[i]); auto ge = (G * u).eval(); for (int i = 0; i < 6; i++) near(ge(i), g.dot(L[i]), "gradient", 10 + h); Eigen::Matrix<double, 6, 1> a; for (int i = 0; i < 6; i++) a(i) = (g.cross(eb[i]) / 2).dot(L[i]); auto ca = (C * a).eval(); for (int i = 0; i < 4; i++) near(ca(i), g.dot(A[i]), "curl", 10 * h * h);
        auto pe = integrate_on_primal_edges(m, cl, g); auto pf = integrate_on_primal_faces(m, cl, g); auto de = integrate_on_dual_edges(m, cl, g); auto df = integrate_on_dual_faces(m, cl, g); for (int i = 0; i < 6; i++) { near(pe(i), g.dot(L[i]), "integrate-edges", h); near(df(i), g.dot(dav[i]), "integrate-dual-faces", h * h); } for (int i = 0; i < 4; i++) { near(pf(i), g.dot(A[i]), "integrate-faces", h * h); near(de(i), g.dot(dev[i]), "integrate-dual-edges", h); } }
    auto mats = [&](const auto& k, const M3& K, bool pd) {
        auto Me = disk::edge_matrix(m, cl, k); auto Mf = disk::face_matrix(m, cl, k); double q = std::pow(h, 4) / vol * K.norm(), qf = h * h / vol * K.norm();
        mc::check((Me - Me.transpose()).norm() <= 1e-12 * q && (Mf - Mf.transpose()).norm() <= 1e-12 * qf, "symmetric", w);
        for (auto& g : E3) { Eigen::Matrix<double, 6, 1> u; for (int i = 0; i < 6; i++) u(i) = g.dot(L[i]); auto r = (Me * u).eval(); for (int i = 0; i < 6; i++) near(r(i), (K * g).dot(dav[i]), "edge-matrix-exact", q * h); Eigen::Vector4d b; for (int i = 0; i < 4; i++) b(i) = g.dot(A[i]); auto rf = (Mf * b).eval(); for (int i = 0; i < 4; i++) near(rf(i), (K * g).dot(dev[i]), "face-matrix-exact", qf * h * h);
            for (auto& g2 : E3) { Eigen::Matrix<double, 6, 1> u2; for (int i = 0; i < 6; i++) u2(i) = g2.dot(L[i]); near(u2.dot(r), vol * g2.dot(K * g), "electric-energy", q * h * h); Eigen::Vector4d b2; for (int i = 0; i < 4; i++) b2(i) = g2.dot(A[i]); near(b2.dot(rf), vol * g2.dot(K * g), "magnetic-energy", qf * h * h * h * h); } }
        if (pd) { double a = Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>>(Me).eigenvalues().minCoeff(), b = Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(Mf).eigenvalues().minCoeff(); if (!(a > 0)) mc::fail("edge-matrix-positive", mc::str(w, " ", a)); if (!(b > 0)) mc::fail("face-matrix-positive", mc::str(w, " ", b)); }
    };
    for (auto& K : sym()) mats(disk::static_matrix<double, 3, 3>(K), K, false); for (auto& K : spd()) mats(disk::static_matrix<double, 3, 3>(K), K, true); mats(1.0, M3::Identity(), true); mats(0.125, .125 * M3::Identity(), true);
    mc::trans(300); mc::trace();
}
// patch tests with the assembled operators: constant fields satisfy the discrete balance laws inside the domain
static void global(const M& m, const std::string& w)
{
    size_t N = m.points_size(), E = edges(m).size(), F = m.faces_size(); auto st = m.backend_storage(); mc::check(E == st->edges.size(), "edge-count", w); size_t k = 0; for (auto& e : edges(m)) { mc::check(e == st->edges[k] && size_t(offset(m, e)) == k, "edge-iteration", w); k++; } mc::check(k == E, "edge-count", w);
    bool thrown = false; if (N > 2) { std::set<std::pair<size_t, size_t>> have; for (auto& e : edges(m)) { auto q = e.point_ids(); have.insert({size_t(q[0]), size_t(q[1])}); } size_t bad = 0; for (size_t a = 0; a < N && bad < 40; a++) for (size_t b = a + 1; b < N && bad < 40; b++) if (!have.count({a, b})) { bad++; thrown = false; try { offset(m, M::edge_type({disk::point_identifier<3>(a), disk::point_identifier<3>(b)})); } catch (std::invalid_argument&) { thrown = true; } mc::check(thrown, "missing-edge", w); } }
    std::vector<char> bn(N, 0), be(E, 0); for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); it++) { for (auto q : (*it).point_ids()) bn[size_t(q)] = 1; for (auto e : edge_ids(m, *it)) be[e] = 1; }
    M3 K = spd()[1]; disk::static_matrix<double, 3, 3> KK = K; double tot = 0;
    for (auto& g : E3) { Eigen::VectorXd rn = Eigen::VectorXd::Zero(N), re = Eigen::VectorXd::Zero(E); double we = 0, wm = 0;
        for (auto& cl : m) { auto G = disk::grad_matrix(m, cl); auto C = disk::curl_matrix(m, cl); auto ids = cl.point_ids(); auto ei = edge_ids(m, cl); auto pev = primal_edge_vectors(m, cl); auto pav = primal_area_vectors(m, cl); Eigen::Vector4d u, b; for (int i = 0; i < 4; i++) { u(i) = 3 + g.dot(st->points[size_t(ids[i])].to_vector()); b(i) = g.dot(pav[i]); } auto Gu = (G * u).eval(); auto r = (G.transpose() * disk::edge_matrix(m, cl, KK) * Gu).eval(); auto s = (C.transpose() * disk::face_matrix(m, cl, KK) * b).eval(); for (int i = 0; i < 4; i++) rn(size_t(ids[i])) += r(i); for (int i = 0; i < 6; i++) re(ei[i]) += s(i); we += Gu.dot(disk::edge_matrix(m, cl, KK) * Gu); wm += b.dot(disk::face_matrix(m, cl, KK) * b); if (&g == E3) tot += measure(m, cl); }
        double sc = we + 1; for (size_t i = 0; i < N; i++) if (!bn[i] && !(std::abs(rn(i)) <= 1e-10 * sc)) mc::fail("node-balance", mc::str(w, " ", rn(i))); for (size_t i = 0; i < E; i++) if (!be[i] && !(std::abs(re(i)) <= 1e-10 * sc)) mc::fail("edge-balance", mc::str(w, " ", re(i))); mc::near(we, tot * g.dot(K * g), 1e-9, "energy", w, tot); mc::near(wm, tot * g.dot(K * g), 1e-9, "energy-magnetic", w, tot); mc::trans(N + E); }
}
template<typename X> void whole(const std::string& nm, const X& m) { if constexpr (std::is_same_v<X, M>) { mc::state(nm); size_t i = 0; for (auto& cl : m) { mc::count("cells"); cell(m, cl, nm + mc::str(" cell ", i)); if (++i >= (mc::thorough() ? 100000u : 1200u)) break; } global(m, nm); } }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto L = lattice3(3, th ? 3 : 2, th ? 3 : 2); int n = L.size();
    for (int s = 0; s < 3; s++) for (int a = 0; a < n; a++) mc::scenario(mc::str("tetrahedra scale ", s, " first ", L[a][0], L[a][1], L[a][2]), [&] {
        double sc[3] = {1, 1, 1}; if (s == 1) sc[0] = 1e-3, sc[1] = 1e-3, sc[2] = 1e-3; if (s == 2) sc[0] = 1, sc[1] = 3, sc[2] = .5;
        for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) for (int d = 0; d < n; d++) { if (det3(sub3(L[b], L[a]), sub3(L[c], L[a]), sub3(L[d], L[a])) == 0) continue; if (th && s && (b > c || c > d)) continue;
            M m; std::vector<P3> ps; for (int k : {a, b, c, d}) ps.push_back(P3(L[k][0] * sc[0] + (s == 2 ? L[k][1] * .25 : 0.), L[k][1] * sc[1], L[k][2] * sc[2])); tets(m, ps, {{0, 1, 2, 3}}); auto w = mc::str("vertices ", a, " ", b, " ", c, " ", d); mc::state(w + mc::str(s)); cell(m, *m.cells_begin(), w); } });
    // two tetrahedra sharing a face, all numberings of the five vertices; meshes of the cube in numberings of their vertices
    mc::scenario("pair numberings", [&] { std::vector<size_t> p = {0, 1, 2, 3, 4}; do { M m; std::vector<P3> ps(5); P3 q[5] = {P3(0., 0., 0.), P3(1., 0., 0.), P3(.25, 1., 0.), P3(.25, .25, 1.), P3(.5, .5, -.75)}; for (int i = 0; i < 5; i++) ps[p[i]] = q[i]; tets(m, ps, {{p[0], p[1], p[2], p[3]}, {p[0], p[1], p[2], p[4]}}); whole(mc::str("pair ", p[0], p[1], p[2], p[3], p[4]), m); } while (std::next_permutation(p.begin(), p.end())); });
    mc::scenario("star numberings", [&] { std::vector<size_t> p = {0, 1, 2, 3, 4, 5, 6}; size_t k = 0; do { if (!th && k++ % 7) continue; M m; std::vector<P3> ps(7); P3 q[7] = {P3(.125, .0625, .1875), P3(1., 0., 0.), P3(-1., 0., 0.), P3(0., 1., 0.), P3(0., -1., 0.), P3(0., 0., 1.), P3(0., 0., -1.)}; for (int i = 0; i < 7; i++) ps[p[i]] = q[i]; std::vector<std::array<size_t, 4>> cs; for (int x = 1; x <= 2; x++) for (int y = 3; y <= 4; y++) for (int z = 5; z <= 6; z++) cs.push_back({p[0], p[x], p[y], p[z]}); tets(m, ps, cs); whole("star " + mc::str(p[0], p[1], p[2], p[3], p[4], p[5], p[6]), m); } while (std::next_permutation(p.begin(), p.end())); });
    generated([&](const std::string& nm, auto mk) { mc::scenario(nm, [&] { mk([&](auto& m, const auto&, auto...) { whole(nm, m); }); }); });
    return mc::finish();
}
