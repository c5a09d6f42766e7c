// First-order nodal elements on all lattice triangles and on small meshes: exact integrals from the vertex coordinates.
// MC: libs=jburkardt triangle
#include "meshes.hpp"
#include "lattice.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/cfem/cfem.hpp"
#include "diskpp/mesh/meshgen.hpp"
using namespace mm;
using V2 = Eigen::Vector2d; using M3 = Eigen::Matrix3d; using V3 = Eigen::Vector3d;
namespace fe = disk::cfem;
static void element(const std::string& w, const tri2& m, const tri2::cell& cl)
{
    auto pts = points(m, cl); V2 x[3]; for (int i = 0; i < 3; i++) x[i] = V2(pts[i].x(), pts[i].y()); auto cr = [](V2 a, V2 b) { return a.x() * b.y() - a.y() * b.x(); }; double J = cr(x[1] - x[0], x[2] - x[0]), A = std::abs(J) / 2, h = 0; V2 g[3]; for (int i = 0; i < 3; i++) { V2 e = x[(i + 2) % 3] - x[(i + 1) % 3]; g[i] = V2(-e.y(), e.x()) / J; h = std::max(h, e.norm()); }
    double gs = h / std::abs(J), cond = h * h / A; // measures of slender triangles lose digits with their aspect ratio
    for (int n : {1, 2, 3, 4, 5}) for (int a = 0; a <= n; a++) for (int b = 0; a + b <= n; b++) { double l[3] = {double(a) / n, double(b) / n, double(n - a - b) / n}; V2 p = l[0] * x[0] + l[1] * x[1] + l[2] * x[2]; V3 v = fe::eval_basis(m, cl, P2(p.x(), p.y())); for (int i = 0; i < 3; i++) mc::near(v(i), l[i], 1e-12, "value", w, 1 + x[0].norm() * gs); mc::near(v.sum(), 1, 1e-12, "partition-of-unity", w, 1 + x[0].norm() * gs); mc::trans(); }
    auto G = fe::eval_basis_grad(m, cl); for (int i = 0; i < 3; i++) for (int d = 0; d < 2; d++) mc::near(G(i, d), g[i](d), 1e-12, "gradient", w, gs);
    M3 Ma = fe::mass_matrix(m, cl); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mc::near(Ma(i, j), A / 12 * (i == j ? 2 : 1), 1e-12, "mass", w, A * cond);
    M3 S = fe::stiffness_matrix(m, cl); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mc::near(S(i, j), A * g[i].dot(g[j]), 1e-12, "stiffness", w, A * gs * gs * cond);
    // the tensor enters linearly: its four units, the identity and a full tensor
    for (int k = 0; k < 6; k++) { Eigen::Matrix2d K = Eigen::Matrix2d::Zero(); if (k < 4) K(k / 2, k % 2) = 1; else if (k == 4) K.setIdentity(); else K << 2, 0.5, -0.25, 3; M3 T = fe::stiffness_matrix(m, cl, K); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mc::near(T(i, j), A * g[i].dot(K * g[j]), 1e-12, "stiffness-tensor", w, 4 * A * gs * gs * cond); mc::trans(); }
    // loads: exact for constants, exact total for affine data
    for (double c : {1.0, -2.5}) { V3 r = fe::make_rhs(m, cl, [&](const P2&) { return c; }); for (int i = 0; i < 3; i++) mc::near(r(i), c * A / 3, 1e-12, "load-constant", w, A * std::abs(c) * cond); }
    for (int d = 0; d < 2; d++) { V3 r = fe::make_rhs(m, cl, [&](const P2& p) { return p[d]; }); double e = A * (x[0](d) + x[1](d) + x[2](d)) / 3; mc::near(r.sum(), e, 1e-12, "load-total", w, A * (8 + h) * cond); mc::trans(); }
    mc::state(mc::str(x[0].transpose(), ";", x[1].transpose(), ";", x[2].transpose())); mc::trace();
}
// assembled on a mesh: affine functions are discretely harmonic inside, the mass integrates products of affine functions, loads sum to the integral
static void global(const std::string& w, const tri2& m, double area)
{
    size_t n = m.points_size(); Eigen::MatrixXd K = Eigen::MatrixXd::Zero(n, n), Ms = K; Eigen::VectorXd F = Eigen::VectorXd::Zero(n); for (auto& cl : m) { auto id = cl.point_ids(); M3 k = fe::stiffness_matrix(m, cl), q = fe::mass_matrix(m, cl); V3 f = fe::make_rhs(m, cl, [](const P2&) { return 1.0; }); for (int i = 0; i < 3; i++) { F(id[i]) += f(i); for (int j = 0; j < 3; j++) K(id[i], id[j]) += k(i, j), Ms(id[i], id[j]) += q(i, j); } }
    std::vector<char> bd(n); for (auto it = m.faces_begin(); it != m.faces_end(); ++it) if (m.is_boundary(*it)) for (auto p : it->point_ids()) bd[size_t(p)] = 1; Eigen::MatrixXd U(n, 3); size_t i = 0; for (auto it = m.points_begin(); it != m.points_end(); ++it, ++i) U.row(i) << 1, it->x(), it->y();
    Eigen::MatrixXd R = K * U; double s = 1 + K.cwiseAbs().maxCoeff() * U.cwiseAbs().maxCoeff(); for (size_t i = 0; i < n; i++) for (int c = 0; c < 3; c++) if (c == 0 || !bd[i]) mc::check(std::abs(R(i, c)) <= 1e-11 * s, "harmonic", w);
    mc::near(Ms.sum(), area, 1e-11, "mass-total", w, area); mc::near(F.sum(), area, 1e-11, "load-area", w, area); Eigen::MatrixXd E = U.transpose() * K * U; mc::near(E(1, 1), area, 1e-11, "energy", w, s); mc::near(E(2, 2), area, 1e-11, "energy", w, s); mc::near(E(1, 2), 0, 1e-11, "energy", w, s); mc::trace(); mc::trans(n);
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); auto L = lattice(th ? 5 : 4, th ? 5 : 4); int N = L.size();
    for (int t = 0; t < 3; t++) for (int i = 0; i < N; i++) mc::scenario(mc::str("triangle:", t, ":", i), [&]{ double sx = t == 1 ? 0.01 : 0.5, sy = t == 2 ? 3 : 0.5, ox = t == 2 ? -7 : 0; auto at = [&](int q) { return P2(ox + L[q][0] * sx, L[q][1] * sy); }; for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { if (j == i || !icross(L[i], L[j], L[k])) continue; tri2 m; tris(m, {at(i), at(j), at(k)}, {{0, 1, 2}}); element(mc::str("triangle ", t, " ", i, " ", j, " ", k), m, *m.cells_begin()); } });
    for (int r = 0; r < (th ? 4 : 3); r++) for (int s = 0; s < 2; s++) mc::scenario(mc::str("mesh:", r, ":", s), [&]{ tri2 m; auto g = disk::make_simple_mesher(m); for (int i = 0; i < r; i++) g.refine(); if (s) m.transform([](const P2& p) { return P2(2 * p.x() + 0.5 * p.y(), 0.75 * p.y() - 1); }); for (auto& cl : m) element(mc::str("mesh ", r, " ", s), m, cl); global(mc::str("mesh ", r, " ", s), m, s ? 1.5 : 1); });
    // lattice polygons triangulated from a vertex in every order of their corners
    for (int k = 0; k < 24; k++) mc::scenario(mc::str("fan:", k), [&]{ std::vector<P2> p{{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.375, 0.25}}; std::vector<size_t> id{0, 1, 2, 3}; for (int q = 0; q < k; q++) std::next_permutation(id.begin(), id.end()); std::vector<P2> P(5); for (int q = 0; q < 4; q++) P[id[q]] = p[q]; P[4] = p[4]; tri2 m; tris(m, P, {{id[0], id[1], 4}, {id[1], id[2], 4}, {id[2], id[3], 4}, {id[3], id[0], 4}}); global(mc::str("fan ", k), m, 1); });
    return mc::finish();
}
