// Every generator history up to a bound: construction followed by a word over
// {R refine, S stretch, H shear/shift}. f(name, mesh, affine map, expected counts)
#pragma once
#include "meshes.hpp"
#include "diskpp/loaders/loader_uniform.hpp"
#include <map>
#include <fstream>
#include <unistd.h>
namespace mm {
// affine image of the reference domain: x -> A x + b
template<size_t D> struct aff {
    double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, b[3] = {0, 0, 0};
    double det() const { return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); }
    void then(const double B[3][3], const double c[3]) {
        double N[3][3], n[3];
        for (int i = 0; i < 3; i++) { n[i] = c[i]; for (int j = 0; j < 3; j++) { n[i] += B[i][j] * b[j]; N[i][j] = 0; for (int k = 0; k < 3; k++) N[i][j] += B[i][k] * A[k][j]; } }
        memcpy(A, N, sizeof N); memcpy(b, n, sizeof n);
    }
    // back to the unit domain
    template<typename P> P inv(const P& p) const {
        Eigen::Matrix3d M; Eigen::Vector3d v(0, 0, 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = A[i][j];
        for (size_t i = 0; i < D; i++) v(i) = p[i] - b[i];
        Eigen::Vector3d r = M.inverse() * v; P q; for (size_t i = 0; i < D; i++) q[i] = r(i); return q; }
};
struct counts { size_t c, f, e, v; size_t bf; }; // cells, faces, edges, vertices, boundary faces
template<size_t D> const double (*amat(char c))[3] {
    static const double S2[3][3] = {{2, 0, 0}, {0, 0.75, 0}, {0, 0, D == 3 ? 3. : 1.}}, H2[3][3] = {{1, 0.25, 0}, {0, 1, 0}, {D == 3 ? 0.5 : 0, 0, 1}}, I[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    return c == 'S' ? S2 : c == 'H' ? H2 : I; }
template<size_t D> const double* avec(char c) { static const double s[3] = {0, 0, 0}, h[3] = {0.5, -0.25, 0.125}; return c == 'S' ? s : h; }
template<typename M> void apply(M& m, char c, aff<M::dimension>& a)
{
    constexpr size_t D = M::dimension; auto B = amat<D>(c); auto v = avec<D>(c);
    m.transform([&](const typename M::point_type& p) { typename M::point_type q; for (size_t i = 0; i < D; i++) { q[i] = v[i]; for (size_t j = 0; j < D; j++) q[i] += B[i][j] * p[j]; } return q; });
    a.then(B, v);
}
inline counts refine_counts(counts n, int kind) // 0 triangles, 1 quads, 2 tets
{
    if (kind == 0) return {4 * n.c, 2 * n.f + 3 * n.c, 0, n.v + n.f, 2 * n.bf};
    if (kind == 1) return {4 * n.c, 2 * n.f + 4 * n.c, 0, n.v + n.f + n.c, 2 * n.bf};
    return {8 * n.c, 4 * n.f + 8 * n.c, 2 * n.e + 3 * n.f + n.c, n.v + n.e, 4 * n.bf};
}
// all words over R and the two maps ending in a state, with at most maxr refinements and depth at most d; f is called after every prefix
template<typename M, typename F> void words(const char* nm, counts n0, int kind, int maxr, int depth, const char* maps, F f)
{
    std::vector<std::string> ws{""};
    for (size_t i = 0; i < ws.size(); i++) {
        if ((int)ws[i].size() >= depth) continue;
        if (std::count(ws[i].begin(), ws[i].end(), 'R') < maxr) ws.push_back(ws[i] + "R");
        for (const char* c = maps; *c; c++) ws.push_back(ws[i] + *c);
    }
    for (auto& w : ws) f(std::string(nm) + ":" + w, [w, n0, kind](auto g) {
        M m; auto ms = disk::make_simple_mesher(m); aff<M::dimension> a; counts n = n0;
        for (char c : w) if (c == 'R') { ms.refine(); n = refine_counts(n, kind); } else apply(m, c, a);
        g(m, a, n); });
}
inline counts hexcounts(size_t l)
{
    size_t N = size_t(1) << l, c = 4 * N * N + 3 * N, sides = 6 * N * N + 4 * N + 6 * N * (N - 1) + 4 * N + 10 * N + 12 * N * (N - 1) + 6 * N, b = 8 * N;
    size_t e = (sides + b) / 2; return {c, e, 0, 1 + e - c, b};
}
inline counts unicounts(size_t n) { return {n, n + 1, 0, n + 1, 2}; }
template<typename F> void generated(F f)
{
    bool th = mc::thorough();
    words<tri2>("tri", {4, 8, 0, 5, 4}, 0, th ? 7 : 5, th ? 7 : 5, "SH", f);
    words<car2>("quad", {4, 12, 0, 9, 8}, 1, th ? 7 : 5, th ? 7 : 5, "S", f);
    words<tet3>("tet", {6, 18, 19, 8, 12}, 2, th ? 4 : 3, th ? 5 : 4, "SH", f);
    for (size_t l = 0; l < (th ? 7 : 5); l++) for (int k = 0; k < 2; k++) f(mc::str("hex:", l, k ? "S" : ""), [l, k](auto g) {
        gen2 m; auto h = disk::make_fvca5_hex_mesher(m); h.make_level(l); aff<2> a; if (k) apply(m, 'S', a); g(m, a, hexcounts(l)); });
    // the same mesher used again on the same mesh
    for (size_t l = 0; l < 3; l++) for (size_t k = 0; k < 3; k++) f(mc::str("hexagain:", l, ",", k), [l, k](auto g) {
        gen2 m; disk::fvca5_hex_mesher<gen2> h(m); h.make_level(l); h.make_level(k); g(m, aff<2>(), hexcounts(k)); });
    for (size_t n = 1; n < 9; n++) for (auto [x, y] : {std::pair(0.0, 1.0), std::pair(-1.0, 0.5), std::pair(2.0, 2.25)}) f(mc::str("uniform:", n, ":", x, ":", y), [n, x, y](auto g) {
        gen1 m; disk::uniform_mesh_loader<double, 1> L(x, y, n); mc::check(L.populate_mesh(m), "populate", ""); aff<1> a; a.A[0][0] = y - x; a.b[0] = x; g(m, a, unicounts(n)); });
    for (size_t n = 1; n < 4; n++) for (size_t k = 1; k < 4; k++) f(mc::str("uniformagain:", n, ",", k), [n, k](auto g) {
        gen1 m; disk::uniform_mesh_loader<double, 1> L(0, 1, n), L2(0, 1, k); L.populate_mesh(m); L2.populate_mesh(m); g(m, aff<1>(), unicounts(k)); });
}
} // namespace mm
