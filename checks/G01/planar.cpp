// Planar geometry on all simple lattice polygons, triangles and rectangles.
// MC: libs=jburkardt triangle
#include "meshes.hpp"
#include "complex.hpp"
#include "lattice.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace mm;
static Eigen::Vector2d v2(const P2& p) { return {p.x(), p.y()}; }
// everything that is asked of a planar cell, given its counter-clockwise outline
template<typename M> static void cell2(const std::string& w, const M& msh, const typename M::cell& cl, const std::vector<P2>& ccw)
{
    size_t n = ccw.size(); double A = 0, cx = 0, cy = 0, diam = 0, lx = 1e9, hx = -1e9, ly = 1e9, hy = -1e9;
    for (size_t i = 0; i < n; i++) {
        auto p = ccw[i], q = ccw[(i + 1) % n]; double d = p.x() * q.y() - q.x() * p.y(); A += d / 2; cx += (p.x() + q.x()) * d / 6; cy += (p.y() + q.y()) * d / 6;
        for (auto& r : ccw) diam = std::max(diam, std::hypot(p.x() - r.x(), p.y() - r.y()));
        lx = std::min(lx, p.x()); hx = std::max(hx, p.x()); ly = std::min(ly, p.y()); hy = std::max(hy, p.y());
    }
    cx /= A; cy /= A;
    mc::near(measure(msh, cl), A, 1e-12, "measure", w, diam * diam);
    auto b = barycenter(msh, cl); mc::near(b.x(), cx, 1e-12, "barycenter", w, diam); mc::near(b.y(), cy, 1e-12, "barycenter", w, diam);
    mc::near(diameter(msh, cl), diam, 1e-13, "diameter", w, diam);
    auto ds = disk::diameters(msh, cl); mc::near(ds(0), hx - lx, 1e-13, "diameters", w, diam); mc::near(ds(1), hy - ly, 1e-13, "diameters", w, diam);
    auto bb = bb_barycenter(msh, cl); mc::near(bb.x(), (lx + hx) / 2, 1e-13, "bb-barycenter", w, diam); mc::near(bb.y(), (ly + hy) / 2, 1e-13, "bb-barycenter", w, diam);
    auto db = disk::diameter_boundingbox(msh, cl); mc::near(db[0], hx - lx, 1e-13, "boundingbox", w, diam); mc::near(db[1], hy - ly, 1e-13, "boundingbox", w, diam);
    { disk::static_matrix<double, 2, 2> R; R << 0.6, -0.8, 0.8, 0.6; auto dr = disk::diameter_boundingbox(msh, cl, R); double l0 = 1e9, h0 = -1e9, l1 = 1e9, h1 = -1e9; for (auto& p : ccw) { double u = 0.6 * p.x() + 0.8 * p.y(), v = -0.8 * p.x() + 0.6 * p.y(); l0 = std::min(l0, u); h0 = std::max(h0, u); l1 = std::min(l1, v); h1 = std::max(h1, v); } mc::near(dr[0], h0 - l0, 1e-12, "boundingbox-rotated", w, diam); mc::near(dr[1], h1 - l1, 1e-12, "boundingbox-rotated", w, diam); }
    auto fcs = faces(msh, cl); mc::check(fcs.size() == n, "faces", w); Eigen::Vector2d sum(0, 0); double div = 0;
    for (auto& fc : fcs) {
        auto pts = points(msh, fc); Eigen::Vector2d a = v2(pts[0]), c = v2(pts[1]), m = (a + c) / 2; double len = (c - a).norm();
        mc::near(measure(msh, fc), len, 1e-14, "face-measure", w, diam); mc::near(diameter(msh, fc), len, 1e-14, "face-diameter", w, diam);
        auto fb = barycenter(msh, fc); mc::check((v2(fb) - m).norm() <= 1e-14 * (1 + m.norm()), "face-barycenter", w);
        Eigen::Vector2d nn = normal(msh, cl, fc); sum += len * nn; div += len * nn.dot(m); mc::near(nn.norm(), 1, 1e-14, "normal-unit", w);
        // which edge of the outline is it, and which way does it run
        int dir = 0; for (size_t i = 0; i < n; i++) { auto p = v2(ccw[i]), q = v2(ccw[(i + 1) % n]); if ((p - a).norm() == 0 && (q - c).norm() == 0) dir = 1; if ((p - c).norm() == 0 && (q - a).norm() == 0) dir = -1; }
        mc::check(dir != 0, "face-of-outline", w); Eigen::Vector2d t = (c - a) / len * dir, out(t.y(), -t.x());
        mc::check((nn - out).norm() <= 1e-13, "normal-outward", mc::str(w, " face (", a.x(), ",", a.y(), ")-(", c.x(), ",", c.y(), ") normal ", nn.x(), ",", nn.y()));
        Eigen::Vector2d nf = normal(msh, fc); mc::check(std::min((nf - out).norm(), (nf + out).norm()) <= 1e-13, "face-normal", w);
    }
    mc::check(sum.norm() <= 1e-13 * diam * n, "normals-close", mc::str(w, " sum ", sum.norm())); mc::near(div, 2 * A, 1e-12, "divergence-theorem", w, diam * diam);
    auto ax = disk::inertia_axes(msh, cl); mc::check((ax.transpose() * ax - Eigen::Matrix2d::Identity()).norm() < 1e-12, "inertia-axes-orthonormal", w);
    mc::trace();
}
static std::string show(const std::vector<IP>& p) { std::string s; for (auto& q : p) s += mc::str("(", q[0], ",", q[1], ")"); return s; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    struct G { int nx, ny; size_t lo, hi; }; std::vector<G> gs = th ? std::vector<G>{{3, 3, 3, 9}, {4, 3, 3, 7}, {4, 4, 3, 6}} : std::vector<G>{{3, 3, 3, 8}, {4, 3, 3, 5}, {4, 4, 3, 4}};
    // scale and shift of the lattice: exact and inexact coordinates, far from the origin
    struct S { double s, tx, ty; }; std::vector<S> ss{{1, 0, 0}, {0.1, 3.3, -2.7}};
    for (auto& g : gs) for (size_t n = g.lo; n <= g.hi; n++) for (size_t first = 0; first < size_t(g.nx * g.ny); first++)
        mc::scenario(mc::str("poly:", g.nx, "x", g.ny, ":", n, ":", first), [&]{
            auto L = lattice(g.nx, g.ny);
            polygons(L, n, [&](const std::vector<IP>& p) {
                if (p[0] != L[first]) return;
                mc::state(show(p)); bool cv = convex(p);
                for (size_t r = 0; r < n; r++) for (auto& s : ss) for (int cw = 0; cw < 2; cw++) {
                    if (cw && (&s != &ss[0])) continue;
                    std::vector<P2> pts, ccw; std::vector<size_t> idx;
                    for (size_t i = 0; i < n; i++) { auto& q = p[(i + r) % n]; ccw.push_back(P2(s.s * q[0] + s.tx, s.s * q[1] + s.ty)); idx.push_back(i); }
                    if (cw) std::reverse(idx.begin(), idx.end());
                    gen2 m; poly2(m, ccw, {idx}); auto cl = *m.cells_begin(); std::string w = mc::str(show(p), " start ", r, cw ? " cw" : "", " scale ", s.s);
                    cell2(w, m, cl, ccw); // with inexact coordinates, vertices that are aligned on the lattice may turn either way
                    bool al = false; for (size_t i = 0; i < n; i++) al |= icross(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0;
                    if (!cw && (s.s == 1 || !al)) mc::check(is_convex(m, cl) == cv, "is-convex", w);
                    if (cv && s.s == 1) for (int i = -1; i <= 4 * (g.nx - 1) + 1; i++) for (int j = -1; j <= 4 * (g.ny - 1) + 1; j++) mc::check(is_inside(m, cl, P2(i / 4.0, j / 4.0)) == (side2(p, i / 4.0, j / 4.0) >= 0), "is-inside", mc::str(w, " point ", i / 4.0, ",", j / 4.0));
                }
                if (n == 3) { // as triangles, in all vertex orders
                    std::array<size_t, 3> o{0, 1, 2}; do {
                        std::vector<P2> q; for (auto k : o) q.push_back(P2(p[k][0], p[k][1])); tri2 m; tris(m, q, {{0, 1, 2}}); auto cl = *m.cells_begin();
                        std::vector<P2> ccw; for (auto& k : p) ccw.push_back(P2(k[0], k[1])); std::string w = mc::str("triangle ", show(p), " order ", o[0], o[1], o[2]); cell2(w, m, cl, ccw);
                        double A = area2(p) / 2.0; bool even = (o[0] == 0 && o[1] == 1) || (o[0] == 1 && o[1] == 2) || (o[0] == 2 && o[1] == 0);
                        mc::near(measure(m, cl, true), even ? A : -A, 1e-13, "signed-measure", w, A);
                        for (int i = -1; i <= 4 * (g.nx - 1) + 1; i++) for (int j = -1; j <= 4 * (g.ny - 1) + 1; j++) mc::check(is_inside(m, cl, P2(i / 4.0, j / 4.0)) == (side2(p, i / 4.0, j / 4.0) >= 0), "is-inside", mc::str(w, " point ", i / 4.0, ",", j / 4.0));
                        using R = disk::rational<int>; disk::simplicial_mesh<R, 2> rm; disk::make_single_element_mesh(rm, disk::point<R, 2>(R(p[o[0]][0]), R(p[o[0]][1])), disk::point<R, 2>(R(p[o[1]][0]), R(p[o[1]][1])), disk::point<R, 2>(R(p[o[2]][0]), R(p[o[2]][1])));
                        auto eq = [](R a, R b) { return a <= b && b <= a; }; mc::check(eq(measure(rm, *rm.cells_begin()), R(area2(p), 2)) && eq(measure(rm, *rm.cells_begin(), true), R(even ? area2(p) : -area2(p), 2)), "rational-measure", w);
                    } while (std::next_permutation(o.begin(), o.end()));
                }
            });
        });
    // rectangles: all lattice boxes, in the eight vertex layouts refinement can produce
    for (int hx = 1; hx <= 4; hx++) for (int hy = 1; hy <= 4; hy++) mc::scenario(mc::str("rect:", hx, ":", hy), [&]{
        for (double x0 : {-2.0, 0.0, 0.3}) for (double y0 : {-2.0, 0.0, 0.3}) for (int lay = 0; lay < 8; lay++) {
            double X[4] = {x0, x0 + hx * 0.25, x0, x0 + hx * 0.25}, Y[4] = {y0, y0, y0 + hy * 0.25, y0 + hy * 0.25}; std::vector<P2> q(4);
            for (int i = 0; i < 4; i++) { int b0 = i & 1, b1 = i >> 1; if (lay & 1) b0 ^= 1; if (lay & 2) b1 ^= 1; if (lay & 4) std::swap(b0, b1); q[i] = P2(X[b0 + 2 * b1], Y[b0 + 2 * b1]); }
            car2 m; using pid = disk::point_identifier<2>; auto st = m.backend_storage(); st->points = q; for (size_t i = 0; i < 4; i++) st->nodes.push_back({pid(i)});
            for (auto [a, b] : {std::pair(0, 1), std::pair(0, 2), std::pair(1, 3), std::pair(2, 3)}) st->edges.push_back({pid(a), pid(b)});
            st->surfaces.push_back({pid(0), pid(1), pid(2), pid(3)}); mark_boundary(m); auto cl = *m.cells_begin(); std::string w = mc::str("rectangle ", hx, "x", hy, " at ", x0, ",", y0, " layout ", lay); mc::state(w);
            cell2(w, m, cl, {P2(X[0], Y[0]), P2(X[1], Y[1]), P2(X[3], Y[3]), P2(X[2], Y[2])});
            if (x0 != 0.3 && y0 != 0.3) for (int i = -2; i <= hx * 2 + 2; i++) for (int j = -2; j <= hy * 2 + 2; j++) { double px = x0 + i * 0.125, py = y0 + j * 0.125; mc::check(is_inside(m, cl, P2(px, py)) == (i >= 0 && i <= 2 * hx && j >= 0 && j <= 2 * hy), "is-inside", mc::str(w, " point ", px, ",", py)); }
        } });
    // one dimension
    for (size_t n = 1; n < 6; n++) mc::scenario(mc::str("line:", n), [&]{
        gen1 m; std::vector<double> x; double v = -1.25; for (size_t i = 0; i <= n; i++) { x.push_back(v); v += 0.25 * (i + 1); } segs(m, x); size_t k = 0; double h = 0;
        for (auto& cl : m) {
            mc::near(measure(m, cl), x[k + 1] - x[k], 1e-14, "measure", "line"); mc::near(barycenter(m, cl).x(), (x[k + 1] + x[k]) / 2, 1e-14, "barycenter", "line"); mc::near(diameter(m, cl), x[k + 1] - x[k], 1e-14, "diameter", "line"); h += x[k + 1] - x[k];
            auto f = faces(m, cl); mc::check(f.size() == 2 && normal(m, cl, f[0]) == -1 && normal(m, cl, f[1]) == 1, "normal", "line");
            for (int i = 0; i < 2; i++) { mc::check(measure(m, f[i]) == 1 && diameter(m, f[i]) == 1, "face-measure", "line"); mc::near(barycenter(m, f[i]).x(), x[k + i], 1e-14, "face-barycenter", "line"); } k++; mc::trace(); }
        mc::near(disk::average_diameter(m), h / n, 1e-13, "average-diameter", "line"); mc::state(mc::str("line", n)); });
    // average diameter and bounding box of whole meshes
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario("mesh:" + nm, [&]{
        double h = 0, lx = 1e9, hx = -1e9, ly = 1e9, hy = -1e9; size_t n = 0; for (auto& cl : m) { double d = 0; auto v = ids(cl); auto x = coords(m); for (auto a : v) for (auto b : v) d = std::max(d, (x[a] - x[b]).norm()); h += d; n++; }
        mc::near(disk::average_diameter(m), h / n, 1e-13, "average-diameter", nm);
        m.transform([](const P2& p) { return P2(p.x() * 0.6 - p.y() * 0.8 + 1, p.x() * 0.8 + p.y() * 0.6 - 2); });
        for (auto& p : coords(m)) { lx = std::min(lx, p(0)); hx = std::max(hx, p(0)); ly = std::min(ly, p(1)); hy = std::max(hy, p(1)); }
        disk::bounding_box<std::decay_t<decltype(m)>> bb(m); mc::check(bb.min().x() == lx && bb.min().y() == ly && bb.max().x() == hx && bb.max().y() == hy, "mesh-bounding-box", nm); mc::state(nm); mc::trace(); }); }, true);
    return mc::finish();
}
