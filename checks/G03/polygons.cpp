// Triangulations of, and integration over, all simple lattice polygons.
// MC: libs=jburkardt triangle
#include "meshes.hpp"
#include "lattice.hpp"
#include "moments.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace mm;
using Tri = std::array<P2, 3>;
static double cr(P2 a, P2 b, P2 c) { return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()); }
static bool same(P2 a, P2 b) { return a.x() == b.x() && a.y() == b.y(); }
// are the interiors of two triangles (counter-clockwise) disjoint
static bool apart(const Tri& a, const Tri& b, double eps)
{
    for (int s = 0; s < 2; s++) { auto& x = s ? b : a; auto& y = s ? a : b; for (int i = 0; i < 3; i++) { bool sep = true; for (auto& q : y) sep = sep && cr(x[i], x[(i + 1) % 3], q) <= eps; if (sep) return true; } }
    return false;
}
// the triangles cover the polygon exactly: corners, orientation-free positive areas, disjoint interiors, inside, and all moments up to degree 4
static void covers(const char* key, const std::string& w, std::vector<Tri> ts, const std::vector<P2>& ccw, bool exact, bool centre, const moments<2>& want)
{
    P2 avg(0.0, 0.0); for (auto& p : ccw) avg = avg + p; avg = avg / double(ccw.size());
    double eps = exact ? 1e-12 : 1e-11; bool corners = true, area = true, disjoint = true, inside = true;
    moments<2> mo(4);
    for (auto& t : ts) {
        for (auto& q : t) { bool f = centre && (q - avg).to_vector().norm() < 1e-12; for (auto& p : ccw) f = f || same(p, q); corners = corners && f; }
        double a = cr(t[0], t[1], t[2]); if (a < 0) std::swap(t[1], t[2]), a = -a; if (exact) area = area && a > eps;
        mo.simplex<P2>({t[0], t[1], t[2]}, a / 2);
        if (a > eps) { P2 c = (t[0] + t[1] + t[2]) / 3.0; int wn = 0; bool in = false; for (size_t i = 0; i < ccw.size(); i++) { auto &p = ccw[i], &q = ccw[(i + 1) % ccw.size()]; if ((p.y() > c.y()) != (q.y() > c.y()) && c.x() < (q.x() - p.x()) * (c.y() - p.y()) / (q.y() - p.y()) + p.x()) in = !in; } (void)wn; inside = inside && in; }
    }
    for (size_t i = 0; i < ts.size(); i++) for (size_t j = 0; j < i; j++) if (std::abs(cr(ts[i][0], ts[i][1], ts[i][2])) > eps && std::abs(cr(ts[j][0], ts[j][1], ts[j][2])) > eps) disjoint = disjoint && apart(ts[i], ts[j], eps);
    mc::check(corners, mc::str(key, "-corners"), w); mc::check(area, mc::str(key, "-positive"), w); mc::check(disjoint, mc::str(key, "-disjoint"), w); mc::check(inside, mc::str(key, "-inside"), w);
    for (size_t i = 0; i < mo.al.size(); i++) if (!(std::abs(mo.m[i] - want.m[i]) <= 1e-11 * std::max((long double)1, std::abs(want.m[i])))) { mc::check(false, mc::str(key, "-moments"), mc::str(w, " ", mo.name(i), " triangles ", double(mo.m[i]), " polygon ", double(want.m[i]), ", ", ts.size(), " triangles")); break; }
    mc::check(ts.size() + 2 <= ccw.size() + (centre ? 2 : 0), mc::str(key, "-count"), w); mc::trace();
}
template<typename Q> static void integrates(const std::string& w, const Q& qps, int d, const moments<2>& want, const std::vector<P2>& ccw, double scale)
{
    std::string bad; bool ok = exact_rule(want, qps, d, 2e-12, scale, bad); mc::check(ok, "integral", mc::str(w, " degree ", d, " ", bad));
    bool pos = true, in = true; for (auto& q : qps) { pos = pos && q.weight() > -1e-14; auto c = q.point(); bool i2 = false; double dist = 1e9; for (size_t i = 0; i < ccw.size(); i++) { auto &p = ccw[i], &r = ccw[(i + 1) % ccw.size()]; if ((p.y() > c.y()) != (r.y() > c.y()) && c.x() < (r.x() - p.x()) * (c.y() - p.y()) / (r.y() - p.y()) + p.x()) i2 = !i2; auto e = (r - p).to_vector(); double t = std::clamp((c - p).to_vector().dot(e) / e.squaredNorm(), 0.0, 1.0); dist = std::min(dist, (c - p - (r - p) * t).to_vector().norm()); } in = in && (i2 || dist < 1e-9 * scale); }
    mc::check(pos, "integral-weights", w); mc::check(in, "integral-points", mc::str(w, " degree ", d)); mc::trans(qps.size() * want.al.size());
}
template<typename V> static std::vector<Tri> conv(const V& v) { std::vector<Tri> r; for (auto& t : v) { auto p = t.points(); r.push_back({p[0], p[1], p[2]}); } return r; }
static std::vector<Tri> convt(const std::vector<disk::triangle<double, 2>>& v, const std::string& w) { std::vector<Tri> r; for (auto& t : v) { r.push_back({t.p0, t.p1, t.p2}); mc::near(disk::measure(t), std::abs(cr(t.p0, t.p1, t.p2)) / 2, 1e-12, "triangle-measure", w); auto b = disk::barycenter(t); mc::check((b - (t.p0 + t.p1 + t.p2) / 3.0).to_vector().norm() < 1e-13, "triangle-barycenter", w); } return r; }
template<typename M> static void raw(const std::string& w, const M& m, const typename M::cell& cl, const std::vector<P2>& ccw, bool exact, const moments<2>& want)
{
    auto ts = conv(split_in_raw_triangles(m, cl)); covers("split", w, ts, ccw, exact, false, want);
    auto ix = disk::split_in_raw_triangles_index(m, cl); std::vector<Tri> ti; for (auto& t : ix) ti.push_back({*std::next(m.points_begin(), t[0]), *std::next(m.points_begin(), t[1]), *std::next(m.points_begin(), t[2])}); covers("split-index", w, ti, ccw, exact, false, want);
}
static std::string show(const std::vector<IP>& p) { std::string s; for (auto& q : p) s += mc::str("(", q[0], ",", q[1], ")"); return s; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    struct G { int nx, ny; size_t lo, hi; }; std::vector<G> gs = th ? std::vector<G>{{3, 3, 3, 9}, {4, 3, 3, 7}, {4, 4, 3, 6}} : std::vector<G>{{3, 3, 3, 8}, {4, 3, 3, 6}, {4, 4, 3, 4}};
    struct S { double s, tx, ty; bool exact; }; std::vector<S> ss{{0.5, -0.5, -0.5, true}, {0.3, 0.7, -1.1, false}};
    for (auto& g : gs) for (size_t n = g.lo; n <= g.hi; n++) for (size_t first = 0; first < size_t(g.nx * g.ny); first++)
        mc::scenario(mc::str("poly:", g.nx, "x", g.ny, ":", n, ":", first), [&]{
            auto L = lattice(g.nx, g.ny); moments<2> mo(8), m4(4);
            polygons(L, n, [&](const std::vector<IP>& p) {
                if (p[0] != L[first]) return;
                mc::state(show(p)); bool cv = convex(p);
                for (size_t r = 0; r < n; r++) for (auto& s : ss) for (int cw = 0; cw < 2; cw++) {
                    if (cw && (&s != &ss[0] || r)) continue;
                    std::vector<P2> ccw; std::vector<size_t> idx; for (size_t i = 0; i < n; i++) { auto& q = p[(i + r) % n]; ccw.push_back(P2(s.s * q[0] + s.tx, s.s * q[1] + s.ty)); idx.push_back(i); }
                    if (cw) std::reverse(idx.begin(), idx.end());
                    gen2 m; poly2(m, ccw, {idx}); auto cl = *m.cells_begin(); std::string w = mc::str(show(p), " start ", r, cw ? " cw" : "", " scale ", s.s);
                    mo.clear(); m4.clear(); for (size_t i = 1; i + 1 < n; i++) { double a = cr(ccw[0], ccw[i], ccw[i + 1]) / 2; mo.simplex<P2>({ccw[0], ccw[i], ccw[i + 1]}, a); m4.simplex<P2>({ccw[0], ccw[i], ccw[i + 1]}, a); }
                    raw(w, m, cl, ccw, s.exact, m4);
                    { auto e = disk::triangulation_earcut_algorithm(ccw); std::vector<Tri> t; for (auto& x : e) t.push_back({ccw[x[0]], ccw[x[1]], ccw[x[2]]}); covers("earcut", w, t, ccw, s.exact, false, m4); }
                    if (!cw || s.exact) { covers("triangulate", w, convt(disk::triangulate_polygon(m, cl), w), ccw, s.exact, cv || !s.exact, m4); covers("nonconvex", w, convt(disk::triangulate_nonconvex_polygon(m, cl), w), ccw, s.exact, false, m4); if (cv) covers("convex", w, convt(disk::triangulate_convex_polygon(m, cl), w), ccw, s.exact, true, m4); }
                    for (int d = 0; d <= 8; d++) if (r == 0 || d == int(r % 9) || th) integrates(w, integrate(m, cl, d), d, mo, ccw, 1);
                    for (auto& fc : faces(m, cl)) { auto q = points(m, fc); moments<2> mf(3); double len = (q[1] - q[0]).to_vector().norm(); mf.simplex<P2>({q[0], q[1]}, len); for (int d = 0; d <= 3; d++) { std::string bad; bool ok = exact_rule(mf, integrate(m, fc, d), d, 1e-12, 1, bad); mc::check(ok, "face-integral", mc::str(w, " degree ", d, " ", bad)); } }
                } }); });
    // triangles and rectangles of the simplicial and cartesian meshes
    mc::scenario("tri2", [&]{ auto L = lattice(4, 3); for (size_t i = 0; i < 12; i++) for (size_t j = i + 1; j < 12; j++) for (size_t k = j + 1; k < 12; k++) { if (!icross(L[i], L[j], L[k])) continue; std::vector<P2> c; for (auto q : {i, j, k}) c.push_back(P2(L[q][0] * 0.5, L[q][1] * 0.5)); tri2 m; tris(m, c, {{0, 1, 2}}); if (cr(c[0], c[1], c[2]) < 0) std::swap(c[1], c[2]); moments<2> m4(4); m4.simplex<P2>({c[0], c[1], c[2]}, cr(c[0], c[1], c[2]) / 2); std::string w = mc::str("triangle ", i, " ", j, " ", k); mc::state(w); raw(w, m, *m.cells_begin(), c, true, m4); } });
    mc::scenario("car2", [&]{ for (int nx = 1; nx <= 4; nx++) for (int ny = 1; ny <= 4; ny++) { car2 m; grid2(m, lin(nx), lin(ny)); for (auto& cl : m) { auto p = points(m, cl); double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& q : p) x0 = std::min(x0, q.x()), x1 = std::max(x1, q.x()), y0 = std::min(y0, q.y()), y1 = std::max(y1, q.y()); std::vector<P2> c{P2(x0, y0), P2(x1, y0), P2(x1, y1), P2(x0, y1)}; moments<2> m4(4); for (int i = 1; i < 3; i++) m4.simplex<P2>({c[0], c[i], c[i + 1]}, cr(c[0], c[i], c[i + 1]) / 2); std::string w = mc::str("rectangle of ", nx, "x", ny, " at ", x0, ",", y0); mc::state(w); raw(w, m, cl, c, true, m4); } } });
    return mc::finish();
}
