// Segment, quadrangle and hexahedron rules: every family, every degree (offered or not), every monomial.
// MC: libs=jburkardt
#include "mc.hpp"
#include "moments.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/quadratures_raw.hpp"
#include "diskpp/quadratures/bits/quad_raw_gauss_lobatto.hpp"
using namespace mm;
using P1 = disk::point<double, 1>; using P2 = disk::point<double, 2>; using P3 = disk::point<double, 3>;
using namespace disk::quadrature;
// offered: the degree is in the documented range. f() returns the points. inside(p) tests a point.
template<size_t D, typename F, typename I> static void rule(const std::string& w, const moments<D>& mo, int degree, bool offered, double meas, F f, I inside, bool positive)
{
    decltype(f()) q; bool refused = false; try { q = f(); } catch (const std::exception&) { refused = true; }
    if (refused) { mc::check(!offered, "refused", w); return; }
    std::string bad; double S = 0; for (auto& p : q) S += p.weight();
    mc::near(S, meas, 1e-13, "weights-sum", w, std::abs(meas)); bool ex = exact_rule(mo, q, degree, 2e-13, std::abs(meas), bad); mc::check(ex, "exactness", w + " " + bad);
    bool in = true, pos = true; for (auto& p : q) in = in && inside(p.point()), pos = pos && p.weight() * meas > 0;
    mc::check(in, "points-inside", w); if (positive) mc::check(pos, "weights-positive", w); mc::trans(q.size() * mo.al.size()); mc::trace();
}
template<size_t N> struct inbox { double a[N], b[N]; template<typename P> bool operator()(const P& p) const { for (size_t k = 0; k < N; k++) if (p[k] < std::min(a[k], b[k]) - 1e-14 || p[k] > std::max(a[k], b[k]) + 1e-14) return false; return true; } };
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    const double xs[] = {-1, -0.5, 0, 0.3, 0.75, 1};
    for (int d = 0; d <= 45; d++) mc::scenario(mc::str("segment:", d), [&]{
        for (double a : xs) for (double b : xs) if (a != b) {
            moments<1> mo(d), mor(d); mo.simplex<P1>({P1(a), P1(b)}, std::abs(b - a)); mor.simplex<P1>({P1(a), P1(b)}, b - a); std::string w = mc::str("[", a, ",", b, "] degree ", d); mc::state(w); inbox<1> in{{a}, {b}};
            rule("gauss_legendre(points) " + w, mo, d, d <= 39, std::abs(b - a), [&]{ return gauss_legendre(d, P1(a), P1(b)); }, in, true);
            rule("gauss_legendre(numbers) " + w, mor, d, d <= 39, b - a, [&]{ return gauss_legendre(d, a, b); }, in, true);
            rule("gauss_lobatto(points) " + w, mo, d, d <= 37, std::abs(b - a), [&]{ return gauss_lobatto(d, P1(a), P1(b)); }, in, true);
            rule("gauss_lobatto(numbers) " + w, mor, d, d <= 37, b - a, [&]{ return gauss_lobatto(d, a, b); }, in, true);
            if (d <= 37) { auto q = gauss_lobatto(d, P1(a), P1(b)); double lo = 1e9, hi = -1e9; for (auto& p : q) lo = std::min(lo, p.point().x()), hi = std::max(hi, p.point().x()); mc::check(std::abs(lo - std::min(a, b)) < 1e-15 && std::abs(hi - std::max(a, b)) < 1e-15, "lobatto-endpoints", w); }
        }
        // the reference edge rules, and the older reference quadrangle
        struct Q { P1 p; double w; P1 point() const { return p; } double weight() const { return w; } }; moments<1> mo(d); mo.simplex<P1>({P1(-1.0), P1(1.0)}, 2); inbox<1> in{{-1}, {1}};
        auto conv = [](const std::vector<std::pair<P1, double>>& v) { std::vector<Q> r; for (auto& x : v) r.push_back({x.first, x.second}); return r; };
        rule(mc::str("edge_quadrature ", d), mo, d, true, 2.0, [&]{ return conv(disk::edge_quadrature<double>(d)); }, in, true);
        rule(mc::str("golub_welsch ", d), mo, d, true, 2.0, [&]{ return conv(disk::golub_welsch<double>(d)); }, in, true);
        // segments in the plane and in space
        for (int k = 0; k < 8; k++) { P2 a(0.25 * (k & 1) - 0.5, -0.5 + 0.3 * (k >> 1 & 1)), b(0.5 - 0.75 * (k >> 2), 0.75); moments<2> m2(d); double L = std::hypot(b.x() - a.x(), b.y() - a.y()); m2.simplex<P2>({a, b}, L); inbox<2> i2{{a.x(), a.y()}, {b.x(), b.y()}}; rule(mc::str("gauss_legendre in the plane ", k, " degree ", d), m2, d, d <= 39, L, [&]{ return gauss_legendre(d, a, b); }, i2, true); rule(mc::str("gauss_lobatto in the plane ", k, " degree ", d), m2, d, d <= 37, L, [&]{ return gauss_lobatto(d, a, b); }, i2, true);
            if (d <= 12) { P3 c(a.x(), 0.25 * k - 1, a.y()), e(b.x(), 0.25, b.y()); moments<3> m3(d); double L3 = (e - c).to_vector().norm(); m3.simplex<P3>({c, e}, L3); inbox<3> i3{{c.x(), c.y(), c.z()}, {e.x(), e.y(), e.z()}}; rule(mc::str("gauss_legendre in space ", k, " degree ", d), m3, d, true, L3, [&]{ return gauss_legendre(d, c, e); }, i3, true); } }
    });
    // quadrangles: all convex lattice quadrangles of the 3x3 lattice (any start, both orientations), scaled to [-1,1]
    for (int d = 0; d <= 41; d++) mc::scenario(mc::str("quad:", d), [&]{
        moments<2> mo(d); std::vector<P2> L; for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) L.push_back(P2(double(i), double(j)));
        auto cr = [](P2 a, P2 b, P2 c) { return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()); };
        for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int k = 0; k < 9; k++) for (int l = 0; l < 9; l++) {
            P2 p[4] = {L[i], L[j], L[k], L[l]}; double c[4]; int pos = 0, neg = 0; for (int q = 0; q < 4; q++) { c[q] = cr(p[q], p[(q + 1) % 4], p[(q + 2) % 4]); pos += c[q] > 0; neg += c[q] < 0; }
            if (!(pos == 4 || neg == 4)) continue; bool para = p[0].x() + p[2].x() == p[1].x() + p[3].x() && p[0].y() + p[2].y() == p[1].y() + p[3].y();
            if (!(d <= 6 || th || i + j + k + l == 16)) continue; // high degrees on a subset
            mo.clear(); double A = 0; for (int q = 1; q < 3; q++) { double a = std::abs(cr(p[0], p[q], p[q + 1])) / 2; A += a; mo.simplex<P2>({p[0], p[q], p[q + 1]}, a); }
            std::string w = mc::str("quadrangle ", i, j, k, l, " degree ", d); mc::state(w);
            rule("tensorized_gauss_legendre " + w, mo, d, d <= (para ? 39 : 38), A, [&]{ return tensorized_gauss_legendre(d, p[0], p[1], p[2], p[3]); }, [&](const P2& x) { bool in = true; for (int q = 0; q < 4; q++) in = in && cr(p[q], p[(q + 1) % 4], x) * (pos ? 1 : -1) >= -1e-13; return in; }, true);
            if (d <= 3) { auto a = tensorized_gauss_legendre(d, std::array<P2, 4>{p[0], p[1], p[2], p[3]}), b = tensorized_gauss_legendre(d, p[0], p[1], p[2], p[3]); bool eq = a.size() == b.size(); for (size_t q = 0; eq && q < a.size(); q++) eq = a[q].weight() == b[q].weight() && (a[q].point() - b[q].point()).to_vector().norm() == 0; mc::check(eq, "same-rule", w); }
            // the same shape as a parallelogram in space
            if (para && d <= 12) { auto up = [&](const P2& x) { return P3(x.x(), x.y(), 0.5 * x.x() - 0.25 * x.y() + 0.125); }; moments<3> m3(d); double f = std::sqrt(1 + 0.25 + 0.0625); for (int q = 1; q < 3; q++) m3.simplex<P3>({up(p[0]), up(p[q]), up(p[q + 1])}, std::abs(cr(p[0], p[q], p[q + 1])) / 2 * f);
                rule("tensorized_gauss_legendre in space " + w, m3, d, true, A * f, [&]{ return tensorized_gauss_legendre(d, up(p[0]), up(p[1]), up(p[2]), up(p[3])); }, [](const P3&) { return true; }, true); }
        } });
    // hexahedra: boxes and parallelepipeds in the corner order 000 100 110 010 001 101 111 011
    for (int d = 0; d <= (th ? 20 : 12); d++) mc::scenario(mc::str("hexa:", d), [&]{
        moments<3> mo(d);
        const double E[6][3][3] = {{{1,0,0},{0,1,0},{0,0,1}}, {{0.5,0,0},{0,1,0},{0,0,0.25}}, {{-1,0,0},{0,0.5,0},{0,0,1}}, {{0,1,0},{1,0,0},{0,0,1}}, {{0.5,0.25,0},{0,0.75,0.125},{0.25,0,0.5}}, {{0.25,-0.5,0},{0.5,0.5,0},{0.125,0,-0.75}}};
        for (auto& e : E) { std::array<P3, 8> p; int c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; double o[3] = {-0.4, 0.1, -0.3}; for (int i = 0; i < 8; i++) { double x[3]; for (int k = 0; k < 3; k++) x[k] = o[k] + c[i][0] * e[0][k] + c[i][1] * e[1][k] + c[i][2] * e[2][k]; p[i] = P3(x[0], x[1], x[2]); }
            mo.clear(); int T[6][4] = {{0,1,2,6},{0,2,3,6},{0,3,7,6},{0,7,4,6},{0,4,5,6},{0,5,1,6}}; double vol = 0; for (auto& t : T) { auto a = (p[t[1]] - p[t[0]]).to_vector(), b = (p[t[2]] - p[t[0]]).to_vector(), q = (p[t[3]] - p[t[0]]).to_vector(); double v = std::abs(a.dot(b.cross(q))) / 6; vol += v; mo.simplex<P3>({p[t[0]], p[t[1]], p[t[2]], p[t[3]]}, v); }
            std::string w = mc::str("hexahedron ", &e - E, " degree ", d); mc::state(w); rule(w, mo, d, true, vol, [&]{ return tensorized_gauss_legendre(d, p); }, [](const P3&) { return true; }, true); } });
    mc::scenario("hexa-refused", [&]{ std::array<P3, 8> p{P3(0.0,0.0,0.0),P3(1.0,0.0,0.0),P3(1.0,1.0,0.0),P3(0.0,1.0,0.0),P3(0.0,0.0,1.0),P3(1.0,0.0,1.0),P3(1.0,1.0,1.0),P3(0.0,1.0,1.0)}; for (int d = 40; d < 44; d++) { bool t = false; try { tensorized_gauss_legendre(d, p); } catch (const std::exception&) { t = true; } mc::check(t, "refused", "degree above 39"); } });
    return mc::finish();
}
