// Triangle rules: every family, every degree (offered or not), every monomial, all lattice triangles in all vertex orders.
// MC: libs=jburkardt
#include "mc.hpp"
#include "moments.hpp"
#include "diskpp/quadratures/quadratures_raw.hpp"
#include "triangle_dunavant_rule.hpp"
using namespace mm;
using P2 = disk::point<double, 2>; using P3 = disk::point<double, 3>;
using namespace disk::quadrature;
static double cr(P2 a, P2 b, P2 c) { return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()); }
template<size_t D, typename F, typename I> static void rule(const std::string& w, const moments<D>& mo, int degree, bool offered, double meas, F f, I inside, bool positive, double tol = 1e-13)
{
    decltype(f()) q; bool refused = false; try { q = f(); } catch (const std::exception&) { refused = true; }
    if (refused) { mc::check(!offered, "refused", w); return; }
    std::string bad; double S = 0; for (auto& p : q) S += p.weight();
    mc::near(S, meas, tol, "weights-sum", w, meas); bool ex = exact_rule(mo, q, degree, tol, meas, bad); mc::check(ex, "exactness", w + " " + bad);
    bool in = true, pos = true; for (auto& p : q) in = in && inside(p.point()), pos = pos && p.weight() > 0;
    mc::check(in, "points-inside", w); if (positive) mc::check(pos, "weights-positive", w); mc::trans(q.size() * mo.al.size()); mc::trace();
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    std::vector<P2> L; for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) L.push_back(P2(double(i), double(j)));
    for (int d = 0; d <= 50; d++) mc::scenario(mc::str("triangle:", d), [&]{
        moments<2> mo(d); int count = 0;
        for (int i = 0; i < 9; i++) for (int j = i + 1; j < 9; j++) for (int k = j + 1; k < 9; k++) {
            if (cr(L[i], L[j], L[k]) == 0) continue; count++; bool full = th || d <= 6 || count % 19 == 0;
            double A = std::abs(cr(L[i], L[j], L[k])) / 2; mo.clear(); mo.simplex<P2>({L[i], L[j], L[k]}, A);
            int o[3] = {i, j, k}; do {
                if (!full && o[0] != i) continue; if (!full && d > 30 && count % 6) continue;
                P2 a = L[o[0]], b = L[o[1]], c = L[o[2]]; std::string w = mc::str("triangle ", o[0], o[1], o[2], " degree ", d); mc::state(w); double sg = cr(a, b, c) > 0 ? 1 : -1;
                auto in = [&](const P2& x) { return sg * cr(a, b, x) >= -1e-12 && sg * cr(b, c, x) >= -1e-12 && sg * cr(c, a, x) >= -1e-12; };
                rule("triangle_gauss " + w, mo, d, true, A, [&]{ return triangle_gauss(d, a, b, c); }, in, true, d > 20 ? 5e-12 : 2e-13);
                // the published Dunavant rules of these degrees have points outside
                bool outp = d == 11 || d == 15 || d == 16 || d == 18 || d == 20; rule("dunavant " + w, mo, d, d <= 20, A, [&]{ return dunavant(d, a, b, c); }, [&](const P2& x) { return outp || in(x); }, false, 2e-13);
                if (d <= 22) { double S = std::pow(2.2, d / 2); rule("grundmann_moeller " + w, mo, d, true, A, [&]{ return grundmann_moeller(d, a, b, c); }, in, false, std::max(1e-13, 1e-15 * S)); }
                // in space
                if (d <= 8 || (full && (d <= 20 || d > 30))) { auto up = [&](const P2& x) { return P3(x.x(), 0.5 * x.x() - 0.25 * x.y() + 0.125, x.y()); }; double f = std::sqrt(1 + 0.25 + 0.0625); moments<3> m3(std::min(d, 12)); m3.simplex<P3>({up(L[i]), up(L[j]), up(L[k])}, A * f);
                    auto in3 = [&](const P3& x) { return in(P2(x.x(), x.z())) && std::abs(x.y() - 0.5 * x.x() + 0.25 * x.z() - 0.125) < 1e-13; };
                    rule("triangle_gauss in space " + w, m3, std::min(d, 12), true, A * f, [&]{ return triangle_gauss(d, up(a), up(b), up(c)); }, in3, true, 1e-12); rule("dunavant in space " + w, m3, std::min(d, 12), d <= 20, A * f, [&]{ return dunavant(d, up(a), up(b), up(c)); }, [&](const P3& x) { return outp || in3(x); }, false, 1e-12); }
                if (d <= 4) { auto q = triangle_gauss(d, std::array<P2, 3>{a, b, c}), r = triangle_gauss(d, a, b, c); bool eq = q.size() == r.size(); for (size_t n = 0; eq && n < q.size(); n++) eq = q[n].weight() == r[n].weight() && (q[n].point() - r[n].point()).to_vector().norm() == 0; auto q2 = dunavant(d, std::array<P2, 3>{a, b, c}), r2 = dunavant(d, a, b, c); eq = eq && q2.size() == r2.size(); for (size_t n = 0; eq && n < q2.size(); n++) eq = q2[n].weight() == r2[n].weight() && (q2[n].point() - r2[n].point()).to_vector().norm() == 0; mc::check(eq, "same-rule", w); }
            } while (std::next_permutation(o, o + 3)); }
    });
    // the reference tables the library ships for Dunavant rules
    for (int r = 1; r <= 20; r++) mc::scenario(mc::str("dunavant-table:", r), [&]{
        mc::check(dunavant_rule_num() == 20 && dunavant_degree(r) == r, "dunavant-degree", mc::str(r)); int n = dunavant_order_num(r); std::vector<double> xy(2 * n), w(n); dunavant_rule(r, n, xy.data(), w.data());
        struct Q { P2 p; double w; P2 point() const { return p; } double weight() const { return w; } }; std::vector<Q> q; for (int i = 0; i < n; i++) q.push_back({P2(xy[2 * i], xy[2 * i + 1]), w[i] * 0.5}); moments<2> mo(r); mo.simplex<P2>({P2(0.0, 0.0), P2(1.0, 0.0), P2(0.0, 1.0)}, 0.5); std::string bad; bool ex = exact_rule(mo, q, r, 1e-13, 1, bad); mc::check(ex, "exactness", mc::str("table ", r, " ", bad)); });
    return mc::finish();
}
