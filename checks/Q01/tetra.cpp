// Tetrahedron rules: every family, every degree (offered or not), every monomial, lattice tetrahedra in all vertex orders.
// MC: libs=jburkardt
#include "mc.hpp"
#include "moments.hpp"
#include "hull3.hpp"
#include "diskpp/quadratures/quadratures_raw.hpp"
using namespace mm;
using P3 = disk::point<double, 3>;
using namespace disk::quadrature;
template<typename Q> static void judge(const std::string& w, const moments<3>& mo, int degree, double vol, const Q& q, const std::vector<P3>& t, bool positive, double tol)
{
    std::string bad; double S = 0; for (auto& p : q) S += p.weight();
    mc::near(S, vol, tol, "weights-sum", w, vol); bool ex = exact_rule(mo, q, degree, tol, vol, bad); mc::check(ex, "exactness", w + " " + bad);
    bool in = true, pos = true; for (auto& p : q) { pos = pos && p.weight() > 0; double v[4]; auto det = [](const P3& a, const P3& b, const P3& c, const P3& d) { return (b - a).to_vector().dot((c - a).to_vector().cross((d - a).to_vector())); }; double D = det(t[0], t[1], t[2], t[3]); auto x = p.point(); v[0] = det(x, t[1], t[2], t[3]); v[1] = det(t[0], x, t[2], t[3]); v[2] = det(t[0], t[1], x, t[3]); v[3] = det(t[0], t[1], t[2], x); for (double y : v) in = in && y / D >= -1e-13; }
    mc::check(in, "points-inside", w); if (positive) mc::check(pos, "weights-positive", w); mc::trans(q.size() * mo.al.size()); mc::trace();
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto L = lattice3(2, 2, 2);
    for (int d = 0; d <= 15; d++) mc::scenario(mc::str("tetra:", d), [&]{
        moments<3> mo(d); int cnt = 0;
        for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++) for (int k = j + 1; k < 8; k++) for (int l = k + 1; l < 8; l++) {
            int D = det3(sub3(L[j], L[i]), sub3(L[k], L[i]), sub3(L[l], L[i])); if (!D) continue; cnt++;
            for (int place = 0; place < 2; place++) {
                auto at = [&](int q) { double x = L[q][0], y = L[q][1], z = L[q][2]; return place ? P3(-0.9 + 1.6 * x + 0.2 * y, 0.7 - 1.1 * y + 0.1 * z, -0.3 + 0.35 * z + 0.4 * x) : P3(x, y, z); };
                double J = place ? std::abs(1.6 * (-1.1 * 0.35) + -0.0 + 0.2 * 0.1 * 0.4) : 1; // determinant of the map
                double vol = std::abs(D) / 6.0 * J; mo.clear(); mo.simplex<P3>({at(i), at(j), at(k), at(l)}, vol);
                int o[4] = {i, j, k, l}; int np = 0; do {
                    if (!(th || d <= 3 || (np % 5 == 0 && cnt % 4 == 0))) continue;
                    std::vector<P3> t; for (int q : o) t.push_back(at(q)); std::string w = mc::str("tetrahedron ", o[0], o[1], o[2], o[3], " place ", place, " degree ", d); mc::state(w);
                    judge("arbq " + w, mo, d, vol, arbq(d, t[0], t[1], t[2], t[3]), t, true, 1e-13);
                    judge("default " + w, mo, d, vol, default_tetrahedron_quadrature(d, t[0], t[1], t[2], t[3]), t, true, 1e-13);
                    judge("grundmann_moeller " + w, mo, d, vol, grundmann_moeller(d, t[0], t[1], t[2], t[3]), t, false, std::max(1e-13, 1e-15 * std::pow(3.0, d / 2)));
                } while (np++, std::next_permutation(o, o + 4));
            } } });
    // degrees arbq does not offer: the call must not return a rule
    for (int d = 16; d <= 20; d++) mc::scenario(mc::str("arbq-refused:", d), [&]{ int sig = 0; int r = mc::isolated([&]{ P3 a(0.0, 0.0, 0.0), b(1.0, 0.0, 0.0), c(0.0, 1.0, 0.0), e(0.0, 0.0, 1.0); auto q = arbq(d, a, b, c, e); moments<3> mo(d); mo.simplex<P3>({a, b, c, e}, 1.0 / 6); std::string bad; return exact_rule(mo, q, d, 1e-13, 1.0, bad) ? 0 : 42; }, 10, &sig); mc::check(r != 42 && r >= 0, "refused", mc::str("arbq answered degree ", d, " with a rule that is not exact, or crashed: ", r, " signal ", sig)); });
    return mc::finish();
}
