// Explicit-state exploration of strain histories of the elastoplastic laws:
// every sequence of strain increments up to the bound, against an independent
// return-mapping model solved by bisection.
#include "../P02/laws.hpp"

struct Mat { double la, mu; bool iso; std::vector<std::array<double, 2>> rp; double H, K, sy; const char* name; };
static MaterialData<double> data(const Mat& m)
{
    MaterialData<double> d(m.la, m.mu, m.H, m.K, m.sy);
    for (auto& p : m.rp) d.addCurvePoint(p[0], p[1]);
    return d;
}
static M3 devi(const M3& a) { return a - a.trace() / 3 * M3::Identity(); }
static double eq(const M3& s) { return std::sqrt(1.5) * s.norm(); }

struct Model {   // committed state
    M3 ep = M3::Zero(), e = M3::Zero(); double p = 0;
    static double R(const Mat& m, double p)
    {
        if (!m.iso) return m.sy + m.H * p;
        size_t n = m.rp.size(), i = 0; while (i + 2 < n && p >= m.rp[i + 1][0]) i++;
        return m.rp[i][1] + (m.rp[i + 1][1] - m.rp[i][1]) / (m.rp[i + 1][0] - m.rp[i][0]) * (p - m.rp[i][0]);
    }
    // trial of total strain e: returns the new state
    Model step(const Mat& m, const M3& en, double& phi) const
    {
        Model r = *this; r.e = en; phi = -1;
        if (m.iso && m.rp.empty()) return r;
        double K = m.iso ? 0 : m.K;
        M3 s = 2 * m.mu * devi(en - ep) - K * ep; double se = eq(s);
        phi = se - R(m, p); if (phi < 0) return r;
        double lo = 0, hi = se / (3 * m.mu) + 1;
        auto g = [&](double d) { return se - (3 * m.mu + 1.5 * K) * d - R(m, p + d); };
        for (int i = 0; i < 200; i++) { double mid = (lo + hi) / 2; (g(mid) > 0 ? lo : hi) = mid; }
        double dp = (lo + hi) / 2;
        r.p = p + dp; if (se > 0) r.ep = ep + dp * 1.5 * s / se;
        return r;
    }
    M3 stress(const Mat& m) const { M3 el = e - ep; return 2 * m.mu * el + m.la * el.trace() * M3::Identity(); }
};
// the tangent is only differentiable away from the elastic limit and from corners of the curve
static bool smooth(const Mat& m, const Model& prev, const Model& cur, double phi)
{
    if (m.iso && m.rp.empty()) return true;
    if (std::abs(phi) < 1e-2 * (1 + Model::R(m, prev.p))) return false;
    if (m.iso && phi > 0) for (auto& q : m.rp) if (std::abs(cur.p - q[0]) < 2e-3 && q[0] > 0) return false;
    return true;
}

template<typename Q, int D> struct Explore {
    const Mat& m; MaterialData<double> d; std::vector<M2<D>> inc; int depth, tdepth; double tol = 1e-9;
    static M3 up(const M2<D>& a) { M3 r = M3::Zero(); r.block(0, 0, D, D) = a; return r; }
    void verify(Q& q, const Q& before, const Model& pm, const Model& cm, double phi, const M2<D>& e, const std::pair<M2<D>, static_tensor<double, D>>& r, bool tangent)
    {
        double sc = 1 + cm.stress(m).norm();
        M3 s = cm.stress(m);
        mc::check((q.compute_stress3D(d) - s).norm() <= tol * sc, "stress", mc::str("history differs from the reference by ", (q.compute_stress3D(d) - s).norm()));
        mc::check((r.first - s.block(0, 0, D, D)).norm() <= tol * sc, "returned-stress");
        mc::check((q.compute_stress(d) - r.first).norm() <= 1e-12 * sc, "query-stress");
        mc::check((q.getPlasticStrain() - cm.ep).norm() <= tol * sc, "plastic-strain");
        mc::check((q.getElasticStrain() - (cm.e - cm.ep)).norm() <= tol * sc, "elastic-strain");
        mc::check(std::abs(q.getEquivalentPlasticStrain() - cm.p) <= tol * sc, "cumulated");
        mc::check(q.getEquivalentPlasticStrain() >= pm.p - 1e-12, "cumulated-decreases");
        mc::check(std::abs(q.getPlasticStrain().trace()) <= 1e-10 * sc, "plastic-volume");
        mc::check((q.getTotalStrain() - e).norm() <= 1e-11 * sc, "total-strain");
        mc::check((q.getTotalStrainPrev() - pm.e.block(0, 0, D, D)).norm() <= 1e-11 * sc, "previous-strain");
        mc::check((q.compute_stress3DPrev(d) - pm.stress(m)).norm() <= tol * sc, "previous-stress");
        mc::check((q.compute_stressPrev(d) - pm.stress(m).block(0, 0, D, D)).norm() <= tol * sc, "previous-stress-plane");
        if (std::abs(phi) > 1e-9 * sc) mc::check(q.is_plastic() == (phi > 0), "plastic-flag", mc::str("phi=", phi));
        // admissibility of the result from the law's own answers
        if (!(m.iso && m.rp.empty())) {
            double f = eq(devi(q.compute_stress3D(d)) - (m.iso ? 0 : m.K) * q.getPlasticStrain()) - Model::R(m, q.getEquivalentPlasticStrain());
            mc::check(f <= 1e-8 * sc, "yield-exceeded", mc::str("f=", f));
        }
        if (!tangent || !smooth(m, pm, cm, phi)) return;
        const double h = 1e-4;
        for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) {
            auto f = [&](const M2<D>& x) { M2<D> y = (x + x.transpose()) / 2; Q c = before; return (M2<D>)c.compute_whole(y, d, false).first; };
            M2<D> t = fd<D>(f, e, k, l, h);
            for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) mc::near(coeff<double, D>(r.second, i, j, k, l), t(i, j), 2e-6, "tangent", mc::str(i, j, k, l, " phi=", phi), m.la + 2 * m.mu);
        }
    }
    void go(const Q& q, const Model& mo, const M2<D>& e, std::string h)
    {
        mc::state(mc::str(m.name, D, h));
        if ((int)h.size() >= depth) return;
        for (size_t a = 0; a < inc.size(); a++) {
            M2<D> en = e + inc[a]; Q c = q; double phi; Model cm = mo.step(m, up(en), phi); mc::trans();
            auto r = c.compute_whole(en, d);
            verify(c, q, mo, cm, phi, en, r, (int)h.size() < tdepth);
            // another attempt from the same committed state (a rejected Newton iterate) leaves no trace
            M2<D> other = e - 2 * inc[(a + 1) % inc.size()]; double phi2; Model om = mo.step(m, up(other), phi2);
            auto ro = c.compute_whole(other, d); verify(c, q, mo, om, phi2, other, ro, false);
            auto r2 = c.compute_whole(en, d, false);
            mc::check((r2.first - r.first).norm() <= 1e-12 * (1 + r.first.norm()), "attempts-change-the-answer");
            c.update();
            mc::check((c.compute_stress3DPrev(d) - cm.stress(m)).norm() <= tol * (1 + cm.stress(m).norm()), "update-commits");
            go(c, cm, en, h + char('a' + a));
        }
        if (h.size() < 3 || mc::thorough()) { Q c = q; c.update(); c.update(); }   // committing twice is harmless
        mc::trace();
    }
};
template<int D> static std::vector<M2<D>> increments()
{
    std::vector<M2<D>> v; M2<D> z = M2<D>::Zero();
    auto add = [&](std::initializer_list<std::array<double, 3>> l) { M2<D> m = z; for (auto& t : l) { m(int(t[0]), int(t[1])) = t[2]; m(int(t[1]), int(t[0])) = t[2]; } v.push_back(m); };
    add({{0, 0, 0.011}}); add({{0, 1, 0.013}}); add({{0, 0, -0.023}, {1, 1, 0.008}}); add({{0, 0, 0.03}, {1, 1, 0.03}, {D - 1, D - 1, 0.03}});
    add({{0, D - 1, -0.017}, {D - 1, D - 1, -0.006}}); add({}); if (mc::thorough()) { add({{0, 0, 0.2}, {1, 1, -0.1}}); add({{1, 1, 0.0015}}); }
    return v;
}
template<typename Q, int D> static void run(const Mat& m, int depth, int td)
{
    auto inc = increments<D>();
    for (size_t a = 0; a < inc.size(); a++) for (size_t b = 0; b < inc.size(); b++)
        mc::scenario(mc::str(m.name, ":", D, "D:", a, b), [&]{
            Explore<Q, D> ex{m, data(m), inc, depth, td}; double phi;
            typename std::conditional<D == 2, point<double, 2>, point<double, 3>>::type pt;
            Q q(pt, 1.0); Model mo;
            mc::check(q.getEquivalentPlasticStrain() == 0 && q.getPlasticStrain().norm() == 0 && !q.is_plastic(), "virgin");
            auto one = [&](Q& q, Model& mo, M2<D>& e, size_t k, size_t lev) { Q c = q; M2<D> en = e + inc[k]; Model cm = mo.step(m, Explore<Q, D>::up(en), phi); auto r = c.compute_whole(en, ex.d); ex.verify(c, q, mo, cm, phi, en, r, lev < (size_t)td); c.update(); q = c; mo = cm; e = en; };
            M2<D> e = M2<D>::Zero(); one(q, mo, e, a, 0); one(q, mo, e, b, 1);
            ex.go(q, mo, e, mc::str(char('a' + a), char('a' + b)));
        });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::vector<Mat> iso = {
        {100, 80, true, {{0, 1.0}, {0.01, 1.3}, {0.02, 1.4}, {0.05, 1.45}}, 0, 0, 0, "multilinear"},
        {100, 80, true, {{0, 1.5}, {1, 1.5}}, 0, 0, 0, "perfect"},
        {0, 50, true, {{0, 0.5}, {0.005, 2.0}, {0.006, 2.0}, {0.1, 9}}, 0, 0, 0, "steep"},
        {100, 80, true, {}, 0, 0, 0, "elastic"}};
    std::vector<Mat> kin = {
        {100, 80, false, {}, 10, 0, 1.0, "isotropic"}, {100, 80, false, {}, 0, 20, 1.0, "kinematic"},
        {100, 80, false, {}, 5, 30, 0.7, "mixed"}, {0, 50, false, {}, 0, 0, 1.2, "ideal"}};
    int dep = mc::thorough() ? 6 : 5, td = mc::thorough() ? 4 : 3;
    for (auto& m : iso) { run<IsotropicHardeningVMis_qp<double, 3>, 3>(m, dep, td); run<IsotropicHardeningVMis_qp<double, 2>, 2>(m, dep, td); }
    for (auto& m : kin) { run<LinearIsotropicAndKinematicHardening_qp<double, 3>, 3>(m, dep, td); run<LinearIsotropicAndKinematicHardening_qp<double, 2>, 2>(m, dep, td); }
    // material parameters
    for (double E : {1.0, 210.0}) for (double nu : {0.0, 0.2, 0.45}) for (double ET : {0.0, 0.3}) for (double K : {0.0, 0.1}) mc::scenario(mc::str("parameters:", E, ":", nu, ":", ET, ":", K), [&]{
        MaterialData<double> d; d.setMu(E, nu); d.setLambda(E, nu); d.setK(K); d.setH(E, ET, K); d.setSigma_y0(0.3);
        mc::near(d.getE(), E, 1e-12, "young", "", E); mc::near(d.getNu(), nu, 1e-12, "poisson"); mc::near(d.getMu(), E / 2 / (1 + nu), 1e-12, "shear", "", E);
        mc::near(d.getLambda(), E * nu / (1 + nu) / (1 - 2 * nu), 1e-12, "lame", "", E); mc::near(d.getET(), ET, 1e-11, "tangent-modulus", "", E); });
    // hardening curves: any order of points is sorted, duplicates are refused
    std::vector<std::array<double, 2>> pts = {{0, 1}, {0.1, 2}, {0.3, 2.5}, {0.7, 2.6}};
    for (int dup = 0; dup < 2; dup++) { std::vector<int> o = {0, 1, 2, 3}; do mc::scenario(mc::str("curve:", dup, ":", o[0], o[1], o[2], o[3]), [&]{
        MaterialData<double> d; std::vector<curve_point<double>> l; for (int i : o) { auto p = pts[dup && i == 3 ? 1 : i]; d.addCurvePoint(p[0], p[1]); l.push_back(curve_point<double>(p[0], p[1])); }
        MaterialData<double> d2; d2.setRpCurve(l);
        for (auto* x : {&d, &d2}) { bool th = false; try { x->checkRpCurve(); } catch (const std::invalid_argument&) { th = true; } mc::check(th == (dup == 1), "curve-duplicate");
            if (!dup) { auto c = x->getRpCurve(); mc::check(c.size() == 4, "curve-size"); for (int i = 0; i < 4; i++) mc::check(c[i].getP() == pts[i][0] && c[i].getRp() == pts[i][1], "curve-sorted"); } }
    }); while (std::next_permutation(o.begin(), o.end())); }
    return mc::finish();
}
