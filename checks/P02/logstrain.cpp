// Logarithmic-strain wrapper: work-conjugate stress and consistent tangent on a
// lattice of deformations including repeated principal stretches.
#include "laws.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
typedef mechanics::LogarithmicStrain_qp<LinearElasticity_qp<double, 3>> Log3;
typedef mechanics::LogarithmicStrain_qp<LinearElasticity_qp<double, 2>> Log2;
typedef mechanics::LogarithmicStrain_qp<IsotropicHardeningVMis_qp<double, 3>> LogI3;
typedef mechanics::LogarithmicStrain_qp<LinearIsotropicAndKinematicHardening_qp<double, 3>> LogK3;

static M3 Elog(const M3& F)   // reference, through the eigen-decomposition of C
{
    M3 C = F.transpose() * F; Eigen::SelfAdjointEigenSolver<M3> es(C);
    M3 V = es.eigenvectors(); M3 L = M3::Zero(); for (int i = 0; i < 3; i++) L(i, i) = 0.5 * std::log(es.eigenvalues()(i));
    return V * L * V.transpose();
}
static double W(const M3& F, const MaterialData<double>& d) { M3 e = Elog(F); double t = e.trace(); return d.getMu() * e.squaredNorm() + 0.5 * d.getLambda() * t * t; }
template<typename L> static M3 P(const M3& F, const MaterialData<double>& d) { L q(point<double, 3>(0, 0, 0), 1.0); return q.compute_whole(F, d).first; }

template<typename L> static void one(const M3& F, const MaterialData<double>& d, const M3& Q, double tol)
{
    L q(point<double, 3>(0, 0, 0), 1.0); auto r = q.compute_whole(F, d);
    double sc = 1 + r.first.norm() + r.second.norm() * 0.1;
    mc::check((q.compute_stress3D(d) - r.first).norm() <= 1e-13 * sc, "query");
    M3 e = Elog(F), T = 2 * d.getMu() * e + d.getLambda() * e.trace() * M3::Identity();
    mc::check((q.compute_stress3D_T(d) - T).norm() < 1e-10 * sc, "log-stress");
    for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) {
        mc::near(r.first(k, l), fds<3>([&](const M3& X) { return W(X, d); }, F, k, l, 1e-3), tol, "stress-is-energy-derivative", mc::str(k, l), sc);
        M3 t = fd<3>([&](const M3& X) { return P<L>(X, d); }, F, k, l, 1e-3);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            mc::near(coeff<double, 3>(r.second, i, j, k, l), t(i, j), tol, "tangent-is-stress-derivative", mc::str(i, j, k, l), sc);
            mc::near(coeff<double, 3>(r.second, i, j, k, l), coeff<double, 3>(r.second, k, l, i, j), 1e-9, "major-symmetry", mc::str(i, j, k, l), sc);
        }
    }
    M3 tau = r.first * F.transpose(); mc::check((tau - tau.transpose()).norm() < 1e-8 * sc, "kirchhoff-symmetric");
    mc::check((P<L>(Q * F, d) - Q * r.first).norm() < 1e-8 * sc, "objective-stress");
    // without tangent: same stress
    L q2(point<double, 3>(0, 0, 0), 1.0); auto r2 = q2.compute_whole(F, d, false); mc::check((r2.first - r.first).norm() <= 1e-13 * sc, "stress-without-tangent");
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    auto Rs = rotations(mc::thorough());
    std::vector<double> st = mc::thorough() ? std::vector<double>{0.5, 0.8, 1, 1.25, 2} : std::vector<double>{0.8, 1, 1.25};
    MaterialData<double> d(1.3, 0.6);
    MaterialData<double> di(1.3, 0.6); di.addCurvePoint(0, 1e6); di.addCurvePoint(1, 2e6);
    MaterialData<double> dk(1.3, 0.6, 1, 1, 1e6);
    for (double a : st) for (double b : st) for (double c : st) for (size_t r = 0; r < Rs.size(); r++) for (size_t s = 0; s < Rs.size(); s += mc::thorough() ? 1 : 3) {
        M3 U = M3::Zero(); U(0, 0) = a; U(1, 1) = b; U(2, 2) = c; const M3 F = Rs[r] * U * Rs[s].transpose(); const M3& Q = Rs[(r * 7 + 1) % Rs.size()];
        mc::scenario(mc::str("log:", a, ",", b, ",", c, ":", r, ":", s), [&]{ one<Log3>(F, d, Q, 1e-7); });
        if (s % 6 == 0) mc::scenario(mc::str("log-isotropic:", a, ",", b, ",", c, ":", r, ":", s), [&]{ one<LogI3>(F, di, Q, 1e-7); });
        if (s % 6 == 0) mc::scenario(mc::str("log-kinematic:", a, ",", b, ",", c, ":", r, ":", s), [&]{ one<LogK3>(F, dk, Q, 1e-7); });
        // plane strain
        if (r < 4 && s < 4) mc::scenario(mc::str("log-plane:", a, ",", b, ",", c, ":", r, ":", s), [&]{
            M3 G = M3::Identity(); G.block(0, 0, 2, 2) = F.block(0, 0, 2, 2); if (G.determinant() < 0.1) return;
            Log2 p(point<double, 2>(0, 0), 1.0); auto r2 = p.compute_whole(cut<2>(F), d); Log3 p3(point<double, 3>(0, 0, 0), 1.0); auto r3 = p3.compute_whole(G, d);
            mc::check((r2.first - cut<2>(r3.first)).norm() < 1e-12, "plane-block");
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) mc::near(coeff<double, 2>(r2.second, i, j, k, l), coeff<double, 3>(r3.second, i, j, k, l), 1e-12, "plane-tangent-block");
        });
    }
    for (size_t r = 0; r < Rs.size(); r++) mc::scenario(mc::str("rigid:", r), [&]{ mc::check(P<Log3>(Rs[r], d).norm() < 1e-12, "stress-free"); });
    for (double g : {-0.5, 0.3, 1.0}) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) mc::scenario(mc::str("shear:", g, ":", i, j), [&]{ M3 F = M3::Identity(); F(i, j) = g; one<Log3>(F, d, Rs[5], 1e-7); });
    // nearly coinciding principal stretches
    for (int e = 4; e <= 15; e++) for (int pat = 0; pat < 3; pat++) for (size_t r = 0; r < Rs.size(); r += 2) mc::scenario(mc::str("near:", e, ":", pat, ":", r), [&]{
        double eps = std::pow(10., -e); M3 U = M3::Zero(); U(0, 0) = 1.2; U(1, 1) = pat == 1 ? 0.9 : 1.2 + eps; U(2, 2) = pat == 0 ? 0.9 : pat == 1 ? 0.9 + eps : 1.2 - eps;
        one<Log3>(Rs[r] * U * Rs[(r + 3) % Rs.size()].transpose(), d, Rs[5], 1e-5); });
    for (int c = 0; c < 27; c++) mc::scenario(mc::str("invert:", c), [&]{
        double s[3] = {double(c % 3 - 1), double(c / 3 % 3 - 1), double(c / 9 - 1)}; M3 F = M3::Zero(); for (int i = 0; i < 3; i++) F(i, i) = s[i]; F = (Rs[2] * F).eval();
        bool bad = s[0] * s[1] * s[2] <= 0, th = false; try { P<Log3>(F, d); } catch (const std::invalid_argument&) { th = true; } mc::check(th == bad, "inverted-refused"); });
    return mc::finish();
}
