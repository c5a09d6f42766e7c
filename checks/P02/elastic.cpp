// Stress, tangent and energy of the elastic laws on a lattice of deformations.
#include "laws.hpp"

// ---- small strain laws
static void small()
{
    std::vector<double> al = mc::thorough() ? std::vector<double>{-0.5, -0.1, 0, 0.2, 1} : std::vector<double>{-0.5, 0, 0.2};
    std::vector<MaterialData<double>> mats{MaterialData<double>(1.5, 0.7), MaterialData<double>(0, 2), MaterialData<double>(30, 1)};
    for (size_t m = 0; m < mats.size(); m++) {
        int n = al.size(), tot = n * n * n * n * n * n;
        for (int c = 0; c < tot; c++) mc::scenario(mc::str("small:", m, ":", c), [&]{
            auto d = mats[m]; int x = c; double v[6]; for (auto& e : v) { e = al[x % n]; x /= n; }
            M3 e; e << v[0], v[3], v[4], v[3], v[1], v[5], v[4], v[5], v[2];
            M3 want = 2 * d.getMu() * e + d.getLambda() * e.trace() * M3::Identity();
            LinearElasticity_qp<double, 3> L; auto r = L.compute_whole3D(e, d);
            mc::check((r.first - want).norm() < 1e-12 * (1 + want.norm()), "linear-stress");
            M3 lin = tm_prod<double, 3>(r.second, e);
            mc::check((lin - want).norm() < 1e-12 * (1 + want.norm()), "linear-tangent");
            mc::check((L.compute_stress(d) - want).norm() < 1e-12 * (1 + want.norm()) && (L.getElasticStrain() - e).norm() == 0 && (L.getTotalStrain() - e).norm() == 0, "linear-query");
            mc::check(L.getTotalStrainPrev().norm() == 0 && L.compute_stressPrev(d).norm() == 0, "linear-prev");
            L.update(); mc::check((L.compute_stressPrev(d) - want).norm() < 1e-12 * (1 + want.norm()) && (L.compute_stress3DPrev(d) - want).norm() < 1e-12 * (1 + want.norm()) && (L.getTotalStrainPrev() - e).norm() == 0, "linear-update");
            mc::check(!L.is_plastic() && L.getPlasticStrain().norm() == 0 && L.getEquivalentPlasticStrain() == 0, "linear-elastic");
            M2<2> e2 = cut<2>(e), w2 = 2 * d.getMu() * e2 + d.getLambda() * e2.trace() * M2<2>::Identity();
            LinearElasticity_qp<double, 2> L2; auto r2 = L2.compute_whole(e2, d);
            mc::check((r2.first - w2).norm() < 1e-12 * (1 + w2.norm()) && (tm_prod<double, 2>(r2.second, e2) - w2).norm() < 1e-12 * (1 + w2.norm()), "linear-2d");
            LinearElasticity_qp<double, 3> L3; auto r3 = L3.compute_whole(e, d); mc::check((r3.first - want).norm() < 1e-12 * (1 + want.norm()), "linear-whole");
            // Hencky-Mises: documented stress, isotropy
            HenckyMises_qp<double, 3> H; auto h = H.compute_whole(e, d);
            M3 dev = e - e.trace() / 3 * M3::Identity(); double q = dev.squaredNorm(), s = 1 / std::sqrt(1 + q);
            M3 hw = d.getMu() * (1 + s) * e + (d.getLambda() + d.getMu() / 2 * (1 - s)) * e.trace() * M3::Identity();
            mc::check((h.first - hw).norm() < 1e-12 * (1 + hw.norm()), "hencky-stress");
            mc::check((H.compute_stress3D(d) - hw).norm() < 1e-12 * (1 + hw.norm()), "hencky-query");
            mc::check((tm_prod<double, 3>(h.second, e) - want).norm() < 1e-12 * (1 + want.norm()), "hencky-moduli");
        });
    }
    // identities of the material parameters
    for (double E : {1.0, 70.0, 210000.0}) for (double nu : {0.0, 0.2, 0.3, 0.499}) for (double K : {0.0, 3.0}) mc::scenario(mc::str("material:", E, ":", nu, ":", K), [&]{
        MaterialData<double> d; d.setLambda(E, nu); d.setMu(E, nu); double ET = E / 10; d.setH(E, ET, K); d.setK(K);
        mc::near(d.getE(), E, 1e-9, "E"); mc::near(d.getNu(), nu, 1e-9, "nu"); mc::near(d.getET(), ET, 1e-9, "ET");
    });
}

// ---- hyperelastic laws
template<typename Law> static M3 PK1(const M3& F, const MaterialData<double>& d) { Law q; return q.compute_whole3D(F, d).first; }
template<typename Law> static double W(const M3& F, const MaterialData<double>& d) { Law q; q.compute_whole3D(F, d); return q.compute_energy(d); }

template<typename Law3, typename Law2> static void hyper(const char* name, int type, const MaterialData<double>& d, const M3& F, const M3& Q, bool deep)
{
    Law3 q; auto r = q.compute_whole3D(F, d);
    double sc = 1 + r.first.norm() + r.second.norm();
    for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) {
        mc::near(r.first(k, l), fds<3>([&](const M3& X) { return W<Law3>(X, d); }, F, k, l, 1e-3), 1e-8, "stress-is-energy-derivative", mc::str(k, l), sc);
        M3 t = fd<3>([&](const M3& X) { return PK1<Law3>(X, d); }, F, k, l, 1e-3);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            mc::near(coeff<double, 3>(r.second, i, j, k, l), t(i, j), 1e-8, "tangent-is-stress-derivative", mc::str(i, j, k, l), sc);
            mc::near(coeff<double, 3>(r.second, i, j, k, l), coeff<double, 3>(r.second, k, l, i, j), 1e-12, "major-symmetry", mc::str(i, j, k, l), sc);
        }
    }
    // objectivity: energy unchanged by a rotation, stress rotates along; balance of angular momentum
    mc::near(W<Law3>(Q * F, d), W<Law3>(F, d), 1e-10, "objective-energy", "", sc);
    mc::check((PK1<Law3>(Q * F, d) - Q * r.first).norm() < 1e-10 * sc, "objective-stress");
    mc::near(W<Law3>(F * Q, d), W<Law3>(F, d), 1e-10, "isotropic-energy", "", sc);
    M3 tau = r.first * F.transpose(); mc::check((tau - tau.transpose()).norm() < 1e-10 * sc, "kirchhoff-symmetric");
    // queries and history
    mc::check((q.compute_stress3D(d) - r.first).norm() == 0 && (q.getTotalStrain() - F).norm() == 0, "query");
    q.update(); mc::check((q.compute_stressPrev3D(d) - r.first).norm() < 1e-13 * sc, "previous-stress");
    // plane strain restriction
    M3 P = M3::Identity(); P.block(0, 0, 2, 2) = F.block(0, 0, 2, 2);
    if (P.determinant() > 0.05) {
        Law2 p; auto r2 = p.compute_whole(cut<2>(F), d); Law3 p3; auto r3 = p3.compute_whole3D(P, d);
        mc::check((r2.first - cut<2>(r3.first)).norm() < 1e-13 * sc, "plane-stress-block");
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++)
            mc::near(coeff<double, 2>(r2.second, i, j, k, l), coeff<double, 3>(r3.second, i, j, k, l), 1e-13, "plane-tangent-block", mc::str(i, j, k, l), sc);
    }
}
template<typename Law3, typename Law2> static void hyperall(const char* name, bool natural)
{
    auto Rs = rotations(mc::thorough());
    std::vector<double> st = mc::thorough() ? std::vector<double>{0.5, 0.8, 1, 1.25, 2} : std::vector<double>{0.8, 1, 1.25};
    MaterialData<double> d(1.3, 0.6);
    for (int type = 1; type <= 6; type++) {
        d.setType(type);
        for (double a : st) for (double b : st) for (double c : st) for (size_t r = 0; r < Rs.size(); r++)
            mc::scenario(mc::str(name, ":", type, ":", a, ",", b, ",", c, ":", r), [&]{
                M3 U = M3::Zero(); U(0, 0) = a; U(1, 1) = b; U(2, 2) = c;
                const M3& R = Rs[r]; const M3& S = Rs[(r * 5 + 3) % Rs.size()];
                hyper<Law3, Law2>(name, type, d, R * U * S.transpose(), Rs[(r * 7 + 1) % Rs.size()], true);
            });
        // simple shears
        for (double g : {-0.5, 0.3}) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) mc::scenario(mc::str(name, ":shear:", type, ":", g, ":", i, j), [&]{ M3 F = M3::Identity(); F(i, j) = g; F(j, j) = 1.1; hyper<Law3, Law2>(name, type, d, F, Rs[5], true); });
        // undeformed and rigidly rotated states
        for (size_t r = 0; r < Rs.size(); r++) mc::scenario(mc::str(name, ":rigid:", type, ":", r), [&]{
            if (natural) mc::check(PK1<Law3>(Rs[r], d).norm() < 1e-13, "stress-free");
            mc::near(W<Law3>(Rs[r], d), W<Law3>(M3::Identity(), d), 1e-13, "rigid-energy");
        });
        // refusal of inverted or degenerate deformations: all sign and zero patterns
        for (int c = 0; c < 27; c++) mc::scenario(mc::str(name, ":invert:", type, ":", c), [&]{
            double s[3] = {double(c % 3 - 1), double(c / 3 % 3 - 1), double(c / 9 - 1)};
            M3 F = M3::Zero(); for (int i = 0; i < 3; i++) F(i, i) = s[i];
            F = (Rs[2] * F).eval();
            bool bad = s[0] * s[1] * s[2] <= 0, th = false, th2 = false, the = false;
            Law3 q;
            try { q.compute_whole3D(F, d); } catch (const std::invalid_argument&) { th = true; }
            mc::check(th == bad, "inverted-refused", mc::str(th));
            try { q.compute_stress3D(d); } catch (const std::invalid_argument&) { th2 = true; }
            mc::check(th2 == bad, "inverted-stress-refused");
            try { q.compute_energy(d); } catch (const std::invalid_argument&) { the = true; }
            mc::check(the == bad, "inverted-energy-refused");
        });
    }
    for (int type : {0, 7, 9}) mc::scenario(mc::str(name, ":type:", type), [&]{ d.setType(type); bool th = false; try { PK1<Law3>(M3::Identity(), d); } catch (const std::invalid_argument&) { th = true; } mc::check(th, "unknown-type-refused"); });
}
static void linearlaw()
{
    for (double lam : {1.0, 4.5}) for (int c = 0; c < 512; c++) mc::scenario(mc::str("linearlaw:", lam, ":", c), [&]{
        MaterialData<double> d(lam, 1); M3 F; for (int i = 0; i < 9; i++) F(i / 3, i % 3) = c >> i & 1 ? 2 - i : i * 0.5;
        LinearLaw_qp<double, 3> q; auto r = q.compute_whole3D(F, d);
        mc::check((r.first - lam * F).norm() < 1e-13 * (1 + F.norm()), "linear-law-stress"); mc::check((tm_prod<double, 3>(r.second, F) - r.first).norm() < 1e-12 * (1 + F.norm()), "linear-law-tangent");
    });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    small(); linearlaw();
    hyperall<Neohookean_qp<double, 3>, Neohookean_qp<double, 2>>("neohookean", true);
    hyperall<Cavitation_qp<double, 3>, Cavitation_qp<double, 2>>("cavitation", false);
    return mc::finish();
}
