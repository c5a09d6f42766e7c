// Fourth-order tensor algebra and stress/strain conversions: all basis tensors
// (which determine the multilinear maps) and a lattice of deformation gradients.
#include "mc.hpp"
#include "diskpp/common/eigen.hpp"
#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
#include "diskpp/mechanics/behaviors/maths_utils.hpp"
#include "diskpp/mechanics/behaviors/tensor_conversion.hpp"
#include "diskpp/mechanics/stress_tensors.hpp"
#include "diskpp/mechanics/deformation_tensors.hpp"
using namespace disk;

// reference: plain arrays with four indices
template<int D> struct T4 { double a[D][D][D][D]; };
template<int D> static T4<D> get(const static_tensor<double, D>& t)
{
    T4<D> r; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) r.a[i][j][k][l] = coeff<double, D>(t, i, j, k, l);
    return r;
}
template<int D, typename F> static void each(F f) { for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) f(i, j, k, l); }
template<int D> static static_tensor<double, D> E4(int i, int j, int k, int l) { static_tensor<double, D> t = static_tensor<double, D>::Zero(); coeff<double, D>(t, i, j, k, l, 1.0); return t; }
template<int D> using M2 = static_matrix<double, D, D>;
template<int D> static M2<D> E2(int i, int j) { M2<D> m = M2<D>::Zero(); m(i, j) = 1; return m; }
template<int D, typename F> static void same4(const static_tensor<double, D>& t, F want, const std::string& key, const std::string& h)
{
    each<D>([&](int i, int j, int k, int l) { mc::near(coeff<double, D>(t, i, j, k, l), want(i, j, k, l), 1e-12, key, mc::str(h, " at ", i, j, k, l)); });
}
template<int D> static void same(const M2<D>& m, const M2<D>& w, const std::string& key, const std::string& h, double tol = 1e-12)
{
    for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) mc::near(m(i, j), w(i, j), tol, key, mc::str(h, " at ", i, j), 1.0 + w.norm());
}
static bool kd(int a, int b) { return a == b; }

template<int D> static void algebra()
{
    std::string n = mc::str(D, "d:");
    mc::scenario(n + "storage", [&]{
        // the documented storage: A(i*D+k, j*D+l)
        static_tensor<double, D> t; for (int r = 0; r < D * D; r++) for (int c = 0; c < D * D; c++) t(r, c) = 100 * r + c;
        each<D>([&](int i, int j, int k, int l) {
            mc::check(coeff<double, D>(t, i, j, k, l) == 100 * (i * D + k) + j * D + l, "coeff", mc::str(i, j, k, l));
            auto u = t; coeff<double, D>(u, i, j, k, l, -7.0);
            each<D>([&](int a, int b, int c, int d) { bool me = a == i && b == j && c == k && d == l; mc::check(coeff<double, D>(u, a, b, c, d) == (me ? -7.0 : coeff<double, D>(t, a, b, c, d)), "set-coeff"); });
        });
        for (int bad = 0; bad < 4; bad++) for (int v : {-1, D}) { int x[4] = {0, 0, 0, 0}; x[bad] = v; bool th = false; try { coeff<double, D>(t, x[0], x[1], x[2], x[3]); } catch (const std::invalid_argument&) { th = true; } mc::check(th, "coeff-range"); }
    });
    mc::scenario(n + "identities", [&]{
        auto I = IdentityTensor4<double, D>(), S = IdentitySymTensor4<double, D>(), X = IxI<double, D>();
        same4<D>(I, [&](int i, int j, int k, int l) { return double(kd(i, k) && kd(j, l)); }, "identity4", "");
        same4<D>(S, [&](int i, int j, int k, int l) { return 0.5 * ((kd(i, k) && kd(j, l)) + (kd(i, l) && kd(j, k))); }, "identity-sym4", "");
        same4<D>(X, [&](int i, int j, int k, int l) { return double(kd(i, j) && kd(k, l)); }, "IxI", "");
    });
    each<D>([&](int i, int j, int k, int l) {
        mc::scenario(mc::str(n, "basis:", i, j, k, l), [&]{
            std::string h = mc::str("E", i, j, k, l);
            auto A = E4<D>(i, j, k, l);
            for (int p = 0; p < D; p++) for (int q = 0; q < D; q++) {
                M2<D> B = E2<D>(p, q), w = M2<D>::Zero();
                if (k == p && l == q) w(i, j) = 1;
                same<D>(tm_prod<double, D>(A, B), w, "tm_prod(t,m)", h); same<D>(ContractedProduct<double, D>(A, B), w, "contract(t,m)", h);
                w.setZero(); if (i == p && j == q) w(k, l) = 1;
                same<D>(tm_prod<double, D>(B, A), w, "tm_prod(m,t)", h); same<D>(ContractedProduct<double, D>(B, A), w, "contract(m,t)", h);
                // single-entry variant
                for (double v : {1.0, -3.0}) { M2<D> C = v * E2<D>(p, q); w.setZero(); if (k == p && l == q) w(i, j) = v; same<D>(tm_prod<double, D>(A, C, p, q), w, "tm_prod-entry", h); }
            }
            same4<D>(transpose<double, D>(A), [&](int a, int b, int c, int d) { return double(a == k && b == l && c == i && d == j); }, "transpose", h);
            each<D>([&](int p, int q, int r, int s) {
                auto B = E4<D>(p, q, r, s);
                auto C = ContractedProduct<double, D>(A, B);
                bool hit = k == p && l == q;
                double sum = C.cwiseAbs().sum();
                mc::check(sum == (hit ? 1.0 : 0.0) && (!hit || coeff<double, D>(C, i, j, r, s) == 1.0), "contract(t,t)", h + mc::str(" E", p, q, r, s));
            });
            // A = E_ij, B = E_kl as matrices
            auto a = E2<D>(i, j), b = E2<D>(k, l);
            same4<D>(Kronecker<double, D>(a, b), [&](int I, int J, int K, int L) { return a(I, J) * b(K, L); }, "kronecker", h);
            same4<D>(ProductSup<double, D>(a, b), [&](int I, int J, int K, int L) { return a(I, K) * b(J, L); }, "product-sup", h);
            same4<D>(ProductInf<double, D>(a, b), [&](int I, int J, int K, int L) { return a(I, L) * b(J, K); }, "product-inf", h);
            same4<D>(Odot<double, D>(a, b), [&](int I, int J, int K, int L) { return 0.5 * (a(I, K) * b(J, L) + a(I, L) * b(J, K)); }, "odot", h);
            mc::check(InnerProduct<double, D>(a, b) == double(i == k && j == l), "inner", h);
            static_vector<double, D> u = static_vector<double, D>::Zero(), v = u; u(i) = 1; v(k) = 1;
            mc::check(InnerProduct<double, D>(u, v) == double(i == k), "inner-vec", h);
            same<D>((M2<D>)Kronecker<double, D>(u, v), E2<D>(i, k), "kronecker-vec", h);
        });
    });
    // spheric / deviator (linear: basis)
    for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
        mc::scenario(mc::str(n, "split:", i, j), [&]{
            M2<D> m = E2<D>(i, j), s = i == j ? M2<D>(M2<D>::Identity() / D) : M2<D>(M2<D>::Zero());
            same<D>(spheric<double, D>(m), s, "spheric", ""); same<D>(deviator<double, D>(m), m - s, "deviator", "");
        });
}

static void threeD()
{
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mc::scenario(mc::str("3d-embed:", i, j), [&]{
        M2<3> m = E2<3>(i, j);
        same<3>(convertMatrix3D<double>(m), m, "convertMatrix3D", ""); same<3>(convertMatrix3DwithOne<double>(m), m, "convertMatrix3DwithOne", "");
        same<3>(convertMatrix<double, 3>(m), m, "convertMatrix", "");
        same<2>(convertMatrix<double, 2>(m), i < 2 && j < 2 ? E2<2>(i, j) : M2<2>(M2<2>::Zero()), "convertMatrix", "");
        if (i < 2 && j < 2) { M2<2> p = E2<2>(i, j); same<3>(convertMatrix3D<double>(p), m, "convertMatrix3D", ""); M2<3> w = m; w(2, 2) = 1; same<3>(convertMatrix3DwithOne<double>(p), w, "convertMatrix3DwithOne", ""); }
    });
    each<3>([&](int i, int j, int k, int l) { mc::scenario(mc::str("3d-tensor:", i, j, k, l), [&]{
        auto t = E4<3>(i, j, k, l);
        same4<3>(convertTensor<double, 3>(t), [&](int a, int b, int c, int d) { return double(a == i && b == j && c == k && d == l); }, "convertTensor3", "");
        same4<2>(convertTensor<double, 2>(t), [&](int a, int b, int c, int d) { return double(a == i && b == j && c == k && d == l); }, "convertTensor2", "");
        // Mandel notation of the tensor made minor-symmetric: packs the action on symmetric matrices
        auto mandel = [](const M2<3>& m) { static_vector<double, 6> v; double r = std::sqrt(2.); v << m(0, 0), m(1, 1), m(2, 2), r * m(0, 1), r * m(0, 2), r * m(1, 2); return v; };
        static_tensor<double, 3> ts = static_tensor<double, 3>::Zero();
        int ij[2][2] = {{i, j}, {j, i}}, kl[2][2] = {{k, l}, {l, k}};
        for (auto& x : ij) for (auto& y : kl) coeff<double, 3>(ts, x[0], x[1], y[0], y[1], 1.0);
        auto V = convertTensorNotationMangel<double, 3>(ts);
        for (int p = 0; p < 3; p++) for (int q = p; q < 3; q++) {
            M2<3> S = E2<3>(p, q) + E2<3>(q, p);
            auto got = (V * mandel(S)).eval(), want = mandel(tm_prod<double, 3>(ts, S));
            for (int r = 0; r < 6; r++) mc::near(got(r), want(r), 1e-12, "mandel", mc::str(p, q, " row ", r));
        }
        if (i < 2 && j < 2 && k < 2 && l < 2) {
            static_tensor<double, 2> t2 = static_tensor<double, 2>::Zero();
            for (auto& x : ij) for (auto& y : kl) coeff<double, 2>(t2, x[0], x[1], y[0], y[1], 1.0);
            auto V2 = convertTensorNotationMangel<double, 2>(t2);
            mc::check((V2 - V).norm() < 1e-12, "mandel-2d", mc::str(i, j, k, l));
        }
    }); });
    // material tangent -> nominal tangent, on major-symmetric basis tensors, basis stresses and gradients
    std::vector<M2<3>> Fs;
    { M2<3> F; F << 2, 1, 0, -1, 1, 1, 0, 1, 3; Fs.push_back(F); F << 1, 0, 0, 0, 1, 0, 0, 0, 1; Fs.push_back(F); F << 0, -1, 0, 1, 0, 0, 0, 2, 1; Fs.push_back(F); }
    for (size_t f = 0; f < Fs.size(); f++) each<3>([&](int i, int j, int k, int l) { mc::scenario(mc::str("CtoA:", f, ":", i, j, k, l), [&]{
        const auto& F = Fs[f];
        static_tensor<double, 3> C = E4<3>(i, j, k, l); coeff<double, 3>(C, k, l, i, j, 1.0);
        M2<3> S = E2<3>(i, j) + E2<3>(j, i);
        auto A = convertCtoA<double>(C, S, F);
        auto c = get<3>(C);
        same4<3>(A, [&](int a, int J, int b, int L) { double s = a == b ? S(J, L) : 0; for (int M = 0; M < 3; M++) for (int N = 0; N < 3; N++) s += c.a[M][J][N][L] * F(a, M) * F(b, N); return s; }, "CtoA", mc::str(f));
    }); });
}

// external-solver packing: round trips and consistent action on all basis elements
static void packing()
{
    for (size_t sz : {4, 5, 6, 9}) for (size_t b = 0; b < sz; b++) mc::scenario(mc::str("pack:", sz, ":", b), [&]{
        std::vector<double> v(sz, 0.0), w(sz, 0.0); v[b] = 1;
        M2<3> m; convertMatrixFromMgis(v, m); convertMatrixToMgis(m, w);
        for (size_t k = 0; k < sz; k++) mc::near(w[k], v[k], 1e-14, "pack-unpack", mc::str("component ", k));
        if (sz == 4 || sz == 6) mc::check((m - m.transpose()).norm() < 1e-14, "unpack-symmetric");
        // norm preservation: packed dot product equals tensor inner product
        mc::near(m.squaredNorm(), 1.0, 1e-14, "pack-isometry");
    });
    for (size_t sz : {4, 5, 6, 9}) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mc::scenario(mc::str("unpack:", sz, ":", i, j), [&]{
        bool inplane = (i == j) || (i < 2 && j < 2);
        if ((sz == 4 || sz == 5) && !inplane) return;
        M2<3> m = E2<3>(i, j); if (sz == 4 || sz == 6) m = (m + m.transpose()).eval();
        std::vector<double> v(sz, 0.0); M2<3> r; convertMatrixToMgis(m, v); convertMatrixFromMgis(v, r);
        same<3>(r, m, "unpack-pack", mc::str(sz));
    });
    for (size_t n : {4, 5, 6, 9}) for (size_t b = 0; b < n * n; b++) mc::scenario(mc::str("tangent:", n, ":", b), [&]{
        std::vector<double> K(n * n, 0.0); K[b] = 1;
        static_tensor<double, 3> t; convertTensorFromMgis(K, t);
        for (size_t c = 0; c < n; c++) {
            std::vector<double> e(n, 0.0), s(n, 0.0); e[c] = 1;
            M2<3> E; convertMatrixFromMgis(e, E);
            M2<3> S = tm_prod<double, 3>(t, E);
            convertMatrixToMgis(S, s);
            if (n == 4 || n == 6) mc::check((S - S.transpose()).norm() < 1e-14, "tangent-symmetric");
            for (size_t r = 0; r < n; r++) mc::near(s[r], K[r * n + c], 1e-13, "tangent-action", mc::str("row ", r, " column ", c));
        }
        // no other coefficient is set
        mc::near(t.squaredNorm(), 1.0, 1e-13, "tangent-isometry");
    });
    for (size_t n = 0; n < 90; n++) mc::scenario(mc::str("size:", n), [&]{
        std::vector<double> v(n, 1.0); M2<3> m = M2<3>::Zero(); static_tensor<double, 3> t;
        bool mok = n == 4 || n == 5 || n == 6 || n == 9, tok = n == 16 || n == 25 || n == 36 || n == 81;
        bool a = false, b = false, c = false;
        try { convertMatrixFromMgis(v, m); } catch (const std::runtime_error&) { a = true; }
        try { convertMatrixToMgis(m, v); } catch (const std::runtime_error&) { b = true; }
        try { convertTensorFromMgis(v, t); } catch (const std::runtime_error&) { c = true; }
        mc::check(a == !mok && b == !mok && c == !tok, "size-refused");
    });
}

template<int D> static M2<D> inverse(const M2<D>& F, double& det)
{
    M2<D> r;
    if constexpr (D == 2) { det = F(0, 0) * F(1, 1) - F(0, 1) * F(1, 0); r << F(1, 1), -F(0, 1), -F(1, 0), F(0, 0); }
    else {
        auto c = [&](int i, int j) { int a = (i + 1) % 3, b = (i + 2) % 3, p = (j + 1) % 3, q = (j + 2) % 3; return F(a, p) * F(b, q) - F(a, q) * F(b, p); };
        det = F(0, 0) * c(0, 0) + F(0, 1) * c(0, 1) + F(0, 2) * c(0, 2);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(j, i) = c(i, j);
    }
    if (det != 0) r /= det;
    return r;
}
template<int D> static void kinematics(const std::vector<double>& alpha, bool alldirs)
{
    using namespace disk::mechanics;
    std::vector<int> ix(D * D, 0);
    while (true) {
        M2<D> G; for (int i = 0; i < D * D; i++) G(i / D, i % D) = alpha[ix[i]];
        std::string id = mc::str("kin", D, ":"); for (int i : ix) id += mc::str(alpha[i], ",");
        mc::scenario(id, [&]{
            M2<D> I = M2<D>::Identity(), F = G + I;
            same<D>(convertGtoF<double, D>(G), F, "GtoF", ""); same<D>(convertFtoG<double, D>(F), G, "FtoG", "");
            M2<D> C = F.transpose() * F, b = F * F.transpose(), E = 0.5 * (G + G.transpose() + G.transpose() * G);
            same<D>(convertFtoCauchyGreenRight<double, D>(F), C, "FtoC", ""); same<D>(convertGtoCauchyGreenRight<double, D>(G), C, "GtoC", "");
            same<D>(convertFtoCauchyGreenLeft<double, D>(F), b, "Ftob", ""); same<D>(convertGtoCauchyGreenLeft<double, D>(G), b, "Gtob", "");
            same<D>(convertCauchyGreenRighttoGreenLagrange<double, D>(C), E, "CtoE", ""); same<D>(convertFtoGreenLagrange<double, D>(F), E, "FtoE", ""); same<D>(convertGtoGreenLagrange<double, D>(G), E, "GtoE", "");
            same<D>(convertGtoLinearizedStrain<double, D>(G), M2<D>(0.5 * (G + G.transpose())), "GtoEps", "");
            double J; M2<D> Fi = inverse<D>(F, J);
            if (std::abs(J) < 0.1) return;
            mc::count("invertible");
            for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) {
                if (!alldirs && (i + j) % 2) continue;
                M2<D> P = E2<D>(i, j);
                M2<D> S = Fi * P, s = P * F.transpose() / J;
                same<D>(convertPK1toPK2<double, D>(P, F), S, "PK1toPK2", "", 1e-10); same<D>(convertPK1toCauchy<double, D>(P, F), s, "PK1toCauchy", "", 1e-10);
                same<D>(convertPK2toPK1<double, D>(P, F), F * P, "PK2toPK1", "", 1e-10);
                same<D>(convertPK2toCauchy<double, D>(P, F), F * P * F.transpose() / J, "PK2toCauchy", "", 1e-10);
                same<D>(convertCauchytoPK1<double, D>(P, F), J * P * Fi.transpose(), "CauchytoPK1", "", 1e-10);
                same<D>(convertCauchytoPK2<double, D>(P, F), J * Fi * P * Fi.transpose(), "CauchytoPK2", "", 1e-10);
                same<D>(convertCauchytoPK1<double, D>(convertPK2toCauchy<double, D>(convertPK1toPK2<double, D>(P, F), F), F), P, "stress-cycle", "", 1e-9);
            }
            if constexpr (D == 3) {
                M2<3> s = G; double tr = s.trace() / 3, q = 0;
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = s(i, j) - (i == j ? tr : 0); q += d * d; }
                mc::near(VonMisesCriteria<double, 3>(s), std::sqrt(1.5 * q), 1e-12, "von-mises", "");
            }
        });
        int i = 0; while (i < D * D && ++ix[i] == (int)alpha.size()) ix[i++] = 0;
        if (i == D * D) break;
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    algebra<2>(); algebra<3>(); threeD(); packing();
    kinematics<2>({-2, -1, -0.5, 0, 0.5, 1, 2}, true);
    if (mc::thorough()) kinematics<3>({-1, 0, 0.5, 2}, true); else kinematics<3>({-1, 0, 0.5}, false);
    return mc::finish();
}
