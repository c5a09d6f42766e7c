// The classic interface: mass, stiffness, right-hand sides and projections.
// MC: libs=jburkardt triangle
#include "common.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); const double tol = 1e-10;
    catalogue1([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ older(nm, m, th ? 6 : 4, 0, tol); }); });
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ older(nm, m, th ? 4 : 3, th ? 3 : 2, tol); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ older(nm, m, th ? 3 : 2, 1, tol); }); }, th);
    auto L = lattice(3, 3);
    for (int n = 3; n <= (th ? 6 : 5); n++) for (int part = 0; part < 4; part++) mc::scenario(mc::str("polygons:", n, ":", part), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (c % 4 != size_t(part) || (!th && c % 3)) return; std::vector<P2> pts; std::vector<size_t> pl; for (size_t i = 0; i < idx.size(); i++) pl.push_back(i), pts.push_back(c % 2 ? P2(idx[i][0], idx[i][1]) : P2(0.1 * idx[i][0] + 0.03 * idx[i][1] + 2, 0.05 * idx[i][1] - 3)); gen2 m; poly2(m, pts, {pl}); older(mc::str("polygon ", n, ":", c), m, 2, 1, tol); }); });
    for (unsigned part = 0; part < 8; part++) mc::scenario(mc::str("hulls:", part), [&]{ auto L3 = lattice3(2, 2, 2); hulls(L3, 32 * part, 32 * (part + 1), [&](unsigned mask, const hull& H) { std::vector<P3> pts; for (auto& q : H.pts) pts.push_back(mask % 2 ? P3(q[0], q[1], q[2]) : P3(q[0] + 0.5 * q[2], 0.5 * q[1] - 0.2 * q[0] + 3., q[2] + 0.05 * q[1])); std::vector<size_t> idf; for (size_t i = 0; i < H.faces.size(); i++) idf.push_back(i); gen3 m; poly3(m, pts, H.faces, {idf}); older(mc::str("hull ", mask), m, th ? 2 : 1, 1, tol); }, 99); });
    // evaluation helpers
    mc::scenario("eval", [&]{ disk::dynamic_vector<double> d(3), f(3); d << 1, -2, 0.5; f << 2, 3, 4; mc::check(disk::eval(d, f) == -2, "eval-scalar", "dot"); Eigen::Matrix<double, Eigen::Dynamic, 2> v(3, 2); v << 1, 2, 3, 4, 5, 6; auto r = disk::eval(d, v); mc::check(r(0) == 1 - 6 + 2.5 && r(1) == 2 - 8 + 3, "eval-vector", "combination");
        Eigen::Matrix<double, 2, 2> K; K << 1, 2, -3, 4; auto t = disk::eval(d, K, v); mc::check((t - K * r).norm() < 1e-14, "eval-tensor", "K times combination");
        disk::eigen_compatible_stdvector<disk::static_matrix<double, 2, 2>> B; for (int i = 0; i < 4; i++) { disk::static_matrix<double, 2, 2> x; x << i, i * i, 1, -i; B.push_back(x); } disk::dynamic_vector<double> d4(4); d4 << 1, 2, 3, 4; disk::static_matrix<double, 2, 2> R = disk::eval(d4, B), R1 = disk::eval(d, B, size_t(1)), e = 1 * B[0] + 2 * B[1] + 3 * B[2] + 4 * B[3], e1 = 1 * B[1] - 2 * B[2] + 0.5 * B[3]; mc::check((R - e).norm() < 1e-14 && (R1 - e1).norm() < 1e-14, "eval-matrix", "combination"); auto tr = disk::trace(B); bool ok = tr.size() == 4; for (int i = 0; i < 4 && ok; i++) ok = tr(i) == B[i].trace(); mc::check(ok, "trace", "of every function"); mc::trace(); });
    return mc::finish();
}
