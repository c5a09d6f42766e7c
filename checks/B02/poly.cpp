// Vector and matrix bases on lattice polygons, triangles, tetrahedra and polyhedra.
// MC: libs=jburkardt triangle
#include "common.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto L = lattice(3, 3); const size_t stride[] = {3, 7, 7};
    auto place = [](int sc, double x, double y) { return sc == 0 ? P2(x, y) : sc == 1 ? P2(1e-3 * x + 7, 1e-3 * y - 5) : P2(x + 0.3 * y, 0.02 * y); };
    for (int sc = 0; sc < 3; sc++) for (int n = 3; n <= (th ? 6 : 5); n++) mc::scenario(mc::str("polygons:", sc, ":", n), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (n > 3 && !th && c % stride[sc]) return; std::vector<P2> pts; std::vector<size_t> pl; for (size_t i = 0; i < idx.size(); i++) pl.push_back(i), pts.push_back(place(sc, idx[i][0], idx[i][1])); gen2 m; poly2(m, pts, {pl}); std::string w = mc::str("polygon ", sc, ":", n, ":", c); cell_bases(w, m, th ? 3 : 2, th ? 2 : 1, 3); if (c % 5 == 0) face_bases(w, m, 3);
            if (n == 3) { tri2 t; std::vector<std::array<size_t, 3>> tt; tt.push_back({0, 1, 2}); tris(t, pts, tt); cell_bases(w + " simplicial", t, 1, 1, th ? 6 : 4); } }); });
    // every tetrahedron of the 2x2x2 (3x2x2) lattice
    auto LT = lattice3(th ? 3 : 2, 2, 2); for (int sc = 0; sc < 2; sc++) for (size_t a = 0; a < LT.size(); a++) mc::scenario(mc::str("tets:", sc, ":", a), [&]{ for (size_t b = a + 1; b < LT.size(); b++) for (size_t c = b + 1; c < LT.size(); c++) for (size_t d = c + 1; d < LT.size(); d++) { size_t v[4] = {a, b, c, d}; std::vector<P3> pts; for (size_t i : v) { double x = LT[i][0], y = LT[i][1], z = LT[i][2]; pts.push_back(sc ? P3(1e-2 * x + 3e-3 * z + 2., 1e-2 * y - 1., 2e-3 * z) : P3(x, y, z)); }
            auto e = [&](int i) { return Eigen::Vector3d((pts[i] - pts[0]).to_vector()); }; if (std::abs(e(1).dot(e(2).cross(e(3)))) < 1e-12) continue; tet3 m; std::vector<std::array<size_t, 4>> tt; tt.push_back({0, 1, 2, 3}); tets(m, pts, tt); std::string w = mc::str("tet ", sc, ":", a, ".", b, ".", c, ".", d); cell_bases(w, m, 1, 1, th ? 5 : 3); face_bases(w, m, 2); } });
    struct { int x, y, z; unsigned parts; } ls[] = {{2, 2, 2, 4}, {2, 2, 3, 16}};
    for (auto& l : ls) { if (l.z > 2 && !th) continue; auto L3 = lattice3(l.x, l.y, l.z); unsigned N = 1u << L3.size(); for (unsigned part = 0; part < l.parts; part++) mc::scenario(mc::str("hulls:", L3.size(), ":", part), [&]{
        hulls(L3, N / l.parts * part, N / l.parts * (part + 1), [&](unsigned mask, const hull& H) { std::vector<P3> pts; for (auto& q : H.pts) { double x = q[0], y = q[1], z = q[2]; pts.push_back(mask % 2 ? P3(x, y, z) : P3(x + 0.5 * z, 0.1 * y - 0.2 * x + 3., z + 0.05 * y)); }
            std::vector<size_t> idf; for (size_t i = 0; i < H.faces.size(); i++) idf.push_back(i); gen3 m; poly3(m, pts, H.faces, {idf}); std::string w = mc::str("hull ", mask); cell_bases(w, m, 1, 1, 2); face_bases(w, m, l.z > 2 ? 2 : 3); }, l.z > 2 ? 7 : 99); }); }
    // faces with aligned vertices in every position
    mc::scenario("hanging-vertices", [&]{ for (int mask = 0; mask < 16; mask++) for (int rot = 0; rot < 8; rot++) for (int flip = 0; flip < 2; flip++) { const double q[4][2] = {{0, 0}, {2, 0}, {2, 1}, {0, 1}}; std::vector<P3> base; for (int i = 0; i < 4; i++) { base.push_back(P3(q[i][0], q[i][1], 0.)); if (mask & (1 << i)) base.push_back(P3(0.5 * (q[i][0] + q[(i + 1) % 4][0]), 0.5 * (q[i][1] + q[(i + 1) % 4][1]), 0.)); }
            size_t n = base.size(); if (rot >= int(n)) continue; std::vector<P3> pts; std::vector<size_t> order; for (size_t i = 0; i < n; i++) order.push_back((i + rot) % n); if (flip) std::reverse(order.begin(), order.end()); for (size_t i : order) pts.push_back(base[i]); pts.push_back(P3(0.7, 0.4, 1.5));
            std::vector<std::vector<size_t>> fs; std::vector<size_t> bot; for (size_t i = 0; i < n; i++) bot.push_back(i); fs.push_back(bot); for (size_t i = 0; i < n; i++) fs.push_back({i, (i + 1) % n, n}); std::vector<size_t> idf; for (size_t i = 0; i < fs.size(); i++) idf.push_back(i); gen3 m; poly3(m, pts, fs, {idf}); face_bases(mc::str("hanging ", mask, " from ", rot, flip ? " reversed" : ""), m, 2); } });
    return mc::finish();
}
