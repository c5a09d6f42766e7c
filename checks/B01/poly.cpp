// Scalar bases on every lattice polygon and polyhedron as a single cell (nonconvex, hanging vertices, thin).
// MC: libs=jburkardt triangle
#include "common.hpp"
#include "lattice.hpp"
#include "hull3.hpp"
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto L = lattice(3, 3); int nmax = th ? 6 : 5; const size_t stride[] = {1, 7, 7};
    for (int sc = 0; sc < 3; sc++) for (int n = 3; n <= nmax; n++) mc::scenario(mc::str("polygons:", sc, ":", n), [&]{ size_t c = 0; polygons(L, n, [&](const std::vector<IP>& idx) { c++; if (c % stride[sc]) return; std::vector<P2> pts; std::vector<size_t> pl; for (size_t i = 0; i < idx.size(); i++) { auto& q = idx[i]; pl.push_back(i); double x = q[0], y = q[1]; pts.push_back(sc == 0 ? P2(x, y) : sc == 1 ? P2(1e-3 * x + 7, 1e-3 * y - 5) : P2(x + 0.3 * y, 0.02 * y)); } gen2 m; poly2(m, pts, {pl}); cells_and_faces(mc::str("polygon ", sc, ":", n, ":", c), m, th ? 6 : 4); }); });
    struct { int x, y, z; unsigned parts; } ls[] = {{2, 2, 2, 4}, {2, 2, 3, 16}};
    for (auto& l : ls) { if (l.z > 2 && !th) continue; auto L3 = lattice3(l.x, l.y, l.z); unsigned N = 1u << L3.size(); for (int sc = 0; sc < 2; sc++) for (unsigned part = 0; part < l.parts; part++) mc::scenario(mc::str("hulls:", L3.size(), ":", sc, ":", part), [&]{
        hulls(L3, N / l.parts * part, N / l.parts * (part + 1), [&](unsigned mask, const hull& H) { std::vector<P3> pts; for (auto& q : H.pts) { double x = q[0], y = q[1], z = q[2]; pts.push_back(sc == 0 ? P3(x, y, z) : P3(x + 0.5 * z, 0.1 * y - 0.2 * x + 3., z + 0.05 * y)); }
            std::vector<size_t> all; for (size_t i = 0; i < H.faces.size(); i++) all.push_back(i); gen3 m; poly3(m, pts, H.faces, {all}); cells_and_faces(mc::str("hull ", mask, ":", sc), m, l.z > 2 ? 2 : th ? 4 : 3); }, l.z > 2 ? 7 : 99); }); }
    return mc::finish();
}
