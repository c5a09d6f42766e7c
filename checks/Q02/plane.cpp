// integrate() on every cell and face of planar and 1D meshes: catalogue, generator histories.
// MC: libs=jburkardt triangle
#include "gens.hpp"
#include "integ.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    catalogue1([&](const char* n, auto& m) { mc::scenario(mc::str("mesh:", n), [&]{ mc::state(n); integrates(n, m, 39, 3, 1); }); });
    catalogue2([&](const char* n, auto& m) { using M = std::decay_t<decltype(m)>; bool quad = std::is_same_v<M, car2>; for (int s = 0; s < 3; s++) mc::scenario(mc::str("mesh:", n, ":", s), [&]{ M c; if constexpr (std::is_same_v<M, gen2>) polycopy2(m, c, s); else c = m; double A[3][4] = {{1, 0, 0, 1}, {0.5, 0, 0, -0.75}, {0.3, quad ? 0 : 0.2, quad ? 0 : -0.1, 0.4}}; if (s) { M k; k = c; k.transform([&](const P2& p) { return P2(A[s][0] * p.x() + A[s][1] * p.y(), A[s][2] * p.x() + A[s][3] * p.y()); }); } mc::state(mc::str(n, s)); integrates(mc::str(n, " map ", s), c, quad ? 39 : 24, 39, 1); }); }, true);
    catalogue2([&](const char* n, auto& m) { mc::scenario(mc::str("polycopy:", n), [&]{ for (size_t r = 0; r < 4; r++) { gen2 g; polycopy2(m, g, r); mc::state(mc::str(n, " polygons ", r)); integrates(mc::str(n, " polygons ", r), g, 20, 10, 1); } }); }, true);
    generated([&](const std::string& nm, auto mk) { mc::scenario(nm, [&]{ mk([&](auto& m, const auto&, counts) { using M = std::decay_t<decltype(m)>; if constexpr (M::dimension <= 2) { if (!th && m.cells_size() > 200) return; mc::state(nm); double s = 0; for (auto it = m.points_begin(); it != m.points_end(); ++it) for (size_t k = 0; k < M::dimension; k++) s = std::max(s, std::abs((*it)[k])); integrates(nm, m, 5, 5, std::pow(std::max(1.0, s), 4)); } }); }); });
    return mc::finish();
}
