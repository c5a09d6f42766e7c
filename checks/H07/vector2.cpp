// Vector Laplacian and linear elasticity solvers on 2D meshes.
// MC: libs=jburkardt triangle
// MC: cpu=800
// MC: shards=2
#include "solvevector.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); int fd = th ? 3 : 2;
    auto go = [&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ solve_vector(nm, m, 0, fd, th ? 64 : 2, 1e-8); }); };
    small_meshes<false, 2>(go); catalogue2(go, true);
    auto deg = [&](const std::string& nm, auto& m) { mc::scenario(nm + " degrees", [&]{ solve_degrees(nm, m, th ? 2 : 1, th, 1e-8); }); };
    small_meshes<false, 2>(deg); catalogue2(deg, false);
    return mc::finish();
}
