// Vector Laplacian and linear elasticity solvers on 3D meshes.
// MC: libs=jburkardt triangle
// MC: cpu=800
// MC: shards=4
#include "solvevector.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); int fd = th ? 2 : 1;
    auto go = [&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ solve_vector(nm, m, 0, fd, th ? 64 : 2, 1e-8); }); };
    small_meshes<false, 3>(go); catalogue3(go, true);
    auto deg = [&](const std::string& nm, auto& m) { mc::scenario(nm + " degrees", [&]{ solve_degrees(nm, m, 1, th, 1e-8); }); };
    small_meshes<false, 3>(deg);
    return mc::finish();
}
