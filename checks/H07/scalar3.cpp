// Poisson and diffusion solvers on 3D meshes.
// MC: libs=jburkardt triangle
// MC: cpu=800
#include "solvescalar.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); int fd = th ? 2 : 1;
    auto go = [&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ solve_scalar(nm, m, fd, th ? 300 : 81, 1e-8); }); };
    small_meshes<false, 3>(go); catalogue3(go, true);
    return mc::finish();
}
