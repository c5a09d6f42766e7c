// Poisson and diffusion solvers on 1D and 2D meshes.
// MC: libs=jburkardt triangle
// MC: cpu=800
#include "solvescalar.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); int fd = th ? 3 : 2;
    auto go = [&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ solve_scalar(nm, m, fd, th ? 300 : 81, 1e-8); }); };
    small_meshes<true, 2>(go); catalogue1(go); catalogue2(go, true);
    return mc::finish();
}
