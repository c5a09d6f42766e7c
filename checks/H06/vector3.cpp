// Vector face-unknown assemblers on 3D meshes: every condition type on the boundary faces, linear and incremental assembly.
// MC: libs=jburkardt triangle
#include "vecasmrun.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    for (int fd = 0; fd <= (th ? 2 : 1); fd++) small_meshes<false, 3>([&](const std::string& nm, auto& m) { mc::scenario(nm + mc::str(":", fd), [&]{ run(nm, m, fd, th); }); });
    return mc::finish();
}
