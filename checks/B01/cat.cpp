// Scalar bases on the catalogue meshes and every generated mesh.
// MC: libs=jburkardt triangle
#include "common.hpp"
#include "gens.hpp"
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    catalogue1([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ cells_and_faces(nm, m, th ? 8 : 5); }); });
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ cells_and_faces(nm, m, th ? 8 : 6); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ cells_and_faces(nm, m, th ? 5 : 3); }); }, th);
    generated([&](const std::string& nm, auto mk) { mc::scenario(nm, [&]{ mk([&](auto& m, const auto&, auto...) { if (m.cells_size() <= size_t(th ? 200 : 40)) cells_and_faces(nm, m, 2); }); }); });
    return mc::finish();
}
