// Scalar bases of high degree on a few elements of every storage kind.
// MC: libs=jburkardt triangle
#include "common.hpp"
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    auto one = [](const std::string& nm, auto& m, size_t kmax) { if (m.cells_size() > 4) return; mc::scenario("high:" + nm, [&]{ cells_and_faces(nm, m, kmax); }); };
    catalogue1([&](const std::string& nm, auto& m) { one(nm, m, 12); });
    catalogue2([&](const std::string& nm, auto& m) { one(nm, m, th ? 12 : 10); });
    catalogue3([&](const std::string& nm, auto& m) { one(nm, m, th ? 8 : 6); });
    return mc::finish();
}
