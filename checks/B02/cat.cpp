// Vector and matrix bases on the catalogue and generated meshes.
// MC: libs=jburkardt triangle
#include "common.hpp"
#include "gens.hpp"
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    catalogue2([&](const std::string& nm, auto& m) { mc::scenario("cells:" + nm, [&]{ cell_bases(nm, m, th ? 6 : 4, th ? 4 : 3, th ? 5 : 4); }); mc::scenario("faces:" + nm, [&]{ face_bases(nm, m, th ? 7 : 5); }); }, th);
    catalogue3([&](const std::string& nm, auto& m) { mc::scenario("cells:" + nm, [&]{ cell_bases(nm, m, th ? 3 : 2, th ? 2 : 1, th ? 4 : 3); }); mc::scenario("faces:" + nm, [&]{ face_bases(nm, m, th ? 4 : 3); }); }, th);
    generated([&](const std::string& nm, auto mk) { mc::scenario(nm, [&]{ mk([&](auto& m, const auto&, auto...) { if constexpr (std::decay_t<decltype(m)>::dimension > 1) if (m.cells_size() <= size_t(th ? 100 : 20)) { cell_bases(nm, m, 1, 1, 2); face_bases(nm, m, 2); } }); }); });
    mc::scenario("sizes", [&]{ for (size_t k = 0; k <= 10; k++) for (size_t sd = 1; sd <= 3; sd++) for (size_t vd = 1; vd <= 3; vd++) { std::string w = mc::str("degree ", k, " in dimension ", sd, " components ", vd); size_t n = binom(k + sd, sd); mc::check(disk::scalar_basis_size(k, sd) == n && disk::vector_basis_size(k, sd, vd) == n * vd && disk::matrix_basis_size(k, sd, vd) == n * vd * vd, "size-function", w);
        bool thrown = false; size_t s = 0; try { s = disk::sym_matrix_basis_size(k, sd, vd); } catch (const std::logic_error&) { thrown = true; } if (vd > 1) mc::check(!thrown && s == n * vd * (vd + 1) / 2, "sym-size-function", w); else mc::check(thrown, "sym-size-refused", w); mc::trace(); } });
    return mc::finish();
}
