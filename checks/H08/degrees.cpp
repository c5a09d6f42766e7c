// Degree bookkeeping: all triples, all setter histories, all per-face maps.
// MC: libs=jburkardt triangle
#include "meshes.hpp"
#include "diskpp/methods/hho"
using namespace disk;
static size_t binom(size_t n, size_t k) { size_t r = 1; for (size_t i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static bool adm(size_t cd, size_t fd) { return cd == fd || cd == fd + 1 || cd + 1 == fd; }
struct DI { size_t c, f, g, r; };
static void same(const hho_degree_info& h, const DI& m, const std::string& w)
{
    mc::check(h.cell_degree() == m.c && h.face_degree() == m.f && h.grad_degree() == m.g && h.reconstruction_degree() == m.r, "degree-info",
              w + mc::str(" -> cell ", h.cell_degree(), " face ", h.face_degree(), " grad ", h.grad_degree(), " rec ", h.reconstruction_degree(), " expected ", m.c, m.f, m.g, m.r));
    mc::state(mc::str("di", m.c, ",", m.f, ",", m.g, ",", m.r));
}
static void setters(hho_degree_info h, DI m, const std::string& w, int left)
{
    same(h, m, w);
    if (!left) { mc::trace(); return; }
    for (size_t k : {0, 1, 3, 6}) {
        { auto x = h; auto n = m; x.cell_degree(k); n.c = k; setters(x, n, w + mc::str(" cell=", k), left - 1); }
        { auto x = h; auto n = m; x.face_degree(k); n.f = k; setters(x, n, w + mc::str(" face=", k), left - 1); }
        { auto x = h; auto n = m; x.reconstruction_degree(k); n.r = k; setters(x, n, w + mc::str(" rec=", k), left - 1); }
    }
}
template<typename M> static void sizes(const char* nm, const M& msh)
{
    constexpr size_t D = M::dimension;
    for (size_t c = 0; c < 4; c++) for (size_t f = 0; f < 4; f++)
        mc::scenario(mc::str("sizes:", nm, ":", c, ":", f), [&]{
            MeshDegreeInfo<M> md(msh, c, f), m3(msh, c, f, f + 1), m1(msh, c);
            size_t fb = binom(f + D - 1, D - 1), cb = binom(c + D, D);
            for (auto& cl : msh) {
                auto ci = md.cellDegreeInfo(msh, cl); auto c3 = m3.cellDegreeInfo(msh, cl); auto c1 = m1.cellDegreeInfo(msh, cl);
                CellDegreeInfo<M> d2(msh, cl, c, f), d3(msh, cl, c, f, f + 1), d1(msh, cl, c);
                auto eq = [&](const CellDegreeInfo<M>& a, const CellDegreeInfo<M>& b) {
                    auto fa = a.facesDegreeInfo(), fb = b.facesDegreeInfo(); bool r = fa.size() == fb.size() && fa.size() == howmany_faces(msh, cl);
                    for (size_t i = 0; r && i < fa.size(); i++) r = fa[i].degree() == fb[i].degree() && fa[i].hasUnknowns() == fb[i].hasUnknowns();
                    return r && a.cell_degree() == b.cell_degree() && a.grad_degree() == b.grad_degree() && a.reconstruction_degree() == b.reconstruction_degree() && a.cell_hasUnknowns() == b.cell_hasUnknowns(); };
                mc::check(eq(ci, d2) && eq(c3, d3) && eq(c1, d1), "cell-vs-mesh-info", nm);
                mc::check(ci.cell_degree() == c && ci.grad_degree() == f && ci.reconstruction_degree() == f + 1 && c3.grad_degree() == f + 1 && c1.grad_degree() == c && c1.reconstruction_degree() == c + 1, "cell-info", nm);
                size_t nf = howmany_faces(msh, cl);
                mc::check(faces(msh, cl).size() == nf && faces_id(msh, cl).size() == nf, "faces", nm);
                mc::check(scalar_faces_dofs(msh, cl, md) == nf * fb && scalar_faces_dofs(msh, ci.facesDegreeInfo()) == nf * fb, "scalar-faces-dofs", nm);
                if constexpr (D > 1) mc::check(vector_faces_dofs(msh, cl, md) == D * nf * fb && vector_faces_dofs(msh, ci.facesDegreeInfo()) == D * nf * fb, "vector-faces-dofs", nm);
                mc::check(make_scalar_monomial_basis(msh, cl, c).size() == cb && scalar_basis_size(c, D) == cb, "cell-basis", nm);
                if constexpr (D > 1) {
                    mc::check(make_vector_monomial_basis(msh, cl, c).size() == D * cb && vector_basis_size(c, D, D) == D * cb, "cell-vector-basis", nm);
                    mc::check(make_matrix_monomial_basis(msh, cl, c).size() == D * D * cb && matrix_basis_size(c, D, D) == D * D * cb, "cell-matrix-basis", nm);
                    mc::check(make_sym_matrix_monomial_basis(msh, cl, c).size() == D * (D + 1) / 2 * cb && sym_matrix_basis_size(c, D, D) == D * (D + 1) / 2 * cb, "cell-sym-matrix-basis", nm);
                }
                for (auto& fc : faces(msh, cl)) {
                    if constexpr (D > 1) mc::check(make_scalar_monomial_basis(msh, fc, f).size() == fb && scalar_basis_size(f, D - 1) == fb, "face-basis", nm);
                    if constexpr (D > 1) mc::check(make_vector_monomial_basis(msh, fc, f).size() == D * fb && vector_basis_size(f, D - 1, D) == D * fb, "face-vector-basis", nm);
                    mc::check(scalar_face_dofs(msh, md.degreeInfo(msh, fc)) == fb, "face-dofs", nm);
                }
            }
        });
}
// every map (degree 0..2 or no unknowns) over the faces of one cell, reached by setters
template<typename M> static void facemaps(const char* nm, const M& msh, size_t nv)
{
    constexpr size_t D = M::dimension;
    auto cl = *msh.cells_begin(); auto fcs = faces(msh, cl); size_t nf = fcs.size();
    size_t tot = 1; for (size_t i = 0; i < nf; i++) tot *= nv;
    mc::scenario(mc::str("facemaps:", nm), [&]{
        for (size_t code = 0; code < tot; code++) for (int route = 0; route < 2; route++) {
            MeshDegreeInfo<M> md(msh, 1, 1, 1);
            size_t q = code, exp = 0; std::vector<size_t> off, offv; std::string w = mc::str(nm, " map ", code, " route ", route);
            for (size_t i = 0; i < nf; i++, q /= nv) {
                size_t v = q % nv;      // v == nv-1: no unknowns
                bool has = v + 1 < nv;
                if (route) md.degreeInfo(msh, fcs[i], has ? DegreeInfo(v) : DegreeInfo(false, 2));
                else { md.hasUnknowns(msh, fcs[i], has); md.degree(msh, fcs[i], has ? v : 2); }
                off.push_back(exp); offv.push_back(D * exp); if (has) exp += binom(v + D - 1, D - 1);
                mc::check(md.hasUnknowns(msh, fcs[i]) == has && md.degree(msh, fcs[i]) == (has ? v : 2), "face-setter", w);
            }
            mc::check(scalar_faces_dofs(msh, cl, md) == exp && scalar_faces_dofs(msh, md.cellDegreeInfo(msh, cl).facesDegreeInfo()) == exp, "mixed-scalar-dofs", w);
            mc::check(scalar_faces_offset(msh, cl, md) == off, "scalar-offsets", w);
            mc::check(vector_faces_dofs(msh, cl, md) == D * exp, "mixed-vector-dofs", w);
            mc::check(vector_faces_offset(msh, cl, md) == offv, "vector-offsets", w);
            size_t dd = 0; for (auto& fi : md.cellDegreeInfo(msh, cl).facesDegreeInfo()) dd += std::max(binom(1 + D - 1, D - 1), fi.hasUnknowns() ? binom(fi.degree() + D - 1, D - 1) : size_t(0));
            mc::check(scalar_diff_dofs(msh, md.cellDegreeInfo(msh, cl)) == dd, "diff-dofs", w);
            mc::state(w);
            // no other face and no cell is affected
            for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) if (std::find(fcs.begin(), fcs.end(), *it) == fcs.end()) mc::check(md.degree(msh, *it) == 1 && md.hasUnknowns(msh, *it), "other-face", w);
            size_t k = 0; for (auto& c : msh) { md.degree(msh, c, k + 1); md.degreeInfo(msh, c, DegreeInfo(k % 2 == 0, k)); k++; }
            k = 0; for (auto& c : msh) { mc::check(md.degree(msh, c) == k && md.hasUnknowns(msh, c) == (k % 2 == 0) && md.cellDegreeInfo(msh, c).cell_degree() == k, "cell-setter", w); k++; }
            mc::check(scalar_faces_dofs(msh, cl, md) == exp, "cell-setter-on-faces", w);
            mc::check(md.faces_degree().size() == msh.faces_size() && md.cells_degree().size() == msh.cells_size(), "table-size", w);
        }
    });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const size_t N = mc::thorough() ? 12 : 8;
    for (size_t c = 0; c < N; c++) mc::scenario(mc::str("triples:", c), [&]{
        same(hho_degree_info(c), {c, c, c, c + 1}, mc::str("(", c, ")"));
        for (size_t f = 0; f < N; f++) {
            std::string w = mc::str("(", c, ",", f, ")");
            DI e = adm(c, f) ? DI{c, f, f, f + 1} : DI{f, f, f, f + 1};
            same(hho_degree_info(c, f), e, w);
            hho_degree_info(c, f).info_degree();
            for (size_t g = 0; g < N; g++) {
                same(hho_degree_info(c, f, g), adm(c, f) && g >= f ? DI{c, f, g, f + 1} : DI{f, f, f, f + 1}, mc::str("(", c, ",", f, ",", g, ")"));
                same(hho_degree_info(priv::hdi_named_args{.rd = g, .cd = c, .fd = f}), {c, f, f, g}, mc::str("named rd ", g, " cd ", c, " fd ", f));
            }
        }
    });
    mc::scenario("setters", [&]{ same(hho_degree_info(), {1, 1, 1, 2}, "()"); setters(hho_degree_info(1, 2), {1, 2, 2, 3}, "(1,2)", mc::thorough() ? 4 : 3); });
    mm::catalogue1([](const char* n, auto& m) { sizes(n, m); });
    mm::catalogue2([](const char* n, auto& m) { sizes(n, m); });
    mm::catalogue3([](const char* n, auto& m) { sizes(n, m); });
    mm::catalogue2([](const char* n, auto& m) { facemaps(n, m, mc::thorough() ? 4 : 3); });
    mm::catalogue3([](const char* n, auto& m) { facemaps(n, m, 3); });
    return mc::finish();
}
