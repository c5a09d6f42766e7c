// integrate() on every cell and face of solid meshes: catalogue, generator histories, lattice hulls, lattice tetrahedra.
// MC: libs=jburkardt triangle
#include "gens.hpp"
#include "integ.hpp"
#include "hull3.hpp"
using namespace mm;
// the tetrahedra a cell is split in
template<typename M> static void split(const std::string& w, const M& m)
{
    for (auto& cl : m) { moments<3> mo(3), s(3); cell_moments(m, cl, mo); for (auto& t : split_in_raw_tetrahedra(m, cl)) { auto p = t.points(); double v = std::abs((p[1] - p[0]).to_vector().dot((p[2] - p[0]).to_vector().cross((p[3] - p[0]).to_vector()))) / 6; s.simplex<P3>({p[0], p[1], p[2], p[3]}, v); mc::near(measure(t), v, 1e-13, "tetrahedron-measure", w); }
        for (size_t i = 0; i < mo.al.size(); i++) if (std::abs(mo.m[i] - s.m[i]) > 1e-12 * std::max(1.0L, std::abs(mo.m[i]))) { mc::check(false, "split-tetrahedra", mc::str(w, " ", mo.name(i))); break; }
        for (auto& fc : faces(m, cl)) { moments<3> f(3), g(3); face_moments(m, fc, f); for (auto& t : split_in_raw_triangles(m, fc)) { auto p = t.points(); double v = (p[1] - p[0]).to_vector().cross((p[2] - p[0]).to_vector()).norm() / 2; g.simplex<P3>({p[0], p[1], p[2]}, v); mc::near(measure(t), v, 1e-13, "triangle-measure", w); } for (size_t i = 0; i < f.al.size(); i++) if (std::abs(f.m[i] - g.m[i]) > 1e-12 * std::max(1.0L, std::abs(f.m[i]))) { mc::check(false, "split-triangles", mc::str(w, " ", f.name(i))); break; } } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    catalogue3([&](const char* n, auto& m) { using M = std::decay_t<decltype(m)>; bool box = std::is_same_v<M, car3>; for (int s = 0; s < 3; s++) mc::scenario(mc::str("mesh:", n, ":", s), [&]{ if (s) m.transform([&](const P3& p) { return s == 1 ? P3(p.x(), p.y() * 0.5, p.z()) : box ? P3(-p.x(), p.y(), 0.5 * p.z()) : P3(p.x() - 0.25 * p.y(), p.y() + 0.5 * p.z(), 0.5 * p.z() - 0.25 * p.x()); }); mc::state(mc::str(n, s)); integrates(mc::str(n, " map ", s), m, box ? 12 : std::is_same_v<M, gen3> ? 9 : 15, 14, 1.5); split(n, m);
        gen3 g; polycopy(m, g); integrates(mc::str(n, " polyhedra ", s), g, 6, 6, 1.5); split(n, g); }); }, true);
    generated([&](const std::string& nm, auto mk) { mc::scenario(nm, [&]{ mk([&](auto& m, const auto&, counts) { using M = std::decay_t<decltype(m)>; if constexpr (M::dimension == 3) { if (!th && m.cells_size() > 400) return; mc::state(nm); double s = 0; for (auto it = m.points_begin(); it != m.points_end(); ++it) for (size_t k = 0; k < 3; k++) s = std::max(s, std::abs((*it)[k])); integrates(nm, m, 3, 3, std::pow(std::max(1.0, s), 3)); } }); }); });
    // lattice tetrahedra in all vertex orders, on both kinds of storage
    { auto L = lattice3(2, 2, 2); for (size_t i = 0; i < 8; i++) mc::scenario(mc::str("tet:", i), [&]{ for (size_t j = 0; j < 8; j++) for (size_t k = 0; k < 8; k++) for (size_t l = 0; l < 8; l++) { if (!det3(sub3(L[j], L[i]), sub3(L[k], L[i]), sub3(L[l], L[i]))) continue; std::vector<P3> p; for (auto q : {i, j, k, l}) p.push_back(P3(L[q][0] * 0.5, L[q][1] * 1.0, L[q][2] * 0.75 - 0.5)); std::string w = mc::str("tet ", i, j, k, l); mc::state(w); tet3 m; tets(m, p, {{0, 1, 2, 3}}); integrates(w, m, th ? 15 : 8, 8, 1); gen3 g; polycopy(m, g); integrates(w + " polyhedron", g, 5, 5, 1); } }); }
    struct LH { int n[3]; size_t maxv; unsigned parts; }; std::vector<LH> hs = th ? std::vector<LH>{{{2, 2, 2}, 8, 4}, {{3, 2, 2}, 12, 64}} : std::vector<LH>{{{2, 2, 2}, 8, 4}, {{3, 2, 2}, 6, 16}};
    for (auto& l : hs) { auto L = lattice3(l.n[0], l.n[1], l.n[2]); unsigned N = 1u << L.size(); for (unsigned part = 0; part < l.parts; part++) mc::scenario(mc::str("hull:", L.size(), ":", part), [&]{
        hulls(L, N / l.parts * part, N / l.parts * (part + 1), [&](unsigned mask, const hull& h) { mc::state(mc::str("hull", L.size(), ":", mask)); for (size_t rot = 0; rot < (L.size() > 8 ? 1u : 3u); rot++) { std::vector<P3> p; for (auto& q : h.pts) p.push_back(P3(q[0] * 0.5, q[1] + 0.25 * q[0], q[2] - 0.5)); auto fs = h.faces; std::vector<std::vector<size_t>> cells(1); size_t k = 0; for (auto& f : fs) { std::rotate(f.begin(), f.begin() + (rot * (k + 1)) % f.size(), f.end()); if (rot == 1 || (rot == 2 && k % 2)) std::reverse(f.begin(), f.end()); cells[0].push_back(k++); }
            gen3 m; poly3(m, p, fs, cells); std::string w = mc::str("hull of subset ", mask, " of ", L.size(), " start ", rot); integrates(w, m, L.size() > 8 ? 3 : 5, 4, 1.5); split(w, m); } }, l.maxv); }); }
    return mc::finish();
}
