// Every generator and refinement/transformation history: the result is a conforming cell complex.
#include "gens.hpp"
#include "complex.hpp"
using namespace mm;
template<typename M> static std::string dump(const M& m)
{
    std::ostringstream o; o.precision(17); auto st = m.backend_storage();
    for (auto it = m.points_begin(); it != m.points_end(); ++it) o << *it << ";";
    for (auto& c : m) { o << "c"; for (auto i : ids(c)) o << i << ","; for (auto i : faces_id(m, c)) o << size_t(i) << "."; }
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { o << "f"; for (auto i : ids(*it)) o << i << ","; }
    for (auto& b : st->boundary_info) o << b.is_boundary() << b.id() << ";";
    return o.str();
}
static const std::vector<double> lat{0, 1, 2};
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    generated([&](const std::string& nm, auto make) {
        mc::scenario(nm, [&]{
            std::string d1, d2;
            make([&](auto& m, const auto& a, const counts& n) {
                using M = std::decay_t<decltype(m)>; check_complex(nm, m, n.c, n.f, n.e, n.v, n.bf, std::abs(a.det())); mc::trace(); d1 = dump(m);
                bool in = true; for (auto it = m.points_begin(); it != m.points_end(); ++it) { auto q = a.inv(*it); for (size_t k = 0; k < M::dimension; k++) in = in && q[k] > -1e-12 && q[k] < 1 + 1e-12; }
                mc::check(in, "points-in-domain", nm); });
            make([&](auto& m, const auto&, const counts&) { d2 = dump(m); });
            mc::check(d1 == d2, "deterministic", nm); });
    });
    // single elements on a lattice
    std::vector<P2> l2; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) l2.push_back(P2(i, j) * 0.5);
    for (size_t i = 0; i < 9; i++) mc::scenario(mc::str("single:tri:", i), [&]{
        for (size_t j = 0; j < 9; j++) for (size_t k = 0; k < 9; k++) {
            double d = (l2[j].x() - l2[i].x()) * (l2[k].y() - l2[i].y()) - (l2[k].x() - l2[i].x()) * (l2[j].y() - l2[i].y());
            if (i == j || j == k || i == k || d == 0) continue;
            tri2 m; disk::make_single_element_mesh(m, l2[i], l2[j], l2[k]); check_complex(mc::str("tri ", i, j, k), m, 1, 3, 0, 3, 3, std::abs(d) / 2); mc::trace(); } });
    std::vector<P3> l3; for (int q = 0; q < 8; q++) l3.push_back(P3(q & 1, q >> 1 & 1, q >> 2)); l3.push_back(P3(0.5, 0.5, 0.5)); l3.push_back(P3(2., 0.5, 0.));
    for (size_t i = 0; i < l3.size(); i++) mc::scenario(mc::str("single:tet:", i), [&]{
        for (size_t j = 0; j < l3.size(); j++) for (size_t k = 0; k < l3.size(); k++) for (size_t l = 0; l < l3.size(); l++) {
            double d = (V3(l3[j]) - V3(l3[i])).cross(V3(l3[k]) - V3(l3[i])).dot(V3(l3[l]) - V3(l3[i])); if (std::abs(d) < 1e-12) continue;
            tet3 m; disk::make_single_element_mesh(m, l3[i], l3[j], l3[k], l3[l]); check_complex(mc::str("tet ", i, j, k, l), m, 1, 4, 6, 4, 4, std::abs(d) / 6); mc::trace(); } });
    for (double hx : {0.25, 1.0, 3.0}) for (double hy : {0.25, 1.0, 3.0}) mc::scenario(mc::str("single:box:", hx, ":", hy), [&]{
        for (double bx : {-1.0, 0.0, 0.5}) for (double by : {-1.0, 0.0, 0.5}) {
            { car2 m; disk::make_single_element_mesh(m, P2(bx, by), hx, hy); check_complex("quad", m, 1, 4, 0, 4, 4, hx * hy); mc::trace(); }
            for (double hz : {0.25, 1.0, 3.0}) { car3 m; disk::make_single_element_mesh(m, P3(bx, by, 0.5 * bx), hx, hy, hz); check_complex("hexahedron", m, 1, 6, 12, 8, 6, hx * hy * hz); mc::trace(); } } });
    for (size_t n = 3; n < 17; n++) mc::scenario(mc::str("single:polygon:", n), [&]{
        for (double r : {0.5, 1.0, 4.0}) { gen2 m; disk::make_single_element_mesh(m, r, n); check_complex("polygon", m, 1, n, 0, n, n, n * r * r * std::sin(2 * M_PI / n) / 2); mc::trace(); } });
    for (double a : {-1.0, 0.0, 0.5}) for (double b : {1.0, 2.0}) mc::scenario(mc::str("single:segment:", a, ":", b), [&]{ gen1 m; disk::make_single_element_mesh(m, a, b); check_complex("segment", m, 1, 2, 0, 2, 2, b - a); mc::trace(); });
    // single polygons read from a table, every starting vertex, with and without a final newline
    for (size_t n = 3; n < 8; n++) mc::scenario(mc::str("single:csv:", n), [&]{
        for (size_t r = 0; r < n; r++) for (int nl = 0; nl < 2; nl++) {
            std::string fn = mc::str("/tmp/m01-", getpid(), ".csv"); { std::ofstream o(fn); o.precision(17); o << "x;y\n"; for (size_t i = 0; i < n; i++) { size_t k = (i + r) % n; double rad = k % 2 && n > 4 ? 0.5 : 1; o << rad * std::cos(2 * M_PI * k / n) << ";" << rad * std::sin(2 * M_PI * k / n) << (i + 1 < n || nl ? "\n" : ""); } }
            gen2 m; mc::check(disk::load_single_element_csv(m, fn), "csv", ""); unlink(fn.c_str());
            double A = 0; for (size_t i = 0; i < n; i++) { auto rd = [&](size_t k) { return k % 2 && n > 4 ? 0.5 : 1; }; size_t j = (i + 1) % n; double t0 = 2 * M_PI * i / n, t1 = 2 * M_PI * j / n; A += 0.5 * rd(i) * rd(j) * std::sin(t1 - t0); }
            check_complex(mc::str("csv", n), m, 1, n, 0, n, n, A); mc::trace(); } });
    return mc::finish();
}
