// Solid geometry on all lattice tetrahedra, boxes in every layout and convex lattice polyhedra.
// MC: libs=jburkardt triangle
#include "meshes.hpp"
#include "hull3.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace mm;
using V = Eigen::Vector3d;
static V v3(const P3& p) { return {p.x(), p.y(), p.z()}; }
// outline: the corner points and the faces (cycles, any orientation); volume, and centroid where it is promised
template<typename M> static void cell3(const std::string& w, const M& m, const typename M::cell& cl, const std::vector<P3>& pts, double vol, bool centroid)
{
    double diam = 0; V lo = V::Constant(1e9), hi = -lo, avg = V::Zero();
    for (auto& p : pts) { for (auto& q : pts) diam = std::max(diam, (v3(p) - v3(q)).norm()); lo = lo.cwiseMin(v3(p)); hi = hi.cwiseMax(v3(p)); avg += v3(p) / pts.size(); }
    double S = diam * diam * diam;
    mc::near(measure(m, cl), vol, 1e-13, "measure", w, S);
    mc::near(diameter(m, cl), diam, 1e-14, "diameter", w, diam);
    auto ds = disk::diameters(m, cl); auto bb = bb_barycenter(m, cl); auto db = disk::diameter_boundingbox(m, cl); auto b = barycenter(m, cl);
    for (int k = 0; k < 3; k++) { mc::near(ds(k), hi(k) - lo(k), 1e-13, "diameters", w, diam); mc::near(db[k], hi(k) - lo(k), 1e-13, "boundingbox", w, diam); mc::near(bb[k], (hi(k) + lo(k)) / 2, 1e-13, "bb-barycenter", w, diam); mc::near(b[k], avg(k), 1e-13, "barycenter", w, diam); }
    auto fcs = faces(m, cl); V sum = V::Zero(); double div = 0; mc::check(fcs.size() == howmany_faces(m, cl), "howmany-faces", w);
    // every edge of the solid belongs to two of its faces
    std::map<std::pair<size_t, size_t>, int> edges;
    for (auto& fc : fcs) {
        auto q = points(m, fc); auto id = fc.point_ids(); size_t n = q.size(); V a = V::Zero(); double fd = 0; V fa = V::Zero();
        for (size_t i = 0; i < n; i++) { a += v3(q[i] - q[0]).cross(v3(q[(i + 1) % n] - q[0])) / 2; fa += v3(q[i]) / n; for (size_t j = 0; j < n; j++) fd = std::max(fd, (v3(q[i]) - v3(q[j])).norm()); size_t e0 = id[i], e1 = id[(i + 1) % n]; edges[{std::min(e0, e1), std::max(e0, e1)}]++; }
        if (a.dot(v3(q[0]) - avg) < 0) a = -a; // outward for a convex solid
        double A = a.norm(); V nn = normal(m, cl, fc), nf = normal(m, fc);
        mc::near(measure(m, fc), A, 1e-13, "face-measure", w, fd * fd); mc::near(diameter(m, fc), fd, 1e-14, "face-diameter", w, fd);
        auto fb = barycenter(m, fc); mc::check((v3(fb) - fa).norm() <= 1e-13 * diam, "face-barycenter", w);
        mc::check((nn - a / A).norm() <= 1e-12, "normal-outward", w); mc::check(std::min((nf - a / A).norm(), (nf + a / A).norm()) <= 1e-12, "face-normal", w);
        sum += nn * measure(m, fc); div += measure(m, fc) * nn.dot(v3(q[0]) - avg);
    }
    for (auto& [e, c] : edges) mc::check(c == 2, "faces-close", mc::str(w, " edge ", e.first, "-", e.second));
    mc::check(sum.norm() <= 1e-12 * diam * diam, "normals-close", w); mc::near(div, 3 * vol, 1e-12, "divergence-theorem", w, S);
    bool onb = false; for (auto& fc : fcs) onb |= m.is_boundary(fc); mc::check(disk::has_faces_on_boundary(m, cl) == onb && (onb || m.cells_size() > 1), "on-boundary", w);
    mc::trace();
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    // an exact placement and one with rounding, sheared and far from the origin
    auto place = [](int s, I3 p) { double x = p[0], y = p[1], z = p[2]; if (s == 0) return P3(x, y, z); if (s == 1) return P3(x + 0.5 * y - 1, 0.75 * y + 0.25 * z, z * 2.0 + 0.125 * x); return P3(0.1 * x + 3.3, 0.1 * y + 0.03 * z - 2.7, 0.1 * z + 0.7); };
    double J[3] = {1, 0.75 * 2 + 0.5 * 0.25 * 0.125, 0.001};
    struct L3 { int n[3]; int perms; }; std::vector<L3> ls = th ? std::vector<L3>{{{2, 2, 2}, 24}, {{3, 3, 3}, 24}} : std::vector<L3>{{{2, 2, 2}, 24}, {{3, 3, 3}, 2}};
    for (auto& l : ls) { auto L = lattice3(l.n[0], l.n[1], l.n[2]); size_t n = L.size();
        for (size_t i0 = 0; i0 < n; i0++) for (size_t part = 0; part < (n > 8 ? 3u : 1u); part++) mc::scenario(mc::str("tet:", n, ":", i0, ":", part), [&]{
            for (size_t i = i0 + 1; i < n; i++) if (n <= 8 || i % 3 == part) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++) {
                I3 c[4] = {L[i0], L[i], L[j], L[k]}; int d6 = det3(sub3(c[1], c[0]), sub3(c[2], c[0]), sub3(c[3], c[0])); if (!d6) continue;
                std::array<int, 4> o{0, 1, 2, 3}; int np = 0;
                do { int inv = 0; for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) inv += o[a] > o[b]; int sg = inv % 2 ? -d6 : d6;
                    for (int s = 0; s < (n > 8 && !th ? 1 : 3); s++) {
                        std::vector<P3> p; for (auto q : o) p.push_back(place(s, c[q])); tet3 m; tets(m, p, {{0, 1, 2, 3}}); auto cl = *m.cells_begin();
                        std::string w = mc::str("tet ", i0, " ", i, " ", j, " ", k, " of ", n, " order ", o[0], o[1], o[2], o[3], " place ", s); if (!np && !s) mc::state(w); double vol = std::abs(d6) / 6.0 * J[s];
                        cell3(w, m, cl, p, vol, true); mc::near(measure(m, cl, true), sg / 6.0 * J[s], 1e-13, "signed-measure", w, std::pow(diameter(m, cl), 3));
                        if (s == 0 && (n <= 8 || th || (i0 + i + j + k) % 4 == 0)) for (int x = -1; x <= 2 * l.n[0] - 1; x++) for (int y = -1; y <= 2 * l.n[1] - 1; y++) for (int z = -1; z <= 2 * l.n[2] - 1; z++) {
                            // exact side tests on doubled coordinates
                            I3 q{x, y, z}; bool in = true; for (int f = 0; f < 4; f++) { I3 e[3]; int r = 0; for (int g = 0; g < 4; g++) if (g != f) { e[r] = {2 * c[g][0], 2 * c[g][1], 2 * c[g][2]}; r++; } I3 op{2 * c[f][0], 2 * c[f][1], 2 * c[f][2]};
                                int so = det3(sub3(e[1], e[0]), sub3(e[2], e[0]), sub3(op, e[0])), sq = det3(sub3(e[1], e[0]), sub3(e[2], e[0]), sub3(q, e[0])); if ((so > 0 && sq < 0) || (so < 0 && sq > 0)) in = false; }
                            mc::check(is_inside(m, cl, P3(x / 2.0, y / 2.0, z / 2.0)) == in, "is-inside", mc::str(w, " point ", x / 2.0, ",", y / 2.0, ",", z / 2.0));
                        }
                        if (s == 0) { using R = disk::rational<int>; using PR = disk::point<R, 3>; PR r[4]; for (int q = 0; q < 4; q++) r[q] = PR(R(c[o[q]][0]), R(c[o[q]][1]), R(c[o[q]][2])); disk::simplicial_mesh<R, 3> rm; disk::make_single_element_mesh(rm, r[0], r[1], r[2], r[3]);
                            auto eq = [](R a, R b) { return a <= b && b <= a; }; mc::check(eq(measure(rm, *rm.cells_begin()), R(std::abs(d6), 6)) && eq(measure(rm, *rm.cells_begin(), true), R(sg, 6)), "rational-measure", w); }
                    }
                    if (++np >= l.perms) break;
                    if (l.perms == 2) o = {0, 1, 2, 3}, std::swap(o[2], o[3]); else if (!std::next_permutation(o.begin(), o.end())) break;
                } while (true);
            } }); }
    // boxes in the 48 layouts of their corners
    for (int hx = 1; hx <= (th ? 4 : 3); hx++) for (int hy = 1; hy <= (th ? 4 : 3); hy++) mc::scenario(mc::str("box:", hx, ":", hy), [&]{
        for (int hz = 1; hz <= (th ? 4 : 3); hz++) for (double x0 : {0.0, -2.5, 0.3}) { std::array<int, 3> ax{0, 1, 2}; do for (int fl = 0; fl < 8; fl++) {
            double h[3] = {hx * 0.25, hy * 0.5, hz * 1.25}; std::vector<P3> p; for (int q = 0; q < 8; q++) { double c[3]; for (int k = 0; k < 3; k++) { int bit = (q >> k & 1) ^ (fl >> k & 1); c[ax[k]] = x0 + k * 0 + bit * h[ax[k]]; } p.push_back(P3(c[0], c[1], c[2])); }
            car3 m; using pid = disk::point_identifier<3>; auto st = m.backend_storage(); st->points = p; for (size_t i = 0; i < 8; i++) st->nodes.push_back({pid(i)});
            int ed[12][2] = {{0,1},{0,2},{1,3},{2,3},{0,4},{1,5},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}}, fc[6][4] = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
            for (auto& e : ed) st->edges.push_back({pid(e[0]), pid(e[1])}); for (auto& f : fc) st->surfaces.push_back({pid(f[0]), pid(f[1]), pid(f[2]), pid(f[3])}); st->volumes.push_back({pid(0), pid(1), pid(2), pid(3), pid(4), pid(5), pid(6), pid(7)});
            suniq(st->edges); suniq(st->surfaces); mark_boundary(m); auto cl = *m.cells_begin(); std::string w = mc::str("box ", hx, "x", hy, "x", hz, " at ", x0, " axes ", ax[0], ax[1], ax[2], " flip ", fl); mc::state(w); cell3(w, m, cl, p, h[0] * h[1] * h[2], true);
            disk::bounding_box<car3> bb(m); for (int k = 0; k < 3; k++) { mc::near(bb.min()[k], x0, 1e-14, "mesh-bounding-box", w, 1); mc::near(bb.max()[k], x0 + h[k], 1e-14, "mesh-bounding-box", w, 1); }
        } while (std::next_permutation(ax.begin(), ax.end())); } });
    // convex polyhedra, with hanging vertices, faces starting anywhere and turning either way
    struct LH { int n[3]; size_t maxv; unsigned parts; }; std::vector<LH> hs = th ? std::vector<LH>{{{2, 2, 2}, 8, 1}, {{3, 2, 2}, 12, 16}, {{3, 3, 2}, 9, 256}} : std::vector<LH>{{{2, 2, 2}, 8, 4}, {{3, 2, 2}, 12, 16}};
    for (auto& l : hs) { auto L = lattice3(l.n[0], l.n[1], l.n[2]); unsigned N = 1u << L.size();
        for (unsigned part = 0; part < l.parts; part++) mc::scenario(mc::str("hull:", L.size(), ":", part), [&]{
            hulls(L, N / l.parts * part, N / l.parts * (part + 1), [&](unsigned mask, const hull& h) {
                bool big = L.size() > 12; mc::state(mc::str("hull", L.size(), ":", mask));
                for (int s = 0; s < 3; s++) for (size_t rot = 0; rot < (big ? 1u : 4u); rot++) for (int tn = 0; tn < (big ? 1 : 3); tn++) {
                    std::vector<P3> p; for (auto& q : h.pts) p.push_back(place(s, q)); auto fs = h.faces; size_t k = 0; std::vector<std::vector<size_t>> cells(1);
                    for (auto& f : fs) { std::rotate(f.begin(), f.begin() + (rot * (k + 1)) % f.size(), f.end()); if (tn == 1 || (tn == 2 && k % 2)) std::reverse(f.begin(), f.end()); cells[0].push_back(k++); }
                    gen3 m; poly3(m, p, fs, cells); auto cl = *m.cells_begin(); std::string w = mc::str("hull of subset ", mask, " of ", L.size(), " start ", rot, " turn ", tn, " place ", s);
                    cell3(w, m, cl, p, h.vol6 / 6.0 * J[s], false);
                } }, l.maxv); }); }
    // the bounding box of a mesh: all point sets of up to 3 points of a lattice with negative coordinates
    mc::scenario("bounding-box", [&]{ auto L = lattice3(3, 3, 3); for (auto& q : L) for (auto& x : q) x = x - 1;
        for (auto& a : L) for (auto& b : L) for (int third = -1; third < 27; third++) { tet3 m; auto st = m.backend_storage(); std::vector<I3> s{a, b}; if (third >= 0) s.push_back(L[third]); I3 lo = a, hi = a; for (auto& q : s) { st->points.push_back(P3(double(q[0]), double(q[1]), double(q[2]))); for (int k = 0; k < 3; k++) lo[k] = std::min(lo[k], q[k]), hi[k] = std::max(hi[k], q[k]); }
            disk::bounding_box<tet3> bb(m); bool ok = true; for (int k = 0; k < 3; k++) ok = ok && bb.min()[k] == lo[k] && bb.max()[k] == hi[k]; mc::check(ok, "mesh-bounding-box", "points"); mc::trans(); } });
    // whole meshes: volumes add up, the bounding box is the unit cube
    catalogue3([&](const std::string& n, const auto& m) { mc::scenario("mesh:" + n, [&]{ using M = std::decay_t<decltype(m)>; double v = 0, h = 0; for (auto& cl : m) { v += measure(m, cl); h += diameter(m, cl); mc::state(mc::str(n, m.lookup(cl))); auto q = points(m, cl); std::vector<P3> p(q.begin(), q.end()); cell3(n, m, cl, p, measure(m, cl), false); }
        mc::near(v, 1, 1e-13, "volumes-add-up", n, 1); mc::near(average_diameter(m), h / m.cells_size(), 1e-14, "average-diameter", n, 1); disk::bounding_box<M> bb(m); for (int k = 0; k < 3; k++) mc::check(bb.min()[k] == 0 && bb.max()[k] == 1, "mesh-bounding-box", n); }); }, true);
    return mc::finish();
}
