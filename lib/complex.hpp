// Independent reading of the cell complex a mesh claims to be.
#pragma once
#include "meshes.hpp"
#include <set>
#include <map>
namespace mm {
template<typename P> Eigen::Vector3d V3(const P& p) { Eigen::Vector3d v(0, 0, 0); for (size_t i = 0; i < P::dimension; i++) v(i) = p[i]; return v; }
template<typename E> std::vector<size_t> ids(const E& e) { auto q = e.point_ids(); std::vector<size_t> r; for (auto x : q) r.push_back(size_t(x)); return r; }
template<typename M> std::vector<Eigen::Vector3d> coords(const M& m) { std::vector<Eigen::Vector3d> r; for (auto it = m.points_begin(); it != m.points_end(); ++it) r.push_back(V3(*it)); return r; }
// cyclic vertex loop of a 2D cell from its faces' vertex ids
inline std::vector<size_t> loop_of(std::vector<std::vector<size_t>> es)
{
    std::vector<size_t> r{es[0][0], es[0][1]}; std::vector<bool> used(es.size()); used[0] = true;
    while (r.size() <= es.size()) {
        bool ok = false;
        for (size_t i = 0; i < es.size(); i++) if (!used[i]) { auto& e = es[i]; if (e[0] == r.back() || e[1] == r.back()) { r.push_back(e[0] == r.back() ? e[1] : e[0]); used[i] = ok = true; break; } }
        if (!ok) break;
    }
    if (r.size() != es.size() + 1 || r.front() != r.back()) return {};
    r.pop_back(); return r;
}
// vector area (3D) of a vertex loop
inline Eigen::Vector3d varea(const std::vector<Eigen::Vector3d>& x, const std::vector<size_t>& l)
{
    Eigen::Vector3d a(0, 0, 0); for (size_t i = 1; i + 1 < l.size(); i++) a += 0.5 * (x[l[i]] - x[l[0]]).cross(x[l[i + 1]] - x[l[0]]); return a;
}
// face vertex loop in 3D for each storage kind
template<typename M> std::vector<size_t> floop(const M& m, const typename M::face& f) { return ids(f); }
template<typename V> bool sorted_unique(const V& v) { for (size_t i = 0; i + 1 < v.size(); i++) if (!(v[i] < v[i + 1])) return false; return true; }

// complete structural check; domain measure and boundary measure are those of the affine image (det, and boundary measure when given >=0)
template<typename M> void check_complex(const std::string& nm, const M& msh, size_t C, size_t F, size_t E, size_t V, size_t BF, double meas, bool allpts = true)
{
    constexpr size_t D = M::dimension; auto st = msh.backend_storage(); auto x = coords(msh);
    auto ck = [&](bool ok, const char* k, const std::string& d = "") { mc::check(ok, k, nm + " " + d); };
    mc::state(mc::str(nm, msh.cells_size(), ":", msh.faces_size()));
    ck(msh.cells_size() == C && msh.faces_size() == F && msh.points_size() == V && st->nodes.size() == V, "counts", mc::str("cells ", msh.cells_size(), "/", C, " faces ", msh.faces_size(), "/", F, " points ", msh.points_size(), "/", V, " nodes ", st->nodes.size()));
    // every element stored once, in order, and found again
    std::vector<typename M::cell> cs(msh.cells_begin(), msh.cells_end()); std::vector<typename M::face> fs(msh.faces_begin(), msh.faces_end());
    ck(sorted_unique(cs), "cells-sorted"); ck(sorted_unique(fs), "faces-sorted"); ck(sorted_unique(st->nodes), "nodes-sorted");
    if constexpr (D == 3) { ck(sorted_unique(st->edges), "edges-sorted"); ck(st->edges.size() == E, "edges-count", mc::str(st->edges.size(), "/", E)); }
    ck(st->boundary_info.size() == F && st->subdomain_info.size() == C, "info-sizes", mc::str(st->boundary_info.size(), " ", st->subdomain_info.size()));
    for (size_t i = 0; i < st->nodes.size(); i++) { auto v = ids(st->nodes[i]); ck(v.size() == 1 && v[0] == i, "node-point"); }
    { std::set<std::array<double, 3>> s; for (auto& p : x) s.insert({p(0), p(1), p(2)}); ck(s.size() == x.size(), "points-distinct", mc::str(s.size(), " distinct of ", x.size())); }
    size_t ci = 0; std::vector<std::vector<size_t>> own(F); std::set<size_t> used; double tot = 0; std::vector<std::vector<int>> osign(F);
    std::map<std::pair<size_t, size_t>, size_t> cedges; // edges of faces (3D)
    if constexpr (D == 3) for (auto& e : st->edges) { auto v = ids(e); if (v[0] > v[1]) std::swap(v[0], v[1]); ck(++cedges[{v[0], v[1]}] == 1, "edge-twice"); }
    for (size_t i = 0; i < fs.size(); i++) {
        ck(size_t(msh.lookup(fs[i])) == i && size_t(offset(msh, fs[i])) == i, "face-lookup", mc::str(i));
        if constexpr (D == 3) { auto l = floop(msh, fs[i]); for (size_t k = 0; k < l.size(); k++) { size_t a = l[k], b = l[(k + 1) % l.size()]; if (a > b) std::swap(a, b); ck(cedges.count({a, b}) == 1, "face-edge-stored", mc::str("face ", i)); } }
        auto v = ids(fs[i]); std::set<size_t> sv(v.begin(), v.end()); ck(sv.size() == v.size() && (v.empty() || *sv.rbegin() < V), "face-vertices");
    }
    for (auto& cl : msh) {
        ck(size_t(msh.lookup(cl)) == ci && size_t(offset(msh, cl)) == ci, "cell-lookup", mc::str(ci)); mc::trans();
        ck(msh[ci] == cl, "cell-index");
        auto fc = faces(msh, cl); auto fi = faces_id(msh, cl); auto cv = ids(cl); std::set<size_t> scv(cv.begin(), cv.end());
        ck(scv.size() == cv.size(), "cell-vertices-distinct"); used.insert(cv.begin(), cv.end());
        ck(fc.size() == fi.size() && fc.size() == howmany_faces(msh, cl), "cell-faces-count");
        std::set<size_t> sf, fv;
        std::vector<std::vector<size_t>> es;
        for (size_t k = 0; k < fc.size(); k++) {
            size_t id = size_t(fi[k]); ck(id < F && fs[id] == fc[k], "face-of-cell-stored", mc::str("cell ", ci, " face ", k));
            if (id >= F) return;
            sf.insert(id); own[id].push_back(ci); auto v = ids(fc[k]); ck(v == ids(fs[id]), "face-points"); fv.insert(v.begin(), v.end()); es.push_back(v);
        }
        ck(sf.size() == fc.size(), "cell-faces-distinct"); ck(fv == scv, "cell-vertices-are-face-vertices", mc::str("cell ", ci));
        double m = 0;
        if constexpr (D == 1) { m = std::abs(x[cv[1]](0) - x[cv[0]](0)); for (size_t k = 0; k < 2; k++) { osign[size_t(fi[k])].push_back(x[es[k][0]](0) > (x[cv[0]](0) + x[cv[1]](0)) / 2 ? 1 : -1); } }
        if constexpr (D == 2) {
            auto l = loop_of(es); ck(!l.empty(), "cell-is-a-loop", mc::str("cell ", ci)); if (l.empty()) return;
            double a = varea(x, l)(2); if (a < 0) std::reverse(l.begin(), l.end()); m = std::abs(a);
            for (size_t k = 0; k < es.size(); k++) { auto p = std::find(l.begin(), l.end(), es[k][0]) - l.begin(); osign[size_t(fi[k])].push_back(l[(p + 1) % l.size()] == es[k][1] ? 1 : -1); }
            if constexpr (std::is_same_v<M, gen2>) { // generic cells list their vertices in cyclic order
                std::vector<size_t> w = ids(cl); auto q = std::find(l.begin(), l.end(), w[0]); std::rotate(l.begin(), q, l.end()); auto r = l; std::reverse(r.begin() + 1, r.end()); ck(w == l || w == r, "vertices-cyclic", mc::str("cell ", ci)); }
        }
        if constexpr (D == 3) {
            Eigen::Vector3d c(0, 0, 0); for (auto v : cv) c += x[v]; c /= cv.size(); Eigen::Vector3d sum(0, 0, 0); double area = 0;
            for (size_t k = 0; k < fc.size(); k++) {
                auto l = es[k]; Eigen::Vector3d a = varea(x, l); double s = a.dot(x[l[0]] - c); ck(std::abs(s) > 1e-14, "flat-cell", mc::str("cell ", ci));
                m += std::abs(s) / 3; sum += s > 0 ? a : -a; area += a.norm(); osign[size_t(fi[k])].push_back(s > 0 ? 1 : -1);
            }
            ck(sum.norm() <= 1e-12 * area, "cell-closed", mc::str("cell ", ci, " defect ", sum.norm()));
        }
        ck(m > 1e-14, "cell-measure-positive", mc::str("cell ", ci, " measure ", m)); tot += m; ci++;
    }
    mc::near(tot, meas, 1e-11, "measures-sum", nm, meas);
    if (allpts) ck(used.size() == V, "points-used", mc::str(used.size(), "/", V));
    size_t nb = 0;
    for (size_t i = 0; i < F; i++) {
        ck(own[i].size() == 1 || own[i].size() == 2, "face-owners", mc::str("face ", i, " owners ", own[i].size())); nb += own[i].size() == 1;
        if (own[i].size() == 2) ck(own[i][0] != own[i][1] && osign[i][0] == -osign[i][1], "owners-on-opposite-sides", mc::str("face ", i));
    }
    ck(nb == BF, "boundary-faces-count", mc::str(nb, "/", BF));
    if (D == 2) ck(V + C == F + 1, "euler"); if (D == 3) ck(V + F == E + C + 1, "euler"); if (D == 1) ck(V == C + 1, "euler");
}
} // namespace mm
