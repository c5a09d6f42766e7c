// Every generator history: boundary flags, ids, iterators and neighbour queries of every face.
#include "gens.hpp"
#include "complex.hpp"
using namespace mm;
// number the generators give to the sides x=0,x=1,y=0,y=1,z=0,z=1 of the unit domain
template<typename M> static size_t sideid(size_t s)
{
    static const size_t two[4] = {3, 1, 0, 2}, three[6] = {2, 5, 1, 4, 0, 3};
    return M::dimension == 1 ? 0 : M::dimension == 2 ? two[s] : three[s];
}
template<typename M, typename E> static void check_bnd(const std::string& nm, M& msh, E expid)
{
    auto ck = [&](bool ok, const char* k, const std::string& d = "") { mc::check(ok, k, nm + " " + d); };
    const M& cm = msh; size_t F = msh.faces_size(); std::vector<std::vector<size_t>> own(F); size_t ci = 0; auto x = coords(msh);
    for (auto& cl : msh) { for (auto f : faces_id(msh, cl)) own[size_t(f)].push_back(ci); ci++; }
    std::vector<typename M::face> fs(msh.faces_begin(), msh.faces_end()); std::map<size_t, std::vector<size_t>> byid; std::vector<size_t> bnd, in;
    std::vector<typename M::cell> cs(msh.cells_begin(), msh.cells_end());
    for (size_t i = 0; i < F; i++) {
        bool b = own[i].size() == 1; using fid = typename M::face::id_type; mc::trans();
        ck(msh.is_boundary(fs[i]) == b, "is-boundary", mc::str("face ", i)); ck(msh.is_boundary(fid(i)) == b, "is-boundary-id", mc::str("face ", i)); ck(msh.is_boundary(std::next(msh.faces_begin(), i)) == b, "is-boundary-iterator", mc::str("face ", i));
        auto bi = msh.boundary_info(fs[i]); ck(bi.is_boundary() == b && !bi.is_internal(), "boundary-info", mc::str("face ", i));
        if (b) {
            bnd.push_back(i); size_t e = expid(fs[i]); byid[e].push_back(i);
            ck(msh.boundary_id(fs[i]) == e && msh.boundary_id(fid(i)) == e && bi.id() == e && bi.tag() == e, "boundary-id", mc::str("face ", i, " id ", msh.boundary_id(fs[i]), " expected ", e));
            mc::state(mc::str(nm, "b", i, ":", e));
        } else {
            in.push_back(i); bool t1 = false, t2 = false; try { msh.boundary_id(fs[i]); } catch (const std::invalid_argument&) { t1 = true; } try { msh.boundary_id(fid(i)); } catch (const std::invalid_argument&) { t2 = true; }
            ck(t1 && t2, "internal-face-has-no-id", mc::str("face ", i)); mc::state(mc::str(nm, "i", i));
        }
    }
    auto list = [&](auto b, auto e) { std::vector<size_t> r; for (; b != e; ++b) r.push_back(size_t(msh.lookup(*b))); return r; };
    ck(list(msh.boundary_faces_begin(), msh.boundary_faces_end()) == bnd && list(cm.boundary_faces_begin(), cm.boundary_faces_end()) == bnd, "boundary-iterator");
    ck(list(msh.internal_faces_begin(), msh.internal_faces_end()) == in, "internal-iterator");
    { std::vector<size_t> r; for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); it++) r.push_back(size_t(msh.lookup(*it))); ck(r == bnd, "boundary-iterator-post"); }
    { std::vector<size_t> r; for (auto& f : boundary_faces(msh)) r.push_back(size_t(msh.lookup(f))); ck(r == bnd, "boundary-proxy"); size_t n = 0; for (auto& f : faces(msh)) ck(size_t(msh.lookup(f)) == n++, "faces-proxy"); ck(n == F, "faces-proxy"); n = 0; for (auto& c : cells(msh)) ck(size_t(msh.lookup(c)) == n++, "cells-proxy"); ck(n == cs.size(), "cells-proxy"); n = 0; for (auto& p : points(msh)) { (void)p; n++; } ck(n == msh.points_size(), "points-proxy"); }
    ck(msh.boundary_faces_size() == bnd.size() && msh.internal_faces_size() == in.size(), "face-counts");
    std::vector<size_t> il; for (auto& [k, v] : byid) il.push_back(k);
    ck(msh.boundary_id_list() == il, "id-list");
    for (size_t k = 0; k < 12; k++) { auto e = byid.count(k) ? byid[k] : std::vector<size_t>(); ck(list(msh.boundary_faces_begin(k), msh.boundary_faces_end(k)) == e && msh.boundary_faces_size(k) == e.size(), "boundary-iterator-id", mc::str("id ", k)); }
    auto cvf = connectivity_via_faces(msh); ci = 0;
    for (auto& cl : msh) {
        bool any = false;
        for (auto& fc : faces(msh, cl)) {
            auto o = own[size_t(msh.lookup(fc))]; any = any || o.size() == 1; auto nb = cvf.neighbour_via(msh, cl, fc); mc::trans();
            if (o.size() == 1) ck(!nb.second, "no-neighbour-through-boundary", mc::str("cell ", ci));
            else { size_t other = o[0] == ci ? o[1] : o[0]; ck(nb.second && nb.first == cs[other], "neighbour", mc::str("cell ", ci)); auto bk = cvf.neighbour_via(msh, nb.first, fc); ck(bk.second && bk.first == cl, "neighbour-symmetric", mc::str("cell ", ci)); }
        }
        ck(has_faces_on_boundary(msh, cl) == any, "has-faces-on-boundary", mc::str("cell ", ci)); ck(msh.domain_info(cl).id() == 0, "domain-info"); ci++;
    }
    // interfaces: a boundary number on a face between two cells makes it an internal boundary, nothing else changes
    auto st = msh.backend_storage(); auto save = st->boundary_info;
    for (size_t i = 0; i < F; i++) st->boundary_info[i] = disk::boundary_descriptor(i, i % 3 != 1);
    mark_internal_faces(msh);
    for (size_t i = 0; i < F; i++) { auto& b = st->boundary_info[i]; ck(b.id() == i && b.is_boundary() == (i % 3 != 1) && b.is_internal() == (own[i].size() == 2 && i % 3 != 1), "internal-boundaries", mc::str("face ", i)); }
    st->boundary_info = save; mc::trace();
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    generated([&](const std::string& nm, auto make) {
        mc::scenario(nm, [&]{ make([&](auto& m, const auto& a, const counts&) {
            using M = std::decay_t<decltype(m)>; auto& mm_ = m;
            check_bnd(nm, m, [&](const typename M::face& f) { auto v = ids(f); typename M::point_type b; for (size_t k = 0; k < M::dimension; k++) b[k] = 0; for (auto i : v) { auto q = a.inv(*std::next(mm_.points_begin(), i)); for (size_t k = 0; k < M::dimension; k++) b[k] += q[k] / v.size(); } size_t s = side(b); mc::check(s != 9, "boundary-face-on-a-side", nm); return s == 9 ? 9 : sideid<M>(s); });
            // absent elements are refused
            if (m.cells_size() > 1) {
                auto st = m.backend_storage(); auto& fv = const_cast<std::vector<typename M::face>&>([&]() -> auto& { if constexpr (M::dimension == 1) return st->nodes; else if constexpr (M::dimension == 2) return st->edges; else return st->surfaces; }());
                auto keep = fv; auto kb = st->boundary_info;
                for (size_t i : {size_t(0), keep.size() / 2, keep.size() - 1}) {
                    auto gone = keep[i]; fv = keep; fv.erase(fv.begin() + i); st->boundary_info = kb; st->boundary_info.erase(st->boundary_info.begin() + i); int t = 0;
                    try { m.lookup(gone); } catch (const std::exception&) { t++; } try { offset(m, gone); } catch (const std::exception&) { t++; } try { m.boundary_info(gone); } catch (const std::exception&) { t++; }
                    mc::check(t == 3, "absent-face-refused", mc::str(nm, " face ", i)); fv = keep; st->boundary_info = kb;
                }
            }
        }); });
        // numbering recovered from the normals of the unit domain
        if (nm.find('S') == std::string::npos && nm.find('H') == std::string::npos && nm.compare(0, 3, "uni") != 0)
            mc::scenario("renumber:" + nm, [&]{ make([&](auto& m, const auto&, const counts&) {
                using M = std::decay_t<decltype(m)>;
                if constexpr (M::dimension > 1) {
                    auto st = m.backend_storage(); auto e = st->boundary_info; st->boundary_info.assign(m.faces_size(), disk::boundary_descriptor()); mc::check(disk::renumber_hypercube_boundaries(m), "renumber", nm);
                    for (size_t i = 0; i < e.size(); i++) mc::check(e[i].is_boundary() == st->boundary_info[i].is_boundary() && (!e[i].is_boundary() || e[i].id() == st->boundary_info[i].id()), "renumber", mc::str(nm, " face ", i, " ", e[i].id(), " ", st->boundary_info[i].id()));
                    mc::trace(); } }); });
    });
    auto zero = [](const auto&) { return size_t(0); };
    for (size_t n = 3; n < 12; n++) mc::scenario(mc::str("polygon:", n), [&]{ gen2 m; disk::make_single_element_mesh(m, 1.0, n); check_bnd("polygon", m, zero); });
    mc::scenario("single:tri", [&]{ tri2 m; disk::make_single_element_mesh(m, P2(0, 0), P2(1, 0), P2(0, 1)); check_bnd("tri", m, zero); });
    mc::scenario("single:tet", [&]{ tet3 m; disk::make_single_element_mesh(m, P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(0, 0, 1)); check_bnd("tet", m, zero); });
    mc::scenario("single:quad", [&]{ car2 m; disk::make_single_element_mesh(m, P2(0, 0), 1., 1.); check_bnd("quad", m, zero); });
    mc::scenario("single:hexa", [&]{ car3 m; disk::make_single_element_mesh(m, P3(0, 0, 0), 1., 1., 1.); check_bnd("hexa", m, zero); });
    mc::scenario("single:seg", [&]{ gen1 m; disk::make_single_element_mesh(m, 0., 1.); check_bnd("seg", m, zero); });
    // explicit meshes of every storage kind, boundary ids from the description
    auto go = [&](const std::string& nm, auto& m) { mc::scenario("cat:" + nm, [&]{ using M = std::decay_t<decltype(m)>; if (M::dimension > 1) mark_boundary(m); check_bnd(nm, m, [&](const typename M::face& f) { auto pts = points(m, f); auto c = pts[0]; for (size_t k = 1; k < pts.size(); k++) c = c + pts[k]; return side(c / double(pts.size())); }); }); };
    catalogue1(go); catalogue2(go, true); catalogue3(go, true);
    return mc::finish();
}
