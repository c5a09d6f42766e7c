// Vector Laplacian and linear elasticity solvers.
#pragma once
#include "solve.hpp"
namespace mm {
template<typename M> struct vector_problem {
    static constexpr int D = M::dimension; using P = typename M::point_type; using V = disk::static_vector<double, D>; const world<M>& W; bool elastic; double mu, lambda; gmono u; int a;
    V value(const P& p) const { V r = V::Zero(); r(a) = u.at(p); return r; }
    // Laplacian: mu grad u; elasticity: 2 mu strain + lambda div u
    V source(const P& p) const { V r = V::Zero(); for (int j = 0; j < D; j++) r(a) -= mu * u.dd(p, j, j); if (elastic) for (int i = 0; i < D; i++) r(i) -= (mu + lambda) * u.dd(p, i, a); return r; }
    V traction(const P& p, const VX& n) const { V r = V::Zero(); for (int j = 0; j < D; j++) r(a) += mu * u.d(p, j) * n(j); if (elastic) for (int i = 0; i < D; i++) r(i) += mu * u.d(p, i) * n(a) + lambda * u.d(p, a) * n(i); return r; }
    disk::vector_boundary_conditions<M> conditions(const std::vector<int>& c) const { disk::vector_boundary_conditions<M> b(W.m); auto self = *this; for (size_t i = 0; i < c.size(); i++) { size_t id = W.ids[i]; VX n = W.normals.at(id); if (c[i] == DRC) b.addDirichletBC(disk::DIRICHLET, id, [self](const P& p) { return self.value(p); }); else b.addNeumannBC(disk::NEUMANN, id, [self, n](const P& p) { return self.traction(p, n); }); } return b; }
};
template<typename M> struct vector_family { std::string name; bool elastic, rich; std::function<MX(const typename M::cell&)> K; };
template<typename M> std::vector<vector_family<M>> vector_families(const M& m, size_t cd, size_t fd, double mu, double la)
{
    using cell = typename M::cell; std::vector<vector_family<M>> r; disk::hho_degree_info h(cd, fd); bool hdg = cd == fd + 1;
    auto stab = [&m, h, hdg](const cell& cl, const MX& R) -> MX { if (hdg) return disk::make_vector_hdg_stabilization(m, cl, h); return disk::make_vector_hho_stabilization(m, cl, R, h); };
    r.push_back({"laplacian", false, true, [=, &m](const cell& cl) -> MX { auto o = disk::make_vector_hho_laplacian(m, cl, h); return mu * (o.second + stab(cl, o.first)); }});
    r.push_back({"laplacian by components", false, false, [=, &m](const cell& cl) -> MX { auto s = disk::make_scalar_hho_laplacian(m, cl, h); auto o = disk::make_vector_hho_laplacian(m, cl, h, s); return mu * (o.second + (hdg ? disk::make_vector_hdg_stabilization(m, cl, h) : disk::make_vector_hho_stabilization_optim(m, cl, s.first, h))); }});
    r.push_back({"gradient", false, false, [=, &m](const cell& cl) -> MX { auto o = disk::make_matrix_hho_gradrec(m, cl, h); return mu * (o.second + stab(cl, disk::make_vector_hho_laplacian(m, cl, h).first)); }});
    r.push_back({"laplacian, mesh degrees", false, false, [=, &m](const cell& cl) -> MX { disk::MeshDegreeInfo<M> mi(m, cd, fd); auto o = disk::make_vector_hho_laplacian(m, cl, mi); return mu * (o.second + (hdg ? disk::make_vector_hdg_stabilization(m, cl, mi) : disk::make_vector_hho_stabilization(m, cl, o.first, mi))); }});
    if (fd > 0 && cd > 0) {
        r.push_back({"elasticity", true, true, [=, &m](const cell& cl) -> MX { auto s = disk::make_vector_hho_symmetric_laplacian(m, cl, h); auto g = disk::make_matrix_hho_symmetric_gradrec(m, cl, h); auto d = disk::make_hho_divergence_reconstruction(m, cl, h); return 2 * mu * (g.second + stab(cl, s.first)) + la * d.second; }});
        r.push_back({"elasticity by symmetric laplacian", true, false, [=, &m](const cell& cl) -> MX { auto s = disk::make_vector_hho_symmetric_laplacian(m, cl, h); auto d = disk::make_hho_divergence_reconstruction(m, cl, h); return 2 * mu * (s.second + stab(cl, s.first)) + la * d.second; }});
        r.push_back({"elasticity, mesh degrees", true, false, [=, &m](const cell& cl) -> MX { disk::MeshDegreeInfo<M> mi(m, cd, fd); auto s = disk::make_vector_hho_symmetric_laplacian(m, cl, mi); auto g = disk::make_matrix_hho_symmetric_gradrec(m, cl, mi); auto d = disk::make_hho_divergence_reconstruction(m, cl, mi); return 2 * mu * (g.second + (hdg ? disk::make_vector_hdg_stabilization(m, cl, mi) : disk::make_vector_hho_stabilization(m, cl, s.first, mi))) + la * d.second; }}); }
    return r;
}
template<typename M> void solve_vector(const std::string& nm, M& m, int fdmin, int fdmax, int most, double tol) // most: Neumann sides at once, besides all but one
{
    constexpr int D = M::dimension; using P = typename M::point_type; world<M> W(m, fdmax + 2); double mu = 1.5, la = 4; size_t nc = W.cells.size();
    for (int fd = fdmin; fd <= fdmax; fd++) for (int cd = std::max(0, fd - 1); cd <= fd + 1; cd++) {
        disk::hho_degree_info h(cd, fd); std::vector<vdofs<M>> U; U.reserve(nc); for (auto& c : W.cells) U.emplace_back(c, cd, std::vector<int>(c.fs.size(), fd)); std::vector<std::pair<gmono, int>> us; for (auto& g : gmonos(D, fd + 1)) for (int a = 0; a < D; a++) us.push_back({g, a});
        std::vector<judge> J0; for (auto& [g, a] : us) { judge J; for (size_t c = 0; c < nc; c++) { VM v(D, MX::Zero(W.cells[c].F.ex.size(), 1)); auto& gm = g; v[a] = W.local(c, [&](const P& p) { return gm.at(p); }); J.expect(U[c].s, U[c].interpolate(v)); } J0.push_back(J); }
        for (auto& fam : vector_families<M>(m, cd, fd, mu, la)) { std::vector<MX> K; for (auto& c : W.cells) K.push_back(fam.K(c.cl)); std::string w0 = nm + mc::str(" ", fam.name, " cell ", cd, " face ", fd); mc::state(w0); std::vector<std::vector<VX>> rhs;
            for (auto& [g, a] : us) { vector_problem<M> pb{W, fam.elastic, mu, la, g, a}; std::vector<VX> r; for (auto& c : W.cells) r.push_back(disk::make_rhs(m, c.cl, make_vector_monomial_basis(m, c.cl, cd), [&](const P& p) { return pb.source(p); }, 1)); rhs.push_back(r); }
            // previous iterate of the incremental solver, one value per face unknown and per cell unknown
            int fb = D * disk::scalar_basis_size(fd, D - 1), cb = D * disk::scalar_basis_size(cd, D); std::vector<VX> u0; for (size_t f = 0; f < m.faces_size(); f++) { VX v(fb); for (int i = 0; i < fb; i++) v(i) = entry(f, i, 5) * 0.125; u0.push_back(v); }
            auto whole0 = [&](size_t c) { VX v(K[c].rows()); for (int i = 0; i < cb; i++) v(i) = entry(c, i, 9) * 0.125; for (size_t i = 0; i < W.cf[c].size(); i++) v.segment(cb + i * fb, fb) = u0[W.cf[c][i]]; return v; };
            W.choices(2, 64, [&](const std::vector<int>& a) { int nn = std::count(a.begin(), a.end(), NEU), ns = a.size(); if (nn > (fam.rich ? most : std::min(most, 1)) && nn < ns - 1) return; dense_solver S, T, R;
                for (size_t k = 0; k < us.size(); k++) { vector_problem<M> pb{W, fam.elastic, mu, la, us[k].first, us[k].second}; auto bnd = pb.conditions(a); std::string w = w0 + ctext(a) + " " + us[k].first.text() + mc::str(" component ", us[k].second);
                    { auto as = disk::make_mechanics_assembler(m, h, bnd); std::vector<MX> AL; std::vector<VX> bL; for (size_t c = 0; c < nc; c++) { auto sc = disk::make_vector_static_condensation_withMatrix(m, W.cells[c].cl, h, K[c], rhs[k][c]); AL.push_back(std::get<1>(sc)); bL.push_back(std::get<2>(sc)); as.assemble(m, W.cells[c].cl, bnd, std::get<0>(sc), 1); } as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); VX x = S(MX(as.LHS), as.RHS), e = as.expand_solution(m, bnd, x, 1); judge J = J0[k]; for (size_t c = 0; c < nc; c++) { VX xF(W.cf[c].size() * fb); for (size_t i = 0; i < W.cf[c].size(); i++) xF.segment(i * fb, fb) = e.segment(W.cf[c][i] * fb, fb); VX y(cb + xF.size()); y << VX(bL[c] - AL[c] * xF), xF; J.got(c, y); } J.end(w + " mechanics assembler", S.ok, tol); }
                    if (!fam.rich) continue;
                    { auto as = disk::make_vector_primal_hho_assembler(m, h, bnd); for (size_t c = 0; c < nc; c++) { auto sc = disk::make_vector_static_condensation(m, W.cells[c].cl, h, K[c], rhs[k][c]); as.assemble(m, W.cells[c].cl, bnd, sc.first, sc.second); } as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); VX x = T(MX(as.LHS), as.RHS); judge J = J0[k]; for (size_t c = 0; c < nc; c++) J.got(c, disk::make_vector_static_decondensation(m, W.cells[c].cl, h, K[c], rhs[k][c], VX(as.take_local_solution(m, W.cells[c].cl, bnd, x, 1)))); J.end(w + " primal assembler", T.ok, tol); }
                    // one Newton step from an arbitrary state
                    auto newton = [&](auto as, const char* what) { std::vector<MX> AL; std::vector<VX> bL; for (size_t c = 0; c < nc; c++) { VX r = -K[c] * whole0(c); r.head(cb) += rhs[k][c]; auto sc = disk::make_vector_static_condensation_withMatrix(m, W.cells[c].cl, h, K[c], r); AL.push_back(std::get<1>(sc)); bL.push_back(std::get<2>(sc)); as.assemble_nonlinear(m, W.cells[c].cl, bnd, std::get<0>(sc).first, std::get<0>(sc).second, u0); } as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); VX x = R(MX(as.LHS), as.RHS); judge J = J0[k]; for (size_t c = 0; c < nc; c++) { VX dF = as.take_local_solution_nonlinear(m, W.cells[c].cl, bnd, x, u0); VX y = whole0(c); J.scale = std::max(J.scale, U[c].s.cwiseProduct(y).norm()); VX d(y.size()); d << VX(bL[c] - AL[c] * dF), dF; J.got(c, y + d); } J.end(w + what, R.ok, tol); };
                    newton(disk::make_vector_mechanics_hho_assembler(m, h, bnd), " mechanics assembler, increments"); newton(disk::make_vector_primal_hho_assembler(m, h, bnd), " primal assembler, increments"); } }); } }
}
// faces of different degrees
template<typename M> void solve_degrees(const std::string& nm, M& m, int fdmax, bool th, double tol)
{
    constexpr int D = M::dimension; using P = typename M::point_type; world<M> W(m, fdmax + 3); size_t nc = W.cells.size(), nf = m.faces_size(); double mu = 1.5, la = 4;
    for (int fd = 0; fd <= fdmax; fd++) { std::vector<std::pair<gmono, int>> us; for (auto& g : gmonos(D, fd + 1)) for (int a = 0; a < D; a++) us.push_back({g, a});
        std::vector<size_t> pats; if (nf <= (th ? 8 : 5)) for (size_t k = 1; k < size_t(1) << nf; k++) pats.push_back(k); else { pats = {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x9249249249249249ull}; for (size_t i = 0; i < nf && i < 64; i++) pats.push_back(size_t(1) << i); }
        for (size_t pat : pats) { std::vector<int> fds(nf); disk::MeshDegreeInfo<M> mi(m, fd, fd); size_t i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) { fds[i] = fd + int(pat >> (i % 64) & 1); mi.degreeInfo(m, *it, disk::DegreeInfo(size_t(fds[i]))); }
            std::vector<vdofs<M>> U; U.reserve(nc); for (size_t c = 0; c < nc; c++) { std::vector<int> v; for (size_t f : W.cf[c]) v.push_back(fds[f]); U.emplace_back(W.cells[c], fd, v); } int cb = D * disk::scalar_basis_size(fd, D);
            for (int el = 0; el < (fd ? 2 : 1); el++) { std::string w0 = nm + mc::str(el ? " elasticity" : " laplacian", " cell ", fd, " faces "); for (int x : fds) w0 += mc::str(x); mc::state(w0); std::vector<MX> K; for (auto& c : W.cells) { if (el) { auto s = disk::make_vector_hho_symmetric_laplacian(m, c.cl, mi); auto g = disk::make_matrix_hho_symmetric_gradrec(m, c.cl, mi); auto d = disk::make_hho_divergence_reconstruction(m, c.cl, mi); K.push_back(2 * mu * (g.second + disk::make_vector_hho_stabilization(m, c.cl, s.first, mi)) + la * d.second); } else { auto o = disk::make_vector_hho_laplacian(m, c.cl, mi); K.push_back(mu * (o.second + disk::make_vector_hho_stabilization(m, c.cl, o.first, mi))); } }
                std::vector<judge> J0; for (auto& [g, a] : us) { judge J; for (size_t c = 0; c < nc; c++) { VM v(D, MX::Zero(W.cells[c].F.ex.size(), 1)); auto& gm = g; v[a] = W.local(c, [&](const P& p) { return gm.at(p); }); J.expect(U[c].s, U[c].interpolate(v)); } J0.push_back(J); }
                size_t turn = 0; W.choices(2, 64, [&](const std::vector<int>& a) { int nn = std::count(a.begin(), a.end(), NEU); if (!th && nn > 0 && nn + 1 < int(a.size()) && turn++ % 5) return; dense_solver S;
                    for (size_t k = 0; k < us.size(); k++) { vector_problem<M> pb{W, el == 1, mu, la, us[k].first, us[k].second}; auto bnd = pb.conditions(a); auto as = disk::make_vector_primal_hho_assembler(m, mi, bnd); std::vector<MX> AL; std::vector<VX> bL; for (size_t c = 0; c < nc; c++) { VX r = disk::make_rhs(m, W.cells[c].cl, make_vector_monomial_basis(m, W.cells[c].cl, fd), [&](const P& p) { return pb.source(p); }, 1); auto sc = disk::make_vector_static_condensation_withMatrix(m, W.cells[c].cl, mi, K[c], r); AL.push_back(std::get<1>(sc)); bL.push_back(std::get<2>(sc)); as.assemble(m, W.cells[c].cl, bnd, std::get<0>(sc).first, std::get<0>(sc).second); } as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); VX x = S(MX(as.LHS), as.RHS); judge J = J0[k];
                        for (size_t c = 0; c < nc; c++) { VX xF = as.take_local_solution(m, W.cells[c].cl, bnd, x, 1), y(cb + xF.size()); y << VX(bL[c] - AL[c] * xF), xF; J.got(c, y); } J.end(w0 + ctext(a) + " " + us[k].first.text() + mc::str(" component ", us[k].second), S.ok, tol); } }); } } }
}
}
