// Poisson and diffusion solvers.
#pragma once
#include "solve.hpp"
namespace mm {
struct sz { size_t n; size_t size() const { return n; } };
template<typename M> struct scalar_problem {
    static constexpr int D = M::dimension; using P = typename M::point_type; using TK = disk::diffusion_tensor<M>; const world<M>& W; TK kappa; gmono u;
    double flux(const P& p, const VX& n) const { double r = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) r += kappa(i, j) * u.d(p, j) * n(i); return r; }
    double value(const P& p) const { return u.at(p); }
    double source(const P& p) const { double r = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) r -= kappa(i, j) * u.dd(p, i, j); return r; }
    disk::scalar_boundary_conditions<M> conditions(const std::vector<int>& a) const { disk::scalar_boundary_conditions<M> b(W.m); auto self = *this; for (size_t i = 0; i < a.size(); i++) { size_t id = W.ids[i]; VX n = W.normals.at(id); if (a[i] == DRC) b.addDirichletBC(disk::DIRICHLET, id, [self](const P& p) -> double { return self.value(p); }); if (a[i] == NEU) b.addNeumannBC(disk::NEUMANN, id, [self, n](const P& p) -> double { return self.flux(p, n); }); if (a[i] == ROB) b.addRobinBC(disk::ROBIN, id, [self, n](const P& p) -> double { return self.flux(p, n) + self.value(p); }); } return b; }
};
template<typename M> struct scalar_family { std::string name; size_t cd, fd; bool tensor, rich; std::function<MX(const typename M::cell&)> K; };
template<typename M> std::vector<scalar_family<M>> scalar_families(const M& m, size_t cd, size_t fd, const disk::diffusion_tensor<M>& kappa)
{
    using cell = typename M::cell; std::vector<scalar_family<M>> r; disk::hho_degree_info h(cd, fd); bool hdg = cd == fd + 1;
    auto stab = [&m, h, hdg](const cell& cl, const MX& R) -> MX { if (hdg) return disk::make_scalar_hdg_stabilization(m, cl, h); return disk::make_scalar_hho_stabilization(m, cl, R, h); };
    r.push_back({"laplacian", cd, fd, false, true, [=, &m](const cell& cl) -> MX { auto o = disk::make_scalar_hho_laplacian(m, cl, h); return o.second + stab(cl, o.first); }});
    r.push_back({"diffusion", cd, fd, true, false, [=, &m](const cell& cl) -> MX { auto o = disk::make_scalar_hho_laplacian(m, cl, h, kappa); return o.second + stab(cl, o.first); }});
    r.push_back({"laplacian, mesh degrees", cd, fd, false, false, [=, &m](const cell& cl) -> MX { disk::MeshDegreeInfo<M> mi(m, cd, fd); auto o = disk::make_scalar_hho_laplacian(m, cl, mi); return o.second + (hdg ? disk::make_scalar_hdg_stabilization(m, cl, mi) : disk::make_scalar_hho_stabilization(m, cl, o.first, mi)); }});
    if (cd >= fd) r.push_back({"hho stabilization by cell diameter", cd, fd, false, false, [=, &m](const cell& cl) -> MX { auto o = disk::make_scalar_hho_laplacian(m, cl, h); return o.second + disk::make_scalar_hho_stabilization(m, cl, o.first, h, false); }});
    if constexpr (M::dimension > 1) {
        r.push_back({"gradient", cd, fd, false, false, [=, &m](const cell& cl) -> MX { auto o = disk::make_vector_hho_gradrec(m, cl, h); return o.second + stab(cl, disk::make_scalar_hho_laplacian(m, cl, h).first); }});
        r.push_back({"gradient, diffusion", cd, fd, true, false, [=, &m](const cell& cl) -> MX { auto field = [kappa](const typename M::point_type&) { return kappa; }; auto o = disk::make_vector_hho_gradrec(m, cl, h, field); return o.second + stab(cl, disk::make_scalar_hho_laplacian(m, cl, h).first); }});
        if constexpr (requires { typename M::cell; } && (std::is_same_v<M, tri2> || std::is_same_v<M, tet3>)) if (cd == fd) { disk::hho_degree_info hr(cd, fd, fd + 1);
            r.push_back({"Raviart-Thomas gradient", cd, fd, false, false, [=, &m](const cell& cl) -> MX { return disk::make_vector_hho_gradrec_RT(m, cl, hr).second; }});
            r.push_back({"Raviart-Thomas gradient, diffusion", cd, fd, true, false, [=, &m](const cell& cl) -> MX { auto field = [kappa](const typename M::point_type&) { return kappa; }; return disk::make_vector_hho_gradrec_RT(m, cl, hr, field).second; }}); } }
    return r;
}
template<typename M> void solve_scalar(const std::string& nm, M& m, int fdmax, size_t cap, double tol)
{
    constexpr int D = M::dimension; using P = typename M::point_type; world<M> W(m, fdmax + 2); disk::diffusion_tensor<M> id = disk::diffusion_tensor<M>::Identity(), kap = id; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) kap(i, j) = i == j ? 1.5 + i : 0.25 * (i + j); size_t nc = W.cells.size();
    for (int fd = 0; fd <= (D == 1 ? 0 : fdmax); fd++) for (int cd = std::max(0, fd - 1); cd <= (D == 1 ? fdmax : fd + 1); cd++) {
        if (D == 1 && cd > 1) continue;
        disk::hho_degree_info h(cd, fd); std::vector<dofs<M>> U; U.reserve(nc); for (auto& c : W.cells) U.emplace_back(c, cd, std::vector<int>(c.fs.size(), fd)); auto us = gmonos(D, fd + 1);
        for (auto& fam : scalar_families<M>(m, cd, fd, kap)) { std::vector<MX> K; for (auto& c : W.cells) K.push_back(fam.K(c.cl)); std::string w0 = nm + mc::str(" ", fam.name, " cell ", cd, " face ", fd); mc::state(w0);
            auto problem = [&](const gmono& u) { return scalar_problem<M>{W, fam.tensor ? kap : id, u}; };
            auto expected = [&](const gmono& u) { judge J; for (size_t c = 0; c < nc; c++) J.expect(U[c].s, U[c].interpolate(W.local(c, [&](const P& p) { return u.at(p); }))); return J; };
            std::vector<std::vector<VX>> rhs; std::vector<judge> J0; for (auto& u : us) { auto pb = problem(u); std::vector<VX> r; for (auto& c : W.cells) r.push_back(disk::make_rhs(m, c.cl, make_scalar_monomial_basis(m, c.cl, cd), [&](const P& p) { return pb.source(p); }, 1)); rhs.push_back(r); J0.push_back(expected(u)); }
            W.choices(fam.rich ? 3 : 2, fam.rich ? cap : cap / 2, [&](const std::vector<int>& a) { dense_solver S, T; bool neu = std::count(a.begin(), a.end(), NEU);
                for (size_t k = 0; k < us.size(); k++) { auto pb = problem(us[k]); auto bnd = pb.conditions(a); std::string w = w0 + ctext(a) + " " + us[k].text();
                    { auto as = disk::make_scalar_primal_hho_assembler(m, h, bnd); for (size_t c = 0; c < nc; c++) { auto sc = disk::make_scalar_static_condensation(m, W.cells[c].cl, h, K[c], rhs[k][c]); as.assemble(m, W.cells[c].cl, bnd, sc.first, sc.second); } as.impose_neumann_boundary_conditions(m, bnd); as.impose_robin_boundary_conditions(m, bnd); as.finalize(); VX x = S(MX(as.LHS), as.RHS); judge J = J0[k]; for (size_t c = 0; c < nc; c++) J.got(c, disk::make_scalar_static_decondensation(m, W.cells[c].cl, h, K[c], rhs[k][c], VX(as.take_local_solution(m, W.cells[c].cl, bnd, x)))); J.end(w + " primal assembler", S.ok, tol); }
                    if (fam.rich) { auto as = disk::make_diffusion_assembler(m, h, bnd); std::vector<MX> AL; std::vector<VX> bL; for (size_t c = 0; c < nc; c++) { auto sc = disk::make_scalar_static_condensation_withMatrix(m, W.cells[c].cl, h, K[c], rhs[k][c]); AL.push_back(std::get<1>(sc)); bL.push_back(std::get<2>(sc)); as.assemble(m, W.cells[c].cl, bnd, std::get<0>(sc).first, std::get<0>(sc).second); } if (neu) as.impose_neumann_boundary_conditions(m, bnd); as.impose_robin_boundary_conditions(m, bnd); as.finalize(); VX x = T(MX(as.LHS), as.RHS); judge J = J0[k]; for (size_t c = 0; c < nc; c++) { VX xF = as.take_local_data(m, W.cells[c].cl, bnd, x); J.got(c, disk::make_scalar_static_decondensation_withMatrix<double>(AL[c], bL[c], xF)); } J.end(w + " condensed assembler", T.ok, tol); } } });
            // Dirichlet everywhere through one function
            { dense_solver S; for (size_t k = 0; k < us.size(); k++) { auto f = [&](const P& p) -> double { return us[k].at(p); }; auto as = disk::make_diffusion_assembler(m, h); for (size_t c = 0; c < nc; c++) { auto sc = disk::make_scalar_static_condensation(m, W.cells[c].cl, h, K[c], rhs[k][c]); as.assemble(m, W.cells[c].cl, sc.first, sc.second, f); } as.finalize(); VX x = S(MX(as.LHS), as.RHS); judge J = J0[k]; for (size_t c = 0; c < nc; c++) J.got(c, disk::make_scalar_static_decondensation(m, W.cells[c].cl, h, K[c], rhs[k][c], VX(as.take_local_data(m, W.cells[c].cl, x, f)))); J.end(w0 + " one function " + us[k].text(), S.ok, tol); } } } }
}
}
