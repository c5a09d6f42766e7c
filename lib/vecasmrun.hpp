// Vector face-unknown assemblers: every condition type on the boundary faces, linear and incremental assembly.
#pragma once
#include "vecasm.hpp"
namespace mm {
// current face values, for the incremental (Newton) variants
template<typename M> std::vector<VX> state_of(const asmcase<M>& C) { std::vector<VX> r; for (size_t f = 0; f < C.nd.size(); f++) { VX v(C.nd[f]); for (int i = 0; i < v.size(); i++) v(i) = entry(f, i, 77) * 0.125; r.push_back(v); } return r; }
template<typename M> VX incr(const asmcase<M>& C, const std::vector<VX>& u) { VX g = C.g; for (size_t f = 0; f < u.size(); f++) for (int i = 0; i < u[f].size(); i++) if (C.fixed[C.off[f] + i]) g(C.off[f] + i) -= u[f](i); return g; }
template<typename M> void expanded(const asmcase<M>& C, const std::string& w, const std::vector<int>& num, double tol, const std::function<VX(const VX&)>& ex) { VX x(C.size()); for (int i = 0; i < C.size(); i++) x(i) = i + 0.5; VX e = ex(x); bool ok = e.size() == C.N; for (int i = 0; ok && i < C.N; i++) ok = C.fixed[i] ? std::abs(e(i) - C.g(i)) <= tol * (1 + C.g.cwiseAbs().maxCoeff()) : e(i) == x(num[i]); mc::check(ok, "expanded", w); }
template<typename AS, typename M> void incremental(asmcase<M>& C, const std::string& w, AS make, const disk::vector_boundary_conditions<M>& bnd, double tol, bool rev)
{
    auto u = state_of(C); VX g = C.g; C.g = incr(C, u); std::vector<int> num; auto as = make(); mc::check(as.global_system_size() == size_t(C.size()), "unknown-count", w);
    if (C.numbering(w, C.size(), [&](size_t c, const VX& x) { return VX(as.take_local_solution_nonlinear(C.m, C.cells[c], bnd, x, u)); }, num, tol, true)) { expanded<M>(C, w, num, tol, [&](const VX& x) { return VX(as.expand_solution_nonlinear(C.m, bnd, x, u, 1)); });
        for (int it = 0; it < 2; it++) { if (it) { as.initialize(); } if (rev) as.impose_neumann_boundary_conditions(C.m, bnd); for (size_t c = 0; c < C.cells.size(); c++) { size_t q = rev ? C.cells.size() - 1 - c : c; as.assemble_nonlinear(C.m, C.cells[q], bnd, C.K[q], C.b[q], u); } if (!rev) as.impose_neumann_boundary_conditions(C.m, bnd); as.finalize(); C.verify(w + (it ? " second iteration" : ""), MX(as.LHS), as.RHS, num, tol); } }
    C.g = g;
}
template<typename M, typename Info> void primal(asmcase<M>& C, const std::string& w, const Info& h, const disk::vector_boundary_conditions<M>& bnd, double tol)
{
    const M& m = C.m; std::vector<int> num; auto as = disk::make_vector_primal_hho_assembler(m, h, bnd); mc::check(as.global_system_size() == size_t(C.size()), "unknown-count", w + " primal");
    if (C.numbering(w + " primal", C.size(), [&](size_t c, const VX& x) { return VX(as.take_local_solution(m, C.cells[c], bnd, x)); }, num, tol)) { expanded<M>(C, w + " primal", num, tol, [&](const VX& x) { return VX(as.expand_solution(m, bnd, x, 1)); }); for (size_t c = 0; c < C.cells.size(); c++) as.assemble(m, C.cells[c], bnd, C.K[c], C.b[c]); as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); C.verify(w + " primal", MX(as.LHS), as.RHS, num, tol); }
    incremental(C, w + " primal increments", [&]{ return disk::make_vector_primal_hho_assembler(m, h, bnd); }, bnd, tol, false); incremental(C, w + " mechanics increments", [&]{ return disk::make_vector_mechanics_hho_assembler(m, h, bnd); }, bnd, tol, true);
}
template<typename M> void mechanics(asmcase<M>& C, const std::string& w, const disk::hho_degree_info& h, const disk::vector_boundary_conditions<M>& bnd, double tol)
{
    const M& m = C.m; std::vector<int> num; auto as = disk::make_mechanics_assembler(m, h, bnd); mc::check(as.LHS.rows() == C.size(), "unknown-count", w + " mechanics");
    if (C.numbering(w + " mechanics", C.size(), [&](size_t c, const VX& x) { return VX(as.take_local_data(m, C.cells[c], bnd, x, 1)); }, num, tol)) { expanded<M>(C, w + " mechanics", num, tol, [&](const VX& x) { return VX(as.expand_solution(m, bnd, x, 1)); });
        for (int it = 0; it < 2; it++) { as.setZeroRhs(); for (size_t c = 0; c < C.cells.size(); c++) as.assemble(m, C.cells[c], bnd, std::make_pair(C.K[c], C.b[c]), 1); as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); C.verify(w + " mechanics", MX(as.LHS), as.RHS, num, tol); }
        auto u = state_of(C); VX g = C.g; C.g = incr(C, u); expanded<M>(C, w + " mechanics increments", num, tol, [&](const VX& x) { return VX(as.expand_solution_nl(m, bnd, x, u, 1)); }); as.setZeroRhs(); as.impose_neumann_boundary_conditions(m, bnd); for (size_t c = C.cells.size(); c-- > 0;) as.assemble_nl(m, C.cells[c], bnd, std::make_pair(C.K[c], C.b[c]), u, 1); as.finalize(); C.verify(w + " mechanics increments", MX(as.LHS), as.RHS, num, tol); C.g = g; }
}
template<typename M> void run(const std::string& nm, const M& m, int fd, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-10; int deg = fd + 2; auto tab = vconds(D, true); size_t nf = m.faces_size(); int S = tab.size() - 1;
    asmcase<M> C(m, D, std::vector<int>(nf, fd), deg + 2); disk::hho_degree_info h(fd); std::map<std::vector<int>, asmcase<M>> more;
    auto at = [&](const std::vector<int>& fdg) -> asmcase<M>& { auto it = more.find(fdg); if (it == more.end()) it = more.emplace(fdg, asmcase<M>(m, D, fdg, deg + 2)).first; return it->second; };
    auto visit = [&](const std::vector<int>& a) { std::string w = vtext<M>(nm + mc::str(" degree ", fd), a, tab); mc::state(w); auto bnd = vconditions(m, C.bf, a, tab, deg); vset(C, a, tab, deg); mechanics(C, w, h, bnd, tol);
        std::vector<int> fdg(nf, fd); for (size_t i = 0; i < a.size(); i++) if (a[i] == S) fdg[C.bf[i]] = fd + 1; auto& B = at(fdg); vset(B, a, tab, deg); primal(B, w, h, bnd, tol);
        // degrees by face: one more on every second inner face, none on contact faces
        std::vector<int> fdm(nf, fd); disk::MeshDegreeInfo<M> mi(m, fd, fd); size_t k = 0; for (size_t f = 0; f < nf; f++) { auto fc = *std::next(m.faces_begin(), f); bool b = std::count(C.bf.begin(), C.bf.end(), f); if (!b && k++ % 2 == 0) fdm[f] = fd + 1; } for (size_t i = 0; i < a.size(); i++) { if (a[i] == S) fdm[C.bf[i]] = -1; else if (i % 3 == 1) fdm[C.bf[i]] = fd + 1; } for (size_t f = 0; f < nf; f++) mi.degreeInfo(m, *std::next(m.faces_begin(), f), fdm[f] < 0 ? disk::DegreeInfo() : disk::DegreeInfo(size_t(fdm[f]))); auto& Q = at(fdm); vset(Q, a, tab, deg); primal(Q, w + " by mesh info", mi, bnd, tol); if (more.size() > 60) more.clear(); };
    if (nm == "tri:two" && fd == 0) { std::vector<int> a(C.bf.size()); size_t tot = std::pow(tab.size(), a.size()) + 0.5; for (size_t k = 0; k < tot; k += th ? 1 : 3) { size_t z = k; for (auto& x : a) x = z % tab.size(), z /= tab.size(); visit(a); } }
    deviations(C.bf.size(), tab.size(), D == 2 && th && fd < 2 ? 3 : D == 2 || fd == 0 || th ? 2 : 1, visit);
    // full Dirichlet or clamped and Neumann on one face are refused
    for (size_t i = 0; i < C.bf.size(); i++) for (size_t t : {disk::DIRICHLET, disk::CLAMPED}) { disk::vector_boundary_conditions<M> bnd(m); bnd.addDirichletBC(t, 100 + C.bf[i], vector_fun<M>(1, 1)); bnd.addNeumannBC(disk::NEUMANN, 100 + C.bf[i], vector_fun<M>(2, 1)); auto refuses = [&](auto as) { bool r = false; try { as.impose_neumann_boundary_conditions(m, bnd); } catch (const std::invalid_argument&) { r = true; } mc::check(r, "contradiction", nm + mc::str(" face ", i, " type ", t)); mc::trans(); }; refuses(disk::make_mechanics_assembler(m, h, bnd)); refuses(disk::make_vector_primal_hho_assembler(m, h, bnd)); refuses(disk::make_vector_mechanics_hho_assembler(m, h, bnd)); }
}
}
