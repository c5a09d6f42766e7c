// Scalar face-unknown assemblers: every assignment of condition types to boundary faces, every order of assembly steps.
// MC: libs=jburkardt triangle
#include "asmlib.hpp"
#include "diskpp/methods/hho"
using namespace mm;
template<typename T> MX dense(const T& S) { return MX(S); }
template<typename M> auto scalar_fun(int k, int deg) { return [k, deg](const typename M::point_type& p) -> double { return polyval(k, deg, p); }; }
enum { NONE, DRC, NEU, ROB };
template<typename M> void set(asmcase<M>& C, const std::vector<int>& a, int deg)
{
    C.reset(); for (size_t i = 0; i < a.size(); i++) { size_t f = C.bf[i]; int o = C.off[f], n = C.nd[f]; if (a[i] == DRC) { C.g.segment(o, n) = C.on_face(f, [&](const auto& p, int) { return polyval(int(i), deg, p); }, true); for (int q = 0; q < n; q++) C.fixed[o + q] = 1; } if (a[i] == NEU) C.extra.segment(o, n) += C.on_face(f, [&](const auto& p, int) { return polyval(int(i) + 11, deg, p); }, false); if (a[i] == ROB) { C.extra.segment(o, n) += C.on_face(f, [&](const auto& p, int) { return polyval(int(i) + 23, deg, p); }, false); C.extraK.block(o, o, n, n) += C.gf[f].mass(); } }
}
template<typename M> disk::scalar_boundary_conditions<M> conditions(const M& m, const std::vector<size_t>& bf, const std::vector<int>& a, int deg)
{
    disk::scalar_boundary_conditions<M> bnd(m); for (size_t i = 0; i < a.size(); i++) { size_t id = 100 + bf[i]; if (a[i] == DRC) bnd.addDirichletBC(disk::DIRICHLET, id, scalar_fun<M>(i, deg)); if (a[i] == NEU) bnd.addNeumannBC(disk::NEUMANN, id, scalar_fun<M>(i + 11, deg)); if (a[i] == ROB) bnd.addRobinBC(disk::ROBIN, id, scalar_fun<M>(i + 23, deg)); } return bnd;
}
template<typename M> void run(const std::string& nm, const M& m, int fd, size_t cap)
{
    int deg = fd + 2; asmcase<M> C(m, 1, std::vector<int>(m.faces_size(), fd), deg + 1); disk::hho_degree_info h(fd); double tol = 1e-10; size_t nc = C.cells.size(); std::vector<size_t> id(nc); std::iota(id.begin(), id.end(), 0);
    auto text = [&](const std::vector<int>& a) { std::string s = nm + mc::str(" degree ", fd, " faces "); for (int x : a) s += ".DNR"[x]; return s; };
    auto has = [](const std::vector<int>& a, int k) { return std::count(a.begin(), a.end(), k) > 0; };
    // assemblers bound to boundary conditions
    assignments(m, C.bf, 4, cap, [&](size_t k, const std::vector<int>& a) {
        std::string w = text(a); mc::state(w); set(C, a, deg); auto bnd = conditions(m, C.bf, a, deg); std::vector<int> num;
        auto pa = disk::make_scalar_primal_hho_assembler(m, h, bnd); mc::check(pa.global_system_size() == size_t(C.size()), "unknown-count", w);
        if (C.numbering(w + " primal", C.size(), [&](size_t c, const VX& x) { return VX(pa.take_local_solution(m, C.cells[c], bnd, x)); }, num, tol)) {
            { VX x(C.size()); for (int i = 0; i < C.size(); i++) x(i) = i + 0.5; VX e = pa.expand_solution(m, bnd, x); bool ok = e.size() == C.N; for (int i = 0; ok && i < C.N; i++) ok = C.fixed[i] ? std::abs(e(i) - C.g(i)) <= tol * (1 + C.g.cwiseAbs().maxCoeff()) : e(i) == x(num[i]); mc::check(ok, "expanded", w + " primal"); }
            auto cellsin = [&](auto& as, const std::vector<size_t>& ord) { for (size_t c : ord) as.assemble(m, C.cells[c], bnd, C.K[c], C.b[c]); };
            // every order of the three steps, with the cells in the given and in the opposite order
            int st[3] = {0, 1, 2}; int turn = 0; do { auto as = disk::make_scalar_primal_hho_assembler(m, h, bnd); auto ord = id; if (turn % 2) std::reverse(ord.begin(), ord.end()); for (int s : st) { if (s == 0) cellsin(as, ord); if (s == 1) as.impose_neumann_boundary_conditions(m, bnd); if (s == 2) as.impose_robin_boundary_conditions(m, bnd); } as.finalize(); C.verify(w + mc::str(" primal steps ", st[0], st[1], st[2]), dense(as.LHS), as.RHS, num, tol);
                if (turn == 0) { for (int r = 0; r < 2; r++) { if (r == 0) as.initialize(); else { as.initialize_rhs(); } cellsin(as, ord); as.impose_robin_boundary_conditions(m, bnd); as.impose_neumann_boundary_conditions(m, bnd); as.finalize(); C.verify(w + (r ? " primal again, new right-hand side" : " primal again"), dense(as.LHS), as.RHS, num, tol); } }
                turn++; } while ((k % 8 == 0 || turn < 2) && std::next_permutation(st, st + 3)); }
        auto da = disk::make_diffusion_assembler(m, h, bnd); size_t free = 0; for (size_t f = 0; f < C.nd.size(); f++) free += !C.fixed[C.off[f]]; mc::check(da.num_assembled_faces() == free, "face-count", w); mc::check(size_t(da.LHS.rows()) == size_t(C.size()), "unknown-count", w + " condensed");
        if (C.numbering(w + " condensed", C.size(), [&](size_t c, const VX& x) { return VX(da.take_local_data(m, C.cells[c], bnd, x)); }, num, tol)) { int st[3] = {0, 1, 2}; int turn = 0; do { auto as = disk::make_diffusion_assembler(m, h, bnd); auto ord = id; if (turn % 2) std::reverse(ord.begin(), ord.end()); for (int s : st) { if (s == 0) for (size_t c : ord) as.assemble(m, C.cells[c], bnd, C.K[c], C.b[c]); if (s == 1 && has(a, NEU)) as.impose_neumann_boundary_conditions(m, bnd); if (s == 2) as.impose_robin_boundary_conditions(m, bnd); } as.finalize(); C.verify(w + mc::str(" condensed steps ", st[0], st[1], st[2]), dense(as.LHS), as.RHS, num, tol); turn++; } while ((k % 8 == 0 || turn < 2) && std::next_permutation(st, st + 3)); } });
    // two conditions on one face are refused
    for (size_t i = 0; i < C.bf.size(); i++) for (int pair = 0; pair < 3; pair++) { disk::scalar_boundary_conditions<M> bnd(m); size_t b = 100 + C.bf[i]; if (pair != 2) bnd.addNeumannBC(disk::NEUMANN, b, scalar_fun<M>(1, 1)); if (pair != 1) bnd.addDirichletBC(disk::DIRICHLET, b, scalar_fun<M>(2, 1)); if (pair != 0) bnd.addRobinBC(disk::ROBIN, b, scalar_fun<M>(3, 1));
        auto refuses = [&](auto as) { bool t = false; try { if (pair < 2) as.impose_neumann_boundary_conditions(m, bnd); else as.impose_robin_boundary_conditions(m, bnd); } catch (const std::invalid_argument&) { t = true; } mc::check(t, "contradiction", nm + mc::str(" face ", i, " pair ", pair)); if (pair == 1) { t = false; try { as.impose_robin_boundary_conditions(m, bnd); } catch (const std::invalid_argument&) { t = true; } mc::check(t, "contradiction", nm + mc::str(" robin, face ", i)); } }; refuses(disk::make_scalar_primal_hho_assembler(m, h, bnd)); refuses(disk::make_diffusion_assembler(m, h, bnd)); mc::trans(2); }
    // Dirichlet everywhere, one function: all orders of the cells
    { std::vector<int> a(C.bf.size(), DRC); C.reset(); auto u = scalar_fun<M>(5, deg); for (size_t f : C.bf) { C.g.segment(C.off[f], C.nd[f]) = C.on_face(f, [&](const auto& p, int) { return u(p); }, true); for (int q = 0; q < C.nd[f]; q++) C.fixed[C.off[f] + q] = 1; }
        std::string w = nm + mc::str(" degree ", fd, " Dirichlet everywhere"); auto ord = id; do { auto as = disk::make_diffusion_assembler(m, h); std::vector<int> num, num2; for (size_t c : ord) as.assemble(m, C.cells[c], C.K[c], C.b[c], u); as.finalize(); if (C.numbering(w, C.size(), [&](size_t c, const VX& x) { return VX(as.take_local_solution(m, C.cells[c], x, u)); }, num, tol)) C.verify(w, dense(as.LHS), as.RHS, num, tol); C.numbering(w, C.size(), [&](size_t c, const VX& x) { return VX(as.take_local_data(m, C.cells[c], x, u)); }, num2, tol); mc::check(num == num2, "numbering", w); mc::state(w + mc::str(ord[0], ord.back())); } while (std::next_permutation(ord.begin(), ord.end())); }
    // Dirichlet and natural conditions: all orders of the cells
    { std::vector<int> a; for (size_t i = 0; i < C.bf.size(); i++) a.push_back(i % 4); set(C, a, deg); auto bnd = conditions(m, C.bf, a, deg); auto ord = id; do { auto as = disk::make_scalar_primal_hho_assembler(m, h, bnd); std::vector<int> num; for (size_t c : ord) as.assemble(m, C.cells[c], bnd, C.K[c], C.b[c]); as.impose_neumann_boundary_conditions(m, bnd); as.impose_robin_boundary_conditions(m, bnd); as.finalize(); if (C.numbering(text(a), C.size(), [&](size_t c, const VX& x) { return VX(as.take_local_solution(m, C.cells[c], bnd, x)); }, num, tol)) C.verify(text(a) + " cell order", dense(as.LHS), as.RHS, num, tol); } while (std::next_permutation(ord.begin(), ord.end())); }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    for (int fd = 0; fd <= (th ? 3 : 2); fd++) small_meshes<false>([&](const std::string& nm, auto& m) { mc::scenario(nm + mc::str(":", fd), [&]{ run(nm, m, fd, th ? 70000 : 4096); }); });
    return mc::finish();
}
