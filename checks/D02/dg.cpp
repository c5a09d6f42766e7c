// The block systems of the discontinuous Galerkin assemblers: every order of the cell and face contributions.
// MC: libs=jburkardt triangle
#include "asmlib.hpp"
#include "diskpp/methods/implementation_dg/assembler.hpp"
#include <complex>
using namespace mm;
struct op { size_t r, c; bool cell; }; // one call of the assembler
template<typename S> S num(size_t a, size_t b, size_t c) { if constexpr (std::is_same_v<S, double>) return entry(a, b, c); else return S(entry(a, b, c), entry(a + 99, b, c)); }
template<typename S, typename M> void one(const std::string& w, const M& m, size_t cbs, const std::vector<op>& ops, const std::vector<typename M::cell>& cs)
{
    using DM = Eigen::Matrix<S, -1, -1>; using DV = Eigen::Matrix<S, -1, 1>; size_t n = cbs * cs.size(); auto as = disk::make_discontinuous_galerkin_assembler<S>(m, cbs); mc::check(as.syssz == n, "size", w); DM L = DM::Zero(n, n); DV R = DV::Zero(n); DM gK = DM::Zero(n, n), gM = gK; auto ev = disk::make_discontinuous_galerkin_eigenvalue_assembler(m, cbs); mc::check(ev.syssz == n, "size", w);
    for (size_t k = 0; k < ops.size(); k++) { auto& o = ops[k]; size_t tag = o.r * 31 + o.c * 7 + o.cell; DM A(cbs, cbs); DV b(cbs); for (size_t i = 0; i < cbs; i++) { b(i) = num<S>(tag, i, 1000); for (size_t j = 0; j < cbs; j++) A(i, j) = num<S>(tag, i, j); }
        for (size_t i = 0; i < cbs; i++) { if (o.cell) R(o.r * cbs + i) += b(i); for (size_t j = 0; j < cbs; j++) { L(o.r * cbs + i, o.c * cbs + j) += A(i, j); (o.cell ? gM : gK)(o.r * cbs + i, o.c * cbs + j) += A(i, j); } }
        if (o.cell) as.assemble(m, cs[o.r], A, b); else as.assemble(m, cs[o.r], cs[o.c], A);
        if constexpr (std::is_same_v<S, double>) { if (o.cell) ev.assemble(m, cs[o.r], A); else ev.assemble(m, cs[o.r], cs[o.c], A); } }
    as.finalize(); mc::check(as.LHS.rows() == Eigen::Index(n) && as.LHS.cols() == Eigen::Index(n) && (DM(as.LHS) - L).cwiseAbs().maxCoeff() == 0, "matrix", w); mc::check(as.RHS.size() == Eigen::Index(n) && (as.RHS - R).cwiseAbs().maxCoeff() == 0, "rhs", w);
    if constexpr (std::is_same_v<S, double>) { ev.finalize(); mc::check((DM(ev.gK) - gK).cwiseAbs().maxCoeff() == 0, "eigenvalue-stiffness", w); mc::check((DM(ev.gM) - gM).cwiseAbs().maxCoeff() == 0, "eigenvalue-mass", w); }
    // the matrix is rebuilt from the contributions after the last finalisation only
    if (!ops.empty() && ops.size() < 4) { DM A = DM::Constant(cbs, cbs, S(3)); as.assemble(m, cs[0], cs.back(), A); as.finalize(); DM Q = DM::Zero(n, n); Q.block(0, n - cbs, cbs, cbs) = A; mc::check((DM(as.LHS) - Q).cwiseAbs().maxCoeff() == 0, "second-assembly", w); }
    mc::trace(); mc::trans(ops.size());
}
template<typename M> void run(const std::string& nm, const M& m, bool th)
{
    std::vector<typename M::cell> cs; for (auto& c : m) cs.push_back(c); std::vector<op> ops; for (size_t i = 0; i < cs.size(); i++) { ops.push_back({i, i, true}); auto fi = faces_id(m, cs[i]); for (size_t f : fi) { ops.push_back({i, i, false}); for (size_t j = 0; j < cs.size(); j++) { auto fj = faces_id(m, cs[j]); if (j != i && std::count(fj.begin(), fj.end(), f)) ops.push_back({i, j, false}); } } }
    // one call per kind, in all orders while there are few
    std::vector<op> u; for (auto& o : ops) { bool s = false; for (auto& q : u) s |= q.r == o.r && q.c == o.c && q.cell == o.cell; if (!s) u.push_back(o); }
    for (size_t cbs = 1; cbs <= (th ? 6 : 4); cbs++) { one<double>(nm + mc::str(" all ", cbs), m, cbs, ops, cs); one<std::complex<double>>(nm + mc::str(" all complex ", cbs), m, cbs, ops, cs); auto r = ops; std::reverse(r.begin(), r.end()); one<double>(nm + mc::str(" reversed ", cbs), m, cbs, r, cs); for (size_t k = 0; k < r.size(); k++) { std::rotate(r.begin(), r.begin() + 1, r.end()); one<double>(nm + mc::str(" rotated ", k, " ", cbs), m, cbs, r, cs); } one<double>(nm + " none", m, cbs, {}, cs); }
    std::vector<size_t> ix(u.size()); std::iota(ix.begin(), ix.end(), 0); size_t cap = th ? 50000 : 5000, k = 0; do { std::vector<op> o; for (size_t i : ix) o.push_back(u[i]); mc::state(nm + mc::str(" order ", k)); one<double>(nm + mc::str(" order ", k), m, 2, o, cs); } while (++k < cap && std::next_permutation(ix.begin(), ix.end()));
    // all multisets of at most three calls
    for (size_t a = 0; a < u.size(); a++) { one<double>(nm + mc::str(" call ", a), m, 2, {u[a]}, cs); for (size_t b = 0; b < u.size(); b++) { one<double>(nm + mc::str(" calls ", a, " ", b), m, 3, {u[a], u[b]}, cs); if (u.size() < 20) for (size_t c = 0; c < u.size(); c++) one<double>(nm + mc::str(" calls ", a, " ", b, " ", c), m, 1, {u[a], u[b], u[c]}, cs); } }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    small_meshes<true>([&](const std::string& nm, auto& m) { mc::scenario(nm, [&]{ run(nm, m, th); }); });
    return mc::finish();
}
