// The newer interface: local operator and local reduction.
// MC: libs=jburkardt triangle
#include "hhorec.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/hho_slapl.hpp"
namespace db = disk::basis; namespace sl = disk::hho::slapl;
template<typename B> struct called { const B& b; size_t size() const { return b.size(); } template<typename P> VX eval_functions(const P& p) const { return b(p); } };
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-9; int fmax = th ? (D == 3 ? 2 : 4) : D == 2 ? (cat ? 3 : 2) : cat && m.cells_size() < 20 ? 2 : 1; hcell<M> c(m, cl, fmax + 4); mc::state(w0); MX I = MX::Identity(D, D);
    auto co = [&](size_t k) { auto b = db::scaled_monomial_basis(m, cl, k); return c.coefs(called<decltype(b)>{b}); };
    orders(fmax, [&](int cd, int fd) { std::string w = w0 + mc::str(" cell ", cd, " face ", fd); sl::degree_info di(cd, fd); dofs<M> U(c, co(cd), std::vector<int>(c.fs.size(), fd), [&](const auto& s, size_t k) { auto b = db::scaled_monomial_basis(m, s.fc, k); return c.fcoefs(s, called<decltype(b)>{b}); });
        potential(w, U, co(fd + 1), sl::local_operator(m, cl, di), I, plain, c.F.n - 1, fd + 1, tol); if (cd == fd) potential(w + " equal order", U, co(fd + 1), sl::local_operator(m, cl, sl::degree_info(fd)), I, plain, c.F.n - 1, fd + 1, tol);
        for (size_t j = 0; j < c.F.ex.size(); j++) if (c.F.deg(j) <= std::min(cd, fd)) interpolant(w + mc::str(" monomial ", j), U, sl::local_reduction(m, cl, di, [&](const typename M::point_type& p) { return c.mono(j, p); }), c.mono_col(j)); });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes<false>(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }); return mc::finish();
}
