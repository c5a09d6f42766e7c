// The newer interface's stabilizations.
// MC: libs=jburkardt triangle
#include "hhostab.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/hho_slapl.hpp"
#include <sstream>
namespace db = disk::basis; namespace sl = disk::hho::slapl;
template<typename B> struct called { const B& b; size_t size() const { return b.size(); } template<typename P> VX eval_functions(const P& p) const { return b(p); } };
template<typename M> void one(const std::string& w0, const M& m, const typename M::cell& cl, bool cat, bool th)
{
    constexpr int D = M::dimension; double tol = 1e-8; int fmax = th ? (D == 3 ? 2 : 4) : D == 2 ? (cat ? 3 : 2) : cat && m.cells_size() < 20 ? 2 : 1; hcell<M> c(m, cl, fmax + 3); mc::state(w0);
    auto co = [&](size_t k) { auto b = db::scaled_monomial_basis(m, cl, k); return c.coefs(called<decltype(b)>{b}); };
    orders(fmax, [&](int cd, int fd) { std::string w = w0 + mc::str(" cell ", cd, " face ", fd); sl::degree_info di(cd, fd); dofs<M> U(c, co(cd), std::vector<int>(c.fs.size(), fd), [&](const auto& s, size_t k) { auto b = db::scaled_monomial_basis(m, s.fc, k); return c.fcoefs(s, called<decltype(b)>{b}); });
        auto RA = sl::local_operator(m, cl, di); disk::dynamic_matrix<double> R = RA.first; MX W = co(fd + 1), P = W.rightCols(W.cols() - 1) * R; auto wt = weights(c, by_cell); MX X = hho_form(U, P, wt); stab(w, U, sl::local_stabilization(m, cl, di, R), X, wt, fd + 1, tol); coercive(w, U, RA.second + X, 1e-3);
        std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); MX H = sl::local_stabilization_hdg(m, cl, di); std::cout.rdbuf(old); std::vector<double> w1(c.fs.size(), 1.0); stab(w + " hdg", U, H, hdg_form(U, w1, true), w1, cd, tol); });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); shapes<false>(th, [&](const std::string& w, auto& m, auto& cl, bool cat) { one(w, m, cl, cat, th); }); return mc::finish();
}
