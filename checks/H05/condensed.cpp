// The basis-parametric condensed assembler: every subset of faces without unknowns, every order of the cells.
// MC: libs=jburkardt triangle
#include "asmlib.hpp"
#include "diskpp/methods/hho_slapl.hpp"
#include <complex>
using namespace mm;
template<typename S> std::complex<double> cx(const S& z) { return z; }
template<typename S> double take(const S& z, int part) { auto c = cx(z); return part ? c.imag() : c.real(); }
template<typename V> MX part(const V& A, int p) { MX R(A.rows(), A.cols()); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) R(i, j) = take(A(i, j), p); return R; }
// systems with entries in Scal: the imaginary part is another integer system
template<typename Scal, typename M, typename Make> void one(const std::string& w, asmcase<M>& C, Make make, bool all_orders)
{
    using DM = Eigen::Matrix<Scal, -1, -1>; using DV = Eigen::Matrix<Scal, -1, 1>; constexpr bool Z = !std::is_same_v<Scal, double>;
    std::vector<size_t> ord(C.cells.size()); std::iota(ord.begin(), ord.end(), 0); auto K0 = C.K; auto b0 = C.b;
    std::vector<DM> K; std::vector<DV> b; for (size_t c = 0; c < C.cells.size(); c++) { DM A(C.K[c].rows(), C.K[c].cols()); DV r(C.b[c].size()); for (int i = 0; i < A.rows(); i++) { if constexpr (Z) r(i) = Scal(C.b[c](i), entry(c + 50, i, 1000)); else r(i) = C.b[c](i); for (int j = 0; j < A.cols(); j++) if constexpr (Z) A(i, j) = Scal(C.K[c](i, j), entry(c + 50, i, j)); else A(i, j) = C.K[c](i, j); } K.push_back(A); b.push_back(r); }
    do { auto as = make(); mc::check(size_t(as.dofs()) == size_t(C.size()), "unknown-count", w); for (size_t c : ord) as.assemble(C.m, C.cells[c], K[c], b[c]); as.finalize(); std::vector<int> num; bool ok = C.numbering(w, C.size(), [&](size_t c, const VX& x) { DV y = x.cast<Scal>(); DV l = as.take_local_solution(C.m, C.cells[c], y); return VX(part(l, 0)); }, num, 1e-12);
        if (!ok) return; DM L = DM(as.LHS); C.verify(w, part(L, 0), part(as.RHS, 0), num, 1e-12);
        if (Z) { for (size_t c = 0; c < K.size(); c++) C.K[c] = part(K[c], 1), C.b[c] = part(b[c], 1); C.verify(w + " imaginary", part(L, 1), part(as.RHS, 1), num, 1e-12); C.K = K0; C.b = b0; }
    } while (all_orders && std::next_permutation(ord.begin(), ord.end()));
}
template<typename M> void run(const std::string& nm, M& m, int fd, size_t cap)
{
    asmcase<M> C(m, 1, std::vector<int>(m.faces_size(), fd), fd + 2); using FB = disk::basis::scalar_monomial<M, typename M::face_type, double>; using FZ = disk::basis::scalar_monomial<M, typename M::face_type, std::complex<double>>;
    auto fix = [&](const std::vector<bool>& d) { C.reset(); for (size_t f = 0; f < d.size(); f++) if (d[f]) for (int q = 0; q < C.nd[f]; q++) C.fixed[C.off[f] + q] = 1; };
    size_t nf = m.faces_size(), tot = nf < 20 ? size_t(1) << nf : size_t(1) << 20, step = tot > cap ? (tot / cap) | 1 : 1;
    for (size_t s = 0; s < tot; s += step) { std::vector<bool> d(nf); std::string w = nm + mc::str(" degree ", fd, " fixed "); for (size_t f = 0; f < nf; f++) { d[f] = s >> f & 1; w += d[f] ? '1' : '0'; } mc::state(w); fix(d); one<double>(w, C, [&]{ return disk::hho::basic_condensed_assembler<M, FB>(m, fd, d); }, s % 16 == 0); if (s % 4 == 1) one<std::complex<double>>(w + " complex", C, [&]{ return disk::hho::basic_condensed_assembler<M, FZ>(m, fd, d); }, false); }
    // the boundary faces by default; internal interfaces keep their unknowns
    std::vector<size_t> in; for (size_t f = 0; f < nf; f++) if (!std::count(C.bf.begin(), C.bf.end(), f)) in.push_back(f);
    auto st = m.backend_storage(); for (size_t s = 0; s < (size_t(1) << std::min<size_t>(in.size(), 6)); s++) { std::vector<bool> d(nf); for (size_t f : C.bf) d[f] = true; for (size_t i = 0; i < in.size(); i++) { disk::boundary_descriptor bd; if (s >> i & 1) { bd = disk::boundary_descriptor(900 + i, true); bd.is_internal(true); } st->boundary_info[in[i]] = bd; } fix(d); std::string w = nm + mc::str(" degree ", fd, " default, interfaces ", s); mc::state(w); one<double>(w, C, [&]{ return disk::hho::basic_condensed_assembler<M, FB>(m, fd); }, true); one<double>(w + " by degree info", C, [&]{ disk::hho::slapl::degree_info di(fd); return disk::hho::slapl::make_assembler(m, di); }, false); }
    for (size_t f : in) st->boundary_info[f] = disk::boundary_descriptor();
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough();
    for (int fd = 0; fd <= (th ? 3 : 2); fd++) small_meshes<false>([&](const std::string& nm, auto& m) { mc::scenario(nm + mc::str(":", fd), [&]{ run(nm, m, fd, th ? 5000 : 512); }); });
    return mc::finish();
}
