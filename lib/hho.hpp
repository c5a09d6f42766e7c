// One cell seen from the outside: exact inner products of polynomials over the cell and its faces, traces, outward
// normals computed here. Functions are columns of coefficients in the monomials of the cell's (face's) frame.
#pragma once
#include "gram.hpp"
#include "scalarbasis.hpp"
namespace mm {
using VX = Eigen::VectorXd;
inline VX gnorm(const MX& C, const MX& G) { VX v(C.cols()); for (int i = 0; i < C.cols(); i++) v(i) = std::sqrt(std::abs((C.col(i).transpose() * G * C.col(i)).value())); return v; }
template<typename M> struct hcell {
    using P = typename M::point_type; using cell = typename M::cell; using mesh = M; static constexpr int D = M::dimension, E = D > 1 ? D - 1 : 1;
    struct side { typename M::face fc; frame<P, E> fr; MX T, G; VX n; double h = 1; const fit<E>* F = nullptr; P pt; };
    const M& m; cell cl; const fit<D>& F; frame<P, D> fr; MX G; std::vector<side> fs; double h;
    hcell(const M& m_, const cell& c, int n) : m(m_), cl(c), F(fitter<D>(n))
    {
        auto pp = points(m, cl); std::vector<P> pts(pp.begin(), pp.end()); fr = make_frame<P, D>(pts); G = cell_gram<M, D>(m, cl, fr, F); h = 0; for (auto& p : pts) for (auto& q : pts) h = std::max(h, (p - q).to_vector().norm());
        for (auto& fc : faces(m, cl)) { side s; s.fc = fc; auto pf = points(m, fc); std::vector<P> q(pf.begin(), pf.end()); s.n = VX::Zero(D); s.pt = q[0];
            if constexpr (D == 1) { s.G = MX::Ones(1, 1); s.T = row(q[0]); s.n(0) = q[0].x() > fr.c.x() ? 1 : -1; s.h = 1; }
            else { s.F = &fitter<E>(n); s.fr = make_frame<P, E>(q); s.G = face_gram<M, E>(m, fc, s.fr, *s.F); MX V(s.F->u.size(), F.ex.size()); for (size_t k = 0; k < s.F->u.size(); k++) V.row(k) = row(s.fr.at(s.F->u[k])); s.T = s.F->coef(V); s.h = 0; for (auto& a : q) for (auto& b : q) s.h = std::max(s.h, (a - b).to_vector().norm());
                if constexpr (D == 2) { auto o = outline2(m, cl); auto eq = [](const P2& a, const P2& b) { return a.x() == b.x() && a.y() == b.y(); }; for (size_t i = 0; i < o.size(); i++) { auto &a = o[i], &b = o[(i + 1) % o.size()]; if ((eq(a, q[0]) && eq(b, q[1])) || (eq(a, q[1]) && eq(b, q[0]))) { s.n(0) = b.y() - a.y(); s.n(1) = a.x() - b.x(); } } }
                else { Eigen::Vector3d v = Eigen::Vector3d::Zero(); for (size_t i = 1; i + 1 < q.size(); i++) v += (q[i] - q[0]).to_vector().cross((q[i + 1] - q[0]).to_vector()); P c(0., 0., 0.); for (auto& a : q) c = c + a; c = c / double(q.size()); if (v.dot((c - fr.c).to_vector()) < 0) v = -v; s.n = v; }
                s.n.normalize(); }
            fs.push_back(s); }
    }
    Eigen::RowVectorXd row(const P& p) const { auto u = local<P, D>(fr, p); Eigen::RowVectorXd r(F.ex.size()); for (size_t j = 0; j < F.ex.size(); j++) r(j) = fit<D>::mono(F.ex[j], u); return r; }
    double mono(size_t j, const P& p) const { return fit<D>::mono(F.ex[j], local<P, D>(fr, p)); }
    double value(const VX& c, const P& p) const { return (row(p) * c).value(); }
    MX d(const MX& C, int a) const { return F.diff(C, a) / fr.h; }
    std::vector<MX> grad(const MX& C) const { std::vector<MX> g; for (int a = 0; a < D; a++) g.push_back(d(C, a)); return g; }
    template<typename B> MX coefs(const B& b) const { return F.coef(bvalues<D, P>(F, fr, b.size(), [&](const P& p) { return VX(b.eval_functions(p)); })); }
    template<typename B> MX fcoefs(const side& s, const B& b) const { if constexpr (D == 1) { VX v = b.eval_functions(s.pt); return v.transpose(); } else return s.F->coef(bvalues<E, P>(*s.F, s.fr, b.size(), [&](const P& p) { return VX(b.eval_functions(p)); })); }
    // components of vector (matrix, row-major) functions
    template<int Q, typename B> std::vector<MX> split(const fit<Q>& f, const frame<P, Q>& r, const B& b, int nc) const { std::vector<MX> v(nc, MX(f.u.size(), b.size())); for (size_t q = 0; q < f.u.size(); q++) { auto x = b.eval_functions(r.at(f.u[q])); for (size_t i = 0; i < b.size(); i++) for (int c = 0; c < nc; c++) { if constexpr (requires { x.cols(); }) v[c](q, i) = x(i, c); else v[c](q, i) = x[i](c / int(x[i].cols()), c % int(x[i].cols())); } } for (auto& c : v) c = f.coef(c); return v; }
    template<typename B> std::vector<MX> vcoefs(const B& b, int nc = D) const { return split<D>(F, fr, b, nc); }
    template<typename B> std::vector<MX> vfcoefs(const side& s, const B& b, int nc = D) const { return split<E>(*s.F, s.fr, b, nc); }
    MX ip(const std::vector<MX>& A, const std::vector<MX>& B) const { MX R = A[0].transpose() * G * B[0]; for (size_t c = 1; c < A.size(); c++) R += A[c].transpose() * G * B[c]; return R; }
    static MX fip(const side& s, const std::vector<MX>& A, const std::vector<MX>& B) { MX R = A[0].transpose() * s.G * B[0]; for (size_t c = 1; c < A.size(); c++) R += A[c].transpose() * s.G * B[c]; return R; }
    VX mono_col(size_t j) const { VX v = VX::Zero(F.ex.size()); v(j) = 1; return v; }
};
// orthogonal projection: coefficients x with (B, B x) = (B, f)
inline MX l2(const MX& B, const MX& G, const MX& f) { return MX(B.transpose() * G * B).ldlt().solve(B.transpose() * G * f); }
inline double rel(const MX& A, const MX& B, const VX& na, const VX& nb) { if (A.rows() != B.rows() || A.cols() != B.cols() || !A.allFinite()) return 1e300; double r = 0; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) { double x = std::abs(A(i, j) - B(i, j)) / (na(i) * nb(j)); if (!(x <= r)) r = std::isfinite(x) ? x : 1e300; } return r; }
// the discrete space of one cell: polynomials on the cell and on every face (a face may carry no unknown)
template<typename M> struct dofs { const hcell<M>& c; MX C; std::vector<MX> B; std::vector<int> off; int n = 0; VX s;
    dofs(const hcell<M>& c_, size_t cd, const std::vector<int>& fd) : c(c_)
    {
        C = c.coefs(make_scalar_monomial_basis(c.m, c.cl, cd)); finish(fd, [&](const auto& s, size_t k) { return c.fcoefs(s, make_scalar_monomial_basis(c.m, s.fc, k)); });
    }
    template<typename FB> dofs(const hcell<M>& c_, const MX& C_, const std::vector<int>& fd, FB fb) : c(c_), C(C_) { finish(fd, fb); }
    template<typename FB> void finish(const std::vector<int>& fd, FB fb)
    {
        n = C.cols(); for (size_t i = 0; i < c.fs.size(); i++) { off.push_back(n); if (fd[i] < 0) { B.push_back(MX()); continue; } B.push_back(fb(c.fs[i], size_t(fd[i]))); n += B.back().cols(); }
        s = VX::Zero(n); for (int j = 0; j < C.cols(); j++) { double q = 0; for (auto& g : c.grad(C.col(j))) q += (g.transpose() * c.G * g).value(); for (auto& f : c.fs) { VX t = f.T * C.col(j); q += (t.transpose() * f.G * t).value() / c.h; } s(j) = std::sqrt(q); }
        for (size_t i = 0; i < B.size(); i++) for (int j = 0; j < B[i].cols(); j++) s(off[i] + j) = gnorm(B[i].col(j), c.fs[i].G)(0) / std::sqrt(c.h);
    }
    bool active(size_t i) const { return B[i].cols() > 0; }
    MX cellpart() const { MX R = MX::Zero(C.rows(), n); R.leftCols(C.cols()) = C; return R; }
    MX facepart(size_t i) const { MX R = MX::Zero(c.fs[i].G.rows(), n); if (active(i)) R.middleCols(off[i], B[i].cols()) = B[i]; return R; }
    VX interpolate(const MX& f) const { VX v(n); v.head(C.cols()) = l2(C, c.G, f); for (size_t i = 0; i < B.size(); i++) if (active(i)) v.segment(off[i], B[i].cols()) = l2(B[i], c.fs[i].G, c.fs[i].T * f); return v; } };
}
