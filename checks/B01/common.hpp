#pragma once
#include "scalarbasis.hpp"
using namespace mm;
template<typename M> void cells_and_faces(const std::string& nm, const M& m, size_t kmax, bool inertia_too = true)
{
    using P = typename M::point_type; constexpr int D = M::dimension; using C = typename M::cell;
    auto each = [&](auto fn) { for (int in = 0; in < (D > 1 && inertia_too ? 2 : 1); in++) for (size_t k = 0; k <= kmax; k++) fn(k, bool(in)); };
    size_t ic = 0; for (auto& cl : m) { auto p = points(m, cl); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D>(pts); mc::state(nm + mc::str(" cell ", ic));
        each([&](size_t k, bool in) { std::string w = nm + mc::str(" cell ", ic, " degree ", k, in ? " inertia axes" : ""); auto b = make_scalar_monomial_basis(m, cl, k, in); size_t n = binom(k + D, D); mc::check(disk::scalar_basis_size(k, D) == n, "size-formula", w);
            MX co = scalar_basis<D, P>(w, fr, b, k, n); nested<D, decltype(b)>(w, co, k, true); gradients<D, P>(w, fr, b, co, k); mc::trace();
            if constexpr (D == 2) { bool ok = true; for (double s : {-0.7, 0.1, 0.9}) { auto x = fr.at({s, 0.3 - s}); auto g = b.eval_gradients(x); auto c = b.eval_curls2(x); for (size_t i = 0; i < b.size(); i++) ok = ok && c(i, 0) == g(i, 1) && c(i, 1) == -g(i, 0); } mc::check(ok, "curl", w); }
            // the basis of the next degree extends this one
            if (co.size()) { auto b2 = make_scalar_monomial_basis(m, cl, k + 1, in); bool ok = true; for (double s : {-0.7, 0.1, 0.9}) { std::array<double, D> u; for (int d = 0; d < D; d++) u[d] = s * (1 - 0.4 * d); auto x = b.eval_functions(fr.at(u)); auto y = b2.eval_functions(fr.at(u)); for (int i = 0; i < x.size(); i++) ok = ok && std::abs(x(i) - y(i)) <= 1e-12 * std::max(1., std::abs(x(i))); } mc::check(ok, "extends", w); }
            // complex coefficients: same functions
            if (k <= 2) { auto bc = disk::make_scalar_monomial_basis<M, C, std::complex<double>>(m, cl, k, in); std::array<double, D> u; u.fill(0.37); auto x = b.eval_functions(fr.at(u)); auto y = bc.eval_functions(fr.at(u)); auto gx = b.eval_gradients(fr.at(u)); auto gy = bc.eval_gradients(fr.at(u)); bool ok = x.size() == y.size() && gx.rows() == gy.rows(); for (int i = 0; ok && i < x.size(); i++) { ok = y(i) == std::complex<double>(x(i)); for (int d = 0; d < D; d++) ok = ok && gy(i, d) == std::complex<double>(gx(i, d)); } mc::check(ok, "complex", w); }
        });
        ic++; }
    size_t jf = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, jf++) { const typename M::face& fc = *it; 
        if constexpr (D == 1) { auto b = make_scalar_monomial_basis(m, fc, 2); auto pt = points(m, fc)[0]; mc::check(b.size() == 1 && b.eval_functions(pt).size() == 1 && b.eval_functions(pt)(0) == 1, "point-basis", nm + mc::str(" face ", jf)); }
        else { auto p = points(m, fc); std::vector<P> pts(p.begin(), p.end()); auto fr = make_frame<P, D - 1>(pts); mc::state(nm + mc::str(" face ", jf));
            each([&](size_t k, bool in) { std::string w = nm + mc::str(" face ", jf, " degree ", k, in ? " inertia axes" : ""); auto b = make_scalar_monomial_basis(m, fc, k, in); size_t n = binom(k + D - 1, D - 1); mc::check(disk::scalar_basis_size(k, D - 1) == n, "size-formula", w);
                MX co = scalar_basis<D - 1, P>(w, fr, b, k, n); nested<D - 1, decltype(b)>(w, co, k, true); mc::trace(); }); } }
}
