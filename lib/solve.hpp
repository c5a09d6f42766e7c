// Complete solvers put together from the library's pieces the way the applications do, and problems whose solution is a polynomial.
#pragma once
#include "hhostab.hpp"
#include "hhovec.hpp"
#include "asmlib.hpp"
#include "diskpp/methods/hho"
namespace mm {
struct gmono { int e[3] = {0, 0, 0}; int deg() const { return e[0] + e[1] + e[2]; }
    static double pw(double x, int k, int d) { if (d > k) return 0; double c = 1; for (int i = 0; i < d; i++) c *= k - i; return c * std::pow(x, k - d); }
    template<typename P> double at(const P& p, std::array<int, 3> d = {0, 0, 0}) const { double r = 1; for (size_t i = 0; i < P::dimension; i++) r *= pw(p[i], e[i], d[i]); return r; }
    template<typename P> double d(const P& p, int a) const { std::array<int, 3> k{0, 0, 0}; k[a]++; return at(p, k); }
    template<typename P> double dd(const P& p, int a, int b) const { std::array<int, 3> k{0, 0, 0}; k[a]++; k[b]++; return at(p, k); }
    std::string text() const { return mc::str("x^", e[0], "y^", e[1], "z^", e[2]); } };
inline std::vector<gmono> gmonos(int D, int n) { std::vector<gmono> r; for (int k = 0; k <= n; k++) for (int i = k; i >= 0; i--) for (int j = k - i; j >= 0; j--) { if ((D < 2 && j) || (D < 3 && k - i - j)) continue; gmono g; g.e[0] = i; g.e[1] = j; g.e[2] = k - i - j; r.push_back(g); } return r; }
enum { DRC, NEU, ROB };
// a mesh with one boundary id per side of the domain, or per boundary face when there are few of them
template<typename M> struct world { static constexpr int D = M::dimension; using P = typename M::point_type; const M& m; std::vector<hcell<M>> cells; std::vector<std::vector<size_t>> cf; std::map<size_t, VX> normals; std::vector<size_t> ids;
    world(M& m_, int nmax) : m(m_)
    {
        size_t nb = 0, i = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it) nb += m.is_boundary(*it); bool each = nb <= (D == 3 ? 6 : 5); std::map<size_t, std::pair<VX, size_t>> flat; auto st = m_.backend_storage(); cells.reserve(m.cells_size()); for (auto& cl : m) cells.emplace_back(m, cl, nmax);
        // faces with the same outward normal share an id unless every face gets its own
        for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++i) if (m.is_boundary(*it)) { VX n; for (auto& c : cells) for (auto& s : c.fs) if (s.fc == *it) n = s.n; size_t id = 100 + i; if (!each) for (auto& [k, v] : flat) if ((v.first - n).norm() < 1e-12) id = k; flat[id] = {n, i}; st->boundary_info[i] = disk::boundary_descriptor(id, true); normals[id] = n; }
        for (auto& [k, v] : normals) ids.push_back(k);
        for (auto& c : cells) { std::vector<size_t> v; for (auto& s : c.fs) { size_t k = 0; for (auto it = m.faces_begin(); !(*it == s.fc); ++it) k++; v.push_back(k); } cf.push_back(v); }
    }
    // all choices of conditions for the sides; f(choice)
    template<typename F> void choices(int base, size_t cap, F f) const { size_t tot = std::pow(base, ids.size()) + 0.5; if (tot > cap) { base = 2; tot = size_t(1) << ids.size(); } for (size_t k = 0; k < tot; k++) { std::vector<int> a(ids.size()); size_t z = k; for (auto& x : a) x = z % base, z /= base; if (std::count(a.begin(), a.end(), NEU) == int(a.size())) continue; f(a); } }
    MX local(size_t c, const std::function<double(const P&)>& g) const { auto& h = cells[c]; MX V(h.F.u.size(), 1); for (size_t k = 0; k < h.F.u.size(); k++) V(k, 0) = g(h.fr.at(h.F.u[k])); return h.F.coef(V); }
};
inline std::string ctext(const std::vector<int>& a) { std::string s = " sides "; for (int x : a) s += "DNR"[x]; return s; }
// solves with a factorization kept as long as the matrix stays the same
struct dense_solver { MX A; Eigen::PartialPivLU<MX> lu; bool ok = true; VX operator()(const MX& L, const VX& b) { if (b.size() == 0) return b; if (A.rows() != L.rows() || A != L) { A = L; lu.compute(A); ok = A.allFinite() && lu.rcond() > 1e-13; } return lu.solve(b); } };
// the recovered unknowns of all cells against the interpolant
struct judge { std::vector<VX> s, I; double scale = 0, worst = 0;
    void expect(const VX& w, const VX& v) { s.push_back(w); I.push_back(v); scale = std::max(scale, w.cwiseProduct(v).norm()); }
    void got(size_t c, const VX& x) { double e = x.size() == I[c].size() && x.allFinite() ? s[c].cwiseProduct(x - I[c]).norm() : 1e300; worst = std::max(worst, e); }
    void end(const std::string& w, bool regular, double tol) { mc::check(regular, "singular", w); mc::check(worst <= tol * scale, "solution", w + mc::str(" error ", worst / scale)); mc::trace(); mc::trans(s.size()); } };
}
