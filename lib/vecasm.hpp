// Conditions on the boundary faces of vector problems and the constraints they stand for.
#pragma once
#include "asmlib.hpp"
#include "diskpp/methods/hho"
namespace mm {
struct vcond { const char* name; int type; unsigned comps; bool clamped, neumann, contact; };
// comps: bit mask of the constrained components
inline std::vector<vcond> vconds(int D, bool contact)
{
    using namespace disk; unsigned full = (1u << D) - 1; std::vector<vcond> r{{".", -1, 0, false, false, false}, {"D", DIRICHLET, full, false, false, false}, {"C", CLAMPED, full, true, false, false}, {"N", -1, 0, false, true, false}};
    struct pt { const char *n, *nn; int t; unsigned c; }; std::vector<pt> parts{{"x", "xN", DX, 1}, {"y", "yN", DY, 2}, {"xy", "xyN", DXDY, 3}}; if (D == 3) { parts.push_back({"z", "zN", DZ, 4}); parts.push_back({"xz", "xzN", DXDZ, 5}); parts.push_back({"yz", "yzN", DYDZ, 6}); }
    for (auto& p : parts) { r.push_back({p.n, p.t, p.c, false, false, false}); r.push_back({p.nn, p.t, p.c, false, true, false}); } if (contact) r.push_back({"S", -1, 0, false, false, true}); return r;
}
template<typename M> auto vector_fun(int k, int deg) { constexpr int D = M::dimension; return [k, deg](const typename M::point_type& p) { disk::static_vector<double, D> r; for (int a = 0; a < D; a++) r(a) = polyval(k + 5 * a, deg, p); return r; }; }
template<typename M> disk::vector_boundary_conditions<M> vconditions(const M& m, const std::vector<size_t>& bf, const std::vector<int>& a, const std::vector<vcond>& tab, int deg)
{
    disk::vector_boundary_conditions<M> bnd(m); for (size_t i = 0; i < a.size(); i++) { auto& t = tab[a[i]]; size_t id = 100 + bf[i]; if (t.type >= 0) bnd.addDirichletBC(t.type, id, vector_fun<M>(i, deg)); if (t.neumann) bnd.addNeumannBC(disk::NEUMANN, id, vector_fun<M>(i + 11, deg)); if (t.contact) bnd.addContactBC(disk::SIGNORINI_FACE, id); } return bnd;
}
template<typename M> void vset(asmcase<M>& C, const std::vector<int>& a, const std::vector<vcond>& tab, int deg)
{
    C.reset(); for (size_t i = 0; i < a.size(); i++) { auto& t = tab[a[i]]; size_t f = C.bf[i]; int o = C.off[f], n = C.nd[f]; if (!n) continue; VX v = C.on_face(f, [&](const auto& p, int c) { return polyval(int(i) + 5 * c, deg, p); }, true); for (int q = 0; q < n; q++) if (t.comps >> (q % C.nc) & 1) { C.fixed[o + q] = 1; C.g(o + q) = t.clamped ? 0 : v(q); }
        if (t.neumann) C.extra.segment(o, n) += C.on_face(f, [&](const auto& p, int c) { return polyval(int(i) + 11 + 5 * c, deg, p); }, false); }
}
// every assignment that gives at most `k` faces something else than the background condition; backgrounds: nothing, full Dirichlet
template<typename F> void deviations(size_t nb, int base, int k, F f)
{
    for (int bg = 0; bg < 2; bg++) { std::vector<int> a(nb, bg); std::function<void(size_t, int)> rec = [&](size_t from, int left) { f(a); if (!left) return; for (size_t i = from; i < nb; i++) { for (int v = 0; v < base; v++) if (v != bg) { a[i] = v; rec(i + 1, left - 1); } a[i] = bg; } }; rec(0, k); }
}
template<typename M> std::string vtext(const std::string& nm, const std::vector<int>& a, const std::vector<vcond>& tab) { std::string s = nm + " faces"; for (int x : a) s += std::string(" ") + tab[x].name; return s; }
}
