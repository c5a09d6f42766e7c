// Convex lattice polyhedra: all hulls of subsets of a small 3D lattice, with every lattice point of the
// subset that lies on an edge kept as a (hanging) vertex of the faces that meet there.
#pragma once
#include <array>
#include <vector>
#include <set>
#include <cmath>
#include <algorithm>
namespace mm {
using I3 = std::array<int, 3>;
inline I3 sub3(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline I3 crs3(I3 a, I3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline int dot3(I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline int det3(I3 a, I3 b, I3 c) { return dot3(a, crs3(b, c)); }
struct hull { std::vector<I3> pts; std::vector<std::vector<size_t>> faces; long vol6 = 0; }; // faces counter-clockwise seen from outside
inline bool make_hull(const std::vector<I3>& p, hull& h)
{
    h = {}; h.pts = p; size_t n = p.size(); if (n < 4) return false;
    std::set<std::vector<size_t>> seen; std::vector<char> on(n, 0);
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++) {
        I3 nn = crs3(sub3(p[j], p[i]), sub3(p[k], p[i])); if (dot3(nn, nn) == 0) continue;
        bool pos = false, neg = false; std::vector<size_t> f;
        for (size_t q = 0; q < n; q++) { int d = dot3(nn, sub3(p[q], p[i])); pos |= d > 0; neg |= d < 0; if (d == 0) f.push_back(q); }
        if (pos && neg) continue;
        if (!pos && !neg) return false; // flat
        if (!seen.insert(f).second) continue;
        if (pos) for (auto& x : nn) x = -x; // outward
        double c[3] = {0, 0, 0}; for (auto q : f) for (int d = 0; d < 3; d++) c[d] += double(p[q][d]) / f.size();
        double u[3]; for (int d = 0; d < 3; d++) u[d] = p[f[0]][d] - c[d];
        double w[3] = {nn[1] * u[2] - nn[2] * u[1], nn[2] * u[0] - nn[0] * u[2], nn[0] * u[1] - nn[1] * u[0]}; double ln = std::sqrt(double(dot3(nn, nn)));
        auto ang = [&](size_t q) { double a = 0, b = 0; for (int d = 0; d < 3; d++) { a += (p[q][d] - c[d]) * u[d]; b += (p[q][d] - c[d]) * w[d] / ln; } return std::atan2(b, a); };
        std::vector<std::pair<double, size_t>> s; for (auto q : f) s.push_back({ang(q), q}); std::sort(s.begin(), s.end());
        std::vector<size_t> cyc; for (auto& x : s) cyc.push_back(x.second);
        size_t m = cyc.size();
        for (size_t a = 0; a < m; a++) if (dot3(nn, crs3(sub3(p[cyc[(a + 1) % m]], p[cyc[a]]), sub3(p[cyc[(a + 2) % m]], p[cyc[(a + 1) % m]]))) < 0) return false; // a point inside the face
        // points inside a face can also sit between two others at a different radius: the turn test above rejects them
        for (auto q : f) on[q] = 1;
        h.faces.push_back(cyc);
        for (size_t a = 1; a + 1 < m; a++) h.vol6 += det3(p[cyc[0]], p[cyc[a]], p[cyc[a + 1]]);
    }
    for (auto c : on) if (!c) return false;
    return h.vol6 > 0;
}
inline std::vector<I3> lattice3(int nx, int ny, int nz) { std::vector<I3> r; for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) r.push_back({i, j, k}); return r; }
template<typename F> void hulls(const std::vector<I3>& L, unsigned lo, unsigned hi, F f, size_t maxv = 99)
{
    for (unsigned m = lo; m < hi; m++) {
        if (__builtin_popcount(m) < 4 || size_t(__builtin_popcount(m)) > maxv) continue;
        std::vector<I3> s; for (size_t i = 0; i < L.size(); i++) if (m >> i & 1) s.push_back(L[i]);
        hull h; if (make_hull(s, h)) f(m, h);
    }
}
} // namespace mm
