// All simple lattice polygons up to a bound: counter-clockwise, one representative per rotation.
#pragma once
#include <vector>
#include <array>
#include <algorithm>
namespace mm {
using IP = std::array<int, 2>;
inline int icross(IP a, IP b, IP c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
inline bool onseg(IP a, IP b, IP p) { return icross(a, b, p) == 0 && std::min(a[0], b[0]) <= p[0] && p[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= p[1] && p[1] <= std::max(a[1], b[1]); }
inline int isgn(int x) { return (x > 0) - (x < 0); }
inline bool segx(IP a, IP b, IP c, IP d)
{
    if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true;
    return isgn(icross(a, b, c)) * isgn(icross(a, b, d)) < 0 && isgn(icross(c, d, a)) * isgn(icross(c, d, b)) < 0;
}
inline int area2(const std::vector<IP>& p) { int s = 0; for (size_t i = 0; i < p.size(); i++) { auto a = p[i], b = p[(i + 1) % p.size()]; s += a[0] * b[1] - b[0] * a[1]; } return s; }
inline bool simple(const std::vector<IP>& p)
{
    size_t n = p.size();
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) {
        IP a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
        if (j == i + 1) { if (onseg(a, b, d) || onseg(c, d, a)) return false; }
        else if (i == 0 && j == n - 1) { if (onseg(a, b, c) || onseg(c, d, b)) return false; }
        else if (segx(a, b, c, d)) return false;
    }
    return true;
}
inline bool convex(const std::vector<IP>& p) { size_t n = p.size(); for (size_t i = 0; i < n; i++) if (icross(p[i], p[(i + 1) % n], p[(i + 2) % n]) < 0) return false; return true; }
inline bool strictly_convex(const std::vector<IP>& p) { size_t n = p.size(); for (size_t i = 0; i < n; i++) if (icross(p[i], p[(i + 1) % n], p[(i + 2) % n]) <= 0) return false; return true; }
inline int side2(const std::vector<IP>& p, double x, double y) // 1 inside, 0 on the border, -1 outside
{
    bool in = false; size_t n = p.size();
    for (size_t i = 0; i < n; i++) {
        double ax = p[i][0], ay = p[i][1], bx = p[(i + 1) % n][0], by = p[(i + 1) % n][1];
        double c = (bx - ax) * (y - ay) - (by - ay) * (x - ax);
        if (c == 0 && std::min(ax, bx) <= x && x <= std::max(ax, bx) && std::min(ay, by) <= y && y <= std::max(ay, by)) return 0;
        if ((ay > y) != (by > y) && x < (bx - ax) * (y - ay) / (by - ay) + ax) in = !in;
    }
    return in ? 1 : -1;
}
// f(polygon) for all simple ccw polygons with n vertices among pts whose first vertex has the lowest index
template<typename F> void polygons(const std::vector<IP>& pts, size_t n, F f)
{
    std::vector<size_t> ix; std::vector<bool> used(pts.size()); std::vector<IP> p;
    auto rec = [&](auto&& self, size_t first) -> void {
        if (p.size() == n) { if (area2(p) > 0 && simple(p)) f(p); return; }
        for (size_t i = first + 1; i < pts.size(); i++) if (!used[i]) {
            size_t k = p.size(); bool ok = true;
            for (size_t j = 0; ok && j + 2 < k; j++) ok = !segx(p[j], p[j + 1], p[k - 1], pts[i]);
            if (ok && k >= 2) ok = !(onseg(p[k - 2], p[k - 1], pts[i]) || onseg(p[k - 1], pts[i], p[k - 2]));
            if (!ok) continue;
            used[i] = true; p.push_back(pts[i]); self(self, first); p.pop_back(); used[i] = false;
        } };
    for (size_t i = 0; i < pts.size(); i++) { p = {pts[i]}; used.assign(pts.size(), false); used[i] = true; rec(rec, i); }
}
inline std::vector<IP> lattice(int nx, int ny) { std::vector<IP> r; for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) r.push_back({i, j}); return r; }
// exact integral of x^a y^b over the polygon (coordinates transformed by s*x+t)
inline long double binoml(int n, int k) { long double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
// integral of (x)^a (y)^b over a polygon with real vertices, by Green: sum over edges of the exact polynomial integral
template<typename V> long double moment(const std::vector<V>& p, int a, int b)
{
    // int x^a y^b dA = 1/(a+1) * oint x^(a+1) y^b dy
    long double s = 0; size_t n = p.size();
    for (size_t i = 0; i < n; i++) {
        long double x0 = p[i][0], y0 = p[i][1], dx = p[(i + 1) % n][0] - x0, dy = p[(i + 1) % n][1] - y0, e = 0;
        for (int k = 0; k <= a + 1; k++) for (int l = 0; l <= b; l++)
            e += binoml(a + 1, k) * binoml(b, l) * powl(x0, a + 1 - k) * powl(dx, k) * powl(y0, b - l) * powl(dy, l) / (k + l + 1);
        s += e * dy / (a + 1);
    }
    return s;
}
} // namespace mm
