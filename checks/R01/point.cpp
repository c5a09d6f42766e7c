// Point and vector arithmetic on all lattice points, componentwise exact.
#include "mc.hpp"
#include "diskpp/mesh/point.hpp"
#include "diskpp/mesh/rational.hpp"

template<typename T, size_t D> static std::vector<disk::point<T, D>> lattice(int lo, int hi)
{
    std::vector<disk::point<T, D>> r;
    std::array<int, D> c; c.fill(lo);
    while (true) {
        disk::point<T, D> p; for (size_t i = 0; i < D; i++) p[i] = T(c[i]);
        r.push_back(p);
        size_t i = 0; while (i < D && ++c[i] > hi) c[i++] = lo;
        if (i == D) break;
    }
    return r;
}
static double num(double x) { return x; }
static double num(const disk::rational<int64_t>& r) { return (double)r; }
template<typename P> static std::string ps(const P& p) { std::string s = "("; for (size_t i = 0; i < P::dimension; i++) s += mc::str(num(p[i]), " "); return s + ")"; }

template<typename T, size_t D> static void run(const char* name, int lo, int hi)
{
    using P = disk::point<T, D>;
    auto pts = lattice<T, D>(lo, hi);
    for (size_t i = 0; i < pts.size(); i++)
        mc::scenario(mc::str("point:", name, D, ":", i), [&]{
            const P a = pts[i];
            P c = a; mc::check(ps(c) == ps(a), "copy");
            P z; for (size_t k = 0; k < D; k++) mc::check(num(z[k]) == 0, "default");
            P sa; sa.set_all(a[0]); for (size_t k = 0; k < D; k++) mc::check(num(sa[k]) == num(a[0]), "set_all");
            bool thrown = false; try { a.at(D); } catch (const std::out_of_range&) { thrown = true; } mc::check(thrown, "at-range");
            for (auto& b : pts) {
                std::string h = ps(a) + ps(b);
                P s = a + b, d = a - b; P as; as = b;
                for (size_t k = 0; k < D; k++) {
                    mc::check(num(s[k]) == num(a[k]) + num(b[k]), "add", h);
                    mc::check(num(d.at(k)) == num(a[k]) - num(b[k]), "sub", h);
                    mc::check(num(as[k]) == num(b[k]), "assign", h);
                }
                for (int f : {-2, 1, 4}) {
                    P m = a * T(f), m2 = T(f) * a, q = a / T(f);
                    for (size_t k = 0; k < D; k++) mc::check(num(m[k]) == num(a[k]) * f && num(m2[k]) == num(a[k]) * f && num(q[k]) == num(a[k]) / f, "scale", h);
                }
                if constexpr (D == 2) mc::check(num(disk::det(a, b)) == num(a.x()) * num(b.y()) - num(a.y()) * num(b.x()), "det", h);
                if constexpr (D == 1) mc::check(num(P(b[0]).x()) == num(b[0]), "ctor", h);
                if constexpr (D == 2) { P c(b[0], b[1]); mc::check(num(c.x()) == num(b[0]) && num(c.y()) == num(b[1]), "ctor", h); c.x() = a[1]; c.y() = a[0]; mc::check(num(c[0]) == num(a[1]) && num(c[1]) == num(a[0]), "set", h); }
                if constexpr (D == 3) { P c(b[0], b[1], b[2]); mc::check(num(c.x()) == num(b[0]) && num(c.y()) == num(b[1]) && num(c.z()) == num(b[2]), "ctor", h); c.x() = a[1]; c.y() = a[2]; c.z() = a[0]; mc::check(num(c[0]) == num(a[1]) && num(c[1]) == num(a[2]) && num(c[2]) == num(a[0]), "set", h); }
                if constexpr (std::is_floating_point_v<T>) {
                    double n2 = 0; for (size_t k = 0; k < D; k++) n2 += (a[k] - b[k]) * (a[k] - b[k]);
                    mc::near(disk::distance(a, b), std::sqrt(n2), 1e-6, "distance", h);
                    P m = disk::midpoint(a, b), n = -a;
                    auto v = a.to_vector(), w = disk::to_vector(a);
                    P sv = b + v, vs = v + b, pv(v);
                    for (size_t k = 0; k < D; k++) {
                        mc::check(m[k] == (a[k] + b[k]) / 2, "midpoint", h);
                        mc::check(n[k] == -a[k], "negate", h);
                        mc::check(v(k) == a[k] && w(k) == a[k] && pv[k] == a[k], "to_vector", h);
                        mc::check(sv[k] == a[k] + b[k] && vs[k] == a[k] + b[k], "add-vector", h);
                    }
                }
            }
        });
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int h = mc::thorough() ? 3 : 2;
    run<double, 1>("double", -6, 6); run<double, 2>("double", -h, h); run<double, 3>("double", -h, mc::thorough() ? h : 1);
    run<float, 2>("float", -h, h); run<float, 3>("float", -1, 1);
    run<disk::rational<int64_t>, 1>("rational", -6, 6); run<disk::rational<int64_t>, 2>("rational", -h, h); run<disk::rational<int64_t>, 3>("rational", -1, 1);
    return mc::finish();
}
