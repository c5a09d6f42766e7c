// Explicit-state exploration of rational arithmetic: breadth-first search over
// the values reachable by sequences of operators, against exact fractions.
#include "mc.hpp"
#include <deque>
#include <cstdint>
#include "diskpp/mesh/rational.hpp"

using R = disk::rational<int64_t>;
struct Q { __int128 n, d; };      // d > 0, lowest terms
static __int128 g(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { auto t = a % b; a = b; b = t; } return a; }
static Q mk(__int128 n, __int128 d) { if (d < 0) { n = -n; d = -d; } auto k = g(n, d); if (k == 0) k = 1; return {n / k, d / k}; }
static std::string s(Q q) { return mc::str((long long)q.n, "/", (long long)q.d); }
static int cmp(Q a, Q b) { auto l = a.n * b.d, r = b.n * a.d; return l < r ? -1 : l > r ? 1 : 0; }

static bool same(const R& r, Q q) { return (__int128)r.num() * q.d == (__int128)r.den() * q.n; }
static std::string s(const R& r) { return mc::str(r.num(), "/", r.den()); }

static void observe(const R& r, Q q, const std::string& h)
{
    mc::check(r.den() > 0, "denominator-sign", h + " -> " + s(r));
    mc::check(same(r, q), "value", h + " -> " + s(r) + " expected " + s(q));
    mc::near(double(r), (double)q.n / (double)q.d, 1e-15, "to-double", h);
    mc::near(float(r), (float)((double)q.n / (double)q.d), 1e-6, "to-float", h);
    mc::check((disk::sgn(r) == disk::rational_sign::POSITIVE) == (q.n >= 0), "sgn", h);
    mc::check(same(-r, {-q.n, q.d}) && (-r).den() > 0, "negate", h);
    mc::check(same(disk::abs(r), {q.n < 0 ? -q.n : q.n, q.d}), "abs", h);
    if (q.n != 0) { R i = disk::inv(r); mc::check(same(i, mk(q.d, q.n)) && i.den() > 0, "inv", h); }
    R t = r; t.simplify();
    mc::check(t.num() == (int64_t)q.n && t.den() == (int64_t)q.d, "simplify", h + " -> " + s(t));
}
static void compare(const R& a, Q qa, const R& b, Q qb, const std::string& h)
{
    int c = cmp(qa, qb);
    mc::check((a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), "compare", h);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const int N = mc::thorough() ? 9 : 6;
    // 1. every constructor argument pair, every operator on every pair
    std::vector<std::pair<R, Q>> vals;
    for (int n = -N; n <= N; n++) for (int d = -N; d <= N; d++) if (d) vals.push_back({R(n, d), mk(n, d)});
    for (int n = -N; n <= N; n++) vals.push_back({R(n), mk(n, 1)});
    vals.push_back({R(), mk(0, 1)});
    for (size_t i = 0; i < vals.size(); i++)
        mc::scenario(mc::str("pairs:", i, ":", s(vals[i].second)), [&]{
            auto [a, qa] = vals[i];
            observe(a, qa, "construct");
            std::ostringstream os; os << a;
            mc::check(os.str() == s(a), "print", os.str());
            for (auto& [b, qb] : vals) {
                std::string h = s(a) + " , " + s(b);
                Q add = mk(qa.n * qb.d + qb.n * qa.d, qa.d * qb.d), sub = mk(qa.n * qb.d - qb.n * qa.d, qa.d * qb.d), mul = mk(qa.n * qb.n, qa.d * qb.d);
                observe(a + b, add, "+ " + h); observe(a - b, sub, "- " + h); observe(a * b, mul, "* " + h);
                R x = a; x += b; observe(x, add, "+= " + h);
                x = a; x -= b; observe(x, sub, "-= " + h);
                x = a; x *= b; observe(x, mul, "*= " + h);
                if (qb.n) {
                    Q dv = mk(qa.n * qb.d, qa.d * qb.n);
                    observe(a / b, dv, "/ " + h);
                    x = a; x /= b; observe(x, dv, "/= " + h);
                }
                compare(a, qa, b, qb, "compare " + h);
                compare(a + b, add, a * b, mul, "compare results of + and * on " + h);
                // aliasing
                x = a; x += x; observe(x, mk(2 * qa.n, qa.d), "x+=x"); x = a; x *= x; observe(x, mk(qa.n * qa.n, qa.d * qa.d), "x*=x");
                x = a; x -= x; observe(x, mk(0, 1), "x-=x");
            }
            for (int64_t k = -N; k <= N; k++) {
                std::string h = s(a) + " , int " + mc::str(k);
                observe(a * k, mk(qa.n * k, qa.d), "*int " + h);
                R x = a; x *= k; observe(x, mk(qa.n * k, qa.d), "*=int " + h);
                if (k) { observe(a / k, mk(qa.n, qa.d * k), "/int " + h); x = a; x /= k; observe(x, mk(qa.n, qa.d * k), "/=int " + h);
                         compare(a / k, mk(qa.n, qa.d * k), a, qa, "compare after /int " + h); }
            }
        });
    // 2. breadth-first search: values reachable by operator sequences. A state is
    // the internal representation reached, so that unreduced forms are kept apart.
    struct St { R r; Q q; int depth; std::string h; };
    std::deque<St> todo;
    std::set<std::pair<int64_t, int64_t>> seen;
    std::vector<std::pair<R, Q>> opnd;
    for (int n : {-3, -2, -1, 1, 2, 3}) for (int d : {1, 2, 3, -2}) opnd.push_back({R(n, d), mk(n, d)});
    const int depth = mc::thorough() ? 5 : 4;
    mc::scenario("bfs", [&]{
        auto push = [&](R r, Q q, int d, const std::string& h) {
            auto key = std::make_pair(r.num(), r.den());
            // exact arithmetic in 64 bit: leave out values too large to multiply
            if (std::abs(r.num()) > 2000000 || std::abs(r.den()) > 2000000) { mc::count("pruned"); return; }
            if (!seen.insert(key).second) return;
            mc::state("bfs" + s(r));
            todo.push_back({r, q, d, h});
        };
        push(R(), mk(0, 1), 0, "0");
        while (!todo.empty()) {
            St st = todo.front(); todo.pop_front();
            if (st.depth == depth) continue;
            for (auto& [b, qb] : opnd) for (int op = 0; op < 8; op++) {
                R r = st.r; Q q; std::string h = st.h + " " + "+-*/pmid"[op] + " " + s(b);
                if (op >= 6 && b.den() != 1) continue;
                switch (op) {
                    case 0: r += b; q = mk(st.q.n * qb.d + qb.n * st.q.d, st.q.d * qb.d); break;
                    case 1: r -= b; q = mk(st.q.n * qb.d - qb.n * st.q.d, st.q.d * qb.d); break;
                    case 2: r *= b; q = mk(st.q.n * qb.n, st.q.d * qb.d); break;
                    case 3: r /= b; q = mk(st.q.n * qb.d, st.q.d * qb.n); break;
                    case 4: r = b - st.r; q = mk(qb.n * st.q.d - st.q.n * qb.d, st.q.d * qb.d); break;
                    case 5: if (st.q.n == 0) continue; r = b / st.r; q = mk(qb.n * st.q.d, qb.d * st.q.n); break;
                    case 6: r = st.r * b.num(); q = mk(st.q.n * qb.n, st.q.d); break;
                    default: r = st.r / b.num(); q = mk(st.q.n, st.q.d * qb.n); break;
                }
                mc::trace();
                observe(r, q, h);
                for (auto& [c, qc] : opnd) compare(r, q, c, qc, h + " compared with " + s(c));
                push(r, q, st.depth + 1, h);
                if (mc::ctx().viols.size() > 60) return;
            }
        }
    });
    // gcd / lcm
    mc::scenario("gcd-lcm", [&]{
        for (int64_t a = 1; a <= 60; a++) for (int64_t b = 1; b <= 60; b++) {
            mc::check(disk::gcd(a, b) == (int64_t)g(a, b), "gcd", mc::str(a, ",", b));
            mc::check(disk::lcm(a, b) == (int64_t)(a * b / g(a, b)), "lcm", mc::str(a, ",", b));
        }
    });
    return mc::finish();
}
