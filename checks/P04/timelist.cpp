// Explicit-state exploration of the time-step list: BFS over split/complete
// histories from every small initial list, compared with an exact model.
#include "mc.hpp"
#include "diskpp/mechanics/NewtonSolver/TimeManager.hpp"
#include <deque>

using namespace disk::mechanics;

// Reference model: exact list of (start,end,level), completed counter.
struct Model {
    struct S { double a, b; size_t lev; };
    std::deque<S> q; size_t done = 0; double last_end = 0.0;
};

static void compare(const ListOfTimeStep<double>& L0, const Model& m, double tend, const char* where)
{
    ListOfTimeStep<double> L = L0;      // drained copy
    mc::check(L.numberOfTimeStepRealized() == m.done, "count-done", where);
    mc::check(L.numberOfRemainingTimeStep() == m.q.size(), "count-remaining",
              mc::str(where, " remaining=", L.numberOfRemainingTimeStep(), " expected ", m.q.size()));
    mc::check(L.numberOfTimeStep() == m.q.size() + m.done, "count-total", where);
    mc::check(L.indexOfCurrentTimeStep() == m.done + 1, "index", where);
    mc::check(L.empty() == m.q.empty(), "empty", where);
    double prev = m.last_end;
    double tol = 1e-12 * std::max(1.0, tend);
    size_t i = 0;
    while (!L.empty() && i < m.q.size() + 3) {
        auto s = L.getCurrentTimeStep();
        mc::check(std::abs(s.start_time() - prev) <= tol, "gap", mc::str(where, " step ", i, " starts at ", s.start_time(), " previous end ", prev));
        mc::check(s.end_time() > s.start_time(), "positive-length", mc::str(where, " step ", i));
        mc::check(std::abs(s.increment_time() - (s.end_time() - s.start_time())) <= tol, "increment", where);
        if (i < m.q.size()) {
            mc::check(std::abs(s.start_time() - m.q[i].a) <= tol, "start", where);
            mc::check(std::abs(s.end_time() - m.q[i].b) <= tol, "end", where);
            mc::check(s.level() == m.q[i].lev, "level", mc::str(where, " step ", i, " level ", s.level(), " expected ", m.q[i].lev));
        }
        prev = s.end_time();
        L.removeCurrentTimeStep(); i++;
    }
    mc::check(i == m.q.size(), "drain-count", where);
    if (i > 0 || !m.q.empty())
        mc::check(std::abs(prev - tend) <= tol, "final-time", mc::str(where, " last step ends at ", prev, " requested ", tend));
}

static Model make_model(const std::vector<std::pair<double,size_t>>& v)
{
    Model m; double t = 0;
    for (auto& [e, n] : v) {
        for (size_t i = 0; i < n; i++)
            m.q.push_back({t + (e - t) * double(i) / double(n), t + (e - t) * double(i + 1) / double(n), 0});
        t = e;
    }
    return m;
}

static void explore(const std::string& name, const ListOfTimeStep<double>& L, const Model& m0, double tend, int depth)
{
    struct Node { ListOfTimeStep<double> L; Model m; std::string h; };
    std::deque<Node> fr; fr.push_back({L, m0, ""});
    std::set<std::string> seen;
    while (!fr.empty()) {
        Node n = fr.front(); fr.pop_front();
        std::ostringstream fp; fp.precision(17);
        for (auto& s : n.m.q) fp << s.a << "," << s.b << "," << s.lev << ";";
        fp << n.m.done;
        if (!seen.insert(fp.str()).second) continue;
        mc::state(name + fp.str());
        compare(n.L, n.m, tend, ("history " + n.h).c_str());
        if ((int)n.h.size() >= depth || n.m.q.empty()) continue;
        { // split
            Node c = n; c.h += 's';
            auto s = c.m.q.front(); c.m.q.pop_front();
            double mid = s.a + (s.b - s.a) / 2;
            c.m.q.push_front({mid, s.b, s.lev + 1}); c.m.q.push_front({s.a, mid, s.lev + 1});
            c.L.splitCurrentTimeStep(); mc::trans(); mc::trace();
            fr.push_back(c);
        }
        { // complete
            Node c = n; c.h += 'r';
            c.m.last_end = c.m.q.front().b; c.m.q.pop_front(); c.m.done++;
            c.L.removeCurrentTimeStep(); mc::trans(); mc::trace();
            fr.push_back(c);
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int depth = mc::thorough() ? 12 : 9;
    std::vector<double> ends = {1.0, 0.3, 0.7, 10.0, 1e-3, 3.3};
    // every uniform list
    size_t nmax = mc::thorough() ? 400 : 130;
    std::vector<double> allends;
    for (int i = 1; i <= 60; i++) { allends.push_back(i / 10.0); allends.push_back(i * 0.01); allends.push_back(i / 7.0); }
    allends.push_back(1e6); allends.push_back(1e-6);
    for (double e : allends)
        for (size_t n = 1; n <= nmax; n++)
            mc::scenario(mc::str("uniform:", e, ":", n), [&]{
                ListOfTimeStep<double> L(e, n);
                compare(L, make_model({{e, n}}), e, "initial");
            });
    // list of intervals
    std::vector<double> cut = {0.1, 0.3, 0.5, 0.7, 0.9, 1.0, 1.1, 2.3};
    size_t nm = mc::thorough() ? 12 : 7;
    for (size_t i = 0; i < cut.size(); i++)
        for (size_t j = i + 1; j < cut.size(); j++)
            for (size_t a = 1; a <= nm; a++)
                for (size_t b = 1; b <= nm; b++)
                    mc::scenario(mc::str("two:", cut[i], "x", a, ":", cut[j], "x", b), [&]{
                        std::vector<std::pair<double,size_t>> v = {{cut[i], a}, {cut[j], b}};
                        ListOfTimeStep<double> L(v);
                        compare(L, make_model(v), cut[j], "initial");
                        ListOfTimeStep<double> L2(v, cut[j]);
                        compare(L2, make_model(v), cut[j], "initial with final time");
                    });
    for (size_t i = 0; i < cut.size(); i++)
        for (size_t j = i + 1; j < cut.size(); j++)
            for (size_t k = j + 1; k < cut.size(); k++)
                for (int abc = 0; abc < 64; abc++)
                    mc::scenario(mc::str("three:", cut[i], ":", cut[j], ":", cut[k], ":", abc), [&]{
                        std::vector<std::pair<double,int>> v = {{cut[i], 1 + abc % 4}, {cut[j], 1 + abc / 4 % 4}, {cut[k], 1 + abc / 16}};
                        std::vector<std::pair<double,size_t>> w;
                        for (auto& p : v) w.push_back({p.first, (size_t)p.second});
                        ListOfTimeStep<double> L(v);
                        compare(L, make_model(w), cut[k], "initial");
                    });
    // a final time inside the list stops the list at a step boundary <= final
    for (size_t n = 1; n <= 10; n++)
        for (size_t m = 1; m < n; m++)
            mc::scenario(mc::str("final:", n, ":", m), [&]{
                std::vector<std::pair<double,size_t>> v = {{double(n), n}};
                ListOfTimeStep<double> L(v, double(m));
                compare(L, make_model({{double(m), m}}), double(m), "truncated");
            });
    // histories
    for (double e : ends)
        for (size_t n = 1; n <= 4; n++)
            mc::scenario(mc::str("history:", e, ":", n), [&]{
                ListOfTimeStep<double> L(e, n);
                explore(mc::str(e, "/", n, "/"), L, make_model({{e, n}}), e, depth);
            });
    for (size_t a = 1; a <= 3; a++)
        for (size_t b = 1; b <= 3; b++)
            mc::scenario(mc::str("history2:", a, ":", b), [&]{
                std::vector<std::pair<double,size_t>> v = {{0.4, a}, {1.0, b}};
                explore(mc::str("h2", a, "/", b, "/"), ListOfTimeStep<double>(v), make_model(v), 1.0, depth);
            });
    // an empty default list
    mc::scenario("default", [&]{
        ListOfTimeStep<double> L;
        mc::check(L.empty() && L.numberOfTimeStep() == 0, "default-empty");
    });
    return mc::finish();
}
