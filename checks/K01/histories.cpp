// All sequences of boundary-condition declarations up to a depth, on small
// meshes, each state compared with a per-face table.
#include "meshes.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
using namespace disk;
enum Kind { EV, DI, NE, RO, CO, CF, FA };
struct Op { Kind k; size_t type, id; };
struct Entry { bool on = false; size_t type, id; int fn = -1; };
struct Model { std::vector<Entry> d, n, r, c; double factor = 1; int nfn = 0; };
static std::string os(const Op& o) { static const char* n[] = {"everywhere", "dirichlet", "neumann", "robin", "contact", "contact+f", "factor"}; return mc::str(n[o.k], "(", o.type, ",", o.id, ")"); }

template<typename M, bool S> struct Explorer {
    using BC = BoundaryConditions<M, S>;
    using P = typename M::point_type;
    static constexpr size_t D = M::dimension;
    const M& msh; std::vector<Op> alphabet; std::string tag;
    std::vector<size_t> bid; std::vector<bool> isb; std::vector<typename M::face_type> fcs;
    std::set<std::string> seen; size_t depth;

    static auto fun(int k) {
        if constexpr (S) return [k](const P& p) -> double { return k + 1 + 0.25 * p[0]; };
        else return [k](const P& p) -> static_vector<double, D> { static_vector<double, D> v; for (size_t i = 0; i < D; i++) v(i) = k + 1 + 10. * i + 0.25 * p[0]; return v; };
    }
    template<typename V> static bool eq(const V& a, const V& b, double f) {
        if constexpr (std::is_same_v<V, double>) return std::abs(a - f * b) < 1e-12;
        else return (a - f * b).norm() < 1e-12;
    }
    template<typename G> static bool refuses(G g) { try { g(); } catch (const std::logic_error&) { return true; } return false; }

    void apply(BC& b, Model& m, const Op& o) {
        auto set = [&](std::vector<Entry>& t, bool all, bool withf) {
            int fn = withf ? m.nfn : -1;
            for (size_t i = 0; i < t.size(); i++) if (isb[i] && (all || bid[i] == o.id)) t[i] = {true, o.type, all ? 0 : o.id, fn};
        };
        switch (o.k) {
            case EV: b.addDirichletEverywhere(fun(m.nfn)); set(m.d, true, true); break;
            case DI: b.addDirichletBC(o.type, o.id, fun(m.nfn)); set(m.d, false, true); break;
            case NE: b.addNeumannBC(o.type, o.id, fun(m.nfn)); set(m.n, false, true); break;
            case RO: b.addRobinBC(o.type, o.id, fun(m.nfn)); set(m.r, false, true); break;
            case CO: b.addContactBC(o.type, o.id); set(m.c, false, false); break;
            case CF: { int k = m.nfn; b.addContactBC(o.type, o.id, [k](const P& p) -> double { return k + 0.5 * p[0]; }); set(m.c, false, true); break; }
            case FA: m.factor = o.id == 0 ? 0.5 : o.id == 1 ? -2. : 1.; b.multiplyAllFunctionsByAFactor(m.factor); break;
        }
        m.nfn++;
    }
    static size_t cnt(const std::vector<Entry>& t) { size_t r = 0; for (auto& e : t) r += e.on; return r; }

    void observe(const BC& b, const Model& m, const std::string& h) {
        mc::check(b.nb_faces_dirichlet() == cnt(m.d), "count-dirichlet", h); mc::check(b.nb_faces_neumann() == cnt(m.n), "count-neumann", h);
        mc::check(b.nb_faces_robin() == cnt(m.r), "count-robin", h); mc::check(b.nb_faces_contact() == cnt(m.c), "count-contact", h);
        mc::check(b.nb_faces_boundary() == cnt(m.d) + cnt(m.n) + cnt(m.r) + cnt(m.c), "count-total", h);
        for (size_t i = 0; i < fcs.size(); i++) {
            auto& fc = fcs[i]; std::string w = h + mc::str(" face ", i);
            P q = barycenter(msh, fc);
            mc::check(b.is_dirichlet_face(i) == m.d[i].on && b.is_dirichlet_face(fc) == m.d[i].on, "is-dirichlet", w);
            mc::check(b.is_neumann_face(i) == m.n[i].on && b.is_neumann_face(fc) == m.n[i].on, "is-neumann", w);
            mc::check(b.is_robin_face(i) == m.r[i].on && b.is_robin_face(fc) == m.r[i].on, "is-robin", w);
            mc::check(b.is_contact_face(i) == m.c[i].on && b.is_contact_face(fc) == m.c[i].on, "is-contact", w);
            auto ty = [](const Entry& e, size_t none) { return e.on ? e.type : none; };
            mc::check(b.dirichlet_boundary_type(i) == ty(m.d[i], NOTHING) && b.dirichlet_boundary_type(fc) == ty(m.d[i], NOTHING), "type-dirichlet", w);
            mc::check(b.neumann_boundary_type(i) == ty(m.n[i], FREE) && b.neumann_boundary_type(fc) == ty(m.n[i], FREE), "type-neumann", w);
            mc::check(b.robin_boundary_type(i) == ty(m.r[i], WHATEVER) && b.robin_boundary_type(fc) == ty(m.r[i], WHATEVER), "type-robin", w);
            mc::check(b.contact_boundary_type(i) == ty(m.c[i], NO_CONTACT) && b.contact_boundary_type(fc) == ty(m.c[i], NO_CONTACT), "type-contact", w);
            if (m.d[i].on) mc::check(b.dirichlet_boundary_id(i) == m.d[i].id && b.dirichlet_boundary_id(fc) == m.d[i].id && eq(b.dirichlet_boundary_func(i)(q), fun(m.d[i].fn)(q), m.factor) && eq(b.dirichlet_boundary_func(fc)(q), fun(m.d[i].fn)(q), m.factor), "value-dirichlet", w);
            else mc::check(refuses([&]{ b.dirichlet_boundary_func(i); }), "no-value-dirichlet", w);
            if (m.n[i].on) mc::check(b.neumann_boundary_id(i) == m.n[i].id && b.neumann_boundary_id(fc) == m.n[i].id && eq(b.neumann_boundary_func(i)(q), fun(m.n[i].fn)(q), m.factor) && eq(b.neumann_boundary_func(fc)(q), fun(m.n[i].fn)(q), m.factor), "value-neumann", w);
            else mc::check(refuses([&]{ b.neumann_boundary_func(i); }), "no-value-neumann", w);
            if (m.r[i].on) mc::check(b.robin_boundary_id(i) == m.r[i].id && b.robin_boundary_id(fc) == m.r[i].id && eq(b.robin_boundary_func(i)(q), fun(m.r[i].fn)(q), m.factor), "value-robin", w);
            else mc::check(refuses([&]{ b.robin_boundary_func(i); }), "no-value-robin", w);
            if (m.c[i].on) mc::check(b.contact_boundary_id(i) == m.c[i].id && b.contact_boundary_id(fc) == m.c[i].id, "id-contact", w);
            if (m.c[i].on && m.c[i].fn >= 0) mc::check(std::abs(b.contact_boundary_func(i)(q) - (m.c[i].fn + 0.5 * q[0])) < 1e-12, "value-contact", w);
            else mc::check(refuses([&]{ b.contact_boundary_func(i); }), "no-value-contact", w);
            for (size_t deg = 0; deg < 3; deg++) {
                size_t nb = D == 1 ? 1 : D == 2 ? deg + 1 : (deg + 1) * (deg + 2) / 2, e = 0; bool bad = false;
                if (m.d[i].on) switch (m.d[i].type) {
                    case DIRICHLET: e = S ? nb : D * nb; break; case NOTHING: e = 0; break;
                    case CLAMPED: e = D * nb; bad = S; break; case DX: case DY: e = nb; bad = S; break; case DZ: e = nb; bad = S || D < 3; break;
                    case DXDY: e = 2 * nb; bad = S; break; default: e = 2 * nb; bad = S || D < 3; }
                if (bad) mc::check(refuses([&]{ b.dirichlet_imposed_dofs(i, deg); }), "imposed-refused", w);
                else mc::check(b.dirichlet_imposed_dofs(i, deg) == e, "imposed-dofs", w + mc::str(" degree ", deg));
            }
        }
        size_t ci = 0;
        for (auto& cl : msh) {
            std::string w = h + mc::str(" cell ", ci++);
            bool hd = false, hn = false, hr = false; size_t nc = 0, nw = 0, tot = 0; std::vector<size_t> with, without, unk;
            for (auto id : faces_id(msh, cl)) { size_t i = id; tot++; hd |= m.d[i].on; hn |= m.n[i].on; hr |= m.r[i].on; nc += m.c[i].on;
                (m.c[i].on ? with : without).push_back(i); if (!(m.c[i].on && m.c[i].type == SIGNORINI_CELL)) unk.push_back(i); }
            mc::check(b.cell_has_dirichlet_faces(cl) == hd && b.cell_has_neumann_faces(cl) == hn && b.cell_has_robin_faces(cl) == hr && b.cell_has_contact_faces(cl) == (nc > 0), "cell-has", w);
            mc::check(b.howmany_contact_faces(cl) == nc && b.howmany_without_contact_faces(cl) == tot - nc, "cell-howmany", w);
            auto same = [&](const std::vector<typename M::face_type>& a, const std::vector<size_t>& e) { if (a.size() != e.size()) return false; for (size_t k = 0; k < a.size(); k++) if (msh.lookup(a[k]) != e[k]) return false; return true; };
            mc::check(same(b.faces_with_contact(cl), with) && same(b.faces_without_contact(cl), without) && same(b.faces_with_unknowns(cl), unk), "cell-contact-lists", w);
        }
        b.boundary_info();
    }
    static std::string fp(const Model& m) {
        std::string s = mc::str(m.factor);
        for (auto* t : {&m.d, &m.n, &m.r, &m.c}) { s += '|'; for (auto& e : *t) s += e.on ? mc::str(e.type, ",", e.id, ",", e.fn >= 0, ";") : std::string("-"); }
        return s;
    }
    void dfs(const BC& b, const Model& m, const std::string& h, size_t left) {
        observe(b, m, h);
        mc::state(tag + fp(m)); mc::trans();
        if (left == 0) { mc::trace(); return; }
        for (auto& o : alphabet) { BC b2(b); Model m2 = m; apply(b2, m2, o); dfs(b2, m2, h + os(o) + " ", left - 1); }
    }
    Explorer(const M& m, const std::string& t, std::vector<Op> a, size_t dep) : msh(m), alphabet(a), tag(t), depth(dep) {
        size_t i = 0;
        for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it, ++i) { fcs.push_back(*it); auto bi = msh.backend_storage()->boundary_info.at(i); isb.push_back(bi.is_boundary()); bid.push_back(bi.id()); }
    }
    void run() {
        for (size_t k = 0; k < alphabet.size(); k++)
            mc::scenario(mc::str("bc:", tag, ":", k, ":", os(alphabet[k])), [&]{
                BC b(msh); Model m; for (auto* t : {&m.d, &m.n, &m.r, &m.c}) t->resize(fcs.size());
                observe(b, m, "initially ");
                apply(b, m, alphabet[k]); dfs(b, m, os(alphabet[k]) + " ", depth - 1);
            });
    }
};
static std::vector<Op> alphabet(bool scalar, std::vector<size_t> ids, bool small)
{
    std::vector<Op> a{{EV, DIRICHLET, 0}, {FA, 0, 0}, {FA, 0, 1}};
    for (auto i : ids) {
        std::vector<size_t> dt{DIRICHLET, NOTHING}; if (!scalar) dt = {DIRICHLET, CLAMPED, DX, DY, DZ, DXDY, DXDZ, DYDZ, NOTHING};
        if (small && !scalar) dt = {CLAMPED, DX, DXDY};
        for (auto t : dt) a.push_back({DI, t, i});
        a.push_back({NE, NEUMANN, i}); if (!small) a.push_back({NE, FREE, i});
        a.push_back({RO, ROBIN, i});
        for (size_t t : {SIGNORINI, SIGNORINI_FACE, SIGNORINI_CELL}) { if (small && t == SIGNORINI) continue; a.push_back({CO, t, i}); a.push_back({CF, t, i}); }
    }
    return a;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool th = mc::thorough();
    mm::tri2 two; mm::tris(two, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}, {{0, 1, 2}, {1, 2, 3}});
    mm::tri2 same; mm::tris(same, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}, {{0, 1, 2}, {1, 2, 3}}); mm::mark_boundary(same, [](const auto& b) { return b[0] > 0.9 ? 5 : 3; });
    mm::tet3 tet; mm::tets(tet, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}}, {{0, 1, 2, 3}, {1, 2, 3, 4}});
    mm::gen1 seg; mm::segs(seg, {0, 0.5, 1});
    mm::car2 car; mm::grid2(car, {0, 0.5, 1}, {0, 1});
    Explorer<mm::tri2, true>(two, "scalar:two", alphabet(true, {0, 3, 7}, false), 3).run();
    Explorer<mm::tri2, false>(two, "vector:two", alphabet(false, {1, 2, 7}, false), 2).run();
    Explorer<mm::tri2, false>(same, "vector:shared-ids", alphabet(false, {3, 5}, true), 3).run();
    Explorer<mm::car2, true>(car, "scalar:car", alphabet(true, {1, 2}, true), th ? 4 : 3).run();
    Explorer<mm::tet3, false>(tet, "vector:tet", alphabet(false, {0, 2, 9}, false), 2).run();
    Explorer<mm::tet3, true>(tet, "scalar:tet", alphabet(true, {0, 9}, true), th ? 4 : 3).run();
    Explorer<mm::gen1, true>(seg, "scalar:seg", alphabet(true, {0, 1}, true), th ? 4 : 3).run();
    return mc::finish();
}
