// Quadrature-point storage of the behaviour laws: every interleaving of
// evaluations at different points and commits, for every law of the dispatcher,
// against independent stand-alone points.
#include "../P02/laws.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
typedef simplicial_mesh<double, 2> mesh_t;
typedef M2<2> M;

template<typename Q> static void explore(const char* name, size_t def, size_t law, const MaterialData<double>& d, int depth)
{
    mesh_t msh; auto mesher = make_simple_mesher(msh);
    const int deg = 2; const bool large = def != DeformationMeasure::SMALL_DEF;
    std::vector<M> vals; { M a; a << 0.02, 0.01, 0.01, -0.03; vals.push_back(a); a << -0.05, 0.0, 0.0, 0.01; vals.push_back(a); }
    if (large) for (auto& v : vals) v += M::Identity();
    Behavior<mesh_t> b(msh, deg, def, law); b.addMaterialData(d);
    mc::check(b.getDeformation() == def, "deformation"); mc::check(b.getMaterialData().getMu() == d.getMu(), "material");
    mc::check(!b.getLawName().empty() && !b.getDeformationName().empty(), "names");
    std::vector<std::vector<Q>> ref; size_t tot = 0, ci = 0;
    for (auto& cl : msh) { ref.emplace_back(); for (auto& qp : integrate(msh, cl, deg)) ref.back().push_back(Q(qp.point(), qp.weight()));
        mc::check(b.numberOfQP(ci) == ref.back().size() && b.numberOfQP(msh, cl) == ref.back().size(), "points-per-cell"); tot += ref.back().size();
        double w = 0; for (size_t i = 0; i < ref[ci].size(); i++) { auto q = b.quadrature_point(ci, i); w += q.weight(); mc::check((q.point().to_vector() - ref[ci][i].point().to_vector()).norm() < 1e-14, "point"); mc::check(std::abs(q.weight() - ref[ci][i].weight()) < 1e-15, "weight"); }
        mc::near(w, measure(msh, cl), 1e-13, "weights-sum"); ci++; }
    mc::check(b.numberOfQP() == tot, "points-total");
    // alphabet: evaluate value v at one of three points, or commit everything
    struct Site { size_t c, q; }; std::vector<Site> sites = {{0, 0}, {0, ref[0].size() - 1}, {ref.size() - 1, 0}};
    struct Node { Behavior<mesh_t> b; std::vector<std::vector<Q>> ref; std::string h; };
    std::vector<Node> st; st.push_back({b, ref, ""});
    while (!st.empty()) {
        Node n = st.back(); st.pop_back(); mc::state(mc::str(name, n.h));
        if ((int)n.h.size() >= depth) { mc::trace(); continue; }
        for (size_t op = 0; op <= sites.size() * vals.size(); op++) {
            Node c = n; c.h += char('a' + op); mc::trans();
            if (op == sites.size() * vals.size()) { c.b.update(); for (auto& x : c.ref) for (auto& q : x) q.update(); }
            else {
                auto s = sites[op / vals.size()]; M v = vals[op % vals.size()];
                auto r = c.b.compute_whole(s.c, s.q, v); auto e = c.ref[s.c][s.q].compute_whole(v, d);
                mc::check((r.first - e.first).norm() <= 1e-14 * (1 + e.first.norm()), "point-answer", c.h);
                mc::check((r.second - e.second).norm() <= 1e-14 * (1 + e.second.norm()), "point-tangent", c.h);
            }
            // no other point was touched: evaluating each site now gives what its own history implies
            for (auto& s : sites) { Node k = c; auto r = k.b.compute_whole(s.c, s.q, vals[1], false); auto e = k.ref[s.c][s.q].compute_whole(vals[1], d, false); mc::check((r.first - e.first).norm() <= 1e-14 * (1 + e.first.norm()), "point-independence", c.h); }
            st.push_back(c);
        }
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int dep = mc::thorough() ? 5 : 4;
    MaterialData<double> d(100, 80, 5, 10, 0.7); d.addCurvePoint(0, 0.7); d.addCurvePoint(0.02, 1.2); d.addCurvePoint(0.1, 1.5);
    MaterialData<double> dh(100, 80); dh.setType(1);
    using DM = DeformationMeasure; using L = LawType;
    mc::scenario("elastic", [&]{ explore<LinearElasticity_qp<double, 2>>("elastic", DM::SMALL_DEF, L::ELASTIC, d, dep); });
    mc::scenario("linear-hardening", [&]{ explore<LinearIsotropicAndKinematicHardening_qp<double, 2>>("lin", DM::SMALL_DEF, L::LINEAR_HARDENING, d, dep); });
    mc::scenario("nonlinear-hardening", [&]{ explore<IsotropicHardeningVMis_qp<double, 2>>("nonlin", DM::SMALL_DEF, L::NONLINEAR_HARDENING, d, dep); });
    mc::scenario("hencky", [&]{ explore<HenckyMises_qp<double, 2>>("hencky", DM::SMALL_DEF, L::HENCKY_MISES, d, dep); });
    mc::scenario("neohookean", [&]{ explore<Neohookean_qp<double, 2>>("neo", DM::F_DEF, L::NEOHOKEAN, dh, dep); });
    mc::scenario("cavitation", [&]{ explore<Cavitation_qp<double, 2>>("cav", DM::F_DEF, L::CAVITATION, dh, dep); });
    mc::scenario("log-elastic", [&]{ explore<mechanics::LogarithmicStrain_qp<LinearElasticity_qp<double, 2>>>("le", DM::LOGARITHMIC_DEF, L::ELASTIC, d, dep); });
    mc::scenario("log-linear", [&]{ explore<mechanics::LogarithmicStrain_qp<LinearIsotropicAndKinematicHardening_qp<double, 2>>>("ll", DM::LOGARITHMIC_DEF, L::LINEAR_HARDENING, d, dep); });
    mc::scenario("log-nonlinear", [&]{ explore<mechanics::LogarithmicStrain_qp<IsotropicHardeningVMis_qp<double, 2>>>("ln", DM::LOGARITHMIC_DEF, L::NONLINEAR_HARDENING, d, dep); });
    for (size_t def = 0; def < 4; def++) for (size_t law = 0; law < 7; law++) mc::scenario(mc::str("combination:", def, ":", law), [&]{
        bool ok = (def == DM::SMALL_DEF && law <= L::HENCKY_MISES) || (def == DM::F_DEF && (law == L::NEOHOKEAN || law == L::CAVITATION)) || (def == DM::LOGARITHMIC_DEF && law <= L::NONLINEAR_HARDENING);
        bool th = false; try { Behavior<mesh_t> b(def, law); } catch (const std::invalid_argument&) { th = true; } mc::check(th == !ok, "combination-refused"); });
    // log-strain wrapper: same histories as the wrapped law driven by the logarithmic strain
    std::vector<M> Fs; { M a; a << 1.02, 0.01, 0, 0.99; Fs.push_back(a); a << 0.95, 0, 0.06, 1.01; Fs.push_back(a); a << 1, 0, 0, 1; Fs.push_back(a); a << 1.1, 0.2, -0.1, 0.97; Fs.push_back(a); }
    auto elog = [](const M& F) { M C = F.transpose() * F; Eigen::SelfAdjointEigenSolver<M> es(C); M V = es.eigenvectors(), L = M::Zero(); for (int i = 0; i < 2; i++) L(i, i) = 0.5 * std::log(es.eigenvalues()(i)); return (M)(V * L * V.transpose()); };
    auto wrap = [&](auto q0, auto w0, const char* name) {
        int n = Fs.size(), D = mc::thorough() ? 5 : 4; int N = 1; for (int i = 0; i < D; i++) N *= n;
        for (int code = 0; code < N; code++) mc::scenario(mc::str(name, ":", code), [&]{
            auto q = q0; auto w = w0; int c = code;
            for (int i = 0; i < D; i++, c /= n) { M F = Fs[c % n]; auto r = q.compute_whole(elog(F), d, false); auto rw = w.compute_whole(F, d, false); mc::trans();
                mc::check((w.compute_stress_T(d) - r.first).norm() <= 1e-9, "log-history-stress"); mc::check((w.getPlasticStrain() - q.getPlasticStrain()).norm() <= 1e-10, "log-history-plastic");
                mc::check(std::abs(w.getEquivalentPlasticStrain() - q.getEquivalentPlasticStrain()) <= 1e-10, "log-history-p"); mc::check((w.getTotalStrain() - elog(F)).norm() <= 1e-10, "log-history-total");
                M3 t3 = q.compute_stress3D(d); M P = fd<2>([&](const M& X) { M e = elog(X); M z = M::Zero(); z(0, 0) = (t3.block(0, 0, 2, 2).cwiseProduct(e)).sum(); return z; }, F, 0, 0, 1e-3);
                for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) mc::near(rw.first(k, l), fds<2>([&](const M& X) { return (t3.block(0, 0, 2, 2).cwiseProduct(elog(X))).sum(); }, F, k, l, 1e-3), 1e-7, "log-history-work", "", 1 + t3.norm());
                q.update(); w.update(); }
            mc::trace(); });
    };
    point<double, 2> o(0, 0);
    wrap(IsotropicHardeningVMis_qp<double, 2>(o, 1.), mechanics::LogarithmicStrain_qp<IsotropicHardeningVMis_qp<double, 2>>(o, 1.), "log-nonlinear-history");
    wrap(LinearIsotropicAndKinematicHardening_qp<double, 2>(o, 1.), mechanics::LogarithmicStrain_qp<LinearIsotropicAndKinematicHardening_qp<double, 2>>(o, 1.), "log-linear-history");
    return mc::finish();
}
