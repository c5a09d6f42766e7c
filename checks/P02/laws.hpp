#pragma once
#include "mc.hpp"
#include <limits>
#include <algorithm>
#include "diskpp/common/eigen.hpp"
#include "diskpp/mesh/point.hpp"
#include "diskpp/quadratures/quadrature_point.hpp"
#include "diskpp/mechanics/behaviors/laws/law_qp_bones.hpp"
#include "diskpp/mechanics/behaviors/laws/materialData.hpp"
#include "diskpp/mechanics/deformation_tensors.hpp"
#include "diskpp/mechanics/stress_tensors.hpp"
#include "diskpp/mechanics/behaviors/laws/LinearElasticityLaw/LinearElasticityLaw.hpp"
#include "diskpp/mechanics/behaviors/laws/LinearLaw/LinearLaw_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/HenckyMises/HenckyMises_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp"
#include "diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp"
using namespace disk;
template<int D> using M2 = static_matrix<double, D, D>;
typedef M2<3> M3;

// fourth-order finite difference of a matrix-valued function in direction E_kl
template<int D, typename F> static M2<D> fd(F f, const M2<D>& X, int k, int l, double h)
{
    auto at = [&](double s) { M2<D> Y = X; Y(k, l) += s; return (M2<D>)f(Y); };
    return (8.0 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12.0 * h);
}
template<int D, typename F> static double fds(F f, const M2<D>& X, int k, int l, double h)
{
    auto at = [&](double s) { M2<D> Y = X; Y(k, l) += s; return (double)f(Y); };
    return (8.0 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12.0 * h);
}
static M3 rot(int axis, double c, double s)
{
    M3 R = M3::Identity(); int a = (axis + 1) % 3, b = (axis + 2) % 3;
    R(a, a) = c; R(b, b) = c; R(a, b) = -s; R(b, a) = s; return R;
}
static std::vector<M3> rotations(bool more)
{
    std::vector<M3> r{M3::Identity()};
    for (int a = 0; a < 3; a++) { r.push_back(rot(a, 0, 1)); r.push_back(rot(a, 0.6, 0.8)); r.push_back(rot(a, -1, 0)); }
    r.push_back(rot(0, 0.6, 0.8) * rot(1, 5. / 13, 12. / 13));
    r.push_back(rot(2, 8. / 17, 15. / 17) * rot(0, 0.6, -0.8) * rot(1, 0.8, 0.6));
    if (more) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) { r.push_back(rot(a, 0.6, 0.8) * rot(b, 7. / 25, 24. / 25)); r.push_back(rot(a, 0.28, -0.96) * rot(b, 0.8, 0.6)); }
    return r;
}
template<int D> static M2<D> cut(const M3& m) { return m.block(0, 0, D, D); }
