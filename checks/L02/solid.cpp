// Broken solid mesh files.
// MC: libs=common jburkardt triangle
#include "badfiles.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); d3 t = tet_desc({P3(.25, .25, .25), P3(1.25, .25, .25), P3(.25, 1.25, .25), P3(.25, .25, 1.25), P3(1.25, 1.25, 1.25)}, {{0, 1, 2, 3}, {1, 2, 3, 4}}); t.dom = {1, 2}; mark(t, 1, true); for (auto& [f, b] : t.bnd) if (b == 20) b = 8;
    d3 h = hex_desc(1, 1, 1); for (auto& p : h.p) p = p + P3(.25, .25, .25); h.dom = {0}; mark(h, 0); expectation hy, fl; hy.hyper = true; fl.flat = 0; d3 o = t; o.bnd.clear(); o.dom.assign(2, 0); mark(o); d3 md = t; md.dom.assign(2, 0);
    auto run = [&](const std::string& f, const char* ext, const std::string& text, bool mapped, bool zero, auto tag, auto load, expectation ex, const d3& dd) { using M = decltype(tag); mc::scenario(f, [=, &th] { broken<M>({f, ext, text, mapped, zero}, load, [&](const std::string& w, const M& m, bool marks) { auto e = ex; e.dom = ex.dom && marks; compare3(w, m, dd, e); }, th); }); };
    run("fvca6", "msh", polyhedra(o, {}, true), false, false, gen3{}, [](auto f, auto& m) { return disk::load_mesh_fvca6_3d(f, m); }, hy, o); run("medit3d", "medit3d", polyhedra(md, {}, false), false, true, gen3{}, [](auto f, auto& m) { return disk::load_mesh_medit(f, m); }, {}, md);
    run("poly3d", "poly3d", poly3d(t), false, true, gen3{}, [](auto f, auto& m) { return disk::load_mesh_poly(f, m); }, {}, t); run("netgen", "mesh", netgen(t), true, false, tet3{}, [](auto f, auto& m) { return disk::load_mesh_netgen(f, m); }, {}, t); run("hex", "hex", hex(h), true, true, car3{}, [](auto f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, fl, h);
    d3 h2 = hex_desc(1, 1, 1); h2.dom = {3}; h2.cv.clear(); for (auto& p : h2.p) p = p + P3(.25, .25, .25); mark(h2); run("poly3d hexahedron", "poly3d", poly3d(h2), false, true, gen3{}, [](auto f, auto& m) { return disk::load_mesh_poly(f, m); }, {}, h2);
    scratch_gone(); return mc::finish();
}
