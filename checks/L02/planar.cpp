// Broken planar mesh files.
// MC: libs=common jburkardt triangle
#include "badfiles.hpp"
using namespace mm;
int main(int argc, char** argv)
{
    mc::init(argc, argv); bool th = mc::thorough(); std::vector<std::pair<std::string, d2>> ms; auto add = [&](const char* n, std::vector<P2> p, std::vector<vs> c, bool iface) { d2 d; for (auto& q : p) q = q + P2(.25, .25); d.p = p; d.c = c; for (size_t k = 0; k < c.size(); k++) d.dom.push_back(k % 3 + 1); mark(d, 1, false); if (iface) for (auto& [e, o] : owners(d)) if (o.size() == 2) d.bnd[e] = 8; ms.push_back({n, d}); };
    add("two triangles", {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {{0, 1, 2}, {0, 2, 3}}, true); add("triangle and quadrangle", {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {.5, 0}}, {{4, 1, 2}, {0, 4, 2, 3}}, false); if (th) add("pentagon", {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {.5, 0}, {1, .5}}, {{4, 1, 5}, {0, 4, 5, 2, 3}}, true);
    expectation hy; hy.hyper = true; for (auto& [nm, d0] : ms) { d2 d = d0; auto run = [&](const std::string& f, const char* ext, const std::string& text, bool mapped, bool zero, auto tag, auto load, expectation ex, const d2& dd) { using M = decltype(tag); mc::scenario(nm + " " + f, [=, &th] { broken<M>({nm + " " + f, ext, text, mapped, zero}, load, [&](const std::string& w, const M& m, bool marks) { auto e = ex; e.dom = ex.dom && marks; compare2(w, m, dd, e); }, th); }); };
        run("fvca5", "typ1", fvca5(d, {}, true), false, false, gen2{}, [](auto f, auto& m) { return disk::load_mesh_fvca5_2d(f, m); }, hy, d); d2 nd = d; nd.dom.assign(d.c.size(), 0); run("fvca5 without domains", "typ1", fvca5(nd), false, false, gen2{}, [](auto f, auto& m) { return disk::load_mesh_fvca5_2d(f, m); }, hy, nd);
        run("medit2d", "medit2d", medit2d(d), false, false, gen2{}, [](auto f, auto& m) { return disk::load_mesh_medit(f, m); }, {}, d); run("poly2d", "poly2d", poly2d(d), false, true, gen2{}, [](auto f, auto& m) { return disk::load_mesh_poly(f, m); }, {}, d);
        bool tri = true; for (auto& c : d.c) tri &= c.size() == 3; if (tri) run("netgen", "mesh2d", netgen(d), true, false, tri2{}, [](auto f, auto& m) { return disk::load_mesh_netgen(f, m); }, {}, d); }
    d2 g; g.p = {{.25, .25}, {.75, .25}, {1.25, .25}, {.25, 1.25}, {.75, 1.25}, {1.25, 1.25}}; g.c = {{0, 1, 4, 3}, {1, 2, 5, 4}}; g.dom = {0, 0}; mark(g, 0); expectation fl; fl.flat = 0;
    mc::scenario("quad", [&] { broken<car2>({"quad", "quad", quad(g), true, true}, [](auto f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, [&](const std::string& w, const car2& m, bool) { compare2(w, m, g, fl); }, th); });
    mc::scenario("dispatch", [&] { for (auto e : {"typ1", "mesh2d", "quad", "mesh", "hex", "msh"}) for (auto t : {"", "2\n", "vertices\n2\n"}) { put(scratch(e), t); int calls = 0, rc = mc::isolated([&] { return disk::dispatch_all_meshes(scratch(e).c_str(), [&](auto&) { calls++; }) == 0 || calls ? 1 : 0; }, 5); mc::trace(); mc::check(rc == 0, "dispatch-of-a-broken-file", e); } });
    scratch_gone(); return mc::finish();
}
