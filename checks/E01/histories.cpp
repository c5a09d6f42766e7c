// Every sequence of operations on a database object up to a depth, against a model of the files; at the end of each history every file
// that was created must be readable and hold exactly what was written into it.
// MC: libs=siloh5
// MC: shards=8
// MC: cpu=800
#include "meshes.hpp"
#include "diskpp/mesh/rational.hpp"
#include "diskpp/output/silo.hpp"
#include "siloread.hpp"
using namespace mm;
enum op { CA, CB, OA, OB, OM, CD, CL, ME, VA, VE, VO, EX, PT, NW, NOPS };
static const char* N[] = {"create A", "create B", "open A", "open B", "open missing", "create in a missing directory", "close", "mesh", "vector of values", "two columns", "old variable", "expression", "points", "new object"};
struct content { std::set<std::string> mesh, var, defs, pts; };
static tri2* M;
static void run(const std::vector<int>& h)
{
    sr::scratch dir; std::string A = dir("A.silo"), B = dir("B.silo"), w; std::map<std::string, content> files; std::string cur; auto db = std::make_unique<disk::silo_database>(); int step = 0; size_t np = M->points_size(); std::vector<double> v(np, 1.5); Eigen::Matrix<double, Eigen::Dynamic, 1> e = Eigen::Matrix<double, Eigen::Dynamic, 1>::Constant(np, 2.5); Eigen::Matrix<double, Eigen::Dynamic, 2> e2 = Eigen::Matrix<double, Eigen::Dynamic, 2>::Constant(np, 2, 3.5);
    for (int o : h) { w += std::string(w.empty() ? "" : ", ") + N[o]; std::string s = std::to_string(step++); bool open = !cur.empty(), r = true, want = true; auto& f = files[cur]; 
        if (o == CA || o == CB) { auto p = o == CA ? A : B; r = db->create(p); files[p] = {}; cur = p; }
        else if (o == OA || o == OB) { auto p = o == OA ? A : B; want = files.count(p); r = db->open(p); cur = want ? p : ""; }
        else if (o == OM) { want = false; r = db->open(dir("missing.silo")); cur = ""; }
        else if (o == CD) { want = false; r = db->create(dir("no/such/directory.silo")); cur = ""; }
        else if (o == CL) { r = db->close(); cur = ""; }
        else if (o == ME) { r = db->add_mesh(*M, "mesh" + s); want = open; if (open) f.mesh.insert("mesh" + s); }
        else if (o == VA) { r = db->add_variable("mesh0", "v" + s, v, disk::nodal_variable_t); want = open; if (open) f.var.insert("v" + s); }
        else if (o == VE) { r = db->add_variable("mesh0", "w" + s, e2, disk::nodal_variable_t); want = open; if (open) f.var.insert("w" + s + "_x"), f.var.insert("w" + s + "_y"), f.defs.insert("w" + s); }
        else if (o == VO) { disk::silo_nodal_variable<double> q("o" + s, v); r = db->add_variable("mesh0", q); want = open; if (open) f.var.insert("o" + s); }
        else if (o == EX) { r = db->add_expression("e" + s, "mesh0", DB_VARTYPE_SCALAR); want = open; if (open) f.defs.insert("e" + s); }
        else if (o == PT) { std::vector<P2> p{{0, 0}, {1, 2}}; std::vector<double> pv{1, 2}; r = db->add_mesh(p, "p" + s); bool r2 = db->add_variable("p" + s, "q" + s, pv); want = open; mc::check(r2 == r, "refused", w + ": point field"); if (open) f.pts.insert("p" + s); }
        else db = std::make_unique<disk::silo_database>(), cur = "";
        files.erase(""); mc::trans(); mc::check(r == want, want ? "accepted" : "refused", w);
    }
    db.reset(); mc::trace();
    std::string st = "|"; for (auto& [p, c] : files) { sr::file f(p); if (!mc::check(f.f, "readable", w + ": " + p.substr(p.size() - 6))) continue; auto q = [](const std::set<std::string>& x) { return std::vector<std::string>(x.begin(), x.end()); };
        mc::check(f.names("ucdmesh") == q(c.mesh), "meshes", w); mc::check(f.names("ucdvar") == q(c.var), "fields", w); mc::check(f.names("ptmesh") == q(c.pts), "point-meshes", w); auto d = f.definitions(); std::set<std::string> dn; for (auto& x : d) dn.insert(x.first); mc::check(dn == c.defs, "expressions", w);
        for (auto& n : c.mesh) { auto m = f.ucd(n); mc::check(m.ok && m.nzones == int(M->cells_size()) && m.x[0].size() == np, "mesh", w); } for (auto& n : c.var) { auto x = f.get(n); mc::check(x.ok && x.v.size() == 1 && x.v[0] == sr::vec(np, n[0] == 'w' ? 3.5 : 1.5), "field", w); } st += p.substr(p.size() - 6) + mc::str(c.mesh.size(), c.var.size(), c.defs.size(), c.pts.size()); }
    std::set<std::string> have; for (auto& x : std::filesystem::directory_iterator(dir.d)) have.insert(x.path().string()); std::set<std::string> must; for (auto& x : files) must.insert(x.first); mc::check(have == must, "files", w); mc::state(st);
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); DBShowErrors(DB_NONE, nullptr); DBSetDeprecateWarnings(0); int depth = mc::thorough() ? 5 : 4; tri2 m; tris(m, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}, {{0, 1, 2}, {1, 2, 3}}); M = &m; std::cout.setstate(std::ios::failbit);
    // the two file names are interchangeable: the first one used is A.
    // Silo leaks one of its 256 file slots whenever a creation fails, so failing creations only occur in histories of up to two operations
    // the first operation and the second make the scenario; shorter histories are prefixes, checked as histories of their own
    for (int len = 1; len <= depth; len++) { std::vector<int> h(len); auto all = [&](auto&& self, int i) -> void { if (i == len) { run(h); return; } for (int o = 0; o < NOPS; o++) { if (o == CD && len > 2) continue; if (o == CB || o == OB) { bool a = false; for (int j = 0; j < i; j++) a |= h[j] == CA || h[j] == OA; if (!a) continue; } h[i] = o; self(self, i + 1); } };
        if (len == 1) { mc::scenario("length 1", [&]{ all(all, 0); }); continue; }
        for (int o = 0; o < NOPS; o++) if ((o != CD || len < 3) && o != CB && o != OB) mc::scenario(mc::str("length ", len, " from ", N[o]), [&]{ h[0] = o; all(all, 1); }); }
    std::cout.clear(); return mc::finish();
}
