// Reading back visualisation databases with the Silo library, into plain structures.
#pragma once
#include <silo.h>
#include <string>
#include <vector>
#include <map>
#include <filesystem>
#include <unistd.h>
namespace sr {
struct scratch { std::string d; scratch() { char t[] = "/tmp/mc-silo-XXXXXX"; d = mkdtemp(t); } ~scratch() { std::filesystem::remove_all(d); } std::string operator()(const std::string& n) const { return d + "/" + n; } };
using vec = std::vector<double>;
inline vec take(const void* p, int type, int n) { vec r; for (int i = 0; i < n; i++) r.push_back(type == DB_FLOAT ? double(((const float*)p)[i]) : ((const double*)p)[i]); return r; }
struct zone { int type = 0; std::vector<int> nodes; };
struct mesh { bool ok = false; std::string why; int dim = 0, type = 0; std::vector<vec> x; int nzones = 0; std::vector<zone> zones; bool poly = false; std::vector<std::vector<int>> faces; std::vector<std::vector<int>> zfaces; };
struct var { bool ok = false; std::string mesh; int centering = 0, type = 0; std::vector<vec> v; };
struct file {
    DBfile* f = nullptr;
    file(const std::string& n) { f = DBOpen(n.c_str(), DB_UNKNOWN, DB_READ); }
    ~file() { if (f) DBClose(f); }
    std::vector<std::string> names(const char* what) const {
        std::vector<std::string> r; auto t = DBGetToc(f); if (!t) return r; std::string w = what;
        auto add = [&](char** p, int n) { for (int i = 0; i < n; i++) r.push_back(p[i]); };
        if (w == "ucdmesh") add(t->ucdmesh_names, t->nucdmesh); else if (w == "ucdvar") add(t->ucdvar_names, t->nucdvar); else if (w == "ptmesh") add(t->ptmesh_names, t->nptmesh); else if (w == "ptvar") add(t->ptvar_names, t->nptvar); else if (w == "defvars") add(t->defvars_names, t->ndefvars);
        std::sort(r.begin(), r.end()); return r;
    }
    mesh ucd(const std::string& n) const {
        mesh m; auto u = DBGetUcdmesh(f, n.c_str()); if (!u) { m.why = "no mesh"; return m; }
        m.dim = u->ndims; m.type = u->datatype; for (int d = 0; d < u->ndims; d++) m.x.push_back(take(u->coords[d], u->datatype, u->nnodes));
        if (u->phzones) {
            auto z = u->phzones; m.poly = true; m.nzones = z->nzones; int k = 0; for (int i = 0; i < z->nfaces; i++) { std::vector<int> q; for (int j = 0; j < z->nodecnt[i]; j++) q.push_back(z->nodelist[k++] - z->origin); m.faces.push_back(q); }
            if (k != z->lnodelist) m.why = "node list length"; k = 0; for (int i = 0; i < z->nzones; i++) { std::vector<int> q; for (int j = 0; j < z->facecnt[i]; j++) q.push_back(z->facelist[k++]); m.zfaces.push_back(q); } if (k != z->lfacelist) m.why = "face list length"; if (z->lo_offset != 0 || z->hi_offset != z->nzones - 1) m.why = "ghost zones"; m.ok = m.why.empty();
        } else if (u->zones) {
            auto z = u->zones; m.nzones = z->nzones; int k = 0; for (int s = 0; s < z->nshapes; s++) for (int c = 0; c < z->shapecnt[s]; c++) { zone q; q.type = z->shapetype ? z->shapetype[s] : 0; for (int j = 0; j < z->shapesize[s]; j++) { if (k >= z->lnodelist) { m.why = "node list too short"; break; } q.nodes.push_back(z->nodelist[k++] - z->origin); } m.zones.push_back(q); }
            if (k != z->lnodelist) m.why = "node list length"; if (int(m.zones.size()) != z->nzones) m.why = "number of zones"; m.ok = m.why.empty();
        } else m.why = "no zones";
        DBFreeUcdmesh(u); return m;
    }
    mesh points(const std::string& n) const { mesh m; auto u = DBGetPointmesh(f, n.c_str()); if (!u) return m; m.ok = true; m.dim = u->ndims; m.type = u->datatype; for (int d = 0; d < u->ndims; d++) m.x.push_back(take(u->coords[d], u->datatype, u->nels)); DBFreePointmesh(u); return m; }
    var get(const std::string& n) const { var r; auto u = DBGetUcdvar(f, n.c_str()); if (!u) return r; r.ok = true; r.mesh = u->meshname ? u->meshname : ""; r.centering = u->centering; r.type = u->datatype; for (int k = 0; k < u->nvals; k++) r.v.push_back(take(u->vals[k], u->datatype, u->nels)); DBFreeUcdvar(u); return r; }
    var point(const std::string& n) const { var r; auto u = DBGetPointvar(f, n.c_str()); if (!u) return r; r.ok = true; r.mesh = u->meshname ? u->meshname : ""; r.type = u->datatype; for (int k = 0; k < u->nvals; k++) r.v.push_back(take(u->vals[k], u->datatype, u->nels)); DBFreeMeshvar(u); return r; }
    std::map<std::string, std::pair<int, std::string>> definitions() const { std::map<std::string, std::pair<int, std::string>> r; for (auto& n : names("defvars")) { auto d = DBGetDefvars(f, n.c_str()); if (!d) continue; for (int i = 0; i < d->ndefs; i++) r[d->names[i]] = {d->types[i], d->defns[i]}; DBFreeDefvars(d); } return r; }
};
} // namespace sr
