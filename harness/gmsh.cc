// Driver for P26, P27: reading Gmsh files.
//   file <json>            description of the file (echoed)
//   read <path> <dimworld> <completeness check>
//   is <nr>...             membership of all entities in these groups
//   n2n <codim> <name>     name -> number (codim -1: unspecified)
//   r2n <codim> <nr>       number -> name
//   pe <codim>             all groups of a codimension
#include "meshio.h"
#include <lf/io/io.h>
using namespace vf;

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& s) {
    std::unique_ptr<lf::io::GmshReader> rd;
    double S = 4;
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "file") {
        emit(J().s("e", "file").raw("f", l.substr(5)));
      } else if (op == "read") {
        std::string path; int dw, chk; is >> path >> dw >> chk;
        rd = std::make_unique<lf::io::GmshReader>(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(dw, chk != 0), path);
        const Mesh& m = *rd->mesh();
        J j;
        j.s("e", "mesh");
        mesh_json(j, m, S);
        emit(j);
        log_geo(m, S);
        std::vector<std::vector<std::vector<ll>>> ph(3);
        for (int c = 0; c < 3; ++c)
          for (unsigned i = 0; i < m.NumEntities(c); ++i) {
            auto v = rd->PhysicalEntityNr(*m.EntityByIndex(c, i));
            ph[c].push_back(std::vector<ll>(v.begin(), v.end()));
          }
        emit(J().s("e", "phys").v("ph", ph));
      } else if (op == "is") {
        std::vector<ll> nr; ll x;
        while (is >> x) nr.push_back(x);
        const Mesh& m = *rd->mesh();
        std::vector<std::vector<std::vector<bool>>> r(3);
        for (int c = 0; c < 3; ++c)
          for (unsigned i = 0; i < m.NumEntities(c); ++i) {
            std::vector<bool> b;
            for (ll n : nr) b.push_back(rd->IsPhysicalEntity(*m.EntityByIndex(c, i), n));
            r[c].push_back(b);
          }
        std::string o = "[";
        for (int c = 0; c < 3; ++c) {
          o += c ? ",[" : "[";
          for (size_t i = 0; i < r[c].size(); ++i) {
            o += i ? ",[" : "[";
            for (size_t k = 0; k < nr.size(); ++k) o += std::string(k ? "," : "") + (r[c][i][k] ? "true" : "false");
            o += "]";
          }
          o += "]";
        }
        emit(J().s("e", "is").v("nr", nr).raw("r", o + "]"));
      } else if (op == "n2n") {
        int c; std::string name;
        is >> c; is.get(); std::getline(is, name);
        bool ok = true; ll r = 0;
        try {
          r = c < 0 ? rd->PhysicalEntityName2Nr(name) : rd->PhysicalEntityName2Nr(name, c);
        } catch (const lf::base::LfException&) { ok = false; }
        emit(J().s("e", "n2n").s("name", name).i("c", c).t("ok", ok).i("r", r));
      } else if (op == "r2n") {
        int c; ll nr; is >> c >> nr;
        bool ok = true; std::string r;
        try {
          r = c < 0 ? rd->PhysicalEntityNr2Name(nr) : rd->PhysicalEntityNr2Name(nr, c);
        } catch (const lf::base::LfException&) { ok = false; }
        emit(J().s("e", "r2n").i("nr", nr).i("c", c).t("ok", ok).s("r", r));
      } else if (op == "pe") {
        int c; is >> c;
        std::vector<J> r;
        for (auto& [n, nm] : rd->PhysicalEntities(c)) r.push_back(J().i("nr", n).s("s", nm));
        emit(J().s("e", "pe").i("c", c).v("r", r));
      }
    }
  });
}
