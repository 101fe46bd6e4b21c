// Driver for P29: text output of meshes for MATLAB, matplotlib and TikZ. The
// files are read by bin/exportread.py.
#include "meshio.h"
#include <lf/io/io.h>
#include <lf/io/write_matlab.h>
#include <lf/io/write_matplotlib.h>
#include <lf/io/write_tikz.h>
#include <lf/refinement/refinement.h>
#include <lf/refinement/refutils.h>
#include <filesystem>
using namespace vf;
namespace fs = std::filesystem;
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;
namespace {
constexpr double kScale = 1200;
void log_mesh(const char* ev, int lev, const Mesh& m, double S, const MeshHierarchy* h) {
  J j;
  j.s("e", ev).i("lev", lev);
  std::vector<std::vector<ll>> pts, edges;
  std::vector<std::vector<ll>> cells, ce;
  for (unsigned i = 0; i < m.NumEntities(2); ++i) pts.push_back(rmat(corners(*m.EntityByIndex(2, i)), S * kScale)[0]);
  for (unsigned i = 0; i < m.NumEntities(1); ++i) {
    auto s = m.EntityByIndex(1, i)->SubEntities(1);
    edges.push_back({(ll)m.Index(*s[0]), (ll)m.Index(*s[1])});
  }
  for (unsigned i = 0; i < m.NumEntities(0); ++i) {
    std::vector<ll> v, e;
    for (const Entity* p : m.EntityByIndex(0, i)->SubEntities(2)) v.push_back(m.Index(*p));
    for (const Entity* p : m.EntityByIndex(0, i)->SubEntities(1)) e.push_back(m.Index(*p));
    cells.push_back(v);
    ce.push_back(e);
  }
  j.v("pts", pts).v("edges", edges).v("cells", cells).v("ce", ce);
  if (h) {
    auto idx = [](unsigned x) { return x == lf::base::kIdxNil ? -1LL : (ll)x; };
    std::vector<std::vector<std::vector<ll>>> par(3);
    for (int c = 0; c < 3; ++c)
      for (const auto& p : h->ParentInfos(lev, c)) par[c].push_back({idx(p.parent_index), idx(p.child_number)});
    std::vector<ll> re;
    for (auto x : h->RefinementEdges(lev)) re.push_back(idx(x));
    j.v("par", par).v("re", re);
  }
  emit(j);
}
}  // namespace
int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& sc) {
    std::unique_ptr<Factory> fac;
    std::unique_ptr<MeshHierarchy> h;
    double S = 1;
    int no = 0;
    fs::path dir;
    auto fresh = [&] {
      dir = fs::path(argv[3]) / (sc.name + "_" + std::to_string(no++));
      fs::create_directories(dir / "sub.d");
      fs::current_path(dir);
    };
    auto files = [&] {
      std::vector<std::string> r;
      for (auto& p : fs::recursive_directory_iterator(dir))
        if (p.is_regular_file()) r.push_back(fs::relative(p.path(), dir).string());
      return r;
    };
    for (const auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, chk;
        is >> d >> chk >> S;
        fac = std::make_unique<Factory>(d, chk != 0, S);
        fac->log = false;
      } else if (fac && fac->line(l)) {
        if (op == "B") log_mesh("mesh", 0, *fac->mesh, S, nullptr);
      } else if (op == "ml" || op == "mp") {
        std::string name;
        is >> name;
        fresh();
        if (op == "ml") lf::io::writeMatlab(*fac->mesh, name);
        else lf::io::writeMatplotlib(*fac->mesh, name);
        emit(J().s("e", op).s("name", name).v("files", files()).s("dir", dir.string()));
      } else if (op == "tz") {  // tz name flags all|sel m0 r0 m1 r1 m2 r2
        std::string name, mode;
        unsigned flags;
        is >> name >> flags >> mode;
        std::vector<int> mm(3, 1), rr(3, 0);
        if (mode == "sel") for (int c = 0; c < 3; ++c) is >> mm[c] >> rr[c];
        fresh();
        const Mesh& m = *fac->mesh;
        auto codim = [](const Entity& e) { return 2 - (int)e.RefEl().Dimension(); };
        auto pred = [&](const Entity& e) { return (int)(m.Index(e) % mm[codim(e)]) == rr[codim(e)]; };
        const auto fl = static_cast<lf::io::TikzOutputCtrl>(flags);
        const bool ok = mode == "all" ? lf::io::writeTikZ(m, name, fl) : lf::io::writeTikZ(m, name, pred, fl);
        std::vector<std::vector<ll>> sel(3);
        for (int c = 0; c < 3; ++c)
          for (unsigned i = 0; i < m.NumEntities(c); ++i)
            if (pred(*m.EntityByIndex(c, i))) sel[c].push_back(i);
        using T = lf::io::TikzOutputCtrl;
        auto on = [&](T t) { return (flags & (unsigned)t) != 0; };
        emit(J().s("e", "tz").s("name", name).t("cells", on(T::RenderCells)).t("cnum", on(T::CellNumbering))
                .t("vnum", on(T::VerticeNumbering)).t("nnum", on(T::NodeNumbering)).t("enum", on(T::EdgeNumbering))
                .t("arrows", on(T::ArrowTips)).t("preamble", on(T::WithPreamble)).v("sel", sel).t("ret", ok)
                .v("files", files()).s("dir", dir.string()));
      } else if (op == "H") {
        h = std::make_unique<MeshHierarchy>(fac->mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2, false));
      } else if (op == "R") {
        std::string k;
        is >> k;
        if (k == "marked") {
          int n, r;
          is >> n >> r;
          h->MarkEdges([&](const Mesh& m, const Entity& e) { return (int)(m.Index(e) % n) == r; });
          h->RefineMarked();
        } else {
          h->RefineRegular(k == "regular" ? RefPat::rp_regular : RefPat::rp_barycentric);
        }
      } else if (op == "hl") {  // whole hierarchy
        std::string name;
        is >> name;
        fresh();
        for (unsigned lev = 0; lev < h->NumLevels(); ++lev) log_mesh("level", lev, *h->getMesh(lev), S, h.get());
        lf::refinement::WriteMatlab(*h, name);
        emit(J().s("e", "hl").s("name", name).i("n", h->NumLevels()).v("files", files()).s("dir", dir.string()));
      } else if (op == "h1") {  // parent information of a level
        std::string name;
        int lev;
        is >> lev >> name;
        fresh();
        log_mesh("level", lev, *h->getMesh(lev), S, h.get());
        lf::refinement::WriteMatlabLevel(*h, lev, name);
        emit(J().s("e", "h1").s("name", name).i("lev", lev).v("files", files()).s("dir", dir.string()));
      }
    }
  });
}
