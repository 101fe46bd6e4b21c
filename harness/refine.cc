// Driver for P06, P07, P08: mesh hierarchies. Args: "links" also logs parent/child records.
#include "meshio.h"
#include <random>
#include <lf/refinement/refinement.h>
using namespace vf;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;
static const char* kNames[] = {"nil", "copy", "split", "bisect", "trisect", "trisect_left", "quadsect", "threeedge", "regular", "barycentric"};
static const RefPat kPats[] = {RefPat::rp_nil, RefPat::rp_copy, RefPat::rp_split, RefPat::rp_bisect, RefPat::rp_trisect,
                               RefPat::rp_trisect_left, RefPat::rp_quadsect, RefPat::rp_threeedge, RefPat::rp_regular, RefPat::rp_barycentric};
static std::string patname(RefPat p) {
  for (int i = 0; i < 10; ++i) if (kPats[i] == p) return kNames[i];
  return "?";
}
static ll nilidx(unsigned x) { return x == lf::base::kIdxNil ? -1 : (ll)x; }

static Eigen::MatrixXd mids(RefEl re) {
  const Eigen::MatrixXd c = re.NodeCoords();
  if (c.cols() == 2) return (Eigen::MatrixXd(1, 1) << .5).finished();
  Eigen::MatrixXd m(2, c.cols());
  for (int k = 0; k < c.cols(); ++k) m.col(k) = .5 * (c.col(k) + c.col((k + 1) % c.cols()));
  return m;
}
static Eigen::MatrixXd center(RefEl re) {
  Eigen::MatrixXd m(2, 1);
  if (re == RefEl::kTria()) m << 1. / 3, 1. / 3; else m << .5, .5;
  return m;
}

// topology and shapes: nodes of the shapes are corners and side midpoints
static void log_level(const char* ev, const MeshHierarchy& h, int lev, double S, const std::string& kind, const std::vector<ll>& marked) {
  const Mesh& m = *h.getMesh(lev);
  J j;
  j.s("e", ev).s("kind", kind).v("marked", marked).i("nlev", h.NumLevels());
  mesh_json(j, m, S);
  std::vector<std::vector<std::vector<ll>>> eg, cg;
  std::vector<std::vector<ll>> cc;
  std::vector<ll> re;
  for (unsigned i = 0; i < m.NumEntities(1); ++i) {
    const Entity* e = m.EntityByIndex(1, i);
    auto a = zmat(corners(*e), S), b = zmat(e->Geometry()->Global(mids(e->RefEl())), S);
    a.insert(a.end(), b.begin(), b.end());
    eg.push_back(a);
  }
  for (unsigned i = 0; i < m.NumEntities(0); ++i) {
    const Entity* e = m.EntityByIndex(0, i);
    auto a = zmat(corners(*e), S), b = zmat(e->Geometry()->Global(mids(e->RefEl())), S);
    a.insert(a.end(), b.begin(), b.end());
    cg.push_back(a);
    cc.push_back(zcol(e->Geometry()->Global(center(e->RefEl())), 0, S * 36));
    re.push_back(nilidx(h.RefinementEdges(lev).at(i)));
  }
  j.v("eg", eg).v("cg", cg).v("cc", cc).v("re", re);
  emit(j);
}

static std::vector<ll> vec(const std::vector<unsigned>& v) { return std::vector<ll>(v.begin(), v.end()); }

static void log_links(const MeshHierarchy& h, int lev, double S) {  // between lev-1 and lev
  const Mesh& c = *h.getMesh(lev - 1);
  const Mesh& f = *h.getMesh(lev);
  std::vector<J> ch[3], par[3];
  auto polys = [](const Hybrid2DRefinementPattern& rp) {
    std::vector<std::vector<std::vector<std::vector<ll>>>> q;
    for (int cd = 0; cd <= (int)rp.RefEl().Dimension(); ++cd) {
      std::vector<std::vector<std::vector<ll>>> o;
      for (const auto& p : rp.ChildPolygons(cd)) {
        std::vector<std::vector<ll>> cols;
        for (int k = 0; k < p.cols(); ++k) {
          std::vector<ll> x;
          for (int i = 0; i < p.rows(); ++i) x.push_back(p(i, k) * 12 / (ll)rp.LatticeConst());
          cols.push_back(x);
        }
        o.push_back(cols);
      }
      q.push_back(o);
    }
    return q;
  };
  for (unsigned i = 0; i < c.NumEntities(0); ++i) {
    const auto& ci = h.CellChildInfos(lev - 1).at(i);
    const RefEl re = c.EntityByIndex(0, i)->RefEl();
    ch[0].push_back(J().s("pat", patname(ci.ref_pat_)).i("a", nilidx(ci.anchor_)).raw("kids", "[" + J::arr(vec(ci.child_cell_idx)) + "," + J::arr(vec(ci.child_edge_idx)) + "," + J::arr(vec(ci.child_point_idx)) + "]")
                        .v("poly", polys(Hybrid2DRefinementPattern(re, ci.ref_pat_, ci.anchor_))));
  }
  for (unsigned i = 0; i < c.NumEntities(1); ++i) {
    const auto& ci = h.EdgeChildInfos(lev - 1).at(i);
    ch[1].push_back(J().s("pat", patname(ci.ref_pat_)).i("a", -1).raw("kids", "[" + J::arr(vec(ci.child_edge_idx)) + "," + J::arr(vec(ci.child_point_idx)) + "]")
                        .v("poly", polys(Hybrid2DRefinementPattern(RefEl::kSegment(), ci.ref_pat_))));
  }
  for (unsigned i = 0; i < c.NumEntities(2); ++i) {
    const auto& ci = h.PointChildInfos(lev - 1).at(i);
    ch[2].push_back(J().s("pat", patname(ci.ref_pat)).i("a", -1).raw("kids", "[[" + std::to_string(nilidx(ci.child_point_idx)) + "]]")
                        .v("poly", polys(Hybrid2DRefinementPattern(RefEl::kPoint(), ci.ref_pat))));
  }
  for (int cd = 0; cd < 3; ++cd) {
    for (unsigned i = 0; i < f.NumEntities(cd); ++i) {
      const Entity* e = f.EntityByIndex(cd, i);
      const auto& pi = h.ParentInfos(lev, cd).at(i);
      const Entity* p = h.ParentEntity(lev, *e);
      const auto* rel = h.GeometryInParent(lev, *e);
      const int pcd = p->Codim();
      const Eigen::MatrixXd loc = rel->Global(e->RefEl().NodeCoords());
      Eigen::MatrixXd pg = p->Geometry()->Global(loc);
      std::vector<std::vector<ll>> mid, mfine;
      if (cd < 2) {
        mid = zmat(p->Geometry()->Global(rel->Global(mids(e->RefEl()))), S);
        mfine = zmat(e->Geometry()->Global(mids(e->RefEl())), S);
      }
      par[cd].push_back(J().i("pc", pcd).i("pi", nilidx(pi.parent_index)).i("cn", nilidx(pi.child_number))
                            .i("pe", c.Index(*p)).t("same", p == pi.parent_ptr && c.Contains(*p) && pi.rel_ref_geo_.get() == rel)
                            .v("dims", std::vector<ll>{(ll)rel->DimLocal(), (ll)rel->DimGlobal()})
                            .v("rel", zmat(loc, 12)).v("pg", zmat(pg, S)).v("cg", zmat(corners(*e), S)).v("pm", mid).v("cm", mfine));
    }
  }
  J j;
  j.s("e", "links").i("lev", lev);
  j.raw("ch", "[" + J::arr(ch[0]) + "," + J::arr(ch[1]) + "," + J::arr(ch[2]) + "]");
  j.raw("par", "[" + J::arr(par[0]) + "," + J::arr(par[1]) + "," + J::arr(par[2]) + "]");
  emit(j);
}

int main(int argc, char** argv) {
  const bool links = argc > 3 && std::string(argv[3]) == "links";
  return drive(argc, argv, [links](const Scenario& s) {
    std::unique_ptr<Factory> fac;
    std::shared_ptr<MeshHierarchy> h;
    int order = 1;
    ll unit = 1;
    std::vector<ll> marked;
    std::vector<int> kinds;
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {  // M dim check unit order [k]
        int d, c;
        is >> d >> c >> unit >> order;
        int k = 0;  // the library sees 2^k times the coordinates of the script
        is >> k;
        fac = std::make_unique<Factory>(d, c, std::ldexp((double)unit, -k));
        fac->log = false;
      } else if (op == "H") {
        h = std::make_shared<MeshHierarchy>(fac->mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(fac->dw, false));
        emit(J().s("e", "hier").i("order", order).i("unit", unit));
        log_level("base", *h, 0, fac->S, "", {});
      } else if (op == "GEN") {  // GEN levels kind: convenience function
        int n; std::string k;
        is >> n >> k;
        h = lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(fac->mesh, n, k == "regular" ? RefPat::rp_regular : RefPat::rp_barycentric);
        emit(J().s("e", "hier").i("order", order).i("unit", unit));
        log_level("base", *h, 0, fac->S, "", {});
        for (int i = 1; i <= n; ++i) {
          log_level("refine", *h, i, fac->S, k, {});
          if (links) log_links(*h, i, fac->S);
        }
      } else if (op == "mark" || op == "markc") {  // mark percent seed | markc x y x y ... (edge midpoints)
        std::set<std::pair<ll, ll>> at;
        double p = 0; unsigned seed = 0;
        if (op == "mark") is >> p >> seed; else { ll x, y; while (is >> x >> y) at.insert({x, y}); }
        std::mt19937 g(seed);
        marked.clear();
        h->MarkEdges([&](const Mesh& m, const Entity& e) {
          bool b;
          if (op == "mark") b = (g() % 1000) < p * 10;
          else {
            auto z = zcol(e.Geometry()->Global(mids(e.RefEl())), 0, fac->S);
            b = at.count({z[0], z[1]}) > 0;
          }
          if (b) marked.push_back(m.Index(e));
          return b;
        });
      } else if (op == "ref") {
        std::string k;
        is >> k;
        if (k == "marked") h->RefineMarked();
        else if (k == "default") h->RefineRegular();
        else h->RefineRegular(k == "regular" ? RefPat::rp_regular : RefPat::rp_barycentric);
        const int lev = h->NumLevels() - 1;
        log_level("refine", *h, lev, fac->S, k == "default" ? "regular" : k, k == "marked" ? marked : std::vector<ll>{});
        marked.clear();
        if (links) log_links(*h, lev, fac->S);
      } else if (op == "again") {  // earlier levels must be unaffected
        int lev;
        is >> lev;
        lev %= h->NumLevels();
        log_level("again", *h, lev, fac->S, std::to_string(lev), {});
        if (links && lev > 0) log_links(*h, lev, fac->S);
      } else if (fac) {
        fac->line(l);
      }
    }
  });
}
