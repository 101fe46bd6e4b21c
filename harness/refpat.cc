// Driver for P09: refinement patterns of the reference elements.
#include "meshio.h"
#include <lf/refinement/refinement.h>
using namespace vf;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::RefPat;
static const char* kNames[] = {"nil", "copy", "split", "bisect", "trisect", "trisect_left", "quadsect", "threeedge", "regular", "barycentric"};
static const RefPat kPats[] = {RefPat::rp_nil, RefPat::rp_copy, RefPat::rp_split, RefPat::rp_bisect, RefPat::rp_trisect,
                               RefPat::rp_trisect_left, RefPat::rp_quadsect, RefPat::rp_threeedge, RefPat::rp_regular, RefPat::rp_barycentric};

static void log_pat(const Hybrid2DRefinementPattern& rp, int nv, int k, int a) {
  const int dim = rp.RefEl().Dimension();
  std::vector<ll> nc;
  std::vector<std::vector<std::vector<std::vector<ll>>>> poly;
  for (int c = 0; c <= dim; ++c) {
    nc.push_back(rp.NumChildren(c));
    std::vector<std::vector<std::vector<ll>>> q;
    for (const auto& p : rp.ChildPolygons(c)) {
      std::vector<std::vector<ll>> cols;
      for (int j = 0; j < p.cols(); ++j) {
        std::vector<ll> x;
        for (int i = 0; i < p.rows(); ++i) x.push_back(p(i, j));
        cols.push_back(x);
      }
      q.push_back(cols);
    }
    poly.push_back(q);
  }
  emit(J().s("e", "pat").i("nv", nv).s("pat", kNames[k]).i("a", a).i("L", rp.LatticeConst()).v("nc", nc).v("poly", poly));
}

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& s) {
    static Hybrid2DRefinementPattern* reuse[5] = {};
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op, pat;
      int nv, a;
      is >> op;
      if (op == "all") { emit(J().s("e", "all")); continue; }
      if (op == "para") {  // para n x1 y1 ...: a closed lattice polygon
        int n = 0;
        is >> n;
        Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> m(2, n);
        std::vector<std::vector<ll>> cols;
        for (int i = 0; i < n; ++i) { is >> m(0, i) >> m(1, i); cols.push_back({m(0, i), m(1, i)}); }
        emit(J().s("e", "para").v("p", cols).t("r", lf::geometry::isParallelogram(m)));
        continue;
      }
      is >> nv >> pat >> a;
      RefEl re = nv == 1 ? RefEl::kPoint() : nv == 2 ? RefEl::kSegment() : nv == 3 ? RefEl::kTria() : RefEl::kQuad();
      int k = 0;
      while (pat != kNames[k]) ++k;
      if (op == "pat") {
        Hybrid2DRefinementPattern rp = a < 0 ? Hybrid2DRefinementPattern(re, kPats[k]) : Hybrid2DRefinementPattern(re, kPats[k], a);
        log_pat(rp, nv, k, a);
      } else if (op == "set") {  // an object that has been used for another pattern before
        if (reuse[nv] == nullptr) reuse[nv] = new Hybrid2DRefinementPattern(re);
        reuse[nv]->setRefPattern(kPats[k]);
        if (a >= 0) reuse[nv]->setAnchor(a);
        log_pat(*reuse[nv], nv, k, a);
      }
    }
  });
}
