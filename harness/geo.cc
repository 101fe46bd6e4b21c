// Driver for P10, P11: geometry objects.
#include "meshio.h"
#include <lf/refinement/refinement.h>
using namespace vf;
using lf::geometry::Geometry;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::RefPat;
static const char* kNames[] = {"nil", "copy", "split", "bisect", "trisect", "trisect_left", "quadsect", "threeedge", "regular", "barycentric"};
static const RefPat kPats[] = {RefPat::rp_nil, RefPat::rp_copy, RefPat::rp_split, RefPat::rp_bisect, RefPat::rp_trisect,
                               RefPat::rp_trisect_left, RefPat::rp_quadsect, RefPat::rp_threeedge, RefPat::rp_regular, RefPat::rp_barycentric};

static Eigen::MatrixXd mids(RefEl re) {
  const Eigen::MatrixXd c = re.NodeCoords();
  if (c.cols() == 1) return Eigen::MatrixXd(0, 0);
  if (c.cols() == 2) return (Eigen::MatrixXd(1, 1) << .5).finished();
  Eigen::MatrixXd m(2, c.cols());
  for (int k = 0; k < c.cols(); ++k) m.col(k) = .5 * (c.col(k) + c.col((k + 1) % c.cols()));
  return m;
}
static std::vector<std::vector<ll>> sampleMids(const Geometry& g, double S) {
  if (g.RefEl().NumNodes() == 1) return {};
  return zmat(g.Global(mids(g.RefEl())), S);
}
static J desc(const Geometry& g, double S) {
  return J().i("nv", g.RefEl().NumNodes()).i("dl", g.DimLocal()).i("dg", g.DimGlobal()).v("c", zmat(lf::geometry::Corners(g), S)).v("m", sampleMids(g, S));
}
// list over points of list over columns
static std::vector<std::vector<std::vector<ll>>> perPoint(const Eigen::MatrixXd& j, int dl, double S, bool exact) {
  std::vector<std::vector<std::vector<ll>>> o;
  for (int p = 0; p * dl < j.cols(); ++p) {
    std::vector<std::vector<ll>> cols;
    for (int c = 0; c < dl; ++c) {
      std::vector<ll> v;
      for (int i = 0; i < j.rows(); ++i) v.push_back(exact ? Z(j(i, p * dl + c), S) : R(j(i, p * dl + c), S));
      cols.push_back(v);
    }
    o.push_back(cols);
  }
  return o;
}

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& s) {
    std::unique_ptr<Geometry> g;
    std::string ty;
    double D = 1, U = 1;  // the library sees U times the coordinates of the script
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "unit") {
        int k;
        is >> k;
        U = std::ldexp(1., k);
      } else if (op == "obj") {  // obj type dim D coordinates (columns) [variant]
        int dim;
        is >> ty >> dim >> D;
        std::vector<double> v;
        double x;
        while (is >> x) v.push_back(x);
        const int n = (int)v.size() / dim;
        Eigen::MatrixXd c(dim, n);
        for (int k = 0; k < n; ++k) for (int i = 0; i < dim; ++i) c(i, k) = U * v[k * dim + i];
        if (ty == "point") g = std::make_unique<lf::geometry::Point>(Eigen::VectorXd(c.col(0)));
        if (ty == "seg1") g = std::make_unique<lf::geometry::SegmentO1>(c);
        if (ty == "seg2") g = std::make_unique<lf::geometry::SegmentO2>(c);
        if (ty == "tria1") g = std::make_unique<lf::geometry::TriaO1>(c);
        if (ty == "tria2") g = std::make_unique<lf::geometry::TriaO2>(c);
        if (ty == "quad1") g = std::make_unique<lf::geometry::QuadO1>(c);
        if (ty == "quad2") g = std::make_unique<lf::geometry::QuadO2>(c);
        if (ty == "para") g = std::make_unique<lf::geometry::Parallelogram>(c);
        if (ty == "para3") g = std::make_unique<lf::geometry::Parallelogram>(Eigen::VectorXd(c.col(0)), Eigen::VectorXd(c.col(1)), Eigen::VectorXd(c.col(3)));
        const double vol = ty == "point" ? 1 : lf::geometry::Volume(*g) / std::pow(U, g->DimLocal());
        emit(J().s("e", "obj").s("ty", ty).i("dl", g->DimLocal()).i("dg", g->DimGlobal()).i("nv", g->RefEl().NumNodes())
                 .v("n", zmat(c, 1 / U)).t("affine", g->isAffine()).i("vol4", Z(vol * vol * 4, 1)));
      } else if (op == "ev" || op == "met") {  // points a b (multiples of 1/12)
        std::vector<ll> v;
        ll x;
        while (is >> x) v.push_back(x);
        const int dl = g->DimLocal(), n = (int)v.size() / 2;
        Eigen::MatrixXd loc(dl, n);
        std::vector<std::vector<ll>> pts;
        for (int k = 0; k < n; ++k) {
          pts.push_back({v[2 * k], v[2 * k + 1]});
          for (int i = 0; i < dl; ++i) loc(i, k) = v[2 * k + i] / 12.;
        }
        // at once and one by one
        auto G = g->Global(loc);
        Eigen::MatrixXd J1 = g->Jacobian(loc);
        Eigen::VectorXd ie = g->IntegrationElement(loc);
        Eigen::MatrixXd G1(G.rows(), n), J2(G.rows(), n * dl), I2(G.rows(), n * dl), I1(G.rows(), 0);
        Eigen::VectorXd ie2(n);
        if (dl > 0) I1 = g->JacobianInverseGramian(loc);
        for (int k = 0; k < n; ++k) {
          G1.col(k) = g->Global(loc.col(k));
          J2.block(0, k * dl, G.rows(), dl) = g->Jacobian(loc.col(k));
          if (dl > 0) I2.block(0, k * dl, G.rows(), dl) = g->JacobianInverseGramian(loc.col(k));
          ie2[k] = g->IntegrationElement(loc.col(k))[0];
        }
        if (dl == 0) I2.resize(G.rows(), 0);
        const double S = op == "ev" ? D / U : 1 / U;
        auto sq = [U, dl](const Eigen::VectorXd& a) { std::vector<ll> o; for (double y : a) o.push_back(Z(y * std::fabs(y) / std::pow(U, 2 * dl), 1)); return o; };
        J j;
        j.s("e", op).v("pts", pts).v("dims", std::vector<ll>{G.rows(), G.cols(), J1.rows(), J1.cols(), I1.cols(), ie.size()});
        j.v("J", perPoint(J1, dl, S, true)).v("Ja", perPoint(J2, dl, S, true));
        if (op == "ev") j.v("g", zmat(G, D / U)).v("ga", zmat(G1, D / U));
        else j.v("ie2", sq(ie)).v("ie2a", sq(ie2)).v("I", perPoint(I1, dl, 1000 * U, false)).v("Ia", perPoint(I2, dl, 1000 * U, false));
        emit(j);
      } else if (op == "sub") {
        int cd, i;
        is >> cd >> i;
        auto sg = g->SubGeometry(cd, i);
        J j = desc(*sg, 1 / U);
        j.s("e", "sub").i("cd", cd).i("i", i).t("affine", sg->isAffine());
        std::vector<std::vector<ll>> q;
        if (sg->DimLocal() == 1) {
          Eigen::MatrixXd t(1, 2);
          t << .25, 2. / 3;
          q = zmat(sg->Global(t), 144 / U);
        } else if (sg->DimLocal() == 2) {
          Eigen::MatrixXd t(2, 2);
          t << .25, 1. / 3, .5, 1. / 6;
          q = zmat(sg->Global(t), 1728 / U);
        }
        emit(j.v("q", q));
      } else if (op == "child") {  // child pattern anchor codim
        std::string pat;
        int a, cd, k = 0;
        is >> pat >> a >> cd;
        while (pat != kNames[k]) ++k;
        Hybrid2DRefinementPattern rp = a < 0 ? Hybrid2DRefinementPattern(g->RefEl(), kPats[k]) : Hybrid2DRefinementPattern(g->RefEl(), kPats[k], a);
        std::vector<std::vector<std::vector<ll>>> poly;
        for (const auto& p : rp.ChildPolygons(cd)) {
          std::vector<std::vector<ll>> cols;
          for (int c = 0; c < p.cols(); ++c) {
            std::vector<ll> x;
            for (int i = 0; i < p.rows(); ++i) x.push_back((ll)p(i, c) * 12 / (ll)rp.LatticeConst());
            cols.push_back(x);
          }
          poly.push_back(cols);
        }
        std::vector<J> ch;
        for (const auto& c : g->ChildGeometry(rp, cd)) ch.push_back(desc(*c, D / U));
        emit(J().s("e", "child").s("pat", pat).i("a", a).i("cd", cd).v("poly", poly).v("ch", ch));
      }
    }
  });
}
