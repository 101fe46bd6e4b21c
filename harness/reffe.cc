// Driver for P19 (Lagrangian reference elements) and P21 (hierarchic reference elements).
#include "common.h"
#include <lf/base/base.h>
#include <lf/quad/quad.h>
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>
#include <complex>
#include <memory>
using namespace vf;
using lf::base::RefEl;
using cplx = std::complex<double>;
template <class S> using FE = lf::fe::ScalarReferenceFiniteElement<S>;
using Mat = std::vector<std::vector<ll>>;

static double re(double x) { return x; }
static double re(cplx x) { return std::fabs(x.imag()) > 1e-12 ? NAN : x.real(); }
static std::string nm(RefEl r) { return r == RefEl::kSegment() ? "seg" : r == RefEl::kTria() ? "tria" : r == RefEl::kQuad() ? "quad" : "point"; }

template <class S> static std::unique_ptr<FE<S>> lagr(int p, const std::string& r) {
  using namespace lf::uscalfe;
  if (r == "seg") {
    if (p == 1) return std::make_unique<FeLagrangeO1Segment<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Segment<S>>();
    return std::make_unique<FeLagrangeO3Segment<S>>();
  }
  if (r == "tria") {
    if (p == 1) return std::make_unique<FeLagrangeO1Tria<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Tria<S>>();
    return std::make_unique<FeLagrangeO3Tria<S>>();
  }
  if (r == "quad") {
    if (p == 1) return std::make_unique<FeLagrangeO1Quad<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Quad<S>>();
    return std::make_unique<FeLagrangeO3Quad<S>>();
  }
  return std::make_unique<lf::fe::FePoint<S>>(p);
}

/// matrix of lattice values
template <class M> static Mat zm(const M& m, double s) {
  Mat r(m.rows());
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j) r[i].push_back(Z(re(m(i, j)), s));
  return r;
}
template <class M> static Mat rm(const M& m, double s) {
  Mat r(m.rows());
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j) r[i].push_back(R(re(m(i, j)), s));
  return r;
}
template <class M> static M part(const M& m, int d, int k) {  // k-th component of gradients
  M r(m.rows(), m.cols() / d);
  for (Eigen::Index j = 0; j < r.cols(); ++j) r.col(j) = m.col(j * d + k);
  return r;
}
template <class A, class B> static bool same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j) if (!(std::abs(a(i, j) - b(i, j)) <= 1e-12 * (1 + std::abs(b(i, j))))) return false;
  return true;
}
/// lattice points of a reference element, columns
static Eigen::MatrixXd lattice(RefEl r, int m, std::vector<std::vector<ll>>& pts, int lo = 0, int hi = -1) {
  if (hi < 0) hi = m;
  const int d = r.Dimension();
  if (d == 1) for (int a = lo; a <= hi; ++a) pts.push_back({a});
  else for (int a = lo; a <= hi; ++a) for (int b = lo; b <= hi; ++b) if (r == RefEl::kQuad() || a + b <= hi) pts.push_back({a, b});
  Eigen::MatrixXd x(d, pts.size());
  for (size_t j = 0; j < pts.size(); ++j) for (int k = 0; k < d; ++k) x(k, j) = (double)pts[j][k] / m;
  return x;
}
/// counts of shape functions
template <class S> static void counts(J& j, const FE<S>& f, bool percodim) {
  const int d = f.Dimension();
  std::vector<ll> nc;
  Mat ns;
  for (int c = 0; c <= d; ++c) {
    ns.emplace_back();
    for (int k = 0; k < f.RefEl().NumSubEntities(c); ++k) ns.back().push_back(f.NumRefShapeFunctions(c, k));
    nc.push_back(percodim ? (ll)f.NumRefShapeFunctions(c) : -1);
  }
  j.s("re", nm(f.RefEl())).i("dim", d).i("deg", f.Degree()).i("n", f.NumRefShapeFunctions()).v("nc", nc).v("ns", ns).i("nn", f.NumEvaluationNodes());
}

template <class S> static void run_lagr(int p, const std::string& r) {
  using RowV = Eigen::Matrix<S, 1, Eigen::Dynamic>;
  auto fp = lagr<S>(p, r);
  const FE<S>& f = *fp;
  J j;
  j.s("e", "lagr").i("p", p).s("ref", r);
  counts(j, f, true);
  const double D0 = p == 1 ? 12 : p == 2 ? 72 : 384, D = r == "quad" ? D0 * D0 : D0;
  const int d = f.Dimension();
  auto nodes = f.EvaluationNodes();
  Mat nd(nodes.cols());
  for (Eigen::Index i = 0; i < nodes.cols(); ++i) for (int k = 0; k < d; ++k) nd[i].push_back(Z(nodes(k, i), 12));
  j.v("nodes", nd);
  Mat pts;
  auto x = lattice(f.RefEl(), 12, pts);
  auto v = f.EvalReferenceShapeFunctions(x);
  auto g = f.GradientsReferenceShapeFunctions(x);
  j.v("pts", pts).v("v", zm(v, D)).v("gx", zm(part(g, d, 0), D)).v("gy", d == 2 ? zm(part(g, d, 1), D) : Mat{});
  bool batch = g.cols() == d * x.cols();
  for (Eigen::Index i = 0; i < x.cols(); ++i) {
    batch = batch && same(f.EvalReferenceShapeFunctions(x.col(i)), v.col(i)) && same(f.GradientsReferenceShapeFunctions(x.col(i)), g.middleCols(i * d, d));
  }
  j.t("batch", batch);
  // coefficients of functions with given nodal values
  Mat in, out;
  for (int k = 0; k < 3; ++k) {
    RowV w(f.NumEvaluationNodes());
    std::vector<ll> q;
    for (Eigen::Index i = 0; i < w.size(); ++i) { q.push_back((7 * i * i + 5 * k * i + k) % 23 - 11); w[i] = (double)q.back(); }
    RowV c = f.NodalValuesToDofs(w);
    std::vector<ll> o;
    for (Eigen::Index i = 0; i < c.size(); ++i) o.push_back(Z(re(c[i]), 1));
    in.push_back(q), out.push_back(o);
  }
  j.v("in", in).v("out", out);
  // precomputed variant
  bool pre = true;
  lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S> none;
  pre = pre && !none.isInitialized();
  for (unsigned deg : {1u, 4u, 7u}) {
    auto qr = lf::quad::make_QuadRule(f.RefEl(), deg);
    lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S> pc(fp.get(), qr);
    pre = pre && pc.isInitialized() && pc.RefEl() == f.RefEl() && pc.Degree() == f.Degree() && pc.NumRefShapeFunctions() == f.NumRefShapeFunctions();
    for (int c = 0; c <= d; ++c) {
      pre = pre && pc.NumRefShapeFunctions(c) == f.NumRefShapeFunctions(c);
      for (int k = 0; k < f.RefEl().NumSubEntities(c); ++k) pre = pre && pc.NumRefShapeFunctions(c, k) == f.NumRefShapeFunctions(c, k);
    }
    pre = pre && same(pc.Qr().Points(), qr.Points()) && same(pc.Qr().Weights(), qr.Weights());
    pre = pre && same(pc.PrecompReferenceShapeFunctions(), f.EvalReferenceShapeFunctions(qr.Points()));
    pre = pre && same(pc.PrecompGradientsReferenceShapeFunctions(), f.GradientsReferenceShapeFunctions(qr.Points()));
    pre = pre && same(pc.EvalReferenceShapeFunctions(x), v) && same(pc.GradientsReferenceShapeFunctions(x), g) && same(pc.EvaluationNodes(), nodes);
    pre = pre && pc.NumEvaluationNodes() == f.NumEvaluationNodes();
    RowV w = RowV::LinSpaced(f.NumEvaluationNodes(), S(1), S(2));
    pre = pre && same(pc.NodalValuesToDofs(w), f.NodalValuesToDofs(w));
  }
  j.t("pre", pre);
  emit(j);
}
template <class S> static void run_point(int p) {
  const lf::fe::FePoint<S> fp(p);
  const FE<S>& f = fp;
  auto v = f.EvalReferenceShapeFunctions(Eigen::MatrixXd::Zero(0, 3));
  J j;
  j.s("e", "point").i("p", p).s("re", nm(f.RefEl())).i("deg", f.Degree()).i("n", f.NumRefShapeFunctions()).i("n0", f.NumRefShapeFunctions(0, 0));
  j.i("nn", f.NumEvaluationNodes()).v("v", zm(v, 1)).i("nr", f.EvaluationNodes().rows()).i("nk", f.EvaluationNodes().cols());
  Eigen::Matrix<S, 1, Eigen::Dynamic> w(1);
  w[0] = 5.0;
  j.v("d", zm(f.NodalValuesToDofs(w), 1));
  emit(j);
}

template <class S> static std::unique_ptr<FE<S>> hier(const std::string& r, int pi, const std::vector<unsigned>& pe, const std::vector<lf::mesh::Orientation>& o, const lf::quad::QuadRuleCache& qc) {
  if (r == "seg") return std::make_unique<lf::fe::FeHierarchicSegment<S>>(pi, qc);
  if (r == "tria") return std::make_unique<lf::fe::FeHierarchicTria<S>>(pi, std::array<unsigned, 3>{pe[0], pe[1], pe[2]}, qc, o);
  return std::make_unique<lf::fe::FeHierarchicQuad<S>>(pi, std::array<unsigned, 4>{pe[0], pe[1], pe[2], pe[3]}, qc, o);
}

template <class S> static void run_hier(std::istringstream& is) {
  using RowV = Eigen::Matrix<S, 1, Eigen::Dynamic>;
  std::string r;
  int pi;
  is >> r >> pi;
  const int ns = r == "seg" ? 0 : r == "tria" ? 3 : 4;
  std::vector<unsigned> pe(ns);
  std::vector<int> oi(ns);
  for (auto& q : pe) is >> q;
  for (auto& q : oi) is >> q;
  std::vector<lf::mesh::Orientation> o;
  for (int q : oi) o.push_back(q > 0 ? lf::mesh::Orientation::positive : lf::mesh::Orientation::negative);
  lf::quad::QuadRuleCache qc;
  auto fp = hier<S>(r, pi, pe, o, qc);
  const FE<S>& f = *fp;
  const int d = f.Dimension();
  bool eq = true;
  int pmin = pi, pmax = pi;
  for (unsigned q : pe) eq = eq && q == pe[0], pmin = std::min<int>(pmin, q), pmax = std::max<int>(pmax, q);
  J j;
  j.s("e", "hier").s("ref", r).i("pi", pi).v("pe", pe).v("o", oi);
  counts(j, f, eq);
  const int n = f.NumRefShapeFunctions();
  // coefficients of the basis functions themselves
  auto nodes = f.EvaluationNodes();
  auto V = f.EvalReferenceShapeFunctions(nodes);
  j.i("nnc", nodes.cols()).i("nnr", nodes.rows());
  Mat id;
  for (int i = 0; i < n; ++i) {
    RowV c = f.NodalValuesToDofs(V.row(i));
    id.push_back(rm(c, 1e5)[0]);
  }
  j.v("id", id);
  // values along the boundary and in the interior
  const int m = 4;
  Mat pts;
  auto x = lattice(f.RefEl(), m, pts);
  auto v = f.EvalReferenceShapeFunctions(x);
  j.v("pts", pts).v("v", rm(v, 1e6));
  // one dimensional basis of each side (and of the segment itself)
  Mat seg_pts;
  auto sx = lattice(RefEl::kSegment(), m, seg_pts);
  std::vector<Mat> tr;
  for (unsigned q : pe) tr.push_back(rm(lf::fe::FeHierarchicSegment<S>(q, qc).EvalReferenceShapeFunctions(sx), 1e6));
  j.v("seg", tr);
  // interpolants of monomials of the common degree
  Mat mono, mv, mgx, mgy;
  auto g = f.GradientsReferenceShapeFunctions(x);
  bool batch = g.cols() == d * x.cols();
  for (Eigen::Index i = 0; i < x.cols(); ++i)
    batch = batch && same(f.EvalReferenceShapeFunctions(x.col(i)), v.col(i)) && same(f.GradientsReferenceShapeFunctions(x.col(i)), g.middleCols(i * d, d));
  j.t("batch", batch);
  auto gx = part(g, d, 0), gy = part(g, d, d - 1);
  for (int a = 0; a <= pmin; ++a)
    for (int b = 0; b <= (d == 1 ? 0 : r == "quad" ? pmin : pmin - a); ++b) {
      RowV w(nodes.cols());
      for (Eigen::Index i = 0; i < w.size(); ++i) w[i] = std::pow(nodes(0, i), a) * (d == 2 ? std::pow(nodes(1, i), b) : 1.0);
      RowV c = f.NodalValuesToDofs(w);
      mono.push_back({a, b});
      mv.push_back(rm(RowV(c * v), 1e6)[0]);
      mgx.push_back(rm(RowV(c * gx), 1e5)[0]);
      mgy.push_back(rm(RowV(c * gy), 1e5)[0]);
    }
  j.v("mono", mono).v("mv", mv).v("mgx", mgx).v("mgy", mgy);
  // values on nine point stencils around some points together with the derivative there
  std::vector<J> st;
  const double h = 1.0 / 32;
  std::vector<std::array<double, 2>> cs = {{.25, .25}, {.5, .125}, {.125, .5}, {0, 0}, {0, .5}};
  if (r == "quad") cs.push_back({.75, .875});
  if (pmax <= 8)
    for (auto& c : cs)
      for (int k = 0; k < d; ++k) {
        Eigen::MatrixXd y(d, 9);
        for (int q = 0; q < 9; ++q) {
          for (int l = 0; l < d; ++l) y(l, q) = c[l];
          y(k, q) += (q - 4) * h;
        }
        auto gr = f.GradientsReferenceShapeFunctions(y.col(4));
        st.push_back(J().i("k", k).v("f", rm(f.EvalReferenceShapeFunctions(y), 1e6)).v("g", rm(Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>(gr.col(k)), 1e6)));
      }
  j.v("st", st);
  // element of the next lower degree (all degrees reduced by one)
  if (pmin > 1) {
    auto pl = pe;
    for (auto& q : pl) --q;
    auto lo = hier<S>(r, pi - 1, pl, o, qc);
    j.v("low", rm(lo->EvalReferenceShapeFunctions(x), 1e6));
  } else j.v("low", Mat{});
  emit(j);
}

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& s) {
    for (auto& line : s.lines) {
      std::istringstream is(line);
      std::string op, sc;
      is >> op >> sc;
      if (op == "lagr") {
        int p; std::string r;
        is >> p >> r;
        if (sc == "c") run_lagr<cplx>(p, r); else run_lagr<double>(p, r);
      } else if (op == "point") {
        int p;
        is >> p;
        run_point<double>(p);
      } else if (op == "hier") {
        run_hier<double>(is);
      }
    }
  });
}
