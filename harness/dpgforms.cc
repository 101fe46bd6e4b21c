// Driver for P34: element matrices and vectors of discontinuous Petrov-Galerkin methods, logged block by
// block in the basis of monomials (cells: of the reference coordinates, fluxes: of the parameter of the
// edge, such columns divided by the length of the edge); reference elements of broken spaces and traces.
#include "dofio.h"
#include <dpg/dpg_element_matrix_provider.h>
#include <dpg/dpg_element_vector_provider.h>
#include <dpg/dpg_tools.h>
#include <dpg/loc_comp_dpg.h>
#include <dpg/product_element_matrix_provider_builder.h>
#include <dpg/product_element_vector_provider_builder.h>
#include <dpg/product_fe_space_factory.h>
#include <complex>
using namespace vf;
namespace pd = projects::dpg;
using cplx = std::complex<double>;
using Mat = std::vector<std::vector<ll>>;
using Poly = std::vector<std::vector<int>>;  // coefficient, exponents
using lf::mesh::utils::MeshFunctionGlobal;

static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double gU = 1;  // the library sees gU times the coordinates of the script
// the value times gU^-w: every form has the same value as for the coordinates of the script
static double eval(const Poly& p, const Eigen::VectorXd& y, int w) {
  const Eigen::VectorXd x = y / gU;
  double r = 0;
  for (auto& t : p) { double v = t[0]; for (int k = 0; k < x.size(); ++k) v *= ipow(x[k], t[k + 1]); r += v; }
  return r / ipow(gU, w);
}
static Poly rdpoly(std::istream& is) {
  int n; is >> n;
  Poly p(n, std::vector<int>(3));
  for (auto& t : p) for (auto& x : t) is >> x;
  return p;
}
template <class S> S mk(double x) {
  if constexpr (std::is_same_v<S, cplx>) return cplx(x, 2 * x); else return x;
}
static Mat monomials(RefEl r, int d) {
  Mat m;
  if (r == RefEl::kSegment()) for (int a = 0; a <= d; ++a) m.push_back({a});
  else for (int a = 0; a <= d; ++a) for (int b = 0; b <= d; ++b) if (r == RefEl::kQuad() || a + b <= d) m.push_back({a, b});
  return m;
}
template <class S> Eigen::Matrix<S, -1, -1> basis(const lf::fe::ScalarReferenceFiniteElement<S>& f, const Mat& mon) {
  const Eigen::MatrixXd x = f.EvaluationNodes();
  Eigen::Matrix<S, -1, -1> c(f.NumRefShapeFunctions(), mon.size());
  for (size_t k = 0; k < mon.size(); ++k) {
    Eigen::Matrix<S, 1, Eigen::Dynamic> v(x.cols());
    for (int i = 0; i < x.cols(); ++i) { double y = 1; for (size_t q = 0; q < mon[k].size(); ++q) y *= ipow(x(q, i), mon[k][q]); v[i] = y; }
    c.col(k) = f.NodalValuesToDofs(v).transpose();
  }
  return c;
}

static int bterm(int s, int e, int i, int j) { return (3 * e + 5 * i + 7 * j + i * j + s) % 7 - 3; }
static int lterm(int e, int i, int j) { return i == j ? 1 : j > i ? 0 : (2 * e + i + 2 * j) % 3 - 1; }
struct SubMat : pd::SubElementMatrixProvider<double> {
  const Mesh* m; int s, tr; const pd::ProductUniformFEDofHandler *te, *trd;
  SubMat(const Mesh* m, int s, int tr, const pd::ProductUniformFEDofHandler* te, const pd::ProductUniformFEDofHandler* trd) : m(m), s(s), tr(tr), te(te), trd(trd) {}
  ElemMat Eval(const Entity& e) override {
    const int n = te->NumLocalDofs(e, 0), c = trd->NumLocalDofs(e, tr), ix = m->Index(e);
    ElemMat r(n, c);
    if (s < 0) {
      Eigen::MatrixXd L(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) L(i, j) = lterm(ix, i, j);
      return L * L.transpose();
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) r(i, j) = bterm(s, ix, i, j);
    return r;
  }
  [[nodiscard]] unsigned TrialComponent() const override { return tr; }
  [[nodiscard]] unsigned TestComponent() const override { return 0; }
};
struct SubVec : pd::SubElementVectorProvider<double> {
  const Mesh* m; int s; const pd::ProductUniformFEDofHandler* te;
  SubVec(const Mesh* m, int s, const pd::ProductUniformFEDofHandler* te) : m(m), s(s), te(te) {}
  ElemVec Eval(const Entity& e) override {
    ElemVec r(te->NumLocalDofs(e, 0));
    for (int i = 0; i < r.size(); ++i) r[i] = bterm(s, m->Index(e), i, 0);
    return r;
  }
  [[nodiscard]] unsigned TestComponent() const override { return 0; }
};

template <class S>
struct World {
  std::shared_ptr<const Mesh> m;
  struct Sp { std::vector<std::string> k; std::vector<int> d; std::shared_ptr<pd::ProductUniformFESpace<S>> s; } sp[2];
  std::unique_ptr<pd::ProductElementMatrixProviderBuilder<S>> mb;
  std::unique_ptr<pd::ProductElementVectorProviderBuilder<S>> vb;

  void space(std::istream& is) {
    int id, n; is >> id >> n;
    Sp& x = sp[id];
    x = Sp();
    pd::ProductUniformFESpaceFactory<S> f(m);
    for (int i = 0; i < n; ++i) {
      std::string k; int p; is >> k >> p;
      x.k.push_back(k); x.d.push_back(p);
      if (k == "h") f.AddH1Component(p); else if (k == "l") f.AddL2Component(p); else if (k == "f") f.AddFluxComponent(p); else f.AddTraceComponent(p);
    }
    x.s = f.Build();
    if (id == 1) {
      mb = std::make_unique<pd::ProductElementMatrixProviderBuilder<S>>(sp[0].s, x.s);
      vb = std::make_unique<pd::ProductElementVectorProviderBuilder<S>>(x.s);
    }
  }
  // coefficients of the basis functions of component c of space x on a cell, and factors of the columns
  Eigen::Matrix<S, -1, -1> coef(const Sp& x, int c, const Entity& e, std::vector<double>& len) {
    if (x.k[c] != "f") {
      auto b = basis<S>(*x.s->ShapeFunctionLayout(e.RefEl(), c), monomials(e.RefEl(), x.d[c]));
      len.assign(b.cols(), 1.);
      return b;
    }
    const auto& d = x.s->LocGlobMap().ComponentDofHandler(c);
    const auto b = basis<S>(*x.s->ShapeFunctionLayout(RefEl::kSegment(), c), monomials(RefEl::kSegment(), x.d[c]));
    const auto g = d.GlobalDofIndices(e);
    const auto ed = e.SubEntities(1);
    Eigen::Matrix<S, -1, -1> r(g.size(), ed.size() * b.cols());
    r.setZero();
    len.clear();
    for (size_t j = 0; j < ed.size(); ++j) {
      const auto ge = d.GlobalDofIndices(*ed[j]);
      const auto co = corners(*ed[j]);
      for (int k = 0; k < b.cols(); ++k) {
        len.push_back((co.col(1) - co.col(0)).norm());
        for (size_t i = 0; i < g.size(); ++i) for (size_t q = 0; q < ge.size(); ++q) if (g[i] == ge[q]) r(i, j * b.cols() + k) = b(q, k);
      }
    }
    return r;
  }
  template <class M> std::string put(const M& a, int part, const std::vector<double>& len) {
    Mat x(a.rows());
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) x[i].push_back(R((part ? std::imag(a(i, j)) : std::real(a(i, j))) / len[j], 1e5));
    return J::arr(x);
  }
  std::vector<std::vector<ll>> signs() {
    pd::PrescribedSignProvider s(m);
    std::vector<std::vector<ll>> r;
    for (unsigned c = 0; c < m->NumEntities(0); ++c) {
      const Entity* e = m->EntityByIndex(0, c);
      std::vector<ll> v;
      for (const Entity* x : e->SubEntities(1)) v.push_back(s.PrescribedSign(*e, *x));
      r.push_back(v);
    }
    return r;
  }
  static std::string comps(const Sp& x) {
    std::string o = "[";
    for (size_t i = 0; i < x.k.size(); ++i) o += (i ? "," : "") + std::string("[\"") + x.k[i] + "\"," + std::to_string(x.d[i]) + "]";
    return o + "]";
  }
  void mat(std::istream& is) {  // n (kind tr te coefficients)..
    int n; is >> n;
    std::string ts = "[";
    for (int i = 0; i < n; ++i) {
      std::string k; int tr, te; is >> k >> tr >> te;
      J j; j.s("k", k).i("tr", tr).i("te", te);
      if (k == "diff") {
        std::string t; is >> t;
        std::vector<std::vector<int>> a(2, std::vector<int>(2));
        if (t == "s") {
          int v; is >> v; a = {{v, 0}, {0, v}};
          const S c = mk<S>(v);
          mb->AddDiffusionElementMatrixProvider(tr, te, MeshFunctionGlobal([c](const Eigen::VectorXd&) { return c; }));
        } else {
          Eigen::Matrix<S, 2, 2> c;
          for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) { is >> a[p][q]; c(p, q) = mk<S>(a[p][q]); }
          mb->AddDiffusionElementMatrixProvider(tr, te, MeshFunctionGlobal([c](const Eigen::VectorXd&) { return c; }));
        }
        j.v("al", a);
      } else if (k == "reac" || k == "flux") {
        Poly p = rdpoly(is);
        const int wt = k == "reac" ? 2 : 0;  // fluxes are divided by the length of the side
        MeshFunctionGlobal f([p, wt](const Eigen::VectorXd& x) { return mk<S>(eval(p, x, wt)); });
        if (k == "reac") mb->AddReactionElementMatrixProvider(tr, te, f); else mb->AddFluxElementMatrixProvider(tr, te, f);
        j.v("ga", p);
      } else if (k == "trace") {
        Poly p = rdpoly(is), q = rdpoly(is);
        mb->AddTraceElementMatrixProvider(tr, te, MeshFunctionGlobal([p, q](const Eigen::VectorXd& x) -> Eigen::Matrix<S, 2, 1> { return {mk<S>(eval(p, x, 1)), mk<S>(eval(q, x, 1))}; }));
        j.v("bx", p).v("by", q);
      } else {
        Poly p = rdpoly(is), q = rdpoly(is), r = rdpoly(is), s = rdpoly(is);
        mb->AddConvectionElementMatrixProvider(tr, te, MeshFunctionGlobal([p, q](const Eigen::VectorXd& x) -> Eigen::Matrix<S, 2, 1> { return {mk<S>(eval(p, x, 1)), mk<S>(eval(q, x, 1))}; }),
                                               MeshFunctionGlobal([r, s](const Eigen::VectorXd& x) -> Eigen::Matrix<S, 2, 1> { return {mk<S>(eval(r, x, 1)), mk<S>(eval(s, x, 1))}; }));
        j.v("bx", p).v("by", q).v("cx", r).v("cy", s);
      }
      ts += (i ? "," : "") + j.str();
    }
    auto prov = mb->Build();
    std::string o[2];
    bool ok = true;
    for (int part = 0; part < (std::is_same_v<S, cplx> ? 2 : 1); ++part) {
      o[part] = "[";
      for (unsigned c = 0; c < m->NumEntities(0); ++c) {
        const Entity& e = *m->EntityByIndex(0, c);
        ok = ok && prov->isActive(e);
        const Eigen::Matrix<S, -1, -1> A = prov->Eval(e);
        const auto &d0 = sp[0].s->LocGlobMap(), &d1 = sp[1].s->LocGlobMap();
        ok = ok && A.rows() == d1.NumLocalDofs(e) && A.cols() == d0.NumLocalDofs(e);
        o[part] += c ? ",[" : "[";
        for (size_t te = 0; te < sp[1].k.size(); ++te) {
          o[part] += te ? ",[" : "[";
          std::vector<double> len, one;
          const auto ct = coef(sp[1], te, e, one);
          for (size_t tr = 0; tr < sp[0].k.size(); ++tr) {
            const auto cr = coef(sp[0], tr, e, len);
            const Eigen::Matrix<S, -1, -1> B = ct.transpose() * A.block(d1.LocalStartIndex(e, te), d0.LocalStartIndex(e, tr), ct.rows(), cr.rows()) * cr;
            o[part] += (tr ? "," : "") + put(B, part, len);
          }
          o[part] += "]";
        }
        o[part] += "]";
      }
      o[part] += "]";
    }
    emit(J().s("e", "mat").raw("tr", comps(sp[0])).raw("te", comps(sp[1])).raw("ts", ts + "]").v("sgn", signs()).t("cx", !o[1].empty()).raw("re", o[0]).raw("im", o[1].empty() ? "[]" : o[1]).t("ok", ok));
  }
  void vec(std::istream& is) {
    int n; is >> n;
    std::string ts = "[";
    for (int i = 0; i < n; ++i) {
      int te; is >> te;
      Poly p = rdpoly(is);
      J j; j.i("te", te).v("ga", p);
      vb->AddLoadElementVectorProvider(te, MeshFunctionGlobal([p](const Eigen::VectorXd& x) { return mk<S>(eval(p, x, 2)); }));
      ts += (i ? "," : "") + j.str();
    }
    auto prov = vb->Build();
    std::string o[2];
    for (int part = 0; part < (std::is_same_v<S, cplx> ? 2 : 1); ++part) {
      o[part] = "[";
      for (unsigned c = 0; c < m->NumEntities(0); ++c) {
        const Entity& e = *m->EntityByIndex(0, c);
        const Eigen::Matrix<S, -1, 1> A = prov->Eval(e);
        const auto& d1 = sp[1].s->LocGlobMap();
        o[part] += c ? ",[" : "[";
        for (size_t te = 0; te < sp[1].k.size(); ++te) {
          std::vector<double> one;
          const auto ct = coef(sp[1], te, e, one);
          const Eigen::Matrix<S, 1, -1> B = A.segment(d1.LocalStartIndex(e, te), ct.rows()).transpose() * ct;
          o[part] += (te ? "," : "") + put(B, part, one);
        }
        o[part] += "]";
      }
      o[part] += "]";
    }
    emit(J().s("e", "vec").raw("te", comps(sp[1])).raw("ts", ts + "]").t("cx", !o[1].empty()).raw("re", o[0]).raw("im", o[1].empty() ? "[]" : o[1]));
  }
};

static std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<double>> lagr(RefEl r, int d) {
  using namespace lf::uscalfe;
  if (r == RefEl::kSegment()) { if (d == 1) return std::make_shared<FeLagrangeO1Segment<double>>(); if (d == 2) return std::make_shared<FeLagrangeO2Segment<double>>(); if (d == 3) return std::make_shared<FeLagrangeO3Segment<double>>(); return std::make_shared<pd::FeDiscontinuousO0Segment<double>>(); }
  if (r == RefEl::kTria()) { if (d == 1) return std::make_shared<FeLagrangeO1Tria<double>>(); if (d == 2) return std::make_shared<FeLagrangeO2Tria<double>>(); if (d == 3) return std::make_shared<FeLagrangeO3Tria<double>>(); return std::make_shared<pd::FeDiscontinuousO0Tria<double>>(); }
  if (d == 1) return std::make_shared<FeLagrangeO1Quad<double>>(); if (d == 2) return std::make_shared<FeLagrangeO2Quad<double>>(); if (d == 3) return std::make_shared<FeLagrangeO3Quad<double>>(); return std::make_shared<pd::FeDiscontinuousO0Quad<double>>();
}
static void dump_fe(J& j, const lf::fe::ScalarReferenceFiniteElement<double>& f) {
  const int dim = f.RefEl().Dimension();
  const RefEl r = f.RefEl();
  std::vector<ll> cnt;
  std::vector<std::vector<ll>> sub;
  for (int c = 0; c <= dim; ++c) {
    cnt.push_back(f.NumRefShapeFunctions(c));
    std::vector<ll> v;
    for (unsigned i = 0; i < r.NumSubEntities(c); ++i) v.push_back(f.NumRefShapeFunctions(c, i));
    sub.push_back(v);
  }
  Eigen::MatrixXd p(dim, 6);
  if (dim == 1) p << 0, .25, .5, .75, 1, .125; else p << 0, .25, .5, .25, 1, 0, 0, .25, .125, .5, 0, 1;
  const Eigen::MatrixXd x = f.EvaluationNodes();
  Eigen::Matrix<double, 1, -1> nv(f.NumEvaluationNodes());
  for (int i = 0; i < nv.size(); ++i) nv[i] = i * i + 3;
  const Eigen::MatrixXd dv = f.NodalValuesToDofs(nv);
  j.i("id", r.Id()).i("deg", f.Degree()).i("n", f.NumRefShapeFunctions()).v("cnt", cnt).v("sub", sub).i("nn", f.NumEvaluationNodes())
      .v("val", rmat(f.EvalReferenceShapeFunctions(p).transpose(), 1e6)).v("grad", rmat(f.GradientsReferenceShapeFunctions(p).transpose(), 1e6)).v("nodes", rmat(x, 1e6)).v("dofs", zmat(dv.transpose(), 1));
}

template <class S> void scenario(const Scenario& sc) {
  Factory fac;
  World<S> w;
  for (auto& l : sc.lines) {
    std::istringstream is(l);
    std::string op;
    is >> op;
    if (op == "complex") continue;
    if (op == "M") {
      int d, c, k = 0; is >> d >> c >> k;
      gU = std::ldexp(1., k);
      fac = Factory(d, c != 0, 1 / gU);
      fac.log = false;
      continue;
    }
    if (fac.line(l)) {
      if (op == "B") {
        w.m = fac.mesh;
        J j; j.s("e", "mesh"); mesh_json(j, *w.m, 1 / gU); emit(j);
      }
      continue;
    }
    if (op == "space") w.space(is);
    else if (op == "mat") w.mat(is);
    else if (op == "vec") w.vec(is);
    else if (op == "wrap") {  // kind (l, t), reference element, degree
      std::string k; int nv, d; is >> k >> nv >> d;
      const RefEl r = nv == 2 ? RefEl::kSegment() : nv == 3 ? RefEl::kTria() : RefEl::kQuad();
      const auto base = lagr(r, d);
      J b, x;
      dump_fe(b, *base);
      if (k == "l") dump_fe(x, pd::DiscontinuousScalarReferenceFiniteElement<double>(base)); else dump_fe(x, pd::TraceScalarReferenceFiniteElement<double>(base));
      emit(J().s("e", "wrap").s("k", k).i("nv", nv).i("d", d).raw("b", b.str()).raw("w", x.str()));
    } else if (op == "dpg") {  // kinds of the trial components are those of space 0; test degree, seeds
      if constexpr (std::is_same_v<S, double>) {
        int p, s, n; is >> p >> s >> n;
        std::vector<int> seeds(n);
        for (auto& v : seeds) is >> v;
        pd::ProductUniformFESpaceFactory<double> f(w.m);
        f.AddL2Component(p);
        auto te = f.Build();
        const auto &d = w.sp[0].s->LocGlobMap(), &dt = te->LocGlobMap();
        std::vector<std::shared_ptr<pd::SubElementMatrixProvider<double>>> bs, gs;
        for (size_t c = 0; c < seeds.size(); ++c) if (seeds[c] >= 0) bs.push_back(std::make_shared<SubMat>(w.m.get(), seeds[c], c, &dt, &d));
        gs.push_back(std::make_shared<SubMat>(w.m.get(), -1, 0, &dt, &dt));
        std::vector<std::shared_ptr<pd::SubElementVectorProvider<double>>> vs{std::make_shared<SubVec>(w.m.get(), s, &dt)};
        auto B = std::make_shared<pd::ProductElementMatrixProvider<double>>(w.sp[0].s, te, bs);
        auto G = std::make_shared<pd::ProductElementMatrixProvider<double>>(te, te, gs);
        auto L = std::make_shared<pd::ProductElementVectorProvider<double>>(te, vs);
        pd::DpgElementMatrixProvider A(B, G);
        pd::DpgElementVectorProvider V(L, B, G);
        std::string a = "[", v = "[";
        std::vector<std::vector<ll>> ln;
        std::vector<ll> nt;
        bool act = true;
        for (unsigned k = 0; k < w.m->NumEntities(0); ++k) {
          const Entity& e = *w.m->EntityByIndex(0, k);
          act = act && A.isActive(e) && V.isActive(e);
          a += (k ? "," : "") + J::arr(rmat(A.Eval(e), 10));
          v += (k ? "," : "") + J::arr(rmat(V.Eval(e), 10));
          std::vector<ll> x;
          for (unsigned c = 0; c < d.NumComponents(); ++c) x.push_back(d.NumLocalDofs(e, c));
          ln.push_back(x); nt.push_back(dt.NumLocalDofs(e));
        }
        emit(J().s("e", "dpg").i("s", s).v("seeds", seeds).v("ln", ln).v("nt", nt).raw("a", a + "]").raw("v", v + "]").t("act", act));
      }
    }
  }
}
int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    if (!sc.lines.empty() && sc.lines[0] == "complex") scenario<cplx>(sc); else scenario<double>(sc);
  });
}
