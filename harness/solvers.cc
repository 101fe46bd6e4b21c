// Driver for P36: complete boundary value problems whose solution lies in the discrete space.
#include "meshio.h"
#include <build_system_matrix.h>
#include <dpg/dpg_element_matrix_provider.h>
#include <dpg/dpg_element_vector_provider.h>
#include <dpg/dpg_tools.h>
#include <dpg/product_element_matrix_provider_builder.h>
#include <dpg/product_element_vector_provider_builder.h>
#include <dpg/product_fe_space_factory.h>
#include <lf/assemble/assemble.h>
#include <lf/fe/fe.h>
#include <lf/quad/quad.h>
#include <lf/refinement/refinement.h>
#include <lf/uscalfe/uscalfe.h>
#include <solution_to_mesh_data_set.h>
#include <Eigen/Sparse>
#include <map>
using namespace vf;
namespace pd = projects::dpg;
namespace st = projects::ipdg_stokes;
using lf::mesh::utils::MeshFunctionConstant;
using lf::mesh::utils::MeshFunctionGlobal;
using V2 = Eigen::Vector2d;
using Mat = std::vector<std::vector<ll>>;
using Poly = std::vector<std::vector<ll>>;  // coefficient, exponents

static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double eval(const Poly& p, const Eigen::VectorXd& x) {
  double r = 0;
  for (auto& t : p) r += t[0] * ipow(x[0], t[1]) * ipow(x[1], t[2]);
  return r;
}
static Poly rd(std::istream& is) {
  int n; is >> n;
  Poly p(n, std::vector<ll>(3));
  for (auto& t : p) for (auto& x : t) is >> x;
  return p;
}
static int deg(const Poly& p) { int d = 0; for (auto& t : p) d = std::max<int>(d, t[1] + t[2]); return d; }
static bool isconst(const Poly& p) { for (auto& t : p) if (t[1] + t[2] > 0) return false; return true; }
static double cval(const Poly& p) { double r = 0; for (auto& t : p) r += t[0]; return r; }

struct Fn { Poly p; double operator()(const V2& x) const { return eval(p, x); } };
struct Inv { Poly p; double operator()(const V2& x) const { return 1. / eval(p, x); } };
struct Fn2 { Poly p, q; V2 operator()(const V2& x) const { return V2(eval(p, x), eval(q, x)); } };
struct Fn4 { Poly a, b, c, d; Eigen::Matrix2d operator()(const V2& x) const { return (Eigen::Matrix2d() << eval(a, x), eval(b, x), eval(c, x), eval(d, x)).finished(); } };

struct World {
  std::shared_ptr<const Mesh> m;
  std::map<std::pair<int, int>, char> bc;
  std::vector<ll> kind() const {  // 0 none, 1 Dirichlet, 2 Neumann, 3 Robin
    std::vector<ll> k;
    for (const Entity* e : m->Entities(1)) {
      const int a = m->Index(*e->SubEntities(1)[0]), b = m->Index(*e->SubEntities(1)[1]);
      const auto it = bc.find({std::min(a, b), std::max(a, b)});
      k.push_back(it == bc.end() ? 0 : it->second == 'D' ? 1 : it->second == 'N' ? 2 : 3);
    }
    return k;
  }
  // outer normals times lengths of the boundary edges
  std::vector<V2> normals() const {
    std::vector<V2> r(m->NumEntities(1), V2::Zero());
    for (const Entity* c : m->Entities(0)) {
      const Eigen::MatrixXd x = corners(*c);
      const V2 mid = x.rowwise().mean();
      for (const Entity* e : c->SubEntities(1)) {
        const Eigen::MatrixXd y = corners(*e);
        V2 n(y(1, 1) - y(1, 0), y(0, 0) - y(0, 1));
        if (n.dot(mid - y.col(0)) > 0) n = -n;
        r[m->Index(*e)] += n;  // cancels on interior edges
      }
    }
    return r;
  }
};

/// normal component of a vector field on the edges, plus a multiple of a function on some of them
struct EdgeData {
  const Mesh* m;
  const Poly *fx, *fy, *u;
  double eta;
  const std::vector<V2>* nrm;
  const std::vector<ll>* kind;
  std::vector<double> operator()(const Entity& e, const Eigen::MatrixXd& xi) const {
    const Eigen::MatrixXd x = e.Geometry()->Global(xi);
    const auto i = m->Index(e);
    const V2 n = (*nrm)[i].norm() > 0 ? V2((*nrm)[i].normalized()) : V2(0, 0);
    std::vector<double> r;
    for (int k = 0; k < x.cols(); ++k) r.push_back(eval(*fx, x.col(k)) * n[0] + eval(*fy, x.col(k)) * n[1] + ((*kind)[i] == 3 ? eta * eval(*u, x.col(k)) : 0));
    return r;
  }
};

static Eigen::MatrixXd lat(RefEl r) {  // half steps
  std::vector<V2> p;
  for (int a = 0; a <= 2; ++a) for (int b = 0; b <= 2; ++b) if (r == RefEl::kQuad() || a + b <= 2) p.emplace_back(a / 2., b / 2.);
  Eigen::MatrixXd x(2, p.size());
  for (size_t i = 0; i < p.size(); ++i) x.col(i) = p[i];
  return x;
}
template <class MF> Mat values(const Mesh& m, const MF& f, double s) {
  Mat r;
  for (const Entity* c : m.Entities(0)) {
    r.emplace_back();
    for (double v : f(*c, lat(c->RefEl()))) r.back().push_back(Z(v, s));
  }
  return r;
}
template <class MF> std::vector<Mat> gradients(const Mesh& m, const MF& f, double s) {
  std::vector<Mat> r;
  for (const Entity* c : m.Entities(0)) {
    r.emplace_back();
    for (const auto& v : f(*c, lat(c->RefEl()))) r.back().push_back({Z(v[0], s), Z(v[1], s)});
  }
  return r;
}
// a component living on edges at parameters 0, 1/2, 1
template <class FES> Mat edgevalues(const Mesh& m, const FES& fes, const Eigen::VectorXd& c, double s, bool len) {
  Mat r;
  Eigen::MatrixXd x(1, 3);
  x << 0, .5, 1;
  for (const Entity* e : m.Entities(1)) {
    const auto g = fes.LocGlobMap().GlobalDofIndices(*e);
    const Eigen::MatrixXd v = fes.ShapeFunctionLayout(*e)->EvalReferenceShapeFunctions(x);
    const Eigen::MatrixXd y = corners(*e);
    r.emplace_back();
    for (int k = 0; k < 3; ++k) {
      double w = 0;
      for (int i = 0; i < v.rows(); ++i) w += c[g[i]] * v(i, k);
      r.back().push_back(Z(w * (len ? (y.col(1) - y.col(0)).norm() : 1), s));
    }
  }
  return r;
}

// assemble with diffusion coefficient al, reaction ga
template <class AL, class GA> void cells(int prov, const std::shared_ptr<lf::fe::ScalarFESpace<double>>& fes, const AL& al, const GA& ga, bool noal, lf::assemble::COOMatrix<double>& A) {
  const auto& d = fes->LocGlobMap();
  auto us = std::dynamic_pointer_cast<lf::uscalfe::UniformScalarFESpace<double>>(fes);
  std::shared_ptr<const lf::fe::ScalarFESpace<double>> cf = fes;
  if (prov && us && !noal) {
    std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<double>> u = us;
    lf::uscalfe::ReactionDiffusionElementMatrixProvider p(u, al, ga);
    lf::assemble::AssembleMatrixLocally(0, d, d, p, A);
    return;
  }
  if (!noal) {
    lf::fe::DiffusionElementMatrixProvider p(cf, al);
    lf::assemble::AssembleMatrixLocally(0, d, d, p, A);
  }
  lf::fe::MassElementMatrixProvider p(cf, ga);
  lf::assemble::AssembleMatrixLocally(0, d, d, p, A);
}

static void bvp(std::istream& is, const World& w) {
  std::string k;
  int p, p2, prov, elim, eta;
  is >> k >> p >> p2 >> prov >> elim >> eta;
  const Poly u = rd(is), a11 = rd(is), a12 = rd(is), a21 = rd(is), a22 = rd(is), ga = rd(is), f = rd(is), fx = rd(is), fy = rd(is);
  auto m = w.m;
  const auto kind = w.kind();
  const auto nrm = w.normals();
  std::shared_ptr<lf::fe::ScalarFESpace<double>> fes;
  if (k == "l") {
    if (p == 1) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
    if (p == 2) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(m);
    if (p == 3) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(m);
  } else {
    const Mesh* mm = m.get();
    auto dg = [mm, p, p2](const Entity& e) -> unsigned { return e.RefEl() == RefEl::kPoint() ? 1 : (mm->Index(e) * 7 + e.Codim()) % 3 == 0 ? p2 : p; };
    if (p == p2) fes = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, (unsigned)p);
    else fes = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, dg);
  }
  const auto& d = fes->LocGlobMap();
  const int n = d.NumDofs();
  lf::assemble::COOMatrix<double> A(n, n);
  Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
  const bool scal = a11 == a22 && a12.empty() && a21.empty(), cst = isconst(a11) && isconst(a12) && isconst(a21) && isconst(a22);
  const bool noal = a11.empty() && a22.empty() && a12.empty() && a21.empty();
  auto gm = MeshFunctionGlobal(Fn{ga});
  const MeshFunctionConstant<double> gc(cval(ga));
  const Fn4 tensor{a11, a12, a21, a22};
  auto both = [&](const auto& al) { if (isconst(ga)) cells(prov, fes, al, gc, noal, A); else cells(prov, fes, al, gm, noal, A); };
  if (scal && cst) both(MeshFunctionConstant<double>(cval(a11)));
  else if (scal) both(MeshFunctionGlobal(Fn{a11}));
  else if (cst) both(MeshFunctionConstant<Eigen::Matrix2d>(tensor(V2(0, 0))));
  else both(MeshFunctionGlobal(Fn4(tensor)));
  // source, fluxes and Robin terms
  std::shared_ptr<const lf::fe::ScalarFESpace<double>> cf = fes;
  auto us = std::dynamic_pointer_cast<const lf::uscalfe::UniformScalarFESpace<double>>(cf);
  const Mesh* mm = m.get();
  const auto fm = MeshFunctionGlobal(Fn{f});
  const EdgeData ed{mm, &fx, &fy, &u, (double)eta, &nrm, &kind};
  auto rob = [&kind, mm](const Entity& e) { return kind[mm->Index(e)] == 3; };
  auto nat = [&kind, mm](const Entity& e) { return kind[mm->Index(e)] >= 2; };
  const MeshFunctionConstant<double> etam((double)eta);
  if (prov && us) {
    lf::uscalfe::ScalarLoadElementVectorProvider<double, decltype(fm)> lp(us, fm);
    lf::assemble::AssembleVectorLocally(0, d, lp, b);
    lf::uscalfe::ScalarLoadEdgeVectorProvider<double, EdgeData, decltype(nat)> le(us, ed, nat);
    lf::assemble::AssembleVectorLocally(1, d, le, b);
    lf::uscalfe::MassEdgeMatrixProvider<double, decltype(etam), decltype(rob)> me(us, etam, rob);
    lf::assemble::AssembleMatrixLocally(1, d, d, me, A);
  } else {
    lf::fe::ScalarLoadElementVectorProvider<double, decltype(fm)> lp(cf, fm);
    lf::assemble::AssembleVectorLocally(0, d, lp, b);
    lf::fe::ScalarLoadEdgeVectorProvider<double, EdgeData, decltype(nat)> le(cf, ed, nat);
    lf::assemble::AssembleVectorLocally(1, d, le, b);
    lf::fe::MassEdgeMatrixProvider<double, decltype(etam), decltype(rob)> me(cf, etam, rob);
    lf::assemble::AssembleMatrixLocally(1, d, d, me, A);
  }
  const auto um = MeshFunctionGlobal(Fn{u});
  auto dir = [&kind, mm](const Entity& e) { return kind[mm->Index(e)] == 1; };
  const auto fix = lf::fe::InitEssentialConditionFromFunction(*fes, dir, um);
  auto sel = [&fix](unsigned i) { return fix[i]; };
  if (elim == 0) lf::assemble::FixFlaggedSolutionComponents<double>(sel, A, b);
  else if (elim == 1) lf::assemble::FixFlaggedSolutionCompAlt<double>(sel, A, b);
  else {
    lf::assemble::fixed_components_t<double> fc;
    for (int i = n - 1; i >= 0; --i) if (fix[i].first) fc.emplace_back(i, fix[i].second);
    lf::assemble::FixSolutionComponentsLse<double>(fc, A, b);
  }
  Eigen::SparseLU<Eigen::SparseMatrix<double>> lu(A.makeSparse());
  const bool ok = lu.info() == Eigen::Success;
  const Eigen::VectorXd x = ok ? Eigen::VectorXd(lu.solve(b)) : Eigen::VectorXd::Constant(n, NAN);
  const lf::fe::MeshFunctionFE<double, double> mf(fes, x);
  const lf::fe::MeshFunctionGradFE<double, double> mg(fes, x);
  const double s = ipow(4, deg(u));
  std::vector<std::vector<ll>> nn;
  for (auto& v : nrm) nn.push_back({Z(v[0], 1), Z(v[1], 1)});
  const double err = lf::fe::IntegrateMeshFunction(*m, lf::mesh::utils::squaredNorm(mf - um), 2 * std::max(p, p2) + 2);
  emit(J().s("e", "bvp").s("k", k).i("p", std::min(p, p2)).i("eta", eta).v("u", u).v("a11", a11).v("a12", a12).v("a21", a21).v("a22", a22)
           .v("ga", ga).v("f", f).v("fx", fx).v("fy", fy).v("kind", kind).v("nrm", nn).i("deg", deg(u)).v("val", values(*m, mf, s))
           .v("grad", gradients(*m, mg, s)).i("err", R(std::sqrt(std::fabs(err)), 1e5)));
}

// discontinuous Petrov-Galerkin methods; alpha, (bx, by), ga: coefficients
static void dpg(std::istream& is, const World& w) {
  int weak, p, dp;
  is >> weak >> p >> dp;
  const Poly u = rd(is), al = rd(is), bx = rd(is), by = rd(is), ga = rd(is), f = rd(is), fx = rd(is), fy = rd(is);
  auto m = w.m;
  const auto kind = w.kind();
  const auto nrm = w.normals();
  const Mesh* mm = m.get();
  using BM = pd::ProductElementMatrixProviderBuilder<double>;
  const auto alm = MeshFunctionGlobal(Fn{al});
  const auto alinv = MeshFunctionGlobal(Inv{al});
  const auto bm = MeshFunctionGlobal(Fn2{bx, by});
  const auto gm = MeshFunctionGlobal(Fn{ga});
  const auto fm = MeshFunctionGlobal(Fn{f});
  const auto um = MeshFunctionGlobal(Fn{u});
  const auto one = MeshFunctionConstant(1.0);
  const auto zero = MeshFunctionConstant(V2(0, 0));
  const auto ex = MeshFunctionConstant(V2(1, 0)), ey = MeshFunctionConstant(V2(0, 1));
  auto mat = [](double a, double b, double c, double d) { return MeshFunctionConstant<Eigen::Matrix2d>((Eigen::Matrix2d() << a, b, c, d).finished()); };
  pd::ProductUniformFESpaceFactory<double> ft(m), fs(m);
  unsigned iu, iq, it = 0, isx = 0, isy = 0;
  std::shared_ptr<pd::ProductUniformFESpace<double>> T, S;
  std::shared_ptr<pd::ProductElementMatrixProvider<double>> B, G;
  std::shared_ptr<pd::ProductElementVectorProvider<double>> L;
  if (!weak) {
    iu = ft.AddH1Component(p);
    iq = ft.AddFluxComponent(p - 1);
    T = ft.Build();
    const unsigned v = fs.AddL2Component(p + dp);
    S = fs.Build();
    BM b(T, S);
    b.AddDiffusionElementMatrixProvider(iu, v, alm);
    b.AddFluxElementMatrixProvider(iq, v, -one);
    b.AddConvectionElementMatrixProvider(iu, v, zero, bm);
    b.AddReactionElementMatrixProvider(iu, v, gm);
    B = b.Build();
    BM g(S, S);
    g.AddDiffusionElementMatrixProvider(v, v, one);
    g.AddReactionElementMatrixProvider(v, v, one);
    G = g.Build();
    pd::ProductElementVectorProviderBuilder<double> l(S);
    l.AddLoadElementVectorProvider(v, fm);
    L = l.Build();
  } else {
    iu = ft.AddL2Component(p);
    isx = ft.AddL2Component(p);
    isy = ft.AddL2Component(p);
    it = ft.AddTraceComponent(p + 1);
    iq = ft.AddFluxComponent(p);
    T = ft.Build();
    const unsigned v = fs.AddL2Component(p + dp), tx = fs.AddL2Component(p + dp), ty = fs.AddL2Component(p + dp);
    S = fs.Build();
    BM b(T, S);
    b.AddConvectionElementMatrixProvider(iu, v, -bm, zero);
    b.AddReactionElementMatrixProvider(iu, v, gm);
    b.AddConvectionElementMatrixProvider(isx, v, ex, zero);
    b.AddConvectionElementMatrixProvider(isy, v, ey, zero);
    b.AddFluxElementMatrixProvider(iq, v, -one);
    b.AddConvectionElementMatrixProvider(iu, tx, ex, zero);
    b.AddConvectionElementMatrixProvider(iu, ty, ey, zero);
    b.AddReactionElementMatrixProvider(isx, tx, alinv);
    b.AddReactionElementMatrixProvider(isy, ty, alinv);
    b.AddTraceElementMatrixProvider(it, tx, -ex);
    b.AddTraceElementMatrixProvider(it, ty, -ey);
    B = b.Build();
    BM g(S, S);
    g.AddDiffusionElementMatrixProvider(v, v, one);
    g.AddReactionElementMatrixProvider(v, v, one);
    g.AddDiffusionElementMatrixProvider(tx, tx, mat(1, 0, 0, 0));
    g.AddDiffusionElementMatrixProvider(ty, ty, mat(0, 0, 0, 1));
    g.AddDiffusionElementMatrixProvider(ty, tx, mat(0, 1, 0, 0));
    g.AddDiffusionElementMatrixProvider(tx, ty, mat(0, 0, 1, 0));
    g.AddReactionElementMatrixProvider(tx, tx, one);
    g.AddReactionElementMatrixProvider(ty, ty, one);
    G = g.Build();
    pd::ProductElementVectorProviderBuilder<double> l(S);
    l.AddLoadElementVectorProvider(v, fm);
    L = l.Build();
  }
  const unsigned ic = weak ? it : iu;  // component with the Dirichlet data
  pd::DpgElementMatrixProvider<double> em(B, G);
  pd::DpgElementVectorProvider<double> ev(L, B, G);
  const auto& d = T->LocGlobMap();
  const int n = d.NumDofs();
  lf::assemble::COOMatrix<double> A(n, n);
  Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
  lf::assemble::AssembleMatrixLocally(0, d, d, em, A);
  lf::assemble::AssembleVectorLocally(0, d, ev, b);
  const Poly none;
  const EdgeData ed{mm, &fx, &fy, &u, 0, &nrm, &kind};
  auto dir = [&kind, mm](const Entity& e) { return kind[mm->Index(e)] == 1; };
  auto neu = [&kind, mm](const Entity& e) { return kind[mm->Index(e)] == 2; };
  const auto fix = pd::InitEssentialConditionsFromFunctions(*T, ic, iq, dir, neu, um, ed);
  lf::assemble::FixFlaggedSolutionComponents<double>([&fix](unsigned i) { return fix[i]; }, A, b);
  const Eigen::VectorXd sv = Eigen::JacobiSVD<Eigen::MatrixXd>(A.makeDense()).singularValues();
  const bool uniq = sv[n - 1] > 1e-9 * sv[0];
  Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>> ldl(A.makeSparse());
  const bool ok = ldl.info() == Eigen::Success;
  Eigen::VectorXd x = ok ? Eigen::VectorXd(ldl.solve(b)) : Eigen::VectorXd::Constant(n, NAN);
  const double s = ipow(4, deg(u));
  auto part = [&](unsigned c) -> Eigen::VectorXd { return x.segment(d.Offset(c), d.NumDofs(c)); };
  auto vals = [&](unsigned c, double sc) { auto fe = T->ComponentFESpace(c); const lf::fe::MeshFunctionFE<double, double> mf(fe, part(c)); return values(*m, mf, sc); };
  std::vector<std::vector<ll>> nn, sg;
  for (auto& v : nrm) nn.push_back({Z(v[0], 1), Z(v[1], 1)});
  pd::PrescribedSignProvider sp(m);
  for (unsigned c = 0; c < m->NumEntities(0); ++c) {
    const Entity* e = m->EntityByIndex(0, c);
    sg.emplace_back();
    for (const Entity* y : e->SubEntities(1)) sg.back().push_back(sp.PrescribedSign(*e, *y));
  }
  const int fd = std::max(deg(fx), deg(fy));
  const double sf = ipow(4, fd);
  const auto loc = pd::ElementErrorEstimators(d, B, G, L, x);
  double mx = 0;
  for (const Entity* c : m->Entities(0)) mx = std::max(mx, std::fabs(loc(*c)));
  J j;
  j.s("e", "dpg").i("weak", weak).i("p", p).i("dp", dp).v("u", u).v("al", al).v("bx", bx).v("by", by).v("ga", ga).v("f", f).v("fx", fx).v("fy", fy)
      .v("kind", kind).v("nrm", nn).v("sgn", sg).t("uniq", uniq).i("deg", deg(u)).i("fdeg", fd).v("val", vals(iu, s)).v("flux", edgevalues(*m, *T->ComponentFESpace(iq), part(iq), sf, true))
      .i("loc", R(mx, 1e4)).i("est", R(pd::EvalPosteriorError<double>(m, loc), 1e4));
  if (weak) j.v("sx", vals(isx, sf)).v("sy", vals(isy, sf)).v("tr", edgevalues(*m, *T->ComponentFESpace(it), part(it), s, false));
  emit(j);
}

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    World w;
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c; is >> d >> c;
        fac = Factory(d, c != 0);
        fac.log = false;
        w.bc.clear();
      } else if (fac.line(l)) {
        if (op == "B") {
          w.m = fac.mesh;
          J j; j.s("e", "mesh"); mesh_json(j, *w.m, 1); emit(j);
        }
      } else if (op == "nobc") {
        w.bc.clear();
      } else if (op == "bc") {  // a b kind
        int a, b; char k; is >> a >> b >> k;
        w.bc[{std::min(a, b), std::max(a, b)}] = k;
      } else if (op == "refine") {  // marks; Dirichlet conditions on the whole boundary
        int seed; is >> seed;
        lf::refinement::MeshHierarchy h(fac.mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
        if (seed == 0) h.RefineRegular();
        else {
          h.MarkEdges([seed](const Mesh& m, const Entity& e) { return (m.Index(e) * 7 + seed) % 3 == 0; });
          h.RefineMarked();
        }
        w.m = h.getMesh(1);
        w.bc.clear();
        const auto bd = lf::mesh::utils::flagEntitiesOnBoundary(w.m, 1);
        for (const Entity* e : w.m->Entities(1)) {
          const int a = w.m->Index(*e->SubEntities(1)[0]), b = w.m->Index(*e->SubEntities(1)[1]);
          if (bd(*e)) w.bc[{std::min(a, b), std::max(a, b)}] = 'D';
        }
        J j; j.s("e", "mesh"); mesh_json(j, *w.m, 1); emit(j);
      } else if (op == "bvp") {
        bvp(is, w);
      } else if (op == "dpg") {
        dpg(is, w);
      } else if (op == "flow") {  // constant velocity and force
        int s8, mod, gx, gy, f0, f1; is >> s8 >> mod >> gx >> gy >> f0 >> f1;
        lf::assemble::UniformFEDofHandler d(w.m, {{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}});
        auto f = [&](const V2&) -> V2 { return V2(f0, f1); };
        auto g = [&](const Entity&) -> V2 { return V2(gx, gy); };
        auto [A, rhs, off] = st::assemble::buildSystemMatrixInOutFlow(w.m, d, f, g, s8 / 8., lf::quad::make_TriaQR_MidpointRule(), mod != 0);
        Eigen::SparseLU<Eigen::SparseMatrix<double>> lu(A.makeSparse());
        const bool ok = lu.info() == Eigen::Success;
        const Eigen::VectorXd x = ok ? Eigen::VectorXd(lu.solve(rhs) + off) : Eigen::VectorXd::Constant(d.NumDofs(), NAN);
        const auto v = st::post_processing::extractVelocity(w.m, d, x);
        std::vector<std::vector<ll>> o;
        for (const Entity* c : w.m->Entities(0)) o.push_back({Z(v(*c)[0], 1), Z(v(*c)[1], 1)});
        emit(J().s("e", "flow").i("gx", gx).i("gy", gy).v("v", o));
      }
    }
  });
}
