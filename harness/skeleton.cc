// Driver for P33: signs and normals on the mesh skeleton, inflow and outflow boundary, boundary
// quadrature, essential conditions on product spaces, error estimators of the DPG method.
#include "dofio.h"
#include <dpg/dpg_tools.h>
#include <dpg/product_fe_space_factory.h>
using namespace vf;
namespace pd = projects::dpg;
using Poly = std::vector<std::vector<int>>;  // coefficient, exponents

static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double gU = 1;  // the library sees gU times the coordinates of the script
static double eval(const Poly& p, const Eigen::VectorXd& y) {
  const Eigen::VectorXd x = y / gU;
  double r = 0;
  for (auto& t : p) { double v = t[0]; for (int k = 0; k < x.size(); ++k) v *= ipow(x[k], t[k + 1]); r += v; }
  return r;
}
static Poly rdpoly(std::istream& is) {
  int n; is >> n;
  Poly p(n, std::vector<int>(3));
  for (auto& t : p) for (auto& x : t) is >> x;
  return p;
}
static std::vector<int> rdlist(std::istream& is) {
  int n; is >> n;
  std::vector<int> v(n);
  for (auto& x : v) is >> x;
  return v;
}
// integer data of the estimator, by cell, row and column
static int bterm(int s, int e, int i, int j) { return (3 * e + 5 * i + 7 * j + i * j + s) % 7 - 3; }
static int lterm(int e, int i, int j) { return i == j ? 1 : j > i ? 0 : (2 * e + i + 2 * j) % 3 - 1; }

struct SubMat : pd::SubElementMatrixProvider<double> {
  const Mesh* m; int s, tr, nr; const pd::ProductUniformFEDofHandler *te, *trd;
  SubMat(const Mesh* m, int s, int tr, const pd::ProductUniformFEDofHandler* te, const pd::ProductUniformFEDofHandler* trd) : m(m), s(s), tr(tr), nr(0), te(te), trd(trd) {}
  ElemMat Eval(const Entity& e) override {
    const int n = te->NumLocalDofs(e, 0), c = trd->NumLocalDofs(e, tr), ix = m->Index(e);
    ElemMat r(n, c);
    if (s < 0) {  // Gramian
      Eigen::MatrixXd L(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) L(i, j) = lterm(ix, i, j);
      return L * L.transpose();
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) r(i, j) = bterm(s, ix, i, j);
    return r;
  }
  [[nodiscard]] unsigned TrialComponent() const override { return tr; }
  [[nodiscard]] unsigned TestComponent() const override { return 0; }
};
struct SubVec : pd::SubElementVectorProvider<double> {
  const Mesh* m; int s; const pd::ProductUniformFEDofHandler* te;
  SubVec(const Mesh* m, int s, const pd::ProductUniformFEDofHandler* te) : m(m), s(s), te(te) {}
  ElemVec Eval(const Entity& e) override {
    ElemVec r(te->NumLocalDofs(e, 0));
    for (int i = 0; i < r.size(); ++i) r[i] = bterm(s, m->Index(e), i, 0);
    return r;
  }
  [[nodiscard]] unsigned TestComponent() const override { return 0; }
};

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    std::shared_ptr<const Mesh> mesh;
    std::shared_ptr<pd::ProductUniformFESpace<double>> sp;
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c, k = 0; is >> d >> c >> k;
        gU = std::ldexp(1., k);
        fac = Factory(d, c != 0, 1 / gU);
        fac.log = false;
        continue;
      }
      if (fac.line(l)) {
        if (op == "B") {
          mesh = fac.mesh;
          J j; j.s("e", "mesh"); mesh_json(j, *mesh, 1 / gU); emit(j);
        }
        continue;
      }
      if (op == "skel") {
        pd::PrescribedSignProvider sp0(mesh), sg;
        sg = std::move(sp0);
        std::vector<std::vector<ll>> sgn;
        std::vector<std::vector<std::vector<ll>>> nrm;
        for (unsigned c = 0; c < mesh->NumEntities(0); ++c) {
          const Entity* e = mesh->EntityByIndex(0, c);
          std::vector<ll> s;
          for (const Entity* x : e->SubEntities(1)) s.push_back(sg.PrescribedSign(*e, *x));
          sgn.push_back(s);
          nrm.push_back(rmat(pd::OuterNormals(*e->Geometry()), 1000));
        }
        emit(J().s("e", "skel").v("sgn", sgn).v("nrm", nrm));
      } else if (op == "bqr") {  // nv n (point/16 weight/16)..
        int nv, n; is >> nv >> n;
        Eigen::MatrixXd p(1, n); Eigen::VectorXd w(n);
        std::vector<ll> t, ws;
        for (int i = 0; i < n; ++i) { int a, b; is >> a >> b; p(0, i) = a / 16.; w[i] = b / 16.; t.push_back(a); ws.push_back(b); }
        const RefEl r = nv == 3 ? RefEl::kTria() : RefEl::kQuad();
        const auto q = pd::BoundaryQuadRule(r, lf::quad::QuadRule(RefEl::kSegment(), p, w, 1));
        std::vector<std::vector<std::vector<ll>>> pts;
        std::vector<std::vector<ll>> wts;
        bool sane = true;
        for (auto& x : q) {
          sane = sane && x.RefEl() == r && (int)x.NumPoints() == n;
          pts.push_back(zmat(x.Points(), 16));
          std::vector<ll> v;
          for (int i = 0; i < x.Weights().size(); ++i) v.push_back(R(x.Weights()[i], 16e3));
          wts.push_back(v);
        }
        emit(J().s("e", "bqr").i("nv", nv).v("t", t).v("w", ws).v("pts", pts).v("wts", wts).t("sane", sane));
      } else if (op == "flow") {
        const Poly bx = rdpoly(is), by = rdpoly(is);
        auto beta = lf::mesh::utils::MeshFunctionGlobal([&](const Eigen::VectorXd& x) -> Eigen::Vector2d { return gU * Eigen::Vector2d(eval(bx, x), eval(by, x)); });
        auto in = pd::flagEntitiesOnInflowBoundary(mesh, beta);
        auto out = pd::flagEntitiesOnOutflowBoundary(mesh, beta);
        std::vector<ll> i, o;
        bool def = true;
        for (unsigned k = 0; k < mesh->NumEntities(1); ++k) {
          const Entity& e = *mesh->EntityByIndex(1, k);
          def = def && in.DefinedOn(e) && out.DefinedOn(e);
          i.push_back(in(e)); o.push_back(out(e));
        }
        emit(J().s("e", "flow").v("bx", bx).v("by", by).v("inn", i).v("out", o).t("def", def));
      } else if (op == "space") {
        int n; is >> n;
        pd::ProductUniformFESpaceFactory<double> f(mesh);
        for (int i = 0; i < n; ++i) {
          std::string k; int p; is >> k >> p;
          if (k == "h") f.AddH1Component(p); else if (k == "l") f.AddL2Component(p); else if (k == "f") f.AddFluxComponent(p); else f.AddTraceComponent(p);
        }
        sp = f.Build();
      } else if (op == "ess") {  // trace comp, flux comp, degrees, masks, g, h
        int tc, fc, td, fd; is >> tc >> fc >> td >> fd;
        const auto dm = rdlist(is), nm = rdlist(is);
        const Poly g = rdpoly(is), h = rdpoly(is);
        auto mg = lf::mesh::utils::MeshFunctionGlobal([&](const Eigen::VectorXd& x) { return eval(g, x); });
        auto mh = lf::mesh::utils::MeshFunctionGlobal([&](const Eigen::VectorXd& x) { return eval(h, x); });
        auto ds = [&](const Entity& e) { return dm[mesh->Index(e) % dm.size()] != 0; };
        auto ns = [&](const Entity& e) { return nm[mesh->Index(e) % nm.size()] != 0; };
        const auto r = pd::InitEssentialConditionsFromFunctions(*sp, tc, fc, ds, ns, mg, mh);
        const auto& d = sp->LocGlobMap();
        std::vector<ll> fl, va, dsel, nsel;
        for (auto& x : r) { fl.push_back(x.first); va.push_back(x.first ? Z(x.second, 36) : 0); }
        std::vector<std::vector<ll>> te, fe;
        for (unsigned k = 0; k < mesh->NumEntities(1); ++k) {
          const Entity& e = *mesh->EntityByIndex(1, k);
          dsel.push_back(ds(e)); nsel.push_back(ns(e));
          auto a = d.ComponentDofHandler(tc).GlobalDofIndices(e);
          auto b = d.ComponentDofHandler(fc).GlobalDofIndices(e);
          te.emplace_back(a.begin(), a.end()); fe.emplace_back(b.begin(), b.end());
        }
        emit(J().s("e", "ess").i("n", d.NumDofs()).i("td", td).i("fd", fd).i("to", d.Offset(tc)).i("fo", d.Offset(fc)).v("te", te).v("fe", fe)
                 .v("ds", dsel).v("ns", nsel).v("g", g).v("h", h).v("fl", fl).v("va", va));
      } else if (op == "est") {  // test degree, seed of the load, seeds per trial component (-1: none)
        int p, s; is >> p >> s;
        const auto seeds = rdlist(is);
        pd::ProductUniformFESpaceFactory<double> f(mesh);
        f.AddL2Component(p);
        auto te = f.Build();
        const auto& d = sp->LocGlobMap();
        const auto& dt = te->LocGlobMap();
        std::vector<std::shared_ptr<pd::SubElementMatrixProvider<double>>> bs, gs;
        for (size_t c = 0; c < seeds.size(); ++c) if (seeds[c] >= 0) bs.push_back(std::make_shared<SubMat>(mesh.get(), seeds[c], c, &dt, &d));
        gs.push_back(std::make_shared<SubMat>(mesh.get(), -1, 0, &dt, &dt));
        std::vector<std::shared_ptr<pd::SubElementVectorProvider<double>>> vs{std::make_shared<SubVec>(mesh.get(), s, &dt)};
        auto B = std::make_shared<pd::ProductElementMatrixProvider<double>>(sp, te, bs);
        auto G = std::make_shared<pd::ProductElementMatrixProvider<double>>(te, te, gs);
        auto L = std::make_shared<pd::ProductElementVectorProvider<double>>(te, vs);
        Eigen::VectorXd sol(d.NumDofs());
        for (int i = 0; i < sol.size(); ++i) sol[i] = (5 * i + s) % 4 - 1;
        auto est = pd::ElementErrorEstimators<double>(d, B, G, L, sol);
        const double tot = pd::EvalPosteriorError<double>(mesh, est);
        std::vector<ll> sq, ng, st;
        std::vector<std::vector<ll>> gd, ln;
        for (unsigned k = 0; k < mesh->NumEntities(0); ++k) {
          const Entity& e = *mesh->EntityByIndex(0, k);
          sq.push_back(R(est(e) * est(e), 1)); ng.push_back(est(e) < 0);
          auto a = d.GlobalDofIndices(e);
          gd.emplace_back(a.begin(), a.end());
          std::vector<ll> x;
          for (unsigned c = 0; c < d.NumComponents(); ++c) x.push_back(d.NumLocalDofs(e, c));
          ln.push_back(x); st.push_back(dt.NumLocalDofs(e));
        }
        emit(J().s("e", "est").i("s", s).v("seeds", seeds).v("gd", gd).v("ln", ln).v("nt", st).v("sq", sq).v("ng", ng).i("tot", R(tot * tot, 1)).t("pos", tot >= 0));
      }
    }
  });
}
