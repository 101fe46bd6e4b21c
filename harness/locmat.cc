// Driver for P22: element matrices and vectors. They are logged in the basis of the monomials in the
// reference coordinates (coefficients of a monomial: NodalValuesToDofs of its values).
#include "meshio.h"
#include <lf/assemble/assemble.h>
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>
#include <complex>
#include <map>
#include <memory>
using namespace vf;
using cplx = std::complex<double>;
using Mat = std::vector<std::vector<ll>>;
using Poly = std::vector<std::vector<int>>;  // coefficient, exponents
using lf::mesh::utils::MeshFunctionConstant;
using lf::mesh::utils::MeshFunctionGlobal;

static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double gU = 1;  // the library sees gU times the coordinates of the script
static double eval(const Poly& p, const Eigen::VectorXd& y) {
  const Eigen::VectorXd x = y / gU;
  double r = 0;
  for (auto& t : p) { double v = t[0]; for (int k = 0; k < x.size(); ++k) v *= ipow(x[k], t[k + 1]); r += v; }
  return r;
}
static Poly rdpoly(std::istream& is, int dw) {
  int n; is >> n;
  Poly p(n, std::vector<int>(dw + 1));
  for (auto& t : p) for (auto& x : t) is >> x;
  return p;
}
static std::vector<int> rdlist(std::istream& is) {
  int n; is >> n;
  std::vector<int> v(n);
  for (auto& x : v) is >> x;
  return v;
}
static double re(double x) { return x; }
static double re(cplx x) { return x.real(); }
static double im(double) { return 0; }
static double im(cplx x) { return x.imag(); }

/// exponents of the monomials of degree d
static Mat monomials(RefEl r, int d) {
  Mat m;
  if (r == RefEl::kSegment()) for (int a = 0; a <= d; ++a) m.push_back({a});
  else for (int a = 0; a <= d; ++a) for (int b = 0; b <= d; ++b) if (r == RefEl::kQuad() || a + b <= d) m.push_back({a, b});
  return m;
}
/// columns: coefficients of the monomials
static Eigen::MatrixXd basis(const lf::fe::ScalarReferenceFiniteElement<double>& f, const Mat& mon) {
  const Eigen::MatrixXd x = f.EvaluationNodes();
  Eigen::MatrixXd c(f.NumRefShapeFunctions(), mon.size());
  for (size_t k = 0; k < mon.size(); ++k) {
    Eigen::Matrix<double, 1, Eigen::Dynamic> v(x.cols());
    for (int i = 0; i < x.cols(); ++i) { v[i] = 1; for (size_t q = 0; q < mon[k].size(); ++q) v[i] *= ipow(x(q, i), mon[k][q]); }
    c.col(k) = f.NodalValuesToDofs(v).transpose();
  }
  return c;
}
struct Out {
  std::string re = "[", im = "[", act = "[";
  bool first = true;
  template <class M> void add(const Eigen::MatrixXd& c, const M& a, bool active, double div, bool right) {
    re += first ? "" : ","; im += first ? "" : ","; act += first ? "" : ",";
    first = false;
    act += active ? "1" : "0";
    if (a.rows() != c.rows() || (right && a.cols() != c.rows())) { re += "[]"; im += "[]"; return; }
    Eigen::MatrixXcd m = right ? Eigen::MatrixXcd(c.transpose().template cast<cplx>() * a.template cast<cplx>() * c.template cast<cplx>())
                               : Eigen::MatrixXcd(c.transpose().template cast<cplx>() * a.template cast<cplx>());
    Mat x(m.rows()), y(m.rows());
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) { x[i].push_back(R(m(i, j).real() / div, 1e5)); y[i].push_back(R(m(i, j).imag() / div, 1e5)); }
    re += J::arr(x); im += J::arr(y);
  }
  void put(J& j) { j.raw("re", re + "]").raw("im", im + "]").raw("act", act + "]"); }
};

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    std::shared_ptr<Mesh> mesh;
    std::shared_ptr<lf::fe::ScalarFESpace<double>> sp;
    std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> us;
    int dw = 2, deg = 1, dmin = 1;
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c, k = 0; is >> d >> c >> k;
        gU = std::ldexp(1., k);
        fac = Factory(d, c != 0, 1 / gU);
        fac.log = false;
        dw = d;
        continue;
      }
      if (fac.line(l)) {
        if (op == "B") {
          mesh = fac.mesh;
          J j; j.s("e", "mesh"); mesh_json(j, *mesh, 1 / gU); emit(j);
        }
        continue;
      }
      if (op == "space") {
        std::string k; is >> k;
        us = nullptr;
        if (k == "lagr") {
          is >> deg;
          dmin = deg;
          if (deg == 1) us = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(mesh);
          if (deg == 2) us = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(mesh);
          if (deg == 3) us = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(mesh);
          sp = us;
        } else if (k == "hier") {
          is >> deg;
          dmin = deg;
          sp = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, (unsigned)deg);
        } else {  // hierf dmin cells edges
          is >> dmin;
          auto c = rdlist(is), e = rdlist(is);
          Mesh* m = mesh.get();
          auto f = [c, e, m](const Entity& x) -> unsigned {
            if (x.RefEl() == RefEl::kPoint()) return 1;
            const auto& v = x.RefEl() == RefEl::kSegment() ? e : c;
            return v[m->Index(x) % v.size()];
          };
          deg = dmin;
          sp = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, f);
        }
        continue;
      }
      const Mat mt = monomials(RefEl::kTria(), dmin), mq = monomials(RefEl::kQuad(), dmin), ms = monomials(RefEl::kSegment(), dmin);
      auto cells = [&](J& j, auto&& prov, double f, auto mode) {
        Out o;
        for (const Entity* e : mesh->Entities(0)) {
          const auto c = basis(*sp->ShapeFunctionLayout(*e), e->RefEl() == RefEl::kTria() ? mt : mq);
          const bool a = prov.isActive(*e);
          o.add(c, prov.Eval(*e), a, f, mode);
        }
        o.put(j);
      };
      auto edges = [&](J& j, auto&& prov, bool right) {
        Out o;
        for (const Entity* e : mesh->Entities(1)) {
          const auto c = basis(*sp->ShapeFunctionLayout(*e), ms);
          const Eigen::MatrixXd x = corners(*e);
          o.add(c, prov.Eval(*e), prov.isActive(*e), (x.col(1) - x.col(0)).norm(), right);
        }
        o.put(j);
      };
      J j;
      auto finish = [&](int qd, bool cx, const Poly& ga) {
        j.i("qd", qd).i("d", dmin).t("cx", cx).v("ga", ga).v("mt", mt).v("mq", mq).v("ms", ms);
        emit(j);
      };
      if (op == "rd") {  // rd lib cx qd al(type + matrix) gamma ; lib: diff mass rd rdq
        std::string lib; int cx, qd; is >> lib >> cx >> qd;
        std::string at; is >> at;  // s: scalar, m: matrix
        Eigen::MatrixXd al(dw, dw);
        if (at == "s") { double a; is >> a; al = a * Eigen::MatrixXd::Identity(dw, dw); }
        else for (int i = 0; i < dw; ++i) for (int k = 0; k < dw; ++k) is >> al(i, k);
        Poly ga = rdpoly(is, dw);
        j.s("e", "mat").s("lib", lib).raw("al", J::arr(zmat(al.transpose(), 1)));  // rows
        auto withA = [&](auto&& fn) {
          const cplx I(1, 2);
          if (at == "s") { if (cx) fn(MeshFunctionConstant<cplx>(al(0, 0) * I)); else fn(MeshFunctionConstant<double>(al(0, 0))); }
          else if (dw == 2) { if (cx) fn(MeshFunctionConstant<Eigen::Matrix2cd>(al.cast<cplx>() * I)); else fn(MeshFunctionConstant<Eigen::Matrix2d>(al)); }
          else fn(MeshFunctionGlobal([al](const Eigen::VectorXd&) -> Eigen::Matrix3d { return al; }));
        };
        auto withG = [&](auto&& fn) {
          const double w = lib == "mass" ? 1 : 1 / (gU * gU);  // reaction term as large as the diffusion term
          const cplx I(w, 2 * w);
          if (cx) fn(MeshFunctionGlobal([ga, I](const Eigen::VectorXd& x) -> cplx { return eval(ga, x) * I; }));
          else if (ga.size() == 1 && ga[0][1] + ga[0][2] + (dw == 3 ? ga[0][3] : 0) == 0) fn(MeshFunctionConstant<double>(w * ga[0][0]));
          else fn(MeshFunctionGlobal([ga, w](const Eigen::VectorXd& x) -> double { return w * eval(ga, x); }));
        };
        if (lib == "diff") withA([&](auto a) { cells(j, lf::fe::DiffusionElementMatrixProvider(sp, a), 1, true); });
        if (lib == "mass") withG([&](auto g) { cells(j, lf::fe::MassElementMatrixProvider(sp, g), gU * gU, true); });
        if (lib == "rd") withA([&](auto a) { withG([&](auto g) { cells(j, lf::uscalfe::ReactionDiffusionElementMatrixProvider(us, a, g), 1, true); }); });
        if (lib == "rdq") withA([&](auto a) { withG([&](auto g) {
          std::map<RefEl, lf::quad::QuadRule> q{{RefEl::kTria(), lf::quad::make_QuadRule(RefEl::kTria(), qd)}, {RefEl::kQuad(), lf::quad::make_QuadRule(RefEl::kQuad(), qd)}};
          cells(j, lf::uscalfe::ReactionDiffusionElementMatrixProvider(us, a, g, q), 1, true); }); });
        if (lib == "lap") {  // 4 x 4, unused entries zero
          Out o;
          lf::uscalfe::LinearFELaplaceElementMatrix prov;
          bool pad = true;
          for (const Entity* e : mesh->Entities(0)) {
            const int n = e->RefEl().NumNodes();
            const Eigen::MatrixXd A = prov.Eval(*e);
            for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) if ((a >= n || b >= n) && A(a, b) != 0) pad = false;
            o.add(basis(*sp->ShapeFunctionLayout(*e), n == 3 ? mt : mq), A.block(0, 0, n, n).eval(), prov.isActive(*e), 1, true);
          }
          o.put(j);
          j.t("pad", pad);
        } else {
          j.t("pad", true);
        }
        finish(qd, cx, ga);
      } else if (op == "load") {  // load lib cx qd f
        std::string lib; int cx, qd; is >> lib >> cx >> qd;
        Poly ga = rdpoly(is, dw);
        j.s("e", "load").s("lib", lib);
        const cplx I(1, 2);
        MeshFunctionGlobal f([ga](const Eigen::VectorXd& x) -> double { return eval(ga, x); });
        MeshFunctionGlobal fc([ga, I](const Eigen::VectorXd& x) -> cplx { return eval(ga, x) * I; });
        if (lib == "fe") { if (cx) cells(j, lf::fe::ScalarLoadElementVectorProvider(sp, fc), gU * gU, false); else cells(j, lf::fe::ScalarLoadElementVectorProvider(sp, f), gU * gU, false); }
        if (lib == "us") { if (cx) cells(j, lf::uscalfe::ScalarLoadElementVectorProvider(us, fc), gU * gU, false); else cells(j, lf::uscalfe::ScalarLoadElementVectorProvider(us, f), gU * gU, false); }
        if (lib == "usq") {
          lf::uscalfe::quad_rule_collection_t q{{RefEl::kTria(), lf::quad::make_QuadRule(RefEl::kTria(), qd)}, {RefEl::kQuad(), lf::quad::make_QuadRule(RefEl::kQuad(), qd)}};
          cells(j, lf::uscalfe::ScalarLoadElementVectorProvider<double, decltype(f)>(us, f, q), gU * gU, false);
        }
        if (lib == "lin") {
          Out o;
          lf::uscalfe::LinearFELocalLoadVector<double, decltype(f)> prov(f);
          for (const Entity* e : mesh->Entities(0)) {
            const int n = e->RefEl().NumNodes();
            const Eigen::VectorXd v = prov.Eval(*e);
            o.add(basis(*sp->ShapeFunctionLayout(*e), n == 3 ? mt : mq), v.head(n).eval(), prov.isActive(*e), gU * gU, false);
          }
          o.put(j);
        }
        finish(qd, cx, ga);
      } else if (op == "edge") {  // edge lib(fm um umq fl ul ulq) cx qd mask gamma
        std::string lib; int cx, qd; is >> lib >> cx >> qd;
        auto mask = rdlist(is);
        Poly ga = rdpoly(is, dw);
        Mesh& m = *mesh;
        std::vector<ll> sel;
        for (unsigned i = 0; i < m.NumEntities(1); ++i) sel.push_back(mask[i % mask.size()]);
        auto pred = [&m, mask](const Entity& e) { return mask[m.Index(e) % mask.size()] != 0; };
        j.s("e", "edge").s("lib", lib).v("sel", sel);
        const cplx I(1, 2);
        MeshFunctionGlobal f([ga](const Eigen::VectorXd& x) -> double { return eval(ga, x); });
        MeshFunctionGlobal fc([ga, I](const Eigen::VectorXd& x) -> cplx { return eval(ga, x) * I; });
        const auto qr = lf::quad::make_QuadRule(RefEl::kSegment(), qd);
        using F = decltype(f); using FC = decltype(fc); using P = decltype(pred);
        if (lib == "fm") { if (cx) edges(j, lf::fe::MassEdgeMatrixProvider(sp, fc, pred), true); else edges(j, lf::fe::MassEdgeMatrixProvider(sp, f, pred), true); }
        if (lib == "fl") { if (cx) edges(j, lf::fe::ScalarLoadEdgeVectorProvider(sp, fc, pred), false); else edges(j, lf::fe::ScalarLoadEdgeVectorProvider(sp, f, pred), false); }
        if (lib == "um") { if (cx) edges(j, lf::uscalfe::MassEdgeMatrixProvider<double, FC, P>(us, fc, pred), true); else edges(j, lf::uscalfe::MassEdgeMatrixProvider<double, F, P>(us, f, pred), true); }
        if (lib == "umq") edges(j, lf::uscalfe::MassEdgeMatrixProvider<double, F, P>(us, f, qr, pred), true);
        if (lib == "ul") { if (cx) edges(j, lf::uscalfe::ScalarLoadEdgeVectorProvider<double, FC, P>(us, fc, pred), false); else edges(j, lf::uscalfe::ScalarLoadEdgeVectorProvider<double, F, P>(us, f, pred), false); }
        if (lib == "ulq") edges(j, lf::uscalfe::ScalarLoadEdgeVectorProvider<double, F, P>(us, f, qr, pred), false);
        finish(qd, cx, ga);
      }
    }
  });
}
