// Driver for P20 (finite element spaces) and P23 (integration, essential conditions).
#include "meshio.h"
#include <lf/assemble/assemble.h>
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>
#include <complex>
#include <map>
#include <memory>
using namespace vf;
using cplx = std::complex<double>;
using Mat = std::vector<std::vector<ll>>;
using Poly = std::vector<std::array<int, 3>>;  // coefficient, exponents

static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double gU = 1;  // the library sees gU times the coordinates of the script
static double eval(const Poly& p, const Eigen::VectorXd& y) {
  const Eigen::VectorXd x = y / gU;
  double r = 0;
  for (auto& t : p) r += t[0] * ipow(x[0], t[1]) * ipow(x[1], t[2]);
  return r;
}
static Poly rdpoly(std::istream& is) {
  int n; is >> n;
  Poly p(n);
  for (auto& t : p) is >> t[0] >> t[1] >> t[2];
  return p;
}
static std::vector<int> rdlist(std::istream& is) {
  int n; is >> n;
  std::vector<int> v(n);
  for (auto& x : v) is >> x;
  return v;
}
static Eigen::MatrixXd lattice(RefEl r, int m, Mat& pts) {
  const int d = r.Dimension();
  if (d == 1) for (int a = 0; a <= m; ++a) pts.push_back({a});
  else for (int a = 0; a <= m; ++a) for (int b = 0; b <= m; ++b) if (r == RefEl::kQuad() || a + b <= m) pts.push_back({a, b});
  Eigen::MatrixXd x(d, pts.size());
  for (size_t j = 0; j < pts.size(); ++j) for (int k = 0; k < d; ++k) x(k, j) = (double)pts[j][k] / m;
  return x;
}
static Eigen::MatrixXd sidepts(RefEl r, int k, int m) {
  const Eigen::MatrixXd nc = r.NodeCoords();
  const Eigen::VectorXd a = nc.col(k), b = nc.col((k + 1) % nc.cols());
  Eigen::MatrixXd x(2, m + 1);
  for (int s = 0; s <= m; ++s) x.col(s) = a + (b - a) * s / m;
  return x;
}
template <class V> static std::vector<ll> rv(const V& v, double s) {
  std::vector<ll> o;
  for (auto x : v) o.push_back(R(x, s));
  return o;
}
template <class V> static std::vector<ll> zv(const V& v, double s) {
  std::vector<ll> o;
  for (auto x : v) o.push_back(Z(x, s));
  return o;
}

static const Eigen::MatrixXd kPt = Eigen::MatrixXd::Zero(0, 1);

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    std::shared_ptr<Mesh> mesh;
    std::map<int, std::shared_ptr<lf::fe::ScalarFESpace<double>>> sp;
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c, k = 0; is >> d >> c >> k;
        gU = std::ldexp(1., k);
        fac = Factory(d, c != 0, 1 / gU);
        fac.log = false;
      } else if (fac.line(l)) {
        if (op == "B") {
          mesh = fac.mesh;
          J j; j.s("e", "mesh"); mesh_json(j, *mesh, 1 / gU); emit(j);
        }
      } else if (op == "space") {
        int id; std::string k; is >> id >> k;
        J j; j.s("e", "space").i("id", id).s("k", k);
        std::vector<ll> dc, de;
        if (k == "lagr") {
          int p; is >> p;
          j.i("p", p);
          if (p == 1) sp[id] = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(mesh);
          if (p == 2) sp[id] = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(mesh);
          if (p == 3) sp[id] = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(mesh);
        } else if (k == "hier") {
          int p, mv; is >> p >> mv;
          j.i("p", p);
          lf::fe::HierarchicScalarFESpace<double> s(mesh, (unsigned)p);
          if (mv) sp[id] = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(std::move(s));
          else sp[id] = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, (unsigned)p);
        } else {
          auto c = rdlist(is), e = rdlist(is);
          Mesh* m = mesh.get();
          std::vector<ll> rc, rq;
          for (unsigned i = 0; i < m->NumEntities(0); ++i) rc.push_back(c[i % c.size()]);
          for (unsigned i = 0; i < m->NumEntities(1); ++i) rq.push_back(e[i % e.size()]);
          j.v("rc", rc).v("re", rq);
          auto f = [c, e, m](const Entity& x) -> unsigned {
            if (x.RefEl() == RefEl::kPoint()) return 1;
            const auto& v = x.RefEl() == RefEl::kSegment() ? e : c;
            return v[m->Index(x) % v.size()];
          };
          sp[id] = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, f);
        }
        auto& s = *sp[id];
        // dofs, numbers of shape functions and evaluation nodes of cells
        std::vector<std::vector<ll>> g[3];
        std::vector<ll> nsf[3], deg[3];
        for (int cd = 0; cd < 3; ++cd)
          for (const Entity* e : mesh->Entities(cd)) {
            g[cd].emplace_back();
            for (auto x : s.LocGlobMap().GlobalDofIndices(*e)) g[cd].back().push_back(x);
            nsf[cd].push_back(s.ShapeFunctionLayout(*e)->NumRefShapeFunctions());
            deg[cd].push_back(s.ShapeFunctionLayout(*e)->Degree());
          }
        if (k == "lagr")
          for (RefEl r : {RefEl::kTria(), RefEl::kQuad()})
            for (const Entity* e : mesh->Entities(0))
              if (e->RefEl() == r) {
                j.v(r == RefEl::kTria() ? "nt" : "nq", zmat(s.ShapeFunctionLayout(*e)->EvaluationNodes(), 12));
                break;
              }
        j.i("n", s.LocGlobMap().NumDofs()).raw("g", "[" + J::arr(g[0]) + "," + J::arr(g[1]) + "," + J::arr(g[2]) + "]");
        j.raw("nsf", "[" + J::arr(nsf[0]) + "," + J::arr(nsf[1]) + "," + J::arr(nsf[2]) + "]");
        j.raw("deg", "[" + J::arr(deg[0]) + "," + J::arr(deg[1]) + "," + J::arr(deg[2]) + "]");
        j.t("mesh", s.Mesh() == mesh);
        emit(j);
      } else if (op == "fe") {  // fe id m coefficients...
        int id, m; is >> id >> m;
        auto c = rdlist(is);
        auto& s = sp[id];
        Eigen::VectorXd v(s->LocGlobMap().NumDofs());
        std::vector<ll> cl;
        for (int i = 0; i < v.size(); ++i) { v[i] = c[i % c.size()]; cl.push_back(c[i % c.size()]); }
        lf::fe::MeshFunctionFE<double, double> f(s, v);
        const double S = 100000;
        std::vector<std::string> cell, side;
        Mat edge;
        std::vector<ll> node;
        for (const Entity* e : mesh->Entities(0)) {
          Mat pts;
          auto x = lattice(e->RefEl(), m, pts);
          auto val = f(*e, x);
          std::vector<J> pv;
          cell.push_back(J().v("p", pts).v("v", rv(val, S)).str());
          Mat sd;
          for (int k = 0; k < e->RefEl().NumNodes(); ++k) sd.push_back(rv(f(*e, sidepts(e->RefEl(), k, m)), S));
          side.push_back(J::arr(sd));
        }
        for (const Entity* e : mesh->Entities(1)) {
          Mat pts;
          edge.push_back(rv(f(*e, lattice(e->RefEl(), m, pts)), S));
        }
        for (const Entity* e : mesh->Entities(2)) node.push_back(R(f(*e, kPt)[0], S));
        auto join = [](const std::vector<std::string>& q) { std::string o = "["; for (size_t i = 0; i < q.size(); ++i) o += (i ? "," : "") + q[i]; return o + "]"; };
        emit(J().s("e", "fe").i("id", id).i("m", m).v("c", cl).raw("cell", join(cell)).raw("side", join(side)).v("edge", edge).v("node", node)
                .t("mesh", f.getMesh() == mesh).t("space", f.getFESpace() == s));
      } else if (op == "proj") {  // proj id m scale-per-degree npoly...
        int id, m, b, st; is >> id >> m >> b >> st;
        Poly p = rdpoly(is);
        auto& s = sp[id];
        int d = 0;
        for (auto& t : p) d = std::max(d, t[1] + t[2]);
        lf::mesh::utils::MeshFunctionGlobal u([&](const Eigen::Vector2d& x) { return eval(p, x); });
        const Eigen::VectorXd v = lf::fe::NodalProjection(*s, u);
        lf::fe::MeshFunctionFE<double, double> f(s, v);
        lf::fe::MeshFunctionGradFE<double, double> gf(s, v);
        Mat pl;
        for (auto& t : p) pl.push_back({t[0], t[1], t[2]});
        auto ent = [&](int cd) {
          std::string o = "[";
          bool first = true;
          for (const Entity* e : mesh->Entities(cd)) {
            Mat pts;
            const Eigen::MatrixXd x = cd == 2 ? kPt : lattice(e->RefEl(), m, pts);
            const Eigen::MatrixXd gx = e->Geometry()->Global(x);
            J j;
            j.v("x", zmat(gx, b / gU)).v("v", zv(f(*e, x), ipow(b, d)));
            if (cd < 2) {
              double L = 1;
              if (cd == 1) { const Eigen::MatrixXd c = corners(*e); L = (c.col(1) - c.col(0)).squaredNorm() / (gU * gU); }
              Mat g;
              auto gv = gf(*e, x);
              for (auto& q : gv) { const Eigen::VectorXd y = q; g.push_back(zv(y, ipow(b, std::max(d - 1, 0)) * L * gU)); }
              j.v("g", g);
            }
            o += (first ? "" : ",") + j.str();
            first = false;
          }
          return o + "]";
        };
        emit(J().s("e", "proj").i("id", id).i("b", b).i("d", d).i("n", v.size()).t("st", st != 0).v("p", pl).raw("ent", "[" + ent(0) + "," + ent(1) + "," + ent(2) + "]"));
      } else if (op == "projsel") {  // nodal projection restricted to cells with mask
        int id; is >> id;
        auto mask = rdlist(is);
        auto& s = sp[id];
        lf::mesh::utils::MeshFunctionConstant<double> u(1.0);
        const Eigen::VectorXd v = lf::fe::NodalProjection(*s, u, [&](const Entity& e) { return mask[mesh->Index(e) % mask.size()] != 0; });
        std::vector<ll> val, sel;
        lf::fe::MeshFunctionFE<double, double> f(s, v);
        for (const Entity* e : mesh->Entities(0)) {
          Mat pts;
          auto x = lattice(e->RefEl(), 4, pts);
          double dev = 0;
          for (double q : f(*e, x)) dev = std::max(dev, std::fabs(q - 1));
          val.push_back(dev < 1e-9);
          sel.push_back(mask[mesh->Index(*e) % mask.size()]);
        }
        std::vector<ll> zero;
        for (int i = 0; i < v.size(); ++i) if (v[i] == 0) zero.push_back(i);
        emit(J().s("e", "projsel").i("id", id).v("one", val).v("sel", sel).v("zero", zero));
      } else if (op == "int") {  // int type codim how deg mask poly
        std::string ty; int cd, how, deg; is >> ty >> cd >> how >> deg;
        auto mask = rdlist(is);
        Poly p = rdpoly(is);
        Mesh& m = *mesh;
        auto pred = [&](const Entity& e) { return mask[m.Index(e) % mask.size()] != 0; };
        std::vector<ll> sel;
        for (unsigned i = 0; i < m.NumEntities(cd); ++i) sel.push_back(mask[i % mask.size()]);
        bool allsel = true;
        for (auto x : sel) allsel = allsel && x != 0;
        std::vector<double> out;
        auto integ = [&](auto mf) {
          if (how == 0) return lf::fe::IntegrateMeshFunction(m, mf, deg, pred, cd);
          if (how == 2 && cd == 0 && allsel) return lf::fe::IntegrateMeshFunction(m, mf, deg);
          return lf::fe::IntegrateMeshFunction(m, mf, [&](const Entity& e) {
            if (e.Codim() == 2) return lf::quad::QuadRule(RefEl::kPoint(), Eigen::MatrixXd(0, 1), Eigen::VectorXd::Ones(1), 1000);
            return lf::quad::make_QuadRule(e.RefEl(), deg + (m.Index(e) % 2));
          }, pred, cd);
        };
        using lf::mesh::utils::MeshFunctionGlobal;
        auto f = [&](const Eigen::Vector2d& x) { return eval(p, x); };
        if (ty == "d") out = {integ(MeshFunctionGlobal(f))};
        else if (ty == "c") {
          const cplx r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) { return cplx(f(x), 2 * f(x)); }));
          out = {r.real(), r.imag()};
        } else if (ty == "v") {
          const auto r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::Vector2d { return Eigen::Vector2d(f(x), 2 * f(x)); }));
          out = {r[0], r[1]};
        } else if (ty == "vd") {
          const auto r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::VectorXd { return Eigen::Vector2d(f(x), 2 * f(x)); }));
          if (r.size() == 2) out = {r[0], r[1]};
          else out = {0, 0};
        } else if (ty == "m") {
          const auto r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::Matrix<double, 2, 3> { Eigen::Matrix<double, 2, 3> q; for (int i = 0; i < 6; ++i) q(i % 2, i / 2) = (i + 1) * f(x); return q; }));
          for (int i = 0; i < 6; ++i) out.push_back(r(i % 2, i / 2));
        } else if (ty == "m2") {  // square, not symmetric
          const auto r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::Matrix2d { Eigen::Matrix2d q; q << 1, 2, 3, 4; return f(x) * q; }));
          out = {r(0, 0), r(0, 1), r(1, 0), r(1, 1)};
        } else if (ty == "md") {
          const auto r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::MatrixXd { Eigen::Matrix2d q; q << 1, 2, 3, 4; return f(x) * q; }));
          if (r.rows() == 2 && r.cols() == 2) out = {r(0, 0), r(0, 1), r(1, 0), r(1, 1)};
          else out = {0, 0, 0, 0};  // nothing selected: no size known
        } else if (ty == "m3" || ty == "mr") {
          Eigen::Matrix3d b;
          b << 1, 2, 3, 4, 5, 6, 7, 8, 9;
          Eigen::Matrix3d r;
          if (ty == "m3") r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::Matrix3d { return f(x) * b; }));
          else r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::Matrix<double, 3, 3, Eigen::RowMajor> { return f(x) * b; }));
          for (int i = 0; i < 9; ++i) out.push_back(r(i / 3, i % 3));
        } else if (ty == "cm") {
          const auto r = integ(MeshFunctionGlobal([&](const Eigen::Vector2d& x) -> Eigen::Matrix<cplx, 1, 2> { return Eigen::Matrix<cplx, 1, 2>(cplx(f(x), 2 * f(x)), cplx(3 * f(x), 4 * f(x))); }));
          out = {r(0).real(), r(0).imag(), r(1).real(), r(1).imag()};
        }
        Mat pl;
        for (auto& t : p) pl.push_back({t[0], t[1], t[2]});
        emit(J().s("e", "int").s("ty", ty).i("k", cd).v("sel", sel).v("p", pl).v("v", cd == 0 ? zv(out, 24 / (gU * gU)) : cd == 1 ? rv(out, 1000 / gU) : zv(out, 1)));
      } else if (op == "ess") {  // ess id m b mask poly
        int id, mm, b; is >> id >> mm >> b;
        auto mask = rdlist(is);
        Poly p = rdpoly(is);
        int d = 0;
        for (auto& t : p) d = std::max(d, t[1] + t[2]);
        auto& s = sp[id];
        Mesh& m = *mesh;
        lf::mesh::utils::MeshFunctionGlobal u([&](const Eigen::Vector2d& x) { return eval(p, x); });
        auto fv = lf::fe::InitEssentialConditionFromFunction(*s, [&](const Entity& e) { return mask[m.Index(e) % mask.size()] != 0; }, u);
        std::vector<ll> sel, fl;
        for (unsigned i = 0; i < m.NumEntities(1); ++i) sel.push_back(mask[i % mask.size()]);
        Eigen::VectorXd v(s->LocGlobMap().NumDofs());
        v.setConstant(7);
        for (size_t i = 0; i < fv.size(); ++i) { fl.push_back(fv[i].first); if (fv[i].first && (int)i < v.size()) v[i] = fv[i].second; }
        lf::fe::MeshFunctionFE<double, double> f(s, v);
        std::string o = "[";
        bool first = true;
        for (const Entity* e : m.Entities(1)) {
          Mat pts;
          const Eigen::MatrixXd x = lattice(e->RefEl(), mm, pts);
          o += (first ? "" : ",") + J().v("x", zmat(e->Geometry()->Global(x), b / gU)).v("v", zv(f(*e, x), ipow(b, d))).str();
          first = false;
        }
        Mat pl;
        for (auto& t : p) pl.push_back({t[0], t[1], t[2]});
        emit(J().s("e", "ess").i("id", id).i("b", b).i("d", d).v("sel", sel).v("fl", fl).v("p", pl).raw("edge", o + "]"));
      }
    }
  });
}
