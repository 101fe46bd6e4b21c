// Driver for P37: Strang splitting for the Fisher/KPP equation.
#include "meshio.h"
#include <map>
#include <fisher_kpp/strangsplitting.h>
using namespace vf;
using V2 = Eigen::Vector2d;
using Poly = std::vector<std::vector<ll>>;
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
struct Fn {
  Poly p;
  double operator()(const Eigen::VectorXd& x) const { double r = 0; for (auto& t : p) r += t[0] * ipow(x[0], t[1]) * ipow(x[1], t[2]); return r; }
};
struct Cst { double v; double operator()(const V2&) const { return v; } };
static std::vector<ll> rdl(std::istream& is) { int n; is >> n; std::vector<ll> v(n); for (auto& x : v) is >> x; return v; }
static Eigen::VectorXd vec(const std::vector<ll>& v, int n, double s) { Eigen::VectorXd r(n); for (int i = 0; i < n; ++i) r[i] = v[i % v.size()] / s; return r; }
static std::vector<ll> rl(const Eigen::VectorXd& v, double s) { std::vector<ll> r; for (double x : v) r.push_back(R(x, s)); return r; }
static std::vector<ll> zl(const Eigen::VectorXd& v, double s) { std::vector<ll> r; for (double x : v) r.push_back(Z(x, s)); return r; }
static std::vector<std::vector<ll>> zm(const Eigen::MatrixXd& m, double s) { std::vector<std::vector<ll>> r; for (int i = 0; i < m.rows(); ++i) r.push_back(zl(m.row(i), s)); return r; }

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    std::shared_ptr<const Mesh> m;
    std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> fes;
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c; is >> d >> c;
        fac = Factory(d, c != 0);
        fac.log = false;
      } else if (fac.line(l)) {
        if (op == "B") {
          m = fac.mesh;
          fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
          J j; j.s("e", "mesh"); mesh_json(j, *m, 1);
          std::vector<ll> nd;
          for (const Entity* p : m->Entities(2)) nd.push_back(fes->LocGlobMap().GlobalDofIndices(*p)[0]);
          j.v("nd", nd);
          emit(j);
        }
      } else if (op == "gal") {  // matrices; D, c, h, seed of L (negative: none)
        int D, c, h, s; is >> D >> c >> h >> s;
        const int n = fes->LocGlobMap().NumDofs();
        Eigen::MatrixXd L = Eigen::MatrixXd::Zero(n, n);
        if (s >= 0) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) L(i, j) = (3 * i + 5 * j + i * j + s) % 5 - 2;
        const auto [A, M] = FisherKPP::assembleGalerkinMatrices(fes->LocGlobMap(), Cst{(double)c}, Cst{(double)h}, L);
        emit(J().s("e", "gal").i("D", D).i("c", c).i("h", h).i("s", s).i("n", n).v("A", zm(A, 6 * D)).v("M", zm(M, 24)));
      } else if (op == "evo") {  // m, 4 tau, 4 times the rate of decay per step, k: growth factor 2^k per step, capacities, states (quarters)
        int ms, t4, q, k; is >> ms >> t4 >> q >> k;
        const int n = fes->LocGlobMap().NumDofs();
        const Eigen::VectorXd cap = vec(rdl(is), n, 1), u = vec(rdl(is), n, 4);
        const double tau = t4 / 4.;
        const Eigen::MatrixXd O = Eigen::MatrixXd::Zero(n, n);
        const auto AM = FisherKPP::assembleGalerkinMatrices(fes->LocGlobMap(), Cst{0}, Cst{0}, O);
        const Eigen::MatrixXd L = -(q / 4. / tau) * Eigen::MatrixXd(AM.second);
        FisherKPP::StrangSplit S(fes, tau * ms, ms, k * std::log(2.) / tau, Cst{0}, Cst{0}, L);
        emit(J().s("e", "evo").i("m", ms).i("q", q).i("k", k).v("cap", zl(cap, 1)).v("u", zl(u, 4)).v("half", rl(S.diffusionEvolutionOperator(true, u), 1e4))
                 .v("full", rl(S.diffusionEvolutionOperator(false, u), 1e4)).v("out", rl(S.Evolution(cap, u), 1e4)));
      } else if (op == "diff") {  // steps, 4 T, diffusion coefficient, integer states
        int ms, t4, c; is >> ms >> t4 >> c;
        const int n = fes->LocGlobMap().NumDofs();
        const Eigen::VectorXd u = vec(rdl(is), n, 1);
        const Eigen::MatrixXd O = Eigen::MatrixXd::Zero(n, n);
        FisherKPP::StrangSplit S(fes, t4 / 4., ms, 0., Cst{(double)c}, Cst{0}, O);
        const auto M = FisherKPP::assembleGalerkinMatrices(fes->LocGlobMap(), Cst{0}, Cst{0}, O).second;
        const Eigen::VectorXd one = Eigen::VectorXd::Ones(n);
        std::vector<ll> mass, cst;
        for (bool f : {true, false}) {
          mass.push_back(Z(one.dot(M * S.diffusionEvolutionOperator(f, u)), 24));
          const Eigen::VectorXd d = S.diffusionEvolutionOperator(f, 3 * one);
          for (double x : d) cst.push_back(Z(x, 1));
        }
        const Eigen::VectorXd e = S.Evolution(one, u + 9 * one);  // no growth: total mass preserved
        mass.push_back(Z(one.dot(M * e) - 9 * one.dot(M * one), 24));
        emit(J().s("e", "diff").v("u", zl(u, 1)).v("mass", mass).v("cst", cst));
      } else if (op == "int") {  // codim, degree of the rules, selection, polynomial
        int cd, dg, s, np; is >> cd >> dg >> s >> np;
        Fn f; f.p.assign(np, std::vector<ll>(3));
        for (auto& t : f.p) for (auto& x : t) is >> x;
        std::map<RefEl, lf::quad::QuadRule> qr;
        for (RefEl r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) qr[r] = lf::quad::make_QuadRule(r, dg);
        const Mesh* mm = m.get();
        auto in = [mm, cd, s](const Entity& e) {
          if ((mm->Index(e) + s) % 3 == 0) return false;
          if (cd == 0) return true;
          const Eigen::MatrixXd c = corners(e);
          return c(0, 0) == c(0, 1) || c(1, 0) == c(1, 1);
        };
        std::vector<ll> sel;
        for (const Entity* e : m->Entities(cd)) sel.push_back(in(*e));
        emit(J().s("e", "int").i("cd", cd).v("p", f.p).v("sel", sel).i("v", Z(FisherKPP::localQuadFunction(*m, qr, f, cd, in), 24)));
      }
    }
  });
}
