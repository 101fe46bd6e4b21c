// Driver for P25: functions on mesh hierarchies, transfer and prolongation.
#include "meshio.h"
#include <random>
#include <lf/fe/fe.h>
#include <lf/fe/prolongation.h>
#include <lf/refinement/refinement.h>
#include <lf/uscalfe/uscalfe.h>
#include <complex>
using namespace vf;
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;
using cplx = std::complex<double>;
using Mat = std::vector<std::vector<ll>>;

static Eigen::MatrixXd lattice(RefEl r, int m, Mat& pts) {
  const int d = r.Dimension();
  if (d == 0) pts.push_back({});
  else if (d == 1) for (int a = 0; a <= m; ++a) pts.push_back({a});
  else for (int a = 0; a <= m; ++a) for (int b = 0; b <= m; ++b) if (r == RefEl::kQuad() || a + b <= m) pts.push_back({a, b});
  Eigen::MatrixXd x(d, pts.size());
  for (size_t j = 0; j < pts.size(); ++j) for (int k = 0; k < d; ++k) x(k, j) = (double)pts[j][k] / m;
  return x;
}

// a mesh function which tells where it is evaluated
struct At { ll cd, ix; bool in; std::vector<ll> x; };
struct Probe {
  std::shared_ptr<const Mesh> m;
  std::vector<At> operator()(const Entity& e, const Eigen::MatrixXd& local) const {
    std::vector<At> o;
    const bool in = m->Contains(e);
    for (int k = 0; k < local.cols(); ++k) {
      At a{(ll)e.Codim(), in ? (ll)m->Index(e) : -1, in && local.rows() == e.RefEl().Dimension(), {}};
      for (int i = 0; i < local.rows(); ++i) a.x.push_back(R(local(i, k), 1e6));
      o.push_back(a);
    }
    return o;
  }
};

static void log_level(const MeshHierarchy& h, int lev, double S) {
  const Mesh& m = *h.getMesh(lev);
  J j;
  j.s("e", "level").i("lev", lev);
  mesh_json(j, m, S);
  std::string s = "[";
  for (int cd = 0; cd < 3; ++cd) {
    std::vector<J> par;
    for (unsigned i = 0; lev > 0 && i < m.NumEntities(cd); ++i) {
      const Entity* e = m.EntityByIndex(cd, i);
      const Entity* p = h.ParentEntity(lev, *e);
      par.push_back(J().i("pc", p->Codim()).i("pi", h.getMesh(lev - 1)->Index(*p))
                        .v("rel", zmat(h.GeometryInParent(lev, *e)->Global(e->RefEl().NodeCoords()), 12)));
    }
    s += (cd ? "," : "") + J::arr(par);
  }
  j.raw("par", s + "]");
  emit(j);
}

template <class S> std::shared_ptr<lf::fe::ScalarFESpace<S>> space(std::shared_ptr<const Mesh> m, const std::string& k, int p) {
  if constexpr (std::is_same_v<S, double>) if (k == "hier") return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, p);
  if (p == 1) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<S>>(m);
  if (p == 2) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<S>>(m);
  return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<S>>(m);
}
static std::vector<ll> rnd(const std::vector<double>& v) { std::vector<ll> o; for (double x : v) { o.push_back(R(x, 1e5)); o.push_back(0); } return o; }
static std::vector<ll> rnd(const std::vector<cplx>& v) { std::vector<ll> o; for (cplx x : v) { o.push_back(R(x.real(), 1e5)); o.push_back(R(x.imag(), 1e5)); } return o; }

template <class S> void prolong(const MeshHierarchy& h, int lev, const std::string& kc, int pc, const std::string& kf, int pf, unsigned seed) {
  auto mc = h.getMesh(lev), mf = h.getMesh(lev + 1);
  auto sc = space<S>(mc, kc, pc), sf = space<S>(mf, kf, pf);
  std::mt19937 g(seed);
  Eigen::Matrix<S, Eigen::Dynamic, 1> u(sc->LocGlobMap().NumDofs());
  for (int i = 0; i < u.size(); ++i) {
    u[i] = S((double)(int)(g() % 19) - 9);
    if constexpr (std::is_same_v<S, cplx>) u[i] += cplx(0, (double)(int)(g() % 19) - 9);
  }
  const auto keep = u;
  const Eigen::Matrix<S, Eigen::Dynamic, 1> w = lf::fe::prolongate(h, sc, sf, u, lev);
  const lf::fe::MeshFunctionFE<S, S> fc(sc, u), ff(sf, w);
  std::vector<J> cells;
  for (unsigned i = 0; i < mf->NumEntities(0); ++i) {
    const Entity* e = mf->EntityByIndex(0, i);
    Mat pts;
    const Eigen::MatrixXd x = lattice(e->RefEl(), std::max(pf, 2), pts);
    const Entity* p = h.ParentEntity(lev + 1, *e);
    const Eigen::MatrixXd y = h.GeometryInParent(lev + 1, *e)->Global(x);
    cells.push_back(J().v("pts", pts).i("pi", mc->Index(*p)).v("y", rmat(y, 1e6)).v("c", rnd(fc(*p, y))).v("f", rnd(ff(*e, x))));
  }
  emit(J().s("e", "pro").i("lev", lev).i("p", pc).i("q", pf).s("kc", kc).s("kf", kf).i("m", std::max(pf, 2)).t("same", keep == u)
          .t("len", w.size() == sf->LocGlobMap().NumDofs()).v("cells", cells));
}

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& s) {
    std::unique_ptr<Factory> fac;
    std::shared_ptr<MeshHierarchy> h;
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c, order; ll unit;
        is >> d >> c >> unit >> order;
        fac = std::make_unique<Factory>(d, c, (double)unit);
        fac->log = false;
      } else if (op == "H") {
        h = std::make_shared<MeshHierarchy>(fac->mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(fac->dw, false));
        log_level(*h, 0, fac->S);
      } else if (op == "mark") {
        double p; unsigned seed; is >> p >> seed;
        std::mt19937 g(seed);
        h->MarkEdges([&](const Mesh&, const Entity&) { return (g() % 1000) < p * 10; });
      } else if (op == "ref") {
        std::string k; is >> k;
        if (k == "marked") h->RefineMarked();
        else h->RefineRegular(k == "barycentric" ? RefPat::rp_barycentric : RefPat::rp_regular);
        log_level(*h, h->NumLevels() - 1, fac->S);
      } else if (op == "tr") {  // tr coarse fine m
        int lc, lf_, m; is >> lc >> lf_ >> m;
        const int n = h->NumLevels();
        lc %= n; lf_ %= n;
        if (lc > lf_) std::swap(lc, lf_);
        if (lc == lf_) { if (lf_ + 1 < n) ++lf_; else --lc; }
        if (lc < 0) continue;
        Probe f{h->getMesh(lc)};
        const lf::refinement::MeshFunctionTransfer tr(*h, f, lc, lf_);
        const Mesh& fine = *h->getMesh(lf_);
        J j;
        j.s("e", "tr").i("lc", lc).i("lf", lf_).i("m", m).t("mesh", tr.getMesh() == h->getMesh(lf_));
        std::string ent = "[";
        for (int cd = 0; cd < 3; ++cd) {
          std::vector<J> o;
          for (unsigned i = 0; i < fine.NumEntities(cd); ++i) {
            const Entity* e = fine.EntityByIndex(cd, i);
            Mat pts;
            const Eigen::MatrixXd x = lattice(e->RefEl(), m, pts);
            std::vector<J> v;
            for (const At& a : tr(*e, x)) v.push_back(J().i("cd", a.cd).i("ix", a.ix).t("in", a.in).v("x", a.x));
            o.push_back(J().v("pts", pts).v("v", v));
          }
          ent += (cd ? "," : "") + J::arr(o);
        }
        emit(j.raw("ent", ent + "]"));
      } else if (op == "pro") {  // pro level kind p kind q complex seed
        int lev, p, q, c; unsigned seed; std::string kc, kf;
        is >> lev >> kc >> p >> kf >> q >> c >> seed;
        if (h->NumLevels() < 2) continue;
        lev %= h->NumLevels() - 1;
        if (c && kc == "lagr" && kf == "lagr") prolong<cplx>(*h, lev, kc, p, kf, q, seed); else prolong<double>(*h, lev, kc, p, kf, q, seed);
      } else if (fac) {
        fac->line(l);
      }
    }
  });
}
