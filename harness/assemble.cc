// Driver for P12-P16: dof handlers, triplet matrices, assembly, fixing of dofs.
#include "dofio.h"
#include <lf/assemble/assemble.h>
#include <complex>
#include <memory>
using namespace vf;
namespace la = lf::assemble;
using cd = std::complex<double>;

static std::shared_ptr<la::DofHandler> make(const std::string& l, std::shared_ptr<const Mesh> m, J& j) {
  std::istringstream is(l);
  std::string op, kind;
  int id;
  is >> op >> id >> kind;
  j.i("id", id).s("kind", kind);
  if (kind == "u") {  // dof id u p s t q chk   (negative: no entry in the map)
    std::vector<int> n(4);
    for (auto& x : n) is >> x;
    int chk; is >> chk;
    la::UniformFEDofHandler::dof_map_t map;
    const RefEl re[4] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
    for (int i = 0; i < 4; ++i) if (n[i] >= 0) map[re[i]] = n[i];
    j.v("lay", n).t("chk", chk != 0);
    if (chk == 2) {
      // default argument and move construction
      la::UniformFEDofHandler h(m, map);
      return std::make_shared<la::UniformFEDofHandler>(std::move(h));
    }
    return std::make_shared<la::UniformFEDofHandler>(m, map, chk != 0);
  }
  // dof id d  n v.. n v.. n v..   for codim 2, 1, 0
  std::vector<std::vector<int>> v(3);
  for (int k = 2; k >= 0; --k) {
    int n; is >> n;
    v[k].resize(n);
    for (auto& x : v[k]) is >> x;
  }
  std::vector<std::vector<ll>> req(3);
  for (int k = 0; k < 3; ++k)
    for (unsigned i = 0; i < m->NumEntities(k); ++i) req[k].push_back(v[k][i % v[k].size()]);
  j.v("req", req);
  auto fun = [=](const Entity& e) -> lf::base::size_type { return req[e.Codim()][m->Index(e)]; };
  return std::make_shared<la::DynamicFEDofHandler>(m, fun);
}

template <class S> S val(ll re, ll im) {
  if constexpr (std::is_same_v<S, cd>) return cd(re, im); else return (S)re;
}
template <class S> std::vector<ll> num(const S& x) {
  if constexpr (std::is_same_v<S, cd>) return {Z(x.real(), 1), Z(x.imag(), 1)}; else return {Z(x, 1), 0};
}
template <class M>
static std::vector<std::vector<std::vector<ll>>> dense(const M& a) {
  std::vector<std::vector<std::vector<ll>>> r(a.rows());
  for (int i = 0; i < a.rows(); ++i)
    for (int k = 0; k < a.cols(); ++k) r[i].push_back(num(a(i, k)));
  return r;
}
template <class V>
static std::vector<std::vector<ll>> vec(const V& a) {
  std::vector<std::vector<ll>> r;
  for (int i = 0; i < (int)a.size(); ++i) r.push_back(num(a[i]));
  return r;
}

/// value of a synthetic local contribution; the specification has the same formula
static ll ev(int s, int e, int i, int j) { return (7 * e + 3 * i + 5 * j + i * j * (e + 1) + s) % 11 - 5; }

struct MatProv {
  const Mesh* m; int s, ex; std::vector<int> act; const la::DofHandler *te, *tr; std::vector<ll>* evald;
  bool isActive(const Entity& e) { return act[m->Index(e) % act.size()] != 0; }
  Eigen::MatrixXd Eval(const Entity& e) {
    const int ix = (int)m->Index(e);
    evald->push_back(ix);
    Eigen::MatrixXd r(te->NumLocalDofs(e) + ex, tr->NumLocalDofs(e) + ex);
    for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) r(i, j) = ev(s, ix, i, j);
    return r;
  }
};
struct VecProv {
  const Mesh* m; int s, ex; std::vector<int> act; const la::DofHandler* te; std::vector<ll>* evald;
  bool isActive(const Entity& e) { return act[m->Index(e) % act.size()] != 0; }
  Eigen::VectorXd Eval(const Entity& e) {
    const int ix = (int)m->Index(e);
    evald->push_back(ix);
    Eigen::VectorXd r(te->NumLocalDofs(e) + ex);
    for (int i = 0; i < r.size(); ++i) r[i] = ev(s, ix, i, 0);
    return r;
  }
};

template <class S>
struct Coo {
  std::map<int, std::unique_ptr<la::COOMatrix<S>>> a;
  using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  static S rd(std::istream& is) { ll re, im; is >> re >> im; return val<S>(re, im); }
  static V rdv(std::istream& is) { int n; is >> n; V v(n); for (int i = 0; i < n; ++i) v[i] = rd(is); return v; }
  void line(const std::string& op, std::istream& is) {
    int id; is >> id;
    if (op == "cnew") {
      int r, c; is >> r >> c;
      a[id] = std::make_unique<la::COOMatrix<S>>(r, c);
      emit(J().s("e", "cnew").i("id", id).i("r", r).i("c", c));
      return;
    }
    auto& m = *a.at(id);
    if (op == "cadd") {
      int i, j; is >> i >> j;
      S v = rd(is);
      m.AddToEntry(i, j, v);
      emit(J().s("e", "cadd").i("id", id).i("i", i).i("j", j).v("v", num(v)));
    } else if (op == "czero") {
      m.setZero();
      emit(J().s("e", "czero").i("id", id));
    } else if (op == "czerop") {
      std::string p; int r, c; is >> p >> r >> c;
      auto f = [&](la::gdof_idx_t i, la::gdof_idx_t j) {
        if (p == "row") return (int)i == r;
        if (p == "col") return (int)j == c;
        if (p == "or") return (int)i == r || (int)j == c;
        if (p == "and") return (int)i == r && (int)j == c;
        if (p == "lt") return i < j;
        if (p == "all") return true;
        return false;
      };
      m.setZero(f);
      emit(J().s("e", "czerop").i("id", id).s("p", p).i("r", r).i("c", c));
    } else if (op == "ccopy") {
      int to, mode; is >> to >> mode;
      if (mode == 0) a[to] = std::make_unique<la::COOMatrix<S>>(m);
      else { auto x = std::make_unique<la::COOMatrix<S>>(1, 1); *x = m; a[to] = std::move(x); }
      emit(J().s("e", "ccopy").i("id", id).i("to", to));
    } else if (op == "cmul") {
      S al = rd(is); V v = rdv(is);
      J j; j.s("e", "cmul").i("id", id).v("al", num(al)).v("x", vec(v));
      V r = m.MatVecMult(al, v);
      emit(j.v("r", vec(r)));
    } else if (op == "cmul2") {
      S al = rd(is); V v = rdv(is); V r = rdv(is);
      std::vector<S> sr(r.data(), r.data() + r.size());
      J j; j.s("e", "cmul2").i("id", id).v("al", num(al)).v("x", vec(v)).v("y", vec(r));
      m.MatVecMult(al, v, r);
      m.MatVecMult(al, v, sr);
      emit(j.v("r", vec(r)).v("sr", vec(sr)));
    } else if (op == "cget") {
      J j; j.s("e", "cget").i("id", id).i("rows", m.rows()).i("cols", m.cols());
      j.v("d", dense(m.makeDense()));
      Eigen::SparseMatrix<S> sp = m.makeSparse();
      Eigen::Matrix<S, -1, -1> sd = sp;
      j.v("s", dense(sd));
      std::ostringstream o1, o2;
      m.PrintInfo(o1); o2 << m;
      j.t("print", o1.str() == o2.str() && !o1.str().empty());
      emit(j);
    } else if (op == "cfix") {  // cfix id kind n flags.. vals.. b..   (std: use std::vector as rhs)
      std::string kind; int n, st; is >> kind >> st >> n;
      std::vector<int> fl(n); for (auto& x : fl) is >> x;
      V v(n), b(n);
      for (int i = 0; i < n; ++i) v[i] = rd(is);
      for (int i = 0; i < n; ++i) b[i] = rd(is);
      J j; j.s("e", "cfix").i("id", id).s("kind", kind).v("fl", fl).v("v", vec(v)).v("b", vec(b));
      auto run = [&](auto& rhs) {
        auto sel = [&](la::gdof_idx_t k) { return std::make_pair(fl[k] != 0, v[k]); };
        if (kind == "flag") la::FixFlaggedSolutionComponents<S>(sel, m, rhs);
        else if (kind == "alt") la::FixFlaggedSolutionCompAlt<S>(sel, m, rhs);
        else {
          la::fixed_components_t<S> fc;
          for (int i = n - 1; i >= 0; --i) if (fl[i]) fc.emplace_back(i, v[i]);
          la::FixSolutionComponentsLse<S>(fc, m, rhs);
        }
        j.v("rb", vec(rhs));
      };
      if (st) { std::vector<S> bb(b.data(), b.data() + n); run(bb); } else run(b);
      emit(j.v("d", dense(m.makeDense())).i("rows", m.rows()).i("cols", m.cols()));
    }
  }
};

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& s) {
    Factory f(2, false, 1);
    f.log = false;
    std::shared_ptr<Mesh> m;
    std::map<int, std::shared_ptr<la::DofHandler>> dh;
    std::map<int, la::COOMatrix<double>> mats;
    std::map<int, Eigen::VectorXd> vecs;
    Coo<double> cr; Coo<cd> cc;
    bool cplx = false;
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") { int d, c; is >> d >> c; f = Factory(d, c != 0, 1); f.log = false; continue; }
      if (f.line(l)) {
        if (op == "B") {
          m = f.mesh; dh.clear(); mats.clear(); vecs.clear();
          J j; j.s("e", "mesh"); mesh_json(j, *m, 1); emit(j);
        }
        continue;
      }
      if (op == "dof") {
        J j; j.s("e", "dof");
        auto d = make(l, m, j);
        int id; is >> id;
        dump(j, *d, *m);
        dh[id] = d;
        emit(j);
      } else if (op == "mat") {  // mat id kind codim tr te s ex n act..   kind: new|add|new1
        int id, k, tr, te, sd, ex, n; std::string kind;
        is >> id >> kind >> k >> tr >> te >> sd >> ex >> n;
        std::vector<int> act(n); for (auto& x : act) is >> x;
        std::vector<ll> evd;
        MatProv p{m.get(), sd, ex, act, dh.at(te).get(), dh.at(tr).get(), &evd};
        if (kind == "new1") te = tr, p.te = p.tr;
        J j; j.s("e", "mat").i("id", id).s("kind", kind).i("k", k).i("tr", tr).i("te", te).i("s", sd).v("act", act);
        if (kind == "new") mats.insert_or_assign(id, la::AssembleMatrixLocally<la::COOMatrix<double>>(k, *dh.at(tr), *dh.at(te), p));
        else if (kind == "new1") mats.insert_or_assign(id, la::AssembleMatrixLocally<la::COOMatrix<double>>(k, *dh.at(tr), p));
        else la::AssembleMatrixLocally(k, *dh.at(tr), *dh.at(te), p, mats.at(id));
        auto& A = mats.at(id);
        emit(j.v("ev", evd).i("rows", A.rows()).i("cols", A.cols()).v("d", dense(A.makeDense())));
      } else if (op == "vec") {  // vec id kind codim te s ex n act..
        int id, k, te, sd, ex, n; std::string kind;
        is >> id >> kind >> k >> te >> sd >> ex >> n;
        std::vector<int> act(n); for (auto& x : act) is >> x;
        std::vector<ll> evd;
        VecProv p{m.get(), sd, ex, act, dh.at(te).get(), &evd};
        J j; j.s("e", "vec").i("id", id).s("kind", kind).i("k", k).i("te", te).i("s", sd).v("act", act);
        if (kind == "new") vecs[id] = la::AssembleVectorLocally<Eigen::VectorXd>(k, *dh.at(te), p);
        else la::AssembleVectorLocally(k, *dh.at(te), p, vecs.at(id));
        emit(j.v("ev", evd).v("d", vec(vecs.at(id))));
      } else if (op == "scalar") { std::string t; is >> t; cplx = t == "c";
      } else if (op[0] == 'c') { if (cplx) cc.line(op, is); else cr.line(op, is); }
    }
  });
}
