// Driver for P31: product dof handlers, product spaces, product element providers.
#include "dofio.h"
#include <dpg/product_element_matrix_provider.h>
#include <dpg/product_element_vector_provider.h>
#include <dpg/product_fe_space.h>
#include <dpg/product_fe_space_factory.h>
#include <complex>
using namespace vf;
namespace pd = projects::dpg;
namespace la = lf::assemble;
using cd = std::complex<double>;
static const RefEl kRe[4] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};

static void dump_product(J& j, const pd::ProductUniformFEDofHandler& d, const Mesh& m) {
  dump(j, d, m);
  const int nc = d.NumComponents();
  std::vector<ll> off, cn, comp;
  using T = std::vector<std::vector<ll>>;
  std::vector<T> nl(nc, T(3)), ni(nc, T(3)), st(nc, T(3));
  std::string ch = "[";
  for (int c = 0; c <= nc; ++c) off.push_back(d.Offset(c));
  for (int c = 0; c < nc; ++c) {
    cn.push_back(d.NumDofs(c));
    for (int k = 0; k < 3; ++k)
      for (unsigned i = 0; i < m.NumEntities(k); ++i) {
        const Entity& e = *m.EntityByIndex(k, i);
        nl[c][k].push_back(d.NumLocalDofs(e, c));
        ni[c][k].push_back(d.NumInteriorDofs(e, c));
        st[c][k].push_back(d.LocalStartIndex(e, c));
      }
    J jc;
    dump(jc, d.ComponentDofHandler(c), m);
    ch += (c ? "," : "") + jc.str();
  }
  for (unsigned i = 0; i < d.NumDofs(); ++i) comp.push_back(d.Component(i));
  j.i("nc", nc).v("off", off).v("cn", cn).v("comp", comp).v("cnl", nl).v("cni", ni).v("st", st).raw("ch", ch + "]");
}

static ll term(int s, int e, int i, int j) { return (7 * e + 3 * i + 5 * j + i * j * (e + 1) + s) % 11 - 5; }
struct Spec { int tr, te, s; std::vector<int> act; };

template <class S> ll as_int(const S& x) {
  if constexpr (std::is_same_v<S, cd>) { return x.imag() == 2 * x.real() ? Z(x.real(), 1) : 777777; } else return Z(x, 1);
}
template <class S> S mk(ll v) {
  if constexpr (std::is_same_v<S, cd>) return cd(v, 2 * v); else return S(v);
}

template <class S>
struct SubMat : pd::SubElementMatrixProvider<S> {
  using ElemMat = typename pd::SubElementMatrixProvider<S>::ElemMat;
  const Mesh* m; Spec p; const pd::ProductUniformFEDofHandler *te, *tr;
  SubMat(const Mesh* m, Spec p, const pd::ProductUniformFEDofHandler* te, const pd::ProductUniformFEDofHandler* tr) : m(m), p(p), te(te), tr(tr) {}
  bool isActive(const Entity& e) override { return p.act[m->Index(e) % p.act.size()] != 0; }
  ElemMat Eval(const Entity& e) override {
    ElemMat r(te->NumLocalDofs(e, p.te), tr->NumLocalDofs(e, p.tr));
    for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) r(i, j) = mk<S>(term(p.s, m->Index(e), i, j));
    return r;
  }
  [[nodiscard]] unsigned TrialComponent() const override { return p.tr; }
  [[nodiscard]] unsigned TestComponent() const override { return p.te; }
};
template <class S>
struct SubVec : pd::SubElementVectorProvider<S> {
  using ElemVec = typename pd::SubElementVectorProvider<S>::ElemVec;
  const Mesh* m; Spec p; const pd::ProductUniformFEDofHandler* te;
  SubVec(const Mesh* m, Spec p, const pd::ProductUniformFEDofHandler* te) : m(m), p(p), te(te) {}
  bool isActive(const Entity& e) override { return p.act[m->Index(e) % p.act.size()] != 0; }
  ElemVec Eval(const Entity& e) override {
    ElemVec r(te->NumLocalDofs(e, p.te));
    for (int i = 0; i < r.size(); ++i) r[i] = mk<S>(term(p.s, m->Index(e), i, 0));
    return r;
  }
  [[nodiscard]] unsigned TestComponent() const override { return p.te; }
};

template <class S>
struct World {
  std::shared_ptr<const Mesh> m;
  std::map<int, std::shared_ptr<pd::ProductUniformFESpace<S>>> sp;
  std::shared_ptr<pd::ProductUniformFESpaceFactory<S>> fac;  // used for all spaces of a scenario

  void space(std::istream& is) {  // space id n (kind deg)..
    int id, n; is >> id >> n;
    if (!fac) fac = std::make_shared<pd::ProductUniformFESpaceFactory<S>>(m);
    auto& f = *fac;
    std::string cs = "[";
    std::vector<ll> added;
    for (int i = 0; i < n; ++i) {
      std::string k; int p; is >> k >> p;
      cs += (i ? "," : "") + std::string("[\"") + k + "\"," + std::to_string(p) + "]";
      added.push_back(k == "h" ? f.AddH1Component(p) : k == "l" ? f.AddL2Component(p) : k == "f" ? f.AddFluxComponent(p) : f.AddTraceComponent(p));
      if ((int)f.NumComponents() != i + 1) added.back() = -1;
    }
    auto s = f.Build();
    J j; j.s("e", "space").i("id", id).raw("cs", cs + "]").v("added", added);
    std::vector<std::vector<ll>> nsf(n);
    std::string has = "[";
    for (int c = 0; c < n; ++c) {
      has += c ? ",[" : "[";
      for (int r = 0; r < 4; ++r) {
        nsf[c].push_back(s->NumRefShapeFunctions(kRe[r], c));
        auto* l = s->ShapeFunctionLayout(kRe[r], c);
        has += std::string(r ? "," : "") + (l && l->RefEl() == kRe[r] ? "true" : "false");
      }
      has += "]";
    }
    dump_product(j.v("nsf", nsf).raw("has", has + "]"), s->LocGlobMap(), *m);
    j.t("sane", (int)s->NumComponents() == n && s->Mesh() == m);
    j.i("after", f.NumComponents());
    emit(j);
    sp[id] = s;
  }
  using Fe = lf::fe::ScalarReferenceFiniteElement<S>;
  static void show(J& j, const lf::uscalfe::UniformScalarFESpace<S>& s, const Mesh& m) {
    std::vector<ll> nsf, ent;
    std::string has = "[";
    for (int r = 0; r < 4; ++r) {
      nsf.push_back(s.NumRefShapeFunctions(kRe[r]));
      auto* l = s.ShapeFunctionLayout(kRe[r]);
      has += std::string(r ? "," : "") + (l && l->RefEl() == kRe[r] ? "true" : "false");
    }
    bool same = s.Mesh().get() == &m;
    for (int k = 0; k < 3; ++k)
      for (auto* e : m.Entities(k))
        same = same && s.ShapeFunctionLayout(*e) == s.ShapeFunctionLayout(e->RefEl()) && s.NumRefShapeFunctions(*e) == s.NumRefShapeFunctions(e->RefEl());
    std::ostringstream o, p;
    o << s;
    lf::uscalfe::PrintInfo(p, s, 7);
    same = same && o.str().find("dim = " + std::to_string(s.LocGlobMap().NumDofs())) != std::string::npos && p.str().size() > o.str().size();
    dump(j.v("nsf", nsf).raw("has", has + "]").t("same", same), s.LocGlobMap(), m);
  }
  void uspace(std::istream& is) {  // uspace kind deg mask: space with some specifications only
    std::string k; int p, mask; is >> k >> p >> mask;
    J j; j.s("e", "uspace").s("k", k).i("p", p).i("mask", mask);
    auto mk = [&](RefEl r) -> std::shared_ptr<const Fe> {
      pd::ProductUniformFESpaceFactory<S> f(m);
      if (k == "h") f.AddH1Component(p); else if (k == "l") f.AddL2Component(p); else if (k == "f") f.AddFluxComponent(p); else f.AddTraceComponent(p);
      auto s = f.Build();
      return {s, s->ShapeFunctionLayout(r, 0)};
    };
    auto tr = (mask & 1) ? mk(RefEl::kTria()) : nullptr;
    auto qu = (mask & 2) ? mk(RefEl::kQuad()) : nullptr;
    auto ed = (mask & 4) ? mk(RefEl::kSegment()) : nullptr;
    auto fn = [&] { return lf::uscalfe::UniformScalarFESpace<S>(m, tr, qu, ed); };
    if (!isolated([&] { (void)fn(); }, 20, false)) { emit(j.t("ok", false)); return; }
    auto s = fn();
    show(j.t("ok", true), s, *m);
    emit(j);
  }
  static std::string specs(std::istream& is, std::vector<Spec>& v, bool vec) {
    int n; is >> n;
    std::string o = "[";
    for (int i = 0; i < n; ++i) {
      Spec p; int a; p.tr = 0;
      if (!vec) is >> p.tr;
      is >> p.te >> p.s >> a;
      p.act.resize(a);
      for (auto& x : p.act) is >> x;
      J j; j.i("tr", p.tr).i("te", p.te).i("s", p.s).v("act", p.act);
      o += (i ? "," : "") + j.str();
      v.push_back(p);
    }
    return o + "]";
  }
  void mat(std::istream& is) {  // pmat k tr te n (tr te s na act..)..
    int k, tr, te; is >> k >> tr >> te;
    std::vector<Spec> v;
    J j; j.s("e", "pmat").i("k", k).i("tr", tr).i("te", te).raw("ps", specs(is, v, false));
    auto &ste = sp.at(te), &str = sp.at(tr);
    std::vector<std::shared_ptr<pd::SubElementMatrixProvider<S>>> sub;
    for (auto& p : v) sub.push_back(std::make_shared<SubMat<S>>(m.get(), p, &ste->LocGlobMap(), &str->LocGlobMap()));
    pd::ProductElementMatrixProvider<S> prov(str, ste, sub);
    std::vector<std::vector<std::vector<ll>>> el;
    for (const Entity* e : m->Entities(k)) {
      auto M = prov.Eval(*e);
      el.emplace_back(M.rows());
      for (int r = 0; r < M.rows(); ++r) for (int c = 0; c < M.cols(); ++c) el.back()[r].push_back(as_int<S>(M(r, c)));
    }
    la::COOMatrix<S> A = la::AssembleMatrixLocally<la::COOMatrix<S>>(k, str->LocGlobMap(), ste->LocGlobMap(), prov);
    auto D = A.makeDense();
    std::vector<std::vector<ll>> d(D.rows());
    for (int r = 0; r < D.rows(); ++r) for (int c = 0; c < D.cols(); ++c) d[r].push_back(as_int<S>(S(D(r, c))));
    emit(j.v("el", el).v("d", d));
  }
  void vec(std::istream& is) {  // pvec k te n (te s na act..)..
    int k, te; is >> k >> te;
    std::vector<Spec> v;
    J j; j.s("e", "pvec").i("k", k).i("te", te).raw("ps", specs(is, v, true));
    auto& ste = sp.at(te);
    std::vector<std::shared_ptr<pd::SubElementVectorProvider<S>>> sub;
    for (auto& p : v) sub.push_back(std::make_shared<SubVec<S>>(m.get(), p, &ste->LocGlobMap()));
    pd::ProductElementVectorProvider<S> prov(ste, sub);
    std::vector<std::vector<ll>> el;
    for (const Entity* e : m->Entities(k)) {
      auto M = prov.Eval(*e);
      el.emplace_back();
      for (int r = 0; r < M.size(); ++r) el.back().push_back(as_int<S>(M[r]));
    }
    emit(j.v("el", el));
  }
  void line(const std::string& op, std::istream& is) {
    if (op == "space") space(is);
    else if (op == "pmat") mat(is);
    else if (op == "pvec") vec(is);
    else if (op == "cspace") {
      int id, c; is >> id >> c;
      auto s = sp.at(id)->ComponentFESpace(c);
      J j; j.s("e", "cspace").i("id", id).i("c", c);
      show(j, *s, *m);
      emit(j);
    } else if (op == "uspace") uspace(is);
    else if (op == "badcomp") {
      int id, d; is >> id >> d;
      auto& h = sp.at(id)->LocGlobMap();
      const bool ok = isolated([&] { (void)h.Component(h.NumDofs() + d); }, 20, false);
      emit(J().s("e", "badcomp").t("ok", ok));
    }
  }
};

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& s) {
    Factory f(2, false, 1);
    f.log = false;
    std::shared_ptr<const Mesh> m;
    World<double> wr; World<cd> wc;
    bool cplx = false;
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") { int d, c; is >> d >> c; f = Factory(d, c != 0, 1); f.log = false; continue; }
      if (f.line(l)) {
        if (op == "B") {
          m = f.mesh; wr = {}; wc = {}; wr.m = wc.m = m;
          J j; j.s("e", "mesh"); mesh_json(j, *m, 1); emit(j);
        }
        continue;
      }
      if (op == "scalar") { std::string t; is >> t; cplx = t == "c"; }
      else if (op == "pdof") {  // pdof id n (p s t q)..
        int id, n; is >> id >> n;
        std::vector<pd::dof_map_t> maps(n);
        std::vector<std::vector<int>> lays(n, std::vector<int>(4));
        for (int i = 0; i < n; ++i)
          for (int r = 0; r < 4; ++r) { is >> lays[i][r]; if (lays[i][r] >= 0) maps[i][kRe[r]] = lays[i][r]; }
        pd::ProductUniformFEDofHandler h(m, maps);
        J j; j.s("e", "pdof").i("id", id).v("lays", lays);
        dump_product(j, h, *m);
        emit(j);
      } else if (cplx) wc.line(op, is);
      else wr.line(op, is);
    }
  });
}
