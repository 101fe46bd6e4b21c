// Driver for P04 (structured builders) and P05 (flags, counts, data sets).
#include "meshio.h"
#include <lf/mesh/utils/utils.h>
#include <lf/mesh/utils/torus_mesh_builder.h>
#include <lf/refinement/mesh_hierarchy.h>
using namespace vf;
namespace mu = lf::mesh::utils;

template <class B>
static std::shared_ptr<Mesh> buildit(B& b, unsigned nx, unsigned ny, double x0, double y0, double x1, double y1, int api) {
  b.setNumXCells(nx).setNumYCells(ny);
  if (api == 0) {
    b.setBottomLeftCorner(Eigen::Vector2d(x0, y0)).setTopRightCorner(Eigen::Vector2d(x1, y1));
  } else {
    b.setBottomLeftCorner(x0, y0).setTopRightCorner(x1, y1);
  }
  return b.Build();
}

static void tp(const std::string& l) {
  std::istringstream is(l);
  std::string op, kind;
  int nx, ny, x0, y0, x1, y1, api, times;
  is >> op >> kind >> nx >> ny >> x0 >> y0 >> x1 >> y1 >> api >> times;
  int k = 0;  // the library sees 2^k times the box
  is >> k;
  const double U = std::ldexp(1., k);
  const bool torus = kind == "torus";
  auto fac = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(torus ? 3 : 2);
  std::unique_ptr<mu::StructuredMeshBuilder> b;
  if (kind == "tria") b = std::make_unique<mu::TPTriagMeshBuilder>(std::move(fac));
  else if (kind == "quad") b = std::make_unique<mu::TPQuadMeshBuilder>(std::move(fac));
  else b = std::make_unique<mu::TorusMeshBuilder>(std::move(fac));
  for (int t = 0; t < times; ++t) {
    auto m = buildit(*b, nx, ny, U * x0, U * y0, U * x1, U * y1, api);
    J j;
    j.s("e", "tp").s("kind", kind).i("nx", nx).i("ny", ny).v("box", std::vector<ll>{x0, y0, x1, y1});
    j.t("null", m == nullptr);
    if (m) {
      const double S = (torus ? 1000 * 2 * M_PI : nx * ny) / U;
      J tmp;
      mesh_json(tmp, *m, S);
      std::vector<std::vector<ll>> pts, edges;
      std::vector<std::vector<std::vector<ll>>> cc, ec;
      auto mat = [&](const Eigen::MatrixXd& x) { return torus ? rmat(x, S) : zmat(x, S); };
      for (unsigned i = 0; i < m->NumEntities(2); ++i) pts.push_back(mat(corners(*m->EntityByIndex(2, i)))[0]);
      for (unsigned i = 0; i < m->NumEntities(1); ++i) ec.push_back(mat(corners(*m->EntityByIndex(1, i))));
      for (unsigned i = 0; i < m->NumEntities(0); ++i) cc.push_back(mat(corners(*m->EntityByIndex(0, i))));
      // topology as in mesh_json
      std::string body = tmp.str();
      auto pos = body.find("\"edges\"");
      j.v("pts", pts).v("cc", cc).v("ec", ec);
      j.b += "," + body.substr(pos, body.size() - pos - 1);
    }
    emit(j);
  }
}

struct Sets {
  std::shared_ptr<Mesh> m;
  std::map<int, std::unique_ptr<mu::CodimMeshDataSet<int>>> c;
  std::map<int, std::unique_ptr<mu::AllCodimMeshDataSet<int>>> a;
  std::map<int, std::unique_ptr<mu::CodimMeshDataSet<bool>>> cb;
};

template <class D>
static std::vector<std::vector<ll>> dump(const D& d, const Mesh& m) {
  std::vector<std::vector<ll>> r(3);
  for (int k = 0; k < 3; ++k)
    for (unsigned i = 0; i < m.NumEntities(k); ++i) {
      const Entity* e = m.EntityByIndex(k, i);
      if (d.DefinedOn(*e)) r[k].push_back((ll)d(*e)); else r[k].push_back(-999);
    }
  return r;
}

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& s) {
    Factory f(2, false, 1);
    Sets S;
    std::shared_ptr<Mesh> other;
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "TP") { tp(l); continue; }
      if (op == "M") { int d, c; is >> d >> c; f = Factory(d, c != 0, 1); f.log = false; continue; }
      if (f.line(l)) {
        if (op == "B") {
          other = S.m;
          S = Sets{};
          S.m = f.mesh;
          J j;
          j.s("e", "mesh");
          mesh_json(j, *f.mesh, 1);
          emit(j);
        }
        continue;
      }
      const auto& m = S.m;
      if (op == "counts") {
        std::vector<std::vector<ll>> cnt;
        for (int sub = 0; sub < 3; ++sub)
          for (int sup = 0; sup <= sub; ++sup) {
            auto d = mu::CountNumSuperEntities(m, sub, sup);
            std::vector<ll> v;
            for (unsigned i = 0; i < m->NumEntities(sub); ++i) v.push_back(d(*m->EntityByIndex(sub, i)));
            cnt.push_back(v);
          }
        emit(J().s("e", "counts").v("c", cnt));
        auto b1 = mu::flagEntitiesOnBoundary(m, 1);
        auto b2 = mu::flagEntitiesOnBoundary(m, 2);
        auto ba = mu::flagEntitiesOnBoundary(m);
        emit(J().s("e", "flags").v("b1", dump(b1, *m)).v("b2", dump(b2, *m)).v("ba", dump(ba, *m)));
        if (other) {
          bool foreign = false;
          for (int k = 0; k < 3; ++k)
            for (unsigned i = 0; i < other->NumEntities(k); ++i) {
              foreign |= ba.DefinedOn(*other->EntityByIndex(k, i));
              foreign |= b1.DefinedOn(*other->EntityByIndex(k, i));
              foreign |= b2.DefinedOn(*other->EntityByIndex(k, i));
            }
          emit(J().s("e", "foreign").t("def", foreign));
        }
      } else if (op == "sel") {  // half plane a x + b y > c
        int a, b, c; is >> a >> b >> c;
        auto in = [a, b, c](const Eigen::MatrixXd& x) { return a * x(0, 0) + b * x(1, 0) > c; };
        const lf::refinement::EntityCenterPositionSelector sel(in);
        std::vector<std::vector<ll>> r(3);
        for (int k = 0; k < 3; ++k) for (const Entity* e : m->Entities(k)) r[k].push_back(sel(*e));
        emit(J().s("e", "sel").i("a", a).i("b", b).i("c", c).v("r", r));
      } else if (op == "newc") {  // newc id codim init
        int id, k, v; is >> id >> k >> v;
        if (id % 2) S.c[id] = std::make_unique<mu::CodimMeshDataSet<int>>(m, k, v);
        else S.c[id] = std::make_unique<mu::CodimMeshDataSet<int>>(std::move(*mu::make_CodimMeshDataSet<int>(m, k, v)));
        emit(J().s("e", "newc").i("id", id).i("k", k).i("v", v));
      } else if (op == "newb") {
        int id, k, v; is >> id >> k >> v;
        S.cb[id] = std::make_unique<mu::CodimMeshDataSet<bool>>(m, k, v != 0);
        emit(J().s("e", "newc").i("id", id).i("k", k).i("v", v));
      } else if (op == "newa") {
        int id, v; is >> id >> v;
        if (v == 0) S.a[id] = std::make_unique<mu::AllCodimMeshDataSet<int>>(m);
        else S.a[id] = std::make_unique<mu::AllCodimMeshDataSet<int>>(m, v);
        emit(J().s("e", "newa").i("id", id).i("v", v));
      } else if (op == "set") {
        int id, k, i, v; is >> id >> k >> i >> v;
        i %= (int)m->NumEntities(k);
        const Entity* e = m->EntityByIndex(k, i);
        if (S.c.count(id)) (*S.c[id])(*e) = v;
        else if (S.a.count(id)) (*S.a[id])(*e) = v;
        else (*S.cb[id])(*e) = v != 0;
        emit(J().s("e", "set").i("id", id).i("k", k).i("i", i).i("v", v));
      } else if (op == "get") {
        int id; is >> id;
        auto d = S.c.count(id) ? dump(*S.c[id], *m) : S.a.count(id) ? dump(*S.a[id], *m) : dump(*S.cb[id], *m);
        emit(J().s("e", "get").i("id", id).v("d", d));
      }
    }
  });
}
