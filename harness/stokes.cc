// Driver for P35: the interior penalty DG method for Stokes flow.
#include "dofio.h"
#include <annulus_triag_mesh_builder.h>
#include <build_system_matrix.h>
#include <lf/quad/quad.h>
#include <lf/uscalfe/uscalfe.h>
#include <mesh_function_velocity.h>
#include <norms.h>
#include <offset_function.h>
#include <piecewise_const_element_matrix_provider.h>
#include <solution_to_mesh_data_set.h>
#include <map>
using namespace vf;
namespace st = projects::ipdg_stokes;
using V2 = Eigen::Vector2d;

/// a function given by its values at the corners of each cell, linear in between
struct CornerFun {
  const Mesh* m;
  const std::vector<std::vector<V2>>* v;
  std::vector<V2> operator()(const Entity& e, const Eigen::MatrixXd& x) const {
    std::vector<V2> r;
    auto& w = (*v)[m->Index(e)];
    for (int i = 0; i < x.cols(); ++i) r.push_back((1 - x(0, i) - x(1, i)) * w[0] + x(0, i) * w[1] + x(1, i) * w[2]);
    return r;
  }
};
struct CellMat {
  const Mesh* m;
  const std::vector<Eigen::Matrix2d>* v;
  std::vector<Eigen::Matrix2d> operator()(const Entity& e, const Eigen::MatrixXd& x) const {
    return std::vector<Eigen::Matrix2d>(x.cols(), (*v)[m->Index(e)]);
  }
};

int main(int argc, char** argv) {
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    std::shared_ptr<const Mesh> mesh;
    std::map<std::pair<int, int>, std::pair<int, int>> dir;  // Dirichlet data by edge
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c; is >> d >> c;
        fac = Factory(d, c != 0);
        fac.log = false;
        continue;
      }
      if (fac.line(l)) {
        if (op == "B") {
          mesh = fac.mesh;
          J j; j.s("e", "mesh"); mesh_json(j, *mesh, 1); emit(j);
        }
        continue;
      }
      if (op == "nrm") {
        std::vector<std::vector<std::vector<ll>>> n, t;
        for (unsigned c = 0; c < mesh->NumEntities(0); ++c) {
          const Entity& e = *mesh->EntityByIndex(0, c);
          n.push_back(rmat(st::mesh::computeOutwardNormals(e), 1000));
          t.push_back(rmat(st::mesh::computeTangentials(e), 1000));
        }
        emit(J().s("e", "nrm").v("nrm", n).v("tan", t));
      } else if (op == "dir") {  // a b gx gy
        int a, b, x, y; is >> a >> b >> x >> y;
        dir[{std::min(a, b), std::max(a, b)}] = {x, y};
      } else if (op == "sys") {  // flow, D, 8 sigma, modified, degree of the rule, f(6)
        int flow, D, s8, mod, deg; is >> flow >> D >> s8 >> mod >> deg;
        std::vector<ll> fc(6);
        for (auto& x : fc) is >> x;
        lf::assemble::UniformFEDofHandler dofh(mesh, {{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}});
        const double sigma = s8 / 8.;
        auto f = [&](const V2& x) -> V2 { return V2(fc[0] + fc[1] * x[0] + fc[2] * x[1], fc[3] + fc[4] * x[0] + fc[5] * x[1]); };
        auto g = [&](const Entity& e) -> V2 {
          const int a = mesh->Index(*e.SubEntities(1)[0]), b = mesh->Index(*e.SubEntities(1)[1]);
          const auto it = dir.find({std::min(a, b), std::max(a, b)});
          return it == dir.end() ? V2(7, -5) : V2(it->second.first, it->second.second);
        };
        const auto qr = lf::quad::make_QuadRule(RefEl::kTria(), deg);
        Eigen::MatrixXd A;
        Eigen::VectorXd rhs, off;
        if (flow) {
          auto [a, r, o] = st::assemble::buildSystemMatrixInOutFlow(mesh, dofh, f, g, sigma, qr, mod != 0);
          A = a.makeDense(); rhs = r; off = o;
        } else {
          auto [a, r] = st::assemble::buildSystemMatrixNoFlow(mesh, dofh, f, g, sigma, qr, mod != 0);
          A = a.makeDense(); rhs = r;
        }
        const int nv = mesh->NumEntities(2), ne = mesh->NumEntities(1);
        std::vector<int> nd, ed;
        std::vector<double> len;
        std::vector<std::vector<ll>> gd;
        int nb = 0;
        const auto bd = lf::mesh::utils::flagEntitiesOnBoundary(mesh, 2);
        for (int i = 0; i < nv; ++i) { nd.push_back(dofh.GlobalDofIndices(*mesh->EntityByIndex(2, i))[0]); nb += bd(*mesh->EntityByIndex(2, i)); }
        for (int i = 0; i < ne; ++i) {
          const Entity& e = *mesh->EntityByIndex(1, i);
          ed.push_back(dofh.InteriorGlobalDofIndices(e)[0]);
          const Eigen::MatrixXd c = corners(e);
          len.push_back((c.col(1) - c.col(0)).norm());
          const V2 v = g(e);
          gd.push_back({(ll)v[0], (ll)v[1]});
        }
        std::vector<std::vector<ll>> vv, vb, ev, ee;
        std::vector<ll> rv, re, ov, oe;
        for (int i = 0; i < nv; ++i) {
          std::vector<ll> a, b;
          for (int j = 0; j < nv; ++j) a.push_back(Z(A(nd[i], nd[j]), 1));
          for (int j = 0; j < ne; ++j) b.push_back(Z(A(nd[i], ed[j]) * len[j] * D, 1));
          vv.push_back(a); vb.push_back(b);
          rv.push_back(Z(rhs[nd[i]] * 6, 1));
          if (flow) ov.push_back(Z(off[nd[i]] * nb, 1));
        }
        for (int i = 0; i < ne; ++i) {
          std::vector<ll> a, b;
          for (int j = 0; j < nv; ++j) a.push_back(Z(A(ed[i], nd[j]) * len[i] * D, 1));
          for (int j = 0; j < ne; ++j) b.push_back(Z(A(ed[i], ed[j]) * sigma * (mod ? len[i] : 1), 1));
          ev.push_back(a); ee.push_back(b);
          re.push_back(Z(rhs[ed[i]] * len[i] * D * nb, 1));
          if (flow) oe.push_back(Z(off[ed[i]] * len[i] * D * nb, 1));
        }
        emit(J().s("e", "sys").t("flow", flow != 0).i("D", D).i("s8", s8).i("mod", mod).v("f", fc).v("g", gd).i("nv", nv).i("ne", ne)
                 .v("vv", vv).v("vb", vb).v("ev", ev).v("ee", ee).v("rv", rv).v("re", re).v("ov", ov).v("oe", oe));
      } else if (op == "vel") {  // seed, number of points
        int seed, np; is >> seed >> np;
        lf::assemble::UniformFEDofHandler dofh(mesh, {{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}});
        Eigen::VectorXd s(dofh.NumDofs());
        std::vector<ll> sol, nd, co;
        for (int i = 0; i < s.size(); ++i) { s[i] = (i * 7 + i * i * seed + seed) % 11 - 5; sol.push_back((ll)s[i]); }
        const auto cf = st::post_processing::extractBasisFunctionCoefficients(mesh, dofh, s);
        const auto ve = st::post_processing::extractVelocity(mesh, dofh, s);
        auto fes = std::make_shared<const lf::uscalfe::FeSpaceLagrangeO1<double>>(mesh);
        Eigen::VectorXd pot(fes->LocGlobMap().NumDofs());
        for (unsigned i = 0; i < mesh->NumEntities(2); ++i) {
          const Entity& e = *mesh->EntityByIndex(2, i);
          nd.push_back(dofh.GlobalDofIndices(e)[0]);
          co.push_back(Z(cf(e), 1));
          pot[fes->LocGlobMap().GlobalDofIndices(e)[0]] = s[nd.back()];
        }
        const st::post_processing::MeshFunctionVelocity<double, double> mf(fes, pot);
        Eigen::MatrixXd x(2, np);
        for (int i = 0; i < np; ++i) x.col(i) << .25 * (i % 3), .125 * (i % 4);
        std::vector<std::vector<ll>> vel;
        std::vector<std::vector<std::vector<ll>>> mfv;
        for (unsigned i = 0; i < mesh->NumEntities(0); ++i) {
          const Entity& e = *mesh->EntityByIndex(0, i);
          const Eigen::MatrixXd c = corners(e);
          const double a2 = std::fabs((c(0, 1) - c(0, 0)) * (c(1, 2) - c(1, 0)) - (c(0, 2) - c(0, 0)) * (c(1, 1) - c(1, 0)));
          vel.push_back({Z(ve(e)[0] * a2, 1), Z(ve(e)[1] * a2, 1)});
          mfv.emplace_back();
          for (auto& v : mf(e, x)) mfv.back().push_back({Z(v[0] * a2, 1), Z(v[1] * a2, 1)});
        }
        emit(J().s("e", "vel").v("sol", sol).v("nd", nd).v("co", co).v("vel", vel).v("mfv", mfv).i("np", np));
      } else if (op == "curl") {  // seed: potential of degree two
        int seed; is >> seed;
        auto fes = std::make_shared<const lf::uscalfe::FeSpaceLagrangeO2<double>>(mesh);
        Eigen::VectorXd pot(fes->LocGlobMap().NumDofs());
        for (int i = 0; i < pot.size(); ++i) pot[i] = (i * 5 + i * i * seed + seed) % 13 - 6;
        const st::post_processing::MeshFunctionVelocity<double, double> mf(fes, pot);
        const lf::fe::MeshFunctionGradFE<double, double> gr(fes, pot);
        Eigen::MatrixXd x(2, 3);
        x << .25, .5, .125, .25, 0, .5;
        std::vector<std::vector<ll>> a, b;
        for (unsigned i = 0; i < mesh->NumEntities(0); ++i) {
          const Entity& e = *mesh->EntityByIndex(0, i);
          for (auto& v : gr(e, x)) a.push_back({R(v[0], 1e6), R(v[1], 1e6)});
          for (auto& v : mf(e, x)) b.push_back({R(v[0], 1e6), R(v[1], 1e6)});
        }
        emit(J().s("e", "curl").v("grad", a).v("vel", b));
      } else if (op == "norm") {  // seed, kind, degrees for cells and edges
        int seed, kind, dc, de; is >> seed >> kind >> dc >> de;
        const int nc = mesh->NumEntities(0);
        std::vector<std::vector<V2>> v;
        std::vector<Eigen::Matrix2d> G;
        std::vector<std::vector<std::vector<ll>>> lv;
        std::vector<std::vector<ll>> lG;
        for (int c = 0; c < nc; ++c) {
          const Entity& e = *mesh->EntityByIndex(0, c);
          v.emplace_back(); lv.emplace_back();
          for (int k = 0; k < 3; ++k) {
            // 0: constant on cells, 1: continuous, 2: arbitrary
            const int n = kind == 0 ? 100 + c : kind == 1 ? (int)mesh->Index(*e.SubEntities(2)[k]) : 3 * c + k;
            const int a = (n * 5 + n * n * seed + seed) % 7 - 3, b = (n * 3 + n * n * seed + 2 * seed) % 5 - 2;
            v.back().push_back(V2(a, b));
            lv.back().push_back({a, b});
          }
          const int n = c + seed;
          std::vector<ll> q{n % 3 - 1, (n * 5) % 4 - 2, (n * n) % 5 - 2, (3 * n) % 7 - 3};
          lG.push_back(q);
          Eigen::Matrix2d M; M << q[0], q[1], q[2], q[3];
          G.push_back(M);
        }
        auto qs = [&](const Entity& e) { return lf::quad::make_QuadRule(e.RefEl(), e.RefEl() == RefEl::kSegment() ? de : dc); };
        const CornerFun f{mesh.get(), &v};
        const CellMat g{mesh.get(), &G};
        const double a = st::post_processing::L2norm(mesh, f, qs), b = st::post_processing::DGnorm(mesh, f, g, qs);
        emit(J().s("e", "norm").v("f", lv).v("G", lG).i("l2", Z(a * a * 12, 1)).i("dg", Z(b * b * 6, 1)));
      } else if (op == "annulus") {  // nr na r0 r1 cx cy S; centre set or not
        int nr, na, r0, r1, cx, cy, S, setc; is >> nr >> na >> r0 >> r1 >> cx >> cy >> S >> setc;
        st::mesh::AnnulusTriagMeshBuilder b(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
        b.setNumAngularCells(na);
        b.setInnerRadius(r0 / double(S));
        b.setOuterRadius(r1 / double(S));
        b.setNumRadialCells(nr);
        if (setc) b.setCenterPoint(cx / double(S), cy / double(S));
        mesh = b.Build();
        J j; j.s("e", "annulus").i("nr", nr).i("na", na).i("r0", r0).i("r1", r1).i("S", S).v("c", std::vector<int>{setc ? cx : 0, setc ? cy : 0});
        std::vector<std::vector<ll>> p;
        for (unsigned i = 0; i < mesh->NumEntities(2); ++i) p.push_back(rmat(corners(*mesh->EntityByIndex(2, i)), S)[0]);
        std::vector<std::vector<ll>> edges;
        std::vector<J> cells;
        for (unsigned i = 0; i < mesh->NumEntities(1); ++i) {
          edges.emplace_back();
          for (const Entity* q : mesh->EntityByIndex(1, i)->SubEntities(1)) edges.back().push_back(mesh->Index(*q));
        }
        for (unsigned i = 0; i < mesh->NumEntities(0); ++i) {
          const Entity* c = mesh->EntityByIndex(0, i);
          std::vector<ll> v, e, o;
          for (const Entity* q : c->SubEntities(2)) v.push_back(mesh->Index(*q));
          for (const Entity* q : c->SubEntities(1)) e.push_back(mesh->Index(*q));
          for (auto q : c->RelativeOrientations()) o.push_back(lf::mesh::to_sign(q));
          cells.push_back(J().v("v", v).v("e", e).v("o", o));
        }
        // positions of the cells' own geometries agree with the nodes
        bool same = true;
        for (unsigned i = 0; i < mesh->NumEntities(0); ++i) {
          const Entity* c = mesh->EntityByIndex(0, i);
          const Eigen::MatrixXd x = corners(*c);
          for (int q = 0; q < 3; ++q) same = same && (x.col(q) - corners(*c->SubEntities(2)[q])).norm() < 1e-12;
        }
        emit(j.v("pts", p).v("edges", edges).v("cells", cells).t("same", same));
      } else {
        emit(J().s("e", "badop").s("op", op));
      }
    }
  });
}
