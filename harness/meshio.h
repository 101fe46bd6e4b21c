// Script -> MeshFactory calls and mesh -> log.
#pragma once
#include "common.h"
#include <lf/base/base.h>
#include <lf/geometry/geometry.h>
#include <lf/mesh/mesh.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/hybrid2d/mesh_factory.h>

namespace vf {
using lf::base::RefEl;
using lf::mesh::Entity;
using lf::mesh::Mesh;

/// interprets P/E/T/Q/B lines of a script
struct Factory {
  int dw = 2;
  double S = 1;  // scale: script coordinate = S * real coordinate
  bool log = true;
  std::vector<Eigen::VectorXd> pts;
  std::unique_ptr<lf::mesh::hybrid2d::MeshFactory> f;
  std::shared_ptr<Mesh> mesh;
  explicit Factory(int dw_ = 2, bool check = true, double S_ = 1) : dw(dw_), S(S_) {
    f = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(dw, check);
  }
  Eigen::VectorXd readp(std::istream& is) {
    Eigen::VectorXd v(dw);
    for (int i = 0; i < dw; ++i) { double x; is >> x; v[i] = x / S; }
    return v;
  }
  std::unique_ptr<lf::geometry::Geometry> geo(char k, int g, const std::vector<unsigned>& n, std::istream& is) {
    if (g == 0) return nullptr;
    const int nv = (int)n.size();
    if (g == 2) {
      const int nm = k == 'E' ? 1 : nv;
      Eigen::MatrixXd c(dw, nv + nm);
      for (int i = 0; i < nv; ++i) c.col(i) = pts.at(n[i]);
      for (int i = 0; i < nm; ++i) c.col(nv + i) = readp(is);
      if (k == 'E') return std::make_unique<lf::geometry::SegmentO2>(c);
      if (k == 'T') return std::make_unique<lf::geometry::TriaO2>(c);
      return std::make_unique<lf::geometry::QuadO2>(c);
    }
    Eigen::MatrixXd c(dw, nv);
    for (int i = 0; i < nv; ++i) c.col(i) = pts.at(n[i]);
    if (k == 'E') return std::make_unique<lf::geometry::SegmentO1>(c);
    if (k == 'T') return std::make_unique<lf::geometry::TriaO1>(c);
    if (g == 3) return std::make_unique<lf::geometry::Parallelogram>(c);
    return std::make_unique<lf::geometry::QuadO1>(c);
  }
  /// returns false if the line is not a factory command
  bool line(const std::string& l) {
    std::istringstream is(l);
    std::string op;
    is >> op;
    if (op == "P" || op == "PG") {
      Eigen::VectorXd v = readp(is);
      pts.push_back(v);
      unsigned r = op == "P" ? f->AddPoint(v)
                             : f->AddPoint(std::make_unique<lf::geometry::Point>(v));
      if (log) emit(J().s("e", "pt").v("x", lattice(v)).i("ret", r));
    } else if (op == "E" || op == "T" || op == "Q") {
      const int nv = op == "E" ? 2 : op == "T" ? 3 : 4;
      std::vector<unsigned> n(nv);
      for (auto& x : n) is >> x;
      int g; is >> g;
      std::string rest; std::getline(is, rest);
      std::istringstream rs(rest);
      auto gp = geo(op[0], g, n, rs);
      std::vector<ll> mids;
      { std::istringstream r2(rest); double x; while (r2 >> x) mids.push_back((ll)x); }
      RefEl re = nv == 2 ? RefEl::kSegment() : nv == 3 ? RefEl::kTria() : RefEl::kQuad();
      unsigned r = f->AddEntity(re, std::span<const unsigned>(n.data(), n.size()), std::move(gp));
      if (log) emit(J().s("e", "ent").v("n", n).i("g", g).v("m", mids).i("ret", r));
    } else if (op == "B") {
      mesh = f->Build();
      pts.clear();
    } else {
      return false;
    }
    return true;
  }
  std::vector<ll> lattice(const Eigen::VectorXd& v) const {
    std::vector<ll> o;
    for (int i = 0; i < v.size(); ++i) o.push_back(Z(v[i], S));
    return o;
  }
};

inline std::vector<ll> zcol(const Eigen::MatrixXd& m, int c, double S) {
  std::vector<ll> o;
  for (int i = 0; i < m.rows(); ++i) o.push_back(Z(m(i, c), S));
  return o;
}
inline std::vector<std::vector<ll>> zmat(const Eigen::MatrixXd& m, double S) {  // list of columns
  std::vector<std::vector<ll>> o;
  for (int i = 0; i < m.cols(); ++i) o.push_back(zcol(m, i, S));
  return o;
}
inline std::vector<std::vector<ll>> rmat(const Eigen::MatrixXd& m, double S) {  // list of columns
  std::vector<std::vector<ll>> o;
  for (int c = 0; c < m.cols(); ++c) {
    std::vector<ll> v;
    for (int i = 0; i < m.rows(); ++i) v.push_back(R(m(i, c), S));
    o.push_back(v);
  }
  return o;
}
inline Eigen::MatrixXd corners(const Entity& e) {
  return e.Geometry()->Global(e.RefEl().NodeCoords());
}

/// Topology and corner coordinates of a mesh
inline void mesh_json(J& j, const Mesh& m, double S) {
  std::vector<std::vector<ll>> pts, edges, ecoord;
  std::vector<J> cells;
  for (unsigned i = 0; i < m.NumEntities(2); ++i) {
    const Entity* p = m.EntityByIndex(2, i);
    pts.push_back(zcol(corners(*p), 0, S));
  }
  for (unsigned i = 0; i < m.NumEntities(1); ++i) {
    const Entity* e = m.EntityByIndex(1, i);
    edges.emplace_back();
    for (const Entity* p : e->SubEntities(1)) edges.back().push_back(m.Index(*p));
  }
  for (unsigned i = 0; i < m.NumEntities(0); ++i) {
    const Entity* c = m.EntityByIndex(0, i);
    std::vector<ll> v, e, o;
    for (const Entity* p : c->SubEntities(2)) v.push_back(m.Index(*p));
    for (const Entity* p : c->SubEntities(1)) e.push_back(m.Index(*p));
    for (auto r : c->RelativeOrientations()) o.push_back(lf::mesh::to_sign(r));
    cells.push_back(J().v("v", v).v("e", e).v("o", o));
  }
  j.v("pts", pts).v("edges", edges).v("cells", cells);
}

/// samples of the geometries of all entities
inline void log_geo(const Mesh& m, double S) {
  const double S8 = 8 * S;
  std::vector<std::vector<std::vector<ll>>> ed;
  std::vector<std::vector<std::vector<std::vector<ll>>>> sd;
  std::vector<std::vector<ll>> ct, pg;
  Eigen::MatrixXd t5(1, 5);
  t5 << 0, .25, .5, .75, 1;
  std::vector<std::vector<ll>> ends;
  for (unsigned i = 0; i < m.NumEntities(1); ++i) {
    const Entity* e = m.EntityByIndex(1, i);
    ed.push_back(zmat(e->Geometry()->Global(t5), S8));
  }
  for (unsigned i = 0; i < m.NumEntities(0); ++i) {
    const Entity* c = m.EntityByIndex(0, i);
    const auto nc = c->RefEl().NodeCoords();
    const int nv = nc.cols();
    std::vector<std::vector<std::vector<ll>>> s;
    for (int k = 0; k < nv; ++k) {
      Eigen::MatrixXd loc = nc.col(k) * (Eigen::MatrixXd::Ones(1, 5) - t5) + nc.col((k + 1) % nv) * t5;
      s.push_back(zmat(c->Geometry()->Global(loc), S8));
    }
    sd.push_back(s);
    Eigen::MatrixXd mid(2, 1);
    if (nv == 3) mid << .25, .25; else mid << .5, .5;
    ct.push_back(zcol(c->Geometry()->Global(mid), 0, S8));
  }
  for (unsigned i = 0; i < m.NumEntities(2); ++i)
    pg.push_back(zcol(m.EntityByIndex(2, i)->Geometry()->Global(Eigen::MatrixXd(0, 1)), 0, S8));
  emit(J().s("e", "geo").v("ed", ed).v("sd", sd).v("ct", ct).v("pg", pg));
}
}  // namespace vf
