// Driver for P17 (quadrature rules) and P18 (cache).
#include "common.h"
#include <lf/base/base.h>
#include <lf/quad/quad.h>
#include <lf/quad/gauss_quadrature.h>
#include <map>
#include <memory>
using namespace vf;
using lf::base::RefEl;
namespace lq = lf::quad;

static RefEl mkref(const std::string& s) {
  return s == "seg" ? RefEl::kSegment() : s == "tria" ? RefEl::kTria() : s == "quad" ? RefEl::kQuad() : RefEl::kPoint();
}
static std::string nm(RefEl r) { return r == RefEl::kSegment() ? "seg" : r == RefEl::kTria() ? "tria" : r == RefEl::kQuad() ? "quad" : "point"; }

/// all Bernstein polynomials of degree d in one variable at x
static std::vector<double> bern(int d, double x) {
  std::vector<double> b(1, 1.0);
  for (int k = 1; k <= d; ++k) {
    std::vector<double> n(k + 1, 0.0);
    for (int i = 0; i < k; ++i) { n[i] += (1 - x) * b[i]; n[i + 1] += x * b[i]; }
    b = n;
  }
  return b;
}
/// Bernstein polynomials on the triangle: index (i,j), i + j <= d, row by row
static std::vector<double> bern2(int d, double x, double y) {
  auto ix = [](int k, int i, int j) { return i * (k + 1) - i * (i - 1) / 2 + j; };
  std::vector<double> b(1, 1.0);
  for (int k = 1; k <= d; ++k) {
    std::vector<double> n((k + 1) * (k + 2) / 2, 0.0);
    for (int i = 0; i < k; ++i)
      for (int j = 0; i + j < k; ++j) {
        const double v = b[ix(k - 1, i, j)];
        n[ix(k, i, j)] += (1 - x - y) * v;
        n[ix(k, i + 1, j)] += x * v;
        n[ix(k, i, j + 1)] += y * v;
      }
    b = n;
  }
  return b;
}
static std::vector<double> moments(const lq::QuadRule& q, int d) {
  std::vector<double> r;
  for (unsigned p = 0; p < q.NumPoints(); ++p) {
    std::vector<double> v;
    if (q.RefEl() == RefEl::kTria()) v = bern2(d, q.Points()(0, p), q.Points()(1, p));
    else if (q.RefEl() == RefEl::kSegment()) v = bern(d, q.Points()(0, p));
    else {
      auto a = bern(d, q.Points()(0, p)), b = bern(d, q.Points()(1, p));
      for (double s : a) for (double t : b) v.push_back(s * t);
    }
    if (r.empty()) r.assign(v.size(), 0.0);
    for (size_t i = 0; i < v.size(); ++i) r[i] += q.Weights()[p] * v[i];
  }
  return r;
}
/// s decimals of each number in m and five more in f
static void split(J& j, const std::vector<double>& r, int s) {
  std::vector<ll> m, f;
  for (double x : r) {
    const double z = x * std::pow(10.0, s);
    const ll y = std::isfinite(z) && std::fabs(z) < 1.9e9 ? std::llround(x * std::pow(10.0, s + 5)) : kBig;
    const ll lo = ((y % 100000) + 100000) % 100000;
    m.push_back((y - lo) / 100000);
    f.push_back(lo);
  }
  j.v("m", m).v("f", f);
}
static void log_rule(J& j, const lq::QuadRule& q) {
  const int d = (int)q.Degree();
  j.s("ret", nm(q.RefEl())).i("deg", d).i("ord", q.Order()).i("np", q.NumPoints());
  j.i("rows", q.Points().rows()).i("cols", q.Points().cols()).i("nw", q.Weights().size());
  std::vector<std::vector<ll>> pts;
  for (int p = 0; p < q.Points().cols(); ++p) {
    std::vector<ll> v;
    for (int i = 0; i < q.Points().rows(); ++i) v.push_back(R(q.Points()(i, p), 1e8));
    pts.push_back(v);
  }
  j.v("pts", pts);
  std::vector<ll> w;
  for (int p = 0; p < q.Weights().size(); ++p) w.push_back(R(q.Weights()[p], 1e8));
  j.v("w", w);
  // number of decimals of the logged moments: as many as fit
  const double M = q.RefEl() == RefEl::kTria() ? (d + 1.0) * (d + 2) : q.RefEl() == RefEl::kQuad() ? (d + 1.0) * (d + 1) : d + 1.0;
  const int s = 8 + (int)std::floor(std::log10(M));
  split(j.i("s", s), moments(q, d), s);
}

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& s) {
    std::unique_ptr<lq::QuadRuleCache> cache = std::make_unique<lq::QuadRuleCache>();
    std::vector<const lq::QuadRule*> held;       // distinct objects handed out
    std::map<std::string, int> content;
    auto cont = [&](const lq::QuadRule& q) -> int {
      std::ostringstream o;
      o.precision(12);
      o << q.RefEl().Id() << ' ' << q.Degree() << ' ' << q.Points().rows() << 'x' << q.Points().cols() << ' ';
      for (int i = 0; i < q.Points().size(); ++i) o << q.Points().data()[i] << ' ';
      for (int i = 0; i < q.Weights().size(); ++i) o << q.Weights()[i] << ' ';
      return content.emplace(o.str(), (int)content.size()).first->second;
    };
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "rule") {
        std::string r; int d; is >> r >> d;
        J j; j.s("e", "rule").s("ref", r).i("want", d);
        log_rule(j, lq::make_QuadRule(mkref(r), d));
        emit(j);
      } else if (op == "named") {
        std::string n; is >> n;
        auto q = n == "TriaMid" ? lq::make_TriaQR_MidpointRule() : n == "TriaP1O2" ? lq::make_TriaQR_P1O2()
               : n == "TriaEdgeMid" ? lq::make_TriaQR_EdgeMidpointRule() : n == "TriaP3O3" ? lq::make_TriaQR_P3O3()
               : n == "TriaP7O6" ? lq::make_TriaQR_P7O6() : n == "TriaP6O4" ? lq::make_TriaQR_P6O4()
               : n == "QuadMid" ? lq::make_QuadQR_MidpointRule() : n == "QuadP1O2" ? lq::make_QuadQR_P1O2()
               : n == "QuadEdgeMid" ? lq::make_QuadQR_EdgeMidpointRule() : n == "QuadP4O2" ? lq::make_QuadQR_P4O2()
               : n == "QuadP4O4" ? lq::make_QuadQR_P4O4()
               : lq::make_QuadRuleNodal(mkref(n.substr(5)));  // NodalXXX
        J j; j.s("e", "named").s("name", n);
        log_rule(j, q);
        emit(j);
      } else if (op == "jacobi") {  // jacobi n a b   (a = b = 0 and kind leg: GaussLegendre on [0,1])
        std::string kind; int n, a, b; is >> kind >> n >> a >> b;
        auto [p, w] = kind == "leg" ? lq::GaussLegendre(n) : lq::GaussJacobi(n, a, b);
        const int d = 2 * n - 1;
        std::vector<double> r(d + 1, 0.0);
        std::vector<ll> pts;
        for (int k = 0; k < p.size(); ++k) {
          const double x = kind == "leg" ? p[k] : (p[k] + 1) / 2;
          pts.push_back(R(x, 1e8));
          auto v = bern(d, x);
          for (int i = 0; i <= d; ++i) r[i] += w[k] * v[i];
        }
        J j;
        j.s("e", "gauss").s("kind", kind).i("n", n).i("a", a).i("b", b).i("np", p.size()).i("nw", w.size()).v("pts", pts);
        split(j, r, 8);
        emit(j);
      } else if (op == "get") {
        std::string r; int d; is >> r >> d;
        const lq::QuadRule& q = cache->Get(mkref(r), d);
        int pid = -1;
        for (size_t i = 0; i < held.size(); ++i) if (held[i] == &q) pid = (int)i;
        if (pid < 0) { pid = (int)held.size(); held.push_back(&q); }
        auto fresh = lq::make_QuadRule(mkref(r), d);
        std::vector<ll> all;
        for (auto* h : held) all.push_back(cont(*h));
        emit(J().s("e", "get").s("ref", r).i("d", d).i("obj", pid).s("ret", nm(q.RefEl())).i("deg", q.Degree())
                 .i("cont", cont(q)).i("fresh", cont(fresh)).v("held", all));
      } else if (op == "move") {
        // a moved cache keeps working
        auto n = std::make_unique<lq::QuadRuleCache>(std::move(*cache));
        cache = std::move(n);
        held.clear();
        emit(J().s("e", "move"));
      }
    }
  });
}
