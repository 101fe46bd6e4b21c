// Driver for P24: mesh functions under arithmetic. Operands are functions of the
// entity and the local point given by small integer parameters; every case builds
// an expression together with its description and logs the values it returns.
#include "meshio.h"
#include <lf/mesh/utils/utils.h>
#include <complex>
#include <map>
#include <memory>
using namespace vf;
namespace mu = lf::mesh::utils;
using cplx = std::complex<double>;
constexpr int Dyn = Eigen::Dynamic;

// a type of the user, with a product that does not commute
struct Aff {
  int a = 0, b = 0;
  Aff operator+(const Aff& o) const { return {a + o.a, b + o.b}; }
  Aff operator-(const Aff& o) const { return {a - o.a, b - o.b}; }
  Aff operator*(const Aff& o) const { return {a * o.a, a * o.b + b}; }
  Aff operator-() const { return {-a, -b}; }
};

struct Par { int a, b, c, d, e, r, k; };  // parameters of an operand, size of dynamic ones
static int coef(const Par& p, int ent, int x, int y, int comp, int part) {
  return (p.a + p.e * ent + p.b * x + p.c * y + p.d * comp + 5 * part) % 7 - 3;
}

template <class T> struct Tr;
template <> struct Tr<double> {
  static constexpr char kind = 's'; static constexpr int R = 1, C = 1;
  static double make(int, int, const std::function<int(int, int, int)>& f) { return f(0, 0, 0); }
};
template <> struct Tr<int> {
  static constexpr char kind = 's'; static constexpr int R = 1, C = 1;
  static int make(int, int, const std::function<int(int, int, int)>& f) { return f(0, 0, 0); }
};
template <> struct Tr<cplx> {
  static constexpr char kind = 's'; static constexpr int R = 1, C = 1;
  static cplx make(int, int, const std::function<int(int, int, int)>& f) { return {(double)f(0, 0, 0), (double)f(0, 0, 1)}; }
};
template <> struct Tr<Aff> {
  static constexpr char kind = 'u'; static constexpr int R = 1, C = 2;
  static Aff make(int, int, const std::function<int(int, int, int)>& f) { return {f(0, 0, 0), f(0, 1, 0)}; }
};
template <class M, class S> M fill(int r, int c, const std::function<int(int, int, int)>& f) {
  M m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = Tr<S>::make(1, 1, [&](int, int, int p) { return f(i, j, p); });
  return m;
}
template <class S, int R_, int C_, int O, int A, int B> struct Tr<Eigen::Matrix<S, R_, C_, O, A, B>> {
  static constexpr char kind = 'm'; static constexpr int R = R_, C = C_;
  static auto make(int r, int c, const std::function<int(int, int, int)>& f) {
    if constexpr (R == 1 && C == 1) return fill<Eigen::Matrix<S, R_, C_, O, A, B>, S>(1, 1, f);
    else { Eigen::Matrix<S, R_, C_, O, A, B> m; m = fill<Eigen::Matrix<S, Dyn, Dyn>, S>(r, c, f); return m; }
  }
};
template <class S, int R_, int C_, int O, int A, int B> struct Tr<Eigen::Array<S, R_, C_, O, A, B>> {
  static constexpr char kind = 'a'; static constexpr int R = R_, C = C_;
  static auto make(int r, int c, const std::function<int(int, int, int)>& f) {
    Eigen::Array<S, R_, C_, O, A, B> m; m = fill<Eigen::Array<S, Dyn, Dyn>, S>(r, c, f); return m;
  }
};
template <class T> struct CplxOf { static constexpr bool v = false; };
template <> struct CplxOf<cplx> { static constexpr bool v = true; };
template <class T> constexpr bool is_cplx() {
  if constexpr (Tr<T>::kind == 'm' || Tr<T>::kind == 'a') return CplxOf<typename T::Scalar>::v; else return CplxOf<T>::v;
}

// ---- values -> log
static std::string num(double x) { return std::to_string(Z(x, 1)); }
static std::string num1(double x) { return "[" + num(x) + ",0]"; }
static std::string num1(int x) { return num1((double)x); }
static std::string num1(float x) { return num1((double)x); }
static std::string num1(const cplx& x) { return "[" + num(x.real()) + "," + num(x.imag()) + "]"; }
template <class T> std::string val(const T& v) {
  if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, cplx>) return "{\"k\":\"s\",\"r\":1,\"c\":1,\"x\":[" + num1(v) + "]}";
  else if constexpr (std::is_same_v<T, Aff>) return "{\"k\":\"u\",\"r\":1,\"c\":2,\"x\":[" + num1(v.a) + "," + num1(v.b) + "]}";
  else {
    std::string o = std::string("{\"k\":\"") + Tr<T>::kind + "\",\"r\":" + std::to_string(v.rows()) + ",\"c\":" + std::to_string(v.cols()) + ",\"x\":[";
    for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) o += (i + j ? "," : "") + num1(v(i, j));
    return o + "]}";
  }
}

// ---- operands
static int lat(double x, int s) { return (int)std::lround(x * s); }
template <class T> struct Leaf {
  const Mesh* m; Par p;
  std::vector<T> operator()(const Entity& e, const Eigen::MatrixXd& local) const {
    std::vector<T> o;
    const int ent = (int)m->Index(e) + 3 * e.Codim();
    for (int q = 0; q < local.cols(); ++q) {
      const int x = local.rows() > 0 ? lat(local(0, q), 4) : 0, y = local.rows() > 1 ? lat(local(1, q), 4) : 0;
      o.push_back(Tr<T>::make(p.r, p.k, [&](int i, int j, int part) { return coef(p, ent, x, y, 3 * i + j, part); }));
    }
    return o;
  }
};
template <class MF> struct X { MF f; std::string d; };
template <class MF> X(MF, std::string) -> X<MF>;
static std::string pd(const char* w, const Par& p, char k, int r, int c, bool z) {
  return std::string("{\"op\":\"") + w + "\",\"p\":[" + std::to_string(p.a) + "," + std::to_string(p.b) + "," + std::to_string(p.c) + "," +
         std::to_string(p.d) + "," + std::to_string(p.e) + "],\"k\":\"" + k + "\",\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + ",\"z\":" + (z ? "1" : "0") + "}";
}
static std::string un(const char* o, const std::string& a) { return std::string("{\"op\":\"") + o + "\",\"a\":" + a + "}"; }
static std::string bi(const char* o, const std::string& a, const std::string& b) { return std::string("{\"op\":\"") + o + "\",\"a\":" + a + ",\"b\":" + b + "}"; }
template <class A, class B> auto operator+(const X<A>& a, const X<B>& b) { using mu::operator+; return X(a.f + b.f, bi("add", a.d, b.d)); }
template <class A, class B> auto operator-(const X<A>& a, const X<B>& b) { using mu::operator-; return X(a.f - b.f, bi("sub", a.d, b.d)); }
template <class A, class B> auto operator*(const X<A>& a, const X<B>& b) { using mu::operator*; return X(a.f * b.f, bi("mul", a.d, b.d)); }
template <class A> auto operator-(const X<A>& a) { using mu::operator-; return X(-a.f, un("neg", a.d)); }
template <class A> auto sq(const X<A>& a) { return X(mu::squaredNorm(a.f), un("sq", a.d)); }
template <class A> auto tr(const X<A>& a) { return X(mu::transpose(a.f), un("tr", a.d)); }
template <class A> auto adj(const X<A>& a) { return X(mu::adjoint(a.f), un("adj", a.d)); }
template <class A> auto cj(const X<A>& a) { return X(mu::conjugate(a.f), un("conj", a.d)); }

struct In {
  const Mesh* mesh; const Entity* e; Eigen::MatrixXd pts; Par p, q, s;
};
template <class T> auto leaf(const In& in, Par p) {
  if (Tr<T>::R != Dyn) p.r = Tr<T>::R;
  if (Tr<T>::C != Dyn) p.k = Tr<T>::C;
  return X(Leaf<T>{in.mesh, p}, pd("leaf", p, Tr<T>::kind, p.r, p.k, is_cplx<T>()));
}
template <class T> auto konst(const In&, Par p) {
  if (Tr<T>::R != Dyn) p.r = Tr<T>::R;
  if (Tr<T>::C != Dyn) p.k = Tr<T>::C;
  return X(mu::MeshFunctionConstant<T>(Tr<T>::make(p.r, p.k, [&](int i, int j, int part) { return coef(p, 0, 0, 0, 3 * i + j, part); })),
           pd("const", p, Tr<T>::kind, p.r, p.k, is_cplx<T>()));
}
template <class T> auto global(const In&, Par p) {
  if (Tr<T>::R != Dyn) p.r = Tr<T>::R;
  if (Tr<T>::C != Dyn) p.k = Tr<T>::C;
  auto f = [p](const Eigen::Vector2d& x) -> T {
    return Tr<T>::make(p.r, p.k, [&](int i, int j, int part) { return coef(p, 0, lat(x[0], 16) + 70000, lat(x[1], 16) + 70000, 3 * i + j, part); });
  };
  return X(mu::MeshFunctionGlobal(f), pd("glob", p, Tr<T>::kind, p.r, p.k, is_cplx<T>()));
}
inline std::string pre;
template <class F> void show(const In& in, const X<F>& x) {
  const F copy = x.f;  // mesh functions are values
  const auto v = copy(*in.e, in.pts);
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + val(v[i]);
  std::string s = pre + ",\"ex\":" + x.d + ",\"v\":" + o + "]}\n";
  fwrite(s.data(), 1, s.size(), out());
}

using Case = std::function<void(const In&)>;
inline std::vector<Case> cases;
template <class T> void unary() {
  cases.push_back([](const In& in) { show(in, leaf<T>(in, in.p)); });
  cases.push_back([](const In& in) { show(in, konst<T>(in, in.p)); });
  cases.push_back([](const In& in) { show(in, global<T>(in, in.p)); });
  cases.push_back([](const In& in) { show(in, -leaf<T>(in, in.p)); });
  cases.push_back([](const In& in) { show(in, global<T>(in, in.p) + (-konst<T>(in, in.p))); });
  if constexpr (Tr<T>::kind == 'm' || Tr<T>::kind == 's') cases.push_back([](const In& in) { show(in, sq(leaf<T>(in, in.p))); });
  if constexpr (Tr<T>::kind == 'm' || Tr<T>::kind == 'a') {
    cases.push_back([](const In& in) { show(in, tr(leaf<T>(in, in.p))); });
    cases.push_back([](const In& in) { show(in, -tr(leaf<T>(in, in.p))); });
  }
  if constexpr (Tr<T>::kind == 'm') {
    cases.push_back([](const In& in) { show(in, adj(leaf<T>(in, in.p))); });
    cases.push_back([](const In& in) { show(in, adj(leaf<T>(in, in.p)) * leaf<T>(in, in.p)); });
    cases.push_back([](const In& in) { show(in, sq(adj(leaf<T>(in, in.p)))); });
  }
  if constexpr (Tr<T>::kind != 'u') {
    cases.push_back([](const In& in) { show(in, cj(leaf<T>(in, in.p))); });
    cases.push_back([](const In& in) { show(in, cj(leaf<T>(in, in.p)) - leaf<T>(in, in.p)); });
  }
}
// sizes of the operands: fixed ones, else that of the other one, else the parameter
constexpr int pick(int a, int b) { return a != Dyn ? a : b; }
constexpr bool fits(int a, int b) { return a == Dyn || b == Dyn || a == b; }
template <class A, class B> void binary() {
  using TA = Tr<A>; using TB = Tr<B>;
  if constexpr (TA::kind == TB::kind && TA::kind != 's' && TA::kind != 'u') {
    if constexpr (fits(TA::R, TB::R) && fits(TA::C, TB::C)) {
      auto pp = [](const In& in) {
        In j = in;
        if (pick(TA::R, TB::R) != Dyn) j.p.r = pick(TA::R, TB::R);
        if (pick(TA::C, TB::C) != Dyn) j.p.k = pick(TA::C, TB::C);
        j.q.r = j.s.r = j.p.r; j.q.k = j.s.k = j.p.k;
        return j;
      };
      cases.push_back([pp](const In& i0) { In in = pp(i0); show(in, leaf<A>(in, in.p) + leaf<B>(in, in.q)); });
      cases.push_back([pp](const In& i0) { In in = pp(i0); show(in, leaf<A>(in, in.p) - leaf<B>(in, in.q)); });
      cases.push_back([pp](const In& i0) { In in = pp(i0); show(in, (leaf<A>(in, in.p) + global<B>(in, in.q)) - leaf<A>(in, in.s)); });
      if constexpr (TA::kind == 'a') cases.push_back([pp](const In& i0) { In in = pp(i0); show(in, leaf<A>(in, in.p) * leaf<B>(in, in.q)); });
    }
    if constexpr (TA::kind == 'm' && fits(TA::C, TB::R)) {
      cases.push_back([](const In& i0) {
        In in = i0;
        if (pick(TA::C, TB::R) != Dyn) in.p.k = pick(TA::C, TB::R);
        in.q.r = in.p.k;
        show(in, leaf<A>(in, in.p) * leaf<B>(in, in.q));
      });
    }
  } else if constexpr (TA::kind == 's' && TB::kind == 's') {
    cases.push_back([](const In& in) { show(in, leaf<A>(in, in.p) + leaf<B>(in, in.q)); });
    cases.push_back([](const In& in) { show(in, leaf<A>(in, in.p) - leaf<B>(in, in.q)); });
    cases.push_back([](const In& in) { show(in, leaf<A>(in, in.p) * leaf<B>(in, in.q)); });
    cases.push_back([](const In& in) { show(in, (global<A>(in, in.p) - leaf<B>(in, in.q)) * (leaf<B>(in, in.q) + konst<A>(in, in.s))); });
    cases.push_back([](const In& in) { show(in, sq(leaf<A>(in, in.p) * leaf<B>(in, in.q))); });
  } else if constexpr (TA::kind == 's') {
    cases.push_back([](const In& in) { show(in, leaf<A>(in, in.p) * leaf<B>(in, in.q)); });
    cases.push_back([](const In& in) { show(in, leaf<B>(in, in.q) * leaf<A>(in, in.p)); });
    cases.push_back([](const In& in) { show(in, -(konst<A>(in, in.p) * global<B>(in, in.q))); });
  }
}
template <class A, class... Bs> void row() { (binary<A, Bs>(), ...); }
template <class... Ts> struct List {
  template <int K, int N> static void all() {
    if constexpr (K < N) {
      using T = std::tuple_element_t<K, std::tuple<Ts...>>;
      unary<T>(); row<T, Ts...>();
      all<K + 1, N>();
    }
  }
  template <class A> static void left() { row<A, Ts...>(); }
};

using M = List<Eigen::Vector2d, Eigen::RowVector3d, Eigen::Matrix<double, 2, 3>, Eigen::Matrix2d, Eigen::Matrix<double, 2, 2, Eigen::RowMajor>,
               Eigen::Matrix<double, 3, 2, Eigen::RowMajor>, Eigen::Vector2cd, Eigen::Matrix2cd, Eigen::VectorXd, Eigen::MatrixXd, Eigen::MatrixXcd,
               Eigen::Matrix<double, 2, Dyn>, Eigen::RowVectorXd, Eigen::Matrix<double, 1, 1>>;
using A = List<Eigen::Array22d, Eigen::Array<double, 2, 2, Eigen::RowMajor>, Eigen::Array<double, 2, 1>, Eigen::ArrayXXd, Eigen::ArrayXd, Eigen::Array22cd>;
using S = List<double, cplx>;

// the cases, in pieces that are compiled separately
void reg0(); void reg1(); void reg2(); void reg3(); void reg4(); void reg5();
#if PART == 1
void reg1() { M::all<0, 5>(); }
#elif PART == 2
void reg2() { M::all<5, 9>(); }
#elif PART == 3
void reg3() { M::all<9, 12>(); }
#elif PART == 4
void reg4() { M::all<12, 14>(); M::left<double>(); }
#elif PART == 5
void reg5() { A::all<0, 6>(); M::left<cplx>(); }
#else
void reg0() {
  S::all<0, 2>();
  A::left<double>(); A::left<cplx>();
  unary<int>(); binary<int, int>();
  unary<Aff>();
  cases.push_back([](const In& in) { show(in, leaf<Aff>(in, in.p) * leaf<Aff>(in, in.q)); });
  cases.push_back([](const In& in) { show(in, leaf<Aff>(in, in.p) + leaf<Aff>(in, in.q)); });
  cases.push_back([](const In& in) { show(in, leaf<Aff>(in, in.p) - leaf<Aff>(in, in.q) * global<Aff>(in, in.s)); });
}
int main(int argc, char** argv) {
  reg0(); reg1(); reg2(); reg3(); reg4(); reg5();
  if (argc == 2) { std::cout << cases.size() << std::endl; return 0; }
  return drive(argc, argv, [](const Scenario& sc) {
    Factory fac;
    std::shared_ptr<Mesh> mesh;
    for (auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, c; is >> d >> c;
        fac = Factory(d, c != 0);
        fac.log = false;
      } else if (fac.line(l)) {
        if (op == "B") {
          mesh = fac.mesh;
          J j; j.s("e", "mesh"); mesh_json(j, *mesh, 1); emit(j);
        }
      } else if (op == "ev") {
        // ev case codim index n (x y)* 7 parameters for each of three operands
        In in; int k, cd; unsigned ix, n;
        is >> k >> cd >> ix >> n;
        in.mesh = mesh.get();
        in.e = mesh->EntityByIndex(cd, ix % mesh->NumEntities(cd));
        in.pts = Eigen::MatrixXd(2 - cd, n);
        std::vector<std::vector<ll>> pts;
        const bool tria = in.e->RefEl() == RefEl::kTria();
        for (unsigned q = 0; q < n; ++q) {
          int x, y; is >> x >> y;
          if (tria && x + y > 4) { x = 4 - x; y = 4 - y; }
          if (cd < 2) in.pts(0, q) = x / 4.; else x = 0;
          if (cd < 1) in.pts(1, q) = y / 4.; else y = 0;
          pts.push_back({x, y});
        }
        for (Par* p : {&in.p, &in.q, &in.s}) is >> p->a >> p->b >> p->c >> p->d >> p->e >> p->r >> p->k;
        J j; j.s("e", "ev").i("cd", cd).i("ix", mesh->Index(*in.e)).v("pts", pts).i("case", k % cases.size());
        pre = j.b;
        cases[k % cases.size()](in);
      }
    }
  });
}
#endif
