// Driver for P28: writes vtk files with VtkWriter / WriteToFile and logs what
// has been requested. The files are read by bin/vtkread.py.
#include "meshio.h"
#include <lf/io/io.h>
#include <lf/io/vtk_writer.h>
#include <lf/mesh/utils/utils.h>
#include <map>

using namespace vf;
using lf::io::VtkFile;
using lf::io::VtkWriter;
namespace {
std::string dec(const std::string& s) {  // %20 -> blank
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      o += (char)std::stoi(s.substr(i + 1, 2), nullptr, 16);
      i += 2;
    } else {
      o += s[i];
    }
  }
  return o;
}
template <class T>
T val(const std::string& v, double sc) {
  if constexpr (std::is_floating_point_v<T>) return (T)(std::stod(v) / sc);
  else if constexpr (std::is_unsigned_v<T>) return (T)std::stoull(v);
  else return (T)std::stoll(v);
}
template <class T, int R>
Eigen::Matrix<T, R, 1> vec(const std::vector<std::string>& v, size_t i, int rows, double sc) {
  Eigen::Matrix<T, R, 1> x(rows);
  for (int r = 0; r < rows; ++r) x[r] = val<T>(v.at(i * rows + r), sc);
  return x;
}
/// values by index of the entity, optionally undefined
template <class T>
struct Set : lf::mesh::utils::MeshDataSet<T> {
  const Mesh* m;
  std::vector<T> v;
  std::vector<int> mask;
  const T& operator()(const Entity& e) const override {
    if (!DefinedOn(e)) throw std::runtime_error("undefined");
    return v.at(m->Index(e));
  }
  bool DefinedOn(const Entity& e) const override { return mask.at(m->Index(e)) != 0; }
};
/// x -> (a + b S x + c S y + d S z) / sc componentwise
template <class T>
struct Fn {
  double sc;
  int rows;
  std::vector<double> k;
  std::vector<T> operator()(const Entity& e, const Eigen::MatrixXd& local) const {
    const Eigen::MatrixXd x = e.Geometry()->Global(local);
    std::vector<T> r;
    for (int i = 0; i < x.cols(); ++i) {
      auto f = [&](int c) {
        double s = k[0] + c;
        for (int j = 0; j < x.rows(); ++j) s += (k[1 + j] + c) * x(j, i) * sc;
        return s;
      };
      if constexpr (std::is_floating_point_v<T>) r.push_back((T)(f(0) / sc));
      else if constexpr (std::is_same_v<T, char>) r.push_back((char)(std::llround(std::fabs(f(0))) % 97));
      else if constexpr (std::is_same_v<T, unsigned char>) r.push_back((unsigned char)(std::llround(std::fabs(f(0))) % 251));
      else if constexpr (std::is_same_v<T, unsigned>) r.push_back((unsigned)std::llround(std::fabs(f(0))));
      else if constexpr (std::is_same_v<T, int>) r.push_back((int)std::llround(f(0)));
      else {
        T v(rows);
        for (int c = 0; c < rows; ++c) v[c] = (typename T::Scalar)(f(c) / sc);
        r.push_back(v);
      }
    }
    return r;
  }
};
std::vector<std::string> words(std::istream& is) {
  std::vector<std::string> r;
  std::string w;
  while (is >> w) r.push_back(w);
  return r;
}
template <class T>
void scalar_set(VtkWriter& w, const Mesh& m, char kind, const std::string& name, const std::string& undef,
                const std::vector<int>& mask, const std::vector<std::string>& v, double sc) {
  Set<T> s;
  s.m = &m; s.mask = mask;
  for (auto& x : v) s.v.push_back(val<T>(x, sc));
  if (kind == 'p') w.WritePointData(name, s, val<T>(undef, sc));
  else w.WriteCellData(name, s, val<T>(undef, sc));
}
template <class T, int R>
void vector_set(VtkWriter& w, const Mesh& m, char kind, const std::string& name, const std::vector<std::string>& undef,
                const std::vector<int>& mask, const std::vector<std::string>& v, int rows, double sc) {
  using V = Eigen::Matrix<T, R, 1>;
  Set<V> s;
  s.m = &m; s.mask = mask;
  for (size_t i = 0; i < v.size() / rows; ++i) s.v.push_back(vec<T, R>(v, i, rows, sc));
  const V u = vec<T, R>(undef, 0, (int)undef.size(), sc);
  if (kind == 'p') w.WritePointData(name, s, u);
  else w.WriteCellData(name, s, u);
}
template <class T>
void fn_set(VtkWriter& w, char kind, const std::string& name, double sc, int rows, const std::vector<double>& k) {
  Fn<T> f{sc, rows, k};
  if (kind == 'p') w.WritePointData(name, f);
  else w.WriteCellData(name, f);
}
void geometry_json(J& j, const Mesh& m, double S) {
  std::vector<J> ge, gc;
  for (int cd : {1, 0})
    for (unsigned i = 0; i < m.NumEntities(cd); ++i) {
      const auto* g = m.EntityByIndex(cd, i)->Geometry();
      const bool two = dynamic_cast<const lf::geometry::SegmentO2*>(g) || dynamic_cast<const lf::geometry::TriaO2*>(g) ||
                       dynamic_cast<const lf::geometry::QuadO2*>(g);
      const Eigen::MatrixXd nc = g->RefEl().NodeCoords();
      std::vector<std::vector<ll>> n = zmat(g->Global(nc), S);
      if (two) {
        const int nv = nc.cols(), nm = nv == 2 ? 1 : nv;
        Eigen::MatrixXd mid(nc.rows(), nm);
        for (int s = 0; s < nm; ++s) mid.col(s) = (nc.col(s) + nc.col((s + 1) % nv)) / 2;
        for (auto& c : zmat(g->Global(mid), S)) n.push_back(c);
      }
      (cd == 1 ? ge : gc).push_back(J().i("k", two ? 2 : 1).i("nv", nc.cols()).v("n", n));
    }
  j.v("ge", ge).v("gc", gc);
}
template <class F>
bool accepted(const F& f) {
  try {
    f();
    return true;
  } catch (const lf::base::LfException&) {
    return false;
  }
}
}  // namespace

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& sc) {
    std::unique_ptr<Factory> fac;
    std::shared_ptr<Mesh> mesh;
    std::unique_ptr<VtkWriter> w;
    std::string path;
    int no = 0;
    double S = 1;
    unsigned order = 1, codim = 0;
    VtkFile raw;
    J rj;
    std::vector<J> rfd, rpd, rcd;
    for (const auto& l : sc.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "M") {
        int d, chk;
        is >> d >> chk >> S;
        fac = std::make_unique<Factory>(d, chk != 0, S);
        fac->log = false;
      } else if (fac && fac->line(l)) {
        if (op == "B") {
          mesh = fac->mesh;
          J j;
          j.s("e", "mesh");
          mesh_json(j, *mesh, S);
          geometry_json(j, *mesh, S);
          emit(j);
        }
      } else if (op == "open") {
        is >> codim >> order;
        path = std::string(argv[3]) + "/" + sc.name + "_" + std::to_string(no++) + ".vtk";
        w = std::make_unique<VtkWriter>(mesh, path, codim, order);
        emit(J().s("e", "open").i("codim", codim).i("order", order).s("sc", std::to_string((ll)(S * order * order * order))));
      } else if (op == "bin") {
        int b;
        is >> b;
        w->setBinary(b != 0);
        emit(J().s("e", "bin").t("b", b != 0));
      } else if (op == "gd") {  // gd type name sc values
        std::string type, name;
        double s;
        is >> type >> name >> s;
        name = dec(name);
        auto v = words(is);
        const bool ok = accepted([&] {
          auto put = [&](auto t) {
            std::vector<decltype(t)> d;
            for (auto& x : v) d.push_back(val<decltype(t)>(x, s));
            w->WriteGlobalData(name, d);
          };
          if (type == "int") put(int{});
          else if (type == "float") put(float{});
          else put(double{});
        });
        emit(J().s("e", "gd").s("type", type).s("name", name).s("sc", std::to_string((ll)s)).v("v", v).t("ok", ok));
      } else if (op == "md") {  // md p|c type name sc rows / undef / mask / values
        char kind;
        std::string type, name;
        double s;
        int rows;
        is >> kind >> type >> name >> s >> rows;
        name = dec(name);
        int n;
        is >> n;
        std::vector<std::string> undef(n);
        for (auto& x : undef) is >> x;
        is >> n;
        std::vector<int> mask(n);
        for (auto& x : mask) is >> x;
        auto v = words(is);
        const bool ok = accepted([&] {
          if (type == "char") scalar_set<char>(*w, *mesh, kind, name, undef[0], mask, v, s);
          else if (type == "uchar") scalar_set<unsigned char>(*w, *mesh, kind, name, undef[0], mask, v, s);
          else if (type == "int") scalar_set<int>(*w, *mesh, kind, name, undef[0], mask, v, s);
          else if (type == "uint") scalar_set<unsigned>(*w, *mesh, kind, name, undef[0], mask, v, s);
          else if (type == "float") scalar_set<float>(*w, *mesh, kind, name, undef[0], mask, v, s);
          else if (type == "double") scalar_set<double>(*w, *mesh, kind, name, undef[0], mask, v, s);
          else if (type == "v2f") vector_set<float, 2>(*w, *mesh, kind, name, undef, mask, v, rows, s);
          else if (type == "v2d") vector_set<double, 2>(*w, *mesh, kind, name, undef, mask, v, rows, s);
          else if (type == "v3f") vector_set<float, 3>(*w, *mesh, kind, name, undef, mask, v, rows, s);
          else if (type == "v3d") vector_set<double, 3>(*w, *mesh, kind, name, undef, mask, v, rows, s);
          else if (type == "vXf") vector_set<float, -1>(*w, *mesh, kind, name, undef, mask, v, rows, s);
          else if (type == "vXd") vector_set<double, -1>(*w, *mesh, kind, name, undef, mask, v, rows, s);
        });
        emit(J().s("e", "md").s("kind", std::string(1, kind)).s("type", type).s("name", name).s("sc", std::to_string((ll)s))
                .i("rows", rows).v("undef", undef).v("mask", mask).v("v", v).t("ok", ok));
      } else if (op == "mf") {  // mf p|c type name rows a b c d
        char kind;
        std::string type, name;
        int rows;
        is >> kind >> type >> name >> rows;
        name = dec(name);
        std::vector<double> k(4);
        std::vector<ll> ki;
        for (auto& x : k) { is >> x; ki.push_back((ll)x); }
        const double s = kind == 'p' ? S * order * order * order : S * 72;
        const bool ok = accepted([&] {
          if (type == "char") fn_set<char>(*w, kind, name, s, rows, k);
          else if (type == "uchar") fn_set<unsigned char>(*w, kind, name, s, rows, k);
          else if (type == "int") fn_set<int>(*w, kind, name, s, rows, k);
          else if (type == "uint") fn_set<unsigned>(*w, kind, name, s, rows, k);
          else if (type == "float") fn_set<float>(*w, kind, name, s, rows, k);
          else if (type == "double") fn_set<double>(*w, kind, name, s, rows, k);
          else if (type == "v2f") fn_set<Eigen::Vector2f>(*w, kind, name, s, rows, k);
          else if (type == "v2d") fn_set<Eigen::Vector2d>(*w, kind, name, s, rows, k);
          else if (type == "v3f") fn_set<Eigen::Vector3f>(*w, kind, name, s, rows, k);
          else if (type == "v3d") fn_set<Eigen::Vector3d>(*w, kind, name, s, rows, k);
          else if (type == "vXf") fn_set<Eigen::VectorXf>(*w, kind, name, s, rows, k);
          else if (type == "vXd") fn_set<Eigen::VectorXd>(*w, kind, name, s, rows, k);
        });
        emit(J().s("e", "mf").s("kind", std::string(1, kind)).s("type", type).s("name", name).s("sc", std::to_string((ll)s))
                .i("rows", rows).v("k", ki).t("ok", ok));
      } else if (op == "close") {
        w.reset();
        emit(J().s("e", "close").s("path", path));
      } else if (op == "raw") {  // raw ascii|binary header
        std::string f, h;
        is >> f >> h;
        raw = VtkFile{};
        rj = J();
        rfd.clear(); rpd.clear(); rcd.clear();
        raw.header = dec(h);
        raw.format = f == "binary" ? VtkFile::Format::BINARY : VtkFile::Format::ASCII;
        rj.s("e", "raw").t("binary", f == "binary").s("title", raw.header);
        rj.t("nl", raw.header.find('\n') != std::string::npos).i("hlen", (ll)raw.header.size());
      } else if (op == "rp") {  // rp sc coordinates
        double s;
        is >> s;
        auto v = words(is);
        for (size_t i = 0; i < v.size() / 3; ++i) raw.unstructured_grid.points.push_back(vec<float, 3>(v, i, 3, s));
        std::vector<std::vector<ll>> p;
        for (size_t i = 0; i < v.size() / 3; ++i) p.push_back({std::stoll(v[3 * i]), std::stoll(v[3 * i + 1]), std::stoll(v[3 * i + 2])});
        rj.s("sc", std::to_string((ll)s)).v("pts", p);
      } else if (op == "rc") {  // rc n cells (n indices...) / m types
        int n;
        is >> n;
        for (int i = 0; i < n; ++i) {
          int k;
          is >> k;
          std::vector<unsigned> c(k);
          for (auto& x : c) is >> x;
          raw.unstructured_grid.cells.push_back(c);
        }
        auto t = words(is);
        std::vector<int> types;
        for (auto& x : t) {
          types.push_back(std::stoi(x));
          raw.unstructured_grid.cell_types.push_back((VtkFile::CellType)std::stoi(x));
        }
        rj.v("cells", raw.unstructured_grid.cells).v("types", types);
      } else if (op == "rf" || op == "rd") {  // rf type name sc values; rd p|c type name table sc values
        char kind = 'g';
        std::string type, name, tab;
        double s;
        if (op == "rd") is >> kind;
        is >> type >> name;
        if (op == "rd") is >> tab;
        is >> s;
        auto v = words(is);
        auto& at = kind == 'p' ? raw.point_data : raw.cell_data;
        auto put = [&](auto t) {
          using T = decltype(t);
          std::vector<T> d;
          for (auto& x : v) d.push_back(val<T>(x, s));
          if (kind != 'g') {
            at.push_back(VtkFile::ScalarData<T>(name, d, tab));
          } else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, float> || std::is_same_v<T, double>) {
            raw.field_data.push_back(VtkFile::FieldDataArray<T>(name, d));
          }
        };
        auto putv = [&](auto t) {
          using T = decltype(t);
          std::vector<Eigen::Matrix<T, 3, 1>> d;
          for (size_t i = 0; i < v.size() / 3; ++i) d.push_back(vec<T, 3>(v, i, 3, s));
          at.push_back(VtkFile::VectorData<T>(name, d));
        };
        if (type == "char") put(char{});
        else if (type == "uchar") put((unsigned char)0);
        else if (type == "short") put(short{});
        else if (type == "ushort") put((unsigned short)0);
        else if (type == "int") put(int{});
        else if (type == "uint") put(unsigned{});
        else if (type == "long") put(long{});
        else if (type == "ulong") put((unsigned long)0);
        else if (type == "float") put(float{});
        else if (type == "double") put(double{});
        else if (type == "v3f") putv(float{});
        else if (type == "v3d") putv(double{});
        (kind == 'g' ? rfd : kind == 'p' ? rpd : rcd)
            .push_back(J().s("type", type).s("name", name).s("sc", std::to_string((ll)s)).s("tab", tab).v("v", v));
      } else if (op == "rw") {
        path = std::string(argv[3]) + "/" + sc.name + "_" + std::to_string(no++) + ".vtk";
        const bool ok = accepted([&] { lf::io::WriteToFile(raw, path); });
        rj.v("fd", rfd).v("pd", rpd).v("cd", rcd).t("ok", ok).s("path", path);
        emit(rj);
      }
    }
  });
}
