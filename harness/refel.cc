// Driver for P30: all queries of all reference elements.
#include "meshio.h"
#include <fmt/format.h>
using namespace vf;
using lf::base::RefElType;

template <RefElType T>
static std::vector<std::vector<ll>> stat() {
  std::vector<std::vector<ll>> o;
  for (const auto& c : RefEl::NodeCoords<T>()) {
    std::vector<ll> v;
    for (int i = 0; i < c.size(); ++i) v.push_back(Z(c[i], 1));
    o.push_back(v);
  }
  return o;
}

int main(int argc, char** argv) {
  const std::vector<RefEl> all{RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  return drive(argc, argv, [&](const Scenario& s) {
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op; int k; is >> op >> k;
      const RefEl r = all[k];
      if (op == "ref") {
        std::vector<ll> ns, eq;
        std::vector<std::vector<ll>> st;
        std::vector<std::vector<std::vector<std::vector<ll>>>> ss;
        for (unsigned c = 0; c <= r.Dimension(); ++c) {
          ns.push_back(r.NumSubEntities(c));
          std::vector<ll> t;
          std::vector<std::vector<std::vector<ll>>> sc;
          for (unsigned i = 0; i < r.NumSubEntities(c); ++i) {
            const RefEl sub = r.SubType(c, i);
            t.push_back(sub.Id());
            std::vector<std::vector<ll>> si;
            for (unsigned rc = 0; rc <= sub.Dimension(); ++rc) {
              std::vector<ll> x;
              for (unsigned ri = 0; ri < sub.NumSubEntities(rc); ++ri) x.push_back(r.SubSubEntity2SubEntity(c, i, rc, ri));
              si.push_back(x);
            }
            sc.push_back(si);
          }
          st.push_back(t);
          ss.push_back(sc);
        }
        for (const auto& o : all) eq.push_back(o == r);
        RefEl copy(r), asg(RefEl::kPoint());
        asg = r;
        std::ostringstream os;
        os << r;
        std::vector<ll> ids, pn;
        for (const auto& o : all) ids.push_back(o.Id());
        std::vector<std::vector<std::vector<ll>>> ps;
        for (int lev : {0, 5, 15, 25}) {
          std::ostringstream o;
          lf::base::PrintInfo(o, r, lev);
          const std::string t = o.str();
          ll n = 0;
          for (size_t q = t.find("Subentity"); q != std::string::npos; q = t.find("Subentity", q + 1)) ++n;
          pn.push_back(n);
          std::vector<std::vector<ll>> cs;
          for (size_t q = t.find('['); q != std::string::npos; q = t.find('[', q + 1)) {
            std::istringstream c(t.substr(q + 1, t.find(']', q) - q - 1));
            std::vector<ll> v; double x;
            while (c >> x) v.push_back(Z(x, 1));
            cs.push_back(v);
          }
          ps.push_back(cs);
        }
        emit(J().s("e", "ref").v("ids", ids).v("pn", pn).v("ps", ps).i("k", k).i("id", r.Id()).i("dim", r.Dimension()).i("nn", r.NumNodes())
                 .s("name", r.ToString()).s("str", os.str()).s("fmt", fmt::format("{}", r))
                 .v("ns", ns).v("st", st).v("ss", ss).v("eq", eq)
                 .t("cp", copy == r && asg == r && RefEl(RefElType(r)) == r)
                 .v("xd", zmat(r.NodeCoords(), 1)).i("rows", r.NodeCoords().rows())
                 .v("xs", k == 0 ? stat<RefElType::kPoint>() : k == 1 ? stat<RefElType::kSegment>()
                        : k == 2 ? stat<RefElType::kTria>() : stat<RefElType::kQuad>()));
      } else {  // out of range: must not be answered
        std::vector<ll> a; ll x;
        while (is >> x) a.push_back(x);
        emit(J().s("e", "try").i("k", k).s("q", op).v("a", a));
        ll v = -1;
        if (op == "num") v = r.NumSubEntities(a[0]);
        if (op == "sub") { const RefEl q = r.SubType(a[0], a[1]); for (int o = 0; o < 4; ++o) if (all[o] == q) v = o; }
        if (op == "subsub") v = r.SubSubEntity2SubEntity(a[0], a[1], a[2], a[3]);
        emit(J().s("e", "val").i("v", v));
      }
    }
  });
}
