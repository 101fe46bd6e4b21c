// Driver for P01, P02, P03: mesh factory and built meshes.
#include "meshio.h"
using namespace vf;

static std::vector<std::shared_ptr<Mesh>> keep;  // earlier meshes of the scenario

static void log_mesh(const Mesh& m, double S, int dw) {
  J j;
  j.s("e", "mesh");
  mesh_json(j, m, S);
  std::vector<ll> nb, nt;
  for (int c = 0; c < 3; ++c) nb.push_back(m.NumEntities(c));
  for (auto r : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) nt.push_back(m.NumEntities(r));
  std::vector<std::vector<ll>> ix(3), en(3), re(3);
  bool own = true, self = true, foreign = false, codim = true, eq = true;
  for (unsigned c = 0; c < 3; ++c) {
    const Entity* prev = nullptr;
    for (unsigned i = 0; i < m.NumEntities(c); ++i) {
      const Entity* e = m.EntityByIndex(c, i);
      ix[c].push_back(m.Index(*e));
      re[c].push_back(e->RefEl().NumNodes());
      own &= m.Contains(*e);
      auto s = e->SubEntities(0);
      self &= s.size() == 1 && s[0] == e;
      codim &= e->Codim() == c;
      eq &= (*e == *e) && (prev == nullptr || (*prev != *e));
      for (auto& o : keep) foreign |= o->Contains(*e);
      prev = e;
    }
    for (const Entity* e : m.Entities(c)) en[c].push_back(m.Index(*e));
  }
  std::vector<std::vector<ll>> eo;
  for (const Entity* e : m.Entities(1)) {
    eo.emplace_back();
    for (auto o : e->RelativeOrientations()) eo.back().push_back(lf::mesh::to_sign(o));
  }
  j.v("eo", eo);
  j.v("nb", nb).v("nt", nt).v("ix", ix).v("en", en).v("ret", re);
  j.t("own", own).t("foreign", foreign).t("self", self).t("codim", codim).t("eq", eq);
  j.v("dims", std::vector<ll>{(ll)m.DimMesh(), (ll)m.DimWorld()}).i("dw", dw);
  emit(j);
}

int main(int argc, char** argv) {
  const bool withgeo = argc > 3 && std::string(argv[3]) == "geo";
  const bool tries = argc > 3 && std::string(argv[3]) == "try";
  return drive(argc, argv, [&](const Scenario& s) {
    keep.clear();
    std::unique_ptr<Factory> f;
    double U = 1;  // script coordinate = U * coordinate
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "unit") { int k; is >> k; U = std::ldexp(1., -k); continue; }
      if (op == "BIG") {
        // BIG nx ny a b m K i j i j ...: grid whose node (i,j) has number (a * (i * (ny+1) + j) + b) mod N;
        // square (i,j) is split into two triangles if m > 0 and i % m = 0; K edges of the first row are
        // registered in reverse direction. Only the squares listed are logged.
        ll nx, ny, a, b, mm, K; is >> nx >> ny >> a >> b >> mm >> K;
        const ll NN = (nx + 1) * (ny + 1);
        auto num = [&](ll i, ll j) { return (unsigned)((a * (i * (ny + 1) + j) + b) % NN); };
        lf::mesh::hybrid2d::MeshFactory mf(2);
        std::vector<std::pair<ll, ll>> pos(NN);
        for (ll i = 0; i <= nx; ++i) for (ll j = 0; j <= ny; ++j) pos[num(i, j)] = {i, j};
        bool cons = true;  // numbers returned are consecutive
        for (ll k = 0; k < NN; ++k) cons &= (ll)mf.AddPoint(Eigen::Vector2d(pos[k].first, pos[k].second)) == k;
        using V = std::vector<unsigned>;
        for (ll i = 0; i < K; ++i) cons &= (ll)mf.AddEntity(RefEl::kSegment(), V{num(i + 1, 0), num(i, 0)}, nullptr) == i;
        ll nc = 0;
        for (ll j = 0; j < ny; ++j)
          for (ll i = 0; i < nx; ++i) {
            if (mm > 0 && i % mm == 0) {
              cons &= (ll)mf.AddEntity(RefEl::kTria(), V{num(i, j), num(i + 1, j), num(i + 1, j + 1)}, nullptr) == nc++;
              cons &= (ll)mf.AddEntity(RefEl::kTria(), V{num(i, j), num(i + 1, j + 1), num(i, j + 1)}, nullptr) == nc++;
            } else {
              cons &= (ll)mf.AddEntity(RefEl::kQuad(), V{num(i, j), num(i + 1, j), num(i + 1, j + 1), num(i, j + 1)}, nullptr) == nc++;
            }
          }
        auto m = mf.Build();
        std::vector<ll> nb;
        for (int c = 0; c < 3; ++c) nb.push_back(m->NumEntities(c));
        for (auto r : {RefEl::kTria(), RefEl::kQuad()}) nb.push_back(m->NumEntities(r));
        bool bij = true;
        for (unsigned c = 0; c < 3; ++c)
          for (unsigned i = 0; i < m->NumEntities(c); ++i) { const Entity* e = m->EntityByIndex(c, i); bij &= m->Index(*e) == i && e->Codim() == c; }
        std::vector<std::pair<unsigned, unsigned>> ends;
        for (const Entity* e : m->Entities(1)) {
          auto n = e->SubEntities(1);
          unsigned x = m->Index(*n[0]), y = m->Index(*n[1]);
          ends.emplace_back(std::min(x, y), std::max(x, y));
        }
        std::sort(ends.begin(), ends.end());
        ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
        J j;
        j.s("e", "big").v("g", std::vector<ll>{nx, ny, a, b, mm, K}).v("nb", nb).t("bij", bij).t("cons", cons).i("pairs", ends.size());
        std::string arr;
        for (ll i, q; is >> i >> q;) {
          const ll row = mm > 0 ? nx + (nx + mm - 1) / mm : nx;
          const ll first = q * row + i + (mm > 0 ? (i + mm - 1) / mm : 0);
          for (ll c = first; c < first + (mm > 0 && i % mm == 0 ? 2 : 1); ++c) {
            const Entity* e = m->EntityByIndex(0, c);
            std::vector<ll> v, ed, o;
            std::vector<std::vector<ll>> en;
            for (const Entity* x : e->SubEntities(2)) v.push_back(m->Index(*x));
            for (const Entity* x : e->SubEntities(1)) {
              ed.push_back(m->Index(*x));
              auto n = x->SubEntities(1);
              en.push_back({(ll)m->Index(*n[0]), (ll)m->Index(*n[1])});
            }
            for (auto x : e->RelativeOrientations()) o.push_back(lf::mesh::to_sign(x));
            arr += (arr.empty() ? "" : ",") + J().i("i", i).i("j", q).i("c", c - first).v("v", v).v("ed", ed).v("en", en).v("o", o).str();
          }
        }
        j.raw("smp", "[" + arr + "]");
        emit(j);
        continue;
      }
      if (op == "M") {
        int dw, chk; is >> dw >> chk;
        f = std::make_unique<Factory>(dw, chk != 0, U);
        emit(J().s("e", "conf").t("check", chk != 0));
        continue;
      }
      if (tries) {
        std::vector<ll> n;
        if (op == "X") {  // raw AddEntity with any number of nodes: X <type> n...
          std::string ty; is >> ty;
          ll x; while (is >> x) n.push_back(x);
          emit(J().s("e", "try").s("op", ty).v("n", n));
          std::vector<unsigned> un(n.begin(), n.end());
          RefEl re = ty == "E" ? RefEl::kSegment() : ty == "T" ? RefEl::kTria() : RefEl::kQuad();
          unsigned r = f->f->AddEntity(re, std::span<const unsigned>(un.data(), un.size()), nullptr);
          emit(J().s("e", "ent").v("n", n).i("g", 0).v("m", std::vector<ll>{}).i("ret", r));
          continue;
        }
        emit(J().s("e", "try").s("op", op == "PG" ? "P" : op).v("n", [&] {
          int k = op == "E" ? 2 : op == "T" ? 3 : op == "Q" ? 4 : 0; ll x;
          while (k-- > 0 && (is >> x)) n.push_back(x);
          return n; }()));
      }
      f->line(l);
      if (op == "B") {
        log_mesh(*f->mesh, U, f->dw);
        if (withgeo) log_geo(*f->mesh, U);
        keep.push_back(f->mesh);
      }
    }
  });
}
