// What a dof handler answers, for all entities of a mesh.
#pragma once
#include "meshio.h"
#include <lf/assemble/assemble.h>
namespace vf {
inline void dump(J& j, const lf::assemble::DofHandler& d, const Mesh& m) {
  std::vector<std::vector<std::vector<ll>>> g(3), in(3);
  std::vector<std::vector<ll>> nl(3), ni(3), ent;
  for (int k = 0; k < 3; ++k)
    for (unsigned i = 0; i < m.NumEntities(k); ++i) {
      const Entity& e = *m.EntityByIndex(k, i);
      auto a = d.GlobalDofIndices(e);
      auto b = d.InteriorGlobalDofIndices(e);
      g[k].emplace_back(a.begin(), a.end());
      in[k].emplace_back(b.begin(), b.end());
      nl[k].push_back(d.NumLocalDofs(e));
      ni[k].push_back(d.NumInteriorDofs(e));
    }
  for (unsigned i = 0; i < d.NumDofs(); ++i) {
    const Entity& e = d.Entity(i);
    ent.push_back({(ll)e.Codim(), (ll)m.Index(e)});
  }
  j.i("n", d.NumDofs()).v("g", g).v("in", in).v("nl", nl).v("ni", ni).v("ent", ent).t("samemesh", d.Mesh().get() == &m);
}

}  // namespace vf
