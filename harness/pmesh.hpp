// generated distributed meshes
#ifndef PMESH_HPP
#define PMESH_HPP
#include <Omega_h_array_ops.hpp>
#include <Omega_h_dist.hpp>
#include <Omega_h_migrate.hpp>
#include "gmesh.hpp"
namespace pbt {
template <class T>
void add_hash_tag(Mesh& m, int d, std::string const& n, int w, u64 seed) {
  auto g = hv(m.globals(d));
  std::vector<T> v;
  for (auto x : g)
    for (int c = 0; c < w; ++c) {
      u64 h = mix64(seed * 131 + u64(x) * 17 + u64(c));
      v.push_back(std::is_floating_point<T>::value ? T(double(h >> 11) / 1e10 - 4e5) : T(h));
    }
  m.add_tag<T>(d, n, w, mk(v));
}
// attributes of random types and widths whose value is a function of (seed, global number)
inline void add_random_tags(Src& s, Mesh& m, int maxn = 4) {
  int n = s.range(0, maxn);
  for (int i = 0; i < n; ++i) {
    int d = s.range(0, m.dim());
    int w = s.range(1, 4);
    auto name = "t" + std::to_string(i) + s.pick<std::string>({"", " b", "_c"});
    u64 seed = s.below(1000);
    switch (s.range(0, 3)) {
      case 0: add_hash_tag<I8>(m, d, name, w, seed); break;
      case 1: add_hash_tag<I32>(m, d, name, w, seed); break;
      case 2: add_hash_tag<I64>(m, d, name, w, seed); break;
      default: add_hash_tag<Real>(m, d, name, w, seed); break;
    }
  }
}
// the plan moving every owned element to part[global]
inline Dist part_dist(Mesh& m, std::vector<int> const& part) {
  auto g = hv(m.globals(m.dim()));
  auto own = hv(m.owned(m.dim()));
  std::vector<I32> to;
  for (st i = 0; i < g.size(); ++i) {
    if (!own[i]) PFAIL("part_dist needs an element-based partition");
    to.push_back(part[st(g[i]) % part.size()]);
  }
  Dist owners2new;
  owners2new.set_parent_comm(m.comm());
  owners2new.set_dest_ranks(mk(to));
  owners2new.set_roots2items(LOs(LO(to.size()) + 1, 0, 1));
  owners2new.set_dest_globals(m.globals(m.dim()));
  return owners2new.invert();
}
inline std::vector<int> gen_part(Src& s, int np, int n) {
  std::vector<int> p(static_cast<st>(n));
  int mode = s.weighted({3, 3, 1, 1});
  int one = s.range(0, np - 1);
  u64 salt = s.below(1000);
  int run = s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    switch (mode) {
      case 0: p[st(i)] = int(mix64(salt + u64(i / run)) % u64(np)); break;
      case 1: p[st(i)] = int((long long)i * np / std::max(1, n)); break;
      case 2: p[st(i)] = one; break;
      default: {  // one process left out
        int q = np == 1 ? 0 : int(mix64(salt * 31 + u64(i)) % u64(np - 1));
        p[st(i)] = np > 1 && q >= one ? q + 1 : q;
      }
    }
  }
  return p;
}
inline void migrate_to(Mesh& m, std::vector<int> const& part) {
  auto d = part_dist(m, part);
  migrate_mesh(&m, d, OMEGA_H_ELEM_BASED, false);
}
}  // namespace pbt
#endif
