// generated meshes and topological reference computations
#ifndef HMESH_HPP
#define HMESH_HPP
#include <Omega_h_adj.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_mesh.hpp>
#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include <set>
#include "arr.hpp"
namespace pbt {
typedef std::size_t st;
typedef std::vector<LO> VL;
struct Raw {
  Omega_h_Family fam = OMEGA_H_SIMPLEX;
  int dim = 2;
  int nv = 0;
  int deg = 3;                // vertices per element
  std::vector<LO> ev;         // element vertices
  std::vector<Real> x;        // coordinates
  int ne() const { return int(ev.size()) / deg; }
};
inline int perm_sign(std::vector<int> const& p) {
  int s = 1;
  for (st i = 0; i < p.size(); ++i)
    for (st j = i + 1; j < p.size(); ++j)
      if (p[i] > p[j]) s = -s;
  return s;
}
// all orientation-preserving vertex relabelings of one element
inline std::vector<std::vector<int>> const& rotations(Omega_h_Family fam, int dim) {
  static std::map<std::pair<int, int>, std::vector<std::vector<int>>> cache;
  auto& r = cache[{int(fam), dim}];
  if (!r.empty()) return r;
  if (dim == 1) {
    r = {{0, 1}};
  } else if (fam == OMEGA_H_SIMPLEX) {
    std::vector<int> p;
    for (int i = 0; i <= dim; ++i) p.push_back(i);
    do {
      if (perm_sign(p) == 1) r.push_back(p);
    } while (std::next_permutation(p.begin(), p.end()));
  } else if (dim == 2) {
    r = {{0, 1, 2, 3}, {1, 2, 3, 0}, {2, 3, 0, 1}, {3, 0, 1, 2}};
  } else {
    // generated by two quarter turns of the hexahedron 0123 (bottom) 4567 (top)
    std::vector<int> id{0, 1, 2, 3, 4, 5, 6, 7};
    std::vector<int> a{1, 2, 3, 0, 5, 6, 7, 4};  // about z
    std::vector<int> b{4, 5, 1, 0, 7, 6, 2, 3};  // about x: bottom <- front..
    std::set<std::vector<int>> seen{id};
    std::vector<std::vector<int>> q{id};
    while (!q.empty()) {
      auto c = q.back();
      q.pop_back();
      for (auto& g : {a, b}) {
        std::vector<int> n(8);
        for (int i = 0; i < 8; ++i) n[st(i)] = c[st(g[st(i)])];
        if (seen.insert(n).second) q.push_back(n);
      }
    }
    r.assign(seen.begin(), seen.end());
    std::sort(r.begin(), r.end());
  }
  return r;
}
inline Real det_of(int dim, Real const m[3][3]) {
  if (dim == 1) return m[0][0];
  if (dim == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0];
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
         m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
// signed measure of a simplex given its vertex coordinates
inline Real simplex_measure(int dim, std::vector<Real> const& x, LO const* v) {
  Real m[3][3];
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) m[i][j] = x[st(v[i + 1] * dim + j)] - x[st(v[0] * dim + j)];
  return det_of(dim, m) / (dim == 1 ? 1. : dim == 2 ? 2. : 6.);
}
struct RawOpt {
  int max_cells = 12;      // upper bound on grid cells
  bool subset = false;     // drop random cells/elements
  bool shuffle = true;     // renumber vertices/elements, rotate elements
  bool jitter = false;     // move interior vertices
  bool unit = false;       // unit box instead of random extents
};
inline Raw gen_raw(Src& s, Omega_h_Family fam, int dim, RawOpt o) {
  Raw r;
  r.fam = fam;
  r.dim = dim;
  int n[3] = {1, 1, 1};
  int left = o.max_cells;
  for (int d = 0; d < dim; ++d) {
    int mx = std::min(left, dim == 1 ? o.max_cells : dim == 2 ? 6 : 4);
    n[d] = s.range(1, std::max(1, mx));
    left = std::max(1, left / n[d]);
  }
  Real L[3] = {1, 1, 1};
  if (!o.unit)
    for (int d = 0; d < dim; ++d) L[d] = s.pick<Real>({1.0, 2.0, 0.5, 1.3});
  int nn[3] = {n[0] + 1, dim > 1 ? n[1] + 1 : 1, dim > 2 ? n[2] + 1 : 1};
  auto vid = [&](int i, int j, int k) { return LO(i + nn[0] * (j + nn[1] * k)); };
  r.nv = nn[0] * nn[1] * nn[2];
  std::vector<bool> interior(static_cast<st>(r.nv));
  for (int k = 0; k < nn[2]; ++k)
    for (int j = 0; j < nn[1]; ++j)
      for (int i = 0; i < nn[0]; ++i) {
        int c[3] = {i, j, k};
        bool in = true;
        for (int d = 0; d < dim; ++d) {
          r.x.push_back(L[d] * c[d] / n[d]);
          if (c[d] == 0 || c[d] == n[d]) in = false;
        }
        interior[st(vid(i, j, k))] = in;
      }
  if (o.jitter) {
    Real amp = s.pick<Real>({0.0, 0.05, 0.15});
    for (int v = 0; v < r.nv; ++v)
      if (interior[st(v)])
        for (int d = 0; d < dim; ++d) r.x[st(v * dim + d)] += amp * (L[d] / n[d]) * s.uniform(-1, 1);
  }
  std::vector<VL> elems;
  for (int k = 0; k < (dim > 2 ? n[2] : 1); ++k)
    for (int j = 0; j < (dim > 1 ? n[1] : 1); ++j)
      for (int i = 0; i < n[0]; ++i) {
        if (dim == 1) {
          elems.push_back({vid(i, 0, 0), vid(i + 1, 0, 0)});
        } else if (fam == OMEGA_H_HYPERCUBE) {
          VL q{vid(i, j, k), vid(i + 1, j, k), vid(i + 1, j + 1, k), vid(i, j + 1, k)};
          if (dim == 3) {
            VL t{vid(i, j, k + 1), vid(i + 1, j, k + 1), vid(i + 1, j + 1, k + 1), vid(i, j + 1, k + 1)};
            q.insert(q.end(), t.begin(), t.end());
          }
          elems.push_back(q);
        } else if (dim == 2) {
          LO a = vid(i, j, 0), b = vid(i + 1, j, 0), c = vid(i + 1, j + 1, 0), d = vid(i, j + 1, 0);
          if (s.below(2)) {
            elems.push_back({a, b, c});
            elems.push_back({c, d, a});
          } else {
            elems.push_back({a, b, d});
            elems.push_back({b, c, d});
          }
        } else {
          std::vector<int> p{0, 1, 2};
          do {
            int c[3] = {i, j, k};
            VL t{vid(c[0], c[1], c[2])};
            for (int q = 0; q < 3; ++q) {
              ++c[p[st(q)]];
              t.push_back(vid(c[0], c[1], c[2]));
            }
            if (perm_sign(p) < 0) std::swap(t[2], t[3]);
            elems.push_back(t);
          } while (std::next_permutation(p.begin(), p.end()));
        }
      }
  if (o.subset && s.chance(60)) {
    std::vector<VL> kept;
    int pr = s.pick({85, 60, 30});
    for (auto& e : elems)
      if (s.chance(pr)) kept.push_back(e);
    if (!kept.empty()) elems = kept;
    // compact vertices
    std::vector<LO> m(static_cast<st>(r.nv), -1);
    LO c = 0;
    for (auto& e : elems)
      for (auto v : e) m[st(v)] = 1;
    std::vector<Real> x2;
    for (int v = 0; v < r.nv; ++v)
      if (m[st(v)] == 1) {
        m[st(v)] = c++;
        for (int d = 0; d < dim; ++d) x2.push_back(r.x[st(v * dim + d)]);
      }
    for (auto& e : elems)
      for (auto& v : e) v = m[st(v)];
    r.x = x2;
    r.nv = c;
  }
  if (o.shuffle && s.chance(80)) {
    auto vp = s.permutation(r.nv);
    std::vector<Real> x2(r.x.size());
    for (int v = 0; v < r.nv; ++v)
      for (int d = 0; d < dim; ++d) x2[st(vp[st(v)] * dim + d)] = r.x[st(v * dim + d)];
    r.x = x2;
    auto ep = s.permutation(int(elems.size()));
    std::vector<VL> e2;
    auto& rots = rotations(fam, dim);
    for (auto i : ep) {
      auto& e = elems[st(i)];
      auto& rot = rots[st(s.below(rots.size()))];
      VL ne;
      for (st q = 0; q < e.size(); ++q) ne.push_back(vp[st(e[st(rot[q])])]);
      e2.push_back(ne);
    }
    elems = e2;
  }
  r.deg = int(elems[0].size());
  for (auto& e : elems) r.ev.insert(r.ev.end(), e.begin(), e.end());
  return r;
}
inline Mesh build_raw(Env& e, Raw const& r) {
  Mesh m(e.lib);
  build_from_elems_and_coords(&m, r.fam, r.dim, mk(r.ev), mk(r.x));
  return m;
}
inline std::string fam_name(Omega_h_Family f) { return f == OMEGA_H_SIMPLEX ? "simplex" : "hypercube"; }

// boundary templates of the reference elements, independent of the library
inline std::vector<std::vector<int>> const& down_tpl(Omega_h_Family fam, int hd, int ld) {
  static std::map<std::array<int, 3>, std::vector<std::vector<int>>> T;
  if (T.empty()) {
    int S = OMEGA_H_SIMPLEX, H = OMEGA_H_HYPERCUBE;
    T[{S, 3, 2}] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
    T[{S, 3, 1}] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    T[{S, 3, 0}] = {{0}, {1}, {2}, {3}};
    T[{S, 2, 1}] = {{0, 1}, {1, 2}, {2, 0}};
    T[{S, 2, 0}] = {{0}, {1}, {2}};
    T[{S, 1, 0}] = {{0}, {1}};
    T[{H, 3, 2}] = {{1, 0, 3, 2}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}};
    T[{H, 3, 1}] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 5}, {5, 6}, {6, 7}, {7, 4}};
    T[{H, 3, 0}] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
    T[{H, 2, 1}] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    T[{H, 2, 0}] = {{0}, {1}, {2}, {3}};
    T[{H, 1, 0}] = {{0}, {1}};
  }
  return T[{int(fam), hd, ld}];
}
inline int nverts_of(Omega_h_Family fam, int d) { return d == 0 ? 1 : fam == OMEGA_H_SIMPLEX ? d + 1 : (1 << d); }
template <class T>
std::vector<T> sorted(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  return v;
}
inline VL slice(std::vector<LO> const& a, int i, int w) { return VL(a.begin() + i * w, a.begin() + (i + 1) * w); }
// vertices of all entities of dimension d (one list per entity)
inline std::vector<VL> verts_of(Mesh& m, int d) {
  std::vector<VL> r;
  if (d == 0) {
    for (LO i = 0; i < m.nverts(); ++i) r.push_back({i});
    return r;
  }
  int w = nverts_of(m.family(), d);
  auto a = hv(m.ask_verts_of(d));
  if (int(a.size()) != m.nents(d) * w) PFAIL("vertex list of dimension " << d << " has size " << a.size());
  for (LO i = 0; i < m.nents(d); ++i) r.push_back(slice(a, i, w));
  return r;
}
// apply an alignment code to a vertex list: rotate, then flip
inline VL apply_code(VL const& in, int code) {
  int n = int(in.size());
  int rot = (code >> 1) & 3;
  bool flip = code & 1;
  VL out(in.size());
  if (n == 1) return in;
  for (int j = 0; j < n; ++j) out[st((j + rot) % n)] = in[st(j)];
  if (flip && n > 2) std::swap(out[1], out[st(n - 1)]);
  return out;
}

// ---- parallel gathering -------------------------------------------------
template <class T>
std::vector<T> allgather(Env& e, std::vector<T> const& v, std::vector<int>* counts = nullptr) {
  if (e.np == 1) {
    if (counts) *counts = {int(v.size())};
    return v;
  }
  int n = int(v.size() * sizeof(T));
  std::vector<int> c(static_cast<st>(e.np)), d(static_cast<st>(e.np));
  MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int tot = 0;
  for (int i = 0; i < e.np; ++i) {
    d[st(i)] = tot;
    tot += c[st(i)];
  }
  std::vector<T> out(st(tot) / sizeof(T));
  MPI_Allgatherv(const_cast<T*>(v.data()), n, MPI_BYTE, out.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
  if (counts) {
    counts->clear();
    for (auto x : c) counts->push_back(int(st(x) / sizeof(T)));
  }
  return out;
}
}  // namespace pbt
#endif
