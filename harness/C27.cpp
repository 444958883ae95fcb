// C27: the Hilbert curve, sorting points along it, reordering meshes
#include <Omega_h_hilbert.hpp>
#include "pmesh.hpp"
using namespace pbt;
typedef hilbert::coord_t u;
typedef std::vector<u> VU;
static VU position(VU x, int b) {
  int n = int(x.size());
  hilbert::AxestoTranspose(x.data(), b, n);
  VU y(x.size());
  hilbert::untranspose(x.data(), y.data(), b, n);
  return y;
}
// own inverse of the bit transposition: position words -> transpose words
static VU transposed(VU const& y, int b) {
  int n = int(y.size());
  VU x(y.size(), 0);
  for (int i = 0; i < b * n; ++i)
    if ((y[st(i / b)] >> (b - 1 - i % b)) & 1) x[st(i % n)] |= u(1) << (b - 1 - i / n);
  return x;
}
static VU cell_at(VU const& y, int b) {
  auto x = transposed(y, b);
  hilbert::TransposetoAxes(x.data(), b, int(x.size()));
  return x;
}
static bool next(VU& y, int b) {
  for (st i = y.size(); i-- > 0;) {
    if (y[i] + 1 < (u(1) << b)) {
      ++y[i];
      return true;
    }
    y[i] = 0;
  }
  return false;
}
static bool face_neighbours(VU const& a, VU const& c) {
  u d = 0;
  for (st i = 0; i < a.size(); ++i) d += a[i] > c[i] ? a[i] - c[i] : c[i] - a[i];
  return d == 1;
}
static void curve(Src& s, Env&) {
  int n = s.range(1, 3);
  if (s.chance(1, 4)) {
    int b = s.range(1, n == 3 ? 4 : n == 2 ? 6 : 8);
    std::map<VU, VU> at;
    VU x(st(n), 0);
    do {
      auto y = position(x, b);
      for (auto w : y) PCHECK(w < (u(1) << b), "position of cell " << show(x) << " with " << b << " bits has word " << w);
      PCHECK(at.emplace(y, x).second, "cells " << show(x) << " and " << show(at[y]) << " share position " << show(y));
      PCHECK(cell_at(y, b) == x, "cell " << show(x) << " came back as " << show(cell_at(y, b)));
    } while (next(x, b));
    VU const* last = nullptr;
    for (auto& p : at) {
      if (last) PCHECK(face_neighbours(*last, p.second), "dim " << n << " bits " << b << ": cells " << show(*last) << " and " << show(p.second) << " are consecutive");
      last = &p.second;
    }
    s.desc("exhaustive dim " + std::to_string(n) + " bits " + std::to_string(b));
    s.nontrivial(b > 2 && n > 1);
    return;
  }
  int b = s.chance(1, 2) ? 52 : s.range(1, 60);
  VU x;
  int mode = s.range(0, 3);
  for (int i = 0; i < n; ++i) {
    u w = s.below(u(1) << 32) << 32 | s.below(u(1) << 32);
    w &= (u(1) << b) - 1;
    if (mode == 1) w &= s.below(u(1) << 32) << 32 | s.below(u(1) << 32);
    if (mode == 2) w = (u(1) << s.range(0, b - 1)) - u(s.range(0, 1));
    if (mode == 3) w = s.chance(1, 2) ? 0 : (u(1) << b) - 1;
    x.push_back(w);
  }
  auto y = position(x, b);
  for (auto w : y) PCHECK(w < (u(1) << b), "position word out of range");
  PCHECK(cell_at(y, b) == x, "bits " << b << ": cell " << show(x) << " came back as " << show(cell_at(y, b)));
  // curves of different depth are nested: half the resolution is the same curve up to a symmetry,
  // so neighbours on the curve share all position digits exactly if they share the ancestor cell
  auto z = y;
  if (next(z, b)) {
    auto c = cell_at(z, b);
    PCHECK(face_neighbours(x, c), "bits " << b << ": consecutive cells " << show(x) << " and " << show(c));
    PCHECK(position(c, b) == z, "position of the next cell");
  }
  // position digits of the top level name the octant: all cells of an octant are contiguous
  if (b > 1) {
    int lev = s.range(1, b - 1);  // digits kept
    VU o = x;
    for (auto& w : o) w = (w >> (b - lev) << (b - lev)) | (s.below(u(1) << 32) << 32 | s.below(u(1) << 32)) % (u(1) << (b - lev));
    auto q = position(o, b);
    auto digit = [&](VU const& p, int i) { return (p[st(i / b)] >> (b - 1 - i % b)) & 1; };
    for (int i = 0; i < lev * n; ++i) PCHECK(digit(q, i) == digit(y, i), "bits " << b << ": cells " << show(x) << " and " << show(o) << " of one level " << lev << " block have positions with different leading digits");
  }
  s.nontrivial(n > 1 && b > 8);
}
static void sorting(Src& s, Env&) {
  int dim = s.range(1, 3);
  std::vector<std::vector<Real>> pts;
  int mode = s.range(0, 2);
  int k = 0;
  Real scale = s.pick<Real>({1., 1e-3, 1e5, 0.3}), off = s.pick<Real>({0., 0., -7.5, 100.});
  std::vector<std::vector<u>> cell;
  if (mode == 0) {
    k = s.range(1, dim == 3 ? 3 : dim == 2 ? 5 : 6);
    VU x(st(dim), 0);
    do {
      std::vector<Real> p;
      for (auto w : x) p.push_back(off * scale + scale * Real(w));
      pts.push_back(p);
      cell.push_back(x);
    } while (next(x, k));
  } else {
    int n = s.range(2, s.thorough ? 400 : 120);
    u64 seed = s.below(1u << 20);
    Src h;
    h.state = mix64(seed);
    for (int i = 0; i < n; ++i) {
      std::vector<Real> p;
      for (int j = 0; j < dim; ++j) p.push_back(off * scale + scale * (mode == 1 ? h.uniform(0, j == 1 ? 0.4 : 1.) : std::pow(h.uniform(0, 1), 4)));
      pts.push_back(p);
    }
  }
  int n = int(pts.size());
  std::vector<int> perm(st(n), 0);
  std::iota(perm.begin(), perm.end(), 0);
  u64 seed = s.below(1u << 20);
  Src h;
  h.state = mix64(seed + 77);
  for (int i = n - 1; i > 0; --i) std::swap(perm[st(i)], perm[h.below(u64(i) + 1)]);
  auto order = [&](std::vector<int> const& p) {
    std::vector<Real> x;
    for (auto i : p)
      for (auto c : pts[st(i)]) x.push_back(c);
    auto o = hv(hilbert::sort_coords(mk(x), dim));
    PCHECK(int(o.size()) == n, "sorting " << n << " points gave " << o.size());
    std::vector<char> seen(st(n), 0);
    std::vector<int> r;
    for (auto i : o) {
      PCHECK(i >= 0 && i < n && !seen[st(i)], "sorted order is not a permutation");
      seen[st(i)] = 1;
      r.push_back(p[st(i)]);
    }
    return r;
  };
  std::vector<int> id(st(n), 0);
  std::iota(id.begin(), id.end(), 0);
  auto a = order(id);
  auto b = order(perm);
  PCHECK(a == b, "the order of " << n << " points depends on the order in which they were given");
  if (mode == 0) {
    for (int i = 1; i < n; ++i) PCHECK(face_neighbours(cell[st(a[st(i)])], cell[st(a[st(i - 1)])]), "dim " << dim << " grid of " << (1 << k) << ": points " << show(cell[st(a[st(i - 1)])]) << " and " << show(cell[st(a[st(i)])]) << " are consecutive");
  } else {
    // every dyadic cell of the bounding cube is visited once
    std::vector<Real> lo(st(dim), 1e300), hi(st(dim), -1e300);
    for (auto& p : pts)
      for (st j = 0; j < st(dim); ++j) {
        lo[j] = std::min(lo[j], p[j]);
        hi[j] = std::max(hi[j], p[j]);
      }
    Real len = 0;
    for (st j = 0; j < st(dim); ++j) len = std::max(len, hi[j] - lo[j]);
    for (int lev = 1; lev <= 8; ++lev) {
      std::set<VU> done;
      VU cur;
      Real m = std::exp2(lev);
      for (auto i : a) {
        VU c;
        bool skip = false;
        for (st j = 0; j < st(dim); ++j) {
          Real f = (pts[st(i)][j] - lo[j]) / len * m;
          if (std::abs(f - std::round(f)) < 1e-7 && f > 1e-7 && f < m - 1e-7) skip = true;
          c.push_back(u(std::min(std::max(std::floor(f), 0.), m - 1)));
        }
        if (skip) continue;
        if (c == cur) continue;
        PCHECK(done.insert(c).second, "level " << lev << " cell " << show(c) << " of the bounding cube is visited twice");
        cur = c;
      }
      // neighbouring blocks: where the curve passes through occupied blocks only, checked by the grid mode
    }
  }
  s.desc("dim " + std::to_string(dim) + " points " + std::to_string(n));
  s.nontrivial(dim > 1 && n > 8);
}
static void by_curve(Src& s, Env& e) {
  auto fam = s.chance(1, 4) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.range(1, 3);
  RawOpt o;
  o.max_cells = s.thorough ? 40 : 16;
  o.subset = s.chance(1, 3);
  o.jitter = s.chance(1, 2);
  auto r = gen_raw(s, fam, dim, o);
  Mesh m = build_raw(e, r);
  m.set_comm(e.comm);
  add_random_tags(s, m);
  for (int d = 0; d <= dim; ++d) {
    std::vector<LO> id(st(m.nents(d)), 0);
    std::iota(id.begin(), id.end(), 0);
    m.add_tag<LO>(d, "orig", 1, mk(id));
    if (s.chance(1, 2)) (void)m.ask_verts_of(std::max(d, 1));
  }
  auto want = hv(hilbert::sort_coords(m.coords(), dim));
  Mesh n = m;
  reorder_by_hilbert(&n);
  std::vector<std::vector<LO>> orig;
  for (int d = 0; d <= dim; ++d) {
    PCHECK(n.nents(d) == m.nents(d), "reordering changed the number of entities of dimension " << d);
    orig.push_back(hv(n.get_array<LO>(d, "orig")));
    auto srt = orig.back();
    std::sort(srt.begin(), srt.end());
    for (st i = 0; i < srt.size(); ++i) PCHECK(srt[i] == LO(i), "reordering lost or duplicated an entity of dimension " << d);
    auto g = hv(n.globals(d));
    for (st i = 0; i < g.size(); ++i) PCHECK(g[i] == GO(i), "after reordering entity " << i << " of dimension " << d << " has global number " << g[i]);
    PCHECK(n.ntags(d) == m.ntags(d), "reordering changed the tags of dimension " << d);
    for (Int t = 0; t < m.ntags(d); ++t) {
      auto tb = m.get_tag(d, t);
      if (tb->name() == "global") continue;
      PCHECK(n.has_tag(d, tb->name()), "tag " << tb->name() << " lost");
      int w = tb->ncomps();
      auto cmp = [&](auto const& x, auto const& y) {
        for (st i = 0; i < orig.back().size(); ++i)
          for (int c = 0; c < w; ++c) PCHECK(x[int(i) * w + c] == y[orig.back()[i] * w + c], "tag " << tb->name() << " of entity " << i << " is not that of its original " << orig.back()[i]);
      };
      switch (tb->type()) {
        case OMEGA_H_I8: cmp(n.get_array<I8>(d, tb->name()), m.get_array<I8>(d, tb->name())); break;
        case OMEGA_H_I32: cmp(n.get_array<I32>(d, tb->name()), m.get_array<I32>(d, tb->name())); break;
        case OMEGA_H_I64: cmp(n.get_array<I64>(d, tb->name()), m.get_array<I64>(d, tb->name())); break;
        default: cmp(n.get_array<Real>(d, tb->name()), m.get_array<Real>(d, tb->name())); break;
      }
    }
  }
  bool moved = false;
  for (st i = 0; i < want.size(); ++i) {
    PCHECK(orig[0][i] == want[i], "vertex " << i << " is original " << orig[0][i] << ", the curve visits " << want[i]);
    moved |= want[i] != LO(i);
  }
  for (int d = 1; d <= dim; ++d) {
    auto mv = hv(m.ask_verts_of(d)), nv = hv(n.ask_verts_of(d));
    int deg = element_degree(fam, d, VERT);
    LO lastv = -1, lasto = -1;
    for (LO i = 0; i < n.nents(d); ++i) {
      LO old = orig[st(d)][st(i)];
      for (int k = 0; k < deg; ++k) PCHECK(orig[0][st(nv[st(i * deg + k)])] == mv[st(old * deg + k)], "vertex " << k << " of entity " << i << " (dimension " << d << ") is not that of its original");
      LO f = nv[st(i * deg)];
      PCHECK(f > lastv || (f == lastv && old > lasto), "entities of dimension " << d << " are not ordered by their first vertex: " << i << " starts at " << f << " after " << lastv);
      lastv = f;
      lasto = old;
    }
    for (int l = 1; l < d; ++l) {
      auto a = hv(m.ask_down(d, l).ab2b), b = hv(n.ask_down(d, l).ab2b);
      int dl = element_degree(fam, d, l);
      for (LO i = 0; i < n.nents(d); ++i)
        for (int k = 0; k < dl; ++k) PCHECK(orig[st(l)][st(b[st(i * dl + k)])] == a[st(orig[st(d)][st(i)] * dl + k)], "downward adjacency " << d << "->" << l << " changed");
    }
  }
  s.desc("family " + std::to_string(int(fam)) + " dim " + std::to_string(dim) + " elements " + std::to_string(r.ne()));
  s.nontrivial(dim > 1 && r.ne() > 2 && moved);
}
static void by_globals(Src& s, Env& e) {
  auto fam = s.chance(1, 5) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.range(1, 3);
  RawOpt o;
  o.max_cells = s.thorough ? 30 : 12;
  auto r = gen_raw(s, fam, dim, o);
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, gen_part(s, e.np, r.ne()));
  if (s.chance(1, 2)) {
    // scatter the global numbers
    for (int d = 0; d <= dim; ++d) {
      u64 salt = s.below(1000);
      std::vector<GO> p(st(m.nglobal_ents(d)));
      std::iota(p.begin(), p.end(), 0);
      Src h;
      h.state = mix64(salt);
      for (st i = p.size(); i-- > 1;) std::swap(p[i], p[h.below(u64(i) + 1)]);
      auto g = hv(m.globals(d));
      for (auto& v : g) v = p[st(v)];
      m.set_tag(d, "global", mk(g));
    }
  }
  add_random_tags(s, m);
  bool ghosted = false;
  if (e.np > 1) {
    int p = s.range(0, 2);
    if (p == 1) m.set_parting(OMEGA_H_GHOSTED, 1);
    if (p == 2) m.set_parting(OMEGA_H_GHOSTED, 2);
    ghosted = p > 0;
  }
  auto a = gather_checked(e, m);
  reorder_by_globals(&m);
  auto b = gather_checked(e, m);
  same_global(a, b, "reordering by global numbers");
  bool bad = false;
  for (int d = 0; d <= dim; ++d) {
    auto g = hv(m.globals(d));
    for (st i = 1; i < g.size(); ++i)
      if (g[i - 1] >= g[i]) bad = true;
  }
  PCHECK(!bad, "local entities are not in the order of their global numbers");
  for (int d = 0; d <= dim; ++d)
    for (st q = 0; q < a.counts.size(); ++q) PCHECK(a.counts[q][st(d)] == b.counts[q][st(d)], "rank " << q << " holds " << b.counts[q][st(d)] << " entities of dimension " << d << " instead of " << a.counts[q][st(d)]);
  s.desc("np " + std::to_string(e.np) + " elements " + std::to_string(r.ne()) + (ghosted ? " ghosted" : ""));
  s.nontrivial(dim > 1 && r.ne() > 2);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"curve", curve, 20000, 600000, {1}, true, "dimension above 1, more than two bits (exhaustive) or eight bits (sampled)"},
    {"sort", sorting, 3000, 60000, {1}, true, "more than 8 points in dimension above 1"},
    {"mesh_curve", by_curve, 1500, 30000, {1}, true, "more than two elements, dimension above 1, some vertex moved"},
    {"mesh_globals", by_globals, 1200, 24000, {1, 2, 3, 4}, true, "more than two elements, dimension above 1"},
  });
}
