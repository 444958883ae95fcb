// generated adaptation problems: a tensor-product model whose geometric
// classification is decided by coordinates alone, a simplex mesh of it, and
// target metrics that are functions of position
#ifndef ADAPTGEN_HPP
#define ADAPTGEN_HPP
#include <Omega_h_adapt.hpp>
#include <Omega_h_metric.hpp>
#include "pmesh.hpp"
namespace pbt {
struct Model {
  int dim = 2;
  int nm[3] = {1, 1, 1};            // model intervals per axis
  std::vector<Real> xs[3];          // breakpoints
  // the label of a coordinate: 2i at breakpoint i, 2i+1 inside interval i, -1 outside
  int label(int a, Real x) const {
    for (int i = 0; i <= nm[a]; ++i)
      if (x == xs[a][st(i)]) return 2 * i;
    for (int i = 0; i < nm[a]; ++i)
      if (xs[a][st(i)] < x && x < xs[a][st(i + 1)]) return 2 * i + 1;
    return -1;
  }
  // class of the entity with these vertices: {dim, id} or {-1,-1}
  std::pair<int, int> classify(std::vector<std::vector<Real>> const& v) const {
    int cd = 0, id = 0, mul = 1;
    for (int a = 0; a < dim; ++a) {
      int lo = 1 << 20, hi = -1;
      for (auto& x : v) {
        int l = label(a, x[st(a)]);
        if (l < 0) return {-1, -1};
        lo = std::min(lo, l);
        hi = std::max(hi, l);
      }
      int l = lo;
      if (hi != lo) {
        // must fit in the closure of one interval
        if ((lo & 1) ? hi > lo + 1 : hi > lo + 2) return {-1, -1};
        l = (lo & 1) ? lo : lo + 1;
      }
      cd += l & 1;
      id += mul * l;
      mul *= 2 * nm[a] + 1;
    }
    return {cd, id + 1};
  }
};
struct Problem {
  Model mod;
  std::vector<LO> ev;
  std::vector<Real> x;   // flat-sided coordinates (used for classification)
  Real unit = 1;         // scale of the coordinates
  Real spacing = 1;      // typical spacing in these units
  Real volume = 0;
  int ne() const { return int(ev.size()) / (mod.dim + 1); }
  int nv() const { return int(x.size()) / mod.dim; }
};
struct ProbOpt {
  bool small = false;   // for parallel runs
  bool scales = true;   // generate other scales than 1
  bool big = true;      // of which some are large
  bool empties = false; // processes without elements (make_set)
};
inline Problem gen_problem(Src& s, int dim, ProbOpt const& o = ProbOpt()) {
  Problem p;
  auto& M = p.mod;
  M.dim = dim;
  p.unit = o.scales ? o.big ? s.pick({1., 1., 1., 1e-3, 1e4}) : s.pick({1., 1., 1., 1e-3, 30.}) : 1.;
  int maxlines = dim == 1 ? 12 : dim == 2 ? 5 : (o.small ? 2 : 3);
  std::vector<Real> lines[3];
  std::vector<int> lab[3], cellm[3];
  for (int a = 0; a < dim; ++a) {
    M.nm[a] = s.weighted({6, 3, 1}) + 1;
    int left = std::max(M.nm[a], s.range(1, maxlines));
    Real at = s.pick({0., 0., -1.5, 10.}) * p.unit;
    for (int i = 0; i < M.nm[a]; ++i) {
      M.xs[a].push_back(at);
      lines[a].push_back(at);
      lab[a].push_back(2 * i);
      int r = i + 1 == M.nm[a] ? left : s.range(1, std::max(1, left - (M.nm[a] - 1 - i)));
      left -= r;
      Real len = p.unit * r * (0.75 + 0.125 * s.range(0, 4));
      for (int j = 1; j < r; ++j) {
        lines[a].push_back(at + len * j / r);
        lab[a].push_back(2 * i + 1);
      }
      for (int j = 0; j < r; ++j) cellm[a].push_back(i);
      at += len;
      if (left <= 0 && i + 1 < M.nm[a]) left = 1;
    }
    M.xs[a].push_back(at);
    lines[a].push_back(at);
    lab[a].push_back(2 * M.nm[a]);
  }
  for (int a = dim; a < 3; ++a) {
    lines[a] = {0};
    lab[a] = {0};
  }
  // model cells present
  std::set<int> gone;
  int nmc = M.nm[0] * M.nm[1] * M.nm[2];
  if (nmc > 1 && s.chance(40))
    for (int i = 1; i < nmc; ++i)
      if (s.chance(35)) gone.insert(i);
  int n[3];
  for (int a = 0; a < 3; ++a) n[a] = int(lines[a].size());
  auto vid = [&](int i, int j, int k) { return i + n[0] * (j + n[1] * k); };
  std::vector<std::vector<int>> cells;
  int flip = s.range(0, 3);   // which way the diagonals run
  bool alt = dim == 2 && s.chance(60);
  u64 salt = s.below(1000);
  auto add = [&](std::vector<int> c) { cells.push_back(c); };
  for (int k = 0; k < std::max(1, n[2] - 1); ++k)
    for (int j = 0; j < std::max(1, n[1] - 1); ++j)
      for (int i = 0; i < n[0] - 1; ++i) {
        int mc = cellm[0][st(i)] + (dim > 1 ? M.nm[0] * cellm[1][st(j)] : 0) + (dim > 2 ? M.nm[0] * M.nm[1] * cellm[2][st(k)] : 0);
        if (gone.count(mc)) continue;
        if (dim == 1) {
          add({vid(i, 0, 0), vid(i + 1, 0, 0)});
        } else if (dim == 2) {
          int a = vid(i, j, 0), b = vid(i + 1, j, 0), c = vid(i + 1, j + 1, 0), d = vid(i, j + 1, 0);
          bool f = alt ? (mix64(salt + u64(i * 7 + j)) & 1) : (flip & 1);
          if (f) {
            add({a, b, c});
            add({a, c, d});
          } else {
            add({a, b, d});
            add({b, c, d});
          }
        } else {
          std::vector<int> q{0, 1, 2};
          int base[3] = {i, j, k};
          do {
            std::vector<int> c;
            int at[3] = {0, 0, 0};
            auto put = [&]() {
              int y[3];
              for (int a = 0; a < 3; ++a) y[a] = base[a] + ((flip >> (a % 2)) & 1 && a < 2 ? 1 - at[a] : at[a]);
              c.push_back(vid(y[0], y[1], y[2]));
            };
            put();
            for (int t = 0; t < 3; ++t) {
              at[q[st(t)]] = 1;
              put();
            }
            add(c);
          } while (std::next_permutation(q.begin(), q.end()));
        }
      }
  std::vector<int> used(st(n[0] * n[1] * n[2]), -1);
  std::vector<int> list;
  for (auto& c : cells)
    for (int v : c)
      if (used[st(v)] < 0) {
        used[st(v)] = 1;
        list.push_back(v);
      }
  if (s.chance(50)) {
    auto pm = s.permutation(int(list.size()));
    std::vector<int> l2;
    for (int i : pm) l2.push_back(list[st(i)]);
    list = l2;
  }
  for (st i = 0; i < list.size(); ++i) used[st(list[i])] = int(i);
  Real jit = s.pick({0., 0.1, 0.2}) * p.unit;
  for (int v : list) {
    int ix[3] = {v % n[0], (v / n[0]) % n[1], v / n[0] / n[1]};
    for (int a = 0; a < dim; ++a) {
      Real x = lines[a][st(ix[a])];
      if ((lab[a][st(ix[a])] & 1) && jit > 0) x += jit * (double(s.range(0, 16)) / 8 - 1);
      p.x.push_back(x);
    }
  }
  if (s.chance(50)) {
    auto pm = s.permutation(int(cells.size()));
    auto c2 = cells;
    for (st i = 0; i < cells.size(); ++i) c2[i] = cells[st(pm[i])];
    cells = c2;
  }
  for (auto& c : cells) {
    std::vector<LO> v;
    for (int y : c) v.push_back(used[st(y)]);
    if (simplex_measure(dim, p.x, v.data()) < 0) std::swap(v[0], v[1]);
    p.volume += simplex_measure(dim, p.x, v.data()) / (dim == 1 ? 1 : dim == 2 ? 2 : 6);
    p.ev.insert(p.ev.end(), v.begin(), v.end());
  }
  p.volume = 0;
  for (int i = 0; i < p.ne(); ++i) {
    Real q = simplex_measure(dim, p.x, &p.ev[st(i * (dim + 1))]);
    if (!(q > 0)) throw Discard();
    p.volume += q;
  }
  p.spacing = p.unit;
  s.desc(dim, "D ", M.nm[0], "x", M.nm[1], "x", M.nm[2], " regions, ", p.ne(), " elements, unit ", p.unit);
  return p;
}
// the mesh, on this process alone, with classification
inline Mesh build_serial(Env& e, Problem const& p) {
  Mesh m(e.lib);
  build_from_elems_and_coords(&m, OMEGA_H_SIMPLEX, p.mod.dim, mk(p.ev), mk(p.x));
  for (int d = 0; d <= p.mod.dim; ++d) {
    auto v = hv(d == 0 ? LOs(m.nverts(), 0, 1) : m.ask_verts_of(d));
    std::vector<I8> cd;
    std::vector<LO> ci;
    for (int i = 0; i < m.nents(d); ++i) {
      std::vector<std::vector<Real>> c;
      for (int j = 0; j <= d; ++j) {
        int y = v[st(i * (d + 1) + j)];
        c.push_back(std::vector<Real>(p.x.begin() + y * p.mod.dim, p.x.begin() + (y + 1) * p.mod.dim));
      }
      auto k = p.mod.classify(c);
      PCHECK(k.first >= d, "generator: classification");
      cd.push_back(I8(k.first));
      ci.push_back(k.second);
    }
    m.add_tag<I8>(d, "class_dim", 1, mk(cd));
    m.add_tag<ClassId>(d, "class_id", 1, mk(ci));
  }
  return m;
}
// a target size field
struct MetricFn {
  int dim = 2;
  bool iso = true;
  int kind = 0;  // 0 constant, 1 varying along an axis, 2 thin layer, 3 random per position
  Real h0 = 1, h1 = 1, ratio = 1, ang = 0, ang2 = 0;
  bool vary = false;  // directions and stretching vary in space too
  int axis = 0;
  Real lo = 0, hi = 1;
  u64 salt = 0;
  Real unit = 1;
  bool constant() const { return kind == 0 && (iso || !vary); }
  Real size(Real const* x) const {
    Real t = (x[axis] - lo) / (hi - lo);
    switch (kind) {
      case 0: return h0;
      case 1: return h0 + (h1 - h0) * t;
      case 2: return std::min(std::max(h0, h1), std::min(h0, h1) + std::fabs(t - 0.5) * unit);
      default: {
        u64 h = salt;
        for (int a = 0; a < dim; ++a) {
          I64 b;
          Real y = x[a] + 0.;
          std::memcpy(&b, &y, 8);
          h = mix64(h ^ u64(b));
        }
        return h0 + (h1 - h0) * (double(h >> 11) / 9007199254740992.0);
      }
    }
  }
  // row-major matrix
  void matrix(Real const* x, Real M[3][3]) const {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) M[i][j] = 0;
    Real h = size(x);
    if (iso) {
      for (int i = 0; i < dim; ++i) M[i][i] = 1 / (h * h);
      return;
    }
    Real ratio = this->ratio, ang = this->ang;
    if (vary) {
      Real t = (x[axis] - lo) / (hi - lo);
      ratio = std::pow(ratio, std::cos(3 * t));
      ang += 1.5 * t;
    }
    Real l[3] = {1 / (h * h), 1 / (h * h * ratio * ratio), 1 / (h * h * ratio)};
    Real c = std::cos(ang), s = std::sin(ang), c2 = std::cos(ang2), s2 = std::sin(ang2);
    Real R[3][3] = {{c, -s, 0}, {s, c, 0}, {0, 0, 1}};
    Real Q[3][3] = {{1, 0, 0}, {0, c2, -s2}, {0, s2, c2}};
    Real P[3][3];
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        P[i][j] = 0;
        for (int k = 0; k < 3; ++k) P[i][j] += dim == 3 ? R[i][k] * Q[k][j] : (k == j ? R[i][k] : 0.);
      }
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j)
        for (int k = 0; k < dim; ++k) M[i][j] += P[i][k] * l[k] * P[j][k];
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < i; ++j) M[i][j] = M[j][i];
  }
  int ncomps() const { return iso ? 1 : dim * (dim + 1) / 2; }
  void put(std::vector<Real>& o, Real const* x) const {
    Real M[3][3];
    matrix(x, M);
    if (iso) {
      o.push_back(M[0][0]);
    } else if (dim == 1) {
      o.push_back(M[0][0]);
    } else if (dim == 2) {
      o.push_back(M[0][0]);
      o.push_back(M[1][1]);
      o.push_back(M[0][1]);
    } else {
      o.push_back(M[0][0]);
      o.push_back(M[1][1]);
      o.push_back(M[2][2]);
      o.push_back(M[0][1]);
      o.push_back(M[1][2]);
      o.push_back(M[0][2]);
    }
  }
  std::string show() const {
    std::ostringstream o;
    o << (iso ? "iso" : vary ? "varying" : "aniso") << kind << " " << h0 / unit << ".." << h1 / unit << (iso ? "" : " ratio ") ;
    if (!iso) o << ratio;
    return o.str();
  }
};
inline MetricFn gen_metric(Src& s, Problem const& p, bool allow_random = true) {
  MetricFn f;
  int dim = p.mod.dim;
  f.dim = dim;
  f.unit = p.unit;
  f.kind = s.weighted({4, 3, 2, allow_random ? 2 : 0});
  f.iso = dim == 1 || s.chance(50);
  Real cap = s.thorough ? (dim == 3 ? 1500 : 2500) : (dim == 1 ? 200 : dim == 2 ? 500 : 500);
  Real hmin = p.unit * (dim == 1 ? 0.1 : dim == 2 ? 0.3 : 0.5);
  f.h0 = p.unit * s.pick({1., 1.4, 0.7, 2.5, 0.5, 0.35, 5.});
  f.h1 = p.unit * s.pick({1., 0.7, 2., 0.5, 4.});
  if (!f.iso) {
    f.ratio = s.pick({1., 2., 0.5, 4., 3.});
    f.ang = s.pick({0., 0.7853981633974483, 0.3, 1.2});
    f.ang2 = s.pick({0., 0.5, 0.7853981633974483});
    f.vary = s.chance(35);
  }
  f.axis = s.range(0, dim - 1);
  f.lo = p.mod.xs[f.axis].front();
  f.hi = p.mod.xs[f.axis].back();
  f.salt = s.below(1000);
  f.h0 = std::max(f.h0, hmin);
  f.h1 = std::max(f.h1, hmin);
  // keep the result affordable: volume over element volume at the smallest size
  for (int it = 0; it < 20; ++it) {
    Real h = f.kind == 0 ? f.h0 : std::min(f.h0, f.h1);
    if (f.kind == 1 || f.kind == 3) h = 0.5 * (h + 0.5 * (f.h0 + f.h1));
    Real det = std::pow(h, dim);
    if (!f.iso) {
      Real q = f.vary ? std::min(f.ratio, 1 / f.ratio) : f.ratio;
      det *= dim == 2 ? q : std::pow(q, 1.5);
    }
    Real ideal = dim == 1 ? 1 : dim == 2 ? 0.433 : 0.1179;
    Real n = p.volume / (dim == 1 ? 1 : dim == 2 ? 2 : 6) / (det * ideal);
    if (n < cap) break;
    f.h0 *= 1.25;
    f.h1 *= 1.25;
  }
  s.desc(f.show());
  return f;
}
inline Reals eval_metric(Mesh& m, MetricFn const& f, std::vector<Real> const* at = nullptr) {
  auto x = at ? *at : hv(m.coords());
  std::vector<Real> o;
  for (int i = 0; i < m.nverts(); ++i) f.put(o, &x[st(i * f.dim)]);
  return mk(o);
}
inline void set_metric(Mesh& m, MetricFn const& f) {
  if (m.has_tag(VERT, "metric")) m.remove_tag(VERT, "metric");
  // remove cached values of another metric
  if (m.has_tag(EDGE, "length")) m.remove_tag(EDGE, "length");
  if (m.has_tag(m.dim(), "quality")) m.remove_tag(m.dim(), "quality");
  m.add_tag(VERT, "metric", f.ncomps(), eval_metric(m, f));
}
inline AdaptOpts gen_opts(Src& s, Mesh& m) {
  AdaptOpts o(&m);
  o.verbosity = SILENT;
  int dim = m.dim();
  switch (s.weighted({6, 2, 1, 1})) {
    case 1: {
      int k = int(s.below(8));
      o.should_refine = k & 1;
      o.should_coarsen = k & 2;
      o.should_swap = k & 4;
      o.should_coarsen_slivers = s.below(2);
      break;
    }
    case 2: o.should_swap = false; break;
    case 3: o.should_coarsen_slivers = false; break;
    default: break;
  }
  o.should_prevent_coarsen_flip = s.chance(30);
  if (dim > 1 && s.chance(40)) {
    o.min_quality_allowed = s.pick({0.05, 0.1, 0.2, 0.3, 0.4});
    o.min_quality_desired = std::max(o.min_quality_allowed, Real(s.pick({0.05, 0.3, 0.4, 0.6, 0.8})));
  }
  if (s.chance(30)) o.nsliver_layers = s.range(0, 5);
  if (s.chance(30)) {
    o.min_length_desired = s.pick({0.3, 0.5, 0.7});
    o.max_length_desired = s.pick({1.4142135623730951, 1.5, 2.});
    o.max_length_allowed = o.max_length_desired * s.pick({2., 1., 1.5, 3.});
  }
  s.desc(o.should_refine ? "R" : "", o.should_coarsen ? "C" : "", o.should_swap ? "S" : "", o.should_coarsen_slivers ? "V" : "", o.should_prevent_coarsen_flip ? "F" : "", " q ",
         o.min_quality_allowed, "/", o.min_quality_desired);
  return o;
}
// spread a mesh built on rank 0 over all processes
inline void distribute(Env& e, Src& s, Mesh& m, Problem const& p) {
  if (e.np == 1) {
    if (m.comm() != e.comm) m.set_comm(e.comm);
    return;
  }
  auto part = gen_part(s, e.np, p.ne());
  // m exists on rank 0 only
  m.set_comm(e.comm);
  migrate_to(m, part);
}
struct GeoCheck {
  std::map<std::pair<int, int>, Real> measure[4];  // [d] of each model entity of dimension d
};
// the mesh is a valid classified complex of the model
inline GeoCheck check_geometry(GMesh const& g, Model const& M, Real tiny) {
  GeoCheck r;
  int dim = g.dim;
  check_complex(g);
  for (auto& kv : g.ents[dim]) {
    Real q = simplex_size(g, kv.second);
    if (!(q > tiny)) PFAIL("element " << kv.first << " has size " << q);
  }
  std::set<GO> used;
  for (auto& kv : g.ents[dim])
    for (auto v : kv.second.vg) used.insert(v);
  if (used.size() != g.ents[0].size()) PFAIL("stray vertices: " << g.ents[0].size() << " vertices, " << used.size() << " used");
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : g.ents[d]) {
      std::vector<std::vector<Real>> c;
      for (auto v : kv.second.vg) c.push_back(coords_of(g, v));
      auto k = M.classify(c);
      if (k.first < 0) PFAIL("entity " << kv.first << " of dimension " << d << " lies outside the model or crosses a model boundary");
      int cd = int(tag_int(g, d, kv.second, "class_dim")), ci = int(tag_int(g, d, kv.second, "class_id"));
      if (cd != k.first || ci != k.second)
        PFAIL("entity " << kv.first << " of dimension " << d << " classified on (" << cd << "," << ci << ") but lies in (" << k.first << "," << k.second << ")");
      if (k.first == d) r.measure[d][k] += embedded_size(g, kv.second);
    }
  // sides: two elements inside a region or between regions, one on the outside
  return r;
}
// the vertices may lie anywhere (curved sides): validity judged by topology alone
struct TopoCheck {
  std::map<std::pair<int, int>, int> euler;             // of the mesh on each model entity (open)
  std::set<std::vector<Real>> corners;
  std::map<std::pair<int, int>, int> sides;             // elements beside the sides on each model side
};
inline bool in_closure(Model const& M, std::pair<int, int> low, std::pair<int, int> high) {
  int a = low.second - 1, b = high.second - 1;
  for (int k = 0; k < M.dim; ++k) {
    int n = 2 * M.nm[k] + 1;
    int x = a % n, y = b % n;
    a /= n;
    b /= n;
    if (x != y && !((y & 1) && std::abs(x - y) == 1)) return false;
  }
  return true;
}
inline TopoCheck check_topology(GMesh const& g, Model const& M) {
  TopoCheck r;
  int dim = g.dim;
  check_complex(g);
  for (auto& kv : g.ents[dim]) {
    Real q = simplex_size(g, kv.second);
    if (!(q > 0)) PFAIL("element " << kv.first << " has size " << q);
  }
  std::map<std::vector<GO>, std::pair<int, int>> cls;
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : g.ents[d]) {
      std::pair<int, int> k{int(tag_int(g, d, kv.second, "class_dim")), int(tag_int(g, d, kv.second, "class_id"))};
      if (k.first < d || k.first > dim) PFAIL("entity " << kv.first << " of dimension " << d << " classified on dimension " << k.first);
      cls[sorted(kv.second.vg)] = k;
      r.euler[k] += d % 2 ? -1 : 1;
      if (d == 0 && k.first == 0) r.corners.insert(coords_of(g, kv.first));
    }
  for (int d = 1; d <= dim; ++d)
    for (auto& kv : g.ents[d]) {
      auto v = sorted(kv.second.vg);
      auto k = cls[v];
      for (st skip = 0; skip < v.size(); ++skip) {
        std::vector<GO> f;
        for (st j = 0; j < v.size(); ++j)
          if (j != skip) f.push_back(v[j]);
        auto it = cls.find(f);
        if (it == cls.end()) PFAIL("entity " << kv.first << " of dimension " << d << " lacks a bounding entity");
        if (!in_closure(M, it->second, k))
          PFAIL("entity on model (" << it->second.first << "," << it->second.second << ") bounds an entity on model (" << k.first << "," << k.second << ")");
      }
    }
  std::map<std::vector<GO>, int> cnt;
  for (auto& kv : side_uses(g)) cnt[kv.first] = int(kv.second.size());
  for (auto& kv : g.ents[dim - 1]) {
    auto k = cls[sorted(kv.second.vg)];
    int c = cnt[sorted(kv.second.vg)];
    if (k.first == dim && c != 2) PFAIL("side " << kv.first << " inside a region has " << c << " elements");
    if (k.first != dim - 1) continue;
    auto it = r.sides.find(k);
    if (it != r.sides.end() && it->second != c) PFAIL("model side " << k.second << " has sides with " << it->second << " and " << c << " elements");
    r.sides[k] = c;
  }
  return r;
}
inline void same_topology(TopoCheck const& a, TopoCheck const& b) {
  if (a.euler != b.euler) {
    for (auto& kv : a.euler) {
      auto it = b.euler.find(kv.first);
      if (it == b.euler.end()) PFAIL("model entity (" << kv.first.first << "," << kv.first.second << ") lost its mesh");
      if (it->second != kv.second) PFAIL("the mesh on model entity (" << kv.first.first << "," << kv.first.second << ") changed its Euler characteristic from " << kv.second << " to " << it->second);
    }
    PFAIL("mesh on a new model entity");
  }
  if (a.corners != b.corners) PFAIL("the vertices at the corners of the model changed");
  if (a.sides != b.sides) PFAIL("the sides on the outside changed");
}
// bend the problem's coordinates; classification stays that of the flat one
// strong: with sides so hollow that coarse elements can reach across
inline std::vector<Real> curved_coords(Src& s, Problem const& p, bool strong = false, bool mild = false) {
  int dim = p.mod.dim;
  Real L = 0;
  for (int a = 0; a < dim; ++a) L = std::max(L, p.mod.xs[a].back() - p.mod.xs[a].front());
  Real amp = s.pick({0.15, 0.3, 0.05, 0.6}) * L, k = s.pick({1., 2., 3.5, 6.}) / L;
  int kind = s.range(0, 2);
  if (kind == 0 && !strong) amp = std::min(amp, 0.15 * L);
  if (mild) {
    amp = std::min(amp, 0.05 * L);
    if (kind == 1) kind = 0;
  }
  std::vector<Real> x = p.x;
  for (int i = 0; i < p.nv(); ++i) {
    Real const* q = &p.x[st(i * dim)];
    Real* o = &x[st(i * dim)];
    Real u[3];
    for (int a = 0; a < dim; ++a) u[a] = q[a] - p.mod.xs[a].front();
    if (kind == 0) {
      for (int a = 0; a < dim; ++a) o[a] = q[a] + amp * 0.5 * std::sin(k * u[(a + 1) % dim] + a);
    } else if (kind == 1 && dim > 1) {  // bend into a sector
      Real r = L * (strong ? 0.5 : 1) + u[0], t = 1.2 * k * u[1];
      if (k * L > 5) t /= 2;
      if (!strong) t = (0.3 + 0.1 * k * L) * u[1] / L;
      o[0] = r * std::cos(t);
      o[1] = r * std::sin(t);
    } else {  // bulge
      Real r2 = 0;
      for (int a = 0; a < dim; ++a) r2 += std::pow(2 * u[a] / L - 1, 2);
      for (int a = 0; a < dim; ++a) o[a] = (u[a] - L / 2) * (1 - amp / L * (r2 - 0.5) * 0.5);
    }
  }
  for (int i = 0; i < p.ne(); ++i)
    if (!(simplex_measure(dim, x, &p.ev[st(i * (dim + 1))]) > 1e-3 * std::pow(p.unit, dim))) throw Discard();
  s.desc("curved", kind, " ", amp / L, " ", k * L);
  return x;
}
// collective
inline std::pair<Real, Real> coord_bounds(Mesh& m, int axis) {
  auto h = HostRead<Real>(m.coords());
  Real lo = 1e300, hi = -1e300;
  for (LO i = axis; i < h.size(); i += m.dim()) {
    lo = std::min(lo, h[i]);
    hi = std::max(hi, h[i]);
  }
  return {m.comm()->allreduce(lo, OMEGA_H_MIN), m.comm()->allreduce(hi, OMEGA_H_MAX)};
}
inline void same_measures(GeoCheck const& a, GeoCheck const& b, int dim) {
  for (int d = 0; d <= dim; ++d) {
    if (a.measure[d].size() != b.measure[d].size())
      PFAIL("number of model entities of dimension " << d << " with mesh on them changed from " << a.measure[d].size() << " to " << b.measure[d].size());
    for (auto& kv : a.measure[d]) {
      auto it = b.measure[d].find(kv.first);
      if (it == b.measure[d].end()) PFAIL("model entity (" << kv.first.first << "," << kv.first.second << ") lost its mesh");
      if (std::fabs(it->second - kv.second) > 1e-9 * kv.second) PFAIL("measure of model entity (" << kv.first.first << "," << kv.first.second << ") changed from " << kv.second << " to " << it->second);
    }
  }
}
}  // namespace pbt
#endif
