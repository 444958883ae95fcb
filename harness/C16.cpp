// C16: quality floor, length ranges, and stopping only when no permitted
// modification is left.  Quality and lengths are computed here from scratch.
#include <Omega_h_coarsen.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_swap.hpp>
#include "adapt.hpp"
using namespace pbt;
namespace {
typedef long double LD;
struct Sym {
  LD a[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
};
struct G {
  int dim = 0, mc = 1;
  std::vector<std::vector<LD>> x;
  std::vector<Sym> m;
  std::vector<LD> det;
  std::vector<int> vcd;
  std::vector<std::array<int, 4>> el;
  std::vector<LD> q;
  std::vector<std::array<int, 2>> ed;
  std::vector<int> ecd;
  std::vector<LD> len;
  std::vector<LD> libq, libl;  // as the library stored them, if it did
  std::vector<std::vector<int>> v2el, e2el;
  std::map<std::pair<int, int>, int> find_edge;
};
LD det_of(Sym const& s, int n) {
  auto& a = s.a;
  if (n == 1) return a[0][0];
  if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
  return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
Sym sym_of(std::vector<LD> const& c, int dim) {
  Sym s;
  if (c.size() == 1) {
    for (int i = 0; i < dim; ++i) s.a[i][i] = c[0];
  } else if (dim == 2) {
    s.a[0][0] = c[0];
    s.a[1][1] = c[1];
    s.a[0][1] = s.a[1][0] = c[2];
  } else {
    for (int i = 0; i < 3; ++i) s.a[i][i] = c[st(i)];
    s.a[0][1] = s.a[1][0] = c[3];
    s.a[1][2] = s.a[2][1] = c[4];
    s.a[0][2] = s.a[2][0] = c[5];
  }
  return s;
}
LD sq_in(Sym const& s, std::vector<LD> const& a, std::vector<LD> const& b, int dim) {
  LD r = 0;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) r += (b[st(i)] - a[st(i)]) * s.a[i][j] * (b[st(j)] - a[st(j)]);
  return r;
}
LD length(G const& g, int i, int j) {
  LD a = std::sqrt(sq_in(g.m[st(i)], g.x[st(i)], g.x[st(j)], g.dim)), b = std::sqrt(sq_in(g.m[st(j)], g.x[st(i)], g.x[st(j)], g.dim));
  if (std::fabs(a - b) < 1e-6L * (a + b)) return (a + b) / 2;
  return (a - b) / std::log(a / b);
}
LD signed_det(std::vector<LD> const* p[], int dim) {
  LD b[3][3];
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) b[i][j] = (*p[i + 1])[st(j)] - (*p[0])[st(j)];
  if (dim == 1) return b[0][0];
  if (dim == 2) return b[0][0] * b[1][1] - b[0][1] * b[1][0];
  return b[0][0] * (b[1][1] * b[2][2] - b[1][2] * b[2][1]) - b[0][1] * (b[1][0] * b[2][2] - b[1][2] * b[2][0]) + b[0][2] * (b[1][0] * b[2][1] - b[1][1] * b[2][0]);
}
LD quality(std::vector<LD> const* p[], Sym const* const ms[], LD const dets[], int dim) {
  if (dim == 1) return 1;
  int k = 0;
  for (int i = 1; i <= dim; ++i)
    if (dets[i] > dets[k]) k = i;
  LD msl = 0;
  int ne = 0;
  for (int i = 0; i <= dim; ++i)
    for (int j = 0; j < i; ++j) {
      msl += sq_in(*ms[k], *p[i], *p[j], dim);
      ++ne;
    }
  msl /= ne;
  LD s = signed_det(p, dim) / (dim == 2 ? 2 : 6) * std::sqrt(det_of(*ms[k], dim));
  if (s <= 0) return s;
  LD eq = dim == 2 ? std::sqrt(3.L) / 4 : 1 / (6 * std::sqrt(2.L));
  return std::pow(s / eq, 2.L / dim) / msl;
}
LD elem_quality(G const& g, int const* v) {
  std::vector<LD> const* p[4];
  Sym const* ms[4];
  LD d[4];
  for (int i = 0; i <= g.dim; ++i) {
    p[i] = &g.x[st(v[i])];
    ms[i] = &g.m[st(v[i])];
    d[i] = g.det[st(v[i])];
  }
  return quality(p, ms, d, g.dim);
}
G make(GMesh const& gm) {
  G g;
  g.dim = gm.dim;
  std::map<GO, int> id;
  auto tm = gm.tag(0, "metric");
  PCHECK(tm, "the metric is gone");
  g.mc = tm->ncomps;
  for (auto& kv : gm.ents[0]) {
    id[kv.first] = int(g.x.size());
    auto x = coords_of(gm, kv.first);
    g.x.push_back(std::vector<LD>(x.begin(), x.end()));
    std::vector<LD> c;
    for (int i = 0; i < g.mc; ++i) c.push_back(real_of(kv.second.pay[st(tm->offset + i)]));
    g.m.push_back(sym_of(c, g.dim));
    g.det.push_back(det_of(g.m.back(), g.dim));
    if (!(g.det.back() > 0)) PFAIL("metric at vertex " << kv.first << " has determinant " << double(g.det.back()));
    g.vcd.push_back(int(tag_int(gm, 0, kv.second, "class_dim")));
  }
  g.v2el.resize(g.x.size());
  for (auto& kv : gm.ents[1]) {
    int a = id[kv.second.vg[0]], b = id[kv.second.vg[1]];
    g.find_edge[{std::min(a, b), std::max(a, b)}] = int(g.ed.size());
    g.ed.push_back({a, b});
    g.ecd.push_back(int(tag_int(gm, 1, kv.second, "class_dim")));
    g.len.push_back(length(g, a, b));
    if (auto t = gm.tag(1, "length")) g.libl.push_back(real_of(kv.second.pay[st(t->offset)]));
  }
  g.e2el.resize(g.ed.size());
  for (auto& kv : gm.ents[g.dim]) {
    std::array<int, 4> v{};
    for (int i = 0; i <= g.dim; ++i) v[st(i)] = id[kv.second.vg[st(i)]];
    int e = int(g.el.size());
    for (int i = 0; i <= g.dim; ++i) {
      g.v2el[st(v[st(i)])].push_back(e);
      for (int j = 0; j < i; ++j) {
        auto it = g.find_edge.find({std::min(v[st(i)], v[st(j)]), std::max(v[st(i)], v[st(j)])});
        PCHECK(it != g.find_edge.end(), "missing edge");
        g.e2el[st(it->second)].push_back(e);
      }
    }
    g.el.push_back(v);
    g.q.push_back(elem_quality(g, v.data()));
    if (auto t = gm.tag(g.dim, "quality")) g.libq.push_back(real_of(kv.second.pay[st(t->offset)]));
  }
  return g;
}
LD minq(G const& g) { return *std::min_element(g.q.begin(), g.q.end()); }
LD minl(G const& g) { return *std::min_element(g.len.begin(), g.len.end()); }
LD maxl(G const& g) { return *std::max_element(g.len.begin(), g.len.end()); }
const LD EPS = 1e-7L;
// gather with the library's own measures, which must agree
G measured(Env& e, Mesh& m, GMesh* out = nullptr) {
  m.ask_qualities();
  m.ask_lengths();
  auto gm = gather_checked(e, m);
  auto g = make(gm);
  PCHECK(g.libq.size() == g.q.size() && g.libl.size() == g.len.size(), "no quality or length tag");
  for (st i = 0; i < g.q.size(); ++i) {
    if (std::fabs(g.libq[i] - g.q[i]) < 1e-7L) continue;
    // vertices with nearly the same determinant: either metric will do
    bool tie = false;
    for (int j = 0; j <= g.dim; ++j)
      for (int k = 0; k < j; ++k) {
        LD dj = g.det[st(g.el[i][st(j)])], dk = g.det[st(g.el[i][st(k)])];
        tie |= std::fabs(dj - dk) < 1e-9L * dj;
      }
    if (!tie) PFAIL("an element's quality is reported as " << double(g.libq[i]) << ", is " << double(g.q[i]));
  }
  for (st i = 0; i < g.len.size(); ++i)
    if (std::fabs(g.libl[i] - g.len[i]) > 1e-5L * g.len[i] + std::min(1e-3L, 2e-7L / g.len[i])) PFAIL("an edge's length is reported as " << double(g.libl[i]) << ", is " << double(g.len[i]));
  if (out) *out = gm;
  return g;
}
// edges by the places of their ends
std::set<std::vector<LD>> edge_places(G const& g) {
  std::set<std::vector<LD>> r;
  for (auto& e : g.ed) {
    auto a = g.x[st(e[0])], b = g.x[st(e[1])];
    if (b < a) std::swap(a, b);
    a.insert(a.end(), b.begin(), b.end());
    r.insert(a);
  }
  return r;
}
// worst quality of the elements made by splitting edge e; metrics isotropic or constant
LD split_quality(G const& g, int e) {
  int a = g.ed[st(e)][0], b = g.ed[st(e)][1];
  std::vector<LD> mx;
  for (int i = 0; i < g.dim; ++i) mx.push_back((g.x[st(a)][st(i)] + g.x[st(b)][st(i)]) / 2);
  Sym mm = g.m[st(a)];
  if (g.mc == 1) {
    LD h = std::sqrt(g.m[st(a)].a[0][0] * g.m[st(b)].a[0][0]);
    for (int i = 0; i < g.dim; ++i) mm.a[i][i] = h;
  }
  LD md = det_of(mm, g.dim), worst = 1;
  for (int el : g.e2el[st(e)])
    for (int k : {a, b}) {
      std::vector<LD> const* p[4];
      Sym const* ms[4];
      LD d[4];
      for (int i = 0; i <= g.dim; ++i) {
        int v = g.el[st(el)][st(i)];
        p[i] = v == k ? &mx : &g.x[st(v)];
        ms[i] = v == k ? &mm : &g.m[st(v)];
        d[i] = v == k ? md : g.det[st(v)];
      }
      worst = std::min(worst, quality(p, ms, d, g.dim));
    }
  return worst;
}
// collapse of vertex a onto b: worst new quality and longest new edge
std::pair<LD, LD> collapse(G const& g, int a, int b) {
  LD q = 1, l = 0;
  std::set<int> nb;
  for (int el : g.v2el[st(a)]) {
    auto v = g.el[st(el)];
    bool dies = false;
    for (int i = 0; i <= g.dim; ++i) {
      dies |= v[st(i)] == b;
      if (v[st(i)] != a) nb.insert(v[st(i)]);
      else v[st(i)] = b;
    }
    if (dies && std::count(v.begin(), v.begin() + g.dim + 1, b) > 1) continue;
    q = std::min(q, elem_quality(g, v.data()));
  }
  for (int n : nb)
    if (n != b) l = std::max(l, length(g, b, n));
  return {q, l};
}
// best worst-quality reachable by swapping interior edge e
LD best_swap(G const& g, int e, LD max_len) {
  int a = g.ed[st(e)][0], b = g.ed[st(e)][1];
  if (g.dim == 2) {
    if (g.e2el[st(e)].size() != 2) return -1;
    int o[2];
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 3; ++j) {
        int v = g.el[st(g.e2el[st(e)][st(i)])][st(j)];
        if (v != a && v != b) o[i] = v;
      }
    if (length(g, o[0], o[1]) > max_len) return -1;
    LD w = 1;
    for (int k : {a, b}) {
      // of both orientations the one that keeps the side of k
      for (int i = 0; i < 2; ++i) {
        auto v = g.el[st(g.e2el[st(e)][st(i)])];
        for (int j = 0; j < 3; ++j)
          if (v[st(j)] == (k == a ? b : a)) v[st(j)] = o[1 - i];
        w = std::min(w, elem_quality(g, v.data()));
      }
    }
    return w;
  }
  // the ring of vertices around the edge, oriented so that (a, ring i, ring i+1, b) is positive
  std::map<int, int> next;
  for (int el : g.e2el[st(e)]) {
    int r[2], n = 0;
    for (int j = 0; j < 4; ++j) {
      int v = g.el[st(el)][st(j)];
      if (v != a && v != b) r[n++] = v;
    }
    int t[4] = {a, r[0], r[1], b};
    std::vector<LD> const* p[4] = {&g.x[st(t[0])], &g.x[st(t[1])], &g.x[st(t[2])], &g.x[st(t[3])]};
    if (signed_det(p, 3) < 0) std::swap(r[0], r[1]);
    if (next.count(r[0])) return -1;
    next[r[0]] = r[1];
  }
  std::vector<int> ring{next.begin()->first};
  while (ring.size() < next.size()) {
    auto it = next.find(ring.back());
    if (it == next.end()) return -1;
    ring.push_back(it->second);
  }
  if (!next.count(ring.back()) || next[ring.back()] != ring[0]) return -1;
  int n = int(ring.size());
  if (n > 7) return -1;
  auto tri = [&](int i, int j, int k) {
    int t1[4] = {a, ring[st(i)], ring[st(j)], ring[st(k)]}, t2[4] = {ring[st(i)], ring[st(j)], ring[st(k)], b};
    return std::min(elem_quality(g, t1), elem_quality(g, t2));
  };
  std::vector<std::vector<LD>> best(st(n), std::vector<LD>(st(n), 2));
  for (int w = 2; w < n; ++w)
    for (int i = 0; i + w < n; ++i) {
      int j = i + w;
      LD bb = -2;
      bool diag = !(i == 0 && j == n - 1);
      for (int k = i + 1; k < j; ++k) {
        LD v = std::min(std::min(best[st(i)][st(k)], best[st(k)][st(j)]), tri(i, k, j));
        bb = std::max(bb, v);
      }
      if (diag && length(g, ring[st(i)], ring[st(j)]) > max_len) bb = -2;
      best[st(i)][st(j)] = bb;
    }
  return best[0][st(n - 1)];
}
struct Setup {
  Problem p;
  MetricFn f;
  Mesh m;
  AdaptOpts o{3};
  Setup(Env& e) : m(e.lib) {}
};
void setup(Src& s, Env& e, Setup& u, bool known_mid, int mindim = 1) {
  int dim = mindim == 1 ? s.pick({2, 3, 1, 2, 3}) : s.pick({2, 3, 2, 3});
  ProbOpt po;
  po.small = e.np > 1;
  u.p = gen_problem(s, dim, po);
  if (e.np == 1 || e.rank == 0) u.m = build_serial(e, u.p);
  distribute(e, s, u.m, u.p);
  u.f = gen_metric(s, u.p);
  if (known_mid && !u.f.constant()) u.f.iso = true;
  set_metric(u.m, u.f);
  u.o = gen_opts(s, u.m);
  u.o.should_prevent_coarsen_flip = false;
}
// a history of adaptations: floor, lengths, the reported status
void run_floor(Src& s, Env& e) {
  Setup u(e);
  setup(s, e, u, false);
  auto& m = u.m;
  auto& o = u.o;
  int n = s.range(1, s.thorough ? 4 : 2), changed = 0, refused = 0;
  for (int it = 0; it < n; ++it) {
    if (it) {
      if (s.chance(70)) {
        u.f = gen_metric(s, u.p);
        set_metric(m, u.f);
      }
      if (s.chance(60)) {
        o = gen_opts(s, m);
        o.should_prevent_coarsen_flip = false;
      }
    }
    if (s.chance(30)) {  // ranges the mesh is likely to meet
      o.min_length_desired = s.pick({0.01, 0.1, 0.3});
      o.max_length_desired = s.pick({20., 100., 3.});
      o.max_length_allowed = o.max_length_desired * s.pick({1., 2.});
      if (u.p.mod.dim > 1) {
        o.min_quality_allowed = s.pick({0.01, 0.02, 0.1});
        o.min_quality_desired = std::max(o.min_quality_allowed, Real(s.pick({0.01, 0.1, 0.3})));
      }
    }
    GMesh g0;
    auto a = measured(e, m, &g0);
    bool near = false;
    auto geq = [&](LD x, LD y) {
      if (std::fabs(x - y) < 1e-6L * std::max(std::fabs(x), std::fabs(y))) near = true;
      return x >= y;
    };
    bool good = geq(minq(a), o.min_quality_desired);
    good &= geq(minl(a), o.min_length_desired);
    good &= geq(o.max_length_desired, maxl(a));
    bool did = adapt(&m, o);
    auto g1 = gather_checked(e, m);
    if (!near && did == good) PFAIL("adapt returned " << did << " for quality " << double(minq(a)) << ", lengths " << double(minl(a)) << ".." << double(maxl(a)));
    if (!did) {
      same_global(g0, g1, "after an adaptation that reported nothing to do", {"quality", "length"});
      ++refused;
    }
    auto b = make(g1);
    if (did) {
      measured(e, m);
      ++changed;
      LD floor = std::min(minq(a), LD(o.min_quality_allowed));
      if (minq(b) < floor - EPS) PFAIL("quality fell from " << double(minq(a)) << " to " << double(minq(b)) << ", allowed " << o.min_quality_allowed);
      bool bounded = u.f.constant() || !o.should_refine;
      if (bounded) {
        LD lim = std::max(maxl(a), LD(o.max_length_allowed));
        // coarsening by size is bounded by the larger of desired and allowed
        lim = std::max(lim, LD(o.max_length_desired));
        if (maxl(b) > lim * (1 + EPS)) PFAIL("longest edge grew from " << double(maxl(a)) << " to " << double(maxl(b)) << ", allowed " << o.max_length_allowed);
      }
    }
  }
  s.label(changed ? "changed" : "unchanged");
  if (refused) s.label("already in range");
  s.nontrivial(changed > 0);
}
// each operation repeated until it reports it is stuck: nothing permitted is left
void run_stuck(Src& s, Env& e) {
  Setup u(e);
  setup(s, e, u, true);
  auto& m = u.m;
  auto& o = u.o;
  int dim = u.p.mod.dim;
  int n = s.range(1, 3), steps = 0, left = 0;
  for (int it = 0; it < n; ++it) {
    int op = s.weighted({3, 3, dim > 1 ? 3 : 0, dim > 1 ? 2 : 0});
    if (op == 1 && it == 0 && s.chance(70)) {
      // something to coarsen
      auto f2 = u.f;
      f2.h0 *= 2;
      f2.h1 *= 2;
      set_metric(m, f2);
      u.f = f2;
    }
    auto a = measured(e, m);
    // limits that matter
    if (op >= 2 && s.chance(60)) o.max_length_allowed = Real(maxl(a)) * s.pick({0.7, 0.5, 0.85, 0.999});
    int k = 0;
    auto run1 = [&]() {
      switch (op) {
        case 0: return refine_by_size(&m, o);
        case 1: return coarsen_by_size(&m, o);
        case 2: return min_fixable_quality(&m, o) < o.min_quality_desired && swap_edges(&m, o);
        default: return min_fixable_quality(&m, o) < o.min_quality_desired && coarsen_slivers(&m, o);
      }
    };
    while (run1()) {
      ++steps;
      if (++k > 400) PFAIL("operation " << op << " did something 400 times in a row");
    }
    auto b = measured(e, m);
    s.desc("op ", op, " x", k, " ->", b.el.size());
    LD floor = std::min(minq(a), LD(o.min_quality_allowed));
    if (minq(b) < floor - EPS) PFAIL("operation " << op << ": quality fell from " << double(minq(a)) << " to " << double(minq(b)) << ", allowed " << o.min_quality_allowed);
    if (op >= 2 && k && minq(b) < minq(a) - EPS) PFAIL("operation " << op << ": worst quality fell from " << double(minq(a)) << " to " << double(minq(b)));
    if (op) {
      LD lim = op == 1 ? o.max_length_desired : o.max_length_allowed;
      if (maxl(b) > std::max(lim, maxl(a)) * (1 + EPS)) PFAIL("operation " << op << ": longest edge grew from " << double(maxl(a)) << " to " << double(maxl(b)) << ", limit " << double(lim));
      auto old = edge_places(a);
      for (st i = 0; i < b.ed.size(); ++i) {
        if (b.len[i] <= lim * (1 + EPS)) continue;
        auto x = b.x[st(b.ed[i][0])], y = b.x[st(b.ed[i][1])];
        if (y < x) std::swap(x, y);
        x.insert(x.end(), y.begin(), y.end());
        if (!old.count(x)) PFAIL("operation " << op << " made an edge of length " << double(b.len[i]) << ", limit " << double(lim));
      }
      if (op != 2 && b.x.size() > a.x.size()) PFAIL("coarsening added vertices");
      if (op == 2 && b.x.size() != a.x.size()) PFAIL("swapping changed the number of vertices");
    } else {
      if (b.x.size() < a.x.size()) PFAIL("refinement removed vertices");
    }
    if (op == 0) {
      for (st i = 0; i < b.ed.size(); ++i) {
        if (b.len[i] < o.max_length_desired * (1 + 1e-6L)) continue;
        LD q = split_quality(b, int(i));
        ++left;
        if (q > o.min_quality_allowed + EPS) PFAIL("refinement stopped with an edge of length " << double(b.len[i]) << " whose split has quality " << double(q) << ", allowed " << o.min_quality_allowed);
      }
    } else if (op == 1 || op == 3) {
      for (int v = 0; v < int(b.x.size()); ++v) {
        if (b.vcd[st(v)] != dim) continue;
        bool cand = false;
        std::set<int> nb;
        LD oldq = 2;
        for (int el : b.v2el[st(v)]) {
          oldq = std::min(oldq, b.q[st(el)]);
          if (op == 3 && b.q[st(el)] < o.min_quality_desired - EPS) cand = true;
          for (int i = 0; i <= dim; ++i) nb.insert(b.el[st(el)][st(i)]);
        }
        nb.erase(v);
        if (op == 1)
          for (int w : nb)
            if (length(b, v, w) < o.min_length_desired * (1 - 1e-6L)) cand = true;
        if (!cand) continue;
        ++left;
        for (int w : nb) {
          auto r = collapse(b, v, w);
          LD lim = op == 1 ? o.max_length_desired : o.max_length_allowed;
          if (r.second > lim * (1 - 1e-6L)) continue;
          if (dim > 1 && r.first < o.min_quality_allowed + EPS) continue;
          if (op == 3 && r.first < oldq + EPS) continue;
          PFAIL("coarsening (" << op << ") stopped although an interior vertex with a " << (op == 1 ? "short edge" : "bad element") << " can collapse: new quality " << double(r.first) << " (old "
                               << double(oldq) << ", allowed " << o.min_quality_allowed << "), new length " << double(r.second) << ", limit " << double(lim));
        }
      }
    } else {
      for (st i = 0; i < b.ed.size(); ++i) {
        if (b.ecd[i] != dim) continue;
        LD old = 2;
        for (int el : b.e2el[i]) old = std::min(old, b.q[st(el)]);
        if (old > o.min_quality_desired - EPS) continue;
        ++left;
        LD q = best_swap(b, int(i), o.max_length_allowed * (1 - 1e-6L));
        if (q > old + EPS) PFAIL("swapping stopped although an edge with worst quality " << double(old) << " can be swapped to " << double(q) << " (" << b.e2el[i].size() << " elements around it)");
      }
    }
    if (left) s.label("something left");
  }
  s.nontrivial(steps > 0);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"floor", run_floor, 2500, 60000, {1}, true, "at least one adaptation modified the mesh"});
  t.push_back({"floor_parallel", run_floor, 300, 6000, {2, 4}, true, "at least one adaptation modified the mesh"});
  t.push_back({"stuck", run_stuck, 3000, 60000, {1}, true, "at least one modification was made"});
  t.push_back({"stuck_parallel", run_stuck, 300, 6000, {2, 4}, true, "at least one modification was made"});
  return run(argc, argv, t);
}
