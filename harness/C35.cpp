// C35: marking, closures, classification
#include <Omega_h_class.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_surface.hpp>
#include <cmath>
#include <unordered_set>
#include "adapt.hpp"
using namespace pbt;
typedef std::vector<I8> VI;
typedef std::vector<std::vector<int>> VVI;

// a serial reference mesh and its incidences, from sets of vertices only
struct Ref {
  int dim = 2;
  VVI vs[4];                          // sorted vertices of each entity
  VVI down[4][4], up[4][4];
  void fill(Mesh& m) {
    dim = m.dim();
    for (int d = 0; d <= dim; ++d) {
      vs[d].clear();
      if (d == 0)
        for (int i = 0; i < m.nverts(); ++i) vs[0].push_back({i});
      else
        for (auto& e : verts_of(m, d)) {
          std::vector<int> v(e.begin(), e.end());
          std::sort(v.begin(), v.end());
          vs[d].push_back(v);
        }
    }
    for (int h = 0; h <= dim; ++h)
      for (int l = 0; l < h; ++l) {
        down[h][l].assign(vs[h].size(), {});
        up[l][h].assign(vs[l].size(), {});
        std::vector<std::vector<int>> at(vs[0].size());
        for (st i = 0; i < vs[h].size(); ++i)
          for (int v : vs[h][i]) at[st(v)].push_back(int(i));
        for (st j = 0; j < vs[l].size(); ++j)
          for (int i : at[st(vs[l][j][0])])
            if (std::includes(vs[h][st(i)].begin(), vs[h][st(i)].end(), vs[l][j].begin(), vs[l][j].end())) {
              down[h][l][st(i)].push_back(int(j));
              up[l][h][j].push_back(i);
            }
      }
  }
  VI mark_down(int h, int l, VI const& m) const {
    if (h == l) return m;
    VI r(vs[l].size(), 0);
    for (st i = 0; i < m.size(); ++i)
      if (m[i])
        for (int j : down[h][l][i]) r[st(j)] = 1;
    return r;
  }
  VI mark_up(int l, int h, VI const& m, bool all) const {
    VI r(vs[h].size(), 0);
    for (st i = 0; i < r.size(); ++i) {
      int c = 0;
      for (int j : down[h][l][i]) c += m[st(j)] != 0;
      r[i] = all ? c == int(down[h][l][i].size()) : c > 0;
    }
    return r;
  }
};
struct Par {
  Mesh m;
  Par(Env& e) : m(e.lib) {}
  std::vector<int> g[4];
  VI own[4];
};
static void distribute(Src& s, Env& e, Par& P, std::function<Mesh()> make, int ne, Omega_h_Parting pt, int layers) {
  auto part = gen_part(s, e.np, ne);
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = make();
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, part);
  if (pt != OMEGA_H_ELEM_BASED) m.set_parting(pt, layers, false);
  P.m = m;
  for (int d = 0; d <= m.dim(); ++d) {
    for (auto x : hv(P.m.globals(d))) P.g[d].push_back(int(x));
    P.own[d] = hv(P.m.owned(d));
  }
}
static void expect(Par& P, int d, VI const& got, VI const& want, std::string const& what, bool owned_only = false) {
  if (got.size() != P.g[d].size()) PFAIL(what << ": " << got.size() << " marks for " << P.g[d].size() << " entities");
  for (st i = 0; i < got.size(); ++i) {
    if (owned_only && !P.own[d][i]) continue;
    if ((got[i] != 0) != (want[st(P.g[d][i])] != 0)) PFAIL(what << ": entity " << P.g[d][i] << " of dimension " << d << (P.own[d][i] ? "" : " (copy)") << " marked " << int(got[i]) << ", should be " << int(want[st(P.g[d][i])]));
  }
}
static VI to_local(Par& P, int d, VI const& v) {
  VI r;
  for (int g : P.g[d]) r.push_back(v[st(g)]);
  return r;
}
void t_marks(Src& s, Env& e) {
  auto fam = s.chance(65) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  if (dim == 1) fam = OMEGA_H_SIMPLEX;
  RawOpt ro;
  ro.max_cells = dim == 3 ? 8 : 10;
  ro.subset = s.chance(40);
  auto r = gen_raw(s, fam, dim, ro);
  Env f = e;
  f.comm = e.lib->self();
  f.rank = 0;
  f.np = 1;
  u64 salt = s.below(10000);
  int ndims = s.range(1, dim + 1), nids = s.pick({2, 4, 1, 30});
  ClassSets sets;
  int nsets = s.range(1, 3);
  auto some_pairs = [&]() {
    std::vector<ClassPair> p;
    int n = s.range(0, 4);
    for (int i = 0; i < n; ++i) p.push_back(ClassPair(s.range(0, dim), LO(s.range(0, nids))));
    return p;
  };
  for (int i = 0; i < nsets; ++i) sets["s" + std::to_string(i)] = some_pairs();
  std::vector<VI> cd;
  std::vector<std::vector<int>> ci;
  auto make = [&]() {
    Mesh m = build_raw(f, r);
    for (int d = 0; d <= dim; ++d) {
      std::vector<I8> a;
      std::vector<LO> b;
      for (int i = 0; i < m.nents(d); ++i) {
        u64 h = mix64(salt + u64(d) * 7001 + u64(i));
        a.push_back(I8(std::min<int>(dim, d + int((h >> 20) % u64(ndims)))));
        b.push_back(LO(h % u64(nids)) - (nids == 4 ? 1 : 0));
      }
      m.add_tag<I8>(d, "class_dim", 1, mk(a));
      m.add_tag<ClassId>(d, "class_id", 1, mk(b));
    }
    m.class_sets = sets;
    return m;
  };
  Mesh ser = make();
  ser.set_comm(f.comm);
  Ref R;
  R.fill(ser);
  for (int d = 0; d <= dim; ++d) {
    cd.push_back(hv(ser.get_array<I8>(d, "class_dim")));
    ci.push_back(hv(ser.get_array<ClassId>(d, "class_id")));
  }
  auto pt = s.chance(50) ? OMEGA_H_GHOSTED : s.chance(60) ? OMEGA_H_ELEM_BASED : OMEGA_H_VERT_BASED;
  int layers = pt == OMEGA_H_GHOSTED ? s.range(1, 2) : 1;
  Par P(e);
  distribute(s, e, P, make, r.ne(), pt, layers);
  P.m.class_sets = sets;
  auto& m = P.m;
  s.label(pt == OMEGA_H_GHOSTED ? "ghosted" : pt == OMEGA_H_ELEM_BASED ? "by elements" : "by vertices");
  s.desc(fam_name(fam), dim, "D ", r.ne(), " elements, np ", e.np);
  s.nontrivial(r.ne() > 1);
  VI gm[4];
  int dens = s.pick({20, 50, 5, 90});
  for (int d = 0; d <= dim; ++d)
    for (st i = 0; i < R.vs[d].size(); ++i) gm[d].push_back(I8(int(mix64(salt * 3 + u64(d) * 911 + i) % 100) < dens));
  auto lm = [&](int d) { return mk(to_local(P, d, gm[d])); };
  // sides
  {
    VI w;
    for (auto& u : R.up[dim - 1][dim]) w.push_back(I8(u.size() < 2));
    if (e.np == 1 || pt == OMEGA_H_GHOSTED) expect(P, dim - 1, hv(mark_exposed_sides(&m)), w, "exposed sides", true);
  }
  for (int a = 0; a <= dim; ++a)
    for (int b = 0; b <= dim; ++b) {
      std::ostringstream n;
      n << " from " << a << " to " << b;
      if (a >= b) {
        expect(P, b, hv(mark_down(&m, a, b, lm(a))), R.mark_down(a, b, gm[a]), "mark_down" + n.str());
        expect(P, b, hv(mark_adj(&m, a, b, lm(a))), R.mark_down(a, b, gm[a]), "mark_adj" + n.str());
      } else {
        expect(P, b, hv(mark_up(&m, a, b, lm(a))), R.mark_up(a, b, gm[a], false), "mark_up" + n.str());
        expect(P, b, hv(mark_adj(&m, a, b, lm(a))), R.mark_up(a, b, gm[a], false), "mark_adj" + n.str());
        expect(P, b, hv(mark_up_all(&m, a, b, lm(a))), R.mark_up(a, b, gm[a], true), "mark_up_all" + n.str());
      }
    }
  // model entities
  int qd = s.range(0, dim), qi = s.range(-1, nids);
  auto with_class = [&](int d, int c, std::set<int> const* ids) {
    VI w;
    for (st i = 0; i < R.vs[d].size(); ++i) w.push_back(I8(cd[st(d)][i] == c && (!ids || ids->count(ci[st(d)][i]))));
    return w;
  };
  std::set<int> one{qi};
  for (int d = 0; d <= dim; ++d) {
    expect(P, d, hv(mark_by_class_dim(&m, d, qd)), with_class(d, qd, nullptr), "mark_by_class_dim");
    expect(P, d, hv(mark_by_class(&m, d, qd, qi)), with_class(d, qd, &one), "mark_by_class");
    if (d <= qd) expect(P, d, hv(mark_class_closure(&m, d, qd, qi)), R.mark_down(qd, d, with_class(qd, qd, &one)), "mark_class_closure");
    std::vector<ClassId> ids;
    int n = s.range(0, 4);
    for (int i = 0; i < n; ++i) ids.push_back(s.range(-1, nids));
    std::set<int> si(ids.begin(), ids.end());
    if (d <= qd) expect(P, d, hv(mark_class_closures(&m, d, qd, ids)), R.mark_down(qd, d, with_class(qd, qd, &si)), "mark_class_closures of ids");
    auto of_pairs = [&](std::vector<ClassPair> const& p, int low) {
      VI w(R.vs[d].size(), 0);
      for (auto& x : p)
        if (x.dim >= low) {
          std::set<int> i1{x.id};
          auto k = R.mark_down(x.dim, d, with_class(x.dim, x.dim, &i1));
          for (st i = 0; i < w.size(); ++i) w[i] = I8(w[i] | k[i]);
        }
      return w;
    };
    auto pr = some_pairs();
    expect(P, d, hv(mark_class_closures(&m, d, pr)), of_pairs(pr, d), "mark_class_closures of pairs");
    // by name
    std::set<std::string> names;
    std::vector<ClassPair> np;
    for (auto& x : sets)
      if (s.chance(50)) {
        names.insert(x.first);
        np.insert(np.end(), x.second.begin(), x.second.end());
      }
    auto on = hv(ents_on_closure(&m, names, d));
    VI om(P.g[d].size(), 0);
    int last = -1;
    for (auto x : on) {
      if (x <= last) PFAIL("ents_on_closure lists " << x << " after " << last);
      om[st(x)] = 1;
      last = x;
    }
    expect(P, d, om, of_pairs(np, d), "ents_on_closure");
    if (d == 0 && (e.np == 1)) {
      // the mesh's own vertices as nodes
      Graph n2e[4];
      for (int k = 0; k <= dim; ++k) n2e[k] = k == 0 ? identity_graph(m.nverts()) : m.ask_up(0, k);
      expect(P, 0, hv(mark_class_closures(&m, pr, n2e)), of_pairs(pr, 0), "mark_class_closures of nodes");
      auto no = hv(nodes_on_closure(&m, names, n2e));
      VI nm(P.g[0].size(), 0);
      for (auto x : no) nm[st(x)] = 1;
      expect(P, 0, nm, of_pairs(np, 0), "nodes_on_closure");
    }
    GO want = 0;
    for (auto x : gm[d]) want += x != 0;
    GO got = count_owned_marks(&m, d, lm(d));
    if (got != want) PFAIL("count_owned_marks counts " << got << " of " << want);
  }
  if (pt == OMEGA_H_GHOSTED) {
    auto grow = [&](VI w, int n) {
      for (int i = 0; i < n; ++i) {
        auto o = w;
        for (auto& u : R.up[dim - 1][dim])
          for (int a : u)
            for (int b : u)
              if (w[st(a)]) o[st(b)] = 1;
        w = o;
      }
      return w;
    };
    int nl = s.range(0, 3);
    expect(P, dim, hv(mark_dual_layers(&m, lm(dim), nl)), grow(gm[dim], nl), "mark_dual_layers");
    if (fam == OMEGA_H_SIMPLEX) {
      // quality without a metric is that of the identity
      ser.add_tag<Real>(VERT, "metric", 1, Reals(ser.nverts(), 1.));
      m.add_tag<Real>(VERT, "metric", 1, Reals(m.nverts(), 1.));
      auto q = hv(ser.ask_qualities());
      auto sorted = q;
      std::sort(sorted.begin(), sorted.end());
      Real ceil = sorted[st(s.range(0, int(q.size()) - 1))] * s.pick({1.000001, 0.999999});
      VI w;
      for (auto x : q) {
        if (std::abs(x - ceil) < 1e-9) throw Discard();
        w.push_back(I8(x < ceil));
      }
      expect(P, dim, hv(mark_sliver_layers(&m, ceil, nl)), grow(w, nl), "mark_sliver_layers");
    }
  }
}

// the stated rule for an entity whose own class is not known; adj = classes of
// the entities one dimension up
static std::pair<int, int> below(int d, int own_dim, int own_id, std::vector<std::pair<int, int>> const& adj, bool relaxed) {
  int k = own_dim;
  for (auto& a : adj) k = std::min(k, a.first);
  std::set<int> ids;
  int n = 0;
  if (k == own_dim && own_id != -1) ids.insert(own_id);
  for (auto& a : adj)
    if (a.first == k) {
      ++n;
      ids.insert(a.second);
    }
  if (relaxed || (k == own_dim && own_id == -1)) {
    // unknown ids say nothing
    if (ids.size() > 1) ids.erase(-1);
  }
  int id = ids.empty() ? own_id : *ids.begin();
  if (ids.size() > 1) {
    --k;
    id = -1;
    n = 0;
  }
  if ((k == d + 1 && n != 2) || (k > d + 1 && n < 2)) return {d, -1};
  return {k, id};
}
void t_project(Src& s, Env& e) {
  int dim = s.range(1, 3);
  ProbOpt po;
  po.small = e.np > 1;
  Problem p = gen_problem(s, dim, po);
  Env f = e;
  f.comm = e.lib->self();
  f.rank = 0;
  f.np = 1;
  int keep = s.range(1, dim);  // classes of entities of dimension < keep are unknown
  if (dim > 1) keep = s.range(1, dim - 1);
  bool strip_ids = s.chance(25);
  bool truth_only = s.chance(50);
  u64 salt = s.below(1000);
  int wipe = s.pick({0, 0, 30, 100});
  std::vector<VI> tcd;
  std::vector<std::vector<int>> tci;
  auto make = [&](bool fresh) {
    Mesh m = build_serial(f, p);
    for (int d = 0; d <= dim; ++d) {
      auto a = hv(m.get_array<I8>(d, "class_dim"));
      auto b = hv(m.get_array<ClassId>(d, "class_id"));
      if (fresh) {
        tcd.push_back(a);
        tci.push_back(b);
      }
      m.remove_tag(d, "class_dim");
      m.remove_tag(d, "class_id");
      if (d < keep) continue;
      if (!truth_only && d < dim && d > keep)
        for (st i = 0; i < a.size(); ++i)
          if (int(mix64(salt + u64(d) * 71 + i) % 100) < wipe) a[i] = I8(dim), b[i] = -1;
      m.add_tag<I8>(d, "class_dim", 1, mk(a));
      if (!strip_ids) m.add_tag<ClassId>(d, "class_id", 1, mk(b));
    }
    return m;
  };
  Mesh ser = make(true);
  ser.set_comm(f.comm);
  Ref R;
  R.fill(ser);
  // expectation
  std::vector<std::vector<std::pair<int, int>>> want(static_cast<st>(dim + 1));
  for (int d = dim; d >= 0; --d)
    for (st i = 0; i < R.vs[d].size(); ++i) {
      int od = dim, oi = -1;
      if (ser.has_tag(d, "class_dim")) od = ser.get_array<I8>(d, "class_dim")[LO(i)];
      if (ser.has_tag(d, "class_id")) oi = ser.get_array<ClassId>(d, "class_id")[LO(i)];
      if (d == dim) {
        want[st(d)].push_back({od, oi});
        continue;
      }
      std::vector<std::pair<int, int>> adj;
      for (int h : R.up[d][d + 1][i]) adj.push_back(want[st(d) + 1][st(h)]);
      // known and unknown ids side by side are not consistent input
      bool a = false, b = false;
      int k = od;
      for (auto& x : adj) k = std::min(k, x.first);
      for (auto& x : adj)
        if (x.first == k) (x.second == -1 ? a : b) = true;
      if (a && b) throw Discard();
      want[st(d)].push_back(below(d, od, oi, adj, false));
    }
  auto part_kind = OMEGA_H_GHOSTED;
  Par P(e);
  distribute(s, e, P, [&]() { return make(false); }, p.ne(), part_kind, s.range(1, 2));
  s.desc(dim, "D ", p.ne(), " elements, known from dimension ", keep, strip_ids ? " no ids" : "", ", np ", e.np);
  s.label("known from " + std::to_string(keep));
  s.nontrivial(dim > 1 && p.ne() > 1);
  finalize_classification(&P.m);
  for (int d = 0; d <= dim; ++d) {
    auto a = hv(P.m.get_array<I8>(d, "class_dim"));
    if (P.m.has_tag(d, "class_id") == strip_ids) PFAIL("class_id of dimension " << d << (strip_ids ? " appeared" : " is missing"));
    std::vector<ClassId> b;
    if (!strip_ids) b = hv(P.m.get_array<ClassId>(d, "class_id"));
    for (st i = 0; i < a.size(); ++i) {
      int g = P.g[d][i];
      auto w = want[st(d)][st(g)];
      if (a[i] != w.first || (!strip_ids && b[i] != w.second))
        PFAIL("entity " << g << " of dimension " << d << " got class " << int(a[i]) << (strip_ids ? "" : "/" + std::to_string(b[i])) << ", should be " << w.first << "/" << w.second << ", its neighbours say otherwise");
      // and the model agrees
      if (!strip_ids && d > 0 && truth_only && keep <= dim - 1) {
        if (a[i] != tcd[st(d)][st(g)]) PFAIL("entity " << g << " of dimension " << d << " got class dimension " << int(a[i]) << ", lies in the model on " << int(tcd[st(d)][st(g)]));
        if (b[i] != -1 && b[i] != tci[st(d)][st(g)]) PFAIL("entity " << g << " of dimension " << d << " got class id " << b[i] << ", lies in the model on " << tci[st(d)][st(g)]);
        if (b[i] == -1 && a[i] >= keep) PFAIL("entity " << g << " of dimension " << d << " lost its class id");
      }
    }
  }
  if (e.np == 1) {
    // one dimension only, on top of what is there
    Mesh m = make(false);
    m.set_comm(f.comm);
    int d = s.range(0, dim - 1);
    bool relaxed = s.chance(50);
    std::vector<VI> cd(4);
    std::vector<std::vector<LO>> ci(4);
    for (int k : {d, d + 1}) {
      for (st i = 0; i < R.vs[k].size(); ++i) {
        u64 h = mix64(salt * 5 + u64(k) * 37 + i);
        bool wipe_it = k == d ? (h >> 8) % 100 < 60 : relaxed && (h >> 8) % 100 < 15;
        if (k == d) {
          cd[st(k)].push_back(wipe_it ? I8(dim) : tcd[st(k)][i]);
          ci[st(k)].push_back(wipe_it ? -1 : tci[st(k)][i]);
        } else {
          cd[st(k)].push_back(tcd[st(k)][i]);
          ci[st(k)].push_back(wipe_it ? -1 : tci[st(k)][i]);
        }
      }
      m.add_tag<I8>(k, "class_dim", 1, mk(cd[st(k)]));
      m.add_tag<ClassId>(k, "class_id", 1, mk(ci[st(k)]));
    }
    project_classification(&m, d, relaxed);
    auto a = hv(m.get_array<I8>(d, "class_dim"));
    auto b = hv(m.get_array<ClassId>(d, "class_id"));
    for (st i = 0; i < a.size(); ++i) {
      std::vector<std::pair<int, int>> adj;
      for (int h : R.up[d][d + 1][i]) adj.push_back({cd[st(d) + 1][st(h)], ci[st(d) + 1][st(h)]});
      auto w = below(d, cd[st(d)][i], ci[st(d)][i], adj, relaxed);
      if (a[i] != w.first || b[i] != w.second) PFAIL("projecting to dimension " << d << (relaxed ? " relaxed" : "") << ": entity " << i << " got " << int(a[i]) << "/" << b[i] << ", should be " << w.first << "/" << w.second << " (was " << int(cd[st(d)][i]) << "/" << ci[st(d)][i] << ")");
    }
  }
}

void t_angles(Src& s, Env& e) {
  int dim = s.range(1, 3);
  ProbOpt po;
  po.small = e.np > 1;
  Problem p = gen_problem(s, dim, po);
  // bend it a little
  Problem q = p;
  int warp = s.range(0, 2);
  Real amp = s.pick({0.05, 0.2, 0.4});
  if (warp)
    for (int v = 0; v < q.nv(); ++v) {
      Real* x = &q.x[st(v * dim)];
      if (dim == 1) break;
      if (warp == 1) x[0] += amp * x[1];
      else x[dim - 1] += amp * x[0] * x[0] / p.unit;
    }
  for (int i = 0; i < q.ne(); ++i)
    if (!(simplex_measure(dim, q.x, &q.ev[st(i * (dim + 1))]) > 0)) throw Discard();
  Real sharp = s.pick({M_PI / 4, 0.1, 1.0, 1.5, 3.0, 0.5});
  Env f = e;
  f.comm = e.lib->self();
  f.rank = 0;
  f.np = 1;
  bool clean = true;  // what is there already would be built upon
  auto make = [&]() {
    Mesh m = build_serial(f, p);
    m.set_coords(mk(q.x));
    for (int d = 0; d <= dim; ++d)
      if (clean) {
        m.remove_tag(d, "class_dim");
        m.remove_tag(d, "class_id");
      }
    if (clean) m.class_sets.clear();
    return m;
  };
  Mesh ser = make();
  ser.set_comm(f.comm);
  Ref R;
  R.fill(ser);
  typedef long double D;
  typedef std::array<D, 3> V3;
  auto at = [&](int v) {
    V3 r{{0, 0, 0}};
    for (int a = 0; a < dim; ++a) r[st(a)] = q.x[st(v * dim + a)];
    return r;
  };
  auto sub = [](V3 a, V3 b) { return V3{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; };
  auto dot = [](V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
  // outward normals of the outside
  auto& se = R.up[st(dim) - 1][dim];
  std::vector<V3> nrm(se.size());
  VI exposed;
  for (st i = 0; i < se.size(); ++i) {
    exposed.push_back(I8(se[i].size() < 2));
    if (dim == 1 || !exposed.back()) continue;
    auto& v = R.vs[dim - 1][i];
    V3 n;
    if (dim == 2) {
      auto t = sub(at(v[1]), at(v[0]));
      n = V3{{t[1], -t[0], 0}};
    } else {
      auto a = sub(at(v[1]), at(v[0])), b = sub(at(v[2]), at(v[0]));
      n = V3{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}};
    }
    D l = std::sqrt(dot(n, n));
    for (int op : R.vs[dim][st(se[i][0])])
      if (!std::count(v.begin(), v.end(), op)) {
        if (dot(sub(at(op), at(v[0])), n) > 0) l = -l;
        break;
      }
    for (auto& y : n) y /= l;
    nrm[i] = n;
  }
  std::vector<VI> want(static_cast<st>(dim + 1));
  want[st(dim)].assign(R.vs[dim].size(), I8(dim));
  for (auto x : exposed) want[st(dim) - 1].push_back(I8(dim - x));
  std::vector<D> ang;
  int nsharp = 0, nsmooth = 0;
  if (dim > 1) {
    auto& hs = R.up[dim - 2][dim - 1];
    for (auto& u : hs) {
      std::vector<int> o;
      for (int x : u)
        if (exposed[st(x)]) o.push_back(x);
      if (!o.empty() && o.size() != 2) throw Discard();  // the outside touches itself
      if (o.empty()) {
        want[st(dim) - 2].push_back(I8(dim));
        ang.push_back(-1);
        continue;
      }
      D a = std::acos(std::max<D>(-1, std::min<D>(1, dot(nrm[st(o[0])], nrm[st(o[1])]))));
      if (std::fabs(a - sharp) < 1e-6) throw Discard();
      ang.push_back(a);
      (a >= sharp ? nsharp : nsmooth)++;
      want[st(dim) - 2].push_back(I8(dim - 1 - (a >= sharp)));
    }
    if (dim == 3)
      for (auto& u : R.up[0][1]) {
        std::vector<std::pair<int, int>> adj;
        for (int x : u) adj.push_back({want[1][st(x)], -1});
        want[0].push_back(I8(below(0, 3, -1, adj, false).first));
      }
  }
  Par P(e);
  distribute(s, e, P, make, p.ne(), e.np > 1 ? OMEGA_H_GHOSTED : OMEGA_H_ELEM_BASED, 1);
  s.desc(dim, "D ", p.ne(), " elements, sharp from ", sharp, ", ", nsharp, " sharp and ", nsmooth, " smooth hinges, np ", e.np);
  s.nontrivial(nsharp > 0 && nsmooth > 0);
  s.label(nsharp ? nsmooth ? "both" : "sharp" : "smooth");
  if (dim > 1 && e.np == 1) {
    auto sides = collect_marked(mk(exposed));
    auto got = hv(get_side_vectors(&ser, sides));
    auto hs = hv(sides);
    for (st i = 0; i < hs.size(); ++i)
      for (int a = 0; a < dim; ++a)
        if (!(std::fabs(got[i * st(dim) + st(a)] - nrm[st(hs[i])][st(a)]) < 1e-9L)) PFAIL("normal of side " << hs[i] << " component " << a << " is " << got[i * st(dim) + st(a)] << ", should be " << double(nrm[st(hs[i])][st(a)]));
    VI he;
    for (auto a : ang) he.push_back(I8(a >= 0));
    auto hinges = collect_marked(mk(he));
    auto ga = hv(get_hinge_angles(&ser, mk(got), hinges, invert_injective_map(sides, ser.nents(dim - 1))));
    auto hh = hv(hinges);
    for (st i = 0; i < hh.size(); ++i)
      if (!(std::fabs(ga[i] - ang[st(hh[i])]) < 1e-6L)) PFAIL("angle at hinge " << hh[i] << " is " << ga[i] << ", should be " << double(ang[st(hh[i])]));
  }
  classify_by_angles(&P.m, sharp);
  for (int d = std::max(0, dim - 3); d <= dim; ++d) {
    if (want[st(d)].empty()) continue;
    auto a = hv(P.m.get_array<I8>(d, "class_dim"));
    for (st i = 0; i < a.size(); ++i)
      if ((P.own[d][i] || e.np == 1) && a[i] != want[st(d)][st(P.g[d][i])]) PFAIL("entity " << P.g[d][i] << " of dimension " << d << " classified on dimension " << int(a[i]) << ", should be " << int(want[st(d)][st(P.g[d][i])]));
  }
}
void t_equal_order(Src& s, Env& e) {
  auto fam = s.chance(60) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  if (dim == 1) fam = OMEGA_H_SIMPLEX;
  RawOpt ro;
  ro.max_cells = 8;
  ro.subset = s.chance(40);
  auto r = gen_raw(s, fam, dim, ro);
  Mesh m = build_raw(e, r);
  m.set_comm(e.comm);
  int d = s.range(0, dim);
  auto vs = d == 0 ? std::vector<std::vector<LO>>() : verts_of(m, d);
  if (d == 0)
    for (int i = 0; i < m.nverts(); ++i) vs.push_back({i});
  auto perm = s.permutation(int(vs.size()));
  int n = d == dim ? int(vs.size()) : s.range(0, int(vs.size()));
  std::vector<LO> ev;
  std::vector<ClassId> ids;
  std::vector<int> want(vs.size(), -1);
  auto& rot = d < 1 ? rotations(OMEGA_H_SIMPLEX, 1) : rotations(d == 1 ? OMEGA_H_SIMPLEX : fam, d);
  for (int i = 0; i < n; ++i) {
    int k = d == dim ? i : perm[st(i)];
    auto v = vs[st(k)];
    if (d > 0 && d < dim) {
      int t = s.range(0, int(rot.size()) - 1);
      auto w = v;
      for (st j = 0; j < v.size(); ++j) w[j] = v[st(rot[st(t)][j])];
      if (s.chance(50)) std::reverse(w.begin() + (d == 1 ? 0 : 1), w.end());
      v = w;
    }
    ev.insert(ev.end(), v.begin(), v.end());
    ids.push_back(s.range(0, 50));
    want[st(k)] = ids.back();
  }
  s.desc(fam_name(fam), dim, "D, ", n, " of ", vs.size(), " entities of dimension ", d);
  s.label("dimension " + std::to_string(d));
  s.nontrivial(n > 0);
  classify_equal_order(&m, d, mk(ev), mk(ids));
  auto cd = hv(m.get_array<I8>(d, "class_dim"));
  auto ci = hv(m.get_array<ClassId>(d, "class_id"));
  for (st i = 0; i < want.size(); ++i)
    if (ci[i] != want[i] || cd[i] != (want[i] == -1 ? dim : d)) PFAIL("entity " << i << " of dimension " << d << " classified " << int(cd[i]) << "/" << ci[i] << ", given " << want[i]);
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"marks", t_marks, 500, 8000, {1, 2, 3}, true, "more than one element"});
  t.push_back({"project", t_project, 600, 9000, {1, 2, 3}, true, "more than one element, dimension above 1"});
  t.push_back({"angles", t_angles, 500, 8000, {1, 2, 3}, true, "both sharp and smooth hinges"});
  t.push_back({"equal_order", t_equal_order, 400, 5000, {1}, true, "some entity classified"});
  return run(argc, argv, t);
}
