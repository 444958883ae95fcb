// C20: hypercube refinement forests against a geometric model
#include <Omega_h_amr.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_hypercube.hpp>
#include "pmesh.hpp"
using namespace pbt;
namespace {
// cells as integer boxes on the finest grid
enum { FINE = 64 };
struct Box {
  int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
  bool operator<(Box const& o) const {
    for (int i = 0; i < 3; ++i) {
      if (lo[i] != o.lo[i]) return lo[i] < o.lo[i];
      if (hi[i] != o.hi[i]) return hi[i] < o.hi[i];
    }
    return false;
  }
  bool operator==(Box const& o) const { return !(*this < o) && !(o < *this); }
  int dim() const {
    int d = 0;
    for (int i = 0; i < 3; ++i) d += hi[i] > lo[i];
    return d;
  }
};
std::ostream& operator<<(std::ostream& o, Box const& b) {
  o << "{";
  for (int i = 0; i < 3; ++i) o << (i ? " " : "") << b.lo[i] << ".." << b.hi[i];
  return o << "}";
}
// children of a cell (same dimension)
std::vector<Box> split(Box const& b) {
  std::vector<Box> r{b};
  for (int a = 0; a < 3; ++a) {
    if (b.lo[a] == b.hi[a]) continue;
    std::vector<Box> q;
    int m = (b.lo[a] + b.hi[a]) / 2;
    for (auto x : r) {
      auto y = x;
      y.hi[a] = m;
      q.push_back(y);
      y = x;
      y.lo[a] = m;
      q.push_back(y);
    }
    r = q;
  }
  return r;
}
void faces(Box const& b, std::set<Box> out[4]) {
  std::vector<Box> r{b};
  for (int a = 0; a < 3; ++a) {
    if (b.lo[a] == b.hi[a]) continue;
    std::vector<Box> q;
    for (auto x : r) {
      q.push_back(x);
      auto y = x;
      y.hi[a] = y.lo[a];
      q.push_back(y);
      y = x;
      y.lo[a] = y.hi[a];
      q.push_back(y);
    }
    r = q;
  }
  for (auto& x : r) out[x.dim()].insert(x);
}
struct Forest {
  int dim;
  std::map<Box, int> level;      // all cells
  std::set<Box> leaves;
};
// all entities with the cells' closure; the parent of each
struct Ents {
  std::set<Box> of[4];
};
Ents ents_of(Forest const& f) {
  Ents e;
  for (auto& kv : f.level) faces(kv.first, e.of);
  return e;
}
// the entity whose splitting makes this one, if it is in the forest
bool parent_box(Box const& b, Box const& p) {
  if (p == b) return false;
  int half = 0;
  for (int a = 0; a < 3; ++a) {
    int w = b.hi[a] - b.lo[a], W = p.hi[a] - p.lo[a];
    if (W == 0) {
      if (w || b.lo[a] != p.lo[a]) return false;
      continue;
    }
    int m = (p.lo[a] + p.hi[a]) / 2;
    if (w == 0) {
      if (b.lo[a] != m) return false;
    } else {
      if (2 * w != W) return false;
      if (!((b.lo[a] == p.lo[a] && b.hi[a] == m) || (b.lo[a] == m && b.hi[a] == p.hi[a]))) return false;
    }
    ++half;
  }
  return half > 0;
}
// boxes that could be the parent, for every way of doubling
std::vector<Box> possible_parents(Box const& b, int dim) {
  std::vector<Box> r{b};
  for (int a = 0; a < dim; ++a) {
    std::vector<Box> q;
    for (auto x : r) {
      int w = b.hi[a] - b.lo[a];
      if (w) {
        auto y = x;
        y.hi[a] = b.hi[a] + w;
        q.push_back(y);
        y = x;
        y.lo[a] = b.lo[a] - w;
        q.push_back(y);
      } else {
        q.push_back(x);
        for (int W = 1; W <= FINE; W *= 2) {
          auto y = x;
          y.lo[a] = b.lo[a] - W;
          y.hi[a] = b.hi[a] + W;
          q.push_back(y);
        }
      }
    }
    r = q;
  }
  return r;
}
struct View {
  int dim;
  std::vector<Box> box[4];
  std::map<Box, LO> at[4];
};
View view_of(Mesh& m) {
  View v;
  v.dim = m.dim();
  auto x = hv(m.coords());
  std::vector<Box> p;
  for (int i = 0; i < m.nverts(); ++i) {
    Box b;
    for (int a = 0; a < v.dim; ++a) {
      Real c = x[st(i * v.dim + a)] * FINE;
      int k = int(std::llround(c));
      if (std::fabs(c - k) > 1e-9) PFAIL("a vertex is not on the grid: " << c / FINE);
      b.lo[a] = b.hi[a] = k;
    }
    p.push_back(b);
  }
  for (int d = 0; d <= v.dim; ++d) {
    int w = 1 << d;
    LOs ev = d ? m.ask_verts_of(d) : LOs();
    for (int i = 0; i < m.nents(d); ++i) {
      Box b;
      if (d == 0) b = p[st(i)];
      else {
        for (int j = 0; j < w; ++j) {
          auto& q = p[st(ev[i * w + j])];
          for (int a = 0; a < 3; ++a) {
            b.lo[a] = j ? std::min(b.lo[a], q.lo[a]) : q.lo[a];
            b.hi[a] = j ? std::max(b.hi[a], q.hi[a]) : q.hi[a];
          }
        }
        // its vertices are the corners, each once, and neighbours in the list are neighbours in space
        std::set<Box> c;
        for (int j = 0; j < w; ++j) {
          auto& q = p[st(ev[i * w + j])];
          for (int a = 0; a < 3; ++a)
            if (q.lo[a] != b.lo[a] && q.lo[a] != b.hi[a]) PFAIL("an entity of dimension " << d << " has a vertex in the middle of a side: " << b);
          c.insert(q);
        }
        if (int(c.size()) != w || b.dim() != d) PFAIL("an entity of dimension " << d << " is degenerate: " << b);
      }
      v.box[d].push_back(b);
      if (!v.at[d].emplace(b, LO(i)).second) PFAIL("two entities of dimension " << d << " are the same: " << b);
    }
  }
  return v;
}
// orientation: the Jacobian at the first vertex
void check_orientation(Mesh& m, View const& v) {
  int dim = v.dim, w = 1 << dim;
  auto ev = m.ask_elem_verts();
  auto x = hv(m.coords());
  static int const nb3[3] = {1, 3, 4};
  for (int i = 0; i < m.nelems(); ++i) {
    Real J[3][3];
    for (int k = 0; k < dim; ++k)
      for (int a = 0; a < dim; ++a) J[k][a] = x[st(ev[i * w + nb3[k]] * dim + a)] - x[st(ev[i * w] * dim + a)];
    if (!(det_of(dim, J) > 0)) PFAIL("element " << v.box[dim][st(i)] << " is turned inside out");
  }
}
std::pair<int, int> sizes(Box const& b, int const n[3], int dim) {
  // class: dimension and id used by boxes (3 values per axis)
  int d = 0, id = 0, mul = 1;
  for (int a = 0; a < dim; ++a) {
    int l = (b.lo[a] == 0 && b.hi[a] == 0) ? 0 : (b.lo[a] == n[a] * FINE && b.hi[a] == n[a] * FINE) ? 2 : 1;
    d += l == 1;
    id += mul * l;
    mul *= 3;
  }
  return {d, id};
}
struct Tags {
  bool lin = false, inh8 = false, inh = false, inhr = false;
  int wl = 1, wi = 1, wr = 1;
};
Real multi(Box const& b, int dim, int c) {
  Real r = 0.5 + c, x[3];
  for (int a = 0; a < 3; ++a) x[a] = b.lo[a] / double(FINE);
  if (dim == 1) return r + (2 + c) * x[0];
  if (dim == 2) return r + x[0] - 3 * x[1] + (2 + c) * x[0] * x[1];
  return r + x[0] - 3 * x[1] + 2 * x[2] + (1 + c) * x[0] * x[1] * x[2] - x[0] * x[2] + 4 * x[1] * x[2] + x[0] * x[1];
}
void check_mesh(Mesh& m, Forest const& f, int const n[3], Tags const& tg, std::map<Box, std::vector<I64>> const* inh_old, Env& e, bool whole) {
  int dim = f.dim;
  auto v = view_of(m);
  // the cells and their closure, nothing else
  Ents E = ents_of(f);
  for (int d = 0; d <= dim; ++d) {
    for (auto& b : E.of[d])
      if (!v.at[d].count(b)) PFAIL("entity " << b << " of dimension " << d << " is missing");
    for (auto& b : v.box[d])
      if (!E.of[d].count(b)) PFAIL("entity " << b << " of dimension " << d << " should not be there");
  }
  check_orientation(m, v);
  auto g = gather_checked(e, m);
  if (dim > 1) check_complex(g);  // in 1D cells of all levels meet at vertices
  if (!whole) return;
  // parents, children, levels, leaves
  std::map<std::pair<int, LO>, std::vector<std::pair<int, LO>>> kids;
  std::map<Box, std::pair<int, LO>> par[4];
  for (int d = 0; d <= dim; ++d) {
    auto P = m.ask_parents(d);
    auto idx = hv(P.parent_idx);
    auto code = hv(P.codes);
    if (int(idx.size()) != m.nents(d) || int(code.size()) != m.nents(d)) PFAIL("parents of dimension " << d << " have the wrong size");
    for (int i = 0; i < m.nents(d); ++i) {
      auto& b = v.box[d][st(i)];
      std::vector<std::pair<int, LO>> want;
      for (auto& q : possible_parents(b, dim)) {
        int k = q.dim();
        auto it = v.at[k].find(q);
        if (it != v.at[k].end() && parent_box(b, q)) want.push_back({k, it->second});
      }
      // a vertex can be the middle of one entity only, and other entities are halves of one
      if (want.size() > 1) PFAIL("model: " << b << " has " << want.size() << " possible parents");
      if (want.empty()) {
        if (idx[st(i)] != -1) PFAIL("entity " << b << " of dimension " << d << " has a parent, " << int(idx[st(i)]) << ", but should not");
        continue;
      }
      int pd = amr::code_parent_dim(code[st(i)]);
      if (idx[st(i)] < 0) PFAIL("entity " << b << " of dimension " << d << " has no parent, but lies in " << v.box[want[0].first][st(want[0].second)]);
      if (pd != want[0].first || idx[st(i)] != want[0].second)
        PFAIL("entity " << b << " of dimension " << d << " has parent " << int(idx[st(i)]) << " of dimension " << pd << ", it lies in " << want[0].second << " of dimension " << want[0].first);
      kids[want[0]].push_back({d, LO(i)});
      par[d][b] = want[0];
    }
  }
  for (int pd = 1; pd <= dim; ++pd) {
    for (int d = 0; d <= pd; ++d) {
      auto C = m.ask_children(pd, d);
      auto a = hv(C.a2ab), b = hv(C.ab2b);
      auto codes = hv(C.codes);
      if (int(a.size()) != m.nents(pd) + 1 || a.back() != int(b.size()) || b.size() != codes.size()) PFAIL("children of dimension " << pd << " have the wrong size");
      for (int i = 0; i < m.nents(pd); ++i) {
        std::set<LO> have, want;
        std::set<int> nth;
        for (int j = a[st(i)]; j < a[st(i) + 1]; ++j) {
          have.insert(b[st(j)]);
          nth.insert(amr::code_which_child(codes[st(j)]));
        }
        for (auto& k : kids[{pd, LO(i)}])
          if (k.first == d) want.insert(k.second);
        if (have != want) PFAIL("children of dimension " << d << " of entity " << v.box[pd][st(i)] << " of dimension " << pd << " do not match the parents");
        int deg = hypercube_split_degree(pd, d);
        if (want.size() && int(want.size()) != deg) PFAIL("entity " << v.box[pd][st(i)] << " has " << want.size() << " children of dimension " << d << ", expected " << deg);
        if (int(nth.size()) != int(want.size()) || (nth.size() && (*nth.begin() != 0 || *nth.rbegin() != deg - 1))) PFAIL("children of " << v.box[pd][st(i)] << " are not numbered 0.." << deg - 1);
      }
    }
    auto leaf = hv(m.ask_leaves(pd));
    for (int i = 0; i < m.nents(pd); ++i) {
      bool want = kids[{pd, LO(i)}].empty();
      if (bool(leaf[st(i)]) != want) PFAIL("entity " << v.box[pd][st(i)] << " of dimension " << pd << " is recorded as " << (leaf[st(i)] ? "" : "not ") << "a leaf");
      if (pd == dim && want != (f.leaves.count(v.box[pd][st(i)]) > 0)) PFAIL("model: leaf");
    }
  }
  for (int d = 0; d <= dim; ++d) {
    auto lv = hv(m.ask_levels(d));
    for (int i = 0; i < m.nents(d); ++i) {
      auto& b = v.box[d][st(i)];
      auto it = par[d].find(b);
      int want = it == par[d].end() ? 0 : 1 + hv(m.ask_levels(it->second.first))[st(it->second.second)];
      if (lv[st(i)] != want) PFAIL("entity " << b << " of dimension " << d << " is on level " << int(lv[st(i)]) << ", its parent makes it " << want);
      if (d == dim && want != f.level.at(b)) PFAIL("model: level");
    }
  }
  // attributes
  for (int d = 0; d <= dim; ++d) {
    auto cd = hv(m.get_array<I8>(d, "class_dim"));
    auto ci = hv(m.get_array<ClassId>(d, "class_id"));
    for (int i = 0; i < m.nents(d); ++i) {
      auto k = sizes(v.box[d][st(i)], n, dim);
      if (cd[st(i)] != k.first || ci[st(i)] != k.second) PFAIL("entity " << v.box[d][st(i)] << " of dimension " << d << " is classified on (" << int(cd[st(i)]) << "," << ci[st(i)] << "), it lies in (" << k.first << "," << k.second << ")");
    }
  }
  if (tg.lin) {
    auto a = hv(m.get_array<Real>(VERT, "lin"));
    for (int i = 0; i < m.nverts(); ++i)
      for (int c = 0; c < tg.wl; ++c) {
        Real want = multi(v.box[0][st(i)], dim, c);
        if (!(std::fabs(a[st(i * tg.wl + c)] - want) <= 1e-11 * (10 + std::fabs(want)))) PFAIL("the multilinear field is " << a[st(i * tg.wl + c)] << " at " << v.box[0][st(i)] << ", expected " << want);
      }
  }
  for (auto nm : {"inh8", "inh", "inhr"}) {
    if (!(std::string(nm) == "inh8" ? tg.inh8 : std::string(nm) == "inh" ? tg.inh : tg.inhr)) continue;
    std::vector<std::vector<I64>> val[4];
    for (int d = 0; d <= dim; ++d) {
      auto t = g.tag(d, nm);
      if (!t) PFAIL("the inherited tag " << nm << " is gone from dimension " << d);
      val[d].resize(st(m.nents(d)));
      for (auto& kv : g.ents[d]) val[d][st(kv.second.local)] = std::vector<I64>(kv.second.pay.begin() + t->offset, kv.second.pay.begin() + t->offset + t->ncomps);
    }
    for (int d = 0; d <= dim; ++d)
      for (int i = 0; i < m.nents(d); ++i) {
        auto& b = v.box[d][st(i)];
        Box key = b;
        auto it = inh_old->find(key);
        std::vector<I64> want;
        if (it != inh_old->end()) {
          // stored as one list over the three tags
          want = it->second;
        } else {
          auto p = par[d].find(b);
          if (p == par[d].end()) PFAIL("model: a new entity without parent");
          auto it2 = inh_old->find(v.box[p->second.first][st(p->second.second)]);
          if (it2 == inh_old->end()) PFAIL("model: the parent is new");
          want = it2->second;
        }
        st off = std::string(nm) == "inh8" ? 0 : std::string(nm) == "inh" ? st(tg.inh8) : st(tg.inh8) + st(tg.inh ? tg.wi : 0);
        std::vector<I64> w(want.begin() + long(off), want.begin() + long(off + val[d][st(i)].size()));
        if (w != val[d][st(i)]) PFAIL(nm << " of entity " << b << " of dimension " << d << " is " << show(val[d][st(i)]) << ", inherited should be " << show(w));
      }
  }
}
std::map<Box, std::vector<I64>> inh_values(Mesh& m, Tags const& tg) {
  std::map<Box, std::vector<I64>> r;
  auto v = view_of(m);
  for (int d = 0; d <= v.dim; ++d) {
    Read<I8> a;
    Read<I32> b;
    Reals c;
    if (tg.inh8) a = m.get_array<I8>(d, "inh8");
    if (tg.inh) b = m.get_array<I32>(d, "inh");
    if (tg.inhr) c = m.get_array<Real>(d, "inhr");
    for (int i = 0; i < m.nents(d); ++i) {
      auto& o = r[v.box[d][st(i)]];
      if (tg.inh8) put_vals(o, a, i, 1);
      if (tg.inh) put_vals(o, b, i, tg.wi);
      if (tg.inhr) put_vals(o, c, i, tg.wr);
    }
  }
  return r;
}
// leaves sharing part of a side with this one
bool touch(Box const& a, Box const& b, int dim) {
  int flat = 0;
  for (int i = 0; i < dim; ++i) {
    int lo = std::max(a.lo[i], b.lo[i]), hi = std::min(a.hi[i], b.hi[i]);
    if (lo > hi) return false;
    flat += lo == hi;
  }
  return flat == 1;
}
void run_forest(Src& s, Env& e) {
  int dim = s.pick({2, 3, 2, 3, 1});
  int n[3] = {1, 1, 1};
  for (int a = 0; a < dim; ++a) n[a] = s.range(1, dim == 3 ? 2 : 4);
  Mesh m = build_box(e.comm, OMEGA_H_HYPERCUBE, n[0], dim > 1 ? n[1] : 0, dim > 2 ? n[2] : 0, n[0], dim > 1 ? n[1] : 0, dim > 2 ? n[2] : 0);
  Forest f;
  f.dim = dim;
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i) {
        int at[3] = {i, j, k};
        Box b;
        for (int a = 0; a < dim; ++a) {
          b.lo[a] = at[a] * FINE;
          b.hi[a] = b.lo[a] + FINE;
        }
        f.level[b] = 0;
        f.leaves.insert(b);
      }
  Tags tg;
  TransferOpts xo;
  tg.lin = s.chance(70);
  tg.inh8 = s.chance(30);
  tg.inh = s.chance(40);
  tg.inhr = s.chance(30);
  tg.wl = s.range(1, 3);
  tg.wi = s.range(1, 3);
  tg.wr = s.range(1, 3);
  if (tg.lin) {
    auto v = view_of(m);
    std::vector<Real> x;
    for (int i = 0; i < m.nverts(); ++i)
      for (int c = 0; c < tg.wl; ++c) x.push_back(multi(v.box[0][st(i)], dim, c));
    m.add_tag(VERT, "lin", tg.wl, mk(x));
    xo.type_map["lin"] = OMEGA_H_LINEAR_INTERP;
  }
  for (int d = 0; d <= dim; ++d) {
    if (tg.inh8) add_hash_tag<I8>(m, d, "inh8", 1, u64(d));
    if (tg.inh) add_hash_tag<I32>(m, d, "inh", tg.wi, u64(d) + 7);
    if (tg.inhr) add_hash_tag<Real>(m, d, "inhr", tg.wr, u64(d) + 9);
  }
  if (tg.inh8) xo.type_map["inh8"] = OMEGA_H_INHERIT;
  if (tg.inh) xo.type_map["inh"] = OMEGA_H_INHERIT;
  if (tg.inhr) xo.type_map["inhr"] = OMEGA_H_INHERIT;
  s.desc(dim, "D ", n[0], "x", n[1], "x", n[2]);
  int steps = s.range(1, s.thorough ? 8 : 6), done = 0;
  bool balanced = dim > 1 && s.chance(60);
  int maxlevel = dim == 3 ? 3 : dim == 2 ? 5 : 6;
  st cap = dim == 3 ? 500 : 900;
  for (int it = 0; it < steps; ++it) {
    auto v = view_of(m);
    auto old = inh_values(m, tg);
    int op = s.weighted({6, 2});
    if (op == 1) {  // derefine cells whose children are all leaves
      std::vector<Box> cand;
      for (auto& kv : f.level) {
        if (f.leaves.count(kv.first)) continue;
        bool ok = true;
        for (auto& c : split(kv.first)) ok &= f.leaves.count(c) > 0;
        if (ok) cand.push_back(kv.first);
      }
      std::vector<I8> marks(st(m.nelems()), 0);
      int nm = 0;
      int pct = s.pick({50, 100, 20});
      for (auto& b : cand)
        if (s.chance(pct)) {
          marks[st(v.at[dim].at(b))] = 1;
          for (auto& c : split(b)) {
            f.leaves.erase(c);
            f.level.erase(c);
          }
          f.leaves.insert(b);
          ++nm;
        }
      if (balanced && nm) {  // must not undo the balance
        for (auto& a : f.leaves)
          for (auto& b : f.leaves)
            if (touch(a, b, dim) && f.level[a] > f.level[b] + 1) balanced = false;
      }
      s.desc("-", nm);
      amr::derefine(&m, mk(marks), xo);
      if (nm) s.label("derefined");
    } else {
      std::vector<I8> marks(st(m.nelems()), 0);
      std::set<Box> want;
      int pct = s.pick({20, 50, 100, 5});
      std::vector<Box> lv(f.leaves.begin(), f.leaves.end());
      int focus = s.chance(30) && lv.size() ? s.range(0, int(lv.size()) - 1) : -1;
      for (st i = 0; i < lv.size(); ++i) {
        if (f.level[lv[i]] >= maxlevel) continue;
        if (focus >= 0 ? int(i) == focus : s.chance(pct)) want.insert(lv[i]);
      }
      if (f.level.size() + want.size() * st(1 << dim) > cap) {
        while (want.size() > 3) want.erase(want.begin());
        if (f.level.size() > cap) continue;
      }
      for (auto& b : want) marks[st(v.at[dim].at(b))] = 1;
      auto mk1 = mk(marks);
      if (balanced) {
        // the least set that keeps neighbours within one level
        std::set<Box> full = want;
        bool more = true;
        while (more) {
          more = false;
          for (auto& a : lv)
            if (!full.count(a))
              for (auto& b : full)
                if (f.level[b] > f.level[a] && touch(a, b, dim)) {
                  full.insert(a);
                  more = true;
                  break;
                }
        }
        auto got = hv(amr::enforce_2to1_refine(&m, dim - 1, mk1));
        if (int(got.size()) != m.nelems()) PFAIL("enforce_2to1_refine returned " << got.size() << " marks for " << m.nelems() << " elements");
        for (int i = 0; i < m.nelems(); ++i) {
          auto& b = v.box[dim][st(i)];
          if (bool(got[st(i)]) != (full.count(b) > 0))
            PFAIL("one-level enforcement: cell " << b << " (level " << f.level[b] << (f.leaves.count(b) ? ", leaf" : ", not a leaf") << ") is " << (got[st(i)] ? "" : "not ") << "marked, keeping neighbours within one level "
                                                 << (full.count(b) ? "needs it" : "does not need it"));
        }
        if (full.size() > want.size()) s.label("enforced");
        want = full;
        mk1 = mk(got);
      }
      for (auto& b : want) {
        f.leaves.erase(b);
        for (auto& c : split(b)) {
          f.level[c] = f.level[b] + 1;
          f.leaves.insert(c);
        }
      }
      s.desc("+", want.size());
      amr::refine(&m, mk1, xo);
      done += want.size() > 0;
    }
    check_mesh(m, f, n, tg, &old, e, true);
    if (balanced)
      for (auto& a : f.leaves)
        for (auto& b : f.leaves)
          if (f.level[a] > f.level[b] + 1 && touch(a, b, dim)) PFAIL("neighbouring leaves " << a << " and " << b << " differ by " << f.level[a] - f.level[b] << " levels");
  }
  // the leaves alone
  if (s.chance(30)) {
    Mesh q = m;
    amr::remove_non_leaf_uses(&q);
    Forest l;
    l.dim = dim;
    l.leaves = f.leaves;
    for (auto& b : f.leaves) l.level[b] = f.level[b];
    auto v = view_of(q);
    Ents E = ents_of(l);
    for (int d = 0; d <= dim; ++d) {
      if (v.at[d].size() != E.of[d].size()) PFAIL("removing non-leaves: " << v.at[d].size() << " entities of dimension " << d << ", expected " << E.of[d].size());
      for (auto& b : E.of[d])
        if (!v.at[d].count(b)) PFAIL("removing non-leaves: entity " << b << " of dimension " << d << " is missing");
    }
    check_orientation(q, v);
    s.label("leaves only");
  }
  s.nontrivial(done > 0);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"forest", run_forest, 1200, 40000, {1}, true, "at least one cell was refined"});
  return run(argc, argv, t);
}
