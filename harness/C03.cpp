// C03: derived adjacencies against an independent reference built from the
// element vertex lists alone
#include <Omega_h_align.hpp>
#include <Omega_h_mark.hpp>
#include "mesh.hpp"
using namespace pbt;

struct Ref {
  // sorted vertex set -> count, for each dimension
  std::set<VL> keys[4];
};
static void gen_family(Src& s, Omega_h_Family& fam, int& dim) {
  int k = s.weighted({3, 5, 2, 3});
  fam = k < 2 ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  dim = (k & 1) ? 3 : 2;
  if (s.chance(5)) dim = 1;
}
static std::string at(int a, int b) { return "adj(" + std::to_string(a) + "," + std::to_string(b) + ")"; }

// everything that can be asked about one mesh, against brute force
static void check_all(Src& s, Mesh& m, Omega_h_Family fam, int dim, std::vector<LO> const& ev) {
  int deg = nverts_of(fam, dim);
  int ne = int(ev.size()) / deg;
  PCHECK(m.nelems() == ne, "element count");
  // ask for adjacencies in a random order so that every derivation path is hit
  std::vector<std::pair<int, int>> todo;
  for (int a = 0; a <= dim; ++a)
    for (int b = 0; b <= dim; ++b) {
      if (a == b && !(a == dim || (a == 0 && dim >= 1) || (a == 1 && fam == OMEGA_H_SIMPLEX && dim >= 2))) continue;
      if (a == b && a == 0 && dim == 0) continue;
      todo.push_back({a, b});
    }
  auto ord = s.permutation(int(todo.size()));
  std::map<std::pair<int, int>, Adj> adj;
  for (auto i : ord) {
    int a = todo[st(i)].first, b = todo[st(i)].second;
    if (a > b) {
      adj[{a, b}] = m.ask_down(a, b);
    } else if (a < b) {
      adj[{a, b}] = m.ask_up(a, b);
    } else if (a == dim) {
      adj[{a, b}] = Adj(m.ask_dual());
    } else {
      adj[{a, b}] = Adj(m.ask_star(a));
    }
    PCHECK(m.has_adj(a, b), "asked adjacency not stored");
  }
  // entity vertex lists
  std::vector<std::vector<VL>> ents(4);
  for (int d = 0; d <= dim; ++d) ents[st(d)] = verts_of(m, d);
  for (int i = 0; i < ne; ++i)
    if (ents[st(dim)][st(i)] != slice(ev, i, deg)) PFAIL("element " << i << " vertices " << show(ents[st(dim)][st(i)]) << " given " << show(slice(ev, i, deg)));
  // uniqueness and completeness of derived entities
  std::vector<std::map<VL, int>> index(4);
  for (int d = 0; d <= dim; ++d) {
    for (st i = 0; i < ents[st(d)].size(); ++i) {
      auto k = sorted(ents[st(d)][i]);
      if (std::adjacent_find(k.begin(), k.end()) != k.end()) PFAIL("repeated vertex in entity of dimension " << d);
      if (!index[st(d)].emplace(k, int(i)).second) PFAIL("duplicate entity of dimension " << d << " " << show(k));
    }
    if (d == 0 || d == dim) continue;
    std::set<VL> want;
    for (int e = 0; e < ne; ++e)
      for (auto& t : down_tpl(fam, dim, d)) {
        VL k;
        for (auto j : t) k.push_back(ev[st(e * deg + j)]);
        want.insert(sorted(k));
      }
    if (want.size() != ents[st(d)].size()) PFAIL("dimension " << d << " has " << ents[st(d)].size() << " entities, expected " << want.size());
    for (auto& k : want)
      if (!index[st(d)].count(k)) PFAIL("missing entity " << show(k));
  }
  // downward
  std::map<std::pair<int, int>, std::vector<LO>> hd;
  std::map<std::pair<int, int>, std::vector<I8>> hc;
  for (int h = 1; h <= dim; ++h)
    for (int l = 0; l < h; ++l) {
      auto& a = adj[{h, l}];
      auto& tpl = down_tpl(fam, h, l);
      auto hl = hv(a.ab2b);
      int n = int(tpl.size());
      PCHECK(hl.size() == ents[st(h)].size() * tpl.size(), at(h, l) << " size " << hl.size());
      std::vector<I8> codes;
      if (l > 0) {
        PCHECK(a.codes.exists(), at(h, l) << " has no codes");
        codes = hv(a.codes);
        PCHECK(codes.size() == hl.size(), at(h, l) << " code count");
      }
      for (st e = 0; e < ents[st(h)].size(); ++e)
        for (int j = 0; j < n; ++j) {
          VL use;
          for (auto k : tpl[st(j)]) use.push_back(ents[st(h)][e][st(k)]);
          LO lo = hl[e * st(n) + st(j)];
          PCHECK(lo >= 0 && lo < LO(ents[st(l)].size()), at(h, l) << " index " << lo);
          auto have = ents[st(l)][st(lo)];
          if (l == 0) {
            if (have != use) PFAIL(at(h, l) << " entity " << e << " slot " << j);
          } else {
            int c = codes[e * st(n) + st(j)];
            PCHECK(code_which_down(I8(c)) == 0, "which_down in a downward code");
            PCHECK(l > 1 || !code_is_flipped(I8(c)), "edge code with flip bit");
            if (apply_code(have, c) != use)
              PFAIL(at(h, l) << " entity " << e << " slot " << j << " code " << c << ": boundary entity " << show(have) << " used as " << show(use));
          }
        }
      hd[{h, l}] = hl;
      hc[{h, l}] = codes;
    }
  // upward: the exact inverse, sorted by upward index, with matching codes
  for (int l = 0; l < dim; ++l)
    for (int h = l + 1; h <= dim; ++h) {
      auto& a = adj[{l, h}];
      auto off = hv(a.a2ab);
      auto up = hv(a.ab2b);
      auto uc = hv(a.codes);
      int n = int(down_tpl(fam, h, l).size());
      PCHECK(off.size() == ents[st(l)].size() + 1 && off[0] == 0, at(l, h) << " offsets");
      PCHECK((up.size() == hd[{h, l}].size() && uc.size() == up.size() && off.back() == LO(up.size())), at(l, h) << " size");
      for (st i = 0; i + 1 < off.size(); ++i) {
        PCHECK(off[i] <= off[i + 1], "offsets decrease");
        for (LO q = off[i]; q < off[i + 1]; ++q) {
          LO hi = up[st(q)];
          PCHECK(hi >= 0 && hi < LO(ents[st(h)].size()), at(l, h) << " index");
          if (q > off[i]) PCHECK(up[st(q) - 1] < hi, at(l, h) << " list of " << i << " is not sorted/unique");
          int wd = code_which_down(uc[st(q)]);
          PCHECK(wd >= 0 && wd < n, "which_down " << wd);
          st pos = st(hi) * st(n) + st(wd);
          PCHECK((hd[{h, l}][pos] == LO(i)), at(l, h) << " entity " << i << " upward " << hi << " which_down " << wd);
          int expect = l == 0 ? 0 : hc[{h, l}][pos];
          PCHECK((uc[st(q)] & 7) == expect, at(l, h) << " alignment code");
        }
      }
    }
  // star of vertices
  {
    std::vector<std::multiset<LO>> want(ents[0].size());
    for (auto& e : ents[1]) {
      want[st(e[0])].insert(e[1]);
      want[st(e[1])].insert(e[0]);
    }
    if (dim == 1) {
      // for one-dimensional meshes the star of vertices is across elements
    }
    if (adj.count({0, 0}) && dim > 0) {
      auto off = hv(adj[{0, 0}].a2ab);
      auto to = hv(adj[{0, 0}].ab2b);
      PCHECK(off.size() == want.size() + 1, "vertex star offsets");
      for (st i = 0; i < want.size(); ++i) {
        std::multiset<LO> got(to.begin() + off[i], to.begin() + off[i + 1]);
        PCHECK(got == want[i], "star of vertex " << i);
      }
    }
  }
  if (adj.count({1, 1}) && dim >= 2) {
    auto off = hv(adj[{1, 1}].a2ab);
    auto to = hv(adj[{1, 1}].ab2b);
    std::vector<std::set<LO>> want(ents[1].size());
    auto& el = hd[{dim, 1}];
    int n = int(down_tpl(fam, dim, 1).size());
    for (int e = 0; e < ne; ++e)
      for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
          if (a != b) want[st(el[st(e * n + a)])].insert(el[st(e * n + b)]);
    PCHECK(off.size() == want.size() + 1, "edge star offsets");
    for (st i = 0; i < want.size(); ++i) {
      std::set<LO> got(to.begin() + off[i], to.begin() + off[i + 1]);
      PCHECK(got == want[i], "star of edge " << i << " has " << got.size() << " edges, expected " << want[i].size());
    }
  }
  {
    auto off = hv(adj[{dim, dim}].a2ab);
    auto to = hv(adj[{dim, dim}].ab2b);
    std::map<VL, std::vector<int>> sides;
    for (int e = 0; e < ne; ++e)
      for (auto& t : down_tpl(fam, dim, dim - 1)) {
        VL k;
        for (auto j : t) k.push_back(ev[st(e * deg + j)]);
        sides[sorted(k)].push_back(e);
      }
    std::vector<std::multiset<LO>> want(static_cast<st>(ne));
    for (auto& kv : sides)
      if (kv.second.size() == 2) {
        want[st(kv.second[0])].insert(kv.second[1]);
        want[st(kv.second[1])].insert(kv.second[0]);
      }
    PCHECK(off.size() == st(ne) + 1, "dual offsets " << off.size());
    for (st i = 0; i < st(ne); ++i) {
      PCHECK(off[i] <= off[i + 1] && off[i + 1] <= LO(to.size()), "dual offsets");
      std::multiset<LO> got(to.begin() + off[i], to.begin() + off[i + 1]);
      PCHECK(got == want[i], "dual of element " << i << " has " << got.size() << " neighbours, expected " << want[i].size());
    }
    auto ex = hv(mark_exposed_sides(&m));
    for (auto& kv : sides) {
      int si = index[st(dim - 1)][kv.first];
      PCHECK(ex[st(si)] == (kv.second.size() == 1), "exposed mark of side " << si);
    }
  }
  // generic graphs
  for (int a = 0; a <= dim; ++a) {
    auto g = m.ask_graph(a, a);
    same(g.a2ab, [&] { std::vector<LO> v(ents[st(a)].size() + 1); std::iota(v.begin(), v.end(), 0); return v; }(), "identity graph offsets");
    same(g.ab2b, [&] { std::vector<LO> v(ents[st(a)].size()); std::iota(v.begin(), v.end(), 0); return v; }(), "identity graph");
    for (int b = 0; b < a; ++b) {
      auto gd = m.ask_graph(a, b);
      auto off = hv(gd.a2ab);
      int n = int(down_tpl(fam, a, b).size());
      PCHECK(off.size() == ents[st(a)].size() + 1, "graph offsets");
      for (st i = 0; i < off.size(); ++i) PCHECK(off[i] == LO(i) * n, "graph offset");
      same(gd.ab2b, hd[{a, b}], "down graph");
    }
  }
}
static void from_elements(Src& s, Env& e) {
  Omega_h_Family fam;
  int dim;
  gen_family(s, fam, dim);
  RawOpt o;
  o.subset = true;
  o.max_cells = fam == OMEGA_H_SIMPLEX ? (dim == 3 ? 6 : 12) : 12;
  auto r = gen_raw(s, fam, dim, o);
  s.nontrivial(r.ne() >= 2 && dim > 1);
  s.label(fam_name(fam) + std::to_string(dim));
  s.desc(fam_name(fam), dim, "D ", r.ne(), " elements ", r.nv, " vertices ev=", show(r.ev, 16));
  Mesh m = build_raw(e, r);
  check_all(s, m, fam, dim, r.ev);
  auto x = hv(m.coords());
  same(x, r.x, "coordinates kept");
}
// the same complex, but with lower entities given in arbitrary order and with
// arbitrary orientation: this exercises every alignment code
static void from_levels(Src& s, Env& e) {
  Omega_h_Family fam;
  int dim;
  gen_family(s, fam, dim);
  if (dim == 1) dim = 2;
  RawOpt o;
  o.subset = true;
  o.max_cells = fam == OMEGA_H_SIMPLEX ? (dim == 3 ? 4 : 10) : 8;
  auto r = gen_raw(s, fam, dim, o);
  s.nontrivial(r.ne() >= 2);
  s.label(fam_name(fam) + std::to_string(dim));
  s.desc("levels ", fam_name(fam), dim, "D ", r.ne(), " elements");
  Mesh m(e.lib);
  m.set_comm(e.lib->self());
  m.set_parting(OMEGA_H_ELEM_BASED);
  m.set_family(fam);
  m.set_dim(dim);
  m.set_verts(r.nv);
  for (int d = 1; d <= dim; ++d) {
    std::vector<LO> list;
    int w = nverts_of(fam, d);
    if (d == dim) {
      list = r.ev;
    } else {
      std::map<VL, VL> uniq;
      for (int el = 0; el < r.ne(); ++el)
        for (auto& t : down_tpl(fam, dim, d)) {
          VL k;
          for (auto j : t) k.push_back(r.ev[st(el * r.deg + j)]);
          uniq.emplace(sorted(k), k);
        }
      std::vector<VL> v;
      for (auto& kv : uniq) v.push_back(kv.second);
      for (auto i : s.permutation(int(v.size()))) {
        auto k = v[st(i)];
        std::rotate(k.begin(), k.begin() + s.range(0, w - 1), k.end());
        if (s.below(2)) std::reverse(k.begin(), k.end());
        list.insert(list.end(), k.begin(), k.end());
      }
    }
    if (d == 1) {
      m.set_ents(1, Adj(mk(list)));
    } else {
      Adj down;
      if (s.below(2)) {
        down = reflect_down(mk(list), m.ask_verts_of(d - 1), m.ask_up(VERT, d - 1), fam, d, d - 1);
      } else {
        down = reflect_down(mk(list), m.ask_verts_of(d - 1), fam, r.nv, d, d - 1);
      }
      m.set_ents(d, down);
    }
    // vertex lists must come back as given
    same(hv(m.ask_verts_of(d)), list, "vertex lists of dimension " + std::to_string(d));
  }
  check_all(s, m, fam, dim, r.ev);
}
template <int N>
static void align_n(Src& s) {
  VL in;
  for (int i = 0; i < N; ++i) in.push_back(s.range(0, 1000) * N + i);
  for (int rot = 0; rot < N; ++rot)
    for (int flip = 0; flip < (N > 2 ? 2 : 1); ++flip) {
      int wd = s.range(0, 11);
      auto code = make_code(flip, rot, wd);
      PCHECK(code_is_flipped(code) == bool(flip) && code_rotation(code) == rot && code_which_down(code) == wd, "code fields");
      VL want = apply_code(in, code);
      LO out[N];
      align_adj<N>(code, in.data(), 0, out, 0);
      for (int j = 0; j < N; ++j) PCHECK(out[j] == want[st(j)], "align_adj");
      for (int j = 0; j < N; ++j) PCHECK(want[st(align_index(N, 0, j, code))] == in[st(j)], "align_index of vertices, code " << int(code));
      // edges of a cycle: edge j connects vertex j and j+1
      for (int j = 0; j < N && N > 2; ++j) {
        std::set<LO> e1{in[st(j)], in[st((j + 1) % N)]};
        int k = align_index(N, 1, j, code);
        std::set<LO> e2{want[st(k)], want[st((k + 1) % N)]};
        PCHECK(e1 == e2, "align_index of edges, code " << int(code) << " edge " << j);
      }
      auto inv = invert_alignment(N, make_code(flip, rot, 0));
      PCHECK(apply_code(want, inv) == in, "invert_alignment of code " << int(code));
      PCHECK(apply_code(in, make_code(0, rotation_to_first(N, rot), 0))[0] == in[st(rot)], "rotation_to_first");
      if (N <= 3)
        for (int r2 = 0; r2 < N; ++r2)
          for (int f2 = 0; f2 < (N > 2 ? 2 : 1); ++f2) {
            auto c2 = make_code(f2, r2, 0);
            auto c12 = compound_alignments(N, make_code(flip, rot, 0), c2);
            PCHECK(apply_code(in, c12) == apply_code(want, c2), "compound_alignments " << int(code & 7) << "," << int(c2) << " gives " << int(c12));
          }
      auto a = align_ev2v(N, mk(in), mk(std::vector<I8>{make_code(flip, rot, 0)}));
      same(hv(a), want, "align_ev2v");
      // canonical code brings the smallest vertex first and the smaller neighbour second
      auto cc = hv(get_codes_to_canonical(N, mk(want)));
      auto canon = apply_code(want, cc[0]);
      auto canon0 = apply_code(in, hv(get_codes_to_canonical(N, mk(in)))[0]);
      PCHECK(canon == canon0, "canonical form differs between alignments");
      PCHECK(canon[0] == *std::min_element(in.begin(), in.end()), "canonical first");
    }
}
static void align(Src& s, Env&) {
  int n = s.range(2, 4);
  s.nontrivial();
  s.desc("align deg ", n);
  if (n == 2) align_n<2>(s);
  if (n == 3) align_n<3>(s);
  if (n == 4) align_n<4>(s);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"from_elements", from_elements, 16000, 400000, {1}, true, "2D or 3D mesh of at least two elements"},
    {"from_levels", from_levels, 12000, 320000, {1}, true, "2D or 3D mesh of at least two elements"},
    {"align", align, 300, 5000, {1}, true, "every rotation/flip code of a 2-, 3- or 4-vertex entity"},
  });
}
