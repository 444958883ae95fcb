// C04: generated boxes and meshes assembled from connectivity
#include "gmesh.hpp"
using namespace pbt;

static void box(Src& s, Env& e) {
  int dim = s.range(1, 3);
  auto fam = s.below(2) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  bool sym = fam == OMEGA_H_SIMPLEX && dim > 1 && s.chance(25);
  int lim = dim == 1 ? 20 : dim == 2 ? 7 : 3;
  int n[3] = {s.range(1, lim), dim > 1 ? s.range(1, lim) : 0, dim > 2 ? s.range(1, lim) : 0};
  if (s.chance(15)) n[s.range(0, dim - 1)] = s.range(1, dim == 3 ? 9 : 30);
  Real L[3] = {1, 1, 1};
  bool aniso = s.chance(30);
  for (int d = 0; d < 3; ++d) L[d] = s.below(3) == 0 ? 1.0 : aniso ? std::ldexp(s.uniform(1, 2), s.range(0, 16) - 8) : s.uniform(0.3, 3.);
  s.nontrivial(dim > 1 && n[0] * std::max(1, n[1]) * std::max(1, n[2]) >= 2);
  s.label(fam_name(fam) + std::to_string(dim) + (sym ? "symmetric" : ""));
  s.desc("box ", fam_name(fam), dim, "D ", n[0], "x", n[1], "x", n[2], " extents ", L[0], ",", L[1], ",", L[2], sym ? " symmetric" : "", " np=", e.np);
  auto m = build_box(e.comm, fam, L[0], dim > 1 ? L[1] : 0., dim > 2 ? L[2] : 0., n[0], n[1], n[2], sym);
  PCHECK(m.dim() == dim && m.family() == fam, "dimension/family");
  auto g = gather_checked(e, m);
  check_complex(g);
  // counts
  long cells = 1, verts = 1;
  Real vol = 1;
  for (int d = 0; d < dim; ++d) {
    cells *= n[d];
    verts *= n[d] + 1;
    vol *= L[d];
  }
  long quads = 0;
  if (dim == 3) quads = long(n[0]) * n[1] * (n[2] + 1) + long(n[0]) * (n[1] + 1) * n[2] + long(n[0] + 1) * n[1] * n[2];
  long per = fam == OMEGA_H_HYPERCUBE || dim == 1 ? 1 : sym ? (dim == 2 ? 4 : 24) : (dim == 2 ? 2 : 6);
  if (sym) verts += dim == 2 ? cells : cells + quads;
  PCHECK(long(g.ents[dim].size()) == cells * per, "elements " << g.ents[dim].size() << " expected " << cells * per);
  PCHECK(long(g.ents[0].size()) == verts, "vertices " << g.ents[0].size() << " expected " << verts);
  long euler = 0;
  for (int d = 0; d <= dim; ++d) euler += (d % 2 ? -1 : 1) * long(g.ents[d].size());
  PCHECK(euler == 1, "Euler characteristic " << euler);
  // vertex positions
  std::set<std::vector<long>> pos;
  std::map<GO, std::vector<long>> vpos;
  for (auto& v : g.ents[0]) {
    auto x = coords_of(g, v.first);
    std::vector<long> k;
    for (int d = 0; d < dim; ++d) {
      Real t = x[st(d)] / L[d] * n[d] * 2;  // half cells
      long r = std::lround(t);
      PCHECK(std::fabs(t - double(r)) < 1e-9 * n[d], "vertex off the grid: " << x[st(d)]);
      PCHECK(r >= 0 && r <= 2 * n[d], "vertex outside the box");
      if (!sym) PCHECK(r % 2 == 0, "vertex between grid points");
      k.push_back(r);
    }
    if (sym) {
      int odd = 0;
      for (auto r : k) odd += int(r & 1);
      PCHECK(odd == 0 || odd == dim || (dim == 3 && odd == 2), "symmetric centre");
    }
    PCHECK(pos.insert(k).second, "two vertices at one point");
    vpos[v.first] = k;
  }
  // elements: positive, right measure
  Real tot = 0;
  for (auto& el : g.ents[dim]) {
    Real sz;
    if (fam == OMEGA_H_SIMPLEX || dim == 1) {
      sz = simplex_size(g, el.second);
    } else {
      // an axis-aligned cell listed as an orientation-preserving rotation of the template
      std::vector<long> lo(st(dim), 1 << 30);
      for (auto v : el.second.vg)
        for (int d = 0; d < dim; ++d) lo[st(d)] = std::min(lo[st(d)], vpos[v][st(d)]);
      std::vector<int> at;
      for (auto v : el.second.vg) {
        int c[3] = {0, 0, 0};
        for (int d = 0; d < dim; ++d) {
          long q = vpos[v][st(d)] - lo[st(d)];
          PCHECK(q == 0 || q == 2, "cell larger than one grid cell");
          c[d] = int(q / 2);
        }
        static const int corner[2][2] = {{0, 3}, {1, 2}};
        at.push_back(corner[c[0]][c[1]] + 4 * c[2]);
      }
      auto& rots = rotations(fam, dim);
      PCHECK(std::find(rots.begin(), rots.end(), at) != rots.end(), "cell corners " << show(at) << " are not a rotation of the reference cell");
      sz = vol / double(cells);
    }
    PCHECK(sz > 0, "element measure " << sz);
    PCHECK(std::fabs(sz - vol / double(cells * per)) < 1e-9 * vol, "element measure " << sz << " expected " << vol / double(cells * per));
    tot += sz;
  }
  PCHECK(std::fabs(tot - vol) < 1e-9 * vol, "measures add up to " << tot << " expected " << vol);
  // conforming sides
  for (auto& kv : side_uses(g)) {
    bool bd = false;
    for (int d = 0; d < dim; ++d)
      for (long q : {0L, 2L * n[d]}) {
        bool all = true;
        for (auto v : kv.first) all = all && vpos[v][st(d)] == q;
        bd = bd || all;
      }
    PCHECK(kv.second.size() == (bd ? 1u : 2u), "side used " << kv.second.size() << " times, " << (bd ? "boundary" : "interior"));
  }
  // classification
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : g.ents[d]) {
      I64 id = 0, cd = 0;
      for (int a = dim - 1; a >= 0; --a) {
        bool lo = true, hi = true;
        for (auto v : kv.second.vg) {
          lo = lo && vpos[v][st(a)] == 0;
          hi = hi && vpos[v][st(a)] == 2 * n[a];
        }
        id *= 3;
        if (hi) id += 2;
        else if (!lo) {
          id += 1;
          ++cd;
        }
      }
      PCHECK(tag_int(g, d, kv.second, "class_dim") == cd && tag_int(g, d, kv.second, "class_id") == id,
          "entity of dimension " << d << " classified (" << tag_int(g, d, kv.second, "class_dim") << "," << tag_int(g, d, kv.second, "class_id") << ") expected (" << cd << "," << id << ")");
    }
  // names
  std::map<std::string, std::pair<int, int>> want;
  const char* nm[3] = {"x", "y", "z"};
  int pw[3] = {1, 3, 9};
  int center = 0;
  for (int d = 0; d < dim; ++d) center += pw[d];
  want["body"] = {dim, center};
  for (int d = 0; d < dim; ++d) {
    want[std::string(nm[d]) + "-"] = {dim - 1, center - pw[d]};
    want[std::string(nm[d]) + "+"] = {dim - 1, center + pw[d]};
  }
  {
    PCHECK(m.class_sets.size() == want.size(), "number of class sets");
    for (auto& kv : want) {
      auto it = m.class_sets.find(kv.first);
      PCHECK(it != m.class_sets.end() && it->second.size() == 1, "class set " << kv.first);
      PCHECK(it->second[0].dim == kv.second.first && it->second[0].id == kv.second.second, "class set " << kv.first << " is (" << it->second[0].dim << "," << it->second[0].id << ")");
    }
  }
}
static void from_elems(Src& s, Env& e) {
  auto fam = s.below(3) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  RawOpt o;
  o.subset = true;
  o.jitter = fam == OMEGA_H_SIMPLEX;
  o.max_cells = dim == 3 ? 8 : 16;
  auto r = gen_raw(s, fam, dim, o);
  s.nontrivial(r.ne() >= 2 && dim > 1);
  s.label(fam_name(fam) + std::to_string(dim));
  s.desc("from elements ", fam_name(fam), dim, "D ne=", r.ne(), " nv=", r.nv);
  auto m = build_raw(e, r);
  auto g = gather_checked(e, m);
  check_complex(g);
  PCHECK(int(g.ents[0].size()) == r.nv && int(g.ents[dim].size()) == r.ne(), "counts");
  for (int i = 0; i < r.ne(); ++i) {
    auto& v = g.ents[dim].at(i).vg;
    for (int j = 0; j < r.deg; ++j) PCHECK(v[st(j)] == r.ev[st(i * r.deg + j)], "element " << i);
  }
  for (int v = 0; v < r.nv; ++v) {
    auto x = coords_of(g, v);
    for (int d = 0; d < dim; ++d) PCHECK(biteq(x[st(d)], r.x[st(v * dim + d)]), "coordinates");
  }
  // the arrays handed in are copies: other meshes built from them are unaffected
  PCHECK(m.comm()->size() == 1, "communicator");
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"box", box, 1500, 40000, {1}, true, "2D or 3D box of at least two cells"},
    {"box_parallel", box, 400, 8000, {2, 4}, true, "2D or 3D box of at least two cells"},
    {"from_elems", from_elems, 1500, 40000, {1}, true, "2D or 3D mesh of at least two elements"},
  });
}
