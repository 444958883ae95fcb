// C39: extracting parts of meshes, splitting hypercubes, confined entities
#include <Omega_h_confined.hpp>
#include <Omega_h_simplify.hpp>
#include <Omega_h_unmap_mesh.hpp>
#include <cmath>
#include "pmesh.hpp"
using namespace pbt;
typedef long double LD;

// ------------------------------------------------------------- extraction
struct Old {
  std::vector<std::vector<GO>> verts[4];  // by local index, globals in order
  std::vector<GO> g[4];
  std::vector<I32> orank[4];
  std::map<std::string, std::vector<I64>> tags[4];
  std::map<std::string, std::pair<int, int>> kinds[4];
};
static Old snap(Mesh& m) {
  Old o;
  auto vg = m.globals(0);
  for (int d = 0; d <= m.dim(); ++d) {
    o.g[d] = hv(m.globals(d));
    o.orank[d] = hv(m.ask_owners(d).ranks);
    int w = nverts_of(m.family(), d);
    LOs ev;
    if (d) ev = m.ask_verts_of(d);
    for (int i = 0; i < m.nents(d); ++i) {
      std::vector<GO> v;
      for (int j = 0; j < w; ++j) v.push_back(d ? vg[ev[i * w + j]] : vg[i]);
      o.verts[d].push_back(v);
    }
    for (Int t = 0; t < m.ntags(d); ++t) {
      auto tag = m.get_tag(d, t);
      std::vector<I64> v;
      int n = m.nents(d) * tag->ncomps();
      auto put = [&](auto const& a) {
        if (a.size() != n) PFAIL("tag " << tag->name() << " has " << a.size() << " values, should have " << n);
        for (int i = 0; i < n; ++i) put_vals(v, a, i, 1);
      };
      switch (tag->type()) {
        case OMEGA_H_I8: put(as<I8>(tag)->array()); break;
        case OMEGA_H_I32: put(as<I32>(tag)->array()); break;
        case OMEGA_H_I64: put(as<I64>(tag)->array()); break;
        case OMEGA_H_F64: put(as<Real>(tag)->array()); break;
      }
      o.tags[d][tag->name()] = v;
      o.kinds[d][tag->name()] = {int(tag->type()), tag->ncomps()};
    }
  }
  return o;
}
void t_unmap(Src& s, Env& e) {
  auto fam = s.chance(60) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  if (dim == 1) fam = OMEGA_H_SIMPLEX;
  RawOpt ro;
  ro.max_cells = dim == 3 ? 8 : 20;
  ro.subset = s.chance(40);
  auto r = gen_raw(s, fam, dim, ro);
  auto part = gen_part(s, e.np, r.ne());
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, part);
  int layers = s.range(0, 2);
  if (layers && (e.np > 1 || s.chance(20))) m.set_parting(OMEGA_H_GHOSTED, layers, false);
  add_random_tags(s, m);
  if (s.chance(50)) {  // cached adjacencies must not leak into the new mesh
    m.ask_up(0, dim);
    if (dim > 1) m.ask_down(dim, 1);
    m.ask_star(0);
    if (dim > 1 && fam == OMEGA_H_SIMPLEX) m.ask_star(1);
    m.ask_dual();
    if (e.np > 1) m.ask_dist(0);
  }
  u64 salt = s.below(100000);
  int dens = s.pick({60, 90, 30, 100, 5, 0});
  int extra = s.pick({0, 20, 100});
  int perm = s.range(0, 2);
  auto old = snap(m);
  // a selection by global number which is closed downward
  std::vector<std::set<std::vector<GO>>> need(4);  // vertex sets
  std::vector<int> sel[4];
  std::vector<LO> lists[4];
  // whether a lower entity is needed must not depend on who looks: an entity
  // is selected if a kept element uses it, or by its own hash
  std::set<GO> keep_elems;
  for (int i = 0; i < r.ne(); ++i)
    if (int(mix64(salt + u64(i)) % 100) < dens) keep_elems.insert(i);
  std::vector<std::vector<GO>> ser_elems;
  {
    int w = nverts_of(fam, dim);
    for (int i = 0; i < r.ne(); ++i) {
      std::vector<GO> v;
      for (int j = 0; j < w; ++j) v.push_back(r.ev[st(i * w + j)]);
      ser_elems.push_back(v);
    }
  }
  auto sorted = [](std::vector<GO> v) {
    std::sort(v.begin(), v.end());
    return v;
  };
  auto key_keep = [&](int d, std::vector<GO> const& v) {
    u64 h = salt * 31 + u64(d);
    for (auto x : sorted(v)) h = mix64(h + u64(x));
    return int(h % 100) < extra;
  };
  for (int d = dim; d >= 0; --d) {
    for (st i = 0; i < old.g[d].size(); ++i) {
      auto& v = old.verts[d][i];
      auto sv = sorted(v);
      bool k = false;
      if (d == dim) k = keep_elems.count(old.g[d][i]) != 0;
      else {
        k = key_keep(d, v);
        for (auto el : keep_elems) {
          auto se = sorted(ser_elems[st(el)]);
          k = k || std::includes(se.begin(), se.end(), sv.begin(), sv.end());
        }
      }
      sel[d].push_back(k);
    }
  }
  // close: extra entities of one dimension need their sides
  // decided from vertex sets of every entity of the whole mesh
  {
    Env f = e;
    f.comm = e.lib->self();
    f.rank = 0;
    f.np = 1;
    Mesh ser = build_raw(f, r);
    ser.set_comm(f.comm);
    auto so = snap(ser);
    for (int d = dim - 1; d > 0; --d) {
      for (st i = 0; i < so.g[d].size(); ++i)
        if (key_keep(d, so.verts[d][i])) need[st(d)].insert(sorted(so.verts[d][i]));
      for (int l = d - 1; l >= 0; --l)
        for (st i = 0; i < old.g[l].size(); ++i)
          for (auto& n : need[st(d)]) {
            auto sv = sorted(old.verts[l][i]);
            if (std::includes(n.begin(), n.end(), sv.begin(), sv.end())) sel[l][i] = 1;
          }
    }
  }
  int dropped = 0, kept = 0;
  for (int d = 0; d <= dim; ++d) {
    for (st i = 0; i < sel[d].size(); ++i)
      if (sel[d][i]) lists[d].push_back(LO(i));
    dropped += int(sel[d].size() - lists[d].size());
    kept += int(lists[d].size());
    if (perm)
      std::sort(lists[d].begin(), lists[d].end(), [&](LO a, LO b) {
        u64 x = perm == 2 ? u64(e.rank) * 7919 : 0;
        return std::make_pair(mix64(salt + x + u64(a)), a) < std::make_pair(mix64(salt + x + u64(b)), b);
      });
  }
  s.desc(fam_name(fam), dim, "D ", r.ne(), " elements, keep ", keep_elems.size(), ", extra ", extra, "%, order ", perm, ", layers ", layers, ", np ", e.np);
  s.label(keep_elems.empty() ? "no elements kept" : keep_elems.size() == st(r.ne()) ? "all elements kept" : "some elements kept");
  s.nontrivial(!keep_elems.empty() && int(keep_elems.size()) < r.ne());
  LOs l[4];
  for (int d = 0; d <= dim; ++d) l[d] = mk(lists[d]);
  auto parting = m.parting();
  auto nl = m.nghost_layers();
  unmap_mesh(&m, l);
  if (m.dim() != dim || m.family() != fam) PFAIL("dimension or family changed");
  if (m.parting() != parting || m.nghost_layers() != nl) PFAIL("parting changed");
  if (m.comm()->size() != e.np) PFAIL("communicator changed");
  auto now = snap(m);
  for (int d = 0; d <= dim; ++d) {
    if (now.g[d].size() != lists[d].size()) PFAIL(now.g[d].size() << " entities of dimension " << d << " after selecting " << lists[d].size());
    for (auto& k : old.kinds[d])
      if (!now.kinds[d].count(k.first) || now.kinds[d][k.first] != k.second) PFAIL("tag " << k.first << " of dimension " << d << " lost or changed its type");
    for (auto& k : now.kinds[d])
      if (!old.kinds[d].count(k.first)) PFAIL("tag " << k.first << " of dimension " << d << " invented");
    for (st i = 0; i < lists[d].size(); ++i) {
      auto j = st(lists[d][i]);
      if (now.verts[d][i] != old.verts[d][j]) PFAIL("entity " << old.g[d][j] << " of dimension " << d << " changed its vertices");
      if (now.orank[d][i] != old.orank[d][j]) PFAIL("entity " << old.g[d][j] << " of dimension " << d << " changed its owner");
      for (auto& t : old.tags[d]) {
        auto w = st(old.kinds[d][t.first].second);
        for (st c = 0; c < w; ++c)
          if (t.second[j * w + c] != now.tags[d][t.first][i * w + c]) PFAIL("tag " << t.first << " of entity " << old.g[d][j] << " of dimension " << d << " changed");
      }
    }
  }
  auto gm = gather(e, m);
  for (int d = 0; d <= dim; ++d) {
    std::map<std::pair<int, int>, GO> at;
    for (auto& c : gm.copies[d]) at[{c.holder, c.local}] = c.g;
    for (auto& c : gm.copies[d]) {
      auto it = at.find({c.orank, c.oidx});
      if (it == at.end() || it->second != c.g) PFAIL("entity " << c.g << " of dimension " << d << " on rank " << c.holder << " names entity " << c.oidx << " of rank " << c.orank << " as its owner, which is " << (it == at.end() ? GO(-1) : it->second));
    }
  }
  // incidences of the new mesh from its vertex sets
  if (now.g[dim].size()) {
    for (int d = 0; d < dim; ++d) {
      auto up = m.ask_up(d, dim);
      auto a2ab = hv(up.a2ab), ab2b = hv(up.ab2b);
      for (st i = 0; i < now.g[d].size(); ++i) {
        auto sv = sorted(now.verts[d][i]);
        std::set<int> want, got;
        for (st k = 0; k < now.g[dim].size(); ++k) {
          auto se = sorted(now.verts[dim][k]);
          if (std::includes(se.begin(), se.end(), sv.begin(), sv.end())) want.insert(int(k));
        }
        for (int k = a2ab[i]; k < a2ab[i + 1]; ++k) got.insert(ab2b[st(k)]);
        if (got != want) PFAIL("entity " << now.g[d][i] << " of dimension " << d << " is used by " << got.size() << " elements, should be " << want.size());
      }
    }
  }
}
// -------------------------------------------------------------- splitting
static void affine(Src& s, Raw& r) {
  int dim = r.dim;
  Real a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (s.chance(60)) {
    for (int t = 0; t < 8; ++t) {
      for (int i = 0; i < dim; ++i)
        for (int j = 0; j < dim; ++j) a[i][j] = (i == j ? 1 : 0) + (t == 7 ? 0 : s.uniform(-0.6, 0.6));
      if (det_of(dim, a) > 0.2) break;
    }
  }
  Real t = s.pick<Real>({0, 3, -100});
  Real sc = s.pick<Real>({1, 1e-5, 1e4});
  for (int v = 0; v < r.nv; ++v) {
    Real y[3] = {0, 0, 0};
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) y[i] += a[i][j] * r.x[st(v * dim + j)];
    for (int i = 0; i < dim; ++i) r.x[st(v * dim + i)] = (y[i] + t) * sc;
  }
}
static Real cell_measure(Raw const& r, int c) {
  int dim = r.dim, w = 1 << dim;
  LO v2[3] = {r.ev[st(c * w)], r.ev[st(c * w + 1)], r.ev[st(c * w + 3)]};
  LO v3[4] = {v2[0], v2[1], v2[2], dim == 3 ? r.ev[st(c * w + 4)] : 0};
  // the parallelepiped at the first corner
  Real m = dim == 2 ? simplex_measure(2, r.x, v2) : simplex_measure(3, r.x, v3);
  return m * (dim == 2 ? 2 : 6);
}
static void check_split(Raw const& r, std::vector<LO> const& sv, std::vector<Real> const& x, bool lattice) {
  int dim = r.dim, w = dim + 1, cw = 1 << dim;
  if (sv.size() % st(w)) PFAIL("list of simplices has " << sv.size() << " entries");
  int ns = int(sv.size()) / w;
  std::vector<std::set<LO>> cells;
  for (int c = 0; c < r.ne(); ++c) cells.push_back(std::set<LO>(r.ev.begin() + c * cw, r.ev.begin() + (c + 1) * cw));
  std::vector<Real> vol(cells.size(), 0);
  std::vector<int> num(cells.size(), 0);
  std::map<std::vector<LO>, int> faces;
  for (int i = 0; i < ns; ++i) {
    std::vector<LO> v(sv.begin() + i * w, sv.begin() + (i + 1) * w);
    int in = -1, hits = 0;
    for (st c = 0; c < cells.size(); ++c) {
      bool all = true;
      for (auto y : v) all = all && (!lattice || cells[c].count(y));
      if (all) in = int(c), ++hits;
    }
    if (lattice && hits != 1) PFAIL("simplex " << i << " has its vertices in " << hits << " cells");
    auto mm = simplex_measure(dim, x, v.data());
    if (lattice) {
      if (!(mm > 1e-3 * std::fabs(cell_measure(r, in)))) PFAIL("simplex " << i << " of cell " << in << " has measure " << mm << ", the cell " << cell_measure(r, in));
      vol[st(in)] += mm;
      ++num[st(in)];
    } else if (!(mm > 0))
      PFAIL("simplex " << i << " has measure " << mm);
    for (int k = 0; k < w; ++k) {
      auto f = v;
      f.erase(f.begin() + k);
      std::sort(f.begin(), f.end());
      ++faces[f];
    }
  }
  if (lattice)
    for (int c = 0; c < r.ne(); ++c) {
      auto cm = cell_measure(r, c);
      if (dim == 2 ? num[st(c)] != 2 : num[st(c)] != 5 && num[st(c)] != 6) PFAIL("cell " << c << " became " << num[st(c)] << " simplices");
      if (!(std::fabs(vol[st(c)] - cm) <= 1e-9 * std::fabs(cm))) PFAIL("the simplices of cell " << c << " have total measure " << vol[st(c)] << ", the cell " << cm);
    }
  // sides: one cell's or shared by two
  std::map<std::vector<LO>, int> csides;
  auto& tpl = down_tpl(OMEGA_H_HYPERCUBE, dim, dim - 1);
  for (int c = 0; c < r.ne(); ++c)
    for (auto& t : tpl) {
      std::vector<LO> f;
      for (int y : t) f.push_back(r.ev[st(c * cw + y)]);
      std::sort(f.begin(), f.end());
      ++csides[f];
    }
  int outer = 0, outer_want = 0;
  for (auto& f : csides) outer_want += f.second == 1;
  for (auto& f : faces) {
    if (f.second > 2) PFAIL("a side belongs to " << f.second << " simplices");
    outer += f.second == 1;
  }
  if (dim == 3) outer_want *= lattice ? 2 : 4;
  if (outer != outer_want) PFAIL(outer << " sides belong to one simplex, should be " << outer_want << ": simplices do not match across cells");
}
void t_split(Src& s, Env& e) {
  int dim = s.range(2, 3);
  RawOpt ro;
  ro.max_cells = dim == 3 ? 10 : 20;
  ro.subset = s.chance(30);
  ro.shuffle = s.chance(85);
  auto r = gen_raw(s, OMEGA_H_HYPERCUBE, dim, ro);
  affine(s, r);
  int how = s.below(3) == 0 ? 1 : 0;
  s.desc(dim, "D ", r.ne(), " cells", ro.shuffle ? ", shuffled" : "", how ? ", symmetric" : "");
  s.nontrivial(ro.shuffle && r.ne() > 1);
  s.label(how ? "symmetric" : "by diagonals");
  if (!how) {
    auto sv = hv(dim == 2 ? tris_from_quads(mk(r.ev)) : tets_from_hexes(mk(r.ev)));
    check_split(r, sv, r.x, true);
    // and the result is a mesh
    Raw q = r;
    q.fam = OMEGA_H_SIMPLEX;
    q.ev = sv;
    Mesh m = build_raw(e, q);
    if (m.nverts() != r.nv) PFAIL("mesh of the simplices has " << m.nverts() << " vertices");
    return;
  }
  Mesh m = build_raw(e, r);
  m.set_comm(e.comm);
  int nq = m.nfaces(), nv = m.nverts(), nc = m.nelems();
  auto fverts = verts_of(m, 2);
  auto cverts = verts_of(m, dim);
  if (dim == 2) tris_from_quads_symmetric(&m);
  else tets_from_hexes_symmetric(&m);
  if (m.family() != OMEGA_H_SIMPLEX || m.dim() != dim) PFAIL("result is not a simplex mesh");
  int want_v = dim == 2 ? nv + nq : nv + nq + nc;
  if (m.nverts() != want_v) PFAIL(m.nverts() << " vertices, should be " << want_v);
  if (m.nelems() != nc * (dim == 2 ? 4 : 24)) PFAIL(m.nelems() << " elements of " << nc << " cells");
  auto x = hv(m.coords());
  Real big = 0;
  for (auto y : r.x) big = std::max(big, std::fabs(y));
  for (int i = 0; i < nv * dim; ++i)
    if (!biteq(x[st(i)], r.x[st(i)])) PFAIL("vertex " << i / dim << " moved");
  auto mid = [&](int at, VL const& v) {
    for (int k = 0; k < dim; ++k) {
      LD c = 0;
      for (auto y : v) c += r.x[st(y * dim + k)];
      c /= LD(v.size());
      if (!(std::fabs(Real(c) - x[st(at * dim + k)]) <= 1e-13 * big)) PFAIL("added vertex " << at << " is not at a centre");
    }
  };
  for (int i = 0; i < nq; ++i) mid(nv + i, fverts[st(i)]);
  if (dim == 3)
    for (int i = 0; i < nc; ++i) mid(nv + nq + i, cverts[st(i)]);
  std::vector<LO> sv;
  Real tot = 0, want = 0;
  for (auto& v : verts_of(m, dim)) {
    for (auto y : v) sv.push_back(y);
    tot += simplex_measure(dim, x, v.data());
  }
  for (int c = 0; c < nc; ++c) want += cell_measure(r, c);
  if (!(std::fabs(tot - want) <= 1e-9 * want)) PFAIL("total measure " << tot << ", should be " << want);
  check_split(r, sv, x, false);
}
// --------------------------------------------------------------- confined
struct P3 {
  LD x[3] = {0, 0, 0};
};
static P3 operator-(P3 a, P3 b) {
  for (int i = 0; i < 3; ++i) a.x[i] -= b.x[i];
  return a;
}
static P3 operator+(P3 a, P3 b) {
  for (int i = 0; i < 3; ++i) a.x[i] += b.x[i];
  return a;
}
static P3 operator*(LD k, P3 a) {
  for (int i = 0; i < 3; ++i) a.x[i] *= k;
  return a;
}
static LD dot(P3 a, P3 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static LD len(P3 a) { return std::sqrt(dot(a, a)); }
static P3 cross3(P3 a, P3 b) {
  P3 r;
  for (int i = 0; i < 3; ++i) r.x[i] = a.x[(i + 1) % 3] * b.x[(i + 2) % 3] - a.x[(i + 2) % 3] * b.x[(i + 1) % 3];
  return r;
}
void t_confined(Src& s, Env& e) {
  int dim = s.range(1, 3);
  RawOpt ro;
  ro.max_cells = dim == 3 ? 4 : 10;
  ro.subset = s.chance(20);
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, ro);
  // distort: an affine map and, if no element suffers, single vertices
  if (dim > 1) affine(s, r);
  if (dim > 1 && s.chance(60)) {
    Real h = 0;
    for (int i = 0; i < r.ne(); ++i)
      for (int k = 0; k < dim; ++k) h = std::max(h, std::fabs(r.x[st(r.ev[st(i * (dim + 1))] * dim + k)] - r.x[st(r.ev[st(i * (dim + 1) + 1)] * dim + k)]));
    for (int t = 0; t < 6; ++t) {
      int v = int(s.below(u64(r.nv)));
      auto x = r.x;
      for (int k = 0; k < dim; ++k) x[st(v * dim + k)] += h * s.uniform(-0.8, 0.8);
      bool ok = true;
      for (int i = 0; i < r.ne(); ++i) {
        auto a = simplex_measure(dim, r.x, &r.ev[st(i * (dim + 1))]);
        auto b = simplex_measure(dim, x, &r.ev[st(i * (dim + 1))]);
        ok = ok && b > 0.1 * a;
      }
      if (ok) r.x = x;
    }
  }
  Mesh m = build_raw(e, r);
  m.set_comm(e.comm);
  std::vector<VL> vs[4];
  for (int d = 0; d <= dim; ++d) {
    if (d) vs[d] = verts_of(m, d);
    else
      for (int i = 0; i < m.nverts(); ++i) vs[0].push_back({i});
  }
  std::map<std::vector<LO>, int> id[4];
  for (int d = 0; d <= dim; ++d)
    for (st i = 0; i < vs[d].size(); ++i) {
      auto v = vs[d][i];
      std::sort(v.begin(), v.end());
      id[d][std::vector<LO>(v.begin(), v.end())] = int(i);
    }
  auto find = [&](std::vector<LO> v) {
    std::sort(v.begin(), v.end());
    return id[v.size() - 1].at(v);
  };
  auto X = [&](int v) {
    P3 p;
    for (int k = 0; k < dim; ++k) p.x[k] = r.x[st(v * dim + k)];
    return p;
  };
  // arbitrary classification dimensions
  int low = s.pick({30, 60, 90});
  std::vector<I8> cd[4];
  for (int d = 0; d <= dim; ++d) {
    for (st i = 0; i < vs[d].size(); ++i) cd[d].push_back(I8(s.chance(low) ? d : s.range(d, dim)));
    m.add_tag<I8>(d, "class_dim", 1, mk(cd[d]));
  }
  auto br = hv(find_bridge_edges(&m));
  for (st i = 0; i < vs[1].size(); ++i) {
    bool w = cd[1][i] != cd[0][st(vs[1][i][0])] && cd[1][i] != cd[0][st(vs[1][i][1])];
    if ((br[i] != 0) != w) PFAIL("edge " << i << " marked " << int(br[i]) << " as a bridge");
  }
  if (s.chance(70)) {
    int p = s.pick({50, 80, 95, 20});
    for (auto& b : br) b = s.chance(p);
  }
  auto bridge = [&](int a, int b) { return br[st(find({a, b}))] != 0; };
  int pads = 0, pinches = 0;
  for (int pd = 1; pd <= dim; ++pd) {
    auto got = hv(get_pad_dists(&m, pd, mk(br)));
    if (got.size() != vs[pd].size()) PFAIL(got.size() << " pad distances for " << vs[pd].size() << " entities");
    for (st i = 0; i < got.size(); ++i) {
      auto& v = vs[pd][i];
      LD size = 0;
      for (auto a : v)
        for (auto b : v) size = std::max(size, len(X(a) - X(b)));
      std::vector<LD> sure, maybe;  // distances that count, may count
      if (pd == 1) {
        if (br[i]) sure.push_back(len(X(v[0]) - X(v[1])));
      } else if (pd == 2) {
        for (int k = 0; k < 3; ++k) {
          int o = v[st(k)], a = v[st((k + 1) % 3)], b = v[st((k + 2) % 3)];
          if (!bridge(o, a) || !bridge(o, b)) continue;
          auto ab = X(b) - X(a);
          LD t = dot(X(o) - X(a), ab) / dot(ab, ab);
          LD h = len(X(a) + t * ab - X(o));
          if (t > 1e-9 && t < 1 - 1e-9) sure.push_back(h);
          else if (t > -1e-9 && t < 1 + 1e-9) maybe.push_back(h);
        }
      } else {
        int nb = 0;
        for (int a = 0; a < 4; ++a)
          for (int b = 0; b < a; ++b) nb += bridge(v[st(a)], v[st(b)]);
        for (int k = 0; k < 4; ++k) {
          int o = v[st(k)];
          std::vector<int> f;
          bool all = true;
          for (int q = 0; q < 4; ++q)
            if (q != k) f.push_back(v[st(q)]), all = all && bridge(o, v[st(q)]);
          if (!all) continue;
          auto a = X(f[0]);
          auto n = cross3(X(f[1]) - a, X(f[2]) - a);
          LD nn = dot(n, n);
          LD d = dot(a - X(o), n) / nn;
          auto foot = X(o) + d * n;
          LD lo = 1;
          for (int q = 0; q < 3; ++q) {
            auto p0 = X(f[st((q + 1) % 3)]), p1 = X(f[st((q + 2) % 3)]);
            lo = std::min(lo, dot(cross3(p0 - foot, p1 - foot), n) / nn);
          }
          LD h = std::fabs(d) * std::sqrt(nn);
          if (lo > 1e-9) sure.push_back(h);
          else if (lo > -1e-9) maybe.push_back(h);
        }
        if (nb == 4)
          for (int q = 1; q < 4; ++q) {  // the pair (0,q) and the other two
            int o[2], at = 0;
            for (int z = 1; z < 4; ++z)
              if (z != q) o[at++] = v[st(z)];
            int a = v[0], b = v[st(q)], c = o[0], d = o[1];
            if (bridge(a, b) || bridge(c, d)) continue;
            auto ab = X(b) - X(a), cdv = X(d) - X(c);
            auto n = cross3(ab, cdv);
            LD nn = dot(n, n);
            LD h = std::fabs(dot(X(a) - X(c), n)) / std::sqrt(nn);
            // where the lines come closest
            auto ac = X(c) - X(a);
            LD t = dot(cross3(ac, cdv), n) / nn, u = dot(cross3(ac, ab), n) / nn;
            LD in = std::min(std::min(t, 1 - t), std::min(u, 1 - u));
            if (in > 1e-9) sure.push_back(h);
            else if (in > -1e-9) maybe.push_back(h);
          }
      }
      auto fits = [&](LD w) { return std::fabs(LD(got[i]) - w) <= 1e-9L * size; };
      bool ok = false;
      if (sure.empty() && maybe.empty()) ok = got[i] == -1.0;
      else {
        LD best = sure.empty() ? -1 : *std::min_element(sure.begin(), sure.end());
        ok = sure.empty() ? got[i] == -1.0 : fits(best);
        for (auto y : maybe) ok = ok || fits(y);
      }
      pads += !sure.empty();
      if (!ok) {
        std::ostringstream o;
        for (auto y : sure) o << " " << Real(y);
        o << (maybe.empty() ? "" : " or") ;
        for (auto y : maybe) o << " " << Real(y);
        PFAIL("pad distance of entity " << i << " of dimension " << pd << " is " << got[i] << ", distances that count:" << o.str());
      }
    }
  }
  for (int pd = 2; pd <= dim; ++pd) {
    auto got = hv(get_pinched_angles(&m, pd));
    if (got.size() != vs[pd].size()) PFAIL(got.size() << " angles");
    for (st i = 0; i < got.size(); ++i) {
      auto& v = vs[pd][i];
      LD best = -1;
      auto ang = [](P3 a, P3 b) { return std::atan2(len(cross3(a, b)), dot(a, b)); };
      if (pd == 2) {
        for (int k = 0; k < 3; ++k) {
          int o = v[st(k)], a = v[st((k + 1) % 3)], b = v[st((k + 2) % 3)];
          if (cd[0][st(o)] != 0 || cd[1][st(find({o, a}))] != 1 || cd[1][st(find({o, b}))] != 1) continue;
          auto g = ang(X(a) - X(o), X(b) - X(o));
          if (best < 0 || g < best) best = g;
        }
      } else
        for (int a = 0; a < 4; ++a)
          for (int b = 0; b < a; ++b) {
            std::vector<int> o;
            for (int k = 0; k < 4; ++k)
              if (k != a && k != b) o.push_back(v[st(k)]);
            int va = v[st(a)], vb = v[st(b)];
            if (cd[1][st(find({va, vb}))] != 1) continue;
            if (cd[2][st(find({va, vb, o[0]}))] != 2 || cd[2][st(find({va, vb, o[1]}))] != 2) continue;
            auto t = X(vb) - X(va);
            auto n0 = cross3(t, X(o[0]) - X(va)), n1 = cross3(t, X(o[1]) - X(va));
            auto g = ang(n0, n1);
            if (best < 0 || g < best) best = g;
          }
      pinches += best >= 0;
      if (best < 0 ? got[i] != -1.0 : !(std::fabs(LD(got[i]) - best) <= 1e-6L)) PFAIL("pinched angle of entity " << i << " of dimension " << pd << " is " << got[i] << ", should be " << Real(best));
    }
  }
  s.desc(dim, "D ", r.ne(), " elements, ", pads, " pads, ", pinches, " pinched");
  s.nontrivial(pads > 0 || pinches > 0);
  s.label("dimension " + std::to_string(dim));
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"unmap", t_unmap, 700, 12000, {1, 2, 3, 4}, true, "some but not all elements are kept"});
  t.push_back({"split", t_split, 1500, 30000, {1}, true, "more than one cell, numbered at random"});
  t.push_back({"confined", t_confined, 3000, 60000, {1}, true, "some entity is confined"});
  return run(argc, argv, t);
}
