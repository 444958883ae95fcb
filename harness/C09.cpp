// C09: assembling a distributed mesh equals the serial mesh
#include <Omega_h_globals.hpp>
#include <Omega_h_owners.hpp>
#include "pmesh.hpp"
using namespace pbt;
static Raw gen(Src& s) {
  auto fam = s.chance(30) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.pick({2, 3, 1});
  RawOpt o;
  o.max_cells = dim == 3 ? (fam == OMEGA_H_HYPERCUBE ? 8 : 4) : 16;
  o.subset = true;
  return gen_raw(s, fam, dim, o);
}
// every element in the mesh is one given, in vertex order, exactly once
static void check_against(GMesh const& g, Raw const& r, bool coords, std::vector<GO> const* elem_numbers = nullptr) {
  PCHECK(int(g.ents[0].size()) == r.nv, "vertices " << g.ents[0].size() << " expected " << r.nv);
  PCHECK(int(g.ents[r.dim].size()) == r.ne(), "elements " << g.ents[r.dim].size() << " expected " << r.ne());
  std::multiset<std::vector<GO>> have, want;
  std::map<std::vector<GO>, GO> num;
  for (auto& kv : g.ents[r.dim]) {
    have.insert(kv.second.vg);
    num[kv.second.vg] = kv.first;
  }
  for (int i = 0; i < r.ne(); ++i) {
    std::vector<GO> v;
    for (int j = 0; j < r.deg; ++j) v.push_back(r.ev[st(i * r.deg + j)]);
    want.insert(v);
    if (elem_numbers) PCHECK(num.count(v) && num[v] == (*elem_numbers)[st(i)], "element " << i << " is numbered " << num[v]);
  }
  PCHECK(have == want, "the elements differ from those given");
  check_complex(g);
  if (coords)
    for (auto& kv : g.ents[0]) {
      auto x = coords_of(g, kv.first);
      for (int j = 0; j < r.dim; ++j) PCHECK(x[st(j)] == r.x[st(kv.first * r.dim + j)], "coordinates of vertex " << kv.first);
    }
}
static void counts(Env& e, Mesh& m, GMesh const& g) {
  for (int d = 0; d <= m.dim(); ++d) {
    LO n = m.nents_owned(d);
    GO tot = e.comm->allreduce(GO(n), OMEGA_H_SUM);
    PCHECK(tot == GO(g.ents[d].size()) && m.nglobal_ents(d) == tot, "owned counts of dimension " << d << " add to " << tot);
    auto gl = hv(globals_from_owners(&m, d));
    // a fresh numbering: dense, and the same for every copy
    std::vector<I64> mine;
    auto old = hv(m.globals(d));
    for (st i = 0; i < gl.size(); ++i) {
      mine.push_back(old[i]);
      mine.push_back(gl[i]);
    }
    auto all = allgather(e, mine);
    std::map<GO, GO> f;
    std::set<GO> used;
    for (st i = 0; i < all.size(); i += 2) {
      auto it = f.emplace(all[i], all[i + 1]);
      PCHECK(it.first->second == all[i + 1], "globals_from_owners: entity " << all[i] << " has two numbers");
      used.insert(all[i + 1]);
    }
    PCHECK(used.size() == f.size() && (used.empty() || (*used.begin() == 0 && *used.rbegin() == GO(f.size()) - 1)), "globals_from_owners is not a dense bijection");
  }
}
// arbitrary distribution of elements
static void distributed(Src& s, Env& e) {
  auto r = gen(s);
  auto part = gen_part(s, e.np, r.ne());
  bool overlap = s.chance(35);
  std::vector<std::vector<LO>> held(static_cast<st>(e.np));
  for (int i = 0; i < r.ne(); ++i)
    for (int q = 0; q < e.np; ++q)
      if (part[st(i)] == q || (overlap && s.chance(30))) held[st(q)].push_back(i);
  // local order of elements and vertices
  bool vsorted = s.below(2);
  std::vector<LO> conn;
  std::vector<GO> vg;
  std::vector<GO> eg;
  auto enumber = s.permutation(r.ne());
  std::vector<GO> enumg(enumber.begin(), enumber.end());
  for (int q = 0; q < e.np; ++q) {
    auto p = s.permutation(int(held[st(q)].size()));
    std::set<LO> vs;
    for (auto i : held[st(q)])
      for (int j = 0; j < r.deg; ++j) vs.insert(r.ev[st(i * r.deg + j)]);
    std::vector<GO> mv(vs.begin(), vs.end());
    auto vp = vsorted ? std::vector<int>() : s.permutation(int(mv.size()));
    if (q != e.rank) continue;
    for (auto x : vp) vg.push_back(mv[st(x)]);
    if (vsorted) vg = mv;
    for (auto k : p) {
      LO el = held[st(q)][st(k)];
      eg.push_back(enumg[st(el)]);
      for (int j = 0; j < r.deg; ++j) conn.push_back(LO(std::find(vg.begin(), vg.end(), GO(r.ev[st(el * r.deg + j)])) - vg.begin()));
    }
  }
  Mesh m(e.lib);
  if (!overlap) {
    build_from_elems2verts(&m, e.comm, r.fam, r.dim, mk(conn), mk(vg));
  } else {
    m.set_comm(e.comm);
    m.set_parting(OMEGA_H_GHOSTED, 1, false);
    m.set_family(r.fam);
    m.set_dim(r.dim);
    build_verts_from_globals(&m, mk(vg));
    build_ents_from_elems2verts(&m, mk(conn), mk(vg), mk(eg));
  }
  auto g = gather_checked(e, m);
  check_against(g, r, false, overlap && e.np > 1 ? &enumg : nullptr);
  counts(e, m, g);
  int shared = 0;
  for (int d = 0; d < r.dim; ++d)
    for (auto& x : g.copies[d]) shared += !x.owned();
  for (int q = 0; q < e.np; ++q) {
    std::multiset<std::vector<GO>> have, want;
    for (auto& x : g.copies[r.dim])
      if (x.holder == q) have.insert(x.vg);
    for (auto el : held[st(q)]) {
      std::vector<GO> v;
      for (int j = 0; j < r.deg; ++j) v.push_back(r.ev[st(el * r.deg + j)]);
      want.insert(v);
    }
    PCHECK(have == want, "rank " << q << " does not hold the elements it gave");
  }
  s.nontrivial(e.np == 1 ? r.ne() >= 2 : shared > 0);
  s.label(overlap ? "overlapping" : "disjoint");
  s.desc("np=", e.np, " ", fam_name(r.fam), r.dim, "D ne=", r.ne(), overlap ? " overlapping" : "", vsorted ? " sorted" : " unsorted");
}
// slices of the file order
static void sliced(Src& s, Env& e) {
  auto r = gen(s);
  GO eb, ee, vb, ve;
  suggest_slices(r.ne(), e.np, e.rank, &eb, &ee);
  suggest_slices(r.nv, e.np, e.rank, &vb, &ve);
  {
    auto all = allgather(e, std::vector<GO>{eb, ee, vb, ve});
    GO at = 0, av = 0;
    for (int q = 0; q < e.np; ++q) {
      PCHECK(all[st(4 * q)] == at && all[st(4 * q + 1)] >= at && all[st(4 * q + 2)] == av && all[st(4 * q + 3)] >= av, "suggested slices are not contiguous");
      at = all[st(4 * q + 1)];
      av = all[st(4 * q + 3)];
      PCHECK(all[st(4 * q + 1)] - all[st(4 * q)] <= (r.ne() + e.np - 1) / e.np, "slice larger than its share");
    }
    PCHECK(at == r.ne() && av == r.nv, "suggested slices do not cover");
  }
  std::vector<GO> conn(r.ev.begin() + long(eb * r.deg), r.ev.begin() + long(ee * r.deg));
  std::vector<Real> x(r.x.begin() + long(vb * r.dim), r.x.begin() + long(ve * r.dim));
  Dist se2e, sv2v;
  LOs ev;
  assemble_slices(e.comm, r.fam, r.dim, r.ne(), eb, mk(conn), r.nv, vb, mk(x), &se2e, &ev, &sv2v);
  auto vg = sv2v.exch(GOs(LO(ve - vb), vb, 1), 1);
  Mesh m(e.lib);
  build_from_elems2verts(&m, e.comm, r.fam, r.dim, ev, vg);
  same(m.globals(VERT), hv(vg), "vertex numbers");
  auto co = sv2v.exch(mk(x), r.dim);
  m.add_tag(VERT, "coordinates", r.dim, co);
  // element data travels with its element
  std::vector<GO> ed;
  for (GO i = eb; i < ee; ++i) ed.push_back(i);
  auto file_elem = se2e.exch(mk(ed), 1);
  m.add_tag<GO>(r.dim, "file_elem", 1, file_elem);
  auto g = gather_checked(e, m);
  check_against(g, r, true);
  counts(e, m, g);
  std::set<GO> seen;
  for (auto& kv : g.ents[r.dim]) {
    GO f = tag_int(g, r.dim, kv.second, "file_elem");
    PCHECK(f >= 0 && f < r.ne() && seen.insert(f).second, "element data duplicated or lost");
    for (int j = 0; j < r.deg; ++j) PCHECK(kv.second.vg[st(j)] == r.ev[st(f * r.deg + j)], "data of element " << f << " arrived at another element");
  }
  s.nontrivial(e.np > 1 && r.ne() > e.np);
  s.desc("np=", e.np, " ", fam_name(r.fam), r.dim, "D ne=", r.ne());
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"distributed", distributed, 3000, 60000, {2, 3, 4, 1}, true, "some lower entity is shared (one process: two or more elements)"},
    {"distributed_many", distributed, 200, 4000, {7}, true, "as distributed"},
    {"sliced", sliced, 2500, 50000, {2, 4, 1}, true, "more elements than processes, more than one process"},
    {"sliced_many", sliced, 100, 4000, {8}, true, "as sliced"},
  });
}
