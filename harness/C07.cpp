// C07: redistribution preserves the global mesh
#include "pmesh.hpp"
using namespace pbt;
static bool pow2(int n) { return (n & (n - 1)) == 0; }
static void history(Src& s, Env& e) {
  auto fam = s.chance(25) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.pick({2, 1, 3, 2});
  RawOpt o;
  o.max_cells = dim == 3 ? (fam == OMEGA_H_HYPERCUBE ? 8 : 4) : 14;
  o.subset = true;
  auto r = gen_raw(s, fam, dim, o);
  Mesh m(e.lib);
  std::ostringstream log;
  // the processes that start with the mesh
  int k = e.np == 1 ? 1 : s.range(1, e.np);
  u64 tagseed = s.below(1u << 20);
  Src ts;
  ts.state = mix64(tagseed);
  CommPtr sub = k == e.np ? e.comm : e.comm->split(e.rank < k ? 0 : 1, e.rank);
  auto sub_part = gen_part(s, k, r.ne());
  bool pre_ghost = k > 1 && k < e.np && s.chance(30);
  int pre_layers = s.range(1, 2);
  if (e.rank < k) {
    if (e.rank == 0) {
      m = build_raw(e, r);
      add_random_tags(ts, m);
      m.class_sets["left"] = {{dim - 1, 3}, {0, -7}};
    }
    m.set_comm(sub);
    if (k > 1) migrate_to(m, sub_part);
    if (pre_ghost) m.set_parting(OMEGA_H_GHOSTED, pre_layers, false);
  }
  if (k < e.np) m.set_comm(e.comm);
  auto ref = gather_checked(e, m);
  {
    // against the arrays given
    PCHECK(int(ref.ents[dim].size()) == r.ne() && int(ref.ents[0].size()) == r.nv, "entity counts");
    for (auto& kv : ref.ents[dim])
      for (int j = 0; j < r.deg; ++j) PCHECK(kv.second.vg[st(j)] == r.ev[st(kv.first * r.deg + j)], "element " << kv.first << " vertices");
    for (auto& kv : ref.ents[0]) {
      auto x = coords_of(ref, kv.first);
      for (int j = 0; j < dim; ++j) PCHECK(x[st(j)] == r.x[st(kv.first * dim + j)], "vertex " << kv.first << " coordinates");
    }
    check_complex(ref);
  }
  PCHECK(m.class_sets.count("left") && m.class_sets["left"].size() == 2 && m.class_sets["left"][1].id == -7 && m.class_sets["left"][1].dim == 0, "class sets on the new processes");
  log << "start " << k << (pre_ghost ? " ghosted" : "") << "; ";
  int nops = s.range(1, s.thorough ? 12 : 7);
  int moved = 0;
  for (int op = 0; op < nops; ++op) {
    switch (s.weighted({5, 3, 2, 3, 2, 2})) {
      case 0: {
        m.set_parting(OMEGA_H_ELEM_BASED);
        auto p = gen_part(s, e.np, r.ne());
        migrate_to(m, p);
        log << "migrate ";
        if (fam == OMEGA_H_SIMPLEX || true) {
          auto g = hv(m.globals(dim));
          LO want = 0;
          for (int i = 0; i < r.ne(); ++i) want += p[st(i)] == m.comm()->rank();
          PCHECK(LO(g.size()) == want, "rank holds " << g.size() << " elements, was sent " << want);
          for (auto x : g) PCHECK(p[st(x)] == m.comm()->rank(), "element " << x << " arrived at the wrong process");
        }
        ++moved;
        break;
      }
      case 1: {
        int l = s.range(1, 3);
        m.set_parting(OMEGA_H_GHOSTED, l, false);
        PCHECK(m.parting() == OMEGA_H_GHOSTED && m.nghost_layers() == l, "parting mode");
        log << "ghost" << l << " ";
        ++moved;
        break;
      }
      case 2:
        m.set_parting(OMEGA_H_VERT_BASED);
        log << "verts ";
        ++moved;
        break;
      case 3:
        m.set_parting(OMEGA_H_ELEM_BASED);
        log << "elems ";
        break;
      case 4: {
        if (!pow2(e.np)) break;
        m.balance();
        log << "balance ";
        ++moved;
        break;
      }
      default: {
        auto perm = s.permutation(e.np);
        auto c = e.comm->split(0, perm[st(e.rank)]);
        m.set_comm(c);
        PCHECK(m.comm() == c, "communicator");
        log << "comm" << show(perm) << " ";
        ++moved;
        break;
      }
    }
    if (s.below(2)) {  // look at derived things, which must not go stale
      if (dim > 1) m.ask_down(dim, dim - 1);
      m.ask_up(VERT, dim);
      for (int d = 0; d <= dim; ++d) m.ask_dist(d);
    }
    auto g = gather_checked(e, m);
    try {
      same_global(ref, g, "after the operation");
    } catch (Fail const& f) {
      throw Fail(std::string(f.what()) + " history: " + log.str());
    }
    // plans from copies to owners agree with the recorded owners
    for (int d = 0; d <= dim; ++d) {
      auto dd = m.ask_dist(d).items2dests();
      auto ow = m.ask_owners(d);
      same(hv(dd.ranks), hv(ow.ranks), "owner ranks of the plan, dimension " + std::to_string(d));
      same(hv(dd.idxs), hv(ow.idxs), "owner indices of the plan");
      PCHECK(m.nglobal_ents(d) == GO(ref.ents[d].size()), "global count of dimension " << d << " is " << m.nglobal_ents(d));
      auto own = hv(m.owned(d));
      LO no = 0;
      for (st i = 0; i < own.size(); ++i) {
        PCHECK(own[i] == (ow.ranks[LO(i)] == m.comm()->rank()), "owned mark");
        no += own[i];
      }
      PCHECK(m.nents_owned(d) == no, "owned count");
    }
    if (m.parting() == OMEGA_H_ELEM_BASED)
      for (auto& x : g.copies[dim]) PCHECK(x.owned(), "element copy not owned in an element-based partition");
  }
  s.nontrivial(e.np > 1 && r.ne() >= 2 && moved > 0);
  s.label(fam_name(fam));
  s.desc("np=", e.np, " ", fam_name(fam), dim, "D ne=", r.ne(), " ", log.str());
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"history", history, 2500, 60000, {2, 3, 4}, true, "more than one process, two or more elements, at least one redistribution"},
    {"history_many", history, 200, 4000, {7}, true, "as history"},
    {"serial", history, 300, 4000, {1}, true, "not applicable (one process: all operations are identities)"},
  });
}
