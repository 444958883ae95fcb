// C08: contents of ghost layers; synchronisation and reduction of attributes
#include <Omega_h_globals.hpp>
#include "pmesh.hpp"
using namespace pbt;
static Mesh start(Src& s, Env& e, Raw& r, std::ostringstream& log) {
  auto fam = s.chance(20) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.pick({2, 1, 3, 2});
  RawOpt o;
  o.max_cells = dim == 3 ? (fam == OMEGA_H_HYPERCUBE ? 10 : 5) : 18;
  o.subset = true;
  r = gen_raw(s, fam, dim, o);
  Mesh m(e.lib);
  if (e.rank == 0) m = build_raw(e, r);
  m.set_comm(e.comm);
  migrate_to(m, gen_part(s, e.np, r.ne()));
  log << fam_name(fam) << dim << "D ne=" << r.ne() << " ";
  return m;
}
static void ghosts(Src& s, Env& e) {
  Raw r;
  std::ostringstream log;
  auto m = start(s, e, r, log);
  int dim = r.dim;
  auto base = gather_checked(e, m);
  // element adjacency through vertices, from the given arrays
  std::vector<std::set<GO>> v2e(static_cast<st>(r.nv));
  for (int i = 0; i < r.ne(); ++i)
    for (int j = 0; j < r.deg; ++j) v2e[st(r.ev[st(i * r.deg + j)])].insert(i);
  int nops = s.range(1, 4);
  bool any = false;
  for (int op = 0; op < nops; ++op) {
    if (s.chance(30)) {
      m.set_parting(OMEGA_H_ELEM_BASED);
      migrate_to(m, gen_part(s, e.np, r.ne()));
      log << "migrate ";
    }
    int mode = s.weighted({4, 2, 1});
    int k = 0;
    GMesh g;
    if (mode == 0) {
      k = s.range(1, 4);
      m.set_parting(OMEGA_H_GHOSTED, k, false);
      log << "ghost" << k << " ";
    } else if (mode == 1) {
      m.set_parting(OMEGA_H_VERT_BASED);
      log << "verts ";
    } else {
      m.set_parting(OMEGA_H_ELEM_BASED);
      log << "elems ";
    }
    g = gather_checked(e, m);
    std::vector<std::set<GO>> have(static_cast<st>(e.np)), own(static_cast<st>(e.np)), want(static_cast<st>(e.np));
    for (auto& x : g.copies[dim]) {
      have[st(x.holder)].insert(x.g);
      if (x.owned()) own[st(x.holder)].insert(x.g);
    }
    if (mode == 1) {
      for (auto& x : g.copies[0])
        if (x.owned()) want[st(x.holder)].insert(v2e[st(x.g)].begin(), v2e[st(x.g)].end());
    } else {
      want = own;
      for (int l = 0; l < k; ++l)
        for (auto& w : want) {
          auto w2 = w;
          for (auto el : w)
            for (int j = 0; j < r.deg; ++j) {
              auto& n = v2e[st(r.ev[st(el * r.deg + j)])];
              w2.insert(n.begin(), n.end());
            }
          w = w2;
        }
    }
    for (int q = 0; q < e.np; ++q) {
      std::vector<GO> a(have[st(q)].begin(), have[st(q)].end()), b(want[st(q)].begin(), want[st(q)].end());
      if (a != b) PFAIL(log.str() << ": rank " << q << " holds elements " << show(a, 40) << " expected " << show(b, 40));
      if (a.size() > own[st(q)].size()) any = true;
    }
    // lower entities: exactly those of the held elements
    for (int d = 0; d < dim; ++d) {
      std::map<int, std::set<std::vector<GO>>> hl, wl;
      for (auto& x : g.copies[d]) hl[x.holder].insert(sorted(x.vg));
      for (auto& x : g.copies[dim])
        for (auto& t : down_tpl(r.fam, dim, d)) {
          std::vector<GO> kk;
          for (auto j : t) kk.push_back(x.vg[st(j)]);
          wl[x.holder].insert(sorted(kk));
        }
      for (int q = 0; q < e.np; ++q) PCHECK(hl[q] == wl[q], "rank " << q << " holds " << hl[q].size() << " entities of dimension " << d << ", its elements have " << wl[q].size());
    }
    // elements stay owned where they were while ghosting
    if (mode == 0) {
      std::map<int, Real> cnt;
      for (int q = 0; q < e.np; ++q) cnt[q] = Real(own[st(q)].size());
      Real no = 0, nh = 0;
      for (int q = 0; q < e.np; ++q) {
        no += Real(own[st(q)].size());
        nh += Real(have[st(q)].size());
      }
      PCHECK(no == r.ne(), "owned elements " << no);
      PCHECK(m.have_all_upward() && m.owners_have_all_upward(VERT), "ghosted meshes have all upward adjacency");
      for (auto& x : g.copies[0])
        if (x.owned())
          for (auto el : v2e[st(x.g)]) PCHECK(have[st(x.holder)].count(el), "an owner of vertex " << x.g << " lacks element " << el);
    }
    same_global(base, g, "after " + log.str());
  }
  s.nontrivial(any);
  s.desc("np=", e.np, " ", log.str());
}
template <class T> static T lv(u64 seed, GO g, int rank, int c) { return T(I64(mix64(seed * 7 + u64(g) * 1009 + u64(rank) * 31 + u64(c)) >> 33) % 100000); }
template <> I8 lv<I8>(u64 seed, GO g, int rank, int c) { return I8(mix64(seed * 7 + u64(g) * 1009 + u64(rank) * 31 + u64(c)) >> 40); }
template <class T> static void fields(Src& s, Env& e, Mesh& m, GMesh const& g, int d) {
  int w = s.range(1, 3);
  u64 seed = s.below(1000);
  auto gl = hv(m.globals(d));
  LO n = m.nents(d);
  std::vector<T> v;
  for (auto x : gl)
    for (int c = 0; c < w; ++c) v.push_back(lv<T>(seed, x, e.rank, c));
  std::map<GO, std::vector<int>> holders;
  std::map<GO, int> owner;
  for (auto& x : g.copies[d]) {
    holders[x.g].push_back(x.holder);
    if (x.owned()) owner[x.g] = x.holder;
  }
  std::vector<T> want;
  for (auto x : gl)
    for (int c = 0; c < w; ++c) want.push_back(lv<T>(seed, x, owner.at(x), c));
  same(m.sync_array(d, mk(v), w), want, "sync_array");
  {
    auto f = m.isync_array(d, mk(v), w);
    std::vector<T> noise(100, T(1));
    auto other = m.sync_array(d, mk(v), w);
    same(f.get(), want, "isync_array");
  }
  m.add_tag<T>(d, "f", w, mk(v));
  m.sync_tag(d, "f");
  PCHECK(m.get_tagbase(d, "f")->ncomps() == w, "width after sync_tag");
  same(m.get_array<T>(d, "f"), want, "sync_tag");
  Omega_h_Op ops[] = {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM};
  auto op = ops[s.below(3)];
  auto combine = [&](GO x, int c) {
    T a = 0;
    bool first = true;
    for (auto q : holders.at(x)) {
      T y = lv<T>(seed, x, q, c);
      a = first ? y : op == OMEGA_H_MIN ? std::min(a, y) : op == OMEGA_H_MAX ? std::max(a, y) : T(a + y);
      first = false;
    }
    return a;
  };
  auto red = hv(m.reduce_array(d, mk(v), w, op));
  PCHECK(LO(red.size()) == n * w, "reduce_array size");
  auto own = hv(m.owned(d));
  std::vector<T> wo;
  for (LO i = 0; i < n; ++i) {
    if (!own[st(i)]) continue;
    for (int c = 0; c < w; ++c) {
      T x = combine(gl[st(i)], c);
      PCHECK(red[st(i * w + c)] == x, "reduce over the copies of " << gl[st(i)] << " (dimension " << d << ") is " << +red[st(i * w + c)] << " expected " << +x);
      wo.push_back(v[st(i * w + c)]);
    }
  }
  same(m.owned_array(d, mk(v), w), wo, "owned_array");
  m.add_tag<T>(d, "r", w, mk(v));
  m.reduce_tag(d, "r", op);
  m.sync_tag(d, "r");
  auto rt = hv(m.get_array<T>(d, "r"));
  for (LO i = 0; i < n; ++i)
    for (int c = 0; c < w; ++c) PCHECK(rt[st(i * w + c)] == combine(gl[st(i)], c), "reduce_tag then sync_tag");
  // subset: owner values reach the subset, entities the owner left out get the default
  {
    std::vector<LO> sub;
    std::set<GO> local;
    u64 salt = s.below(1000);
    auto in = [&](GO x, int rank) { return mix64(salt + u64(x) * 97 + u64(rank) * 13) % 3 != 0; };
    for (LO i = 0; i < n; ++i)
      if (in(gl[st(i)], e.rank)) sub.push_back(i);
    std::vector<T> sv, sw;
    for (auto i : sub)
      for (int c = 0; c < w; ++c) {
        sv.push_back(v[st(i * w + c)]);
        GO x = gl[st(i)];
        sw.push_back(in(x, owner.at(x)) ? lv<T>(seed, x, owner.at(x), c) : T(-3));
      }
    bool shared = m.could_be_shared(d);
    same(m.sync_subset_array(d, mk(sv), mk(sub), T(-3), w), shared ? sw : sv, "sync_subset_array");
    if (shared) {
      std::vector<T> ow;
      for (LO i = 0; i < n; ++i)
        if (own[st(i)])
          for (int c = 0; c < w; ++c) ow.push_back(in(gl[st(i)], e.rank) ? v[st(i * w + c)] : T(-3));
      same(m.owned_subset_array(d, mk(sv), mk(sub), T(-3), w), ow, "owned_subset_array");
    }
  }
  m.remove_tag(d, "f");
  m.remove_tag(d, "r");
}
static void syncing(Src& s, Env& e) {
  Raw r;
  std::ostringstream log;
  auto m = start(s, e, r, log);
  int mode = s.weighted({2, 3, 2});
  if (mode == 1) m.set_parting(OMEGA_H_GHOSTED, s.range(1, 3), false);
  if (mode == 2) m.set_parting(OMEGA_H_VERT_BASED);
  log << "mode " << mode << " ";
  auto g = gather_checked(e, m);
  int shared = 0;
  for (int d = 0; d <= r.dim; ++d) {
    for (auto& x : g.copies[d]) shared += !x.owned();
    switch (s.range(0, 3)) {
      case 0: fields<I32>(s, e, m, g, d); break;
      case 1: fields<I8>(s, e, m, g, d); break;
      case 2: fields<I64>(s, e, m, g, d); break;
      default: fields<Real>(s, e, m, g, d); break;
    }
    // numbering entities anew
    auto own = hv(m.owned(d));
    auto ng = hv(rescan_globals(&m, m.owned(d)));
    GO before = 0;
    for (auto& x : g.copies[d]) before += x.owned() && x.holder < e.rank;
    GO k = before;
    for (st i = 0; i < own.size(); ++i)
      if (own[i]) PCHECK(ng[i] == k++, "rescan_globals: owned entity " << i << " numbered " << ng[i]);
  }
  // coordinates change on every process, also the empty ones
  {
    auto x = hv(m.coords());
    for (auto& y : x) y = 2 * y + 1;
    m.set_coords(mk(x));
    auto g2 = gather_checked(e, m);
    PCHECK(g2.tag(0, "coordinates")->ncomps == r.dim, "coordinate width");
    for (auto& kv : g2.ents[0]) {
      auto p = coords_of(g2, kv.first);
      for (int j = 0; j < r.dim; ++j) PCHECK(p[st(j)] == 2 * r.x[st(kv.first * r.dim + j)] + 1, "moved coordinates");
    }
  }
  s.nontrivial(shared > 0);
  for (int q = 0; q < e.np; ++q)
    if (g.counts[st(q)][0] == 0) s.label("empty_rank");
  s.desc("np=", e.np, " ", log.str());
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"ghosts", ghosts, 2500, 50000, {2, 3, 4}, true, "some process holds an element it does not own"},
    {"ghosts_many", ghosts, 200, 4000, {7}, true, "as ghosts"},
    {"sync", syncing, 2000, 40000, {2, 3, 4, 1}, true, "some entity has a copy that is not owned"},
  });
}
