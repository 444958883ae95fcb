// C10: recursive inertial bisection
#include <Omega_h_inertia.hpp>
#include <Omega_h_bipart.hpp>
#include "pmesh.hpp"
using namespace pbt;
static std::map<int, int> where_now(Env& e, Remotes const& owners, std::vector<std::vector<int>> const& init, std::vector<int>* counts) {
  std::vector<int> mine;
  for (LO i = 0; i < owners.ranks.size(); ++i) {
    int r = owners.ranks[i];
    PCHECK(r >= 0 && r < e.np && owners.idxs[i] >= 0 && owners.idxs[i] < int(init[st(r)].size()), "owner of a received item does not exist");
    mine.push_back(init[st(r)][st(owners.idxs[i])]);
  }
  auto all = allgather(e, mine, counts);
  std::map<int, int> w;
  st at = 0;
  for (int r = 0; r < e.np; ++r)
    for (int k = 0; k < (*counts)[st(r)]; ++k) {
      if (!w.emplace(all[at], r).second) PFAIL("item " << all[at] << " duplicated");
      ++at;
    }
  return w;
}
static void points(Src& s, Env& e) {
  int np = e.np;
  int n = s.range(1, s.thorough ? 200 : 60);
  int shape = s.weighted({3, 2, 1, 1, 1});  // cloud, plane, line, lattice, clusters
  std::vector<Real> x, w;
  int wmode = s.range(0, 3);
  Real scale = s.pick<Real>({1., 1e-3, 1e4}), off = s.pick<Real>({0., 10., -1e3});
  u64 seed = s.below(1u << 20);
  Src h;
  h.state = mix64(seed);
  for (int i = 0; i < n; ++i) {
    Real p[3] = {h.uniform(0, 1), h.uniform(0, 0.7), h.uniform(0, 0.4)};
    if (shape == 1) p[2] = 0;
    if (shape == 2) p[1] = p[2] = 0;
    if (shape == 3) {
      p[0] = i % 4;
      p[1] = (i / 4) % 4;
      p[2] = i / 16;
    }
    if (shape == 4)
      for (auto& q : p) q = 0.01 * q + double(h.below(3));
    for (int c = 0; c < 3; ++c) x.push_back(scale * p[c] + off);
    w.push_back(wmode == 0 ? 1. : wmode == 1 ? double(1 + h.below(5)) : wmode == 2 ? h.uniform(0.1, 2.) : (h.below(10) ? 0.5 : 8.));
  }
  Real total = 0, mx = 0;
  for (auto y : w) {
    total += y;
    mx = std::max(mx, y);
  }
  Real tol = s.pick<Real>({1., 2., 1.01, 5.}) * mx;
  auto deal = [&](u64 salt, int mode) {
    std::vector<std::vector<int>> d(static_cast<st>(np));
    for (int i = 0; i < n; ++i) d[st(mode == 0 ? int(mix64(salt + u64(i)) % u64(np)) : mode == 1 ? 0 : int((long long)i * np / n))].push_back(i);
    return d;
  };
  auto run = [&](std::vector<std::vector<int>> const& init, inertia::Rib& hints, std::map<int, int>& where) {
    std::vector<Real> mx_, mw;
    auto& mine = init[st(e.rank)];
    for (auto i : mine) {
      for (int c = 0; c < 3; ++c) mx_.push_back(x[st(3 * i + c)]);
      mw.push_back(w[st(i)]);
    }
    Reals cx = mk(mx_), cw = mk(mw);
    Remotes ow(Read<I32>(LO(mine.size()), e.rank), LOs(LO(mine.size()), 0, 1));
    inertia::recursively_bisect(e.comm, tol, &cx, &cw, &ow, &hints);
    std::vector<int> c;
    where = where_now(e, ow, init, &c);
    PCHECK(int(where.size()) == n, "of " << n << " items " << where.size() << " remain");
    PCHECK(cx.size() == 3 * ow.ranks.size() && cw.size() == ow.ranks.size(), "array lengths");
    for (LO i = 0; i < ow.ranks.size(); ++i) {
      int id = init[st(ow.ranks[i])][st(ow.idxs[i])];
      PCHECK(cw[i] == w[st(id)] && cx[3 * i] == x[st(3 * id)] && cx[3 * i + 1] == x[st(3 * id + 1)] && cx[3 * i + 2] == x[st(3 * id + 2)], "coordinates or weight of item " << id << " changed");
    }
  };
  auto init = deal(s.below(1000), s.range(0, 2));
  inertia::Rib hints;
  std::map<int, int> where, where2, where3;
  run(init, hints, where);
  int levels = 0;
  while ((1 << levels) < np) ++levels;
  PCHECK(int(hints.axes.size()) == levels, "recorded " << hints.axes.size() << " cut directions");
  // shares: guaranteed where the cut positions are distinct
  bool generic = shape == 0 || shape == 1;
  if (generic) {
    std::vector<Real> share(static_cast<st>(np));
    for (auto& kv : where) share[st(kv.second)] += w[st(kv.first)];
    std::vector<Real> part(1, total);
    // check each cut of the recursion: two halves of the ranks
    for (int width = np; width > 1; width /= 2)
      for (int b = 0; b < np; b += width) {
        Real lo = 0, hi = 0;
        for (int r = b; r < b + width / 2; ++r) lo += share[st(r)];
        for (int r = b + width / 2; r < b + width; ++r) hi += share[st(r)];
        PCHECK(std::fabs(lo - hi) / 2 <= tol * (1 + 1e-9), "a cut of " << lo + hi << " left " << lo << " and " << hi << " with tolerance " << tol);
      }
  }
  // replaying the hints, from the same and from another distribution
  auto h2 = hints;
  run(init, h2, where2);
  PCHECK(where2 == where, "replaying the recorded cuts gave another partition");
  // the partition does not depend on how the items were dealt
  auto init3 = deal(s.below(1000) + 5000, s.range(0, 2));
  inertia::Rib h3;
  if (s.below(2)) h3 = hints;
  run(init3, h3, where3);
  PCHECK(where3 == where, "the partition depends on the initial distribution");
  // cuts are planes: positions along the first axis are separated
  if (np > 1 && generic) {
    std::vector<Real> ax{hints.axes[0][0], hints.axes[0][1], hints.axes[0][2]};
    auto ax0 = allgather(e, ax);
    for (st i = 0; i < 3; ++i) PCHECK(ax0[i] == ax[i], "first cut direction differs between processes");
    Real lo_max = -1e300, lo_min = 1e300, hi_max = -1e300, hi_min = 1e300;
    for (auto& kv : where) {
      Real d = 0;
      for (int c = 0; c < 3; ++c) d += (x[st(3 * kv.first + c)] - off) * ax[st(c)];
      if (kv.second < np / 2) {
        lo_max = std::max(lo_max, d);
        lo_min = std::min(lo_min, d);
      } else {
        hi_max = std::max(hi_max, d);
        hi_min = std::min(hi_min, d);
      }
    }
    Real eps = 4e-3 * scale;  // the direction may be perturbed slightly
    if (lo_max >= lo_min && hi_max >= hi_min) PCHECK(lo_max <= hi_min + eps || hi_max <= lo_min + eps, "halves overlap along the cut direction: [" << lo_min << "," << lo_max << "] and [" << hi_min << "," << hi_max << "]");
  }
  s.nontrivial(np > 1 && n >= 2 * np);
  s.desc("np=", np, " n=", n, " shape=", shape, " wmode=", wmode);
}
static void bipart(Src& s, Env& e) {
  int n = s.range(0, 30);
  int pr = s.pick({50, 0, 100, 20});
  std::vector<int> at, mark;
  for (int i = 0; i < n; ++i) {
    at.push_back(s.range(0, e.np - 1));
    mark.push_back(s.chance(pr));
  }
  std::vector<I8> mm;
  std::vector<LO> ids;
  for (int i = 0; i < n; ++i)
    if (at[st(i)] == e.rank) {
      mm.push_back(I8(mark[st(i)]));
      ids.push_back(i);
    }
  auto d = bi_partition(e.comm, mk(mm));
  auto got = hv(d.exch(mk(ids), 1));
  std::vector<int> c;
  std::vector<int> gi(got.begin(), got.end());
  auto all = allgather(e, gi, &c);
  PCHECK(int(all.size()) == n && sorted(all) == [&] { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(i); return r; }(), "items lost or duplicated");
  int nm[2] = {0, 0};
  for (auto m : mark) ++nm[m];
  // one kind in each half of the processes, evenly
  int half = e.np / 2;
  int side = e.rank < half ? 0 : 1;
  int kind = -1;
  for (auto g : got) {
    if (kind == -1) kind = mark[st(g)];
    PCHECK(kind == mark[st(g)], "marked and unmarked items on one process");
  }
  auto kinds = allgather(e, std::vector<int>{kind});
  for (int r = 0; r < e.np; ++r)
    if (kinds[st(r)] >= 0 && kind >= 0) PCHECK(((r < half ? 0 : 1) == side) == (kinds[st(r)] == kind), "halves mix marked and unmarked items");
  if (kind >= 0) PCHECK(int(got.size()) <= (nm[kind] + half - 1) / half, "uneven share " << got.size() << " of " << nm[kind]);
  s.nontrivial(nm[0] > 0 && nm[1] > 0);
  s.desc("np=", e.np, " n=", n);
}
static void mesh_balance(Src& s, Env& e) {
  auto fam = s.chance(25) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.pick({2, 3, 1});
  RawOpt o;
  o.max_cells = dim == 3 ? 8 : 25;
  o.jitter = true;
  auto r = gen_raw(s, fam, dim, o);
  Mesh m(e.lib);
  if (e.rank == 0) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (s.below(2)) migrate_to(m, gen_part(s, e.np, r.ne()));
  auto ref = gather_checked(e, m);
  bool pred = s.chance(30) && fam == OMEGA_H_SIMPLEX;
  if (pred) {
    Real h = s.pick<Real>({0.5, 0.25});
    m.add_tag(VERT, "metric", 1, Reals(m.nverts(), 1 / (h * h)));
    ref = gather_checked(e, m);
  }
  m.balance(pred);
  auto g = gather_checked(e, m);
  same_global(ref, g, "after balance");
  std::map<GO, int> w1;
  for (auto& x : g.copies[dim]) w1[x.g] = x.holder;
  // again, with the stored hints
  m.balance(pred);
  auto g2 = gather_checked(e, m);
  same_global(ref, g2, "after balance");
  for (auto& x : g2.copies[dim]) PCHECK(w1[x.g] == x.holder, "balancing a balanced mesh moved element " << x.g);
  // every cut is within twice the heaviest element
  if (!pred) {
    int levels = 0;
    while ((1 << levels) < e.np) ++levels;
    std::vector<Real> share(static_cast<st>(e.np));
    for (auto& x : g.copies[dim]) share[st(x.holder)] += 1;
    Real worst = 0;
    for (auto x : share) worst = std::max(worst, x);
    Real lim = r.ne() / Real(e.np) + 4.;
    bool warned = fam == OMEGA_H_HYPERCUBE || r.ne() < 0;
    if (!warned && e.np > 1) PCHECK(worst <= lim, "a process holds " << worst << " of " << r.ne() << " elements");
    Real imb = m.imbalance();
    if (r.ne() >= 1) PCHECK(std::fabs(imb - worst / (r.ne() / Real(e.np))) < 1e-9 * imb, "imbalance() is " << imb << " for a largest share of " << worst << " of " << r.ne());
  }
  s.nontrivial(e.np > 1 && r.ne() >= 2 * e.np);
  s.desc("np=", e.np, " ", fam_name(fam), dim, "D ne=", r.ne(), pred ? " predictive" : "");
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"points", points, 1500, 30000, {2, 4, 1}, true, "two or more items per process"},
    {"points_many", points, 150, 3000, {8}, true, "as points"},
    {"bipart", bipart, 2000, 20000, {2, 4}, true, "both marked and unmarked items"},
    {"mesh_balance", mesh_balance, 800, 16000, {2, 4, 1}, true, "two or more elements per process"},
  });
}
