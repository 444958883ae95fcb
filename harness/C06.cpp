// C06: message plans (Dist), owners, and the collectives below them
#include <Omega_h_comm.hpp>
#include <Omega_h_dist.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_remotes.hpp>
#include "mesh.hpp"
using namespace pbt;
namespace {
struct Item {
  int src = 0;      // rank
  int root = 0;     // forward root on src
  int local = 0;    // item index on src
  int dst = 0;
  int didx = 0;
};
struct Pat {
  int np = 1;
  std::vector<int> nsrc, ndst;           // roots per rank
  std::vector<int> nitems;               // items per rank
  bool fan = false;
  std::vector<Item> items;               // ordered by (src, local)
  std::vector<int> start;                // first item of each rank
};
Pat gen_pat(Src& s, int np) {
  Pat p;
  p.np = np;
  p.fan = s.below(2);
  std::vector<bool> empty_dst(static_cast<st>(np));
  int emptiness = s.pick({0, 20, 50});
  for (int r = 0; r < np; ++r) {
    p.nsrc.push_back(s.chance(emptiness) ? 0 : s.range(0, 8));
    p.ndst.push_back(s.chance(emptiness) ? 0 : s.range(0, 6));
  }
  int tot = 0;
  for (auto x : p.ndst) tot += x;
  int mode = s.weighted({4, 1, 1, 1});  // any / self only / neighbour only / one target
  int target = s.range(0, np - 1);
  for (int r = 0; r < np; ++r) {
    p.start.push_back(int(p.items.size()));
    int n = 0;
    for (int i = 0; i < p.nsrc[st(r)]; ++i) {
      int k = p.fan ? s.range(0, 4) : 1;
      for (int j = 0; j < k; ++j) {
        Item it;
        it.src = r;
        it.root = i;
        it.dst = mode == 0 ? s.range(0, np - 1) : mode == 1 ? r : mode == 2 ? (r + 1) % np : target;
        for (int t = 0; t < np && p.ndst[st(it.dst)] == 0; ++t) it.dst = (it.dst + 1) % np;
        if (p.ndst[st(it.dst)] == 0) {
          if (!p.fan) {  // cannot drop: give that rank a destination
            p.ndst[st(it.dst)] = 1;
          } else
            continue;
        }
        it.didx = s.range(0, p.ndst[st(it.dst)] - 1);
        it.local = n++;
        p.items.push_back(it);
      }
    }
    p.nitems.push_back(n);
  }
  p.start.push_back(int(p.items.size()));
  return p;
}
Dist build(Pat const& p, CommPtr comm) {
  int r = comm->rank();
  std::vector<I32> ranks;
  std::vector<LO> idxs, off(1, 0);
  for (int i = 0; i < p.nsrc[st(r)]; ++i) {
    for (int j = p.start[st(r)]; j < p.start[st(r + 1)]; ++j)
      if (p.items[st(j)].root == i) {
        ranks.push_back(p.items[st(j)].dst);
        idxs.push_back(p.items[st(j)].didx);
      }
    off.push_back(LO(ranks.size()));
  }
  Dist d(comm, Remotes(mk(ranks), mk(idxs)), p.ndst[st(r)]);
  if (p.fan) d.set_roots2items(mk(off));
  return d;
}
template <class T> T val(u64 seed, int item, int c) { return T(I64(mix64(seed * 1000003 + u64(item) * 31 + u64(c)) >> 20) % 100000); }
template <> I8 val<I8>(u64 seed, int item, int c) { return I8(mix64(seed * 1000003 + u64(item) * 31 + u64(c)) >> 40); }
// check everything about one plan
template <class T> void check_data(Src& s, Dist& d, Pat const& p, int r) {
  int w = s.range(1, 3);
  u64 seed = s.below(1000);
  // source data per root
  std::vector<T> data;
  auto gid = [&](int rank, int root) { return rank * 1000 + root; };
  for (int i = 0; i < p.nsrc[st(r)]; ++i)
    for (int c = 0; c < w; ++c) data.push_back(val<T>(seed, gid(r, i), c));
  // ids: item identifiers travel without the fan, so send root ids and compare multisets
  std::vector<LO> ids;
  for (int i = 0; i < p.nsrc[st(r)]; ++i) ids.push_back(gid(r, i));
  auto got_ids = hv(d.exch(mk(ids), 1));
  auto got = hv(d.exch(mk(data), w));
  int nrecv = 0;
  for (auto& it : p.items) nrecv += it.dst == r;
  PCHECK(int(got_ids.size()) == nrecv && int(got.size()) == nrecv * w, "received " << got.size() << " values, expected " << nrecv * w);
  auto inv = d.invert();
  auto off = hv(inv.roots2items());
  PCHECK(int(off.size()) == p.ndst[st(r)] + 1 && off[0] == 0 && off.back() == nrecv, "destination offsets " << show(off));
  for (int t = 0; t < p.ndst[st(r)]; ++t) {
    std::vector<LO> want, have;
    for (auto& it : p.items)
      if (it.dst == r && it.didx == t) want.push_back(gid(it.src, it.root));
    PCHECK(off[st(t)] <= off[st(t + 1)], "offsets decrease");
    for (LO j = off[st(t)]; j < off[st(t + 1)]; ++j) have.push_back(got_ids[st(j)]);
    PCHECK(sorted(have) == sorted(want), "destination " << t << " on rank " << r << " received from " << show(sorted(have)) << ", expected " << show(sorted(want)));
  }
  for (int j = 0; j < nrecv; ++j)
    for (int c = 0; c < w; ++c)
      PCHECK(biteq(got[st(j * w + c)], val<T>(seed, got_ids[st(j)], c)), "data of received item " << j << " component " << c << " is not its sender's");
  // asynchronous exchange, also after the plan has gone away
  {
    std::vector<T> a, b, b2;
    {
      auto f = d.iexch(mk(data), w);
      a = hv(f.get());
    }
    PCHECK(a.size() == got.size() && std::memcmp(a.data(), got.data(), a.size() * sizeof(T)) == 0, "asynchronous exchange differs from synchronous");
    if (s.below(2)) {
      auto tmp = std::make_shared<Dist>(d);
      auto f = tmp->iexch(mk(data), w);
      tmp.reset();
      std::vector<char> junk(sizeof(Dist), char(0x5a));
      auto other = std::make_shared<Dist>();
      b = hv(f.get());
      PCHECK(b.size() == got.size() && (b.empty() || std::memcmp(b.data(), got.data(), b.size() * sizeof(T)) == 0), "asynchronous exchange of a plan that was destroyed meanwhile");
    }
  }
  // reply: each received item answers with a function of its destination
  std::vector<LO> rep;
  for (int t = 0; t < p.ndst[st(r)]; ++t) rep.push_back(r * 1000 + t);
  auto back = hv(inv.exch(mk(rep), 1));
  PCHECK(int(back.size()) == p.nitems[st(r)], "replies " << back.size());
  for (int j = p.start[st(r)]; j < p.start[st(r + 1)]; ++j) {
    auto& it = p.items[st(j)];
    PCHECK(back[st(it.local)] == it.dst * 1000 + it.didx, "reply to item " << it.local << " on rank " << r << " is " << back[st(it.local)] << ", its destination is " << it.dst << ":" << it.didx);
  }
  // reduction
  Omega_h_Op ops[] = {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM};
  auto op = ops[s.below(3)];
  auto red = hv(d.exch_reduce(mk(data), w, op));
  PCHECK(int(red.size()) == p.ndst[st(r)] * w, "reduced size " << red.size());
  for (int t = 0; t < p.ndst[st(r)]; ++t)
    for (int c = 0; c < w; ++c) {
      bool any = false;
      T acc = 0;
      for (auto& it : p.items)
        if (it.dst == r && it.didx == t) {
          T v = val<T>(seed, gid(it.src, it.root), c);
          acc = !any ? v : op == OMEGA_H_MIN ? std::min(acc, v) : op == OMEGA_H_MAX ? std::max(acc, v) : T(acc + v);
          any = true;
        }
      if (any) PCHECK(red[st(t * w + c)] == acc, "reduction at destination " << t << " component " << c << " is " << +red[st(t * w + c)] << " expected " << +acc);
      if (!any && op == OMEGA_H_SUM) PCHECK(red[st(t * w + c)] == 0, "sum over nothing is " << +red[st(t * w + c)]);
    }
}
void check_plan(Src& s, Dist d, Pat const& p, int r) {
  // structure
  PCHECK(d.nitems() == p.nitems[st(r)], "nitems " << d.nitems());
  PCHECK(d.nsrcs() == p.nsrc[st(r)], "nsrcs " << d.nsrcs() << " expected " << p.nsrc[st(r)]);
  PCHECK(d.ndests() == p.ndst[st(r)], "ndests " << d.ndests());
  auto dests = d.items2dests();
  auto dr = hv(dests.ranks), di = hv(dests.idxs);
  PCHECK(int(dr.size()) == p.nitems[st(r)] && int(di.size()) == p.nitems[st(r)], "items2dests size");
  for (int j = p.start[st(r)]; j < p.start[st(r + 1)]; ++j) {
    auto& it = p.items[st(j)];
    PCHECK(dr[st(it.local)] == it.dst && di[st(it.local)] == it.didx, "item " << it.local << " goes to " << dr[st(it.local)] << ":" << di[st(it.local)] << " expected " << it.dst << ":" << it.didx);
  }
  std::set<int> peers;
  for (auto& it : p.items)
    if (it.src == r) peers.insert(it.dst);
  auto mr = hv(d.msgs2ranks());
  PCHECK(std::set<int>(mr.begin(), mr.end()) == peers && mr.size() == peers.size(), "message ranks " << show(mr));
  // inverse of inverse
  auto d2 = d.invert().invert();
  PCHECK(d2.nitems() == d.nitems() && hv(d2.items2content()) == hv(d.items2content()), "double inversion");
  switch (s.range(0, 3)) {
    case 0: check_data<LO>(s, d, p, r); break;
    case 1: check_data<GO>(s, d, p, r); break;
    case 2: check_data<Real>(s, d, p, r); break;
    default: check_data<I8>(s, d, p, r); break;
  }
}
void plan(Src& s, Env& e) {
  auto p = gen_pat(s, e.np);
  auto d = build(p, e.comm);
  Dist copy = d;
  check_plan(s, copy, p, e.rank);
  if (s.chance(40)) {
    // move to a communicator with permuted ranks
    auto perm = s.permutation(e.np);
    auto c2 = e.comm->split(0, perm[st(e.rank)]);
    std::vector<int> inv(static_cast<st>(e.np));  // new rank -> old rank
    for (int i = 0; i < e.np; ++i) inv[st(perm[st(i)])] = i;
    int nr = perm[st(e.rank)];
    PCHECK(c2->rank() == nr && c2->size() == e.np, "split rank");
    Pat q;
    q.np = p.np;
    q.fan = p.fan;
    for (int i = 0; i < e.np; ++i) {
      int o = inv[st(i)];
      q.nsrc.push_back(p.nsrc[st(o)]);
      q.ndst.push_back(p.ndst[st(o)]);
      q.nitems.push_back(p.nitems[st(o)]);
      q.start.push_back(int(q.items.size()));
      for (int j = p.start[st(o)]; j < p.start[st(o + 1)]; ++j) {
        auto it = p.items[st(j)];
        it.src = i;
        it.dst = perm[st(it.dst)];
        q.items.push_back(it);
      }
    }
    q.start.push_back(int(q.items.size()));
    d.change_comm(c2);
    PCHECK(d.parent_comm() == c2, "parent communicator");
    check_plan(s, d, q, nr);
    s.label("change_comm");
  }
  std::set<std::pair<int, int>> links;
  int cross = 0;
  for (auto& it : p.items) cross += it.src != it.dst;
  s.nontrivial(p.items.size() >= 2 && (e.np == 1 || cross > 0));
  if (p.fan) s.label("fan");
  for (auto x : p.nitems)
    if (!x) s.label("empty_rank");
  s.desc("np=", e.np, " items=", p.items.size(), " cross=", cross, " fan=", p.fan);
}
// receivers ordered by global number
void by_globals(Src& s, Env& e) {
  int n = s.range(0, 30);
  auto perm = s.permutation(n);
  std::vector<int> src, dst;
  for (int i = 0; i < n; ++i) {
    src.push_back(s.range(0, e.np - 1));
    dst.push_back(s.range(0, e.np - 1));
  }
  std::vector<I32> ranks;
  std::vector<GO> gl;
  std::vector<Real> data;
  GO base = s.pick<GO>({0, 1, GO(1) << 40});
  for (int i = 0; i < n; ++i)
    if (src[st(i)] == e.rank) {
      ranks.push_back(dst[st(i)]);
      gl.push_back(base + 7 * perm[st(i)]);
      data.push_back(i + 0.5);
    }
  Dist d;
  d.set_parent_comm(e.comm);
  d.set_dest_ranks(mk(ranks));
  d.set_dest_globals(mk(gl));
  auto got = hv(d.exch(mk(gl), 1));
  auto gd = hv(d.exch(mk(data), 1));
  std::vector<std::pair<GO, Real>> want;
  for (int i = 0; i < n; ++i)
    if (dst[st(i)] == e.rank) want.push_back({base + 7 * perm[st(i)], i + 0.5});
  std::sort(want.begin(), want.end());
  PCHECK(got.size() == want.size() && gd.size() == want.size(), "received " << got.size());
  for (st i = 0; i < want.size(); ++i) PCHECK(got[i] == want[i].first && gd[i] == want[i].second, "received item " << i << " is " << got[i] << " expected " << want[i].first);
  auto back = hv(d.invert().exch(mk(got), 1));
  same(back, gl, "returned by the inverse");
  s.nontrivial(n >= 2);
  s.desc("np=", e.np, " n=", n);
}
// copies of global entities: owners, reductions, variable-sized data
void owners(Src& s, Env& e) {
  int N = s.range(1, 12);
  int np = e.np;
  // copies[r] lists globals held by r, in local order
  std::vector<std::vector<GO>> held(static_cast<st>(np));
  bool sparse = s.chance(20);
  std::vector<std::vector<int>> holders(static_cast<st>(N));
  for (int g = 0; g < N; ++g) {
    int main = s.range(0, np - 1);
    for (int r = 0; r < np; ++r)
      if (r == main || s.chance(sparse ? 10 : 40)) holders[st(g)].push_back(r);
  }
  for (int r = 0; r < np; ++r) {
    for (int g = 0; g < N; ++g)
      if (std::count(holders[st(g)].begin(), holders[st(g)].end(), r)) held[st(r)].push_back(g);
    auto p = s.permutation(int(held[st(r)].size()));
    std::vector<GO> h;
    for (auto i : p) h.push_back(held[st(r)][st(i)]);
    held[st(r)] = h;
  }
  auto local = [&](int r, GO g) { return LO(std::find(held[st(r)].begin(), held[st(r)].end(), g) - held[st(r)].begin()); };
  auto& mine = held[st(e.rank)];
  int nc = int(mine.size());
  // linear partition
  auto lin = copies_to_linear_owners(e.comm, mk(mine));
  PCHECK(find_total_globals(e.comm, mk(mine)) == N, "total globals");
  int q = N / np, rem = N % np;
  auto lsz = [&](int r) { return q + (r < rem); };
  PCHECK(lin.ndests() == lsz(e.rank), "linear share " << lin.ndests() << " of " << N << " on " << e.rank);
  auto ld = lin.items2dests();
  for (int i = 0; i < nc; ++i) {
    int r = 0, acc = 0;
    while (mine[st(i)] >= acc + lsz(r)) acc += lsz(r++);
    PCHECK(ld.ranks[i] == r && ld.idxs[i] == LO(mine[st(i)] - acc), "linear owner of " << mine[st(i)]);
  }
  // owners, by chosen rank or by fewest copies
  bool given = s.below(2);
  std::vector<int> own(static_cast<st>(N));
  for (int g = 0; g < N; ++g) {
    auto& h = holders[st(g)];
    if (given) own[st(g)] = h[st(s.below(h.size()))];
    else {
      int b = h[0];
      for (auto r : h)
        if (held[st(r)].size() < held[st(b)].size()) b = r;
      own[st(g)] = b;
    }
  }
  Read<I32> ownr;
  if (given) {
    std::vector<I32> o;
    for (auto g : mine) o.push_back(own[st(g)]);
    ownr = mk(o);
  }
  auto ow = owners_from_globals(e.comm, mk(mine), ownr);
  PCHECK(ow.ranks.size() == nc && ow.idxs.size() == nc, "owners size");
  for (int i = 0; i < nc; ++i) {
    GO g = mine[st(i)];
    PCHECK(ow.ranks[i] == own[st(g)] && ow.idxs[i] == local(own[st(g)], g), "owner of entity " << g << " is " << ow.ranks[i] << ":" << ow.idxs[i] << " expected " << own[st(g)] << ":" << local(own[st(g)], g));
  }
  Dist c2o(e.comm, ow, nc);
  auto o2c = c2o.invert();
  // owners to copies
  std::vector<Real> v;
  for (auto g : mine) v.push_back(g + 0.25 + 100 * e.rank);
  int nown = 0;
  auto sync = hv(o2c.exch(mk(v), 1));
  PCHECK(int(sync.size()) == nc, "sync size");
  for (int i = 0; i < nc; ++i) PCHECK(sync[st(i)] == mine[st(i)] + 0.25 + 100 * own[st(mine[st(i)])], "copy of " << mine[st(i)] << " received " << sync[st(i)]);
  // first contribution at the linear owners
  {
    std::vector<GO> gg;
    for (auto g : mine) {
      gg.push_back(g);
      gg.push_back(3 * g + 1);
    }
    auto red = hv(reduce_data_to_owners(mk(gg), lin, 2));
    int base = 0;
    for (int r = 0; r < e.rank; ++r) base += lsz(r);
    PCHECK(int(red.size()) == 2 * lsz(e.rank), "reduce_data_to_owners size");
    for (int i = 0; i < lsz(e.rank); ++i) PCHECK(red[st(2 * i)] == base + i && red[st(2 * i + 1)] == 3 * (base + i) + 1, "data of linear owner " << base + i);
  }
  // copies to owners, summed
  {
    auto sum = hv(c2o.exch_reduce(mk(v), 1, OMEGA_H_SUM));
    for (int i = 0; i < nc; ++i) {
      GO g = mine[st(i)];
      if (own[st(g)] != e.rank) continue;
      ++nown;
      Real w = 0;
      for (auto r : holders[st(g)]) w += g + 0.25 + 100 * r;
      PCHECK(sum[st(i)] == w, "sum over the copies of " << g << " is " << sum[st(i)] << " expected " << w);
    }
  }
  // variable-sized data: send every copy its owner's list
  {
    std::vector<int> len(static_cast<st>(N));
    for (auto& l : len) l = s.range(0, 3);
    std::vector<LO> off(1, 0);
    std::vector<GO> data, want;
    for (auto g : mine) {
      for (int j = 0; j < len[st(g)]; ++j) {
        data.push_back(own[st(g)] == e.rank ? g * 100 + j : -1);
        want.push_back(g * 100 + j);
      }
      off.push_back(LO(data.size()));
    }
    auto vd = create_dist_for_variable_sized(c2o, mk(off));
    same(hv(vd.invert().exch(mk(data), 1)), want, "variable-sized data");
  }
  s.nontrivial(N >= 2 && (np == 1 || nown < nc || nown < N));
  s.desc("np=", np, " N=", N, " given=", given);
}
void collectives(Src& s, Env& e) {
  int np = e.np;
  std::vector<I64> v;
  for (int r = 0; r < np; ++r) v.push_back(I64(s.below(2000)) - 1000);
  I64 mn = v[0], mx = v[0], sm = 0, ex = 0;
  for (int r = 0; r < np; ++r) {
    mn = std::min(mn, v[st(r)]);
    mx = std::max(mx, v[st(r)]);
    sm += v[st(r)];
    if (r < e.rank) ex += v[st(r)];
  }
  I64 x = v[st(e.rank)];
  auto sub = e.comm->dup();
  PCHECK(sub->rank() == e.rank && sub->size() == np, "dup");
  PCHECK(sub->allreduce(x, OMEGA_H_MIN) == mn && sub->allreduce(x, OMEGA_H_MAX) == mx && sub->allreduce(x, OMEGA_H_SUM) == sm, "allreduce");
  PCHECK(sub->allreduce(Real(x) / 4, OMEGA_H_SUM) == Real(sm) / 4, "allreduce of reals");
  PCHECK(sub->allreduce(I32(x), OMEGA_H_MAX) == I32(mx), "allreduce I32");
  PCHECK(sub->exscan(x, OMEGA_H_SUM) == ex, "exscan " << sub->exscan(x, OMEGA_H_SUM) << " expected " << ex);
  bool any = false, all = true;
  for (auto y : v) {
    any = any || y > 0;
    all = all && y > 0;
  }
  PCHECK(sub->reduce_or(x > 0) == any && sub->reduce_and(x > 0) == all, "reduce_or / reduce_and");
  int root = s.range(0, np - 1);
  I64 b = x;
  sub->bcast(b, root);
  PCHECK(b == v[st(root)], "bcast from " << root);
  // strings, with a different length on every rank
  std::vector<std::string> str;
  for (int r = 0; r < np; ++r) str.push_back(std::string(st(s.range(0, 12)), char('a' + r)));
  auto t = str[st(e.rank)];
  sub->bcast_string(t, root);
  PCHECK(t == str[st(root)], "bcast_string from " << root << " gave \"" << t << "\" expected \"" << str[st(root)] << "\"");
  // graph
  std::vector<std::vector<int>> to(static_cast<st>(np));
  for (int r = 0; r < np; ++r)
    for (int q = 0; q < np; ++q)
      if (s.below(2)) to[st(r)].push_back(q);
  auto g = sub->graph(mk(to[st(e.rank)]));
  std::vector<int> from;
  for (int r = 0; r < np; ++r)
    if (std::count(to[st(r)].begin(), to[st(r)].end(), e.rank)) from.push_back(r);
  same(hv(g->destinations()), to[st(e.rank)], "graph destinations");
  same(sorted(hv(g->sources())), from, "graph sources");
  auto src = hv(g->sources());
  auto ag = hv(g->allgather(x));
  PCHECK(ag.size() == src.size(), "graph allgather size");
  for (st i = 0; i < src.size(); ++i) PCHECK(ag[i] == v[st(src[i])], "graph allgather from " << src[i]);
  std::vector<I32> sb;
  for (auto q : to[st(e.rank)]) sb.push_back(e.rank * 100 + q);
  auto aa = hv(g->alltoall(mk(sb)));
  PCHECK(aa.size() == src.size(), "graph alltoall size");
  for (st i = 0; i < src.size(); ++i) PCHECK(aa[i] == src[i] * 100 + e.rank, "graph alltoall from " << src[i]);
  auto gi = g->graph_inverse();
  same(hv(gi->sources()), to[st(e.rank)], "inverse graph sources");
  auto back = hv(gi->allgather(x));
  for (st i = 0; i < back.size(); ++i) PCHECK(back[i] == v[st(to[st(e.rank)][i])], "inverse graph allgather");
  // split
  std::vector<int> color, key;
  for (int r = 0; r < np; ++r) {
    color.push_back(s.range(0, 1));
    key.push_back(s.range(0, 3));
  }
  auto sp = sub->split(color[st(e.rank)], key[st(e.rank)]);
  std::vector<std::pair<int, int>> grp;
  for (int r = 0; r < np; ++r)
    if (color[st(r)] == color[st(e.rank)]) grp.push_back({key[st(r)], r});
  std::sort(grp.begin(), grp.end());
  PCHECK(sp->size() == int(grp.size()) && grp[st(sp->rank())].second == e.rank, "split rank");
  I64 gs = 0;
  for (auto& k : grp) gs += v[st(k.second)];
  PCHECK(sp->allreduce(x, OMEGA_H_SUM) == gs, "allreduce on split");
  // point to point ring with growing vectors
  if (np > 1) {
    std::vector<Real> out(st(s.range(0, 5)), e.rank + 0.5), in;
    int nx = (e.rank + 1) % np, pv = (e.rank + np - 1) % np;
    if (e.rank % 2 == 0) {
      sub->send(nx, out);
      sub->recv(pv, in);
    } else {
      sub->recv(pv, in);
      sub->send(nx, out);
    }
    same(in, std::vector<Real>(out.size(), pv + 0.5), "ring");
  }
  s.nontrivial(np > 1);
  s.desc("np=", np, " root=", root);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"plan", plan, 8000, 200000, {2, 3, 4, 1}, true, "at least two items and, in parallel, one that crosses processes"},
    {"plan_many", plan, 800, 20000, {7}, true, "at least two items, one of them crossing processes"},
    {"by_globals", by_globals, 2000, 40000, {1, 3, 4}, true, "two or more items"},
    {"owners", owners, 4000, 100000, {2, 3, 4, 1}, true, "two or more entities with, in parallel, some copy not owned"},
    {"collectives", collectives, 1500, 20000, {2, 4, 5}, true, "more than one process"},
  });
}
