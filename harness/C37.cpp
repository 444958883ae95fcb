// C37: independent sets
#include <Omega_h_indset.hpp>
#include "pmesh.hpp"
using namespace pbt;

void t_indset(Src& s, Env& e) {
  auto fam = s.chance(75) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  if (dim == 1) fam = OMEGA_H_SIMPLEX;
  RawOpt ro;
  ro.max_cells = dim == 3 ? 10 : 24;
  ro.subset = s.chance(40);
  auto r = gen_raw(s, fam, dim, ro);
  Env f = e;
  f.comm = e.lib->self();
  f.rank = 0;
  f.np = 1;
  Mesh ser = build_raw(f, r);
  ser.set_comm(f.comm);
  int d = dim == 1 || fam == OMEGA_H_HYPERCUBE ? 0 : s.range(0, 1);
  if (s.chance(5)) d = dim;
  int n = ser.nents(d);
  // candidates, qualities
  u64 salt = s.below(100000);
  int dens = s.pick({100, 60, 20, 90, 0});
  int nq = s.pick({1, 2, 3, 1000000, 8});
  auto cand = [&](int g) { return I8(int(mix64(salt + u64(g)) % 100) < dens); };
  auto qual = [&](int g) {
    u64 h = mix64(salt * 3 + u64(g)) % u64(nq);
    Real q = nq == 8 ? Real(g % 17) + (g % 3) * 1e-13 : Real(h);
    return nq > 1000 ? q * 1e-9 - 3e-4 : q / 7.;
  };
  // the graph: vertices sharing an edge, edges sharing an element, or any
  // symmetric one within reach
  bool own_graph = d == 0 && s.chance(30);
  int keep = s.pick({100, 60, 30});
  auto in_graph = [&](int a, int b) {
    if (!own_graph) return true;
    return int(mix64(salt * 7 + u64(std::min(a, b)) * 1009 + u64(std::max(a, b))) % 100) < keep;
  };
  std::vector<std::set<int>> adj(static_cast<st>(n));
  auto link = [&](int a, int b) {
    if (a != b && in_graph(a, b)) adj[st(a)].insert(b);
  };
  if (d == dim) {
  } else if (d == 0) {
    auto lo = verts_of(ser, own_graph ? dim : 1);
    for (auto& v : lo)
      for (auto a : v)
        for (auto b : v) link(a, b);
  } else {
    auto ee = ser.ask_down(dim, 1).ab2b;
    int k = ee.size() / ser.nelems();
    for (int i = 0; i < ser.nelems(); ++i)
      for (int a = 0; a < k; ++a)
        for (int b = 0; b < k; ++b) link(ee[i * k + a], ee[i * k + b]);
  }
  // numbers of the entities: those of the serial mesh, or shuffled
  std::vector<I8> in(static_cast<st>(n), 0);
  std::vector<int> order(static_cast<st>(n));
  std::iota(order.begin(), order.end(), 0);
  bool shuffled = d < dim && s.chance(50);
  auto gnum = [&](int g) { return shuffled ? GO(n) * 3 - 2 * GO(g) + (g % 2 ? 4 * GO(n) : 0) : GO(g); };
  std::sort(order.begin(), order.end(), [&](int a, int b) { return qual(a) != qual(b) ? qual(a) > qual(b) : gnum(a) > gnum(b); });
  int nc = 0, ni = 0;
  for (int g : order) {
    if (!cand(g)) continue;
    ++nc;
    bool ok = true;
    if (d < dim)
      for (int h : adj[st(g)]) ok = ok && !in[st(h)];
    in[st(g)] = ok;
    ni += ok;
  }
  s.desc(fam_name(fam), dim, "D ", r.ne(), " elements, ", nc, " candidates of ", n, " entities of dimension ", d, ", ", ni, " in, np ", e.np);
  s.label("dimension " + std::to_string(d));
  s.label(nq == 1 ? "equal qualities" : nq < 10 ? "many ties" : "no ties");
  s.nontrivial(ni < nc && ni > 0);
  auto part = gen_part(s, e.np, r.ne());
  int layers = s.range(1, 2);
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, part);
  if (e.np > 1 || s.chance(30)) m.set_parting(OMEGA_H_GHOSTED, layers, false);
  auto g = hv(m.globals(d));
  if (shuffled) {
    std::vector<GO> x;
    for (auto y : g) x.push_back(gnum(int(y)));
    m.add_tag<GO>(d, "global", 1, mk(x));
  }
  std::vector<I8> c;
  std::vector<Real> q;
  for (auto x : g) c.push_back(cand(int(x))), q.push_back(qual(int(x)));
  std::vector<I8> got;
  if (own_graph) {
    std::map<int, int> loc;
    for (st i = 0; i < g.size(); ++i) loc[int(g[i])] = int(i);
    // what neighbours are here
    std::vector<std::set<int>> la(g.size());
    auto lo = verts_of(m, dim);
    for (auto& v : lo)
      for (auto a : v)
        for (auto b : v)
          if (a != b && in_graph(int(g[st(a)]), int(g[st(b)]))) la[st(a)].insert(b);
    std::vector<LO> off{0}, to;
    for (auto& x : la) {
      to.insert(to.end(), x.begin(), x.end());
      off.push_back(LO(to.size()));
    }
    got = hv(find_indset(&m, d, Graph(mk(off), mk(to)), mk(q), mk(c)));
  } else
    got = hv(find_indset(&m, d, mk(q), mk(c)));
  if (got.size() != g.size()) PFAIL(got.size() << " marks for " << g.size() << " entities");
  for (st i = 0; i < g.size(); ++i)
    if ((got[i] != 0) != (in[st(g[i])] != 0) || (got[i] != 0 && got[i] != 1)) {
      std::ostringstream o;
      for (int h : adj[st(g[i])]) o << " " << h << (in[st(h)] ? "*" : cand(h) ? "+" : "");
      PFAIL("entity " << g[i] << " marked " << int(got[i]) << ", should be " << int(in[st(g[i])]) << "; neighbours:" << o.str());
    }
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"indset", t_indset, 1500, 25000, {1, 2, 3, 4}, true, "some candidates are left out"});
  return run(argc, argv, t);
}
