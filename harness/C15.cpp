// C15: adaptation keeps a valid conforming mesh of the same domain
#include <Omega_h_coarsen.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_swap.hpp>
#include <Omega_h_class.hpp>
#include "adapt.hpp"
using namespace pbt;
// sides with one element: those on the outside of the domain, the same model faces as before
static std::map<std::pair<int, int>, int> outside(GMesh const& g) {
  std::map<std::vector<GO>, int> cnt;
  for (auto& kv : side_uses(g)) cnt[kv.first] = int(kv.second.size());
  std::map<std::pair<int, int>, int> r;
  for (auto& kv : g.ents[g.dim - 1]) {
    std::pair<int, int> k{int(tag_int(g, g.dim - 1, kv.second, "class_dim")), int(tag_int(g, g.dim - 1, kv.second, "class_id"))};
    int c = cnt[sorted(kv.second.vg)];
    if (k.first == g.dim && c != 2) PFAIL("side " << kv.first << " inside a region has " << c << " elements");
    auto it = r.find(k);
    if (it != r.end() && k.first == g.dim - 1 && it->second != c) PFAIL("model side (" << k.first << "," << k.second << ") has sides with " << it->second << " and " << c << " elements");
    r[k] = c;
  }
  std::map<std::pair<int, int>, int> o;
  for (auto& kv : r)
    if (kv.first.first == g.dim - 1) o.insert(kv);
  return o;
}
static std::set<std::vector<Real>> corners(GMesh const& g) {
  std::set<std::vector<Real>> r;
  for (auto& kv : g.ents[0])
    if (tag_int(g, 0, kv.second, "class_dim") == 0) r.insert(coords_of(g, kv.first));
  return r;
}
static void run_adapt(Src& s, Env& e) {
  int dim = s.pick({2, 3, 1, 2, 3});
  ProbOpt po;
  po.small = e.np > 1;
  auto p = gen_problem(s, dim, po);
  Mesh m(e.lib);
  if (e.np == 1 || e.rank == 0) m = build_serial(e, p);
  distribute(e, s, m, p);
  if (e.np > 1) {
    if (s.chance(40)) m.set_parting(OMEGA_H_GHOSTED, s.range(1, 3), false);
    s.label("parallel");
  }
  auto g0 = gather_checked(e, m);
  Real tiny = 0;
  auto c0 = check_geometry(g0, p.mod, tiny);
  auto out0 = outside(g0);
  auto cor0 = corners(g0);
  int n = s.range(1, s.thorough ? 4 : 2);
  int changed = 0;
  for (int it = 0; it < n; ++it) {
    auto f = gen_metric(s, p);
    set_metric(m, f);
    auto o = gen_opts(s, m);
    // more than 24 outside triangles around a vertex: see flip_fan
    int op = s.weighted({10, 1, 1, 1});
    bool did;
    switch (op) {
      case 1: did = refine_by_size(&m, o); break;
      case 2: did = coarsen_by_size(&m, o); break;
      case 3: did = dim > 1 && min_fixable_quality(&m, o) < o.min_quality_desired && swap_edges(&m, o); break;
      default: did = adapt(&m, o); break;
    }
    ConsOpt co;
    auto g = gather_checked(e, m, co);
    auto c = check_geometry(g, p.mod, tiny);
    same_measures(c0, c, dim);
    if (outside(g) != out0) PFAIL("the model sides on the outside of the domain changed");
    if (corners(g) != cor0) PFAIL("the vertices at the corners of the model changed");
    if (did) ++changed;
    s.label(did ? "changed" : "unchanged");
    s.desc(did ? "-> " : "= ", g.ents[dim].size());
  }
  s.nontrivial(changed > 0);
}
// curved domains: topology and classification
static void run_curved2(Src& s, Env& e, bool strong) {
  int dim = s.pick({3, 2, 3});
  ProbOpt po;
  po.small = e.np > 1;
  auto p = gen_problem(s, dim, po);
  Mesh m(e.lib);
  auto cx = curved_coords(s, p, strong);
  if (e.np == 1 || e.rank == 0) {
    m = build_serial(e, p);
    m.set_coords(mk(cx));
  }
  distribute(e, s, m, p);
  auto t0 = check_topology(gather_checked(e, m), p.mod);
  int n = s.range(1, s.thorough ? 4 : 3), changed = 0;
  for (int it = 0; it < n; ++it) {
    auto f = gen_metric(s, p);
    // the bent domain has other bounds
    auto bb = coord_bounds(m, f.axis);
    f.lo = bb.first;
    f.hi = bb.second;
    set_metric(m, f);
    auto o = gen_opts(s, m);
    bool did, dup = false;
    try {
      did = adapt(&m, o);
    } catch (std::exception const& ex) {
      // collapses onto existing edges
      if (!strong || !std::strstr(ex.what(), "!found")) throw;
      dup = true;
    }
    s.finding(dup, "hollow_side", "coarsening joined vertices that already are joined, across a hollow side");
    if (dup) return;
    auto g = gather_checked(e, m);
    same_topology(t0, check_topology(g, p.mod));
    changed += did;
    s.desc(did ? "-> " : "= ", g.ents[dim].size());
  }
  s.nontrivial(changed > 0);
}
static void run_curved(Src& s, Env& e) { run_curved2(s, e, false); }
static void hollow(Src& s, Env& e) { run_curved2(s, e, true); }
// a cone over a polygon with n sides: adaptation with flip prevention
static void flip_fan(Src& s, Env& e) {
  int n = s.range(5, 30);
  Real h = s.pick({1., 0.5, 2.});
  std::vector<Real> x{0, 0, 0, 0, 0, h};
  std::vector<LO> ev;
  for (int i = 0; i < n; ++i) {
    Real a = 2 * 3.14159265358979 * i / n;
    x.insert(x.end(), {std::cos(a), std::sin(a), 0});
    int j = (i + 1) % n;
    ev.insert(ev.end(), {0, 2 + i, 2 + j, 1});
  }
  Mesh m(e.lib);
  build_from_elems_and_coords(&m, OMEGA_H_SIMPLEX, 3, mk(ev), mk(x));
  classify_by_angles(&m, 0.6);
  Real hh = s.pick({1., 2., 5.});
  m.add_tag(VERT, "metric", 1, Reals(m.nverts(), 1 / (hh * hh)));
  AdaptOpts o(&m);
  o.verbosity = SILENT;
  o.should_prevent_coarsen_flip = true;
  o.should_refine = false;
  s.desc("cone of ", n, " sides, height ", h, ", size ", hh);
  s.nontrivial(n > 12);
  auto vol = [&](Mesh& q) {
    Real t = 0;
    auto v = hv(q.ask_elem_verts());
    auto c = hv(q.coords());
    for (int i = 0; i < q.nelems(); ++i) {
      Real d = simplex_measure(3, c, &v[st(i * 4)]);
      if (!(d > 0)) PFAIL("element of volume " << d);
      t += d;
    }
    return t;
  };
  Real v0 = vol(m);
  bool did = adapt(&m, o);
  s.desc(did ? "changed" : "unchanged");
  Real v1 = vol(m);
  if (v1 > v0 * (1 + 1e-9)) PFAIL("the cone grew from " << v0 << " to " << v1);
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"adapt", run_adapt, 2200, 60000, {1}, true, "at least one adaptation modified the mesh"});
  t.push_back({"adapt_parallel", run_adapt, 450, 12000, {2, 4}, true, "at least one adaptation modified the mesh"});
  t.push_back({"curved", run_curved, 700, 30000, {1}, true, "at least one adaptation modified the mesh"});
  t.push_back({"curved_parallel", run_curved, 120, 3000, {2, 4}, true, "at least one adaptation modified the mesh"});
  t.push_back({"hollow", hollow, 300, 10000, {1}, true, "at least one adaptation modified the mesh"});
  t.push_back({"flip_fan", flip_fan, 200, 1000, {1}, true, "more than 12 triangles around the top"});
  return run(argc, argv, t);
}
