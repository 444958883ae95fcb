// C19: the outcome depends on the global mesh alone, not on partition, ghosts or luck
#include <malloc.h>
#include <Omega_h_coarsen.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_swap.hpp>
#include <Omega_h_unmap_mesh.hpp>
#include "adapt.hpp"
using namespace pbt;
namespace {
// another distribution (or local order) of the same global mesh
void rearrange(Env& e, Src& s, Mesh& m, bool allow_ghosts) {
  if (m.parting() != OMEGA_H_ELEM_BASED) m.set_parting(OMEGA_H_ELEM_BASED);
  int how = e.np == 1 ? 3 : s.weighted({6, 0, 0, 2, e.np == 3 ? 0 : 2, 3});
  switch (how) {
    case 0: {
      auto part = gen_part(s, e.np, int(m.nglobal_ents(m.dim())));
      migrate_to(m, part);
      s.desc("~part");
      break;
    }
    case 3:
      reorder_by_globals(&m);
      s.desc("~by globals");
      break;
    case 5: {
      // any local order of the entities of each dimension
      u64 salt = s.below(100000);
      LOs n2o[4];
      for (int d = 0; d <= m.dim(); ++d) {
        std::vector<LO> v(st(m.nents(d)));
        for (st i = 0; i < v.size(); ++i) v[i] = LO(i);
        std::sort(v.begin(), v.end(), [&](LO a, LO b) { return std::make_pair(mix64(salt * 4 + u64(d) + u64(a) * 1000003), a) < std::make_pair(mix64(salt * 4 + u64(d) + u64(b) * 1000003), b); });
        n2o[d] = mk(v);
      }
      unmap_mesh(&m, n2o);
      s.desc("~shuffled");
      break;
    }
    default:
      m.balance();
      s.desc("~balance");
      break;
  }
  if (allow_ghosts && e.np > 1)
    switch (s.range(0, 3)) {
      case 1:
        m.set_parting(OMEGA_H_GHOSTED, s.range(1, 2), false);
        s.desc("ghosted");
        break;
      case 2:
        m.set_parting(OMEGA_H_VERT_BASED, 1, false);
        s.desc("vertex based");
        break;
      default: break;
    }
}
struct Local {
  std::vector<std::vector<I64>> v;
};
// everything this process holds, bit for bit, in its own order
Local local_of(Mesh& m) {
  Local r;
  for (int d = 0; d <= m.dim(); ++d) {
    std::vector<I64> o;
    auto g = hv(m.globals(d));
    o.insert(o.end(), g.begin(), g.end());
    auto ow = m.ask_owners(d);
    auto rk = hv(ow.ranks);
    auto ix = hv(ow.idxs);
    o.insert(o.end(), rk.begin(), rk.end());
    o.insert(o.end(), ix.begin(), ix.end());
    if (d) {
      auto v = hv(m.ask_verts_of(d));
      o.insert(o.end(), v.begin(), v.end());
      auto a = m.ask_down(d, d - 1);
      auto b = hv(a.ab2b);
      o.insert(o.end(), b.begin(), b.end());
      if (d > 1) {
        auto c = hv(a.codes);
        o.insert(o.end(), c.begin(), c.end());
      }
    }
    std::map<std::string, std::vector<I64>> t;
    for (Int i = 0; i < m.ntags(d); ++i) {
      auto b = m.get_tag(d, i);
      std::vector<I64> q{I64(b->type()), I64(b->ncomps())};
      switch (b->type()) {
        case OMEGA_H_I8: put_vals(q, as<I8>(b)->array(), 0, m.nents(d) * b->ncomps()); break;
        case OMEGA_H_I32: put_vals(q, as<I32>(b)->array(), 0, m.nents(d) * b->ncomps()); break;
        case OMEGA_H_I64: put_vals(q, as<I64>(b)->array(), 0, m.nents(d) * b->ncomps()); break;
        case OMEGA_H_F64: put_vals(q, as<Real>(b)->array(), 0, m.nents(d) * b->ncomps()); break;
      }
      t[b->name()] = q;
    }
    for (auto& kv : t) {
      o.push_back(I64(hash_str(kv.first) >> 1));
      o.insert(o.end(), kv.second.begin(), kv.second.end());
    }
    r.v.push_back(o);
  }
  return r;
}
struct Fields {
  bool lin = false, inh = false, pw = false, cons = false, mom = false;
};
void add_fields(Mesh& m, Fields const& f, TransferOpts& xo) {
  int dim = m.dim();
  if (f.lin) {
    add_hash_tag<Real>(m, VERT, "lin", 2, 5);
    xo.type_map["lin"] = OMEGA_H_LINEAR_INTERP;
  }
  if (f.inh) {
    for (int d = 0; d <= dim; ++d) add_hash_tag<I32>(m, d, "inh", 1, 7 + u64(d));
    xo.type_map["inh"] = OMEGA_H_INHERIT;
  }
  if (f.pw) {
    add_hash_tag<Real>(m, dim, "pw", 1, 11);
    xo.type_map["pw"] = OMEGA_H_POINTWISE;
  }
  if (f.cons || f.mom) {
    auto g = hv(m.globals(dim));
    std::vector<Real> v;
    for (auto x : g) v.push_back(0.5 + double(mix64(u64(x)) >> 11) / 9007199254740992.0);
    m.add_tag(dim, "rho", 1, mk(v));
    xo.type_map["rho"] = OMEGA_H_CONSERVE;
    xo.integral_map["rho"] = "mass";
    xo.integral_diffuse_map["mass"] = VarCompareOpts{VarCompareOpts::NONE, 0, 0};
  }
  if (f.mom) {
    auto g = hv(m.globals(0));
    std::vector<Real> v;
    for (auto x : g)
      for (int c = 0; c < dim; ++c) v.push_back(double(mix64(u64(x) * 5 + u64(c)) >> 11) / 9007199254740992.0 - 0.3);
    m.add_tag(VERT, "vel", dim, mk(v));
    xo.type_map["vel"] = OMEGA_H_MOMENTUM_VELOCITY;
    xo.velocity_density_map["vel"] = "rho";
    xo.velocity_momentum_map["vel"] = "mom";
    xo.integral_diffuse_map["mom"] = VarCompareOpts{VarCompareOpts::NONE, 0, 0};
  }
}
// same global mesh; the tags listed agree up to rounding only
void compare(GMesh const& a, GMesh const& b, std::string const& what, std::set<std::string> const& rounded) {
  same_global(a, b, what, rounded);
  for (int d = 0; d <= a.dim; ++d)
    for (auto& t : a.tags[d]) {
      if (!rounded.count(t.name)) continue;
      auto u = b.tag(d, t.name);
      if (!u || u->ncomps != t.ncomps) PFAIL(what << ": tag " << t.name << " differs in shape");
      Real mag = 0;
      for (auto& kv : a.ents[d])
        for (int k = 0; k < t.ncomps; ++k) mag = std::max(mag, std::fabs(real_of(kv.second.pay[st(t.offset + k)])));
      for (auto& kv : a.ents[d])
        for (int k = 0; k < t.ncomps; ++k) {
          Real x = real_of(kv.second.pay[st(t.offset + k)]), y = real_of(b.ents[d].at(kv.first).pay[st(u->offset + k)]);
          if (!(std::fabs(x - y) <= 1e-9 * mag)) PFAIL(what << ": tag " << t.name << " of entity " << kv.first << " is " << x << " or " << y);
        }
    }
}
// fresh memory holds this byte: what is computed must not depend on it
struct Dirty {
  Dirty(int byte) { ::mallopt(M_PERTURB, 0xff ^ byte); }
  ~Dirty() { ::mallopt(M_PERTURB, 0xff ^ fresh_byte); }
};
struct Step {
  MetricFn f;
  int op = 0;
};
bool apply(Mesh& m, Step const& st_, AdaptOpts const& o) {
  set_metric(m, st_.f);
  switch (st_.op) {
    case 1: return refine_by_size(&m, o);
    case 2: return coarsen_by_size(&m, o);
    case 3: return m.dim() > 1 && min_fixable_quality(&m, o) < o.min_quality_desired && swap_edges(&m, o);
    case 4: return m.dim() > 1 && min_fixable_quality(&m, o) < o.min_quality_desired && coarsen_slivers(&m, o);
    default: return adapt(&m, o);
  }
}
void run_indep(Src& s, Env& e) {
  int dim = s.pick({2, 3, 1, 2, 3});
  ProbOpt po;
  po.small = e.np > 1;
  auto p = gen_problem(s, dim, po);
  bool curved = dim > 1 && s.chance(30);
  std::vector<Real> cx = curved ? curved_coords(s, p) : p.x;
  Fields fl;
  fl.lin = s.chance(50);
  fl.inh = s.chance(50);
  fl.pw = s.chance(40);
  fl.mom = s.chance(15) && dim > 1;
  fl.cons = fl.mom || s.chance(30);
  // on every process alone
  Env e1 = e;
  e1.comm = e.lib->self();
  e1.rank = 0;
  e1.np = 1;
  Mesh ref = build_serial(e, p);
  if (curved) ref.set_coords(mk(cx));
  ref.set_comm(e1.comm);
  // distributed
  Mesh m(e.lib), m2(e.lib);
  if (e.np == 1 || e.rank == 0) {
    m = build_serial(e, p);
    if (curved) m.set_coords(mk(cx));
  }
  if (e.np == 1) m.set_comm(e.comm);
  else distribute(e, s, m, p);
  TransferOpts xo, xo2;
  add_fields(ref, fl, xo2);
  add_fields(m, fl, xo);
  s.desc(curved ? "curved" : "flat", fl.cons ? "conserve" : "");
  rearrange(e, s, m, true);
  std::set<std::string> rounded{"rho", "vel"};
  int n = s.range(1, 3), changed = 0;
  bool repeat = s.chance(40);
  if (e.np > 1 || true) {
    m2 = m;
  }
  for (int it = 0; it < n; ++it) {
    Step t;
    t.f = gen_metric(s, p);
    auto bb = coord_bounds(ref, t.f.axis);
    t.f.lo = bb.first;
    t.f.hi = bb.second;
    t.op = fl.cons ? 0 : s.weighted({5, 1, 1, 1, 1});  // integrals are set up by adapt
    auto o = gen_opts(s, ref);
    o.xfer_opts = xo;
    if (it && s.chance(50)) rearrange(e, s, m, true);
    bool back = t.op != 0;
    if (back && m.parting() != OMEGA_H_ELEM_BASED) m.set_parting(OMEGA_H_ELEM_BASED);
    if (repeat) m2 = m;
    bool did = apply(m, t, o);
    if (repeat) {
      bool did2;
      {
        Dirty fill(it % 2 ? 1 : 0);
        did2 = apply(m2, t, o);
      }
      if (did != did2) PFAIL("repeated on the same mesh, it reports something else");
      if (m.parting() != m2.parting()) PFAIL("repeated on the same mesh, it leaves another parting");
      if (local_of(m).v != local_of(m2).v) PFAIL("repeated on the same mesh, the outcome differs in some bit");
      s.label("repeated");
    }
    bool want;
    {
      Dirty fill(it % 2 ? 0x7f : 1);
      want = apply(ref, t, o);
    }
    if (did != want) PFAIL("reports " << did << ", on one process " << want);
    changed += did;
    auto g = gather_checked(e, m);
    auto g1 = gather_checked(e1, ref);
    s.desc("op", t.op, "->", g1.ents[dim].size());
    compare(g1, g, "compared with one process holding the mesh in its original order", rounded);
    // conserved fields differ in the last bits, which must not be fed on
    if (fl.cons && it + 1 < n) {
      add_fields(ref, fl, xo2);
      add_fields(m, fl, xo);
    }
  }
  if (curved) s.label("curved");
  if (fl.cons) s.label("conserve");
  s.nontrivial(changed > 0);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"indep", run_indep, 250, 8000, {1}, true, "at least one operation modified the mesh"});
  t.push_back({"indep_parallel", run_indep, 150, 7000, {2, 3, 4}, true, "at least one operation modified the mesh"});
  return run(argc, argv, t);
}
