// C17: integrals of conserved fields survive adaptation
#include "adapt.hpp"
using namespace pbt;
namespace {
typedef long double LD;
struct Field {
  std::string name;
  int nc = 1, kind = 0;
  bool conserve = true;
  u64 salt = 0;
};
// value at an element from its centroid and region
Real field_at(Field const& f, Real const* c, int dim, Real unit, int region, int comp) {
  Real t = 0;
  for (int a = 0; a < dim; ++a) t += (a + 1 + comp) * c[a] / unit;
  switch (f.kind) {
    case 0: return 1.5 + comp;
    case 1: return 2 + std::sin(t);
    case 2: return region % 2 ? 0.25 : 7.0 + comp;
    case 3: {
      u64 h = f.salt + u64(comp);
      for (int a = 0; a < dim; ++a) h = mix64(h * 31 + u64(std::llround(c[a] / unit * 4096)));
      return 0.05 + double(h >> 11) / 9007199254740992.0 * 3;
    }
    case 4: {  // both signs
      u64 h = f.salt + u64(comp);
      for (int a = 0; a < dim; ++a) h = mix64(h * 37 + u64(std::llround(c[a] / unit * 4096)));
      return double(h >> 11) / 9007199254740992.0 * 2 - 1;
    }
    default: {  // mostly nothing
      u64 h = f.salt;
      for (int a = 0; a < dim; ++a) h = mix64(h * 41 + u64(std::llround(c[a] / unit * 4096)));
      return h % 4 ? 0 : 10;
    }
  }
}
void add_field(Mesh& m, Field const& f, Real unit) {
  int dim = m.dim();
  auto x = hv(m.coords());
  auto v = hv(m.ask_elem_verts());
  auto r = hv(m.get_array<ClassId>(dim, "class_id"));
  std::vector<Real> o;
  for (int e = 0; e < m.nelems(); ++e) {
    Real c[3] = {0, 0, 0};
    for (int i = 0; i <= dim; ++i)
      for (int a = 0; a < dim; ++a) c[a] += x[st(v[st(e * (dim + 1) + i)] * dim + a)] / (dim + 1);
    for (int k = 0; k < f.nc; ++k) o.push_back(field_at(f, c, dim, unit, r[st(e)], k));
  }
  m.add_tag(dim, f.name, f.nc, mk(o));
}
LD size_of(GMesh const& g, GEnt const& e) {
  std::vector<std::vector<Real>> p;
  for (auto v : e.vg) p.push_back(coords_of(g, v));
  LD b[3][3];
  int dim = g.dim;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) b[i][j] = LD(p[st(i + 1)][st(j)]) - p[0][st(j)];
  if (dim == 1) return b[0][0];
  if (dim == 2) return (b[0][0] * b[1][1] - b[0][1] * b[1][0]) / 2;
  return (b[0][0] * (b[1][1] * b[2][2] - b[1][2] * b[2][1]) - b[0][1] * (b[1][0] * b[2][2] - b[1][2] * b[2][0]) + b[0][2] * (b[1][0] * b[2][1] - b[1][1] * b[2][0])) / 6;
}
struct Sums {
  // (region, comp) -> integral, integral of the magnitude, extremes
  std::map<std::pair<int, int>, LD> integ, mag;
  std::map<std::pair<int, int>, Real> lo, hi;
};
Sums sums_of(GMesh const& g, Field const& f) {
  Sums s;
  auto t = g.tag(g.dim, f.name);
  if (!t) PFAIL("the field " << f.name << " is gone");
  if (t->ncomps != f.nc || t->type != int(OMEGA_H_F64)) PFAIL("the field " << f.name << " changed its type");
  for (auto& kv : g.ents[g.dim]) {
    LD z = size_of(g, kv.second);
    int r = int(tag_int(g, g.dim, kv.second, "class_id"));
    for (int c = 0; c < f.nc; ++c) {
      Real v = real_of(kv.second.pay[st(t->offset + c)]);
      if (!std::isfinite(v)) PFAIL("the field " << f.name << " became " << v);
      std::pair<int, int> k{r, c};
      if (!s.lo.count(k)) s.lo[k] = s.hi[k] = v;
      s.lo[k] = std::min(s.lo[k], v);
      s.hi[k] = std::max(s.hi[k], v);
      s.integ[k] += z * v;
      s.mag[k] += z * std::fabs(v);
    }
  }
  return s;
}
// total momentum and the sum of magnitudes, per component
std::vector<std::pair<LD, LD>> momentum(GMesh const& g, std::string const& dn, std::string const& vn, std::vector<bool>* stuck = nullptr) {
  std::vector<std::pair<LD, LD>> p(st(g.dim), std::make_pair(LD(0), LD(0)));
  auto td = g.tag(g.dim, dn);
  auto tv = g.tag(0, vn);
  auto tf = g.tag(0, "momentum_velocity_fixed");
  PCHECK(td && tv && tv->ncomps == g.dim, "density or velocity is gone");
  if (stuck) stuck->assign(st(g.dim), false);
  for (auto& kv : g.ents[g.dim]) {
    LD m = size_of(g, kv.second) * real_of(kv.second.pay[st(td->offset)]);
    for (int c = 0; c < g.dim; ++c) {
      bool all = true;
      for (auto v : kv.second.vg) {
        auto& ve = g.ents[0].at(v);
        LD u = real_of(ve.pay[st(tv->offset + c)]);
        if (!std::isfinite(double(u))) PFAIL("a velocity became " << double(u));
        p[st(c)].first += m * u / (g.dim + 1);
        p[st(c)].second += std::fabs(m * u) / (g.dim + 1);
        all &= tf && ((ve.pay[st(tf->offset)] >> c) & 1);
      }
      if (all && stuck) (*stuck)[st(c)] = true;
    }
  }
  return p;
}
void compare(Sums const& a, Sums const& b, Field const& f, bool flat) {
  for (auto& kv : a.integ) {
    auto it = b.integ.find(kv.first);
    LD mag = std::max(a.mag.at(kv.first), it == b.integ.end() ? 0 : b.mag.at(kv.first));
    if (it == b.integ.end()) PFAIL("region " << kv.first.first << " is gone");
    if (f.conserve && std::fabs(it->second - kv.second) > 1e-10L * mag)
      PFAIL("integral of " << f.name << "[" << kv.first.second << "] over region " << kv.first.first << " went from " << double(kv.second) << " to " << double(it->second) << " (relative "
                           << double((it->second - kv.second) / mag) << ")");
    if (flat || !f.conserve) {
      Real w = 1e-8 * std::max(std::fabs(a.lo.at(kv.first)), std::fabs(a.hi.at(kv.first)));
      if (b.lo.at(kv.first) < a.lo.at(kv.first) - w || b.hi.at(kv.first) > a.hi.at(kv.first) + w)
        PFAIL(f.name << "[" << kv.first.second << "] in region " << kv.first.first << " had values in [" << a.lo.at(kv.first) << "," << a.hi.at(kv.first) << "], now [" << b.lo.at(kv.first) << ","
                     << b.hi.at(kv.first) << "]");
    }
  }
}
void run_conserve(Src& s, Env& e) {
  int dim = s.pick({2, 3, 1, 2, 3});
  ProbOpt po;
  po.small = e.np > 1;
  auto p = gen_problem(s, dim, po);
  bool curved = dim > 1 && s.chance(55);
  Mesh m(e.lib);
  // errors are spread until they are small compared with the integrals, which only ends if they are on average
  bool diffuse = s.chance(40);
  std::vector<Real> cx = curved ? curved_coords(s, p, false, diffuse) : p.x;
  if (e.np == 1 || e.rank == 0) {
    m = build_serial(e, p);
    if (curved) m.set_coords(mk(cx));
  }
  distribute(e, s, m, p);
  std::vector<Field> fs;
  int nf = s.range(1, 3);
  bool has_rho = s.chance(60) && dim > 1;
  for (int i = 0; i < nf; ++i) {
    Field f;
    f.name = std::string("rho") + char('0' + i);
    f.conserve = i == 0 || s.chance(60);
    f.nc = (has_rho && i == 0) ? 1 : s.pick({1, 1, 2, 3, 6});
    f.kind = (has_rho && i == 0) ? s.range(0, 3) : s.range(0, 5);
    f.salt = s.below(1000);
    add_field(m, f, p.unit);
    fs.push_back(f);
  }
  TransferOpts xo;
  for (auto& f : fs) {
    xo.type_map[f.name] = f.conserve ? OMEGA_H_CONSERVE : OMEGA_H_DENSITY;
    if (f.conserve) xo.integral_map[f.name] = "int_" + f.name;
    VarCompareOpts vo{VarCompareOpts::NONE, 0, 0};
    if (f.kind <= 3 && diffuse) vo = VarCompareOpts{VarCompareOpts::RELATIVE, s.pick({0.5, 0.4}), 0.0};
    if (f.conserve) xo.integral_diffuse_map["int_" + f.name] = vo;
  }
  Real u0[3] = {0, 0, 0};
  int fixed_comp = -1, fixed_side = -1;
  bool const_u = false;
  if (has_rho) {
    const_u = s.chance(25);
    for (int c = 0; c < dim; ++c) u0[c] = s.pick({3., -2.5, 10.});
    auto x = hv(m.coords());
    std::vector<Real> v;
    for (int i = 0; i < m.nverts(); ++i)
      for (int c = 0; c < dim; ++c) {
        Real t = 0;
        for (int a = 0; a < dim; ++a) t += (a + 1.3 * c + 1) * x[st(i * dim + a)] / p.unit;
        v.push_back(u0[c] + (const_u ? 0 : std::sin(t)));
      }
    if (s.chance(50)) {
      fixed_comp = s.range(0, dim - 1);
      auto r = hv(m.get_array<ClassId>(dim - 1, "class_id"));
      auto d = hv(m.get_array<I8>(dim - 1, "class_dim"));
      I32 best = -1;
      int skip = s.range(0, 3);
      std::set<int> ids;
      for (st i = 0; i < r.size(); ++i)
        if (d[i] == dim - 1) ids.insert(r[i]);
      (void)best;
      std::vector<I64> mine(ids.begin(), ids.end());
      std::vector<int> cnt;
      auto all = allgather(e, mine, &cnt);
      std::set<I64> every(all.begin(), all.end());
      auto it = every.begin();
      for (int k = 0; k < skip && std::next(it) != every.end(); ++k) ++it;
      fixed_side = int(*it);
      // the fixed component is zero there
      fix_momentum_velocity_verts(&m, {{I8(dim - 1), fixed_side}}, fixed_comp);
      auto fl = hv(m.get_array<I8>(VERT, "momentum_velocity_fixed"));
      for (int i = 0; i < m.nverts(); ++i)
        if ((fl[st(i)] >> fixed_comp) & 1) v[st(i * dim + fixed_comp)] = 0.5;
      s.desc("fixed side ", fixed_side, " comp ", fixed_comp);
    }
    m.add_tag(VERT, "vel", dim, mk(v));
    xo.type_map["vel"] = OMEGA_H_MOMENTUM_VELOCITY;
    xo.velocity_density_map["vel"] = fs[0].name;
    xo.velocity_momentum_map["vel"] = "mom";
    VarCompareOpts vo{VarCompareOpts::NONE, 0, 0};
    if (diffuse && !curved) vo = VarCompareOpts{VarCompareOpts::RELATIVE, fixed_comp < 0 ? s.pick({0.8, 1.}) : 5., 0.01 * p.volume / p.ne()};
    xo.integral_diffuse_map["mom"] = vo;
  }
  s.desc(curved ? "curved" : "flat", " fields", nf, has_rho ? " momentum" : "");
  auto g0 = gather_checked(e, m);
  std::vector<Sums> S;
  for (auto& f : fs) S.push_back(sums_of(g0, f));
  std::vector<std::pair<LD, LD>> P;
  if (has_rho) P = momentum(g0, fs[0].name, "vel");
  int n = s.range(1, s.thorough ? 4 : 3), changed = 0;
  std::vector<bool> lost(3, false);
  for (int it = 0; it < n; ++it) {
    auto f = gen_metric(s, p);
    auto bb = coord_bounds(m, f.axis);
    f.lo = bb.first;
    f.hi = bb.second;
    set_metric(m, f);
    auto o = gen_opts(s, m);
    o.xfer_opts = xo;
    bool did = adapt(&m, o);
    changed += did;
    auto g = gather_checked(e, m);
    s.desc(did ? "-> " : "= ", g.ents[dim].size());
    for (st i = 0; i < fs.size(); ++i) {
      auto b = sums_of(g, fs[i]);
      compare(S[i], b, fs[i], !curved);
      if (fs[i].kind == 0 && (!curved || !fs[i].conserve))
        for (auto& kv : b.lo)
          if (std::fabs(kv.second - (1.5 + kv.first.second)) > 1e-9) PFAIL("a constant field became " << kv.second);
    }
    for (auto& t : g.tags[dim])
      if (t.name.find("_error") != std::string::npos || t.name.find("old_") == 0) PFAIL("the tag " << t.name << " was left behind");
    if (!has_rho) continue;
    std::vector<bool> stuck;
    auto q = momentum(g, fs[0].name, "vel", &stuck);
    for (int c = 0; c < dim; ++c) {
      if (stuck[st(c)]) lost[st(c)] = true;  // nothing may move to take up the difference
      if (lost[st(c)]) continue;
      LD mag = std::max(P[st(c)].second, q[st(c)].second);
      if (std::fabs(q[st(c)].first - P[st(c)].first) > 1e-10L * mag)
        PFAIL("total momentum[" << c << "] went from " << double(P[st(c)].first) << " to " << double(q[st(c)].first) << " (relative " << double((q[st(c)].first - P[st(c)].first) / mag) << ")");
    }
    auto tv = g.tag(0, "vel");
    for (auto& kv : g.ents[0]) {
      if (fixed_comp >= 0 && tag_int(g, 0, kv.second, "class_dim") == dim - 1 && tag_int(g, 0, kv.second, "class_id") == fixed_side) {
        Real v = real_of(kv.second.pay[st(tv->offset + fixed_comp)]);
        if (std::fabs(v - 0.5) > 1e-12) PFAIL("the velocity of a vertex where it is fixed at 0.5 became " << v);
      }
      if (const_u && fixed_comp < 0 && !curved && fs[0].kind == 0)
        for (int c = 0; c < dim; ++c) {
          Real v = real_of(kv.second.pay[st(tv->offset + c)]);
          if (std::fabs(v - u0[c]) > 1e-8 * std::fabs(u0[c])) PFAIL("a constant velocity of " << u0[c] << " became " << v);
        }
    }
  }
  s.label(curved ? "curved" : "flat");
  if (has_rho) s.label("momentum");
  s.nontrivial(changed > 0);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"conserve", run_conserve, 1800, 60000, {1}, true, "at least one adaptation modified the mesh"});
  t.push_back({"conserve_parallel", run_conserve, 250, 6000, {2, 4}, true, "at least one adaptation modified the mesh"});
  return run(argc, argv, t);
}
