// C18: what each transfer rule promises, through single modifications and whole adaptations
#include <Omega_h_coarsen.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_swap.hpp>
#include "adapt.hpp"
using namespace pbt;
namespace {
typedef std::vector<Real> Pt;
typedef std::vector<Pt> Key;  // sorted positions of an entity's vertices: its identity
struct Inh {
  std::string name;
  int type = 0, nc = 1;
  bool by_class = false;
  u64 salt = 0;
};
I64 class_value(Inh const& f, int cd, int ci, int c) {
  u64 h = mix64(f.salt * 977 + u64(cd) * 131 + u64(ci) * 7 + u64(c));
  switch (f.type) {
    case 0: return I64(I8(h));
    case 1: return I64(I32(h));
    case 2: return I64(h);
    default: return bits_of(double(h >> 11) / 1e10 - 4e5);
  }
}
template <class T>
void put_inh(Mesh& m, Inh const& f) {
  for (int d = 0; d <= m.dim(); ++d) {
    if (!f.by_class) {
      add_hash_tag<T>(m, d, f.name, f.nc, f.salt * 5 + u64(d));
      continue;
    }
    auto cd = hv(m.get_array<I8>(d, "class_dim"));
    auto ci = hv(m.get_array<ClassId>(d, "class_id"));
    std::vector<T> v;
    for (st i = 0; i < cd.size(); ++i)
      for (int c = 0; c < f.nc; ++c) {
        I64 b = class_value(f, cd[i], ci[i], c);
        if (std::is_floating_point<T>::value) v.push_back(T(real_of(b)));
        else v.push_back(T(b));
      }
    m.add_tag<T>(d, f.name, f.nc, mk(v));
  }
}
void put_inh(Mesh& m, Inh const& f) {
  switch (f.type) {
    case 0: put_inh<I8>(m, f); break;
    case 1: put_inh<I32>(m, f); break;
    case 2: put_inh<I64>(m, f); break;
    default: put_inh<Real>(m, f); break;
  }
}
struct State {
  GMesh g;
  std::map<GO, Pt> x;
  std::map<Key, GEnt const*> at[4];
  std::map<Pt, GEnt const*> vert;
};
Key key_of(State const& s, GEnt const& e) {
  Key k;
  for (auto v : e.vg) k.push_back(s.x.at(v));
  std::sort(k.begin(), k.end());
  return k;
}
void snapshot(Env& e, Mesh& m, State& s) {
  s.g = gather_checked(e, m);
  for (auto& kv : s.g.ents[0]) {
    s.x[kv.first] = coords_of(s.g, kv.first);
    if (!s.vert.emplace(s.x[kv.first], &kv.second).second) PFAIL("two vertices at one position");
  }
  for (int d = 0; d <= s.g.dim; ++d)
    for (auto& kv : s.g.ents[d]) s.at[d][key_of(s, kv.second)] = &kv.second;
}
std::vector<I64> val(State const& s, int d, GEnt const& e, std::string const& n) {
  auto t = s.g.tag(d, n);
  if (!t) PFAIL("the tag " << n << " on dimension " << d << " is gone");
  return std::vector<I64>(e.pay.begin() + t->offset, e.pay.begin() + t->offset + t->ncomps);
}
std::vector<Real> rval(State const& s, int d, GEnt const& e, std::string const& n) {
  std::vector<Real> r;
  for (auto b : val(s, d, e, n)) r.push_back(real_of(b));
  return r;
}
void same_type(State const& a, State const& b, int d, std::string const& n) {
  auto s = a.g.tag(d, n);
  auto t = b.g.tag(d, n);
  if (!t) PFAIL("the tag " << n << " on dimension " << d << " is gone");
  if (s->type != t->type || s->ncomps != t->ncomps) PFAIL("the tag " << n << " on dimension " << d << " changed its type or width");
}
// mean of two metrics in log space, by Jacobi rotations
void jacobi(int n, Real A[3][3], Real V[3][3]) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) V[i][j] = i == j;
  for (int sweep = 0; sweep < 60; ++sweep)
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        if (A[p][q] == 0) continue;
        Real th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
        Real t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
        Real c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; ++k) {
          Real x = A[k][p], y = A[k][q];
          A[k][p] = c * x - s * y;
          A[k][q] = s * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          Real x = A[p][k], y = A[q][k];
          A[p][k] = c * x - s * y;
          A[q][k] = s * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          Real x = V[k][p], y = V[k][q];
          V[k][p] = c * x - s * y;
          V[k][q] = s * x + c * y;
        }
      }
}
void unpack(int n, std::vector<Real> const& v, Real A[3][3]) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) A[i][j] = 0;
  for (int i = 0; i < n; ++i) A[i][i] = v[st(i)];
  if (n == 2) A[0][1] = A[1][0] = v[2];
  if (n == 3) {
    A[0][1] = A[1][0] = v[3];
    A[1][2] = A[2][1] = v[4];
    A[0][2] = A[2][0] = v[5];
  }
}
std::vector<Real> pack(int n, Real A[3][3]) {
  if (n == 1) return {A[0][0]};
  if (n == 2) return {A[0][0], A[1][1], A[0][1]};
  return {A[0][0], A[1][1], A[2][2], A[0][1], A[1][2], A[0][2]};
}
void fun(int n, Real A[3][3], Real (*f)(Real), Real out[3][3]) {
  Real B[3][3], V[3][3];
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) B[i][j] = A[i][j];
  jacobi(n, B, V);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      out[i][j] = 0;
      for (int k = 0; k < n; ++k) out[i][j] += V[i][k] * f(B[k][k]) * V[j][k];
    }
}
std::vector<Real> metric_mean(int dim, std::vector<Real> const& a, std::vector<Real> const& b) {
  int n = a.size() == 1 ? 1 : dim;
  Real A[3][3], B[3][3], L[3][3], M[3][3];
  unpack(n, a, A);
  unpack(n, b, B);
  fun(n, A, [](Real x) { return std::log(x); }, L);
  fun(n, B, [](Real x) { return std::log(x); }, M);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) L[i][j] = (L[i][j] + M[i][j]) / 2;
  fun(n, L, [](Real x) { return std::exp(x); }, A);
  return pack(n, A);
}
Real norm(std::vector<Real> const& v) {
  Real m = 0;
  for (auto x : v) m = std::max(m, std::fabs(x));
  return m;
}
// smallest barycentric coordinate of p in the simplex k
Real inside(int dim, Key const& k, Pt const& p) {
  Real m[3][3], d;
  auto fill = [&](int skip) {
    for (int i = 0; i < dim; ++i) {
      for (int j = 0; j < dim; ++j) m[i][j] = (i + 1 == skip ? p : k[st(i + 1)])[st(j)] - (skip == 0 ? p : k[0])[st(j)];
    }
    return det_of(dim, m);
  };
  d = fill(-1);
  Real best = 1;
  for (int i = 0; i <= dim; ++i) best = std::min(best, fill(i) / d);
  return best;
}
struct Affine {
  std::string name;
  int nc = 1;
  Real a[4][4];
  Real at(Real const* x, int dim, int c) const {
    Real r = a[c][3];
    for (int i = 0; i < dim; ++i) r += a[c][i] * x[i];
    return r;
  }
};
// checks the maps handed to the user's own transfer and carries a field through them
struct MyXfer : UserTransfer {
  int calls = 0;
  std::string err;
  void bad(std::string const& s) {
    if (err.empty()) err = s;
  }
  static Pt at(std::vector<Real> const& x, int dim, LO v) { return Pt(x.begin() + v * dim, x.begin() + (v + 1) * dim); }
  static Key ent(Mesh& m, std::vector<Real> const& x, int d, LO i) {
    Key k;
    if (d == 0) return {at(x, m.dim(), i)};
    auto v = m.ask_verts_of(d);
    for (int j = 0; j <= d; ++j) k.push_back(at(x, m.dim(), v[i * (d + 1) + j]));
    std::sort(k.begin(), k.end());
    return k;
  }
  void maps(Mesh& a, Mesh& b, Int d, LOs prods, LOs s2o, LOs s2n, char const* what) {
    ++calls;
    auto xa = hv(a.coords()), xb = hv(b.coords());
    std::ostringstream o;
    o << what << " dimension " << d << ": ";
    if (s2o.size() != s2n.size()) {
      bad(o.str() + "same-entity maps differ in size");
      return;
    }
    std::vector<int> n(st(b.nents(d)), 0);
    for (LO i = 0; i < s2o.size(); ++i) {
      if (ent(a, xa, d, s2o[i]) != ent(b, xb, d, s2n[i])) bad(o.str() + "a 'same' entity has other vertices");
      ++n[st(s2n[i])];
    }
    for (LO i = 0; i < prods.size(); ++i) ++n[st(prods[i])];
    for (auto c : n)
      if (c != 1) bad(o.str() + "an entity is not exactly one of 'same' and 'product'");
    if (d == 0) {
      // carry the shadow of the coordinates
      std::vector<Real> y(xb.size(), -7e77);
      auto old = hv(a.get_array<Real>(VERT, "shadow"));
      for (LO i = 0; i < s2o.size(); ++i)
        for (int c = 0; c < a.dim(); ++c) y[st(s2n[i] * a.dim() + c)] = old[st(s2o[i] * a.dim() + c)];
      shadow = y;
    }
  }
  std::vector<Real> shadow;
  void refine(Mesh& a, Mesh& b, LOs keys2edges, LOs keys2midverts, Int d, LOs keys2prods, LOs prods, LOs s2o, LOs s2n) override {
    maps(a, b, d, prods, s2o, s2n, "refine");
    auto xa = hv(a.coords()), xb = hv(b.coords());
    int dim = a.dim();
    if (keys2midverts.size() != keys2edges.size() || keys2prods.size() != keys2edges.size() + 1) bad("refine: key maps differ in size");
    if (keys2prods.last() != prods.size()) bad("refine: products differ in number");
    auto ev = hv(a.ask_verts_of(EDGE));
    for (LO k = 0; k < keys2edges.size(); ++k) {
      auto p = at(xa, dim, ev[st(2 * keys2edges[k])]), q = at(xa, dim, ev[st(2 * keys2edges[k] + 1)]), r = at(xb, dim, keys2midverts[k]);
      for (int c = 0; c < dim; ++c)
        if (std::fabs(r[st(c)] - (p[st(c)] + q[st(c)]) / 2) > 1e-12 * (std::fabs(p[st(c)]) + std::fabs(q[st(c)]))) bad("refine: keys2midverts is not the middle of keys2edges");
      for (LO i = keys2prods[k]; i < keys2prods[k + 1]; ++i) {
        auto e = ent(b, xb, d, prods[i]);
        if (!std::count(e.begin(), e.end(), r)) bad("refine: a product does not touch the middle of its edge");
      }
      if (d == 0)
        for (int c = 0; c < dim; ++c) shadow[st(keys2midverts[k] * dim + c)] = r[st(c)];
    }
    if (d == 0) b.add_tag(VERT, "shadow", dim, mk(shadow));
  }
  void coarsen(Mesh& a, Mesh& b, LOs keys2verts, Adj keys2doms, Int d, LOs prods, LOs s2o, LOs s2n) override {
    maps(a, b, d, prods, s2o, s2n, "coarsen");
    if (d == 0) {
      b.add_tag(VERT, "shadow", a.dim(), mk(shadow));
      return;
    }
    auto xa = hv(a.coords()), xb = hv(b.coords());
    if (keys2doms.a2ab.size() != keys2verts.size() + 1 || keys2doms.ab2b.size() != prods.size()) bad("coarsen: key maps differ in size");
    else
      for (LO k = 0; k < keys2verts.size(); ++k) {
        auto gone = at(xa, a.dim(), keys2verts[k]);
        for (LO i = keys2doms.a2ab[k]; i < keys2doms.a2ab[k + 1]; ++i) {
          auto o = ent(a, xa, d, keys2doms.ab2b[i]), n = ent(b, xb, d, prods[i]);
          if (!std::count(o.begin(), o.end(), gone)) bad("coarsen: a domain entity does not touch the vertex that vanishes");
          Key both;
          std::set_intersection(o.begin(), o.end(), n.begin(), n.end(), std::back_inserter(both));
          if (int(both.size()) != d || std::count(n.begin(), n.end(), gone)) bad("coarsen: a product is not its domain entity with the vertex moved");
        }
      }
  }
  void swap(Mesh& a, Mesh& b, Int d, LOs keys2edges, LOs keys2prods, LOs prods, LOs s2o, LOs s2n) override {
    maps(a, b, d, prods, s2o, s2n, "swap");
    if (keys2prods.size() != keys2edges.size() + 1 || keys2prods.last() != prods.size()) bad("swap: key maps differ in size");
    auto xa = hv(a.coords()), xb = hv(b.coords());
    std::set<Key> es;
    for (LO k = 0; k < keys2edges.size(); ++k) {
      auto o = ent(a, xa, 1, keys2edges[k]);
      for (LO i = keys2prods[k]; i < keys2prods[k + 1]; ++i) {
        auto n = ent(b, xb, d, prods[i]);
        if (std::count(n.begin(), n.end(), o[0]) && std::count(n.begin(), n.end(), o[1])) bad("swap: a product still holds the edge");
      }
    }
  }
  void swap_copy_verts(Mesh& a, Mesh& b) override {
    if (b.has_tag(VERT, "shadow")) return;
    if (a.nverts() != b.nverts()) bad("swap: number of vertices changed");
    b.add_tag(VERT, "shadow", a.dim(), a.get_array<Real>(VERT, "shadow"));
  }
};
enum { REF, COA, SWA, SLI, ALL, ADAPT_N };
void run_transfer(Src& s, Env& e) {
  int dim = s.pick({2, 3, 1, 2, 3});
  ProbOpt po;
  po.small = e.np > 1;
  auto p = gen_problem(s, dim, po);
  bool curved = dim > 1 && s.chance(45);
  std::vector<Real> cx = curved ? curved_coords(s, p) : p.x;
  Mesh m(e.lib);
  if (e.np == 1 || e.rank == 0) {
    m = build_serial(e, p);
    if (curved) m.set_coords(mk(cx));
  }
  distribute(e, s, m, p);
  TransferOpts xo;
  // interpolated fields
  std::vector<Affine> af;
  int na = s.range(1, 2);
  auto x = hv(m.coords());
  for (int i = 0; i < na; ++i) {
    Affine f;
    f.name = i == 0 && s.chance(20) ? "warp" : "lin" + std::to_string(i);
    f.nc = f.name == "warp" ? dim : s.range(1, 4);
    for (int c = 0; c < 4; ++c)
      for (int a = 0; a < 4; ++a) f.a[c][a] = double(s.range(-8, 8)) / (a < 3 ? p.unit : 1.);
    if (s.chance(20))
      for (int c = 0; c < 4; ++c)
        for (int a = 0; a < 3; ++a) f.a[c][a] = 0;  // constant
    std::vector<Real> v;
    for (int k = 0; k < m.nverts(); ++k)
      for (int c = 0; c < f.nc; ++c) v.push_back(f.at(&x[st(k * dim)], dim, c));
    m.add_tag(VERT, f.name, f.nc, mk(v));
    if (f.name != "warp") xo.type_map[f.name] = OMEGA_H_LINEAR_INTERP;
    af.push_back(f);
  }
  int rndc = s.range(1, 3);
  add_hash_tag<Real>(m, VERT, "rnd", rndc, s.below(1000));
  xo.type_map["rnd"] = OMEGA_H_LINEAR_INTERP;
  // inherited
  std::vector<Inh> inh;
  int ni = s.range(1, 3);
  for (int i = 0; i < ni; ++i) {
    Inh f;
    f.name = "inh" + std::to_string(i);
    f.type = s.range(0, 3);
    f.nc = s.range(1, 3);
    f.by_class = s.chance(40);
    f.salt = s.below(1000);
    put_inh(m, f);
    f.type = f.type == 0 ? int(OMEGA_H_I8) : f.type == 1 ? int(OMEGA_H_I32) : f.type == 2 ? int(OMEGA_H_I64) : int(OMEGA_H_F64);
    xo.type_map[f.name] = OMEGA_H_INHERIT;
    inh.push_back(f);
  }
  // pointwise
  bool pw = s.chance(70);
  int pwc = s.range(1, 3);
  if (pw) {
    add_hash_tag<Real>(m, dim, "pw", pwc, s.below(1000));
    xo.type_map["pw"] = OMEGA_H_POINTWISE;
  }
  // metrics
  bool tm = s.chance(40);
  // not to be carried along
  std::vector<std::pair<int, std::string>> drop;
  auto dropped = [&](int d, std::string const& n) { drop.push_back({d, n}); };
  if (s.chance(60)) {
    int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
      int d = s.range(0, dim);
      std::string nm = s.pick<std::string>({"plain", "a b", "velocity", "dens", "temperature"}) + std::to_string(i);
      switch (s.range(0, 2)) {
        case 0: add_hash_tag<I8>(m, d, nm, 1, s.below(1000)); break;
        case 1: add_hash_tag<I64>(m, d, nm, 2, s.below(1000)); break;
        default: add_hash_tag<Real>(m, d, nm, 3, s.below(1000)); break;
      }
      dropped(d, nm);
    }
  }
  if (s.chance(30)) {  // registered, but for something the rule does not apply to
    switch (s.range(0, 3)) {
      case 0:
        add_hash_tag<I32>(m, VERT, "intlin", 1, 3);
        xo.type_map["intlin"] = OMEGA_H_LINEAR_INTERP;
        dropped(VERT, "intlin");
        break;
      case 1:
        add_hash_tag<Real>(m, dim, "elin", 1, 3);
        xo.type_map["elin"] = OMEGA_H_LINEAR_INTERP;
        dropped(dim, "elin");
        break;
      case 2: {
        int only = s.range(0, dim);
        add_hash_tag<I32>(m, only, "someinh", 1, 3);
        xo.type_map["someinh"] = OMEGA_H_INHERIT;
        dropped(only, "someinh");
        break;
      }
      default:
        for (int d = 0; d <= dim; ++d) {
          if (d == 1) add_hash_tag<I64>(m, d, "mixinh", 1, 3);
          else add_hash_tag<I32>(m, d, "mixinh", 1, 3);
          dropped(d, "mixinh");
        }
        xo.type_map["mixinh"] = OMEGA_H_INHERIT;
        break;
    }
  }
  bool size = s.chance(50);
  if (size) m.ask_sizes();
  std::shared_ptr<MyXfer> mine;
  if (s.chance(60)) {
    mine = std::make_shared<MyXfer>();
    m.add_tag(VERT, "shadow", dim, m.coords());
    xo.user_xfer = mine;
  }
  s.desc(curved ? "curved" : "flat");
  std::unique_ptr<State> a(new State);
  int n = s.range(1, s.thorough ? 5 : 3), changed = 0;
  bool fresh = true;
  State first;
  MetricFn f;
  Real xmag = 0;
  for (auto v : x) xmag = std::max(xmag, std::fabs(v));
  xmag = e.comm->allreduce(xmag, OMEGA_H_MAX);
  for (int it = 0; it < n; ++it) {
    f = gen_metric(s, p);
    auto bb = coord_bounds(m, f.axis);
    f.lo = bb.first;
    f.hi = bb.second;
    set_metric(m, f);
    if (tm) {
      auto f2 = gen_metric(s, p);
      bb = coord_bounds(m, f2.axis);
      f2.lo = bb.first;
      f2.hi = bb.second;
      for (auto nm : {"target_metric", "mymet"}) {
        if (m.has_tag(VERT, nm)) m.remove_tag(VERT, nm);
        m.add_tag(VERT, nm, f2.ncomps(), eval_metric(m, f2));
      }
      xo.type_map["mymet"] = OMEGA_H_METRIC;
    }
    auto o = gen_opts(s, m);
    for (auto& d : drop) {
      bool any = false;
      for (int k = 0; k <= dim; ++k) any |= m.has_tag(k, d.second);
      if (!any) xo.type_map.erase(d.second);
    }
    o.xfer_opts = xo;
    int op = s.weighted({4, 4, dim > 1 ? 4 : 0, dim > 1 ? 2 : 0, 3});
    m.ask_lengths();
    m.ask_qualities();
    a.reset(new State);
    snapshot(e, m, *a);
    auto& A = *a;
    int calls = mine ? mine->calls : 0;
    bool did = false;
    switch (op) {
      case REF: did = refine_by_size(&m, o); break;
      case COA: did = coarsen_by_size(&m, o); break;
      case SWA: did = min_fixable_quality(&m, o) < o.min_quality_desired && swap_edges(&m, o); break;
      case SLI: did = min_fixable_quality(&m, o) < o.min_quality_desired && coarsen_slivers(&m, o); break;
      default: did = adapt(&m, o); break;
    }
    changed += did;
    State B;
    snapshot(e, m, B);
    s.desc("op ", op, did ? " -> " : " = ", B.g.ents[dim].size());
    static char const* opn[] = {"refine", "coarsen", "swap", "coarsen slivers", "adapt"};
    // whether adapt found anything to modify
    bool unknown = false;
    if (op == ALL && did) {
      bool eq = A.at[dim].size() == B.at[dim].size();
      if (eq)
        for (auto& kv : A.at[dim]) eq &= B.at[dim].count(kv.first) > 0;
      unknown = eq;
    }
    std::string W = opn[op];
    W += ": ";
    if (mine) {
      if (mine->err.size()) PFAIL(W << mine->err);
      if (did && !unknown && mine->calls == calls) PFAIL(W << "the user's transfer was not called");
      for (auto& kv : B.g.ents[0]) {
        auto v = rval(B, 0, kv.second, "shadow");
        for (int c = 0; c < dim; ++c)
          if (std::fabs(v[st(c)] - B.x[kv.first][st(c)]) > 1e-13 * xmag) PFAIL(W << "a field carried by the user's transfer is at the wrong vertex");
      }
    }
    // what is not to be carried
    for (auto& d : drop) {
      if (unknown) continue;
      bool had = A.g.tag(d.first, d.second), has = B.g.tag(d.first, d.second);
      if (did && had && has) PFAIL(W << "the tag " << d.second << " on dimension " << d.first << " has no rule but survived a modification");
      if (!did && had && !has) PFAIL(W << "the tag " << d.second << " vanished though nothing was modified");
    }
    // nothing else appears or disappears
    for (int d = 0; d <= dim; ++d) {
      for (auto& t : B.g.tags[d])
        if (!A.g.tag(d, t.name)) PFAIL(W << "a tag " << t.name << " appeared on dimension " << d);
      for (auto& t : A.g.tags[d]) {
        bool listed = false;
        for (auto& q : drop) listed |= q.first == d && q.second == t.name;
        if (!listed && !B.g.tag(d, t.name)) PFAIL(W << "the tag " << t.name << " on dimension " << d << " was lost");
        if (!listed) same_type(A, B, d, t.name);
      }
    }
    // everything on entities that were not modified
    st kept = 0;
    if (op != ALL || !did)
      for (int d = 0; d <= dim; ++d)
        for (auto& kv : B.at[d]) {
          auto it2 = A.at[d].find(kv.first);
          if (it2 == A.at[d].end()) continue;
          ++kept;
          for (auto& t : B.g.tags[d]) {
            if (did && (t.name == "quality" || t.name == "length" || t.name == "size")) continue;
            if (val(A, d, *it2->second, t.name) != val(B, d, *kv.second, t.name))
              PFAIL(W << "an entity of dimension " << d << " was not modified, but its " << t.name << " changed from " << show(rval(A, d, *it2->second, t.name)) << " to " << show(rval(B, d, *kv.second, t.name)));
          }
        }
    // affine fields
    for (auto& q : af)
      for (auto& kv : B.g.ents[0]) {
        auto v = rval(B, 0, kv.second, q.name);
        auto& y = B.x[kv.first];
        for (int c = 0; c < q.nc; ++c) {
          Real mag = std::fabs(q.a[c][3]);
          for (int i = 0; i < dim; ++i) mag += std::fabs(q.a[c][i]) * xmag;
          if (!(std::fabs(v[st(c)] - q.at(&y[0], dim, c)) <= 1e-11 * mag)) PFAIL(W << "the affine field " << q.name << " is " << v[st(c)] << " at " << show(y) << ", expected " << q.at(&y[0], dim, c));
        }
      }
    // any interpolated field stays in its range
    for (int c = 0; c < rndc; ++c) {
      Real lo = 1e300, hi = -1e300;
      for (auto& kv : A.g.ents[0]) {
        Real v = rval(A, 0, kv.second, "rnd")[st(c)];
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      }
      for (auto& kv : B.g.ents[0]) {
        Real v = rval(B, 0, kv.second, "rnd")[st(c)];
        if (!(v >= lo && v <= hi)) PFAIL(W << "an interpolated field in [" << lo << "," << hi << "] became " << v);
      }
    }
    std::vector<std::string> mets{"metric"};
    if (tm) mets = {"metric", "target_metric", "mymet"};
    // support[d] of each new entity after refinement
    if (op == REF && did) {
      std::map<Pt, GEnt const*> mid;
      for (auto& kv : A.g.ents[1]) {
        auto& u = A.x.at(kv.second.vg[0]);
        auto& w = A.x.at(kv.second.vg[1]);
        Pt c;
        for (int i = 0; i < dim; ++i) c.push_back((u[st(i)] + w[st(i)]) / 2);
        mid[c] = &kv.second;
      }
      std::map<GO, std::vector<GO>> sup;  // of new vertices: old vertices
      for (auto& kv : B.g.ents[0]) {
        auto& y = B.x.at(kv.first);
        auto it2 = A.vert.find(y);
        if (it2 != A.vert.end()) {
          sup[kv.first] = {it2->second->g};
          continue;
        }
        auto it3 = mid.find(y);
        if (it3 == mid.end())
          for (it3 = mid.begin(); it3 != mid.end(); ++it3) {
            bool ok = true;
            for (int i = 0; i < dim; ++i) ok &= std::fabs(it3->first[st(i)] - y[st(i)]) < 1e-13 * xmag;
            if (ok) break;
          }
        if (it3 == mid.end()) PFAIL(W << "a new vertex at " << show(y) << " is not in the middle of an edge");
        sup[kv.first] = it3->second->vg;
        auto& u = A.g.ents[0].at(it3->second->vg[0]);
        auto& w = A.g.ents[0].at(it3->second->vg[1]);
        auto ru = rval(A, 0, u, "rnd"), rw = rval(A, 0, w, "rnd"), r = rval(B, 0, kv.second, "rnd");
        for (int c = 0; c < rndc; ++c)
          if (std::fabs(r[st(c)] - (ru[st(c)] + rw[st(c)]) / 2) > 1e-13 * (std::fabs(ru[st(c)]) + std::fabs(rw[st(c)])))
            PFAIL(W << "interpolated " << ru[st(c)] << " and " << rw[st(c)] << " to " << r[st(c)]);
        for (auto& nm : mets) {
          auto want = metric_mean(dim, rval(A, 0, u, nm), rval(A, 0, w, nm)), got = rval(B, 0, kv.second, nm);
          // eigenvalues within 0.7% (2D) of the largest count as one, here those of the logarithm
          Real lg = 1 + std::fabs(std::log(norm(want)));
          Real tol = want.size() == 1 ? 1e-9 : 0.004 * lg;
          for (st i = 0; i < want.size(); ++i)
            if (!(std::fabs(want[i] - got[i]) <= tol * norm(want))) PFAIL(W << nm << " in the middle is " << show(got) << ", expected " << show(want));
        }
      }
      // the old entity each new one lies in
      std::map<std::vector<GO>, std::pair<int, GEnt const*>> byv;
      for (int d = 0; d <= dim; ++d)
        for (auto& kv : A.g.ents[d]) byv[sorted(kv.second.vg)] = {d, &kv.second};
      for (int d = 0; d <= dim; ++d)
        for (auto& kv : B.g.ents[d]) {
          std::set<GO> u;
          for (auto v : kv.second.vg) u.insert(sup[v].begin(), sup[v].end());
          auto it2 = byv.find(std::vector<GO>(u.begin(), u.end()));
          if (it2 == byv.end()) PFAIL(W << "an entity of dimension " << d << " lies in no old entity");
          auto par = it2->second;
          std::vector<std::string> names;
          for (auto& q : inh) names.push_back(q.name);
          if (pw && d == dim) names.push_back("pw");
          for (auto& nm : names)
            if (val(B, d, kv.second, nm) != val(A, par.first, *par.second, nm))
              PFAIL(W << nm << " of an entity of dimension " << d << " is " << show(val(B, d, kv.second, nm)) << ", that of the old entity of dimension " << par.first << " it lies in is "
                      << show(val(A, par.first, *par.second, nm)));
        }
    }
    if ((op == COA || op == SLI) && did) {
      std::vector<Pt> gone;
      for (auto& kv : A.vert)
        if (!B.vert.count(kv.first)) gone.push_back(kv.first);
      std::map<Pt, std::set<Pt>> nb;
      for (auto& kv : A.g.ents[1]) {
        auto &u = A.x.at(kv.second.vg[0]), &w = A.x.at(kv.second.vg[1]);
        nb[u].insert(w);
        nb[w].insert(u);
      }
      for (int d = 1; d <= dim; ++d)
        for (auto& kv : B.at[d]) {
          if (A.at[d].count(kv.first)) continue;
          // with one vertex moved back to where a vertex vanished
          bool any = false;
          std::set<std::string> ok;
          for (st i = 0; i < kv.first.size(); ++i)
            for (auto& v : nb[kv.first[i]]) {
              if (B.vert.count(v)) continue;
              Key k = kv.first;
              k[i] = v;
              std::sort(k.begin(), k.end());
              auto it2 = A.at[d].find(k);
              if (it2 == A.at[d].end()) continue;
              any = true;
              for (auto& q : inh)
                if (val(A, d, *it2->second, q.name) == val(B, d, *kv.second, q.name)) ok.insert(q.name);
            }
          if (!any) PFAIL(W << "an entity of dimension " << d << " is not an old one with a vertex moved");
          for (auto& q : inh)
            if (!ok.count(q.name)) PFAIL(W << q.name << " of an entity of dimension " << d << " is " << show(val(B, d, *kv.second, q.name)) << ", not that of an old entity with one vertex moved");
        }
    }
    // inherited values exist in the old mesh on the same model entity
    for (auto& q : inh) {
      std::set<std::vector<I64>> have;
      auto cls = [&](State const& S, int d, GEnt const& x2) {
        auto v = val(S, d, x2, q.name);
        v.push_back(val(S, d, x2, "class_dim")[0]);
        v.push_back(val(S, d, x2, "class_id")[0]);
        return v;
      };
      for (int d = 0; d <= dim; ++d)
        for (auto& kv : A.g.ents[d]) have.insert(cls(A, d, kv.second));
      for (int d = 0; d <= dim; ++d)
        for (auto& kv : B.g.ents[d]) {
          auto v = cls(B, d, kv.second);
          if (!have.count(v)) PFAIL(W << q.name << " of an entity of dimension " << d << ": value and model entity " << show(v) << " do not exist in the old mesh");
          if (q.by_class)
            for (int c = 0; c < q.nc; ++c) {
              Inh q2 = q;
              q2.type = q.type == int(OMEGA_H_I8) ? 0 : q.type == int(OMEGA_H_I32) ? 1 : q.type == int(OMEGA_H_I64) ? 2 : 3;
              if (v[st(c)] != class_value(q2, int(v[v.size() - 2]), int(v[v.size() - 1]), c)) PFAIL(W << q.name << " no longer matches the model entity");
            }
        }
    }
    if (pw) {
      std::set<std::vector<I64>> have;
      for (auto& kv : A.g.ents[dim]) {
        auto v = val(A, dim, kv.second, "pw");
        have.insert(v);
      }
      for (auto& kv : B.g.ents[dim])
        if (!have.count(val(B, dim, kv.second, "pw"))) PFAIL(W << "a pointwise value " << show(rval(B, dim, kv.second, "pw")) << " does not exist in the old mesh");
      if (did && op != ALL) {
        // where the middle of a new element lies
        st tested = 0;
        for (auto& kv : B.at[dim]) {
          if (A.at[dim].count(kv.first)) continue;
          if (++tested > 60) break;
          Pt c(st(dim), 0.);
          for (auto& q : kv.first)
            for (int i = 0; i < dim; ++i) c[st(i)] += q[st(i)] / (dim + 1);
          bool in = false, ok = false;
          auto got = val(B, dim, *kv.second, "pw");
          for (auto& kv2 : A.at[dim]) {
            Real b = inside(dim, kv2.first, c);
            if (b < -1e-9) continue;
            if (b > 1e-9) in = true;
            ok |= val(A, dim, *kv2.second, "pw") == got;
          }
          if (in && !ok) {
            if (curved && op != REF) continue;  // may lie outside the elements that were replaced
            PFAIL(W << "a pointwise value is not that of the old element holding the middle of the new one");
          }
        }
      }
    }
    // metrics of vertices that were kept
    for (auto& nm : mets)
      for (auto& kv : B.vert) {
        auto it2 = A.vert.find(kv.first);
        if (it2 == A.vert.end()) continue;
        if (val(A, 0, *it2->second, nm) != val(B, 0, *kv.second, nm)) PFAIL(W << nm << " of a vertex changed");
      }
    // sizes are those of the new mesh
    if (size) {
      if (!m.has_tag(dim, "size")) PFAIL(W << "the sizes are gone");
      for (auto& kv : B.g.ents[dim]) {
        Real got = rval(B, dim, kv.second, "size")[0], want = simplex_size(B.g, kv.second);
        if (!(std::fabs(got - want) <= 1e-9 * std::pow(p.unit, dim) + 1e-9 * std::fabs(want))) PFAIL(W << "the size of an element is recorded as " << got << ", it is " << want);
      }
    }
    {
      auto have = hv(m.ask_lengths()), want = hv(measure_edges_metric(&m));
      for (st i = 0; i < want.size(); ++i)
        if (!(std::fabs(have[i] - want[i]) <= 1e-9 * want[i])) PFAIL(W << "the length of an edge is recorded as " << have[i] << ", it is " << want[i]);
      have = hv(m.ask_qualities());
      want = hv(measure_qualities(&m));
      for (st i = 0; i < want.size(); ++i)
        if (!(std::fabs(have[i] - want[i]) <= 1e-9)) PFAIL(W << "the quality of an element is recorded as " << have[i] << ", it is " << want[i]);
    }
    (void)kept;
    if (did) s.label(opn[op]);
  }
  (void)fresh;
  if (curved) s.label("curved");
  s.nontrivial(changed > 0);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"transfer", run_transfer, 1500, 50000, {1}, true, "at least one operation modified the mesh"});
  t.push_back({"transfer_parallel", run_transfer, 200, 5000, {2, 4}, true, "at least one operation modified the mesh"});
  return run(argc, argv, t);
}
