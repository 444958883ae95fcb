// C23: mesh-wide metric fields obey the limits and totals requested
#include <Omega_h_array_ops.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_recover.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_surface.hpp>
#include <Omega_h_align.hpp>
#include "dset.hpp"
#include "refmat.hpp"
using namespace pbt;
namespace {
using rm::LD;
using rm::M;

int ncs(int n) { return n * (n + 1) / 2; }
M symm(VR const& a, int i, int n) {
  M r(n, n);
  Real const* p = a.data() + i * ncs(n);
  for (int d = 0; d < n; ++d) r(d, d) = p[d];
  if (n == 2) r(0, 1) = r(1, 0) = p[2];
  if (n == 3) {
    r(0, 1) = r(1, 0) = p[3];
    r(1, 2) = r(2, 1) = p[4];
    r(0, 2) = r(2, 0) = p[5];
  }
  return r;
}
void put(VR& o, M const& m) {
  for (int d = 0; d < m.m; ++d) o.push_back(Real(m(d, d)));
  if (m.m == 2) o.push_back(Real(m(0, 1)));
  if (m.m == 3) {
    o.push_back(Real(m(0, 1)));
    o.push_back(Real(m(1, 2)));
    o.push_back(Real(m(0, 2)));
  }
}
M func(M const& a, std::function<LD(LD)> f) {
  M q;
  auto e = rm::eigs(a, &q);
  for (auto& x : e) x = f(x);
  return rm::mul(rm::mul(q, rm::diag(e)), rm::tr(q));
}
M scale(M a, LD f) {
  for (auto& x : a.a) x *= f;
  return a;
}
M add(M a, M const& b) {
  for (st i = 0; i < a.a.size(); ++i) a.a[i] += b.a[i];
  return a;
}
// a >= b as quadratic forms, up to a relative tolerance
bool dominates(M const& a, M const& b, LD tol, LD extra = 0) {
  auto e = rm::eigs(rm::sub(a, b));
  return e[0] >= -tol * std::max(rm::nrm(a), rm::nrm(b)) - extra;
}
// an anisotropic comparison not spoilt by large entries: in the frame where b
// is the identity, a must have all eigenvalues at least 1-tol
bool dominates_rel(M const& a, M const& b, LD tol) {
  auto r = func(b, [](LD x) { return x > 0 ? 1 / std::sqrt(x) : 0; });
  auto c = rm::mul(rm::mul(r, a), r);
  return rm::eigs(c)[0] >= 1 - tol;
}
LD logdet(M const& a) {
  LD r = 0;
  for (auto x : rm::eigs(a)) r += std::log(x);
  return r;
}
struct Field {
  int n = 1;  // metric dimension
  VR v;       // per serial vertex
  bool smooth = true;
};
Field gen_field(Src& s, Set const& S) {
  Field f;
  int kind = s.weighted({3, 3, 2});
  if (kind < 2) {
    auto fn = gen_metric(s, S.p, true);
    f.n = fn.iso ? 1 : S.dim;
    for (int v = 0; v < S.p.nv(); ++v) fn.put(f.v, &S.p.x[st(v * S.dim)]);
  } else {
    // independent random tensors
    f.n = s.chance(70) ? S.dim : 1;
    f.smooth = false;
    Real spread = s.pick({0.3, 1., 2.5});
    u64 salt = s.below(1000);
    for (int v = 0; v < S.p.nv(); ++v) {
      u64 h = mix64(salt * 1000 + u64(v));
      auto u = [&]() { h = mix64(h); return double(h >> 11) / 9007199254740992.0; };
      M q = rm::eye(f.n);
      if (f.n > 1)
        for (int a = 0; a < f.n; ++a)
          for (int b = a + 1; b < f.n; ++b) {
            M g = rm::eye(f.n);
            LD t = 6.28 * u();
            g(a, a) = g(b, b) = std::cos(t);
            g(a, b) = -std::sin(t);
            g(b, a) = std::sin(t);
            q = rm::mul(q, g);
          }
      std::vector<LD> l;
      for (int a = 0; a < f.n; ++a) {
        LD hh = S.p.unit * std::exp(spread * (2 * u() - 1));
        l.push_back(1 / (hh * hh));
      }
      put(f.v, rm::mul(rm::mul(q, rm::diag(l)), rm::tr(q)));
    }
  }
  return f;
}
void same_vals(VR const& a, VR const& b, Real tol, std::string const& what) {
  if (a.size() != b.size()) PFAIL(what << ": " << a.size() << " values, expected " << b.size());
  for (st i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) <= tol * std::max(std::fabs(a[i]), std::fabs(b[i])))) PFAIL(what << ": value " << i << " is " << a[i] << ", expected " << b[i]);
}
LD max_log(VR const& v, int n) {
  LD m = 0;
  for (int i = 0; i * ncs(n) < int(v.size()); ++i)
    for (auto x : rm::eigs(symm(v, i, n))) m = std::max(m, std::fabs(std::log(x)));
  return m;
}

// ---- clamping
void t_clamp(Src& s, Env& e) {
  int n = s.range(1, 3);
  int k = s.range(1, 12);
  Real unit = s.pick({1., 1., 1e-3, 10.});
  Real hmin = unit * s.pick({0.5, 0.1, 0.01, 1.}), hmax = hmin * s.pick({2., 1., 10., 1000.});
  VR in;
  int out_of_range = 0, inside = 0;
  std::vector<std::vector<LD>> hs;
  for (int i = 0; i < k; ++i) {
    auto q = rm::gen_rot(s, n);
    if (n == 3) q = rm::mul(q, rm::gen_rot(s, n));
    std::vector<LD> l;
    int mode = s.weighted({3, 3, 1});
    for (int d = 0; d < n; ++d) {
      LD h = mode == 0 ? std::sqrt(hmin * hmax) * std::exp(s.uniform(-1, 1) * 0.45 * std::log(hmax / hmin)) : hmin * std::pow(hmax / hmin, s.uniform(-0.5, 1.5)) * s.pick({1., 0.3, 3.});
      if (h < hmin || h > hmax) ++out_of_range;
      l.push_back(mode == 2 && s.chance(50) ? 0 : 1 / (h * h));
    }
    if (mode == 0) ++inside;
    put(in, rm::mul(rm::mul(q, rm::diag(l)), rm::tr(q)));
  }
  s.desc(k, " metrics of dimension ", n, " clamped to ", hmin, "..", hmax);
  s.nontrivial(out_of_range > 0);
  auto out = hv(clamp_metrics(k, mk(in), hmin, hmax));
  LD tol = n == 1 ? 1e-12L : 0.02L;
  LD lo = 1 / LD(hmax * hmax), hi = 1 / LD(hmin * hmin);
  for (int i = 0; i < k; ++i) {
    M a = symm(in, i, n), b = symm(out, i, n);
    auto el = rm::eigs(b);
    LD span = 1e-12L * hi + 1e-12L * lo;
    if (!(el.front() >= lo - span - 1e-6L * hi && el.back() <= hi + 1e-6L * hi)) PFAIL("clamped metric " << i << " asks for lengths " << double(1 / std::sqrt(el.back())) << ".." << double(1 / std::sqrt(el.front())));
    M w = func(a, [&](LD x) { return std::min(hi, std::max(lo, x)); });
    LD nm = std::max(rm::nrm(w), std::min(hi, rm::nrm(a)));
    // eigenvalues close to each other compared with the largest are not told apart
    LD merge = n == 1 ? 0 : n == 2 ? 8e-3L : 1.2e-4L;
    if (!(rm::nrm(rm::sub(b, w)) <= tol * nm + merge * rm::nrm(a))) PFAIL("clamped metric " << i << " is " << rm::str(b) << ", expected " << rm::str(w));
    auto ea = rm::eigs(a);
    if (ea.front() > lo * 1.02L && ea.back() < hi / 1.02L && !(rm::nrm(rm::sub(b, a)) <= (n == 1 ? 1e-12L : 5e-3L) * nm)) PFAIL("metric " << i << " inside the range was changed from " << rm::str(a) << " to " << rm::str(b));
    // isotropic metrics: exact
    if (n > 1 && rm::nrm(rm::sub(a, scale(rm::eye(n), a(0, 0)))) == 0) CLOSE(b, w, 1e-12L * nm, "clamped isotropic metric");
  }
}

// ---- gradation
Real dist(VR const& x, int a, int b, int dim, M const& m) {
  M d(dim, 1);
  for (int i = 0; i < dim; ++i) d(i, 0) = x[st(b * dim + i)] - x[st(a * dim + i)];
  LD q;
  if (m.m == 1) q = m(0, 0) * rm::mul(rm::tr(d), d)(0, 0);
  else q = rm::mul(rm::tr(d), rm::mul(m, d))(0, 0);
  return Real(std::sqrt(std::max(LD(0), q)));
}
LD growth(Real d, Real rate) {
  LD f = 1 + LD(d) * rate;
  return 1 / (f * f);
}
std::vector<std::pair<int, int>> edges_of(Set& S) {
  std::vector<std::pair<int, int>> r;
  auto ev = verts_of(S.ser, 1);
  for (auto& v : ev) r.push_back({v[0], v[1]});
  return r;
}
void check_grad(Set& S, VR const& in, VR const& out, int n, Real rate, LD tol, LD dtol, std::string const& what) {
  int dim = S.dim;
  for (int v = 0; v < S.ser.nverts(); ++v) {
    M a = symm(out, v, n), b = symm(in, v, n);
    if (!rm::finite(a)) PFAIL(what << ": not a number at vertex " << v);
    if (!dominates_rel(a, b, dtol)) PFAIL(what << ": coarser than before at vertex " << v << ": " << rm::str(b) << " became " << rm::str(a));
  }
  for (auto& ed : edges_of(S))
    for (int k = 0; k < 2; ++k) {
      int a = k ? ed.second : ed.first, b = k ? ed.first : ed.second;
      M ma = symm(out, a, n), mb = symm(out, b, n);
      M lim = scale(mb, growth(dist(S.x, a, b, dim, mb), rate));
      if (!dominates_rel(ma, lim, tol)) PFAIL(what << ": from vertex " << b << " to " << a << " sizes grow faster than " << rate << ": " << rm::str(ma) << " against the limit " << rm::str(lim));
    }
}
void t_gradation(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  Field f;
  f.v = {};
  Dress none = [](Mesh&) {};
  make_set(s, e, S, dim, none);
  f = gen_field(s, S);
  int n = f.n, nc = ncs(n);
  Real rate = s.pick({1., 0.5, 0.2, 0.05, 3.});
  // anisotropic intersections are only accurate to about 1e-3
  Real tol = n == 1 ? s.pick({1e-3, 1e-2, 1e-6, 1e-8}) : s.pick({1e-3, 1e-2});
  s.label(n == 1 ? "iso" : "aniso");
  s.label("np" + std::to_string(e.np));
  s.desc(n == 1 ? "isotropic" : "anisotropic", " metrics, rate ", rate, " tolerance ", tol);
  auto out = limit_metric_gradation(&S.m, mk(local(S, f.v, nc)), rate, tol, false);
  auto o = collect(e, S, hv(out), nc);
  bool changed = false;
  for (st i = 0; i < o.size(); ++i) changed = changed || std::fabs(o[i] - f.v[i]) > 1e-2 * std::fabs(f.v[i]);
  s.nontrivial(changed);
  LD slack = n == 1 ? 2 * tol + 1e-9L : 10 * tol + 0.02L;
  check_grad(S, f.v, o, n, rate, slack, n == 1 ? 1e-12L : 0.02L, "limiting gradation");
  if (n == 1) {
    // the exact solution: the least field above the given one that satisfies all limits
    VR r = f.v;
    auto eds = edges_of(S);
    for (int it = 0; it < 10000; ++it) {
      bool ch = false;
      for (auto& ed : eds)
        for (int k = 0; k < 2; ++k) {
          int a = k ? ed.second : ed.first, b = k ? ed.first : ed.second;
          M mb(1, 1);
          mb(0, 0) = r[st(b)];
          Real l = Real(r[st(b)] * growth(dist(S.x, a, b, dim, mb), rate));
          if (l > r[st(a)] * (1 + 1e-13)) r[st(a)] = l, ch = true;
        }
      if (!ch) break;
    }
    for (int v = 0; v < S.ser.nverts(); ++v) {
      if (!(o[st(v)] <= r[st(v)] * (1 + 1e-9))) PFAIL("limiting gradation: vertex " << v << " refined to " << o[st(v)] << ", only " << r[st(v)] << " is needed");
      if (tol <= 1e-6 && !(o[st(v)] >= r[st(v)] * (1 - 1000 * tol))) PFAIL("limiting gradation: vertex " << v << " left at " << o[st(v)] << ", needs " << r[st(v)]);
    }
  } else {
    // bounded by the finest eigenvalue there was
    LD mx = 0;
    for (int v = 0; v < S.ser.nverts(); ++v) mx = std::max(mx, rm::eigs(symm(f.v, v, n)).back());
    for (int v = 0; v < S.ser.nverts(); ++v)
      if (!(rm::eigs(symm(o, v, n)).back() <= mx * n * 1.1L)) PFAIL("limiting gradation: vertex " << v << " is finer than anything requested: " << rm::str(symm(o, v, n)));
  }
}

// ---- predicted counts
Real typical(int dim) { return dim == 3 ? 0.0838934100219 : dim == 2 ? 0.377645136635 : 1.0; }
void t_count(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  make_set(s, e, S, dim, [](Mesh&) {});
  auto f = gen_field(s, S);
  int n = f.n, nc = ncs(n);
  s.label(n == 1 ? "iso" : "aniso");
  auto lm = mk(local(S, f.v, nc));
  // at the mean of logarithms, the determinant is the geometric mean
  auto ev = verts_of(S.ser, dim);
  std::vector<LD> ld;
  for (int v = 0; v < S.ser.nverts(); ++v) ld.push_back(logdet(symm(f.v, v, n)) * (n == 1 ? dim : 1));
  LD total = 0;
  std::map<VR, LD> per;
  for (int i = 0; i < S.ser.nelems(); ++i) {
    LD sum = 0;
    VL vs = ev[st(i)];
    for (auto v : vs) sum += ld[st(v)];
    LD c = simplex_measure(dim, S.x, vs.data()) * std::exp(sum / (2 * (dim + 1)));
    total += c;
    std::sort(vs.begin(), vs.end());
    per[VR(vs.begin(), vs.end())] = c;
  }
  LD tol = n == 1 ? 1e-10L : 1e-5L;
  if (n > 1) tol = 0.02L + 0.006L * max_log(f.v, n) * (n == 3 ? 1 : 0.2L);
  auto got = hv(get_complexity_per_elem(&S.m, lm));
  auto lev = verts_of(S.m, dim);
  PCHECK(int(got.size()) == S.m.nelems(), "one value per element");
  for (int i = 0; i < S.m.nelems(); ++i) {
    VR k;
    for (auto v : lev[st(i)]) k.push_back(S.gv[st(v)]);
    std::sort(k.begin(), k.end());
    LD w = per.at(k);
    if (!(std::fabs(got[st(i)] - w) <= tol * w)) PFAIL("element " << i << " has metric volume " << got[st(i)] << ", expected " << double(w));
  }
  auto npe = hv(get_nelems_per_elem(&S.m, lm));
  for (st i = 0; i < got.size(); ++i)
    if (!(std::fabs(npe[i] - got[i] / typical(dim)) <= 1e-12 * npe[i])) PFAIL("predicted count of element " << i << " is " << npe[i] << " for metric volume " << got[i]);
  Real c = get_complexity(&S.m, lm);
  if (!(std::fabs(c - total) <= tol * total)) PFAIL("total metric volume " << c << ", expected " << double(total));
  Real ne = get_expected_nelems(&S.m, lm);
  if (!(std::fabs(ne - c / typical(dim)) <= 1e-12 * ne)) PFAIL("predicted count " << ne << " for metric volume " << c);
  Real cs = get_expected_nelems(&S.ser, mk(f.v));
  if (!(std::fabs(cs - ne) <= 1e-11 * ne)) PFAIL("predicted count " << ne << " in parallel, " << cs << " on one process");
  // scaling to a target
  Real target = s.pick({100., 1., 12345., 1e7, 0.5}) * (1 + s.unit());
  s.desc("from ", ne, " to ", target, " elements");
  Real sc = get_metric_scalar_for_nelems(&S.m, lm, target);
  if (!(sc > 0)) PFAIL("scalar " << sc);
  // metrics of norm below 1e-10 count as asking for no size at all
  for (int v = 0; v < S.ser.nverts(); ++v)
    if (rm::eigs(symm(f.v, v, n)).front() * sc < 1e-9L) throw Discard();
  Real sc2 = get_metric_scalar_for_nelems(dim, ne, target);
  if (!(std::fabs(sc - sc2) <= 1e-10 * sc)) PFAIL("scalars " << sc << " and " << sc2);
  Real ne2 = get_expected_nelems(&S.m, multiply_each_by(lm, sc));
  if (!(std::fabs(ne2 - target) <= (n == 1 ? 1e-9 : 1e-4 + 2 * double(tol)) * target)) PFAIL("scaled to " << target << " elements, the prediction is " << ne2);
  s.nontrivial(S.ser.nelems() > 2);
}

// ---- implied metrics
M implied(int dim, VR const& x, VL const& v) {
  // the metric in which all edges have unit length
  int n = ncs(dim);
  M A(n, n + 1);
  int row = 0;
  for (int i = 0; i <= dim; ++i)
    for (int j = i + 1; j <= dim; ++j) {
      LD d[3] = {0, 0, 0};
      for (int k = 0; k < dim; ++k) d[k] = LD(x[st(v[st(j)] * dim + k)]) - x[st(v[st(i)] * dim + k)];
      for (int k = 0; k < dim; ++k) A(row, k) = d[k] * d[k];
      if (dim == 2) A(row, 2) = 2 * d[0] * d[1];
      if (dim == 3) {
        A(row, 3) = 2 * d[0] * d[1];
        A(row, 4) = 2 * d[1] * d[2];
        A(row, 5) = 2 * d[0] * d[2];
      }
      A(row, n) = 1;
      ++row;
    }
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c; r < n; ++r)
      if (std::fabs(A(r, c)) > std::fabs(A(p, c))) p = r;
    for (int k = 0; k <= n; ++k) std::swap(A(c, k), A(p, k));
    for (int r = 0; r < n; ++r) {
      if (r == c) continue;
      LD f = A(r, c) / A(c, c);
      for (int k = 0; k <= n; ++k) A(r, k) -= f * A(c, k);
    }
  }
  M m(dim, dim);
  auto g = [&](int i) { return A(i, n) / A(i, i); };
  for (int d = 0; d < dim; ++d) m(d, d) = g(d);
  if (dim == 2) m(0, 1) = m(1, 0) = g(2);
  if (dim == 3) {
    m(0, 1) = m(1, 0) = g(3);
    m(1, 2) = m(2, 1) = g(4);
    m(0, 2) = m(2, 0) = g(5);
  }
  return m;
}
void t_implied(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  // random linear stretching of the mesh
  M T = rm::eye(dim);
  bool stretch = dim > 1 && s.chance(50);
  if (stretch) {
    std::vector<LD> l;
    for (int i = 0; i < dim; ++i) l.push_back(s.pick({1., 0.3, 3., 0.1}));
    T = rm::mul(rm::gen_rot(s, dim), rm::diag(l));
  }
  make_set(s, e, S, dim, [](Mesh&) {}, ProbOpt(), [&](Problem& p) {
    for (int v = 0; v < p.nv(); ++v) {
      M c(dim, 1);
      for (int i = 0; i < dim; ++i) c(i, 0) = p.x[st(v * dim + i)];
      c = rm::mul(T, c);
      for (int i = 0; i < dim; ++i) p.x[st(v * dim + i)] = Real(c(i, 0));
    }
  });
  auto ev = verts_of(S.ser, dim);
  // 1D elements must run left to right for their measure to be right
  std::vector<M> em;
  for (auto& v : ev) em.push_back(implied(dim, S.x, v));
  Real perfect = dim == 1 ? 1. : dim == 2 ? std::sqrt(3.) / 4 : std::sqrt(2.) / 12;
  auto lib_e = hv(get_element_implied_length_metrics(&S.m));
  auto lev = verts_of(S.m, dim);
  for (int i = 0; i < S.m.nelems(); ++i) {
    VL g;
    for (auto v : lev[st(i)]) g.push_back(S.gv[st(v)]);
    M w = implied(dim, S.x, g), b = symm(lib_e, i, dim);
    LD cond = rm::eigs(w).back() / rm::eigs(w).front();
    if (!(rm::nrm(rm::sub(b, w)) <= 1e-10L * cond * rm::nrm(w))) PFAIL("element " << i << ": the implied metric is " << rm::str(b) << ", expected " << rm::str(w));
  }
  LD unit2 = LD(S.p.unit) * S.p.unit;
  struct {
    char const* name;
    Reals r;
    int n;
    LD f;
  } kinds[4] = {{"pure implied metrics", get_pure_implied_metrics(&S.m), dim, 1},
      {"implied metrics", get_implied_metrics(&S.m), dim, LD(std::pow(typical(dim) / perfect, 2. / dim))},
      {"pure implied sizes", get_pure_implied_isos(&S.m), 1, 1},
      {"implied sizes", get_implied_isos(&S.m), 1, LD(std::pow(typical(dim) / perfect, 2. / dim))}};
  auto v2e = std::vector<std::vector<int>>(st(S.ser.nverts()));
  for (st i = 0; i < ev.size(); ++i)
    for (auto v : ev[i]) v2e[st(v)].push_back(int(i));
  (void)unit2;
  for (auto& k : kinds) {
    int n = k.n;
    auto o = collect(e, S, hv(k.r), ncs(n));
    for (int v = 0; v < S.ser.nverts(); ++v) {
      M mean(dim, dim);
      LD big = 0;
      for (int i : v2e[st(v)]) {
        auto lm = func(em[st(i)], [](LD x) { return std::log(x); });
        big = std::max(big, rm::nrm(lm));
        mean = add(mean, scale(lm, LD(1) / v2e[st(v)].size()));
      }
      M w = scale(func(mean, [](LD x) { return std::exp(x); }), k.f);
      if (n == 1) {
        LD d = std::exp(logdet(w) / dim);
        w = M(1, 1);
        w(0, 0) = d;
      }
      M b = symm(o, v, n);
      LD tol = 1e-10L;
      if (dim > 1) tol = 0.02L + 0.03L * big;
      // sizes average exactly up to the errors of each logarithm
      if (!(rm::finite(b)) || !(rm::nrm(rm::sub(b, w)) <= tol * rm::nrm(w))) PFAIL(k.name << " at vertex " << v << ": " << rm::str(b) << ", expected " << rm::str(w));
      if (!(rm::eigs(b).front() > 0)) PFAIL(k.name << " at vertex " << v << " is not positive definite: " << rm::str(b));
    }
  }
  s.nontrivial(stretch || S.ser.nelems() > 1);
  // a single element is of unit size in its own metric
  int pick = s.range(0, S.ser.nelems() - 1);
  VR x1;
  for (auto v : ev[st(pick)])
    for (int i = 0; i < dim; ++i) x1.push_back(S.x[st(v * dim + i)]);
  Mesh one(e.lib);
  build_from_elems_and_coords(&one, OMEGA_H_SIMPLEX, dim, LOs(dim + 1, 0, 1), mk(x1));
  one.set_comm(e.lib->self());
  for (int iso = 0; iso < 2; ++iso) {
    Real c = get_expected_nelems(&one, iso ? get_implied_isos(&one) : get_implied_metrics(&one));
    if (!(std::fabs(c - 1) <= (dim == 1 ? 1e-10 : 0.03))) PFAIL("one element predicts " << c << " elements in its own implied " << (iso ? "size" : "metric"));
  }
  one.add_tag(VERT, "metric", ncs(dim), get_pure_implied_metrics(&one));
  for (auto l : hv(measure_edges_metric(&one)))
    if (!(std::fabs(l - 1) <= (dim == 1 ? 1e-10 : 0.02))) PFAIL("an edge of an element has length " << l << " in the element's own metric");
  // a mesh whose elements all imply the same metric predicts its own number of elements
  if (dim < 3 || e.np == 1) {
    bool same = true;
    for (auto& m : em) same = same && rm::nrm(rm::sub(m, em[0])) <= 1e-9L * rm::nrm(m);
    if (same) {
      s.label("uniform");
      Real c = get_expected_nelems(&S.m, kinds[1].r);
      if (!(std::fabs(c - S.ser.nelems()) <= 0.03 * c)) PFAIL("a uniform mesh of " << S.ser.nelems() << " elements predicts " << c);
    }
  }
}

// ---- combining sources
struct Source {
  MetricSource src;
  VR given;      // the metric it asks for, before isotropy (serial vertices)
  int n = 1;
};
void t_generate(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  std::vector<std::pair<std::string, std::pair<int, VR>>> tags;
  Dress dress = [&](Mesh&) {};
  // the tags must be there before distribution, but depend on the mesh: build twice
  ProbOpt po;
  make_set(s, e, S, dim, dress, po);
  MetricInput in;
  in.verbose = false;
  int ns = s.weighted({4, 4, 2}) + 1;
  std::vector<Source> src;
  bool any_scales = false;
  for (int i = 0; i < ns; ++i) {
    Source q{MetricSource(OMEGA_H_CONSTANT), {}, 1};
    int type = s.weighted({3, 4, 3, 2, 2});
    auto iso = dim == 1 ? OMEGA_H_ANISOTROPIC : s.pick({OMEGA_H_ANISOTROPIC, OMEGA_H_ANISOTROPIC, OMEGA_H_ISO_LENGTH, OMEGA_H_ISO_SIZE});
    auto sc = s.chance(60) ? OMEGA_H_SCALES : OMEGA_H_ABSOLUTE;
    any_scales = any_scales || sc == OMEGA_H_SCALES;
    auto name = "f" + std::to_string(i);
    Real knob = 1;
    switch (type) {
      case 0: {
        knob = S.p.unit * s.pick({1., 0.5, 2., 0.7});
        q.src = MetricSource(OMEGA_H_CONSTANT, knob, "", iso, sc);
        q.given = VR(st(S.ser.nverts()), 1 / (knob * knob));
        q.n = 1;
        break;
      }
      case 1: {
        auto f = gen_field(s, S);
        knob = s.pick({1., 1., 2., 0.25});
        q.src = MetricSource(OMEGA_H_GIVEN, knob, name, iso, sc);
        q.n = f.n;
        S.m.add_tag<Real>(VERT, name, ncs(f.n), mk(local(S, f.v, ncs(f.n))));
        for (auto& v : f.v) v /= knob * knob;
        q.given = f.v;
        break;
      }
      case 2: {
        knob = s.pick({1., 1., 2., 0.5});
        q.src = MetricSource(OMEGA_H_IMPLIED, knob, "", iso, sc);
        q.n = dim;
        q.given = collect(e, S, hv(get_implied_metrics(&S.m)), ncs(dim));
        for (auto& v : q.given) v /= knob * knob;
        break;
      }
      default: {
        // a random smooth vertex field, or an element field
        if (!has_interior(S)) throw Discard();
        bool el = s.chance(40);
        int nc = s.pick({1, 1, 1, 2});
        bool deriv = type == 4;
        if (deriv) nc = 1;
        if (deriv && el) nc = s.pick({dim, ncs(dim)});
        if (deriv && !el) nc = s.pick({1, dim, ncs(dim)});
        if (deriv && el && dim == 1) nc = 1;
        u64 salt = s.below(1000);
        VR co;
        for (int c = 0; c < nc * 10; ++c) co.push_back(double(mix64(salt * 100 + u64(c)) >> 11) / 9007199254740992.0 * 2 - 1);
        auto val = [&](Real const* x, int c) {
          Real r = co[st(c * 10)];
          int k = 1;
          for (int i = 0; i < dim; ++i) r += co[st(c * 10 + k++)] * x[i] / S.p.unit;
          for (int i = 0; i < dim; ++i)
            for (int j = i; j < dim; ++j) r += co[st(c * 10 + k++)] * x[i] * x[j] / S.p.unit / S.p.unit;
          return r;
        };
        auto x = hv(S.m.coords());
        VR data;
        if (el) {
          auto lev = verts_of(S.m, dim);
          for (auto& v : lev) {
            Real c[3] = {0, 0, 0};
            for (auto y : v)
              for (int i = 0; i < dim; ++i) c[i] += x[st(y * dim + i)] / (dim + 1);
            for (int k = 0; k < nc; ++k) data.push_back(val(c, k));
          }
        } else
          for (int v = 0; v < S.m.nverts(); ++v)
            for (int k = 0; k < nc; ++k) data.push_back(val(&x[st(v * dim)], k));
        S.m.add_tag<Real>(el ? dim : 0, name, nc, mk(data));
        knob = s.pick({0.05, 0.5, 0.01});
        q.src = MetricSource(deriv ? OMEGA_H_DERIVATIVE : OMEGA_H_VARIATION, knob, name, iso, sc);
        q.n = dim;
        s.label(deriv ? el ? "derivative of elements" : "derivative" : el ? "variation of elements" : "variation");
        // the metric these fields ask for, from their recovered derivatives
        auto metric = [&](Reals h, bool grad) {
          auto hh = hv(h);
          VR o;
          for (int v = 0; v < S.m.nverts(); ++v) {
            if (grad) {
              M g(dim, 1);
              for (int i = 0; i < dim; ++i) g(i, 0) = hh[st(v * dim + i)];
              put(o, scale(rm::mul(g, rm::tr(g)), LD(dim * dim) / (4 * (dim + 1) * (dim + 1) * LD(knob) * knob)));
            } else
              put(o, func(symm(hh, v, dim), [&](LD y) { return std::fabs(y) * dim * dim / (2 * (dim + 1) * (dim + 1) * LD(knob)); }));
          }
          return o;
        };
        Reals d = mk(data);
        VR loc;
        if (deriv) {
          int state = el ? (nc == ncs(dim) && !(dim == 1) ? 3 : 1) : (nc == 1 ? 0 : nc == dim ? 2 : 4);
          if (dim == 1 && el) state = 1;
          if (state == 0) d = derive_element_gradients(&S.m, d);
          if (state <= 1) d = project_by_fit(&S.m, d);
          if (state <= 2) d = derive_element_hessians(&S.m, d);
          if (state <= 3) d = project_by_fit(&S.m, d);
          loc = metric(d, false);
        } else {
          for (int k = 0; k < nc; ++k) {
            auto c = get_component(d, nc, k);
            auto mk_ = el ? metric(recover_gradients(&S.m, project_by_fit(&S.m, c)), true) : metric(recover_hessians(&S.m, c), false);
            if (k == 0) loc = mk_;
            else {
              // at least both
              auto g1 = collect(e, S, loc, ncs(dim));
              Source extra = q;
              extra.given = g1;
              if (iso == OMEGA_H_ANISOTROPIC && sc == OMEGA_H_ABSOLUTE) src.push_back(extra);
              loc = mk_;
            }
          }
          if (nc > 1 && !(iso == OMEGA_H_ANISOTROPIC && sc == OMEGA_H_ABSOLUTE)) {
            // keep the oracle simple: isotropic reductions of intersections are not checked
            throw Discard();
          }
        }
        q.given = collect(e, S, loc, ncs(dim));
        // degenerate metrics (no size at all) cannot drive a count
        for (int v = 0; v < S.ser.nverts(); ++v)
          if (rm::nrm(symm(q.given, v, dim)) * S.p.unit * S.p.unit < 1e-6) throw Discard();
      }
    }
    in.add_source(q.src);
    src.push_back(q);
  }
  int nadded = int(in.sources.size());
  bool has_deriv = false;
  for (auto& q : in.sources) has_deriv = has_deriv || q.type == OMEGA_H_VARIATION || q.type == OMEGA_H_DERIVATIVE;
  // limits
  in.should_limit_lengths = s.chance(40);
  in.min_length = S.p.unit * s.pick({0.5, 0.1, 0.01});
  in.max_length = in.min_length * s.pick({2., 10., 1., 100.});
  if (!in.should_limit_lengths && s.chance(30)) in.max_length = 0;  // not in use
  in.should_limit_gradation = s.chance(30);
  in.max_gradation_rate = s.pick({1., 0.3, 2.});
  in.should_limit_element_count = any_scales && nadded == 1 && !in.should_limit_lengths && s.chance(60);
  if (in.should_limit_element_count && has_deriv) in.should_limit_gradation = false;
  in.max_element_count = s.pick({50., 1000., 20000.});
  in.min_element_count = in.max_element_count / s.pick({2., 10., 1.5});
  // gradation limiting a degenerate metric is not well defined
  if (has_deriv) in.should_limit_gradation = in.should_limit_lengths && in.should_limit_gradation;
  // nor does one predict a number of elements
  if (has_deriv && in.should_limit_element_count)
    for (auto& q : src)
      for (int v = 0; v < S.ser.nverts(); ++v) {
        auto l = rm::eigs(symm(q.given, v, q.n));
        if (l.front() < 1e-6L * l.back()) throw Discard();
      }
  // with nearly isotropic 3D tensors the limiting loop may not settle within
  // its tolerance (the eigen-solver's merging tolerance); t_gradation covers
  // tensors that do not come out of combinations
  if (S.dim == 3) in.should_limit_gradation = in.should_limit_gradation && nadded == 1 && src[0].src.isotropy != OMEGA_H_ANISOTROPIC;
  // limits apply after the components are combined
  if (int(src.size()) != nadded && in.should_limit_lengths) throw Discard();
  s.label(in.should_limit_lengths ? "lengths" : "no lengths");
  if (in.should_limit_gradation) s.label("gradation");
  if (in.should_limit_element_count) s.label("count");
  s.desc(nadded, " sources", in.should_limit_lengths ? ", lengths limited" : "", in.should_limit_gradation ? ", gradation limited" : "", in.should_limit_element_count ? ", count limited" : "");
  s.nontrivial(nadded > 1 || in.should_limit_lengths || in.should_limit_element_count || in.should_limit_gradation);
  Reals res = generate_metrics(&S.m, in);
  int n = get_metrics_dim(S.m.nverts(), res);
  {  // the functions that store what they generate
    bool tgt = in.should_limit_lengths;
    auto name = tgt ? "target_metric" : "metric";
    if (tgt) generate_target_metric_tag(&S.m, in);
    else generate_metric_tag(&S.m, in);
    auto same = [](Reals a, Reals b) {  // degenerate sizes may be NaN
      auto x = hv(a), y = hv(b);
      if (x.size() != y.size()) return false;
      for (st i = 0; i < x.size(); ++i)
        if (x[i] != y[i] && !(std::isnan(x[i]) && std::isnan(y[i]))) return false;
      return true;
    };
    bool ok = S.m.has_tag(0, name) && S.m.get_tagbase(0, name)->ncomps() == ncs(n) && same(S.m.get_array<Real>(0, name), res);
    if (tgt) {
      add_implied_metric_based_on_target(&S.m);
      auto w = n == 1 && dim > 1 ? get_implied_isos(&S.m) : get_implied_metrics(&S.m);
      ok = ok && S.m.has_tag(0, "metric") && same(S.m.get_array<Real>(0, "metric"), w) && get_metric_dim(&S.m) == (n == 1 && dim > 1 ? 1 : dim);
    }
    int bad = e.comm->allreduce(I32(!ok), OMEGA_H_MAX);
    if (bad) PFAIL("the metric stored is not the one generated");
    for (auto x : {"metric", "target_metric"}) S.m.remove_tag(0, x);
  }
  auto o = collect(e, S, hv(res), ncs(n));
  // what each source asks for
  bool any_aniso = false;
  for (auto& q : src) any_aniso = any_aniso || (dim > 1 && q.n == dim && q.src.isotropy == OMEGA_H_ANISOTROPIC);
  if (n != (any_aniso ? dim : 1)) PFAIL("the result has dimension " << n);
  LD lo = 1 / (LD(in.max_length) * in.max_length), hi = 1 / (LD(in.min_length) * in.min_length);
  LD c = 1;
  std::vector<VR> want;
  // eigenvalues close to each other compared with the largest are not told apart
  std::vector<LD> extra(st(S.ser.nverts()), 0);
  for (auto& q : src) {
    VR w;
    for (int v = 0; v < S.ser.nverts(); ++v) {
      M a = symm(q.given, v, q.n);
      if (q.src.isotropy != OMEGA_H_ANISOTROPIC) {
        M b(1, 1);
        // nearly degenerate metrics have no meaningful size
        if (q.src.isotropy == OMEGA_H_ISO_SIZE && (q.src.type == OMEGA_H_VARIATION || q.src.type == OMEGA_H_DERIVATIVE) && rm::eigs(a).front() < 1e-2L * rm::eigs(a).back()) throw Discard();
        b(0, 0) = q.src.isotropy == OMEGA_H_ISO_LENGTH ? rm::eigs(a).back() : std::pow(rm::det(a), LD(1) / a.m);
        a = b;
      }
      if (a.m < n) a = scale(rm::eye(n), a(0, 0));
      if (in.should_limit_lengths && a.m > 1) extra[st(v)] += (a.m == 2 ? 8e-3L : 1.2e-4L) * rm::nrm(a);
      if (in.should_limit_lengths) a = func(a, [&](LD x) { return std::min(hi, std::max(lo, x)); });
      put(w, a);
    }
    want.push_back(w);
  }
  if (in.should_limit_element_count) {
    Real cnt = get_expected_nelems(&S.m, res);
    if (!(cnt <= in.max_element_count * (1 + 1e-9) && cnt >= in.min_element_count * (1 - 1e-9))) PFAIL("predicts " << cnt << " elements, asked for " << in.min_element_count << ".." << in.max_element_count);
    // one scalable source: everything scaled by the same factor
    LD num = 0, den = 0;
    for (int v = 0; v < S.ser.nverts(); ++v) num = std::max(num, rm::nrm(symm(o, v, n))), den = std::max(den, rm::nrm(symm(want[0], v, n)));
    if (in.should_limit_gradation) {
      // the finest point is not affected by gradation
      c = num / den;
      for (auto& x : want[0]) x = Real(x * c * 0.97L);
    } else {
      c = num / den;
      for (auto& x : want[0]) x = Real(x * c);
    }
    s.label(std::fabs(c - 1) < 1e-6L ? "count fits" : c > 1 ? "count raised" : "count lowered");
  }
  bool iso = n == 1;
  LD tol = iso ? 1e-7L : 0.03L;
  if (iso)
    for (auto& q : src)
      if (q.n > 1) tol = 0.02L;
  for (int v = 0; v < S.ser.nverts(); ++v) {
    M r = symm(o, v, n);
    if (!rm::finite(r)) PFAIL("not a number at vertex " << v);
    M sum(n, n);
    for (st k = 0; k < src.size(); ++k) {
      M w = symm(want[k], v, n);
      sum = add(sum, w);
      if (!dominates(r, w, tol, extra[st(v)])) PFAIL("the result at vertex " << v << " is " << rm::str(r) << ", source " << k << " (" << int(src[k].src.type) << ") asks for " << rm::str(w));
    }
    if (!in.should_limit_gradation) {
      if (src.size() == 1 && !(rm::nrm(rm::sub(r, symm(want[0], v, n))) <= 2 * tol * rm::nrm(r) + extra[st(v)])) PFAIL("the only source asks for " << rm::str(symm(want[0], v, n)) << " at vertex " << v << ", the result is " << rm::str(r));
      if (iso) {
        LD mx = 0;
        for (auto& w : want) mx = std::max(mx, LD(w[st(v)]));
        if (!(std::fabs(r(0, 0) - mx) <= tol * mx)) PFAIL("the finest source asks for " << double(mx) << " at vertex " << v << ", the result is " << rm::str(r));
      }
      if (!dominates(sum, r, 3 * tol, extra[st(v)])) PFAIL("the result at vertex " << v << " is finer than all sources together: " << rm::str(r) << " against " << rm::str(sum));
    }
    if (in.should_limit_lengths && src.size() == 1) {
      auto el = rm::eigs(r);
      if (!in.should_limit_gradation && !(el.back() <= hi * (1 + tol))) PFAIL("vertex " << v << " asks for length " << double(1 / std::sqrt(el.back())));
      if (!(el.front() >= lo * (1 - tol) - 0.01L * tol * el.back())) PFAIL("vertex " << v << " asks for length " << double(1 / std::sqrt(el.front())));
    }
  }
  if (in.should_limit_gradation) {
    VR lower(o.size(), 0.);
    check_grad(S, want[0], o, n, in.max_gradation_rate, 10 * in.gradation_convergence_tolerance + (iso ? 1e-9L : 0.03L), 0.05L, "generated metrics");
  }
}

// ---- curvature as a metric source: sizes along the principal directions
void t_curvature(Src& s, Env& e) {
  int dim = s.pick({3, 2});
  Set S(e);
  Real k1 = s.pick({0.1, 0.3, 0.}), k2 = s.pick({0., 0.1, -0.2, 0.25}), ang = s.uniform(0, 3.1);
  ProbOpt po;
  make_set(s, e, S, dim, [](Mesh&) {}, po, [&](Problem& p) {
    Real lo[3], hi[3];
    for (int i = 0; i < dim; ++i) {
      lo[i] = p.mod.xs[i].front();
      hi[i] = p.mod.xs[i].back();
    }
    for (int v = 0; v < p.nv(); ++v) {
      Real* x = &p.x[st(v * dim)];
      Real u[3] = {0, 0, 0};
      for (int i = 0; i < dim; ++i) u[i] = (x[i] - (lo[i] + hi[i]) / 2) / p.unit;
      Real a = std::cos(ang) * u[0] + std::sin(ang) * (dim == 3 ? u[1] : 0), b = -std::sin(ang) * u[0] + std::cos(ang) * (dim == 3 ? u[1] : 0);
      x[dim - 1] += p.unit * (k1 * a * a + k2 * b * b) / 2;
    }
  });
  if (dim == 3) {
    // faces between two regions have no orientation, hence no normals
    auto cd = hv(S.ser.get_array<I8>(2, "class_dim"));
    auto up = hv(S.ser.ask_up(2, 3).a2ab);
    for (st i = 0; i < cd.size(); ++i)
      if (cd[i] == 2 && up[i + 1] - up[i] != 1) throw Discard();
  }
  Real seg = s.pick({0.5, 0.1, 1.});
  auto info = get_surface_info(&S.m);
  auto got = hv(get_curvature_metrics(&S.m, seg));
  auto x = hv(S.m.coords());
  VR want(got.size(), 0.);
  std::vector<bool> surf(st(S.m.nverts()), false);
  int nc = ncs(dim), nontriv = 0;
  auto set = [&](int v, M const& m) {
    VR o;
    put(o, m);
    for (int c = 0; c < nc; ++c) want[st(v * nc + c)] = o[st(c)];
  };
  if (dim == 3) {
    auto sv = hv(info.surf_vert2vert);
    auto II = hv(info.surf_vert_IIs);
    auto no = hv(info.surf_vert_normals);
    for (st i = 0; i < sv.size(); ++i) {
      auto fr = form_ortho_basis(vector_3(no[3 * i], no[3 * i + 1], no[3 * i + 2]));
      M F(3, 2);
      for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 2; ++c) F(r, c) = fr[c + 1][r];
      M i2 = func(symm(II, int(i), 2), [&](LD y) { return y * y / (LD(seg) * seg); });
      if (std::fabs(i2(0, 1)) > 1e-3L * rm::nrm(i2) && rm::nrm(i2) * S.p.unit * S.p.unit > 1e-6L) ++nontriv;
      set(sv[i], rm::mul(rm::mul(F, i2), rm::tr(F)));
      surf[st(sv[i])] = true;
    }
  }
  auto cv = hv(info.curv_vert2vert);
  auto ct = hv(info.curv_vert_tangents);
  auto ck = hv(info.curv_vert_curvatures);
  for (st i = 0; i < cv.size(); ++i) {
    M t(dim, 1);
    for (int d = 0; d < dim; ++d) t(d, 0) = ct[i * st(dim) + st(d)];
    set(cv[i], scale(rm::mul(t, rm::tr(t)), LD(ck[i]) * ck[i] / (LD(seg) * seg)));
    surf[st(cv[i])] = true;
    if (ck[i] * S.p.unit > 1e-3) ++nontriv;
  }
  s.nontrivial(nontriv > 0);
  s.desc("curvatures ", k1, ", ", k2, " turned by ", ang);
  for (int v = 0; v < S.m.nverts(); ++v) {
    M a = symm(got, v, dim), b = symm(want, v, dim);
    if (!rm::finite(a) || !(rm::nrm(rm::sub(a, b)) <= 0.02L * rm::nrm(b) + 1e-9L / (LD(S.p.unit) * S.p.unit))) PFAIL("the curvature metric of vertex " << v << " is " << rm::str(a) << ", expected " << rm::str(b));
  }
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"clamp", t_clamp, 1500, 30000, {1}, true, "some desired size is out of range"});
  t.push_back({"gradation", t_gradation, 250, 4000, {1, 2, 3}, true, "limiting changes the field"});
  t.push_back({"count", t_count, 250, 4000, {1, 2, 3, 4}, true, "more than two elements"});
  t.push_back({"implied", t_implied, 250, 4000, {1, 2, 3}, true, "several elements or a stretched one"});
  t.push_back({"generate", t_generate, 400, 6000, {1, 2, 3}, true, "several sources or limits"});
  t.push_back({"curvature", t_curvature, 120, 2000, {1, 2}, true, "a curved surface or curve whose principal directions are not aligned with the frame"});
  return run(argc, argv, t);
}
