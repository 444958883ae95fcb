// C24: derivative recovery and projections between elements and vertices
#include <Omega_h_array_ops.hpp>
#include <Omega_h_recover.hpp>
#include <Omega_h_shape.hpp>
#include "dset.hpp"
#include "refmat.hpp"
using namespace pbt;
namespace {
using rm::LD;
using rm::M;
int ncs(int n) { return n * (n + 1) / 2; }
// a random polynomial of degree <= 2 around the middle of the mesh
struct Poly {
  int dim = 2;
  Real unit = 1;
  LD c[3] = {0, 0, 0}, a0 = 0, a[3] = {0, 0, 0}, h[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
  LD at(LD const* x) const {
    LD r = a0;
    for (int i = 0; i < dim; ++i) {
      r += a[i] * (x[i] - c[i]) / unit;
      for (int j = 0; j < dim; ++j) r += h[i][j] * (x[i] - c[i]) * (x[j] - c[j]) / unit / unit / 2;
    }
    return r;
  }
  LD at(Real const* x) const {
    LD y[3] = {0, 0, 0};
    for (int i = 0; i < dim; ++i) y[i] = x[i];
    return at(y);
  }
  LD d(Real const* x, int i) const {
    LD r = a[i] / unit;
    for (int j = 0; j < dim; ++j) r += h[i][j] * (LD(x[j]) - c[j]) / unit / unit;
    return r;
  }
  LD dd(int i, int j) const { return h[i][j] / unit / unit; }
};
Poly gen_poly(Src& s, Set const& S, int deg) {
  Poly p;
  p.dim = S.dim;
  p.unit = S.p.unit;
  for (int i = 0; i < S.dim; ++i) p.c[i] = S.p.mod.xs[i].front();
  if (deg >= 0) p.a0 = s.nice(2);
  if (deg >= 1)
    for (int i = 0; i < S.dim; ++i) p.a[i] = s.nice(2);
  if (deg >= 2)
    for (int i = 0; i < S.dim; ++i)
      for (int j = 0; j <= i; ++j) p.h[i][j] = p.h[j][i] = s.nice(2);
  return p;
}
struct Ctx {
  std::vector<VL> ev;                    // serial elements
  std::vector<std::vector<int>> v2e, v2v;
  std::vector<I8> cd;
  std::vector<std::vector<LD>> cen;      // centroids
  std::vector<int> ge;                   // serial number of each local element
};
Ctx context(Set& S) {
  Ctx c;
  c.ev = verts_of(S.ser, S.dim);
  c.v2e.resize(st(S.ser.nverts()));
  c.v2v.resize(st(S.ser.nverts()));
  std::map<VL, int> at;
  for (st i = 0; i < c.ev.size(); ++i) {
    std::vector<LD> m(st(S.dim), 0);
    for (auto v : c.ev[i]) {
      c.v2e[st(v)].push_back(int(i));
      for (int k = 0; k < S.dim; ++k) m[st(k)] += LD(S.x[st(v * S.dim + k)]) / (S.dim + 1);
    }
    c.cen.push_back(m);
    at[sorted(c.ev[i])] = int(i);
  }
  for (auto& e : verts_of(S.ser, 1)) {
    c.v2v[st(e[0])].push_back(e[1]);
    c.v2v[st(e[1])].push_back(e[0]);
  }
  c.cd = hv(S.ser.get_array<I8>(VERT, "class_dim"));
  for (auto& v : verts_of(S.m, S.dim)) {
    VL g;
    for (auto y : v) g.push_back(S.gv[st(y)]);
    c.ge.push_back(at.at(sorted(g)));
  }
  return c;
}
VR local_elem(Ctx const& c, VR const& v, int nc) {
  VR r;
  for (int g : c.ge)
    for (int k = 0; k < nc; ++k) r.push_back(v[st(g * nc + k)]);
  return r;
}
bool solve(M A, std::vector<LD> b, std::vector<LD>& x) {
  int n = A.m;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c; r < n; ++r)
      if (std::fabs(A(r, c)) > std::fabs(A(p, c))) p = r;
    if (!(std::fabs(A(p, c)) > 1e-12L)) return false;
    for (int k = 0; k < n; ++k) std::swap(A(c, k), A(p, k));
    std::swap(b[st(c)], b[st(p)]);
    for (int r = 0; r < n; ++r)
      if (r != c) {
        LD f = A(r, c) / A(c, c);
        for (int k = 0; k < n; ++k) A(r, k) -= f * A(c, k);
        b[st(r)] -= f * b[st(c)];
      }
  }
  x.clear();
  for (int c = 0; c < n; ++c) x.push_back(b[st(c)] / A(c, c));
  return true;
}
// least-squares affine fits at interior vertices, averaged outwards layer by
// layer, and evaluated at every vertex; coefficients relative to the origin O
std::vector<LD> ref_fit(Set& S, Ctx const& c, VR const& ed, int nc, bool* far = nullptr) {
  int dim = S.dim, n = dim + 1, nv = S.ser.nverts();
  LD U = S.p.unit;
  std::vector<LD> O;
  for (int i = 0; i < dim; ++i) O.push_back(S.p.mod.xs[i].front());
  std::vector<std::vector<LD>> co(static_cast<st>(nv));
  for (int v = 0; v < nv; ++v) {
    if (c.cd[st(v)] != dim) continue;
    // in coordinates around the vertex
    M A(n, n);
    for (int e : c.v2e[st(v)]) {
      LD y[4] = {1, 0, 0, 0};
      for (int i = 0; i < dim; ++i) y[i + 1] = (c.cen[st(e)][st(i)] - S.x[st(v * dim + i)]) / U;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) A(i, j) += y[i] * y[j];
    }
    for (int k = 0; k < nc; ++k) {
      std::vector<LD> b(st(n), 0), x;
      for (int e : c.v2e[st(v)]) {
        LD y[4] = {1, 0, 0, 0};
        for (int i = 0; i < dim; ++i) y[i + 1] = (c.cen[st(e)][st(i)] - S.x[st(v * dim + i)]) / U;
        for (int i = 0; i < n; ++i) b[st(i)] += y[i] * ed[st(e * nc + k)];
      }
      if (!solve(A, b, x)) throw Discard();
      for (int i = 0; i < dim; ++i) x[0] -= x[st(i + 1)] * (S.x[st(v * dim + i)] - O[st(i)]) / U;
      co[st(v)].insert(co[st(v)].end(), x.begin(), x.end());
    }
  }
  bool more = true;
  int layers = 0;
  while (more) {
    more = false;
    auto old = co;
    bool progress = false;
    for (int v = 0; v < nv; ++v) {
      if (!old[st(v)].empty()) continue;
      int k = 0;
      std::vector<LD> sum(st(nc * n), 0);
      for (int w : c.v2v[st(v)])
        if (!old[st(w)].empty()) {
          ++k;
          for (st i = 0; i < sum.size(); ++i) sum[i] += old[st(w)][i];
        }
      if (!k) {
        more = true;
        continue;
      }
      progress = true;
      for (auto& x : sum) x /= k;
      co[st(v)] = sum;
    }
    ++layers;
    if (!progress && more) throw Discard();  // a component without interior vertices
  }
  if (far) *far = layers > 1;
  std::vector<LD> r;
  for (int v = 0; v < nv; ++v)
    for (int k = 0; k < nc; ++k) {
      LD y = co[st(v)][st(k * n)];
      for (int i = 0; i < dim; ++i) y += co[st(v)][st(k * n + i + 1)] * (S.x[st(v * dim + i)] - O[st(i)]) / U;
      r.push_back(y);
    }
  return r;
}
LD big(std::vector<LD> const& v) {
  LD m = 0;
  for (auto x : v) m = std::max(m, std::fabs(x));
  return m;
}
// extent of the mesh over its spacing, seen from the origin of coordinates: how
// much the absolute coordinates amplify rounding
LD amplification(Set const& S) {
  LD m = 1;
  for (auto x : S.x) m = std::max(m, std::fabs(LD(x)) / S.p.unit);
  return m * m;
}
void make_fit_set(Src& s, Env& e, Set& S, int dim) {
  ProbOpt o;
  o.empties = true;
  make_set(s, e, S, dim, [](Mesh&) {}, o);
  s.label("np" + std::to_string(e.np));
}
void t_fit(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  make_fit_set(s, e, S, dim);
  if (!has_interior(S)) throw Discard();
  auto c = context(S);
  int nc = s.pick({1, 2, 3, 6});
  int deg = s.weighted({3, 1, 3});  // affine, constant, arbitrary data
  VR ed(st(S.ser.nelems() * nc));
  std::vector<Poly> ps;
  for (int k = 0; k < nc; ++k) {
    Poly p = gen_poly(s, S, deg == 0 ? 1 : 0);
    ps.push_back(p);
    u64 salt = s.below(1000);
    for (int i = 0; i < S.ser.nelems(); ++i) {
      LD v = p.at(c.cen[st(i)].data());
      if (deg == 2) v += double(mix64(salt * 7919 + u64(i)) >> 11) / 9007199254740992.0;
      ed[st(i * nc + k)] = Real(v);
    }
  }
  s.desc(nc, " components, ", deg == 0 ? "affine" : deg == 1 ? "constant" : "arbitrary", " element data");
  bool far = false;
  auto want = ref_fit(S, c, ed, nc, &far);
  s.label(far ? "several layers" : "one layer");
  s.nontrivial(deg != 1);
  auto got = collect(e, S, hv(project_by_fit(&S.m, mk(local_elem(c, ed, nc)))), nc);
  LD scale = 0;
  for (auto x : ed) scale = std::max(scale, std::fabs(LD(x)));
  LD tol = 1e-10L * amplification(S) * std::max(big(want), scale);
  for (int v = 0; v < S.ser.nverts(); ++v)
    for (int k = 0; k < nc; ++k) {
      Real g = got[st(v * nc + k)];
      LD w = want[st(v * nc + k)];
      if (!(std::fabs(g - w) <= tol)) PFAIL("projection by fits: component " << k << " at vertex " << v << " (class dimension " << int(c.cd[st(v)]) << ") is " << g << ", expected " << double(w));
      LD ex = ps[st(k)].at(&S.x[st(v * dim)]);
      if (deg != 2 && !(std::fabs(g - ex) <= tol)) PFAIL("projection by fits of affine data: component " << k << " at vertex " << v << " is " << g << ", the data there " << double(ex));
    }
}
void t_average(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  make_fit_set(s, e, S, dim);
  auto c = context(S);
  int nc = s.pick({1, 2, 4});
  bool cons = s.chance(25);
  VR ed(st(S.ser.nelems() * nc));
  u64 salt = s.below(1000);
  for (int i = 0; i < S.ser.nelems(); ++i)
    for (int k = 0; k < nc; ++k) ed[st(i * nc + k)] = double(mix64(salt * 7919 + u64(cons ? 0 : i) * 8 + u64(k)) >> 11) / 9007199254740992.0 - 0.5;
  s.nontrivial(!cons);
  s.desc(nc, cons ? " constant" : " arbitrary", " components");
  auto got = collect(e, S, hv(project_by_average(&S.m, mk(local_elem(c, ed, nc)))), nc);
  for (int v = 0; v < S.ser.nverts(); ++v)
    for (int k = 0; k < nc; ++k) {
      LD w = 0;
      for (int i : c.v2e[st(v)]) w += ed[st(i * nc + k)];
      w /= c.v2e[st(v)].size();
      Real g = got[st(v * nc + k)];
      if (!(std::fabs(g - w) <= 1e-13L)) PFAIL("projection by averages: component " << k << " at vertex " << v << " is " << g << ", the mean around it " << double(w));
    }
  // and back: the mean over the vertices of an element
  auto back = hv(average_field(&S.m, dim, LOs(S.m.nelems(), 0, 1), nc, mk(local(S, got, nc))));
  for (st i = 0; i < c.ge.size(); ++i)
    for (int k = 0; k < nc; ++k) {
      LD w = 0;
      for (auto v : c.ev[st(c.ge[i])]) w += LD(got[st(v * nc + k)]) / (dim + 1);
      if (!(std::fabs(back[i * st(nc) + st(k)] - w) <= 1e-13L)) PFAIL("mean over element " << i << " is " << back[i * st(nc) + st(k)] << ", expected " << double(w));
    }
}
// gradients element by element, and recovered at vertices
void t_gradient(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  make_fit_set(s, e, S, dim);
  auto c = context(S);
  int deg = s.weighted({3, 2, 2}) ? s.range(1, 2) + 1 : 1;  // 1 affine, 2 quadratic, 3 arbitrary
  Poly p = gen_poly(s, S, deg == 2 ? 2 : 1);
  VR vd;
  u64 salt = s.below(1000);
  for (int v = 0; v < S.ser.nverts(); ++v) vd.push_back(Real(p.at(&S.x[st(v * dim)]) + (deg == 3 ? double(mix64(salt * 31 + u64(v)) >> 11) / 9007199254740992.0 : 0.)));
  s.desc(deg == 1 ? "affine" : deg == 2 ? "quadratic" : "arbitrary", " vertex data");
  s.nontrivial();
  // reference gradient of each element's affine interpolant
  VR eg;
  LD scale = 0;
  for (auto& vs : c.ev) {
    M A(dim, dim);
    std::vector<LD> b, x;
    for (int i = 0; i < dim; ++i) {
      for (int j = 0; j < dim; ++j) A(i, j) = (LD(S.x[st(vs[st(i + 1)] * dim + j)]) - S.x[st(vs[0] * dim + j)]) / S.p.unit;
      b.push_back(LD(vd[st(vs[st(i + 1)])]) - vd[st(vs[0])]);
    }
    if (!solve(A, b, x)) throw Discard();
    for (auto y : x) {
      eg.push_back(Real(y / S.p.unit));
      scale = std::max(scale, std::fabs(y / S.p.unit));
    }
  }
  LD vs = 0;
  for (auto y : vd) vs = std::max(vs, std::fabs(LD(y)));
  LD tol = 1e-11L * amplification(S) * std::max(scale, vs / S.p.unit);
  auto got = hv(derive_element_gradients(&S.m, mk(local(S, vd, 1))));
  for (st i = 0; i < c.ge.size(); ++i)
    for (int k = 0; k < dim; ++k) {
      Real g = got[i * st(dim) + st(k)], w = eg[st(c.ge[i] * dim + k)];
      if (!(std::fabs(g - w) <= tol)) PFAIL("gradient component " << k << " of element " << i << " is " << g << ", expected " << w);
    }
  if (!has_interior(S)) return;
  auto want = ref_fit(S, c, eg, dim);
  auto rec = collect(e, S, hv(recover_gradients(&S.m, mk(local(S, vd, 1)))), dim);
  for (int v = 0; v < S.ser.nverts(); ++v)
    for (int k = 0; k < dim; ++k) {
      Real g = rec[st(v * dim + k)];
      LD w = want[st(v * dim + k)];
      if (!(std::fabs(g - w) <= 10 * tol + 1e-10L * amplification(S) * big(want))) PFAIL("recovered gradient component " << k << " at vertex " << v << " is " << g << ", expected " << double(w));
      if (deg == 1 && !(std::fabs(g - p.d(&S.x[st(v * dim)], k)) <= 10 * tol)) PFAIL("recovered gradient component " << k << " of an affine field at vertex " << v << " is " << g << ", its slope " << double(p.d(&S.x[st(v * dim)], k)));
    }
}
void t_hessian(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  make_fit_set(s, e, S, dim);
  auto c = context(S);
  int nc = ncs(dim);
  Poly p = gen_poly(s, S, 2);
  // the gradient of a quadratic, given at the vertices: its derivative is exact
  VR gd;
  for (int v = 0; v < S.ser.nverts(); ++v)
    for (int k = 0; k < dim; ++k) gd.push_back(Real(p.d(&S.x[st(v * dim)], k)));
  s.nontrivial();
  LD scale = 0;
  for (auto y : gd) scale = std::max(scale, std::fabs(LD(y)));
  LD tol = 1e-11L * amplification(S) * (scale / S.p.unit + 1e-3L / S.p.unit / S.p.unit);
  VR want;
  {
    for (int d = 0; d < dim; ++d) want.push_back(Real(p.dd(d, d)));
    if (dim == 2) want.push_back(Real(p.dd(0, 1)));
    if (dim == 3) {
      want.push_back(Real(p.dd(0, 1)));
      want.push_back(Real(p.dd(1, 2)));
      want.push_back(Real(p.dd(0, 2)));
    }
  }
  auto eh = hv(derive_element_hessians(&S.m, mk(local(S, gd, dim))));
  for (st i = 0; i < eh.size(); ++i)
    if (!(std::fabs(eh[i] - want[i % st(nc)]) <= tol)) PFAIL("second derivative " << i % st(nc) << " of element " << i / st(nc) << " is " << eh[i] << ", expected " << want[i % st(nc)]);
  if (!has_interior(S)) return;
  auto vh = collect(e, S, hv(recover_hessians_from_gradients(&S.m, mk(local(S, gd, dim)))), nc);
  for (st i = 0; i < vh.size(); ++i)
    if (!(std::fabs(vh[i] - want[i % st(nc)]) <= 10 * tol)) PFAIL("recovered second derivative " << i % st(nc) << " at vertex " << i / st(nc) << " is " << vh[i] << ", expected " << want[i % st(nc)]);
  // from the values: where the stars are point symmetric two layers deep, exact
  VR vd;
  for (int v = 0; v < S.ser.nverts(); ++v) vd.push_back(Real(p.at(&S.x[st(v * dim)])));
  auto rh = collect(e, S, hv(recover_hessians(&S.m, mk(local(S, vd, 1)))), nc);
  std::vector<bool> good(st(S.ser.nverts()), false);
  for (int v = 0; v < S.ser.nverts(); ++v) {
    if (c.cd[st(v)] != dim) continue;
    // the set of offsets of element vertices must be symmetric
    std::set<std::vector<std::vector<long>>> els;
    auto off = [&](int w) {
      std::vector<long> o;
      for (int i = 0; i < dim; ++i) o.push_back(std::lround(double((LD(S.x[st(w * dim + i)]) - S.x[st(v * dim + i)]) / S.p.unit * 1e7L)));
      return o;
    };
    for (int i : c.v2e[st(v)]) {
      std::vector<std::vector<long>> k;
      for (auto w : c.ev[st(i)]) k.push_back(off(w));
      std::sort(k.begin(), k.end());
      els.insert(k);
    }
    bool sym = true;
    for (auto k : els) {
      for (auto& o : k)
        for (auto& y : o) y = -y;
      std::sort(k.begin(), k.end());
      sym = sym && els.count(k);
    }
    good[st(v)] = sym;
  }
  int deep = 0;
  for (int v = 0; v < S.ser.nverts(); ++v) {
    bool g = good[st(v)];
    for (int w : c.v2v[st(v)]) g = g && good[st(w)];
    if (!g) continue;
    ++deep;
    for (int k = 0; k < nc; ++k)
      if (!(std::fabs(rh[st(v * nc + k)] - want[st(k)]) <= 1e-6L * (std::fabs(want[st(k)]) + scale / S.p.unit + 1e-3L / S.p.unit / S.p.unit))) PFAIL("recovered second derivative " << k << " at vertex " << v << ", in a uniform region, is " << rh[st(v * nc + k)] << ", expected " << want[st(k)]);
  }
  if (deep) s.label("uniform region");
  // anywhere: what the two steps give one after the other, and linear
  auto r2 = collect(e, S, hv(recover_hessians_from_gradients(&S.m, recover_gradients(&S.m, mk(local(S, vd, 1))))), nc);
  for (st i = 0; i < r2.size(); ++i)
    if (!(r2[i] == rh[i])) PFAIL("recovering in two steps gives " << r2[i] << ", in one " << rh[i]);
  Poly q = gen_poly(s, S, 2);
  Real al = s.nice(2), be = s.nice(2);
  VR wd, cd;
  for (int v = 0; v < S.ser.nverts(); ++v) {
    wd.push_back(Real(q.at(&S.x[st(v * dim)])));
    cd.push_back(al * vd[st(v)] + be * wd.back());
  }
  auto rw = collect(e, S, hv(recover_hessians(&S.m, mk(local(S, wd, 1)))), nc);
  auto rc = collect(e, S, hv(recover_hessians(&S.m, mk(local(S, cd, 1)))), nc);
  LD m = 0;
  for (st i = 0; i < rc.size(); ++i) m = std::max(m, std::max(std::fabs(LD(rc[i])), std::max(std::fabs(LD(rw[i])), std::fabs(LD(rh[i])))));
  LD vm = 0;
  for (st i = 0; i < cd.size(); ++i) vm = std::max(vm, std::fabs(LD(wd[i])) + std::fabs(LD(vd[i])));
  for (st i = 0; i < rc.size(); ++i)
    if (!(std::fabs(rc[i] - (al * rh[i] + be * rw[i])) <= 1e-8L * amplification(S) * (m + vm / S.p.unit / S.p.unit))) PFAIL("recovery is not linear: " << rc[i] << " against " << al * rh[i] + be * rw[i]);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"fit", t_fit, 400, 6000, {1, 2, 3, 4}, true, "the data are not constant"});
  t.push_back({"average", t_average, 300, 5000, {1, 2, 3, 4}, true, "the data are not constant"});
  t.push_back({"gradient", t_gradient, 400, 6000, {1, 2, 3, 4}, true, "every case"});
  t.push_back({"hessian", t_hessian, 400, 6000, {1, 2, 3, 4}, true, "every case"});
  return run(argc, argv, t);
}
