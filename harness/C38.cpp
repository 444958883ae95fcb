// C38: the graph Laplacian and the smoothing of metrics
#include <Omega_h_class.hpp>
#include <Omega_h_laplace.hpp>
#include <Omega_h_metric.hpp>
#include <iostream>
#include "dset.hpp"
#include "refmat.hpp"
using namespace pbt;
struct Quiet {
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
typedef long double D;
// Gaussian elimination with pivoting, several right-hand sides
static bool solve(std::vector<std::vector<D>>& A, std::vector<std::vector<D>>& B) {
  st n = A.size();
  for (st k = 0; k < n; ++k) {
    st p = k;
    for (st i = k; i < n; ++i)
      if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i;
    if (std::fabs(A[p][k]) < 1e-12L) return false;
    std::swap(A[p], A[k]);
    std::swap(B[p], B[k]);
    for (st i = 0; i < n; ++i) {
      if (i == k) continue;
      D f = A[i][k] / A[k][k];
      if (f == 0) continue;
      for (st j = k; j < n; ++j) A[i][j] -= f * A[k][j];
      for (st j = 0; j < B[i].size(); ++j) B[i][j] -= f * B[k][j];
    }
  }
  for (st k = 0; k < n; ++k)
    for (auto& b : B[k]) b /= A[k][k];
  return true;
}
void t_laplace(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  ProbOpt po;
  po.empties = true;
  make_set(s, e, S, dim, [](Mesh&) {}, po);
  int nv = S.ser.nverts();
  auto cd = hv(S.ser.get_array<I8>(VERT, "class_dim"));
  int w = s.range(1, 3);
  VR f;
  int kind = s.weighted({3, 2, 1, 1});
  Real sc = s.pick({1., 1., 1e5, 1e-6});
  VR a;
  for (int i = 0; i < w * (dim + 1); ++i) a.push_back(s.nice(4.));
  for (int v = 0; v < nv; ++v)
    for (int c = 0; c < w; ++c) {
      Real y = 0;
      if (kind == 0) y = s.nice(10.);
      else if (kind == 1) {
        y = a[st(c * (dim + 1))];
        for (int k = 0; k < dim; ++k) y += a[st(c * (dim + 1) + 1 + k)] * S.x[st(v * dim + k)] / S.p.unit;
        if (cd[st(v)] == dim) y = 0;
      } else if (kind == 2) y = 3.5;
      else y = cd[st(v)] == dim ? 100. : 1.;
      f.push_back(y * sc);
    }
  Real tol = s.pick({1e-8, 1e-4, 1e-11, 1e-2});
  Real floor = s.pick({1e-10, 1e-6, 1e-3}) * sc;
  // which vertices must be kept
  std::vector<int> id(static_cast<st>(nv), -1);
  int ni = 0;
  for (int v = 0; v < nv; ++v)
    if (cd[st(v)] == dim) id[st(v)] = ni++;
  if (!has_interior(S) && ni > 0) {
    // parts that are all boundary are fine too
  }
  std::vector<std::set<int>> nb(static_cast<st>(nv));
  for (auto& v : verts_of(S.ser, 1)) nb[st(v[0])].insert(v[1]), nb[st(v[1])].insert(v[0]);
  std::vector<std::vector<D>> A(static_cast<st>(ni), std::vector<D>(static_cast<st>(ni), 0)), B(static_cast<st>(ni), std::vector<D>(static_cast<st>(w) + 1, 0));
  for (int v = 0; v < nv; ++v) {
    if (id[st(v)] < 0) continue;
    st i = st(id[st(v)]);
    A[i][i] = 1;
    B[i][st(w)] = 1;
    for (int u : nb[st(v)]) {
      D k = D(1) / nb[st(v)].size();
      if (id[st(u)] >= 0) A[i][st(id[st(u)])] -= k;
      else
        for (int c = 0; c < w; ++c) B[i][st(c)] += k * f[st(u * w + c)];
    }
  }
  if (!solve(A, B)) throw Discard();  // a part without boundary
  Real big = 0;
  for (auto y : f) big = std::max(big, std::fabs(y));
  s.desc(dim, "D ", S.p.ne(), " elements, ", ni, " of ", nv, " vertices free, tolerance ", tol, " floor ", floor);
  s.label(ni ? "free vertices" : "none free");
  s.nontrivial(ni > 0 && kind != 2);
  VR o;
  {
    Quiet q;
    o = hv(solve_laplacian(&S.m, mk(local(S, f, w)), w, tol, floor));
  }
  PCHECK(int(o.size()) == S.m.nverts() * w, "size of the result");
  auto g = collect(e, S, o, w);
  for (int c = 0; c < w; ++c) {
    Real lo = 1e300, hi = -1e300;
    for (int v = 0; v < nv; ++v) lo = std::min(lo, f[st(v * w + c)]), hi = std::max(hi, f[st(v * w + c)]);
    for (int v = 0; v < nv; ++v) {
      st k = st(v * w + c);
      if (id[st(v)] < 0) {
        if (g[k] != f[k]) PFAIL("fixed vertex " << v << " changed from " << f[k] << " to " << g[k]);
        continue;
      }
      if (g[k] < lo - 1e-12 * big || g[k] > hi + 1e-12 * big) PFAIL("value " << g[k] << " of vertex " << v << " leaves the range " << lo << " to " << hi);
      // |x - x*| <= |inverse| * residual, the residual being within the tolerance
      D want = B[st(id[st(v)])][st(c)], gain = 0;
      for (auto& b : B) gain = std::max(gain, b[st(w)]);
      D res = std::max<D>(tol * big, 2 * floor) + 1e-14L * big;
      if (!(std::fabs(g[k] - want) <= gain * res)) PFAIL("vertex " << v << " has " << g[k] << ", the harmonic value is " << double(want) << " (allowed difference " << double(gain * res) << ")");
    }
  }
}
static rm::M symm_of(VR const& a, int i, int n) {
  rm::M m(n, n);
  int nc = n * (n + 1) / 2;
  Real const* p = &a[st(i * nc)];
  for (int k = 0; k < n; ++k) m(k, k) = p[k];
  if (n == 2) m(0, 1) = m(1, 0) = p[2];
  if (n == 3) {
    m(0, 1) = m(1, 0) = p[3];
    m(1, 2) = m(2, 1) = p[4];
    m(0, 2) = m(2, 0) = p[5];
  }
  return m;
}
void t_smooth(Src& s, Env& e) {
  int dim = s.range(1, 3);
  Set S(e);
  make_set(s, e, S, dim, [](Mesh&) {}, ProbOpt());
  int nv = S.ser.nverts();
  int n = s.chance(40) ? 1 : dim, nc = n * (n + 1) / 2;
  int kind = s.weighted({4, 1, 1});
  bool degen = s.chance(50);
  bool zeros = degen && n == 1 && s.chance(40);
  VR f;
  Real h0 = S.p.unit * s.pick({1., 0.1});
  for (int v = 0; v < nv; ++v) {
    if (v && kind == 1) {
      for (int c = 0; c < nc; ++c) f.push_back(f[st(c)]);
      continue;
    }
    std::vector<D> l;
    for (int k = 0; k < n; ++k) {
      D h = h0 * s.pick({1., 0.5, 0.1, 0.02, 3.});
      l.push_back(1 / (h * h));
    }
    rm::M Q = rm::gen_rot(s, n);
    rm::M T(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        D y = 0;
        for (int k = 0; k < n; ++k) y += Q(i, k) * l[st(k)] * Q(j, k);
        T(i, j) = y;
      }
    for (int k = 0; k < n; ++k) f.push_back(Real(T(k, k)));
    if (n == 2) f.push_back(Real(T(0, 1)));
    if (n == 3) f.insert(f.end(), {Real(T(0, 1)), Real(T(1, 2)), Real(T(0, 2))});
    if (zeros && s.chance(30)) f.back() = 0;
  }
  s.desc(dim, "D ", S.p.ne(), " elements, metrics of ", n, " dimensions", zeros ? ", some missing" : "");
  s.label(n == 1 ? zeros ? "isotropic with gaps" : "isotropic" : "anisotropic");
  s.nontrivial(kind != 1 && S.p.ne() > 1);
  auto g = collect(e, S, hv(smooth_metric_once(&S.m, mk(local(S, f, nc)), degen)), nc);
  D lo = 1e300L, hi = 0;
  for (int v = 0; v < nv; ++v) {
    auto l = rm::eigs(symm_of(f, v, n));
    lo = std::min(lo, l.front());
    hi = std::max(hi, l.back());
  }
  auto el = verts_of(S.ser, dim);
  std::vector<D> sum(static_cast<st>(nv), 0);
  std::vector<int> cnt(static_cast<st>(nv), 0);
  for (auto& ev : el) {
    D y = 0;
    int k = 0;
    for (auto v : ev)
      if (n == 1 && f[st(v)] > 0) y += std::log(D(f[st(v)])), ++k;
    if (!k) continue;
    for (auto v : ev) sum[st(v)] += y / k, ++cnt[st(v)];
  }
  D tol = n == 1 ? 1e-9L : 0.05L;
  for (int v = 0; v < nv; ++v) {
    auto M = symm_of(g, v, n);
    auto l = rm::eigs(M);
    if (n == 1) {
      D want = cnt[st(v)] ? std::exp(sum[st(v)] / cnt[st(v)]) : 0;
      if (!(std::fabs(g[st(v)] - want) <= 1e-9L * want)) PFAIL("smoothed metric of vertex " << v << " is " << g[st(v)] << ", should be " << double(want));
      continue;
    }
    if (!(l.front() >= lo * (1 - tol))) PFAIL("smoothed metric of vertex " << v << " has eigenvalue " << double(l.front()) << " below all of the field (" << double(lo) << ")");
    if (!(l.back() <= hi * (1 + tol))) PFAIL("smoothed metric of vertex " << v << " has eigenvalue " << double(l.back()) << " above all of the field (" << double(hi) << ")");
    if (kind == 1) {
      auto W = symm_of(f, v, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (!(std::fabs(M(i, j) - W(i, j)) <= tol * hi)) PFAIL("smoothing changed a constant field: " << rm::str(W) << " became " << rm::str(M));
    }
  }
  // the same on one process
  auto gs = hv(smooth_metric_once(&S.ser, mk(f), degen));
  for (st i = 0; i < g.size(); ++i)
    if (!(std::fabs(g[i] - gs[i]) <= 1e-6 * double(hi))) PFAIL("entry " << i << " is " << g[i] << " in parallel, " << gs[i] << " on one process");
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"laplace", t_laplace, 400, 6000, {1, 2, 3}, true, "free vertices and a field that is not constant"});
  t.push_back({"smooth", t_smooth, 300, 5000, {1, 2, 3}, true, "the field is not constant"});
  return run(argc, argv, t);
}
