// plain long double reference matrices and generators of small matrices
#ifndef REFMAT_HPP
#define REFMAT_HPP
#include <Omega_h_eigen.hpp>
#include <algorithm>
#include "arr.hpp"
namespace pbt {
namespace rm {
using namespace Omega_h;
typedef std::size_t st;
typedef long double LD;

// ---- plain reference matrices: a[i][j] is row i, column j
struct M {
  int m = 0, n = 0;
  std::vector<LD> a;
  M() {}
  M(int m_, int n_) : m(m_), n(n_), a(st(m_ * n_), 0) {}
  LD& operator()(int i, int j) { return a[st(i * n + j)]; }
  LD operator()(int i, int j) const { return a[st(i * n + j)]; }
};
inline M mul(M const& x, M const& y) {
  M r(x.m, y.n);
  for (int i = 0; i < x.m; ++i)
    for (int j = 0; j < y.n; ++j)
      for (int k = 0; k < x.n; ++k) r(i, j) += x(i, k) * y(k, j);
  return r;
}
inline M tr(M const& x) {
  M r(x.n, x.m);
  for (int i = 0; i < x.m; ++i)
    for (int j = 0; j < x.n; ++j) r(j, i) = x(i, j);
  return r;
}
inline M sub(M x, M const& y) {
  for (st i = 0; i < x.a.size(); ++i) x.a[i] -= y.a[i];
  return x;
}
inline M eye(int n) {
  M r(n, n);
  for (int i = 0; i < n; ++i) r(i, i) = 1;
  return r;
}
inline LD nrm(M const& x) {
  LD s = 0;
  for (auto v : x.a) s = std::max(s, std::fabs(v));
  return s;
}
inline bool finite(M const& x) {
  for (auto v : x.a)
    if (!std::isfinite(v)) return false;
  return true;
}
template <Int m, Int n>
inline M ref(Matrix<m, n> const& x) {
  M r(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) r(i, j) = x(i, j);
  return r;
}
template <Int n>
inline M refv(Vector<n> const& x) {
  M r(n, 1);
  for (int i = 0; i < n; ++i) r(i, 0) = x[i];
  return r;
}
template <Int m, Int n>
inline Matrix<m, n> lib(M const& x) {
  Matrix<m, n> r;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) r(i, j) = Real(x(i, j));
  return r;
}
inline std::string str(M const& x) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < x.m; ++i) {
    if (i) o << "; ";
    for (int j = 0; j < x.n; ++j) o << (j ? " " : "") << double(x(i, j));
  }
  o << "]";
  return o.str();
}
inline LD det(M const& x, LD* mag = nullptr) {
  int n = x.m;
  std::vector<int> p;
  for (int i = 0; i < n; ++i) p.push_back(i);
  LD s = 0, t = 0;
  do {
    int inv = 0;
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j) inv += p[st(i)] > p[st(j)];
    LD v = 1;
    for (int i = 0; i < n; ++i) v *= x(i, p[st(i)]);
    s += inv % 2 ? -v : v;
    t += std::fabs(v);
  } while (std::next_permutation(p.begin(), p.end()));
  if (mag) *mag = t;
  return s;
}
// eigenvalues of a symmetric matrix, ascending; columns of *vecs are the
// eigenvectors
inline std::vector<LD> eigs(M a, M* vecs = nullptr) {
  int n = a.m;
  M v = eye(n);
  for (int sweep = 0; sweep < 60; ++sweep) {
    LD off = 0;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        off = std::max(off, std::fabs(a(p, q)));
        if (a(p, q) == 0) continue;
        LD th = (a(q, q) - a(p, p)) / (2 * a(p, q));
        LD t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
        LD c = 1 / std::sqrt(t * t + 1), s = t * c;
        M g = eye(n);
        g(p, p) = g(q, q) = c;
        g(p, q) = s;
        g(q, p) = -s;
        a = mul(mul(tr(g), a), g);
        v = mul(v, g);
      }
    if (off == 0) break;
  }
  std::vector<LD> e;
  for (int i = 0; i < n; ++i) e.push_back(a(i, i));
  if (vecs) {
    *vecs = M(n, n);
    std::vector<int> p;
    for (int i = 0; i < n; ++i) p.push_back(i);
    std::sort(p.begin(), p.end(), [&](int x, int y) { return e[st(x)] < e[st(y)]; });
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) (*vecs)(i, j) = v(i, p[st(j)]);
  }
  std::sort(e.begin(), e.end());
  return e;
}
#define CLOSE(got, want, tol, what)                                                              \
  do {                                                                                           \
    M const g_ = (got), w_ = (want);                                                             \
    if (!finite(g_) || !(nrm(sub(g_, w_)) <= (tol)))                                             \
      PFAIL(what << ": " << str(g_) << ", expected " << str(w_) << ", tolerance " << double(tol)); \
  } while (0)

// ---- generators
inline double gen_scale(Src& s) { return s.weighted({3, 2}) ? std::pow(10., s.range(0, 16) - 8) : 1.; }
inline M gen_any(Src& s, int m, int n) {
  M r(m, n);
  int mode = s.weighted({3, 3, 2});
  for (auto& v : r.a)
    switch (mode) {
      case 0: v = s.range(0, 6) - 3; break;
      case 1: v = s.uniform(-1, 1); break;
      default: v = s.nice() * std::pow(10., s.range(0, 8) - 4);
    }
  return r;
}
// rotations (computed in long double, so orthogonal to rounding)
inline M gen_rot(Src& s, int n) {
  M r = eye(n);
  if (n == 1) return r;
  int mode = s.weighted({2, 3, 2, 2, 2});
  LD ang = 0;
  LD pi = std::acos(LD(-1));
  switch (mode) {
    case 0: ang = 0; break;
    case 1: ang = s.uniform(-3.14159, 3.14159); break;
    case 2: ang = (s.range(0, 8) - 4) * pi / 4; break;
    case 3: ang = s.uniform(-1, 1) * std::pow(10., -s.range(0, 9)); break;
    default: ang = (pi - LD(s.unit()) * std::pow(10., -s.range(0, 9))) * (s.below(2) ? 1 : -1);
  }
  if (n == 2) {
    r(0, 0) = r(1, 1) = std::cos(ang);
    r(1, 0) = std::sin(ang);
    r(0, 1) = -r(1, 0);
  } else {
    LD ax[3] = {0, 0, 0};
    if (s.weighted({2, 3}) == 0) ax[s.below(3)] = 1;
    else
      for (auto& x : ax) x = s.nice() * (s.chance(15) ? 1e-6 : 1.);
    LD l = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
    if (!(l > 1e-3)) ax[0] = l = 1, ax[1] = ax[2] = 0;
    for (auto& x : ax) x /= l;
    LD c = std::cos(ang), d = std::sin(ang);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) r(i, j) = (i == j ? c : 0) + (1 - c) * ax[i] * ax[j];
    r(0, 1) -= d * ax[2]; r(1, 0) += d * ax[2];
    r(0, 2) += d * ax[1]; r(2, 0) -= d * ax[1];
    r(1, 2) -= d * ax[0]; r(2, 1) += d * ax[0];
  }
  return r;
}
inline std::vector<LD> gen_eigs(Src& s, int n, bool pos) {
  std::vector<LD> e;
  int mode = s.weighted({3, 2, 2, 2, 2});
  s.label("eig" + std::to_string(mode));
  LD base = s.uniform(0.1, 1.);
  for (int i = 0; i < n; ++i) {
    LD v = 0;
    switch (mode) {
      case 0: v = s.uniform(-1, 1); break;                       // anything
      case 1: v = i && s.chance(60) ? e[st(i - 1)] : s.nice(); break;  // repeated
      case 2: v = s.uniform(0.1, 1) * std::pow(10., -s.range(0, 10)); break;  // widely separated
      case 3: v = base * (1 + s.uniform(-1, 1) * std::pow(10., -s.range(0, 14))); break;  // nearly repeated
      default: v = s.chance(50) ? 0 : s.nice();
    }
    if (mode == 2 && s.below(3) == 0) v = -v;
    if (pos) v = std::max(std::fabs(v), LD(1e-12));
    e.push_back(v);
  }
  auto p = s.permutation(n);
  std::vector<LD> o;
  for (int i : p) o.push_back(e[st(i)]);
  return o;
}
inline M gen_symm(Src& s, int n, bool pos = false) {
  M r(n, n);
  if (!pos && s.weighted({2, 5}) == 0) {
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) r(i, j) = r(j, i) = s.range(0, 6) - 3;
  } else {
    auto q = gen_rot(s, n);
    if (n == 3 && s.below(2)) q = mul(q, gen_rot(s, n));
    auto e = gen_eigs(s, n, pos);
    M d(n, n);
    for (int i = 0; i < n; ++i) d(i, i) = e[st(i)];
    r = mul(mul(q, d), tr(q));
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j) r(i, j) = r(j, i);
  }
  LD sc = gen_scale(s);
  for (auto& v : r.a) v = Real(v * sc);  // representable
  return r;
}
inline M diag(std::vector<LD> const& e) {
  M d(int(e.size()), int(e.size()));
  for (st i = 0; i < e.size(); ++i) d(int(i), int(i)) = e[i];
  return d;
}


}  // namespace rm
}  // namespace pbt
#endif
