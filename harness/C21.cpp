// C21: small dense linear algebra satisfies its defining equations
#include <Omega_h_affine.hpp>
#include <Omega_h_lie.hpp>
#include <Omega_h_qr.hpp>
#include <algorithm>
#include "refmat.hpp"
using namespace pbt;
using namespace pbt::rm;

// ---- inverses, determinants, products, frames
template <Int n>
static void square_case(Src& s) {
  M a = gen_any(s, n, n);
  LD sc = gen_scale(s);
  for (auto& v : a.a) v = Real(v * sc);
  auto x = lib<n, n>(a);
  s.desc(n, "x", n, " ", str(a));
  LD mag;
  LD d = det(a, &mag);
  CLOSE(refv(vector_1(determinant(x))), refv(vector_1(Real(d))), 1e-15L * 8 * mag + 1e-300L, "determinant");
  M sum(1, 1);
  sum(0, 0) = trace(x);
  LD t = 0, tm = 0;
  for (int i = 0; i < n; ++i) t += a(i, i), tm += std::fabs(a(i, i));
  PCHECK(std::fabs(sum(0, 0) - t) <= 1e-15L * tm, "trace " << trace(x));
  PCHECK(max_norm(x) == Real(nrm(a)), "max_norm " << max_norm(x));
  LD fro = 0;
  for (auto v : a.a) fro += v * v;
  PCHECK(std::fabs(norm(x) - std::sqrt(fro)) <= 1e-14L * std::sqrt(fro), "norm " << norm(x));
  auto dv = deviator(x);
  CLOSE(refv(vector_1(trace(dv))), refv(vector_1(0)), 1e-14L * nrm(a), "trace of the deviator");
  if (std::fabs(d) > 1e-7L * mag) {
    s.nontrivial(n > 1);
    auto inv = ref(invert(x));
    LD amp = mag / std::fabs(d);
    LD tol = 1e-14L * amp * std::max(LD(1), nrm(a) * nrm(inv));
    CLOSE(mul(a, inv), eye(n), tol, "A * invert(A)");
    CLOSE(mul(inv, a), eye(n), tol, "invert(A) * A");
    CLOSE(ref(pseudo_invert(x)), inv, 1e-15L * nrm(inv), "pseudo_invert of a square matrix");
    Affine<n> f;
    f.r = x;
    M tv = gen_any(s, n, 1), pv = gen_any(s, n, 1);
    for (auto& v : tv.a) v = Real(v * sc);
    for (int i = 0; i < n; ++i) f.t[i] = Real(tv(i, 0));
    Vector<n> p;
    for (int i = 0; i < n; ++i) p[i] = Real(pv(i, 0));
    auto fi = invert(f);
    CLOSE(refv(fi * (f * p)), pv, 4 * tol * (nrm(pv) + nrm(inv) * nrm(tv)) + 1e-13L, "inverse affine map");
  }
  // products
  M b = gen_any(s, n, n);
  auto y = lib<n, n>(b);
  CLOSE(ref(x * y), mul(a, ref(y)), 1e-15L * 4 * nrm(a) * std::max(nrm(b), LD(1e-300)) * n, "A * B");
  CLOSE(ref(transpose(x)), tr(a), 0, "transpose");
  CLOSE(ref(x + y), ref(y + x), 0, "A + B");
  CLOSE(ref(-x), sub(M(n, n), a), 0, "-A");
  CLOSE(ref((x * 4.0) / 4.0), a, 0, "scaling by a power of two");
}
template <Int n>
static void frame_case(Src& s) {
  Vector<n> v;
  LD l = 0;
  if (s.weighted({3, 2}) == 0) {
    for (int i = 0; i < n; ++i) v[i] = 0;
    v[s.range(0, n - 1)] = s.below(2) ? -1 : 1;
  } else {
    for (int i = 0; i < n; ++i) v[i] = s.nice() * (s.chance(20) ? 1e-9 : 1.0);
  }
  for (int i = 0; i < n; ++i) l += LD(v[i]) * v[i];
  if (!(l > 1e-6)) throw Discard();
  s.desc("vector ", str(refv(v)));
  PCHECK(std::fabs(norm(v) - std::sqrt(l)) <= 1e-15L * 4 * std::sqrt(l), "norm " << norm(v));
  // sign disambiguation: same result from both directions
  auto p1 = positivize(v), p2 = positivize(-v);
  bool is_v = true, is_m = true;
  for (int i = 0; i < n; ++i) is_v = is_v && p1[i] == v[i], is_m = is_m && p1[i] == -v[i];
  PCHECK(is_v || is_m, "positivize gives " << str(refv(p1)));
  for (int i = 0; i < n; ++i)
    if (p1[i] != p2[i]) PFAIL("positivize gives " << str(refv(p1)) << " but " << str(refv(p2)) << " from the negative");
  auto pi = pseudo_invert(v);
  PCHECK(std::fabs(pi * v - 1) < 1e-14, "pseudo-inverse of a vector, product " << pi * v);
  v = normalize(v);
  auto b = ref(form_ortho_basis(v));
  for (int i = 0; i < n; ++i) PCHECK(b(i, 0) == v[i], "first basis vector");
  CLOSE(mul(tr(b), b), eye(n), 1e-14L, "orthonormal basis of " << str(refv(v)));
  PCHECK(n == 1 || std::fabs(det(b) - 1) < 1e-13L, "orientation of the basis, determinant " << double(det(b)));
  // projections
  Vector<n> w;
  for (int i = 0; i < n; ++i) w[i] = s.nice();
  auto pr = project(w, v), rj = reject(w, v);
  PCHECK(std::fabs(rj * v) < 1e-14, "rejection is not orthogonal");
  CLOSE(refv(pr + rj), refv(w), 1e-14L, "projection plus rejection");
  auto op = ref(outer_product(w, v));
  CLOSE(op, mul(refv(w), tr(refv(v))), 1e-15L, "outer product");
  s.nontrivial(n > 1);
}
static void cross_case(Src& s) {
  Vector<3> a, b;
  for (int i = 0; i < 3; ++i) a[i] = s.nice(), b[i] = s.nice();
  s.desc("cross ", str(refv(a)), " ", str(refv(b)));
  auto c = cross(a, b);
  PCHECK(std::fabs(c * a) < 1e-15 * 8 && std::fabs(c * b) < 1e-15 * 8, "cross product is not orthogonal");
  M m(3, 3);
  for (int i = 0; i < 3; ++i) m(0, i) = a[i], m(1, i) = b[i], m(2, i) = c[i];
  PCHECK(std::fabs(det(m) - LD(norm_squared(c))) < 1e-14L, "cross product orientation");
  CLOSE(refv(cross(a) * b), refv(c), 1e-15L * 4, "cross matrix times a vector");
  CLOSE(refv(uncross(cross(a))), refv(a), 0, "uncross(cross(a))");
  auto p = perp(vector_2(a[0], a[1]));
  PCHECK(p[0] == -a[1] && p[1] == a[0], "perp");
  PCHECK(cross(vector_2(a[0], a[1]), vector_2(b[0], b[1])) == a[0] * b[1] - a[1] * b[0], "2D cross product");
  // rotations from an angle
  double ang = s.weighted({3, 2}) ? s.uniform(-1, 1) * std::pow(10., -s.range(0, 9)) : s.uniform(-3.14, 3.14);
  M z(2, 2);
  z(0, 0) = z(1, 1) = std::cos(LD(ang));
  z(1, 0) = std::sin(LD(ang));
  z(0, 1) = -z(1, 0);
  CLOSE(ref(rotate(ang)), z, 1e-15L, "2D rotation");
  PCHECK(std::fabs(rotation_angle(rotate(ang)) - ang) < 1e-15 * 8, "2D rotation angle " << rotation_angle(rotate(ang)) << " for " << ang);
  if (norm(a) > 1e-3) {
    auto ax = normalize(a);
    auto r = rotate(ang, ax);
    CLOSE(mul(ref(r), tr(ref(r))), eye(3), 1e-14L, "3D rotation is orthogonal");
    CLOSE(refv(r * ax), refv(ax), 1e-15L * 8, "3D rotation keeps its axis");
    PCHECK(std::fabs(uncross(r) * ax - std::sin(ang)) < 1e-14, "3D rotation sense");
    PCHECK(std::fabs(trace(r) - (1 + 2 * std::cos(ang))) < 1e-14, "trace of a rotation");
    // acos of a rounded cosine: absolute accuracy near sqrt(epsilon)
    Real got = rotation_angle(r);
    if (!(std::fabs(got - std::fabs(ang)) < 1e-7)) PFAIL("3D rotation angle " << got << " for " << ang);
    s.nontrivial();
  }
}
static void basic(Src& s, Env&) {
  switch (s.below(7)) {
    case 0: return square_case<1>(s);
    case 1: return square_case<2>(s);
    case 2: return square_case<3>(s);
    case 3: return frame_case<2>(s);
    case 4: return frame_case<3>(s);
    case 5: return frame_case<1>(s);
    default: return cross_case(s);
  }
}

// ---- QR and least squares
template <Int m, Int n, bool ok>
struct Pinv {
  static void check(Matrix<m, n> const&, M const&, LD) {}
};
// Moore-Penrose conditions of the pseudo-inverse
template <Int m, Int n>
struct Pinv<m, n, true> {
  static void check(Matrix<m, n> const& x, M const& a, LD cond) {
    auto pi = ref(pseudo_invert(x));
    LD pt = 1e-13L * cond * cond * cond;
    CLOSE(mul(pi, a), eye(n), pt, "pseudo_invert(A) * A");
    auto pat = ref(pseudo_invert(transpose(x)));
    CLOSE(pat, tr(pi), pt * nrm(pi), "pseudo-inverse of the transpose");
    CLOSE(tr(mul(a, pi)), mul(a, pi), pt, "A * pseudo_invert(A) is symmetric");
  }
};
template <Int m, Int n>
static void qr_case(Src& s) {
  int mm = s.weighted({2, 1}) ? s.range(n, m) : m, nn = s.weighted({2, 1}) ? s.range(1, n) : n;
  M a = gen_any(s, mm, nn), b = gen_any(s, mm, 1);
  LD sc = gen_scale(s);
  for (auto& v : a.a) v = Real(v * sc);
  for (auto& v : b.a) v = Real(v);
  s.desc(mm, "x", nn, " in ", int(m), "x", int(n), " ", str(a), " rhs ", str(b));
  // full rank: the smallest eigenvalue of the scaled normal matrix
  auto nm = mul(tr(a), a);
  auto e = eigs(nm);
  if (!(e[0] > 1e-10L * e.back()) || e.back() == 0) throw Discard();
  LD cond = std::sqrt(e.back() / e[0]);
  Matrix<m, n> x;
  Vector<m> y;
  for (int i = 0; i < m; ++i) {
    y[i] = i < mm ? Real(b(i, 0)) : 7e77;  // entries beyond the sizes must not matter
    for (int j = 0; j < n; ++j) x(i, j) = i < mm && j < nn ? Real(a(i, j)) : 5e55;
  }
  auto f = factorize_qr_householder(mm, nn, x);
  // Q times R's columns recovers A
  for (int j = 0; j < nn; ++j) {
    Vector<m> c;
    for (int i = 0; i < m; ++i) c[i] = i < nn && i <= j ? f.r(i, j) : 0;
    implicit_q_x(mm, nn, c, f.v);
    for (int i = 0; i < mm; ++i)
      if (!(std::fabs(c[i] - a(i, j)) <= 2e-15L * 10 * nrm(a))) PFAIL("Q R differs from A at (" << i << "," << j << "): " << c[i] << " vs " << double(a(i, j)));
  }
  for (int j = 0; j < nn; ++j)
    for (int i = j + 1; i < nn; ++i) PCHECK(std::fabs(f.r(i, j)) <= 1e-14L * nrm(a), "R is not upper triangular: " << f.r(i, j));
  // Q^T Q = I on the first columns
  for (int j = 0; j < nn; ++j) {
    Vector<m> c;
    for (int i = 0; i < m; ++i) c[i] = i == j;
    implicit_q_x(mm, nn, c, f.v);
    auto q = implicit_q_trans_b(mm, nn, f.v, c);
    for (int i = 0; i < nn; ++i) PCHECK(std::fabs(q[i] - (i == j)) < 1e-14, "Q^T Q differs from the identity: " << q[i]);
  }
  auto z = solve_using_qr(mm, nn, x, y);
  M zr(nn, 1);
  for (int i = 0; i < nn; ++i) zr(i, 0) = z[i];
  PCHECK(finite(zr), "solution " << str(zr));
  auto res = sub(b, mul(a, zr));
  auto g = mul(tr(a), res);
  LD tol = 2e-14L * nrm(a) * (nrm(b) + nrm(a) * nrm(zr));
  if (!(nrm(g) <= tol)) PFAIL("the residual of the least-squares solution " << str(zr) << " is not orthogonal to the columns: " << str(g));
  if (mm == nn) CLOSE(mul(a, zr), b, 2e-14L * (nrm(a) * nrm(zr) + nrm(b)), "square solve");
  if (mm == m && nn == n) {
    auto z2 = solve_using_qr(x, y);
    for (int i = 0; i < n; ++i) PCHECK(biteq(z2[i], z[i]), "solve_using_qr overloads differ");
    if (cond < 1e3) Pinv<m, n, (n < 4)>::check(x, a, cond);
  }
  s.nontrivial(nn > 1);
}
static void qr(Src& s, Env&) {
  switch (s.below(6)) {
    case 0: return qr_case<3, 3>(s);
    case 1: return qr_case<2, 2>(s);
    case 2: return qr_case<8, 3>(s);
    case 3: return qr_case<3, 1>(s);
    case 4: return qr_case<3, 2>(s);
    default: return qr_case<12, 4>(s);
  }
}

// ---- eigenvalues
// Tolerances of decompose_eigen: eigenvalues of the matrix scaled to unit
// max-norm count as equal when the discriminant is below 5e-5 (2D) or the
// distance below 5e-5 (3D).
static LD min_gap(std::vector<LD> e) {
  LD g = 1e30L;
  std::sort(e.begin(), e.end());
  for (st i = 1; i < e.size(); ++i) g = std::min(g, e[i] - e[i - 1]);
  return g;
}
template <Int n>
static void symm_case(Src& s) {
  M a = gen_symm(s, n);
  auto x = lib<n, n>(a);
  s.desc("symmetric ", str(a));
  LD nm = nrm(a);
  auto e = eigs(a);
  LD gap = n == 1 ? 1 : nm > 0 ? min_gap(e) / nm : 0;
  // an analytic solver loses accuracy as eigenvalues approach each other
  LD tol = n == 1 ? 1e-15L : n == 2 ? (gap > 0.0072L ? 1e-12L : 4e-3L) : gap > 1e-2L ? 1e-9L : 2e-4L;
  tol *= nm;
  auto d = decompose_eigen(x);
  if (nm > 1e-10L) {
    auto l = refv(d.l).a;
    std::sort(l.begin(), l.end());
    for (int i = 0; i < n; ++i)
      if (!(std::fabs(l[st(i)] - e[st(i)]) <= tol)) PFAIL("eigenvalues " << str(refv(d.l)) << ", expected " << double(e[st(i)]) << " at position " << i << ", tolerance " << double(tol));
    auto q = ref(d.q);
    LD qt = n == 2 ? 1e-10L : gap > 1e-2L ? 1e-9L : 5e-2L;
    CLOSE(mul(tr(q), q), eye(n), qt, "orthonormal eigenvectors");
    CLOSE(mul(mul(q, diag(refv(d.l).a)), tr(q)), a, (n == 3 && gap < 1e-2L ? 0.02L * nm : 2 * tol), "Q L Q^T");
    CLOSE(ref(compose_ortho(d.q, d.l)), mul(mul(q, diag(refv(d.l).a)), tr(q)), 1e-14L * nm, "compose_ortho");
  }
  // the iterative solver is accurate to rounding always
  auto j = decompose_eigen_jacobi(x);
  auto q = ref(j.q);
  CLOSE(mul(tr(q), q), eye(n), 1e-14L, "Jacobi: orthonormal eigenvectors");
  CLOSE(mul(mul(q, diag(refv(j.l).a)), tr(q)), a, 5e-15L * n * std::max(nm, LD(1e-300)), "Jacobi: Q L Q^T");
  auto l = refv(j.l).a;
  std::sort(l.begin(), l.end());
  for (int i = 0; i < n; ++i) PCHECK(std::fabs(l[st(i)] - e[st(i)]) <= 5e-15L * n * nm, "Jacobi: eigenvalue " << double(l[st(i)]) << ", expected " << double(e[st(i)]));
  auto o = sort_by_magnitude(j);
  for (int i = 0; i + 1 < n; ++i)
    if (std::fabs(o.l[i]) < std::fabs(o.l[i + 1])) PFAIL("sort_by_magnitude leaves " << str(refv(o.l)));
  auto oq = ref(o.q);
  CLOSE(mul(mul(oq, diag(refv(o.l).a)), tr(oq)), a, 5e-15L * n * std::max(nm, LD(1e-300)), "sorted decomposition");
  // the largest eigenvalue of each of an array of matrices
  auto me = hv(get_max_eigenvalues(n, mk(std::vector<Real>([&] {
    std::vector<Real> v;
    auto sv = symm2vector(x);
    for (int i = 0; i < symm_ncomps(n); ++i) v.push_back(sv[i]);
    return v;
  }()))));
  LD want = std::max(std::fabs(e[0]), std::fabs(e.back()));
  if (n > 1) PCHECK(me.size() == 1 && std::fabs(std::fabs(LD(me[0])) - want) <= tol + 1e-10L * nm, "largest eigenvalue " << me[0] << ", expected magnitude " << double(want));
  s.nontrivial(n > 1 && nm > 0);
}
template <Int n>
static void spd_case(Src& s) {
  M a = gen_symm(s, n, true);
  auto x = lib<n, n>(a);
  s.desc("positive ", str(a));
  auto e = eigs(a);
  if (!(e[0] > 1e-13L * e.back())) throw Discard();
  LD k = e.back() / e[0];
  auto lg = log_spd(x);
  auto le = eigs(ref(lg));
  // small eigenvalues carry absolute errors relative to the largest
  for (int i = 0; i < n; ++i) {
    LD w = std::log(e[st(i)]);
    LD t = 1e-13L * e.back() / e[st(i)] + 1e-13L * (1 + std::fabs(w));
    if (t > 0.5L) continue;
    PCHECK(std::fabs(le[st(i)] - w) <= t + 1e-14L * nrm(ref(lg)) * 10, "eigenvalue " << i << " of the logarithm is " << double(le[st(i)]) << ", expected " << double(w));
  }
  if (k < 1e9L) {
    auto ex = ref(exp_spd(lg));
    CLOSE(ex, a, 1e-13L * nrm(a) * (1 + std::fabs(std::log(e.back())) + std::fabs(std::log(e[0]))) * 10, "exp(log(A))");
    auto sq = ref(sqrt_spd(x));
    CLOSE(mul(sq, sq), a, 1e-13L * nrm(a), "sqrt(A)^2");
    CLOSE(tr(sq), sq, 1e-14L * nrm(sq), "sqrt(A) symmetric");
    PCHECK(eigs(sq)[0] > 0, "sqrt(A) is not positive");
  }
  LD gap = n == 1 ? 1 : min_gap(e) / nrm(a);
  if (k < 100 && gap > 1e-2L && nrm(a) > 1e-9L) {
    CLOSE(ref(log_spd_old(x)), ref(lg), 1e-6L, "analytic logarithm");
  }
  // any symmetric matrix: log(exp(S)) = S
  M b = gen_symm(s, n);
  if (nrm(b) < 10) {
    auto y = lib<n, n>(b);
    auto ey = exp_spd(y);
    auto eb = eigs(b);
    LD t = 1e-13L * std::exp(eb.back() - eb[0]) * 10;
    if (t < 1e-2L) CLOSE(ref(log_spd(ey)), b, t, "log(exp(S)), S = " << str(b));
    auto ee = eigs(ref(ey));
    for (int i = 0; i < n; ++i) PCHECK(std::fabs(ee[st(i)] - std::exp(eb[st(i)])) <= 1e-13L * std::exp(eb.back()), "eigenvalue of the exponential " << double(ee[st(i)]) << ", expected " << double(std::exp(eb[st(i)])));
  }
  s.nontrivial(n > 1);
}
template <Int n>
static void general_case(Src& s) {
  // real eigenvalues, well separated; a well-conditioned eigenbasis
  M p = gen_any(s, n, n);
  LD mag;
  LD dt = det(p, &mag);
  if (!(std::fabs(dt) > 0.02L * mag) || mag == 0) throw Discard();
  auto x0 = lib<n, n>(p);
  auto pinv = ref(invert(x0));
  if (nrm(p) * nrm(pinv) > 50) throw Discard();
  std::vector<LD> e;
  for (int i = 0; i < n; ++i) {
    LD v = s.uniform(-1, 1);
    e.push_back(v);
  }
  if (min_gap(e) < 0.15L) throw Discard();
  M a = mul(mul(p, diag(e)), pinv);
  LD sc = gen_scale(s);
  for (auto& v : a.a) v = Real(v * sc);
  LD nm = nrm(a);
  if (min_gap(e) * sc < 0.02L * nm || nm <= 1e-10L) throw Discard();
  auto x = lib<n, n>(a);
  s.desc("general ", str(a));
  auto d = decompose_eigen(x);
  auto q = ref(d.q);
  for (int j = 0; j < n; ++j) {
    M v(n, 1);
    LD l = 0;
    for (int i = 0; i < n; ++i) v(i, 0) = q(i, j), l += v(i, 0) * v(i, 0);
    PCHECK(std::fabs(l - 1) < 1e-12L, "eigenvector of length " << double(std::sqrt(l)));
    M lv = v;
    for (auto& z : lv.a) z *= d.l[j];
    CLOSE(mul(a, v), lv, 1e-8L * nm, "A v = l v, pair " << j);
  }
  auto l = refv(d.l).a;
  std::sort(l.begin(), l.end());
  std::sort(e.begin(), e.end());
  for (int i = 0; i < n; ++i) PCHECK(std::fabs(l[st(i)] - e[st(i)] * sc) <= 1e-8L * nm, "eigenvalue " << double(l[st(i)]) << ", expected " << double(e[st(i)] * sc));
  CLOSE(ref(compose_eigen(d.q, d.l)), a, 1e-6L * nm, "compose_eigen(decompose_eigen(A))");
  s.nontrivial();
}
template <Int n>
static void roots_case(Src& s) {
  // polynomials built from their roots
  std::vector<LD> r;
  int mode = s.weighted({3, 2, 1});
  for (int i = 0; i < n; ++i) {
    if (mode == 1 && i && s.chance(60)) r.push_back(r.back());
    else r.push_back(mode == 2 ? LD(s.range(0, 6) - 3) : LD(s.uniform(-1, 1)));
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (r[st(i)] != r[st(j)] && std::fabs(r[st(i)] - r[st(j)]) < 0.02L) throw Discard();
  std::vector<LD> c(1, 1);  // ascending powers
  for (auto x : r) {
    std::vector<LD> o(c.size() + 1, 0);
    for (st i = 0; i < c.size(); ++i) o[i + 1] += c[i], o[i] -= x * c[i];
    c = o;
  }
  Few<Real, n> co;
  for (int i = 0; i < n; ++i) co[i] = Real(c[st(i)]);
  std::set<LD> u(r.begin(), r.end());
  s.desc("roots of degree ", int(n), ", ", int(u.size()), " distinct");
  auto got = find_polynomial_roots(co, 5e-5);
  PCHECK(got.n == int(u.size()), "found " << got.n << " distinct roots, there are " << u.size());
  int tot = 0;
  std::vector<LD> all;
  for (int i = 0; i < got.n; ++i) {
    tot += got.mults[i];
    for (int k = 0; k < got.mults[i]; ++k) all.push_back(got.values[i]);
  }
  PCHECK(tot == n, "multiplicities add up to " << tot);
  std::sort(all.begin(), all.end());
  std::sort(r.begin(), r.end());
  LD mx = 1;
  for (auto x : r) mx = std::max(mx, std::fabs(x));
  for (int i = 0; i < n; ++i) PCHECK(std::fabs(all[st(i)] - r[st(i)]) < 2e-5L * mx, "root " << double(all[st(i)]) << ", expected " << double(r[st(i)]));
  s.nontrivial(n > 1);
}
static void eigen(Src& s, Env&) {
  switch (s.weighted({4, 4, 1, 3, 3, 1, 2, 2, 1, 1})) {
    case 0: return symm_case<2>(s);
    case 1: return symm_case<3>(s);
    case 2: return symm_case<1>(s);
    case 3: return spd_case<2>(s);
    case 4: return spd_case<3>(s);
    case 5: return spd_case<1>(s);
    case 6: return general_case<2>(s);
    case 7: return general_case<3>(s);
    case 8: return roots_case<2>(s);
    default: return roots_case<3>(s);
  }
}

// ---- singular values, polar decompositions, rotations
template <Int n>
static void svd_case(Src& s) {
  M a(n, n);
  switch (s.weighted({3, 3, 1})) {
    case 0: a = gen_any(s, n, n); break;
    case 1: {
      auto u = gen_rot(s, n), v = gen_rot(s, n);
      if (n == 3) u = mul(u, gen_rot(s, n)), v = mul(v, gen_rot(s, n));
      a = mul(mul(u, diag(gen_eigs(s, n, false))), v);
      break;
    }
    default: {  // triangular, with a large or tiny off-diagonal
      a = gen_any(s, n, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) a(i, j) = 0;
      if (n > 1) a(0, 1) *= std::pow(10., s.range(0, 40) - 20);
    }
  }
  LD sc = gen_scale(s);
  for (auto& v : a.a) v = Real(v * sc);
  auto x = lib<n, n>(a);
  s.desc("svd ", str(a));
  auto d = decompose_svd(x);
  auto u = ref(d.U), S = ref(d.S), vt = ref(d.V);
  LD nm = nrm(a);
  CLOSE(mul(u, tr(u)), eye(n), 2e-14L, "U orthogonal");
  CLOSE(mul(vt, tr(vt)), eye(n), 2e-14L, "V orthogonal");
  CLOSE(mul(mul(u, S), vt), a, 2e-14L * std::max(nm, LD(1e-300)), "U S V");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (i == j) PCHECK(S(i, i) >= 0, "negative singular value " << double(S(i, i)));
      else PCHECK(std::fabs(S(i, j)) <= 1e-14L * nm, "off-diagonal entry " << double(S(i, j)));
    }
  auto e = eigs(mul(tr(a), a));
  std::vector<LD> sv;
  for (int i = 0; i < n; ++i) sv.push_back(S(i, i));
  std::sort(sv.begin(), sv.end());
  for (int i = 0; i < n; ++i) {
    LD w = std::sqrt(std::max(e[st(i)], LD(0)));
    PCHECK(std::fabs(sv[st(i)] - w) <= 1e-9L * nm, "singular value " << double(sv[st(i)]) << ", expected " << double(w));
  }
  s.nontrivial(n > 1 && nm > 0);
}
static void svd2_case(Src& s) {
  double f = s.nice() * gen_scale(s), g = s.nice() * gen_scale(s), h = s.nice() * gen_scale(s);
  s.desc("bidiagonal ", f, " ", g, " ", h);
  auto d = svd_bidiagonal(f, g, h);
  M a(2, 2);
  a(0, 0) = f; a(0, 1) = g; a(1, 1) = h;
  CLOSE(mul(mul(ref(d.U), ref(d.S)), tr(ref(d.V))), a, 1e-14L * std::max(nrm(a), LD(1e-300)), "U S V^T of a bidiagonal matrix");
  CLOSE(mul(ref(d.U), tr(ref(d.U))), eye(2), 1e-14L, "U orthogonal");
  CLOSE(mul(ref(d.V), tr(ref(d.V))), eye(2), 1e-14L, "V orthogonal");
  auto cs = givens(f, g);
  PCHECK(std::fabs(LD(cs.s) * f + LD(cs.c) * g) <= 1e-15L * 4 * std::max(std::fabs(f), std::fabs(g)), "Givens rotation does not annihilate");
  PCHECK(std::fabs(LD(cs.c) * cs.c + LD(cs.s) * cs.s - 1) < 1e-15L * 4, "Givens rotation is not a rotation");
  auto k = schur_sym(f, g, h);
  M c(2, 2), y(2, 2);
  c(0, 0) = c(1, 1) = k[0]; c(0, 1) = k[1]; c(1, 0) = -k[1];
  y(0, 0) = f; y(0, 1) = y(1, 0) = g; y(1, 1) = h;
  auto z = mul(mul(tr(c), y), c);
  PCHECK(std::fabs(z(0, 1)) <= 1e-15L * 8 * nrm(y), "schur_sym does not diagonalise " << str(y) << ": " << str(z));
  s.nontrivial(g != 0);
}
template <Int n>
static void polar_case(Src& s) {
  // F = R U, U symmetric positive definite
  auto r = gen_rot(s, n);
  if (n == 3 && s.below(2)) r = mul(r, gen_rot(s, n));
  M u = gen_symm(s, n, true);
  auto e = eigs(u);
  if (!(e[0] > 1e-6L * e.back())) throw Discard();
  M f = mul(r, u);
  for (auto& v : f.a) v = Real(v);
  auto x = lib<n, n>(f);
  s.desc("polar of ", str(f));
  auto lp = log_polar(x);
  LD k = e.back() / e[0];
  CLOSE(ref(unpack_polar_spd(lp)), ref(log_spd(lib<n, n>(u))), 1e-12L * k + 1e-12L * std::fabs(std::log(e.back())), "logarithm of the stretch");
  auto rt = ref(tensor_from_axis_angle(unpack_polar_axis_angle(lp)));
  CLOSE(rt, r, 1e-7L + 1e-13L * k, "rotation of the polar decomposition");
  CLOSE(ref(exp_polar(lp)), f, (1e-7L + 1e-12L * k) * nrm(f), "exp_polar(log_polar(F))");
  auto pk = pack_polar(unpack_polar_spd(lp), unpack_polar_axis_angle(lp));
  CLOSE(ref(pk), ref(lp), 0, "packing a polar decomposition");
  // aligning a set of logarithms keeps what each of them represents
  int cnt = s.range(1, 4);
  std::vector<Matrix<n, n>> a;
  for (int i = 0; i < cnt; ++i) {
    auto q = i && s.chance(70) ? r : gen_rot(s, n);
    if (i && s.below(2)) q = mul(q, gen_rot(s, n));
    a.push_back(pack_polar(unpack_polar_spd(lp), axis_angle_from_tensor(lib<n, n>(q))));
  }
  auto b = a;
  align_packed_axis_angles(b.data(), cnt, 0.05);
  for (int i = 0; i < cnt; ++i)
    CLOSE(ref(exp_polar(b[st(i)])), ref(exp_polar(a[st(i)])), 1e-12L * nrm(f) * 10, "aligned logarithm " << i);
  s.nontrivial(n > 1);
}
static void rot_case(Src& s) {
  auto r = gen_rot(s, 3);
  if (s.below(2)) r = mul(r, gen_rot(s, 3));
  auto x = lib<3, 3>(r);
  s.desc("rotation ", str(r));
  // an identity that carries roundoff
  {
    auto y = x * Omega_h::transpose(x);
    auto a = rotation_angle(y);
    PCHECK(a >= 0 && a < 1e-6, "rotation angle of R R^T is " << a);
  }
  auto q = quaternion_from_tensor(x);
  PCHECK(std::fabs(norm(q) - 1) < 1e-15 * 4, "quaternion of norm " << norm(q));
  CLOSE(ref(tensor_from_quaternion(q)), r, 1e-14L, "tensor_from_quaternion(quaternion_from_tensor(R))");
  auto aa = axis_angle_from_tensor(x);
  // rotations below sqrt(epsilon) map to zero
  CLOSE(ref(tensor_from_axis_angle(aa)), r, 1e-7L, "exp(log(R))");
  LD ang = std::acos(std::min(LD(1), std::max(LD(-1), (r(0, 0) + r(1, 1) + r(2, 2) - 1) / 2)));
  if (ang > 1e-4L) {
    CLOSE(ref(tensor_from_axis_angle(aa)), r, 1e-10L, "exp(log(R))");
    LD na = norm(aa), pi = std::acos(LD(-1));
    PCHECK(std::fabs(na - ang) < 1e-7L || std::fabs(2 * pi - na - ang) < 1e-7L, "rotation angle " << double(na) << ", expected " << double(ang));
    M v = refv(aa);
    CLOSE(mul(r, v), v, 1e-7L, "the axis is kept");
  }
  // the other way
  Vector<3> w;
  for (int i = 0; i < 3; ++i) w[i] = s.nice() * (s.chance(30) ? 1e-4 : 1);
  if (s.chance(10)) w = zero_vector<3>();
  auto t = tensor_from_axis_angle(w);
  CLOSE(mul(ref(t), tr(ref(t))), eye(3), 1e-14L, "exponential is orthogonal");
  PCHECK(std::fabs(det(ref(t)) - 1) < 1e-13L, "exponential is a rotation");
  if (norm(w) > 0) CLOSE(ref(t), ref(rotate(norm(w), normalize(w))), 1e-14L, "exponential is the rotation about the axis, " << str(refv(w)));
  auto back = axis_angle_from_tensor(t);
  if (norm(w) > 1e-3 && norm(w) < 1.5) CLOSE(refv(back), refv(w), 1e-8L, "log(exp(w))");
  double y = s.uniform(-1, 1) * std::pow(10., -s.range(0, 10));
  PCHECK(std::fabs(sin_x_over_x(y) - (y == 0 ? 1. : std::sin(y) / y)) < 1e-15 * 4, "sin(x)/x at " << y);
  s.nontrivial();
}
static void svd(Src& s, Env&) {
  switch (s.weighted({3, 3, 1, 2, 2, 2, 3})) {
    case 0: return svd_case<2>(s);
    case 1: return svd_case<3>(s);
    case 2: return svd_case<1>(s);
    case 3: return svd2_case(s);
    case 4: return polar_case<2>(s);
    case 5: return polar_case<3>(s);
    default: return rot_case(s);
  }
}

static bool eqv(std::vector<Real> const& a, std::vector<Real> const& b) {
  if (a.size() != b.size()) return false;
  for (st i = 0; i < a.size(); ++i)
    if (!biteq(a[i], b[i])) return false;
  return true;
}
// ---- packing matrices and vectors into arrays is exact
template <Int n>
static void pack_case(Src& s) {
  int cnt = s.range(0, 9);
  std::vector<Real> sy, mt, ve;
  for (int i = 0; i < cnt * symm_ncomps(n); ++i) sy.push_back(s.nice(10));
  for (int i = 0; i < cnt * n * n; ++i) mt.push_back(s.nice(10));
  for (int i = 0; i < cnt * n; ++i) ve.push_back(s.nice(10));
  s.desc("packing ", cnt, " of dimension ", int(n));
  auto S = mk(sy), Mx = mk(mt), V = mk(ve);
  // storage orders: ours is diagonal first, then the off-diagonals by column
  static int const osh[3][3][3] = {{{0}}, {{0, 2}, {2, 1}}, {{0, 3, 5}, {3, 1, 4}, {5, 4, 2}}};
  static int const inria[3][3][3] = {{{0}}, {{0, 1}, {1, 2}}, {{0, 1, 3}, {1, 2, 4}, {3, 4, 5}}};
  for (int i = 0; i < cnt; ++i) {
    auto x = get_symm<n>(S, i);
    auto y = get_matrix<n, n>(Mx, i);
    auto v = get_vector<n>(V, i);
    for (int r = 0; r < n; ++r) {
      PCHECK(biteq(v[r], ve[st(i * n + r)]), "get_vector");
      for (int c = 0; c < n; ++c) {
        PCHECK(biteq(x(r, c), sy[st(i * symm_ncomps(n) + osh[n - 1][r][c])]), "get_symm (" << r << "," << c << ")");
        PCHECK(biteq(y(r, c), mt[st((i * n + r) * n + c)]), "get_matrix (" << r << "," << c << ")");
      }
    }
    CLOSE(ref(vector2symm(symm2vector(x))), ref(x), 0, "vector2symm(symm2vector)");
    CLOSE(ref(vector2symm_inria(symm2vector_inria(x))), ref(x), 0, "inria storage");
    CLOSE(ref(vector2matrix<n, n>(matrix2vector(y))), ref(y), 0, "vector2matrix(matrix2vector)");
  }
  Write<Real> ws(cnt * symm_ncomps(n)), wm(cnt * n * n), wv(cnt * n);
  for (int i = 0; i < cnt; ++i) {
    set_symm(ws, i, get_symm<n>(S, i));
    set_matrix(wm, i, get_matrix<n, n>(Mx, i));
    set_vector(wv, i, get_vector<n>(V, i));
  }
  PCHECK(eqv(hv(Reals(ws)), sy) && eqv(hv(Reals(wm)), mt) && eqv(hv(Reals(wv)), ve), "set after get");
  auto in = hv(symms_osh2inria(n, S));
  for (int i = 0; i < cnt; ++i)
    for (int r = 0; r < n; ++r)
      for (int c = 0; c < n; ++c)
        PCHECK(biteq(in[st(i * symm_ncomps(n) + inria[n - 1][r][c])], get_symm<n>(S, i)(r, c)), "symms_osh2inria");
  PCHECK(eqv(hv(symms_inria2osh(n, symms_osh2inria(n, S))), sy), "symms_inria2osh(symms_osh2inria)");
  // batched operations agree with one-at-a-time ones
  auto mv = hv(matrices_times_vectors(Mx, V, n));
  auto mm = hv(matrices_times_matrices(Mx, Mx, n));
  auto ms = hv(matrices_to_symms(Mx, n));
  auto dt = hv(dot_vectors(V, V, n));
  PCHECK(int(mv.size()) == cnt * n && int(mm.size()) == cnt * n * n && int(ms.size()) == cnt * symm_ncomps(n) && int(dt.size()) == cnt, "batched sizes");
  for (int i = 0; i < cnt; ++i) {
    auto y = get_matrix<n, n>(Mx, i);
    auto v = get_vector<n>(V, i);
    auto w = mul(ref(y), refv(v));
    auto yy = mul(ref(y), ref(y));
    LD d = 0;
    for (int r = 0; r < n; ++r) {
      d += LD(v[r]) * v[r];
      PCHECK(std::fabs(mv[st(i * n + r)] - w(r, 0)) <= 1e-12L, "matrices_times_vectors");
      for (int c = 0; c < n; ++c) PCHECK(std::fabs(mm[st((i * n + r) * n + c)] - yy(r, c)) <= 1e-12L, "matrices_times_matrices");
      for (int c = r; c < n; ++c) PCHECK(biteq(ms[st(i * symm_ncomps(n) + osh[n - 1][r][c])], y(c, r)) || biteq(ms[st(i * symm_ncomps(n) + osh[n - 1][r][c])], y(r, c)), "matrices_to_symms");
    }
    PCHECK(std::fabs(dt[st(i)] - d) <= 1e-12L, "dot_vectors");
  }
  if (n > 1) {
    auto nn = hv(get_vector_norms(V, n));
    bool zero = false;
    for (int i = 0; i < cnt; ++i) {
      PCHECK(biteq(nn[st(i)], norm(get_vector<n>(V, i))), "get_vector_norms");
      zero = zero || nn[st(i)] == 0;
    }
    if (!zero) {
      auto un = normalize_vectors(V, n);
      for (int i = 0; i < cnt; ++i) {
        auto u = get_vector<n>(un, i);
        PCHECK(std::fabs(norm(u) - 1) < 1e-14, "normalize_vectors");
        CLOSE(refv(u * nn[st(i)]), refv(get_vector<n>(V, i)), 1e-14L * 10, "normalize_vectors direction");
      }
    }
    int other = n == 2 ? 3 : 2;
    auto rs = resize_symms(S, n, other);
    for (int i = 0; i < cnt; ++i)
      for (int r = 0; r < other; ++r)
        for (int c = 0; c < other; ++c) {
          Real got = other == 3 ? get_symm<3>(rs, i)(r, c) : get_symm<2>(rs, i)(r, c);
          Real want = r < n && c < n ? get_symm<n>(S, i)(r, c) : 0;
          PCHECK(biteq(got, want), "resize_symms at (" << r << "," << c << ")");
        }
  }
  PCHECK(eqv(hv(resize_symms(S, n, n)), sy), "resize_symms to the same dimension");
  int nd = s.range(1, 4);
  auto rv = hv(resize_vectors(V, n, nd));
  PCHECK(int(rv.size()) == cnt * nd, "resize_vectors size");
  for (int i = 0; i < cnt; ++i)
    for (int c = 0; c < nd; ++c) PCHECK(biteq(rv[st(i * nd + c)], c < n ? ve[st(i * n + c)] : 0.), "resize_vectors");
  if (cnt) {
    int k = s.range(0, 5);
    auto a = repeat_symm(k, get_symm<n>(S, 0));
    auto b = repeat_matrix(k, get_matrix<n, n>(Mx, 0));
    auto c = repeat_vector(k, get_vector<n>(V, 0));
    PCHECK(a.size() == k * symm_ncomps(n) && b.size() == k * n * n && c.size() == k * n, "sizes of repeated arrays");
    for (int i = 0; i < k; ++i) {
      CLOSE(ref(get_symm<n>(a, i)), ref(get_symm<n>(S, 0)), 0, "repeat_symm");
      CLOSE(ref(get_matrix<n, n>(b, i)), ref(get_matrix<n, n>(Mx, 0)), 0, "repeat_matrix");
      CLOSE(refv(get_vector<n>(c, i)), refv(get_vector<n>(V, 0)), 0, "repeat_vector");
    }
    auto m0 = get_matrix<n, n>(Mx, 0);
    auto up = resize<3>(m0);
    for (int r = 0; r < 3; ++r)
      for (int q = 0; q < 3; ++q) PCHECK(biteq(up(r, q), r < n && q < n ? m0(r, q) : 0.), "resize of a matrix");
    CLOSE(ref(resize<n>(up)), ref(m0), 0, "resize back");
  }
  // powers and roots
  double z = s.uniform(0, 3);
  for (int p = 1; p <= 3; ++p)
    for (int q = 1; q <= 3; ++q) PCHECK(std::fabs(power(z, p, q) - std::pow(z, double(p) / q)) <= 1e-14 * (1 + std::pow(z, double(p) / q)), "power(" << z << "," << p << "," << q << ") = " << power(z, p, q));
  s.nontrivial(cnt > 1);
}
static void packing(Src& s, Env&) {
  switch (s.below(3)) {
    case 0: return pack_case<1>(s);
    case 1: return pack_case<2>(s);
    default: return pack_case<3>(s);
  }
}

int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"basic", basic, 60000, 3000000, {1}, true, "matrix with a usable inverse, or a vector in at least two dimensions"});
  t.push_back({"qr", qr, 40000, 2000000, {1}, true, "at least two columns, full rank"});
  t.push_back({"eigen", eigen, 60000, 4000000, {1}, true, "at least 2x2 and not zero"});
  t.push_back({"svd", svd, 60000, 4000000, {1}, true, "at least 2x2 and not zero"});
  t.push_back({"packing", packing, 10000, 300000, {1}, true, "at least two matrices"});
  return run(argc, argv, t);
}
