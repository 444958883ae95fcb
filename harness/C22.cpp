// C22: metric tensors: intersection, interpolation and lengths are meaningful
#include <Omega_h_metric.hpp>
#include <Omega_h_metric_intersect.hpp>
#include "refmat.hpp"
using namespace pbt;
using namespace pbt::rm;

static LD dot(M const& a, M const& b) {
  LD s = 0;
  for (st i = 0; i < a.a.size(); ++i) s += a.a[i] * b.a[i];
  return s;
}
static LD quad(M const& m, M const& v) { return dot(v, mul(m, v)); }
static M col(M const& q, int j) {
  M r(q.m, 1);
  for (int i = 0; i < q.m; ++i) r(i, 0) = q(i, j);
  return r;
}
static M func(M const& a, std::function<LD(LD)> f) {
  M q;
  auto e = eigs(a, &q);
  for (auto& x : e) x = f(x);
  return mul(mul(q, diag(e)), tr(q));
}
// decompose_eigen scales to unit max-norm; then it takes eigenvalues for equal
// when their distance (3D: below 5e-5) or the discriminant (2D: below 5e-5, a
// distance of 7.1e-3) is small.  The error of a decomposition, relative to
// the largest entry:
static LD eig_err(M const& a, LD pert = 0) {
  int n = a.m;
  LD nm = nrm(a);
  if (n == 1) return 1e-15L;
  if (nm <= 1e-10L) return 1;
  auto e = eigs(a);
  LD g = 1e30L;
  LD tight = n == 2 ? 0.0072L : 6e-5L, loose = n == 2 ? 4e-3L : 1e-4L;
  bool merged = false;
  for (int i = 1; i < n; ++i) {
    LD d = (e[st(i)] - e[st(i - 1)]) / nm;
    if (d < 1e-13L && pert == 0) continue;  // really equal
    if (d < tight + 2 * pert / nm) merged = true;
    g = std::min(g, d);
  }
  if (merged && n == 2) return loose;
  if (n == 2) return g > 0.1L ? 1e-12L : 1e-11L;
  // analytic roots of nearly multiple eigenvalues: their errors grow as the
  // eigenvalues get close, those of the vectors even more
  if (g > 1e-2L) return 1e-9L;
  LD spread = (e[2] - e[0]) / nm, g_ = std::max(g, 4e-5L);
  LD r = std::max(1e-6L, 1e-14L / (g_ * g_ * std::max(spread, 4e-5L)));
  return merged ? std::max(loose, r) : r;
}
// frames and sizes
struct Met {
  M q, m;
  std::vector<LD> h;  // 0 for no limit in that direction
  int degen = 0;
};
static std::vector<LD> gen_sizes(Src& s, int n, double base) {
  std::vector<LD> h;
  int mode = s.weighted({3, 2, 2, 2});
  for (int i = 0; i < n; ++i) switch (mode) {
      case 0: h.push_back(s.uniform(0.2, 1.)); break;
      case 1: h.push_back(i && s.chance(60) ? h.back() : LD(s.range(1, 4))); break;
      case 2: h.push_back(std::pow(10., -s.uniform(0, 2))); break;
      default: h.push_back(i && s.chance(80) ? h[0] * (1 + s.uniform(-1, 1) * std::pow(10., -s.range(1, 6))) : LD(1)); break;
    }
  for (auto& x : h) x *= base;
  auto p = s.permutation(n);
  std::vector<LD> o;
  for (int i : p) o.push_back(h[st(i)]);
  return o;
}
static Met make(M const& q, std::vector<LD> const& h) {
  Met r;
  r.q = q;
  r.h = h;
  std::vector<LD> e;
  for (auto x : h) {
    e.push_back(x == 0 ? 0 : 1 / (x * x));
    r.degen += x == 0;
  }
  r.m = mul(mul(q, diag(e)), tr(q));
  for (auto& v : r.m.a) v = Real(v);
  for (int i = 0; i < q.m; ++i)
    for (int j = 0; j < i; ++j) r.m(i, j) = r.m(j, i);
  return r;
}
static double gen_base(Src& s) { return s.weighted({3, 2}) ? std::pow(10., s.range(0, 6) - 3) : 1.; }
static M gen_frame(Src& s, int n) {
  auto q = gen_rot(s, n);
  if (n == 3 && s.below(2)) q = mul(q, gen_rot(s, n));
  if (s.chance(20))
    for (int i = 0; i < n; ++i) q(i, 0) = -q(i, 0);
  return q;
}
static std::vector<M> gen_dirs(Src& s, int n, M const& a, M const& b) {
  std::vector<M> r;
  M q;
  eigs(a, &q);
  for (int j = 0; j < n; ++j) r.push_back(col(q, j));
  eigs(b, &q);
  for (int j = 0; j < n; ++j) r.push_back(col(q, j));
  for (int k = 0; k < 6; ++k) {
    M v(n, 1);
    LD l = 0;
    for (auto& x : v.a) x = s.uniform(-1, 1), l += x * x;
    if (l < 1e-6L) continue;
    for (auto& x : v.a) x /= std::sqrt(l);
    r.push_back(v);
  }
  return r;
}

template <Int n>
static void compose_case(Src& s) {
  auto x = make(gen_frame(s, n), gen_sizes(s, n, gen_base(s)));
  s.desc("metric ", str(x.m));
  Vector<n> h;
  for (int i = 0; i < n; ++i) h[i] = Real(x.h[st(i)]);
  auto q = lib<n, n>(x.q);
  auto m = compose_metric(q, h);
  LD nm = nrm(x.m);
  CLOSE(ref(m), x.m, 1e-14L * nm, "compose_metric");
  for (int i = 0; i < n; ++i) {
    // a step of the desired size along a direction has unit length
    LD e = 1 / (x.h[st(i)] * x.h[st(i)]);
    LD t = 1e-14L * nm / e + 1e-15L * 8;
    if (t < 0.1L) {
      PCHECK(std::fabs(metric_length(m, q[i] * h[i]) - 1) <= t, "length of the step " << metric_length(m, q[i] * h[i]));
      PCHECK(std::fabs(metric_desired_length(m, q[i]) - x.h[st(i)]) <= t * x.h[st(i)], "desired length " << metric_desired_length(m, q[i]) << ", expected " << double(x.h[st(i)]));
    }
  }
  for (auto& v : gen_dirs(s, n, x.m, x.m)) {
    Vector<n> w;
    for (int i = 0; i < n; ++i) w[i] = Real(v(i, 0));
    LD want = std::sqrt(quad(x.m, v));
    PCHECK(std::fabs(metric_length(m, w) - want) <= 1e-14L * std::sqrt(nm) * std::sqrt(nm) / want, "metric length " << metric_length(m, w) << ", expected " << double(want));
    PCHECK(std::fabs(metric_desired_length(m, w) * metric_length(m, w) - 1) < 1e-14, "desired length is not the inverse of the length");
    // an isotropic metric of one component measures vectors of any dimension
    auto iso = tensor_1(metric_eigenvalue_from_length(h[0]));
    PCHECK(std::fabs(metric_length(iso, w) - norm(w) / h[0]) <= 1e-14 * norm(w) / h[0], "isotropic length");
  }
  PCHECK(std::fabs(metric_length_from_eigenvalue(metric_eigenvalue_from_length(h[0])) - h[0]) <= 1e-15 * 4 * h[0], "length from eigenvalue");
  // decomposition
  auto d = decompose_metric(lib<n, n>(x.m));
  LD err = eig_err(x.m);
  std::vector<LD> got, want = x.h;
  for (int i = 0; i < n; ++i) got.push_back(d.l[i]);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (int i = 0; i < n; ++i) {
    LD e = 1 / (want[st(i)] * want[st(i)]);
    LD rel = 2 * err * nm / e + 1e-14L;
    if (rel > 0.1L) continue;
    if (!(std::fabs(got[st(i)] - want[st(i)]) <= rel * want[st(i)])) PFAIL("decomposed sizes " << str(refv(d.l)) << ", expected " << double(want[st(i)]) << " among them, relative tolerance " << double(rel));
  }
  auto dq = ref(d.q);
  CLOSE(mul(tr(dq), dq), eye(n), n < 3 || err < 1e-8L ? 1e-7L : 5e-2L, "decomposed directions");
  s.nontrivial(n > 1);
}

template <Int n>
static void average_case(Src& s, Env&) {
  double base = gen_base(s);
  int cnt = s.range(1, 4);
  bool commute = s.chance(40), same = s.chance(20);
  std::vector<Met> ms;
  for (int i = 0; i < cnt; ++i) {
    if (i && same) ms.push_back(ms[0]);
    else {
      auto q = i && commute ? ms[0].q : gen_frame(s, n);
      ms.push_back(make(q, gen_sizes(s, n, base)));
    }
  }
  s.desc("average of ", cnt, commute ? " commuting" : "", same ? " equal" : "", ", first ", str(ms[0].m));
  // reference: exponential of the mean logarithm
  M lg(n, n);
  LD lerr = 0, lo = 1e30L, hi = 0;
  for (auto& x : ms) {
    auto l = func(x.m, [](LD v) { return std::log(v); });
    for (st i = 0; i < lg.a.size(); ++i) lg.a[i] += l.a[i] / cnt;
    auto e = eigs(x.m);
    lerr = std::max(lerr, 2 * eig_err(x.m) * nrm(x.m) / e[0]);
    lo = std::min(lo, e[0]);
    hi = std::max(hi, e.back());
  }
  lerr += 2 * eig_err(lg, lerr) * nrm(lg) + 1e-13L;
  if (lerr > 0.5L) throw Discard();
  M want = func(lg, [](LD v) { return std::exp(v); });
  LD tol = 3 * lerr * nrm(want);
  Few<Tensor<n>, 4> f;
  auto am = zero_matrix<n, n>();
  Int good = 0;
  bool degen = s.chance(40);
  for (int i = 0; i < cnt; ++i) {
    if (degen && s.below(2)) average_metric_contrib(am, good, zero_matrix<n, n>(), true);
    average_metric_contrib(am, good, lib<n, n>(ms[st(i)].m), degen);
  }
  PCHECK(good == cnt, "counted " << good << " of " << cnt << " metrics");
  auto got = ref(average_metric_finish(am, good, degen));
  CLOSE(got, want, tol, "average metric");
  CLOSE(got, tr(got), 1e-12L * nrm(want), "symmetry of the average");
  auto e = eigs(got);
  PCHECK(e[0] > 0 && e[0] >= lo * (1 - 3 * lerr) - tol && e.back() <= hi * (1 + 3 * lerr), "the average has eigenvalues from " << double(e[0]) << " to " << double(e.back()) << ", the inputs from " << double(lo) << " to " << double(hi));
  if (cnt == 3) {
    Few<Tensor<n>, 3> g;
    auto p = s.permutation(3);
    for (int i = 0; i < 3; ++i) g[i] = lib<n, n>(ms[st(p[st(i)])].m);
    CLOSE(ref(average_metric(g, false)), got, (1e-12L + 4 * eig_err(lg) * nrm(lg)) * nrm(want), "average in another order");
    auto md = ref(maxdet_metric(g));
    LD best = 0;
    for (auto& x : ms) best = std::max(best, det(x.m));
    PCHECK(det(md) >= best * (1 - 1e-9L), "maxdet_metric has determinant " << double(det(md)) << ", the largest is " << double(best));
    bool is = false;
    for (auto& x : ms) is = is || nrm(sub(x.m, md)) == 0;
    PCHECK(is, "maxdet_metric is not one of its inputs");
  }
  // arrays: interpolation between fields, and its logarithms
  if (cnt == 2) {
    int len = s.range(1, 3);
    auto a = repeat_symm(len, lib<n, n>(ms[0].m)), b = repeat_symm(len, lib<n, n>(ms[1].m));
    double t = s.weighted({1, 1, 3}) == 2 ? s.unit() : double(s.below(2));
    M lt(n, n);
    auto l0 = func(ms[0].m, [](LD v) { return std::log(v); }), l1 = func(ms[1].m, [](LD v) { return std::log(v); });
    for (st i = 0; i < lt.a.size(); ++i) lt.a[i] = l0.a[i] * (1 - t) + l1.a[i] * t;
    M w = func(lt, [](LD v) { return std::exp(v); });
    LD le = lerr + 2 * eig_err(lt, lerr) * nrm(lt);
    auto c = interpolate_between_metrics(len, a, b, t);
    PCHECK(c.size() == a.size(), "size of the interpolated field");
    for (int i = 0; i < len; ++i) {
      CLOSE(ref(get_symm<n>(c, i)), w, 3 * le * nrm(w), "interpolation at " << t);
      auto ei = eigs(ref(get_symm<n>(c, i)));
      PCHECK(ei[0] >= lo * (1 - 3 * le) - 3 * le * nrm(w) && ei.back() <= hi * (1 + 3 * le), "interpolated sizes leave the range of the inputs");
    }
    auto la = linearize_metrics(len, a);
    CLOSE(ref(get_symm<n>(la, 0)), l0, lerr * 2, "linearized metric");
    CLOSE(ref(get_symm<n>(delinearize_metrics(len, la), 0)), ms[0].m, 3 * (lerr + 2 * eig_err(l0) * nrm(l0)) * nrm(ms[0].m), "delinearize(linearize)");
    PCHECK(linearize_metrics(0, Reals({})).size() == 0 && delinearize_metrics(0, Reals({})).size() == 0, "empty fields");
  }
  s.nontrivial(n > 1 && cnt > 1 && !same);
}

template <Int n>
static void clamp_case(Src& s) {
  auto x = make(gen_frame(s, n), gen_sizes(s, n, gen_base(s)));
  auto e = eigs(x.m);
  LD h0 = 1 / std::sqrt(e.back()), h1 = 1 / std::sqrt(e[0]);
  LD lo, hi;
  switch (s.weighted({2, 2, 2, 2})) {
    case 0: lo = h0 * 0.5L, hi = h1 * 2; break;  // all inside
    case 1: lo = h0 * LD(s.uniform(0.3, 3)), hi = lo * LD(s.uniform(1., 10.)); break;
    case 2: lo = h1 * 1.5L, hi = lo * 2; break;  // all too small
    default: hi = h0 * 0.7L, lo = hi * LD(s.uniform(0.1, 1.)); break;  // all too large
  }
  Real hmin = Real(lo), hmax = Real(hi);
  s.desc("clamp to [", hmin, ",", hmax, "] ", str(x.m));
  LD l1 = 1 / (LD(hmin) * hmin), l0 = 1 / (LD(hmax) * hmax);
  auto w = func(x.m, [&](LD v) { return std::min(l1, std::max(l0, v)); });
  LD tol = 3 * eig_err(x.m) * nrm(x.m) + 1e-14L * nrm(w);
  auto got = ref(clamp_metric(lib<n, n>(x.m), hmin, hmax));
  CLOSE(got, w, tol, "clamp_metric");
  auto g = eigs(got);
  LD t2 = 1e-12L + (eig_err(x.m) < 1e-8L || n < 3 ? 1e-6L : 0.1L);
  PCHECK(g[0] >= l0 * (1 - t2) - t2 * l0 && g.back() <= l1 * (1 + t2), "clamped sizes from " << double(1 / std::sqrt(g.back())) << " to " << double(1 / std::sqrt(g[0])));
  auto f = clamp_metrics(2, repeat_symm(2, lib<n, n>(x.m)), hmin, hmax);
  CLOSE(ref(get_symm<n>(f, 1)), got, 1e-13L * nrm(w) + tol, "clamp_metrics");
  // isotropic reductions
  auto rep = repeat_symm(2, lib<n, n>(x.m));
  auto il = hv(apply_isotropy(2, rep, OMEGA_H_ISO_LENGTH)), is = hv(apply_isotropy(2, rep, OMEGA_H_ISO_SIZE));
  auto an = apply_isotropy(2, rep, OMEGA_H_ANISOTROPIC);
  PCHECK(il.size() == 2 && is.size() == 2, "sizes of isotropic fields");
  CLOSE(ref(get_symm<n>(an, 1)), x.m, 0, "anisotropic field");
  PCHECK(std::fabs(il[1] - e.back()) <= 2 * eig_err(x.m) * nrm(x.m) + 1e-14L * e.back(), "isotropic by length: " << il[1] << ", the largest eigenvalue is " << double(e.back()));
  LD d = 1;
  for (auto v : e) d *= v;
  LD r = std::pow(d, LD(1) / n);
  LD amp = e.back() / e[0];
  if (amp < 1e9L) PCHECK(std::fabs(is[1] - r) <= 1e-14L * amp * amp * r, "isotropic by size: " << is[1] << ", expected " << double(r));
  auto mi = metrics_from_isos(n, mk(is));
  M iso = eye(n);
  for (auto& v : iso.a) v *= is[0];
  CLOSE(ref(get_symm<n>(mi, 0)), iso, 0, "metrics_from_isos");
  auto lf = hv(lengths_from_isos(mk(is)));
  PCHECK(std::fabs(lf[0] * lf[0] * is[0] - 1) < 1e-14, "lengths_from_isos");
  PCHECK(std::fabs(hv(isos_from_lengths(mk(lf)))[1] - is[1]) <= 1e-14 * is[1], "isos_from_lengths");
  // metrics from derivatives
  Real eps = s.uniform(1e-3, 1.);
  M hs = gen_symm(s, n);
  LD sc = nrm(hs);
  if (sc > 1e-9L) {
    auto hm = ref(get_symm<n>(get_hessian_metrics(n, repeat_symm(1, lib<n, n>(hs)), eps), 0));
    LD c = LD(n * n) / (2 * LD(n + 1) * (n + 1)) / eps;
    auto hw = func(hs, [&](LD v) { return c * std::fabs(v); });
    LD he = eig_err(hs);
    CLOSE(hm, hw, (4 * he + (n == 3 && he > 1e-8L ? 1e-3L : 0)) * c * sc, "metric of the Hessian " << str(hs));
  }
  Vector<n> gr;
  for (int i = 0; i < n; ++i) gr[i] = s.nice() * std::pow(10., s.range(0, 4) - 2);
  auto gm = ref(get_symm<n>(get_gradient_metrics(n, repeat_vector(1, gr), eps), 0));
  M gv = refv(gr);
  M gw = mul(gv, tr(gv));
  LD gc = LD(n * n) / (4 * LD(n + 1) * (n + 1)) / (LD(eps) * eps);
  for (auto& v : gw.a) v *= gc;
  CLOSE(gm, gw, 1e-13L * nrm(gw) + 1.01e-10L, "metric of the gradient " << str(gv));
  s.nontrivial(n > 1);
}

// the intersection by simultaneous reduction with respect to the sum
static M ref_intersect(M const& a, M const& b, LD small) {
  int n = a.m;
  M sum = a;
  for (st i = 0; i < sum.a.size(); ++i) sum.a[i] += b.a[i];
  M q;
  auto e = eigs(sum, &q);
  std::vector<LD> r(e.size()), ir(e.size());
  for (st i = 0; i < e.size(); ++i) {
    r[i] = e[i] > small ? std::sqrt(e[i]) : 0;
    ir[i] = e[i] > small ? 1 / std::sqrt(e[i]) : 0;
  }
  M sq = mul(mul(q, diag(r)), tr(q)), is = mul(mul(q, diag(ir)), tr(q));
  M abar = mul(mul(is, a), is);
  auto f = func(abar, [](LD v) { return std::max(v, 1 - v); });
  // directions limited by neither stay unlimited, because sq is zero there
  (void)n;
  return mul(mul(sq, f), sq);
}
template <Int n>
static void intersect_case(Src& s) {
  double base = gen_base(s);
  auto q1 = gen_frame(s, n);
  auto q2 = s.weighted({1, 2}) ? gen_frame(s, n) : q1;
  bool commute = false;
  {
    LD d = nrm(sub(mul(tr(q1), q2), eye(n)));
    commute = d < 1e-15L;
  }
  auto h1 = gen_sizes(s, n, base), h2 = gen_sizes(s, n, base);
  int mode = s.weighted({3, 1, 1, 2});
  int nd1 = 0, nd2 = 0;
  if (mode == 1) nd1 = s.range(1, n);
  if (mode == 2) nd2 = s.range(1, n);
  if (mode == 3) nd1 = s.range(1, n), nd2 = s.range(1, n);
  auto p = s.permutation(n);
  for (int i = 0; i < nd1; ++i) h1[st(p[st(i)])] = 0;
  p = s.permutation(n);
  for (int i = 0; i < nd2; ++i) h2[st(p[st(i)])] = 0;
  if (s.chance(10)) h2 = h1, q2 = q1;  // equal
  if (s.chance(10)) {  // nested
    q2 = q1;
    h2 = h1;
    for (auto& x : h2) x *= LD(s.uniform(1, 3));
  }
  auto a = make(q1, h1), b = make(q2, h2);
  s.desc("intersect ", str(a.m), " and ", str(b.m));
  s.label("degenerate" + std::to_string(std::min(a.degen, b.degen)) + std::to_string(std::max(a.degen, b.degen)));
  auto got = ref(intersect_metrics(lib<n, n>(a.m), lib<n, n>(b.m)));
  PCHECK(finite(got), "not finite: " << str(got));
  LD big = std::max(nrm(a.m), nrm(b.m));
  // which one the reduction is based on
  bool swap = a.degen > b.degen;
  M const& m1 = swap ? b.m : a.m;
  M const& m2 = swap ? a.m : b.m;
  int deg1 = std::min(a.degen, b.degen);
  LD tol;       // absolute
  LD bar = 1;   // size of the second in units of the first
  if (deg1 == 0) {
    auto is = func(m1, [](LD v) { return 1 / std::sqrt(v); });
    auto mb = mul(mul(is, m2), is);
    bar = std::max(LD(1), nrm(mb));
    LD e1 = eig_err(m1), e2 = nrm(mb) > 1e-10L ? eig_err(mb) : 0;
    // an inexact frame in which the first is reduced changes the second a bit
    tol = 4 * e1 * nrm(m1) + 4 * e2 * bar * nrm(m1) + 1e-13L * bar * nrm(m1) * std::sqrt(nrm(m1) / eigs(m1)[0]);
    // frames of close eigenvalues are not quite orthogonal
    if (n >= 2) tol += 4 * e1 * bar * nrm(m1);
  } else {
    // both are degenerate: skip nearly (but not really) aligned null spaces
    M sum = a.m;
    for (st i = 0; i < sum.a.size(); ++i) sum.a[i] += b.m.a[i];
    auto e = eigs(sum);
    LD sm = 1e30L;
    for (auto v : e)
      if (v > 1e-15L * big) sm = std::min(sm, v);
    if (sm < 1e-4L * big && big > 0) throw Discard();
    LD em = std::max(eig_err(a.m), eig_err(b.m));
    // reductions to a plane are subject to the two-dimensional tolerance
    tol = (n == 3 && a.degen == 1 && b.degen <= 2 && b.degen >= 1 ? 2e-2L : 0) * big + (10 * em + 2e-5L) * big;
    if (n == 3 && b.degen == 1 && a.degen == 2) tol += 2e-2L * big;
  }
  CLOSE(got, tr(got), 1e-9L * big + tol, "symmetry");
  // never a larger size than either allows
  for (auto& v : gen_dirs(s, n, a.m, b.m)) {
    LD g = quad(got, v), wa = quad(a.m, v), wb = quad(b.m, v);
    if (!(g >= std::max(wa, wb) - tol)) PFAIL("in direction " << str(v) << " the intersection " << str(got) << " measures " << double(g) << ", the inputs " << double(wa) << " and " << double(wb) << ", tolerance " << double(tol));
    // and no smaller than it has to be: at most the sum
    if (!(g <= wa + wb + tol)) PFAIL("in direction " << str(v) << " the intersection " << str(got) << " measures " << double(g) << ", more than the sum of the inputs " << double(wa) << " and " << double(wb));
  }
  auto want = ref_intersect(a.m, b.m, 1e-12L * big);
  CLOSE(got, want, 2 * tol, "intersection of " << str(a.m) << " and " << str(b.m));
  auto got2 = ref(intersect_metrics(lib<n, n>(b.m), lib<n, n>(a.m)));
  LD tol2 = tol;
  if (deg1 == 0 && a.degen == b.degen) {
    auto is = func(b.m, [](LD v) { return 1 / std::sqrt(v); });
    auto mb = mul(mul(is, a.m), is);
    LD br = std::max(LD(1), nrm(mb));
    tol2 = (n >= 2 ? 4 * eig_err(b.m) * br * nrm(b.m) : 0) + 4 * eig_err(b.m) * nrm(b.m) + 4 * eig_err(mb) * br * nrm(b.m) + 1e-13L * br * nrm(b.m) * std::sqrt(nrm(b.m) / eigs(b.m)[0]);
  }
  CLOSE(got2, want, 2 * tol2, "intersection in the other order");
  if (commute) {
    // exact in a common frame
    std::vector<LD> e;
    for (int i = 0; i < n; ++i) {
      LD x = h1[st(i)] == 0 ? 0 : 1 / (h1[st(i)] * h1[st(i)]), y = h2[st(i)] == 0 ? 0 : 1 / (h2[st(i)] * h2[st(i)]);
      e.push_back(std::max(x, y));
    }
    CLOSE(got, mul(mul(q1, diag(e)), tr(q1)), 2 * tol + 1e-14L * big, "intersection of commuting metrics");
  }
  if (a.degen == 0 && b.degen == 0) {
    auto f = intersect_metrics(2, repeat_symm(2, lib<n, n>(a.m)), repeat_symm(2, lib<n, n>(b.m)));
    CLOSE(ref(get_symm<n>(f, 1)), got, 1e-12L * big + tol, "intersection of fields");
  }
  s.nontrivial(n > 1 && !commute);
}

static void algebra(Src& s, Env& e) {
  switch (s.weighted({2, 2, 1, 2, 2, 1, 2, 2, 1})) {
    case 0: return compose_case<2>(s);
    case 1: return compose_case<3>(s);
    case 2: return compose_case<1>(s);
    case 3: return average_case<2>(s, e);
    case 4: return average_case<3>(s, e);
    case 5: return average_case<1>(s, e);
    case 6: return clamp_case<2>(s);
    case 7: return clamp_case<3>(s);
    default: return clamp_case<1>(s);
  }
}
static void intersection(Src& s, Env&) {
  switch (s.weighted({4, 5, 1})) {
    case 0: return intersect_case<2>(s);
    case 1: return intersect_case<3>(s);
    default: return intersect_case<1>(s);
  }
}

int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"algebra", algebra, 40000, 2000000, {1}, true, "at least two dimensions; averages of at least two different metrics"});
  t.push_back({"intersection", intersection, 40000, 2000000, {1}, true, "at least two dimensions, different frames"});
  return run(argc, argv, t);
}
