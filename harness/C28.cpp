// C28: random numbers keyed by entity; distributions
#include <Omega_h_random.hpp>
#include <Omega_h_random_inline.hpp>
#include <algorithm>
#include <cmath>
#include "pmesh.hpp"
using namespace pbt;
using namespace pbt;
typedef long double ld;

// Philox 4x32, ten rounds
static std::array<std::uint32_t, 4> philox(std::array<std::uint32_t, 4> c, std::uint32_t k0, std::uint32_t k1) {
  for (int r = 0; r < 10; ++r) {
    std::uint64_t p0 = 0xD2511F53ull * c[0], p1 = 0xCD9E8D57ull * c[2];
    c = {{std::uint32_t(p1 >> 32) ^ c[1] ^ k0, std::uint32_t(p1), std::uint32_t(p0 >> 32) ^ c[3] ^ k1, std::uint32_t(p0)}};
    k0 += 0x9E3779B9u;
    k1 += 0xBB67AE85u;
  }
  return c;
}
static Real reference(I64 seed, I64 key, I64 counter) {
  auto b = std::uint64_t(counter) >> 1, q = std::uint64_t(seed), k = std::uint64_t(key);
  auto o = philox({{std::uint32_t(b), std::uint32_t(b >> 32), std::uint32_t(q), std::uint32_t(q >> 32)}}, std::uint32_t(k), std::uint32_t(k >> 32));
  st h = counter & 1 ? 2 : 0;
  auto x = std::uint64_t(o[h]) | (std::uint64_t(o[h + 1]) << 32);
  return Real(x) / Real(~std::uint64_t(0));
}
static I64 number(Src& s) {
  switch (s.range(0, 3)) {
    case 0: return s.range(0, 20);
    case 1: return I64(s.range(0, 5)) << 32;
    case 2: return (I64(s.range(1, 1 << 30)) << 32) + s.range(0, 1 << 30);
    default: return (I64(1) << s.range(0, 62)) + s.range(0, 1);
  }
}
void t_stream(Src& s, Env& e) {
  I64 seed = number(s), key = number(s), c0 = s.chance(50) ? s.range(0, 9) : number(s);
  int n = s.range(1, 12);
  s.desc("seed ", seed, " key ", key, " counter ", c0, " x", n);
  s.nontrivial(n > 1);
  UnitUniformDistribution d(seed, key, c0);
  std::vector<Real> v;
  for (int i = 0; i < n; ++i) v.push_back(d());
  for (int i = 0; i < n; ++i) {
    UnitUniformDistribution f(seed, key, c0 + i);
    Real x = f(), y = v[st(i)];
    if (!(x >= 0 && x <= 1)) PFAIL("value " << x);
    if (!biteq(x, y)) PFAIL("counter " << c0 + i << " gives " << x << ", the stream from " << c0 << " gives " << y);
    if (!biteq(x, reference(seed, key, c0 + i))) PFAIL("counter " << c0 + i << " gives " << x << " expected " << reference(seed, key, c0 + i));
  }
  // other seeds, keys and counters give other values
  auto at = [&](I64 a, I64 b, I64 c) { return UnitUniformDistribution(a, b, c)(); };
  int bit = s.range(0, 62);
  I64 m = I64(1) << bit;
  if (at(seed ^ m, key, c0) == v[0] || at(seed, key ^ m, c0) == v[0] || at(seed, key, c0 ^ m) == v[0]) PFAIL("changing bit " << bit << " of seed, key or counter changes nothing");
  for (st i = 0; i < v.size(); ++i)
    for (st j = 0; j < i; ++j)
      if (v[i] == v[j]) PFAIL("values " << i << " and " << j << " of a stream are equal");
  // arrays
  std::vector<GO> g;
  int k = s.range(0, 8);
  for (int i = 0; i < k; ++i) g.push_back(s.chance(30) && i ? g[0] : number(s));
  auto r = hv(unit_uniform_random_reals_from_globals(mk(g), seed, c0));
  if (r.size() != g.size()) PFAIL("wrong size");
  for (st i = 0; i < g.size(); ++i)
    if (!biteq(r[i], reference(seed, g[i], c0))) PFAIL("entity " << g[i] << " gets " << r[i] << " expected " << reference(seed, g[i], c0));
}
void t_mesh(Src& s, Env& e) {
  RawOpt o;
  int dim = s.range(1, 3);
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, o);
  Mesh m(e.lib);
  if (e.np == 1 || e.rank == 0) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, gen_part(s, e.np, r.ne()));
  if (e.np > 1 && s.chance(50)) m.set_parting(OMEGA_H_GHOSTED, 1, false);
  I64 seed = number(s), c = number(s);
  s.desc(dim, "D ", r.ne(), " elements seed ", seed, " counter ", c);
  s.nontrivial(r.ne() > 1);
  for (int d = 0; d <= dim; ++d) {
    auto g = hv(m.globals(d));
    auto v = hv(unit_uniform_random_reals_from_globals(m.globals(d), seed, c));
    for (st i = 0; i < g.size(); ++i)
      if (!biteq(v[i], reference(seed, g[i], c))) PFAIL("entity " << g[i] << " of dimension " << d << " gets " << v[i]);
    m.add_tag<Real>(d, "rnd", 1, mk(v));
  }
  gather_checked(e, m);
}
// distribution of many values
static void uniform_ok(std::vector<Real> v, char const* what) {
  ld n = ld(v.size()), sum = 0, sq = 0, lag = 0;
  std::array<int, 16> b{};
  for (st i = 0; i < v.size(); ++i) {
    sum += v[i] - 0.5;
    sq += (v[i] - 0.5) * (v[i] - 0.5);
    if (i) lag += (v[i] - 0.5) * (v[i - 1] - 0.5);
    b[std::min<st>(15, st(v[i] * 16))]++;
  }
  ld chi = 0;
  for (int x : b) chi += (x - n / 16) * (x - n / 16) / (n / 16);
  if (std::fabs(sum / n) > 7 * std::sqrt(1 / (12 * n))) PFAIL(what << ": mean " << double(sum / n) + .5);
  if (std::fabs(sq / n - 1 / 12.L) > 7 * std::sqrt(1 / (180 * n))) PFAIL(what << ": variance " << double(sq / n));
  if (std::fabs(lag / n) > 7 / (12 * std::sqrt(n))) PFAIL(what << ": neighbours are correlated by " << double(lag / n));
  if (chi > 75) PFAIL(what << ": uneven, chi squared " << double(chi));
}
void t_spread(Src& s, Env&) {
  I64 seed = number(s), key = number(s), c0 = number(s) & ~I64(1);
  int n = s.pick({1000, 3000});
  s.desc("seed ", seed, " key ", key, " counter ", c0, " n ", n);
  s.nontrivial(true);
  std::vector<Real> a, b, c;
  UnitUniformDistribution d(seed, key, c0);
  for (int i = 0; i < n; ++i) {
    a.push_back(d());
    b.push_back(UnitUniformDistribution(seed, key + i, c0)());
    c.push_back(UnitUniformDistribution(seed + i, key, c0)());
  }
  uniform_ok(a, "along a stream");
  uniform_ok(b, "along the keys");
  uniform_ok(c, "along the seeds");
  // normal values
  UnitUniformDistribution u(seed, key, c0);
  StandardNormalDistribution nd;
  std::vector<Real> x;
  for (int i = 0; i < n; ++i) x.push_back(nd(u));
  UnitUniformDistribution u2(seed, key, c0);
  StandardNormalDistribution nd2;
  ld sum = 0, sq = 0, lag = 0;
  for (st i = 0; i < x.size(); ++i) {
    if (!biteq(x[i], nd2(u2))) PFAIL("normal values are not reproducible");
    if (!std::isfinite(x[i])) PFAIL("normal value " << x[i]);
    sum += x[i];
    sq += x[i] * x[i];
    if (i) lag += x[i] * x[i - 1];
  }
  if (std::fabs(sum / n) > 7 / std::sqrt(ld(n))) PFAIL("normal mean " << double(sum / n));
  if (std::fabs(sq / n - 1) > 7 * std::sqrt(2 / ld(n))) PFAIL("normal variance " << double(sq / n));
  if (std::fabs(lag / n) > 7 / std::sqrt(ld(n))) PFAIL("normal neighbours are correlated by " << double(lag / n));
  // Kolmogorov and Smirnov's distance to the library's distribution functions
  Real mean = s.pick({0., 3., -10.}), dev = s.pick({1., 0.1, 4.});
  Real shape = s.pick({0.5, 1., 2., 5.}), scale = s.pick({1., 0.01, 30.});
  auto ks = [&](std::vector<Real> p, char const* what) {
    std::sort(p.begin(), p.end());
    ld D = 0;
    for (st i = 0; i < p.size(); ++i) D = std::max({D, std::fabs(p[i] - ld(i) / n), std::fabs(p[i] - ld(i + 1) / n)});
    if (D * std::sqrt(ld(n)) > 3.2L) PFAIL(what << ": distance " << double(D));
  };
  std::vector<Real> p, q;
  for (auto y : x) p.push_back(cumulative_general_normal_density(mean, dev, mean + dev * y));
  for (auto y : a) q.push_back(cumulative_weibull_density(shape, scale, weibull_quantile(shape, scale, y)));
  ks(p, "normal values");
  ks(q, "Weibull values");
}
void t_functions(Src& s, Env&) {
  Real mean = s.nice(10.), dev = std::fabs(s.nice(5.)) + 0.05, z = s.uniform(-6., 6.);
  Real shape = s.uniform(0.4, 6.), scale = s.pick({1., 0.01, 30.}), p = s.uniform(0., 1.);
  if (s.chance(5)) p = s.pick({0., 1e-9, 1 - 1e-9});
  s.desc("mean ", mean, " dev ", dev, " z ", z, " shape ", shape, " scale ", scale, " p ", p);
  s.nontrivial(true);
  // normal
  ld want = std::erfc(-ld(z) / std::sqrt(2.L)) / 2, dens = std::exp(-ld(z) * z / 2) / std::sqrt(2 * std::acos(-1.L));
  if (std::fabs(cumulative_standard_normal_density(z) - want) > 1e-14L) PFAIL("cumulative normal of " << z << " is " << cumulative_standard_normal_density(z) << " expected " << double(want));
  if (std::fabs(standard_normal_density(z) - dens) > 1e-14L) PFAIL("normal density of " << z);
  Real x = mean + dev * z;
  if (std::fabs(cumulative_general_normal_density(mean, dev, x) - want) > 1e-11L) PFAIL("cumulative normal " << mean << " " << dev << " of " << x);
  if (std::fabs(general_normal_density(mean, dev, x) * dev - dens) > 1e-11L) PFAIL("normal density " << mean << " " << dev << " of " << x);
  // Weibull
  Real w = weibull_quantile(shape, scale, p), back = cumulative_weibull_density(shape, scale, w);
  if (!(w >= 0) || std::fabs(back - p) > 1e-11) PFAIL("Weibull quantile of " << p << " is " << w << " and back " << back);
  Real p2 = std::min(1., p + s.uniform(0., 0.1));
  if (weibull_quantile(shape, scale, p2) < w) PFAIL("Weibull quantiles are not monotone");
  Real y = scale * s.uniform(0.05, 3.), h = y * 1e-4;
  ld cw = -std::expm1(-std::pow(ld(y) / scale, ld(shape)));
  if (std::fabs(cumulative_weibull_density(shape, scale, y) - cw) > 1e-13L) PFAIL("cumulative Weibull of " << y << " is " << cumulative_weibull_density(shape, scale, y) << " expected " << double(cw));
  ld slope = (cumulative_weibull_density(shape, scale, y + h) - ld(cumulative_weibull_density(shape, scale, y - h))) / (2 * h);
  if (std::fabs(weibull_density(shape, scale, y) - slope) * scale > 1e-3L * (1 + std::fabs(slope) * scale)) PFAIL("Weibull density of " << y << " is " << weibull_density(shape, scale, y) << ", the slope " << double(slope));
  if (weibull_density(shape, scale, -y) != 0 || cumulative_weibull_density(shape, scale, -y) != 0) PFAIL("Weibull functions of negative values");
  if (!std::isfinite(weibull_quantile(shape, scale, 1.))) PFAIL("Weibull quantile of one");
  // chi squared, by recurrence over the degrees of freedom
  int k = s.chance(50) ? s.range(1, 10) : s.range(1, 400);
  Real c = s.chance(20) ? s.uniform(0., 2000.) : k * s.uniform(0., 3.);
  ld zz = ld(c) / 2, P = k % 2 ? std::erf(std::sqrt(zz)) : -std::expm1(-zz), sh = k % 2 ? 0.5L : 1.L;
  while (sh + 0.5L < k / 2.L) {
    P -= std::exp(sh * std::log(zz) - zz - std::lgamma(sh + 1));
    sh += 1;
  }
  Real got = cumulative_chi_squared_density(k, c);
  if (!(std::fabs(got - P) <= 1e-9L)) PFAIL("cumulative chi squared with " << k << " degrees of freedom of " << c << " is " << got << " expected " << double(P));
  if (cumulative_chi_squared_density(k, c + 0.1) < got - 1e-9) PFAIL("cumulative chi squared is not monotone");
  if (cumulative_chi_squared_density(k, -c - 1) != 0 || cumulative_chi_squared_density(k, 0.) != 0) PFAIL("chi squared of nothing");
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"stream", t_stream, 40000, 1000000, {1}, true, "several values of a stream"});
  t.push_back({"mesh", t_mesh, 400, 10000, {1, 2, 3, 4}, true, "more than one element"});
  t.push_back({"spread", t_spread, 1500, 40000, {1}, true, "always"});
  t.push_back({"functions", t_functions, 40000, 1000000, {1}, true, "always"});
  return run(argc, argv, t);
}
