// C02: order- and partition-independent sums, and the 128-bit integers under them
#include <Omega_h_int128.hpp>
#include <algorithm>
#include "arr.hpp"
using namespace pbt;
typedef std::size_t st;
typedef __int128 i128;

static std::vector<Real> gen_values(Src& s, int n) {
  std::vector<Real> v;
  int mode = s.weighted({3, 3, 3, 2, 1, 1, 1});
  int e0 = s.range(0, 1900) - 950;
  for (int i = 0; i < n; ++i) {
    switch (mode) {
      case 0: v.push_back(s.nice(10.)); break;
      case 1: v.push_back(s.uniform(-1., 1.) * std::ldexp(1.0, s.range(0, 60) - 30)); break;
      case 2: v.push_back(s.uniform(-1., 1.)); break;
      case 3: {  // cancellation
        if (i && s.chance(40)) v.push_back(-v[st(s.range(0, i - 1))]);
        else v.push_back(s.uniform(-1e6, 1e6));
        break;
      }
      case 4: v.push_back(s.below(4) ? 0.0 : s.nice()); break;
      case 5: v.push_back((s.below(2) ? 1. : -1.) * std::ldexp(s.uniform(0.5, 1.0), e0 + s.range(0, 70))); break;
      default: v.push_back((s.below(2) ? 1. : -1.) * std::ldexp(s.uniform(0.5, 1.0), -1074 + s.range(0, 120))); break;
    }
  }
  s.label(std::string("mode") + std::to_string(mode));
  return v;
}
static void check_exact(std::vector<Real> const& v, Real got, std::string const& what) {
  Real mx = 0;
  for (auto x : v) mx = std::max(mx, std::fabs(x));
  if (mx == 0) {
    PCHECK(got == 0, what << " of zeros is " << got);
    return;
  }
  int e;
  std::frexp(mx, &e);
  // the sum is exact up to one unit (2^(e-52)) per entry, plus final rounding
  __float128 ex = 0;
  for (auto x : v) ex += x;
  __float128 unit = 1;
  for (int i = 0; i < std::abs(e - 52); ++i) unit = (e - 52) > 0 ? unit * 2 : unit / 2;
  __float128 tiny = 1;
  for (int i = 0; i < 1074; ++i) tiny /= 2;
  if (unit < tiny) unit = tiny;
  __float128 a = ex < 0 ? -ex : ex;
  __float128 tol = unit * double(v.size()) + a * 3e-16 + tiny;
  __float128 d = ex - got;
  if (d < 0) d = -d;
  if (!(d <= tol)) PFAIL(what << " is " << got << ", exact " << double(ex) << ", " << double(d / unit) << " units off, n=" << v.size());
}
static void serial(Src& s, Env& e) {
  int n = s.weighted({4, 3, 1}) == 0 ? s.range(0, 8) : s.range(0, 300);
  auto v = gen_values(s, n);
  std::set<Real> d(v.begin(), v.end());
  s.nontrivial(d.size() >= 3);
  s.desc("repro_sum n=", n, " ", show(v, 8));
  Real r = repro_sum(mk(v));
  check_exact(v, r, "repro_sum");
  auto v2 = v;
  for (int k = 0; k < 2; ++k) {
    auto p = s.permutation(n);
    for (int i = 0; i < n; ++i) v2[st(i)] = v[st(p[st(i)])];
    Real r2 = repro_sum(mk(v2));
    PCHECK(biteq(r, r2), "permuted sum " << r2 << " vs " << r);
    Real r3 = repro_sum(e.lib->self(), mk(v2));
    PCHECK(biteq(r, r3), "sum over one process " << r3 << " vs " << r);
  }
  // appending zeros changes nothing; appending the negation cancels exactly
  auto z = v;
  for (int k = s.range(0, 3); k > 0; --k) z.insert(z.begin() + s.range(0, int(z.size())), 0.0);
  PCHECK(biteq(repro_sum(mk(z)), r), "zeros change the sum");
  auto neg = v;
  for (auto& x : neg) x = -x;
  Real rn = repro_sum(mk(neg));
  PCHECK(rn == -r, "sum of negated values " << rn << " vs " << r);
  neg.insert(neg.end(), v.begin(), v.end());
  PCHECK(repro_sum(mk(neg)) == 0, "values and their negations do not cancel");
}
static void components(Src& s, Env& e) {
  int w = s.range(1, 6), n = s.range(0, 30);
  std::vector<Real> all;
  std::vector<std::vector<Real>> cs;
  for (int j = 0; j < w; ++j) cs.push_back(gen_values(s, n));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < w; ++j) all.push_back(cs[st(j)][st(i)]);
  s.nontrivial(w > 1 && n > 1);
  s.desc("components n=", n, " w=", w);
  std::vector<Real> r(static_cast<st>(w), -7.);
  repro_sum(e.lib->self(), mk(all), w, r.data());
  for (int j = 0; j < w; ++j) {
    Real want = repro_sum(mk(cs[st(j)]));
    PCHECK(biteq(r[st(j)], want) || (r[st(j)] == 0 && want == 0), "component " << j << " " << r[st(j)] << " vs " << want);
  }
}
static void partition(Src& s, Env& e) {
  int n = s.weighted({3, 2}) == 0 ? s.range(0, 12) : s.range(0, 200);
  auto v = gen_values(s, n);
  bool skew = s.chance(30);
  std::vector<int> owner;
  for (int i = 0; i < n; ++i) owner.push_back(skew ? (s.chance(90) ? 0 : s.range(0, e.np - 1)) : s.range(0, e.np - 1));
  auto p = s.permutation(n);
  std::vector<Real> mine;
  for (int i = 0; i < n; ++i)
    if (owner[st(p[st(i)])] == e.rank) mine.push_back(v[st(p[st(i)])]);
  std::set<Real> d(v.begin(), v.end());
  std::set<int> used(owner.begin(), owner.end());
  s.nontrivial(d.size() >= 3 && used.size() >= 2);
  s.desc("partitioned sum n=", n, " over ", used.size(), "/", e.np, " ranks");
  Real r = repro_sum(e.comm, mk(mine));
  Real serial = repro_sum(e.lib->self(), mk(v));
  PCHECK(biteq(r, serial), "partitioned sum " << r << " whole sum " << serial);
  // two components: the values and their halves
  std::vector<Real> two;
  for (auto x : mine) {
    two.push_back(x);
    two.push_back(x * 0.5);
  }
  Real rr[2];
  repro_sum(e.comm, mk(two), 2, rr);
  PCHECK(biteq(rr[0], serial), "component 0 " << rr[0] << " vs " << serial);
  std::vector<Real> half;
  for (auto x : v) half.push_back(x * 0.5);
  Real sh = repro_sum(e.lib->self(), mk(half));
  PCHECK(biteq(rr[1], sh), "component 1 " << rr[1] << " vs " << sh);
  // plain reductions over the same partition
  std::vector<I32> iv, imine;
  for (int i = 0; i < n; ++i) {
    iv.push_back(s.range(0, 2000) - 1000);
    if (owner[st(i)] == e.rank) imine.push_back(iv.back());
  }
  I64 isum = 0;
  for (auto x : iv) isum += x;
  PCHECK(get_sum(e.comm, mk(imine)) == isum, "get_sum");
  if (n) {
    PCHECK(get_min(e.comm, mk(imine)) == *std::min_element(iv.begin(), iv.end()), "get_min");
    PCHECK(get_max(e.comm, mk(imine)) == *std::max_element(iv.begin(), iv.end()), "get_max");
    auto mm = get_minmax(e.comm, mk(mine));
    PCHECK(mm.min == *std::min_element(v.begin(), v.end()) && mm.max == *std::max_element(v.begin(), v.end()), "get_minmax");
  }
}
static i128 to128(Int128 x) { return (i128(x.high) << 64) | i128(x.low); }
static Int128 from128(i128 x) { return Int128(std::int64_t(x >> 64), std::uint64_t(x)); }
static i128 gen128(Src& s) {
  i128 x;
  switch (s.weighted({2, 2, 2, 2})) {
    case 0: x = s.range(0, 20) - 10; break;
    case 1: x = (i128(1) << s.range(0, 124)) - s.range(0, 2); break;
    case 2: x = -((i128(1) << s.range(0, 124)) - s.range(0, 2)); break;
    default: {
      unsigned __int128 u = 0;
      for (int i = 0; i < 4; ++i) u = (u << 32) | s.below(1ull << 32);
      x = i128(u) >> s.range(1, 126);
    }
  }
  return x;
}
static void int128(Src& s, Env&) {
  i128 a = gen128(s), b = s.chance(10) ? a : gen128(s);
  Int128 A = from128(a), B = from128(b);
  s.nontrivial(a != 0 && b != 0);
  s.desc("int128 high=", A.high, " low=", A.low, " and high=", B.high, " low=", B.low);
  PCHECK(to128(A + B) == a + b, "+");
  PCHECK(to128(A - B) == a - b, "-");
  PCHECK(to128(-A) == -a, "negation");
  PCHECK((A < B) == (a < b), "<");
  PCHECK((A == B) == (a == b), "==");
  int sh = s.range(1, 63);
  PCHECK(to128(A >> sh) == (a >> sh), ">> " << sh);
  std::int64_t v = std::int64_t(s.below(1ull << 62)) * (s.below(2) ? 1 : -1);
  PCHECK(to128(Int128(v)) == i128(v), "from int64");
  int k = s.range(0, 80) - 40;
  Real unit = std::ldexp(1.0, k);
  Real got = A.to_double(unit);
  // nearest double of a, scaled; the library may truncate low bits first
  long double want = (long double)(a)*std::ldexp(1.0L, k);
  long double err = std::fabs((long double)got - want);
  PCHECK(err <= std::fabs(want) * 4e-16L, "to_double " << got << " want " << double(want));
  Real x = std::ldexp(double(s.below(1ull << 53)) * (s.below(2) ? 1 : -1), -s.range(0, 53));
  PCHECK(to128(Int128::from_double(x * unit, unit)) == i128(x), "from_double " << x);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"serial", serial, 20000, 400000, {1}, true, "at least three different values"},
    {"components", components, 4000, 80000, {1}, true, "several components and entries"},
    {"partition", partition, 6000, 60000, {2, 3, 4, 7}, true, "at least three different values on at least two processes"},
    {"int128", int128, 60000, 1000000, {1}, false, "two non-zero operands"},
  });
}
