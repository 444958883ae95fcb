// C01: array, map, sort, scan and graph primitives against sequential references
#include <Omega_h_graph.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_sort.hpp>
#include <algorithm>
#include <limits>
#include <numeric>
#include "arr.hpp"
using namespace pbt;
typedef std::size_t st;

static int gen_len(Src& s) {
  switch (s.weighted({2, 5, 4, 1})) {
    case 0: return s.range(0, 1);
    case 1: return s.range(0, 12);
    case 2: return s.range(0, 80);
    default: return s.range(0, 600);
  }
}
template <class T> struct Gen;
template <> struct Gen<I8> {
  static I8 small(Src& s) { return I8(s.range(0, 10) - 5); }
  static I8 any(Src& s) { return s.below(3) ? I8(s.range(0, 255) - 128) : small(s); }
};
template <class T> struct GenInt {
  static T small(Src& s) { return T(s.range(0, 40) - 20); }
  static T any(Src& s) {
    switch (s.weighted({4, 2, 2, 2})) {
      case 0: return small(s);
      case 1: return std::numeric_limits<T>::max() - T(s.range(0, 3));
      case 2: return std::numeric_limits<T>::min() + T(s.range(0, 3));
      default: {
        u64 v = (s.below(1ull << 32) << 32) | s.below(1ull << 32);
        return T(v);
      }
    }
  }
};
template <> struct Gen<I32> : GenInt<I32> {};
template <> struct Gen<I64> : GenInt<I64> {};
template <> struct Gen<Real> {
  static Real small(Src& s) { return Real(s.range(0, 40) - 20) / 4.0; }
  static Real any(Src& s) { return s.any_real(); }
};
template <class T> std::vector<T> vec(Src& s, int n, bool any) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(any ? Gen<T>::any(s) : Gen<T>::small(s));
  return v;
}
template <class T, class F> std::vector<T> mapv(int n, F f) {
  std::vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(f(st(i)));
  return v;
}
template <class T> std::string tn();
template <> std::string tn<I8>() { return "I8"; }
template <> std::string tn<I32>() { return "I32"; }
template <> std::string tn<I64>() { return "I64"; }
template <> std::string tn<Real>() { return "Real"; }

template <class T> void elementwise_t(Src& s) {
  int n = gen_len(s);
  int w = s.range(1, 4);
  auto va = vec<T>(s, n, true), vb = vec<T>(s, n, true);
  // make collisions likely
  for (int i = 0; i < n; ++i)
    if (s.chance(20)) vb[st(i)] = va[st(i)];
  T c = (n && s.chance(50)) ? va[st(s.range(0, n - 1))] : Gen<T>::any(s);
  auto a = mk(va), b = mk(vb);
  s.nontrivial(n >= 2);
  s.label(tn<T>());
  s.label(n == 0 ? "empty" : n == 1 ? "one" : "many");
  s.desc("elementwise ", tn<T>(), " n=", n, " a=", show(va, 6), " b=", show(vb, 6));
  auto N = n;
#define CMP(name, call, expr) same(call, mapv<I8>(N, [&](st i) { return I8((expr) ? 1 : 0); }), name)
  CMP("each_eq", each_eq(a, b), va[i] == vb[i]);
  CMP("eq_each", eq_each(a, b), va[i] == vb[i]);
  CMP("neq_each", neq_each(a, b), va[i] != vb[i]);
  CMP("gt_each", gt_each(a, b), va[i] > vb[i]);
  CMP("lt_each", lt_each(a, b), va[i] < vb[i]);
  CMP("each_geq_to", each_geq_to(a, c), va[i] >= c);
  CMP("each_leq_to", each_leq_to(a, c), va[i] <= c);
  CMP("each_gt", each_gt(a, c), va[i] > c);
  CMP("each_lt", each_lt(a, c), va[i] < c);
  CMP("each_eq_to", each_eq_to(a, c), va[i] == c);
  CMP("each_neq_to", each_neq_to(a, c), va[i] != c);
#undef CMP
  auto eqv = [&](Read<T> got, std::vector<T> const& want, char const* what) {
    auto g = hv(got);
    PCHECK(g.size() == want.size(), what);
    for (st i = 0; i < g.size(); ++i) PCHECK(g[i] == want[i], what << " at " << i << " got " << +g[i] << " want " << +want[i]);
  };
  eqv(min_each(a, b), mapv<T>(N, [&](st i) { return std::min(va[i], vb[i]); }), "min_each");
  eqv(max_each(a, b), mapv<T>(N, [&](st i) { return std::max(va[i], vb[i]); }), "max_each");
  eqv(each_max_with(a, c), mapv<T>(N, [&](st i) { return std::max(va[i], c); }), "each_max_with");
  PCHECK((a == b) == (va == vb), "array equality");
  PCHECK(a == mk(va), "array equality with a copy");
  // ternary with width
  {
    auto vx = vec<T>(s, n * w, true), vy = vec<T>(s, n * w, true);
    std::vector<I8> vc;
    for (int i = 0; i < n; ++i) vc.push_back(I8(s.below(2)));
    same(ternary_each(mk(vc), mk(vx), mk(vy)),
        mapv<T>(n * w, [&](st i) { return vc[i / st(w)] ? vx[i] : vy[i]; }), "ternary_each");
  }
  // arithmetic on small values (no overflow)
  auto vp = vec<T>(s, n, false), vq = vec<T>(s, n, false);
  auto p = mk(vp), q = mk(vq);
  T k = Gen<T>::small(s);
  same(add_each(p, q), mapv<T>(N, [&](st i) { return T(vp[i] + vq[i]); }), "add_each");
  same(subtract_each(p, q), mapv<T>(N, [&](st i) { return T(vp[i] - vq[i]); }), "subtract_each");
  same(add_to_each(p, k), mapv<T>(N, [&](st i) { return T(vp[i] + k); }), "add_to_each");
  same(subtract_from_each(p, k), mapv<T>(N, [&](st i) { return T(vp[i] - k); }), "subtract_from_each");
  same(multiply_each_by(p, k), mapv<T>(N, [&](st i) { return T(vp[i] * k); }), "multiply_each_by");
  {
    T d = k == 0 ? T(1) : k;
    same(divide_each_by(p, d), mapv<T>(N, [&](st i) { return T(vp[i] / d); }), "divide_each_by");
    auto vm = vec<T>(s, n * w, false);
    auto vd = vq;
    for (auto& x : vd)
      if (x == 0) x = T(3);
    same(multiply_each(mk(vm), q), mapv<T>(n * w, [&](st i) { return T(vm[i] * vq[i / st(w)]); }), "multiply_each");
    same(divide_each(mk(vm), mk(vd)), mapv<T>(n * w, [&](st i) { return T(vm[i] / vd[i / st(w)]); }), "divide_each");
  }
  // components
  {
    auto vm = vec<T>(s, n * w, true);
    int comp = s.range(0, w - 1);
    auto m = mk(vm);
    same(get_component(m, w, comp), mapv<T>(n, [&](st i) { return vm[i * st(w) + st(comp)]; }), "get_component");
    Write<T> o = deep_copy(m);
    set_component(o, a, w, comp);
    same(o, mapv<T>(n * w, [&](st i) { return int(i % st(w)) == comp ? va[i / st(w)] : vm[i]; }), "set_component");
    same(m, vm, "set_component must not change the source of a copy");
    std::vector<Read<T>> parts;
    std::vector<T> want(st(n * w));
    for (int j = 0; j < w; ++j) parts.push_back(get_component(m, w, j));
    same(interleave(parts), vm, "interleave of components");
    // concatenation of arrays of different lengths
    std::vector<Read<T>> cs;
    std::vector<T> cw;
    int np = s.range(0, 4);
    for (int j = 0; j < np; ++j) {
      auto x = vec<T>(s, s.range(0, 6), true);
      cw.insert(cw.end(), x.begin(), x.end());
      cs.push_back(mk(x));
    }
    if (np) same(coalesce(cs), cw, "coalesce");
  }
  same(a, va, "input a unchanged");
  same(b, vb, "input b unchanged");
  same(p, vp, "input p unchanged");
}
static void elementwise(Src& s, Env&) {
  switch (s.range(0, 3)) {
    case 0: elementwise_t<I32>(s); break;
    case 1: elementwise_t<I8>(s); break;
    case 2: elementwise_t<I64>(s); break;
    default: elementwise_t<Real>(s);
  }
}
static void special(Src& s, Env&) {
  int n = gen_len(s), w = s.range(1, 3);
  s.nontrivial(n >= 2);
  s.desc("special n=", n, " w=", w);
  std::vector<I8> x, y;
  for (int i = 0; i < n; ++i) {
    x.push_back(I8(s.range(0, 3)));
    y.push_back(I8(s.range(0, 3)));
  }
  same(land_each(mk(x), mk(y)), mapv<I8>(n, [&](st i) { return I8(x[i] && y[i]); }), "land_each");
  same(lor_each(mk(x), mk(y)), mapv<I8>(n, [&](st i) { return I8(x[i] || y[i]); }), "lor_each");
  same(bit_or_each(mk(x), mk(y)), mapv<I8>(n, [&](st i) { return I8(x[i] | y[i]); }), "bit_or_each");
  same(bit_neg_each(mk(x)), mapv<I8>(n, [&](st i) { return I8(~x[i]); }), "bit_neg_each");
  auto r = vec<Real>(s, n, true);
  same(fabs_each(mk(r)), mapv<Real>(n, [&](st i) { return std::fabs(r[i]); }), "fabs_each");
  std::vector<Real> e, num, den;
  for (int i = 0; i < n; ++i) e.push_back(s.uniform(0.1, 3.0));
  for (int i = 0; i < n; ++i) {
    bool z = s.chance(30);
    den.push_back(z ? 0.0 : s.uniform(0.5, 2.0));
    for (int j = 0; j < w; ++j) num.push_back(z ? 0.0 : s.uniform(-2., 2.));
  }
  same(divide_each_maybe_zero(mk(num), mk(den)),
      mapv<Real>(n * w, [&](st i) { return den[i / st(w)] == 0.0 ? 0.0 : num[i] / den[i / st(w)]; }), "divide_each_maybe_zero");
  auto f = vec<Real>(s, n, false);
  same(invert_each(mk(e)), mapv<Real>(n, [&](st i) { return 1.0 / e[i]; }), "invert_each");
  same(pow_each(mk(e), mk(f)), mapv<Real>(n, [&](st i) { return std::pow(e[i], f[i]); }), "pow_each");
  Real t = s.pick<Real>({0.0, 1.0, 0.5, 0.25});
  auto ib = hv(interpolate_between(mk(e), mk(f), t));
  for (int i = 0; i < n; ++i)
    PCHECK(std::fabs(ib[st(i)] - (e[st(i)] * (1 - t) + f[st(i)] * t)) < 1e-12, "interpolate_between");
  std::vector<I32> ii = vec<I32>(s, n, true);
  same(array_cast<Real>(mk(ii)), mapv<Real>(n, [&](st i) { return Real(ii[i]); }), "array_cast<Real>(I32)");
  same(array_cast<I32>(mk(x)), mapv<I32>(n, [&](st i) { return I32(x[i]); }), "array_cast<I32>(I8)");
  // closeness
  Real tol = s.pick<Real>({1e-10, 1e-6, 1e-2}), flr = s.pick<Real>({1e-10, 1e-3, 0.5});
  auto g = f;
  bool want = true, wantabs = true;
  for (int i = 0; i < n; ++i) {
    if (s.chance(10)) g[st(i)] += s.pick<Real>({1e-12, 1e-8, 1e-4, 1e-1, -1e-7});
    Real A = f[st(i)], B = g[st(i)], am = std::fabs(A), bm = std::fabs(B);
    Real rd = (am <= flr && bm <= flr) ? 0.0 : std::fabs(A - B) / std::max(am, bm);
    if (rd > tol) want = false;
    if (std::fabs(A - B) > tol) wantabs = false;
  }
  PCHECK(are_close(mk(f), mk(g), tol, flr) == want, "are_close tol=" << tol << " floor=" << flr);
  PCHECK(are_close(mk(g), mk(f), tol, flr) == want, "are_close is symmetric");
  PCHECK(are_close_abs(mk(f), mk(g), tol) == wantabs, "are_close_abs");
}
template <class T> void reduce_t(Src& s, Env& e) {
  int n = gen_len(s);
  auto va = vec<T>(s, n, true);
  auto a = mk(va);
  s.nontrivial(n >= 2);
  s.label(tn<T>());
  s.desc("reduce ", tn<T>(), " ", show(va, 6));
  T mn = ArithTraits<T>::max(), mx = ArithTraits<T>::min();
  for (T x : va) {
    mn = std::min(mn, x);
    mx = std::max(mx, x);
  }
  PCHECK(get_min(a) == mn, "get_min " << +get_min(a) << " want " << +mn);
  PCHECK(get_max(a) == mx, "get_max " << +get_max(a) << " want " << +mx);
  auto mm = get_minmax(e.comm, a);
  PCHECK(mm.min == mn && mm.max == mx, "get_minmax");
  auto vs = vec<T>(s, n, false);
  promoted_t<T> sum = 0;
  for (T x : vs) sum = promoted_t<T>(sum + x);
  PCHECK(get_sum(mk(vs)) == sum, "get_sum");
  PCHECK(get_sum(e.comm, mk(vs)) == sum, "get_sum(comm)");
  T c = (n && s.chance(70)) ? va[st(s.range(0, n - 1))] : Gen<T>::any(s);
  int last = -1;
  for (int i = 0; i < n; ++i)
    if (va[st(i)] == c) last = i;
  PCHECK(find_last(a, c) == last, "find_last");
  auto so = va;
  if (s.chance(60)) std::sort(so.begin(), so.end());
  if (n >= 2 && s.chance(30)) std::swap(so[st(s.range(0, n - 1))], so[st(s.range(0, n - 1))]);
  PCHECK(is_sorted(mk(so)) == std::is_sorted(so.begin(), so.end()), "is_sorted " << show(so));
  // construction
  T off = Gen<T>::small(s), str = T(s.range(0, 3) - 1);
  int m = std::min(n, 20);
  same(Read<T>(m, off), std::vector<T>(st(m), off), "filled array");
  same(Read<T>(m, off, str), mapv<T>(m, [&](st i) { return T(off + str * T(i)); }), "linear array");
  auto cp = deep_copy(a);
  same(cp, va, "deep_copy");
  if (n) {
    cp.set(0, T(va[0] == 0 ? 1 : 0));
    same(a, va, "deep_copy is independent");
    PCHECK(a.get(n - 1) == va[st(n - 1)] && a.last() == va.back() && a.first() == va[0], "get/first/last");
  }
}
static void reduce(Src& s, Env& e) {
  switch (s.range(0, 3)) {
    case 0: reduce_t<I32>(s, e); break;
    case 1: reduce_t<I8>(s, e); break;
    case 2: reduce_t<I64>(s, e); break;
    default: reduce_t<Real>(s, e);
  }
}
template <class T> void sort_t(Src& s) {
  int n = gen_len(s), w = s.range(1, 3);
  bool any = s.chance(50);
  int spread = s.range(1, 12);
  std::vector<T> k;
  for (int i = 0; i < n * w; ++i) k.push_back(any ? Gen<T>::any(s) : T(s.range(0, spread) - spread / 2));
  s.nontrivial(n >= 3);
  s.label("width" + std::to_string(w));
  s.desc("sort ", tn<T>(), " w=", w, " keys=", show(k, 9));
  std::vector<LO> p(static_cast<st>(n));
  std::iota(p.begin(), p.end(), 0);
  std::stable_sort(p.begin(), p.end(), [&](LO x, LO y) {
    return std::lexicographical_compare(k.begin() + x * w, k.begin() + x * w + w, k.begin() + y * w, k.begin() + y * w + w);
  });
  auto keys = mk(k);
  same(sort_by_keys(keys, w), p, "sort_by_keys");
  same(keys, k, "keys unchanged");
}
static void sorting(Src& s, Env&) {
  if (s.below(2)) sort_t<GO>(s);
  else sort_t<LO>(s);
  // small-range counting sort: perm[i] = position of item i
  int n = gen_len(s), spread = s.range(0, 8);
  std::vector<I32> v;
  for (int i = 0; i < n; ++i) v.push_back(I32(s.range(0, spread)) * (s.below(10) ? 1 : 1000) - 3);
  LOs perm, fan;
  Read<I32> uniq;
  if (n > 0) {
    sort_small_range(mk(v), &perm, &fan, &uniq);
    std::vector<I32> u = v;
    std::sort(u.begin(), u.end());
    auto su = u;
    u.erase(std::unique(u.begin(), u.end()), u.end());
    same(uniq, u, "sort_small_range uniq");
    std::vector<LO> wf{0};
    for (auto x : u) wf.push_back(LO(std::upper_bound(su.begin(), su.end(), x) - su.begin()));
    same(fan, wf, "sort_small_range fan");
    std::vector<LO> p(static_cast<st>(n)), pos(static_cast<st>(n));
    std::iota(p.begin(), p.end(), 0);
    std::stable_sort(p.begin(), p.end(), [&](LO x, LO y) { return v[st(x)] < v[st(y)]; });
    for (int i = 0; i < n; ++i) pos[st(p[st(i)])] = i;
    same(perm, pos, "sort_small_range perm");
  }
}
static void scans(Src& s, Env&) {
  int n = gen_len(s);
  std::vector<I8> m;
  std::vector<I32> d;
  for (int i = 0; i < n; ++i) {
    m.push_back(I8(s.below(2)));
    d.push_back(I32(s.range(0, 9)));
  }
  s.nontrivial(n >= 2);
  s.desc("scan ", show(d, 8), " marks=", show(m, 8));
  std::vector<LO> om{0}, od{0};
  for (int i = 0; i < n; ++i) {
    om.push_back(om.back() + m[st(i)]);
    od.push_back(od.back() + d[st(i)]);
  }
  same(offset_scan(mk(m)), om, "offset_scan<I8>");
  same(offset_scan(mk(d)), od, "offset_scan<I32>");
  same(get_degrees(mk(od)), d, "get_degrees(offset_scan)");
  std::vector<LO> cm, iv, pre;
  for (int i = 0; i < n; ++i)
    if (m[st(i)]) cm.push_back(i);
  same(collect_marked(mk(m)), cm, "collect_marked");
  same(invert_marks(mk(m)), mapv<I8>(n, [&](st i) { return I8(!m[i]); }), "invert_marks");
  same(mark_image(mk(cm), n), m, "mark_image(collect_marked)");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < d[st(i)]; ++j) iv.push_back(i);
  same(invert_fan(mk(od)), iv, "invert_fan");
  same(mark_fan_preimage(mk(od)), mapv<I8>(n, [&](st i) { return I8(d[i] != 0); }), "mark_fan_preimage");
  same(invert_funnel(mk(iv), n), od, "invert_funnel(invert_fan)");
  // fill_right
  std::vector<LO> fr;
  LO cur = 0;
  for (int i = 0; i < n; ++i) {
    if (i == 0 || s.chance(40)) {
      cur += s.range(0, 5);
      fr.push_back(cur);
    } else
      fr.push_back(-1);
  }
  auto wfr = mkw(fr);
  fill_right(wfr);
  for (int i = 1; i < n; ++i)
    if (fr[st(i)] < 0) fr[st(i)] = fr[st(i) - 1];
  same(wfr, fr, "fill_right");
  // multiply_fans
  std::vector<I32> d2;
  for (int i = 0; i < n; ++i) d2.push_back(I32(s.range(0, 4)));
  std::vector<LO> o2{0}, o12{0};
  for (int i = 0; i < n; ++i) {
    o2.push_back(o2.back() + d2[st(i)]);
    o12.push_back(o12.back() + d[st(i)] * d2[st(i)]);
  }
  same(multiply_fans(mk(od), mk(o2)), o12, "multiply_fans");
}
template <class T> void maps_t(Src& s) {
  int nb = s.range(1, 60), na = s.range(0, nb), w = s.range(1, 4);
  auto pv = s.permutation(nb);
  std::vector<LO> inj(pv.begin(), pv.begin() + na), full(pv.begin(), pv.end());
  std::vector<LO> any;
  int nany = gen_len(s);
  for (int i = 0; i < nany; ++i) any.push_back(LO(s.range(0, nb - 1)));
  s.nontrivial(na >= 2 && nany >= 2);
  s.label(tn<T>());
  s.desc("maps ", tn<T>(), " nb=", nb, " w=", w, " inj=", show(inj, 6), " any=", show(any, 6));
  auto A = vec<T>(s, na * w, true), B = vec<T>(s, nb * w, true), Y = vec<T>(s, nany * w, false);
  auto W = st(w);
  T init = Gen<T>::any(s);
  // gather
  same(unmap(mk(any), mk(B), w), mapv<T>(nany * w, [&](st i) { return B[st(any[i / W]) * W + i % W]; }), "unmap");
  {
    auto r = B;
    for (int i = 0; i < na; ++i)
      for (int j = 0; j < w; ++j) r[st(inj[st(i)] * w + j)] = A[st(i * w + j)];
    auto o = mkw(B);
    map_into(mk(A), mk(inj), o, w);
    same(o, r, "map_into");
    std::vector<T> r2(st(nb * w), init);
    for (int i = 0; i < na; ++i)
      for (int j = 0; j < w; ++j) r2[st(inj[st(i)] * w + j)] = A[st(i * w + j)];
    same(map_onto(mk(A), mk(inj), nb, init, w), r2, "map_onto");
  }
  {
    std::vector<T> r(st(nb * w), T(0));
    auto o = mkw(r);
    std::vector<T> y = Y;
    if (std::is_same<T, I8>::value)
      for (auto& v : y) v = T(v > 0);
    for (int i = 0; i < nany; ++i)
      for (int j = 0; j < w; ++j) r[st(any[st(i)] * w + j)] = T(r[st(any[st(i)] * w + j)] + y[st(i * w + j)]);
    add_into(mk(y), mk(any), o, w);
    same(o, r, "add_into");
  }
  {
    auto o = mkw(std::vector<T>(B.begin(), B.begin() + nb));
    auto r = std::vector<T>(B.begin(), B.begin() + nb);
    map_value_into(init, mk(any), o);
    for (auto i : any) r[st(i)] = init;
    same(o, r, "map_value_into");
    int b0 = s.range(0, nb), b1 = s.range(b0, nb);
    auto X = vec<T>(s, (b1 - b0) * w, true);
    auto o2 = mkw(B);
    auto r2 = B;
    map_into_range(mk(X), b0, b1, o2, w);
    std::copy(X.begin(), X.end(), r2.begin() + b0 * w);
    same(o2, r2, "map_into_range");
    same(unmap_range(b0, b1, mk(r2), w), X, "unmap_range");
  }
  same(permute(mk(B), mk(full), w), [&] {
    std::vector<T> r(st(nb * w));
    for (int i = 0; i < nb; ++i)
      for (int j = 0; j < w; ++j) r[st(full[st(i)] * w + j)] = B[st(i * w + j)];
    return r;
  }(), "permute");
  same(unmap(mk(full), permute(mk(B), mk(full), w), w), B, "unmap(permute)");
  {
    std::vector<LO> inv(static_cast<st>(nb), -1), inv2(static_cast<st>(nb), -1);
    for (int i = 0; i < nb; ++i) inv[st(full[st(i)])] = i;
    for (int i = 0; i < na; ++i) inv2[st(inj[st(i)])] = i;
    same(invert_permutation(mk(full)), inv, "invert_permutation");
    same(invert_injective_map(mk(inj), nb), inv2, "invert_injective_map");
    same(compound_maps(mk(any), mk(full)), mapv<LO>(nany, [&](st i) { return full[st(any[i])]; }), "compound_maps");
    std::vector<I8> im(st(nb), 0);
    for (auto x : any) im[st(x)] = 1;
    same(mark_image(mk(any), nb), im, "mark_image");
  }
  // inversion: b -> list of a in increasing order
  {
    std::vector<LO> off{0}, lst;
    for (int b = 0; b < nb; ++b) {
      for (int i = 0; i < nany; ++i)
        if (any[st(i)] == b) lst.push_back(i);
      off.push_back(LO(lst.size()));
    }
    auto g = invert_map_by_sorting(mk(any), nb);
    same(g.a2ab, off, "invert_map_by_sorting offsets");
    same(g.ab2b, lst, "invert_map_by_sorting lists");
    auto h = invert_map_by_atomics(mk(any), nb);
    same(h.a2ab, off, "invert_map_by_atomics offsets");
    auto hl = hv(h.ab2b);
    for (int b = 0; b < nb; ++b) std::sort(hl.begin() + off[st(b)], hl.begin() + off[st(b) + 1]);
    same(hl, lst, "invert_map_by_atomics lists");
  }
  // fans
  {
    int nf = s.range(0, 20);
    std::vector<LO> off{0};
    for (int i = 0; i < nf; ++i) off.push_back(off.back() + s.range(0, 5));
    int m = off.back();
    auto P = vec<T>(s, nf * w, true);
    std::vector<T> ex;
    for (int i = 0; i < nf; ++i)
      for (int k = off[st(i)]; k < off[st(i) + 1]; ++k)
        for (int j = 0; j < w; ++j) ex.push_back(P[st(i * w + j)]);
    same(expand(mk(P), mk(off), w), ex, "expand");
    auto Q = vec<T>(s, m * w, true), Z = vec<T>(s, m * w, false);
    auto red = [&](std::vector<T> const& v, Omega_h_Op op) {
      std::vector<T> r;
      for (int i = 0; i < nf; ++i)
        for (int j = 0; j < w; ++j) {
          promoted_t<T> x = op == OMEGA_H_MIN ? promoted_t<T>(ArithTraits<T>::max()) : op == OMEGA_H_MAX ? promoted_t<T>(ArithTraits<T>::min()) : promoted_t<T>(0);
          for (int k = off[st(i)]; k < off[st(i) + 1]; ++k) {
            auto y = promoted_t<T>(v[st(k * w + j)]);
            if (op == OMEGA_H_SUM) x = x + y;
            else if (op == OMEGA_H_MIN) x = y < x ? y : x;
            else x = y > x ? y : x;
          }
          r.push_back(T(x));
        }
      return r;
    };
    auto cmp = [&](Read<T> g, std::vector<T> const& v, char const* what) {
      auto h = hv(g);
      PCHECK(h.size() == v.size(), what);
      for (st i = 0; i < h.size(); ++i) PCHECK(h[i] == v[i], what << " at " << i << ": " << +h[i] << " want " << +v[i]);
    };
    cmp(fan_reduce(mk(off), mk(Q), w, OMEGA_H_MIN), red(Q, OMEGA_H_MIN), "fan_reduce MIN");
    cmp(fan_reduce(mk(off), mk(Q), w, OMEGA_H_MAX), red(Q, OMEGA_H_MAX), "fan_reduce MAX");
    cmp(fan_reduce(mk(off), mk(Z), w, OMEGA_H_SUM), red(Z, OMEGA_H_SUM), "fan_reduce SUM");
    // graph reduction
    std::vector<LO> tgt;
    for (int i = 0; i < m; ++i) tgt.push_back(LO(s.range(0, nb - 1)));
    std::vector<T> pulled;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < w; ++j) pulled.push_back(B[st(tgt[st(i)] * w + j)]);
    cmp(graph_reduce(Graph(mk(off), mk(tgt)), mk(B), w, OMEGA_H_MAX), red(pulled, OMEGA_H_MAX), "graph_reduce MAX");
  }
}
static void maps(Src& s, Env&) {
  switch (s.range(0, 3)) {
    case 0: maps_t<I32>(s); break;
    case 1: maps_t<I8>(s); break;
    case 2: maps_t<I64>(s); break;
    default: maps_t<Real>(s);
  }
}
typedef std::vector<std::vector<LO>> AL;
static Graph mkg(AL const& g) {
  std::vector<LO> o{0}, e;
  for (auto& l : g) {
    e.insert(e.end(), l.begin(), l.end());
    o.push_back(LO(e.size()));
  }
  return Graph(mk(o), mk(e));
}
static void sameg(Graph g, AL const& w, char const* what) {
  auto x = mkg(w);
  same(g.a2ab, hv(x.a2ab), std::string(what) + " offsets");
  same(g.ab2b, hv(x.ab2b), std::string(what) + " targets");
}
static AL gen_graph(Src& s, int n, int nt) {
  AL g(static_cast<st>(n));
  int big = s.chance(4) ? s.range(0, n) : -1;
  for (int i = 0; i < n; ++i) {
    int d = i == big ? s.range(100, 300) : s.range(0, 6);
    if (nt == 0) d = 0;
    for (int j = 0; j < d; ++j) g[st(i)].push_back(LO(s.range(0, nt - 1)));
  }
  return g;
}
static void graphs(Src& s, Env&) {
  int n = s.range(0, 25);
  AL g1 = gen_graph(s, n, n), g2 = gen_graph(s, n, n);
  s.nontrivial(n >= 2);
  s.desc("graphs n=", n, " first=", n ? show(g1[0]) : "");
  AL add = g1;
  for (int i = 0; i < n; ++i) add[st(i)].insert(add[st(i)].end(), g2[st(i)].begin(), g2[st(i)].end());
  auto G1 = mkg(g1), G2 = mkg(g2);
  sameg(add_edges(G1, G2), add, "add_edges");
  AL self;
  for (int i = 0; i < n; ++i) {
    self.push_back({i});
    self.back().insert(self.back().end(), g1[st(i)].begin(), g1[st(i)].end());
  }
  sameg(add_self_edges(G1), self, "add_self_edges");
  AL um;
  std::vector<LO> a2b;
  if (n) {
    int na = s.range(0, 30);
    for (int i = 0; i < na; ++i) {
      a2b.push_back(LO(s.range(0, n - 1)));
      um.push_back(g1[st(a2b.back())]);
    }
  }
  sameg(unmap_graph(mk(a2b), G1), um, "unmap_graph");
  std::vector<I8> keep;
  AL fe(static_cast<st>(n));
  int pk = s.pick({50, 90, 10, 100, 0});
  for (int i = 0; i < n; ++i)
    for (auto t : g1[st(i)]) {
      bool k = s.chance(pk);
      keep.push_back(I8(k));
      if (k) fe[st(i)].push_back(t);
    }
  for (auto& l : fe) if (l.size() > 127) s.label("degree>127");
  sameg(filter_graph_edges(G1, mk(keep)), fe, "filter_graph_edges");
  std::vector<I8> kn;
  std::vector<LO> nn;
  LO cnt = 0;
  for (int i = 0; i < n; ++i) {
    kn.push_back(I8(s.below(2)));
    nn.push_back(kn.back() ? cnt++ : -1);
  }
  AL fn;
  for (int i = 0; i < n; ++i)
    if (kn[st(i)]) {
      fn.push_back({});
      for (auto t : g1[st(i)])
        if (kn[st(t)]) fn.back().push_back(nn[st(t)]);
    }
  sameg(filter_graph_nodes(G1, mk(kn)), fn, "filter_graph_nodes");
  PCHECK(G1.nnodes() == n, "nnodes");
  // weighted average: nodes with at least one arc, positive weights
  AL gw = g1;
  for (int i = 0; i < n; ++i)
    if (gw[st(i)].empty()) gw[st(i)].push_back(i);
  int w = s.range(1, 3);
  std::vector<Real> wt, bd, want;
  for (int i = 0; i < n * w; ++i) bd.push_back(s.uniform(-3, 3));
  for (auto& l : gw)
    for (auto t : l) { (void)t; wt.push_back(s.uniform(0.1, 2)); }
  st k = 0;
  for (auto& l : gw) {
    Real tw = 0;
    std::vector<Real> acc(st(w), 0);
    for (auto t : l) {
      for (int j = 0; j < w; ++j) acc[st(j)] += bd[st(t * w + j)] * wt[k];
      tw += wt[k++];
    }
    for (int j = 0; j < w; ++j) want.push_back(acc[st(j)] / tw);
  }
  auto got = hv(graph_weighted_average(mkg(gw), mk(wt), mk(bd), w));
  PCHECK(got.size() == want.size(), "graph_weighted_average size");
  for (st i = 0; i < got.size(); ++i) PCHECK(std::fabs(got[i] - want[i]) < 1e-11, "graph_weighted_average " << got[i] << " want " << want[i]);
}
static void linpart(Src& s, Env&) {
  int np = s.range(1, 17);
  GO total = s.below(3) ? GO(s.range(0, 60)) : GO(s.below(u64(np) * ((1ull << 31) - 2)));
  s.nontrivial(np > 1 && total > 0);
  s.desc("linpart np=", np, " total=", total);
  GO sum = 0;
  std::vector<GO> start;
  LO prev = 0;
  for (int r = 0; r < np; ++r) {
    start.push_back(sum);
    LO sz = linear_partition_size(total, np, r);
    PCHECK(sz >= 0, "negative size");
    PCHECK(GO(sz) - total / np >= 0 && GO(sz) - total / np <= 1, "size " << sz << " not balanced");
    if (r) PCHECK(sz <= prev, "sizes decrease");
    prev = sz;
    sum += sz;
  }
  PCHECK(sum == total, "sizes add up to " << sum);
  start.push_back(sum);
  std::vector<GO> g;
  if (total)
    for (int i = 0; i < 30; ++i) {
      GO v = s.below(4) ? GO(s.below(u64(total))) : std::min<GO>(total - 1, std::max<GO>(0, start[st(s.range(0, np))] - s.range(0, 1)));
      g.push_back(v);
    }
  auto rm = globals_to_linear_owners(mk(g), total, np);
  auto rr = hv(rm.ranks);
  auto ri = hv(rm.idxs);
  for (st i = 0; i < g.size(); ++i) {
    PCHECK(rr[i] >= 0 && rr[i] < np, "rank range");
    PCHECK(start[st(rr[i])] + ri[i] == g[i] && g[i] < start[st(rr[i]) + 1], "owner of " << g[i] << " is rank " << rr[i] << " idx " << ri[i]);
  }
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"elementwise", elementwise, 3000*5, 60000*10, {1}, true, "array has at least two entries"},
    {"special", special, 1500*5, 30000*10, {1}, true, "array has at least two entries"},
    {"reduce", reduce, 2500*5, 50000*10, {1}, true, "array has at least two entries"},
    {"sorting", sorting, 2500*5, 50000*10, {1}, true, "at least three keys"},
    {"scans", scans, 2000*5, 40000*10, {1}, true, "at least two entries"},
    {"maps", maps, 2000*5, 40000*10, {1}, true, "injective map and general map both with at least two entries"},
    {"graphs", graphs, 2000*5, 40000*10, {1}, true, "at least two nodes"},
    {"linpart", linpart, 2000*5, 40000*10, {1}, false, "more than one part and at least one global"},
  });
}
