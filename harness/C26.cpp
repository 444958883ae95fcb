// C26: clipping polytopes and integrating over them, against subdivision into simplices
#include <Omega_h_r3d.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <numeric>
#include "pbt.hpp"
using namespace pbt;
using Omega_h::Int;
using Omega_h::Real;
typedef std::size_t st;
typedef long double ld;
template <int D>
using P = std::array<ld, D>;
template <int D>
using Simplex = std::array<P<D>, D + 1>;
template <int D>
struct HP {
  P<D> n;
  ld d;
};
template <int D>
static ld det(std::array<P<D>, D> m) {
  if (D == 1) return m[0][0];
  if (D == 2) return m[0][0] * m[1][1 % D] - m[0][1 % D] * m[1 % D][0];
  return m[0][0] * (m[1 % D][1 % D] * m[2 % D][2 % D] - m[1 % D][2 % D] * m[2 % D][1 % D]) - m[0][1 % D] * (m[1 % D][0] * m[2 % D][2 % D] - m[1 % D][2 % D] * m[2 % D][0]) + m[0][2 % D] * (m[1 % D][0] * m[2 % D][1 % D] - m[1 % D][1 % D] * m[2 % D][0]);
}
template <int D>
static ld volume(Simplex<D> const& s) {
  std::array<P<D>, D> m;
  for (int i = 0; i < D; ++i)
    for (int j = 0; j < D; ++j) m[st(i)][st(j)] = s[st(i + 1)][st(j)] - s[0][st(j)];
  ld f = D == 3 ? 6 : D == 2 ? 2 : 1;
  return det<D>(m) / f;
}
// keeps the part of a simplex where n.x + d >= 0, as simplices
template <int D>
static void half(std::vector<Simplex<D>>& out, Simplex<D> s, std::array<ld, D + 1> w) {
  for (st i = 0; i <= D; ++i)
    for (st j = 0; j <= D; ++j)
      if (w[i] > 0 && w[j] < 0) {
        P<D> m;
        for (st k = 0; k < D; ++k) m[k] = (s[i][k] * -w[j] + s[j][k] * w[i]) / (w[i] - w[j]);
        auto a = s, b = s;
        auto wa = w, wb = w;
        a[i] = m;
        b[j] = m;
        wa[i] = wb[j] = 0;
        half<D>(out, a, wa);
        half<D>(out, b, wb);
        return;
      }
  for (st i = 0; i <= D; ++i)
    if (w[i] < 0) return;
  out.push_back(s);
}
template <int D>
static std::vector<Simplex<D>> cut(std::vector<Simplex<D>> const& v, HP<D> const& h) {
  std::vector<Simplex<D>> out;
  for (auto& s : v) {
    std::array<ld, D + 1> w;
    for (st i = 0; i <= D; ++i) {
      w[i] = h.d;
      for (st k = 0; k < D; ++k) w[i] += h.n[k] * s[i][k];
    }
    half<D>(out, s, w);
  }
  return out;
}
// Grundmann and Moeller's rule of degree 5
template <int D>
static ld integral(Simplex<D> const& s, std::array<int, 3> e) {
  int const ss = 2, d = 2 * ss + 1;
  ld sum = 0;
  for (int i = 0; i <= ss; ++i) {
    ld c = (i % 2 ? -1.L : 1.L) * std::pow(2.L, -2 * ss) * std::pow(ld(d + D - 2 * i), ld(d));
    for (int k = 2; k <= i; ++k) c /= k;
    for (int k = 2; k <= d + D - i; ++k) c /= k;
    for (int k = 2; k <= D; ++k) c *= k;
    std::array<int, D + 1> b{};
    std::function<void(int, int)> rec = [&](int at, int left) {
      if (at == D) {
        b[D] = left;
        ld f = 1;
        for (st k = 0; k < D; ++k) {
          ld x = 0;
          for (st v = 0; v <= D; ++v) x += s[v][k] * ld(2 * b[v] + 1) / ld(d + D - 2 * i);
          for (int q = 0; q < e[k]; ++q) f *= x;
        }
        sum += c * f;
        return;
      }
      for (int x = 0; x <= left; ++x) {
        b[st(at)] = x;
        rec(at + 1, left - x);
      }
    };
    rec(0, ss - i);
  }
  return sum * std::fabs(volume<D>(s));
}
template <int D>
static std::vector<std::array<int, 3>> monomials(int order) {
  std::vector<std::array<int, 3>> out;
  for (int o = 0; o <= order; ++o)
    for (int i = o; i >= 0; --i) {
      if (D == 2)
        out.push_back({i, o - i, 0});
      else
        for (int j = o - i; j >= 0; --j) out.push_back({i, j, o - i - j});
    }
  return out;
}
template <int D>
static r3d::Vector<D> vec(P<D> const& p) {
  r3d::Vector<D> v;
  for (int i = 0; i < D; ++i) v[i] = Real(p[st(i)]);
  return v;
}
template <int D>
static r3d::Few<r3d::Vector<D>, D + 1> few(Simplex<D> const& s) {
  r3d::Few<r3d::Vector<D>, D + 1> f;
  for (int i = 0; i <= D; ++i) f[i] = vec<D>(s[st(i)]);
  return f;
}
template <int D>
static Simplex<D> gen_simplex(Src& s, ld L) {
  Simplex<D> t;
  for (int tries = 0;; ++tries) {
    bool grid = s.chance(40);
    for (auto& p : t)
      for (auto& x : p) x = grid ? L * s.range(0, 4) / 4 : L * ld(s.uniform(0., 1.));
    ld v = volume<D>(t), lim = std::pow(L, ld(D)) * (D == 3 ? 2e-3L : D == 2 ? 1e-2L : 2e-2L);
    if (std::fabs(v) > lim || tries > 20) {
      if (tries > 20) {
        for (auto& p : t) p.fill(0);
        for (st i = 0; i < D; ++i) t[i + 1][i] = L;
      }
      if (volume<D>(t) < 0) std::swap(t[0], t[1]);
      break;
    }
  }
  // doubles
  for (auto& p : t)
    for (auto& x : p) x = Real(x);
  return t;
}
template <int D>
static std::string text(Simplex<D> const& s) {
  std::ostringstream o;
  o.precision(17);
  for (auto& p : s) {
    o << "(";
    for (auto x : p) o << double(x) << " ";
    o << ")";
  }
  return o.str();
}
template <int D>
static HP<D> gen_plane(Src& s, Simplex<D> const& t, ld L) {
  HP<D> h;
  auto through = [&](std::vector<P<D>> const& q) {  // plane containing D points
    if (D == 1)
      h.n[0] = 1;
    else if (D == 2) {
      h.n[0] = q[1][1 % D] - q[0][1 % D];
      h.n[1 % D] = q[0][0] - q[1][0];
    } else {
      P<D> a, b;
      for (st k = 0; k < D; ++k) {
        a[k] = q[1][k] - q[0][k];
        b[k] = q[2][k] - q[0][k];
      }
      for (st k = 0; k < D; ++k) h.n[k] = a[(k + 1) % D] * b[(k + 2) % D] - a[(k + 2) % D] * b[(k + 1) % D];
    }
  };
  std::vector<P<D>> q;
  auto point = [&]() {
    P<D> p{};
    int how = s.range(0, 3);
    if (how == 0) return t[st(s.range(0, D))];
    if (how == 1) {
      st a = st(s.range(0, D)), b = st(s.range(0, D));
      for (st k = 0; k < D; ++k) p[k] = (t[a][k] + t[b][k]) / 2;
      return p;
    }
    for (auto& x : p) x = how == 2 ? L * s.range(0, 4) / 4 : L * ld(s.uniform(-0.1, 1.1));
    return p;
  };
  if (s.chance(25)) {
    h.n.fill(0);
    h.n[st(s.range(0, D - 1))] = s.pick({1, -1});
    q.push_back(point());
  } else {
    for (int i = 0; i < D; ++i) q.push_back(point());
    through(q);
  }
  ld nn = 0;
  for (auto x : h.n) nn += x * x;
  nn = std::sqrt(nn);
  if (nn < 1e-6L * L) {
    h.n.fill(0);
    h.n[0] = nn = 1;
  }
  int sg = s.pick({1, -1});
  h.d = 0;
  for (st k = 0; k < D; ++k) {
    h.n[k] = Real(sg * h.n[k] / nn);
    h.d -= h.n[k] * q[0][k];
  }
  h.d = Real(h.d);
  return h;
}
template <int D>
static r3d::Plane<D> plane(HP<D> const& h) {
  r3d::Plane<D> p;
  p.n = vec<D>(h.n);
  p.d = Real(h.d);
  return p;
}
template <int D>
static void links(r3d::Polytope<D> const& p, std::vector<HP<D>> const& hs, Simplex<D> const* t, ld L) {
  if (p.nverts < 0 || p.nverts > int(p.max_verts)) PFAIL("polytope has " << p.nverts << " vertices");
  for (int v = 0; v < p.nverts; ++v) {
    for (int k = 0; k < D; ++k) {
      int w = p.verts[v].pnbrs[k];
      if (w < 0 || w >= p.nverts) PFAIL("vertex " << v << " of " << p.nverts << " has neighbour " << w);
      int a = 0, b = 0;
      for (int j = 0; j < D; ++j) {
        a += p.verts[v].pnbrs[j] == w;
        b += p.verts[w].pnbrs[j] == v;
      }
      if (a != b) PFAIL("vertex " << v << " has neighbour " << w << " " << a << " times, the other way " << b << " times");
    }
    for (auto& h : hs) {
      ld x = h.d;
      for (int k = 0; k < D; ++k) x += h.n[st(k)] * p.verts[v].pos[k];
      if (!(x >= -1e-12L * L)) PFAIL("vertex " << v << " lies outside a clipping plane by " << double(x));
    }
  }
  (void)t;
}
template <int D>
struct Meas {
  static void check(r3d::Polytope<D> const& p, std::vector<Simplex<D>> const& ref, ld L, ld off, char const* what) {
    auto mono = monomials<D>(3);
    Real m[20];
    for (auto& x : m) x = 0;
    r3d::reduce<3>(p, m);
    ld scale = std::pow(L, ld(D));
    for (st i = 0; i < mono.size(); ++i) {
      ld want = 0;
      for (auto& s : ref) want += integral<D>(s, mono[i]);
      int deg = mono[i][0] + mono[i][1] + mono[i][2];
      // moments are taken about the origin: far away ones cancel
      ld tol = 2e-12L * scale * std::pow((off + L) / L, ld(D)) * std::pow(off + L, ld(deg));
      if (!(std::fabs(m[i] - want) <= tol)) PFAIL(what << ": moment x^" << mono[i][0] << " y^" << mono[i][1] << " z^" << mono[i][2] << " is " << m[i] << " expected " << double(want));
    }
    // lower orders and polynomials
    Real m1[20];
    r3d::reduce<1>(p, m1);
    Real m0[1] = {0};
    r3d::reduce<0>(p, m0);
    if (p.nverts) {
      for (int i = 0; i <= D; ++i)
        if (std::fabs(ld(m1[i]) - m[i]) > 2e-12L * scale * std::pow((off + L) / L, ld(D)) * (off + L)) PFAIL(what << ": moments to order 1 and 3 differ");
      if (std::fabs(ld(m0[0]) - m[0]) > 2e-12L * scale * std::pow((off + L) / L, ld(D))) PFAIL(what << ": moments to order 0 and 3 differ");
    }
    r3d::Polynomial<D, 1> q;
    q.coeffs[0] = 2;
    for (int i = 1; i <= D; ++i) q.coeffs[i] = i;
    ld want = 2 * ld(m[0]);
    for (int i = 1; i <= D; ++i) want += i * ld(m[i]);
    Real got = r3d::integrate(p, q);
    if (std::fabs(got - want) > 2e-11L * scale * std::pow((off + L) / L, ld(D)) * (1 + off + L)) PFAIL(what << ": integral of a polynomial is " << got << " expected " << double(want));
  }
};
template <>
struct Meas<1> {
  static void check(r3d::Polytope<1> const&, std::vector<Simplex<1>> const&, ld, ld, char const*) {}
};
template <int D>
static ld total(std::vector<Simplex<D>> const& v) {
  ld x = 0;
  for (auto& s : v) x += std::fabs(volume<D>(s));
  return x;
}
template <int D>
static void t_clip(Src& s) {
  ld L = s.pick({1., 1., 1e-3, 50.});
  auto t = gen_simplex<D>(s, L);
  ld off = 0;
  if (s.chance(20)) {
    off = 3 * L;
    for (auto& p : t)
      for (auto& x : p) x = Real(x + off);
  }
  int np = s.range(1, D == 1 ? 3 : 6);
  std::vector<HP<D>> hs;
  auto back = t;
  for (auto& p : back)
    for (auto& x : p) x -= off;
  for (int i = 0; i < np; ++i) {
    auto h = gen_plane<D>(s, back, L);
    for (auto x : h.n) h.d -= x * off;
    h.d = Real(h.d);
    if (i && s.chance(15)) h = hs[0];
    hs.push_back(h);
  }
  std::ostringstream o;
  o.precision(17);
  for (auto& h : hs) {
    o << " | ";
    for (auto x : h.n) o << double(x) << " ";
    o << double(h.d);
  }
  s.desc(D, "D ", text<D>(t), o.str());
  ld tol = 2e-12L * std::pow(L, ld(D)) * std::pow((off + L) / L, ld(D));
  std::vector<Simplex<D>> ref{t};
  r3d::Polytope<D> a, b;
  r3d::init(a, few<D>(t));
  std::vector<HP<D>> used;
  ld last = r3d::measure(a);
  if (std::fabs(last - volume<D>(t)) > tol) PFAIL("measure of the simplex is " << double(last) << " expected " << double(volume<D>(t)));
  if (D > 1) links<D>(a, used, &t, L + off);
  int cutting = 0;
  for (auto& h : hs) {
    // both sides
    auto other = a;
    HP<D> g = h;
    for (auto& x : g.n) x = -x;
    g.d = -g.d;
    r3d::clip(other, plane<D>(g));
    r3d::clip(a, plane<D>(h));
    used.push_back(h);
    links<D>(a, used, &t, L + off);
    ld v = r3d::measure(a), w = r3d::measure(other);
    if (v < -tol || w < -tol || v > last + tol) PFAIL("measure became " << double(v) << " from " << double(last));
    if (std::fabs(v + w - last) > tol) PFAIL("the two sides measure " << double(v) << " and " << double(w) << ", the whole " << double(last));
    ref = cut<D>(ref, h);
    ld want = total<D>(ref);
    if (std::fabs(v - want) > tol) PFAIL("measure after " << used.size() << " planes is " << double(v) << " expected " << double(want));
    if (v > 1e-6L * last && w > 1e-6L * last) ++cutting;
    last = v;
  }
  Meas<D>::check(a, ref, L, off, "clipped simplex");
  r3d::init(b, few<D>(t));
  std::vector<r3d::Plane<D>> pl;
  for (auto& h : hs) pl.push_back(plane<D>(h));
  r3d::clip(b, pl.data(), int(pl.size()));
  if (std::fabs(r3d::measure(b) - last) > tol) PFAIL("clipping at once measures " << r3d::measure(b) << ", one by one " << double(last));
  std::reverse(pl.begin(), pl.end());
  r3d::init(b, few<D>(t));
  r3d::clip(b, pl.data(), int(pl.size()));
  if (std::fabs(r3d::measure(b) - last) > tol) PFAIL("clipping in another order measures " << r3d::measure(b) << " instead of " << double(last));
  s.label(cutting ? "cut" : last > tol ? "untouched" : "empty");
  s.nontrivial(cutting >= (D == 1 ? 1 : 2));
}
void t_clip1(Src& s, Env&) { t_clip<1>(s); }
void t_clip2(Src& s, Env&) { t_clip<2>(s); }
void t_clip3(Src& s, Env&) { t_clip<3>(s); }

template <int D>
static std::vector<HP<D>> sides(Simplex<D> const& t) {
  std::vector<HP<D>> out;
  for (st f = 0; f <= D; ++f) {
    // linear function: 1 at vertex f, 0 at the others; by Cramer's rule
    HP<D> h;
    ld V = volume<D>(t);
    auto value = [&](P<D> const& x) {
      auto u = t;
      u[f] = x;
      return volume<D>(u) / V;
    };
    P<D> z = t[(f + 1) % (D + 1)];
    ld v0 = value(z), nn = 0;
    for (st k = 0; k < D; ++k) {
      auto y = z;
      y[k] += 1;
      h.n[k] = value(y) - v0;
      nn += h.n[k] * h.n[k];
    }
    nn = std::sqrt(nn);
    h.d = v0 / nn;
    for (st k = 0; k < D; ++k) {
      h.n[k] /= nn;
      h.d -= h.n[k] * z[k];
    }
    out.push_back(h);
  }
  return out;
}
template <int D>
static void even(Src& s, Simplex<D>& t) {
  if (D == 1) return;
  int n = s.range(0, 3);
  for (int i = 0; i < n; ++i) {
    st a = st(s.range(0, D)), b = (a + 1) % (D + 1), c = (a + 2) % (D + 1);
    auto x = t[a];
    t[a] = t[b];
    t[b] = t[c];
    t[c] = x;
  }
}
template <int D>
static void t_meet(Src& s) {
  ld L = s.pick({1., 1., 1e-3, 50.});
  auto a = gen_simplex<D>(s, L), b = gen_simplex<D>(s, L);
  int how = s.range(0, 4);
  if (how == 1) b = a;
  if (how == 2) {  // the neighbour across a face
    st f = st(s.range(0, D));
    b = a;
    for (st k = 0; k < D; ++k) {
      ld c = 0;
      for (st v = 0; v <= D; ++v)
        if (v != f) c += a[v][k];
      b[f][k] = Real(2 * c / D - a[f][k]);
    }
    st g = (f + 1) % (D + 1), h = D == 1 ? f : (f + 2) % (D + 1);
    std::swap(b[g], b[h]);
  }
  if (how == 3) {  // shares some vertices
    auto c = b;
    for (st v = 0; v <= D; ++v)
      if (s.chance(50)) c[v] = a[v];
    if (volume<D>(c) > 2e-3L * std::pow(L, ld(D))) b = c;
  }
  if (how == 4) {  // inside
    for (st v = 0; v <= D; ++v)
      for (st k = 0; k < D; ++k) {
        ld c = 0;
        for (st u = 0; u <= D; ++u) c += a[u][k] / (D + 1);
        b[v][k] = Real(s.range(0, 1) ? a[v][k] : (a[v][k] + c) / 2);
      }
    if (volume<D>(b) < 2e-3L * std::pow(L, ld(D))) b = a;
  }
  if (volume<D>(b) < 0) std::swap(b[0], b[1]);
  s.desc(D, "D ", text<D>(a), " and ", text<D>(b));
  std::vector<Simplex<D>> ref{a};
  for (auto& h : sides<D>(b)) ref = cut<D>(ref, h);
  ld want = total<D>(ref);
  ld tol = 1e-11L * std::pow(L, ld(D));
  auto meet = [&](Simplex<D> const& x, Simplex<D> const& y) {
    r3d::Polytope<D> p;
    r3d::intersect_simplices(p, few<D>(x), few<D>(y));
    links<D>(p, {}, nullptr, L);
    if (D > 1) Meas<D>::check(p, ref, L * 5, 0, "intersection");
    return ld(r3d::measure(p));
  };
  ld ab = meet(a, b), ba = meet(b, a);
  if (std::fabs(ab - want) > tol) PFAIL("intersection measures " << double(ab) << " expected " << double(want));
  if (std::fabs(ba - want) > tol) PFAIL("the other way around it measures " << double(ba) << " expected " << double(want));
  if (ab > volume<D>(a) + tol || ab > volume<D>(b) + tol || ab < -tol) PFAIL("intersection measures " << double(ab));
  if (how == 1 && std::fabs(ab - volume<D>(a)) > tol) PFAIL("intersection with itself");
  if (how == 2 && std::fabs(ab) > tol) PFAIL("intersection of neighbours measures " << double(ab));
  even<D>(s, a);
  even<D>(s, b);
  ld cd = meet(a, b);
  if (std::fabs(cd - want) > tol) PFAIL("with vertices renumbered it measures " << double(cd) << " expected " << double(want));
  // through the library's vectors
  Omega_h::Few<Omega_h::Vector<D>, D + 1> oa;
  for (int v = 0; v <= D; ++v)
    for (int k = 0; k < D; ++k) oa[v][k] = Real(a[st(v)][st(k)]);
  auto ra = Omega_h::to_r3d(oa);
  auto ob = Omega_h::from_r3d(ra);
  for (int v = 0; v <= D; ++v)
    for (int k = 0; k < D; ++k)
      if (ra[v][k] != oa[v][k] || ob[v][k] != oa[v][k]) PFAIL("conversion of vectors");
  s.label(std::to_string(how));
  s.nontrivial(how == 0 ? want > tol : true);
}
void t_meet1(Src& s, Env&) { t_meet<1>(s); }
void t_meet2(Src& s, Env&) { t_meet<2>(s); }
void t_meet3(Src& s, Env&) { t_meet<3>(s); }

// general polyhedra from faces
void t_poly(Src& s, Env&) {
  struct Shape {
    std::vector<P<3>> v;
    std::vector<std::vector<int>> f;
  } sh;
  int kind = s.range(0, 4), n = s.range(3, 6);
  if (kind == 0) {  // prism over an n-gon
    for (int z = 0; z < 2; ++z)
      for (int i = 0; i < n; ++i) sh.v.push_back({std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), ld(z)});
    std::vector<int> lo, hi;
    for (int i = 0; i < n; ++i) {
      lo.push_back(n - 1 - i);
      hi.push_back(n + i);
      sh.f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
    }
    sh.f.push_back(lo);
    sh.f.push_back(hi);
  } else if (kind == 1) {  // pyramid
    std::vector<int> lo;
    for (int i = 0; i < n; ++i) {
      sh.v.push_back({std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0.L});
      lo.push_back(n - 1 - i);
      sh.f.push_back({i, (i + 1) % n, n});
    }
    sh.v.push_back({0, 0, 1});
    sh.f.push_back(lo);
  } else if (kind == 2) {  // double pyramid
    for (int i = 0; i < n; ++i) {
      sh.v.push_back({std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0.L});
      sh.f.push_back({i, (i + 1) % n, n});
      sh.f.push_back({(i + 1) % n, i, n + 1});
    }
    sh.v.push_back({0, 0, 1});
    sh.v.push_back({0, 0, -0.7L});
  } else if (kind == 3) {  // box
    for (int i = 0; i < 8; ++i) sh.v.push_back({ld(i & 1), ld((i >> 1) & 1), ld(i >> 2)});
    sh.f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  } else {
    sh.v = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    sh.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}};
  }
  // affine map, renumbering
  std::array<P<3>, 3> M;
  for (auto& r : M)
    for (auto& x : r) x = s.range(-4, 4) / 4.L;
  for (st k = 0; k < 3; ++k) M[k][k] += 2;
  ld dm = det<3>(M);
  if (!(dm > 0.2L)) {
    M = {};
    for (st k = 0; k < 3; ++k) M[k][k] = 1;
  }
  auto perm = s.permutation(int(sh.v.size()));
  std::vector<P<3>> v(sh.v.size());
  for (st i = 0; i < v.size(); ++i)
    for (st r = 0; r < 3; ++r) {
      ld x = 0;
      for (st c = 0; c < 3; ++c) x += M[r][c] * sh.v[i][c];
      v[st(perm[i])][r] = Real(x);
    }
  auto fp = s.permutation(int(sh.f.size()));
  std::vector<std::vector<int>> f(sh.f.size());
  for (st i = 0; i < f.size(); ++i) {
    auto g = sh.f[i];
    for (auto& x : g) x = perm[st(x)];
    std::rotate(g.begin(), g.begin() + s.range(0, int(g.size()) - 1), g.end());
    f[st(fp[i])] = g;
  }
  std::vector<r3d::Vector<3>> pv;
  for (auto& x : v) pv.push_back(vec<3>(x));
  std::vector<int*> fi;
  std::vector<int> nf;
  for (auto& g : f) {
    fi.push_back(g.data());
    nf.push_back(int(g.size()));
  }
  r3d::Polytope<3> p;
  r3d::init_poly(p, pv.data(), int(pv.size()), fi.data(), nf.data(), int(f.size()));
  s.desc("shape ", kind, " n ", n, " ", v.size(), " vertices");
  s.label("shape " + std::to_string(kind));
  s.nontrivial(kind != 4);
  ld L = 12;
  // reference: tetrahedra from a vertex to the triangles of the faces
  std::vector<Simplex<3>> ref;
  P<3> c{};
  for (auto& x : v)
    for (st k = 0; k < 3; ++k) c[k] += x[k] / ld(v.size());
  for (auto& g : f)
    for (st i = 1; i + 1 < g.size(); ++i) ref.push_back({c, v[st(g[0])], v[st(g[i])], v[st(g[i + 1])]});
  links<3>(p, {}, nullptr, L);
  Meas<3>::check(p, ref, L, 0, "polyhedron");
  // its faces as planes: clipping it by them removes nothing, by their opposites everything
  std::vector<r3d::Plane<3>> pl(f.size());
  r3d::poly_faces_from_verts(pl.data(), pv.data(), fi.data(), nf.data(), int(f.size()));
  ld vol = total<3>(ref);
  Simplex<3> big;
  for (auto& x : big) x.fill(-40);
  for (st k = 0; k < 3; ++k) big[k + 1][k] = 160;
  // outward normals: turn them in
  for (auto& x : pl) {
    x.n = -x.n;
    x.d = -x.d;
  }
  r3d::Polytope<3> q;
  r3d::init(q, few<3>(big));
  r3d::clip(q, pl.data(), int(pl.size()));
  if (std::fabs(ld(r3d::measure(q)) - vol) > 1e-8L) PFAIL("clipping by the faces of a polyhedron leaves " << r3d::measure(q) << " expected " << double(vol));
  // and clipped by a plane
  Simplex<3> t{{v[0], v[1], v[2], v[3]}};
  auto h = gen_plane<3>(s, t, 3);
  r3d::clip(p, plane<3>(h));
  ref = cut<3>(ref, h);
  links<3>(p, {h}, nullptr, L);
  Meas<3>::check(p, ref, L, 0, "clipped polyhedron");
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  std::string c = "at least two planes (one in 1D) each leave parts on both sides", m = "overlapping or in a degenerate position";
  t.push_back({"clip1", t_clip1, 5000, 100000, {1}, true, c});
  t.push_back({"clip2", t_clip2, 20000, 600000, {1}, true, c});
  t.push_back({"clip3", t_clip3, 20000, 600000, {1}, true, c});
  t.push_back({"meet1", t_meet1, 5000, 100000, {1}, true, m});
  t.push_back({"meet2", t_meet2, 20000, 400000, {1}, true, m});
  t.push_back({"meet3", t_meet3, 8000, 200000, {1}, true, m});
  t.push_back({"poly", t_poly, 4000, 100000, {1}, true, "not a tetrahedron"});
  return run(argc, argv, t);
}
