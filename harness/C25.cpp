// C25: simplex measures, lengths and qualities have their geometric meaning
#include <Omega_h_quality.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_bbox.hpp>
#include "refmat.hpp"
#include "pmesh.hpp"
using namespace pbt;
using namespace pbt::rm;

static LD const EPS = 2.3e-16L;
static LD dot(M const& a, M const& b) {
  LD s = 0;
  for (st i = 0; i < a.a.size(); ++i) s += a.a[i] * b.a[i];
  return s;
}
static LD len(M const& v) { return std::sqrt(dot(v, v)); }
static LD quad(M const& m, M const& v) { return dot(v, mul(m, v)); }
static M scl(M a, LD f) {
  for (auto& x : a.a) x *= f;
  return a;
}
static M add(M a, M const& b) {
  for (st i = 0; i < a.a.size(); ++i) a.a[i] += b.a[i];
  return a;
}
static M col(M const& q, int j) {
  M r(q.m, 1);
  for (int i = 0; i < q.m; ++i) r(i, 0) = q(i, j);
  return r;
}
static M func(M const& a, std::function<LD(LD)> f) {
  M q;
  auto e = eigs(a, &q);
  for (auto& x : e) x = f(x);
  return mul(mul(q, diag(e)), tr(q));
}
static LD fact(int n) { return n == 3 ? 6 : n == 2 ? 2 : 1; }
// the reference measure of a simplex (points as columns) and the magnitude of
// what is summed on the way, for rounding bounds
static LD ref_size(std::vector<M> const& p, LD* mag) {
  int sd = p[0].m, ed = int(p.size()) - 1;
  M b(sd, ed);
  LD big = 0;
  for (int j = 0; j < ed; ++j)
    for (int i = 0; i < sd; ++i) {
      b(i, j) = p[st(j + 1)](i, 0) - p[0](i, 0);
      big = std::max(big, std::max(std::fabs(p[st(j + 1)](i, 0)), std::fabs(p[0](i, 0))));
    }
  LD l = 0;
  for (int j = 0; j < ed; ++j) l = std::max(l, len(col(b, j)));
  if (mag) *mag = std::pow(l, ed) + std::pow(l, ed - 1) * big;
  if (sd == ed && ed > 1) return det(b) / fact(ed);
  if (sd == 3 && ed == 2) {
    LD c0 = b(1, 0) * b(2, 1) - b(2, 0) * b(1, 1), c1 = b(2, 0) * b(0, 1) - b(0, 0) * b(2, 1), c2 = b(0, 0) * b(1, 1) - b(1, 0) * b(0, 1);
    return std::sqrt(c0 * c0 + c1 * c1 + c2 * c2) / 2;
  }
  LD g = det(mul(tr(b), b));
  return std::sqrt(std::max(LD(0), g)) / fact(ed);
}
static M regular(int d) {  // columns: vertices of the unit regular simplex
  M p(d, d + 1);
  p(0, 1) = 1;
  if (d >= 2) p(0, 2) = 0.5L, p(1, 2) = std::sqrt(0.75L);
  if (d >= 3) p(0, 3) = 0.5L, p(1, 3) = std::sqrt(0.75L) / 3, p(2, 3) = std::sqrt(2.L / 3);
  return p;
}
static M gen_metric(Src& s, int d) {
  if (d == 1) return scl(eye(1), Real(std::pow(10., s.uniform(-3, 3))));
  M q = gen_rot(s, d);
  std::vector<LD> e;
  int mode = s.weighted({2, 3, 2});
  LD b = std::pow(10., s.uniform(-2, 2));
  for (int i = 0; i < d; ++i) e.push_back(mode == 0 ? b : mode == 1 ? b * std::pow(10., s.uniform(-2, 2)) : b * LD(1 + s.below(4)));
  M m = mul(mul(q, diag(e)), tr(q));
  for (auto& x : m.a) x = Real(x);
  for (int i = 0; i < d; ++i)
    for (int j = 0; j < i; ++j) m(i, j) = m(j, i);
  return m;
}
// points of a simplex; `kind`: 0 regular in `metric`, 1 anything, 2 nearly flat, 3 flat
struct Simp {
  int kind;
  std::vector<M> p;
};
static Simp gen_simplex(Src& s, int sd, int ed, M const* metric = nullptr) {
  Simp r;
  r.kind = s.weighted({3, 5, 2, 1});
  M q(sd, ed + 1);
  if (r.kind == 0) {
    M u = regular(ed);
    for (int i = 0; i < ed; ++i)
      for (int j = 0; j <= ed; ++j) q(i, j) = u(i, j);
    q = mul(gen_rot(s, sd), q);
    if (metric) q = mul(func(*metric, [](LD x) { return 1 / std::sqrt(x); }), q);
  } else {
    int mode = s.weighted({3, 2});
    for (auto& x : q.a) x = mode ? LD(s.range(0, 8) - 4) : LD(s.uniform(-1, 1));
    if (r.kind >= 2 && ed >= 2) {
      // the last vertex is (nearly) in the span of the others
      LD w[3], t = 0;
      for (int j = 0; j < ed; ++j) t += (w[j] = s.uniform(-1, 2));
      if (std::fabs(t) < 0.1L) w[0] += 1, t += 1;
      LD pert = r.kind == 2 ? std::pow(10., -s.range(1, 6)) : 0;
      for (int i = 0; i < sd; ++i) {
        LD v = 0;
        for (int j = 0; j < ed; ++j) v += w[j] / t * q(i, j);
        q(i, ed) = v + pert * s.uniform(-1, 1);
      }
    }
  }
  LD sc = gen_scale(s);
  if (sc > 1e4L || sc < 1e-4L) sc = 1;
  LD off[3] = {0, 0, 0};
  if (s.chance(40))
    for (auto& o : off) o = sc * s.nice();
  for (int j = 0; j <= ed; ++j) {
    M c = col(q, j);
    for (int i = 0; i < sd; ++i) c(i, 0) = Real(c(i, 0) * sc + off[i]);
    r.p.push_back(c);
  }
  s.label("kind" + std::to_string(r.kind));
  return r;
}
template <Int sd, Int ed>
static Few<Vector<sd>, ed + 1> libp(std::vector<M> const& p) {
  Few<Vector<sd>, ed + 1> r;
  for (int i = 0; i <= ed; ++i)
    for (int j = 0; j < sd; ++j) r[i][j] = Real(p[st(i)](j, 0));
  return r;
}
static std::string show(std::vector<M> const& p) {
  std::string o;
  for (auto& x : p) o += str(x) + " ";
  return o;
}
#define NEAR(got, want, tol, what)                                                       \
  do {                                                                                   \
    LD const g_ = (got), w_ = (want), t_ = (tol);                                        \
    if (!(std::fabs(g_ - w_) <= t_))                                                     \
      PFAIL(what << ": " << double(g_) << ", expected " << double(w_) << ", tolerance " << double(t_)); \
  } while (0)

template <Int sd, Int ed>
static void measures_case(Src& s) {
  auto sp = gen_simplex(s, sd, ed);
  auto& p = sp.p;
  auto lp = libp<sd, ed>(p);
  s.desc("sd=" + std::to_string(sd) + " ed=" + std::to_string(ed) + " p=" + show(p));
  LD mag;
  LD want = ref_size(p, &mag);
  LD tol = 40 * EPS * mag;
  if (sd != ed && ed > 1) tol = std::max(tol, mag * 1e-15L);
  if (sd == ed && ed > 1) s.nontrivial(std::fabs(want) > 100 * tol);
  else s.nontrivial(want > 100 * tol);
  Real got = real_simplex_size<sd, ed>(lp);
  NEAR(got, want, tol, "simplex size");
  // permutations
  auto pm = s.permutation(ed + 1);
  std::vector<M> pp;
  int inv = 0;
  for (int i = 0; i <= ed; ++i) {
    pp.push_back(p[st(pm[st(i)])]);
    for (int j = i + 1; j <= ed; ++j) inv += pm[st(i)] > pm[st(j)];
  }
  Real perm = real_simplex_size<sd, ed>(libp<sd, ed>(pp));
  NEAR(perm, sd == ed && ed > 1 && inv % 2 ? -got : got, 2 * tol, "size after renumbering");
  // subdivision
  {
    std::vector<LD> w;
    LD t = 0;
    int zero = s.below(3);
    for (int i = 0; i <= ed; ++i) {
      LD v = zero == 1 && i > 1 ? 0 : LD(s.range(1, 8));
      w.push_back(v);
      t += v;
    }
    M c(sd, 1);
    for (int i = 0; i <= ed; ++i) c = add(c, scl(p[st(i)], w[st(i)] / t));
    for (auto& x : c.a) x = Real(x);
    LD sum = 0;
    for (int i = 0; i <= ed; ++i) {
      auto sub = p;
      sub[st(i)] = c;
      sum += real_simplex_size<sd, ed>(libp<sd, ed>(sub));
    }
    // the rounding of c moves the pieces when they are embedded
    NEAR(sum, got, 20 * tol + (sd == ed && ed > 1 ? 0 : 1e-13L * mag + (ed == 2 ? 1e-7L * mag : 0)), "sum of the sizes of a subdivision");
  }
  // edge vectors and edges
  if constexpr (sd == ed) {
    auto b = simplex_basis<sd, ed>(lp);
    auto ev = element_edge_vectors(lp, b);
    int ne = ed == 1 ? 1 : ed == 2 ? 3 : 6;
    if (int(ev.size()) != ne) PFAIL("number of edge vectors");
    LD maxl = 0;
    for (int i = 0; i < ne; ++i) {
      int a0 = ed == 1 ? 0 : simplex_down_template(ed, 1, i, 0), a1 = ed == 1 ? 1 : simplex_down_template(ed, 1, i, 1);
      M d = sub(p[st(a1)], p[st(a0)]);
      LD r = 4 * EPS * (nrm(p[st(a1)]) + nrm(p[st(a0)]));
      CLOSE(refv(ev[i]), d, r, "edge vector " + std::to_string(i));
      maxl = std::max(maxl, len(d));
    }
    NEAR(max_simplex_edge_length(lp), maxl, 1e-14L * maxl, "longest edge");
    NEAR(mean_squared_real_length(ev), [&] {
      LD q = 0;
      for (int i = 0; i < ne; ++i) q += dot(refv(ev[i]), refv(ev[i]));
      return q / ne;
    }(), 1e-14L * maxl * maxl, "mean squared length");
    // side vectors: outward, of size (dim-1)! times the side's measure, adding up to zero
    M sum(sd, 1);
    LD bl = maxl, sv = std::pow(bl, ed - 1), big = 0;
    for (auto& x : p) big = std::max(big, nrm(x));
    LD st_ = 40 * EPS * (sv + (ed > 1 ? std::pow(bl, ed - 2) * big : 0));
    for (int i = 0; i <= ed; ++i) {
      M n = refv(get_side_vector(lp, i));
      sum = add(sum, n);
      // vertex opposite the side
      int opp = ed == 1 ? 1 - i : simplex_opposite_template(ed, ed - 1, i);
      int on = ed == 1 ? i : simplex_down_template(ed, ed - 1, i, 0);
      LD h = dot(n, sub(p[st(on)], p[st(opp)]));
      LD wanth = fact(ed) * want;
      if (ed == 1) wanth = p[1](0, 0) - p[0](0, 0);
      NEAR(h, wanth, 60 * fact(ed) * (tol + st_ * bl), "side vector " << i << " times height");
      std::vector<M> side;
      for (int j = 0; j < ed; ++j) side.push_back(p[st(ed == 1 ? i : simplex_down_template(ed, ed - 1, i, j))]);
      for (int j = 1; j < ed; ++j) {
        M e = sub(side[st(j)], side[0]);
        NEAR(dot(n, e), 0, 60 * st_ * bl, "side vector " << i << " is not normal to the side");
      }
      LD area = ed == 1 ? 1 : ref_size(side, nullptr) * fact(ed - 1);
      NEAR(len(n), area, 60 * st_ + 1e-9L * sv * 1e-6L, "length of side vector " << i);
      // plane of the side
      if (area > 1000 * st_) {
        auto pl = get_side_plane(lp, i);
        auto pn = normalize(pl);
        NEAR(norm(pn.n), 1, 1e-14L, "norm of a normalised plane's normal");
        LD sg = wanth / area;
        NEAR(distance(pn, lp[opp]), -sg, 100 * (st_ * (bl + big) + tol) / area, "distance of the opposite vertex to a side's plane");
        for (int j = 0; j < ed; ++j) {
          int v = ed == 1 ? i : simplex_down_template(ed, ed - 1, i, j);
          NEAR(distance(pn, lp[v]), 0, 100 * (st_ * (bl + big)) / area, "distance of a side's vertex to its plane");
        }
      }
    }
    CLOSE(sum, M(sd, 1), 60 * st_, "sum of side vectors");
    // size gradients: the size is affine in each vertex
    auto g = get_size_gradients(lp);
    M gs(sd, 1);
    for (int i = 0; i <= ed; ++i) {
      M gi = refv(g[i]);
      gs = add(gs, gi);
      CLOSE(refv(get_size_gradient(lp, i)), gi, 0, "get_size_gradient");
      auto mv = p;
      for (auto& x : mv[st(i)].a) x = Real(x + bl * s.uniform(-1, 1));
      LD m2;
      LD moved = ref_size(mv, &m2), was = want;
      if (ed == 1) moved = mv[1](0, 0) - mv[0](0, 0), was = p[1](0, 0) - p[0](0, 0);
      NEAR(dot(gi, sub(mv[st(i)], p[st(i)])), moved - was, 100 * (tol + EPS * m2 + st_ * bl), "size gradient of vertex " << i);
    }
    CLOSE(gs, M(sd, 1), 60 * st_, "sum of size gradients");
    // affine map
    auto af = simplex_affine(lp);
    for (int i = 0; i <= ed; ++i) {
      auto u = zero_vector<ed>();
      if (i) u[i - 1] = 1;
      CLOSE(refv(af * u), p[st(i)], 8 * EPS * (big + bl), "affine map of corner " + std::to_string(i));
    }
  }
  // conditioning of the shape: measure relative to what a good shape would have
  LD bl = 0, big = 0;
  for (int i = 0; i <= ed; ++i) {
    big = std::max(big, nrm(p[st(i)]));
    for (int j = 0; j < i; ++j) bl = std::max(bl, len(sub(p[st(i)], p[st(j)])));
  }
  LD shape = bl > 0 ? std::fabs(want) * fact(ed) / std::pow(bl, ed) : 0;
  bool degen = !(shape > 1e-5L) || big > 1e4L * bl;
  if (sd != ed && bl > 0 && std::pow(bl, 2 * ed) * shape * shape < 1e-8L) degen = true;
  if (!degen) {
    s.label("shaped");
    LD ct = 200 * EPS * (1 + big / bl) / (shape * shape);
    // barycentric coordinates
    M xi(ed + 1, 1);
    LD t = 0;
    for (auto& x : xi.a) t += (x = s.chance(20) ? 0 : s.uniform(-0.5, 2));
    if (std::fabs(t) < 0.2L) xi(0, 0) += 1, t += 1;
    M x(sd, 1);
    for (int i = 0; i <= ed; ++i) x = add(x, scl(p[st(i)], xi(i, 0) /= t));
    LD xm = nrm(xi);
    Vector<sd> lx;
    for (int i = 0; i < sd; ++i) lx[i] = Real(x(i, 0));
    auto lxi = barycentric_from_global<sd, ed>(lx, lp);
    CLOSE(refv(lxi), xi, ct * (1 + xm) * 10, "barycentric coordinates");
    bool in = true;
    for (auto v : xi.a) in = in && v >= 0 && v <= 1;
    LD m_ = 1;
    for (auto v : xi.a) m_ = std::min(m_, std::min(std::fabs(v), std::fabs(1 - v)));
    if (m_ > ct * (1 + xm) * 20 && is_barycentric_inside(lxi) != in) PFAIL("is_barycentric_inside(" << str(refv(lxi)) << ")");
    Vector<ed> part;
    for (int i = 0; i < ed; ++i) part[i] = lxi[i + 1];
    auto full = form_barycentric(part);
    LD sum = 0;
    for (int i = 0; i <= ed; ++i) sum += full[i];
    NEAR(sum, 1, 10 * EPS * (1 + xm), "sum of barycentric coordinates");
    if constexpr (sd == ed) {
      auto A = simplex_affine(lp);
      auto ai = Omega_h::invert(A);
      auto back = ai * lx;
      M wantb(ed, 1);
      for (int i = 0; i < ed; ++i) wantb(i, 0) = xi(i + 1, 0);
      CLOSE(refv(back), wantb, ct * (1 + xm) * 10, "inverse affine map");
      // ball touching every side
      if (want > 0 && (ed > 1 || p[1](0, 0) > p[0](0, 0))) {
        auto ball = get_inball(lp);
        LD surf = 0;
        for (int i = 0; i <= ed; ++i) surf += len(refv(get_side_vector(lp, i))) / (ed == 3 ? 2 : 1);
        LD r = ed == 1 ? want / 2 : ed * want / surf;
        LD bt = 100 * ct * bl / std::min(LD(1), shape);
        NEAR(ball.r, r, bt, "inball radius");
        M c(sd, 1);
        LD tot = 0;
        for (int i = 0; i <= ed; ++i) {
          int side = ed == 1 ? 1 - i : simplex_opposite_template(ed, VERT, i);
          LD a = len(refv(get_side_vector(lp, side)));
          c = add(c, scl(p[st(i)], a));
          tot += a;
        }
        CLOSE(refv(ball.c), scl(c, 1 / tot), bt, "inball centre");
      }
    }
    if constexpr (sd == 3 && ed == 2) {
      auto c = get_circumcenter_vector(simplex_basis<3, 2>(lp));
      M ctr = add(refv(c), p[0]);
      LD R = len(refv(c));
      LD rt = 100 * ct * (bl + R) / shape;
      NEAR(len(sub(ctr, p[1])), R, rt, "circumcentre to vertex 1");
      NEAR(len(sub(ctr, p[2])), R, rt, "circumcentre to vertex 2");
      M n = refv(get_triangle_normal<3>(lp[0], lp[1], lp[2]));
      NEAR(dot(n, refv(c)), 0, rt * len(n), "circumcentre off the triangle's plane");
    }
    // the metric in which the element is regular with unit edges
    if constexpr (sd == ed) {
      if (shape > 1e-2L && (ed != 1 || p[1](0, 0) > p[0](0, 0))) {
        auto m = element_implied_metric(lp);
        M rmM = ref(m);
        LD tl = ed == 1 ? 1e-13L : 1e-11L / (shape * shape * shape * shape) * (1 + big / bl);
        if (tl < 1e-2L) {
          for (int i = 0; i <= ed; ++i)
            for (int j = 0; j < i; ++j) NEAR(quad(rmM, sub(p[st(i)], p[st(j)])), 1, tl, "edge length in the implied metric");
          CLOSE(rmM, tr(rmM), 0, "the implied metric is not symmetric");
        }
      }
    }
  }
  // bounding boxes
  {
    std::vector<Real> xs;
    for (auto& x : p)
      for (auto v : x.a) xs.push_back(Real(v));
    auto bb = find_bounding_box<sd>(mk(xs));
    for (int i = 0; i < sd; ++i) {
      LD lo = p[0](i, 0), hi = lo;
      for (auto& x : p) lo = std::min(lo, x(i, 0)), hi = std::max(hi, x(i, 0));
      if (LD(bb.min[i]) != lo || LD(bb.max[i]) != hi) PFAIL("bounding box axis " << i << ": [" << bb.min[i] << ", " << bb.max[i] << "], expected [" << double(lo) << ", " << double(hi) << "]");
    }
    auto eq = make_equilateral(bb);
    LD w = 0;
    for (int i = 0; i < sd; ++i) w = std::max(w, LD(bb.max[i]) - bb.min[i]);
    for (int i = 0; i < sd; ++i) {
      if (eq.min[i] != bb.min[i]) PFAIL("make_equilateral moved the minimum");
      NEAR(LD(eq.max[i]) - eq.min[i], w, 4 * EPS * (big + w), "make_equilateral extent");
    }
    bool flat = false;
    for (int i = 0; i < sd; ++i) flat = flat || !(LD(bb.max[i]) - bb.min[i] > 1e-4L * (big + 1e-3L));
    if (!flat) {
      auto af = get_affine_from_bbox_into_unit(bb);
      CLOSE(refv(af * bb.min), M(sd, 1), 1e-10L, "bounding box's minimum in the unit box");
      M one(sd, 1);
      for (auto& v : one.a) v = 1;
      CLOSE(refv(af * bb.max), one, 1e-10L, "bounding box's maximum in the unit box");
    }
    BBox<sd> u(libp<sd, ed>(p)[0]);
    for (int i = 1; i <= ed; ++i) u = unite(u, BBox<sd>(lp[i]));
    for (int i = 0; i < sd; ++i)
      if (u.min[i] != bb.min[i] || u.max[i] != bb.max[i]) PFAIL("unite differs from find_bounding_box");
  }
}
static void measures(Src& s, Env&) {
  switch (s.weighted({1, 3, 4, 2, 1, 1})) {
    case 0: return measures_case<1, 1>(s);
    case 1: return measures_case<2, 2>(s);
    case 2: return measures_case<3, 3>(s);
    case 3: return measures_case<3, 2>(s);
    case 4: return measures_case<2, 1>(s);
    default: return measures_case<3, 1>(s);
  }
}

// mean ratio in a metric, from first principles
static LD ref_quality(std::vector<M> const& p, M const& m, LD* err) {
  int d = p[0].m;
  LD mag;
  LD size = ref_size(p, &mag);
  LD dm;
  LD D = m.m == 1 ? std::pow(m(0, 0), d) : det(m, &dm);
  if (m.m == 1) dm = D;
  LD ms = size * std::sqrt(D);
  M full = m.m == d ? m : scl(eye(d), m(0, 0));
  LD msl = 0;
  int ne = 0;
  for (int i = 0; i <= d; ++i)
    for (int j = 0; j < i; ++j) msl += quad(full, sub(p[st(i)], p[st(j)])), ++ne;
  msl /= ne;
  LD eq = d == 3 ? std::sqrt(2.L) / 12 : std::sqrt(3.L) / 4;
  LD rel = 40 * EPS * (mag / std::max(std::fabs(size), 1e-300L) + dm / D) + 40 * EPS;
  if (err) *err = rel;
  if (ms < 0) return ms;
  return std::pow(ms / eq, 2.L / d) / msl;
}
template <Int d, Int md>
static void quality_case(Src& s) {
  M m = md == d ? gen_metric(s, d) : gen_metric(s, 1);
  M full = md == d ? m : scl(eye(d), m(0, 0));
  auto sp = gen_simplex(s, d, d, &full);
  auto& p = sp.p;
  s.desc("m=" + str(m) + " p=" + show(p));
  LD ext = 0;
  for (auto& x : p) ext = std::max(ext, nrm(sub(x, p[0])));
  if (ext == 0) throw Discard();
  LD err;
  LD want = ref_quality(p, m, &err);
  auto q = metric_element_quality(libp<d, d>(p), lib<md, md>(m));
  LD mag, size = ref_size(p, &mag);
  s.nontrivial(err < 1e-6L);
  if (err > 1e-2L) {
    // degenerate up to rounding: only close to zero
    if (!(std::fabs(LD(q)) <= 1e-8L + std::fabs(want) + 10 * err * std::fabs(want) || std::fabs(size) <= 1e4L * EPS * mag)) PFAIL("quality of a degenerate element is " << q);
    return;
  }
  NEAR(q, want, 4 * err * std::fabs(want) + 1e-14L * std::fabs(want), "quality");
  if (size > 0 && !(q > 0 && q <= 1 + 4 * err)) PFAIL("quality " << q << " of a positive element");
  if (size < 0 && !(q < 0)) PFAIL("quality " << q << " of an inverted element");
  if (sp.kind == 0 && size > 0) {
    LD cond = 1;
    {
      auto e = eigs(full);
      cond = std::sqrt(e.back() / e[0]);
    }
    NEAR(q, 1, 1e-12L * cond + 4 * err, "quality of an element regular in the metric");
    s.label("regular");
  }
  // permutations that keep the orientation
  auto pm = s.permutation(d + 1);
  int inv = 0;
  for (int i = 0; i <= d; ++i)
    for (int j = i + 1; j <= d; ++j) inv += pm[st(i)] > pm[st(j)];
  if (inv % 2) std::swap(pm[0], pm[1]);
  std::vector<M> pp;
  for (int i = 0; i <= d; ++i) pp.push_back(p[st(pm[st(i)])]);
  NEAR(metric_element_quality(libp<d, d>(pp), lib<md, md>(m)), q, 8 * err * std::fabs(want), "quality after renumbering");
  // scaling the element and the metric consistently, rotating both
  LD f = std::pow(2., s.range(0, 20) - 10);
  std::vector<M> p2;
  for (auto& x : p) p2.push_back(scl(x, f));
  M m2 = scl(m, 1 / (f * f));
  if (size > 0) {
    NEAR(metric_element_quality(libp<d, d>(p2), lib<md, md>(m2)), q, 8 * err * std::fabs(want), "quality after consistent scaling");
    NEAR(metric_element_quality(libp<d, d>(p2), lib<md, md>(m)), q, 8 * err * std::fabs(want), "quality after scaling the element");
  }
  M r = gen_rot(s, d);
  std::vector<M> p3;
  for (auto& x : p) {
    M y = mul(r, x);
    for (auto& v : y.a) v = Real(v);
    p3.push_back(y);
  }
  M m3 = md == d ? mul(mul(r, m), tr(r)) : m;
  for (auto& v : m3.a) v = Real(v);
  LD e3;
  LD w3 = ref_quality(p3, m3, &e3);
  if (e3 < 1e-6L && size > 0) NEAR(metric_element_quality(libp<d, d>(p3), lib<md, md>(m3)), w3, 8 * e3 * std::fabs(w3), "quality after rotation");
  if (e3 < 1e-8L && err < 1e-8L && size > 0) NEAR(w3, want, 1e3L * (err + e3), "rotation");
}
static void quality(Src& s, Env&) {
  switch (s.below(4)) {
    case 0: return quality_case<2, 2>(s);
    case 1: return quality_case<3, 3>(s);
    case 2: return quality_case<2, 1>(s);
    default: return quality_case<3, 1>(s);
  }
}

// the length of an edge whose end lengths are a and b under geometric
// interpolation of sizes: the integral of a^(1-t) b^t
static LD log_mean(LD a, LD b) {
  LD r = b / a;
  if (std::fabs(r - 1) < 1e-4L) {
    LD x = r - 1;
    return a * (1 + x / 2 - x * x / 12 + x * x * x / 24);
  }
  return (b - a) / std::log(r);
}
// the library switches to the arithmetic mean when the end lengths differ by
// at most 1e-3
static LD log_tol(LD a, LD b) {
  LD t = 1e-12L * (a + b);
  if (std::fabs(a - b) <= 1.0001e-3L) t += std::fabs((a + b) / 2 - log_mean(a, b)) * 1.01L;
  return t;
}
template <Int d, Int md>
static void length_case(Src& s) {
  M ma = gen_metric(s, md), mb = s.chance(25) ? ma : gen_metric(s, md);
  if (s.chance(30)) mb = scl(ma, s.pick<LD>({1, 1.0005L, 4, 0.25L, 1.02L}));
  for (auto& v : mb.a) v = Real(v);
  std::vector<M> p;
  LD sc = std::pow(10., s.uniform(-3, 2));
  for (int i = 0; i < 2; ++i) {
    M x(d, 1);
    for (auto& v : x.a) v = Real(s.uniform(-1, 1) * sc);
    p.push_back(x);
  }
  s.desc("ma=" + str(ma) + " mb=" + str(mb) + " p=" + show(p));
  M v = sub(p[1], p[0]);
  M fa = md == d ? ma : scl(eye(d), ma(0, 0)), fb = md == d ? mb : scl(eye(d), mb(0, 0));
  LD la = std::sqrt(quad(fa, v)), lb = std::sqrt(quad(fb, v));
  if (!(la > 1e-6L && lb > 1e-6L)) throw Discard();
  s.nontrivial(std::fabs(la - lb) > 1e-2L);
  LD want = log_mean(la, lb), tol = log_tol(la, lb) + 1e-10L * (la + lb);
  Few<Tensor<md>, 2> ms;
  ms[0] = lib<md, md>(ma);
  ms[1] = lib<md, md>(mb);
  auto lp = libp<d, 1>(p);
  Real got = metric_edge_length<d, md>(lp, ms);
  NEAR(got, want, tol, "metric length of an edge");
  // the same by quadrature
  LD sum = 0;
  int n = 200;
  for (int i = 0; i < n; ++i) {
    LD t = (i + 0.5L) / n;
    sum += std::pow(la, 1 - t) * std::pow(lb, t) / n;
  }
  LD lr = std::log(lb / la);
  NEAR(got, sum, tol + want * lr * lr / (24.L * n * n) * 4 + 1e-12L, "integral of the length along an edge");
  std::swap(lp[0], lp[1]);
  std::swap(ms[0], ms[1]);
  NEAR((metric_edge_length<d, md>(lp, ms)), got, 1e-12L * got, "length in the other direction");
  if (LD(got) < std::min(la, lb) * (1 - 1e-12L) || LD(got) > std::max(la, lb) * (1 + 1e-12L)) PFAIL("length outside the range of the end lengths");
}
static void lengths(Src& s, Env&) {
  switch (s.below(5)) {
    case 0: return length_case<2, 2>(s);
    case 1: return length_case<3, 3>(s);
    case 2: return length_case<2, 1>(s);
    case 3: return length_case<3, 1>(s);
    default: return length_case<1, 1>(s);
  }
}

// whole-mesh measures agree with the definitions, entity by entity
static void mesh_measures(Src& s, Env& e) {
  int dim = 1 + int(s.weighted({1, 3, 3}));
  RawOpt o;
  o.jitter = true;
  o.max_cells = 8;
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, o);
  // a linear distortion of space (positive)
  M A = eye(dim);
  if (s.chance(60))
    for (int i = 0; i < dim; ++i)
      for (int j = i; j < dim; ++j) A(i, j) = i == j ? s.uniform(0.3, 2) : s.uniform(-0.5, 0.5);
  for (int v = 0; v < r.nv; ++v) {
    M x(dim, 1);
    for (int i = 0; i < dim; ++i) x(i, 0) = r.x[st(v * dim + i)];
    x = mul(A, x);
    for (int i = 0; i < dim; ++i) r.x[st(v * dim + i)] = Real(x(i, 0));
  }
  auto m = build_raw(e, r);
  int md = dim == 1 || s.chance(35) ? 1 : dim;
  int nc = md * (md + 1) / 2;
  std::vector<M> met;
  std::vector<Real> tag;
  bool same = s.chance(20);
  for (int v = 0; v < m.nverts(); ++v) {
    M x = same && v ? met[0] : gen_metric(s, md);
    met.push_back(x);
    if (md == 1) tag.push_back(Real(x(0, 0)));
    else if (md == 2) tag.insert(tag.end(), {Real(x(0, 0)), Real(x(1, 1)), Real(x(1, 0))});
    else tag.insert(tag.end(), {Real(x(0, 0)), Real(x(1, 1)), Real(x(2, 2)), Real(x(1, 0)), Real(x(2, 1)), Real(x(2, 0))});
  }
  s.desc("dim=" + std::to_string(dim) + " metric dim=" + std::to_string(md) + " elems=" + std::to_string(m.nelems()));
  s.nontrivial(m.nelems() > 1 && !same);
  auto metrics = mk(tag);
  m.add_tag<Real>(VERT, "metric", nc, metrics);
  auto x = hv(m.coords());
  auto pts = [&](std::vector<LO> const& vs) {
    std::vector<M> p;
    for (auto v : vs) {
      M c(dim, 1);
      for (int i = 0; i < dim; ++i) c(i, 0) = x[st(v * dim + i)];
      p.push_back(c);
    }
    return p;
  };
  auto subset = [&](LO n) {
    std::vector<LO> r_;
    for (LO i = 0; i < n; ++i)
      if (s.chance(60)) r_.push_back(i);
    if (s.below(2)) std::reverse(r_.begin(), r_.end());
    return r_;
  };
  for (int d = 1; d <= dim; ++d) {
    auto vs = verts_of(m, d);
    std::vector<LD> want, tol;
    for (auto& v : vs) {
      LD mag;
      want.push_back(ref_size(pts(v), &mag));
      tol.push_back(1e-14L * mag);
    }
    auto check = [&](Reals got, std::vector<LO> const& a, char const* w) {
      auto g = hv(got);
      if (g.size() != a.size()) PFAIL(w << ": " << g.size() << " values for " << a.size() << " entities");
      for (st i = 0; i < a.size(); ++i) NEAR(g[i], want[st(a[i])], tol[st(a[i])], w << " of entity " << a[i] << " of dimension " << d);
    };
    std::vector<LO> all;
    for (LO i = 0; i < m.nents(d); ++i) all.push_back(i);
    auto sub_ = subset(m.nents(d));
    check(measure_ents_real(&m, d, mk(sub_), m.coords()), sub_, "measure_ents_real");
    if (d == dim) {
      check(measure_elements_real(&m), all, "measure_elements_real");
      check(measure_elements_real(&m, mk(sub_)), sub_, "measure_elements_real of a subset");
      check(m.ask_sizes(), all, "ask_sizes");
    }
    if (d == 1) {
      check(measure_edges_real(&m), all, "measure_edges_real");
      check(measure_edges_real(&m, mk(sub_)), sub_, "measure_edges_real of a subset");
    }
  }
  auto full = [&](LO v) { return md == dim ? met[st(v)] : scl(eye(dim), met[st(v)](0, 0)); };
  {
    auto vs = verts_of(m, 1);
    auto sub_ = subset(m.nedges());
    std::vector<LO> all;
    for (LO i = 0; i < m.nedges(); ++i) all.push_back(i);
    auto check = [&](Reals got, std::vector<LO> const& a, char const* w) {
      auto g = hv(got);
      if (g.size() != a.size()) PFAIL(w << ": wrong size");
      for (st i = 0; i < a.size(); ++i) {
        auto& v = vs[st(a[i])];
        auto p = pts(v);
        M d = sub(p[1], p[0]);
        LD la = std::sqrt(quad(full(v[0]), d)), lb = std::sqrt(quad(full(v[1]), d));
        NEAR(g[i], log_mean(la, lb), log_tol(la, lb) + 1e-10L * (la + lb), w << " of edge " << a[i]);
      }
    };
    check(measure_edges_metric(&m), all, "measure_edges_metric");
    check(measure_edges_metric(&m, metrics), all, "measure_edges_metric");
    check(measure_edges_metric(&m, mk(sub_)), sub_, "measure_edges_metric of a subset");
    check(measure_edges_metric(&m, mk(sub_), metrics), sub_, "measure_edges_metric of a subset");
    check(m.ask_lengths(), all, "ask_lengths");
  }
  {
    auto vs = verts_of(m, dim);
    auto sub_ = subset(m.nelems());
    std::vector<LO> all;
    for (LO i = 0; i < m.nelems(); ++i) all.push_back(i);
    auto check = [&](Reals got, std::vector<LO> const& a, char const* w) {
      auto g = hv(got);
      if (g.size() != a.size()) PFAIL(w << ": wrong size");
      for (st i = 0; i < a.size(); ++i) {
        auto& v = vs[st(a[i])];
        if (dim == 1) {
          if (g[i] != 1) PFAIL(w << " in 1D: " << g[i]);
          continue;
        }
        // the metric of the most demanding vertex (largest determinant) decides
        LD bestd = -1, second = -1;
        LO best = -1;
        for (auto u : v) {
          LD dd = det(met[st(u)]);
          if (dd > bestd) second = bestd, bestd = dd, best = u;
          else if (dd > second) second = dd;
        }
        if (!same && second > bestd * (1 - 1e-9L)) continue;  // a tie
        LD err, want = ref_quality(pts(v), met[st(best)], &err);
        NEAR(g[i], want, 4 * err * std::fabs(want), w << " of element " << a[i]);
      }
    };
    check(measure_qualities(&m), all, "measure_qualities");
    check(measure_qualities(&m, metrics), all, "measure_qualities");
    check(measure_qualities(&m, mk(sub_)), sub_, "measure_qualities of a subset");
    check(measure_qualities(&m, mk(sub_), metrics), sub_, "measure_qualities of a subset");
    check(m.ask_qualities(), all, "ask_qualities");
  }
}

// global bounding box and sizes of a distributed mesh
template <Int dim>
static void bbox_case(Src&, Env& e, Mesh& m) {
  auto bb = get_bounding_box<dim>(&m);
  auto x = hv(m.coords());
  for (int i = 0; i < dim; ++i) {
    Real lo = 1e300, hi = -1e300;
    for (st v = 0; v * dim < x.size(); ++v) lo = std::min(lo, x[v * dim + st(i)]), hi = std::max(hi, x[v * dim + st(i)]);
    lo = e.comm->allreduce(lo, OMEGA_H_MIN);
    hi = e.comm->allreduce(hi, OMEGA_H_MAX);
    if (bb.min[i] != lo || bb.max[i] != hi) PFAIL("bounding box axis " << i << ": [" << bb.min[i] << ", " << bb.max[i] << "], expected [" << lo << ", " << hi << "]");
  }
}
static void bbox(Src& s, Env& e) {
  int dim = 1 + int(s.below(3));
  RawOpt o;
  o.jitter = true;
  o.max_cells = 8;
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, o);
  Real off = s.pick<Real>({0, -5, 7, -0.25});
  for (auto& x : r.x) x += off;
  Mesh m(e.lib);
  if (e.rank == 0) m = build_raw(e, r);
  m.set_comm(e.comm);
  auto part = gen_part(s, e.np, int(r.ne()));
  migrate_to(m, part);
  s.nontrivial(e.np > 1);
  s.desc("dim=" + std::to_string(dim) + " off=" + std::to_string(off));
  if (dim == 1) bbox_case<1>(s, e, m);
  if (dim == 2) bbox_case<2>(s, e, m);
  if (dim == 3) bbox_case<3>(s, e, m);
}

int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"measures", measures, 60000, 3000000, {1}, true, "the simplex is not degenerate"});
  t.push_back({"quality", quality, 60000, 3000000, {1}, true, "well-conditioned element"});
  t.push_back({"lengths", lengths, 30000, 1000000, {1}, true, "the end lengths differ by more than 1e-2"});
  t.push_back({"mesh", mesh_measures, 600, 30000, {1}, true, "more than one element and varying metric"});
  t.push_back({"bbox", bbox, 150, 6000, {2, 3}, true, "distributed"});
  return run(argc, argv, t);
}
