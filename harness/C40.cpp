// C40: moving to target coordinates, approaching a target metric
#include <Omega_h_metric.hpp>
#include <Omega_h_shape.hpp>
#include <cmath>
#include "adapt.hpp"
using namespace pbt;
struct Quiet {
  std::streambuf *a, *b;
  std::ostringstream s;
  Quiet() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(a), std::cerr.rdbuf(b); }
};
static bool vsame(std::vector<Real> const& a, std::vector<Real> const& b) {
  if (a.size() != b.size()) return false;
  for (st i = 0; i < a.size(); ++i)
    if (!biteq(a[i] + 0., b[i] + 0.)) return false;
  return true;
}
static Real allreduce_max(Env& e, Real x) { return e.comm->allreduce(x, OMEGA_H_MAX); }
static Env self_env(Env& e) {
  Env f = e;
  f.comm = e.lib->self();
  f.rank = 0;
  f.np = 1;
  return f;
}
static AdaptOpts opts_for(Src& s, Mesh& m) {
  AdaptOpts o(&m);
  o.verbosity = SILENT;
  if (s.chance(50)) {
    o.min_quality_allowed = s.pick({0.1, 0.2, 0.3, 0.05});
    o.min_quality_desired = std::max(o.min_quality_allowed, Real(s.pick({0.3, 0.4, 0.2})));
  }
  if (s.chance(50)) o.max_length_allowed = o.max_length_desired * s.pick({2., 1.2, 3., 1.});
  return o;
}
// the state is acceptable: by own positivity of elements and by the
// definitions of quality and length (checked by C22, C25)
static bool okay(Mesh& m, AdaptOpts const& o) {
  auto q = hv(m.ask_qualities());
  auto l = hv(m.ask_lengths());
  bool ok = true;
  for (auto x : q) ok = ok && !(x < o.min_quality_allowed);
  for (auto x : l) ok = ok && !(x > o.max_length_allowed);
  return ok;
}
// smooth or rough displacement per position
struct Disp {
  int dim = 2, kind = 0;
  Real amp = 0, c[3] = {0, 0, 0}, a[3][3], t[3] = {0, 0, 0};
  u64 salt = 0;
  std::vector<Real> at(Real const* x, int v) const {
    std::vector<Real> r;
    for (int i = 0; i < dim; ++i) {
      Real y = t[i];
      if (kind == 0)
        for (int j = 0; j < dim; ++j) y += a[i][j] * (x[j] - c[j]);
      else if (kind == 1)
        y += amp * (Real(mix64(salt + u64(v * 3 + i)) % 2001) / 1000. - 1);
      else
        y += amp * std::sin((x[(i + 1) % dim] - c[(i + 1) % dim]) / (amp > 0 ? amp : 1) * Real(salt % 7));
      r.push_back(y);
    }
    return r;
  }
};
static Disp gen_disp(Src& s, Problem const& p, bool only_affine) {
  Disp d;
  d.dim = p.mod.dim;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) d.a[i][j] = 0;
  d.kind = only_affine ? 0 : s.weighted({4, 4, 2});
  d.salt = s.below(1000);
  d.amp = p.unit * s.pick({0.3, 0.05, 1., 5., 0.});
  for (int i = 0; i < d.dim; ++i) {
    d.c[i] = 0.5 * (p.mod.xs[i].front() + p.mod.xs[i].back());
    if (s.chance(40)) d.t[i] = p.unit * s.uniform(-3, 3);
  }
  if (d.kind == 0) {
    Real m = only_affine ? 0.35 : s.pick({0.3, 1., 2.5});
    for (int i = 0; i < d.dim; ++i)
      for (int j = 0; j < d.dim; ++j)
        if (s.chance(60)) d.a[i][j] = m * s.uniform(-1, 1);
    if (d.dim > 1 && s.chance(30)) {
      Real th = s.uniform(-0.6, 0.6);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) d.a[i][j] = 0;
      d.a[0][0] = d.a[1][1] = std::cos(th) - 1;
      d.a[0][1] = -std::sin(th), d.a[1][0] = std::sin(th);
    }
  }
  return d;
}
static bool implied(Mesh& m, int how) {
  m.remove_tag(VERT, "metric");
  if (how == 0) m.add_tag(VERT, "metric", 1, get_implied_isos(&m));
  else m.add_tag(VERT, "metric", symm_ncomps(m.dim()), get_implied_metrics(&m));
  for (auto x : hv(m.get_array<Real>(VERT, "metric")))
    if (!std::isfinite(x)) return false;
  return true;
}
template <class F>
static int guarded(F f, bool& ret) {
  try {
    ret = f();
    return 0;
  } catch (Omega_h::exception const&) {
    return 1;
  }
}
void t_warp_step(Src& s, Env& e) {
  int dim = s.range(1, 3);
  ProbOpt po;
  po.small = true;
  auto p = gen_problem(s, dim, po);
  auto f = self_env(e);
  Mesh ser = build_serial(f, p);
  ser.set_comm(f.comm);
  ser.add_tag(VERT, "metric", 1, Reals(ser.nverts(), 1.));
  int how = dim == 1 ? 0 : s.range(0, 1);
  if (!implied(ser, how)) throw Discard();
  auto o = opts_for(s, ser);
  auto d = gen_disp(s, p, false);
  int maxit = s.pick({40, 0, 1, 2, 3, 6, 10});
  bool stall = s.chance(60);
  bool no_warp = s.chance(4);
  bool start_ok = okay(ser, o);
  auto x0 = hv(ser.coords());
  std::vector<Real> w;
  for (int v = 0; v < ser.nverts(); ++v)
    for (auto y : d.at(&x0[st(v * dim)], v)) w.push_back(y);
  // which power of one half is acceptable first
  int k = 0;
  bool found = false;
  std::vector<Real> want;
  for (; k <= maxit && !found && start_ok; ++k) {
    want.clear();
    for (st i = 0; i < w.size(); ++i) want.push_back(x0[i] + std::ldexp(w[i], -k));
    ser.set_coords(mk(want));
    found = okay(ser, o);
  }
  --k;
  // distributed
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_serial(e, p);
  distribute(e, s, m, p);
  int layers = s.range(0, 1);
  if (layers) m.set_parting(OMEGA_H_GHOSTED, 1, false);
  auto g = hv(m.globals(0));
  auto spread = [&](std::vector<Real> const& a, int nc) {
    std::vector<Real> r;
    for (auto y : g)
      for (int c = 0; c < nc; ++c) r.push_back(a[st(y) * st(nc) + st(c)]);
    return r;
  };
  auto met = hv(ser.get_array<Real>(VERT, "metric"));
  int mc = how == 0 ? 1 : symm_ncomps(dim);
  m.add_tag(VERT, "metric", mc, mk(spread(met, mc)));
  if (!no_warp) m.add_tag(VERT, "warp", dim, mk(spread(w, dim)));
  if (s.chance(50)) m.ask_qualities();
  s.desc(" displacement ", d.kind, " of ", d.amp / p.unit, ", ", !start_ok ? "bad start" : found ? "step " + std::to_string(k) : "no step", " of ", maxit, stall ? ", drop" : "", ", np ", e.np);
  s.label(!start_ok ? "bad start" : !found ? "stalled" : k == 0 ? "whole step" : "part of the step");
  s.nontrivial(start_ok && !(found && k == 0));
  bool ret = false;
  int rc;
  {
    Quiet q;
    rc = guarded([&] { return warp_to_limit(&m, o, stall, maxit); }, ret);
  }
  if (no_warp) {
    if (rc || ret) PFAIL("did something without a displacement");
    return;
  }
  if (!start_ok || (!found && !stall)) {
    if (!rc) PFAIL("no complaint " << (start_ok ? "when stalled" : "about the mesh to start from"));
    return;
  }
  if (rc) PFAIL("gave up");
  if (!ret) PFAIL("reports that nothing was done");
  if (!found) want = x0;
  auto wx = spread(want, dim);
  if (!vsame(hv(m.coords()), wx)) PFAIL("coordinates are not " << (found ? "those of the first acceptable step" : "those from before the step that was given up") << ": " << show(hv(m.coords())) << " should be " << show(wx));
  if (!found || k == 0) {
    if (m.has_tag(VERT, "warp")) PFAIL("displacement not removed at the end");
  } else {
    if (!m.has_tag(VERT, "warp")) PFAIL("displacement removed before the end");
    auto rem = hv(m.get_array<Real>(VERT, "warp"));
    auto full = spread(w, dim), start = spread(x0, dim);
    if (rem.size() != full.size()) PFAIL("width of the displacement changed");
    for (st i = 0; i < rem.size(); ++i) {
      Real r = full[i] - std::ldexp(full[i], -k);
      if (!(std::fabs(rem[i] - r) <= 1e-12 * std::fabs(full[i]))) PFAIL("remaining displacement " << rem[i] << ", should be " << r << " of " << full[i]);
    }
  }
  // what is left is acceptable, also by caches
  auto q = hv(m.ask_qualities());
  auto l = hv(m.ask_lengths());
  for (auto y : q)
    if (!(y >= o.min_quality_allowed)) PFAIL("quality " << y << " below the limit after the step");
  for (auto y : l)
    if (!(y <= o.max_length_allowed)) PFAIL("length " << y << " above the limit after the step");
}
void t_metric_step(Src& s, Env& e) {
  int dim = s.range(1, 3);
  ProbOpt po;
  po.small = true;
  auto p = gen_problem(s, dim, po);
  auto f = self_env(e);
  Mesh ser = build_serial(f, p);
  ser.set_comm(f.comm);
  ser.add_tag(VERT, "metric", 1, Reals(ser.nverts(), 1.));
  auto fn = gen_metric(s, p);
  int how = fn.ncomps() == 1 ? 0 : 1;
  if (!implied(ser, how)) throw Discard();
  auto o = opts_for(s, ser);
  Real min_step = s.pick({1e-4, 0.3, 0.1, 0.5, 1e-8});
  auto tgt = hv(eval_metric(ser, fn));
  auto met = hv(ser.get_array<Real>(VERT, "metric"));
  bool start_ok = okay(ser, o);
  bool found = false;
  Real fac = 1;
  std::vector<Real> want;
  if (start_ok)
    for (; fac == 1 || fac >= min_step; fac /= 2) {
      want = fac == 1 ? tgt : hv(interpolate_between_metrics(ser.nverts(), mk(met), mk(tgt), fac));
      ser.set_tag(VERT, "metric", mk(want));
      found = okay(ser, o);
      if (found) break;
    }
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_serial(e, p);
  distribute(e, s, m, p);
  if (s.chance(40)) m.set_parting(OMEGA_H_GHOSTED, 1, false);
  // the number of components is derived from the number of vertices
  for (auto n : allgather(e, std::vector<I64>{m.nverts()}))
    if (n == 0) throw Discard();
  auto g = hv(m.globals(0));
  int mc = fn.ncomps();
  auto spread = [&](std::vector<Real> const& a) {
    std::vector<Real> r;
    for (auto y : g)
      for (int c = 0; c < mc; ++c) r.push_back(a[st(y) * st(mc) + st(c)]);
    return r;
  };
  m.add_tag(VERT, "metric", mc, mk(spread(met)));
  m.add_tag(VERT, "target_metric", mc, mk(spread(tgt)));
  if (s.chance(50)) m.ask_lengths(), m.ask_qualities();
  s.desc(", ", !start_ok ? "bad start" : found ? "step" : "no step", " ", fac, ", np ", e.np);
  s.label(!start_ok ? "bad start" : !found ? "stalled" : fac == 1 ? "whole step" : "part of the step");
  s.nontrivial(start_ok && !(found && fac == 1));
  bool ret = false;
  int rc;
  {
    Quiet q;
    rc = guarded([&] { return approach_metric(&m, o, min_step); }, ret);
  }
  if (!found) {
    if (!rc) PFAIL("no complaint " << (start_ok ? "when stalled" : "about the mesh to start from"));
    return;
  }
  if (rc) PFAIL("gave up, although a step of " << fac << " is acceptable");
  if (!ret) PFAIL("reports that nothing was done");
  auto now = hv(m.get_array<Real>(VERT, "metric"));
  if (!vsame(now, spread(want))) PFAIL("the metric is not that of the first acceptable step");
  if (fac == 1) {
    if (m.has_tag(VERT, "target_metric")) PFAIL("target not removed on arrival");
  } else {
    if (!m.has_tag(VERT, "target_metric")) PFAIL("target removed before arrival");
    if (!vsame(hv(m.get_array<Real>(VERT, "target_metric")), spread(tgt))) PFAIL("target changed");
  }
  for (auto y : hv(m.ask_qualities()))
    if (!(y >= o.min_quality_allowed)) PFAIL("quality " << y << " below the limit after the step");
  for (auto y : hv(m.ask_lengths()))
    if (!(y <= o.max_length_allowed)) PFAIL("length " << y << " above the limit after the step");
}
// whole journeys
void t_warp(Src& s, Env& e) {
  int dim = s.weighted({2, 4, 3}) + 1;
  ProbOpt po;
  po.small = true;
  auto p = gen_problem(s, dim, po);
  auto d = gen_disp(s, p, true);
  // the whole map, and every part of the way, must not turn anything over
  for (int i = 0; i <= 8; ++i) {
    Real a[3][3];
    for (int r = 0; r < 3; ++r)
      for (int c = 0; c < 3; ++c) a[r][c] = (r == c) + i / 8. * d.a[r][c];
    if (det_of(dim, a) < 0.15) throw Discard();
  }
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_serial(e, p);
  distribute(e, s, m, p);
  m.set_parting(OMEGA_H_GHOSTED, 1, false);
  // the number of components is derived from the number of vertices
  for (auto n : allgather(e, std::vector<I64>{m.nverts()}))
    if (n == 0) throw Discard();
  m.add_tag(VERT, "metric", 1, Reals(m.nverts(), 1.));
  if (!implied(m, 0)) throw Discard();
  AdaptOpts o(&m);
  o.verbosity = SILENT;
  if (dim > 1) {
    o.min_quality_allowed = std::min(o.min_quality_allowed, 0.9 * m.min_quality());
    if (s.chance(50)) o.min_quality_allowed = std::min(o.min_quality_allowed, 0.1);
  }
  o.max_length_allowed = std::max(o.max_length_allowed, m.max_length() * s.pick({1.05, 1.3, 2.}));
  o.xfer_opts.type_map["orig"] = OMEGA_H_LINEAR_INTERP;
  auto x0 = hv(m.coords());
  m.add_tag(VERT, "orig", dim, mk(x0));
  std::vector<Real> w;
  for (int v = 0; v < m.nverts(); ++v)
    for (auto y : d.at(&x0[st(v * dim)], v)) w.push_back(y);
  m.add_tag(VERT, "warp", dim, mk(w));
  Real big = 0;
  for (int i = 0; i < dim; ++i) big = std::max(big, std::max(std::fabs(p.mod.xs[i].front()), std::fabs(p.mod.xs[i].back())) + std::fabs(d.t[i]));
  big = allreduce_max(e, big) * 4;
  auto vol_of = [&](GMesh const& g) {
    Real v = 0;
    for (auto& kv : g.ents[dim]) {
      auto q = simplex_size(g, kv.second);
      if (!(q > 0)) PFAIL("element " << kv.first << " has size " << q);
      v += q;
    }
    return v;
  };
  int steps = 0, rounds = 0;
  bool done = false;
  std::set<std::vector<Real>> origs;
  {
    auto g = gather_checked(e, m);
    for (auto& kv : g.ents[0]) origs.insert(coords_of(g, kv.first));
  }
  Real fixed_vol = p.volume;
  Real prev_left = 1;
  for (; rounds < 12; ++rounds) {
    bool ret = false;
    int rc;
    {
      Quiet q;
      rc = guarded([&] { return warp_to_limit(&m, o); }, ret);
    }
    if (rc) break;
    if (!ret) {
      done = true;
      break;
    }
    ++steps;
    // where we are: everything that is left to go is the same fraction
    Real left = m.has_tag(VERT, "warp") ? -1 : 0;
    if (left < 0) {
      auto xs = hv(m.coords()), ws = hv(m.get_array<Real>(VERT, "warp")), os = hv(m.get_array<Real>(VERT, "orig"));
      Real mx = 0, mo = 0;
      for (int v = 0; v < m.nverts(); ++v) {
        auto full = d.at(&os[st(v * dim)], v);
        for (int k = 0; k < dim; ++k) {
          Real a = xs[st(v * dim + k)] + ws[st(v * dim + k)], b = os[st(v * dim + k)] + full[st(k)];
          if (!(std::fabs(a - b) <= 1e-9 * big)) PFAIL("after step " << steps << ": position " << xs[st(v * dim + k)] << " and remaining displacement " << ws[st(v * dim + k)] << " do not lead to " << b);
          if (std::fabs(full[st(k)]) > mo) mo = std::fabs(full[st(k)]), mx = std::fabs(ws[st(v * dim + k)]);
        }
      }
      if (mo > 1e-6 * big) {
        left = mx / mo;
        if (!(left < prev_left + 1e-6)) PFAIL("no progress in step " << steps << ": " << left << " of the way is left, was " << prev_left);
      }
      left = allreduce_max(e, left);
      prev_left = left;
    }
    auto g = gather_checked(e, m);
    vol_of(g);
    if (m.min_quality() < o.min_quality_allowed) PFAIL("quality " << m.min_quality() << " below " << o.min_quality_allowed << " in step " << steps);
    if (m.max_length() > o.max_length_allowed) PFAIL("length " << m.max_length() << " above " << o.max_length_allowed << " in step " << steps);
    if (s.below(100) < 85) {
      Quiet q;
      adapt(&m, o);
    }
  }
  s.desc(", ", steps, " steps", done ? "" : ", not finished", ", np ", e.np);
  s.label(!done ? "not finished" : steps > 1 ? "several steps" : "one step");
  s.nontrivial(done && steps > 1);
  if (!done) return;
  if (m.has_tag(VERT, "warp")) PFAIL("a displacement is left");
  auto g = gather_checked(e, m);
  auto col = g.tag(0, "orig");
  if (!col) PFAIL("tag lost");
  int corners = 0;
  for (auto& kv : g.ents[0]) {
    auto x = coords_of(g, kv.first);
    std::vector<Real> o0;
    for (int k = 0; k < dim; ++k) o0.push_back(real_of(kv.second.pay[st(col->offset + k)]));
    auto full = d.at(o0.data(), 0);
    for (int k = 0; k < dim; ++k)
      if (!(std::fabs(x[st(k)] - o0[st(k)] - full[st(k)]) <= 1e-9 * big)) PFAIL("vertex from " << show(o0) << " arrived at " << show(x) << ", coordinate " << k << " should be " << o0[st(k)] + full[st(k)]);
    if (tag_int(g, 0, kv.second, "class_dim") == 0) {
      ++corners;
      if (!origs.count(o0)) PFAIL("a corner is no original vertex");
    }
  }
  Real a[3][3];
  for (int r = 0; r < 3; ++r)
    for (int c = 0; c < 3; ++c) a[r][c] = (r == c) + d.a[r][c];
  Real want = fixed_vol * det_of(dim, a), got = vol_of(g);
  if (!(std::fabs(got - want) <= 1e-8 * std::fabs(want) + 1e-11 * std::pow(big, dim))) PFAIL("measure at the end " << got << ", should be " << want);
}
void t_approach(Src& s, Env& e) {
  int dim = s.weighted({2, 4, 3}) + 1;
  ProbOpt po;
  po.small = true;
  auto p = gen_problem(s, dim, po);
  auto fn = gen_metric(s, p, false);
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_serial(e, p);
  distribute(e, s, m, p);
  m.set_parting(OMEGA_H_GHOSTED, 1, false);
  for (auto n : allgather(e, std::vector<I64>{m.nverts()}))
    if (n == 0) throw Discard();
  int mc = fn.ncomps();
  m.add_tag(VERT, "metric", 1, Reals(m.nverts(), 1.));
  if (!implied(m, mc == 1 ? 0 : 1)) throw Discard();
  m.add_tag(VERT, "target_metric", mc, eval_metric(m, fn));
  AdaptOpts o(&m);
  o.verbosity = SILENT;
  if (dim > 1) o.min_quality_allowed = std::min(o.min_quality_allowed, 0.9 * m.min_quality());
  o.max_length_allowed = std::max(o.max_length_allowed, m.max_length() * 1.05);
  bool done = false;
  int steps = 0;
  for (int i = 0; i < 15; ++i) {
    bool ret = false;
    int rc;
    {
      Quiet q;
      rc = guarded([&] { return approach_metric(&m, o); }, ret);
    }
    if (rc) break;
    if (!ret) {
      done = true;
      break;
    }
    ++steps;
    if (m.min_quality() < o.min_quality_allowed) PFAIL("quality " << m.min_quality() << " below " << o.min_quality_allowed << " in step " << steps);
    if (m.max_length() > o.max_length_allowed) PFAIL("length " << m.max_length() << " above " << o.max_length_allowed << " in step " << steps);
    for (auto n : allgather(e, std::vector<I64>{m.nverts()}))
      if (n == 0) throw Discard();
    Quiet q;
    adapt(&m, o);
    for (auto n : allgather(e, std::vector<I64>{m.nverts()}))
      if (n == 0) return;
  }
  s.desc(", ", steps, " steps", done ? "" : ", not finished", ", np ", e.np);
  s.label(!done ? "not finished" : steps > 1 ? "several steps" : "one step");
  s.nontrivial(done && steps > 1);
  if (!done) return;
  if (m.has_tag(VERT, "target_metric")) PFAIL("the target is left over");
  auto g = gather_checked(e, m);
  Real vol = 0;
  for (auto& kv : g.ents[dim]) {
    auto q = simplex_size(g, kv.second);
    if (!(q > 0)) PFAIL("element " << kv.first << " has size " << q);
    vol += q;
  }
  if (!(std::fabs(vol - p.volume) <= 1e-9 * p.volume)) PFAIL("measure changed from " << p.volume << " to " << vol);
  if (!fn.constant()) return;
  // the metric is the target everywhere
  auto now = hv(m.get_array<Real>(VERT, "metric"));
  auto tgt = hv(eval_metric(m, fn));
  for (int v = 0; v < m.nverts(); ++v) {
    Real n = 0, df = 0;
    for (int c = 0; c < mc; ++c) n = std::max(n, std::fabs(tgt[st(v * mc + c)])), df = std::max(df, std::fabs(tgt[st(v * mc + c)] - now[st(v * mc + c)]));
    if (!(df <= (mc == 1 ? 1e-9 : 0.05) * n)) PFAIL("metric at vertex " << v << " is " << df / n << " (relative) from the target");
  }
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"warp_step", t_warp_step, 800, 15000, {1, 2, 3}, true, "the whole displacement is not acceptable"});
  t.push_back({"metric_step", t_metric_step, 800, 15000, {1, 2, 3}, true, "the whole change is not acceptable"});
  t.push_back({"warp", t_warp, 150, 3000, {1, 2, 4}, true, "it takes several steps"});
  t.push_back({"approach", t_approach, 120, 3000, {1, 2, 4}, true, "it takes several steps"});
  return run(argc, argv, t);
}
