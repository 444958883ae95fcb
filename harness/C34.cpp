// C34: comparing arrays and meshes; difference options from command lines and files
#include <Omega_h_class.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_unmap_mesh.hpp>
#include <cmath>
#include <fstream>
#include <iostream>
#include "pmesh.hpp"
using namespace pbt;

struct Quiet {
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
static VarCompareOpts gen_opts(Src& s) {
  VarCompareOpts o;
  o.type = s.chance(50) ? VarCompareOpts::RELATIVE : VarCompareOpts::ABSOLUTE;
  if (s.chance(8)) o.type = VarCompareOpts::NONE;
  o.tolerance = s.pick({1e-6, 0., 1e-3, 0.25, 1e-12});
  o.floor = s.pick({0., 1e-3, 5., 1e-9});
  return o;
}
// the stated rule; 0 different, 1 same, 2 too close to call
static int rule(Real a, Real b, VarCompareOpts o) {
  if (o.type == VarCompareOpts::NONE) return 1;
  if (a != a || b != b) return 0;
  long double A = std::fabs((long double)a), B = std::fabs((long double)b), d = std::fabs((long double)a - (long double)b);
  if (o.type == VarCompareOpts::RELATIVE) {
    if (A <= o.floor && B <= o.floor) return 1;
    d /= std::max(A, B);
  }
  long double t = o.tolerance;
  if (d == 0) return 1;
  if (std::fabs(d - t) <= 1e-9L * t || (t == 0 && d < 1e-300L)) return 2;
  return d <= t;
}
static Real near_value(Src& s, Real a, VarCompareOpts o) {
  Real k = s.pick({0.5, 2., 0.9, 1.1, 0., 100.});
  Real t = o.tolerance > 0 ? o.tolerance : 1e-9;
  switch (s.range(0, 3)) {
    case 0: return a * (1 + k * t);
    case 1: return a - k * t;
    case 2: return a + s.pick({1., -1.}) * o.floor * k;
    default: return -a;
  }
}
void t_values(Src& s, Env& e) {
  auto o = gen_opts(s);
  bool ints = s.chance(25);
  int n = s.range(0, 12), nc = s.range(1, 3);
  u64 salt = s.below(1000);
  std::vector<Real> a, b;
  for (int i = 0; i < n * nc; ++i) {
    Real x = s.chance(20) ? 0. : s.chance(40) ? o.floor * s.pick({0.5, 1., 2.}) : s.nice(100.);
    a.push_back(x);
    b.push_back(x);
  }
  int k = a.empty() ? 0 : s.range(0, std::min<int>(3, int(a.size())));
  for (int i = 0; i < k; ++i) {
    st j = st(s.range(0, int(a.size()) - 1));
    b[j] = near_value(s, a[j], o);
    if (s.chance(5)) (s.chance(50) ? a : b)[j] = NAN;
  }
  // every process holds a share
  std::vector<Real> la, lb;
  int want = 1;
  for (int i = 0; i < n * nc; ++i) {
    int w = rule(a[st(i)], b[st(i)], o);
    if (ints) w = o.type == VarCompareOpts::NONE || I64(a[st(i)] != a[st(i)] ? 7 : a[st(i)]) == I64(b[st(i)] != b[st(i)] ? 7 : b[st(i)]);
    if (w == 2) throw Discard();
    want = std::min(want, w);
    if (int(mix64(salt + u64(i / nc)) % u64(e.np)) == e.rank) la.push_back(a[st(i)]), lb.push_back(b[st(i)]);
  }
  s.label(want ? "same" : "different");
  s.nontrivial(k > 0);
  s.desc(n, "x", nc, " type ", int(o.type), " tol ", o.tolerance, " floor ", o.floor, " ", show(a), " ", show(b));
  Quiet q;
  for (bool verbose : {false, true}) {
    bool r1, r2;
    if (ints) {
      std::vector<I64> ia, ib;
      for (auto x : la) ia.push_back(x != x ? 7 : I64(x));
      for (auto x : lb) ib.push_back(x != x ? 7 : I64(x));
      r1 = compare_arrays(e.comm, mk(ia), mk(ib), o, nc, 0, verbose);
      r2 = compare_arrays(e.comm, mk(ib), mk(ia), o, nc, 0, verbose);
    } else {
      r1 = compare_arrays(e.comm, mk(la), mk(lb), o, nc, 0, verbose);
      r2 = compare_arrays(e.comm, mk(lb), mk(la), o, nc, 0, verbose);
    }
    if (r1 != (want == 1)) PFAIL("arrays " << (r1 ? "equal" : "different") << " (verbose " << verbose << "), they are " << (want ? "equal" : "different"));
    if (r1 != r2) PFAIL("comparison is not symmetric");
  }
  for (st i = 0; i < a.size(); ++i)
    if (o.type != VarCompareOpts::NONE) {
      bool c1 = compare_real(a[i], b[i], o), c2 = compare_real(b[i], a[i], o);
      int w = rule(a[i], b[i], o);
      if (c1 != c2 || (w != 2 && c1 != (w == 1))) PFAIL("values " << a[i] << " and " << b[i] << " compare " << c1 << " " << c2);
      Real d = get_real_diff(a[i], b[i], o);
      if (a[i] == b[i] && d != 0) PFAIL("difference of equal values " << d);
    }
}

struct TagSpec {
  int dim, w, type;
  std::string name;
  std::vector<Real> v;
};
static void add_spec(Mesh& m, TagSpec const& t) {
  switch (t.type) {
    case 0: m.add_tag<I8>(t.dim, t.name, t.w, mk(std::vector<I8>(t.v.begin(), t.v.end()))); break;
    case 1: m.add_tag<I32>(t.dim, t.name, t.w, mk(std::vector<I32>(t.v.begin(), t.v.end()))); break;
    case 2: m.add_tag<I64>(t.dim, t.name, t.w, mk(std::vector<I64>(t.v.begin(), t.v.end()))); break;
    default: m.add_tag<Real>(t.dim, t.name, t.w, mk(t.v)); break;
  }
}
static Mesh make(Env& e, Raw const& r, std::vector<TagSpec> const& tags) {
  Mesh m = build_raw(e, r);
  finalize_classification(&m);
  for (auto& t : tags) add_spec(m, t);
  return m;
}
void t_meshes(Src& s, Env& e) {
  auto fam = s.chance(65) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  if (dim == 1) fam = OMEGA_H_SIMPLEX;
  RawOpt ro;
  ro.max_cells = 6;
  ro.subset = s.chance(30);
  ro.jitter = s.chance(50);
  auto r = gen_raw(s, fam, dim, ro);
  // reference counts
  std::vector<int> cnt(4, 0);
  {
    Env f = e;
    f.comm = e.lib->self();
    f.rank = 0;
    f.np = 1;
    Mesh m = build_raw(f, r);
    m.set_comm(f.comm);
    for (int d = 0; d <= dim; ++d) cnt[st(d)] = m.nents(d);
  }
  std::vector<TagSpec> tags;
  int nt = s.range(0, 4);
  for (int i = 0; i < nt; ++i) {
    TagSpec t{s.range(0, dim), s.range(1, 3), s.range(0, 3), "t" + std::to_string(i), {}};
    u64 salt = s.below(1000);
    for (int k = 0; k < cnt[st(t.dim)] * t.w; ++k) t.v.push_back(t.type < 3 ? Real(int(mix64(salt + u64(k)) % 100)) : Real(int(mix64(salt + u64(k)) % 2001) - 1000) / 64);
    tags.push_back(t);
  }
  VarCompareOpts o = gen_opts(s);
  if (o.type == VarCompareOpts::NONE) o = VarCompareOpts::defaults();
  bool full = !s.chance(30);
  auto rb = r;
  auto tb = tags;
  Omega_h_Comparison want = OMEGA_H_SAME;
  int kind = s.weighted({3, 5, 3, 2, 2, 2, 2, 3, 1, 1, 3});
  std::string what = "no change";
  std::string extra;
  MeshCompareOpts opts;
  bool off = false;
  auto seen = [&](int d) { return full || d == 0 || d == dim; };
  auto pick_tag = [&]() -> int { return tags.empty() ? -1 : s.range(0, int(tags.size()) - 1); };
  int ti = pick_tag();
  switch (kind) {
    case 1: {  // one value of a tag
      if (ti < 0) throw Discard();
      auto& t = tb[st(ti)];
      st j = st(s.range(0, int(t.v.size()) - 1));
      Real b = t.type < 3 ? t.v[j] + s.pick({1., -1., 7.}) : near_value(s, t.v[j], o);
      int w = t.type < 3 ? 0 : rule(t.v[j], b, o);
      if (w == 2) throw Discard();
      t.v[j] = b;
      off = s.chance(15);
      if (!w && seen(t.dim) && !off) want = OMEGA_H_DIFF;
      what = t.type < 3 ? "integer value" : w ? "value within tolerance" : "value beyond tolerance";
      break;
    }
    case 2: {  // one coordinate
      st j = st(s.range(0, int(r.x.size()) - 1));
      Real b = near_value(s, r.x[j], o);
      int w = rule(r.x[j], b, o);
      if (w == 2) throw Discard();
      rb.x[j] = b;
      if (!w) want = OMEGA_H_DIFF;
      what = w ? "coordinate within tolerance" : "coordinate beyond tolerance";
      break;
    }
    case 3: {  // tag missing in the second
      if (ti < 0) throw Discard();
      tb.erase(tb.begin() + ti);
      if (seen(tags[st(ti)].dim)) want = OMEGA_H_DIFF;
      what = "tag missing in second";
      break;
    }
    case 4: {  // and in the first
      if (ti < 0) throw Discard();
      tb = tags;
      auto t = tags[st(ti)];
      tags.erase(tags.begin() + ti);
      if (seen(t.dim)) want = OMEGA_H_MORE;
      what = "tag missing in first";
      if (s.chance(30) && !tags.empty()) {  // and another one differs
        auto& u = tb[0].name == t.name ? tb[1] : tb[0];
        u.v[0] += 9999;
        if (u.type == 0) throw Discard();
        if (u.type == 3 && rule(u.v[0], u.v[0] - 9999, o)) throw Discard();
        if (seen(u.dim)) want = OMEGA_H_DIFF;
      }
      break;
    }
    case 5: {  // another type
      if (ti < 0) throw Discard();
      auto& t = tb[st(ti)];
      if (t.type == 3) throw Discard();
      t.type = (t.type + s.range(1, 3)) % 4;
      if (seen(t.dim)) want = OMEGA_H_DIFF;
      what = "tag of another type";
      break;
    }
    case 6: {  // another width
      if (ti < 0) throw Discard();
      auto& t = tb[st(ti)];
      int w = t.w == 1 ? s.range(2, 3) : t.w - 1;
      std::vector<Real> v;
      for (int i = 0; i < cnt[st(t.dim)]; ++i)
        for (int c = 0; c < w; ++c) v.push_back(t.v[st(i * t.w + c % t.w)]);
      t.w = w;
      t.v = v;
      if (seen(t.dim)) want = OMEGA_H_DIFF;
      what = "tag of another width";
      break;
    }
    case 7: {  // an element renumbers its vertices
      auto& rot = rotations(fam, dim);
      if (rot.size() < 2) throw Discard();
      int el = s.range(0, r.ne() - 1), k = s.range(0, int(rot.size()) - 1);
      for (int i = 0; i < r.deg; ++i) rb.ev[st(el * r.deg + i)] = r.ev[st(el * r.deg + rot[st(k)][st(i)])];
      if (rb.ev != r.ev) want = OMEGA_H_DIFF;
      what = rb.ev != r.ev ? "connectivity" : "no change";
      break;
    }
    case 8: {  // another family or dimension
      int d2 = s.range(1, 3);
      auto f2 = d2 == 1 ? OMEGA_H_SIMPLEX : s.chance(50) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
      if (d2 == dim && f2 == fam) throw Discard();
      RawOpt q;
      q.max_cells = 4;
      rb = gen_raw(s, f2, d2, q);
      tb.clear();
      want = OMEGA_H_DIFF;
      what = "other kind of mesh";
      break;
    }
    case 9: {  // one element less
      if (r.ne() < 2) throw Discard();
      rb.ev.resize(rb.ev.size() - st(r.deg));
      // vertices must stay in use
      std::set<int> u(rb.ev.begin(), rb.ev.end());
      if (int(u.size()) != r.nv) throw Discard();
      tb.clear();
      want = OMEGA_H_DIFF;
      what = "an element less";
      break;
    }
    case 10: {  // two elements swap places
      if (r.ne() < 2) throw Discard();
      int a = s.range(0, r.ne() - 1), b = s.range(0, r.ne() - 1);
      if (a == b) throw Discard();
      for (int i = 0; i < r.deg; ++i) std::swap(rb.ev[st(a * r.deg + i)], rb.ev[st(b * r.deg + i)]);
      want = OMEGA_H_DIFF;
      what = "elements swapped";
      break;
    }
    default: break;
  }
  s.label(what);
  s.label(full ? "full" : "not full");
  s.desc(fam_name(fam), dim, "D ", r.ne(), " elements, ", tags.size(), " tags, ", what, ", np ", e.np);
  s.nontrivial(kind > 0);
  auto pa = gen_part(s, e.np, r.ne()), pb = gen_part(s, e.np, rb.ne());
  bool ga = s.chance(30), gb = s.chance(30);
  u64 salt = s.below(1000);
  auto distribute = [&](Raw const& q, std::vector<TagSpec> const& t, std::vector<int> const& p, bool gh, bool perm) {
    Mesh m(e.lib);
    if (e.rank == 0 || e.np == 1) m = make(e, q, t);
    m.set_comm(e.comm);
    if (e.np > 1) migrate_to(m, p);
    else if (perm) {
      // every dimension renumbered locally, global numbers kept
      m.globals(0);
      LOs nd[4];
      for (int d = 0; d <= m.dim(); ++d) {
        m.globals(d);
        std::vector<LO> o2(static_cast<st>(m.nents(d)));
        std::iota(o2.begin(), o2.end(), 0);
        for (st i = o2.size(); i > 1; --i) std::swap(o2[i - 1], o2[mix64(salt + 31 * u64(d) + i) % i]);
        nd[d] = mk(o2);
      }
      unmap_mesh(&m, nd);
    }
    if (gh) m.set_parting(OMEGA_H_GHOSTED, 1, false);
    return m;
  };
  bool perm = s.chance(60);
  Mesh a = distribute(r, tags, pa, ga, false);
  Mesh b = distribute(rb, tb, pb, gb, perm);
  opts = MeshCompareOpts::init(&a, o);
  if (off) opts.tags2opts[tags[st(ti)].dim][tags[st(ti)].name] = VarCompareOpts::none();
  static char const* nm[] = {"SAME", "MORE", "DIFF"};
  Quiet q;
  for (bool verbose : {false, true}) {
    auto res = compare_meshes(&a, &b, opts, verbose, full);
    if (res != want) PFAIL(what << ": comparison says " << nm[int(res)] << ", should be " << nm[int(want)]);
  }
  // the other way round
  auto o2 = MeshCompareOpts::init(&b, o);
  if (off) o2.tags2opts[tags[st(ti)].dim][tags[st(ti)].name] = VarCompareOpts::none();
  auto back = compare_meshes(&b, &a, o2, false, full);
  auto wb = want == OMEGA_H_MORE ? OMEGA_H_DIFF : want;
  if (kind == 3 && want == OMEGA_H_DIFF) wb = OMEGA_H_MORE;
  if (back != wb) PFAIL(what << ": compared the other way round says " << nm[int(back)] << ", should be " << nm[int(wb)]);
}

// ---- options
static std::string gen_text(Src& s, VarCompareOpts& o, bool& given) {
  std::ostringstream t;
  given = true;
  switch (s.range(0, 3)) {
    case 0:
      o.type = VarCompareOpts::RELATIVE;
      o.tolerance = s.pick({1e-3, 1e-5, 0.5});
      t << " relative " << o.tolerance;
      return t.str();
    case 1:
      o.type = VarCompareOpts::RELATIVE;
      o.tolerance = s.pick({1e-3, 1e-5, 0.5});
      o.floor = s.pick({1e-7, 0., 2.});
      t << " relative " << o.tolerance << " floor " << o.floor;
      return t.str();
    case 2:
      o.type = VarCompareOpts::ABSOLUTE;
      o.tolerance = s.pick({1e-3, 1e-5, 0.5});
      t << " absolute " << o.tolerance;
      return t.str();
    default: given = false; return "";
  }
}
void t_options(Src& s, Env& e) {
  int dim = s.range(1, 3);
  RawOpt ro;
  ro.max_cells = 2;
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, ro);
  Mesh m = build_raw(e, r);
  m.set_comm(e.comm);
  int nn[2] = {s.range(0, 3), s.range(0, 3)};
  std::vector<std::string> names[2];
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < nn[k]; ++i) {
      names[k].push_back((k ? "el" : "no") + std::to_string(i));
      int d = k ? dim : 0;
      m.add_tag<Real>(d, names[k].back(), 1, Reals(m.nents(d), 0.));
    }
  // names that are there anyway
  std::vector<std::string> all[2];
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < m.ntags(k ? dim : 0); ++i) all[k].push_back(m.get_tag(k ? dim : 0, i)->name());
  std::vector<std::string> args{"prog", "gold", "result"};
  VarCompareOpts def = VarCompareOpts::defaults();
  Omega_h_Comparison want_max = OMEGA_H_SAME;
  if (s.chance(40)) {
    def.tolerance = s.pick({1e-4, 0.125});
    std::ostringstream o;
    o << def.tolerance;
    args.insert(args.begin() + s.pick({1, int(args.size())}), {"-tolerance", o.str()});
  }
  if (s.chance(40)) {
    def.floor = s.pick({1e-4, 0.125});
    std::ostringstream o;
    o << def.floor;
    args.insert(args.begin() + s.pick({1, int(args.size())}), {"-Floor", o.str()});
  }
  if (s.chance(40)) {
    want_max = OMEGA_H_MORE;
    args.push_back("-superset");
  }
  MeshCompareOpts opts;
  opts.time_step_opts = VarCompareOpts{VarCompareOpts::RELATIVE, 0.75, 0.};
  VarCompareOpts want_time = def;
  std::map<std::string, VarCompareOpts> want[2];
  bool coords = false, nodal = false, file = s.chance(80);
  std::string text;
  if (!file) {
    for (int k = 0; k < 2; ++k)
      for (auto& n : all[k]) want[k][n] = def;
  } else {
    want_time = opts.time_step_opts;
    std::vector<int> dirs;  // 0 coordinates 1 time steps 2 nodal 3 element
    for (int i = 0; i < 4; ++i)
      if (s.chance(60)) dirs.push_back(i);
    auto p = s.permutation(int(dirs.size()));
    auto noise = [&]() {
      if (s.chance(15)) text += s.pick<std::string>({"# a remark\n", "\n", "   \n", "#\n"});
    };
    for (auto i : p) {
      noise();
      bool g;
      switch (dirs[st(i)]) {
        case 0: {
          auto o = def;
          text += "COORDINATES" + gen_text(s, o, g) + "\n";
          want[0]["coordinates"] = o;
          coords = true;
          break;
        }
        case 1: {
          text += "TIME STEPS" + gen_text(s, want_time, g) + "\n";
          break;
        }
        default: {
          int k = dirs[st(i)] - 2;
          if (k == 0) nodal = true;
          auto o = def;
          bool a = s.chance(40);
          text += std::string(k ? "ELEMENT" : "NODAL") + " VARIABLES" + (a ? " (all)" : "") + gen_text(s, o, g) + "\n";
          int count = 0;
          std::set<std::string> gone;
          for (auto& n : names[k]) {
            noise();
            if (a && s.chance(25)) {
              text += "\t!" + n + "\n";
              gone.insert(n);
              ++count;
            } else if (s.chance(50)) {
              auto v = o;
              text += "\t" + n + gen_text(s, v, g) + "\n";
              want[k][n] = v;
              ++count;
            }
          }
          if (a || !count)
            for (auto& n : all[k])
              if (!want[k].count(n) && !gone.count(n)) want[k][n] = o;
          break;
        }
      }
    }
    auto path = e.scratch + "/cmd_" + std::to_string(e.rank) + ".txt";
    std::ofstream(path.c_str()) << text;
    args.push_back("-f");
    args.push_back(path);
  }
  s.desc(text, "| ", names[0].size(), " nodal ", names[1].size(), " element variables");
  s.label(file ? "file" : "no file");
  s.nontrivial(args.size() > 3);
  CmdLine cl;
  get_diff_program_cmdline("gold", "result", &cl);
  std::vector<char*> av;
  for (auto& a : args) av.push_back(&a[0]);
  av.push_back(nullptr);
  int argc = int(args.size());
  Omega_h_Comparison mx = OMEGA_H_DIFF;
  PCHECK(cl.parse(e.comm, &argc, av.data()), "the command line was refused");
  PCHECK(cl.get<std::string>("gold") == "gold" && cl.get<std::string>("result") == "result", "positional arguments");
  accept_diff_program_cmdline(cl, &m, &opts, &mx);
  PCHECK(mx == want_max, "largest difference allowed");
  auto cmp = [&](VarCompareOpts a, VarCompareOpts b, std::string const& n) {
    if (a.type != b.type || a.tolerance != b.tolerance || (b.type == VarCompareOpts::RELATIVE && a.floor != b.floor))
      PFAIL(n << " is compared with type " << int(a.type) << " tolerance " << a.tolerance << " floor " << a.floor << ", asked for type " << int(b.type) << " tolerance " << b.tolerance << " floor " << b.floor);
  };
  cmp(opts.time_step_opts, want_time, "time");
  for (int k = 0; k < 2; ++k)
    for (auto& n : all[k]) {
      if (n == "coordinates" && coords && nodal) continue;  // named twice
      auto o = opts.tag_opts(k ? dim : 0, n);
      auto it = want[k].find(n);
      cmp(o, it == want[k].end() ? VarCompareOpts::none() : it->second, n);
    }
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"values", t_values, 1000, 30000, {1, 2, 3}, true, "some value changed"});
  t.push_back({"meshes", t_meshes, 700, 12000, {1, 2, 3, 4}, true, "the copy is modified"});
  t.push_back({"options", t_options, 400, 6000, {1}, true, "options given"});
  return run(argc, argv, t);
}
