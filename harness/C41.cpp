// C41: reports about run time and about meshes count what they say
#include <Omega_h_compare.hpp>
#include <Omega_h_histogram.hpp>
#include <Omega_h_profile.hpp>
#include <cmath>
#include <iomanip>
#include "pmesh.hpp"
using namespace pbt;
typedef std::size_t st;
namespace prof = Omega_h::profile;

struct Capture {
  std::ostringstream o;
  std::streambuf* b;
  std::streamsize p;
  Capture() : b(std::cout.rdbuf(o.rdbuf())), p(std::cout.precision()) {}
  ~Capture() {
    std::cout.rdbuf(b);
    std::cout.precision(p);
  }
};
static std::vector<std::string> lines(std::string const& t) {
  std::vector<std::string> r;
  std::istringstream i(t);
  std::string l;
  while (std::getline(i, l)) r.push_back(l);
  return r;
}
// ------------------------------------------------- histories of timed regions
struct Node {
  std::string name;
  Node* up = nullptr;
  long calls = 0;
  int open = 0;
  double time = 0;
  double lo = 0, hi = 0;     // bounds of the time spent in finished calls
  Now before, after;         // around the start of the open call
  std::vector<std::unique_ptr<Node>> kids;
  Node* kid(std::string const& n) {
    for (auto& k : kids)
      if (k->name == n) return k.get();
    kids.emplace_back(new Node());
    kids.back()->name = n;
    kids.back()->up = this;
    return kids.back().get();
  }
  int size() const {
    int n = 1;
    for (auto& k : kids) n += k->size();
    return n;
  }
};
static std::string gen_name(Src& s) { return s.pick<std::string>({"a", "b", "aa", "ab", "solve", "sol", "x::y", "a"}); }
// a balanced or unfinished sequence of regions; returns the deepest open one
struct Ops {
  std::vector<std::string> ops;  // "" closes
  int left_open = 0;
};
static Ops gen_ops(Src& s, int maxn, bool close_all) {
  Ops r;
  int depth = 0, n = s.range(0, maxn);
  for (int i = 0; i < n; ++i) {
    if (depth && s.chance(45)) {
      r.ops.push_back("");
      --depth;
    } else {
      r.ops.push_back(gen_name(s));
      ++depth;
    }
  }
  if (close_all || s.chance(60))
    for (; depth; --depth) r.ops.push_back("");
  r.left_open = depth;
  return r;
}
static Node* play(Ops const& o, Node& root, std::function<void(std::string const&)> start, std::function<void()> stop) {
  Node* at = &root;
  for (auto& x : o.ops) {
    if (x.empty()) {
      auto c = now();
      stop();
      auto d = now();
      at->lo += c - at->after;
      at->hi += d - at->before;
      --at->open;
      at = at->up;
    } else {
      auto a = now();
      start(x);
      auto b = now();
      at = at->kid(x);
      at->before = a;
      at->after = b;
      ++at->calls;
      ++at->open;
    }
  }
  return at;
}
static std::string where(Node const* n) { return n->up ? where(n->up) + "/" + n->name : ""; }
// the same regions, in the same order
static void same_tree(prof::History const& h, st parent, Node const& n, std::vector<std::pair<st, Node const*>>& all) {
  st f = h.first(parent);
  for (auto& k : n.kids) {
    PCHECK(f != prof::invalid, "region " << where(k.get()) << " is missing");
    PCHECK(h.get_name(f) == k->name, "region " << where(k.get()) << " expected, found " << h.get_name(f));
    PCHECK(h.parent(f) == parent, "parent of " << where(k.get()));
    PCHECK(long(h.calls(f)) == k->calls, where(k.get()) << " was entered " << k->calls << " times, " << h.calls(f) << " recorded");
    all.push_back({f, k.get()});
    same_tree(h, f, *k, all);
    f = h.next(f);
  }
  PCHECK(f == prof::invalid, "unexpected region " << h.get_name(f) << " in " << where(&n));
}
// chosen times: multiples of 1/16, each region at least as long as its parts
static double set_times(Src& s, Node& n, bool root = true) {
  double t = 0;
  for (auto& k : n.kids) t += set_times(s, *k, false);
  if (!root) t += s.weighted({3, 1}) ? 0 : double(s.range(0, 400)) / 16;
  n.time = t;
  return t;
}
static double self_time(Node const& n) {
  double t = n.time;
  for (auto& k : n.kids) t -= k->time;
  return t;
}
static void add_inverse(Node const& n, Node& inv) {
  if (n.up) {
    double t = self_time(n);
    Node* to = &inv;
    for (Node const* u = &n; u->up; u = u->up) {
      to = to->kid(u->name);
      to->time += t;
      to->calls += n.calls;
    }
  }
  for (auto& k : n.kids) add_inverse(*k, inv);
}
struct Line {
  int depth;
  std::string name;
  double t;
  long calls;
};
static void expected_lines(Node const& n, int depth, double total, double chop, std::vector<Line>& out) {
  std::vector<Node const*> k;
  for (auto& x : n.kids) k.push_back(x.get());
  std::stable_sort(k.begin(), k.end(), [](Node const* a, Node const* b) { return a->time > b->time; });
  for (auto x : k) {
    if (x->time * 100.0 / total >= chop) out.push_back({depth, x->name, x->time, x->calls});
    expected_lines(*x, depth + 1, total, chop, out);
  }
}
// regions of equal time may come in any order in the inverse (whose order is
// that of discovery): compared as sorted levels
static void check_lines(std::vector<std::string> const& got, std::vector<Line> want, bool percent, double total, char const* which) {
  PCHECK(got.size() == want.size(), which << ": " << got.size() << " lines, expected " << want.size());
  std::vector<std::string> a, b;
  for (st i = 0; i < got.size(); ++i) {
    auto l = got[i];
    int depth = 0;
    while (l.compare(0, 3, "|  ") == 0) {
      l = l.substr(3);
      ++depth;
    }
    std::istringstream in(l);
    std::string name, t;
    long calls = -1;
    in >> name >> t >> calls;
    PCHECK(!in.fail(), which << ": unreadable line " << got[i]);
    if (percent) {
      PCHECK(t.back() == '%', which << ": no percentage in " << got[i]);
      t.pop_back();
    }
    double x = std::stod(t), y = percent ? want[i].t * 100. / total : want[i].t;
    double tol = percent ? 0.0051 : 1e-5 * std::fabs(y);
    PCHECK(depth == want[i].depth && std::fabs(x - y) <= tol, which << " line " << i << ": " << got[i] << ", expected depth " << want[i].depth << " " << want[i].name << " " << y);
    auto key = [](int d, std::string const& n, long c) { return std::to_string(d) + " " + n + " " + std::to_string(c); };
    a.push_back(key(depth, name, calls));
    b.push_back(key(want[i].depth, want[i].name, want[i].calls));
  }
  if (a != b) {
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    PCHECK(a == b, which << ": the regions or numbers of calls differ");
  }
}
static void t_profile(Src& s, Env&) {
  Node root;
  bool global = s.chance(35), files = global && s.chance(40);
  double chop = s.pick<double>({0, 0, 1, 10, 50});
  bool percent = s.chance(40);
  prof::History h(nullptr, percent, chop, files);
  auto ops = gen_ops(s, s.pick({6, 30, 120}), false);
  Node* at;
  bool unwound = false;
  if (global) {
    struct Swap {
      prof::History* old = prof::global_singleton_history;
      Swap(prof::History* h) { prof::global_singleton_history = h; }
      ~Swap() { prof::global_singleton_history = old; }
    } sw(&h);
    std::vector<std::unique_ptr<ScopedTimer>> open;
    // the name recorded includes the file only when asked for
    auto renamed = ops;
    for (auto& x : renamed.ops)
      if (!x.empty() && files) x = "file.cpp:3::" + x;
    st i = 0;
    at = play(renamed, root,
        [&](std::string const&) { open.emplace_back(new ScopedTimer(ops.ops[i++].c_str(), s.below(2) ? "/some/dir/file.cpp:3" : "file.cpp:3")); },
        [&]() {
          ++i;
          open.pop_back();
        });
    std::vector<std::pair<st, Node const*>> all;
    st cur = h.current_frame;
    same_tree(h, prof::invalid, root, all);
    st want = prof::invalid;
    for (auto& x : all)
      if (x.second == at) want = x.first;
    PCHECK(cur == want, "the current region is not " << where(at));
    if (cur != prof::invalid) PCHECK(get_runtime() >= h.time(cur), "run time so far below that of earlier calls");
    while (!open.empty()) {  // unwinding closes what is open
      unwound = true;
      open.pop_back();
      --at->open;
      at = at->up;
    }
    PCHECK(h.current_frame == prof::invalid, "a region is left open");
  } else {
    at = play(ops, root, [&](std::string const& n) { h.start(n.c_str()); }, [&]() { h.stop(); });
  }
  std::vector<std::pair<st, Node const*>> all;
  same_tree(h, prof::invalid, root, all);
  PCHECK(all.size() == h.frames.size(), "regions recorded twice");
  st want = prof::invalid;
  for (auto& x : all)
    if (x.second == at) want = x.first;
  PCHECK(h.current_frame == want, "the current region is not " << where(at));
  // visiting order
  st f = h.frames.empty() ? prof::invalid : 0;
  for (auto& x : all) {
    PCHECK(f == x.first, "traversal misses " << where(x.second));
    f = h.pre_order_next(f);
  }
  PCHECK(f == prof::invalid, "the traversal does not end");
  for (auto& x : all) {
    if (x.second->open) continue;
    double t = h.time(x.first), sum = 0;
    PCHECK(t >= 0, "negative time");
    double slack = 1e-8 * double(1 + x.second->calls);
    if (!unwound) PCHECK(t >= x.second->lo - slack && t <= x.second->hi + slack, where(x.second) << " took " << t << " s in " << x.second->calls << " calls, must be between " << x.second->lo << " and " << x.second->hi);
    for (st k = h.first(x.first); k != prof::invalid; k = h.next(k)) sum += h.time(k);
    PCHECK(sum <= t + 1e-7, "the parts of " << where(x.second) << " took " << sum << " s, the whole " << t);
  }
  // the inverse: time and calls by path from the innermost region outwards
  for (auto& x : all) const_cast<Node*>(x.second)->time = 0;
  double total = set_times(s, root) + s.pick<double>({0, 1, 64});
  if (total == 0) total = 1;
  for (auto& x : all) h.frames[x.first].total_runtime = x.second->time;
  Node inv;
  add_inverse(root, inv);
  auto hi = prof::invert(h);
  std::map<std::string, std::pair<double, long>> wi, gi;
  std::function<void(Node const&)> walk = [&](Node const& n) {
    if (n.up) wi[where(&n)] = {n.time, n.calls};
    for (auto& k : n.kids) walk(*k);
  };
  walk(inv);
  std::function<void(st, std::string)> walk2 = [&](st p, std::string at2) {
    for (st k = hi.first(p); k != prof::invalid; k = hi.next(k)) {
      auto w = at2 + "/" + hi.get_name(k);
      PCHECK(!gi.count(w), "inverse: " << w << " twice");
      gi[w] = {hi.time(k), long(hi.calls(k))};
      walk2(k, w);
    }
  };
  walk2(prof::invalid, "");
  for (auto& kv : wi) {
    PCHECK(gi.count(kv.first), "inverse: no " << kv.first);
    auto g = gi[kv.first];
    PCHECK(g.first == kv.second.first && g.second == kv.second.second, "inverse: " << kv.first << " took " << g.first << " s in " << g.second << " calls, expected " << kv.second.first << " in " << kv.second.second);
  }
  PCHECK(gi.size() == wi.size(), "the inverse has regions that were never entered");
  // the printed reports
  std::string text;
  {
    Capture c;
    prof::print_top_down_and_bottom_up(h, total);
    text = c.o.str();
  }
  auto l = lines(text);
  st td = 0, bu = 0;
  for (st i = 0; i < l.size(); ++i) {
    if (l[i] == "TOP-DOWN:") td = i;
    if (l[i] == "BOTTOM-UP:") bu = i;
  }
  PCHECK(td == 1 && bu > td + 2, "report without its two parts");
  std::vector<Line> w1, w2;
  expected_lines(root, 0, total, chop, w1);
  check_lines({l.begin() + long(td) + 2, l.begin() + long(bu) - 1}, w1, percent, total, "top-down");
  // equal times: the order of the inverse's regions is that of their discovery
  std::vector<std::string> rest(l.begin() + long(bu) + 2, l.end());
  std::function<void(prof::History const&, st, Node&)> order = [&](prof::History const& hh, st p, Node& n) {
    for (st k = hh.first(p); k != prof::invalid; k = hh.next(k)) {
      auto x = n.kid(hh.get_name(k));
      x->time = hh.time(k);
      x->calls = long(hh.calls(k));
      order(hh, k, *x);
    }
  };
  Node inv2;
  order(hi, prof::invalid, inv2);
  expected_lines(inv2, 0, total, chop, w2);
  check_lines(rest, w2, percent, total, "bottom-up");
  s.nontrivial(all.size() > 2);
  s.desc(ops.ops.size(), " events, ", all.size(), " regions, ", ops.left_open, " left open");
}
// the table over all processes
static void t_table(Src& s, Env& e) {
  double chop = s.pick<double>({0, 0, 0, 5, 20});
  bool percent = s.chance(40);
  std::vector<std::unique_ptr<Node>> roots;
  std::vector<double> totals;
  std::vector<Ops> ops;
  bool same = s.chance(30);
  for (int q = 0; q < e.np; ++q) {
    ops.push_back(same && q ? ops[0] : gen_ops(s, s.pick({0, 6, 20}), true));
    roots.emplace_back(new Node());
    play(ops.back(), *roots.back(), [](std::string const&) {}, []() {});
    totals.push_back(set_times(s, *roots.back()) + s.pick<double>({1, 64}));
  }
  prof::History h(e.comm, percent, chop, false);
  {
    Node mine;
    play(ops[st(e.rank)], mine, [&](std::string const& n) { h.start(n.c_str()); }, [&]() { h.stop(); });
  }
  std::function<void(st, Node&)> set = [&](st p, Node& n) {
    st f = h.first(p);
    for (auto& k : n.kids) {
      if (f == prof::invalid) PFAIL("region missing");
      h.frames[f].total_runtime = k->time;
      set(f, *k);
      f = h.next(f);
    }
  };
  set(prof::invalid, *roots[st(e.rank)]);
  std::string text;
  {
    Capture c;
    prof::print_top_sorted(h, totals[st(e.rank)]);
    text = c.o.str();
  }
  struct Row { double sum = 0, mn = 1e30, mx = -1; int on = 0; };
  std::map<std::string, Row> want;
  double total = 0, mon = 0;
  for (int q = 0; q < e.np; ++q) {
    total += totals[st(q)] / e.np;
    Node inv;
    add_inverse(*roots[st(q)], inv);
    for (auto& k : inv.kids) {
      auto& r = want[k->name];
      r.sum += k->time;
      mon += k->time / e.np;
      r.mn = std::min(r.mn, k->time);
      r.mx = std::max(r.mx, k->time);
      ++r.on;
    }
  }
  s.nontrivial(want.size() > 1);
  s.desc(want.size(), " functions on ", e.np, " processes");
  bool part = false;
  for (auto& kv : want) part = part || kv.second.on < e.np;
  if (part) s.label("a function timed on some processes only");
  if (e.rank) {
    PCHECK(text.empty(), "a process other than the first prints a report: " << text.substr(0, 80));
    return;
  }
  auto l = lines(text);
  std::map<std::string, std::vector<double>> got;
  double last = 1e300, gtotal = -1, gmon = -1;
  bool table = false;
  auto number = [](std::string x) {
    if (!x.empty() && x.back() == '%') x.pop_back();
    try {
      return std::stod(x);
    } catch (std::exception const&) {
      return double(NAN);
    }
  };
  double scale = percent ? 100. / total : 1.;
  // the figures are printed with two to six digits
  auto near = [&](double x, double y, double slack) { return std::fabs(x - y) <= slack + (percent ? 0.051 * std::fabs(y) + 0.0051 : 1e-5 * (std::fabs(y) + 1)); };
  for (auto& x : l) {
    std::istringstream in(x);
    if (x.compare(0, 15, "total_runtime= ") == 0) {
      std::string a, b, c;
      in >> a >> b;
      gtotal = number(b);
      auto p = x.find("monitored functions= ");
      PCHECK(p != std::string::npos, "no sum of the functions");
      gmon = number(x.substr(p + 21, x.find(' ', p + 21) - p - 21));
      continue;
    }
    if (x.find("-------") != std::string::npos && x.find("----", x.find("-------") + 7) != std::string::npos) {
      table = true;
      continue;
    }
    if (!table) continue;
    std::string a, b, c, d, name;
    in >> a >> b >> c >> d;
    std::getline(in, name);
    auto p = name.find_first_not_of(' ');
    PCHECK(p != std::string::npos, "unreadable line " << x);
    name = name.substr(p);
    PCHECK(!got.count(name), name << " listed twice");
    got[name] = {number(a), number(b), number(c)};
    PCHECK(number(a) <= last + 0.06 * std::fabs(last) + 0.01, "the table is not sorted");
    last = number(a);
  }
  PCHECK(table, "no table");
  auto near2 = [&](double x, double y) { return std::fabs(x - y) <= (percent ? 0.0051 : 1e-5 * (std::fabs(y) + 1)); };
  PCHECK(near2(gtotal, total), "average run time " << gtotal << ", expected " << total);
  PCHECK(near2(gmon, mon), "time in functions " << gmon << ", expected " << mon);
  for (auto& kv : want) {
    auto& r = kv.second;
    double ave = r.sum / e.np, pct = ave * 100. / total;
    if (std::fabs(pct - chop) < 1e-9) continue;
    if (pct < chop) {
      PCHECK(!got.count(kv.first), kv.first << " is listed below the threshold");
      continue;
    }
    PCHECK(got.count(kv.first), kv.first << " is not listed");
    auto& g = got[kv.first];
    PCHECK(near(g[0], ave * scale, 0), kv.first << ": average " << g[0] << ", expected " << ave * scale);
    PCHECK(near(g[2], r.mx * scale, 0), kv.first << ": maximum " << g[2] << ", expected " << r.mx * scale);
    // a process that never called it counts as zero or not at all
    if (!(r.on < e.np && near(g[1], 0, 0))) PCHECK(near(g[1], r.mn * scale, 0), kv.first << ": minimum " << g[1] << ", expected " << r.mn * scale);
  }
  for (auto& kv : got) PCHECK(want.count(kv.first) || kv.first == "unmonitored functions", kv.first << " was never called");
}
// ---------------------------------------------------------- counts of a mesh
static void t_counts(Src& s, Env& e) {
  auto fam = s.chance(60) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE;
  int dim = s.range(1, 3);
  if (dim == 1) fam = OMEGA_H_SIMPLEX;
  RawOpt ro;
  ro.max_cells = dim == 3 ? 8 : 20;
  ro.subset = s.chance(40);
  auto r = gen_raw(s, fam, dim, ro);
  auto part = gen_part(s, e.np, r.ne());
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, part);
  int layers = s.range(0, 2);
  if (layers) m.set_parting(OMEGA_H_GHOSTED, layers, false);
  else if (s.chance(20)) m.set_parting(OMEGA_H_VERT_BASED, false);
  for (int d = 1; d < dim; ++d) m.ask_down(dim, d);
  add_random_tags(s, m);
  int d = s.range(0, dim);
  // multiples of 1/8 around a range of multiples of 1/4: edges of bins are hit
  u64 salt = s.below(1000);
  int nbins = s.range(1, 6);
  int span = s.pick({4, 16, 64});
  Real step = Real(s.range(1, 8)) / 4, lo = Real(s.range(-8, 8)) / 4, hi = lo + step * nbins;
  auto gl = hv(m.globals(d));
  std::vector<Real> v;
  for (auto g : gl) v.push_back(lo + Real(I64(mix64(salt + u64(g)) % u64(3 * span)) - span) / 8);
  m.add_tag<Real>(d, "val", 1, mk(v));
  auto g = gather_checked(e, m);
  auto own = hv(m.owned(d));
  std::vector<GO> want(st(nbins), 0);
  GO nlow = 0, nhigh = 0, all = GO(g.ents[d].size());
  auto tc = g.tag(d, "val");
  Real mn = 1e300, mx = -1e300;
  Real dlo = lo + step * s.range(0, nbins), dhi = dlo + Real(s.range(0, 8)) / 8;
  for (auto& kv : g.ents[d]) {
    Real x = real_of(kv.second.pay[st(tc->offset)]);
    mn = std::min(mn, x);
    mx = std::max(mx, x);
    if (x < dlo) ++nlow;
    if (x > dhi) ++nhigh;
    if (x < lo || x > hi) continue;
    int b = std::min(nbins - 1, int(std::floor((x - lo) / step)));
    ++want[st(b)];
  }
  {  // bounds that round: nothing between them is lost
    std::vector<Real> v3;
    for (auto x : v) v3.push_back(x * 0.1 + 0.3);
    auto h3 = get_histogram(&m, d, nbins, mn * 0.1 + 0.3, mx * 0.1 + 0.3, mk(v3));
    GO sum = 0;
    for (auto b : h3.bins) sum += b;
    if (all && mn < mx) PCHECK(sum == all, "a histogram from the least to the greatest of " << all << " values holds " << sum);
  }
  auto h = get_histogram(&m, d, nbins, lo, hi, m.get_array<Real>(d, "val"));
  PCHECK(h.min == lo && h.max == hi && int(h.bins.size()) == nbins, "bounds or bins of the histogram");
  for (int b = 0; b < nbins; ++b) PCHECK(h.bins[st(b)] == want[st(b)], "bin " << b << " of " << nbins << " holds " << h.bins[st(b)] << " values, expected " << want[st(b)]);
  {
    std::string text;
    {
      Capture c;
      print_histogram(h, "some name");
      text = c.o.str();
    }
    std::ostringstream w;
    w << "some name histogram:\n" << std::fixed << std::setprecision(2);
    for (int b = 0; b < nbins; ++b) w << lo + step * b << '-' << lo + step * (b + 1) << ": " << want[st(b)] << '\n';
    PCHECK(text == w.str(), "printed histogram: " << text << " expected: " << w.str());
  }
  // sizes of the parts
  Real nown = 0;
  for (auto x : own) nown += x;
  std::vector<std::vector<GO>> n(4);
  for (int k = 0; k <= dim; ++k) {
    Real tot = 0, most = 0;
    for (auto& c : g.counts) {
      tot += c[st(k)];
      most = std::max(most, Real(c[st(k)]));
    }
    Real im = m.imbalance(k == dim && salt % 2 ? -1 : k), w = tot == 0 ? 1. : most * e.np / tot;
    PCHECK(std::fabs(im - w) <= 1e-12 * w, "imbalance of dimension " << k << " is " << im << ", expected " << w);
    GO mine = 0, copies = 0;
    for (auto& c : g.copies[k])
      if (c.holder == e.rank) {
        ++copies;
        if (c.owned()) ++mine;
      }
    GO bad = m.nents_owned(k) != mine || m.nents(k) != copies;
    if (mine) bad += m.ghosted_ratio(k) != Real(copies) / Real(mine);
    bad = e.comm->allreduce(bad, OMEGA_H_SUM);
    PCHECK(!bad, "numbers of entities of dimension " << k << ", owned or held, on some process");
  }
  auto tags = get_all_mesh_tags(&m);
  for (int k = 0; k < 4; ++k) {
    std::set<std::string> w;
    if (k <= dim)
      for (auto& t : g.tags[k]) w.insert(t.name);
    auto have = tags[st(k)];
    for (auto& x : w) PCHECK(have.count(x), "attribute " << x << " of dimension " << k << " is not listed");
    for (auto& x : have) PCHECK(k <= dim && m.has_tag(k, x), "attribute " << x << " is listed for dimension " << k);
    PCHECK(k > dim || int(have.size()) == m.ntags(k), "attributes of dimension " << k);
  }
  // equality of meshes
  if (m.parting() == OMEGA_H_ELEM_BASED) {
    Capture c;
    Mesh a = m;
    PCHECK(a == m, "a mesh differs from its copy");
    int k = s.range(0, 2);
    bool changed = false;
    if (k == 0 && all) {  // one value of one attribute
      GO t = GO(s.below(u64(all)));
      auto it = g.ents[d].begin();
      std::advance(it, t);
      auto v2 = v;
      for (st i = 0; i < v2.size(); ++i)
        if (gl[i] == it->first) v2[i] += s.pick<Real>({1., 1e-9, -0.125});
      a.add_tag<Real>(d, "val", 1, mk(v2));
      changed = true;
    } else if (k == 1 && !g.ents[0].empty()) {
      auto x = hv(a.coords());
      auto vg = hv(a.globals(0));
      auto it = g.ents[0].begin();
      std::advance(it, long(s.below(g.ents[0].size())));
      int j = s.range(0, dim - 1);
      for (st i = 0; i < vg.size(); ++i)
        if (vg[i] == it->first) x[i * st(dim) + st(j)] += 1e-9;
      a.set_coords(mk(x));
      changed = true;
    } else if (k == 2) {
      a.remove_tag(d, "val");
      changed = true;
    }
    if (changed) PCHECK(!(m == a), "meshes with different attributes or coordinates are equal");
    s.label("equality");
  }
  std::string text;
  {
    Capture c;
    MinMax<Real> want2, act;
    want2.min = dlo;
    want2.max = dhi;
    act.min = mn;
    act.max = mx;
    print_goal_stats(&m, "goal", d, m.get_array<Real>(d, "val"), want2, act);
    text = c.o.str();
  }
  s.nontrivial(all > 3);
  s.desc(fam_name(fam), " ", dim, "D, dimension ", d, ": ", all, " entities, ", nbins, " bins, np ", e.np);
  if (e.rank) {
    PCHECK(text.empty(), "printed on another process: " << text);
    return;
  }
  std::ostringstream w;
  w << std::fixed << std::setprecision(2) << all << " " << topological_plural_name(fam, d) << ", goal [" << mn << "," << mx << "]";
  if (nlow) w << ", " << nlow << " <" << dlo;
  if (all - nlow - nhigh) w << ", " << all - nlow - nhigh << " in [" << dlo << "," << dhi << "]";
  if (nhigh) w << ", " << nhigh << " >" << dhi;
  w << "\n";
  PCHECK(text == w.str(), "printed: " << text << " expected: " << w.str());
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"profile", t_profile, 6000, 300000, {1}, true, "three or more regions"},
    {"table", t_table, 1200, 40000, {1, 2, 3, 4}, true, "two or more functions"},
    {"counts", t_counts, 1200, 30000, {1, 2, 3, 4}, true, "more than three entities of the dimension counted"},
  });
}
