// C33: command lines against a reference parser
#include <Omega_h_cmdline.hpp>
#include <Omega_h_library.hpp>
#include <cstdlib>
#include <iostream>
#include <memory>
#include "pbt.hpp"
using namespace pbt;
using namespace Omega_h;
typedef std::size_t st;
struct Quiet {
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
struct Arg {
  std::string name;
  int type;  // 0 int, 1 double, 2 string
  int iv = 0;
  double dv = 0;
  std::string sv;
  bool parsed = false;
};
struct Flag {
  std::string name, desc;
  std::vector<Arg> args;
  bool parsed = false;
};
struct Decl {
  std::vector<Flag> flags;
  std::vector<Arg> args;
};
struct Val {
  std::string text;
  bool is_int, is_real;
  int iv;
  double dv;
};
static Val value(Src& s) {
  Val v{"", false, false, 0, 0};
  switch (s.range(0, 5)) {
    case 0:
    case 1:
      v.iv = s.pick({0, 1, -1, 7, 42, -300, 2147483647, -2147483647 - 1});
      v.dv = v.iv;
      v.is_int = v.is_real = true;
      v.text = std::to_string(v.iv);
      if (s.chance(10) && v.iv >= 0) v.text = "+" + v.text;
      else if (s.chance(10) && v.iv > 0) v.text = "00" + v.text;
      break;
    case 2: {
      struct P {
        const char* t;
        double d;
      };
      P p = s.pick<P>({{"1.5", 1.5}, {"-2.25", -2.25}, {"1e5", 1e5}, {".5", .5}, {"3.", 3.}, {"-1e-3", -1e-3}, {"2147483648", 2147483648.}, {"99999999999999999999", 1e20}});
      v.text = p.t;
      v.dv = p.d;
      v.is_real = true;
      break;
    }
    case 3: v.text = s.pick<std::string>({"mesh.osh", "a b", "out dir/x.vtk", "-", "x=1", "caf\xc3\xa9"}); break;
    default: v.text = s.pick<std::string>({"12abc", "1.5.2", "", "abc", "--", "1e", "3,5", "- 1", "one"}); break;
  }
  return v;
}
static bool take(Arg& a, Val const& v) {
  if (a.type == 0) {
    if (!v.is_int) return false;
    a.iv = v.iv;
  } else if (a.type == 1) {
    if (!v.is_real) return false;
    a.dv = v.dv;
  } else
    a.sv = v.text;
  a.parsed = true;
  return true;
}
static Decl gen_decl(Src& s, std::string pre, int npos) {
  Decl d;
  int nf = s.range(0, 4), k = 0;
  for (int i = 0; i < nf; ++i) {
    Flag f;
    f.name = (s.chance(80) ? "--" : "-") + pre + std::string(1, char('a' + i));
    if (s.chance(15)) f.name += "-" + pre + "a";
    f.desc = "does " + f.name;
    int n = s.weighted({3, 4, 2, 1});
    for (int j = 0; j < n; ++j) {
      Arg a;
      a.name = "v" + std::to_string(k++);
      a.type = s.range(0, 2);
      a.iv = s.range(-3, 3);
      a.dv = a.iv / 2.;
      a.sv = "d" + std::to_string(a.iv);
      f.args.push_back(a);
    }
    d.flags.push_back(f);
  }
  for (int i = 0; i < npos; ++i) {
    Arg a;
    a.name = "p" + std::to_string(i);
    a.type = s.range(0, 2);
    a.iv = 9;
    a.dv = 0.5;
    a.sv = "dflt";
    d.args.push_back(a);
  }
  return d;
}
static void declare(CmdLine& c, Decl const& d) {
  for (auto& f : d.flags) {
    auto& x = c.add_flag(f.name, f.desc);
    for (auto& a : f.args)
      if (a.type == 0)
        x.add_arg<int>(a.name, a.iv);
      else if (a.type == 1)
        x.add_arg<double>(a.name, a.dv);
      else
        x.add_arg<std::string>(a.name, a.sv);
  }
  for (auto& a : d.args)
    if (a.type == 0)
      c.add_arg<int>(a.name, a.iv);
    else if (a.type == 1)
      c.add_arg<double>(a.name, a.dv);
    else
      c.add_arg<std::string>(a.name, a.sv);
}
// the stated behaviour; returns false on error
static bool reference(Decl& d, std::vector<Val>& a, bool& help) {
  st i = 0, np = 0;
  help = false;
  while (i < a.size()) {
    Flag* f = nullptr;
    for (auto& x : d.flags)
      if (x.name == a[i].text) f = &x;
    if (f) {
      if (f->parsed || a.size() - i - 1 < f->args.size()) return false;
      for (st j = 0; j < f->args.size(); ++j)
        if (!take(f->args[j], a[i + 1 + j])) return false;
      f->parsed = true;
      a.erase(a.begin() + long(i), a.begin() + long(i + 1 + f->args.size()));
    } else if (a[i].text == "--help") {
      help = true;
      ++i;
    } else if (np < d.args.size()) {
      if (!take(d.args[np], a[i])) return false;
      ++np;
      a.erase(a.begin() + long(i));
    } else
      ++i;
  }
  return np == d.args.size();
}
static void check_values(CmdLine& c, Decl const& d) {
  for (auto& f : d.flags) {
    if (c.parsed(f.name) != f.parsed) PFAIL("flag " << f.name << " parsed: " << c.parsed(f.name));
    for (st j = 0; j < f.args.size(); ++j) {
      auto& a = f.args[j];
      if (c.parsed(f.name, j) != a.parsed) PFAIL("argument " << j << " of " << f.name << " parsed: " << !a.parsed);
      if (a.type == 0 && c.get<int>(f.name, a.name) != a.iv) PFAIL(f.name << " " << a.name << " = " << c.get<int>(f.name, a.name) << " expected " << a.iv);
      if (a.type == 1 && c.get<double>(f.name, a.name) != a.dv) PFAIL(f.name << " " << a.name << " = " << c.get<double>(f.name, a.name) << " expected " << a.dv);
      if (a.type == 2 && c.get<std::string>(f.name, a.name) != a.sv) PFAIL(f.name << " " << a.name << " = " << c.get<std::string>(f.name, a.name) << " expected " << a.sv);
    }
  }
  for (st j = 0; j < d.args.size(); ++j) {
    auto& a = d.args[j];
    if (c.parsed(j) != a.parsed) PFAIL("argument " << j << " parsed: " << !a.parsed);
    if (a.type == 0 && c.get<int>(a.name) != a.iv) PFAIL(a.name << " = " << c.get<int>(a.name) << " expected " << a.iv);
    if (a.type == 1 && c.get<double>(a.name) != a.dv) PFAIL(a.name << " = " << c.get<double>(a.name) << " expected " << a.dv);
    if (a.type == 2 && c.get<std::string>(a.name) != a.sv) PFAIL(a.name << " = " << c.get<std::string>(a.name) << " expected " << a.sv);
  }
}
static void splice(Src& s, std::vector<std::vector<Val>>& out, Decl const& d) {
  auto good = [&](Arg const& a) {
    if (a.type == 2) {
      if (s.chance(12) && !d.flags.empty()) return Val{s.pick(d.flags).name, false, false, 0, 0};
      return value(s);
    }
    if (s.chance(88)) {
      int x = s.range(-9, 9);
      if (a.type == 0 || s.chance(50)) return Val{std::to_string(x), true, true, x, double(x)};
      std::ostringstream o;
      o << x / 4.;
      return Val{o.str(), x % 4 == 0, true, x / 4, x / 4.};
    }
    return value(s);
  };
  auto flag = [&](Flag const& f) {
    std::vector<Val> g{Val{f.name, false, false, 0, 0}};
    for (auto& a : f.args) g.push_back(good(a));
    if (s.chance(5) && g.size() > 1) g.pop_back();
    out.push_back(g);
  };
  for (auto& f : d.flags)
    if (s.chance(60)) flag(f);
  if (!d.flags.empty() && s.chance(5)) flag(s.pick(d.flags));
  for (auto& a : d.args)
    if (s.chance(95)) out.push_back({good(a)});
}
void t_cmdline(Src& s, Env& e) {
  bool two = s.chance(40);
  Decl d1 = gen_decl(s, "o", two ? 0 : s.range(0, 3));
  Decl d2 = two ? gen_decl(s, "", s.range(0, 2)) : Decl();
  std::vector<std::vector<Val>> groups;
  splice(s, groups, d1);
  st n1 = groups.size();
  if (two) splice(s, groups, d2);
  (void)n1;
  if (s.chance(10)) groups.push_back({Val{"--help", false, false, 0, 0}});
  if (s.chance(15)) groups.push_back({s.chance(50) ? Val{"--zzz", false, false, 0, 0} : value(s)});
  // positional values keep their order, flags go anywhere
  auto perm = s.permutation(int(groups.size()));
  if (s.chance(50)) {
    std::vector<std::vector<Val>> g2;
    for (int i : perm) g2.push_back(groups[st(i)]);
    groups = g2;
  }
  std::vector<Val> args;
  for (auto& g : groups) args.insert(args.end(), g.begin(), g.end());
  std::ostringstream sh;
  for (auto& v : args) sh << " '" << v.text << "'";
  sh << " | flags";
  for (auto* d : {&d1, &d2}) {
    for (auto& f : d->flags) {
      sh << " " << f.name;
      for (auto& a : f.args) sh << ":" << "idS"[a.type];
    }
    sh << " pos";
    for (auto& a : d->args) sh << ":" << "idS"[a.type];
    if (d == &d1) sh << " then";
  }
  s.desc(sh.str());
  std::vector<std::string> store{"prog"};
  for (auto& v : args) store.push_back(v.text);
  std::vector<char*> argv;
  std::vector<std::vector<char>> mem;
  for (auto& x : store) {
    mem.emplace_back(x.begin(), x.end());
    mem.back().push_back(0);
  }
  for (auto& m : mem) argv.push_back(m.data());
  argv.push_back(nullptr);
  int argc = int(store.size());
  auto c0 = e.lib ? e.lib->self() : nullptr;
  auto left_ok = [&]() {
    if (argc != int(args.size()) + 1) PFAIL((argc - 1) << " arguments are left, expected " << args.size());
    if (std::string(argv[0]) != "prog") PFAIL("the program's name became " << argv[0]);
    for (st i = 0; i < args.size(); ++i)
      if (args[i].text != argv[i + 1]) PFAIL("left argument " << i << " is " << argv[i + 1] << " expected " << args[i].text);
  };
  bool any_flag = false;
  if (two) {
    CmdLine c;
    declare(c, d1);
    bool help, want = reference(d1, args, help);
    Quiet q;
    bool got = c.parse(c0, &argc, argv.data());
    if (got != want) PFAIL("first parse returned " << got);
    for (auto& f : d1.flags) any_flag |= f.parsed;
    if (!want) {
      s.label("first fails");
      s.nontrivial(true);
      return;
    }
    check_values(c, d1);
    left_ok();
  }
  Decl& d = two ? d2 : d1;
  CmdLine c;
  declare(c, d);
  auto before = d;
  bool help, ok = reference(d, args, help);
  bool want = ok && !help && args.empty();
  bool got;
  std::string out;
  {
    Quiet q;
    got = c.parse_final(c0, &argc, argv.data());
    out = q.o.str();
  }
  s.label(!ok ? "error" : help ? "help" : want ? "ok" : "left over");
  for (auto& f : d.flags) any_flag |= f.parsed;
  s.nontrivial(any_flag || (ok && !d.args.empty()) || !want);
  if (got != want) PFAIL("parse_final returned " << got);
  if (ok) {
    check_values(c, d);
    if (c.parsed("--never-declared")) PFAIL("a flag that was not declared was parsed");
    left_ok();
    if (CmdLine::check_empty(c0, argc, argv.data()) != args.empty() && want) PFAIL("check_empty");
  }
  if (want && !out.empty()) PFAIL("output on success: " << out);
  if (!want) {
    auto has = [&](std::string const& x) {
      if (out.find(x) == std::string::npos) PFAIL("the help text does not contain " << x << ": " << out);
    };
    has("usage: prog");
    for (auto& f : d.flags) {
      has(f.name);
      has(f.desc);
      for (auto& a : f.args) has(a.name);
    }
    for (auto& a : d.args) has(a.name);
    if (ok)
      for (auto& v : args)
        if (v.text != "--help") has("unknown argument \"" + v.text + "\"");
  }
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"cmdline", t_cmdline, 60000, 2000000, {1}, true, "a flag or positional argument given, or an error"});
  return run(argc, argv, t);
}
