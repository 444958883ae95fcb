// C30: the parser generator
#include <Omega_h_build_parser.hpp>
#include <Omega_h_language.hpp>
#include <Omega_h_reader.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include "pbt.hpp"
using namespace pbt;
using namespace Omega_h;
typedef std::size_t st;
struct Quiet {
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(b); }
};
// symbols: 0 .. nt-1 terminals, nt .. nt+nn-1 nonterminals (nt is the start), -1 the end
struct Gr {
  int nt = 0, nn = 0;
  struct P {
    int l;
    std::vector<int> r;
  };
  std::vector<P> p;  // the first is goal -> start, with l = nt+nn
};
typedef std::vector<int> Str;
static std::string name(Gr const& g, int x) {
  if (x < g.nt) return std::string(1, char('a' + x));
  if (x == g.nt + g.nn) return "goal";
  return std::string(1, "SABCD"[x - g.nt]);
}
static std::string show(Gr const& g) {
  std::string t;
  for (st i = 1; i < g.p.size(); ++i) {
    t += name(g, g.p[i].l) + "->";
    for (int x : g.p[i].r) t += name(g, x);
    t += " ";
  }
  return t;
}
static bool reduced(Gr const& g) {
  std::set<int> prod, reach{g.nt};
  for (bool more = true; more;) {
    more = false;
    for (auto& p : g.p) {
      bool all = true;
      for (int x : p.r) all = all && (x < g.nt || prod.count(x));
      if (all) more = prod.insert(p.l).second || more;
      if (reach.count(p.l))
        for (int x : p.r)
          if (x >= g.nt) more = reach.insert(x).second || more;
    }
  }
  for (int x = g.nt; x < g.nt + g.nn; ++x)
    if (!prod.count(x) || !reach.count(x)) return false;
  return true;
}
// LALR(1) by merging the canonical LR(1) item sets: true when there is no conflict
struct Item {
  int p, d, a;
  bool operator<(Item const& o) const { return std::tie(p, d, a) < std::tie(o.p, o.d, o.a); }
  bool operator==(Item const& o) const { return p == o.p && d == o.d && a == o.a; }
};
typedef std::set<Item> Items;
static int lr_kind(Gr const& g, st limit) {  // 0 LALR(1), 1 LR(1) only, 2 neither, -1 too large
  std::set<int> null;
  std::map<int, std::set<int>> first;
  for (bool more = true; more;) {
    more = false;
    for (auto& p : g.p) {
      bool all = true;
      for (int x : p.r) {
        if (x < g.nt) {
          more = first[p.l].insert(x).second || more;
          all = false;
        } else {
          auto f = first[x];
          for (int y : f) more = first[p.l].insert(y).second || more;
          all = null.count(x) > 0;
        }
        if (!all) break;
      }
      if (all) more = null.insert(p.l).second || more;
    }
  }
  auto closure = [&](Items s) {
    std::vector<Item> q(s.begin(), s.end());
    while (!q.empty()) {
      auto it = q.back();
      q.pop_back();
      auto& r = g.p[st(it.p)].r;
      if (it.d >= int(r.size()) || r[st(it.d)] < g.nt) continue;
      std::set<int> look;
      bool all = true;
      for (st j = st(it.d) + 1; j < r.size() && all; ++j) {
        if (r[j] < g.nt) look.insert(r[j]), all = false;
        else {
          look.insert(first[r[j]].begin(), first[r[j]].end());
          all = null.count(r[j]) > 0;
        }
      }
      if (all) look.insert(it.a);
      for (st i = 0; i < g.p.size(); ++i)
        if (g.p[i].l == r[st(it.d)])
          for (int a : look) {
            Item n{int(i), 0, a};
            if (s.insert(n).second) q.push_back(n);
          }
    }
    return s;
  };
  auto conflict = [&](Items const& s) {
    std::map<int, int> act;  // terminal -> reduce production
    std::set<int> shift;
    for (auto& i : s) {
      auto& r = g.p[st(i.p)].r;
      if (i.d < int(r.size())) {
        if (r[st(i.d)] < g.nt) shift.insert(r[st(i.d)]);
      } else {
        auto x = act.insert({i.a, i.p});
        if (!x.second && x.first->second != i.p) return true;
      }
    }
    for (auto& a : act)
      if (shift.count(a.first)) return true;
    return false;
  };
  std::map<Items, int> ids;
  std::vector<Items> sets;
  auto add = [&](Items const& s) {
    if (ids.insert({s, int(sets.size())}).second) sets.push_back(s);
  };
  add(closure({Item{0, 0, -1}}));
  for (st k = 0; k < sets.size(); ++k) {
    if (sets.size() > limit) return -1;
    std::map<int, Items> next;
    for (auto& i : sets[k]) {
      auto& r = g.p[st(i.p)].r;
      if (i.d < int(r.size())) next[r[st(i.d)]].insert({i.p, i.d + 1, i.a});
    }
    for (auto& n : next) add(closure(n.second));
  }
  for (auto& s : sets)
    if (conflict(s)) return 2;
  std::map<std::set<std::pair<int, int>>, Items> merged;
  for (auto& s : sets) {
    std::set<std::pair<int, int>> core;
    for (auto& i : s) core.insert({i.p, i.d});
    merged[core].insert(s.begin(), s.end());
  }
  for (auto& m : merged)
    if (conflict(m.second)) return 1;
  return 0;
}
// number of derivations (0, 1, 2 meaning several) of a text, by tables
static bool derives(Gr const& g, Str const& w) {
  int n = int(w.size());
  std::set<std::tuple<int, int, int>> t;  // symbol, from, to
  for (bool more = true; more;) {
    more = false;
    for (auto& p : g.p)
      for (int i = 0; i <= n; ++i) {
        std::set<int> at{i};
        for (int x : p.r) {
          std::set<int> to;
          for (int k : at) {
            if (x < g.nt) {
              if (k < n && w[st(k)] == x) to.insert(k + 1);
            } else
              for (int j = k; j <= n; ++j)
                if (t.count(std::make_tuple(x, k, j))) to.insert(j);
          }
          at = to;
        }
        for (int j : at) more = t.insert(std::make_tuple(p.l, i, j)).second || more;
      }
  }
  return t.count(std::make_tuple(g.nt, 0, n)) > 0;
}
static bool sample(Src& s, Gr const& g, int x, int depth, Str& o) {
  if (o.size() > 14 || depth > 12) return false;
  if (x < g.nt) {
    o.push_back(x);
    return true;
  }
  std::vector<Gr::P const*> ps;
  for (auto& p : g.p)
    if (p.l == x) ps.push_back(&p);
  auto& p = *ps[st(s.below(ps.size()))];
  for (int y : p.r)
    if (!sample(s, g, y, depth + 1, o)) return false;
  return true;
}
struct Nd {
  int sym = 0, prod = -1, id = 0;
  std::string text;
  std::vector<std::shared_ptr<Nd>> k;
};
typedef std::shared_ptr<Nd> NP;
struct Tree : public Omega_h::Reader {
  Gr const& g;
  int n = 0;
  Tree(ReaderTablesPtr p, Gr const& g_) : Omega_h::Reader(p), g(g_) {}
  any at_shift(int token, std::string& t) override {
    NP x(new Nd);
    x->sym = token;
    x->text = t;
    x->id = n++;
    return any(x);
  }
  any at_reduce(int prod, std::vector<any>& rhs) override {
    NP x(new Nd);
    if (prod < 0 || prod >= int(g.p.size())) PFAIL("production number " << prod);
    auto& p = g.p[st(prod)];
    x->sym = p.l;
    x->prod = prod;
    x->id = n++;
    if (rhs.size() != p.r.size()) PFAIL("production " << prod << " reduced with " << rhs.size() << " values");
    for (st i = 0; i < rhs.size(); ++i) {
      auto c = any_cast<NP>(rhs[i]);
      if (c->sym != p.r[i]) PFAIL("production " << prod << ": value " << i << " belongs to " << name(g, c->sym));
      x->k.push_back(c);
    }
    return any(x);
  }
};
static void t_grammar(Src& s, Env& e) {
  Gr g;
  g.nt = s.range(1, 3);
  g.nn = s.range(1, 4);
  g.p.push_back({g.nt + g.nn, {g.nt}});
  for (int i = 0; i < g.nn; ++i) {
    int k = s.range(1, 3);
    for (int j = 0; j < k; ++j) {
      Gr::P p;
      p.l = g.nt + i;
      int len = s.weighted({15, 30, 30, 25});
      for (int q = 0; q < len; ++q) p.r.push_back(s.chance(55) ? s.range(0, g.nt - 1) : g.nt + s.range(0, g.nn - 1));
      bool dup = false;
      for (auto& o : g.p) dup = dup || (o.l == p.l && o.r == p.r);
      if (!dup) g.p.push_back(p);
    }
  }
  if (s.chance(50))
    for (st i = g.p.size() - 1; i > 1; --i) std::swap(g.p[i], g.p[st(s.range(1, int(i)))]);
  if (!reduced(g)) throw Discard();
  int kind = lr_kind(g, 150);
  if (kind < 0) throw Discard();
  s.desc(show(g));
  s.label(kind == 0 ? "LALR(1)" : kind == 1 ? "LR(1) only" : "conflicts");
  Language lang;
  lang.tokens = {{"a", "a"}};
  if (g.nt > 1) lang.tokens.push_back({"b", "b([0-9]|x+)"});
  if (g.nt > 2) lang.tokens.push_back({"c", "c;|cc;"});
  auto spelling = [&](int x) { return x == 2 ? s.pick<std::string>({"c;", "cc;"}) : x == 1 ? s.pick<std::string>({"b0", "b7", "bx"}) : std::string("a"); };
  // no spelling may run on into the next token: "bx" followed by "b" or "a" is fine
  for (auto& p : g.p) {
    Language::Production q;
    q.lhs = name(g, p.l);
    if (p.l >= g.nt && p.l < g.nt + g.nn) q.lhs = "N" + q.lhs;
    for (int x : p.r) q.rhs.push_back(x >= g.nt ? "N" + name(g, x) : name(g, x));
    lang.productions.push_back(q);
  }
  if (kind != 0) {
    if (!s.chance(30)) {
      s.nontrivial(false);
      return;
    }
    s.nontrivial(true);
    auto pid = fork();
    if (pid == 0) {
      Quiet q;
      int rc = 7;
      if (chdir(e.scratch.c_str()) != 0) _exit(9);
      signal(SIGABRT, SIG_DFL);
      try {
        build_lalr1_parser(build_grammar(lang));
        rc = 0;
      } catch (std::exception const&) {
        rc = 3;
      }
      if (rc == 0 || rc == 3) _exit(rc);
      _exit(8);
    }
    int stt = 0;
    waitpid(pid, &stt, 0);
    bool refused = (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGABRT) || (WIFEXITED(stt) && WEXITSTATUS(stt) == 3);
    if (!refused) PFAIL("a grammar that is not LALR(1) was accepted");
    return;
  }
  Quiet quiet;
  auto tables = build_reader_tables(lang);
  Tree reader(tables, g);
  int nsent = 0, nother = 0;
  auto check = [&](Str const& w) {
    if (w.empty()) return;  // texts without any token are not read
    bool want = derives(g, w);
    std::string text;
    std::vector<std::string> parts;
    for (int x : w) {
      parts.push_back(spelling(x));
      text += parts.back();
    }
    ++(want ? nsent : nother);
    NP root;
    bool threw = false;
    std::string msg;
    reader.n = 0;
    try {
      root = any_cast<NP>(reader.read_string(text, "text"));
    } catch (Fail const&) {
      throw;
    } catch (std::exception const& x) {
      threw = true;
      msg = x.what();
    }
    std::string sy;
    for (int x : w) sy += name(g, x);
    if (want && threw) PFAIL("\"" << sy << "\" refused: " << msg);
    if (!want && !threw) PFAIL("\"" << sy << "\" accepted");
    if (!want) return;
    if (root->sym != g.nt + g.nn) PFAIL("\"" << sy << "\": the result is not the root's");
    // the actions are those of a rightmost derivation, backwards: children before
    // parents, left to right
    int last = -1;
    st leaf = 0;
    std::function<void(NP const&)> walk = [&](NP const& x) {
      for (auto& c : x->k) walk(c);
      if (x->id <= last) PFAIL("\"" << sy << "\": actions out of order");
      last = x->id;
      if (x->prod < 0) {
        if (leaf >= w.size() || x->sym != w[leaf] || x->text != parts[leaf]) PFAIL("\"" << sy << "\": token " << leaf << " not delivered as it is");
        ++leaf;
      }
    };
    walk(root);
    if (leaf != w.size()) PFAIL("\"" << sy << "\": tokens missing");
    if (last != reader.n - 1) PFAIL("\"" << sy << "\": actions outside the tree");
  };
  int len = g.nt == 1 ? 7 : g.nt == 2 ? 5 : 3;
  std::function<void(Str&)> enumerate = [&](Str& x) {
    check(x);
    if (int(x.size()) == len) return;
    for (int c = 0; c < g.nt; ++c) {
      x.push_back(c);
      enumerate(x);
      x.pop_back();
    }
  };
  Str x;
  enumerate(x);
  for (int i = 0; i < 6; ++i) {
    Str w;
    if (!sample(s, g, g.nt, 0, w)) continue;
    check(w);
    if (w.empty()) continue;
    auto at = st(s.below(w.size()));
    switch (s.below(3)) {
      case 0: w.erase(w.begin() + long(at)); break;
      case 1: w[at] = s.range(0, g.nt - 1); break;
      default: w.insert(w.begin() + long(at), s.range(0, g.nt - 1));
    }
    check(w);
  }
  s.nontrivial(nsent >= 2 && nother >= 1 && g.p.size() >= 3);
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"grammar", t_grammar, 60000, 1500000, {1}, true, "LALR(1) with at least 2 sentences and a text refused, or conflicts checked"});
  return run(argc, argv, t);
}
