// C29: regular expressions, automata and lexers
#include <Omega_h_chartab.hpp>
#include <Omega_h_finite_automaton.hpp>
#include <Omega_h_language.hpp>
#include <Omega_h_reader.hpp>
#include <Omega_h_regex.hpp>
#include <functional>
#include <iostream>
#include <set>
#include "pbt.hpp"
using namespace pbt;
using namespace Omega_h;
typedef std::size_t st;
struct Quiet {
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(b); }
};
// expressions over integer symbols
struct Rx {
  int op = 0;  // 0 set, 1 union, 2 concatenation, 3 star, 4 plus, 5 maybe
  std::set<int> c;
  std::vector<Rx> k;
};
typedef std::vector<int> Str;
typedef std::set<int> Pos;
static Pos ends(Rx const& r, Str const& s, Pos const& from) {
  Pos out;
  if (r.op == 0) {
    for (int p : from)
      if (p < int(s.size()) && r.c.count(s[st(p)])) out.insert(p + 1);
  } else if (r.op == 1) {
    for (auto& x : r.k) {
      auto e = ends(x, s, from);
      out.insert(e.begin(), e.end());
    }
  } else if (r.op == 2) {
    out = from;
    for (auto& x : r.k) out = ends(x, s, out);
  } else if (r.op == 5) {
    out = ends(r.k[0], s, from);
    out.insert(from.begin(), from.end());
  } else {
    Pos now = from;
    if (r.op == 3) out = from;
    while (!now.empty()) {
      auto e = ends(r.k[0], s, now);
      now.clear();
      for (int p : e)
        if (out.insert(p).second) now.insert(p);
    }
  }
  return out;
}
static bool matches(Rx const& r, Str const& s) { return ends(r, s, {0}).count(int(s.size())) > 0; }
static int nodes(Rx const& r) {
  int n = 1;
  for (auto& x : r.k) n += nodes(x);
  return n;
}
static void sample(Src& s, Rx const& r, Str& o) {
  if (o.size() > 40) return;
  if (r.op == 0) {
    if (r.c.empty()) return;
    auto it = r.c.begin();
    std::advance(it, long(s.below(r.c.size())));
    o.push_back(*it);
  } else if (r.op == 1) sample(s, r.k[st(s.below(r.k.size()))], o);
  else if (r.op == 2)
    for (auto& x : r.k) sample(s, x, o);
  else {
    int n = r.op == 5 ? s.range(0, 1) : s.range(r.op == 4, 3);
    for (int i = 0; i < n; ++i) sample(s, r.k[0], o);
  }
}
static Str gen_str(Src& s, std::vector<Rx const*> const& rs, std::function<int()> any) {
  Str o;
  int parts = s.range(rs.size() > 1 ? 0 : 1, rs.size() > 1 ? 5 : 1);
  for (int i = 0; i < parts; ++i)
    if (s.chance(75)) sample(s, *rs[st(s.below(rs.size()))], o);
    else {
      int n = s.range(0, 5);
      for (int j = 0; j < n; ++j) o.push_back(any());
    }
  int m = s.weighted({60, 30, 10});
  for (int i = 0; i < m; ++i) {
    switch (s.below(3)) {
      case 0: o.insert(o.begin() + long(s.below(o.size() + 1)), any()); break;
      case 1:
        if (!o.empty()) o.erase(o.begin() + long(s.below(o.size())));
        break;
      default:
        if (!o.empty()) o[st(s.below(o.size()))] = any();
    }
  }
  return o;
}
static int run_dfa(FiniteAutomaton const& f, Str const& s) {
  int q = 0;
  for (int c : s) {
    q = step(f, q, c);
    if (q < 0) return -1;
  }
  return accepts(f, q);
}
// ------------------------------------------------------------------ operations
static Rx gen_small(Src& s, int depth, int ns) {
  Rx r;
  r.op = depth <= 0 ? 0 : s.weighted({25, 20, 25, 12, 9, 9});
  if (r.op == 0) {
    if (s.chance(80)) r.c.insert(s.range(0, ns - 1));
    else
      for (int i = 0; i < ns; ++i)
        if (s.chance(50)) r.c.insert(i);
  } else {
    int n = r.op <= 2 ? 2 : 1;
    for (int i = 0; i < n; ++i) r.k.push_back(gen_small(s, depth - 1, ns));
  }
  return r;
}
static FiniteAutomaton build(Src& s, Rx const& r, int ns, int tok) {
  FiniteAutomaton f;
  if (r.op == 0) {
    if (r.c.size() == 1 && s.chance(50)) f = FiniteAutomaton::make_single_nfa(ns, *r.c.begin(), tok);
    else if (!r.c.empty() && *r.c.rbegin() - *r.c.begin() + 1 == int(r.c.size()) && s.chance(50)) f = FiniteAutomaton::make_range_nfa(ns, *r.c.begin(), *r.c.rbegin(), tok);
    else f = FiniteAutomaton::make_set_nfa(ns, r.c, tok);
  } else {
    auto a = build(s, r.k[0], ns, tok);
    if (r.op == 1) f = FiniteAutomaton::unite(a, build(s, r.k[1], ns, tok));
    if (r.op == 2) f = FiniteAutomaton::concat(a, build(s, r.k[1], ns, tok), tok);
    if (r.op == 3) f = FiniteAutomaton::star(a, tok);
    if (r.op == 4) f = FiniteAutomaton::plus(a, tok);
    if (r.op == 5) f = FiniteAutomaton::maybe(a, tok);
  }
  if (s.chance(15)) f = FiniteAutomaton::make_deterministic(f);
  if (s.chance(10)) f = FiniteAutomaton::simplify_once(f);
  if (s.chance(10)) f = FiniteAutomaton::simplify(f);
  return f;
}
static std::string text(Rx const& r) {
  if (r.op == 0) {
    std::string t = "{";
    for (int c : r.c) t += std::to_string(c) + ",";
    return t + "}";
  }
  std::string t = "(";
  for (st i = 0; i < r.k.size(); ++i) t += (i ? r.op == 1 ? "|" : "." : "") + text(r.k[i]);
  return t + ")" + (r.op == 3 ? "*" : r.op == 4 ? "+" : r.op == 5 ? "?" : "");
}
static void t_ops(Src& s, Env&) {
  Quiet q;
  int ns = s.range(1, 3), nt = s.range(1, 3);
  std::vector<Rx> rs;
  FiniteAutomaton all;
  for (int i = 0; i < nt; ++i) {
    rs.push_back(gen_small(s, s.range(0, 4), ns));
    s.desc(text(rs.back()));
    auto f = build(s, rs.back(), ns, i);
    all = i ? FiniteAutomaton::unite(all, f) : f;
  }
  int n = 0;
  for (auto& r : rs) n += nodes(r);
  s.nontrivial(n >= 4);
  auto d = FiniteAutomaton::make_deterministic(all);
  auto e = FiniteAutomaton::simplify(d);
  if (!get_determinism(d) || !get_determinism(e)) PFAIL("not deterministic");
  if (get_nstates(e) > get_nstates(d)) PFAIL("simplification added states");
  auto check = [&](Str const& x) {
    int want = -1;
    for (int i = 0; i < nt && want < 0; ++i)
      if (matches(rs[st(i)], x)) want = i;
    int a = run_dfa(d, x), b = run_dfa(e, x);
    if (a != want || b != want) {
      std::string t;
      for (int c : x) t += std::to_string(c);
      PFAIL("\"" << t << "\" accepted as " << a << " / " << b << " (simplified), should be " << want);
    }
  };
  int len = ns == 1 ? 12 : ns == 2 ? 7 : 5;
  std::function<void(Str&)> enumerate = [&](Str& x) {
    check(x);
    if (int(x.size()) == len) return;
    for (int c = 0; c < ns; ++c) {
      x.push_back(c);
      enumerate(x);
      x.pop_back();
    }
  };
  Str x;
  enumerate(x);
  std::vector<Rx const*> ps;
  for (auto& r : rs) ps.push_back(&r);
  for (int i = 0; i < 6; ++i) check(gen_str(s, ps, [&] { return s.range(0, ns - 1); }));
}
// ------------------------------------------------------------------ text
static std::string const alphabet = "ab01c \t\n\r.[]()|-^*+?\\\"'/{}<>~!AZz_,:=#";
static Rx gen_rx(Src& s, int depth, std::string& t, int ctx, std::string const& al) {
  // ctx: 0 union allowed, 1 concatenation allowed, 2 single with qualifier, 3 single
  auto lit = [&](char c) {
    std::string const meta = "\\.[]()|-^*+?";
    bool m = meta.find(c) != std::string::npos;
    return (m || s.chance(4) ? std::string("\\") : std::string()) + c;
  };
  auto pick = [&] { return al[st(s.below(al.size()))]; };
  int op = depth <= 0 ? 0 : s.weighted({22, 18, 28, 12, 10, 10});
  Rx r;
  if (op == 0) {
    int how = s.weighted({70, 6, 14, 10});
    if (how == 0) {
      char c = pick();
      r.c.insert(get_symbol(c));
      t += lit(c);
    } else if (how == 1) {
      for (int i = 0; i < NCHARS; ++i) r.c.insert(i);
      t += ".";
    } else {
      std::set<char> cs;
      t += how == 2 ? "[" : "[^";
      int n = s.range(1, 4);
      for (int i = 0; i < n; ++i) {
        if (s.chance(30)) {
          auto rg = s.pick<std::string>({"az", "ac", "09", "AZ", "!/", " ~", "bb", "za", "_z"});
          t += lit(rg[0]) + "-" + lit(rg[1]);
          for (int c = rg[0]; c <= rg[1]; ++c) cs.insert(char(c));
        } else {
          char c = pick();
          cs.insert(c);
          t += lit(c);
        }
      }
      t += "]";
      for (int i = 0; i < NCHARS; ++i)
        if ((cs.count(get_char(i)) > 0) == (how == 2)) r.c.insert(i);
    }
    return r;
  }
  bool paren = (op == 1 && ctx > 0) || (op == 2 && ctx > 1) || (op >= 3 && ctx > 2) || s.chance(10);
  if (paren) t += "(";
  r.op = op;
  if (op <= 2) {
    int n = s.range(2, 3);
    for (int i = 0; i < n; ++i) {
      if (i && op == 1) t += "|";
      r.k.push_back(gen_rx(s, depth - 1, t, op == 1 ? 1 : 2, al));
    }
  } else {
    r.k.push_back(gen_rx(s, depth - 1, t, 2, al));
    t += op == 3 ? "*" : op == 4 ? "+" : "?";
  }
  if (paren) t += ")";
  return r;
}
static std::string vis(std::string const& x) {
  std::string r;
  for (char c : x) r += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : c == '\t' ? std::string("\\t") : std::string(1, c);
  return r;
}
static std::string chars(Str const& x) {
  std::string r;
  for (int c : x) r += get_char(c);
  return r;
}
static void t_regex(Src& s, Env&) {
  Quiet q;
  std::string t;
  auto al = s.chance(50) ? std::string("ab") : alphabet;
  auto r = gen_rx(s, s.range(0, 4), t, 0, al);
  if (t.size() > 120) throw Discard();
  s.desc("/", vis(t), "/");
  s.nontrivial(nodes(r) >= 4);
  int tok = s.range(0, 3);
  auto f = regex::build_dfa("x", t, tok);
  if (!get_determinism(f)) PFAIL("not deterministic");
  int yes = 0;
  for (int i = 0; i < 20; ++i) {
    auto x = gen_str(s, {&r}, [&] { return get_symbol(al[st(s.below(al.size()))]); });
    bool want = matches(r, x);
    yes += want;
    int got = run_dfa(f, x);
    if (got != (want ? tok : -1)) PFAIL("\"" << vis(chars(x)) << "\": " << got << ", should be " << (want ? tok : -1));
  }
  s.label(yes ? "some accepted" : "none accepted");
}
static void t_bad(Src& s, Env&) {
  Quiet q;
  std::string a, b;
  if (s.chance(60)) gen_rx(s, s.range(0, 2), a, 2, "ab");
  if (s.chance(60)) gen_rx(s, s.range(0, 2), b, 3, "ab");
  auto bad = s.pick<std::string>({"(", ")", "()", "[", "]", "[]", "[^]", "-", "^", "[a-]", "[-a]", "(a|)", "(|a)", "(*a)", "(+)", "[a", "[a.]", "[(]", "[a*]", "(a", "a)", "(a||b)", "[^^a]"});
  auto t = a + bad + b;
  if (t.find("[") != std::string::npos && (bad == "[" || bad == "[a" || bad == "]")) b = "";
  t = a + bad + b;
  s.desc("/", t, "/");
  s.nontrivial(t.size() > 3);
  bool threw = false;
  try {
    regex::build_dfa("x", t, 0);
  } catch (std::exception const&) {
    threw = true;
  }
  if (!threw) PFAIL("accepted");
}
// ------------------------------------------------------------------ lexers
struct Rec : public Omega_h::Reader {
  std::vector<std::pair<int, std::string>> got;
  explicit Rec(ReaderTablesPtr p) : Omega_h::Reader(p) {}
  any at_shift(int token, std::string& t) override {
    got.push_back({token, t});
    return any();
  }
  any at_reduce(int, std::vector<any>&) override { return any(); }
};
static void t_lexer(Src& s, Env&) {
  Quiet q;
  auto al = s.chance(40) ? std::string("ab") : s.chance(60) ? std::string("abc \n") : alphabet;
  int nt = s.range(1, 5);
  Language lang;
  std::vector<Rx> rs;
  lang.productions.push_back({"text", {"doc"}});
  lang.productions.push_back({"doc", {}});
  lang.productions.push_back({"doc", {"doc", "item"}});
  for (int i = 0; i < nt; ++i) {
    std::string t;
    rs.push_back(gen_rx(s, s.range(0, 3), t, 0, al));
    if (t.size() > 60) throw Discard();
    auto name = "t" + std::to_string(i);
    lang.tokens.push_back({name, t});
    lang.productions.push_back({"item", {name}});
    s.desc("/", vis(t), "/");
  }
  auto lexer = build_lexer(lang);
  auto tables = build_reader_tables(lang);
  std::vector<Rx const*> ps;
  for (auto& r : rs) ps.push_back(&r);
  Rec rec(tables);
  int good = 0;
  for (int it = 0; it < 8; ++it) {
    auto x = gen_str(s, ps, [&] { return get_symbol(al[st(s.below(al.size()))]); });
    int want = -1;
    for (int i = 0; i < nt && want < 0; ++i)
      if (matches(rs[st(i)], x)) want = i;
    if (run_dfa(lexer, x) != want) PFAIL("lexer: \"" << vis(chars(x)) << "\": " << run_dfa(lexer, x) << ", should be " << want);
    // longest match
    std::vector<std::pair<int, std::string>> exp;
    bool ok = true;
    auto str = chars(x);
    st at = 0;
    while (at < x.size() && ok) {
      int best = -1, len = 0;
      for (int i = 0; i < nt; ++i) {
        auto e = ends(rs[st(i)], x, {int(at)});
        int l = e.empty() ? 0 : *e.rbegin() - int(at);
        if (l > len) len = l, best = i;
      }
      if (best < 0) ok = false;
      else exp.push_back({best, str.substr(at, st(len))}), at += st(len);
    }
    if (x.empty()) continue;  // an empty text has no token to begin with
    rec.got.clear();
    bool threw = false;
    std::string msg;
    try {
      rec.read_string(str, "text");
    } catch (std::exception const& e) {
      threw = true;
      msg = e.what();
    }
    if (ok && threw) PFAIL("\"" << vis(str) << "\" refused: " << msg);
    if (!ok && !threw) PFAIL("\"" << vis(str) << "\" not refused");
    if (ok) {
      if (exp.size() >= 2) ++good;
      bool same = rec.got == exp;
      if (!same) {
        std::ostringstream o;
        for (auto& p : rec.got) o << p.first << ":\"" << vis(p.second) << "\" ";
        o << "should be ";
        for (auto& p : exp) o << p.first << ":\"" << vis(p.second) << "\" ";
        PFAIL("\"" << vis(str) << "\" read as " << o.str());
      }
    }
  }
  s.nontrivial(nt >= 2 && good > 0);
}
static void t_chars(Src& s, Env&) {
  int c = s.range(0, 255);
  s.desc(c);
  s.nontrivial(c < 128);
  bool want = c == '\t' || c == '\n' || c == '\r' || (c >= 32 && c <= 126);
  if (is_symbol(char(c)) != want) PFAIL("is_symbol");
  if (want) {
    int y = get_symbol(char(c));
    if (y < 0 || y >= NCHARS || get_char(y) != char(c)) PFAIL("not the same character back");
  }
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"ops", t_ops, 6000, 120000, {1}, true, "at least 4 operations and symbols"});
  t.push_back({"regex", t_regex, 6000, 120000, {1}, true, "at least 4 nodes"});
  t.push_back({"bad", t_bad, 600, 5000, {1}, true, "at least 4 characters"});
  t.push_back({"lexer", t_lexer, 1500, 40000, {1}, true, "2 tokens declared, a text of at least 2 tokens read"});
  t.push_back({"chars", t_chars, 600, 600, {1}, true, "7-bit code"});
  return run(argc, argv, t);
}
