// C32: structured input text (the YAML subset) is read as written
#include <Omega_h_input.hpp>
#include <Omega_h_reader.hpp>
#include <Omega_h_xml.hpp>
#include <Omega_h_xml_lite.hpp>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include "pbt.hpp"
using namespace pbt;
using namespace Omega_h;
typedef std::size_t st;
struct Node;
typedef std::shared_ptr<Node> NP;
struct Node {
  int k = 0;  // 0 scalar, 1 map, 2 list
  std::string s;
  std::map<std::string, NP> m;
  std::vector<NP> l;
};
static bool other(char c) { return std::string(" \t:.-\"'\\|[]{}>,%#!\n\r").find(c) == std::string::npos; }
static bool plain_ok(std::string const& s, bool comma) {
  if (s.empty() || s.back() == ' ' || s.back() == '\t') return false;
  st i = 0;
  while (i < 2 && i < s.size() && s[i] == '.') ++i;
  if (i == 0 && s[0] == '-') i = 1;
  if (i >= s.size() || !other(s[i])) return false;
  for (; i < s.size(); ++i) {
    char c = s[i];
    if (!(other(c) || c == ' ' || c == '\t' || c == '.' || c == '-' || c == '\'' || (comma && c == ','))) return false;
  }
  return true;
}
static std::string dq(std::string const& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    r += c;
  }
  return r + "\"";
}
static std::string sq(std::string const& s) {
  std::string r = "'";
  for (char c : s) {
    if (c == '\'') r += '\'';
    r += c;
  }
  return r + "'";
}
struct Writer {
  Src& s;
  std::string o, nl = "\n";
  bool tabs = false;  // some levels indented by tabs (not where there are blocks)
  bool inc = false;
  std::string dir;
  int nfiles = 0;
  explicit Writer(Src& s_) : s(s_) {}
  std::string ws(int pct) { return s.chance(pct) ? (s.chance(80) ? " " : s.chance(50) ? "  " : "\t") : ""; }
  std::string scalar(std::string const& x, bool comma) {
    if (plain_ok(x, comma) && s.chance(60)) return x;
    return s.chance(50) ? dq(x) : sq(x);
  }
  std::string tag() { return s.chance(6) ? s.pick<std::string>({"!!str ", "!!int  ", "!!my_type "}) : ""; }
  void comment_text() {
    o += s.pick<std::string>({"#", "# a comment", "# key: value", "#'", "## \"[{", "#- x"});
  }
  void eol(bool can_comment = true) {
    if (can_comment && s.chance(8)) {
      o += s.pick<std::string>({" ", "  "});
      comment_text();
    }
    o += nl;
    while (s.chance(7)) {
      if (s.chance(70)) {
        o += std::string(st(s.range(0, 6)), ' ');
        comment_text();
      } else if (s.chance(50)) o += std::string(st(s.range(0, 4)), ' ');
      o += nl;
    }
  }
  std::string flow(NP const& n) {
    if (n->k == 0) return scalar(n->s, false) + ws(10);
    std::string r;
    bool first = true;
    if (n->k == 1) {
      r = "{" + ws(20);
      for (auto& p : n->m) {
        if (!first) r += "," + ws(80);
        first = false;
        r += scalar(p.first, false) + ws(5) + ":" + ws(90) + tag() + flow(p.second);
      }
      return r + "}" + ws(8);
    }
    r = "[" + ws(20);
    for (auto& x : n->l) {
      if (!first) r += "," + ws(80);
      first = false;
      r += tag() + flow(x);
    }
    return r + "]" + ws(8);
  }
  bool multi(NP const& n) {
    if (n->k == 0) return n->s.find('\n') != std::string::npos || n->s.find('#') != std::string::npos;
    for (auto& p : n->m)
      if (multi(p.second)) return true;
    for (auto& x : n->l)
      if (multi(x)) return true;
    return false;
  }
  // a literal block, after "key: " or "- "
  bool block_ok(std::string const& x) {
    if (x.empty() || x.find_first_not_of(" \n") == std::string::npos) return false;
    st last = x.find_last_not_of('\n');
    if (x[last] == ' ' || x[last] == '\t') return false;
    // the first line gives the indentation, and has to be more than a comment
    std::istringstream is(x);
    std::string line;
    int first = -1, ftext = -1;
    bool text = false;
    while (std::getline(is, line)) {
      auto b = line.find_first_not_of(' ');
      if (b == std::string::npos) continue;
      if (first < 0) first = int(b);
      if (int(b) < first) return false;
      if (line[b] == '#') continue;
      if (ftext < 0) ftext = int(b);
      if (int(b) < ftext) return false;
      text = true;
    }
    return text;
  }
  void block(std::string const& x, std::string const& parent) {
    st last = x.find_last_not_of('\n');
    st trail = x.size() - last - 1;
    int step = s.range(1, 4);
    bool lead = false;  // the first line that isn't blank begins with a space
    {
      st b = 0;
      while (b < x.size() && x[b] == '\n') ++b;
      lead = b < x.size() && x[b] == ' ';
    }
    o += "|";
    if (lead || s.chance(10)) o += std::to_string(step);
    if (trail == 0) o += "-";
    else if (trail > 1) o += "+";
    else if (s.chance(15)) o += "+";
    bool keep = o.back() == '+';
    o += ws(10);
    if (s.chance(8)) {
      o += " ";
      comment_text();
    }
    o += nl;
    auto ind = parent + std::string(st(step), ' ');
    st i = 0;
    while (i <= last) {
      auto e = x.find('\n', i);
      if (e == std::string::npos) e = x.size();
      auto line = x.substr(i, e - i);
      if (!line.empty()) o += ind + line;
      o += nl;
      i = e + 1;
    }
    if (keep)
      for (st j = 1; j < trail; ++j) o += nl;
    else
      while (s.chance(8)) o += nl;
    if (s.chance(8)) {
      o += parent;
      comment_text();
      o += nl;
    }
  }
  void value(NP const& n, std::string const& ind, bool in_map) {
    // after "key:" or "-"
    auto deeper = ind + (tabs && s.chance(40) ? std::string("\t") : std::string(st(s.range(1, 4)), ' '));
    auto gap = [&] { return in_map ? ws(90) : s.pick<std::string>({" ", " ", "  "}); };
    if (n->k == 0) {
      bool must = multi(n);
      if (must || (!tabs && block_ok(n->s) && s.chance(10))) {
        o += gap();
        block(n->s, ind);
        return;
      }
      o += gap();
      o += tag();
      o += scalar(n->s, in_map) + ws(5);
      eol();
      return;
    }
    bool empty = n->k == 1 ? n->m.empty() : n->l.empty();
    if (empty && n->k == 1 && in_map && s.chance(40)) {
      o += ws(10);
      eol();
      return;
    }
    if (empty || (!multi(n) && s.chance(35))) {
      o += gap();
      o += tag();
      o += flow(n);
      eol();
      return;
    }
    o += ws(10);
    eol();
    if (n->k == 1) map(n, deeper);
    else list(n, deeper);
  }
  void map(NP const& n, std::string const& ind) {
    auto todo = n->m;
    std::vector<std::string> keys;
    for (auto& p : todo) keys.push_back(p.first);
    if (s.chance(30))
      for (st i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[st(s.below(i))]);
    st cut = keys.size();
    if (inc && keys.size() >= 2 && nfiles < 4 && s.chance(40)) {
      cut = st(s.range(1, int(keys.size()) - 1));
      NP part(new Node);
      part->k = 1;
      for (st i = cut; i < keys.size(); ++i) part->m[keys[i]] = todo[keys[i]];
      auto path = dir + "/inc" + std::to_string(nfiles++) + ".yaml";
      auto save = o;
      auto save_tabs = tabs;
      o = "";
      top(part);
      std::ofstream f(path, std::ios::binary);
      f << o;
      f.close();
      o = save;
      tabs = save_tabs;
      o += ind + "include: " + (s.chance(50) ? dq(path) : sq(path)) + nl;
    }
    for (st i = 0; i < cut; ++i) {
      o += ind;
      o += scalar(keys[i], false) + ws(5) + ":";
      value(todo[keys[i]], ind, true);
    }
  }
  void list(NP const& n, std::string const& ind) {
    for (auto& x : n->l) {
      o += ind + "-";
      value(x, ind, false);
    }
  }
  void top(NP const& n) {
    tabs = !multi(n) && s.chance(15);
    if (s.chance(10)) {
      comment_text();
      o += nl;
    }
    if (s.chance(10)) o += nl;
    if (s.chance(10)) o += "%YAML 1.2" + nl;
    if (s.chance(30)) o += "---" + nl;
    map(n, "");
    if (s.chance(30)) o += "..." + nl;
  }
};
static std::string gen_text(Src& s, bool key) {
  switch (s.weighted({40, 15, 15, 20, 10})) {
    case 0: return s.pick<std::string>({"a", "bc", "x y", "true", "false", "3", "-1.5e-3", "..x", ".5", "-z", "it's", "mesh.osh", "a-b", "_", "?q", "v*2", "(1+2)", "no", "0x10"});
    case 1: return std::to_string(s.range(-100, 100));
    case 2: {
      std::string r;
      int n = s.range(0, 8);
      const std::string cs = "ab 1:.-\"'\\|[]{}>,%!\t@&*=+()/;<~^$`?";
      for (int i = 0; i < n; ++i) r += cs[st(s.below(cs.size()))];
      return r;
    }
    case 3: {
      std::string r;
      int n = s.range(1, 6);
      for (int i = 0; i < n; ++i) r += char('a' + s.range(0, 25));
      return r;
    }
    default: {
      if (key) return "k" + std::to_string(s.range(0, 9));
      std::string r;
      int n = s.range(1, 4);
      for (int i = 0; i < n; ++i) {
        if (s.chance(15)) {
          if (i) r += "\n";
          continue;
        }
        r += std::string(st(s.weighted({70, 15, 15})), ' ');
        r += s.pick<std::string>({"x = 1", "line", "- a", "k: v", "# not a comment", "\"q\" 'r'", "[1", "a#b", "return 0;", "\\n", "..."});
        r += "\n";
      }
      if (!r.empty() && s.chance(30)) r.pop_back();
      while (s.chance(10)) r += "\n";
      return r;
    }
  }
}
static NP gen(Src& s, int depth, int k) {
  NP n(new Node);
  n->k = k;
  auto sub = [&] { return gen(s, depth - 1, depth <= 0 ? 0 : s.weighted({60, 20, 20})); };
  if (k == 0) {
    n->s = gen_text(s, false);
    if ((n->s.find('\n') != std::string::npos || n->s.find('#') != std::string::npos)) {
      Writer w(s);
      if (!w.block_ok(n->s)) n->s = "z";
      // a first line with blank lines before it that are longer is not representable
    }
  } else if (k == 1) {
    int c = s.range(0, 4);
    for (int i = 0; i < c; ++i) {
      auto key = gen_text(s, true);
      if (key == "include") key = "inc";
      if (key.find('\n') != std::string::npos || n->m.count(key)) continue;
      n->m[key] = sub();
    }
  } else {
    int c = s.range(0, 4);
    for (int i = 0; i < c; ++i) n->l.push_back(sub());
  }
  return n;
}
static void count(NP const& n, int d, int& size, int& depth) {
  ++size;
  depth = std::max(depth, d);
  for (auto& p : n->m) count(p.second, d + 1, size, depth);
  for (auto& p : n->l) count(p, d + 1, size, depth);
}
static std::string show(std::string const& x) {
  std::string r;
  for (char c : x) r += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : c == '\t' ? std::string("\\t") : std::string(1, c);
  return r;
}
static std::string diff(NP const& a, Input& b, std::string const& at) {
  if (a->k == 0) {
    if (!is_type<InputScalar>(b)) return at + " should be a scalar";
    auto& t = as_type<InputScalar>(b).str;
    if (t != a->s) return at + " is \"" + show(t) + "\", should be \"" + show(a->s) + "\"";
  } else if (a->k == 1) {
    if (!is_type<InputMap>(b)) return at + " should be a map";
    auto& m = as_type<InputMap>(b);
    auto it = a->m.begin();
    for (auto& key : m) {
      if (it == a->m.end() || it->first != key) return at + " has the wrong key \"" + show(key) + "\"";
      ++it;
    }
    if (it != a->m.end()) return at + " has no key \"" + show(it->first) + "\"";
    for (auto& p : a->m) {
      auto r = diff(p.second, m.find_named_input(p.first), at + "." + p.first);
      if (r != "") return r;
    }
  } else {
    if (!is_type<InputList>(b)) return at + " should be a list";
    auto& l = as_type<InputList>(b);
    if (st(l.size()) != a->l.size()) return at + " has " + std::to_string(l.size()) + " entries, should have " + std::to_string(a->l.size());
    for (st i = 0; i < a->l.size(); ++i) {
      auto r = diff(a->l[i], l.at(LO(i)), at + "[" + std::to_string(i) + "]");
      if (r != "") return r;
    }
  }
  return "";
}
static std::string put(Env& e, std::string const& text, std::string const& name) {
  auto p = e.scratch + "/" + name;
  std::ofstream f(p, std::ios::binary);
  f << text;
  return p;
}
static void t_read(Src& s, Env& e) {
  auto n = gen(s, s.range(1, 4), 1);
  if (n->m.empty()) n->m["a"] = gen(s, 1, 0);
  Writer w(s);
  w.dir = e.scratch;
  w.inc = s.chance(25);
  if (s.chance(15)) w.nl = "\r\n";
  w.top(n);
  int size = 0, depth = 0;
  count(n, 0, size, depth);
  s.desc("\"", show(w.o), "\"");
  s.label(w.nfiles ? "includes" : w.nl == "\n" ? "one file" : "crlf");
  s.nontrivial(size >= 4 && depth >= 2);
  auto want = n;
  if (w.nl != "\n") {  // literal blocks keep the line ends of the file
    std::function<void(NP&)> f = [&](NP& x) {
      std::string r;
      for (char c : x->s) r += c == '\n' ? std::string("\r\n") : std::string(1, c);
      x->s = r;
      for (auto& p : x->m) f(p.second);
      for (auto& p : x->l) f(p);
    };
    f(want);
  }
  auto path = put(e, w.o, "in.yaml");
  std::string err;
  try {
    auto m = read_input(path);
    auto r = diff(want, m, "");
    if (r != "") PFAIL(r);
  } catch (Fail const&) {
    throw;
  } catch (std::exception const& x) {
    err = x.what();
    PFAIL("refused: " << err);
  }
}
static void t_echo(Src& s, Env& e) {
  auto n = gen(s, s.range(1, 3), 1);
  if (n->m.empty()) n->m["a"] = gen(s, 1, 0);
  int size = 0, depth = 0;
  // names are printed as they are
  std::function<void(NP&)> f = [&](NP& x) {
    std::map<std::string, NP> m;
    for (auto& p : x->m) {
      auto key = p.first;
      if (!plain_ok(key, false)) key = "k" + std::to_string(m.size());
      m[key] = p.second;
    }
    x->m = m;
    if (x->s.find('#') != std::string::npos) {
      for (auto& c : x->s)
        if (c == '#') c = '+';
    }
    for (auto& p : x->m) f(p.second);
    for (auto& p : x->l) f(p);
  };
  f(n);
  count(n, 0, size, depth);
  Writer w(s);
  w.top(n);
  s.desc("\"", show(w.o), "\"");
  s.nontrivial(size >= 4 && depth >= 2);
  auto m = read_input(put(e, w.o, "in.yaml"));
  std::ostringstream os;
  echo_input(os, m);
  try {
    auto m2 = read_input(put(e, os.str(), "echo.yaml"));
    auto r = diff(n, m2, "");
    if (r != "") PFAIL("printed as \"" << show(os.str()) << "\": " << r);
  } catch (Fail const&) {
    throw;
  } catch (std::exception const& x) {
    PFAIL("printed as \"" << show(os.str()) << "\": refused: " << x.what());
  }
}
// conversions
static void t_scalar(Src& s, Env&) {
  std::string t;
  switch (s.below(5)) {
    case 0: t = std::to_string(s.chance(50) ? (long long)(s.below(1u << 31)) * (s.chance(50) ? -1 : 1) : (long long)(s.below(~0ull >> 1)) * (s.chance(50) ? -1 : 1)); break;
    case 1: {
      char b[64];
      std::snprintf(b, sizeof b, s.pick<const char*>({"%.17g", "%e", "%.3f", "%g"}), s.any_real());
      t = b;
      break;
    }
    case 2: t = s.pick<std::string>({"true", "false", "True", "1", "0", "", "yes", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e5", "1.", ".5", "-.5e-2", "+3", "1e", "--1", "0x1f", "1 ", " 1", "1 2", "nan", "inf", "007", "1,0", "1e400", "-"}); break;
    case 3: {
      const std::string cs = "0123456789.-+e ";
      int n = s.range(0, 9);
      for (int i = 0; i < n; ++i) t += cs[st(s.below(cs.size()))];
      break;
    }
    default: t = gen_text(s, true);
  }
  s.desc("\"", t, "\"");
  // reference recognisers
  auto sign = [&](st& i) {
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  };
  auto digits = [&](st& i) {
    st b = i;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
    return int(i - b);
  };
  bool is_int = false, is_dbl = false, murky_d = false;
  {
    st i = 0;
    sign(i);
    int d = digits(i);
    is_int = d > 0 && i == t.size();
    i = 0;
    sign(i);
    d = digits(i);
    if (i < t.size() && t[i] == '.') ++i, d += digits(i);
    if (d > 0 && i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
      ++i;
      sign(i);
      if (!digits(i)) d = 0;
    }
    is_dbl = d > 0 && i == t.size();
  }
  long double big = 0;
  __int128 iv = 0;
  if (is_int) {
    bool neg = t[0] == '-';
    for (char c : t)
      if (c >= '0' && c <= '9' && iv < (__int128(1) << 100)) iv = iv * 10 + (c - '0');
    if (neg) iv = -iv;
  }
  double dv = 0;
  if (is_dbl) {
    dv = std::strtod(t.c_str(), nullptr);
    big = strtold(t.c_str(), nullptr);
    if (std::isinf(dv)) is_dbl = false;
    if (big != 0 && std::fabs(big) < 2.3e-308L) murky_d = true;
  }
  bool fi = is_int && iv >= -(__int128(1) << 31) && iv < (__int128(1) << 31);
  bool fl = is_int && iv >= -(__int128(1) << 63) && iv < (__int128(1) << 63);
  bool fb = t == "true" || t == "false";
  s.nontrivial(fb || is_int || is_dbl || t.size() >= 3);
  s.label(fb ? "bool" : is_int ? "int" : is_dbl ? "real" : "text");
  InputMap m;
  InputList l;
  m.set("x", t.c_str());
  l.add(std::shared_ptr<Input>(new InputScalar(t)));
  for (int h = 0; h < 2; ++h) {
    auto is_i = h ? l.is<int>(0) : m.is<int>("x");
    auto is_l = h ? l.is<long long>(0) : m.is<long long>("x");
    auto is_d = h ? l.is<double>(0) : m.is<double>("x");
    auto is_b = h ? l.is<bool>(0) : m.is<bool>("x");
    auto is_s = h ? l.is<std::string>(0) : m.is<std::string>("x");
    if (!is_s || (h ? l.get<std::string>(0) : m.get<std::string>("x")) != t) PFAIL("text not returned");
    if (is_i != fi) PFAIL("int " << is_i << ", should be " << fi);
    if (is_l != fl) PFAIL("long long " << is_l << ", should be " << fl);
    if (is_b != fb) PFAIL("bool " << is_b << ", should be " << fb);
    if (!murky_d && is_d != is_dbl) PFAIL("double " << is_d << ", should be " << is_dbl);
    if (fi && (h ? l.get<int>(0) : m.get<int>("x")) != int(iv)) PFAIL("wrong int");
    if (fl && (h ? l.get<long long>(0) : m.get<long long>("x")) != (long long)(iv)) PFAIL("wrong long long");
    if (fb && (h ? l.get<bool>(0) : m.get<bool>("x")) != (t == "true")) PFAIL("wrong bool");
    if (is_dbl && !murky_d && (h ? l.get<double>(0) : m.get<double>("x")) != dv) PFAIL("wrong double");
    auto throws = [&](int w) {
      try {
        if (w == 0) h ? l.get<int>(0) : m.get<int>("x");
        if (w == 1) h ? l.get<bool>(0) : m.get<bool>("x");
        if (w == 2) h ? l.get<double>(0) : m.get<double>("x");
        if (w == 3) h ? l.get<long long>(0) : m.get<long long>("x");
      } catch (std::exception const&) {
        return true;
      }
      return false;
    };
    if (throws(0) == fi || throws(1) == fb || throws(3) == fl || (!murky_d && throws(2) == is_dbl)) PFAIL("conversion does not fail exactly when it can't be made");
  }
}
// texts that can't be documents
static void t_bad(Src& s, Env& e) {
  auto n = gen(s, s.range(1, 3), 1);
  n->m["anchor"] = gen(s, 0, 0);
  n->m["anchor"]->s = "v";
  Writer w(s);
  w.map(n, "");
  auto good = w.o;
  int how = s.range(0, 9);
  std::string extra, what;
  switch (how) {
    case 0: what = "unterminated double quote", extra = "q: \"abc\n"; break;
    case 1: what = "unterminated single quote", extra = "q: 'abc\n"; break;
    case 2: what = "unclosed list", extra = "q: [1, 2\n"; break;
    case 3: what = "unclosed map", extra = "q: {a: 1, b: 2\n"; break;
    case 4: what = "same key twice", extra = s.pick<std::string>({"anchor: 2\n", "\"anchor\": {}\n", "anchor:\n  - 1\n"}); break;
    case 5: what = "no colon", extra = "q\n"; break;
    case 6: what = "wrong bracket", extra = s.pick<std::string>({"q: [1, 2}\n", "q: {a: 1]\n", "q: ]\n", "q: {a}\n", "q: [1 2, ]\n", "q: [1,, 2]\n"}); break;
    case 7: what = "list entry among keys", extra = "- 1\n"; break;
    case 8: what = "keys among list entries", extra = "q:\n  - 1\n  a: 2\n"; break;
    default: what = "indentation that appears from nowhere", extra = "q: 1\n  r: 2\n";
  }
  bool first = s.chance(50);
  auto text = first ? extra + good : good + extra;
  s.desc(what, " \"", show(text), "\"");
  s.label(what);
  s.nontrivial(good.size() > 20);
  bool threw = false;
  try {
    auto m = read_input(put(e, text, "in.yaml"));
  } catch (std::exception const&) {
    threw = true;
  }
  if (!threw) PFAIL(what << ": accepted");
}
// a line that goes back to an indentation that was never opened
static void t_dedent(Src& s, Env& e) {
  int a = s.range(2, 6), b = s.range(1, a - 1);
  std::string o = "p:\n" + std::string(st(a), ' ') + "q: 1\n" + std::string(st(b), ' ') + "r: 2\n";
  s.desc("\"", show(o), "\"");
  s.nontrivial(a > 2);
  bool threw = false;
  try {
    auto m = read_input(put(e, o, "in.yaml"));
  } catch (std::exception const&) {
    threw = true;
  }
  s.finding(!threw, "dedent_between", "a line indented by less than the entries above it and more than their parent is accepted, as an entry of an outer level");
}
// marking of what was used, names of entries, and defaults
static void t_used(Src& s, Env& e) {
  auto n = gen(s, s.range(1, 3), 1);
  if (n->m.empty()) n->m["a"] = gen(s, 1, 0);
  Writer w(s);
  w.top(n);
  auto m = read_input(put(e, w.o, "in.yaml"));
  int size = 0, depth = 0;
  count(n, 0, size, depth);
  int skip = s.chance(60) ? s.range(1, size - 1) : -1;
  int at = 0;
  std::string full;
  s.desc("\"", show(w.o), "\", leave ", skip);
  std::function<void(NP const&, Input&, std::string)> walk = [&](NP const& x, Input& in, std::string name) {
    if (get_full_name(in) != name) PFAIL("name \"" << get_full_name(in) << "\", should be \"" << name << "\"");
    if (x->k == 1) {
      auto& im = as_type<InputMap>(in);
      for (auto& p : x->m) {
        bool leave = ++at == skip;
        auto nm = name + "." + p.first;
        if (leave) {
          full = nm;
          int z = 0, d = 0;
          count(p.second, 0, z, d);
          at += z - 1;
          continue;
        }
        if (p.second->k == 0) {
          if (im.get<std::string>(p.first) != p.second->s) PFAIL("wrong text");
          if (get_full_name(im.find_named_input(p.first)) != nm) PFAIL("wrong name");
          if (im.is_map(p.first) || im.is_list(p.first)) PFAIL("scalar taken for something else");
        } else if (p.second->k == 1) {
          if (!im.is_map(p.first) || im.is_list(p.first) || im.is<std::string>(p.first)) PFAIL("map not recognised");
          walk(p.second, im.get_map(p.first), nm);
        } else {
          if (im.is_map(p.first) || !im.is_list(p.first) || im.is<std::string>(p.first)) PFAIL("list not recognised");
          walk(p.second, im.get_list(p.first), nm);
        }
      }
    } else {
      auto& il = as_type<InputList>(in);
      for (st i = 0; i < x->l.size(); ++i) {
        bool leave = ++at == skip;
        auto nm = name + "[" + std::to_string(i) + "]";
        auto& c = x->l[i];
        if (leave) {
          full = nm;
          int z = 0, d = 0;
          count(c, 0, z, d);
          at += z - 1;
          continue;
        }
        if (c->k == 0) {
          if (il.get<std::string>(LO(i)) != c->s) PFAIL("wrong text");
          if (il.is_map(LO(i)) || il.is_list(LO(i))) PFAIL("scalar taken for something else");
        } else if (c->k == 1) {
          if (!il.is_map(LO(i)) || il.is_list(LO(i)) || il.is<std::string>(LO(i))) PFAIL("map not recognised");
          walk(c, il.get_map(LO(i)), nm);
        } else {
          if (il.is_map(LO(i)) || !il.is_list(LO(i)) || il.is<std::string>(LO(i))) PFAIL("list not recognised");
          walk(c, il.get_list(LO(i)), nm);
        }
      }
    }
  };
  walk(n, m, "");
  bool left = full != "";
  s.nontrivial(size >= 4);
  s.label(left ? "something left" : "all used");
  bool threw = false;
  std::string msg;
  try {
    check_unused(m);
  } catch (std::exception const& x) {
    threw = true;
    msg = x.what();
  }
  if (threw != left) PFAIL("unused entries " << (left ? "not reported" : "reported") << " " << msg << " (" << full << ")");
  // defaults and new entries
  if (m.get<int>("a new one", "42") != 42 || m.get<int>("a new one", "43") != 42 || m.get<int>("a new one") != 42) PFAIL("default value");
  if (m.get_map("another").begin() != m.get_map("another").end()) PFAIL("new map is not empty");
  if (m.get_list("more").size() != 0) PFAIL("new list is not empty");
  threw = false;
  try {
    m.get<int>("missing");
  } catch (std::exception const&) {
    threw = true;
  }
  if (!threw) PFAIL("a missing entry was found");
  m.remove("another");
  if (m.is_map("another")) PFAIL("removed entry is still there");
}
static void t_sets(Src& s, Env& e) {
  int n = s.range(0, 4);
  ClassSets want, got;
  std::string o;
  if (s.chance(30)) want["old"].push_back({2, 7}), got["old"].push_back({2, 7});
  for (int i = 0; i < n; ++i) {
    auto nm = s.chance(20) && want.count("old") && i == 0 ? std::string("old") : "set" + std::to_string(i);
    int c = s.range(0, 3);
    bool fl = s.chance(50) || c == 0;
    o += nm + ":" + (fl ? " [" : "\n");
    want[nm];
    for (int j = 0; j < c; ++j) {
      int d = s.range(0, 3), id = s.range(-5, 100);
      want[nm].push_back({Int(d), id});
      auto p = "[" + std::to_string(d) + ", " + std::to_string(id) + "]";
      o += fl ? (j ? ", " : "") + p : "  - " + p + "\n";
    }
    if (fl) o += "]\n";
  }
  s.desc("\"", show(o), "\"");
  s.nontrivial(n >= 2);
  o += "z: []\n";
  auto m = read_input(put(e, o, "in.yaml"));
  update_class_sets(&got, m);
  for (auto& p : want) {
    if (p.second.empty()) continue;
    if (!got.count(p.first) || got[p.first].size() != p.second.size()) PFAIL("wrong number in " << p.first);
    for (st i = 0; i < p.second.size(); ++i)
      if (got[p.first][i].dim != p.second[i].dim || got[p.first][i].id != p.second[i].id) PFAIL("wrong entry in " << p.first);
  }
  for (auto& p : got)
    if (!p.second.empty() && !want.count(p.first)) PFAIL("unknown set " << p.first);
}
// XML: a recogniser of its own, with the pieces that are completed noted in order.  Strict: what must be
// read; loose: also what other XML readers may take.
struct Xml {
  std::string const& t;
  bool loose;
  st i = 0;
  std::vector<std::string> ev;
  Xml(std::string const& t_, bool l) : t(t_), loose(l) {}
  bool more() { return i < t.size(); }
  bool at(const char* x) { return t.compare(i, std::strlen(x), x) == 0; }
  bool eat(const char* x) {
    if (!at(x)) return false;
    i += std::strlen(x);
    return true;
  }
  static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  static bool digit(char c) { return c >= '0' && c <= '9'; }
  static bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
  bool known(char c) { return loose || (c >= 32 && c < 127) || space(c); }
  bool spaces() {
    st b = i;
    while (more() && space(t[i])) ++i;
    return i > b;
  }
  bool name() {
    st b = i;
    if (!more() || !(letter(t[i]) || t[i] == '_' || t[i] == ':')) return false;
    while (more() && (letter(t[i]) || digit(t[i]) || std::strchr("_:.-", t[i]))) ++i;
    ev.push_back("name " + t.substr(b, i - b));
    return true;
  }
  bool ref() {
    st b = i;
    if (!eat("&")) return false;
    if (eat("#")) {
      st d = i;
      while (more() && (digit(t[i]) || (loose && (letter(t[i]))))) ++i;
      if (i == d) return false;
    } else if (!name())
      return false;
    if (!eat(";")) return false;
    ev.push_back("reference " + t.substr(b, i - b));
    return true;
  }
  bool atts() {
    for (;;) {
      st b = i;
      spaces();
      if (!more() || !(letter(t[i]) || t[i] == '_' || t[i] == ':')) return true;
      if (i == b) return false;
      b = i;
      if (!name()) return false;
      spaces();
      if (!eat("=")) return false;
      spaces();
      if (!more() || (t[i] != '"' && t[i] != '\'')) return false;
      char q = t[i++];
      while (more() && t[i] != q) {
        if (t[i] == '&') {
          if (!ref()) return false;
        } else if (t[i] == '<' || !known(t[i]))
          return false;
        else
          ++i;
      }
      if (!more()) return false;
      ++i;
      ev.push_back("attribute " + t.substr(b, i - b));
    }
  }
  bool comment() {
    st b = i;
    if (!eat("<!--")) return false;
    while (more() && !at("--")) {
      if (!known(t[i])) return false;
      ++i;
    }
    if (!eat("-->")) return false;
    ev.push_back("comment " + t.substr(b, i - b));
    return true;
  }
  bool element() {
    st b = i;
    if (!eat("<") || !name() || !atts()) return false;
    if (eat("/>")) {
      ev.push_back("empty " + t.substr(b, i - b));
      return true;
    }
    if (!eat(">")) return false;
    ev.push_back("start " + t.substr(b, i - b));
    for (;;) {
      if (!more()) return false;
      if (at("</")) {
        st c = i;
        i += 2;
        if (!name()) return false;
        spaces();
        if (!eat(">")) return false;
        ev.push_back("end " + t.substr(c, i - c));
        ev.push_back("element " + t.substr(b, i - b));
        return true;
      }
      if (at("<!--")) {
        if (!comment()) return false;
      } else if (at("<")) {
        if (!element()) return false;
      } else if (at("&")) {
        if (!ref()) return false;
      } else if ((t[i] == ']' && !loose) || !known(t[i]))
        return false;
      else
        ++i;
    }
  }
  bool declaration() {
    st b = i;
    if (!eat("<?") || !name() || !atts() || !eat("?>")) return false;
    ev.push_back("declaration " + t.substr(b, i - b));
    return true;
  }
  bool document() {
    if (t.empty()) return loose;
    if (loose) spaces();
    bool root = false;
    while (more()) {
      if (at("<?") ? (!loose && root) || !declaration() : at("<!--") ? !loose || !comment() : (!loose && root) || !element()) return false;
      if (t[i - 2] != '?') root = true;
      spaces();
    }
    return root || loose;
  }
};
struct XmlReader : Reader {
  std::vector<std::string> ev;
  XmlReader() : Reader(xml::ask_reader_tables()) {}
  any at_shift(int, std::string& x) override { return any(std::string(x)); }
  any at_reduce(int p, std::vector<any>& rhs) override {
    std::string r;
    for (auto& x : rhs) r += any_cast<std::string&>(x);
    const char* k = p == xml::PROD_NAME ? "name" : p == xml::PROD_ENT_REF || p == xml::PROD_CHAR_REF ? "reference" : p == xml::PROD_ATT ? "attribute" : p == xml::PROD_COMMENT ? "comment" : p == xml::PROD_EMPTY_TAG ? "empty" : p == xml::PROD_STAG ? "start" : p == xml::PROD_ETAG ? "end" : p == xml::PROD_ELEMENT ? "element" : p == xml::PROD_XMLDECL ? "declaration" : nullptr;
    if (k) ev.push_back(k + (" " + r));
    return any(r);
  }
};
struct XmlWriter {
  Src& s;
  std::string o;
  void spaces(int p) {
    while (s.chance(p)) o += s.pick<std::string>({" ", " ", "\n", "\t", "\r\n"}), p /= 2;
  }
  void name() {
    o += s.pick<std::string>({"a", "Q", "_", ":", "Parameter", "z"});
    for (int n = s.range(0, 3); n--;) o += s.pick<std::string>({"b", "Z", "7", "0", ".", "-", "_", ":"});
  }
  void ref() {
    o += '&';
    if (s.chance(50)) name();
    else o += "#" + std::to_string(s.range(0, 1000));
    o += ';';
  }
  void text(const char* chars, int n, bool refs) {
    for (; n > 0; --n)
      if (refs && s.chance(15)) ref();
      else o += chars[s.below(std::strlen(chars))];
  }
  static constexpr const char* common = "abXY019 \t\n!#./:;>?=[_$%()*+,@\\^`{}|~";
  void atts() {
    for (int n = s.weighted({50, 30, 20}); n--;) {
      o += s.pick<std::string>({" ", "\n", "\t"});
      spaces(20);
      name();
      spaces(20);
      o += '=';
      spaces(20);
      bool d = s.chance(50);
      o += d ? '"' : '\'';
      text((std::string(common) + (d ? "']-" : "\"]-")).c_str(), s.range(0, 6), true);
      o += d ? '"' : '\'';
    }
    spaces(20);
  }
  void comment() {
    o += "<!--";
    for (int n = s.range(0, 6); n--;) {
      if (s.chance(20)) o += '-';
      text((std::string(common) + "<&'\"]").c_str(), 1, false);
    }
    o += "-->";
  }
  void element(int depth) {
    o += '<';
    name();
    atts();
    if (s.chance(30)) {
      o += "/>";
      return;
    }
    o += '>';
    std::string data = std::string(common) + "'\"-";
    for (int n = s.range(0, 4); n--;) switch (s.below(4)) {
        case 0: text(data.c_str(), s.range(0, 5), true); break;
        case 1: comment(); break;
        case 2: ref(); break;
        default: if (depth) element(depth - 1);
      }
    o += "</";
    name();
    spaces(20);
    o += '>';
  }
};
static void t_xml(Src& s, Env&) {
  XmlWriter w{s, ""};
  for (int n = s.weighted({60, 30, 10}); n--;) {
    w.o += "<?";
    w.name();
    w.atts();
    w.o += "?>";
    w.spaces(50);
  }
  w.element(s.range(0, 3));
  w.spaces(30);
  auto text = w.o;
  for (int n = s.weighted({40, 40, 20}); n--;) {
    st a = s.below(text.size()), b = s.below(text.size());
    static const char chars[] = "<>/&;'\"=-!?] a0_:.#[\n\x01";
    switch (s.below(5)) {
      case 0: text[a] = chars[s.below(sizeof chars - 1)]; break;
      case 1: text.insert(a, 1, chars[s.below(sizeof chars - 1)]); break;
      case 2: text.erase(a, 1); break;
      case 3: std::swap(text[a], text[b]); break;
      default: text.insert(a, text.substr(b, s.below(12)));
    }
    if (text.empty()) text = "<";
  }
  s.desc("\"", show(text), "\"");
  Xml strict(text, false), loose(text, true);
  bool must = strict.document(), may = loose.document();
  s.label(must ? "document" : may ? "either" : "not a document");
  s.nontrivial(text.size() > 12);
  XmlReader r;
  bool threw = false;
  std::string what;
  try {
    r.read_string(text, "xml");
  } catch (std::exception const& x) {
    threw = true;
    what = x.what();
  }
  if (must && threw) PFAIL("refused: " << what);
  if (!may && !threw) PFAIL("accepted");
  if (must && r.ev != strict.ev) {
    st k = 0;
    while (k < r.ev.size() && k < strict.ev.size() && r.ev[k] == strict.ev[k]) ++k;
    PFAIL("piece " << k << " is " << (k < r.ev.size() ? r.ev[k] : "missing") << " expected " << (k < strict.ev.size() ? strict.ev[k] : "nothing"));
  }
}
// one tag on a line, as in VTK's files
static void t_tag(Src& s, Env&) {
  std::string name = s.pick<std::string>({"VTKFile", "DataArray", "a", "P:q.r-1"}), o(st(s.range(0, 6)), ' ');
  int type = int(s.below(3));
  std::map<std::string, std::string> want;
  o += type == 1 ? "</" : "<";
  o += name;
  if (type != 1)
    for (int n = s.range(0, 4); n--;) {
      auto k = s.pick<std::string>({"type", "Name", "format", "x_1", "version"});
      std::string v;
      bool d = s.chance(80);
      for (int m = s.range(0, 8); m--;) v += "ab01 .:/><=-_"[s.below(13)];
      if (s.chance(20)) v += d ? '\'' : '"';
      if (!want.emplace(k, v).second) continue;
      o += std::string(st(s.range(1, 2)), ' ') + k + "=" + (d ? "\"" : "'") + v + (d ? "\"" : "'");
    }
  o += std::string(st(s.range(0, 1)), ' ');
  o += type == 2 ? "/>" : ">";
  bool cut = s.chance(15);
  if (cut) o.resize(s.below(o.size()));
  s.desc("\"", o, "\"");
  s.label(cut ? "cut" : type == 0 ? "start" : type == 1 ? "end" : "empty");
  s.nontrivial(cut || want.size() >= 2 || type);
  xml_lite::Tag t;
  bool ok = xml_lite::parse_tag(o, &t);
  if (ok == cut) PFAIL("returned " << ok);
  if (cut) return;
  if (t.elem_name != name) PFAIL("the name is " << t.elem_name);
  if (t.type != (type == 0 ? xml_lite::Tag::START : type == 1 ? xml_lite::Tag::END : xml_lite::Tag::SELF_CLOSING)) PFAIL("the kind of tag is " << t.type);
  if (t.attribs != want) PFAIL("wrong attributes");
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"read", t_read, 12000, 300000, {1}, true, "at least 4 nodes, two levels"});
  t.push_back({"echo", t_echo, 5000, 100000, {1}, true, "at least 4 nodes, two levels"});
  t.push_back({"scalar", t_scalar, 6000, 200000, {1}, true, "a number, a boolean, or at least 3 characters"});
  t.push_back({"bad", t_bad, 5000, 100000, {1}, true, "surrounding document over 20 characters"});
  t.push_back({"used", t_used, 5000, 100000, {1}, true, "at least 4 nodes"});
  t.push_back({"dedent", t_dedent, 40, 100, {1}, true, "indentation above 2"});
  t.push_back({"sets", t_sets, 600, 20000, {1}, true, "at least 2 sets"});
  t.push_back({"xml", t_xml, 6000, 200000, {1}, true, "over 12 characters"});
  t.push_back({"tag", t_tag, 6000, 100000, {1}, true, "two attributes, cut short, an end tag or an empty element"});
  return run(argc, argv, t);
}
