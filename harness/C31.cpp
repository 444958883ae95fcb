// C31: expressions
#include <Omega_h_expr.hpp>
#include <Omega_h_math_lang.hpp>
#include <Omega_h_array_ops.hpp>
#include <cmath>
#include "pbt.hpp"
#include "arr.hpp"
using namespace pbt;
typedef std::size_t st;
namespace {
// ------------------------------------------------------------------ values
struct Bad {};      // must be refused
struct Murky {};    // neither required nor forbidden
enum Kind { NONE, BOOL, REAL, VEC, TEN, BYTES, REALS };
struct Val {
  Kind k = NONE;
  int nc = 1;                // components of each entry of REALS
  std::vector<double> d;     // one entry, or one per point
  bool arr() const { return k == REALS || k == BYTES; }
};
struct Ctx {
  int n = 1, dim = 1;
  double mag = 0;
  bool close = false;        // a comparison too close to call
  std::map<std::string, Val> vars;
};
Val num(double x) {
  Val v;
  v.k = REAL;
  v.d = {x};
  return v;
}
void note(Ctx& c, Val const& v) {
  for (auto x : v.d) {
    if (!std::isfinite(x)) throw Murky();
    c.mag = std::max(c.mag, std::fabs(x));
  }
  if (c.mag > 1e7) throw Murky();
}
Val spread(Ctx& c, Val const& v) {
  if (v.arr()) return v;
  Val r;
  r.k = v.k == BOOL ? BYTES : REALS;
  r.nc = v.k == VEC ? c.dim : v.k == TEN ? c.dim * c.dim : 1;
  for (int i = 0; i < c.n; ++i) r.d.insert(r.d.end(), v.d.begin(), v.d.end());
  return r;
}
// what a pair of operands is brought to
void level(Ctx& c, Val& a, Val& b) {
  if (a.k == b.k) return;
  if (a.k == BOOL && b.k == BYTES) a = spread(c, a);
  else if (a.k == BYTES && b.k == BOOL) b = spread(c, b);
  else if (b.k == REALS && (a.k == REAL || a.k == VEC || a.k == TEN)) a = spread(c, a);
  else if (a.k == REALS && (b.k == REAL || b.k == VEC || b.k == TEN)) b = spread(c, b);
}
struct Node {
  std::string op;            // "num" "var" "call" "neg" "?" "||" ...
  std::string name;
  double x = 0;
  std::vector<std::shared_ptr<Node>> a;
};
typedef std::shared_ptr<Node> NP;
NP mk_node(std::string op, std::vector<NP> a = {}, std::string name = "", double x = 0) {
  auto n = std::make_shared<Node>();
  n->op = op, n->a = a, n->name = name, n->x = x;
  return n;
}
int index_of(Val const& v, int lim) {
  if (v.k != REAL) throw Bad();
  if (v.d[0] != std::floor(v.d[0])) throw Murky();
  if (v.d[0] < 0 || v.d[0] >= lim) throw Bad();
  return int(v.d[0]);
}
Val eval(Ctx& c, NP const& n);
Val call(Ctx& c, NP const& n) {
  std::vector<Val> a;
  for (auto& x : n->a) a.push_back(eval(c, x));
  auto it = c.vars.find(n->name);
  Val r;
  int D = c.dim;
  if (it != c.vars.end()) {  // component access
    auto& v = it->second;
    if (a.empty()) throw Bad();
    int ten;
    if (v.k == VEC) ten = 0;
    else if (v.k == TEN) ten = 1;
    else if (v.k == REALS && v.nc == D) ten = 0;
    else if (v.k == REALS && v.nc == D * D) ten = 1;
    else if (v.k == REALS) throw Bad();
    else throw Bad();
    if (D == 1 && a.size() != (ten ? 2u : 1u)) throw Murky();
    if (a.size() > 2 || (!ten && a.size() > 1)) throw Murky();
    if (ten && a.size() < 2) throw Bad();
    int i = index_of(a[0], D), j = ten ? index_of(a[1], D) : 0;
    int w = ten ? D * D : D, at = ten ? i * D + j : i;
    r.k = v.k == REALS ? REALS : REAL;
    for (st p = 0; p < v.d.size(); p += st(w)) r.d.push_back(v.d[p + st(at)]);
    return r;
  }
  auto& f = n->name;
  if (f == "exp" || f == "sqrt" || f == "sin" || f == "cos" || f == "erf") {
    if (a.size() != 1) throw Bad();
    if (a[0].k != REAL && !(a[0].k == REALS && a[0].nc == 1)) throw Bad();
    r = a[0];
    for (auto& x : r.d) {
      if (f == "exp" && std::fabs(x) > 8) throw Murky();
      if (f == "sqrt" && x < 1e-3 && x != 0) throw Murky();
      if ((f == "sin" || f == "cos") && std::fabs(x) > 100) throw Murky();
      x = f == "exp" ? std::exp(x) : f == "sqrt" ? std::sqrt(x) : f == "sin" ? std::sin(x) : f == "cos" ? std::cos(x) : std::erf(x);
    }
    return r;
  }
  if (f == "norm") {
    if (a.size() != 1) throw Bad();
    if (D == 1 && a[0].k == REALS) throw Murky();
    if (a[0].k != VEC && !(a[0].k == REALS && a[0].nc == D)) throw Bad();
    r.k = a[0].k == VEC ? REAL : REALS;
    for (st p = 0; p < a[0].d.size(); p += st(D)) {
      double s = 0;
      for (int i = 0; i < D; ++i) s += a[0].d[p + st(i)] * a[0].d[p + st(i)];
      r.d.push_back(std::sqrt(s));
    }
    return r;
  }
  if (f == "vector" || f == "matrix" || f == "tensor") {
    bool vec = f == "vector", some = false;
    if (!vec && a.size() == 1 && a[0].k == REAL && a[0].d[0] == 0) {
      r.k = REALS;
      r.nc = D * D;
      r.d.assign(st(c.n * D * D), 0);
      return r;
    }
    st want = st(vec ? D : D * D);
    if (a.empty() || a.size() > want || (!vec && a.size() != want)) throw Bad();
    for (auto& x : a) {
      if (x.k == BOOL || x.k == BYTES) throw Murky();
      if (x.k == REALS && x.nc != 1) throw Murky();  // rows of components: unspecified
      if (x.k == VEC || x.k == TEN) throw Bad();
      some = some || x.k == REALS;
    }
    while (a.size() < want) a.push_back(a.back());
    if (!some) {
      r.k = vec ? VEC : TEN;
      for (auto& x : a) r.d.push_back(x.d[0]);
      return r;
    }
    r.k = REALS;
    r.nc = int(want);
    for (auto& x : a) x = spread(c, x);
    for (int i = 0; i < c.n; ++i)
      for (auto& x : a) r.d.push_back(x.d[st(i)]);
    return r;
  }
  if (f == "symm") {
    if (a.size() != 1) throw Bad();
    if (a[0].k == BOOL || a[0].k == BYTES) throw Bad();
    auto x = spread(c, a[0]);
    if (x.nc != D * D) throw Bad();
    if (D == 1 && a[0].k != TEN && a[0].k != REALS) throw Murky();
    r.k = REALS;
    r.nc = symm_ncomps(D);
    for (int p = 0; p < c.n; ++p) {
      auto at = [&](int i, int j) { return x.d[st(p * D * D + i * D + j)]; };
      for (int i = 0; i < D; ++i)
        for (int j = 0; j < i; ++j)
          if (at(i, j) != at(j, i)) throw Murky();
      for (int i = 0; i < D; ++i) r.d.push_back(at(i, i));
      if (D == 2) r.d.push_back(at(0, 1));
      if (D == 3) r.d.push_back(at(0, 1)), r.d.push_back(at(1, 2)), r.d.push_back(at(0, 2));
    }
    return r;
  }
  throw Bad();
}
Val binary(Ctx& c, std::string const& op, Val a, Val b) {
  level(c, a, b);
  Val r;
  int D = c.dim;
  if (op == "||" || op == "&&") {
    if (a.k != b.k || (a.k != BOOL && a.k != BYTES)) throw Bad();
    r = a;
    for (st i = 0; i < a.d.size(); ++i) r.d[i] = op == "||" ? (a.d[i] != 0 || b.d[i] != 0) : (a.d[i] != 0 && b.d[i] != 0);
    return r;
  }
  if (a.k == BOOL || b.k == BOOL || a.k == BYTES || b.k == BYTES) throw Bad();
  if (op == ">" || op == "<" || op == "==") {
    if (a.k != b.k || a.k == VEC || a.k == TEN) throw Bad();
    if (a.k == REALS && a.nc != b.nc) throw Bad();
    if (a.k == REALS && a.nc != 1) throw Murky();
    r.k = a.k == REAL ? BOOL : BYTES;
    for (st i = 0; i < a.d.size(); ++i) {
      if (std::fabs(a.d[i] - b.d[i]) < 1e-7 * (1 + c.mag)) c.close = true;
      r.d.push_back(op == ">" ? a.d[i] > b.d[i] : op == "<" ? a.d[i] < b.d[i] : a.d[i] == b.d[i]);
    }
    return r;
  }
  if (op == "+" || op == "-") {
    if (a.k != b.k || (a.k == REALS && a.nc != b.nc)) throw Bad();
    r = a;
    for (st i = 0; i < a.d.size(); ++i) r.d[i] = op == "+" ? a.d[i] + b.d[i] : a.d[i] - b.d[i];
    return r;
  }
  if (op == "*" || op == "/") {
    bool A = a.k == REALS;
    if (A != (b.k == REALS)) throw Bad();
    int wa = A ? a.nc : a.k == VEC ? D : a.k == TEN ? D * D : 1;
    int wb = A ? b.nc : b.k == VEC ? D : b.k == TEN ? D * D : 1;
    bool sa = a.k == REAL || (A && wa == 1), sb = b.k == REAL || (A && wb == 1);
    int n = A ? c.n : 1;
    // in one dimension arrays of vectors, tensors and numbers are the same
    r.k = A ? REALS : REAL;
    if (op == "/") {
      if (!sb) {
        if (A && wa >= wb) throw Murky();
        throw Bad();
      }
      r = a;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < wa; ++j) {
          if (std::fabs(b.d[st(i)]) < 1e-3) throw Murky();
          r.d[st(i * wa + j)] = a.d[st(i * wa + j)] / b.d[st(i)];
        }
      return r;
    }
    if (sb || sa) {
      r = sb ? a : b;
      auto& s = sb ? b : a;
      auto& o = sb ? a : b;
      int w = sb ? wa : wb;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < w; ++j) r.d[st(i * w + j)] = o.d[st(i * w + j)] * s.d[st(i)];
      return r;
    }
    bool va = a.k == VEC || (A && wa == D), vb = b.k == VEC || (A && wb == D);
    bool ta = a.k == TEN || (A && wa == D * D && D > 1), tb = b.k == TEN || (A && wb == D * D && D > 1);
    if (va && vb) {
      for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < D; ++j) s += a.d[st(i * D + j)] * b.d[st(i * D + j)];
        r.d.push_back(s);
      }
      return r;
    }
    if (ta && vb) {
      r.k = A ? REALS : VEC;
      r.nc = D;
      for (int i = 0; i < n; ++i)
        for (int k = 0; k < D; ++k) {
          double s = 0;
          for (int j = 0; j < D; ++j) s += a.d[st(i * D * D + k * D + j)] * b.d[st(i * D + j)];
          r.d.push_back(s);
        }
      return r;
    }
    if (ta && tb) {
      r.k = A ? REALS : TEN;
      r.nc = D * D;
      for (int i = 0; i < n; ++i)
        for (int k = 0; k < D; ++k)
          for (int l = 0; l < D; ++l) {
            double s = 0;
            for (int j = 0; j < D; ++j) s += a.d[st(i * D * D + k * D + j)] * b.d[st(i * D * D + j * D + l)];
            r.d.push_back(s);
          }
      return r;
    }
    throw Bad();
  }
  if (op == "^") {
    if (a.k != b.k || (a.k == REALS && a.nc != b.nc)) throw Bad();
    if (a.k == VEC || a.k == TEN) throw Bad();
    if (a.k == REALS && a.nc != 1) throw Murky();
    r = a;
    for (st i = 0; i < a.d.size(); ++i) {
      if (std::fabs(b.d[i]) > 6 || std::fabs(a.d[i]) < 1e-2) throw Murky();
      r.d[i] = std::pow(a.d[i], b.d[i]);
    }
    return r;
  }
  throw Bad();  // <= and >= are refused
}
Val eval(Ctx& c, NP const& n) {
  Val r;
  if (n->op == "num") r = num(n->x);
  else if (n->op == "var") {
    auto it = c.vars.find(n->name);
    if (it == c.vars.end()) throw Bad();
    r = it->second;
  } else if (n->op == "call") r = call(c, n);
  else if (n->op == "neg") {
    r = eval(c, n->a[0]);
    if (r.k == BOOL || r.k == BYTES) throw Bad();
    for (auto& x : r.d) x = -x;
  } else if (n->op == "?") {
    auto k = eval(c, n->a[0]);
    auto a = eval(c, n->a[1]), b = eval(c, n->a[2]);
    level(c, a, b);
    if (k.k != BOOL && k.k != BYTES) throw Bad();
    if (a.k == BOOL || b.k == BOOL || a.k == BYTES || b.k == BYTES) throw Murky();
    if (k.k == BYTES) a = spread(c, a), b = spread(c, b);
    if (a.k != b.k) throw Murky();  // may look at the chosen side only
    if (a.k == VEC || a.k == TEN) throw Murky();
    if (k.k == BOOL) {
      if (a.k == REALS && a.nc != b.nc) throw Murky();
      r = k.d[0] != 0 ? a : b;
    } else {
      if (a.nc != b.nc) throw Bad();
      r = a;
      for (int i = 0; i < c.n; ++i)
        for (int j = 0; j < a.nc; ++j)
          if (k.d[st(i)] == 0) r.d[st(i * a.nc + j)] = b.d[st(i * a.nc + j)];
    }
  } else {
    auto a = eval(c, n->a[0]), b = eval(c, n->a[1]);
    r = binary(c, n->op, a, b);
  }
  note(c, r);
  return r;
}
// ------------------------------------------------------------------ parser
// tokens are given as a list; the grammar by recursive descent
struct Parser {
  std::vector<std::string> t;
  st at = 0;
  long budget = 20000;
  std::string peek() const { return at < t.size() ? t[at] : ""; }
  bool eat(std::string const& s) {
    if (peek() != s) return false;
    ++at;
    return true;
  }
  void need(std::string const& s) {
    if (!eat(s)) throw Bad();
  }
  static bool is_name(std::string const& s) { return !s.empty() && (std::isalpha(s[0]) || s[0] == '_'); }
  static bool is_num(std::string const& s) { return !s.empty() && std::isdigit(s[0]); }
  std::pair<std::vector<std::pair<std::string, NP>>, NP> program() {
    std::vector<std::pair<std::string, NP>> as;
    for (;;) {
      if (is_name(peek()) && at + 1 < t.size() && t[at + 1] == "=") {
        auto n = t[at];
        at += 2;
        auto e = ternary();
        need(";");
        as.push_back({n, e});
      } else
        break;
    }
    NP e;
    if (at < t.size()) e = ternary();
    if (at != t.size()) throw Bad();
    if (!e) throw Bad();
    return {as, e};
  }
  // a condition or a sum, whichever the rest admits
  NP ternary() {
    if (--budget < 0) throw Murky();
    st save = at;
    try {
      auto k = orr();
      need("?");
      auto a = sum();
      need(":");
      auto b = sum();
      return mk_node("?", {k, a, b});
    } catch (Bad const&) {
    }
    at = save;
    return sum();
  }
  NP orr() {
    auto l = andd();
    while (peek() == "||") {
      ++at;
      l = mk_node("||", {l, andd()});
    }
    return l;
  }
  NP andd() {
    auto l = comp();
    while (peek() == "&&") {
      ++at;
      l = mk_node("&&", {l, comp()});
    }
    return l;
  }
  NP comp() {
    if (--budget < 0) throw Murky();
    st save = at;
    try {
      auto l = sum();
      auto op = peek();
      if (op != ">" && op != "<" && op != ">=" && op != "<=" && op != "==") throw Bad();
      ++at;
      return mk_node(op, {l, sum()});
    } catch (Bad const&) {
    }
    at = save;
    need("(");
    auto e = orr();
    need(")");
    return e;
  }
  NP sum() {
    auto l = product();
    while (peek() == "+" || peek() == "-") {
      auto op = t[at++];
      l = mk_node(op, {l, product()});
    }
    return l;
  }
  NP product() {
    auto l = neg();
    while (peek() == "*" || peek() == "/") {
      auto op = t[at++];
      l = mk_node(op, {l, power()});
    }
    return l;
  }
  NP neg() {
    if (eat("-")) return mk_node("neg", {neg()});
    return power();
  }
  NP power() {
    auto l = scalar();
    if (eat("^")) return mk_node("^", {l, power()});
    return l;
  }
  NP scalar() {
    if (--budget < 0) throw Murky();
    auto s = peek();
    if (is_num(s)) {
      ++at;
      return mk_node("num", {}, "", std::strtod(s.c_str(), nullptr));
    }
    if (eat("(")) {
      auto e = ternary();
      need(")");
      return e;
    }
    if (!is_name(s)) throw Bad();
    ++at;
    if (!eat("(")) return mk_node("var", {}, s);
    std::vector<NP> a;
    if (!eat(")")) {
      a.push_back(ternary());
      while (eat(",")) a.push_back(ternary());
      need(")");
    }
    return mk_node("call", a, s);
  }
};
// --------------------------------------------------------------- generator
enum Ty { S, V, T, B };
struct Gen {
  Src& s;
  int dim;
  std::map<std::string, Ty> names;
  std::vector<std::string> o;
  Gen(Src& s_, int d) : s(s_), dim(d) {}
  void put(std::string const& x) { o.push_back(x); }
  std::string pick_name(Ty t) {
    std::vector<std::string> c;
    for (auto& k : names)
      if (k.second == t) c.push_back(k.first);
    if (c.empty()) return "";
    return c[st(s.below(c.size()))];
  }
  void number(bool small = false) {
    put(s.pick<std::string>(small ? std::vector<std::string>{"2", "1", "3", "0.5", "1.5"} : std::vector<std::string>{"2", "1", "0", "3", "0.5", "1.25", "10", "2.5e-1", "1e1", "4.", "7E+0", "100"}));
  }
  void paren(Ty t, int d) {
    put("(");
    expr(t, d, 0);
    put(")");
  }
  // level: 0 ternary, 1 sum, 2 product, 3 power operand of a product, 4 scalar
  void expr(Ty t, int d, int lvl) {
    if (t == B) return cond(d, lvl);
    if (d <= 0 || lvl == 4) return atom(t, d);
    int k = int(s.below(10));
    if (lvl <= 0 && k == 0) {
      cond(d - 1, 0);
      put("?");
      expr(t, d - 1, 1);
      put(":");
      expr(t, d - 1, 1);
      return;
    }
    if (lvl <= 1 && k < 4) {
      expr(t, d - 1, 1);
      put(s.chance(50) ? "+" : "-");
      expr(t, d - 1, 2);
      return;
    }
    if (lvl <= 2 && k < 7) {
      int q = int(s.below(4));
      if (t == S) {
        if (q == 0 && dim >= 1) {
          expr(V, d - 1, 2);
          put("*");
          expr(V, d - 1, 3);
        } else {
          expr(S, d - 1, 2);
          put(q == 1 ? "/" : "*");
          expr(S, d - 1, 3);
        }
      } else {
        if (q == 0) {
          expr(T, d - 1, 2);
          put("*");
          expr(t, d - 1, 3);
        } else if (q == 1) {
          expr(S, d - 1, 2);
          put("*");
          expr(t, d - 1, 3);
        } else {
          expr(t, d - 1, 2);
          put(q == 2 ? "*" : "/");
          expr(S, d - 1, 3);
        }
      }
      return;
    }
    if (lvl <= 2 && k == 7) {
      put("-");
      expr(t, d - 1, s.chance(30) ? 2 : 3);
      // what follows a minus sign binds tighter than it
      return;
    }
    if (t == S && k == 8) {
      atom(S, d - 1);
      put("^");
      if (s.chance(30)) {
        number(true);
        put("^");
      }
      number(true);
      return;
    }
    atom(t, d);
  }
  void cond(int d, int lvl) {
    (void)lvl;
    int k = d <= 0 ? 0 : int(s.below(6));
    if (k <= 3) {
      expr(S, d - 1, 1);
      put(s.pick<std::string>({">", "<", ">", "<", "=="}));
      expr(S, d - 1, 1);
      return;
    }
    auto op = s.chance(50) ? "||" : "&&";
    auto side = [&] {
      if (s.chance(40)) {
        put("(");
        cond(d - 1, 0);
        put(")");
      } else
        cond(0, 0);
    };
    side();
    put(op);
    side();
  }
  void atom(Ty t, int d) {
    int k = int(s.below(10));
    if (k < 4 || d <= 0) {
      auto n = pick_name(t);
      if (n != "" && (t != S || s.chance(60))) return put(n);
      if (t == S) return number();
    }
    if (k < 6 && d > 0) return paren(t, d - 1);
    if (t == S) {
      int q = int(s.below(8));
      if (q < 5) {
        put(s.pick<std::string>({"exp", "sqrt", "sin", "cos", "erf"}));
        paren(S, d - 1);
        return;
      }
      if (q == 5) {
        put("norm");
        paren(V, d - 1);
        return;
      }
      auto ty = q == 6 ? V : T;
      auto n = pick_name(ty);
      if (n == "") return number();
      put(n);
      put("(");
      put(std::to_string(s.below(u64(dim))));
      if (ty == T) {
        put(",");
        put(std::to_string(s.below(u64(dim))));
      }
      put(")");
      return;
    }
    int cnt = t == V ? (s.chance(70) ? dim : s.range(1, dim)) : dim * dim;
    if (t == T && s.chance(15)) return put("I");
    put(t == V ? "vector" : s.chance(50) ? "matrix" : "tensor");
    put("(");
    for (int i = 0; i < cnt; ++i) {
      if (i) put(",");
      expr(S, std::min(d - 1, 1), 0);
    }
    put(")");
  }
};
std::vector<double> flat(any& a, Ctx& c, int& w) {
  std::vector<double> r;
  auto get = [&](any& x) -> bool {
    if (x.type() == typeid(Real)) return r = {any_cast<Real>(x)}, w = 1, true;
    if (x.type() == typeid(Reals)) return r = hv(any_cast<Reals>(x)), w = 0, true;
    return false;
  };
  if (get(a)) return r;
  auto pull = [&](auto tag) {
    typedef decltype(tag) X;
    if (a.type() != typeid(X)) return false;
    auto v = any_cast<X>(a);
    (void)v;
    return true;
  };
  (void)pull;
#define VEC_CASE(D)                                                      \
  if (c.dim == D && a.type() == typeid(Vector<D>)) {                     \
    auto v = any_cast<Vector<D>>(a);                                     \
    for (int i = 0; i < D; ++i) r.push_back(v[i]);                       \
    w = D;                                                               \
    return r;                                                            \
  }                                                                      \
  if (c.dim == D && a.type() == typeid(Tensor<D>)) {                     \
    auto v = any_cast<Tensor<D>>(a);                                     \
    for (int i = 0; i < D; ++i)                                          \
      for (int j = 0; j < D; ++j) r.push_back(v(i, j));                  \
    w = D * D;                                                           \
    return r;                                                            \
  }
  VEC_CASE(1)
  VEC_CASE(2)
  VEC_CASE(3)
  PFAIL("result of unexpected type");
}
any to_any(Val const& v, int dim) {
  if (v.k == REAL) return any(Real(v.d[0]));
  if (v.k == REALS) return any(mk(v.d));
  if (v.k == BOOL) return any(bool(v.d[0] != 0));
#define TO_CASE(D)                                                       \
  if (dim == D && v.k == VEC) {                                          \
    Vector<D> x;                                                         \
    for (int i = 0; i < D; ++i) x[i] = v.d[st(i)];                       \
    return any(x);                                                       \
  }                                                                      \
  if (dim == D && v.k == TEN) {                                          \
    Tensor<D> x;                                                         \
    for (int i = 0; i < D; ++i)                                          \
      for (int j = 0; j < D; ++j) x(i, j) = v.d[st(i * D + j)];          \
    return any(x);                                                       \
  }
  TO_CASE(1)
  TO_CASE(2)
  TO_CASE(3)
  return any();
}
std::string render(Src& s, std::vector<std::string> const& t) {
  std::string r;
  for (st i = 0; i < t.size(); ++i) {
    if (i) {
      bool glue = (std::isalnum(t[i][0]) || t[i][0] == '_') && (std::isalnum(r.back()) || r.back() == '_' || r.back() == '.');
      // keep neighbouring signs from merging into one token
      std::string pair = std::string(1, r.back()) + t[i][0];
      glue = glue || pair == "==" || pair == ">=" || pair == "<=" || pair == "||" || pair == "&&";
      if (glue || s.chance(25)) r += s.pick<std::string>({" ", "  ", "\t", "\n", " \r\n "});
    }
    r += t[i];
  }
  if (s.chance(20)) r += " ";
  return r;
}
void t_expr(Src& s, Env&) {
  int dim = s.range(1, 3), n = s.pick({1, 3, 2, 5, 17});
  bool mutate = s.chance(45);
  Ctx c;
  c.n = n;
  c.dim = dim;
  Gen g(s, dim);
  int nv = s.range(0, 5);
  auto val = [&] { return s.pick<double>({1, 0.5, -2, 3, 0.25, -0.75, 1.5, 0}); };
  std::vector<std::pair<std::string, Val>> given;
  for (int i = 0; i < nv; ++i) {
    std::string name = s.pick<std::string>({"a", "x", "_t", "Abc", "z9", "e"}) + std::to_string(i);
    Ty t = Ty(s.range(0, 2));
    bool arr = s.chance(50);
    Val v;
    v.k = arr ? REALS : t == S ? REAL : t == V ? VEC : TEN;
    v.nc = t == S ? 1 : t == V ? dim : dim * dim;
    for (int j = 0; j < (arr ? n : 1) * v.nc; ++j) v.d.push_back(val());
    g.names[name] = t;
    c.vars[name] = v;
    given.push_back({name, v});
  }
  c.vars["d"] = num(dim);
  c.vars["pi"] = num(3.14159265358979323846);
  g.names["d"] = S, g.names["pi"] = S;
  Val id;
  id.k = TEN;
  for (int i = 0; i < dim * dim; ++i) id.d.push_back(i % (dim + 1) == 0);
  c.vars["I"] = id;
  g.names["I"] = T;
  int na = s.weighted({5, 3, 2});
  for (int i = 0; i < na; ++i) {
    auto t = Ty(s.range(0, 2));
    auto name = s.chance(75) || g.names.size() < 3 ? "v" + std::to_string(i) : g.pick_name(t);
    if (name == "") name = "w";
    g.put(name);
    g.put("=");
    g.expr(t, s.range(0, 3), 0);
    g.put(";");
    g.names[name] = t;
  }
  g.expr(Ty(s.weighted({3, 2, 2})), s.range(0, 4), 0);
  auto toks = g.o;
  if (mutate) {
    int k = s.range(1, 2);
    std::vector<std::string> pool{"+", "-", "*", "/", "^", "(", ")", ",", "?", ":", ">", "<", "==", "&&", "||", ";", "=", "1", "0", "2.5", "I", "pi", "nope", "sin", "vector", "norm", "symm", "matrix", ">=", "<=", "d"};
    for (auto& x : g.names) pool.push_back(x.first);
    for (int i = 0; i < k && !toks.empty(); ++i) {
      st at = st(s.below(toks.size()));
      switch (s.below(4)) {
        case 0: toks.erase(toks.begin() + long(at)); break;
        case 1: toks.insert(toks.begin() + long(at), s.pick(pool)); break;
        case 2: toks[at] = s.pick(pool); break;
        default: {
          auto b = st(s.below(toks.size()));
          std::swap(toks[at], toks[b]);
        }
      }
    }
    if (toks.empty()) throw Discard();
  }
  if (toks.size() > 300) throw Discard();
  auto text = render(s, toks);
  s.desc(dim, "D, ", n, " points, ", text);
  // expectation
  int want = 0;  // 0 value, 1 refusal
  Val v;
  std::set<std::string> used_vars, used_syms;
  bool syntax = false;
  try {
    Parser p;
    p.t = toks;
    auto pr = p.program();
    syntax = true;
    std::function<void(NP const&)> walk = [&](NP const& q) {
      if (q->op == "var") used_vars.insert(q->name), used_syms.insert(q->name);
      if (q->op == "call") used_syms.insert(q->name);
      for (auto& y : q->a) walk(y);
    };
    for (auto& a : pr.first) walk(a.second);
    walk(pr.second);
    for (auto& a : pr.first) c.vars[a.first] = eval(c, a.second);
    v = eval(c, pr.second);
    if (v.k == BOOL || v.k == BYTES) throw Murky();
  } catch (Bad const&) {
    want = 1;
  } catch (Murky const&) {
    want = 2;
  }
  if (c.close) want = 2;
  s.label(want == 0 ? "value" : want == 1 ? (syntax ? "ill-typed" : "ill-formed") : "unspecified");
  s.nontrivial(want < 2 && toks.size() >= 6);
  if (syntax && want != 1) {
    if (math_lang::get_variables_used(text) != used_vars) PFAIL("wrong set of variables used");
    if (math_lang::get_symbols_used(text) != used_syms) PFAIL("wrong set of symbols used");
  }
  if (want == 2) return;
  for (int how = 0; how < 3; ++how) {
    any res;
    bool threw = false;
    std::string msg;
    try {
      if (how == 0) {
        ExprReader r(n, dim);
        for (auto& x : given) r.register_variable(x.first, to_any(x.second, dim));
        res = r.read_string(text, "test");
      } else {
        ExprOpsReader r;
        ExprEnv env(n, dim);
        for (auto& x : given) env.register_variable(x.first, to_any(x.second, dim));
        auto ops = r.read_ops(text);
        res = ops->eval(env);
        if (how == 2) {  // a compiled program can be run again in another environment
          ExprEnv env2(n, dim);
          for (auto& x : given) env2.register_variable(x.first, to_any(x.second, dim));
          res = ops->eval(env2);
        }
      }
    } catch (std::exception const& e) {
      threw = true;
      msg = e.what();
    }
    auto hn = how == 0 ? "read directly" : how == 1 ? "compiled" : "run twice";
    if (want == 1) {
      if (!threw) PFAIL(hn << ": gives a value, should be refused");
      continue;
    }
    if (threw) PFAIL(hn << ": refused: " << msg);
    int w = 0;
    auto got = flat(res, c, w);
    auto exp = v.d;
    bool ga = res.type() == typeid(Reals), wa = v.k == REALS;
    if (ga && !wa) exp = spread(c, v).d;
    if (!ga && wa) PFAIL(hn << ": result is not an array");
    if (got.size() != exp.size()) PFAIL(hn << ": " << got.size() << " values, should be " << exp.size());
    for (st i = 0; i < got.size(); ++i)
      if (!(std::fabs(got[i] - exp[i]) <= 1e-9 * (1 + c.mag))) PFAIL(hn << ": value " << i << " is " << got[i] << ", should be " << exp[i]);
  }
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"expr", t_expr, 40000, 2000000, {1}, true, "at least 6 tokens, with a value or a refusal required"});
  return run(argc, argv, t);
}
