// C36: containers, storage and paths against their standard counterparts
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <Omega_h_any.hpp>
#include <Omega_h_filesystem.hpp>
#include <Omega_h_pool.hpp>
#include <Omega_h_rbtree.hpp>
#include <Omega_h_shared_alloc.hpp>
#include <algorithm>
#include <array>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include "arr.hpp"
using namespace pbt;
using namespace Omega_h;
typedef std::size_t st;

// values whose lives are counted
struct Live {
  static long n;
  int k, v;
  Live(int k_ = 0, int v_ = 0) : k(k_), v(v_) { ++n; }
  Live(Live const& o) : k(o.k), v(o.v) { ++n; }
  Live(Live&& o) noexcept : k(o.k), v(o.v) { ++n; }
  Live& operator=(Live const&) = default;
  ~Live() {
    --n;
    k = v = -77777;
  }
};
long Live::n = 0;
struct KeyOf {
  int const& operator()(Live const& x) const { return x.k; }
};
struct Open : Rb_tree<int, Live, KeyOf, std::less<int>> {
  // red-black shape; returns the black height
  int shape(Rb_tree_node_base* x, Rb_tree_node_base* parent, int depth, int& deepest) {
    if (!x) return 1;
    deepest = std::max(deepest, depth);
    if (x->M_parent != parent) PFAIL("wrong parent link");
    if (x->M_color == S_rb_tree_red)
      for (auto c : {x->M_left, x->M_right})
        if (c && c->M_color == S_rb_tree_red) PFAIL("red node with a red child");
    int a = shape(x->M_left, x, depth + 1, deepest), b = shape(x->M_right, x, depth + 1, deepest);
    if (a != b) PFAIL("black heights " << a << " and " << b);
    return a + (x->M_color == S_rb_tree_black);
  }
  void check() {
    auto root = this->M_header->M_parent;
    if (root && root->M_color != S_rb_tree_black) PFAIL("red root");
    int deepest = 0;
    shape(root, this->M_header, 1, deepest);
    int lim = 0;
    while ((st(1) << lim) < this->size() + 1) ++lim;
    if (deepest > 2 * lim) PFAIL("depth " << deepest << " for " << this->size() << " values");
  }
};
typedef std::map<int, int> Model;
static void same_tree(Open& t, Model const& m) {
  if (t.size() != m.size() || t.empty() != m.empty()) PFAIL("size " << t.size() << " expected " << m.size());
  auto i = t.begin();
  for (auto& p : m) {
    if (i == t.end()) PFAIL("values end early");
    if (i->k != p.first || i->v != p.second) PFAIL("value " << i->k << ":" << i->v << " expected " << p.first << ":" << p.second);
    ++i;
  }
  if (i != t.end()) PFAIL("too many values");
  for (auto p = m.rbegin(); p != m.rend(); ++p) {
    --i;
    if (i->k != p->first) PFAIL("backwards: value " << i->k << " expected " << p->first);
  }
  Open const& c = t;
  auto j = c.begin();
  for (auto& p : m) {
    if (j->k != p.first) PFAIL("constant iteration");
    j++;
  }
  t.check();
}
void t_rbtree(Src& s, Env&) {
  long base = Live::n;
  {
    int range = s.pick({8, 40, 300});
    std::array<Open, 2> t;
    std::array<Model, 2> m;
    int nops = s.range(1, s.chance(10) ? 300 : 50), erased = 0, inserted = 0;
    for (int o = 0; o < nops; ++o) {
      st w = s.chance(85) ? 0 : 1;
      int k = s.range(0, range);
      auto& T = t[w];
      auto& M = m[w];
      switch (s.weighted({6, 3, 5, 2, 1, 1, 1, 1, 1, 2, 1, 1})) {
        case 0: {
          Live v(k, o);
          auto r = s.chance(50) ? T.insert(v) : T.insert(Live(k, o));
          auto q = M.insert({k, o});
          if (r.second != q.second || r.first->k != k || r.first->v != q.first->second) PFAIL("insert " << k << " gave " << r.second);
          inserted += r.second;
          break;
        }
        case 1: {  // with a hint
          auto h = s.pick({0, 1, 2});
          auto pos = h == 0 ? T.begin() : h == 1 ? T.end() : T.lower_bound(k + s.range(-2, 2));
          auto r = s.chance(50) ? T.insert(pos, Live(k, o)) : [&]() {
            Live v(k, o);
            return T.insert(pos, v);
          }();
          auto q = M.insert({k, o});
          if (r->k != k || r->v != q.first->second) PFAIL("insert at a hint gave " << r->k);
          break;
        }
        case 2: {
          if (!M.empty() && s.chance(70)) {
            auto q = M.begin();
            std::advance(q, s.range(0, int(M.size()) - 1));
            k = q->first;
          }
          auto a = T.erase(k);
          auto b = M.erase(k);
          if (a != b) PFAIL("erase " << k << " gave " << a);
          erased += int(b);
          break;
        }
        case 3: {
          if (M.empty()) break;
          int p = s.range(0, int(M.size()) - 1);
          auto i = T.begin();
          for (int x = 0; x < p; ++x) ++i;
          auto q = M.begin();
          std::advance(q, p);
          auto nx = i;
          ++nx;
          T.erase(i);
          q = M.erase(q);
          if ((nx == T.end()) != (q == M.end()) || (q != M.end() && nx->k != q->first)) PFAIL("iterator after the erased one");
          ++erased;
          break;
        }
        case 4: {
          int a = s.range(0, int(M.size())), b = s.range(a, int(M.size()));
          auto i = T.begin(), j = T.begin();
          auto p = M.begin(), q = M.begin();
          for (int x = 0; x < a; ++x) ++i;
          for (int x = 0; x < b; ++x) ++j;
          std::advance(p, a);
          std::advance(q, b);
          T.erase(i, j);
          M.erase(p, q);
          break;
        }
        case 5:
          t[w] = t[s.chance(70) ? 1 - w : w];
          if (false) break;
          m[w] = Model();
          for (auto i = t[w].begin(); i != t[w].end(); ++i) m[w].insert({i->k, i->v});
          if (s.chance(100)) same_tree(t[w], m[w]);
          break;
        case 6: {
          Open c(T);
          same_tree(c, M);
          if (!M.empty()) {
            c.erase(M.begin()->first);
            same_tree(T, M);
          }
          break;
        }
        case 7:
          t[0].swap(t[1]);
          m[0].swap(m[1]);
          break;
        case 8:
          if (s.chance(30)) {
            T.clear();
            M.clear();
          }
          break;
        case 9: {
          Open const& C = T;
          auto lb = M.lower_bound(k), ub = M.upper_bound(k);
          auto eq = [&](Open::iterator a, Model::iterator b) { return (a == T.end()) == (b == M.end()) && (b == M.end() || a->k == b->first); };
          if (!eq(T.lower_bound(k), lb) || !eq(T.upper_bound(k), ub) || !eq(T.find(k), M.find(k)) || !eq(T.equal_range(k).first, lb) || !eq(T.equal_range(k).second, ub)) PFAIL("look-up of " << k);
          if (T.count(k) != M.count(k)) PFAIL("count of " << k);
          auto f = C.find(k);
          if ((f == C.end()) != (M.find(k) == M.end()) || (f != C.end() && f->k != k)) PFAIL("constant find " << k);
          auto cl = C.lower_bound(k), cu = C.upper_bound(k);
          if ((cl == C.end()) != (lb == M.end()) || (lb != M.end() && cl->k != lb->first) || (cu == C.end()) != (ub == M.end()) || (ub != M.end() && cu->k != ub->first)) PFAIL("constant bounds of " << k);
          break;
        }
        case 10: {
          std::vector<Live> v;
          int n = s.range(0, 6);
          for (int i = 0; i < n; ++i) v.emplace_back(s.range(0, range), 1000 + i);
          T.insert(v.begin(), v.end());
          for (auto& x : v) M.insert({x.k, x.v});
          break;
        }
        default: {
          std::vector<int> ks;
          int n = s.range(0, 4);
          for (int i = 0; i < n; ++i) ks.push_back(s.range(0, range));
          T.erase(ks.data(), ks.data() + ks.size());
          for (int x : ks) M.erase(x);
          break;
        }
      }
      if (nops < 60 || o % 8 == 0 || o + 1 == nops)
        for (st x : {0, 1}) same_tree(t[x], m[x]);
      if (Live::n - base != long(m[0].size() + m[1].size())) PFAIL((Live::n - base) << " values alive for " << m[0].size() + m[1].size() << " in the trees");
    }
    s.nontrivial(erased >= 2 && inserted >= 3);
    s.desc(nops, " operations, ", inserted, " inserted, ", erased, " erased, ", t[0].size(), " left");
  }
  if (Live::n != base) PFAIL((Live::n - base) << " values were not destroyed");
}

struct Big : Live {
  double pad[4];
  explicit Big(int k_) : Live(k_) { pad[3] = k_; }
};
struct Bomb : Live {  // cannot be moved without throwing
  Bomb(int k_) : Live(k_) {}
  Bomb(Bomb const& o) : Live(o.k) {}
};
struct MVal {
  int type = -1;  // -1 empty, 0 int, 1 string, 2 Big, 3 Live, 4 shared_ptr, 5 Bomb, 6 double
  int i = 0;
};
static any make_any(MVal v, std::shared_ptr<int> const& sp) {
  switch (v.type) {
    case 0: return any(v.i);
    case 1: return any(std::string(st(v.i % 40), char('a' + v.i % 26)));
    case 2: return any(Big(v.i));
    case 3: return any(Live(v.i));
    case 4: return any(sp);
    case 5: return any(Bomb(v.i));
    case 6: return any(v.i / 2.);
    default: return any();
  }
}
static void check_any(any const& a, MVal v, std::shared_ptr<int> const& sp) {
  if (a.empty() != (v.type < 0)) PFAIL("empty: " << a.empty());
  std::type_info const* want[] = {&typeid(void), &typeid(int), &typeid(std::string), &typeid(Big), &typeid(Live), &typeid(std::shared_ptr<int>), &typeid(Bomb), &typeid(double)};
  if (a.type() != *want[v.type + 1]) PFAIL("type " << a.type().name());
  auto p0 = any_cast<int>(&a);
  auto p1 = any_cast<std::string>(&a);
  auto p2 = any_cast<Big>(&a);
  auto p3 = any_cast<Live>(&a);
  auto p4 = any_cast<std::shared_ptr<int>>(&a);
  auto p5 = any_cast<Bomb>(&a);
  auto p6 = any_cast<double>(&a);
  if (!p0 != (v.type != 0) || !p1 != (v.type != 1) || !p2 != (v.type != 2) || !p3 != (v.type != 3) || !p4 != (v.type != 4) || !p5 != (v.type != 5) || !p6 != (v.type != 6)) PFAIL("casts give pointers of the wrong type");
  bool ok = true;
  if (p0) ok = *p0 == v.i && any_cast<int>(a) == v.i;
  if (p1) ok = *p1 == std::string(st(v.i % 40), char('a' + v.i % 26));
  if (p2) ok = p2->k == v.i && p2->pad[3] == v.i;
  if (p3) ok = p3->k == v.i && any_cast<Live const&>(a).k == v.i;
  if (p4) ok = *p4 == sp;
  if (p5) ok = p5->k == v.i;
  if (p6) ok = *p6 == v.i / 2.;
  if (!ok) PFAIL("held value changed (type " << v.type << ")");
  try {
    if (v.type == 0)
      (void)any_cast<std::string>(a);
    else
      (void)any_cast<int>(a);
    PFAIL("a cast to another type did not throw");
  } catch (bad_any_cast const&) {
  }
}
void t_any(Src& s, Env&) {
  long base = Live::n;
  auto sp = std::make_shared<int>(5);
  int moved = 0;
  {
    std::vector<any> a(3);
    std::vector<MVal> m(3);
    std::vector<bool> unspecified(3, false);
    int nops = s.range(1, 30);
    for (int o = 0; o < nops; ++o) {
      st x = st(s.range(0, 2)), y = st(s.range(0, 2));
      MVal v;
      v.type = s.range(-1, 6);
      v.i = s.range(0, 99);
      switch (s.range(0, 7)) {
        case 0:
        case 1:
          a[x] = make_any(v, sp);
          m[x] = v;
          break;
        case 2:
          a[x] = a[y];
          m[x] = m[y];
          break;
        case 3:
          if (x == y) break;
          a[x] = std::move(a[y]);
          m[x] = m[y];
          a[y].clear();
          m[y] = MVal();
          ++moved;
          break;
        case 4:
          a[x].swap(a[y]);
          std::swap(m[x], m[y]);
          ++moved;
          break;
        case 5: {
          any c(a[x]);
          check_any(c, m[x], sp);
          any d(std::move(c));
          check_any(d, m[x], sp);
          ++moved;
          break;
        }
        case 6:
          if (v.type == 3) {
            Live l(v.i);
            a[x] = l;
          } else if (v.type == 0) {
            a[x] = v.i;
          } else if (v.type == 1) {
            std::string q(st(v.i % 40), char('a' + v.i % 26));
            a[x] = std::move(q);
          } else
            break;
          m[x] = v;
          break;
        default:
          if (m[x].type == 3 && s.chance(50)) {
            any_cast<Live&>(a[x]).k = v.i;
            m[x].i = v.i;
          } else if (m[x].type == 1) {
            auto q = any_cast<std::string>(any(a[x]));
            if (q.size() != st(m[x].i % 40)) PFAIL("string taken out of a temporary");
          } else {
            a[x].clear();
            m[x] = MVal();
          }
          break;
      }
      long alive = 0, shared = 1;
      for (st i = 0; i < 3; ++i) {
        check_any(a[i], m[i], sp);
        alive += m[i].type == 2 || m[i].type == 3 || m[i].type == 5;
        shared += m[i].type == 4;
      }
      if (Live::n - base != alive) PFAIL((Live::n - base) << " objects alive, " << alive << " are held");
      if (sp.use_count() != shared) PFAIL("shared pointer used " << sp.use_count() << " times, expected " << shared);
    }
    s.desc(nops, " operations, ", moved, " moves");
    s.nontrivial(nops >= 4);
  }
  if (Live::n != base) PFAIL((Live::n - base) << " objects were not destroyed");
  if (sp.use_count() != 1) PFAIL("shared pointer not released");
}

void t_pool(Src& s, Env&) {
  std::map<void*, st> out;  // blocks obtained below the pool
  long frees = 0, fails = 0;
  bool wrong = false;
  int fail_at = s.chance(30) ? s.range(1, 12) : -1, calls = 0;
  {
    Pool p(
        [&](st n) -> void* {
          if (++calls == fail_at) {
            ++fails;
            return nullptr;
          }
          void* x = std::malloc(n);
          out[x] = n;
          return x;
        },
        [&](void* x, st n) {
          auto it = out.find(x);
          if (it == out.end() || it->second != n) {
            wrong = true;
            return;
          }
          out.erase(it);
          ++frees;
          std::free(x);
        });
    struct B {
      void* p;
      st n;
      unsigned char c;
    };
    std::vector<B> live;
    int nops = s.range(1, 60), nalloc = 0;
    for (int o = 0; o < nops; ++o) {
      if (live.empty() || s.chance(60)) {
        st n = s.pick<st>({0, 1, 2, 3, 7, 8, 9, 64, 65, 100, 127, 128, 129, 1000, 4096});
        auto before = out;
        void* q;
        q = allocate(p, n);
        if (!q) PFAIL("null block");
        auto it = out.find(q);
        if (it == out.end()) PFAIL("block does not come from below");
        if (it->second < n) PFAIL("block of " << it->second << " bytes for " << n);
        for (auto& b : live)
          if (b.p == q) PFAIL("a block in use was handed out again");
        // a suitable free block is reused
        if (it->second >= 2 * std::max<st>(n, 1) && it->second > 1) PFAIL("block of " << it->second << " bytes wasted on " << n);
        std::memset(q, 0x40 + (o & 31), n);
        live.push_back({q, n, (unsigned char)(0x40 + (o & 31))});
        ++nalloc;
      } else {
        st i = st(s.range(0, int(live.size()) - 1));
        auto b = live[i];
        for (st k = 0; k < b.n; ++k)
          if (((unsigned char*)b.p)[k] != b.c) PFAIL("contents of a block changed");
        deallocate(p, b.p, b.n);
        live.erase(live.begin() + long(i));
        if (s.chance(30)) {  // the same size again needs no new memory
          int c = calls;
          void* q = allocate(p, b.n);
          if (calls != c) PFAIL("a returned block of " << b.n << " bytes was not reused");
          std::memset(q, b.c, b.n);
          live.push_back({q, b.n, b.c});
        }
      }
      st nu = 0;
      for (auto& l : p.used_blocks) nu += l.size();
      if (nu != live.size()) PFAIL(nu << " blocks in use, expected " << live.size());
      if (wrong) PFAIL("memory given back below wrongly");
      for (auto& b : live)
        if (!out.count(b.p)) PFAIL("memory in use was given back below");
    }
    s.desc(nops, " operations, ", nalloc, " allocations, ", fails, " failures below");
    s.nontrivial(nalloc >= 3 && nops > nalloc);
  }
  if (wrong) PFAIL("memory given back below wrongly");
  if (!out.empty()) PFAIL(out.size() << " blocks leaked");
}

// arrays share storage; allocations are tracked
void t_shared(Src& s, Env&) {
  bool track = s.chance(70);
  if (track) start_tracking_allocations();
  struct Off {
    bool on;
    ~Off() {
      if (on && global_allocs) {
        delete global_allocs;
        global_allocs = nullptr;
      }
    }
  } off{track};
  int nops = s.range(1, 40), biggest = 0;
  {
    std::vector<Read<I32>> a(4);
    std::vector<std::shared_ptr<std::vector<I32>>> m(4);
    std::set<std::string> names;
    st high = 0;
    int seq = 0;
    auto total = [&]() {
      std::set<std::vector<I32>*> u;
      st t = 0;
      for (auto& p : m)
        if (p && u.insert(p.get()).second) t += p->size() * 4;
      return t;
    };
    for (int o = 0; o < nops; ++o) {
      st x = st(s.range(0, 3)), y = st(s.range(0, 3));
      switch (s.range(0, 5)) {
        case 0:
        case 1: {
          int n = s.range(0, 9);
          auto v = std::make_shared<std::vector<I32>>();
          for (int i = 0; i < n; ++i) v->push_back(100 * seq + i);
          ++seq;
          Write<I32> w(n, "array " + std::to_string(seq));
          high = std::max(high, total() + st(n) * 4);
          for (int i = 0; i < n; ++i) w[i] = (*v)[st(i)];
          a[x] = Read<I32>(w);
          m[x] = v;
          break;
        }
        case 2:
          a[x] = a[y];
          m[x] = m[y];
          break;
        case 3:
          if (x != y) {
            a[x] = std::move(a[y]);
            m[x] = m[y];
            a[y] = Read<I32>();
            m[y].reset();
          } else {
            auto& self = a[x];
            a[x] = self;
          }
          break;
        case 4:
          a[x] = Read<I32>();
          m[x].reset();
          break;
        default: {
          Read<I32> c(a[y]);
          Read<I32> d(std::move(c));
          a[x] = d;
          m[x] = m[y];
          break;
        }
      }
      for (st i = 0; i < 4; ++i) {
        if (a[i].exists() != bool(m[i])) PFAIL("array exists: " << a[i].exists());
        if (!m[i]) continue;
        if (a[i].size() != LO(m[i]->size())) PFAIL("array of " << a[i].size() << " expected " << m[i]->size());
        for (LO j = 0; j < a[i].size(); ++j)
          if (a[i][j] != (*m[i])[st(j)]) PFAIL("array contents changed");
        for (st k = 0; k < 4; ++k)
          if (m[k] && !m[i]->empty() && (a[i].data() == a[k].data()) != (m[i] == m[k])) PFAIL("storage shared wrongly");
        biggest = std::max(biggest, int(m[i].use_count()));
      }
      if (track) {
        if (global_allocs->total_bytes != total()) PFAIL(global_allocs->total_bytes << " bytes are counted, " << total() << " in use");
        std::set<std::vector<I32>*> u;
        for (auto& p : m)
          if (p) u.insert(p.get());
        std::multiset<st> sizes, got, back;
        for (auto p : u) sizes.insert(p->size() * 4);
        int guard = 0;
        for (auto p = global_allocs->first; p && guard < 1000; p = p->next, ++guard) got.insert(p->size);
        for (auto p = global_allocs->last; p && guard < 2000; p = p->prev, ++guard) back.insert(p->size);
        if (got != sizes || back != sizes) PFAIL("the list of allocations has " << got.size() << " entries (" << back.size() << " backwards), expected " << sizes.size());
        if (global_allocs->high_water_bytes != high) PFAIL("high water mark " << global_allocs->high_water_bytes << " expected " << high);
        st rec = 0;
        for (auto& r : global_allocs->high_water_records) rec += r.bytes;
        if (rec != high) PFAIL("the records at the high water mark sum to " << rec << " expected " << high);
      }
    }
    a.clear();
    m.clear();
    if (track && (global_allocs->total_bytes != 0 || global_allocs->first || global_allocs->last)) PFAIL("allocations are left over");
  }
  s.desc(nops, " operations, shared by up to ", biggest, track ? ", tracked" : "");
  s.nontrivial(nops >= 4);
}

static std::string name(Src& s) {
  return s.pick<std::string>({"a", "b.txt", "dir", ".hidden", "x.tar.gz", "mesh.osh", "c d", "e.", "..f"});
}
void t_path(Src& s, Env&) {
  int n = s.range(1, 4);
  bool absolute = s.chance(30);
  std::vector<std::string> parts;
  for (int i = 0; i < n; ++i) parts.push_back(name(s));
  filesystem::path p(absolute ? "/" + parts[0] : parts[0]);
  std::string want = p.string();
  for (int i = 1; i < n; ++i) {
    want += "/" + parts[st(i)];
    switch (s.range(0, 3)) {
      case 0: p /= parts[st(i)]; break;
      case 1: p /= parts[st(i)].c_str(); break;
      case 2: p /= filesystem::path(parts[st(i)]); break;
      default: p = p / filesystem::path(parts[st(i)]); break;
    }
  }
  s.desc(want);
  s.nontrivial(n > 1 || parts[0].find('.') != std::string::npos);
  if (p.string() != want || p.native() != want || want != p.c_str()) PFAIL("joined to " << p.string() << " expected " << want);
  auto last = parts.back();
  if (p.filename().string() != last) PFAIL("file name " << p.filename().string());
  auto dot = last.rfind('.');
  bool ext = dot != std::string::npos && dot != 0;
  if (p.extension().string() != (ext ? last.substr(dot) : "")) PFAIL("extension " << p.extension().string());
  if (p.stem().string() != (ext ? last.substr(0, dot) : last)) PFAIL("stem " << p.stem().string());
  std::string up = absolute ? "/" : "";
  for (int i = 0; i + 1 < n; ++i) up += (i ? "/" : "") + parts[st(i)];
  if (p.parent_path().string() != up) PFAIL("parent " << p.parent_path().string() << " expected " << up);
  if ((p.parent_path() / p.filename()).string() != want) PFAIL("parent and file name join to " << (p.parent_path() / p.filename()).string());
  auto q = p;
  q += ".x";
  q += 'y';
  q += std::string("z");
  if (q.string() != want + ".xyz") PFAIL("appended: " << q.string());
}

// directory trees, in a scratch directory and never through a link that leaves it
struct Tree {
  std::map<std::string, char> k;  // f file, d directory, l link to the outside directory, x dangling link, p fifo
};
void t_files(Src& s, Env& e) {
  std::string root = e.scratch + "/c36", out = root + "/outside", in = root + "/in";
  auto wipe = [&]() {
    std::string c = "rm -rf '" + root + "'";
    if (std::system(c.c_str())) PFAIL("clean up");
  };
  wipe();
  ::mkdir(root.c_str(), 0777);
  ::mkdir(out.c_str(), 0777);
  std::ofstream(out + "/precious") << "data";
  if (!filesystem::create_directory(in) || filesystem::create_directory(in)) PFAIL("create_directory reports wrongly");
  Tree t;
  std::vector<std::string> dirs{""};
  int n = s.range(0, 9), links = 0;
  for (int i = 0; i < n; ++i) {
    auto d = s.pick(dirs);
    auto f = d + "/" + name(s) + std::to_string(i);
    char c = "fdlxp"[s.weighted({4, 4, 2, 1, 1})];
    auto full = in + f;
    if (c == 'f') std::ofstream(full) << "x";
    if (c == 'd') {
      if (!filesystem::create_directory(full)) PFAIL("directory not created");
      dirs.push_back(f);
    }
    if (c == 'l' && ::symlink("../../outside" + 0, full.c_str())) PFAIL("symlink");
    if (c == 'l') {
      ::unlink(full.c_str());
      if (::symlink(out.c_str(), full.c_str())) PFAIL("symlink");
      ++links;
    }
    if (c == 'x' && ::symlink("nothing", full.c_str())) PFAIL("symlink");
    if (c == 'p' && ::mkfifo(full.c_str(), 0666)) PFAIL("mkfifo");
    t.k[f] = c;
  }
  s.desc(n, " entries, ", links, " links to directories");
  s.nontrivial(n >= 3);
  // listing
  for (auto& d : dirs) {
    std::map<std::string, char> got;
    filesystem::directory_iterator end;
    filesystem::directory_iterator it0(in + d);
    filesystem::directory_iterator it(std::move(it0));
    for (; it != end; ++it) {
      auto p = it->path();
      char c = it->is_symlink() ? 'l' : it->is_regular_file() ? 'f' : it->is_directory() ? 'd' : 'p';
      if (!got.insert({d + "/" + p.filename().string(), c}).second) PFAIL("entry listed twice");
    }
    std::map<std::string, char> want;
    for (auto& x : t.k)
      if (x.first.size() > d.size() && x.first.compare(0, d.size() + 1, d + "/") == 0 && x.first.find('/', d.size() + 1) == std::string::npos) want.insert({x.first, x.second == 'x' ? 'l' : x.second});
    if (got != want) PFAIL("directory " << d << " lists " << got.size() << " entries, expected " << want.size() << (got.size() == want.size() ? " (kinds differ)" : ""));
  }
  for (auto& x : t.k) {
    if (x.second == 'x') continue;
    auto ty = filesystem::status(in + x.first).type();
    auto want = x.second == 'f' ? filesystem::file_type::regular : x.second == 'p' ? filesystem::file_type::fifo : filesystem::file_type::directory;
    if (ty != want) PFAIL("type of " << x.first << " is " << int(ty));
    if (!filesystem::exists(in + x.first)) PFAIL("exists");
  }
  if (filesystem::status("/dev/null").type() != filesystem::file_type::character) PFAIL("type of a device");
  if (filesystem::exists(in + "/none")) PFAIL("exists");
  auto count = filesystem::remove_all(in);
  if (count != st(n) + 1) PFAIL("remove_all counts " << count << " expected " << n + 1);
  if (filesystem::exists(in)) PFAIL("directory still there");
  if (!filesystem::exists(out + "/precious")) PFAIL("remove_all deleted files outside the directory");
  wipe();
}
int main(int argc, char** argv) {
  std::vector<Test> t;
  t.push_back({"rbtree", t_rbtree, 40000, 1500000, {1}, true, "at least 3 insertions and 2 erasures"});
  t.push_back({"any", t_any, 40000, 1500000, {1}, true, "at least 4 operations"});
  t.push_back({"pool", t_pool, 20000, 600000, {1}, true, "at least 3 allocations and a deallocation"});
  t.push_back({"shared", t_shared, 20000, 600000, {1}, true, "at least 4 operations"});
  t.push_back({"path", t_path, 10000, 200000, {1}, true, "several parts or a dot in the name"});
  t.push_back({"files", t_files, 300, 5000, {1}, true, "at least 3 entries"});
  return run(argc, argv, t);
}
