// C05: tags as a keyed store, caches of derived quantities, copies of meshes
#include <Omega_h_quality.hpp>
#include <Omega_h_shape.hpp>
#include <memory>
#include "pmesh.hpp"
using namespace pbt;

struct Val {
  int type = 0;  // 0 I8 1 I32 2 I64 3 Real
  int w = 1;
  std::vector<I64> v;  // bits
  bool operator==(Val const& o) const { return type == o.type && w == o.w && v == o.v; }
};
static I64 bitsr(Real x) {
  I64 b;
  std::memcpy(&b, &x, 8);
  return b;
}
static Real rbits(I64 b) {
  Real x;
  std::memcpy(&x, &b, 8);
  return x;
}
template <class T> T dec(I64 b) { return T(b); }
template <> Real dec<Real>(I64 b) { return rbits(b); }
template <class T> I64 enc(T x) { return I64(x); }
template <> I64 enc<Real>(Real x) { return bitsr(x); }
template <class T> Read<T> arr_of(std::vector<I64> const& v) {
  std::vector<T> o;
  for (auto b : v) o.push_back(dec<T>(b));
  return mk(o);
}
static std::vector<I64> gen_vals(Src& s, int type, int n) {
  std::vector<I64> v;
  u64 seed = s.below(1000);
  for (int i = 0; i < n; ++i) {
    u64 h = mix64(seed * 7919 + u64(i));
    switch (type) {
      case 0: v.push_back(I64(I8(h))); break;
      case 1: v.push_back(I64(I32(h))); break;
      case 2: v.push_back(I64(h)); break;
      default: v.push_back(bitsr(double(h >> 12) / 1e9)); break;
    }
  }
  return v;
}
static void add(Mesh& m, int d, std::string const& n, Val const& x, bool set) {
  switch (x.type) {
    case 0: set ? m.set_tag(d, n, arr_of<I8>(x.v)) : m.add_tag(d, n, x.w, arr_of<I8>(x.v)); break;
    case 1: set ? m.set_tag(d, n, arr_of<I32>(x.v)) : m.add_tag(d, n, x.w, arr_of<I32>(x.v)); break;
    case 2: set ? m.set_tag(d, n, arr_of<I64>(x.v)) : m.add_tag(d, n, x.w, arr_of<I64>(x.v)); break;
    default: set ? m.set_tag(d, n, arr_of<Real>(x.v)) : m.add_tag(d, n, x.w, arr_of<Real>(x.v)); break;
  }
}
template <class T> static Val get_t(TagBase const* t, int type) {
  Val x;
  x.type = type;
  x.w = t->ncomps();
  for (auto y : hv(as<T>(t)->array())) x.v.push_back(enc<T>(y));
  return x;
}
static Val get(TagBase const* t) {
  switch (t->type()) {
    case OMEGA_H_I8: return get_t<I8>(t, 0);
    case OMEGA_H_I32: return get_t<I32>(t, 1);
    case OMEGA_H_I64: return get_t<I64>(t, 2);
    default: return get_t<Real>(t, 3);
  }
}
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (Fail const&) {
    throw;
  } catch (std::exception const&) {
    return true;
  }
  return false;
}
typedef std::map<std::pair<int, std::string>, Val> Model;
static bool derived(int, std::string const& n) { return n == "size" || n == "length" || n == "quality" || n == "level" || n == "leaf"; }
static void compare(Mesh& m, Model const& mod, int dim) {
  std::set<std::pair<int, std::string>> seen;
  for (int d = 0; d <= dim; ++d)
    for (Int i = 0; i < m.ntags(d); ++i) {
      auto t = m.get_tag(d, i);
      if (!seen.insert({d, t->name()}).second) PFAIL("tag " << t->name() << " listed twice");
      if (derived(d, t->name())) continue;
      auto it = mod.find({d, t->name()});
      if (it == mod.end()) PFAIL("unexpected tag " << t->name() << " on dimension " << d);
      if (!(get(t) == it->second)) PFAIL("tag " << t->name() << " on dimension " << d << " does not hold the last stored data");
    }
  for (auto& kv : mod) {
    if (!seen.count(kv.first)) PFAIL("tag " << kv.first.second << " lost on dimension " << kv.first.first);
    if (!m.has_tag(kv.first.first, kv.first.second)) PFAIL("has_tag");
  }
}
static void history(Src& s, Env& e) {
  int dim = s.range(1, 3);
  RawOpt o;
  o.max_cells = dim == 3 ? 2 : 5;
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, o);
  std::vector<Mesh> ms;
  if (e.np == 1) {
    ms.push_back(build_raw(e, r));
  } else {
    Mesh m(e.lib);
    if (e.rank == 0) m = build_raw(e, r);
    m.set_comm(e.comm);
    migrate_to(m, gen_part(s, e.np, r.ne()));
    if (s.below(2)) m.set_parting(OMEGA_H_GHOSTED, 1 + s.range(0, 1));
    ms.push_back(m);
  }
  std::vector<Model> mods(1);
  for (int d = 0; d <= dim; ++d)
    for (Int i = 0; i < ms[0].ntags(d); ++i) mods[0][{d, ms[0].get_tag(d, i)->name()}] = get(ms[0].get_tag(d, i));
  static const std::vector<std::string> names{"a", "b", "metric", "field with space", "coordinates2", "A"};
  int nops = s.range(1, s.thorough ? 60 : 25);
  std::ostringstream log;
  int changed = 0, derived_asked = 0;
  for (int op = 0; op < nops; ++op) {
    int k = s.range(0, int(ms.size()) - 1);
    auto& m = ms[st(k)];
    auto& mod = mods[st(k)];
    int d = s.range(0, dim);
    auto name = s.pick(names);
    auto key = std::make_pair(d, name);
    int n = m.nents(d);
    switch (s.weighted({4, 3, 2, 2, 2, 4, 2, 2, 3, 2, 1})) {
      case 0: {  // add or replace
        Val x;
        x.type = s.range(0, 3);
        x.w = s.range(1, 4);
        if (name == "metric") {
          if (d != 0) break;
          x.type = 3;
          x.w = s.below(2) ? 1 : symm_ncomps(dim);
          Real h = s.pick<Real>({1., 0.25, 2.3});
          auto gl = hv(m.globals(0));
          for (int i = 0; i < n; ++i)
            for (int j = 0; j < x.w; ++j) x.v.push_back(bitsr(j < (x.w == 1 ? 1 : dim) ? 1 / (h * h) * (1 + 0.1 * Real(gl[st(i)] % 3)) : 0.0));
        } else {
          x.v = gen_vals(s, x.type, n * x.w);
        }
        add(m, d, name, x, false);
        mod[key] = x;
        log << "add(" << k << "," << d << "," << name << ") ";
        ++changed;
        break;
      }
      case 1: {  // set existing
        auto it = mod.find(key);
        if (it == mod.end() || name == "metric") break;
        it->second.v = gen_vals(s, it->second.type, n * it->second.w);
        add(m, d, name, it->second, true);
        log << "set(" << k << "," << d << "," << name << ") ";
        ++changed;
        break;
      }
      case 2: {
        if (name == "metric") break;
        m.remove_tag(d, name);
        mod.erase(key);
        PCHECK(!m.has_tag(d, name), "tag remains after removal");
        log << "rm(" << k << "," << d << "," << name << ") ";
        break;
      }
      case 3: {  // copy
        if (ms.size() < 4) {
          if (s.below(2)) {
            Mesh c = m;
            ms.push_back(c);
          } else {
            Mesh c(e.lib);
            assign(c, m);
            ms.push_back(c);
          }
          mods.push_back(Model(mods[st(k)]));
          log << "copy(" << k << ") ";
        } else {
          int t = s.range(0, 3);
          if (t != k) {
            ms[st(t)] = ms[st(k)];
            mods[st(t)] = mods[st(k)];
          }
          log << "assign(" << t << "," << k << ") ";
        }
        break;
      }
      case 4: {  // move the mesh
        auto x = hv(m.coords());
        Real f = s.pick<Real>({1.5, 0.5, 2.});
        int c = s.range(0, dim - 1);
        for (st i = 0; i < x.size(); ++i)
          if (int(i) % dim == c) x[i] *= f;
        Val v;
        v.type = 3;
        v.w = dim;
        for (auto y : x) v.v.push_back(bitsr(y));
        if (s.below(2)) m.set_coords(mk(x));
        else if (s.below(2)) m.set_tag(VERT, "coordinates", mk(x));
        else m.add_tag(VERT, "coordinates", dim, mk(x));
        mod[{0, "coordinates"}] = v;
        log << "coords(" << k << ") ";
        ++changed;
        break;
      }
      case 5: {  // derived quantities
        ++derived_asked;
        auto x = hv(m.coords());
        auto ev = hv(m.ask_elem_verts());
        // any subset of the derived quantities, so that each can be cached alone
        int which = 1 + int(s.below(7));
        std::vector<Real> sz;
        if (which & 1) {
        sz = hv(m.ask_sizes());
        PCHECK(int(sz.size()) == m.nelems(), "sizes length");
        }
        for (int i = 0; (which & 1) &&  i < m.nelems(); ++i) {
          Real want = simplex_measure(dim, x, &ev[st(i * (dim + 1))]);
          PCHECK(std::fabs(sz[st(i)] - want) < 1e-12 * (1 + std::fabs(want)), "size of element " << i << " is " << sz[st(i)] << ", from current coordinates " << want);
        }
        if (mod.count({0, "metric"})) {
          if (which & 2) same(hv(m.ask_qualities()), hv(measure_qualities(&m)), "cached qualities");
          if (which & 4) same(hv(m.ask_lengths()), hv(measure_edges_metric(&m)), "cached lengths");
          // lengths from scratch for an isotropic metric
          auto& mt = mod[{0, "metric"}];
          if ((which & 4) && (mt.w == 1 || dim == 1)) {
            auto len = hv(m.ask_lengths());
            auto e2 = hv(m.ask_verts_of(EDGE));
            for (int i = 0; i < m.nedges(); ++i) {
              Real d2 = 0;
              for (int c = 0; c < dim; ++c) {
                Real q = x[st(e2[st(2 * i)] * dim + c)] - x[st(e2[st(2 * i + 1)] * dim + c)];
                d2 += q * q;
              }
              Real l0 = std::sqrt(d2 * rbits(mt.v[st(e2[st(2 * i)])])), l1 = std::sqrt(d2 * rbits(mt.v[st(e2[st(2 * i + 1)])]));
              PCHECK(len[st(i)] > std::min(l0, l1) * (1 - 1e-9) && len[st(i)] < std::max(l0, l1) * (1 + 1e-9), "edge length " << len[st(i)] << " outside [" << l0 << "," << l1 << "]");
            }
          }
        }
        log << "derived(" << k << ") ";
        break;
      }
      case 6: {  // wrong type
        auto it = mod.find(key);
        if (it == mod.end()) break;
        int t = (it->second.type + 1 + s.range(0, 2)) % 4;
        bool th = throws([&] {
          if (t == 0) m.get_array<I8>(d, name);
          if (t == 1) m.get_array<I32>(d, name);
          if (t == 2) m.get_array<I64>(d, name);
          if (t == 3) m.get_array<Real>(d, name);
        });
        PCHECK(th, "reading a tag with the wrong type was not reported");
        break;
      }
      case 7: {  // missing name, bad dimension, bad index
        if (!mod.count(key)) {
          PCHECK(!m.has_tag(d, name), "has_tag of a missing tag");
          PCHECK(throws([&] { m.get_array<Real>(d, name); }), "reading a missing tag was not reported");
          PCHECK(throws([&] { m.get_tagbase(d, name); }), "get_tagbase of a missing tag was not reported");
        }
        PCHECK(throws([&] { m.get_tag(d, m.ntags(d)); }), "get_tag past the end was not reported");
        PCHECK(throws([&] { m.add_tag(dim + 1, "q", 1, Reals(3, 0.)); }), "tag on a dimension above the mesh's was not reported");
        break;
      }
      case 8: {  // wrong length, empty name
        int w = s.range(1, 3);
        int bad = n * w + s.pick({1, -1, 2, 5, n + 1});
        if (bad >= 0 && bad != n * w) PCHECK(throws([&] { m.add_tag(d, name, w, Reals(bad, 0.)); }), "adding " << bad << " values as a tag of width " << w << " on " << n << " entities was not reported");
        if (mod.count(key) && n > 1) PCHECK(throws([&] { m.set_tag(d, name, Reals(n * w + 1, 0.)); }), "setting a tag with " << n * w + 1 << " values on " << n << " entities was not reported");
        PCHECK(throws([&] { m.add_tag(d, "", 1, Reals(n, 0.)); }), "empty tag name was not reported");
        if (n > 0) PCHECK(throws([&] { m.set_coords(Reals(m.nverts() * dim + s.pick({1, m.nverts()}), 0.)); }), "wrong coordinate length was not reported");
        break;
      }
      case 9: {  // topology queries do not disturb tags
        if (dim > 1) m.ask_star(VERT);
        m.ask_up(VERT, dim);
        if (e.np == 1) m.ask_dual();
        // on one process all kinds of partition are the same mesh
        if (e.np == 1) m.set_parting(s.pick({OMEGA_H_GHOSTED, OMEGA_H_ELEM_BASED, OMEGA_H_VERT_BASED}));
        break;
      }
      default: {  // declare without data, then set
        if (name == "metric" || mod.count(key)) break;
        m.add_tag<I32>(d, name, 2);
        PCHECK(m.has_tag(d, name) && m.get_tagbase(d, name)->ncomps() == 2 && m.get_tagbase(d, name)->type() == OMEGA_H_I32, "declared tag");
        Val x;
        x.type = 1;
        x.w = 2;
        x.v = gen_vals(s, 1, n * 2);
        add(m, d, name, x, true);
        mod[key] = x;
        break;
      }
    }
    for (st i = 0; i < ms.size(); ++i) compare(ms[i], mods[i], dim);
  }
  s.nontrivial(changed >= 2 && nops >= 4);
  s.label(ms.size() > 1 ? "copies" : "single");
  if (derived_asked > 1 && changed) s.label("derived_after_change");
  s.desc(dim, "D ops: ", log.str());
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"history", history, 30000, 800000, {1}, true, "at least four operations, two of them storing data"},
    {"history_parallel", history, 2000, 50000, {2, 3}, true, "at least four operations, two of them storing data"},
  });
}
