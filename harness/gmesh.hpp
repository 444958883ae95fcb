// a distributed mesh gathered into one explicit global description, and the
// consistency conditions every distributed mesh must satisfy
#ifndef GMESH_HPP
#define GMESH_HPP
#include <Omega_h_file.hpp>
#include "mesh.hpp"
namespace pbt {
struct TagCol {
  std::string name;
  int type = 0;
  int ncomps = 0;
  int offset = 0;
};
struct GEnt {
  GO g = -1;            // global number
  int holder = -1;      // rank holding this copy
  LO local = -1;        // its local index there
  I32 orank = -1;       // recorded owner
  LO oidx = -1;
  std::vector<GO> vg;   // global numbers of its vertices, in order
  std::vector<I64> pay; // tag values
  bool owned() const { return orank == holder && oidx == local; }
};
struct GMesh {
  Omega_h_Family fam = OMEGA_H_SIMPLEX;
  int dim = 0;
  std::vector<TagCol> tags[4];
  std::vector<GEnt> copies[4];           // every copy on every rank
  std::map<GO, GEnt> ents[4];            // the owned copies by global number
  std::vector<std::vector<LO>> counts;   // [rank][dim] local counts
  TagCol const* tag(int d, std::string const& n) const {
    for (auto& t : tags[d])
      if (t.name == n) return &t;
    return nullptr;
  }
};
inline I64 bits_of(Real x) {
  I64 v;
  std::memcpy(&v, &x, 8);
  return v;
}
inline Real real_of(I64 v) {
  Real x;
  std::memcpy(&x, &v, 8);
  return x;
}
template <class T>
void put_vals(std::vector<I64>& o, Read<T> const& a, LO i, int w) {
  for (int j = 0; j < w; ++j) o.push_back(I64(a[i * w + j]));
}
template <>
inline void put_vals<Real>(std::vector<I64>& o, Read<Real> const& a, LO i, int w) {
  for (int j = 0; j < w; ++j) o.push_back(bits_of(a[i * w + j]));
}
// gather; collective over the mesh's communicator, which must be e.comm
inline GMesh gather(Env& e, Mesh& m, bool with_tags = true) {
  GMesh g;
  g.fam = m.family();
  g.dim = m.dim();
  std::vector<I64> mine;
  // ranks below are those of the mesh's communicator, a permutation of e.comm
  mine.push_back(m.comm()->size() == e.np ? m.comm()->rank() : e.rank);
  std::vector<std::string> meta;
  for (int d = 0; d <= g.dim; ++d) {
    int off = 0;
    std::vector<TagBase const*> tb;
    std::vector<TagBase const*> all;
    for (Int i = 0; i < m.ntags(d); ++i) all.push_back(m.get_tag(d, i));
    std::sort(all.begin(), all.end(), [](TagBase const* a, TagBase const* b) { return a->name() < b->name(); });
    for (auto t : all) {
      if (t->name() == "global") continue;
      if (!with_tags) continue;
      TagCol c;
      c.name = t->name();
      c.type = int(t->type());
      c.ncomps = t->ncomps();
      c.offset = off;
      off += c.ncomps;
      g.tags[d].push_back(c);
      tb.push_back(t);
      meta.push_back(std::to_string(d) + ":" + c.name + ":" + std::to_string(c.type) + ":" + std::to_string(c.ncomps));
    }
    auto gl = m.globals(d);
    auto ow = m.ask_owners(d);
    auto vg = m.globals(0);
    LO n = m.nents(d);
    if (gl.size() != n || ow.ranks.size() != n || ow.idxs.size() != n)
      PFAIL("dimension " << d << ": " << n << " entities, " << gl.size() << " globals, " << ow.ranks.size() << " owners");
    int w = nverts_of(g.fam, d);
    LOs ev;
    if (d > 0) {
      ev = m.ask_verts_of(d);
      if (ev.size() != n * w) PFAIL("dimension " << d << " vertex list size");
    }
    mine.push_back(n);
    mine.push_back(off);
    for (LO i = 0; i < n; ++i) {
      mine.push_back(gl[i]);
      mine.push_back(ow.ranks[i]);
      mine.push_back(ow.idxs[i]);
      for (int j = 0; j < w; ++j) mine.push_back(d == 0 ? gl[i] : vg[ev[i * w + j]]);
      for (auto t : tb) switch (t->type()) {
          case OMEGA_H_I8: put_vals(mine, as<I8>(t)->array(), i, t->ncomps()); break;
          case OMEGA_H_I32: put_vals(mine, as<I32>(t)->array(), i, t->ncomps()); break;
          case OMEGA_H_I64: put_vals(mine, as<I64>(t)->array(), i, t->ncomps()); break;
          case OMEGA_H_F64: put_vals(mine, as<Real>(t)->array(), i, t->ncomps()); break;
        }
    }
  }
  // the set of tags must be the same everywhere
  {
    std::vector<I64> h;
    for (auto& x : meta) h.push_back(I64(hash_str(x) >> 1));
    std::vector<int> c;
    auto all = allgather(e, h, &c);
    std::sort(h.begin(), h.end());
    st at = 0;
    for (int r = 0; r < e.np; ++r) {
      std::vector<I64> o(all.begin() + long(at), all.begin() + long(at) + c[st(r)]);
      at += st(c[st(r)]);
      std::sort(o.begin(), o.end());
      if (o != h) PFAIL("ranks " << e.rank << " and " << r << " hold different sets of tags");
    }
  }
  std::vector<int> c;
  auto all = allgather(e, mine, &c);
  st at = 0;
  g.counts.assign(st(e.np), std::vector<LO>(4, 0));
  for (int wr = 0; wr < e.np; ++wr) {
    int r = int(all[at++]);
    for (int d = 0; d <= g.dim; ++d) {
      LO n = LO(all[at++]);
      int off = int(all[at++]);
      int w = nverts_of(g.fam, d);
      g.counts[st(r)][st(d)] = n;
      for (LO i = 0; i < n; ++i) {
        GEnt x;
        x.holder = r;
        x.local = i;
        x.g = all[at++];
        x.orank = I32(all[at++]);
        x.oidx = LO(all[at++]);
        for (int j = 0; j < w; ++j) x.vg.push_back(all[at++]);
        for (int j = 0; j < off; ++j) x.pay.push_back(all[at++]);
        g.copies[d].push_back(x);
      }
    }
  }
  return g;
}
struct ConsOpt {
  bool dense = true;                       // globals are 0..N-1
  std::set<std::string> unsynced;          // tags not required to agree between copies
};
// ownership, numbering and agreement of copies; fills g.ents
inline void check_consistent(GMesh& g, ConsOpt const& o = ConsOpt()) {
  int np = int(g.counts.size());
  for (int d = 0; d <= g.dim; ++d) {
    std::map<std::pair<int, LO>, GEnt const*> at;
    std::set<std::pair<int, GO>> seen;
    g.ents[d].clear();
    for (auto& x : g.copies[d]) {
      at[{x.holder, x.local}] = &x;
      if (!seen.insert({x.holder, x.g}).second) PFAIL("rank " << x.holder << " holds entity " << x.g << " of dimension " << d << " twice");
      if (x.owned() && !g.ents[d].emplace(x.g, x).second) PFAIL("entity " << x.g << " of dimension " << d << " is owned twice");
    }
    for (auto& x : g.copies[d]) {
      if (x.orank < 0 || x.orank >= np) PFAIL("owner rank " << x.orank << " dimension " << d);
      auto it = at.find({x.orank, x.oidx});
      if (it == at.end()) PFAIL("dimension " << d << " entity " << x.g << " on rank " << x.holder << ": owner (" << x.orank << "," << x.oidx << ") does not exist");
      auto& y = *it->second;
      if (!y.owned()) PFAIL("dimension " << d << " entity " << x.g << ": recorded owner does not own itself");
      if (y.g != x.g) PFAIL("dimension " << d << " entity " << x.g << " on rank " << x.holder << ": owner copy has global " << y.g);
      if (y.vg != x.vg) PFAIL("dimension " << d << " entity " << x.g << " on rank " << x.holder << ": vertices differ from the owner's copy");
      for (auto& t : g.tags[d]) {
        if (o.unsynced.count(t.name)) continue;
        for (int j = 0; j < t.ncomps; ++j)
          if (x.pay[st(t.offset + j)] != y.pay[st(t.offset + j)])
            PFAIL("dimension " << d << " entity " << x.g << " on rank " << x.holder << ": tag " << t.name << " differs from the owner's value");
      }
    }
    if (o.dense) {
      GO k = 0;
      for (auto& kv : g.ents[d])
        if (kv.first != k++) PFAIL("global numbers of dimension " << d << " are not dense: " << kv.first << " at position " << k - 1);
    }
    // every copy's vertices exist on the same rank: implied by local indices
  }
}
inline GMesh gather_checked(Env& e, Mesh& m, ConsOpt const& o = ConsOpt(), bool with_tags = true) {
  auto g = gather(e, m, with_tags);
  check_consistent(g, o);
  return g;
}
// same global mesh: entities by global number, connectivity in order, tags bit for bit
inline void same_global(GMesh const& a, GMesh const& b, std::string const& what, std::set<std::string> const& ignore = {}, bool same_tags = true) {
  if (a.dim != b.dim || a.fam != b.fam) PFAIL(what << ": dimension or family changed");
  for (int d = 0; d <= a.dim; ++d) {
    if (a.ents[d].size() != b.ents[d].size()) PFAIL(what << ": " << a.ents[d].size() << " entities of dimension " << d << " became " << b.ents[d].size());
    std::vector<std::pair<TagCol, TagCol>> common;
    for (auto& t : a.tags[d]) {
      if (ignore.count(t.name)) continue;
      auto u = b.tag(d, t.name);
      if (!u) {
        if (same_tags) PFAIL(what << ": tag " << t.name << " of dimension " << d << " disappeared");
        continue;
      }
      if (u->type != t.type || u->ncomps != t.ncomps) PFAIL(what << ": tag " << t.name << " changed type or width");
      common.push_back({t, *u});
    }
    if (same_tags)
      for (auto& t : b.tags[d])
        if (!ignore.count(t.name) && !a.tag(d, t.name)) PFAIL(what << ": tag " << t.name << " of dimension " << d << " appeared");
    auto i = a.ents[d].begin();
    auto j = b.ents[d].begin();
    for (; i != a.ents[d].end(); ++i, ++j) {
      if (i->first != j->first) PFAIL(what << ": global numbers of dimension " << d << " differ: " << i->first << " vs " << j->first);
      if (i->second.vg != j->second.vg) PFAIL(what << ": entity " << i->first << " of dimension " << d << " vertices " << show(i->second.vg) << " became " << show(j->second.vg));
      for (auto& c : common)
        for (int k = 0; k < c.first.ncomps; ++k) {
          I64 x = i->second.pay[st(c.first.offset + k)], y = j->second.pay[st(c.second.offset + k)];
          if (x != y) {
            if (c.first.type == OMEGA_H_F64)
              PFAIL(what << ": tag " << c.first.name << " of entity " << i->first << " (dimension " << d << ") component " << k << " " << real_of(x) << " became " << real_of(y));
            PFAIL(what << ": tag " << c.first.name << " of entity " << i->first << " (dimension " << d << ") component " << k << " " << x << " became " << y);
          }
        }
    }
  }
}
inline std::vector<Real> coords_of(GMesh const& g, GO v) {
  auto t = g.tag(0, "coordinates");
  std::vector<Real> x;
  auto& e = g.ents[0].at(v);
  for (int j = 0; j < g.dim; ++j) x.push_back(real_of(e.pay[st(t->offset + j)]));
  return x;
}
inline I64 tag_int(GMesh const& g, int d, GEnt const& x, char const* n) {
  auto t = g.tag(d, n);
  if (!t) PFAIL("no tag " << n << " on dimension " << d);
  return x.pay[st(t->offset)];
}
// the upward count of every side, for conformity
inline std::map<std::vector<GO>, std::vector<GO>> side_uses(GMesh const& g) {
  std::map<std::vector<GO>, std::vector<GO>> u;
  for (auto& kv : g.ents[g.dim])
    for (auto& t : down_tpl(g.fam, g.dim, g.dim - 1)) {
      std::vector<GO> k;
      for (auto j : t) k.push_back(kv.second.vg[st(j)]);
      u[sorted(k)].push_back(kv.first);
    }
  return u;
}
// the entities of every dimension are exactly those of the elements
inline void check_complex(GMesh const& g) {
  for (int d = 0; d < g.dim; ++d) {
    std::set<std::vector<GO>> want, have;
    for (auto& kv : g.ents[g.dim])
      for (auto& t : down_tpl(g.fam, g.dim, d)) {
        std::vector<GO> k;
        for (auto j : t) k.push_back(kv.second.vg[st(j)]);
        want.insert(sorted(k));
      }
    for (auto& kv : g.ents[d])
      if (!have.insert(sorted(kv.second.vg)).second) PFAIL("duplicate entity of dimension " << d << ": " << show(kv.second.vg));
    if (want != have) PFAIL("dimension " << d << ": " << have.size() << " entities, elements have " << want.size());
  }
  for (auto& kv : side_uses(g))
    if (kv.second.size() > 2) PFAIL("side used by " << kv.second.size() << " elements");
}
inline Real simplex_size(GMesh const& g, GEnt const& x) {
  Real m[3][3];
  auto x0 = coords_of(g, x.vg[0]);
  for (int i = 0; i < g.dim; ++i) {
    auto xi = coords_of(g, x.vg[st(i + 1)]);
    for (int j = 0; j < g.dim; ++j) m[i][j] = xi[st(j)] - x0[st(j)];
  }
  return det_of(g.dim, m) / (g.dim == 1 ? 1. : g.dim == 2 ? 2. : 6.);
}
// measure of a (possibly lower-dimensional) simplex embedded in the mesh's space
inline Real embedded_size(GMesh const& g, GEnt const& x) {
  int d = int(x.vg.size()) - 1;
  if (d == 0) return 1;
  if (d == g.dim) return simplex_size(g, x);
  auto x0 = coords_of(g, x.vg[0]);
  std::vector<std::vector<Real>> e;
  for (int i = 0; i < d; ++i) {
    auto xi = coords_of(g, x.vg[st(i + 1)]);
    for (int j = 0; j < g.dim; ++j) xi[st(j)] -= x0[st(j)];
    e.push_back(xi);
  }
  auto dot = [](std::vector<Real> const& a, std::vector<Real> const& b) {
    Real r = 0;
    for (st i = 0; i < a.size(); ++i) r += a[i] * b[i];
    return r;
  };
  if (d == 1) return std::sqrt(dot(e[0], e[0]));
  return 0.5 * std::sqrt(std::max(0., dot(e[0], e[0]) * dot(e[1], e[1]) - dot(e[0], e[1]) * dot(e[0], e[1])));
}
}  // namespace pbt
#endif
