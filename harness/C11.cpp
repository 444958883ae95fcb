// C11: native mesh files round-trip bit for bit
#include <Omega_h_file.hpp>
#include <Omega_h_inertia.hpp>
#include <fstream>
#include <zlib.h>
#include "pmesh.hpp"
using namespace pbt;
struct STag {
  std::string name;
  int type, ncomps;
  std::vector<I8> a8;
  std::vector<I32> a32;
  std::vector<I64> a64;
  std::vector<I64> ar;  // bits
  bool operator==(STag const& o) const {
    return name == o.name && type == o.type && ncomps == o.ncomps && a8 == o.a8 && a32 == o.a32 && a64 == o.a64 && ar == o.ar;
  }
};
struct Snap {
  int fam = 0, dim = 0, parting = 0, nghost = 0, csize = 1, crank = 0;
  bool hints = false;
  std::vector<I64> axes;
  std::vector<LO> nents;
  std::vector<VL> down;
  std::vector<std::vector<I8>> codes;
  std::vector<std::vector<STag>> tags;
  std::vector<std::vector<I32>> oranks;
  std::vector<VL> oidxs;
  std::map<std::string, std::vector<std::pair<int, LO>>> sets;
  bool parents = false;
  std::vector<VL> pidx;
  std::vector<std::vector<I8>> pcode;
};
static std::vector<I64> bits(Read<Real> a) {
  std::vector<I64> v;
  for (auto x : hv(a)) v.push_back(bits_of(x));
  return v;
}
static Snap snap(Mesh& m) {
  Snap s;
  s.fam = int(m.family());
  s.dim = m.dim();
  s.parting = int(m.parting());
  s.nghost = m.nghost_layers();
  s.csize = m.comm()->size();
  s.crank = m.comm()->rank();
  auto h = m.rib_hints();
  s.hints = bool(h);
  if (h)
    for (auto& a : h->axes)
      for (int i = 0; i < 3; ++i) s.axes.push_back(bits_of(a[i]));
  for (int d = 0; d <= s.dim; ++d) {
    s.nents.push_back(m.nents(d));
    s.down.push_back({});
    s.codes.push_back({});
    if (d > 0) {
      auto a = m.ask_down(d, d - 1);
      s.down.back() = hv(a.ab2b);
      if (d > 1) s.codes.back() = hv(a.codes);
    }
    s.tags.push_back({});
    for (Int i = 0; i < m.ntags(d); ++i) {
      auto t = m.get_tag(d, i);
      STag x;
      x.name = t->name();
      x.type = int(t->type());
      x.ncomps = t->ncomps();
      switch (t->type()) {
        case OMEGA_H_I8: x.a8 = hv(as<I8>(t)->array()); break;
        case OMEGA_H_I32: x.a32 = hv(as<I32>(t)->array()); break;
        case OMEGA_H_I64: x.a64 = hv(as<I64>(t)->array()); break;
        case OMEGA_H_F64: x.ar = bits(as<Real>(t)->array()); break;
      }
      s.tags.back().push_back(x);
    }
    s.oranks.push_back({});
    s.oidxs.push_back({});
    if (s.csize > 1) {
      auto o = m.ask_owners(d);
      s.oranks.back() = hv(o.ranks);
      s.oidxs.back() = hv(o.idxs);
    }
  }
  for (auto& x : m.class_sets) {
    auto& v = s.sets[x.first];
    for (auto& p : x.second) v.push_back({p.dim, p.id});
  }
  s.parents = m.has_any_parents();
  if (s.parents)
    for (int d = 0; d <= s.dim; ++d) {
      auto p = m.ask_parents(d);
      s.pidx.push_back(hv(p.parent_idx));
      s.pcode.push_back(hv(p.codes));
    }
  return s;
}
static void same_snap(Snap const& a, Snap const& b, std::string const& w, bool meta = true) {
  PCHECK(a.fam == b.fam && a.dim == b.dim, w << ": family or dimension");
  if (meta) {
    PCHECK(a.parting == b.parting && a.nghost == b.nghost, w << ": parting " << a.parting << "/" << a.nghost << " became " << b.parting << "/" << b.nghost);
    PCHECK(a.csize == b.csize && a.crank == b.crank, w << ": communicator");
    PCHECK(a.hints == b.hints && a.axes == b.axes, w << ": partitioning hints");
  }
  PCHECK(a.nents == b.nents, w << ": entity counts " << show(a.nents) << " became " << show(b.nents));
  for (int d = 0; d <= a.dim; ++d) {
    PCHECK(a.down[st(d)] == b.down[st(d)], w << ": connectivity of dimension " << d);
    PCHECK(a.codes[st(d)] == b.codes[st(d)], w << ": alignment codes of dimension " << d);
    PCHECK(a.tags[st(d)].size() == b.tags[st(d)].size(), w << ": " << a.tags[st(d)].size() << " tags of dimension " << d << " became " << b.tags[st(d)].size());
    for (auto& t : a.tags[st(d)]) {
      bool ok = false, named = false;
      for (auto& u : b.tags[st(d)]) {
        ok = ok || t == u;
        named = named || t.name == u.name;
      }
      PCHECK(ok, w << ": tag " << t.name << " of dimension " << d << (named ? " changed" : " lost"));
    }
    PCHECK(a.oranks[st(d)] == b.oranks[st(d)] && a.oidxs[st(d)] == b.oidxs[st(d)], w << ": owners of dimension " << d);
  }
  PCHECK(a.sets == b.sets, w << ": classification sets (" << a.sets.size() << " became " << b.sets.size() << ")");
  PCHECK(a.parents == b.parents && a.pidx == b.pidx && a.pcode == b.pcode, w << ": parents");
}
// ---- an independent encoder of every version of the format ----------------
struct Enc {
  std::string o;
  bool comp;
  template <class T>
  void v(T x) {
    o.append(reinterpret_cast<char const*>(&x), sizeof(T));  // this machine is little-endian, like the format
  }
  void str(std::string const& s) {
    v(I32(s.size()));
    o += s;
  }
  template <class T>
  void arr(std::vector<T> const& a) {
    v(I32(a.size()));
    st nb = a.size() * sizeof(T);
    T dummy{};
    auto p = reinterpret_cast<Bytef const*>(a.empty() ? &dummy : a.data());
    if (comp) {
      uLong n = compressBound(uLong(nb));
      std::string z(n, 0);
      if (compress2(reinterpret_cast<Bytef*>(&z[0]), &n, p, uLong(nb), 6) != Z_OK) PFAIL("harness zlib");
      v(I64(n));
      o += z.substr(0, n);
    } else
      o.append(reinterpret_cast<char const*>(p), nb);
  }
};
static std::string encode(Snap const& s, int version, bool comp, bool inline_version) {
  Enc e;
  e.comp = comp;
  e.o = "\xa1\x1a";
  if (inline_version) e.v(I32(version));
  e.v(I8(comp));
  if (version >= 7) e.v(I8(s.fam));
  e.v(I8(s.dim));
  e.v(I32(s.csize));
  e.v(I32(s.crank));
  e.v(I8(s.parting));
  if (version >= 3) e.v(I32(s.nghost));
  e.v(I8(s.hints));
  if (s.hints) {
    e.v(I32(s.axes.size() / 3));
    for (auto a : s.axes) e.v(a);
  }
  if (version < 6) e.v(I8(1));
  e.v(I32(s.nents[0]));
  for (int d = 1; d <= s.dim; ++d) {
    e.arr(s.down[st(d)]);
    if (d > 1) e.arr(s.codes[st(d)]);
  }
  for (int d = 0; d <= s.dim; ++d) {
    e.v(I32(s.tags[st(d)].size()));
    for (auto& t : s.tags[st(d)]) {
      e.str(t.name);
      e.v(I8(t.ncomps));
      e.v(I8(t.type));
      if (version < 5) {
        e.v(I8(1));
        if (version >= 2) e.v(I8(3));
      }
      switch (t.type) {
        case OMEGA_H_I8: e.arr(t.a8); break;
        case OMEGA_H_I32: e.arr(t.a32); break;
        case OMEGA_H_I64: e.arr(t.a64); break;
        default: e.arr(t.ar);
      }
    }
    if (s.csize > 1) {
      e.arr(s.oranks[st(d)]);
      e.arr(s.oidxs[st(d)]);
    }
  }
  if (version >= 8) {
    e.v(I32(s.sets.size()));
    for (auto& x : s.sets) {
      e.str(x.first);
      e.v(I32(x.second.size()));
      for (auto& p : x.second) {
        e.v(I32(p.first));
        e.v(I32(p.second));
      }
    }
  }
  if (version >= 9) {
    e.v(I8(s.parents));
    if (s.parents)
      for (int d = 0; d <= s.dim; ++d) {
        e.arr(s.pidx[st(d)]);
        e.arr(s.pcode[st(d)]);
      }
  }
  return e.o;
}
// ---- generators -----------------------------------------------------------
template <class T>
static Read<T> junk(Mesh& m, int d, int w, u64 seed, int mode) {
  std::vector<T> v;
  for (LO i = 0; i < m.nents(d) * w; ++i) {
    u64 h = mix64(seed + u64(i) * 977 + u64(m.comm()->rank()) * 13);
    T x;
    std::memcpy(&x, &h, sizeof(T));
    if (mode == 1) x = T(h % 3);
    if (mode == 2) x = T(0);
    v.push_back(x);
  }
  return mk(v);
}
static void junk_tags(Src& s, Mesh& m) {
  int n = s.range(0, 5);
  for (int i = 0; i < n; ++i) {
    int d = s.range(0, m.dim());
    int w = s.weighted({5, 1}) == 0 ? s.range(1, 4) : s.range(1, 127);
    std::string name = s.pick<std::string>({"a", "velocity", "x y", "", "<&>\"", std::string(200, 'n'), "t\n"}) + std::to_string(i);
    u64 seed = s.below(1000);
    int mode = s.range(0, 2);
    switch (s.range(0, 3)) {
      case 0: m.add_tag<I8>(d, name, w, junk<I8>(m, d, w, seed, mode)); break;
      case 1: m.add_tag<I32>(d, name, w, junk<I32>(m, d, w, seed, mode)); break;
      case 2: m.add_tag<I64>(d, name, w, junk<I64>(m, d, w, seed, mode)); break;
      default: {
        Read<Real> a = junk<Real>(m, d, w, seed, mode);
        m.add_tag<Real>(d, name, w, a);
        s.label("random bits");
      }
    }
  }
}
static void gen_sets(Src& s, Mesh& m) {
  int n = s.range(0, 4);
  for (int i = 0; i < n; ++i) {
    auto& v = m.class_sets[s.pick<std::string>({"boundary", "left side", "", "x-", "Set"}) + std::to_string(i)];
    int k = s.range(0, 5);
    for (int j = 0; j < k; ++j) v.push_back(ClassPair(s.range(0, 3), s.range(0, 1000) - 20));
  }
}
static Raw gen(Src& s) {
  auto fam = s.chance(30) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.pick({2, 1, 3});
  RawOpt o;
  o.max_cells = dim == 3 ? 5 : 10;
  o.subset = true;
  return gen_raw(s, fam, dim, o);
}
static void dress(Src& s, Mesh& m, bool serial) {
  junk_tags(s, m);
  gen_sets(s, m);
  if (s.chance(30)) {
    auto h = std::make_shared<inertia::Rib>();
    int n = s.range(0, 3);
    for (int i = 0; i < n; ++i) {
      Vector<3> a;
      for (int j = 0; j < 3; ++j) a[j] = s.any_real();
      h->axes.push_back(a);
    }
    m.set_rib_hints(h);
  }
  if (serial && s.chance(30))
    for (int d = 0; d <= m.dim(); ++d) m.set_parents(d, Parents(junk<I32>(m, d, 1, 5, 0), junk<I8>(m, d, 1, 9, 0)));
}
// how a distributed mesh is produced
static Mesh make(Src& s, Env& e, Raw const& r, CommPtr comm, bool in, int nw) {
  Mesh m(e.lib);
  Src t;
  t.state = s.below(1000);
  auto p = gen_part(s, nw, r.ne());
  if (!in) return m;
  if (comm->rank() == 0) {
    m = build_raw(e, r);
    gen_sets(t, m);
  }
  m.set_comm(comm);
  if (comm->size() > 1) migrate_to(m, p);
  return m;
}
static void stream(Src& s, Env& e) {
  auto r = gen(s);
  auto m = build_raw(e, r);
  dress(s, m, true);
  auto a = snap(m);
  std::ostringstream o;
  binary::write(o, &m);
  same_snap(a, snap(m), "writing changed the mesh");
  std::string bytes = o.str();
  {
    std::istringstream i(bytes + "trailing");
    Mesh n(e.lib);
    n.set_comm(e.comm);
    binary::read(i, &n, binary::latest_version);
    PCHECK(st(i.tellg()) == bytes.size(), "reader consumed " << i.tellg() << " of " << bytes.size());
    same_snap(a, snap(n), "stream");
    // the mesh read is usable: derived adjacencies are those of the original
    auto d = m.ask_verts_of(m.dim()), d2 = n.ask_verts_of(m.dim());
    same(d2, hv(d), "element vertices of the mesh read");
  }
  // the written file is the documented format, and so is every earlier version
  int version = s.chance(40) ? int(binary::latest_version) : s.range(1, 8);
  bool comp = s.below(2), inl = version < 4 || s.chance(20);
  auto b = a;
  if (version < 9) b.parents = false, b.pidx.clear(), b.pcode.clear();
  if (version < 8) b.sets.clear();
  if (version < 7 && b.fam != int(OMEGA_H_SIMPLEX)) version = 7;
  {
    std::istringstream i(encode(b, version, comp, inl));
    Mesh n(e.lib);
    n.set_comm(e.comm);
    binary::read(i, &n, inl ? -1 : version);
    same_snap(b, snap(n), "version " + std::to_string(version) + (comp ? " compressed" : " raw"));
    s.label("v" + std::to_string(version));
  }
  s.nontrivial(r.ne() > 1);
  s.desc(fam_name(r.fam), r.dim, "D ne=", r.ne(), " v", version, comp ? "z" : "");
}
// every strict prefix of a file is refused
static void truncated(Src& s, Env& e) {
  auto r = gen(s);
  auto m = build_raw(e, r);
  dress(s, m, true);
  auto a = snap(m);
  bool comp = s.below(2);
  auto bytes = encode(a, 9, comp, false);
  for (int k = 0; k < 12; ++k) {
    st cut = st(s.below(bytes.size()));
    std::istringstream i(bytes.substr(0, cut));
    Mesh n(e.lib);
    n.set_comm(e.comm);
    bool threw = false;
    try {
      binary::read(i, &n, 9);
    } catch (std::exception const&) {
      threw = true;
    }
    if (!threw) PFAIL("file cut at byte " << cut << " of " << bytes.size() << " was read without an error");
  }
  // damaged header fields
  auto bad = bytes;
  int what = s.range(0, 4), ver = 9;
  switch (what) {
    case 0: bad[st(s.range(0, 1))] ^= char(1 << s.range(0, 7)); break;         // magic
    case 1: bad[4] = s.pick({char(0), char(4), char(7), char(-1)}); break;     // dimension
    case 2: bad[5] = char(s.range(2, 100)); break;                             // number of parts
    case 3: bad[13] = char(s.range(3, 100)); break;                            // parting
    default: ver = s.pick({10, 0, -2, 100, 255}); break;
  }
  std::istringstream i(bad);
  Mesh n(e.lib);
  n.set_comm(e.comm);
  bool threw = false;
  try {
    binary::read(i, &n, ver);
  } catch (std::exception const&) {
    threw = true;
  }
  PCHECK(threw, "damaged header (" << what << ") accepted");
  s.nontrivial(true);
  s.desc(bytes.size(), " bytes", comp ? " z" : "");
}
static std::string slurp(std::string const& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
static int file_no = 0;
static void rm(std::string const& dir, int np) {
  for (int i = 0; i < np; ++i) ::unlink((dir + "/" + std::to_string(i) + ".osh").c_str());
  ::unlink((dir + "/nparts").c_str());
  ::unlink((dir + "/version").c_str());
  ::rmdir(dir.c_str());
}
static void files(Src& s, Env& e) {
  auto r = gen(s);
  // written by the first nw processes, read by all
  int nw = e.np == 1 || s.chance(60) ? e.np : s.range(1, e.np);
  bool in = e.rank < nw;
  CommPtr comm = nw == e.np ? e.comm : e.comm->split(in ? 0 : 1, 0);
  auto m = make(s, e, r, comm, in, nw);
  int mode = s.weighted({4, 2, 1, 1});
  int k = s.range(1, 3);
  u64 tseed = s.below(1000);
  bool bal = s.chance(20);
  bool strict = nw == e.np && s.chance(40);
  bool mf = s.chance(30);
  int how = s.range(0, 1);
  Snap a;
  std::string dir = e.scratch + "/m" + std::to_string(file_no++) + ".osh";
  int ntags = 0;
  if (in) {
    if (bal && nw == e.np && (e.np & (e.np - 1)) == 0) m.balance();
    if (mode == 1) m.set_parting(OMEGA_H_GHOSTED, k, false);
    if (mode == 2) m.set_parting(OMEGA_H_VERT_BASED);
    // values may differ between copies: files keep each process's own bits
    Src t;
    t.state = tseed;
    junk_tags(t, m);
    for (int d = 0; d <= m.dim(); ++d) ntags += m.ntags(d);
    a = snap(m);
    binary::write(dir, &m);
    same_snap(a, snap(m), "writing changed the mesh");
  }
  e.comm->barrier();
  PCHECK(binary::read_nparts(dir, e.comm) == nw, "nparts");
  PCHECK(binary::read_version(dir, e.comm) == binary::latest_version, "version");
  GMesh ga;
  Mesh n(e.lib);
  if (mf && !strict)
    n = read_mesh_file(dir, e.comm);
  else if (how == 0) {
    int got = binary::read(dir, e.comm, &n, strict);
    PCHECK(got == nw, "read returned " << got << " parts");
  } else
    n = binary::read(dir, e.comm, strict);
  PCHECK(n.comm()->size() == e.np && n.comm()->rank() == e.rank, "communicator of the mesh read");
  auto b = snap(n);
  if (nw == e.np) {
    same_snap(a, b, "files");
  } else if (in) {
    // same local mesh; owners may only be renumbered when the communicator grows
    auto c = a;
    if (nw == 1)
      for (int d = 0; d <= a.dim; ++d) {
        c.oranks[st(d)].assign(st(a.nents[st(d)]), 0);
        c.oidxs[st(d)].resize(st(a.nents[st(d)]));
        std::iota(c.oidxs[st(d)].begin(), c.oidxs[st(d)].end(), 0);
      }
    same_snap(c, b, "files read by more processes", false);
    PCHECK(a.parting == b.parting && a.nghost == b.nghost, "parting after reading on more processes");
  } else {
    for (auto x : b.nents) PCHECK(x == 0, "a process without a part holds entities");
  }
  if (nw < e.np) {
    // header, tags and sets agree everywhere
    std::vector<I64> h;
    h.push_back(b.dim * 1000 + b.fam * 100 + b.parting * 10 + b.nghost);
    u64 q = 0;
    for (auto& d : b.tags)
      for (auto& t : d) q = mix64(q ^ hash_str(t.name) ^ u64(t.type * 1000 + t.ncomps));
    h.push_back(I64(q));
    q = 0;
    for (auto& x : b.sets) {
      q = mix64(q ^ hash_str(x.first));
      for (auto& p : x.second) q = mix64(q ^ u64(p.first * 100000 + p.second));
    }
    h.push_back(I64(q));
    auto all = allgather(e, h);
    for (st i = 0; i < all.size(); ++i) PCHECK(all[i] == h[i % h.size()], "processes disagree about the mesh read (item " << i % h.size() << ")");
    ConsOpt co;
    for (auto& d : b.tags)
      for (auto& t : d) co.unsynced.insert(t.name);
    gather_checked(e, n, co);
  }
  e.comm->barrier();
  if (e.rank == 0) {
    PCHECK(slurp(dir + "/nparts") == std::to_string(nw) + "\n", "nparts file");
    rm(dir, e.np);
  }
  e.comm->barrier();
  s.nontrivial(r.ne() > 1 && (e.np == 1 || r.ne() >= nw));
  s.label(nw < e.np ? "fewer writers" : "same");
  s.desc("np=", e.np, " writers=", nw, " ", fam_name(r.fam), r.dim, "D ne=", r.ne(), " mode", mode, strict ? " strict" : "");
}
// a directory that is written twice, then damaged
static void directory(Src& s, Env& e) {
  std::string dir = e.scratch + "/d" + std::to_string(file_no++) + ".osh";
  auto r = gen(s);
  auto m = build_raw(e, r);
  dress(s, m, false);
  binary::write(dir, &m);
  auto r2 = gen(s);
  auto m2 = build_raw(e, r2);
  dress(s, m2, false);
  binary::write(dir, &m2);  // overwrites
  {
    auto n = binary::read(dir, e.lib, true);
    same_snap(snap(m2), snap(n), "overwritten directory");
  }
  int what = s.range(0, 6);
  std::string f = dir + "/0.osh";
  bool strict = s.below(2);
  bool expect = true;
  switch (what) {
    case 0: ::unlink((dir + "/nparts").c_str()); break;
    case 1: ::unlink(f.c_str()); break;
    case 2: std::ofstream(dir + "/nparts") << "2\n"; break;
    case 3: std::ofstream(dir + "/nparts") << "junk\n"; break;
    case 4: std::ofstream(dir + "/version") << s.pick({10, 77, 0}) << "\n"; break;
    case 5: {
      auto b = slurp(f);
      std::ofstream(f, std::ios::binary | std::ios::trunc) << b.substr(0, s.below(b.size()));
      break;
    }
    default: {
      // a directory of the first format versions: no version file, parts without extension
      ::unlink((dir + "/version").c_str());
      auto b = snap(m2);
      b.parents = false;
      b.pidx.clear();
      b.pcode.clear();
      int v = s.range(b.fam == int(OMEGA_H_SIMPLEX) ? 1 : 7, 8);
      if (v < 8) b.sets.clear();
      std::ofstream(dir + "/0", std::ios::binary) << encode(b, v, s.below(2), true);
      auto n = binary::read(dir, e.comm, strict);
      same_snap(b, snap(n), "directory without a version file");
      ::unlink((dir + "/0").c_str());
      expect = false;
    }
  }
  if (expect) {
    bool threw = false;
    try {
      Mesh n(e.lib);
      binary::read(dir, e.comm, &n, strict);
    } catch (std::exception const&) {
      threw = true;
    }
    PCHECK(threw, "damaged directory (" << what << ") was read without an error");
  }
  rm(dir, 2);
  s.nontrivial(true);
  s.label("damage" + std::to_string(what));
  s.desc(fam_name(r.fam), r.dim, "D damage ", what);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"stream", stream, 2500, 80000, {1}, true, "two or more elements"},
    {"truncated", truncated, 1500, 50000, {1}, true, "always: twelve truncations and one damaged header"},
    {"files", files, 1500, 40000, {2, 1, 3, 4}, true, "at least as many elements as writing processes"},
    {"directory", directory, 1000, 20000, {1}, true, "always"},
  });
}
