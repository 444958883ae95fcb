// C12: VTK output read back gives the same mesh and fields
#include <Omega_h_file.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_vtk.hpp>
#include <fstream>
#include <zlib.h>
#include "pmesh.hpp"
using namespace pbt;
// ---- an independent reader and writer of the XML format --------------------
static char const* A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string dec64(std::string const& t) {
  std::string o;
  PCHECK(t.size() % 4 == 0, "base64 length " << t.size());
  for (st i = 0; i < t.size(); i += 4) {
    unsigned v = 0;
    int pad = 0;
    for (st j = 0; j < 4; ++j) {
      char c = t[i + j];
      auto p = std::strchr(A64, c);
      if (c == '=') ++pad;
      else if (!p || !c || pad) PFAIL("bad base64 text");
      v = (v << 6) | (c == '=' ? 0u : unsigned(p - A64));
    }
    for (int j = 0; j < 3 - pad; ++j) o.push_back(char((v >> (16 - 8 * j)) & 0xff));
  }
  return o;
}
static std::string enc64(std::string const& b) {
  std::string o;
  for (st i = 0; i < b.size(); i += 3) {
    unsigned v = 0;
    st n = std::min<st>(3, b.size() - i);
    for (st j = 0; j < 3; ++j) v = (v << 8) | (j < n ? (unsigned char)b[i + j] : 0u);
    for (st j = 0; j < 4; ++j) o.push_back(j <= n ? A64[(v >> (18 - 6 * j)) & 63] : '=');
  }
  return o;
}
struct Arr {
  std::string section, name, type;
  int ncomps = 0;
  std::string raw;
};
typedef std::map<std::string, std::string> Attr;
static Attr attrs(std::string const& l) {
  Attr a;
  st i = 0;
  while ((i = l.find("=\"", i)) != std::string::npos) {
    st b = l.rfind(' ', i) + 1;
    st e = l.find('"', i + 2);
    a[l.substr(b, i - b)] = l.substr(i + 2, e - i - 2);
    i = e + 1;
  }
  return a;
}
static std::vector<Arr> parse_vtu(std::string const& txt, bool compress, int* np, int* nc) {
  std::vector<Arr> r;
  std::istringstream f(txt);
  std::string l, section;
  std::vector<std::string> stack;
  while (std::getline(f, l)) {
    PCHECK(!l.empty() && l[0] == '<', "line is not a tag: " << l);
    st e = l.find_first_of(" >");
    std::string n = l.substr(1, e - 1);
    if (n[0] == '/') {
      PCHECK(!stack.empty() && stack.back() == n.substr(1), "closing tag " << n);
      stack.pop_back();
      continue;
    }
    auto a = attrs(l);
    if (n == "VTKFile") {
      PCHECK(a["type"] == "UnstructuredGrid" && a["byte_order"] == "LittleEndian" && a["header_type"] == "UInt64", "file header " << l);
      PCHECK((a.count("compressor") == 1) == compress, "compressor attribute");
    }
    if (n == "Piece") {
      *np = std::stoi(a["NumberOfPoints"]);
      *nc = std::stoi(a["NumberOfCells"]);
    }
    if (n == "DataArray") {
      Arr x;
      x.section = stack.back();
      x.name = a["Name"];
      x.type = a["type"];
      x.ncomps = std::stoi(a["NumberOfComponents"]);
      PCHECK(a["format"] == "binary", "format " << a["format"]);
      std::string data;
      PCHECK(bool(std::getline(f, data)), "no data");
      auto end = data.find('<');
      if (end == std::string::npos) {
        std::string close;
        std::getline(f, close);
        PCHECK(close == "</DataArray>", "array not closed");
      } else
        data = data.substr(0, end);
      if (compress) {
        auto h = dec64(data.substr(0, 44));
        u64 hd[4];
        PCHECK(h.size() == 32, "compressed header");
        std::memcpy(hd, h.data(), 32);
        auto z = dec64(data.substr(44));
        PCHECK(hd[0] == 1 && hd[1] == hd[2] && hd[3] == z.size(), "compressed header of " << x.name);
        x.raw.resize(hd[2] + 8);
        uLong n2 = uLong(x.raw.size());
        PCHECK(uncompress(reinterpret_cast<Bytef*>(&x.raw[0]), &n2, reinterpret_cast<Bytef const*>(z.data()), uLong(z.size())) == Z_OK, "payload of " << x.name);
        PCHECK(n2 == hd[2], "uncompressed size of " << x.name);
        x.raw.resize(hd[2]);
      } else {
        auto h = dec64(data.substr(0, 12));
        u64 nb;
        std::memcpy(&nb, h.data(), 8);
        x.raw = dec64(data.substr(12));
        PCHECK(nb == x.raw.size(), "byte count of " << x.name << " " << nb << " vs " << x.raw.size());
      }
      r.push_back(x);
      continue;
    }
    stack.push_back(n);
  }
  PCHECK(stack.empty(), "unclosed tag");
  return r;
}
template <class T>
static std::string raw_of(std::vector<T> const& v) {
  return std::string(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T));
}
template <class T>
static std::string raw_of(Read<T> a) { return raw_of(hv(a)); }
static std::string type_name(int t) {
  return t == OMEGA_H_I8 ? "Int8" : t == OMEGA_H_I32 ? "Int32" : t == OMEGA_H_I64 ? "Int64" : "Float64";
}
// the array a tag is stored as: 2D real vectors and symmetric tensors are padded to 3D
static Arr expect_tag(Mesh& m, TagBase const* t, std::string const& section) {
  Arr x;
  x.section = section;
  x.name = t->name();
  x.type = type_name(t->type());
  x.ncomps = t->ncomps();
  switch (t->type()) {
    case OMEGA_H_I8: x.raw = raw_of(as<I8>(t)->array()); break;
    case OMEGA_H_I32: x.raw = raw_of(as<I32>(t)->array()); break;
    case OMEGA_H_I64: x.raw = raw_of(as<I64>(t)->array()); break;
    case OMEGA_H_F64: {
      auto v = hv(as<Real>(t)->array());
      if (m.dim() == 2 && (x.ncomps == 2 || x.ncomps == 3)) {
        int w = x.ncomps, W = w == 2 ? 3 : 6;
        std::vector<Real> p(v.size() / st(w) * st(W), 0.0);
        for (st i = 0; i < v.size() / st(w); ++i)
          for (int c = 0; c < w; ++c) p[i * st(W) + st(w == 3 && c == 2 ? 3 : c)] = v[i * st(w) + st(c)];
        v = p;
        x.ncomps = W;
      }
      x.raw = raw_of(v);
    }
  }
  return x;
}
static void check_arrays(Mesh& m, int cd, TagSet const& tags, std::string const& txt, bool compress) {
  int np = -1, nc = -1;
  auto r = parse_vtu(txt, compress, &np, &nc);
  PCHECK(np == m.nverts() && nc == m.nents(cd), "piece sizes");
  std::vector<Arr> want;
  auto add = [&](std::string sec, std::string n, std::string ty, int w, std::string raw) {
    Arr a;
    a.section = sec, a.name = n, a.type = ty, a.ncomps = w, a.raw = raw;
    want.push_back(a);
  };
  bool sx = m.family() == OMEGA_H_SIMPLEX;
  int vt = cd == 0 ? 1 : cd == 1 ? 3 : cd == 2 ? (sx ? 5 : 9) : (sx ? 10 : 12);
  add("Cells", "types", "Int8", 1, std::string(st(nc), char(vt)));
  add("Cells", "connectivity", "Int32", 1, raw_of(cd ? m.ask_verts_of(cd) : LOs(m.nverts(), 0, 1)));
  VL off;
  for (int i = 0; i < nc; ++i) off.push_back((i + 1) * nverts_of(m.family(), cd));
  add("Cells", "offsets", "Int32", 1, raw_of(off));
  auto co = hv(m.coords());
  std::vector<Real> c3;
  for (int i = 0; i < np; ++i)
    for (int j = 0; j < 3; ++j) c3.push_back(j < m.dim() ? co[st(i * m.dim() + j)] : 0.0);
  add("Points", "coordinates", "Float64", 3, raw_of(c3));
  for (int q = 0; q < 2; ++q) {
    int d = q ? cd : 0;
    std::string sec = q ? "CellData" : "PointData";
    for (auto& n : tags[st(d)]) {
      if (n == "local") {
        VL l;
        for (int i = 0; i < m.nents(d); ++i) l.push_back(i);
        add(sec, n, "Int32", 1, raw_of(l));
      } else if (n == "owner") {
        if (m.comm()->size() > 1) add(sec, n, "Int32", 1, raw_of(m.ask_owners(d).ranks));
      } else if (n == "vtkGhostType") {
        if (q == 0) continue;
        std::string g;
        auto o = hv(m.owned(d));
        for (auto x : o) g.push_back(char(!x));
        add(sec, n, "UInt8", 1, g);
      } else if (n == "coordinates" && q == 0) {
        continue;
      } else {
        for (Int i = 0; i < m.ntags(d); ++i)
          if (m.get_tag(d, i)->name() == n) want.push_back(expect_tag(m, m.get_tag(d, i), sec));
      }
    }
  }
  PCHECK(r.size() == want.size(), r.size() << " arrays written, expected " << want.size());
  for (auto& w : want) {
    int hit = 0;
    for (auto& x : r)
      if (x.name == w.name && x.section == w.section) {
        ++hit;
        PCHECK(x.type == w.type && x.ncomps == w.ncomps, w.section << " " << w.name << ": " << x.type << "x" << x.ncomps << " expected " << w.type << "x" << w.ncomps);
        PCHECK(x.raw == w.raw, w.section << " " << w.name << ": values differ");
      }
    PCHECK(hit == 1, w.section << " " << w.name << " written " << hit << " times");
  }
}
// ---- generators -------------------------------------------------------------
template <class T>
static void junk(Mesh& m, int d, std::string const& n, int w, u64 seed, bool any) {
  auto g = hv(m.globals(d));
  std::vector<T> v;
  for (auto x : g)
    for (int c = 0; c < w; ++c) {
      u64 h = mix64(seed * 131 + u64(x) * 17 + u64(c));
      T y;
      std::memcpy(&y, &h, sizeof(T));
      v.push_back(any ? y : T(h % 1000) / T(4));
    }
  m.add_tag<T>(d, n, w, mk(v));
}
static void tags_on(Src& s, Mesh& m) {
  int n = s.range(0, 5);
  for (int i = 0; i < n; ++i) {
    int d = s.chance(80) ? s.pick({0, m.dim()}) : s.range(0, m.dim());
    int w = s.weighted({6, 1}) == 0 ? s.range(1, 5) : s.range(6, 12);
    std::string name = s.pick<std::string>({"u", "my field", "a.b", "x=1", "t/", "'q'"}) + std::to_string(i);
    u64 seed = s.below(1000);
    bool any = s.below(2);
    switch (s.range(0, 3)) {
      case 0: junk<I8>(m, d, name, w, seed, any); break;
      case 1: junk<I32>(m, d, name, w, seed, any); break;
      case 2: junk<I64>(m, d, name, w, seed, any); break;
      default: junk<Real>(m, d, name, w, seed, any);
    }
  }
}
static Raw gen(Src& s) {
  auto fam = s.chance(35) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int dim = s.pick({2, 1, 3});
  RawOpt o;
  o.max_cells = dim == 3 ? 5 : 10;
  o.subset = true;
  o.jitter = true;
  auto r = gen_raw(s, fam, dim, o);
  if (s.chance(30))
    for (auto& x : r.x)
      if (s.chance(20)) x = s.any_real();
  return r;
}
static bool is6(Mesh& m, TagBase const* t) { return m.dim() == 2 && t->type() == OMEGA_H_F64 && t->ncomps() == 6; }
// tags of b's dimension d are those of a's listed in the set, bit for bit
static void same_tags(Mesh& a, Mesh& b, int d, std::set<std::string> const& sel, bool* six) {
  std::set<std::string> have;
  for (Int i = 0; i < b.ntags(d); ++i) have.insert(b.get_tag(d, i)->name());
  for (auto& n : sel) {
    if (n == "local" || n == "owner" || n == "vtkGhostType") continue;
    if (!a.has_tag(d, n)) continue;
    TagBase const *t = nullptr, *u = nullptr;
    for (Int i = 0; i < a.ntags(d); ++i)
      if (a.get_tag(d, i)->name() == n) t = a.get_tag(d, i);
    for (Int i = 0; i < b.ntags(d); ++i)
      if (b.get_tag(d, i)->name() == n) u = b.get_tag(d, i);
    PCHECK(u, "field " << n << " of dimension " << d << " was not read back");
    if (is6(a, t) && u->ncomps() == 3)
      { *six = true; have.erase(n); continue; }
    PCHECK(t->type() == u->type() && t->ncomps() == u->ncomps(), "field " << n << " of dimension " << d << " changed type or width: " << t->ncomps() << " to " << u->ncomps());
    auto x = expect_tag(a, t, ""), y = expect_tag(b, u, "");
    PCHECK(x.raw == y.raw, "values of field " << n << " of dimension " << d);
    have.erase(n);
  }
  have.erase("global");
  if (d == 0) have.erase("coordinates");
  PCHECK(have.empty(), "field " << *have.begin() << " of dimension " << d << " appeared");
}
static void same_mesh(Mesh& m, Mesh& n) {
  PCHECK(n.dim() == m.dim(), "dimension");
  PCHECK(m.dim() == 1 || n.family() == m.family(), "family");
  PCHECK(n.nverts() == m.nverts() && n.nelems() == m.nelems(), "sizes");
  same(n.ask_elem_verts(), hv(m.ask_elem_verts()), "connectivity");
  same(n.coords(), hv(m.coords()), "coordinates");
}
static void serial(Src& s, Env& e) {
  auto r = gen(s);
  auto m = build_raw(e, r);
  tags_on(s, m);
  int cd = s.chance(75) ? m.dim() : s.range(0, m.dim());
  bool compress = s.below(2);
  auto tags = vtk::get_all_vtk_tags(&m, cd);
  {
    // everything on the mesh is listed, by default
    for (int d : {0, cd})
      for (Int i = 0; i < m.ntags(d); ++i) PCHECK(tags[st(d)].count(m.get_tag(d, i)->name()), "default tag set lacks " << m.get_tag(d, i)->name());
  }
  if (s.chance(40))
    for (auto& t : tags) {
      std::set<std::string> k;
      for (auto& n : t)
        if (s.below(2)) k.insert(n);
      t.clear(); for (auto& n : k) t.insert(n);
    }
  std::ostringstream o;
  vtk::write_vtu(o, &m, s.chance(30) && cd == m.dim() ? -1 : cd, tags, compress);
  check_arrays(m, cd, tags, o.str(), compress);
  if (s.chance(20)) {
    // asking for what cannot be written is refused
    auto bad = tags;
    int q = s.range(0, 3);
    bool ok = q == 0 || q == cd;
    bad[st(q)].insert(ok ? "no such" : "global");
    bool threw = false;
    try {
      std::ostringstream o2;
      vtk::write_vtu(o2, &m, cd, bad, compress);
    } catch (std::exception const&) {
      threw = true;
    }
    PCHECK(threw, "impossible output request accepted (dimension " << q << ")");
  }
  bool six = false;
  if (cd == m.dim()) {
    std::istringstream i(o.str());
    Mesh n(e.lib);
    vtk::read_vtu(i, e.comm, &n);
    same_mesh(m, n);
    same_tags(m, n, 0, {tags[0].begin(), tags[0].end()}, &six);
    same_tags(m, n, m.dim(), {tags[st(m.dim())].begin(), tags[st(m.dim())].end()}, &six);
    // written again, the same file content
    std::ostringstream o2;
    auto t2 = vtk::get_all_vtk_tags(&n, n.dim());
    vtk::write_vtu(o2, &n, n.dim(), t2, compress);
    if (m.dim() > 1 || m.family() == OMEGA_H_SIMPLEX) check_arrays(n, n.dim(), t2, o2.str(), compress);
  }
  s.nontrivial(r.ne() > 1 && m.ntags(0) + m.ntags(cd) > 3);
  s.label(cd == m.dim() ? "elements" : "lower dimension");
  s.desc(fam_name(r.fam), r.dim, "D ne=", r.ne(), " cells of dimension ", cd, compress ? " z" : "");
  s.finding(six, "vtk_2d_six_components", "a 6-component real field of a 2D mesh is read back with 3 components");
}
// files of either byte order
template <class T>
static std::string ordered(std::vector<T> v, bool big) {
  std::string o;
  for (auto x : v) {
    auto p = reinterpret_cast<char*>(&x);
    if (big) std::reverse(p, p + sizeof(T));
    o.append(p, sizeof(T));
  }
  return o;
}
struct W {
  std::ostringstream o;
  bool big, comp;
  template <class T>
  void arr(std::string const& n, std::string const& ty, int w, std::vector<T> const& v) {
    o << "<DataArray type=\"" << ty << "\" Name=\"" << n << "\" NumberOfComponents=\"" << w << "\" format=\"binary\">\n";
    auto raw = ordered(v, big);
    if (comp) {
      uLong n2 = compressBound(uLong(raw.size()));
      std::string z(n2, 0);
      compress2(reinterpret_cast<Bytef*>(&z[0]), &n2, reinterpret_cast<Bytef const*>(raw.data()), uLong(raw.size()), 9);
      z.resize(n2);
      o << enc64(ordered(std::vector<u64>{1, raw.size(), raw.size(), n2}, big)) << enc64(z);
    } else
      o << enc64(ordered(std::vector<u64>{raw.size()}, big)) << enc64(raw);
    o << "\n</DataArray>\n";
  }
};
static void byteorder(Src& s, Env& e) {
  auto r = gen(s);
  W w;
  w.big = s.below(2);
  w.comp = s.below(2);
  bool sx = r.fam == OMEGA_H_SIMPLEX;
  w.o << "<VTKFile type=\"UnstructuredGrid\" byte_order=\"" << (w.big ? "Big" : "Little") << "Endian\" header_type=\"UInt64\""
      << (w.comp ? " compressor=\"vtkZLibDataCompressor\"" : "") << ">\n<UnstructuredGrid>\n<Piece NumberOfPoints=\"" << r.nv
      << "\" NumberOfCells=\"" << r.ne() << "\">\n<Cells>\n";
  w.arr("types", "Int8", 1, std::vector<I8>(st(r.ne()), I8(r.dim == 1 ? 3 : r.dim == 2 ? (sx ? 5 : 9) : (sx ? 10 : 12))));
  w.arr("connectivity", "Int32", 1, r.ev);
  VL off;
  for (int i = 0; i < r.ne(); ++i) off.push_back((i + 1) * r.deg);
  w.arr("offsets", "Int32", 1, off);
  w.o << "</Cells>\n<Points>\n";
  std::vector<Real> c3;
  for (int i = 0; i < r.nv; ++i)
    for (int j = 0; j < 3; ++j) c3.push_back(j < r.dim ? r.x[st(i * r.dim + j)] : 0.0);
  w.arr("coordinates", "Float64", 3, c3);
  w.o << "</Points>\n<PointData>\n";
  std::vector<I32> a32;
  std::vector<I64> a64;
  std::vector<Real> ar;
  std::vector<I8> a8;
  u64 seed = s.below(1000);
  for (int i = 0; i < r.nv * 2; ++i) a32.push_back(I32(mix64(seed + u64(i))));
  for (int i = 0; i < r.nv; ++i) ar.push_back(real_of(I64(mix64(seed + 7 + u64(i)))));
  w.arr("i32", "Int32", 2, a32);
  w.arr("real", "Float64", 1, ar);
  w.o << "</PointData>\n<CellData>\n";
  for (int i = 0; i < r.ne() * 3; ++i) a64.push_back(I64(mix64(seed + 99 + u64(i))));
  for (int i = 0; i < r.ne(); ++i) a8.push_back(I8(mix64(seed + 999 + u64(i))));
  w.arr("i64", "Int64", 3, a64);
  w.arr("i8", "Int8", 1, a8);
  w.o << "</CellData>\n</Piece>\n</UnstructuredGrid>\n</VTKFile>\n";
  std::istringstream i(w.o.str());
  Mesh n(e.lib);
  vtk::read_vtu(i, e.comm, &n);
  PCHECK(n.dim() == r.dim && n.nverts() == r.nv && n.nelems() == r.ne(), "sizes");
  PCHECK(r.dim == 1 || n.family() == r.fam, "family");
  same(n.ask_elem_verts(), r.ev, "connectivity");
  same(n.coords(), r.x, "coordinates");
  same(n.get_array<I32>(0, "i32"), a32, "i32");
  same(n.get_array<I64>(r.dim, "i64"), a64, "i64");
  same(n.get_array<I8>(r.dim, "i8"), a8, "i8");
  std::vector<I64> b1, b2;
  for (auto x : ar) b1.push_back(bits_of(x));
  for (auto x : hv(n.get_array<Real>(0, "real"))) b2.push_back(bits_of(x));
  same(b2, b1, "real");
  s.nontrivial(w.big && r.ne() > 1);
  s.desc(fam_name(r.fam), r.dim, "D ne=", r.ne(), w.big ? " big" : " little", w.comp ? " z" : "");
}
// ---- parallel pieces ----------------------------------------------------------
static int file_no = 0;
static void wipe(Env& e, std::string const& dir) {
  e.comm->barrier();
  if (e.rank == 0) {
    for (int i = 0; i < e.np; ++i) ::unlink((dir + "/pieces/piece_" + std::to_string(i) + ".vtu").c_str());
    ::rmdir((dir + "/pieces").c_str());
    ::unlink((dir + "/pieces.pvtu").c_str());
    ::rmdir(dir.c_str());
  }
  e.comm->barrier();
}
static std::string slurp(std::string const& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// give the entities other global numbers (still a dense set)
static void renumber(Mesh& m, u64 salt) {
  for (int d = 0; d <= m.dim(); ++d) {
    GO n = m.nglobal_ents(d);
    std::vector<std::pair<u64, GO>> k;
    for (GO i = 0; i < n; ++i) k.push_back({mix64(salt + u64(d) * 1000 + u64(i)), i});
    std::sort(k.begin(), k.end());
    auto g = hv(m.globals(d));
    for (auto& x : g) x = k[st(x)].second;
    m.set_tag(d, "global", mk(g));
  }
}
static void parallel(Src& s, Env& e) {
  auto r = gen(s);
  int nw = e.np == 1 || s.chance(70) ? e.np : s.range(1, e.np);
  bool in = e.rank < nw;
  CommPtr comm = nw == e.np ? e.comm : e.comm->split(in ? 0 : 1, 0);
  auto p = gen_part(s, nw, r.ne());
  int k = s.weighted({3, 1, 1});
  bool ren = s.chance(40);
  u64 salt = s.below(1000);
  bool compress = s.below(2);
  Src t;
  t.state = s.below(100000);
  Mesh m(e.lib);
  bool reowned = false, six = false;
  std::string dir = e.scratch + "/v" + std::to_string(file_no++);
  TagSet tags;
  GMesh ga;
  if (in) {
    if (comm->rank() == 0) m = build_raw(e, r);
    m.set_comm(comm);
    if (nw > 1) migrate_to(m, p);
    if (k) m.set_parting(OMEGA_H_GHOSTED, k, false);
    if (ren) renumber(m, salt);
    tags_on(t, m);
    tags = vtk::get_all_vtk_tags(&m, m.dim());
    vtk::write_parallel(dir, &m, m.dim(), tags, compress);
    check_arrays(m, m.dim(), tags, slurp(dir + "/pieces/piece_" + std::to_string(comm->rank()) + ".vtu"), compress);
  }
  e.comm->barrier();
  Mesh n(e.lib);
  if (s.chance(30)) {
    n = read_mesh_file(dir + "/pieces.pvtu", e.comm);
  } else
    vtk::read_parallel(dir + "/pieces.pvtu", e.comm, &n);
  PCHECK(n.comm()->size() == e.np && n.comm()->rank() == e.rank, "communicator");
  if (in) {
    PCHECK(n.dim() == m.dim() && (n.dim() == 1 || n.family() == m.family()), "dimension or family");
    PCHECK(n.nverts() == m.nverts() && n.nelems() == m.nelems(), "local sizes changed");
    PCHECK(n.parting() == m.parting() && n.nghost_layers() == m.nghost_layers(), "partitioning mode " << n.parting() << "/" << n.nghost_layers() << " was " << m.parting() << "/" << m.nghost_layers());
    // local entities by global number
    for (int d : {0, m.dim()}) {
      if (nw == 1 && false) continue;
      std::map<GO, LO> a, b;
      auto ga2 = hv(m.globals(d)), gb2 = hv(n.globals(d));
      for (st i = 0; i < ga2.size(); ++i) a[ga2[i]] = LO(i);
      for (st i = 0; i < gb2.size(); ++i) b[gb2[i]] = LO(i);
      PCHECK(a.size() == ga2.size() && b.size() == gb2.size(), "repeated global numbers of dimension " << d);
      for (auto& x : a) PCHECK(b.count(x.first), "global number " << x.first << " of dimension " << d << " lost");
      auto oa = hv(m.ask_owners(d).ranks), ob = hv(n.ask_owners(d).ranks);
      if (nw > 1 && nw == e.np && d > 0)
        for (auto& x : a)
          if (k) reowned = reowned || oa[st(x.second)] != ob[st(b[x.first])];
          else if (oa[st(x.second)] != ob[st(b[x.first])]) PFAIL("dimension " << d << " entity " << x.first << " on rank " << e.rank << " was owned by " << oa[st(x.second)] << ", is read back owned by " << ob[st(b[x.first])]);
      if (d > 0) {
        auto va = hv(m.ask_elem_verts()), vb = hv(n.ask_elem_verts());
        auto g0 = hv(m.globals(0)), g1 = hv(n.globals(0));
        for (auto& x : a)
          for (int j = 0; j < r.deg; ++j) PCHECK(g0[st(va[st(x.second * r.deg + j)])] == g1[st(vb[st(b[x.first] * r.deg + j)])], "vertices of element " << x.first << " changed");
      }
      PCHECK(n.ntags(d) == m.ntags(d), "number of fields of dimension " << d << " " << m.ntags(d) << " became " << n.ntags(d));
      for (Int i = 0; i < m.ntags(d); ++i) {
        auto u = m.get_tag(d, i);
        TagBase const* v = nullptr;
        for (Int j = 0; j < n.ntags(d); ++j)
          if (n.get_tag(d, j)->name() == u->name()) v = n.get_tag(d, j);
        PCHECK(v, "field " << u->name() << " of dimension " << d << " lost");
        if (is6(m, u) && v->ncomps() == 3)
          { six = true; continue; }
        PCHECK(v->type() == u->type() && v->ncomps() == u->ncomps(), "field " << u->name() << " changed type or width");
        auto x = expect_tag(m, u, "").raw, y = expect_tag(n, v, "").raw;
        st w = a.empty() ? 0 : x.size() / a.size();
        for (auto& q : a) PCHECK(x.substr(st(q.second) * w, w) == y.substr(st(b[q.first]) * w, w), "field " << u->name() << " of entity " << q.first << " (dimension " << d << ") changed");
      }
    }
  } else
    PCHECK(n.nverts() == 0 && n.nelems() == 0, "a process without a piece holds entities");
  ConsOpt co;
  auto g = gather_checked(e, n, co);
  check_complex(g);
  wipe(e, dir);
  s.nontrivial(nw > 1 && r.ne() >= nw);
  if (ren) s.label("renumbered");
  s.label("ghost" + std::to_string(k));
  s.desc("np=", e.np, " pieces=", nw, " ", fam_name(r.fam), r.dim, "D ne=", r.ne(), " ghosts=", k, ren ? " renumbered" : "", compress ? " z" : "");
  if (e.np > 1) {
    int r2[2] = {reowned, six}, r3[2];
    MPI_Allreduce(r2, r3, 2, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    reowned = r3[0], six = r3[1];
  }
  s.finding(reowned, "vtk_ghosted_owners", "elements of a ghosted mesh written to VTK pieces are read back with other owners");
  s.finding(six, "vtk_2d_six_components", "a 6-component real field of a 2D mesh is read back with 3 components");
}
// ---- time series ---------------------------------------------------------------
static void series(Src& s, Env& e) {
  std::string dir = e.scratch + "/s" + std::to_string(file_no++);
  auto r = gen(s);
  auto m = build_raw(e, r);
  struct Step { I64 step; Real time; int val; };
  std::vector<Step> want;
  I64 next = 0;
  int phases = s.range(1, 3);
  Real t = 0;
  std::set<I64> used;
  bool numbered = s.chance(40);  // the writer counts the steps itself
  bool again = false;
  for (int ph = 0; ph < phases; ++ph) {
    Real restart = 0;
    if (ph) {
      restart = want.empty() ? 0 : s.below(2) ? want[s.below(want.size())].time : s.uniform(0, t + 1);
      // the times before the restart are kept, up to the first later one
      st k = 0;
      while (k < want.size() && want[k].time < restart) ++k;
      want.resize(k);
      t = restart;
    }
    vtk::Writer w(dir, &m, -1, restart, s.below(2));
    int n = s.range(0, 4);
    if (numbered) next = 0;
    again = again || (numbered && n && !want.empty());
    for (int i = 0; i < n; ++i) {
      int val = s.range(0, 1000);
      m.add_tag(0, "v", 1, Read<I32>(m.nverts(), val));
      Step x;
      x.step = next++;
      x.time = t;
      x.val = val;
      used.insert(x.step);
      if (numbered) {
        if (x.time == Real(x.step) && s.below(2)) w.write();
        else w.write(x.time);
      } else
        w.write(x.step, x.time, vtk::get_all_vtk_tags(&m, m.dim()));
      want.push_back(x);
      t += s.below(2) ? 1. : s.uniform(0.001, 2);
    }
  }
  std::vector<Real> times;
  std::vector<filesystem::path> paths;
  vtk::read_pvd(dir + "/steps.pvd", &times, &paths);
  PCHECK(times.size() == want.size() && paths.size() == want.size(), times.size() << " steps listed, expected " << want.size());
  bool lost = false;
  for (st i = 0; i < want.size(); ++i) {
    PCHECK(times[i] == want[i].time, "time of step " << i << " " << times[i] << " expected " << want[i].time);
    Mesh n(e.lib);
    vtk::read_parallel(paths[i], e.comm, &n);
    same_mesh(m, n);
    for (auto v : hv(n.get_array<I32>(0, "v"))) {
      if (again) lost = lost || v != want[i].val;
      else PCHECK(v == want[i].val, "step " << i << " holds the data of another step");
    }
  }
  for (auto i : used) wipe(e, dir + "/steps/step_" + std::to_string(i));
  ::rmdir((dir + "/steps").c_str());
  ::unlink((dir + "/steps.pvd").c_str());
  ::rmdir(dir.c_str());
  s.nontrivial(want.size() > 1);
  s.desc(phases, " runs, ", want.size(), " steps");
  s.finding(lost, "vtk_restart_numbering", "a writer that numbers steps itself starts again from zero after a restart, over the steps kept");
}
// ---- series of every dimension at once ---------------------------------------
static void full(Src& s, Env& e) {
  auto r = gen(s);
  auto p = gen_part(s, e.np, r.ne());
  Mesh m(e.lib);
  if (e.rank == 0) m = build_raw(e, r);
  m.set_comm(e.comm);
  if (e.np > 1) migrate_to(m, p);
  Src t;
  t.state = s.below(100000);
  for (int d = 1; d < r.dim; ++d) m.ask_down(r.dim, d);
  tags_on(t, m);
  std::string dir = e.scratch + "/f" + std::to_string(file_no++);
  bool compress = s.below(2), plain = s.below(2);
  int n = s.range(1, 3);
  std::vector<Real> at;
  {
    vtk::FullWriter w(dir, &m, 0., compress);
    Real x = 0;
    for (int i = 0; i < n; ++i) {
      at.push_back(plain ? Real(i) : x);
      if (plain) w.write();
      else w.write(x);
      x += s.uniform(0.001, 2);
    }
  }
  e.comm->barrier();
  for (int d = 1; d <= r.dim; ++d) {
    std::string sub = dir + "/" + dimensional_plural_name(d);
    std::vector<Real> times;
    std::vector<filesystem::path> paths;
    vtk::read_pvd(sub + "/steps.pvd", &times, &paths);
    PCHECK(times == at, "dimension " << d << ": times of the " << times.size() << " steps listed, " << n << " written");
    auto tags = vtk::get_all_vtk_tags(&m, d);
    for (int i = 0; i < n; ++i) {
      auto step = sub + "/steps/step_" + std::to_string(i);
      PCHECK(paths[st(i)].string() == step + "/pieces.pvtu", "step " << i << " is said to be in " << paths[st(i)].string());
      check_arrays(m, d, tags, slurp(step + "/pieces/piece_" + std::to_string(e.rank) + ".vtu"), compress);
      if (d == r.dim) {
        Mesh back(e.lib);
        vtk::read_parallel(paths[st(i)], e.comm, &back);
        same_mesh(m, back);
      }
    }
    e.comm->barrier();
    for (int i = 0; i < n; ++i) wipe(e, sub + "/steps/step_" + std::to_string(i));
    if (e.rank == 0) {
      ::rmdir((sub + "/steps").c_str());
      ::unlink((sub + "/steps.pvd").c_str());
      ::rmdir(sub.c_str());
    }
  }
  e.comm->barrier();
  if (e.rank == 0) ::rmdir(dir.c_str());
  s.nontrivial(r.dim > 1 && r.ne() > 1);
  s.desc(fam_name(r.fam), r.dim, "D ne=", r.ne(), " ", n, " steps, np ", e.np);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"serial", serial, 3000, 80000, {1}, true, "two or more elements and an attribute beyond the standard ones"},
    {"byteorder", byteorder, 2000, 40000, {1}, true, "big-endian, two or more elements"},
    {"parallel", parallel, 2000, 40000, {2, 3, 4}, true, "two or more pieces, at least as many elements as pieces"},
    {"series", series, 500, 8000, {1}, true, "two or more steps listed at the end"},
    {"full", full, 400, 8000, {1, 2, 3}, true, "two or more dimensions and elements"},
  });
}
