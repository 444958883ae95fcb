// C13: Gmsh files
#include <Omega_h_file.hpp>
#include <Omega_h_class.hpp>
#include <fstream>
#include <gmsh.h>
#include "pmesh.hpp"
using namespace pbt;
namespace {
struct Ent {
  int dim;
  VL v;      // file node indices (0-based positions in `x`)
  int id;    // geometric entity
};
struct Phys {
  int dim, id;
  std::vector<int> groups;
};
struct Model {
  Omega_h_Family fam;
  int dim = 0;
  std::vector<std::vector<Real>> x;  // node coordinates (3 each)
  std::vector<Ent> ents;
  std::vector<Phys> phys;            // geometric entities and their groups
  std::vector<std::string> names;    // names of groups 1..n
  // expectation
  std::map<std::set<int>, std::pair<int, int>> cls[4];
  std::map<std::string, std::set<std::pair<int, int>>> sets;
};
Model gen_model(Src& s, bool one_group) {
  Model m;
  m.fam = s.chance(35) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  m.dim = s.pick({2, 3, 1});
  if (m.dim == 1) m.fam = OMEGA_H_SIMPLEX;
  RawOpt o;
  o.max_cells = m.dim == 3 ? 4 : 9;
  o.jitter = true;
  auto r = gen_raw(s, m.fam, m.dim, o);
  for (int v = 0; v < r.nv; ++v) {
    std::vector<Real> p(3, 0.);
    for (int d = 0; d < m.dim; ++d) p[st(d)] = r.x[st(v * m.dim + d)];
    m.x.push_back(p);
  }
  int nid = s.range(1, 3);
  bool small = s.below(2);
  std::vector<std::vector<int>> ids(4);
  for (int d = 0; d <= 3; ++d)
    for (int i = 0; i < 3; ++i) ids[st(d)].push_back(small ? 1 + i : 1 + int(s.below(1000)));
  for (auto& v : ids)  // distinct within a dimension
    while (std::set<int>(v.begin(), v.end()).size() < v.size())
      for (st i = 1; i < v.size(); ++i) v[i] = v[0] + int(i) * 7;
  auto take = [&](int d) { return ids[st(d)][st(s.below(u64(nid)))]; };
  std::vector<Ent> elems;
  for (int i = 0; i < r.ne(); ++i) {
    Ent e{m.dim, slice(r.ev, i, r.deg), take(m.dim)};
    m.cls[m.dim][std::set<int>(e.v.begin(), e.v.end())] = {m.dim, e.id};
    m.ents.push_back(e);
  }
  int extra = s.pick({0, 20, 100});
  // sides, then lower entities: list everything the upward entities do not settle
  std::map<std::set<int>, VL> hi;
  for (auto& e : m.ents) hi[std::set<int>(e.v.begin(), e.v.end())] = e.v;
  for (int d = m.dim - 1; d >= 0; --d) {
    std::map<std::set<int>, VL> lo;
    std::map<std::set<int>, std::vector<std::set<int>>> up;
    for (auto& kv : hi)
      for (auto& t : down_tpl(m.fam, d + 1, d)) {
        VL v;
        for (auto j : t) v.push_back(kv.second[st(j)]);
        std::set<int> k(v.begin(), v.end());
        lo.emplace(k, v);
        up[k].push_back(kv.first);
      }
    for (auto& kv : lo) {
      int best = 9;
      std::set<int> bid;
      int n = 0;
      for (auto& u : up[kv.first]) {
        auto c = m.cls[d + 1].at(u);
        if (c.first < best) {
          best = c.first;
          bid.clear();
          n = 0;
        }
        if (c.first == best) {
          bid.insert(c.second);
          ++n;
        }
      }
      bool need = bid.size() > 1 || (best == d + 1 && n != 2) || (best > d + 1 && n < 2);
      if (need || s.chance(extra)) {
        Ent e{d, kv.second, take(d)};
        // any rotation, possibly flipped
        if (d == 1 && s.below(2)) std::swap(e.v[0], e.v[1]);
        if (d == 2) {
          std::rotate(e.v.begin(), e.v.begin() + long(s.below(e.v.size())), e.v.end());
          if (s.below(2)) std::reverse(e.v.begin(), e.v.end());
        }
        m.cls[d][kv.first] = {d, e.id};
        m.ents.push_back(e);
      } else {
        m.cls[d][kv.first] = {best, *bid.begin()};
      }
    }
    hi = lo;
  }
  // groups
  int ng = s.range(0, 3);
  bool named = s.below(2);
  if (named)
    for (int i = 0; i < ng; ++i) m.names.push_back(s.pick<std::string>({"a", "fixed-side", "Body_1", "$x"}) + std::to_string(i));
  std::set<std::pair<int, int>> have;
  for (auto& e : m.ents)
    if (have.insert({e.dim, e.id}).second) {
      Phys p{e.dim, e.id, {}};
      if (ng) {
        int k = s.range(0, one_group ? 1 : 2);
        std::set<int> gs;
        for (int i = 0; i < k; ++i) gs.insert(s.range(1, ng + (s.chance(10) ? 5 : 0)));
        p.groups.assign(gs.begin(), gs.end());
      }
      for (auto g : p.groups) m.sets[g <= int(m.names.size()) ? m.names[st(g - 1)] : std::to_string(g)].insert({p.dim, p.id});
      m.phys.push_back(p);
    }
  return m;
}
int gtype(Omega_h_Family f, int d) { return d == 0 ? 15 : d == 1 ? 1 : f == OMEGA_H_SIMPLEX ? (d == 2 ? 2 : 4) : (d == 2 ? 3 : 5); }
struct Out {
  std::string b;
  bool bin = false, swap = false;
  template <class T>
  void raw(T v) {
    char c[sizeof(T)];
    std::memcpy(c, &v, sizeof(T));
    if (swap) std::reverse(c, c + sizeof(T));
    b.append(c, sizeof(T));
  }
  void txt(std::string const& t) { b += t; }
  void i(int v, char const* sep = " ") {
    if (bin) raw<int>(v);
    else b += std::to_string(v) + sep;
  }
  void n(long v) {  // size_t
    if (bin) raw<long>(v);
    else b += std::to_string(v) + " ";
  }
  void d(Real v) {
    if (bin) raw<Real>(v);
    else {
      char c[40];
      std::snprintf(c, sizeof c, "%.17g ", v);
      b += c;
    }
  }
  void nl() {
    if (!bin) {
      if (!b.empty() && b.back() == ' ') b.pop_back();
      b += "\n";
    }
  }
};
std::string write_file(Src& s, Model const& m, double fmt, bool bin, bool swap) {
  Out o;
  o.bin = bin;
  o.swap = swap;
  if (!bin && s.chance(20)) o.txt("$Comments\nhello $Nodes\n$EndComments\n");
  o.txt("$MeshFormat\n" + std::string(fmt == 2.2 ? "2.2" : fmt == 4.0 ? "4" : "4.1") + (bin ? " 1" : " 0") + " 8\n");
  if (bin) {
    o.raw<int>(1);
    o.txt("\n");
  }
  o.txt("$EndMeshFormat\n");
  if (!m.names.empty()) {
    o.txt("$PhysicalNames\n" + std::to_string(m.names.size()) + "\n");
    for (st i = 0; i < m.names.size(); ++i) o.txt(std::to_string(m.dim) + " " + std::to_string(i + 1) + " \"" + m.names[i] + "\"\n");
    o.txt("$EndPhysicalNames\n");
  }
  auto box = [&](int k) { for (int i = 0; i < k; ++i) o.d(s.nice()); };
  if (fmt >= 4.0) {
    bool any = false;
    for (auto& p : m.phys) any = any || !p.groups.empty();
    if (any || s.below(2)) {
      o.txt("$Entities\n");
      std::vector<Phys const*> by[4];
      for (auto& p : m.phys) by[p.dim].push_back(&p);
      for (auto& l : by) o.n(long(l.size()));
      o.nl();
      for (int d = 0; d < 4; ++d)
        for (auto p : by[d]) {
          o.i(p->id);
          box(d == 0 && fmt > 4.0 ? 3 : 6);
          o.n(long(p->groups.size()));
          for (auto g : p->groups) o.i(g);
          if (d > 0) {
            int k = s.range(0, 3);
            o.n(k);
            for (int i = 0; i < k; ++i) o.i(s.range(0, 8) - 4);
          }
          if (!bin) o.b += s.pick<std::string>({"", " ", "  "});
          if (!bin) o.b += "\n";
        }
      if (bin) o.txt("\n");
      o.txt("$EndEntities\n");
    }
  }
  // node numbering
  int nn = int(m.x.size());
  std::vector<int> tag(static_cast<st>(nn)), order(static_cast<st>(nn));
  for (int i = 0; i < nn; ++i) {
    tag[st(i)] = i + 1;
    order[st(i)] = i;
  }
  if (fmt >= 4.0) {
    if (s.chance(70)) order = s.permutation(nn);
    if (s.chance(70)) {
      auto p = s.permutation(nn);
      int step = s.pick({1, 3, 1000}), off = s.pick({1, 0, 17});
      for (int i = 0; i < nn; ++i) tag[st(i)] = off + step * p[st(i)] + 1;
    }
  }
  o.txt("$Nodes\n");
  if (fmt < 4.0) {
    o.txt(std::to_string(nn) + "\n");
    for (int i = 0; i < nn; ++i) {
      o.i(i + 1);
      for (auto c : m.x[st(i)]) o.d(c);
      o.nl();
    }
  } else {
    // random blocks
    std::vector<int> cut{0};
    int nb = s.range(1, std::min(nn, 12));
    for (int i = 1; i < nb; ++i) cut.push_back(int(s.below(u64(nn) + 1)));
    cut.push_back(nn);
    std::sort(cut.begin(), cut.end());
    o.n(nb);
    o.n(nn);
    if (fmt > 4.0) {
      o.n(*std::min_element(tag.begin(), tag.end()));
      o.n(*std::max_element(tag.begin(), tag.end()));
    }
    o.nl();
    for (int b = 0; b < nb; ++b) {
      int d = s.range(0, m.dim), id = s.range(1, 9);
      o.i(fmt > 4.0 ? d : id);
      o.i(fmt > 4.0 ? id : d);
      o.i(0);
      o.n(cut[st(b) + 1] - cut[st(b)]);
      o.nl();
      if (fmt > 4.0) {
        for (int i = cut[st(b)]; i < cut[st(b) + 1]; ++i) {
          o.n(tag[st(order[st(i)])]);
          o.nl();
        }
        for (int i = cut[st(b)]; i < cut[st(b) + 1]; ++i) {
          for (auto c : m.x[st(order[st(i)])]) o.d(c);
          o.nl();
        }
      } else {
        for (int i = cut[st(b)]; i < cut[st(b) + 1]; ++i) {
          o.i(tag[st(order[st(i)])]);
          for (auto c : m.x[st(order[st(i)])]) o.d(c);
          o.nl();
        }
      }
    }
  }
  if (bin) o.txt("\n");
  o.txt("$EndNodes\n$Elements\n");
  // elements in random order; the hypercube elements may come before or after the rest
  std::vector<Ent> es;
  for (auto i : s.permutation(int(m.ents.size()))) es.push_back(m.ents[st(i)]);
  if (fmt < 4.0) {
    auto grp = [&](Ent const& e) {
      for (auto& p : m.phys)
        if (p.dim == e.dim && p.id == e.id) return p.groups.empty() ? 0 : p.groups[0];
      return 0;
    };
    o.txt(std::to_string(es.size()) + "\n");
    if (!bin) {
      int num = 1;
      for (auto& e : es) {
        int nt = s.range(2, 4);
        o.i(num++);
        o.i(gtype(m.fam, e.dim));
        o.i(nt);
        o.i(grp(e));
        o.i(e.id);
        for (int k = 2; k < nt; ++k) o.i(s.range(1, 3));
        for (auto v : e.v) o.i(v + 1);
        o.nl();
      }
    } else {
      if (s.below(2)) std::stable_sort(es.begin(), es.end(), [](Ent const& a, Ent const& b) { return a.dim < b.dim; });
      st i = 0;
      while (i < es.size()) {
        st j = i + 1;
        while (j < es.size() && es[j].dim == es[i].dim && s.chance(80)) ++j;
        int nt = s.range(2, 4);
        o.i(gtype(m.fam, es[i].dim));
        o.i(int(j - i));
        o.i(nt);
        for (; i < j; ++i) {
          o.i(int(i) + 1);
          o.i(grp(es[i]));
          o.i(es[i].id);
          for (int k = 2; k < nt; ++k) o.i(s.range(1, 3));
          for (auto v : es[i].v) o.i(v + 1);
        }
      }
    }
  } else {
    // blocks of one entity
    std::vector<std::vector<Ent>> blocks;
    std::map<std::pair<int, int>, st> open;
    for (auto& e : es) {
      auto k = std::make_pair(e.dim, e.id);
      auto it = open.find(k);
      if (it == open.end() || s.chance(5)) {
        open[k] = blocks.size();
        blocks.push_back({e});
      } else
        blocks[it->second].push_back(e);
    }
    o.n(long(blocks.size()));
    o.n(long(es.size()));
    if (fmt > 4.0) {
      o.n(1);
      o.n(long(es.size()));
    }
    o.nl();
    int num = 1;
    for (auto& b : blocks) {
      o.i(fmt > 4.0 ? b[0].dim : b[0].id);
      o.i(fmt > 4.0 ? b[0].id : b[0].dim);
      o.i(gtype(m.fam, b[0].dim));
      o.n(long(b.size()));
      o.nl();
      for (auto& e : b) {
        if (fmt > 4.0) o.n(num++);
        else o.i(num++);
        for (auto v : e.v) {
          if (fmt > 4.0) o.n(tag[st(v)]);
          else o.i(tag[st(v)]);
        }
        o.nl();
      }
    }
  }
  if (bin) o.txt("\n");
  o.txt("$EndElements\n");
  return o.b;
}
typedef std::vector<std::vector<Real>> Key;  // sorted vertex coordinates
void compare(Env& e, Mesh& mesh, Model const& m, bool orientation, std::string const& what) {
  PCHECK(mesh.dim() == m.dim && mesh.family() == m.fam, what << ": read a mesh of dimension " << mesh.dim() << " family " << int(mesh.family()));
  auto g = gather_checked(e, mesh);
  check_complex(g);
  PCHECK(g.ents[0].size() == m.x.size(), what << ": " << g.ents[0].size() << " vertices of " << m.x.size());
  std::map<std::vector<Real>, int> node;
  for (st i = 0; i < m.x.size(); ++i) node[std::vector<Real>(m.x[i].begin(), m.x[i].begin() + m.dim)] = int(i);
  std::map<GO, int> at;
  for (auto& kv : g.ents[0]) {
    auto c = coords_of(g, kv.first);
    auto it = node.find(c);
    PCHECK(it != node.end(), what << ": vertex at " << show(c) << " is not in the file");
    at[kv.first] = it->second;
  }
  for (int d = 0; d <= m.dim; ++d) {
    PCHECK(g.ents[d].size() == m.cls[d].size(), what << ": " << g.ents[d].size() << " entities of dimension " << d << ", the file describes " << m.cls[d].size());
    for (auto& kv : g.ents[d]) {
      std::set<int> k;
      for (auto v : kv.second.vg) k.insert(at.at(v));
      auto it = m.cls[d].find(k);
      PCHECK(it != m.cls[d].end(), what << ": entity of dimension " << d << " is not in the file");
      auto cd = tag_int(g, d, kv.second, "class_dim"), ci = tag_int(g, d, kv.second, "class_id");
      PCHECK(cd == it->second.first && ci == it->second.second, what << ": entity of dimension " << d << " classified (" << cd << "," << ci << "), the file says (" << it->second.first << "," << it->second.second << ")");
    }
  }
  if (orientation) {
    std::set<VL> want;
    for (auto& x : m.ents)
      if (x.dim == m.dim) want.insert(x.v);
    for (auto& kv : g.ents[m.dim]) {
      VL v;
      for (auto q : kv.second.vg) v.push_back(at.at(q));
      PCHECK(want.count(v), what << ": element vertex order " << show(v) << " is not the file's");
    }
  }
}
void check_sets(Mesh& mesh, std::map<std::string, std::set<std::pair<int, int>>> const& want, std::string const& what) {
  std::map<std::string, std::set<std::pair<int, int>>> got;
  for (auto& kv : mesh.class_sets) {
    for (auto& p : kv.second) PCHECK(got[kv.first].insert({int(p.dim), int(p.id)}).second, what << ": class set " << kv.first << " repeats an entity");
  }
  for (auto& kv : want) {
    auto it = got.find(kv.first);
    PCHECK(it != got.end(), what << ": physical group " << kv.first << " is missing");
    PCHECK(it->second == kv.second, what << ": physical group " << kv.first << " has " << it->second.size() << " entities, expected " << kv.second.size() << " or of other dimensions or tags");
  }
  for (auto& kv : got) PCHECK(want.count(kv.first), what << ": unexpected class set " << kv.first);
}
void own_writer(Src& s, Env& e) {
  double fmt = s.pick<double>({2.2, 4.0, 4.1});
  bool bin = s.below(2), swap = bin && s.below(2);
  auto m = gen_model(s, fmt < 4.0);
  auto text = write_file(s, m, fmt, bin, swap);
  bool path = s.below(2);
  Mesh mesh(e.lib);
  std::string what = std::string(bin ? (swap ? "swapped binary " : "binary ") : "ASCII ") + (fmt == 2.2 ? "2.2" : fmt == 4. ? "4.0" : "4.1");
  if (path) {
    auto fn = e.scratch + "/f.msh";
    if (e.rank == 0) std::ofstream(fn, std::ios::binary) << text;
    e.comm->barrier();
    mesh = Omega_h::gmsh::read(fn, e.comm);
  } else {
    std::istringstream in(text);
    mesh = Omega_h::gmsh::read(in, e.comm);
  }
  s.desc("np=", e.np, " ", what, " ", fam_name(m.fam), m.dim, "D nodes=", m.x.size(), " ents=", m.ents.size(), " groups=", m.sets.size());
  compare(e, mesh, m, true, what);
  check_sets(mesh, m.sets, what);
  s.label(what);
  // write and read back
  if (e.np == 1) {
    std::ostringstream os;
    Omega_h::gmsh::write(os, &mesh);
    if (getenv("SHOW")) puts(os.str().c_str());
    std::istringstream in(os.str());
    auto again = Omega_h::gmsh::read(in, e.comm);
    compare(e, again, m, true, "written and read back");
    // every vertex and element keeps its number
    same(again.coords(), hv(mesh.coords()), "coordinates after writing");
    same(again.ask_elem_verts(), hv(mesh.ask_elem_verts()), "elements after writing");
    for (int d = 0; d <= m.dim; ++d) {
      same(again.get_array<I8>(d, "class_dim"), hv(mesh.get_array<I8>(d, "class_dim")), "class_dim after writing");
      same(again.get_array<ClassId>(d, "class_id"), hv(mesh.get_array<ClassId>(d, "class_id")), "class_id after writing");
    }
  }
  s.nontrivial(m.ents.size() >= 6);
}
// files written by the Gmsh library itself
void gmsh_library(Src& s, Env& e) {
  static bool init = false;
  if (!init) {
    ::gmsh::initialize();
    ::gmsh::option::setNumber("General.Terminal", 0);
    init = true;
  }
  double fmt = s.pick<double>({2.2, 4.0, 4.1});
  bool bin = fmt != 4.0 && s.below(2);
  auto m = gen_model(s, fmt < 4.0);
  for (auto& p : m.x)  // the library writes 16 digits
    for (auto& c : p) c = std::round(c * 4096.) / 4096.;
  ::gmsh::clear();
  ::gmsh::model::add("m");
  for (int d = 0; d <= m.dim; ++d)
    for (auto& p : m.phys)
      if (p.dim == d) ::gmsh::model::addDiscreteEntity(d, p.id);
  int root = 0;
  for (auto& p : m.phys)
    if (p.dim == m.dim) root = p.id;
  std::vector<std::size_t> tags;
  std::vector<double> x;
  auto perm = s.permutation(int(m.x.size()));
  int step = fmt < 4. ? 1 : s.pick({1, 5});
  std::map<int, std::size_t> tag;
  for (st i = 0; i < m.x.size(); ++i) {
    tags.push_back(st(1 + step * int(i)));
    tag[perm[i]] = tags.back();
    for (auto c : m.x[st(perm[i])]) x.push_back(c);
  }
  ::gmsh::model::mesh::addNodes(m.dim, root, tags, x);
  for (auto& p : m.phys) {
    std::vector<std::size_t> et, en;
    for (auto& q : m.ents)
      if (q.dim == p.dim && q.id == p.id)
        for (auto v : q.v) en.push_back(tag.at(v));
    ::gmsh::model::mesh::addElementsByType(p.id, gtype(m.fam, p.dim), et, en);
  }
  // groups are numbered per file here, and each covers entities of one dimension
  std::map<std::pair<int, int>, int> num;
  std::map<std::string, std::set<std::pair<int, int>>> want;
  std::map<std::pair<int, int>, std::vector<int>> members;
  for (auto& p : m.phys)
    for (auto g : p.groups) members[{p.dim, g}].push_back(p.id);
  int k = 0;
  bool named = s.below(2);
  for (auto& kv : members) {
    int tg = ++k;
    ::gmsh::model::addPhysicalGroup(kv.first.first, kv.second, tg);
    std::string name = std::to_string(tg);
    if (named) {
      name = "grp" + std::to_string(tg);
      ::gmsh::model::setPhysicalName(kv.first.first, tg, name);
    }
    for (auto id : kv.second) want[name].insert({kv.first.first, id});
  }
  ::gmsh::option::setNumber("Mesh.MshFileVersion", fmt);
  ::gmsh::option::setNumber("Mesh.Binary", bin ? 1 : 0);
  ::gmsh::option::setNumber("Mesh.SaveAll", 1);
  auto fn = e.scratch + "/g.msh";
  ::gmsh::write(fn);
  ::gmsh::clear();
  std::string what = std::string("file of the Gmsh library, ") + (bin ? "binary " : "ASCII ") + (fmt == 2.2 ? "2.2" : fmt == 4. ? "4.0" : "4.1");
  s.desc(what, " ", fam_name(m.fam), m.dim, "D ents=", m.ents.size());
  auto mesh = Omega_h::gmsh::read(fn, e.comm);
  compare(e, mesh, m, true, what);
  // with SaveAll, format 2 files carry no group numbers
  if (fmt > 4.0 || fmt == 4.0) check_sets(mesh, want, what);
  s.label(what);
  s.nontrivial(m.ents.size() >= 6);
}
// a distributed mesh written piece by piece through the Gmsh library and read back
void gmsh_pieces(Src& s, Env& e) {
  static bool init = false;
  if (!init) {
    ::gmsh::initialize();
    ::gmsh::option::setNumber("General.Terminal", 0);
    init = true;
  }
  int dim = s.range(2, 3);
  RawOpt o;
  o.max_cells = dim == 3 ? 4 : 8;
  o.subset = s.chance(30);
  auto r = gen_raw(s, OMEGA_H_SIMPLEX, dim, o);
  for (auto& c : r.x) c = std::round(c * 4096.) / 4096.;
  Mesh m(e.lib);
  if (e.rank == 0 || e.np == 1) m = build_raw(e, r);
  m.set_comm(e.comm);
  bool empty = r.ne() < e.np;
  if (e.np > 1) {
    auto p = gen_part(s, e.np, r.ne());
    if (!empty)
      for (int q = 0; q < e.np; ++q) p[st(q)] = q;  // pieces without elements are not readable
    migrate_to(m, p);
  }
  if (empty) return;
  bool bin = s.below(2);
  ::gmsh::option::setNumber("Mesh.MshFileVersion", 4.1);  // format 2 renumbers elements
  ::gmsh::option::setNumber("Mesh.Binary", bin ? 1 : 0);
  ::gmsh::option::setNumber("Mesh.SaveAll", 1);
  auto a = gather_checked(e, m);
  ::gmsh::clear();
  Omega_h::gmsh::write_parallel(e.scratch + "/pieces", m);
  ::gmsh::clear();
  e.comm->barrier();
  auto n = Omega_h::gmsh::read_parallel(e.scratch + "/pieces", e.comm);
  e.comm->barrier();
  ::gmsh::clear();
  auto b = gather_checked(e, n);
  s.desc(dim, "D ", r.ne(), " elements in ", e.np, " pieces");
  PCHECK(b.dim == dim, "dimension " << b.dim);
  for (int d : {0, dim}) {
    PCHECK(a.ents[d].size() == b.ents[d].size(), a.ents[d].size() << " entities of dimension " << d << " became " << b.ents[d].size());
    auto ca = d ? nullptr : a.tag(0, "coordinates"), cb = d ? nullptr : b.tag(0, "coordinates");
    for (auto& kv : a.ents[d]) {
      auto it = b.ents[d].find(kv.first);
      PCHECK(it != b.ents[d].end(), "number " << kv.first << " of dimension " << d << " is gone");
      if (d) PCHECK(it->second.vg == kv.second.vg, "element " << kv.first << " has vertices " << show(it->second.vg) << " instead of " << show(kv.second.vg));
      if (!d)
        for (int c = 0; c < dim; ++c) PCHECK(kv.second.pay[st(ca->offset + c)] == it->second.pay[st(cb->offset + c)], "coordinate " << c << " of vertex " << kv.first << " is " << real_of(it->second.pay[st(cb->offset + c)]) << " instead of " << real_of(kv.second.pay[st(ca->offset + c)]));
    }
  }
  for (int d = 1; d < dim; ++d) PCHECK(a.ents[d].size() == b.ents[d].size(), a.ents[d].size() << " entities of dimension " << d << " became " << b.ents[d].size());
  s.nontrivial(e.np > 1 && r.ne() > 2);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"own_writer", own_writer, 3000, 60000, {1, 2}, true, "six or more listed entities"},
    {"gmsh_library", gmsh_library, 400, 4000, {1}, true, "six or more listed entities"},
    {"gmsh_pieces", gmsh_pieces, 250, 8000, {2, 3, 4, 1}, true, "several pieces, more than two elements"},
  });
}
