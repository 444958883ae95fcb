// one generated mesh, complete on every process and distributed, and the
// correspondence of their vertices
#ifndef DSET_HPP
#define DSET_HPP
#include "adapt.hpp"
namespace pbt {
typedef std::vector<Real> VR;
// a mesh, the same on several processes, and what is needed to compare them
struct Set {
  Problem p;
  Mesh ser;  // complete, on every process
  Mesh m;    // distributed
  int dim = 2;
  VR x;
  std::vector<int> gv;  // serial number of each local vertex
  std::vector<I8> own;
  Set(Env& e) : ser(e.lib), m(e.lib) {}
};
inline std::vector<int> full_part(Src& s, int np, int n) {
  if (n < np) throw Discard();
  auto p = gen_part(s, np, n);
  for (int r = 0; r < np; ++r) p[st(r)] = r;
  return p;
}
typedef std::function<void(Mesh&)> Dress;
inline void make_set(Src& s, Env& e, Set& S, int dim, Dress dress, ProbOpt o = ProbOpt(), std::function<void(Problem&)> warp = nullptr) {
  S.dim = dim;
  o.big = false;  // metrics of norm below 1e-10 count as asking for no size at all
  if (e.np > 1) o.small = true;
  S.p = gen_problem(s, dim, o);
  auto part = o.empties ? gen_part(s, e.np, S.p.ne()) : full_part(s, e.np, S.p.ne());
  int k = s.range(1, 2);
  auto build = [&]() {
    Mesh m = build_serial(e, S.p);
    if (warp) {
      Problem q = S.p;
      warp(q);
      m.set_coords(mk(q.x));
    }
    dress(m);
    return m;
  };
  S.ser = build();
  S.ser.set_comm(e.lib->self());
  S.x = hv(S.ser.coords());
  if (e.np == 1) {
    S.m = build();
    S.m.set_comm(e.lib->self());
    if (s.chance(30)) S.m.set_parting(OMEGA_H_GHOSTED, k, false);
  } else {
    Mesh m(e.lib);
    if (e.rank == 0) m = build();
    m.set_comm(e.comm);
    migrate_to(m, part);
    m.set_parting(OMEGA_H_GHOSTED, k, false);
    S.m = m;
  }
  // vertices are recognised by their position
  std::map<VR, int> at;
  for (int v = 0; v < S.ser.nverts(); ++v) at[VR(S.x.begin() + v * dim, S.x.begin() + (v + 1) * dim)] = v;
  auto lx = hv(S.m.coords());
  for (int v = 0; v < S.m.nverts(); ++v) {
    auto it = at.find(VR(lx.begin() + v * dim, lx.begin() + (v + 1) * dim));
    PCHECK(it != at.end(), "harness: vertex position");
    S.gv.push_back(it->second);
  }
  S.own = hv(S.m.owned(0));
}
// the values of a field on the serial vertices, on a mesh where the vertices are the serial ones
inline Dress with(std::string const& name, VR const* v, int nc) {
  return [=](Mesh& m) { m.add_tag<Real>(VERT, name, nc, mk(*v)); };
}
inline VR local(Set const& S, VR const& v, int nc) {
  VR r;
  for (int g : S.gv)
    for (int c = 0; c < nc; ++c) r.push_back(v[st(g * nc + c)]);
  return r;
}
// gather the owned values of a local array into serial order
inline VR collect(Env& e, Set& S, VR const& loc, int nc) {
  std::vector<double> flat;
  for (st v = 0; v < S.gv.size(); ++v)
    if (S.own[v]) {
      flat.push_back(S.gv[v]);
      for (int c = 0; c < nc; ++c) flat.push_back(loc[v * st(nc) + st(c)]);
    }
  auto all = allgather(e, flat);
  VR r(st(S.ser.nverts() * nc), NAN);
  for (st i = 0; i < all.size(); i += st(nc) + 1)
    for (int c = 0; c < nc; ++c) r[st(all[i]) * st(nc) + st(c)] = all[i + 1 + st(c)];
  // the copies must agree with their owners
  for (st v = 0; v < S.gv.size(); ++v)
    for (int c = 0; c < nc; ++c) {
      Real a = loc[v * st(nc) + st(c)], b = r[st(S.gv[v] * nc + c)];
      if (!(a == b) && !(a != a && b != b)) PFAIL("a copy of vertex " << S.gv[v] << " has " << a << ", its owner " << b);
    }
  return r;
}
// every connected part must have a vertex inside a region to fit at
inline bool has_interior(Set& S) {
  auto cd = hv(S.ser.get_array<I8>(VERT, "class_dim"));
  std::vector<bool> ok;
  for (auto c : cd) ok.push_back(c == S.dim);
  auto ev = verts_of(S.ser, 1);
  for (bool ch = true; ch;) {
    ch = false;
    for (auto& e : ev)
      if (ok[st(e[0])] != ok[st(e[1])]) ok[st(e[0])] = ok[st(e[1])] = ch = true;
  }
  for (auto o : ok)
    if (!o) return false;
  return true;
}
}  // namespace pbt
#endif
