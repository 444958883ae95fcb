// conversions between library arrays and std::vector
#ifndef ARR_HPP
#define ARR_HPP
#include <Omega_h_array.hpp>
#include <Omega_h_array_ops.hpp>
#include <cstring>
#include <sstream>
#include <vector>
#include "pbt.hpp"
namespace pbt {
using namespace Omega_h;
template <class T>
Write<T> mkw(std::vector<T> const& v) {
  HostWrite<T> h(LO(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i) h[LO(i)] = v[i];
  return h.write();
}
template <class T>
Read<T> mk(std::vector<T> const& v) {
  return Read<T>(mkw(v));
}
template <class T>
std::vector<T> hv(Read<T> const& a) {
  HostRead<T> h(a);
  std::vector<T> v(static_cast<std::size_t>(a.size()));
  for (LO i = 0; i < a.size(); ++i) v[std::size_t(i)] = h[i];
  return v;
}
template <class T>
std::vector<T> hv(Write<T> const& a) {
  return hv(Read<T>(a));
}
template <class T>
bool biteq(T a, T b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <class T>
std::string show(std::vector<T> const& v, std::size_t maxn = 12) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (std::size_t i = 0; i < v.size() && i < maxn; ++i) o << (i ? "," : "") << +v[i];
  if (v.size() > maxn) o << ",...n=" << v.size();
  o << "]";
  return o.str();
}
template <class T>
void same(std::vector<T> const& got, std::vector<T> const& want, std::string const& what) {
  if (got.size() != want.size())
    PFAIL(what << ": size " << got.size() << " expected " << want.size());
  for (std::size_t i = 0; i < got.size(); ++i)
    if (!biteq(got[i], want[i]))
      PFAIL(what << ": entry " << i << " is " << +got[i] << " expected " << +want[i]
                 << " got=" << show(got) << " want=" << show(want));
}
template <class T>
void same(Read<T> const& got, std::vector<T> const& want, std::string const& what) {
  same(hv(got), want, what);
}
template <class T>
void same(Write<T> const& got, std::vector<T> const& want, std::string const& what) {
  same(hv(got), want, what);
}
}  // namespace pbt
#endif
