// C14: binary streams, base64 and text reals are lossless
#include <Omega_h_base64.hpp>
#include <Omega_h_file.hpp>
#include <zlib.h>
#include "arr.hpp"
using namespace pbt;
typedef std::size_t st;
// independent encoding of one value: its bytes in little-endian order, reversed when swapping
template <class T>
static void put(std::string& o, T v, bool swap) {
  u64 b = 0;
  std::memcpy(&b, &v, sizeof(T));
  for (st i = 0; i < sizeof(T); ++i) o.push_back(char((b >> (8 * (swap ? sizeof(T) - 1 - i : i))) & 0xff));
}
template <class T>
static T val(Src& s) {
  switch (s.weighted({3, 2, 2, 3})) {
    case 0: return T(s.range(0, 100));
    case 1: return T(-s.range(1, 100));
    case 2: return s.below(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
    default: return T(mix64(s.below(1ull << 40)));
  }
}
template <>
Real val<Real>(Src& s) {
  if (s.chance(12)) {
    u64 b = 0x7ff0000000000000ull | (s.below(2) << 63) | s.below(1ull << 52);  // infinities and NaN payloads
    Real r;
    std::memcpy(&r, &b, 8);
    return r;
  }
  return s.any_real();
}
struct Item {
  int kind = 0;   // 0 value 1 array 2 string
  int type = 0;   // 0 I8 1 I32 2 I64 3 Real
  bool swap = false, comp = false;
  std::vector<I8> a8;
  std::vector<I32> a32;
  std::vector<I64> a64;
  std::vector<Real> ar;
  std::string str;
};
template <class T>
static std::vector<T> vals(Src& s, int n) {
  std::vector<T> v;
  int mode = s.range(0, 2);
  T c = val<T>(s);
  for (int i = 0; i < n; ++i) v.push_back(mode == 0 ? val<T>(s) : mode == 1 ? c : T(mix64(u64(i) * 7 + 3)));
  return v;
}
static Item gen_item(Src& s) {
  Item it;
  it.kind = s.weighted({2, 4, 1});
  it.type = s.range(0, 3);
  it.swap = s.below(2);
  it.comp = s.below(2);
  int n = it.kind == 0 ? 1 : s.weighted({4, 1, 1}) == 0 ? s.range(0, 12) : s.range(0, 300);
  if (it.kind == 2) {
    for (int i = 0; i < n; ++i) it.str.push_back(char(s.below(256)));
    return it;
  }
  switch (it.type) {
    case 0: it.a8 = vals<I8>(s, n); break;
    case 1: it.a32 = vals<I32>(s, n); break;
    case 2: it.a64 = vals<I64>(s, n); break;
    default: it.ar = vals<Real>(s, n);
  }
  return it;
}
template <class T>
static void emit(std::ostream& o, Item const& it, std::vector<T> const& v) {
  st before = st(o.tellp());
  if (it.kind == 0)
    binary::write_value(o, v[0], it.swap);
  else
    binary::write_array(o, mk(v), it.comp, it.swap);
  auto bytes = static_cast<std::ostringstream&>(o).str().substr(before);
  std::string want, raw;
  for (auto x : v) put(raw, x, it.swap);
  if (it.kind == 1) put(want, I32(v.size()), it.swap);
  if (it.kind == 1 && it.comp) {
    PCHECK(bytes.size() >= 12 && bytes.substr(0, 4) == want, "header of a compressed array");
    std::string n8 = bytes.substr(4, 8);
    if (it.swap) n8 = std::string(n8.rbegin(), n8.rend());
    I64 cb;
    std::memcpy(&cb, n8.data(), 8);
    PCHECK(cb == I64(bytes.size()) - 12, "compressed length " << cb << " but " << bytes.size() - 12 << " bytes follow");
    std::string un(raw.size() + 16, 'x');
    uLong ul = uLong(un.size());
    int rc = ::uncompress(reinterpret_cast<Bytef*>(&un[0]), &ul, reinterpret_cast<Bytef const*>(bytes.data() + 12), uLong(cb));
    PCHECK(rc == Z_OK && un.substr(0, ul) == raw, "compressed payload");
  } else {
    want += raw;
    PCHECK(bytes == want, "written bytes differ from the format: " << json_str(bytes) << " expected " << json_str(want));
  }
}
static void emit_item(std::ostream& o, Item const& it) {
  if (it.kind == 2) {
    st before = st(o.tellp());
    binary::write(o, it.str, it.swap);
    std::string want;
    put(want, I32(it.str.size()), it.swap);
    PCHECK(static_cast<std::ostringstream&>(o).str().substr(before) == want + it.str, "written string");
    return;
  }
  switch (it.type) {
    case 0: emit(o, it, it.a8); break;
    case 1: emit(o, it, it.a32); break;
    case 2: emit(o, it, it.a64); break;
    default: emit(o, it, it.ar);
  }
}
template <class T>
static void absorb(std::istream& i, Item const& it, std::vector<T> const& v) {
  if (it.kind == 0) {
    T x;
    std::memset(&x, 0x5a, sizeof x);
    binary::read_value(i, x, it.swap);
    PCHECK(biteq(x, v[0]), "value read back " << +x << " written " << +v[0]);
  } else {
    Read<T> a;
    binary::read_array(i, a, it.comp, it.swap);
    same(a, v, "array read back");
  }
}
static void absorb_item(std::istream& i, Item const& it) {
  if (it.kind == 2) {
    std::string x = "junk";
    binary::read(i, x, it.swap);
    PCHECK(x == it.str, "string read back");
    return;
  }
  switch (it.type) {
    case 0: absorb(i, it, it.a8); break;
    case 1: absorb(i, it, it.a32); break;
    case 2: absorb(i, it, it.a64); break;
    default: absorb(i, it, it.ar);
  }
}
static void streams(Src& s, Env&) {
  int n = s.range(1, 5);
  std::vector<Item> its;
  std::ostringstream o;
  std::vector<st> ends;
  for (int i = 0; i < n; ++i) {
    its.push_back(gen_item(s));
    emit_item(o, its.back());
    ends.push_back(st(o.tellp()));
  }
  std::string bytes = o.str();
  {
    std::istringstream in(bytes + "tail");
    for (int i = 0; i < n; ++i) {
      absorb_item(in, its[st(i)]);
      PCHECK(st(in.tellg()) == ends[st(i)], "item " << i << " consumed up to " << in.tellg() << " of " << ends[st(i)]);
    }
  }
  // every truncation: whole items are still read, the cut one is reported
  int cuts = bytes.size() < 60 ? int(bytes.size()) : 20;
  bool any = false;
  for (int c = 0; c < cuts; ++c) {
    st cut = bytes.size() < 60 ? st(c) : st(s.below(bytes.size()));
    std::istringstream in(bytes.substr(0, cut));
    for (int i = 0; i < n; ++i) {
      if (ends[st(i)] <= cut) {
        absorb_item(in, its[st(i)]);
        continue;
      }
      st b = i ? ends[st(i - 1)] : 0;
      (void)b;
      bool threw = false;
      try {
        Item t = its[st(i)];
        absorb_item(in, t);
      } catch (Fail const&) {
        throw;
      } catch (std::exception const&) {
        threw = true;
      }
      if (!threw) PFAIL("item " << i << " cut at byte " << cut << " of [" << b << "," << ends[st(i)] << ") was read without an error");
      any = true;
      break;
    }
  }
  s.nontrivial(any && bytes.size() > 12);
  s.desc(n, " items, ", bytes.size(), " bytes");
}
// damage inside a compressed payload is reported, or harmless
template <class T>
static void damage_t(Src& s) {
  auto v = vals<T>(s, s.range(1, 200));
  std::ostringstream o;
  bool swap = s.below(2);
  binary::write_array(o, mk(v), true, swap);
  std::string b = o.str();
  int k = s.range(1, 3);
  for (int i = 0; i < k; ++i) b[12 + st(s.below(b.size() - 12))] ^= char(1 << s.below(8));
  std::istringstream in(b);
  bool threw = false;
  // what zlib makes of the damaged payload: an error it detects must be reported
  std::vector<T> z(v.size());
  uLong zl = uLong(v.size() * sizeof(T));
  int rc = ::uncompress(reinterpret_cast<Bytef*>(z.data()), &zl, reinterpret_cast<Bytef const*>(b.data() + 12), uLong(b.size() - 12));
  bool ok = rc == Z_OK && zl == v.size() * sizeof(T);
  Read<T> a;
  try {
    binary::read_array(in, a, true, swap);
  } catch (std::exception const&) {
    threw = true;
  }
  PCHECK(threw == !ok, "damaged compressed array: zlib " << rc << (threw ? " reported" : " accepted"));
  if (!threw) same(a, hv(binary::swap_bytes(mk(z), swap)), "damaged compressed array accepted with other values");
  s.nontrivial(threw);
  s.desc(v.size(), " values ", threw ? "reported" : "harmless");
}
static void damage(Src& s, Env&) {
  switch (s.range(0, 3)) {
    case 0: damage_t<I8>(s); break;
    case 1: damage_t<I32>(s); break;
    case 2: damage_t<I64>(s); break;
    default: damage_t<Real>(s);
  }
}
template <class T>
static void swap_t(Src& s) {
  auto v = vals<T>(s, s.range(0, 20));
  std::vector<T> w;
  for (auto x : v) {
    T y;
    auto p = reinterpret_cast<char*>(&x);
    auto q = reinterpret_cast<char*>(&y);
    for (st i = 0; i < sizeof(T); ++i) q[i] = p[sizeof(T) - 1 - i];
    w.push_back(y);
    T z = x;
    binary::swap_bytes(z);
    PCHECK(biteq(z, y), "swap_bytes of a value");
  }
  auto a = mk(v);
  same(binary::swap_bytes(a, true), w, "swap_bytes of an array");
  same(binary::swap_bytes(a, false), v, "swap_bytes off");
  same(a, v, "argument modified");
  s.nontrivial(v.size() > 1 && sizeof(T) > 1);
}
static void swaps(Src& s, Env&) {
  switch (s.range(0, 3)) {
    case 0: swap_t<I8>(s); break;
    case 1: swap_t<I32>(s); break;
    case 2: swap_t<I64>(s); break;
    default: swap_t<Real>(s);
  }
  std::uint64_t u = mix64(s.below(1000)), w = u;
  binary::swap_bytes(w);
  PCHECK(w == __builtin_bswap64(u), "swap_bytes(uint64)");
}
static char const* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref64(std::string const& b) {
  std::string o;
  for (st i = 0; i < b.size(); i += 3) {
    unsigned v = 0;
    st n = std::min<st>(3, b.size() - i);
    for (st j = 0; j < 3; ++j) v = (v << 8) | (j < n ? (unsigned char)b[i + j] : 0u);
    for (st j = 0; j < 4; ++j) o.push_back(j <= n ? A[(v >> (18 - 6 * j)) & 63] : '=');
  }
  return o;
}
static void b64(Src& s, Env&) {
  int n = s.weighted({3, 1}) == 0 ? s.range(0, 20) : s.range(0, 400);
  std::string b;
  for (int i = 0; i < n; ++i) b.push_back(char(s.below(256)));
  auto want = ref64(b);
  // heap copies so that sanitizers see any overrun
  std::vector<char> in(b.begin(), b.end());
  auto t = base64::encode(in.data(), in.size());
  PCHECK(t == want, "encode gives " << t << " expected " << want);
  PCHECK(base64::encoded_size(st(n)) == want.size(), "encoded_size(" << n << ")");
  std::vector<char> out(st(n) + 8, 'Z');
  base64::decode(t, out.data(), st(n));
  PCHECK(std::string(out.begin(), out.begin() + n) == b, "decode(encode(x)) != x");
  for (int i = 0; i < 8; ++i) PCHECK(out[st(n + i)] == 'Z', "decode wrote past the requested size");
  // text embedded in a stream
  char stop = s.pick({'<', '\n', ' ', '_', '-', '\0', char(0xff), char(0x80), '\t', '~', '"'});
  std::istringstream i(t + std::string(1, stop) + "AAAA");
  auto got = base64::read_encoded(i);
  PCHECK(got == t, "read_encoded stopped after " << got.size() << " of " << t.size());
  PCHECK(n == 0 || i.tellg() == std::streamoff(t.size()) + 1, "read_encoded consumed the wrong amount");
  std::istringstream i2(t);
  PCHECK(base64::read_encoded(i2) == t, "read_encoded at the end of the stream");
  if (n > 0) {
    // too short
    auto cut = t.substr(0, st(s.below(t.size())));
    bool threw = false;
    try {
      base64::decode(cut, out.data(), st(n));
    } catch (std::exception const&) {
      threw = true;
    }
    PCHECK(threw, "decode accepted " << cut.size() << " characters for " << n << " bytes");
    // a character outside the alphabet
    auto bad = t;
    int c;
    do c = int(s.below(256));
    while (c == '=' || (c != 0 && std::strchr(A, c)));
    bad[s.below(bad.size())] = char(c);
    threw = false;
    try {
      base64::decode(bad, out.data(), st(n));
    } catch (std::exception const&) {
      threw = true;
    }
    PCHECK(threw, "decode accepted character " << c);
  }
  s.nontrivial(n > 3);
  s.label("rem" + std::to_string(n % 3));
  s.desc(n, " bytes");
}
static void text(Src& s, Env& e) {
  int w = s.range(1, 6), n = s.range(0, 12);
  std::vector<Real> v;
  for (int i = 0; i < n * w; ++i) {
    Real x = s.any_real();
    if (!std::isfinite(x)) x = 0.1;
    v.push_back(x);
  }
  std::ostringstream o;
  auto path = e.scratch + "/reals.txt";
  bool file = s.chance(30);
  std::string txt;
  if (file) {
    write_reals_txt(filesystem::path(path), mk(v), w);
    same(read_reals_txt(filesystem::path(path), n, w), v, "text file of reals");
  }
  write_reals_txt(o, mk(v), w);
  txt = o.str();
  std::istringstream i(txt);
  same(read_reals_txt(i, n, w), v, "reals through text");
  // one line per item, w fields
  std::istringstream l(txt);
  std::string line;
  int nl = 0;
  while (std::getline(l, line)) {
    ++nl;
    std::istringstream f(line);
    std::string x;
    int k = 0;
    while (f >> x) ++k;
    PCHECK(k == w, "line with " << k << " fields, expected " << w);
  }
  PCHECK(nl == n, nl << " lines for " << n << " items");
  // missing data is reported
  std::istringstream i2(txt);
  bool threw = false;
  try {
    (void)read_reals_txt(i2, n + s.range(1, 3), w);
  } catch (std::exception const&) {
    threw = true;
  }
  PCHECK(threw, "reading more reals than the file holds was not reported");
  s.nontrivial(n * w > 1);
  s.desc(n, "x", w);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, {
    {"streams", streams, 20000, 300000, {1}, true, "more than 12 bytes and a truncation inside an item was tried"},
    {"damage", damage, 20000, 300000, {1}, true, "the damage was reported"},
    {"swaps", swaps, 3000, 60000, {1}, true, "two or more multi-byte values"},
    {"base64", b64, 60000, 1000000, {1}, true, "more than 3 bytes"},
    {"text", text, 20000, 200000, {1}, true, "two or more values"},
  });
}
