// A small property-based-testing engine.
//
// A test case is a sequence of integer choices drawn from a Src.  In search
// mode the choices come from a seeded generator and are recorded (also in an
// mmap'd journal, so a crash or hang can be attributed to its case); in replay
// mode they come from a file (out of range -> modulo, exhausted -> 0, which is
// by convention the simplest alternative).  The driver (tools/check.py) shrinks
// a failing choice sequence by re-running this program on smaller sequences.
#ifndef PBT_HPP
#define PBT_HPP
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <malloc.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include <Omega_h_library.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_fail.hpp>

namespace pbt {

typedef std::uint64_t u64;

struct Fail : public std::runtime_error {
  std::string slug;
  Fail(std::string const& m, std::string const& s = "")
      : std::runtime_error(m), slug(s) {}
};
// thrown when a generated case is outside the property's precondition
struct Discard {};

inline u64 mix64(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline u64 hash_str(std::string const& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

struct Journal {
  u64 magic;
  volatile u64 case_index;
  volatile u64 started;
  volatile u64 n;
  volatile u64 c[1 << 16];
};

class Src {
 public:
  std::vector<u64> choices;
  Journal* journal = nullptr;
  bool replay = false;
  std::size_t pos = 0;
  u64 state = 0;
  bool nontrivial_ = false;
  bool thorough = false;
  std::vector<std::string> labels_;
  std::string desc_;
  // the one primitive: uniform in [0,n), n>=1; 0 is the simplest value
  u64 below(u64 n) {
    u64 v;
    if (n == 0) n = 1;
    if (replay) {
      v = pos < in.size() ? in[pos] % n : 0;
      ++pos;
    } else {
      state += 0x9E3779B97F4A7C15ull;
      u64 z = state;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      z ^= z >> 31;
      v = z % n;
    }
    if (journal && choices.size() < (1u << 16)) {
      journal->c[choices.size()] = v;
      journal->n = choices.size() + 1;
    }
    choices.push_back(v);
    return v;
  }
  std::vector<u64> in;
  // integer in [lo,hi]; lo is the simplest
  int range(int lo, int hi) { return lo + int(below(u64(hi - lo) + 1)); }
  // true with probability num/den; false is simplest
  bool chance(int num, int den = 100) {
    return below(u64(den)) >= u64(den - num);
  }
  template <class T>
  T const& pick(std::vector<T> const& v) {
    return v[std::size_t(below(v.size()))];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + std::ptrdiff_t(below(v.size())));
  }
  // weighted index; simplest = 0
  int weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int r = int(below(u64(tot)));
    int i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  // uniform in [0,1) with 2^-30 resolution
  double unit() { return double(below(1u << 30)) / double(1u << 30); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  // a "nice" real: mixes small integers, dyadics, uniform reals
  double nice(double mag = 1.0) {
    switch (weighted({3, 2, 4, 1})) {
      case 0: return mag * double(range(0, 8) - 4) / 4.0;
      case 1: return mag * (below(2) ? 1.0 : -1.0) * double(range(0, 64)) / 64.0;
      case 2: return uniform(-mag, mag);
      default: return 0.0;
    }
  }
  // any double bit pattern, biased to interesting ones
  double any_real() {
    switch (weighted({2, 3, 3, 2, 2})) {
      case 0: return double(range(0, 20) - 10);
      case 1: return uniform(-10., 10.);
      case 2: {
        double m = uniform(0.5, 1.0);
        int e = range(0, 2000) - 1000;
        return (below(2) ? m : -m) * std::ldexp(1.0, e);
      }
      case 3: {
        static const double sp[] = {0., -0., 1e-320, -1e-320, 1.7976931348623157e308,
            -1.7976931348623157e308, 2.2250738585072014e-308, INFINITY, -INFINITY,
            1. / 3., 0.1, 1e22, 123456789.123456789};
        return sp[below(sizeof(sp) / sizeof(sp[0]))];
      }
      default: {
        u64 b = (below(1ull << 32) << 32) | below(1ull << 32);
        double d;
        std::memcpy(&d, &b, 8);
        if (std::isnan(d)) d = 3.0e5;
        return d;
      }
    }
  }
  std::vector<int> permutation(int n) {
    std::vector<int> p(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) p[std::size_t(i)] = i;
    for (int i = 0; i + 1 < n; ++i) {
      int j = i + int(below(u64(n - i)));
      std::swap(p[std::size_t(i)], p[std::size_t(j)]);
    }
    return p;
  }
  // a defect recorded in KNOWN_FINDINGS: tolerated during the search when
  // listed, thrown otherwise (also in replays).  Call it last in a case.
  std::string known_list;
  long* knowns = nullptr;
  void finding(bool fails, std::string const& slug, std::string const& msg) {
    if (!fails) return;
    if (!replay && ("," + known_list + ",").find("," + slug + ",") != std::string::npos) {
      if (knowns) ++*knowns;
      return;
    }
    throw Fail(msg, slug);
  }
  void label(std::string const& l) { labels_.push_back(l); }
  void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
  template <class... A>
  void desc(A const&... a) {
    if (desc_.size() > 400) return;
    std::ostringstream o;
    int dummy[] = {0, ((o << a), 0)...};
    (void)dummy;
    if (!desc_.empty()) desc_ += "; ";
    desc_ += o.str();
  }
};

static const int fresh_byte = 0x5a;  // what fresh memory is filled with
struct Env {
  Omega_h::Library* lib = nullptr;
  Omega_h::CommPtr comm;
  int rank = 0;
  int np = 1;
  std::string scratch;  // scratch directory (shared by all ranks)
};

struct Test {
  std::string name;
  std::function<void(Src&, Env&)> fn;
  int quick = 100;       // number of cases, quick tier
  int thorough = 1000;   // number of cases, thorough tier
  std::vector<int> nps = {1};  // process counts (cases are split over them)
  bool lib = true;       // needs the Omega_h library (MPI) initialised
  std::string rule;      // what makes a case non-trivial
};

inline void fail_(std::string const& m, char const* file, int line) {
  std::ostringstream o;
  char const* b = std::strrchr(file, '/');
  o << m << " (" << (b ? b + 1 : file) << ":" << line << ")";
  throw Fail(o.str());
}
#define PFAIL(msg)                                      \
  do {                                                  \
    std::ostringstream pbt_o_;                          \
    pbt_o_.precision(17);                               \
    pbt_o_ << msg;                                      \
    ::pbt::fail_(pbt_o_.str(), __FILE__, __LINE__);     \
  } while (0)
#define PCHECK(cond, msg)                               \
  do {                                                  \
    if (!(cond)) PFAIL("[" #cond "] " << msg);          \
  } while (0)

inline std::string json_str(std::string const& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o + "\"";
}

inline Journal* open_journal(std::string const& path) {
  int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return nullptr;
  if (ftruncate(fd, sizeof(Journal))) {}
  void* p = mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  ::close(fd);
  if (p == MAP_FAILED) return nullptr;
  auto j = static_cast<Journal*>(p);
  j->magic = 0x50425431;
  return j;
}

inline int run(int argc, char** argv, std::vector<Test> const& tests) {
  std::string test, journal, out, replay, scratch, known;
  u64 seed = 1;
  long start = 0, stride = 1, count = 0;
  double tlimit = 1e9;
  bool list = false, thorough = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") list = true;
    else if (a == "--test") test = nxt();
    else if (a == "--seed") seed = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--start") start = std::atol(nxt().c_str());
    else if (a == "--stride") stride = std::atol(nxt().c_str());
    else if (a == "--count") count = std::atol(nxt().c_str());
    else if (a == "--time") tlimit = std::atof(nxt().c_str());
    else if (a == "--journal") journal = nxt();
    else if (a == "--out") out = nxt();
    else if (a == "--replay") replay = nxt();
    else if (a == "--scratch") scratch = nxt();
    else if (a == "--known") known = nxt();
    else if (a == "--thorough") thorough = true;
  }
  if (list) {
    std::printf("[");
    bool first = true;
    for (auto& t : tests) {
      std::printf("%s{\"name\":%s,\"quick\":%d,\"thorough\":%d,\"lib\":%s,\"rule\":%s,\"nps\":[",
          first ? "" : ",\n", json_str(t.name).c_str(), t.quick, t.thorough,
          t.lib ? "true" : "false", json_str(t.rule).c_str());
      for (std::size_t i = 0; i < t.nps.size(); ++i)
        std::printf("%s%d", i ? "," : "", t.nps[i]);
      std::printf("]}");
      first = false;
    }
    std::printf("]\n");
    return 0;
  }
  Test const* t = nullptr;
  for (auto& x : tests)
    if (x.name == test) t = &x;
  if (!t) {
    std::fprintf(stderr, "no test %s\n", test.c_str());
    return 2;
  }
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_NO_RLIMIT)
  rl.rlim_cur = rl.rlim_max = 8ull << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  Env env;
  env.scratch = scratch.empty() ? "." : scratch;
  std::vector<char*> av(argv, argv + 1);
  av.push_back(nullptr);
  int ac = 1;
  char** avp = av.data();
  Omega_h::Library* lib = nullptr;
  if (t->lib) {
    lib = new Omega_h::Library(&ac, &avp);
    env.lib = lib;
    env.comm = lib->world();
    env.rank = env.comm->rank();
    env.np = env.comm->size();
  }
  // the library's signal handlers print stack traces; a crash is simply a
  // failing case here
  std::signal(SIGSEGV, SIG_DFL);
  std::signal(SIGABRT, SIG_DFL);
  std::signal(SIGFPE, SIG_DFL);
  std::signal(SIGILL, SIG_DFL);
  // fresh memory holds rubbish, so that values that were never set show
  ::mallopt(M_PERTURB, 0xff ^ fresh_byte);
  std::string suffix = env.np > 1 ? "." + std::to_string(env.rank) : "";
  Journal* j = journal.empty() ? nullptr : open_journal(journal + suffix);
  long evals = 0, discards = 0, knowns = 0;
  std::set<u64> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&]() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  };
  std::vector<u64> replay_choices;
  if (!replay.empty()) {
    FILE* f = std::fopen(replay.c_str(), "r");
    if (!f) return 2;
    unsigned long long v;
    while (std::fscanf(f, "%llu", &v) == 1) replay_choices.push_back(v);
    std::fclose(f);
    start = 0;
    stride = 1;
    count = 1;
  }
  bool timed_out = false;
  int rc = 0;
  for (long ci = start; ci < count; ci += stride) {
    // a time cap must be collective in parallel: no cap inside np>1 runs
    // (the driver kills overlong runs instead)
    if (env.np == 1 && elapsed() > tlimit) {
      timed_out = true;
      break;
    }
    if (env.np > 1) {
      int over = elapsed() > tlimit ? 1 : 0;
      over = env.comm->allreduce(over, OMEGA_H_MAX);
      if (over) {
        timed_out = true;
        break;
      }
    }
    Src s;
    s.thorough = thorough;
    s.known_list = known;
    s.knowns = &knowns;
    s.journal = j;
    if (!replay.empty()) {
      s.replay = true;
      s.in = replay_choices;
    } else {
      s.state = mix64(mix64(seed) ^ hash_str(t->name) ^ mix64(u64(ci) * 0x1000193));
    }
    if (j) {
      j->n = 0;
      j->case_index = u64(ci);
      j->started = j->started + 1;
    }
    std::string msg, slug;
    bool failed = false, discard = false;
    try {
      t->fn(s, env);
    } catch (Discard const&) {
      discard = true;
    } catch (Fail const& e) {
      failed = true;
      msg = e.what();
      slug = e.slug;
    } catch (std::exception const& e) {
      failed = true;
      msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      failed = true;
      msg = "unexpected exception of unknown type";
    }
    if (failed && !slug.empty() && (("," + known + ",").find("," + slug + ",") != std::string::npos) &&
        env.np == 1 && replay.empty()) {
      failed = false;
      ++knowns;
    }
    if (failed) {
      if (!out.empty()) {
        FILE* f = std::fopen((out + ".fail" + suffix).c_str(), "w");
        if (f) {
          std::fprintf(f, "{\"case\":%ld,\"message\":%s,\"slug\":%s,\"desc\":%s,\"choices\":[", ci,
              json_str(msg).c_str(), json_str(slug).c_str(), json_str(s.desc_).c_str());
          for (std::size_t i = 0; i < s.choices.size(); ++i)
            std::fprintf(f, "%s%llu", i ? "," : "", static_cast<unsigned long long>(s.choices[i]));
          std::fprintf(f, "]}\n");
          std::fclose(f);
        }
      }
      std::fprintf(stderr, "FAIL %s case %ld rank %d: %s | %s\n", t->name.c_str(), ci,
          env.rank, msg.c_str(), s.desc_.c_str());
      std::fflush(nullptr);
#ifdef OMEGA_H_USE_MPI
      if (env.np > 1) MPI_Abort(MPI_COMM_WORLD, 3);
#endif
      _exit(3);
    }
    ++evals;
    if (discard) ++discards;
    for (auto& l : s.labels_) ++labels[l];
    if (s.nontrivial_ && !discard) {
      u64 h = 0x1234;
      for (u64 c : s.choices) h = mix64(h ^ c);
      if (distinct.insert(h).second && samples.size() < 3 && !s.desc_.empty())
        samples.push_back(s.desc_);
    }
    if (!replay.empty() && env.rank == 0 && out.empty())
      std::printf("ok: %s\n", s.desc_.c_str());
  }
  if (!out.empty() && env.rank == 0) {
    FILE* f = std::fopen(out.c_str(), "w");
    if (f) {
      std::fprintf(f, "{\"evaluations\":%ld,\"discards\":%ld,\"knowns\":%ld,\"timed_out\":%s,\"wall\":%.3f,\"labels\":{",
          evals, discards, knowns, timed_out ? "true" : "false", elapsed());
      bool first = true;
      for (auto& kv : labels) {
        std::fprintf(f, "%s%s:%ld", first ? "" : ",", json_str(kv.first).c_str(), kv.second);
        first = false;
      }
      std::fprintf(f, "},\"samples\":[");
      first = true;
      for (auto& x : samples) {
        std::fprintf(f, "%s%s", first ? "" : ",", json_str(x).c_str());
        first = false;
      }
      std::fprintf(f, "],\"hashes\":[");
      first = true;
      for (u64 h : distinct) {
        std::fprintf(f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(h));
        first = false;
      }
      std::fprintf(f, "]}\n");
      std::fclose(f);
    }
  }
  std::fflush(nullptr);
  env.comm = Omega_h::CommPtr();
  if (lib) delete lib;
  return rc;
}

}  // namespace pbt
#endif
