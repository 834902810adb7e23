// Case loop, random numbers and reporting shared by all the drivers.
#pragma once
#include <unistd.h>
#include <fcntl.h>

#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

/** splitmix64: every case is a pure function of (seed, case number). */
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  /** Integer in [a, b] */
  long in(long a, long b) {
    if (b <= a) return a;
    return a + static_cast<long>(next() % static_cast<uint64_t>(b - a + 1));
  }
  double u() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * u(); }
  bool chance(double pr) { return u() < pr; }
  template<typename T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[in(0, static_cast<long>(i) - 1)]);
  }
  template<typename T>
  const T &pick(const std::vector<T> &v) {
    return v[in(0, static_cast<long>(v.size()) - 1)];
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xd6e8feb86659fd93ULL + 0x632be59bd9b4e019ULL));
  r.next();
  return r.next();
}

inline std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (static_cast<unsigned char>(c) < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

/** What happened in the run: violations, counters, distinct non-trivial cases */
struct Ctx {
  FILE *out = nullptr;
  long cur_case = 0;
  bool verbose = false;
  long n_viol = 0;
  std::map<std::string, long> cnt;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;

  void count(const std::string &k, long n = 1) { cnt[k] += n; }
  /** A non-trivial case, identified by the hash of what the monitors judged */
  void nontrivial(uint64_t h) { distinct.insert(h); }
  void sample(const std::string &s) {
    if (samples.size() < 2) samples.push_back(s);
  }
  void violation(const std::string &key, const std::string &msg) {
    n_viol++;
    if (!told(key)) return;
    std::fprintf(out, "{\"type\":\"viol\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n", cur_case,
                 esc(key).c_str(), esc(msg).c_str());
    std::fflush(out);
    if (verbose) std::fprintf(stderr, "VIOLATION %s: %s\n", key.c_str(), msg.c_str());
  }
  /** @return the condition, reporting if it is false */
  bool require(bool ok, const std::string &key, const std::function<std::string()> &msg) {
    count("monitor_evaluations");
    if (ok) return true;
    const auto it = in_case.find(key);
    if (cur_case == told_case && it != in_case.end() && it->second >= 5) n_viol++;
    else violation(key, msg());
    return false;
  }

private:
  /** Each kind is written a few times per case only: large meshes would give thousands */
  long told_case = -1;
  std::map<std::string, int> in_case;
  bool told(const std::string &key) {
    if (cur_case != told_case) {
      told_case = cur_case;
      in_case.clear();
    }
    return ++in_case[key] <= 5;
  }
};

struct Hash {
  uint64_t h = 1469598103934665603ULL;
  Hash &add(uint64_t v) {
    h = mix(h, v);
    return *this;
  }
  Hash &addd(double v) {
    uint64_t b;
    std::memcpy(&b, &v, 8);
    return add(b);
  }
  template<typename T>
  Hash &addv(const std::vector<T> &v) {
    add(v.size());
    for (const auto &x : v) {
      if constexpr (std::is_floating_point_v<T>)
        addd(static_cast<double>(x));
      else
        add(static_cast<uint64_t>(x));
    }
    return *this;
  }
};

template<typename T>
std::string str(const std::vector<T> &v, size_t lim = 200) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size() && i < lim; ++i) o << (i ? "," : "") << v[i];
  if (v.size() > lim) o << ",...";
  o << "]";
  return o.str();
}

/** Set for the few cases of a run that are to use a very large mesh; taken back by the mesh generator */
inline bool huge_now = false;

using CaseFn = void (*)(Rng &, Ctx &, uint64_t seed, long case_no);

/** A stream buffer that swallows the library's warnings */
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};

/** Driver entry point.
 *  --seed S --from A --to B --out FILE --progress FILE [--verbose] [--huge N: every N-th case with a very large mesh]
 */
inline int driver_main(int argc, char **argv, uint64_t tag, CaseFn fn) {
  uint64_t seed = 1;
  long from = 0, to = 1, huge = 0;
  std::string out = "/dev/stdout", progress;
  bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--seed")
      seed = std::stoull(nxt());
    else if (a == "--from")
      from = std::stol(nxt());
    else if (a == "--to")
      to = std::stol(nxt());
    else if (a == "--huge")
      huge = std::stol(nxt());
    else if (a == "--out")
      out = nxt();
    else if (a == "--progress")
      progress = nxt();
    else if (a == "--verbose")
      verbose = true;
    else {
      std::fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  auto &nb = *new NullBuf;  // must outlive the standard streams
  if (!verbose) {
    std::cout.rdbuf(&nb);
    std::cerr.rdbuf(&nb);
  }
  Ctx ctx;
  ctx.verbose = verbose;
  ctx.out = std::fopen(out.c_str(), "w");
  if (!ctx.out) return 3;
  int pfd = -1;
  if (!progress.empty()) {
    pfd = open(progress.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (pfd < 0) return 3;
  }
  for (long c = from; c < to; ++c) {
    if (pfd >= 0) {
      char b[32];
      std::memset(b, ' ', sizeof b);
      const int n = std::snprintf(b, sizeof b, "%ld", c);
      b[n] = ' ';
      b[sizeof b - 1] = '\n';
      if (pwrite(pfd, b, sizeof b, 0) < 0) return 3;
    }
    ctx.cur_case = c;
    huge_now = huge > 0 && c % huge == huge / 2;
    if (huge_now) ctx.count("very_large_meshes");
    Rng rng(mix(mix(seed, tag), static_cast<uint64_t>(c)));
    try {
      fn(rng, ctx, seed, c);
      ctx.count("cases");
    } catch (const std::exception &e) {
      ctx.violation("exception", std::string("unexpected exception on a valid input: ") + e.what());
    }
    if (ctx.n_viol >= 5) break;
  }
  std::fprintf(ctx.out, "{\"type\":\"end\",\"counters\":{");
  bool first = true;
  for (const auto &[k, v] : ctx.cnt) {
    std::fprintf(ctx.out, "%s\"%s\":%ld", first ? "" : ",", esc(k).c_str(), v);
    first = false;
  }
  std::fprintf(ctx.out, "},\"samples\":[");
  first = true;
  for (const auto &s : ctx.samples) {
    std::fprintf(ctx.out, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
    first = false;
  }
  std::fprintf(ctx.out, "],\"distinct\":[");
  first = true;
  for (auto h : ctx.distinct) {
    std::fprintf(ctx.out, "%s\"%016llx\"", first ? "" : ",", static_cast<unsigned long long>(h));
    first = false;
  }
  std::fprintf(ctx.out, "]}\n");
  std::fclose(ctx.out);
  return 0;
}

}  // namespace vf
