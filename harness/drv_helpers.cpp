// P32: small numerical and ordering helpers, against their definition.
// With VF_MIN only what the project's own tests name is used.
#include "oracles.h"
using namespace vf;
using namespace comma;

template<typename T>
static bool near(T a, T b, T scale) {
  return std::abs(a - b) <= 64 * std::numeric_limits<T>::epsilon() * scale + std::numeric_limits<T>::min();
}

template<typename T>
static std::string show(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(20);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << +v[i];
  o << "]";
  return o.str();
}

template<typename T>
static T number(Rng &r) {
  if constexpr (std::is_integral_v<T>)
    return static_cast<T>(r.in(-9, 9));
  else
    switch (r.in(0, 3)) {
      case 0: return static_cast<T>(r.in(-9, 9));
      case 1: return static_cast<T>(r.in(-100, 100)) / 16;
      case 2: return static_cast<T>((r.u() - 0.5) * 2);
      default: return static_cast<T>((r.u() - 0.5) * std::pow(10., static_cast<double>(r.in(-4, 4))));
    }
}

template<typename T>
static T abs_(T x) {
  return x < 0 ? -x : x;
}

/** Equal up to rounding, exactly for integers */
template<typename T>
static bool same(T a, T b) {
  if constexpr (std::is_integral_v<T>)
    return a == b;
  else
    return near(a, b, abs_(b));
}

#ifndef VF_MIN
template<typename T, unsigned int p>
static bool power(Ctx &c, T x, const char *type) {
  T want = 1;
  for (unsigned int i = 0; i < p; ++i) want *= x;
  const T got = int_power<p>(x);
  return c.require(same<T>(got, want), "power", [&] {
    return std::string(type) + " power " + std::to_string(p) + " of " + show(std::vector<T>{x}) + " gives " + show(std::vector<T>{got}) + ", expected "
      + show(std::vector<T>{want});
  });
}
#endif

template<typename T>
static bool powers(Rng &r, Ctx &c, const char *type) {
  const T x = number<T>(r);
  auto msg = [&] { return std::string(type) + " square or cube of " + show(std::vector<T>{x}) + ": " + show(std::vector<T>{_sq(x), _cb(x)}); };
  if (!c.require(same<T>(_sq(x), x * x) && same<T>(_cb(x), x * x * x), "square", msg)) return false;
  c.count("powers");
#ifndef VF_MIN
  return power<T, 0>(c, x, type) && power<T, 1>(c, x, type) && power<T, 2>(c, x, type) && power<T, 3>(c, x, type)
    && power<T, 4>(c, x, type) && power<T, 5>(c, x, type) && power<T, 6>(c, x, type) && power<T, 7>(c, x, type)
    && power<T, 8>(c, x, type) && power<T, 9>(c, x, type);
#else
  return true;
#endif
}

#ifndef VF_MIN
template<typename T>
static bool vectors(Rng &r, Ctx &c, const char *type, Hash &h) {
  const size_t n = static_cast<size_t>(r.in(2, 3));
  std::vector<T> a(n), b(n + (r.chance(0.3) ? 1 : 0));
  for (auto &x : a) x = number<T>(r);
  for (auto &x : b) x = number<T>(r);
  if (r.chance(0.05)) std::copy(a.begin(), a.end(), b.begin());
  auto msg = [&](const std::string &w, T got, T want) {
    return std::string(type) + " " + w + " of " + show(a) + " and " + show(b) + " gives " + show(std::vector<T>{got}) + ", expected "
      + show(std::vector<T>{want});
  };
  T dot = 0, dots = 0, sq = 0;
  for (size_t i = 0; i < n; ++i) {
    dot += a[i] * b[i];
    dots += std::abs(a[i] * b[i]);
    sq += (a[i] - b[i]) * (a[i] - b[i]);
    h.addd(static_cast<double>(a[i])).addd(static_cast<double>(b[i]));
  }
  const T gd = dot_product<T>(a, b), gs = squared_euclidean_distance<T>(a, b);
  if (!c.require(near(gd, dot, dots), "dot", [&] { return msg("dot product", gd, dot); })) return false;
  if (!c.require(near(gs, sq, sq), "distance", [&] { return msg("squared distance", gs, sq); })) return false;
  c.count("vectors");
  if (b.size() > n) c.count("longer_second_point");
  if (sq > 0) {
    std::vector<T> dir(n, T(7));
    const T norm = get_direction<T>(a, b, dir);
    if (!c.require(near(norm, static_cast<T>(std::sqrt(sq)), norm), "norm", [&] { return msg("distance along the direction", norm, std::sqrt(sq)); })) return false;
    for (size_t i = 0; i < n; ++i)
      if (!c.require(near(dir[i], static_cast<T>((b[i] - a[i]) / std::sqrt(sq)), T(1)), "direction", [&] {
            return msg("component " + std::to_string(i) + " of the direction", dir[i], (b[i] - a[i]) / std::sqrt(sq));
          }))
        return false;
    c.count("directions");
  }
  // 20 degrees are the limit
  const double deg = r.chance(0.5) ? 20. + (r.u() - 0.5) : r.u() * 180.;
  const T cs = static_cast<T>(std::cos(deg * std::acos(-1.) / 180.));
  const double off = std::min(std::fabs(deg - 20.), std::fabs(deg - 160.));
  if (off > 1e-3) {
    const bool want = deg > 20. && deg < 160.;
    if (!c.require(dot_deviate<T>(cs) == want, "deviate", [&] {
          return std::string(type) + " directions at " + std::to_string(deg) + " degrees are said to " + (want ? "be parallel" : "deviate");
        }))
      return false;
    c.count(want ? "deviating" : "parallel");
  }
  return true;
}
#endif

template<typename A, typename B>
static bool orders(Rng &r, Ctx &c, const char *type) {
  using P = std::pair<A, B>;
  std::vector<P> v(static_cast<size_t>(r.in(3, 12)));
  for (auto &p : v) p = {static_cast<A>(r.in(0, 6)), static_cast<B>(r.in(-3, 3)) / 2};
  auto txt = [&](const P &p) {
    std::ostringstream o;
    o << "(" << p.first << "," << p.second << ")";
    return o.str();
  };
  const CustomPairLessFunctor<P> less{};
  const CustomPairGreaterFunctor<P> greater{};
  for (const P &x : v)
    for (const P &y : v) {
      const bool wl = x.second < y.second || (x.second == y.second && x.first > y.first);
      const bool wg = x.second > y.second || (x.second == y.second && x.first < y.first);
      if (!c.require(less(x, y) == wl, "less", [&] { return std::string(type) + " less of " + txt(x) + " and " + txt(y); })) return false;
      if (!c.require(greater(x, y) == wg, "greater", [&] { return std::string(type) + " greater of " + txt(x) + " and " + txt(y); })) return false;
#ifndef VF_MIN
      if (!c.require(PairSecondBasedLessFunctor<P>{}(x, y) == (x.second < y.second), "second", [&] { return std::string(type) + " less by second element of " + txt(x) + " and " + txt(y); }))
        return false;
#endif
      c.count("pairs_compared");
      if (x.second == y.second && x.first != y.first) c.count("ties");
    }
#ifndef VF_MIN
  const std::set<P, CustomPairGreaterFunctor<P>> s(v.begin(), v.end());
  std::vector<A> want;
  for (const auto &p : s) want.push_back(p.first);
  if (!c.require(vector_of_first_elements(s) == want, "first-elements", [&] { return std::string(type) + " first elements of a set of pairs"; })) return false;
  const A t = static_cast<A>(r.in(0, 7));
  const auto it = std::find_if(v.begin(), v.end(), PairFindFirstBasedFunctor<P>(t));
  const auto wt = std::find_if(v.begin(), v.end(), [&](const P &p) { return p.first == t; });
  if (!c.require(it == wt, "find-first", [&] { return std::string(type) + " search of a pair by first element"; })) return false;
  std::unordered_map<A, B> d(v.begin(), v.end());
  std::unordered_set<A> keys;
  for (const auto &p : v) keys.insert(p.first);
  if (!c.require(d_keys_to_set(d) == keys, "keys", [&] { return std::string(type) + " keys of a map"; })) return false;
#endif
  return true;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  Hash h;
  h.add(static_cast<Ix>(r.in(0, 1L << 40)));
  if (!powers<int>(r, c, "int") || !powers<long>(r, c, "long") || !powers<float>(r, c, "float") || !powers<double>(r, c, "double")) return;
#ifndef VF_MIN
  if (!vectors<float>(r, c, "float", h) || !vectors<double>(r, c, "double", h)) return;
#endif
  if (!orders<Ix, double>(r, c, "(index, real)") || !orders<int, int>(r, c, "(int, int)") || !orders<unsigned, float>(r, c, "(unsigned, float)")) return;
  c.nontrivial(h.h);
}

int main(int argc, char **argv) { return driver_main(argc, argv, 132, one); }
