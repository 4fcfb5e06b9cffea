// Shared runtime of all harnesses: seeded cases, counters, verdicts, watchdog,
// schedule perturbation. C++14, like the code under test.
#ifndef VF_COMMON_H
#define VF_COMMON_H

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vf
{
  // ---------------------------------------------------------------- PRNG
  struct Rng
  {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t next()
    {
      uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
      return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
    Rng fork() { return Rng(next()); }
  };

  inline uint64_t mix(uint64_t h, uint64_t v)
  {
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 33);
  }
  inline uint64_t hashStr(const std::string& s)
  {
    uint64_t h = 1469598103934665603ULL;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
  }

  // Names that are alike for most of their length: the same but for the end, or
  // but for one byte in the middle or at the front.
  inline size_t nameLength(Rng& r)
  {
    static const size_t at[] = {15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 1000, 1023, 1024, 4095, 4096, 10000, 65535, 65536};
    return at[r.chance(1, 8) ? r.below(sizeof at / sizeof *at) : r.below(14)];
  }
  inline std::string longName(Rng& r, size_t length)
  {
    std::string name = "/" + std::string(length - 1, 'k');
    switch(r.below(8))
    {
      case 0: case 1: case 2: break;
      case 3: name += 'x'; break;
      case 4: name += "/b"; break;
      case 5: name[length - 1] = 'x'; break;
      case 6: name[length / 2] = 'x'; break;
      default: name[1 % length] = 'x'; break;
    }
    return name;
  }

  std::string jsonEscape(const std::string& s);
  std::string printable(const std::string& s, size_t maxLen = 200);

  // ---------------------------------------------------------------- case context
  // Thread safe: handlers on other threads report through it too.
  struct Case
  {
    Rng rng;
    uint64_t index = 0;
    bool thorough = false;
    std::string scratch;   // private scratch directory of this process
    std::string aux;       // free argument of the driver (paths of helper binaries)

    void count(const std::string& name, uint64_t n = 1);
    void maxOf(const std::string& name, uint64_t n);
    void sig(uint64_t h);            // signature of this case: counted as distinct
    void fail(const std::string& key, const std::string& detail);
    bool failed();
    void require(bool ok, const std::string& key, const std::string& detail)
    {
      if(!ok) fail(key, detail);
    }
    void sample(const std::string& text);
    void inconclusive(const std::string& why);   // neither held nor violated
    void alive();                    // feeds the watchdog
    std::string config(const std::string& key, const std::string& dflt = "");
  };

  typedef std::function<void(Case&)> CaseFn;
  int run(int argc, char** argv, const std::map<std::string, CaseFn>& props);

  // Monotonic logical clock of call/return events.
  uint64_t tick();

  // A wait that is a bound on progress, not a verdict on time: true when pred
  // became true, false when `ms` went by without it. Feeds the watchdog.
  bool waitFor(Case& c, const std::function<bool()>& pred, int ms = 30000);

  // Progress made by the code under test (a handler ran, a record was written):
  // a wait does not give up while there is some.
  void progressed();

  // True when no other thread of the process wants a processor.
  bool processIdle(int samples = 50);

  // Schedule perturbation (function entry/exit hooks; see perturb.cpp).
  void perturb(unsigned level, uint64_t seed);   // 0 = off
  uint64_t perturbations();
  bool perturbing();

  // Bytes currently allocated, when built with ASan; otherwise mallinfo.
  size_t liveBytes();

  inline void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
}

#endif
