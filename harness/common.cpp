#include "common.h"

#include <cxxabi.h>
#include <fcntl.h>
#include <malloc.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>

#include <stdexcept>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vf
{
  namespace
  {
    std::mutex gMutex;
    std::map<std::string, uint64_t> gCounters;
    std::map<std::string, uint64_t> gMaxima;
    std::unordered_set<uint64_t> gSigs;
    std::vector<std::string> gSamples;
    std::vector<std::string> gInconclusive;
    bool gFailed = false;
    std::string gKey, gDetail;
    std::atomic<uint64_t> gTick(1);
    std::atomic<uint64_t> gAlive(0);
    std::atomic<uint64_t> gCaseIndex(0);
    std::map<std::string, std::string> gConfig;
    std::string gOut;
    std::string gProp;
    uint64_t gDone = 0;

    struct Progress { volatile uint64_t current; volatile uint64_t done; };
    Progress* gProgress = nullptr;

    void writeOut(const std::string& status)
    {
      std::ostringstream o;
      std::lock_guard<std::mutex> lock(gMutex);
      o << "{\"status\": \"" << status << "\", \"prop\": \"" << gProp << "\", \"cases\": " << gDone
        << ", \"case\": " << gCaseIndex.load();
      o << ", \"counters\": {";
      bool first = true;
      for(auto& p : gCounters) { o << (first ? "" : ", ") << "\"" << p.first << "\": " << p.second; first = false; }
      o << "}, \"maxima\": {";
      first = true;
      for(auto& p : gMaxima) { o << (first ? "" : ", ") << "\"" << p.first << "\": " << p.second; first = false; }
      o << "}, \"perturbations\": " << perturbations();
      o << ", \"samples\": [";
      first = true;
      for(auto& s : gSamples) { o << (first ? "" : ", ") << "\"" << jsonEscape(s) << "\""; first = false; }
      o << "], \"inconclusive\": [";
      first = true;
      for(auto& s : gInconclusive) { o << (first ? "" : ", ") << "\"" << jsonEscape(s) << "\""; first = false; }
      o << "], \"sigs\": [";
      first = true;
      for(uint64_t h : gSigs) { o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
      o << "], \"key\": \"" << jsonEscape(gKey) << "\", \"detail\": \"" << jsonEscape(gDetail) << "\"}\n";
      std::string tmp = gOut + ".tmp";
      FILE* f = fopen(tmp.c_str(), "w");
      if(f == nullptr) { fprintf(stderr, "cannot write %s\n", tmp.c_str()); _exit(3); }
      std::string text = o.str();
      fwrite(text.data(), 1, text.size(), f);
      fclose(f);
      rename(tmp.c_str(), gOut.c_str());
    }
  }

  std::string jsonEscape(const std::string& s)
  {
    std::string r;
    char buf[8];
    for(unsigned char c : s)
    {
      if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if(c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
      else r += (char)c;
    }
    return r;
  }

  std::string printable(const std::string& s, size_t maxLen)
  {
    std::string r;
    char buf[8];
    for(unsigned char c : s.substr(0, maxLen))
    {
      if(c < 0x20 || c >= 0x7f || c == '\\') { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
      else r += (char)c;
    }
    if(s.size() > maxLen) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
  }

  void Case::count(const std::string& name, uint64_t n) { std::lock_guard<std::mutex> l(gMutex); gCounters[name] += n; }
  void Case::maxOf(const std::string& name, uint64_t n)
  {
    std::lock_guard<std::mutex> l(gMutex);
    uint64_t& m = gMaxima[name];
    if(n > m) m = n;
  }
  void Case::sig(uint64_t h) { std::lock_guard<std::mutex> l(gMutex); if(gSigs.size() < 100000) gSigs.insert(h); }
  void Case::fail(const std::string& key, const std::string& detail)
  {
    std::lock_guard<std::mutex> l(gMutex);
    if(!gFailed) { gFailed = true; gKey = key; gDetail = detail; }
  }
  bool Case::failed() { std::lock_guard<std::mutex> l(gMutex); return gFailed; }
  void Case::sample(const std::string& t) { std::lock_guard<std::mutex> l(gMutex); if(gSamples.size() < 4) gSamples.push_back(t); }
  void Case::inconclusive(const std::string& why) { std::lock_guard<std::mutex> l(gMutex); gInconclusive.push_back(why); }
  void Case::alive() { gAlive++; }
  std::string Case::config(const std::string& key, const std::string& dflt)
  {
    auto it = gConfig.find(key);
    return it == gConfig.end() ? dflt : it->second;
  }

  uint64_t tick() { return gTick.fetch_add(1); }

  // Is any other thread of this process running or waiting for a processor?
  static bool otherThreadsRunnable()
  {
    bool runnable = false;
    long self = syscall(SYS_gettid);
    DIR* dir = opendir("/proc/self/task");
    if(dir == nullptr) return true;
    while(dirent* e = readdir(dir))
    {
      if(e->d_name[0] == '.' || atol(e->d_name) == self) continue;
      char path[300], buf[512];
      snprintf(path, sizeof path, "/proc/self/task/%s/stat", e->d_name);
      FILE* f = fopen(path, "r");
      if(f == nullptr) continue;
      size_t n = fread(buf, 1, sizeof buf - 1, f);
      fclose(f);
      buf[n] = 0;
      const char* p = strrchr(buf, ')');
      if(p != nullptr && p[1] != 0 && (p[2] == 'R' || p[2] == 'D')) runnable = true;
    }
    closedir(dir);
    return runnable;
  }

  bool processIdle(int samples)
  {
    int busy = 0;
    for(int i = 0; i < samples; ++i)
    {
      if(otherThreadsRunnable()) busy++;
      nap(20000);
    }
    return busy * 20 <= samples;
  }

  // Time this thread could have worked in: when the whole machine stands still
  // (suspended, moved), nobody had that time.
  struct Stopwatch
  {
    std::chrono::steady_clock::time_point last = std::chrono::steady_clock::now();
    std::chrono::steady_clock::duration sum = std::chrono::steady_clock::duration::zero();
    std::chrono::steady_clock::duration passed()
    {
      auto now = std::chrono::steady_clock::now();
      sum += std::min<std::chrono::steady_clock::duration>(now - last, std::chrono::milliseconds(200));
      last = now;
      return sum;
    }
  };

  static std::atomic<uint64_t> gProgressed(0);
  void progressed() { gProgressed.fetch_add(1, std::memory_order_relaxed); }

  // Gives up only `ms` after the last progress, and only when the process is at
  // rest (nothing left that could still make it true) or was busy for all that
  // time without getting there; a starved process gets up to four times as long.
  bool waitFor(Case& c, const std::function<bool()>& pred, int ms)
  {
    // a violation is on record: what else is waited for no longer decides
    if(c.failed()) ms = std::min(ms, 2000);
    Stopwatch since, overall;
    int spins = 0;
    uint64_t seen = gProgressed;
    auto worked = [] { timespec t = {}; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (int64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; };
    int64_t workedThen = worked();
    while(!pred())
    {
      c.alive();
      uint64_t now = gProgressed;
      if(now != seen && overall.passed() < std::chrono::seconds(100))
      {
        seen = now;
        workedThen = worked();
        since = Stopwatch();
      }
      auto spent = since.passed();
      // what is waited for is not held up by injected delays any longer
      if(spent > std::chrono::milliseconds(ms / 4) && perturbing()) perturb(0, 0);
      if(spent > std::chrono::milliseconds(ms) && (spent > std::chrono::milliseconds(4 * (int64_t)ms) || worked() - workedThen > std::max<int64_t>(2 * ms, 40000) || processIdle(50))) return pred();
      if(++spins < 50) std::this_thread::yield();
      else nap(spins < 500 ? 50 : 1000);
    }
    return true;
  }

  size_t liveBytes()
  {
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
#endif
  }

  int run(int argc, char** argv, const std::map<std::string, CaseFn>& props)
  {
    uint64_t seed = 1, start = 0, cases = 1, hangSeconds = 45;
    bool thorough = false;
    std::string scratch, aux, progress;
    for(int i = 1; i + 1 < argc; i += 2)
    {
      std::string a = argv[i], v = argv[i + 1];
      if(a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
      else if(a == "--start") start = strtoull(v.c_str(), nullptr, 10);
      else if(a == "--cases") cases = strtoull(v.c_str(), nullptr, 10);
      else if(a == "--prop") gProp = v;
      else if(a == "--out") gOut = v;
      else if(a == "--scratch") scratch = v;
      else if(a == "--aux") aux = v;
      else if(a == "--progress") progress = v;
      else if(a == "--hang") hangSeconds = strtoull(v.c_str(), nullptr, 10);
      else if(a == "--tier") thorough = v == "thorough";
      else if(a.compare(0, 6, "--cfg-") == 0) gConfig[a.substr(6)] = v;
      else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    auto it = props.find(gProp);
    if(it == props.end() || gOut.empty()) { fprintf(stderr, "no such property here: %s\n", gProp.c_str()); return 3; }

    if(!progress.empty())
    {
      int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
      if(fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { fprintf(stderr, "cannot open %s\n", progress.c_str()); return 3; }
      gProgress = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      close(fd);
      if(gProgress == MAP_FAILED) return 3;
    }

    // Watchdog: no step of the workload for hangSeconds. The driver runs the
    // case again before it calls that a hang.
    std::atomic<bool> over(false);
    std::thread dog([&]
      {
        uint64_t last = gAlive;
        Stopwatch since;
        while(!over)
        {
          std::this_thread::sleep_for(std::chrono::milliseconds(50));
          uint64_t now = gAlive;
          if(now != last) { last = now; since = Stopwatch(); }
          else if(since.passed() > std::chrono::seconds(hangSeconds))
          {
            // At rest: every thread waits for something, so it is a deadlock,
            // not a slow machine.
            bool idle = processIdle(150);
            if(gAlive != last) continue;
            writeOut(idle ? "deadlock" : "hang");
            _exit(77);
          }
        }
      });

    int rc = 0;
    for(uint64_t i = start; i < start + cases; ++i)
    {
      Case c;
      c.index = i;
      c.thorough = thorough;
      c.scratch = scratch;
      c.aux = aux;
      c.rng = Rng(mix(mix(seed, hashStr(gProp)), i));
      gCaseIndex = i;
      if(gProgress != nullptr) gProgress->current = i;
      c.alive();
      try
      {
        it->second(c);
      }
      catch(std::exception& e)
      {
        int status = 0;
        char* name = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
        c.fail(std::string("unexpected-exception:") + (name ? name : "?"), e.what());
        free(name);
      }
      perturb(0, 0);
      gDone++;
      if(gProgress != nullptr) gProgress->done = gDone;
      if(c.failed()) { rc = 10; break; }
    }
    over = true;
    dog.join();
    writeOut(rc == 0 ? "ok" : "violation");
    fflush(stdout);
    fflush(stderr);
    // Sanitizers report at exit as well; leaks are decided by R01's own monitor.
    exit(rc);
  }
}
