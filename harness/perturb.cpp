// Schedule perturbation: the code under test is compiled with
// -finstrument-functions, so every entry to and exit from one of its functions
// (and of the inline standard-library functions it uses: lock_guard, list,
// std::function, ...) is a point where a seeded thread-local generator may
// yield or sleep. Nothing in /repo is changed for it.
#include "common.h"

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

#define NOI __attribute__((no_instrument_function))

namespace
{
  std::atomic<unsigned> gLevel(0);
  std::atomic<uint64_t> gSeed(0);
  std::atomic<uint64_t> gThreads(0);
  std::atomic<uint64_t> gHits(0);
  std::atomic<int> gLong(0);                    // long naps left
  std::atomic<int> gSyncNaps(0);                // naps around synchronization left
  std::atomic<uint64_t> gPlaces[1024];          // long naps taken per place (hashed), with their epoch
  thread_local uint64_t tState = 0;
  thread_local uint64_t tEpoch = 0;
  thread_local bool tSlow = false;
}

namespace vf
{
  NOI void perturb(unsigned level, uint64_t seed) { gLong = 150; gSyncNaps = 400; gSeed = seed | 1; gLevel = level; }
  NOI bool perturbing() { return gLevel != 0; }
  NOI uint64_t perturbations() { return gHits; }
}

// Other programs built from the code under test are perturbed by environment.
NOI __attribute__((constructor)) static void fromEnvironment()
{
  const char* v = getenv("VF_PERTURB");
  if(v != nullptr && v[0] != 0) { gSeed = strtoull(v + 1, nullptr, 10) | 1; gLevel = (unsigned)(v[0] - '0'); gLong = 150; gSyncNaps = 400; }
}

extern "C"
{
  // At level 5 only every other thread is slow, so that the rest gets ahead of it.
  NOI static void enrol(uint64_t seed)
  {
    tEpoch = seed;
    tState = seed ^ (gThreads.fetch_add(1, std::memory_order_relaxed) * 0x9E3779B97F4A7C15ULL);
    tState ^= tState >> 31; tState *= 0xff51afd7ed558ccdULL; tState ^= tState >> 33; tState |= 1;
    tSlow = (tState >> 40) & 1;
  }

  NOI static inline void longNap()
  {
    if(gLong.fetch_sub(1, std::memory_order_relaxed) <= 0) { gLong.store(0, std::memory_order_relaxed); return; }
    gHits.fetch_add(1, std::memory_order_relaxed);
    struct timespec ts = { 0, (long)(1000000 + (tState & 0x3fffff)) };
    nanosleep(&ts, nullptr);
  }

  NOI static inline void point(void* fn, void* caller, bool leaving)
  {
    unsigned level = gLevel.load(std::memory_order_relaxed);
    if(level == 0) return;
    uint64_t seed = gSeed.load(std::memory_order_relaxed);
    if(tEpoch != seed) enrol(seed);
    tState ^= tState << 13; tState ^= tState >> 7; tState ^= tState << 17;
    unsigned r = (unsigned)(tState >> 20) & 0xffff;
    // level 1: rare, level 2: frequent, level 3: very frequent; levels 4 and 5: delays longer than a round trip over
    // a bus, rarely anywhere (4), or often, but a few times only, at some places that the seed selects (5)
    if(level == 4 && r < 24) { longNap(); return; }
    if(level == 5 && tSlow && r < 20000)
    {
      uint64_t h = (uint64_t)((char*)fn - (char*)&gLevel) * 2 + leaving;
      h = (h ^ seed) * 0xff51afd7ed558ccdULL + (uint64_t)((char*)caller - (char*)&gLevel);
      h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
      if(h % 24 == 0)
      {
        std::atomic<uint64_t>& place = gPlaces[(h >> 20) % 1024];
        uint64_t seen = place.load(std::memory_order_relaxed);
        uint64_t n = (seen ^ seed) < 16 ? (seen ^ seed) : 0;
        if(n < 3) { place.store(seed ^ (n + 1), std::memory_order_relaxed); longNap(); return; }
      }
    }
    unsigned yieldBelow = level == 1 || level >= 4 ? 64 : level == 2 ? 600 : 3000;
    unsigned sleepBelow = level == 1 || level >= 4 ? 2 : level == 2 ? 16 : 60;
    if(r < sleepBelow)
    {
      gHits.fetch_add(1, std::memory_order_relaxed);
      struct timespec ts = { 0, (long)(20000 + (tState & 0x3ffff)) };
      nanosleep(&ts, nullptr);
    }
    else if(r < yieldBelow)
    {
      gHits.fetch_add(1, std::memory_order_relaxed);
      sched_yield();
    }
  }
  NOI void __cyg_profile_func_enter(void* fn, void* caller) { point(fn, caller, false); }
  NOI void __cyg_profile_func_exit(void* fn, void* caller) { point(fn, caller, true); }
}

// Level 5 also naps before a lock is taken, after it is released and after a
// waiting thread is woken: few places, but those where an order is decided.
// (Not with TSan, which has functions of its own there.)
#ifndef VF_TSAN
namespace
{
  typedef int (*MutexFn)(pthread_mutex_t*);
  typedef int (*CondFn)(pthread_cond_t*);
  std::atomic<MutexFn> gLock(nullptr), gUnlock(nullptr);
  std::atomic<CondFn> gSignal(nullptr), gBroadcast(nullptr);
  thread_local int tInside = 0;

  template<class Fn> NOI Fn real(std::atomic<Fn>& at, const char* name)
  {
    Fn f = at.load(std::memory_order_relaxed);
    if(f == nullptr) { f = (Fn)(name[8] == 'c' ? dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2") : dlsym(RTLD_NEXT, name)); at.store(f, std::memory_order_relaxed); }
    return f;
  }
  NOI void syncPoint(unsigned oneIn)
  {
    if(gLevel.load(std::memory_order_relaxed) != 5 || tInside != 0) return;
    uint64_t seed = gSeed.load(std::memory_order_relaxed);
    if(tEpoch != seed) enrol(seed);
    if(!tSlow) return;
    tInside++;
    tState ^= tState << 13; tState ^= tState >> 7; tState ^= tState << 17;
    if((tState >> 20) % oneIn == 0 && gSyncNaps.fetch_sub(1, std::memory_order_relaxed) > 0)
    {
      gHits.fetch_add(1, std::memory_order_relaxed);
      struct timespec ts = { 0, (long)(500000 + ((tState >> 30) & 0x1fffff)) };
      nanosleep(&ts, nullptr);
    }
    tInside--;
  }
}

extern "C"
{
  NOI int pthread_mutex_lock(pthread_mutex_t* m) { syncPoint(20); return real(gLock, "pthread_mutex_lock")(m); }
  NOI int pthread_mutex_unlock(pthread_mutex_t* m) { int rc = real(gUnlock, "pthread_mutex_unlock")(m); syncPoint(8); return rc; }
  NOI int pthread_cond_signal(pthread_cond_t* c) { int rc = real(gSignal, "pthread_cond_signal")(c); syncPoint(10); return rc; }
  NOI int pthread_cond_broadcast(pthread_cond_t* c) { int rc = real(gBroadcast, "pthread_cond_broadcast")(c); syncPoint(10); return rc; }
}
#endif
