// A01..A06: request/response actions. Every request carries a unique number, so
// a response identifies the request it answers; recorded at the client boundary.
#include "tree.h"

#include <dlfcn.h>
#include <condition_variable>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <lamppost/bus/Bus.h>
#include <lamppost/utilities/Uuid.h>

using namespace vf;
using lp::bus::ActionConsumer;
using lp::bus::ActionProvider;
using lp::bus::Bus;
using lp::messages::Message;
namespace ex = lp::exceptions;

extern char** environ;

// ------------------------------------------------- spurious wakeups (plain)
// POSIX lets a condition wait return without a signal. A02 makes that frequent
// for the threads that wait for responses.
static thread_local bool tSpurious = false;
static std::atomic<uint64_t> gSpurious(0);
#if defined(VF_PLAIN)
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const struct timespec* ts)
{
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  static thread_local unsigned n = 0;
  if(tSpurious && ++n % 3 != 0)
  {
    struct timespec soon;
    clock_gettime(clock, &soon);
    soon.tv_nsec += 200000;
    if(soon.tv_nsec >= 1000000000) { soon.tv_sec++; soon.tv_nsec -= 1000000000; }
    if(soon.tv_sec < ts->tv_sec || (soon.tv_sec == ts->tv_sec && soon.tv_nsec < ts->tv_nsec))
    {
      gSpurious++;
      int rc = real(c, m, clock, &soon);
      return rc == ETIMEDOUT ? 0 : rc;
    }
  }
  return real(c, m, clock, ts);
}
#endif

namespace
{
  typedef std::chrono::steady_clock Clock;

  const char* const ACTIONS[] = {"/act", "/act/request", "/other", "", "/act2"};

  Datagram requestOf(int id, const Tree& payload)
  {
    Datagram d;
    d["id"] = id;
    d["p"] = toDatagram(payload);
    return d;
  }
  Datagram responseOf(int id, const std::string& by, const Tree& payload)
  {
    Datagram d;
    d["answers"] = id;
    d["by"] = by;
    d["p"] = toDatagram(payload);
    return d;
  }

  struct Request
  {
    std::string topic;
    Tree payload;
    std::string invocation;       // as the provider saw it
    int callbacks = 0;
    int seenByProviders = 0;
    bool sent = false;
    std::vector<int> answers;     // serials of the responses made for it
    int style = 0;                // how it is answered: 0 with a dictionary, 1 with nothing at all, 2 with a bare number
    int accepted = -1;
    std::string problem;
  };

  // Providers answer in a way each picks per request: at once, later from a
  // worker, several times, out of order.
  struct Stage
  {
    Case& c;
    std::shared_ptr<Bus> root;
    std::vector<std::shared_ptr<Bus>> busses;
    std::thread runner;
    std::mutex m;
    std::deque<Request> requests;
    std::map<int, Tree> responses;       // serial -> payload
    std::map<int, int> madeFor;          // serial -> request
    bool styles = false;
    int serial = 0;
    struct Pending { std::shared_ptr<ActionProvider> provider; std::string invocation; int id; int times; Clock::time_point due; };
    std::deque<Pending> pending;
    std::condition_variable cv;
    bool over = false;
    std::vector<std::thread> workers;
    TreeOpts to;

    Stage(Case& cc) : c(cc)
    {
      to.depth = 2;
      to.width = 3;
      to.noNan = true;
      root = std::make_shared<Bus>("root");
      busses.push_back(root);
      int n = (int)c.rng.below(4);
      for(int i = 0; i < n; ++i) busses.push_back(busses[c.rng.below(busses.size())]->CreateChildBus("b" + std::to_string(i)));
    }
    std::shared_ptr<Bus> anyBus(Rng& r) { return busses[r.below(busses.size())]; }

    void answer(const std::shared_ptr<ActionProvider>& p, const std::string& invocation, int id, const std::string& by, Rng& r)
    {
      Tree payload = randomTree(r, to);
      int s, style;
      {
        std::lock_guard<std::mutex> l(m);
        s = serial++;
        responses[s] = payload;
        madeFor[s] = id;
        requests[id].answers.push_back(s);
        style = requests[id].style;
      }
      Datagram d;
      if(style == 0) { d = responseOf(id, by, payload); d["serial"] = s; }
      if(style == 2) d = Datagram(s);
      if(style != 0) c.count(style == 1 ? "empty_responses" : "bare_responses");
      p->Respond(invocation, d);
      c.count("responses_sent");
    }

    void provide(const std::string& topic, Rng& r, int name, bool slow, bool prompt = false)
    {
      std::string by = "provider" + std::to_string(name);
      uint64_t seed = r.next();
      anyBus(r)->CreateActionProvider(topic,
        std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([this, topic, by, seed, slow, prompt](std::shared_ptr<ActionProvider> p, std::string invocation, Datagram d)
        {
          progressed();
          Datagram request = d["request"];
          int id = request.Get<int>("id", -1);
          std::string problem;
          {
            std::lock_guard<std::mutex> l(m);
            if(id < 0 || (size_t)id >= requests.size()) { c.fail("invented-request", "a provider was given a request nobody made"); return; }
            Request& x = requests[id];
            x.seenByProviders++;
            if(x.invocation.empty()) x.invocation = invocation;
            else if(x.invocation != invocation) problem = "two providers saw different invocation ids of one request";
            if(x.topic != topic) problem = "a request for '" + x.topic + "' reached a provider of '" + topic + "'";
            if(invocation.empty()) problem = "a request without an invocation id";
          }
          Datagram payload = request["p"];
          std::string diff = differs(payload, payloadOf(id));
          if(!diff.empty()) problem = "the request's content changed: " + diff;
          if(!problem.empty()) c.fail("request", problem);
          Rng q(mix(seed, id));
          switch(prompt ? 0 : q.below(slow ? 6 : 4))
          {
            case 0: answer(p, invocation, id, by, q); break;
            case 1: answer(p, invocation, id, by, q); answer(p, invocation, id, by, q); c.count("duplicate_responses"); break;
            default:
            {
              std::lock_guard<std::mutex> l(m);
              Pending w = { p, invocation, id, 1 + (int)q.below(2), Clock::now() + std::chrono::microseconds(q.below(slow ? 20000 : 2000)) };
              if(q.chance(1, 2)) pending.push_front(w); else pending.push_back(w);
              cv.notify_one();
            }
          }
        }));
    }
    void run(int nWorkers)
    {
      runner = std::thread([this] { root->Start(); });
      for(int i = 0; i < nWorkers; ++i)
      {
        uint64_t seed = c.rng.next();
        workers.emplace_back([this, seed, i]
          {
            Rng q(seed);
            std::unique_lock<std::mutex> l(m);
            for(;;)
            {
              cv.wait(l, [&] { return over || !pending.empty(); });
              if(pending.empty()) return;
              size_t k = q.below(pending.size());
              Pending w = pending[k];
              pending.erase(pending.begin() + k);
              l.unlock();
              std::this_thread::sleep_until(w.due);
              for(int t = 0; t < w.times; ++t) answer(w.provider, w.invocation, w.id, "worker" + std::to_string(i), q);
              w.provider.reset();
              l.lock();
            }
          });
      }
    }
    void stopAll()
    {
      { std::lock_guard<std::mutex> l(m); over = true; }
      cv.notify_all();
      for(auto& t : workers) t.join();
      workers.clear();
      root->Stop();
      runner.join();
    }
    // A response handed to the requester of `id`.
    void accept(int id, Datagram response)
    {
      progressed();
      std::string problem;
      int answers = -1, s = -1;
      int style;
      { std::lock_guard<std::mutex> l(m); style = requests[id].style; }
      if(style == 1)
      {
        std::lock_guard<std::mutex> l(m);
        requests[id].callbacks++;
        if(!response.IsEmpty()) c.fail("correlation", "a request that is answered with nothing at all was given something");
        c.count("responses_checked");
        return;
      }
      if(style == 2)
      {
        std::lock_guard<std::mutex> l(m);
        requests[id].callbacks++;
        s = response.GetType() == RawDatagramType::Value ? response.Get<int>() : -1;
        auto it = madeFor.find(s);
        if(it == madeFor.end() || it->second != id) c.fail("correlation", "a request that is answered with a number was given something else");
        else requests[id].accepted = s;
        c.count("responses_checked");
        return;
      }
      if(response.GetType() != RawDatagramType::Dictionary) problem = "no response, but a datagram of another kind";
      else { answers = response.Get<int>("answers", -1); s = response.Get<int>("serial", -1); }
      Tree expected;
      {
        std::lock_guard<std::mutex> l(m);
        Request& x = requests[id];
        x.callbacks++;
        if(problem.empty() && answers != id) problem = "request " + std::to_string(id) + " was given the response to request " + std::to_string(answers);
        if(problem.empty() && responses.find(s) == responses.end()) problem = "a response nobody made";
        if(problem.empty()) { expected = responses[s]; x.accepted = s; }
      }
      if(problem.empty()) { Datagram p = response["p"]; std::string diff = differs(p, expected); if(!diff.empty()) problem = "the response's content changed: " + diff; }
      if(!problem.empty()) c.fail("correlation", problem);
      c.count("responses_checked");
    }
    Tree payloadOf(int id) { std::lock_guard<std::mutex> l(m); return requests[id].payload; }
    int newRequest(const std::string& topic, Rng& r)
    {
      Tree t = randomTree(r, to);
      std::lock_guard<std::mutex> l(m);
      requests.emplace_back();
      requests.back().topic = topic;
      requests.back().payload = t;
      if(styles && r.chance(1, 5)) requests.back().style = 1 + (int)r.below(2);
      return (int)requests.size() - 1;
    }
  };

  // ------------------------------------------------------------ A01
  // Thousands of requests open at once.
  void manyOpen(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(2, 3) ? 0 : 1 + (unsigned)r.below(2), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child = root->CreateChildBus("child");
    const int N = 1500 + (int)r.below(c.thorough ? 12000 : 3000), C = 1 + (int)r.below(2), T = 1 + (int)r.below(3);
    std::mutex m;
    std::vector<std::pair<std::string, int>> open;
    std::shared_ptr<ActionProvider> provider = child->CreateActionProvider(std::string("/many"),
      std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider>, std::string invocation, Datagram d)
        {
          std::lock_guard<std::mutex> l(m);
          open.push_back({invocation, d["request"].Get<int>()});
          progressed();
        }));
    std::vector<std::shared_ptr<ActionConsumer>> consumers;
    for(int i = 0; i < C; ++i) consumers.push_back((i ? child : root)->CreateActionConsumer(std::string("/many")));
    std::vector<std::atomic<int>> called((size_t)N);
    for(auto& x : called) x = 0;
    std::thread runner([&] { root->Start(); });
    std::vector<std::thread> ts;
    // Requests of threads that live one after the other: the system gives each the identifier of the one before.
    const bool successors = r.chance(1, 2);
    auto on = [&](int i, std::function<void()> f) { if(successors && i % 8 == 0) std::thread(f).join(); else f(); };
    for(int t = 0; t < T; ++t)
      ts.emplace_back([&, t]
        {
          for(int i = t; i < N; i += T)
          {
            on(i, [&, i] { consumers[(size_t)i % consumers.size()]->RequestAsync(Datagram(i), [&, i](Datagram d)
              {
                called[(size_t)i]++;
                progressed();
                if(d.GetType() != RawDatagramType::Value || d.Get<int>() != i) c.fail("correlation", "request " + std::to_string(i) + " was given something else than its response");
              }); });
            if(successors && i % 8 == 0) c.count("requests_of_successive_threads");
            if(i % 64 == 0) c.alive();
          }
        });
    for(auto& t : ts) t.join();
    waitFor(c, [&] { std::lock_guard<std::mutex> l(m); return (int)open.size() >= N; }, 4000);
    {
      std::vector<std::pair<std::string, int>> all;
      { std::lock_guard<std::mutex> l(m); all = open; }
      if((int)all.size() < N) c.fail("lost", "of " + std::to_string(N) + " requests " + std::to_string(all.size()) + " reached the provider");
      for(size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
      for(auto& x : all) { provider->Respond(x.first, Datagram(x.second)); if(r.chance(1, 10)) provider->Respond(x.first, Datagram(x.second)); }
    }
    auto missing = [&] { int n = 0; for(auto& x : called) if(x == 0) n++; return n; };
    waitFor(c, [&] { return missing() == 0; }, 4000);
    nap(2000);
    root->Stop();
    runner.join();
    perturb(0, 0);
    if(missing() > 0) c.fail("lost", "of " + std::to_string(N) + " requests that were open at once and all answered, " + std::to_string(missing()) + " were never called back");
    for(auto& x : called) if(x > 1) c.fail("answered-twice", "the callback of a request ran " + std::to_string(x.load()) + " times");
    c.count("requests_open_at_once", (uint64_t)N);
    c.maxOf("requests_open_at_once", (uint64_t)N);
    c.sig(mix((uint64_t)N, r.next()));
    c.sample(std::to_string(N) + " requests of " + std::to_string(T) + " threads open at once, answered in random order");
  }

  void caseA01(Case& c)
  {
    Rng& r = c.rng;
    if(c.index % 12 == 11) { manyOpen(c); return; }
    Stage st(c);
    st.styles = true;
    std::vector<std::string> topics;
    // prompt: one provider that answers at once, and only once, so that no second answer makes up for a lost one
    bool prompt = r.chance(1, 3);
    int nt = prompt ? 1 : 1 + (int)r.below(3);
    size_t longOnes = r.chance(1, 5) ? nameLength(r) : 0;
    if(longOnes != 0) c.count("long_names");
    for(int i = 0; i < nt; ++i) topics.push_back(longOnes != 0 ? longName(r, longOnes) : ACTIONS[r.below(5)]);
    int np = 0;
    for(auto& t : topics) { int n = prompt || r.chance(1, 2) ? 1 : 1 + (int)r.below(3); for(int i = 0; i < n; ++i) st.provide(t, r, np++, false, prompt); }
    struct Client { std::shared_ptr<ActionConsumer> consumer; std::string topic; };
    std::vector<Client> clients;
    int nc = 1 + (int)r.below(5);
    for(int i = 0; i < nc; ++i) { Client k; k.topic = r.pick(topics); k.consumer = st.anyBus(r)->CreateActionConsumer(k.topic); clients.push_back(k); }
    st.run(1 + (int)r.below(3));
    perturb(r.chance(1, 4) ? 0 : r.chance(prompt ? 3 : 1, 4) ? 5 : 1 + (unsigned)r.below(5), r.next());
    int T = 1 + (int)r.below(4), per = 5 + (int)r.below(c.thorough ? 60 : 25);
    std::vector<std::thread> ts;
    // paced: the next request is made when the one before has been answered, so that the bus is idle when it is made
    bool paced = r.chance(prompt ? 3 : 2, 4);
    std::function<int(Client, uint64_t, int)> send = [&](Client k, uint64_t seed, int depth)
      {
        Rng q(seed);
        int id = st.newRequest(k.topic, q);
        uint64_t next = q.next();
        bool chain = depth < 3 && q.chance(1, 5);
        k.consumer->RequestAsync(requestOf(id, st.payloadOf(id)),
          [&st, id, &send, k, next, depth, chain](Datagram response)
          {
            st.accept(id, response);
            // a callback may make requests of its own
            if(chain) { st.c.count("requests_from_callbacks"); send(k, next, depth + 1); }
          });
        { std::lock_guard<std::mutex> l(st.m); st.requests[id].sent = true; }
        c.count("requests");
        return id;
      };
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          for(int i = 0; i < per; ++i)
          {
            int id = -1;
            if(q.chance(1, 10)) { std::thread([&] { id = send(clients[q.below(clients.size())], q.next(), 0); }).join(); c.count("requests_of_successive_threads"); }
            else id = send(clients[q.below(clients.size())], q.next(), 0);
            if(paced)
            {
              for(int k = 0; k < 100; ++k) { { std::lock_guard<std::mutex> l(st.m); if(st.requests[id].callbacks > 0) break; } nap(100); }
              c.count("paced_requests");
            }
            else if(q.chance(1, 6)) nap((int)q.below(200));
          }
        });
    }
    for(auto& t : ts) t.join();
    perturb(0, 0);
    bool done = waitFor(c, [&]
      {
        std::lock_guard<std::mutex> l(st.m);
        for(auto& x : st.requests) if(!x.sent || x.callbacks == 0) return false;
        return st.pending.empty();
      }, 4000);
    nap(3000);
    st.stopAll();
    if(!done)
      for(size_t i = 0; i < st.requests.size(); ++i)
        if(st.requests[i].callbacks == 0)
          c.fail("lost", "request " + std::to_string(i) + " on '" + st.requests[i].topic + "' was seen by " + std::to_string(st.requests[i].seenByProviders) + " providers, answered " +
            std::to_string(st.requests[i].answers.size()) + " times, and its callback never ran");
    uint64_t h = 1;
    std::set<std::string> ids;
    for(size_t i = 0; i < st.requests.size(); ++i)
    {
      Request& x = st.requests[i];
      h = mix(h, mix(x.answers.size(), x.accepted));
      if(x.callbacks > 1) c.fail("answered-twice", "the callback of request " + std::to_string(i) + " ran " + std::to_string(x.callbacks) + " times");
      if(!x.answers.empty() && x.accepted != -1 && std::find(x.answers.begin(), x.answers.end(), x.accepted) == x.answers.end()) c.fail("correlation", "a response made for another request was accepted");
      if(!x.invocation.empty() && !ids.insert(x.invocation).second) c.fail("shared-invocation", "two requests share the invocation id " + x.invocation);
      if(x.answers.size() > 1) c.count("requests_answered_repeatedly");
    }
    bool refused = false;
    try { clients[0].consumer->RequestAsync(Datagram(1)); } catch(ex::ArgumentNullException&) { refused = true; }
    c.require(refused, "null-callback", "an asynchronous request without a callback was accepted");
    c.sig(h);
    c.sample(std::to_string(st.requests.size()) + " requests of " + std::to_string(T) + " threads over " + std::to_string(nc) + " consumers, " + std::to_string(np) + " providers, " + std::to_string(st.serial) + " responses");
  }

  // ------------------------------------------------------------ A02
  void caseA02(Case& c)
  {
    Rng& r = c.rng;
    Stage st(c);
    std::string topic = r.chance(1, 6) ? longName(r, nameLength(r)) : ACTIONS[r.below(5)];
    int mode = (int)r.below(4);   // 0: answered, long patience; 1: never answered; 2, 3: close to the timeout
    bool provided = mode != 1;
    st.styles = mode == 0;
    std::atomic<int> handlerIds(0);
    int delayUs = mode == 0 ? (int)r.below(3000) : 0;
    if(provided && mode >= 2) st.provide(topic, r, 0, true);
    if(provided && mode < 2)
    {
      uint64_t seed = r.next();
      st.anyBus(r)->CreateActionProvider(topic, std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&, seed, delayUs](std::shared_ptr<ActionProvider> p, std::string invocation, Datagram d)
        {
          progressed();
          Datagram request = d["request"];
          int id = request.Get<int>("id", -1);
          if(id < 0) { c.fail("invented-request", "a provider was given a request nobody made"); return; }
          if(delayUs) nap(delayUs);
          Rng q(mix(seed, id));
          st.answer(p, invocation, id, "p", q);
        }));
    }
    std::vector<std::shared_ptr<ActionConsumer>> consumers;
    int nc = 1 + (int)r.below(3);
    for(int i = 0; i < nc; ++i) consumers.push_back(st.anyBus(r)->CreateActionConsumer(topic));
    st.run(2);
    perturb(r.chance(1, 3) ? 0 : r.chance(1, 3) ? 4 + (unsigned)r.below(2) : 1 + (unsigned)r.below(2), r.next());
    int T = 1 + (int)r.below(4), per = mode == 0 ? 8 : mode == 1 ? 2 : 6;
    std::vector<std::thread> ts;
    std::atomic<uint64_t> answered(0), timedOut(0);
    bool spurious = r.chance(2, 3);
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          tSpurious = spurious;
          for(int i = 0; i < per && !c.failed(); ++i)
          {
            // (patient ones are answered, however patient they are)
            static const int patient[] = {600000, 2147484, 4294968, 86400000, 2147483647};
            int timeout = mode == 0 ? patient[q.below(5)] : mode == 1 ? (int)q.below(60) : 1 + (int)q.below(25);
            int id = st.newRequest(topic, q);
            // an answer without content is an answer, too: there is nothing to wait for any longer
            int style;
            { std::lock_guard<std::mutex> l(st.m); style = st.requests[id].style; }
            if(style == 1) timeout = 30000;
            Datagram request = requestOf(id, st.payloadOf(id));
            Clock::time_point begin = Clock::now();
            Datagram response = consumers[q.below(consumers.size())]->Request(request, timeout);
            Clock::time_point end = Clock::now();
            c.alive();
            c.count("requests");
            if(style == 1)
            {
              answered++;
              st.accept(id, response);
              if(end - begin >= std::chrono::milliseconds(timeout)) c.fail("waited-on", "a request that was answered with an empty datagram went on waiting until its timeout");
              c.count("empty_responses_waited_for");
            }
            else if(response.IsEmpty())
            {
              timedOut++;
              long us = (long)std::chrono::duration_cast<std::chrono::microseconds>(end - begin).count();
              if(us < timeout * 1000L)
                c.fail("early-timeout", "a request with a timeout of " + std::to_string(timeout) + " ms came back without a response after " + std::to_string(us) + " us");
              if(mode == 0)
                c.fail("unanswered", "a request that is always answered came back without a response");
            }
            else { answered++; st.accept(id, response); if(mode == 1) c.fail("invented", "a response although there is no provider"); }
          }
          tSpurious = false;
        });
    }
    for(auto& t : ts) t.join();
    perturb(0, 0);
    st.stopAll();
    c.count("answered", answered);
    c.count("timed_out", timedOut);
    c.count("spurious_wakeups", gSpurious.exchange(0));
    uint64_t h = mode;
    for(auto& x : st.requests) { h = mix(h, x.callbacks); if(x.callbacks > 1) c.fail("answered-twice", "one request came back twice"); }
    c.sig(mix(h, T * 100 + st.requests.size()));
    c.sample("mode " + std::to_string(mode) + ": " + std::to_string(answered) + " answered, " + std::to_string(timedOut) + " timed out");
  }

  // ------------------------------------------------------------ A03
  void caseA03(Case& c)
  {
    Rng& r = c.rng;
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child = root->CreateChildBus("child");
    std::mutex m;
    std::vector<std::pair<std::string, int>> seen;       // invocation, id: answered later
    std::shared_ptr<ActionProvider> provider;
    std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)> cb =
      [&](std::shared_ptr<ActionProvider> p, std::string invocation, Datagram d)
      {
        Datagram request = d["request"];
        int id = request.Get<int>("id", -1);
        progressed();
        std::lock_guard<std::mutex> l(m);
        seen.push_back({invocation, id});
      };
    provider = child->CreateActionProvider(std::string("/late"), cb);
    std::shared_ptr<ActionConsumer> consumer = (r.chance(1, 2) ? root : child)->CreateActionConsumer(std::string("/late"));
    std::shared_ptr<ActionConsumer> bystander = root->CreateActionConsumer(std::string("/late"));
    std::atomic<int> bystanderCalls(0);
    std::thread runner([&] { root->Start(); });
    perturb(r.chance(1, 2) ? 0 : r.chance(1, 3) ? 4 + (unsigned)r.below(2) : 1 + (unsigned)r.below(2), r.next());
    std::atomic<int> calls(0);
    bystander->RequestAsync(Datagram(std::string("bystander")), [&](Datagram d) { bystanderCalls++; if(d.Get<int>("answers", -1) != -77) c.fail("correlation", "an open request was given a response to another"); progressed(); });
    waitFor(c, [&] { std::lock_guard<std::mutex> l(m); return !seen.empty(); }, 4000);
    std::string bystanderInvocation;
    { std::lock_guard<std::mutex> l(m); if(!seen.empty()) bystanderInvocation = seen[0].first; seen.clear(); }

    // blocking requests that give up while the answers come
    int n = 4 + (int)r.below(8);
    int T = 1 + (int)r.below(3);
    std::atomic<bool> answering(true);
    std::vector<std::thread> answerers;
    std::vector<std::pair<std::string, int>> old;
    for(int t = 0; t < 2; ++t)
    {
      uint64_t seed = r.next();
      answerers.emplace_back([&, seed]
        {
          Rng q(seed);
          while(answering)
          {
            std::pair<std::string, int> x;
            {
              std::lock_guard<std::mutex> l(m);
              if(!seen.empty()) { x = seen.back(); seen.pop_back(); old.push_back(x); }
              else if(!old.empty() && q.chance(1, 40)) x = old[q.below(old.size())];
            }
            if(x.first.empty()) { nap(100); continue; }
            nap((int)q.below(q.chance(1, 2) ? 300 : 3000));
            int times = 1 + (int)q.below(2);
            for(int i = 0; i < times; ++i) { Datagram d; d["answers"] = x.second; provider->Respond(x.first, d); c.count("responses_sent"); }
            if(q.chance(1, 4)) { Datagram d; d["answers"] = -5; provider->Respond("unknown-" + std::to_string(q.next()), d); c.count("unknown_responses"); }
          }
        });
    }
    std::vector<std::thread> ts;
    std::atomic<int> ids(0), late(0), intime(0);
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          for(int i = 0; i < n && !c.failed(); ++i)
          {
            int id = ids++;
            Datagram d = requestOf(id, Tree::num(id));
            Datagram got = consumer->Request(d, (int)(q.chance(1, 2) ? q.below(4) : 5 + q.below(50)));
            c.alive();
            c.count("requests");
            if(got.IsEmpty()) late++;
            else { intime++; if(got.Get<int>("answers", -1) != id) c.fail("correlation", "request " + std::to_string(id) + " was given the response to request " + std::to_string(got.Get<int>("answers", -1))); }
          }
        });
    }
    for(auto& t : ts) t.join();
    // asynchronous ones next to it, answered repeatedly: called back once
    std::vector<std::unique_ptr<std::atomic<int>>> asyncCalls;
    for(int i = 0; i < 10; ++i)
    {
      asyncCalls.emplace_back(new std::atomic<int>(0));
      std::atomic<int>* mine = asyncCalls.back().get();
      int id = ids++;
      consumer->RequestAsync(requestOf(id, Tree::num(id)), [&c, mine, id](Datagram d) { (*mine)++; progressed(); if(d.Get<int>("answers", -1) != id) c.fail("correlation", "asynchronous request " + std::to_string(id) + " was given a response to another"); });
    }
    bool all = waitFor(c, [&] { for(auto& a : asyncCalls) if(*a == 0) return false; return true; }, 4000);
    if(!all) c.fail("lost", "after late and repeated responses, an answered request is not called back any more");
    answering = false;
    for(auto& t : answerers) t.join();
    if(bystanderCalls != 0) c.fail("correlation", "a request nobody answered was called back");
    // responses to everything that is long over
    for(auto& x : old) { Datagram d; d["answers"] = x.second; provider->Respond(x.first, d); c.count("late_responses"); }
    { Datagram d; d["answers"] = -77; provider->Respond(bystanderInvocation, d); provider->Respond(bystanderInvocation, d); }
    if(!waitFor(c, [&] { return bystanderCalls.load() > 0; }, 4000)) c.fail("lost", "the response to an open request was not handed out");
    nap(3000);
    for(auto& a : asyncCalls) if(*a > 1) c.fail("answered-twice", "an asynchronous request was called back " + std::to_string(*a) + " times");
    if(bystanderCalls > 1) c.fail("answered-twice", "an asynchronous request was called back twice");

    // What was kept for a request is given up with it. The bus has to be at rest
    // when memory is measured.
    perturb(0, 0);
    std::shared_ptr<int> token = std::make_shared<int>(1);
    std::atomic<bool> called(false);
    {
      std::shared_ptr<int> held = token;
      consumer->RequestAsync(requestOf(-1, Tree::num(0)), [held, &called](Datagram) { called = true; progressed(); });
    }
    { std::string inv; waitFor(c, [&] { std::lock_guard<std::mutex> l(m); for(auto& x : seen) if(x.second == -1) { inv = x.first; return true; } return false; }, 4000);
      Datagram d; d["answers"] = -1; provider->Respond(inv, d); }
    if(!waitFor(c, [&] { return called.load(); }, 4000)) c.fail("lost", "an answered request is not called back");
    else if(!waitFor(c, [&] { return token.use_count() == 1; }, 2000)) c.fail("retained", "the callback of an answered request is kept for good");
    std::shared_ptr<ActionConsumer> lonely = root->CreateActionConsumer(std::string("/nobody"));
    auto rounds = [&](int k) { for(int i = 0; i < k; ++i) { Datagram got = lonely->Request(Datagram(i), 0); if(!got.IsEmpty()) c.fail("invented", "a response although nobody answers"); c.alive(); } };
    auto rest = [&] { std::atomic<bool> flag(false); auto s = root->CreateSubscriber("/rest", lp::bus::DatagramCallbackType([&](Datagram) { flag = true; progressed(); }));
                      auto p = root->CreatePublisher("/rest"); p->Publish(Datagram(1)); waitFor(c, [&] { return flag.load(); }, 4000); root->DeleteSubscriber(s); root->DeletePublisher(p); nap(2000); };
    { std::lock_guard<std::mutex> l(m); seen.clear(); seen.shrink_to_fit(); }
    rounds(20); rest();
    size_t least = (size_t)-1;
    int k = 60;
    for(int attempt = 0; attempt < 4; ++attempt)
    {
      size_t before = liveBytes();
      rounds(k); rest();
      size_t after = liveBytes();
      least = std::min(least, after > before ? after - before : 0);
      c.count("timed_out_for_memory", k);
      if(least < (size_t)k * 40) break;
    }
    if(least > (size_t)k * 40)
      c.fail("retained", std::to_string(k) + " requests that timed out left " + std::to_string(least) + " bytes behind, every time");
    // So is what was never asked for, each time under another name ...
    least = (size_t)-1;
    for(int attempt = 0, unknown = 0; attempt < 5; ++attempt)
    {
      size_t before = liveBytes();
      for(int i = 0; i < k; ++i)
      {
        Datagram d;
        d["answers"] = i;
        provider->Respond("nobody asked " + std::to_string(100000000 + unknown++), d);
      }
      rest();
      size_t after = liveBytes();
      if(attempt > 0) least = std::min(least, after > before ? after - before : 0);
      c.count("unknown_responses", k);
      if(least < (size_t)k * 40) break;
    }
    if(least > (size_t)k * 40)
      c.fail("retained", std::to_string(k) + " responses to nothing left " + std::to_string(least) + " bytes behind, every time");

    // ... and one that several threads have a response for is answered by one of them.
    for(int i = 0; i < 12 && !c.failed(); ++i)
    {
      std::string inv;
      std::atomic<int> once(0);
      int naps = (int)r.below(3);
      { std::lock_guard<std::mutex> l(m); seen.clear(); }
      consumer->RequestAsync(requestOf(-2, Tree::num(0)), [&](Datagram) { once++; if(naps) nap(naps * 200); progressed(); });
      if(!waitFor(c, [&] { std::lock_guard<std::mutex> l(m); for(auto& x : seen) if(x.second == -2) { inv = x.first; return true; } return false; }, 4000)) { c.fail("lost", "a request does not arrive any more"); break; }
      std::atomic<int> ready(0);
      std::vector<std::thread> several;
      const int S = 2 + (int)r.below(3);
      for(int t = 0; t < S; ++t)
        several.emplace_back([&, t]
          {
            ready++;
            while(ready < S) {}
            if(t % 2) nap(naps * 50);
            consumer->ProcessResponse(inv, Datagram(t));
          });
      for(auto& t : several) t.join();
      c.count("concurrent_responses", (uint64_t)S);
      if(once != 1) c.fail(once == 0 ? "lost" : "answered-twice", "with " + std::to_string(S) + " threads handing in responses, a request was called back " + std::to_string(once) + " times");
    }
    root->Stop();
    runner.join();

    // participants that outlive their bus
    bool keepProvider = r.chance(1, 2);
    child.reset();
    root.reset();
    if(keepProvider) provider->Respond(bystanderInvocation, Datagram(1));
    Datagram got = consumer->Request(Datagram(1), 1);
    if(!got.IsEmpty()) c.fail("invented", "a response after the bus is gone");
    consumer->RequestAsync(Datagram(1), [&](Datagram) { c.fail("invented", "a callback after the bus is gone"); });
    provider.reset();
    consumer.reset();
    bystander.reset();
    lonely.reset();
    c.count("late", late);
    c.count("in_time", intime);
    c.sig(mix(mix(late, intime), mix(T, n)));
    c.sample(std::to_string(late) + " requests gave up, " + std::to_string(intime) + " were answered in time; " + std::to_string(least) + " bytes grown over " + std::to_string(k) + " timed-out requests");
  }

  // ------------------------------------------------------------ A04
  void caseA04(Case& c)
  {
    Rng& r = c.rng;
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child = root->CreateChildBus("child");
    std::mutex m;
    std::multiset<std::string> provided;
    std::atomic<int> callbacks(0);
    std::shared_ptr<ActionProvider> provider = child->CreateActionProvider(std::string("/x"),
      std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string invocation, Datagram d)
      {
        progressed();
        { std::lock_guard<std::mutex> l(m); provided.insert(invocation); }
        Datagram response;
        response["echo"] = invocation;
        p->Respond(invocation, response);
      }));
    std::shared_ptr<ActionConsumer> consumer = root->CreateActionConsumer(std::string("/x"));
    bool runs = true;
    std::string escaped;
    std::thread runner([&]
      {
        try { root->Start(); }
        catch(std::exception& e) { std::lock_guard<std::mutex> l(m); escaped = e.what(); if(escaped.empty()) escaped = "exception"; }
        catch(...) { std::lock_guard<std::mutex> l(m); escaped = "something"; }
      });
    auto reqPub = root->CreatePublisher("/x/request");
    auto resPub = child->CreatePublisher("/x/response");
    TreeOpts to;
    to.depth = 3;
    to.width = 4;
    std::multiset<std::string> expected;
    int n = 20 + (int)r.below(60), sent = 0, answered = 0;
    uint64_t h = 5;
    auto dead = [&] { std::lock_guard<std::mutex> l(m); return !escaped.empty(); };
    for(int i = 0; i < n && !c.failed() && !dead(); ++i)
    {
      unsigned kind = (unsigned)r.below(8);
      h = mix(h, kind);
      bool request = r.chance(1, 2);
      Datagram d;
      switch(kind)
      {
        case 0: d = toDatagram(randomScalar(r, to)); break;
        case 1: d = toDatagram(randomTree(r, to)); if(d.GetType() == RawDatagramType::Dictionary && d.KeyExists("invocationId")) d.Remove(std::string("invocationId")); break;
        case 2: { Tree t = randomTree(r, to); if(t.kind == STR) t = Tree::num(1); d["invocationId"] = toDatagram(t); d[request ? "request" : "response"] = 1; } break;
        case 3: d["invocationid"] = std::string("x"); d["response"] = 1; break;
        case 4: d["nested"]["invocationId"] = std::string("x"); break;
        case 5: d = Datagram(RawDatagramType::List); break;
        case 6:
          // well-formed for the provider; nobody waits for the answer
          if(request) { std::string id = "mine-" + std::to_string(i); d["invocationId"] = id; d["request"] = toDatagram(randomTree(r, to)); std::lock_guard<std::mutex> l(m); expected.insert(id); }
          else { d["invocationId"] = std::string("unheard of"); if(r.chance(1, 2)) d["response"] = toDatagram(randomTree(r, to)); }
          break;
        case 7: d = Datagram(RawDatagramType::Dictionary); break;
      }
      if(request) reqPub->Publish(d); else resPub->Publish(d);
      c.count("malformed_or_foreign_messages");
      sent++;
      if(r.chance(1, 5))
      {
        // real traffic goes on in between
        Datagram got = consumer->Request(Datagram(i), 20000);
        c.alive();
        if(dead()) break;
        std::string echo = got.GetType() == RawDatagramType::Dictionary ? got.Get<std::string>("echo", "") : "";
        if(echo.empty()) c.fail("unanswered", "a request between malformed messages was not answered");
        std::lock_guard<std::mutex> l(m);
        expected.insert(echo);
        answered++;
      }
    }
    if(!dead())
    {
      bool arrived = waitFor(c, [&] { std::lock_guard<std::mutex> l(m); return provided.size() >= expected.size() || !escaped.empty(); }, 4000);
      nap(1000);
      if(!dead())
      {
        std::lock_guard<std::mutex> l(m);
        if(provided != expected)
        {
          std::string which;
          for(auto& x : provided) if(expected.count(x) != provided.count(x)) which = x;
          for(auto& x : expected) if(expected.count(x) != provided.count(x)) which = x;
          c.fail(arrived ? "invented-request" : "lost", "the provider was called " + std::to_string(provided.count(which)) + " times for the invocation '" + printable(which) + "', " + std::to_string(expected.count(which)) + " such requests were made");
        }
      }
    }
    root->Stop();
    runner.join();
    if(!escaped.empty()) c.fail("bus-brought-down", "a malformed action message ended the bus: " + escaped);
    c.count("requests_between", answered);
    c.count("wellformed_foreign_requests", expected.size() - answered);
    c.sig(h);
    c.sample(std::to_string(sent) + " malformed or foreign messages, " + std::to_string(answered) + " requests answered in between");
    (void)runs;
  }

  // ------------------------------------------------------------ A05
  // Millions at once: what is kept of each is a 128 bit hash.
  void bulkA05(Case& c)
  {
    typedef std::pair<uint64_t, uint64_t> Digest;
    const int T = 8;
    const size_t per = c.thorough ? 1000000 : 250000;
    std::vector<std::vector<Digest>> got(T);
    std::vector<std::thread> ts;
    for(int t = 0; t < T; ++t)
      ts.emplace_back([&, t]
        {
          got[t].reserve(per);
          for(size_t i = 0; i < per; ++i)
          {
            std::string s = (std::string)lp::utilities::Uuid::CreateUuid();
            uint64_t a = 0x243F6A8885A308D3ULL;
            for(unsigned char ch : s) a = mix(a, ch);
            got[t].push_back({hashStr(s), a});
            if(i % 1000 == 0) c.alive();
          }
        });
    for(auto& t : ts) t.join();
    std::vector<Digest> all;
    for(auto& v : got) { all.insert(all.end(), v.begin(), v.end()); std::vector<Digest>().swap(v); }
    c.alive();
    std::sort(all.begin(), all.end());
    size_t repeated = 0;
    for(size_t i = 1; i < all.size(); ++i) if(all[i] == all[i - 1]) repeated++;
    c.count("identifiers", all.size());
    c.count("bulk_cases");
    c.maxOf("identifiers_compared_with_each_other", all.size());
    if(repeated > 0) c.fail("repeated", std::to_string(repeated) + " of " + std::to_string(all.size()) + " identifiers drawn by " + std::to_string(T) + " threads were given out before");
    c.sig(all[0].first);
    c.sample(std::to_string(all.size()) + " identifiers of " + std::to_string(T) + " threads");
  }

  // Very many threads, of which each asks for one only: what each starts from must
  // not be something there are only a few of.
  void crowdA05(Case& c)
  {
    const int S = 8;
    const size_t per = c.thorough ? 100000 : 38000;
    std::vector<std::vector<std::string>> got(S);
    std::vector<std::thread> ts;
    for(int t = 0; t < S; ++t)
      ts.emplace_back([&, t]
        {
          got[t].reserve(per);
          for(size_t i = 0; i < per; ++i)
          {
            std::string id;
            std::thread([&id] { id = (std::string)lp::utilities::Uuid::CreateUuid(); }).join();
            got[t].push_back(id);
            if(i % 1000 == 0) c.alive();
          }
        });
    for(auto& t : ts) t.join();
    std::unordered_set<std::string> all;
    size_t repeated = 0, n = 0;
    for(auto& v : got) for(auto& id : v) { n++; if(id.empty()) c.fail("empty", "an empty invocation identifier"); if(!all.insert(id).second) repeated++; }
    c.count("threads_of_one_identifier", n);
    if(repeated > 0) c.fail("repeated", std::to_string(repeated) + " of " + std::to_string(n) + " identifiers, each drawn by a thread of its own, were given out before");
    c.sig(hashStr(*all.begin()));
    c.sample(std::to_string(n) + " threads that draw one identifier each");
  }

  void caseA05(Case& c)
  {
    if(c.index % 16 == 15) { bulkA05(c); return; }
    if(c.index % 32 == 14) { crowdA05(c); return; }
    Rng& r = c.rng;
    std::set<std::string> all;
    auto take = [&](const std::string& id, const char* where)
      {
        c.count("identifiers");
        if(id.empty()) c.fail("empty", "an empty invocation identifier");
        if(!all.insert(id).second) c.fail("repeated", std::string("the identifier ") + printable(id) + " was given out twice (" + where + ")");
      };
    // threads
    int T = 2 + (int)r.below(7), per = c.thorough ? 20000 : 2500;
    std::vector<std::vector<std::string>> got(T);
    std::vector<std::thread> ts;
    std::atomic<int> ready(0);
    for(int t = 0; t < T; ++t)
      ts.emplace_back([&, t]
        {
          ready++;
          while(ready < T) std::this_thread::yield();
          for(int i = 0; i < per; ++i) got[t].push_back((std::string)lp::utilities::Uuid::CreateUuid());
        });
    for(auto& t : ts) t.join();
    for(auto& v : got) for(auto& s : v) take(s, "threads");
    c.alive();
    // a process that has drawn some splits up: all of them go on
    {
      std::vector<std::string> before;
      for(int i = 0; i < 5; ++i) take((std::string)lp::utilities::Uuid::CreateUuid(), "forking");
      std::vector<std::pair<pid_t, int>> kids;
      for(int p = 0; p < 4; ++p)
      {
        int fd[2];
        if(pipe2(fd, O_CLOEXEC) != 0) break;
        pid_t pid = fork();
        if(pid == 0)
        {
          for(int i = 0; i < 30; ++i)
          {
            std::string line = (std::string)lp::utilities::Uuid::CreateUuid() + "\n";
            if(write(fd[1], line.data(), line.size()) != (ssize_t)line.size()) _exit(1);
          }
          _exit(0);
        }
        close(fd[1]);
        if(pid > 0) kids.push_back({pid, fd[0]}); else close(fd[0]);
      }
      for(int i = 0; i < 30; ++i) take((std::string)lp::utilities::Uuid::CreateUuid(), "forking");
      for(auto& k : kids)
      {
        std::string text;
        char buf[65536];
        ssize_t n;
        while((n = read(k.second, buf, sizeof buf)) > 0) text.append(buf, (size_t)n);
        close(k.second);
        int status = 0;
        waitpid(k.first, &status, 0);
        std::istringstream in(text);
        std::string line;
        int lines = 0;
        while(std::getline(in, line)) { take(line, "forked processes"); lines++; }
        if(lines == 30) c.count("forked_processes");
      }
      c.alive();
    }
    // processes started together, each with a generator that was never used before
    int P = 4 + (int)r.below(5), few = 60;
    char self[4096];
    ssize_t len = readlink("/proc/self/exe", self, sizeof self - 1);
    self[len > 0 ? len : 0] = 0;
    std::vector<std::pair<pid_t, int>> kids;
    std::vector<char*> env;
    std::string var = "VF_UUID_CHILD=" + std::to_string(few);
    for(char** e = environ; *e != nullptr; ++e) env.push_back(*e);
    env.push_back(&var[0]);
    env.push_back(nullptr);
    for(int p = 0; p < P; ++p)
    {
      int fd[2];
      if(pipe2(fd, O_CLOEXEC) != 0) break;
      posix_spawn_file_actions_t fa;
      posix_spawn_file_actions_init(&fa);
      posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
      char* argv[] = {self, nullptr};
      pid_t pid = 0;
      int rc = posix_spawn(&pid, self, &fa, nullptr, argv, env.data());
      posix_spawn_file_actions_destroy(&fa);
      close(fd[1]);
      if(rc == 0) kids.push_back({pid, fd[0]}); else close(fd[0]);
    }
    for(auto& k : kids)
    {
      std::string text;
      char buf[65536];
      ssize_t n;
      while((n = read(k.second, buf, sizeof buf)) > 0) text.append(buf, n);
      close(k.second);
      int status = 0;
      waitpid(k.first, &status, 0);
      std::istringstream in(text);
      std::string line;
      int lines = 0;
      while(std::getline(in, line)) { take(line, "processes"); lines++; }
      if(lines == few) c.count("processes");
      c.alive();
    }
    // through consumers: what providers see
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::mutex m;
    std::vector<std::string> viaBus;
    root->CreateActionProvider(std::string("/x"), std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider>, std::string id, Datagram) { progressed(); std::lock_guard<std::mutex> l(m); viaBus.push_back(id); }));
    std::vector<std::shared_ptr<ActionConsumer>> cs;
    for(int i = 0; i < 3; ++i) cs.push_back(root->CreateActionConsumer(std::string("/x")));
    std::thread runner([&] { root->Start(); });
    ts.clear();
    for(int t = 0; t < 3; ++t) ts.emplace_back([&, t] { for(int i = 0; i < 60; ++i) cs[(t + i) % 3]->RequestAsync(Datagram(i), [](Datagram) {}); });
    for(auto& t : ts) t.join();
    if(!waitFor(c, [&] { std::lock_guard<std::mutex> l(m); return viaBus.size() >= 180; }, 4000)) c.fail("lost", "requests did not arrive");
    root->Stop();
    runner.join();
    for(auto& s : viaBus) take(s, "requests");
    c.count("via_requests", viaBus.size());
    c.sig(hashStr(*all.begin()));
    c.sample(std::to_string(all.size()) + " identifiers of " + std::to_string(T) + " threads and " + std::to_string(kids.size()) + " processes, e.g. " + *all.begin());
  }

  // ------------------------------------------ A06: races and memory errors
  void caseA06(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child = root->CreateChildBus("child");
    // answering threads share nothing but this queue, one slot each
    struct Slot { std::atomic<std::pair<std::shared_ptr<ActionProvider>, std::string>*> v{nullptr}; };
    std::vector<std::unique_ptr<Slot>> slots;
    for(int i = 0; i < 8; ++i) slots.emplace_back(new Slot());
    std::atomic<uint64_t> turn(0), ops(0);
    auto cb = std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string invocation, Datagram d)
      {
        uint64_t k = turn.fetch_add(1, std::memory_order_relaxed);
        if(k % 3 == 0) { p->Respond(invocation, d); return; }
        auto* x = new std::pair<std::shared_ptr<ActionProvider>, std::string>(p, invocation);
        auto* prev = slots[k % slots.size()]->v.exchange(x);
        if(prev != nullptr) { prev->first->Respond(prev->second, Datagram(2)); delete prev; }
      });
    std::vector<std::shared_ptr<ActionProvider>> providers;
    for(int i = 0; i < 2; ++i) providers.push_back((i ? child : root)->CreateActionProvider(std::string("/x"), cb));
    std::vector<std::shared_ptr<ActionConsumer>> consumers;
    for(int i = 0; i < 3; ++i) consumers.push_back((i % 2 ? child : root)->CreateActionConsumer(std::string("/x")));
    std::thread runner([&] { root->Start(); });
    std::atomic<bool> go(true);
    std::vector<std::thread> answerers, ts;
    for(int t = 0; t < 2; ++t)
      answerers.emplace_back([&, t]
        {
          while(go)
          {
            for(size_t i = t; i < slots.size(); i += 2)
            {
              auto* x = slots[i]->v.exchange(nullptr);
              if(x == nullptr) continue;
              x->first->Respond(x->second, Datagram(std::string("later")));
              x->first->Respond(x->second, Datagram(std::string("again")));
              delete x;
            }
            nap(100);
          }
        });
    int T = 2 + (int)r.below(4), per = 10 + (int)r.below(c.thorough ? 60 : 25);
    bool tearDown = r.chance(1, 2);
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          for(int i = 0; i < per; ++i)
          {
            auto& k = consumers[q.below(consumers.size())];
            switch(q.below(6))
            {
              case 0: case 1: { auto held = std::make_shared<std::vector<int>>(20, 1); k->RequestAsync(Datagram(i), [held](Datagram d) { (*held)[0]++; (void)d.GetType(); }); } break;
              case 2: case 3: { Datagram d = k->Request(Datagram(i), (int)q.below(4)); (void)d.GetType(); } break;
              case 4: k->ProcessResponse("unknown", Datagram(1)); break;
              case 5: (void)k->GetTopic(); k->Reset(); (q.chance(1, 8) ? providers[0] : providers[1])->Respond("nobody", Datagram(i)); if(q.chance(1, 20)) providers[q.below(2)]->Reset(); break;
            }
            ops++;
          }
        });
    }
    if(tearDown) { nap((int)r.below(3000)); root->Stop(); runner.join(); root->Detach(); c.count("teardowns_under_load"); }
    for(auto& t : ts) t.join();
    if(!tearDown) { root->Stop(); runner.join(); }
    child.reset();
    root.reset();
    c.alive();
    for(auto& k : consumers) { (void)k->Request(Datagram(1), 0); k->RequestAsync(Datagram(1), [](Datagram) {}); }
    go = false;
    for(auto& t : answerers) t.join();
    for(auto& s : slots) { auto* x = s->v.exchange(nullptr); if(x != nullptr) { x->first->Respond(x->second, Datagram(1)); delete x; } }
    providers.clear();
    consumers.clear();
    perturb(0, 0);
    c.count("operations", ops);
    c.sig(r.next());
    c.sample(std::to_string(T) + " threads, " + std::to_string(per) + " operations each" + (tearDown ? ", torn down under load" : ""));
  }
}

int main(int argc, char** argv)
{
  if(const char* n = getenv("VF_UUID_CHILD"))
  {
    for(int i = 0; i < atoi(n); ++i) printf("%s\n", ((std::string)lp::utilities::Uuid::CreateUuid()).c_str());
    fflush(stdout);
    _exit(0);
  }
  return vf::run(argc, argv, {{"A01", caseA01}, {"A02", caseA02}, {"A03", caseA03}, {"A04", caseA04}, {"A05", caseA05}, {"A06", caseA06}});
}
