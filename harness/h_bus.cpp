// B01..B11: the message bus. A world of busses, publishers and subscribers is
// driven from several threads; every call and every handler invocation is
// recorded at the client boundary with ticks of one logical clock, and offline
// checkers decide over the recorded history.
#include "tree.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>

#include <lamppost/bus/Bus.h>

using namespace vf;
using lp::bus::Bus;
using lp::bus::Publisher;
using lp::bus::Subscriber;
using lp::messages::Message;
namespace ex = lp::exceptions;

// ------------------------------------------------------------ timed waits
// B09 stretches the timed waits of one thread, so that a wakeup that is lost
// stays lost instead of being papered over by polling.
static std::atomic<bool> gStretch(false);
static thread_local bool tStretched = false;
static std::atomic<uint64_t> gStretchedWaits(0), gStretchedTimeouts(0);

extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const struct timespec* ts)
{
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  if(!tStretched || !gStretch) return real(c, m, clock, ts);
  struct timespec longer;
  clock_gettime(clock, &longer);
  longer.tv_sec += 60;
  gStretchedWaits++;
  int rc = real(c, m, clock, &longer);
  if(rc == ETIMEDOUT) gStretchedTimeouts++;
  return rc;
}
#if defined(VF_PLAIN)
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  static Fn real = (Fn)dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
  if(!tStretched || !gStretch) return real(c, m, ts);
  struct timespec longer = *ts;
  longer.tv_sec += 60;
  gStretchedWaits++;
  int rc = real(c, m, &longer);
  if(rc == ETIMEDOUT) gStretchedTimeouts++;
  return rc;
}
#endif

namespace
{
  const uint64_t NEVER = ~0ULL;

  const char* const TOPICS[] = {"/a", "/a/b", "/ab", "a", "/A", "", "/", "/**/*", "/*", "/a/*", "/a/", "**", "/**", "/a/b/c", "/sysinfo", "x"};
  const size_t TOPIC_COUNT = sizeof TOPICS / sizeof *TOPICS;

  bool matches(const std::string& pattern, const std::string& topic) { return pattern == topic || pattern == "/**/*"; }

  struct Sub
  {
    int id = 0;
    std::shared_ptr<Subscriber> real;
    std::shared_ptr<Bus> bus;
    std::string topic;
    uint64_t created = NEVER;                    // creation returned
    uint64_t deleteCall = NEVER, deleted = NEVER;
    int owner = -1;                              // the thread that may delete it
  };
  struct Pub
  {
    int id = 0;
    std::shared_ptr<Publisher> real;
    std::shared_ptr<Bus> bus;
    std::string topic;
    uint64_t deleteCall = NEVER, deleted = NEVER;
    int owner = -1;
  };
  struct Msg
  {
    int id = 0;
    int pub = -1;                                // -1: published on a bus directly
    int thread = 0;
    std::string topic, sender;
    uint64_t call = 0, ret = NEVER;
    Tree payload;
    int cause = -1;                              // published by a handler of this message
  };
  struct Delivery
  {
    int sub, msg;
    uint64_t enter, exit;
    std::thread::id thread;
    std::string problem;                         // content / attribution
    bool viaMessage;
    std::string sender, topic;
  };

  struct Opts
  {
    int threads = 3;
    int ops = 40;                // per thread
    bool dynamicSubs = false, deleteSubs = false, dynamicPubs = false, deletePubs = false, childBusses = false;
    bool beforeStart = true;
    bool republish = false;      // handlers publish too
    bool slowHandlers = false;
    bool mutate = false;         // publishers and handlers modify their datagrams afterwards
    bool ownedState = false;     // handlers use state that is freed right after their deletion
    bool restart = false;
    int payloadDepth = 1;
    int burst = 1;
    int initialSubs = 6, initialPubs = 5, initialBusses = 2;
  };

  struct World
  {
    Case& c;
    Opts o;
    Rng rng;
    std::shared_ptr<Bus> root;
    std::thread runner;
    std::thread::id runnerId;
    std::atomic<bool> returned{true};
    std::atomic<uint64_t> returnTick{0};

    std::mutex m;                                 // the recorder's own
    std::deque<Sub> subs;                         // stable addresses
    std::deque<Pub> pubs;
    std::deque<Msg> msgs;
    std::vector<std::shared_ptr<Bus>> busses;
    std::vector<Delivery> log;
    std::atomic<int> busCounter{0};
    std::atomic<int> current{-1};                 // the subscriber whose handler runs
    std::atomic<bool> quiesced{false};
    size_t longTopics = 0;

    World(Case& cc, const Opts& oo) : c(cc), o(oo), rng(cc.rng.next())
    {
      root = std::make_shared<Bus>("root");
      busses.push_back(root);
      if(rng.chance(1, 4)) longTopics = nameLength(rng);
    }

    std::string randomTopic(Rng& r)
    {
      if(r.chance(1, 25)) return randomString(r, false);
      // some worlds have long ones
      if(longTopics != 0 && r.chance(1, 2)) { c.count("long_topics"); return longName(r, longTopics); }
      // alike up to a byte most string functions stop at
      if(r.chance(1, 12)) { static const char* const tails[] = {"", "x", "y", "/b"}; return std::string(r.chance(1, 2) ? "/a" : "") + '\0' + tails[r.below(4)]; }
      return TOPICS[r.below(r.chance(1, 2) ? 4 : TOPIC_COUNT)];
    }

    // ---------------------------------------------------------------- actions
    std::shared_ptr<Bus> anyBus(Rng& r) { std::lock_guard<std::mutex> l(m); return busses[r.below(busses.size())]; }

    void addBus(Rng& r, bool below = false)
    {
      std::shared_ptr<Bus> parent = below ? root : anyBus(r);
      std::string name = "bus" + std::to_string(busCounter++);
      if(o.mutate && r.chance(1, 2)) name += r.chance(1, 4) ? "/" + std::string(r.below(400), 'n') : randomString(r, false);
      std::shared_ptr<Bus> child = parent->CreateChildBus(name);
      std::lock_guard<std::mutex> l(m);
      busses.push_back(child);
    }

    void handle(int subId, Datagram& d, const Message* message, std::shared_ptr<std::vector<int>> state)
    {
      Delivery x;
      x.enter = tick();
      current = subId;
      x.sub = subId;
      x.thread = std::this_thread::get_id();
      x.viaMessage = message != nullptr;
      x.msg = d.GetType() == RawDatagramType::Dictionary ? d.Get<int>("id", -1) : -1;
      if(message != nullptr) { Message copy(*message); x.sender = copy.GetSender(); x.topic = copy.GetTopic(); }
      Tree payload;
      bool known = false;
      {
        std::lock_guard<std::mutex> l(m);
        if(x.msg >= 0 && (size_t)x.msg < msgs.size()) { payload = msgs[x.msg].payload; known = true; }
      }
      if(!known) x.problem = "a message that was never published";
      else
      {
        if(d.GetCount() != 2 || !d.KeyExists("p")) x.problem = "a message with other fields than it was published with";
        else { Datagram p = d["p"]; x.problem = differs(p, payload); }
      }
      if(state) (*state)[0]++;
      uint64_t h = mix(x.enter, subId);
      if(o.slowHandlers && h % 5 == 0) nap((int)(h % 300));
      if(o.mutate)
      {
        // what one handler does to its datagram is nobody else's business
        switch((h >> 20) % 6)
        {
          case 4: case 5: if(known && x.problem.empty()) { vandalize(d["p"], payload); c.count("payloads_overwritten_in_place"); } break;
          case 0: d["p"] = std::string("mutated by a handler"); break;
          case 1: d["extra"] = 1; d["id"] = 123456; break;
          case 2: d = 5; break;
          default: break;
        }
      }
      if(o.republish && known && h % 7 == 0)
      {
        bool again;
        { std::lock_guard<std::mutex> l(m); again = msgs[x.msg].cause < 0 && msgs.size() < 6000; }
        if(again)
        {
          Rng r(h);
          publishDirect(r, 1000, x.msg);
        }
      }
      if(state) (*state)[0]++;
      progressed();
      current = -1;
      x.exit = tick();
      std::lock_guard<std::mutex> l(m);
      log.push_back(x);
    }

    Sub* addSub(Rng& r, const std::shared_ptr<Bus>& bus, const std::string& topic, int owner)
    {
      Sub* s;
      {
        std::lock_guard<std::mutex> l(m);
        subs.emplace_back();
        s = &subs.back();
        s->id = (int)subs.size() - 1;
        s->bus = bus;
        s->topic = topic;
        s->owner = owner;
      }
      int id = s->id;
      std::shared_ptr<std::vector<int>> state;
      std::weak_ptr<std::vector<int>> weak;
      if(o.ownedState)
      {
        // the handler holds a bare pointer; the deleter frees it right after deletion
        state = std::make_shared<std::vector<int>>(16, 0);
        std::lock_guard<std::mutex> l(m);
        owned[id] = state;
      }
      std::vector<int>* bare = state.get();
      state.reset();
      auto hold = [bare]() -> std::shared_ptr<std::vector<int>> { return bare == nullptr ? nullptr : std::shared_ptr<std::vector<int>>(bare, [](std::vector<int>*) {}); };
      lp::bus::DatagramCallbackType dcb = [this, id, hold](Datagram d) { handle(id, d, nullptr, hold()); };
      lp::bus::MessageCallbackType mcb = [this, id, hold](Message msg) { Datagram d = msg.GetDatagram(); handle(id, d, &msg, hold()); };
      switch(r.below(3))
      {
        case 0: s->real = bus->CreateSubscriber(topic, dcb); break;
        case 1: s->real = bus->CreateSubscriber(topic); s->real->SetMessageCallback(mcb); break;
        case 2: s->real = bus->CreateSubscriber(topic); s->real->SetDatagramCallback(dcb); break;
      }
      std::lock_guard<std::mutex> l(m);
      s->created = tick();
      return s;
    }

    Pub* addPub(const std::shared_ptr<Bus>& bus, const std::string& topic, int owner)
    {
      std::shared_ptr<Publisher> real = bus->CreatePublisher(topic);
      std::lock_guard<std::mutex> l(m);
      pubs.emplace_back();
      Pub* p = &pubs.back();
      p->id = (int)pubs.size() - 1;
      p->real = real;
      p->bus = bus;
      p->topic = topic;
      p->owner = owner;
      return p;
    }

    std::map<int, std::shared_ptr<std::vector<int>>> owned;

    void deleteSub(Sub* s)
    {
      // (asking waits for a handler that is running, so it is not always asked)
      if(s->id % 3 == 0 && !s->bus->ContainsSubscriber(s->real)) c.fail("contains-subscriber", "a live subscriber is not contained in its bus");
      { std::lock_guard<std::mutex> l(m); s->deleteCall = tick(); }
      s->bus->DeleteSubscriber(s->real);
      std::shared_ptr<std::vector<int>> state;
      {
        std::lock_guard<std::mutex> l(m);
        s->deleted = tick();
        auto it = owned.find(s->id);
        if(it != owned.end()) { state = it->second; owned.erase(it); }
      }
      state.reset();   // freed: a handler still using it is a use after free
      if(s->bus->ContainsSubscriber(s->real)) c.fail("contains-deleted-subscriber", "a deleted subscriber is still contained in its bus");
      c.count("subscriber_deletions");
    }
    void deletePub(Pub* p)
    {
      // what was never there can be deleted, too
      if(p->id % 3 == 0) { p->bus->DeletePublisher(nullptr); p->bus->DeleteSubscriber(nullptr); }
      if(!p->bus->ContainsPublisher(p->real)) c.fail("contains-publisher", "a live publisher is not contained in its bus");
      { std::lock_guard<std::mutex> l(m); p->deleteCall = tick(); }
      p->bus->DeletePublisher(p->real);
      { std::lock_guard<std::mutex> l(m); p->deleted = tick(); }
      if(p->bus->ContainsPublisher(p->real)) c.fail("contains-deleted-publisher", "a deleted publisher is still contained in its bus");
      c.count("publisher_deletions");
    }

    Msg* newMsg(Rng& r, int thread, int cause)
    {
      TreeOpts to;
      to.depth = o.payloadDepth;
      to.width = 3;
      to.noNan = true;
      Tree payload = o.payloadDepth == 0 ? Tree::num((int)r.next()) : randomTree(r, to);
      std::lock_guard<std::mutex> l(m);
      msgs.emplace_back();
      Msg* x = &msgs.back();
      x->id = (int)msgs.size() - 1;
      x->thread = thread;
      x->payload = payload;
      x->cause = cause;
      return x;
    }
    Datagram datagramOf(const Msg* x)
    {
      Datagram d;
      d["id"] = x->id;
      d["p"] = toDatagram(x->payload);
      return d;
    }
    void finish(Rng& r, Msg* x, Datagram& d, const std::function<void()>& publish)
    {
      { std::lock_guard<std::mutex> l(m); x->call = tick(); }
      publish();
      { std::lock_guard<std::mutex> l(m); x->ret = tick(); }
      if(o.mutate)
      {
        // the publisher goes on using its datagram
        switch(r.below(6))
        {
          case 4: case 5: vandalize(d["p"], x->payload); c.count("payloads_overwritten_in_place"); break;
          case 0: d["p"] = std::string("mutated by the publisher"); break;
          case 1: d["id"] = 99; d["more"] = true; break;
          case 2: d = std::string("gone"); break;
          default: d.Clear(); break;
        }
      }
      c.count("publishes");
    }
    void publishWith(Rng& r, Pub* p, int thread)
    {
      Msg* x = newMsg(r, thread, -1);
      { std::lock_guard<std::mutex> l(m); x->pub = p->id; x->topic = p->topic; x->sender = p->bus->GetIdentifier(); }
      Datagram d = datagramOf(x);
      finish(r, x, d, [&] { p->real->Publish(d); });
    }
    void publishDirect(Rng& r, int thread, int cause = -1)
    {
      Msg* x = newMsg(r, thread, cause);
      std::shared_ptr<Bus> bus = anyBus(r);
      {
        std::lock_guard<std::mutex> l(m);
        x->topic = randomTopic(r);
        switch(r.below(6))
        {
          case 0: case 1: x->sender = "Link0/elsewhere"; break;
          // as if it had come from, or through, one of the busses there are
          case 2: x->sender = busses[r.below(busses.size())]->GetIdentifier(); break;
          case 3: x->sender = bus->GetIdentifier() + "/" + (r.chance(1, 2) ? busses[r.below(busses.size())]->GetIdentifier() : randomString(r, false)); break;
          default: x->sender = randomString(r, false); break;
        }
      }
      Datagram d = datagramOf(x);
      Message msg(x->sender, x->topic, d);
      finish(r, x, d, [&] { bus->Publish(msg); });
      if(o.mutate) { msg.PrependSender("changed"); }
    }

    void start()
    {
      returned = false;
      runner = std::thread([this]
        {
          { std::lock_guard<std::mutex> l(m); runnerId = std::this_thread::get_id(); }
          root->Start();
          returnTick = tick();
          returned = true;
        });
    }
    void stop()
    {
      root->Stop();
      runner.join();
    }

    // One of mine whose handler is running right now, or else `k`.
    size_t awaitRunning(const std::vector<Sub*>& mine, size_t k)
    {
      for(int i = 0; i < 3000; ++i)
      {
        int now = current;
        if(now >= 0) for(size_t q = 0; q < mine.size(); ++q) if(mine[q]->id == now) return q;
        if(i % 50 == 49) std::this_thread::yield();
      }
      return k;
    }

    // -------------------------------------------------------------- workload
    void actor(int t, uint64_t seed)
    {
      Rng r(seed);
      std::vector<Sub*> mySubs;
      std::vector<Pub*> myPubs;
      {
        std::lock_guard<std::mutex> l(m);
        for(auto& s : subs) if(s.owner == t) mySubs.push_back(&s);
        for(auto& p : pubs) if(p.owner == t) myPubs.push_back(&p);
      }
      for(int i = 0; i < o.ops && !c.failed(); ++i)
      {
        c.alive();
        switch(r.below(12))
        {
          case 0: if(o.dynamicSubs && mySubs.size() < 6) { std::shared_ptr<Bus> b = anyBus(r); mySubs.push_back(addSub(r, b, randomTopic(r), t)); c.count("subscribers_created_while_running"); } break;
          case 1: if(o.deleteSubs && !mySubs.empty()) { size_t k = r.below(mySubs.size()); if(r.chance(2, 3)) k = awaitRunning(mySubs, k); deleteSub(mySubs[k]); mySubs.erase(mySubs.begin() + k); } break;
          case 2: if(o.dynamicPubs && myPubs.size() < 5) { std::shared_ptr<Bus> b = anyBus(r); myPubs.push_back(addPub(b, randomTopic(r), t)); } break;
          case 3:
            if(o.deletePubs && !myPubs.empty())
            {
              size_t k = r.below(myPubs.size());
              Pub* p = myPubs[k];
              deletePub(p);
              publishWith(r, p, t);      // goes nowhere
              c.count("publishes_with_deleted_publishers");
              myPubs.erase(myPubs.begin() + k);
            }
            break;
          case 4: if(o.childBusses && r.chance(1, 3) && busCounter < 12) { addBus(r); c.count("busses_created_while_running"); } break;
          case 5: nap((int)r.below(60)); break;
          case 6: publishDirect(r, t); break;
          default:
          {
            int burst = r.chance(1, 8) ? o.burst : 1;
            for(int k = 0; k < burst; ++k)
            {
              Pub* p = nullptr;
              {
                std::lock_guard<std::mutex> l(m);
                // own publishers, or the shared ones (owner -1), which are never deleted
                if(!myPubs.empty() && r.chance(1, 2)) p = myPubs[r.below(myPubs.size())];
                else
                {
                  size_t at = r.below(pubs.size());
                  for(size_t q = 0; q < pubs.size() && p == nullptr; ++q) { Pub& cand = pubs[(at + q) % pubs.size()]; if(cand.owner == -1) p = &cand; }
                }
              }
              if(p != nullptr) publishWith(r, p, t);
            }
          }
        }
      }
    }

    // Which messages must have reached which subscribers by now.
    bool required(const Sub& s, const Msg& x) const
    {
      if(!matches(s.topic, x.topic)) return false;
      if(s.deleteCall != NEVER || s.created == NEVER || s.created > x.call || x.ret == NEVER) return false;
      if(x.pub >= 0 && pubs[x.pub].deleteCall < x.ret) return false;
      return true;
    }
    bool forbidden(const Sub& s, const Msg& x) const
    {
      if(!matches(s.topic, x.topic)) return true;
      if(x.pub >= 0 && pubs[x.pub].deleted < x.call) return true;
      return s.deleted < x.call;
    }
    size_t missing(std::string* what = nullptr)
    {
      std::lock_guard<std::mutex> l(m);
      std::set<std::pair<int, int>> got;
      for(auto& d : log) got.insert({d.sub, d.msg});
      size_t n = 0;
      for(auto& s : subs)
        for(auto& x : msgs)
          if(required(s, x) && !got.count({s.id, x.id}))
          {
            if(n++ == 0 && what != nullptr)
              *what = "message " + std::to_string(x.id) + " (topic '" + printable(x.topic) + "', published on '" + x.sender + "' at " + std::to_string(x.call) + ".." + std::to_string(x.ret) +
                ") never reached subscriber " + std::to_string(s.id) + " (pattern '" + printable(s.topic) + "', on bus '" + s.bus->GetIdentifier() + "', there since " + std::to_string(s.created) + ")";
          }
      return n;
    }

    void settle()
    {
      // No verdict on time: gives up only when nothing moves any more.
      perturb(0, 0);
      size_t seen = (size_t)-1, checked = (size_t)-1;
      bool complete = false;
      auto quiet = [&]
        {
          size_t now;
          { std::lock_guard<std::mutex> l(m); now = log.size() + msgs.size(); }
          if(now != seen) { seen = now; nap(3000); return false; }
          if(now != checked) { checked = now; complete = missing() == 0; }
          return complete;
        };
      waitFor(c, quiet, 3000);
    }

    void go()
    {
      if(rng.chance(1, 25))
      {
        // a large system: few messages, many busses and subscribers
        o.ops = std::min(o.ops, 6);
        o.burst = std::min(o.burst, 4);
        o.republish = false;
        o.initialBusses = 10 + (int)rng.below(50);
        o.initialSubs = 20 + (int)rng.below(130);
        c.count("large_systems");
      }
      perturb(rng.chance(1, 5) ? 0 : 1 + (unsigned)rng.below(5), rng.next());
      for(int i = 0; i < o.initialBusses; ++i) addBus(rng, i % 2 == 0);
      addSub(rng, root, "/**/*", -1);
      for(int i = 0; i < o.initialSubs; ++i) addSub(rng, anyBus(rng), randomTopic(rng), rng.chance(1, 2) ? -1 : (int)rng.below(o.threads));
      addPub(root, "/a", -1);
      for(int i = 0; i < o.initialPubs; ++i) addPub(anyBus(rng), randomTopic(rng), rng.chance(1, 2) ? -1 : (int)rng.below(o.threads));
      bool before = o.beforeStart && rng.chance(1, 2);
      std::vector<std::thread> ts;
      auto actors = [&] { for(int t = 0; t < o.threads; ++t) { uint64_t seed = rng.next(); ts.emplace_back([this, t, seed] { actor(t, seed); }); } };
      if(before)
      {
        int n = 1 + (int)rng.below(20);
        for(int i = 0; i < n; ++i) publishWith(rng, &pubs[0], -1);
        c.count("published_before_start", n);
      }
      if(before && rng.chance(1, 3)) { actors(); start(); }
      else { start(); actors(); }
      for(auto& t : ts) t.join();
      settle();
      stop();
      if(o.restart && rng.chance(1, 2) && !c.failed())
      {
        for(int again = 1 + (int)rng.below(3); again > 0 && !c.failed(); --again)
        {
          int n = 1 + (int)rng.below(10);
          auto some = [&] { for(int i = 0; i < n; ++i) { if(rng.chance(1, 2)) publishWith(rng, &pubs[0], -1); else publishDirect(rng, -1); } };
          some();
          if(rng.chance(1, 2)) addSub(rng, anyBus(rng), rng.chance(1, 2) ? "/a" : "/**/*", -1);
          if(rng.chance(1, 3)) addBus(rng);
          some();
          perturb(rng.chance(1, 5) ? 0 : 1 + (unsigned)rng.below(5), rng.next());
          start();
          some();
          settle();
          stop();
          c.count("restarts");
        }
      }
      perturb(0, 0);
      c.count("deliveries", log.size());
      c.count("messages", msgs.size());
      c.count("subscribers", subs.size());
      c.maxOf("busses", busses.size());
      // The interleaving actually seen: which thread's message came when.
      uint64_t h = 1;
      for(auto& d : log) h = mix(h, d.msg >= 0 && (size_t)d.msg < msgs.size() ? (uint64_t)(msgs[d.msg].thread + 2) * 1000 + d.sub : 7);
      c.sig(h);
      if(!log.empty() && !msgs.empty())
        c.sample(std::to_string(msgs.size()) + " messages, " + std::to_string(subs.size()) + " subscribers, " + std::to_string(busses.size()) + " busses, " + std::to_string(log.size()) + " deliveries");
    }

    // ------------------------------------------------------ offline checkers
    void checkExactlyOnce()
    {
      std::string what;
      size_t n = missing(&what);
      size_t need = 0;
      std::map<std::pair<int, int>, int> got;
      for(auto& d : log) got[{d.sub, d.msg}]++;
      for(auto& s : subs) for(auto& x : msgs) if(required(s, x)) need++;
      c.count("required_deliveries", need);
      if(n > 0) c.fail("lost", what + "; " + std::to_string(n) + " of " + std::to_string(need) + " required deliveries missing");
      for(auto& g : got)
      {
        if(g.second > 1) c.fail("duplicated", "message " + std::to_string(g.first.second) + " reached subscriber " + std::to_string(g.first.first) + " " + std::to_string(g.second) + " times");
        if(g.first.second < 0 || (size_t)g.first.second >= msgs.size()) { c.fail("invented", "a handler was given a message nobody published"); continue; }
        const Sub& s = subs[g.first.first];
        const Msg& x = msgs[g.first.second];
        if(!matches(s.topic, x.topic)) c.fail("misrouted", "message on '" + printable(x.topic) + "' reached a subscriber to '" + printable(s.topic) + "'");
      }
    }

    void checkOrder()
    {
      // The wildcard subscriber on the root (id 0) exists all the time; its
      // sequence is the order everybody else has to agree with.
      std::map<int, size_t> rank;
      std::vector<int> order;
      for(auto& d : log) if(d.sub == 0 && d.msg >= 0) { if(!rank.count(d.msg)) { rank[d.msg] = order.size(); order.push_back(d.msg); } }
      // (the log is appended at handler exit; handlers do not overlap, which B10 decides)
      std::map<int, long> last;
      for(auto& d : log)
      {
        if(d.msg < 0 || !rank.count(d.msg)) continue;
        long r = (long)rank[d.msg];
        auto it = last.find(d.sub);
        c.count("order_comparisons");
        if(it != last.end() && r < it->second)
          c.fail("disagreement", "subscriber " + std::to_string(d.sub) + " saw message " + std::to_string(d.msg) + " after message " + std::to_string(order[it->second]) + ", subscriber 0 the other way round");
        last[d.sub] = r;
      }
      // real time: published (returned) before another was published (called)
      uint64_t latestCall = 0;
      int latest = -1;
      for(int id : order)
      {
        const Msg& x = msgs[id];
        c.count("real_time_pairs");
        if(latest >= 0 && x.ret < latestCall)
          c.fail("overtaken", "message " + std::to_string(id) + " was published (until " + std::to_string(x.ret) + ") before message " + std::to_string(latest) + " (from " + std::to_string(latestCall) + ") but delivered after it");
        if(x.call > latestCall) { latestCall = x.call; latest = id; }
      }
      // a message published by a handler comes after the one handled
      for(auto& x : msgs)
        if(x.cause >= 0 && rank.count(x.id) && rank.count(x.cause))
        {
          c.count("causal_pairs");
          if(rank[x.id] < rank[x.cause]) c.fail("causality", "a message published by a handler was delivered before the message it handled");
        }
    }

    void checkContent()
    {
      for(auto& d : log)
      {
        if(d.msg < 0 || (size_t)d.msg >= msgs.size()) { c.fail("content", "a handler was given something that was not published: " + d.problem); continue; }
        const Msg& x = msgs[d.msg];
        c.count("contents_compared");
        if(!d.problem.empty()) c.fail("content", "subscriber " + std::to_string(d.sub) + ", message " + std::to_string(d.msg) + ": " + d.problem);
        if(d.viaMessage)
        {
          c.count("attributions_compared");
          if(d.sender != x.sender) c.fail("sender", "sender is '" + printable(d.sender) + "', published on '" + printable(x.sender) + "'");
          if(d.topic != x.topic) c.fail("topic", "topic is '" + printable(d.topic) + "', published as '" + printable(x.topic) + "'");
        }
      }
    }

    void checkDeletion()
    {
      for(auto& d : log)
      {
        if(d.msg < 0 || (size_t)d.msg >= msgs.size()) continue;
        const Sub& s = subs[d.sub];
        const Msg& x = msgs[d.msg];
        c.count("deliveries_checked");
        if(s.deleted != NEVER && d.exit > s.deleted)
          c.fail("handler-after-deletion", "a handler of subscriber " + std::to_string(s.id) + " ran at " + std::to_string(d.enter) + ".." + std::to_string(d.exit) + ", its deletion had returned at " + std::to_string(s.deleted));
        if(s.deleteCall != NEVER && d.exit > s.deleteCall) c.count("deletions_overlapping_a_handler");
        if(x.pub >= 0 && pubs[x.pub].deleted < x.call)
          c.fail("published-after-deletion", "a message published with a deleted publisher was delivered");
      }
      std::string what;
      if(missing(&what) > 0) c.fail("others-affected", what);
    }

    void checkSerial()
    {
      std::vector<const Delivery*> v;
      for(auto& d : log) v.push_back(&d);
      std::sort(v.begin(), v.end(), [](const Delivery* a, const Delivery* b) { return a->enter < b->enter; });
      for(size_t i = 0; i < v.size(); ++i)
      {
        c.count("handler_runs");
        if(!(v[i]->thread == runnerId) && !o.restart) c.fail("wrong-thread", "a handler ran on another thread than the one running the bus");
        if(i > 0 && v[i]->enter < v[i - 1]->exit) c.fail("overlap", "two handlers ran at the same time");
      }
    }
  };

  // Messages that are alike in everything are as many messages as were published.
  // Now and then there are very many of them.
  void alikeMessages(Case& c)
  {
    Rng& r = c.rng;
    const bool many = c.index % 40 == 4;
    perturb(many || r.chance(1, 2) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::vector<std::shared_ptr<Bus>> busses(1, root);
    for(int i = (int)r.below(4); i > 0; --i) busses.push_back(busses[r.below(busses.size())]->CreateChildBus("b" + std::to_string(i)));
    const size_t K = 4;
    struct Counter { std::atomic<uint64_t> n[4]; std::shared_ptr<Subscriber> real; std::string topic; Counter() { for(auto& x : n) x = 0; } };
    std::deque<Counter> counters;
    // four kinds of message, told apart by content only, some without any
    std::vector<Datagram> kinds;
    kinds.push_back(Datagram());
    kinds.push_back(Datagram(7));
    kinds.push_back(Datagram(std::string("same again")));
    { Datagram d; d["a"] = std::string("x"); d["b"]["c"] = 1; kinds.push_back(d); }
    auto kindOf = [&](Datagram& d) { for(size_t k = 0; k < K; ++k) if(d == kinds[k]) return (int)k; return -1; };
    static const char* const topics[] = {"/same", "/**/*", "/same", "/else"};
    for(int i = 0; i < (many ? 2 : 5); ++i)
    {
      counters.emplace_back();
      Counter* n = &counters.back();
      n->topic = i == 0 ? "/same" : topics[r.below(4)];
      lp::bus::DatagramCallbackType dcb = [&c, n, kindOf](Datagram d)
        {
          int k = kindOf(d);
          if(k < 0) c.fail("content", "a handler was given something that was not published");
          else n->n[k]++;
          progressed();
        };
      std::shared_ptr<Bus> on = busses[r.below(busses.size())];
      switch(r.below(3))
      {
        case 0: n->real = on->CreateSubscriber(n->topic, dcb); break;
        case 1: n->real = on->CreateSubscriber(n->topic); n->real->SetDatagramCallback(dcb); break;
        case 2: n->real = on->CreateSubscriber(n->topic); n->real->SetMessageCallback([dcb](Message x) { dcb(x.GetDatagram()); }); break;
      }
    }
    const int T = many ? 1 : 1 + (int)r.below(4);
    const uint64_t per = many ? (c.thorough ? 300000 : 140000) + r.below(60000) : 20 + r.below(200);
    std::vector<uint64_t> sent(K, 0);
    std::mutex m;
    bool first = many ? r.chance(1, 2) : r.chance(1, 3);
    std::thread runner;
    auto start = [&] { runner = std::thread([&] { root->Start(); }); };
    if(!first) start();
    std::vector<std::thread> ts;
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          std::shared_ptr<Bus> b = busses[q.below(busses.size())];
          std::shared_ptr<Publisher> pub = b->CreatePublisher("/same");
          std::vector<uint64_t> mine(K, 0);
          size_t k = q.below(K);
          for(uint64_t i = 0; i < per; ++i)
          {
            if(q.chance(1, 6)) k = q.below(K);
            if(q.chance(1, 2)) pub->Publish(kinds[k]);
            else b->Publish(Message("someone", "/same", kinds[k]));
            mine[k]++;
            if(i % 64 == 0) c.alive();
          }
          std::lock_guard<std::mutex> l(m);
          for(size_t j = 0; j < K; ++j) sent[j] += mine[j];
        });
    }
    for(auto& t : ts) t.join();
    if(first) start();
    auto complete = [&]
      {
        for(auto& n : counters) for(size_t k = 0; k < K; ++k) if(n.n[k] < (n.topic == "/else" ? 0 : sent[k])) return false;
        return true;
      };
    waitFor(c, complete, 4000);
    nap(2000);
    root->Stop();
    runner.join();
    perturb(0, 0);
    uint64_t total = 0;
    for(auto& n : counters)
      for(size_t k = 0; k < K; ++k)
      {
        uint64_t want = n.topic == "/else" ? 0 : sent[k];
        total += want;
        if(n.n[k] < want) c.fail("lost", "of " + std::to_string(want) + " messages that are alike, a subscriber to '" + n.topic + "' was given " + std::to_string(n.n[k]));
        if(n.n[k] > want) c.fail("duplicated", "of " + std::to_string(want) + " messages that are alike, a subscriber to '" + n.topic + "' was given " + std::to_string(n.n[k]));
      }
    c.count("alike_deliveries", total);
    c.maxOf("messages_in_one_run", per * (uint64_t)T);
    c.sig(mix(mix(total, T), mix(busses.size(), r.next())));
    c.sample(std::to_string(per * (uint64_t)T) + " messages of four kinds, alike within each, from " + std::to_string(T) + " threads; " + std::to_string(total) + " deliveries");
  }

  // Thousands of messages waiting while the bus is not running, or held up in a
  // handler: their order is the one they were published in.
  void backlog(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 2) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::vector<std::shared_ptr<Bus>> busses(1, root);
    for(int i = (int)r.below(4); i > 0; --i) busses.push_back(busses[r.below(busses.size())]->CreateChildBus("b" + std::to_string(i)));
    static const char* const topics[] = {"/a", "/b", "/urgent", "/a/request", "/a/response", "", "/sysinfo"};
    std::mutex gate;
    std::condition_variable cv;
    bool open = false;
    std::atomic<bool> inside(false);
    root->CreateSubscriber(std::string("/gate"), lp::bus::DatagramCallbackType([&](Datagram)
      {
        inside = true;
        std::unique_lock<std::mutex> l(gate);
        cv.wait(l, [&] { return open; });
      }));
    struct Seen { std::string topic; std::vector<int> ids; };
    std::deque<Seen> seen;
    std::atomic<int> total(0);
    for(int i = 0; i < 4; ++i)
    {
      seen.emplace_back();
      Seen* s = &seen.back();
      s->topic = i < 2 ? "/**/*" : topics[r.below(7)];
      busses[r.below(busses.size())]->CreateSubscriber(s->topic, lp::bus::DatagramCallbackType([s, &total](Datagram d)
        {
          if(d.GetType() != RawDatagramType::Value || !d.Get<std::string>("").empty()) return;
          s->ids.push_back(d.Get<int>());
          if(s->topic == "/**/*") total++;
          progressed();
        }));
    }
    const int T = 1 + (int)r.below(5);
    const int per = 50 + (int)r.below(r.chance(1, 3) ? (c.thorough ? 20000 : 5000) : 900);
    bool gated = r.chance(2, 3), concurrently = gated && r.chance(1, 4);
    std::thread runner;
    auto start = [&] { runner = std::thread([&] { root->Start(); }); };
    auto release = [&] { { std::lock_guard<std::mutex> l(gate); open = true; } cv.notify_all(); };
    if(gated)
    {
      start();
      root->Publish(Message("x", "/gate", Datagram(std::string("gate"))));
      if(!waitFor(c, [&] { return inside.load(); }, 5000)) c.fail("lost", "a handler is never run");
    }
    // one thread at a time publishes a number of messages, and passes on: everything
    // published before is before what is published after
    std::mutex turn;
    int next = 0;
    std::vector<std::thread> ts;
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          int left = per;
          while(left > 0)
          {
            std::shared_ptr<Bus> b = busses[q.below(busses.size())];
            std::string topic = topics[q.below(7)], sender = q.chance(1, 2) ? "root" : b->GetIdentifier();
            std::shared_ptr<Publisher> pub = b->CreatePublisher(topic);
            int some = std::min(left, 1 + (int)q.below(60));
            left -= some;
            std::lock_guard<std::mutex> l(turn);
            for(; some > 0; --some)
            {
              int id = next++;
              if(q.chance(1, 2)) pub->Publish(Datagram(id)); else b->Publish(Message(sender, topic, Datagram(id)));
            }
            c.alive();
            if(concurrently && next > T * per / 2) release();
          }
        });
    }
    for(auto& t : ts) t.join();
    if(gated) release(); else start();
    waitFor(c, [&] { return total.load() >= 2 * T * per; }, 4000);
    nap(1000);
    root->Stop();
    runner.join();
    perturb(0, 0);
    for(auto& s : seen)
    {
      for(size_t i = 1; i < s.ids.size(); ++i)
        if(s.ids[i] <= s.ids[i - 1])
        {
          c.fail("overtaken", "message " + std::to_string(s.ids[i]) + " was published before message " + std::to_string(s.ids[i - 1]) + " but delivered after it, with " + std::to_string(T * per) + " messages waiting");
          break;
        }
      c.count("order_comparisons", s.ids.size());
    }
    c.count("backlog_messages", (uint64_t)(T * per));
    c.maxOf("messages_waiting", (uint64_t)(T * per));
    c.sig(mix(mix((uint64_t)T, (uint64_t)per), mix(gated, concurrently)));
    c.sample(std::to_string(T * per) + " messages of " + std::to_string(T) + " threads waited " + (gated ? "for a handler" : "for the bus to run"));
  }

  // ============================================================ properties
  void caseB01(Case& c)
  {
    if(c.index % 5 == 4) { alikeMessages(c); return; }
    Opts o;
    Rng& r = c.rng;
    o.threads = 1 + (int)r.below(5);
    o.ops = 10 + (int)r.below(40);
    o.dynamicSubs = r.chance(2, 3);
    o.dynamicPubs = r.chance(1, 2);
    o.childBusses = r.chance(1, 2);
    o.republish = r.chance(1, 3);
    o.restart = r.chance(1, 3);
    o.payloadDepth = 0;
    o.initialBusses = (int)r.below(6);
    o.initialSubs = 1 + (int)r.below(14);
    o.burst = r.chance(1, 6) ? (c.thorough ? 1500 : 120) : 8;
    World w(c, o);
    w.go();
    w.checkExactlyOnce();
  }

  void caseB02(Case& c)
  {
    if(c.index % 5 == 3) { backlog(c); return; }
    Opts o;
    Rng& r = c.rng;
    o.threads = 2 + (int)r.below(5);
    o.ops = 15 + (int)r.below(40);
    o.dynamicSubs = r.chance(1, 3);
    o.dynamicPubs = r.chance(1, 2);
    o.republish = r.chance(1, 2);
    o.restart = r.chance(1, 4);
    o.payloadDepth = 0;
    o.burst = r.chance(1, 3) ? 60 : 5;
    o.initialBusses = (int)r.below(5);
    o.slowHandlers = r.chance(1, 3);
    World w(c, o);
    w.go();
    w.checkOrder();
  }

  void caseB03(Case& c)
  {
    Opts o;
    Rng& r = c.rng;
    o.threads = 1 + (int)r.below(4);
    o.ops = 10 + (int)r.below(25);
    o.mutate = true;
    o.payloadDepth = 1 + (int)r.below(4);
    o.dynamicSubs = r.chance(1, 3);
    o.dynamicPubs = r.chance(1, 2);
    o.childBusses = r.chance(1, 3);
    o.initialBusses = (int)r.below(5);
    o.initialSubs = 4 + (int)r.below(10);
    o.burst = 5;
    World w(c, o);
    w.go();
    w.checkContent();
  }

  void caseB04(Case& c)
  {
    Opts o;
    Rng& r = c.rng;
    o.threads = 2 + (int)r.below(4);
    o.ops = 20 + (int)r.below(40);
    o.dynamicSubs = o.deleteSubs = true;
    o.dynamicPubs = o.deletePubs = true;
    o.slowHandlers = r.chance(2, 3);
    o.ownedState = true;
    o.payloadDepth = 0;
    o.initialSubs = r.chance(1, 2) ? 8 : 14 + (int)r.below(16);
    o.initialPubs = r.chance(1, 2) ? 5 : 10 + (int)r.below(14);
    o.initialBusses = (int)r.below(4);
    o.burst = 10;
    World w(c, o);
    w.go();
    w.checkDeletion();
  }

  // ------------------------------------------------------------- B05: stop
  void caseB05(Case& c)
  {
    Rng& r = c.rng;
    for(int round = 0; round < 3 && !c.failed(); ++round)
    {
      std::shared_ptr<Bus> bus = std::make_shared<Bus>("root");
      std::shared_ptr<Bus> child = bus->CreateChildBus("child");
      std::vector<std::shared_ptr<Bus>> tree = {bus, child};
      for(int i = (int)r.below(4); i > 0; --i) tree.push_back(tree[r.below(tree.size())]->CreateChildBus("further" + std::to_string(i)));
      std::atomic<uint64_t> handled(0);
      std::atomic<uint64_t> lastHandler(0);
      int mode = (int)r.below(8);
      int stopAt = 1 + (int)r.below(40);
      // what was handled by the time a stop request had returned
      std::atomic<uint64_t> handledAtStop(NEVER);
      auto stop = [&] { bus->Stop(); uint64_t now = handled, none = NEVER; handledAtStop.compare_exchange_strong(none, now); };
      std::shared_ptr<Publisher> echo = tree[r.below(tree.size())]->CreatePublisher("/echo");
      auto handler = [&](Datagram)
        {
          uint64_t n = ++handled;
          if(mode == 4 && n == (uint64_t)stopAt) stop();
          if(mode == 7) echo->Publish(Datagram(1));   // there is always something left to deliver
          lastHandler = tick();
        };
      bus->CreateSubscriber("/t", lp::bus::DatagramCallbackType(handler));
      child->CreateSubscriber(mode == 7 ? "/echo" : "/**/*", lp::bus::DatagramCallbackType(handler));
      std::shared_ptr<Publisher> pub = child->CreatePublisher("/t");
      if(r.chance(1, 5)) { int waiting = (int)r.below(r.chance(1, 4) ? 4000 : 400); for(int i = 0; i < waiting; ++i) pub->Publish(Datagram(i)); c.count("waiting_before_start", waiting); }
      if(mode == 7) echo->Publish(Datagram(0));
      perturb(r.chance(1, 4) ? 0 : 1 + (unsigned)r.below(5), r.next());
      std::atomic<bool> flood(true);
      std::vector<std::thread> floods;
      int nf = (int)r.below(3) + (mode == 4 ? 1 : 0);
      // (a bounded flood, so that the queue cannot grow without end)
      for(int i = 0; i < nf; ++i) floods.emplace_back([&] { for(int k = 0; k < 3000 && flood; ++k) { pub->Publish(Datagram(k)); if(k % 50 == 0) nap(20); } });
      auto quitFlood = [&] { flood = false; for(auto& t : floods) t.join(); floods.clear(); };

      std::atomic<uint64_t> returnedAt(0);
      std::atomic<bool> entered(false);
      auto body = [&] { entered = true; bus->Start(); returnedAt = tick(); };
      std::vector<std::thread> stoppers;
      int delay = (int)r.below(r.chance(1, 4) ? 25000 : 3000);
      if(r.chance(1, 4)) delay = 0;
      if(mode == 0) stop();                                     // before anything runs
      if(mode == 1) stoppers.emplace_back([&] { stop(); });     // racing with the start
      std::thread runner(body);
      switch(mode)
      {
        case 2: stop(); break;                                  // right after the thread was created
        case 3: while(!entered) std::this_thread::yield(); stop(); break;
        case 4: break;                                               // from a handler
        case 5: case 7: nap(delay); stop(); break;
        case 6: { int n = 2 + (int)r.below(3); for(int i = 0; i < n; ++i) stoppers.emplace_back([&, i] { nap(delay / (i + 1)); stop(); }); } break;
        default: break;
      }
      runner.join();     // never coming back is what the watchdog decides
      c.alive();
      for(auto& t : stoppers) t.join();
      c.count("stops");
      c.count("stops_mode_" + std::to_string(mode));
      for(int i = 0; i < 5; ++i) pub->Publish(Datagram(i));
      nap(500 + (int)r.below(1000));
      quitFlood();
      if(handledAtStop != NEVER && handled > handledAtStop + 40)
        c.fail("works-on-after-stop", std::to_string(handled - handledAtStop) + " more handler runs after a stop request had returned: what was still waiting was worked off first");
      c.count("stops_followed");
      if(lastHandler > returnedAt) c.fail("handler-after-return", "a handler ran after the bus had returned from running");
      c.count("handlers_before_stop", handled);
      c.sig(mix(mix(mode, handled), nf));

      // Exactly one stop was requested: it is used up, and the bus can run again, any number of times.
      if(mode != 6 && r.chance(1, 2) && !c.failed())
      {
        int oldMode = mode;
        mode = 5;
        std::atomic<int> run(0);
        std::vector<std::unique_ptr<std::atomic<int>>> lastRun;
        for(size_t i = 0; i < tree.size(); ++i)
        {
          lastRun.emplace_back(new std::atomic<int>(0));
          std::atomic<int>* mine = lastRun.back().get();
          tree[i]->CreateSubscriber(r.chance(1, 2) ? "/again" : "/**/*", lp::bus::DatagramCallbackType([mine](Datagram d) { if(d.GetType() == RawDatagramType::Dictionary) *mine = d.Get<int>("run", 0); progressed(); }));
        }
        auto p2 = tree[r.below(tree.size())]->CreatePublisher("/again");
        for(int k = 1 + (int)r.below(3); k > 0 && !c.failed(); --k)
        {
          int now = ++run;
          Datagram d; d["run"] = now;
          bool early = r.chance(1, 2);
          if(early) p2->Publish(d);
          std::thread second([&] { bus->Start(); });
          if(!early) p2->Publish(d);
          bool ok = waitFor(c, [&] { for(auto& l : lastRun) if(*l != now) return false; return true; }, 4000);
          if(!ok)
          {
            std::string silent;
            for(size_t i = 0; i < tree.size(); ++i) if(*lastRun[i] != now) silent += " '" + tree[i]->GetIdentifier() + "'";
            c.fail("cannot-run-again", "a bus that was stopped once (mode " + std::to_string(oldMode) + ") and started again delivers nothing to subscribers of" + silent + " in run " + std::to_string(now + 1));
          }
          else c.count("further_runs");
          c.count("subscribers_asked_in_further_runs", lastRun.size());
          bus->Stop();
          second.join();
        }
      }
      perturb(0, 0);
      c.sample("stop mode " + std::to_string(mode) + ", " + std::to_string(handled.load()) + " handler runs before it");
    }
  }

  // --------------------------------------------- B06: races and memory errors
  // No recorder here: its locks would hide the races looked for.
  void caseB06(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    const int T = 2 + (int)r.below(5);
    const int ops = 15 + (int)r.below(c.thorough ? 120 : 50);
    std::vector<std::shared_ptr<Bus>> busses;
    busses.push_back(root);
    for(int i = 0; i < 3; ++i) busses.push_back(busses[r.below(busses.size())]->CreateChildBus("b" + std::to_string(i)));
    // shared among the threads: everything the API offers may be used from any of them
    std::shared_ptr<Bus> hot = busses[r.below(busses.size())];   // where everybody makes and looks for child busses
    std::atomic<int> hotNames(1);
    std::vector<std::shared_ptr<Publisher>> pubs;
    std::vector<std::shared_ptr<Subscriber>> subs;
    for(int i = 0; i < 4; ++i) pubs.push_back(busses[i]->CreatePublisher(i % 2 ? "/a" : "/b"));
    for(int i = 0; i < 4; ++i) subs.push_back(busses[i]->CreateSubscriber(std::string(i % 2 ? "/a" : "/**/*")));
    std::thread runner([&] { root->Start(); });
    std::vector<std::thread> ts;
    std::atomic<uint64_t> total(0);
    bool tearDown = r.chance(1, 3);
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, t, seed]
        {
          Rng q(seed);
          uint64_t done = 0;
          std::vector<std::pair<std::shared_ptr<Bus>, std::shared_ptr<Subscriber>>> mine;
          std::vector<std::pair<std::shared_ptr<Bus>, std::shared_ptr<Publisher>>> minePubs;
          std::vector<std::shared_ptr<Bus>> local = busses;
          for(int i = 0; i < ops; ++i)
          {
            ++done;
            switch(q.below(16))
            {
              case 0: { auto b = local[q.below(local.size())]; mine.push_back({b, b->CreateSubscriber(std::string(q.chance(1, 2) ? "/a" : "/**/*"), lp::bus::DatagramCallbackType([](Datagram d) { (void)d.GetType(); }))}); } break;
              case 1: if(!mine.empty()) { auto x = mine.back(); mine.pop_back(); x.first->DeleteSubscriber(x.second); } break;
              case 2: { auto b = local[q.below(local.size())]; minePubs.push_back({b, b->CreatePublisher("/a")}); } break;
              case 3: if(!minePubs.empty()) { auto x = minePubs.back(); minePubs.pop_back(); x.first->DeletePublisher(x.second); x.second->Publish(Datagram(1)); } break;
              case 4: subs[q.below(subs.size())]->SetDatagramCallback([](Datagram d) { (void)d.GetType(); }); break;
              case 5: subs[q.below(subs.size())]->SetMessageCallback([](Message m) { (void)m.GetTopic(); }); break;
              case 6: (void)local[q.below(local.size())]->ContainsSubscriber(subs[0]); (void)local[q.below(local.size())]->ContainsPublisher(pubs[0]); break;
              case 7: if(q.chance(1, 2)) { for(int k = 0; k < 4; ++k) try { (void)hot->CreateChildBus("h" + std::to_string(hotNames.fetch_add(1, std::memory_order_relaxed) % 250)); } catch(ex::Exception&) { } } else try { auto nb = local[q.below(local.size())]->CreateChildBus("t" + std::to_string(t) + "_" + std::to_string(i)); local.push_back(nb); } catch(ex::Exception&) { } break;
              case 8: for(int k = (int)q.below(30); k >= 0; --k) try { (void)(q.chance(1, 4) ? root : hot)->GetChildBus(q.chance(1, 4) ? "b0" : "h" + std::to_string(q.below(hotNames.load(std::memory_order_relaxed)))); } catch(ex::Exception&) { } break;
              case 9: local[q.below(local.size())]->Publish(Message("x", "/a", Datagram(2))); break;
              case 10: pubs[q.below(pubs.size())]->Publish(Datagram(std::string("text"))); (void)pubs[0]->GetTopic(); break;
              case 11: { auto p = q.below(pubs.size()); (void)p; Datagram d; d["k"] = 1; pubs[p]->Publish(d); } break;
              // deleted while others use it
              case 13: if(q.chance(1, 12)) { size_t k = q.below(pubs.size()); busses[k]->DeletePublisher(pubs[k]); c.count("deletions_of_used_participants"); } break;
              case 14: if(q.chance(1, 12)) { size_t k = q.below(subs.size()); busses[k]->DeleteSubscriber(subs[k]); c.count("deletions_of_used_participants"); } break;
              case 12: if(!mine.empty()) mine.back().second->SetDatagramCallback([](Datagram d) { (void)d.IsEmpty(); }); break;
              default: pubs[q.below(pubs.size())]->Publish(Datagram(i)); break;
            }
          }
          total += done;
        });
    }
    if(tearDown)
    {
      // stop, detach and destroy while the others go on
      nap((int)r.below(3000));
      root->Stop();
      runner.join();
      root->Detach();
      if(r.chance(1, 2)) { nap((int)r.below(500)); }
    }
    for(auto& t : ts) t.join();
    if(!tearDown) { root->Stop(); runner.join(); }
    c.alive();
    // leftovers outlive the bus
    busses.clear();
    root.reset();
    for(auto& p : pubs) p->Publish(Datagram(3));
    perturb(0, 0);
    c.count("operations", total);
    c.count(tearDown ? "teardowns_under_load" : "orderly_ends");
    c.sig(r.next());
    c.sample(std::to_string(T) + " threads, " + std::to_string(ops) + " operations each" + (tearDown ? ", torn down under load" : ""));
  }

  // ------------------------------------------------- B07: detach and destroy
  void caseB07(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::vector<std::shared_ptr<Bus>> busses(1, root);
    std::vector<int> parent(1, -1);
    int n = 1 + (int)r.below(8);
    for(int i = 0; i < n; ++i)
    {
      size_t at = r.below(busses.size());
      busses.push_back(busses[at]->CreateChildBus("b" + std::to_string(i)));
      parent.push_back((int)at);
    }
    struct Seen { int bus; uint64_t t; };
    std::mutex m;
    std::map<int, int> handled;      // id -> times
    for(auto& b : busses) b->CreateSubscriber("/t", lp::bus::DatagramCallbackType([&](Datagram d) { progressed(); std::lock_guard<std::mutex> l(m); handled[d.Get<int>()]++; }));
    std::vector<std::shared_ptr<Publisher>> pubs;
    for(auto& b : busses) pubs.push_back(b->CreatePublisher("/t"));
    std::thread runner([&] { root->Start(); });
    std::atomic<int> ids(1);
    std::atomic<bool> go(true);
    std::vector<std::thread> ts;
    bool load = r.chance(2, 3);
    if(load)
      for(int t = 0; t < 3; ++t)
      {
        uint64_t seed = r.next();
        ts.emplace_back([&, seed]
          {
            Rng q(seed);
            for(int k = 0; k < 400 && go; ++k) { size_t at = q.below(pubs.size()); pubs[at]->Publish(Datagram(-(k + 1))); if(k % 20 == 0) nap(50); }
          });
      }
    nap((int)r.below(1500));
    // detach one bus (often the root): nothing published from below it arrives any more
    size_t which = r.chance(1, 3) ? 0 : r.below(busses.size());
    bool stopFirst = r.chance(1, 3);
    if(stopFirst) { root->Stop(); runner.join(); }
    busses[which]->Detach();
    std::set<int> ghosts, alive;
    for(size_t i = 0; i < busses.size(); ++i)
    {
      bool below = false;
      for(int a = (int)i; a != -1; a = parent[a]) if(a == (int)which) below = true;
      int id = ids++;
      if(r.chance(1, 2)) pubs[i]->Publish(Datagram(id));
      else busses[i]->Publish(Message("x", "/t", Datagram(id)));
      (below ? ghosts : alive).insert(id);
    }
    c.count("published_below_detached", ghosts.size());
    c.count("published_elsewhere", alive.size());
    if(!stopFirst)
    {
      bool ok = waitFor(c, [&] { std::lock_guard<std::mutex> l(m); for(int id : alive) if(!handled.count(id)) return false; return true; }, 4000);
      if(!ok) c.fail("others-affected", "detaching one bus kept messages of another from being delivered");
      if(alive.empty()) nap(3000);
    }
    {
      std::lock_guard<std::mutex> l(m);
      for(int id : ghosts) if(handled.count(id)) c.fail("published-after-detach", "a message published below a detached bus was delivered");
    }
    // new ones cannot be had below it, or go nowhere
    if(r.chance(1, 2))
    {
      try
      {
        std::shared_ptr<Bus> late = busses[which]->CreateChildBus("late");
        late->CreatePublisher("/t")->Publish(Datagram(987654));
      }
      catch(ex::Exception&) { c.count("late_child_refused"); }
      auto lp2 = busses[which]->CreatePublisher("/t");
      lp2->Publish(Datagram(987654));
      nap(1000);
      std::lock_guard<std::mutex> l(m);
      if(handled.count(987654)) c.fail("published-after-detach", "a publisher made on a detached bus delivered a message");
    }
    if(!stopFirst) { root->Stop(); runner.join(); }
    // destroy the root while publishers go on; keep some child busses alive
    size_t before;
    { std::lock_guard<std::mutex> l(m); before = handled.size(); }
    std::vector<std::shared_ptr<Bus>> kept;
    for(size_t i = 1; i < busses.size(); ++i) if(r.chance(1, 2)) kept.push_back(busses[i]);
    busses.clear();
    root.reset();
    c.count("destroyed_under_load", load ? 1 : 0);
    c.alive();
    for(auto& p : pubs) p->Publish(Datagram(5000));
    for(auto& b : kept)
    {
      b->Publish(Message("x", "/t", Datagram(5001)));
      auto p = b->CreatePublisher("/t");
      p->Publish(Datagram(5002));
      b->DeletePublisher(p);
      auto s = b->CreateSubscriber(std::string("/t"));
      b->DeleteSubscriber(s);
      try { b->CreateChildBus("y")->CreatePublisher("/t")->Publish(Datagram(5003)); } catch(ex::Exception&) { }
      c.count("kept_busses_used");
    }
    nap(300);
    go = false;
    for(auto& t : ts) t.join();
    {
      std::lock_guard<std::mutex> l(m);
      if(handled.size() != before) c.fail("handled-after-destruction", "a handler ran after the bus was destroyed");
    }
    kept.clear();
    for(auto& p : pubs) p->Publish(Datagram(5004));
    perturb(0, 0);
    c.sig(mix(mix(which, n), handled.size()));
    c.sample(std::to_string(n + 1) + " busses, bus " + std::to_string(which) + " detached" + (load ? " under load" : ""));
  }

  // --------------------------------------------------------- B08: namespace
  void caseB08(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::string rootName = randomString(r, false);
    if(rootName.empty()) rootName = "root";
    std::shared_ptr<Bus> root = std::make_shared<Bus>(rootName);
    c.require(root->GetIdentifier() == rootName, "identifier", "a bus does not carry the name it was given");
    bool refused = false;
    try { Bus bad(""); } catch(ex::ArgumentNullException&) { refused = true; }
    c.require(refused, "empty-name", "a bus without a name was made");
    refused = false;
    try { Bus bad("x", nullptr); } catch(ex::ArgumentNullException&) { refused = true; }
    c.require(refused, "no-function", "a child bus without a way to publish was made");

    std::vector<std::string> names;
    int n = 2 + (int)r.below(8);
    while((int)names.size() < n)
    {
      std::string s = r.chance(1, 2) ? randomString(r, false) : "n" + std::to_string(r.below(12));
      if(s.empty() || std::find(names.begin(), names.end(), s) != names.end()) continue;
      names.push_back(s);
    }
    std::vector<std::shared_ptr<Bus>> parents(1, root);
    if(r.chance(1, 2)) parents.push_back(root->CreateChildBus("second parent"));
    struct Result { int thread; size_t parent, name; std::shared_ptr<Bus> bus; std::string outcome; };
    std::vector<std::vector<Result>> all;
    int T = 1 + (int)r.below(5);
    all.resize(T);
    std::vector<std::thread> ts;
    std::atomic<int> ready(0);
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, t, seed]
        {
          Rng q(seed);
          std::vector<std::pair<size_t, size_t>> todo;
          for(size_t p = 0; p < parents.size(); ++p) for(size_t k = 0; k < names.size(); ++k) todo.push_back({p, k});
          for(size_t i = todo.size(); i > 1; --i) if(q.chance(1, 3)) std::swap(todo[i - 1], todo[q.below(i)]);
          ready++;
          while(ready < T) std::this_thread::yield();
          for(auto& pk : todo)
          {
            Result x;
            x.thread = t; x.parent = pk.first; x.name = pk.second;
            try { x.bus = parents[pk.first]->CreateChildBus(names[pk.second]); x.outcome = "created"; }
            catch(ex::DuplicateKeyException& e) { x.outcome = e.GetKey() == names[pk.second] ? "duplicate" : "duplicate of '" + e.GetKey() + "'"; }
            catch(std::exception& e) { x.outcome = std::string("threw ") + e.what(); }
            all[t].push_back(x);
            if(q.chance(1, 2))
            {
              // whoever got an answer can find it from now on
              try { auto got = parents[pk.first]->GetChildBus(names[pk.second]); if(x.bus && got != x.bus) c.fail("lookup", "the bus looked up is not the bus created"); }
              catch(std::exception& e) { c.fail("lookup", "an existing child bus was not found by its name"); }
              c.count("lookups_while_creating");
            }
          }
        });
    }
    for(auto& t : ts) t.join();
    perturb(0, 0);
    for(size_t p = 0; p < parents.size(); ++p)
      for(size_t k = 0; k < names.size(); ++k)
      {
        int created = 0;
        std::shared_ptr<Bus> winner;
        for(auto& v : all) for(auto& x : v) if(x.parent == p && x.name == k)
        {
          if(x.outcome == "created") { created++; winner = x.bus; }
          else if(x.outcome != "duplicate") c.fail("outcome", "creating '" + printable(names[k]) + "' again: " + x.outcome);
          else c.count("duplicates_refused");
        }
        c.count("names");
        if(created != 1) { c.fail("uniqueness", "the name '" + printable(names[k]) + "' was given out " + std::to_string(created) + " times on one parent"); continue; }
        if(winner == nullptr) { c.fail("uniqueness", "no bus was handed out"); continue; }
        if(winner->GetIdentifier() != names[k]) c.fail("identifier", "child bus '" + printable(names[k]) + "' is called '" + printable(winner->GetIdentifier()) + "'");
        for(int i = 0; i < 2; ++i) if(parents[p]->GetChildBus(names[k]) != winner) c.fail("lookup", "looking a name up gives another bus");
      }
    // A bus nobody refers to any more is still there for its parent.
    if(r.chance(2, 3))
    {
      std::map<std::pair<size_t, size_t>, std::weak_ptr<Bus>> made;
      for(auto& v : all) for(auto& x : v) { if(x.bus) made[{x.parent, x.name}] = x.bus; x.bus.reset(); }
      for(auto& entry : made)
      {
        const std::string& name = names[entry.first.second];
        std::shared_ptr<Bus>& parent = parents[entry.first.first];
        c.count("unreferenced_children");
        std::string outcome = "was made again";
        if(r.chance(2, 3))
        {
          try { parent->CreateChildBus(name); }
          catch(ex::DuplicateKeyException&) { outcome = ""; }
          if(!outcome.empty()) c.fail("uniqueness", "child bus '" + printable(name) + "', which nobody else referred to, " + outcome);
        }
        std::shared_ptr<Bus> got;
        try { got = parent->GetChildBus(name); } catch(std::exception&) {}
        if(got == nullptr || got != entry.second.lock()) c.fail("lookup", "child bus '" + printable(name) + "' is not the one created any more, once nobody else refers to it");
      }
    }
    // absent names
    for(int i = 0; i < 6; ++i)
    {
      std::string s = r.chance(1, 2) ? randomString(r, false) : names[r.below(names.size())] + (r.chance(1, 2) ? "x" : "0");
      if(std::find(names.begin(), names.end(), s) != names.end() || s == "second parent") continue;
      std::string got = "found";
      try { parents[r.below(parents.size())]->GetChildBus(s); }
      catch(ex::KeyNotFoundException& e) { got = e.GetKey() == s ? "absent" : "absent:" + e.GetKey(); }
      catch(std::exception& e) { got = e.what(); }
      c.count("absent_lookups");
      if(got != "absent") c.fail("absent", "looking up '" + printable(s) + "', which does not exist: " + got);
    }
    refused = false;
    try { root->CreateChildBus(""); } catch(ex::ArgumentNullException&) { refused = true; }
    c.require(refused, "empty-child-name", "a child bus without a name was made");
    uint64_t h = T;
    for(auto& v : all) for(auto& x : v) if(x.outcome == "created") h = mix(mix(h, x.thread), x.name);
    c.sig(h);
    c.sample(std::to_string(T) + " threads create " + std::to_string(n) + " names on " + std::to_string(parents.size()) + " parents");
  }

  // --------------------------------------------------- B09: waking an idle bus
  void caseB09(Case& c)
  {
    Rng& r = c.rng;
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child = root->CreateChildBus("child");
    std::atomic<int> seen(0);
    root->CreateSubscriber("/t", lp::bus::DatagramCallbackType([&](Datagram) { seen++; progressed(); }));
    gStretch = true;
    uint64_t before = gStretchedWaits;
    std::thread runner([&] { tStretched = true; root->Start(); });
    perturb(r.chance(1, 6) ? 0 : 1 + (unsigned)r.below(5), r.next());
    int T = 1 + (int)r.below(3);
    int expected = 0;
    std::vector<std::shared_ptr<Publisher>> pubs;
    for(int t = 0; t < T; ++t) pubs.push_back((t % 2 ? child : root)->CreatePublisher("/t"));
    int rounds = 30 + (int)r.below(60);
    for(int k = 0; k < rounds && !c.failed(); ++k)
    {
      // aim at the moment the bus goes to sleep again after the last message
      int spin = (int)r.below(4) == 0 ? (int)r.below(3000) : (int)r.below(200);
      for(volatile int i = 0; i < spin; i = i + 1) { }
      if(r.chance(1, 10)) nap((int)r.below(300));
      std::vector<std::thread> ts;
      expected += T;
      for(int t = 1; t < T; ++t) ts.emplace_back([&, t] { pubs[t]->Publish(Datagram(t)); });
      pubs[0]->Publish(Datagram(0));
      for(auto& t : ts) t.join();
      bool ok = waitFor(c, [&] { return seen.load() >= expected; }, 2500);
      if(!ok) c.fail("lost-wakeup", "a message published to an idle bus stays undelivered: the publish did not wake it (" + std::to_string(seen.load()) + " of " + std::to_string(expected) + " delivered)");
      c.count("publishes_to_idle_bus", T);
    }
    perturb(0, 0);
    root->Stop();
    gStretch = false;
    pubs[0]->Publish(Datagram(0));   // wakes it, so that it notices the stop
    runner.join();
    c.count("stretched_waits", gStretchedWaits - before);
    c.count("stretched_waits_timed_out", gStretchedTimeouts.load());
    c.sig(mix(gStretchedWaits - before, mix(T, rounds)));
    c.sample(std::to_string(rounds) + " rounds of " + std::to_string(T) + " publishers against a bus waiting for up to 60 s");
  }

  // ------------------------------- B10: serial handlers, asynchronous publish
  void caseB10(Case& c)
  {
    Rng& r = c.rng;
    if(r.chance(1, 2))
    {
      Opts o;
      o.threads = 2 + (int)r.below(4);
      o.ops = 15 + (int)r.below(25);
      o.slowHandlers = true;
      o.republish = true;
      o.payloadDepth = 0;
      o.dynamicSubs = r.chance(1, 2);
      o.childBusses = r.chance(1, 3);
      o.initialBusses = (int)r.below(5);
      World w(c, o);
      w.go();
      w.checkSerial();
      c.count("free_running_worlds");
      return;
    }
    // A handler that does not return: publishing goes on meanwhile.
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::vector<std::shared_ptr<Bus>> busses(1, root);
    for(int i = 0; i < 3; ++i) busses.push_back(busses[r.below(busses.size())]->CreateChildBus("b" + std::to_string(i)));
    std::mutex gate;
    std::condition_variable cv;
    bool open = false;
    std::atomic<bool> inside(false);
    std::atomic<int> handled(0), nested(0);
    std::atomic<bool> nestedReturned(false);
    std::shared_ptr<Publisher> nestedPub = busses[r.below(busses.size())]->CreatePublisher("/nested");
    std::atomic<int> nestedDuringHandler(0);
    std::shared_ptr<Bus> at = busses[r.below(busses.size())];
    bool wildcard = r.chance(1, 2);
    at->CreateSubscriber(std::string("/gate"), lp::bus::DatagramCallbackType([&](Datagram)
      {
        nestedPub->Publish(Datagram(1));
        nestedReturned = true;
        inside = true;
        std::unique_lock<std::mutex> l(gate);
        cv.wait(l, [&] { return open; });
        nestedDuringHandler = nested.load();
        handled++;
      }));
    root->CreateSubscriber(std::string("/nested"), lp::bus::DatagramCallbackType([&](Datagram) { nested++; progressed(); }));
    std::atomic<int> others(0);
    busses[r.below(busses.size())]->CreateSubscriber(std::string(wildcard ? "/**/*" : "/t"), lp::bus::DatagramCallbackType([&](Datagram) { others++; progressed(); }));
    std::shared_ptr<Publisher> gatePub = busses[r.below(busses.size())]->CreatePublisher("/gate");
    std::vector<std::shared_ptr<Publisher>> pubs;
    for(auto& b : busses) pubs.push_back(b->CreatePublisher("/t"));
    std::thread runner([&] { root->Start(); });
    gatePub->Publish(Datagram(1));
    bool ok = waitFor(c, [&] { return inside.load(); }, 5000);
    if(!ok) c.fail(nestedReturned ? "handler-not-run" : "nested-publish-blocked", "publishing from a handler does not return, or the handler is never run");
    std::atomic<int> published(0);
    std::vector<std::thread> ts;
    // now and then far more than anybody would expect to be queued
    const int per = r.chance(1, 12) ? 15000 + (int)r.below(c.thorough ? 60000 : 10000) : 1 + (int)r.below(200);
    for(int t = 0; t < 3 && ok; ++t)
      ts.emplace_back([&, t]
        {
          for(int k = 0; k < per; ++k) { if(k % 3 == 0) busses[t]->Publish(Message("x", "/t", Datagram(k))); else pubs[t]->Publish(Datagram(k)); published++; }
          // so does making and dropping publishers
          auto p = busses[t]->CreatePublisher("/t");
          p->Publish(Datagram(1)); published++;
          busses[t]->DeletePublisher(p);
          published++;
        });
    if(ok)
    {
      int moved = -1;
      bool free = waitFor(c, [&] { int p = published.load(); if(p != moved) { moved = p; progressed(); } return p == 3 * (per + 2); }, 4000);
      if(!free) c.fail("publish-blocked", "publishing blocks while a handler is running");
      c.count("publishes_during_a_handler", 3 * (per + 1));
      if(others.load() != (wildcard ? others.load() : 0)) c.fail("overlap", "another handler ran during a handler");
    }
    int othersBefore = others;
    { std::lock_guard<std::mutex> l(gate); open = true; }
    cv.notify_all();
    for(auto& t : ts) t.join();
    if(ok)
    {
      bool done = waitFor(c, [&] { return handled.load() >= 1 && nested.load() >= 1 && others.load() >= 3 * (per + 1) + (wildcard ? 1 : 0); }, 5000);
      if(!done) c.fail("lost", "messages published during a handler were not delivered after it");
      if(nestedDuringHandler.load() != 0) c.fail("nested-delivery", "a message published by a handler was delivered before the handler returned");
      if(othersBefore > 1) c.fail("overlap", "messages published during a handler were delivered before it returned");
    }
    root->Stop();
    runner.join();
    c.count("gated_worlds");
    c.sig(mix(mix(per, wildcard), r.next()));
    c.sample("handler blocked while 3 threads publish " + std::to_string(per + 1) + " messages each");
  }

  // ------------------------------------------- B11: replacing handlers
  void caseB11(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 5) ? 0 : 1 + (unsigned)r.below(5), r.next());
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::vector<std::shared_ptr<Bus>> busses(1, root);
    for(int i = (int)r.below(4); i > 0; --i) busses.push_back(busses[r.below(busses.size())]->CreateChildBus("b" + std::to_string(i)));
    struct Version { bool muted; uint64_t call, ret; std::weak_ptr<std::vector<int>> state; };
    struct Run { int version, msg; };
    struct Place
    {
      std::shared_ptr<Subscriber> real;
      std::string topic;
      std::mutex setting;                  // one replacement at a time, so that there is an order of them
      std::deque<Version> versions;        // under setting
      std::vector<Run> runs;               // the bus thread only
    };
    struct Sent { uint64_t call, ret; std::string topic; };
    std::mutex m;
    std::deque<Sent> sent;
    std::deque<Place> places;
    std::atomic<int> reference(0);         // messages the first subscriber has seen
    std::vector<int> referenceSeen;
    const bool mutes = r.chance(1, 3);
    const unsigned selfRate = mutes || r.chance(1, 4) ? 0 : 2 + (unsigned)r.below(12);

    // puts a new handler in place; `setting` of the place is held
    std::function<void(Place*, bool, Rng&)> replace = [&](Place* p, bool mute, Rng& q)
      {
        int v = (int)p->versions.size();
        std::shared_ptr<std::vector<int>> state;
        if(!mute) state = std::make_shared<std::vector<int>>(8, v);
        Version nv;
        nv.muted = mute;
        nv.state = state;
        nv.ret = NEVER;
        uint64_t salt = q.next();
        auto body = [&, p, v, state, salt](Datagram& d)
          {
            int msg = d.Get<int>("id", -1);
            p->runs.push_back(Run{v, msg});
            progressed();
            if((*state)[0] != v) c.fail("state", "a handler's state is not what it was given");
            uint64_t h = mix(salt, (uint64_t)msg);
            if(selfRate != 0 && h % selfRate == 0)
            {
              // from within: this handler is replaced by another while it runs
              Rng own(h);
              std::lock_guard<std::mutex> l(p->setting);
              replace(p, false, own);
              if(own.chance(1, 4)) replace(p, false, own);
              c.count("replacements_from_within");
            }
            if(h % 7 == 1) nap((int)(h % 200));
            if((*state)[7] != v) c.fail("state", "a handler's state changed while it was running");
            (*state)[1]++;
          };
        nv.call = tick();
        p->versions.push_back(nv);
        if(mute)
        {
          switch(q.below(2))
          {
            case 0: p->real->SetMessageCallback(nullptr); break;
            case 1: p->real->Reset(); break;
          }
        }
        else if(q.chance(1, 2)) p->real->SetDatagramCallback([body](Datagram d) { body(d); });
        else p->real->SetMessageCallback([body](Message x) { Datagram d = x.GetDatagram(); body(d); });
        p->versions[v].ret = tick();
      };

    root->CreateSubscriber("/**/*", lp::bus::DatagramCallbackType([&](Datagram d) { { std::lock_guard<std::mutex> l(m); referenceSeen.push_back(d.Get<int>("id", -1)); } reference++; progressed(); }));
    const int P = 1 + (int)r.below(4);
    for(int i = 0; i < P; ++i)
    {
      places.emplace_back();
      Place* p = &places.back();
      p->topic = i == 0 || r.chance(1, 2) ? "/t" : (r.chance(1, 2) ? "/**/*" : "/u");
      p->real = busses[r.below(busses.size())]->CreateSubscriber(p->topic);
      std::lock_guard<std::mutex> l(p->setting);
      Rng q = r.fork();
      replace(p, false, q);
    }
    std::thread runner([&] { root->Start(); });
    auto publish = [&](Rng& q, const std::string& topic)
      {
        int id;
        Sent* x;
        { std::lock_guard<std::mutex> l(m); id = (int)sent.size(); sent.emplace_back(); x = &sent.back(); x->topic = topic; x->ret = NEVER; x->call = tick(); }
        Datagram d;
        d["id"] = id;
        busses[q.below(busses.size())]->Publish(Message("someone", topic, d));
        std::lock_guard<std::mutex> l(m);
        x->ret = tick();
        return id;
      };
    std::vector<std::thread> ts;
    std::atomic<int> publishing(0);
    std::vector<std::pair<Place*, int>> unheard;         // (place, message) published while nothing was in place
    const int T = 1 + (int)r.below(3), per = 30 + (int)r.below(c.thorough ? 600 : 150);
    publishing = T;
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          for(int k = 0; k < per && !c.failed(); ++k) { publish(q, q.chance(2, 3) ? "/t" : "/u"); if(q.chance(1, 5)) nap((int)q.below(80)); c.alive(); }
          publishing--;
        });
    }
    for(int i = 0; i < P; ++i)
      for(int t = 1 + (int)r.below(2); t > 0; --t)
      {
        uint64_t seed = r.next();
        Place* p = &places[i];
        ts.emplace_back([&, p, seed]
          {
            Rng q(seed);
            while(publishing > 0 && !c.failed())
            {
              if(mutes && q.chance(1, 6))
              {
                std::lock_guard<std::mutex> l(p->setting);
                replace(p, true, q);
                std::vector<int> mine;
                for(int k = 1 + (int)q.below(3); k > 0; --k) mine.push_back(publish(q, q.chance(1, 2) ? p->topic : "/t"));
                // the one after them has been seen by the first subscriber, so they are done with
                int last = publish(q, "/flush");
                bool seen = false;
                for(int k = 0; k < 20000 && !seen; ++k)
                {
                  { std::lock_guard<std::mutex> l2(m); for(size_t j = referenceSeen.size(); j > 0 && !seen && referenceSeen.size() - j < 400; --j) seen = referenceSeen[j - 1] == last; }
                  if(!seen) nap(50);
                }
                if(seen) { std::lock_guard<std::mutex> l2(m); for(int id : mine) unheard.push_back({p, id}); }
                replace(p, false, q);
                c.count("times_without_a_handler");
              }
              else
              {
                std::lock_guard<std::mutex> l(p->setting);
                replace(p, false, q);
              }
              c.count("replacements_by_threads");
              if(q.chance(9, 10)) nap((int)q.below(600));
            }
          });
      }
    for(auto& t : ts) t.join();
    c.alive();
    Rng q = r.fork();
    for(int k = 0; k < 5; ++k) publish(q, "/t");
    int last = publish(q, "/flush");
    waitFor(c, [&] { std::lock_guard<std::mutex> l(m); return !referenceSeen.empty() && referenceSeen.back() == last; }, 5000);
    perturb(0, 0);
    // (behind the first subscriber the message goes on to the others)
    int dummy = publish(q, "/flush");
    waitFor(c, [&] { std::lock_guard<std::mutex> l(m); return !referenceSeen.empty() && referenceSeen.back() == dummy; }, 5000);
    root->Stop();
    runner.join();

    uint64_t h = 1, runs = 0;
    for(auto& p : places)
    {
      std::map<int, std::pair<int, int>> got;           // message -> times, version
      int latest = -1;
      for(auto& x : p.runs)
      {
        runs++;
        h = mix(h, (uint64_t)x.version * 4096 + (uint64_t)x.msg);
        if(x.msg < 0 || x.msg >= (int)sent.size()) { c.fail("content", "a handler was given something that was not published"); continue; }
        if(++got[x.msg].first > 1) c.fail("duplicated", "message " + std::to_string(x.msg) + " met more than one handler (or one twice) while they were replaced");
        got[x.msg].second = x.version;
        if(x.version < latest) c.fail("old-handler", "a replaced handler ran after its successor had run already");
        latest = std::max(latest, x.version);
        if((size_t)x.version + 1 < p.versions.size() && p.versions[x.version + 1].ret < sent[x.msg].call)
          c.fail("old-handler", "message " + std::to_string(x.msg) + ", published after handler " + std::to_string(x.version) + " had been replaced (" + (p.versions[x.version + 1].muted ? "by none" : "by another") + "), still met it");
      }
      uint64_t lastMute = 0;
      for(auto& v : p.versions) if(v.muted) lastMute = v.ret;
      // (a time without a handler ends when the next one is in place)
      for(size_t v = 0; v + 1 < p.versions.size(); ++v) if(p.versions[v].muted) lastMute = std::max(lastMute, p.versions[v + 1].ret);
      for(int id = 0; id < (int)sent.size(); ++id)
      {
        if(!matches(p.topic, sent[id].topic) || sent[id].call < lastMute) continue;
        c.count("messages_required");
        if(!got.count(id)) c.fail("lost", "message " + std::to_string(id) + " met no handler at all of subscriber to '" + p.topic + "', though there was one all the time (" + std::to_string(p.versions.size()) + " in turn)");
      }
      for(auto& u : unheard) if(u.first == &p) { c.count("messages_for_nobody"); if(got.count(u.second)) c.fail("handled-without-handler", "a message reached a handler that had been taken away before it was published"); }
      size_t held = 0;
      for(size_t v = 0; v + 1 < p.versions.size(); ++v) if(!p.versions[v].muted && p.versions[v].state.lock()) held++;
      if(held > 0) c.fail("not-released", std::to_string(held) + " replaced handlers are still held with their state");
      if(!p.versions.back().muted && !p.versions.back().state.lock()) c.fail("released-early", "the state of the handler in place is gone");
      c.count("handlers_released", p.versions.size() - 1);
      std::weak_ptr<std::vector<int>> current = p.versions.back().state;
      p.real->Reset();
      if(current.lock()) c.fail("not-released", "a handler taken away is still held with its state");
    }
    c.count("handler_runs", runs);
    c.sig(h);
    c.sample(std::to_string(P) + " subscribers, " + std::to_string(sent.size()) + " messages, " + std::to_string(runs) + " handler runs, " + std::to_string(places[0].versions.size()) + " handlers in turn at the first");
  }
}

// ------------------------------------------------ B12: several busses, side by side
namespace
{
  struct Side
  {
    int id = 0;
    std::shared_ptr<Bus> root;
    std::vector<std::shared_ptr<Bus>> busses;
    struct Heard { int side, n; std::string sender; };
    struct Ear { std::string topic; std::vector<Heard> heard; int requests = 0; };
    std::deque<Ear> ears;                        // written to by this side's bus thread only
    std::mutex m;
    std::vector<Heard> said[2];                  // on "/a" and on "/b"
    std::vector<std::shared_ptr<Publisher>> pubs[2];
    std::vector<std::shared_ptr<lp::bus::ActionConsumer>> consumers;
    std::vector<std::pair<int, int>> asked;      // side and number of requests that arrived
    std::atomic<int> loose{0}, arrived{0}, answers{0}, foreign{0}, twice{0};
    std::atomic<bool> returned{true}, inside{false};
    std::thread runner;
    bool disturbed = false;
    void start() { returned = false; runner = std::thread([this] { root->Start(); returned = true; }); }
  };

  void caseB12(Case& c)
  {
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : 1 + (unsigned)r.below(5), r.next());
    static const char* const topics[] = {"/a", "/b", "/**/*"};
    const int K = 2 + (int)r.below(3), T = 1 + (int)r.below(4);
    std::mutex gate;
    std::condition_variable cv;
    bool open = false;
    std::deque<Side> sides;
    size_t children = r.below(4);
    for(int k = 0; k < K; ++k)
    {
      sides.emplace_back();
      Side* s = &sides.back();
      s->id = k;
      s->root = std::make_shared<Bus>(r.chance(3, 4) ? "root" : "root" + std::to_string(k));
      s->busses.push_back(s->root);
      // the same names everywhere
      for(size_t i = 0; i < children; ++i) s->busses.push_back(s->busses[i % 2 ? s->busses.size() - 1 : 0]->CreateChildBus("child" + std::to_string(i)));
      for(size_t i = 0; i < children; ++i)
        if(i % 2 == 0 && s->root->GetChildBus("child" + std::to_string(i)) != s->busses[i + 1]) c.fail("child", "a child bus found by its name is that of another bus");
      for(int i = 0; i < 4; ++i)
      {
        s->ears.emplace_back();
        Side::Ear* e = &s->ears.back();
        e->topic = topics[i < 2 ? i : (int)r.below(3)];
        std::shared_ptr<Subscriber> sub = r.pick(s->busses)->CreateSubscriber(e->topic);
        sub->SetMessageCallback([s, e](Message m)
          {
            Datagram d = m.GetDatagram();
            if(m.GetTopic().compare(0, 4, "/act") == 0 || m.GetTopic() == "/gate") return;
            e->heard.push_back({d.Get<int>("side", -1), d.Get<int>("n", -1), m.GetSender()});
            s->arrived++;
            progressed();
          });
      }
      r.pick(s->busses)->CreateSubscriber(std::string("/gate"), lp::bus::DatagramCallbackType([s, &gate, &cv, &open](Datagram)
        {
          s->inside = true;
          std::unique_lock<std::mutex> l(gate);
          cv.wait(l, [&] { return open; });
        }));
      for(int which = 0; which < 2; ++which)
        for(int i = 0; i < 2; ++i) s->pubs[which].push_back(r.pick(s->busses)->CreatePublisher(std::string(topics[which])));
      r.pick(s->busses)->CreateActionProvider(std::string("/act"), std::function<void(std::shared_ptr<lp::bus::ActionProvider>, std::string, Datagram)>(
        [s](std::shared_ptr<lp::bus::ActionProvider> p, std::string id, Datagram wrapped)
        {
          Datagram q = wrapped["request"], a;
          s->asked.push_back({q.Get<int>("side", -1), q.Get<int>("n", -1)});
          a["by"] = s->id;
          a["n"] = q.Get<int>("n", -1);
          p->Respond(id, a);
          progressed();
        }));
      for(int i = 0; i < 2; ++i) s->consumers.push_back(r.pick(s->busses)->CreateActionConsumer(std::string("/act")));
    }
    // one of them is out of order: held up in a handler, not running, stopped again and again, or gone
    Side* odd = r.chance(4, 5) ? &sides[r.below(K)] : nullptr;
    int how = (int)r.below(5);
    if(odd != nullptr) odd->disturbed = true;
    for(auto& s : sides) if(!(s.disturbed && how == 1)) s.start();
    if(odd != nullptr && how == 0)
    {
      odd->root->Publish(Message("x", "/gate", Datagram(1)));
      if(!waitFor(c, [&] { return odd->inside.load(); })) c.fail("lost", "a handler is never run");
    }
    std::atomic<bool> over(false);
    std::thread trouble([&]
      {
        if(odd == nullptr) return;
        if(how == 2) while(!over) { odd->root->Stop(); nap(300); if(odd->returned && !over) { odd->runner.join(); odd->start(); } }
        if(how == 3) { nap(1000); odd->root->Stop(); odd->root->Detach(); }
        if(how == 4) { nap(1000); odd->root->Detach(); }
      });
    std::atomic<int> number(0);
    std::vector<std::thread> ts;
    for(int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed]
        {
          Rng q(seed);
          for(int i = 10 + (int)q.below(40); i > 0; --i)
          {
            Side& s = sides[q.below(sides.size())];
            int n = number++;
            Datagram d;
            d["side"] = s.id;
            d["n"] = n;
            if(q.chance(2, 3))
            {
              int which = (int)q.below(2);
              std::shared_ptr<Publisher> p = q.pick(s.pubs[which]);
              { std::lock_guard<std::mutex> l(s.m); s.said[which].push_back({s.id, n, ""}); }
              p->Publish(d);
              c.count("messages");
            }
            else
            {
              std::shared_ptr<lp::bus::ActionConsumer> a = q.pick(s.consumers);
              std::shared_ptr<std::atomic<int>> times = std::make_shared<std::atomic<int>>(0);
              Side* side = &s;
              auto answered = [side, n, times](Datagram x)
                {
                  if(x.Get<int>("by", -1) != side->id || x.Get<int>("n", -1) != n) side->foreign++;
                  if((*times)++ > 0) side->twice++;
                  side->answers++;
                  progressed();
                };
              if(q.chance(2, 3)) { s.loose++; a->RequestAsync(d, answered); }
              else if(!s.disturbed)
              {
                Datagram x = a->Request(d, 30000);
                if(x.IsEmpty()) c.fail("unanswered", "a blocking request is not answered, while another bus is out of order (" + std::to_string(how) + ")");
                else { answered(x); s.answers--; }
              }
              c.count("requests");
            }
          }
        });
    }
    for(auto& t : ts) t.join();
    auto expected = [&](Side& s) { int n = 0; for(auto& e : s.ears) for(int w = 0; w < 2; ++w) if(e.topic == topics[w] || e.topic == "/**/*") n += (int)s.said[w].size(); return n; };
    for(auto& s : sides)
      if(!s.disturbed)
      {
        int n = expected(s);
        if(!waitFor(c, [&] { return s.arrived >= n && s.answers >= s.loose; }))
          c.fail("lost", "of a bus that runs next to others, " + std::to_string(s.arrived.load()) + " of " + std::to_string(n) + " deliveries and " + std::to_string(s.answers.load()) + " of " + std::to_string(s.loose.load()) +
            " answers came" + (odd == nullptr ? "" : ", one of the others being out of order (" + std::to_string(how) + ")"));
        c.count("deliveries_required", (uint64_t)n);
      }
    over = true;
    trouble.join();
    if(odd != nullptr && how == 0)
    {
      if(odd->returned) c.fail("returned", "a bus came back by itself");
      { std::lock_guard<std::mutex> l(gate); open = true; }
      cv.notify_all();
    }
    for(auto& s : sides)
      if(!s.disturbed && s.returned) c.fail("returned", "a bus stopped running though another one was to");
    // one after the other: the rest goes on
    for(auto& s : sides)
    {
      for(int again = 0; !waitFor(c, [&] { return s.returned.load(); }, again == 0 ? 0 : 5000) && again < 5; ++again) s.root->Stop();
      if(!s.returned) c.fail("stop", "a bus does not come back");
      if(s.runner.joinable()) s.runner.join();
    }
    { std::lock_guard<std::mutex> l(gate); open = true; }
    cv.notify_all();
    uint64_t h = 17, deliveries = 0;
    for(auto& s : sides)
    {
      std::string me = "bus " + std::to_string(s.id);
      if(s.foreign > 0) c.fail("foreign-answer", me + ": an answer given on another bus, or to another request");
      if(s.twice > 0) c.fail("answered-twice", me + ": a request is answered twice");
      for(auto& a : s.asked) if(a.first != s.id) c.fail("foreign-request", me + " was given a request made on bus " + std::to_string(a.first));
      for(auto& e : s.ears)
      {
        std::map<int, int> times;
        for(auto& x : e.heard)
        {
          if(x.side != s.id) c.fail("foreign-message", "a subscriber to '" + e.topic + "' on " + me + " was given a message published on bus " + std::to_string(x.side));
          times[x.n]++;
          h = mix(h, (uint64_t)x.n * 8 + (uint64_t)s.id);
        }
        deliveries += e.heard.size();
        for(auto& x : times) if(x.second > 1) c.fail("duplicated", me + " delivered a message " + std::to_string(x.second) + " times to one subscriber");
        if(!s.disturbed)
          for(int w = 0; w < 2; ++w)
            if(e.topic == topics[w] || e.topic == "/**/*")
              for(auto& x : s.said[w]) if(!times.count(x.n)) c.fail("lost", me + " never delivered a message to a subscriber to '" + e.topic + "'");
      }
    }
    perturb(0, 0);
    c.count("deliveries", deliveries);
    c.count("busses_side_by_side", (uint64_t)K);
    if(odd != nullptr) c.count(how == 0 ? "held_up" : how == 1 ? "not_running" : how == 2 ? "restarted" : how == 3 ? "stopped_and_detached" : "detached");
    c.sig(h);
    c.sample(std::to_string(K) + " busses, " + std::to_string(T) + " threads, " + std::to_string(deliveries) + " deliveries" + (odd == nullptr ? "" : ", one out of order (" + std::to_string(how) + ")"));
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"B01", caseB01}, {"B02", caseB02}, {"B03", caseB03}, {"B04", caseB04}, {"B05", caseB05},
    {"B06", caseB06}, {"B07", caseB07}, {"B08", caseB08}, {"B09", caseB09}, {"B10", caseB10}, {"B11", caseB11}, {"B12", caseB12}});
}
