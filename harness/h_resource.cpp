// R01: nothing is used up by working. The same work, done again and again: the
// bytes allocated, the descriptors and the threads of the process are counted
// after every round, at rest. Decided by AddressSanitizer's allocation counter.
#include "events.h"
#include "json_out.h"
#include "tree.h"

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <lamppost/LampPost.h>
#include <lamppost/messages/Message.h>

using namespace vf;
using lp::bus::ActionConsumer;
using lp::bus::ActionProvider;
using lp::bus::Bus;
using lp::bus::Publisher;
using lp::bus::Subscriber;
using lp::data::RawBytes;
using lp::messages::Message;

namespace
{
  size_t entriesOf(const char* dir)
  {
    size_t n = 0;
    DIR* d = opendir(dir);
    if(d == nullptr) return 0;
    while(readdir(d) != nullptr) n++;
    closedir(d);
    return n;
  }
  std::string mutilated(Rng& r, std::string s)
  {
    size_t n = 1 + r.below(4);
    for(size_t i = 0; i < n && !s.empty(); ++i)
      switch(r.below(4))
      {
        case 0: s.resize(r.below(s.size())); break;
        case 1: s[r.below(s.size())] = (char)r.below(256); break;
        case 2: s.insert(r.below(s.size()), 1, "{}[]\",:\\0"[r.below(9)]); break;
        default: s.erase(r.below(s.size()), 1); break;
      }
    return s;
  }
  Tree tree(Rng& r, bool json)
  {
    TreeOpts o;
    o.depth = 1 + (int)r.below(4);
    o.jsonSafe = json;
    return randomTree(r, o);
  }

  typedef std::function<void(Case&, Rng&)> Round;   // the same generator state every time

  void json(Case&, Rng& r)
  {
    for(int i = 0; i < 15; ++i)
    {
      JsonOut j;
      emit(r, tree(r, true), j);
      Datagram d = Datagram::DeserializeFromJson(r.chance(1, 2) ? j.text : mutilated(r, j.text));
      std::ostringstream o;
      o << d;
      Datagram e(d);
      (void)(e == d);
    }
    static const char* const odd[] = {"", "{", "[", "null", "{\"a\":", "[1,2", "\"open", "{\"a\":1}x", "truth", "1e999999"};
    for(auto t : odd) Datagram::DeserializeFromJson(t);
  }
  void wire(Case&, Rng& r)
  {
    for(int i = 0; i < 15; ++i)
    {
      Message m(randomString(r, false), randomString(r, false), toDatagram(tree(r, false)));
      std::shared_ptr<RawBytes> b = m.SerializeToBytes();
      std::string s(static_cast<const char*>(b->GetContent()), b->GetSize());
      if(r.chance(1, 2)) s = mutilated(r, s);
      std::shared_ptr<RawBytes> raw = std::make_shared<RawBytes>();
      for(size_t at = 0; at < s.size();) { size_t n = 1 + r.below(s.size() - at); raw->Append(s.data() + at, n); at += n; }
      try { Message back = Message::Deserialize(raw); (void)(back == m); }
      catch(lp::exceptions::Exception&) {}
    }
  }
  void datagrams(Case&, Rng& r)
  {
    for(int i = 0; i < 15; ++i)
    {
      Datagram d = toDatagram(tree(r, false)), e(d), f;
      f["a"] = d;
      f["b"]["c"] = e;
      f["a"] = 1;
      e = f;
      f = d;
      (void)e.Get<std::string>("b/c");
      (void)e.Get<int>("a/b/c", 2);
      (void)(e == f);
      Datagram l;
      for(int k = 0; k < 5; ++k) l.Add(toRaw(tree(r, false)));
      for(int k = 0; k < 3; ++k) l.Remove(0u);
      e = l;
      e = Datagram();
    }
  }

  struct Running
  {
    std::shared_ptr<Bus> root;
    std::thread t;
    explicit Running(std::shared_ptr<Bus> b) : root(b), t([b] { b->Start(); }) {}
    ~Running() { root->Stop(); t.join(); }
  };

  std::atomic<int> unknown(0);   // nobody ever asked for any of these

  // One bus for all rounds.
  struct Lasting
  {
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child, grand;
    std::unique_ptr<Running> running;
    std::shared_ptr<ActionProvider> provider;
    std::shared_ptr<ActionConsumer> consumer;
    // some that stay for a few rounds: the oldest go first
    std::list<std::pair<std::shared_ptr<Bus>, std::shared_ptr<Subscriber>>> subs;
    std::list<std::pair<std::shared_ptr<Bus>, std::shared_ptr<Publisher>>> pubs;
    Lasting() : child(root->CreateChildBus("child")), grand(child->CreateChildBus("grand")), running(new Running(root))
    {
      provider = child->CreateActionProvider(std::string("/act"),
        std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([](std::shared_ptr<ActionProvider> p, std::string id, Datagram d)
          {
            progressed();
            Datagram q = d["request"];
            if(q.Get<std::string>("how") == "never") return;
            p->Respond(id, q);
            if(q.Get<std::string>("how") == "twice") { p->Respond(id, q); p->Respond("unknown" + std::to_string(100000000 + unknown++), q); }
          }));
      consumer = root->CreateActionConsumer(std::string("/act"));
    }
  };
  std::shared_ptr<Lasting> lasting;

  // Until everything published so far has gone through.
  void settle(Case& c, std::shared_ptr<Bus> root)
  {
    std::shared_ptr<std::atomic<bool>> through = std::make_shared<std::atomic<bool>>(false);
    std::shared_ptr<Subscriber> s = root->CreateSubscriber(std::string("/settled"));
    s->SetMessageCallback([through](Message) { *through = true; });
    root->Publish(Message("x", "/settled", Datagram(1)));
    waitFor(c, [&] { return through->load(); });
    root->DeleteSubscriber(s);
  }

  void participants(Case& c, Rng& r)
  {
    std::vector<std::shared_ptr<Bus>> busses = {lasting->root, lasting->child, lasting->grand};
    std::shared_ptr<int> used = std::make_shared<int>(0);
    std::vector<std::pair<std::shared_ptr<Bus>, std::shared_ptr<Subscriber>>> subs;
    std::vector<std::pair<std::shared_ptr<Bus>, std::shared_ptr<Publisher>>> pubs;
    for(int i = 0; i < 6; ++i)
    {
      std::shared_ptr<Bus> b = r.pick(busses);
      std::shared_ptr<Subscriber> s = b->CreateSubscriber(std::string("/topic"));
      if(r.chance(1, 2)) s->SetMessageCallback([used](Message) { ++*used; });
      else s->SetDatagramCallback([used](Datagram) { ++*used; });
      subs.push_back({b, s});
      std::shared_ptr<Bus> p = r.pick(busses);
      pubs.push_back({p, p->CreatePublisher(std::string("/topic"))});
    }
    for(int i = 0; i < 30; ++i) r.pick(pubs).second->Publish(toDatagram(tree(r, false)));
    for(int i = 0; i < 5; ++i)
    {
      std::shared_ptr<Subscriber> s = lasting->child->CreateSubscriber(std::string("/other"));
      s->SetMessageCallback([](Message) {});
      lasting->subs.push_back({lasting->child, s});
      lasting->pubs.push_back({lasting->child, lasting->child->CreatePublisher(std::string("/other"))});
    }
    settle(c, lasting->root);
    while(lasting->subs.size() > 15)
    {
      lasting->subs.front().first->DeleteSubscriber(lasting->subs.front().second);
      lasting->pubs.front().first->DeletePublisher(lasting->pubs.front().second);
      lasting->subs.pop_front();
      lasting->pubs.pop_front();
    }
    for(auto& s : subs) s.first->DeleteSubscriber(s.second);
    for(auto& p : pubs) p.first->DeletePublisher(p.second);
  }
  void actions(Case& c, Rng& r)
  {
    static const char* const how[] = {"once", "twice", "never"};
    std::atomic<int> answered(0);
    int expected = 0;
    for(int i = 0; i < 12; ++i)
    {
      Datagram d;
      int h = (int)r.below(3);
      d["how"] = std::string(how[h]);
      d["more"] = toDatagram(tree(r, false));
      if(h != 2 && r.chance(1, 2)) { expected++; lasting->consumer->RequestAsync(d, [&](Datagram) { progressed(); answered++; }); }
      else lasting->consumer->Request(d, h == 2 ? 2 : 20000);
    }
    waitFor(c, [&] { return answered.load() >= expected; });
    for(int i = 0; i < 3; ++i)
    {
      Datagram junk;
      junk["invocationId"] = "nobody's" + std::to_string(100000000 + unknown++);
      junk["response"] = 1;
      lasting->root->Publish(Message("x", "/act/response", junk));
    }
    lasting->root->Publish(Message("x", "/act/request", Datagram(1)));
    settle(c, lasting->root);
  }
  void busses(Case& c, Rng& r)
  {
    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    std::shared_ptr<Bus> child = root->CreateChildBus("child");
    std::vector<std::shared_ptr<Bus>> all = {root, child, child->CreateChildBus("grand")};
    std::vector<std::shared_ptr<lp::bus::BusParticipant>> kept;
    for(int i = 0; i < 5; ++i)
    {
      std::shared_ptr<Bus> b = r.pick(all);
      switch(r.below(4))
      {
        case 0: { auto s = b->CreateSubscriber(std::string("/a")); if(r.chance(1, 2)) s->SetMessageCallback([](Message) {}); else s->SetMessageCallback([s](Message x) { if(x.GetTopic().empty()) s->Reset(); }); kept.push_back(s); } break;
        case 1: kept.push_back(b->CreatePublisher(std::string("/a"))); break;
        case 2: kept.push_back(b->CreateActionConsumer(std::string("/act"))); break;
        default: kept.push_back(b->CreateActionProvider(std::string("/act"), std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>(
          [](std::shared_ptr<ActionProvider> p, std::string id, Datagram d) { p->Respond(id, d); })));
      }
    }
    // Handlers that hold what they are handlers of: given back with the bus, or when deleted.
    {
      struct Holder { std::shared_ptr<ActionProvider> provider; std::shared_ptr<ActionConsumer> consumer; std::vector<char> ballast; Holder() : ballast(200) {} };
      std::shared_ptr<Holder> holder = std::make_shared<Holder>();
      std::shared_ptr<Bus> b = r.pick(all);
      holder->provider = b->CreateActionProvider(std::string("/held"), std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>(
        [holder](std::shared_ptr<ActionProvider>, std::string, Datagram) { holder->ballast[0]++; }));
      holder->consumer = b->CreateActionConsumer(std::string("/held"));
      for(size_t i = 1 + r.below(3) * r.below(40); i > 0; --i)
        holder->consumer->RequestAsync(Datagram(1), [holder](Datagram) { holder->ballast[1]++; });   // never answered
      c.count("handlers_holding_their_own");
    }
    bool runs = r.chance(3, 4), consumes = r.chance(1, 2);
    {
      std::unique_ptr<Running> running(runs ? new Running(root) : nullptr);
      for(int i = 0; i < 20; ++i) r.pick(all)->Publish(Message("x", "/a", toDatagram(tree(r, false))));
      if(consumes)
      {
        std::shared_ptr<ActionConsumer> consumer = child->CreateActionConsumer(std::string("/act"));
        for(int i = 0; i < 3; ++i) consumer->RequestAsync(Datagram(i), [](Datagram) {});
      }
      if(runs && r.chance(1, 2)) settle(c, root);
    }
    if(r.chance(1, 2)) kept.clear();
    root->Publish(Message("x", "/a", Datagram(1)));
    if(r.chance(1, 2)) root->Detach();
  }

  std::string pluginDir, pluginConfig, linkConfigA, linkConfigB, eventFile;

  void system(Case& c, Rng&)
  {
    truncate(eventFile.c_str(), 0);
    lp::LampPostConfiguration conf;
    conf.mPluginManagerConfiguration = lp::PluginManagerConfiguration({pluginDir}, nullptr);
    conf.mConfigurationFiles = {pluginConfig, pluginDir + "/missing"};
    std::shared_ptr<lp::LampPost> lamp = std::make_shared<lp::LampPost>(conf);
    std::atomic<bool> returned(false);
    std::thread t([&] { lamp->Start(); returned = true; });
    waitFor(c, [&] { return returned.load() || hasEvent(eventFile, "run-begin", 3); });
    nap(2000);
    lamp->Stop();
    waitFor(c, [&] { return returned.load(); });
    t.join();
  }
  // Two systems linked with each other, talking through their probes.
  void links(Case& c, Rng&)
  {
    truncate(eventFile.c_str(), 0);
    std::vector<std::shared_ptr<lp::LampPost>> lamps;
    std::vector<std::thread> ts;
    std::atomic<int> returned(0);
    for(auto& f : {linkConfigA, linkConfigB})
    {
      lp::LampPostConfiguration conf;
      conf.mPluginManagerConfiguration = lp::PluginManagerConfiguration({pluginDir}, nullptr);
      conf.mConfigurationFiles = {f};
      lamps.push_back(std::make_shared<lp::LampPost>(conf));
    }
    for(auto& l : lamps) ts.emplace_back([&returned, l] { l->Start(); returned++; });
    waitFor(c, [&] { return hasEvent(eventFile, "run-begin", 2) && hasEvent(eventFile, "publish-end", 60); });
    nap(5000);
    for(auto& l : lamps) l->Stop();
    waitFor(c, [&] { return returned.load() == 2; });
    for(auto& t : ts) t.join();
  }

  void caseR01(Case& c)
  {
    static const std::pair<const char*, Round> kinds[] = {
      {"json", json}, {"wire", wire}, {"datagrams", datagrams}, {"participants", participants}, {"actions", actions},
      {"busses", busses}, {"systems", system}, {"links", links}};
    auto& kind = kinds[c.index % 8];
    std::string name = kind.first;
    std::vector<std::string> made;
    if(name == "participants" || name == "actions") lasting = std::make_shared<Lasting>();
    if(name == "systems" || name == "links")
    {
      static int n = 0;
      pluginDir = c.scratch + "/plugins" + std::to_string(n++);
      mkdir(pluginDir.c_str(), 0755);
      for(auto p : {"libplugin_probe_a.so", "libplugin_probe_x.so", "libplugin_hostile_refusing.so", "libplugin_hostile_nullinfo.so", "libplugin_link.so"})
      {
        std::string target = c.config(std::string("bin.") + p);
        if(symlink(target.c_str(), (pluginDir + "/" + p).c_str()) != 0) { perror(p); _exit(3); }
        made.push_back(pluginDir + "/" + p);
      }
      auto write = [&](const std::string& file, const std::string& text) { std::ofstream f(pluginDir + "/" + file); f << text; made.push_back(pluginDir + "/" + file); return pluginDir + "/" + file; };
      eventFile = write("events", "");
      setenv("VF_EVENTS", eventFile.c_str(), 1);
      pluginConfig = write("conf.json", "{\"plugins\": [{\"type\": \"Probe\", \"configuration\": {\"behave\": \"loop\", \"messages\": 5}}, {\"type\": \"X\", \"configuration\": {\"behave\": \"return\"}}, 7, {\"type\": \"None\"},"
        " {\"type\": \"Probe\", \"configuration\": {\"behave\": \"fail-init\"}}, {\"type\": \"Refusing\"}, {\"type\": \"X\", \"configuration\": {\"behave\": \"untidy\", \"messages\": 3}}]}");
      int pid = (int)getpid();
      std::string host = "127." + std::to_string(10 + (pid / 250) % 200) + "." + std::to_string(1 + pid % 250) + "." + std::to_string(1 + n % 250);
      std::string talk = "{\"type\": \"Probe\", \"configuration\": {\"behave\": \"loop\", \"messages\": 30}}";
      linkConfigA = write("a.json", "{\"plugins\": [{\"type\": \"Link\", \"configuration\": {\"server-role\": {\"enabled\": true, \"interface\": \"" + host + "\"}}}, " + talk + "]}");
      linkConfigB = write("b.json", "{\"plugins\": [{\"type\": \"Link\", \"configuration\": {\"client-role\": {\"enabled\": true, \"server-host\": \"" + host + "\"}}}, " + talk + "]}");
    }
    const int rounds = c.thorough ? 60 : name == "links" ? 12 : 16, last = 8;
    std::vector<size_t> bytes, fds, tasks;
    bytes.reserve((size_t)rounds);
    fds.reserve((size_t)rounds);
    tasks.reserve((size_t)rounds);
    uint64_t seed = c.rng.next();
    for(int i = 0; i < rounds; ++i)
    {
      Rng same(seed);
      kind.second(c, same);
      c.alive();
      size_t now = liveBytes();
      for(int same = 0, tries = 0; same < 4 && tries < 60; ++tries)   // what is under way yet
      {
        nap(1000);
        size_t again = liveBytes();
        same = again == now ? same + 1 : 0;
        now = again;
      }
      bytes.push_back(now);
      fds.push_back(entriesOf("/proc/self/fd"));
      tasks.push_back(entriesOf("/proc/self/task"));
    }
    auto grows = [&](const std::vector<size_t>& v)
      {
        // never less, and mostly more
        int more = 0;
        for(int i = rounds - last; i < rounds; ++i)
        {
          if(v[(size_t)i] < v[(size_t)i - 1]) return false;
          if(v[(size_t)i] > v[(size_t)i - 1]) more++;
        }
        return more >= last - 2;
      };
    std::string text;
    for(auto b : bytes) text += " " + std::to_string(b);
    if(grows(bytes)) c.fail("memory:" + name, "the same work takes more memory every time (" + name + "):" + text);
    if(grows(fds)) c.fail("descriptors:" + name, "the same work leaves descriptors open every time (" + name + ")");
    if(grows(tasks)) c.fail("threads:" + name, "the same work leaves threads behind every time (" + name + ")");
    c.count("rounds", (uint64_t)rounds);
    c.count("rounds_of_" + name, (uint64_t)rounds);
    c.sig(mix(hashStr(name), seed));
    c.sample(name + ", bytes after each round:" + text);
    lasting = nullptr;
    for(auto& f : made) unlink(f.c_str());
    if(!made.empty()) rmdir(pluginDir.c_str());
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"R01", caseR01}});
}
