// K01..K05: the link between instances, and the system information plugin, as
// loaded plugins, with real peers on loopback sockets. Deciding monitors: peers
// and a listener on the host's bus record everything that gets through; offline
// checkers compare the records with the topology's model.
#include "tree.h"

#include <deque>

#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

#include <zmq.h>

#include <lamppost/bus/Bus.h>
#include <lamppost/messages/Message.h>
#include <lamppost/plugin/PluginManager.h>

using namespace vf;
using lp::PluginConfiguration;
using lp::PluginInstance;
using lp::PluginManager;
using lp::PluginManagerConfiguration;
using lp::bus::ActionConsumer;
using lp::bus::ActionProvider;
using lp::bus::Bus;
using lp::bus::Subscriber;
using lp::data::RawBytes;
using lp::messages::Message;

namespace
{
  // An address of its own for every link that listens.
  std::string freshAddress()
  {
    static int n = 0;
    n++;
    int pid = (int)getpid();
    return "127." + std::to_string(10 + (pid / 250) % 200) + "." + std::to_string(1 + pid % 250) + "." + std::to_string(1 + n % 250);
  }
  int portBase()
  {
    static int n = 0;
    return 6900 + 4 * (n++ % 250);
  }
  std::string endpoint(const std::string& host, int port) { return "tcp://" + host + ":" + std::to_string(port); }

  std::string bytesOf(const std::shared_ptr<RawBytes>& b) { return std::string(static_cast<const char*>(b->GetContent()), b->GetSize()); }
  std::string wire(Message m) { return bytesOf(m.SerializeToBytes()); }

  struct Seen
  {
    std::string sender, topic, body;   // body: what the datagram is on the wire
    static Seen of(Message m)
    {
      Seen s;
      s.sender = m.GetSender();
      s.topic = m.GetTopic();
      s.body = wire(Message("", "", m.GetDatagram()));
      return s;
    }
    bool operator==(const Seen& o) const { return sender == o.sender && topic == o.topic && body == o.body; }
    std::string show() const { return "sender '" + printable(sender, 60) + "' topic '" + printable(topic, 60) + "' (" + std::to_string(body.size()) + " bytes, " + std::to_string(hashStr(body) % 100000) + ")"; }
  };
  bool isWarm(const std::string& topic) { return topic.compare(0, 5, "/warm") == 0; }

  // The directory the plugins are loaded from.
  struct Plugins
  {
    std::string path;
    std::vector<std::string> made;
    Plugins(Case& c, const std::vector<std::string>& names)
    {
      static int n = 0;
      path = c.scratch + "/plugins" + std::to_string(n++);
      mkdir(path.c_str(), 0755);
      for(auto& name : names)
      {
        std::string file = "libplugin_" + name + ".so", target = c.config("bin." + file);
        if(target.empty() || symlink(target.c_str(), (path + "/" + file).c_str()) != 0) { fprintf(stderr, "%s is not built\n", file.c_str()); _exit(3); }
        made.push_back(path + "/" + file);
      }
    }
    ~Plugins() { for(auto& f : made) unlink(f.c_str()); rmdir(path.c_str()); }
  };

  struct Node
  {
    Case& c;
    std::string name;
    std::shared_ptr<Bus> root;
    std::unique_ptr<PluginManager> manager;
    std::vector<std::shared_ptr<PluginInstance>> instances;
    std::thread runner;
    std::atomic<bool> over;
    std::mutex mutex;
    std::vector<Seen> seen;
    std::set<std::string> warm;         // senders of warm-up messages heard
    std::shared_ptr<Subscriber> sink;
    bool up = false;

    Node(Case& c_, const Plugins& p, const std::string& n = "root") : c(c_), name(n), over(false)
    {
      root = std::make_shared<Bus>(name);
      manager.reset(new PluginManager(PluginManagerConfiguration({p.path}, root)));
      manager->SetBus(root);
      manager->LoadTemplates();
      sink = root->CreateSubscriber(std::string("/**/*"));
      sink->SetMessageCallback([this](Message m)
        {
          std::lock_guard<std::mutex> lock(mutex);
          if(isWarm(m.GetTopic())) { if(warm.insert(m.GetSender()).second) progressed(); }
          else { progressed(); seen.push_back(Seen::of(m)); }
        });
    }
    std::shared_ptr<PluginInstance> add(const std::string& type, const Tree& config)
    {
      PluginConfiguration pc;
      pc.mCustomConfiguration = toDatagram(config);
      std::shared_ptr<PluginInstance> i = manager->InstantiateTemplate(type, pc);
      if(i == nullptr) { fprintf(stderr, "plugin %s cannot be loaded\n", type.c_str()); _exit(3); }
      i->Initialize();
      i->Start();
      instances.push_back(i);
      return i;
    }
    void start()
    {
      up = true;
      runner = std::thread([this] { root->Start(); over = true; });
    }
    size_t size() { std::lock_guard<std::mutex> lock(mutex); return seen.size(); }
    std::vector<Seen> record() { std::lock_guard<std::mutex> lock(mutex); return seen; }
    bool has(const std::string& sender, const std::string& topic)
    {
      std::lock_guard<std::mutex> lock(mutex);
      for(size_t i = seen.size(); i-- > 0;) if(seen[i].topic == topic && seen[i].sender == sender) return true;
      return false;
    }
    bool warmFrom(const std::string& sender) { std::lock_guard<std::mutex> lock(mutex); return warm.count(sender) > 0; }
    // False when it does not come to its end.
    bool down(int ms = 20000)
    {
      if(!up) return true;
      up = false;
      std::shared_ptr<std::atomic<bool>> done = std::make_shared<std::atomic<bool>>(false);
      root->Stop();
      std::thread t([this, done]
        {
          runner.join();
          root->Detach();
          instances.clear();
          manager->UnloadTemplates();
          *done = true;
        });
      bool ended = waitFor(c, [&] { return done->load(); }, ms);
      if(ended) t.join(); else t.detach();
      return ended;
    }
  };

  Tree linkConfig(Rng& r, const std::string& server, int sp, const std::string& client, int cp)
  {
    Tree t = Tree::of(DICT);
    if(!server.empty())
    {
      Tree s = Tree::of(DICT);
      s.dict["enabled"] = Tree::boolean(true);
      s.dict["interface"] = Tree::str(server);
      if(sp != 6967 || r.chance(1, 2)) s.dict["port-pub"] = Tree::num(sp);
      if(sp != 6967 || r.chance(1, 2)) s.dict["port-sub"] = Tree::num(sp + 1);
      t.dict["server-role"] = s;
    }
    else if(r.chance(1, 2)) { Tree s = Tree::of(DICT); s.dict["enabled"] = Tree::boolean(false); t.dict["server-role"] = s; }
    if(!client.empty())
    {
      Tree s = Tree::of(DICT);
      s.dict["enabled"] = Tree::boolean(true);
      s.dict["server-host"] = Tree::str(client);
      if(cp != 6967 || r.chance(1, 2)) s.dict["port-sub"] = Tree::num(cp);
      if(cp != 6967 || r.chance(1, 2)) s.dict["port-pub"] = Tree::num(cp + 1);
      t.dict["client-role"] = s;
    }
    else if(r.chance(1, 2)) { Tree s = Tree::of(DICT); s.dict["enabled"] = Tree::boolean(false); t.dict["client-role"] = s; }
    return t;
  }

  // ------------------------------------------------------------ raw peers
  struct Peer
  {
    void *ctx = nullptr, *sub = nullptr, *pub = nullptr;
    bool ok = true;
    std::string link;                   // identifier of the link it is connected to
    std::string sender;
    std::vector<Seen> got;
    std::vector<Message> said;
    bool warm = false;
    std::string problem;
    static void* socket(void* ctx, int type)
    {
      void* s = zmq_socket(ctx, type);
      int zero = 0, hwm = 100000;
      zmq_setsockopt(s, ZMQ_LINGER, &zero, sizeof zero);
      zmq_setsockopt(s, ZMQ_SNDHWM, &hwm, sizeof hwm);
      zmq_setsockopt(s, ZMQ_RCVHWM, &hwm, sizeof hwm);
      if(type == ZMQ_SUB) zmq_setsockopt(s, ZMQ_SUBSCRIBE, "", 0);
      return s;
    }
    // to: the link's server role, which this connects to
    Peer(const std::string& host, int port, bool connects)
    {
      ctx = zmq_ctx_new();
      sub = socket(ctx, ZMQ_SUB);
      pub = socket(ctx, ZMQ_PUB);
      std::string first = endpoint(host, port), second = endpoint(host, port + 1);
      if(connects) { ok = zmq_connect(sub, first.c_str()) == 0 && zmq_connect(pub, second.c_str()) == 0; }
      // a server: publishes on the first port, listens on the second
      else ok = zmq_bind(pub, first.c_str()) == 0 && zmq_bind(sub, second.c_str()) == 0;
    }
    Peer(const Peer&) = delete;
    ~Peer()
    {
      zmq_close(sub);
      zmq_close(pub);
      zmq_ctx_term(ctx);
    }
    void frames(const std::vector<std::string>& parts)
    {
      for(size_t i = 0; i < parts.size(); ++i)
        zmq_send(pub, parts[i].data(), parts[i].size(), i + 1 < parts.size() ? ZMQ_SNDMORE : 0);
    }
    void send(Message m, const std::vector<size_t>& cuts = {})
    {
      std::string w = wire(m);
      std::vector<std::string> parts = {"A"};
      size_t at = 0;
      for(size_t cut : cuts) { size_t n = std::min(cut, w.size() - at); parts.push_back(w.substr(at, n)); at += n; }
      parts.push_back(w.substr(at));
      frames(parts);
    }
    void poll()
    {
      for(;;)
      {
        std::vector<std::string> parts;
        for(;;)
        {
          zmq_msg_t m;
          zmq_msg_init(&m);
          int n = zmq_msg_recv(&m, sub, ZMQ_DONTWAIT);
          if(n < 0) { zmq_msg_close(&m); if(parts.empty()) return; nap(100); continue; }
          parts.push_back(std::string(static_cast<const char*>(zmq_msg_data(&m)), zmq_msg_size(&m)));
          bool more = zmq_msg_more(&m);
          zmq_msg_close(&m);
          if(!more) break;
        }
        if(parts.size() < 2 || parts[0] != "A") { problem = "a link sent something that is no message of " + std::to_string(parts.size()) + " parts"; return; }
        std::string all;
        for(size_t i = 1; i < parts.size(); ++i) all += parts[i];
        std::shared_ptr<RawBytes> raw = std::make_shared<RawBytes>();
        raw->Append(all.data(), all.size());
        try
        {
          Message m = Message::Deserialize(raw);
          if(isWarm(m.GetTopic())) { if(!warm) progressed(); warm = true; }
          else if(progressed(), true) got.push_back(Seen::of(m));
        }
        catch(std::exception& e) { problem = std::string("a link sent what cannot be decoded: ") + e.what(); return; }
      }
    }
    bool gotTopic(const std::string& topic)
    {
      for(size_t i = got.size(); i-- > 0;) if(got[i].topic == topic) return true;
      return false;
    }
  };

  // Until everything said on one side is heard on the other.
  bool handshake(Case& c, Node& n, std::vector<std::unique_ptr<Peer>>& peers)
  {
    int i = 0;
    return waitFor(c, [&]
      {
        bool all = true;
        if(i++ % 4 == 0)
        {
          n.root->Publish(Message("host", "/warm", Datagram(i)));
          for(auto& p : peers) p->send(Message(p->sender, "/warm", Datagram(i)));
        }
        for(auto& p : peers)
        {
          p->poll();
          all = all && p->warm && n.warmFrom(p->link + "/" + p->sender);
        }
        if(!all) nap(1500);
        return all;
      }, 15000);
  }

  Datagram payload(Rng& r, Tree* out = nullptr)
  {
    TreeOpts o;
    o.depth = (int)r.below(4);
    o.bigStrings = r.chance(1, 10);
    o.wideIn = 150;
    Tree t = randomTree(r, o);
    if(out) *out = t;
    return toDatagram(t);
  }
  std::string topicName(Rng& r)
  {
    static const char* const fixed[] = {"/a", "/a/b", "/talk", "/end-not", "", "no/slash", "/**/*", "/x y", "/sysinfo"};
    if(r.chance(1, 20)) return longName(r, nameLength(r));
    return r.chance(1, 2) ? fixed[r.below(9)] : "/" + randomUtf8(r, 1 + r.below(6));
  }
  std::string senderName(Rng& r)
  {
    static const char* const fixed[] = {"Link0/somebody", "", "/", "Link", "Link0", "a/b/c", "Link1/Link0/x", "host"};
    if(r.chance(1, 25)) return longName(r, nameLength(r)).substr(1);
    return r.chance(1, 2) ? fixed[r.below(8)] : randomUtf8(r, 1 + r.below(8));
  }

  // The i-th seen against the i-th expected.
  std::string sequence(const std::vector<Seen>& got, const std::vector<Seen>& want)
  {
    for(size_t i = 0; i < got.size() || i < want.size(); ++i)
    {
      if(i >= got.size()) return "message " + std::to_string(i) + " of " + std::to_string(want.size()) + " is missing: " + want[i].show();
      if(i >= want.size()) return "one too many after " + std::to_string(want.size()) + ": " + got[i].show();
      if(!(got[i] == want[i])) return "message " + std::to_string(i) + " is " + got[i].show() + " instead of " + want[i].show();
    }
    return "";
  }
  bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

  // ------------------------------------------------- K01: one host, raw peers
  // hostile: frames that are no messages in between (K02)
  void exchange(Case& c, bool hostile)
  {
    Rng& r = c.rng;
    Plugins plugins(c, {"link"});
    Node n(c, plugins);
    size_t nLinks = 1 + r.below(2);
    std::vector<std::unique_ptr<Peer>> peers;
    std::string layout;
    for(size_t l = 0; l < nLinks; ++l)
    {
      int roles = 1 + (int)r.below(3);
      std::string server, client;
      int sp = 6967, cp = 6967;
      if(roles & 1) { server = freshAddress(); if(r.chance(1, 2)) sp = portBase(); }
      if(roles & 2)
      {
        client = freshAddress();
        if(r.chance(1, 2)) cp = portBase();
        peers.emplace_back(new Peer(client, cp, false));
        if(!peers.back()->ok) { c.inconclusive("a peer could not listen: " + std::string(zmq_strerror(zmq_errno()))); return; }
      }
      size_t first = peers.size() - ((roles & 2) ? 1 : 0);
      std::shared_ptr<PluginInstance> link = n.add("Link", linkConfig(r, server, sp, client, cp));
      if(roles & 1) { size_t k = 1 + r.below(2); while(k-- > 0) peers.emplace_back(new Peer(server, sp, true)); }
      for(size_t i = first; i < peers.size(); ++i) peers[i]->link = link->GetIdentifier();
      layout += " " + std::string(roles & 1 ? "s" : "") + (roles & 2 ? "c" : "");
    }
    for(size_t i = 0; i < peers.size(); ++i) peers[i]->sender = "peer" + std::to_string(i);
    std::string links;
    for(auto& i : n.instances) links += i->GetIdentifier() + "|";
    n.start();
    if(!handshake(c, n, peers))
    {
      c.fail("no-connection", "nothing gets through between a host and its peers, layout" + layout);
      n.down();
      return;
    }
    for(auto& p : peers) if(!p->problem.empty()) c.fail("wire", p->problem);

    // What is said, by whom.
    std::vector<Seen> hostSaid;
    std::map<size_t, std::vector<Seen>> peerSaid;    // as they are to arrive
    size_t steps = 10 + r.below(c.thorough ? 200 : 60);
    uint64_t h = hashStr(layout);
    std::shared_ptr<Bus> child = n.root->CreateChildBus("speaker");
    std::shared_ptr<lp::bus::Publisher> publisher = child->CreatePublisher(std::string("/from/child"));
    for(size_t s = 0; s < steps && !c.failed(); ++s)
    {
      switch(r.below(hostile ? 5 : 3))
      {
        case 0:
        {
          if(r.chance(1, 4))
          {
            Datagram d = payload(r);
            hostSaid.push_back(Seen::of(Message("speaker", "/from/child", d)));
            publisher->Publish(d);
          }
          else
          {
            std::string sender = senderName(r);
            // a sender that starts with a link's own name would be that link's
            if(startsWith(sender, "Link")) sender = "host" + sender;
            // names that only look like it
            if(r.chance(1, 6))
            {
              const std::string& id = n.instances[r.below(n.instances.size())]->GetIdentifier();
              static const char* const more[] = {"0", "x", "0/x", " /", ".", "\\", "-1/Link0/"};
              static const char* const before[] = {"x/", "/", " ", "LinK0/", "l"};
              sender = r.chance(1, 2) ? id + more[r.below(7)] : before[r.below(5)] + id + "/" + (r.chance(1, 2) ? sender : "");
              for(auto& i : n.instances) if(startsWith(sender, i->GetIdentifier() + "/")) sender = "host" + sender;
              c.count("senders_like_a_link");
            }
            Message m(sender, topicName(r), payload(r));
            hostSaid.push_back(Seen::of(m));
            (r.chance(1, 2) ? n.root : child)->Publish(m);
          }
          c.count("messages_of_the_host");
          h = mix(h, hashStr(hostSaid.back().body));
        } break;
        case 1: case 2:
        {
          size_t k = r.below(peers.size());
          Message m(senderName(r), topicName(r), payload(r));
          std::vector<size_t> cuts;
          if(!hostile && r.chance(1, 120))
          {
            // more than fits into anything, in one part or in several large ones
            std::string large((size_t)1 << (18 + r.below(6)), 'l');
            for(size_t i = 0; i < large.size(); i += 1 + r.below(4096)) large[i] = (char)('a' + i % 26);
            Datagram d;
            d["large"] = large;
            m = Message(senderName(r), topicName(r), d);
            size_t parts = r.below(6);
            while(parts-- > 0) cuts.push_back(large.size() / (3 + r.below(4)));
            c.count("large_messages");
            if(!cuts.empty()) c.count("large_messages_in_several_parts");
          }
          else if(r.chance(1, 5)) { size_t parts = 1 + r.below(4); while(parts-- > 0) cuts.push_back(r.below(40)); c.count("messages_in_several_parts"); }
          Seen want = Seen::of(m);
          want.sender = peers[k]->link + "/" + want.sender;
          peerSaid[k].push_back(want);
          peers[k]->send(m, cuts);
          c.count("messages_of_peers");
          h = mix(h, hashStr(want.body) + k);
        } break;
        default:
        {
          size_t k = r.below(peers.size());
          std::string good = wire(Message(senderName(r), topicName(r), payload(r))), bad = good;
          std::vector<std::string> parts = {"A"};
          switch(r.below(9))
          {
            case 0: bad.resize(r.below(bad.size())); parts.push_back(bad); break;
            case 1: for(int i = 0; i < 4; ++i) bad[r.below(bad.size())] ^= (char)(1 << r.below(8)); parts.push_back(bad); break;
            case 2: { size_t len = r.below(200); bad.clear(); for(size_t i = 0; i < len; ++i) bad += (char)r.below(256); parts.push_back(bad); } break;
            case 3: break;                                                   // no more parts
            case 4: parts.push_back(""); if(r.chance(1, 2)) parts.push_back(""); bad.clear(); break;
            case 5: bad = good + good; parts.push_back(good); parts.push_back(good); break;
            case 6: parts[0] = "A different topic"; parts.push_back(good); break;
            case 7: { uint32_t w = (uint32_t)(r.chance(1, 2) ? 0xffffffffu : r.next()); memcpy(&bad[(r.below(bad.size() - 3)) & ~(size_t)3], &w, 4); parts.push_back(bad); } break;
            default: bad = good; for(size_t i = 0; i < bad.size(); i += 16) parts.push_back(bad.substr(i, 16)); break;
          }
          std::string all;
          for(size_t i = 1; i < parts.size(); ++i) all += parts[i];
          c.count("frames_of_any_content");
          if(!all.empty())
          {
            // Decoding itself is decided elsewhere (D06): what it accepts is a message.
            std::shared_ptr<RawBytes> raw = std::make_shared<RawBytes>();
            raw->Append(all.data(), all.size());
            try
            {
              Message m = Message::Deserialize(raw);
              // a warm-up message has no place in the record
              if(isWarm(m.GetTopic()) || m.GetTopic() == "/end") break;
              Seen want = Seen::of(m);
              want.sender = peers[k]->link + "/" + want.sender;
              peerSaid[k].push_back(want);
              c.count("frames_that_are_messages");
            }
            catch(lp::exceptions::Exception&) { c.count("frames_that_are_none"); }
          }
          else c.count("frames_that_are_none");
          peers[k]->frames(parts);
          h = mix(h, hashStr(all));
        }
      }
      if(r.chance(1, 6)) nap((int)r.below(1500));
      for(auto& p : peers) p->poll();
    }
    n.root->Publish(Message("host", "/end", Datagram(1)));
    hostSaid.push_back(Seen::of(Message("host", "/end", Datagram(1))));
    for(size_t k = 0; k < peers.size(); ++k)
    {
      Message m(peers[k]->sender, "/end", Datagram(1));
      Seen want = Seen::of(m);
      want.sender = peers[k]->link + "/" + want.sender;
      peerSaid[k].push_back(want);
      peers[k]->send(m);
    }
    size_t total = hostSaid.size();
    for(auto& p : peerSaid) total += p.second.size();
    // How many each peer is to get: all but what came in through its own link.
    auto expected = [&](size_t k)
      {
        size_t e = hostSaid.size();
        for(auto& p : peerSaid) if(peers[p.first]->link != peers[k]->link) e += p.second.size();
        return e;
      };
    waitFor(c, [&]
      {
        bool all = n.size() >= total;
        for(size_t k = 0; k < peers.size(); ++k) { peers[k]->poll(); all = all && peers[k]->got.size() >= expected(k); }
        return all;
      }, 15000);
    // one round more: what would be sent twice, or come back, follows at once
    nap(3000);
    for(auto& p : peers) p->poll();
    std::vector<Seen> heard = n.record();
    for(auto& p : peers) if(!p->problem.empty()) c.fail("wire", p->problem);
    // on the host's bus: what the host said, in order ...
    std::vector<Seen> host;
    std::map<std::string, std::vector<Seen>> in;
    for(auto& s : heard)
    {
      bool inbound = false;
      for(auto& i : n.instances) if(startsWith(s.sender, i->GetIdentifier() + "/")) { in[i->GetIdentifier()].push_back(s); inbound = true; break; }
      if(!inbound) host.push_back(s);
    }
    std::string bad = sequence(host, hostSaid);
    if(!bad.empty()) c.fail("host", "on the host's own bus: " + bad);
    // ... and what every peer said, in its order, attributed to its link
    for(auto& i : n.instances)
    {
      const std::string& id = i->GetIdentifier();
      // merge of the sequences of this link's peers: greedy is ambiguous for equal
      // messages, so each peer's is checked as a subsequence and the totals as a set
      std::vector<std::string> want, got;
      for(auto& p : peerSaid) if(peers[p.first]->link == id) for(auto& s : p.second) want.push_back(s.sender + '\0' + s.topic + '\0' + s.body);
      for(auto& s : in[id]) got.push_back(s.sender + '\0' + s.topic + '\0' + s.body);
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      if(want != got)
      {
        std::vector<std::string> lost, extra;
        std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(lost));
        std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
        c.fail(lost.empty() ? "inbound-extra" : extra.empty() ? "inbound-lost" : "inbound-changed",
          "received through " + id + ": " + std::to_string(lost.size()) + " messages lost, " + std::to_string(extra.size()) + " that nobody sent" +
          (lost.empty() ? "" : ", lost " + printable(lost[0], 200)) + (extra.empty() ? "" : ", extra " + printable(extra[0], 200)));
      }
      for(auto& p : peerSaid)
        if(peers[p.first]->link == id)
        {
          size_t at = 0;
          for(auto& s : in[id]) if(at < p.second.size() && s == p.second[at]) at++;
          if(at < p.second.size()) c.fail("inbound-order", "received through " + id + ": the messages of one peer are out of order from number " + std::to_string(at));
        }
    }
    // every peer: what was on the host's bus in its order, without what came
    // in through its own link
    for(size_t k = 0; k < peers.size(); ++k)
    {
      std::vector<Seen> want;
      for(auto& s : heard) if(!startsWith(s.sender, peers[k]->link + "/")) want.push_back(s);
      for(auto& s : peers[k]->got)
        if(startsWith(s.sender, peers[k]->link + "/")) c.fail("echo", "a message was sent back through the link it was received by: " + s.show());
      bad = sequence(peers[k]->got, want);
      if(!bad.empty()) c.fail("outbound", "sent to a peer of " + peers[k]->link + " (layout" + layout + "): " + bad);
      c.count("deliveries_to_peers", peers[k]->got.size());
    }
    c.count("deliveries_to_the_host", heard.size());
    c.count("peers", peers.size());
    if(!n.down()) { c.fail("stuck", "a host with links does not shut down, layout" + layout); new std::shared_ptr<Bus>(n.root); (void)n.manager.release(); return; }
    c.sig(h);
    c.sample("layout" + layout + ": " + std::to_string(hostSaid.size()) + " messages of the host, " + std::to_string(total - hostSaid.size()) + " of " + std::to_string(peers.size()) + " peers");
  }
  void caseK01(Case& c) { exchange(c, false); }
  void caseK02(Case& c) { exchange(c, true); }

  // ----------------------------------------------- K05: several linked hosts
  struct Edge { size_t server, client; std::shared_ptr<PluginInstance> sl, cl; };
  struct Net
  {
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<Edge> edges;
    // Every path a message takes from `origin`: node -> sender there.
    void reach(size_t at, const PluginInstance* via, const std::string& sender, std::map<size_t, std::string>& out) const
    {
      out[at] = sender;
      for(auto& e : edges)
      {
        if(e.server == at && e.sl.get() != via) reach(e.client, e.cl.get(), e.cl->GetIdentifier() + "/" + sender, out);
        if(e.client == at && e.cl.get() != via) reach(e.server, e.sl.get(), e.sl->GetIdentifier() + "/" + sender, out);
      }
    }
  };
  // A random tree of hosts.
  void build(Case& c, const Plugins& plugins, Net& net, std::string& layout)
  {
    Rng& r = c.rng;
    size_t n = 2 + r.below(3);
    for(size_t i = 0; i < n; ++i) net.nodes.emplace_back(new Node(c, plugins, r.chance(1, 2) ? "root" : "node" + std::to_string(i)));
    struct Listening { std::shared_ptr<PluginInstance> link; std::string host; int port; };
    std::map<size_t, Listening> listening;
    for(size_t i = 1; i < n; ++i)
    {
      size_t j = r.below(i);
      bool iServes = r.chance(1, 3);
      size_t server = iServes ? i : j, client = iServes ? j : i;
      if(!listening.count(server) || r.chance(1, 3))
      {
        Listening l;
        l.host = freshAddress();
        l.port = portBase();
        l.link = net.nodes[server]->add("Link", linkConfig(r, l.host, l.port, "", 0));
        listening[server] = l;
      }
      Edge e;
      e.server = server;
      e.client = client;
      e.sl = listening[server].link;
      e.cl = net.nodes[client]->add("Link", linkConfig(r, "", 0, listening[server].host, listening[server].port));
      net.edges.push_back(e);
      layout += " " + std::to_string(server) + "<-" + std::to_string(client);
    }
    for(auto& x : net.nodes) x->start();
  }
  bool settle(Case& c, Net& net)
  {
    int i = 0;
    return waitFor(c, [&]
      {
        if(i++ % 4 == 0)
          for(size_t k = 0; k < net.nodes.size(); ++k) net.nodes[k]->root->Publish(Message("w" + std::to_string(k), "/warm", Datagram(i)));
        bool all = true;
        for(size_t k = 0; k < net.nodes.size() && all; ++k)
        {
          std::map<size_t, std::string> to;
          net.reach(k, nullptr, "w" + std::to_string(k), to);
          for(auto& t : to) all = all && net.nodes[t.first]->warmFrom(t.second);
        }
        if(!all) nap(1500);
        return all;
      }, 15000);
  }
  void takeDown(Case& c, Net& net, const std::string& layout)
  {
    Rng& r = c.rng;
    std::vector<size_t> order;
    for(size_t i = 0; i < net.nodes.size(); ++i) order.insert(order.begin() + (ptrdiff_t)r.below(order.size() + 1), i);
    for(size_t i : order)
      if(!net.nodes[i]->down()) { c.fail("stuck", "a linked host does not shut down, layout" + layout); (void)net.nodes[i].release(); }
  }

  void caseK05(Case& c)
  {
    Rng& r = c.rng;
    Plugins plugins(c, {"link"});
    Net net;
    std::string layout;
    build(c, plugins, net, layout);
    if(!settle(c, net)) { c.fail("no-connection", "not every host gets to hear what it is to hear, layout" + layout); net.edges.clear(); takeDown(c, net, layout); return; }
    size_t n = net.nodes.size();

    // actions: one host offers, others ask
    size_t offers = r.below(n);
    std::atomic<int> served(0);
    std::shared_ptr<ActionProvider> provider = net.nodes[offers]->root->CreateActionProvider(std::string("/double"),
      std::function<void(std::shared_ptr<ActionProvider>, std::string, Datagram)>([&](std::shared_ptr<ActionProvider> p, std::string id, Datagram d)
        {
          progressed();
          served++;
          Datagram answer;
          answer["asked"] = d["request"];
          answer["by"] = std::string("provider");
          p->Respond(id, answer);
        }));
    std::map<size_t, std::string> fromProvider;
    net.reach(offers, nullptr, "", fromProvider);
    std::vector<size_t> askers;
    for(size_t k = 0; k < n; ++k)
    {
      if(k == offers) continue;
      std::map<size_t, std::string> to;
      net.reach(k, nullptr, "", to);
      if(to.count(offers) && fromProvider.count(k)) askers.push_back(k);
    }
    // every host speaks at the same time, and some ask
    std::vector<std::vector<Message>> said(n);
    std::vector<std::thread> ts;
    std::vector<size_t> counts(n);
    uint64_t h = hashStr(layout);
    for(size_t k = 0; k < n; ++k)
    {
      counts[k] = 1 + r.below(c.thorough ? 60 : 25);
      for(size_t i = 0; i < counts[k]; ++i) { said[k].push_back(Message("speaker" + std::to_string(k), "/said/" + std::to_string(i), payload(r))); h = mix(h, hashStr(wire(said[k].back()))); }
      said[k].push_back(Message("speaker" + std::to_string(k), "/end", Datagram(1)));
      uint64_t seed = r.next();
      ts.emplace_back([&, k, seed]
        {
          Rng q(seed);
          for(auto& m : said[k]) { net.nodes[k]->root->Publish(m); if(q.chance(1, 4)) nap((int)q.below(2000)); }
        });
    }
    std::vector<std::string> asked(n);
    std::vector<size_t> answers(n);
    for(size_t k : askers)
    {
      uint64_t seed = r.next();
      size_t times = 1 + r.below(4);
      ts.emplace_back([&, k, seed, times]
        {
          Rng q(seed);
          std::shared_ptr<ActionConsumer> consumer = net.nodes[k]->root->CreateActionConsumer(std::string("/double"));
          for(size_t i = 0; i < times; ++i)
          {
            Tree want;
            Datagram request = payload(q, &want);
            Datagram answer = consumer->Request(request, 30000);
            std::string by = answer.Get<std::string>("by");
            if(by != "provider") { asked[k] = "request " + std::to_string(i) + " was not answered"; return; }
            Datagram back = answer["asked"];
            std::string diff = differs(back, want);
            if(!diff.empty()) { asked[k] = "request " + std::to_string(i) + " was given the answer to another: " + diff; return; }
            answers[k]++;
            progressed();
          }
        });
    }
    // kept alive while the threads work: waiting happens in here
    std::atomic<bool> joined(false);
    std::thread joiner([&] { for(auto& t : ts) t.join(); joined = true; });
    waitFor(c, [&] { return joined.load(); }, 120000);
    joiner.join();
    for(size_t k : askers) { if(!asked[k].empty()) c.fail("action", "asked across links (layout" + layout + "): " + asked[k]); c.count("requests_across_links", answers[k]); }

    waitFor(c, [&]
      {
        for(size_t k = 0; k < n; ++k)
        {
          std::map<size_t, std::string> to;
          net.reach(k, nullptr, "speaker" + std::to_string(k), to);
          for(auto& t : to) if(!net.nodes[t.first]->has(t.second, "/end")) return false;
        }
        return true;
      }, 15000);
    nap(3000);
    size_t deliveries = 0;
    for(size_t at = 0; at < n; ++at)
    {
      std::vector<Seen> heard = net.nodes[at]->record();
      std::map<std::string, std::vector<Seen>> bySender;
      size_t accounted = 0, ours = 0;
      for(auto& s : heard) { bySender[s.sender].push_back(s); if(s.sender.find("speaker") != std::string::npos) ours++; }
      for(size_t k = 0; k < n; ++k)
      {
        std::map<size_t, std::string> to;
        net.reach(k, nullptr, "speaker" + std::to_string(k), to);
        if(!to.count(at)) continue;
        std::vector<Seen> want;
        for(auto& m : said[k]) { Seen s = Seen::of(m); s.sender = to[at]; want.push_back(s); }
        std::string bad = sequence(bySender[to[at]], want);
        if(!bad.empty()) c.fail("network", "host " + std::to_string(at) + ", what host " + std::to_string(k) + " said (layout" + layout + "): " + bad);
        accounted += want.size();
        if(at != k) deliveries += want.size();
      }
      if(ours != accounted) c.fail("network-extra", "host " + std::to_string(at) + " (layout" + layout + ") heard " + std::to_string(ours) + " messages instead of " + std::to_string(accounted));
    }
    c.count("deliveries_across_links", deliveries);
    c.count("hosts", n);
    c.maxOf("hosts_in_a_network", n);
    net.edges.clear();
    provider = nullptr;
    takeDown(c, net, layout);
    c.sig(h);
    c.sample("layout" + layout + ": " + std::to_string(deliveries) + " deliveries across links");
  }

  // ------------------------------------------------------- K03: coming to an end
  size_t entriesOf(const char* dir)
  {
    size_t n = 0;
    DIR* d = opendir(dir);
    if(d == nullptr) return 0;
    while(readdir(d) != nullptr) n++;
    closedir(d);
    return n;
  }
  int plainSocket(const std::string& host, int port, bool listens)
  {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_port = htons((uint16_t)port);
    inet_pton(AF_INET, host.c_str(), &a.sin_addr);
    int one = 1, small = 2048;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
    int ok = listens ? bind(fd, (sockaddr*)&a, sizeof a) == 0 && listen(fd, 8) == 0 : connect(fd, (sockaddr*)&a, sizeof a) == 0;
    if(!ok) { close(fd); return -1; }
    return fd;
  }

  void caseK03(Case& c)
  {
    Rng& r = c.rng;
    Plugins plugins(c, {"link"});
    std::string host = freshAddress(), other = freshAddress();
    int port = portBase(), otherPort = portBase();
    size_t fds = entriesOf("/proc/self/fd"), threads = entriesOf("/proc/self/task");
    std::string how;
    int rounds = 1 + (int)r.below(2);
    uint64_t h = 7;
    for(int round = 0; round < rounds && !c.failed(); ++round)
    {
      std::vector<std::unique_ptr<Peer>> peers;
      std::vector<int> sockets;
      {
        Node n(c, plugins);
        bool serves = r.chance(2, 3), connects = !serves || r.chance(1, 2), occupied = false;
        if(connects)
          switch(r.below(4))
          {
            case 0: how += " nobody-listens"; break;
            case 1: sockets.push_back(plainSocket(other, otherPort, true)); sockets.push_back(plainSocket(other, otherPort + 1, true)); how += " mute-server"; break;
            default: peers.emplace_back(new Peer(other, otherPort, false)); how += " server"; break;
          }
        if(serves && r.chance(1, 6)) { occupied = true; sockets.push_back(plainSocket(host, port, true)); how += " occupied"; }
        std::shared_ptr<PluginInstance> link = n.add("Link", linkConfig(r, serves ? host : "", port, connects ? other : "", otherPort));
        if(r.chance(1, 4)) n.add("Link", Tree::of(DICT));
        // a stalled peer: a subscriber that never takes anything
        void* stalledCtx = nullptr;
        void* stalled = nullptr;
        bool stall = r.chance(1, 2);
        if(serves && !occupied)
        {
          if(stall)
          {
            stalledCtx = zmq_ctx_new();
            stalled = zmq_socket(stalledCtx, ZMQ_SUB);
            int zero = 0, one = 1, small = 2048;
            zmq_setsockopt(stalled, ZMQ_LINGER, &zero, sizeof zero);
            zmq_setsockopt(stalled, ZMQ_RCVHWM, &one, sizeof one);
            zmq_setsockopt(stalled, ZMQ_RCVBUF, &small, sizeof small);
            zmq_setsockopt(stalled, ZMQ_SUBSCRIBE, "", 0);
            zmq_connect(stalled, endpoint(host, port).c_str());
            how += " stalled";
            c.count("stalled_peers");
          }
          if(r.chance(1, 2)) { peers.emplace_back(new Peer(host, port, true)); how += " client"; }
          if(r.chance(1, 3)) { sockets.push_back(plainSocket(host, port, false)); how += " mute-client"; }
          if(r.chance(1, 3))
          {
            int fd = plainSocket(host, port + (int)r.below(2), false);
            if(fd >= 0)
            {
              std::string junk;
              size_t len = 1 + r.below(5000);
              // (never 0xff, which announces a length: how libzmq copes with absurd ones is its own affair)
              for(size_t i = 0; i < len; ++i) junk += (char)r.below(255);
              ssize_t w = ::send(fd, junk.data(), junk.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
              (void)w;
              sockets.push_back(fd);
            }
            how += " garbage-client";
          }
        }
        bool runs = r.chance(7, 8);
        if(runs) n.start();
        // wait until connected, so that there is something to linger for
        int i = 0;
        if(runs && (stall || !peers.empty()))
          for(; i < 60; ++i)
          {
            n.root->Publish(Message("host", "/warm", Datagram(i)));
            for(auto& p : peers) { p->send(Message("p", "/warm", Datagram(i))); p->poll(); }
            bool all = i > 20;
            for(auto& p : peers) all = all && p->warm;
            if(all) break;
            nap(3000);
            c.alive();
          }
        size_t bulk = r.chance(3, 4) ? 20 + r.below(200) : 0, size = r.chance(1, 2) ? 200000 : 2000;
        for(size_t k = 0; k < bulk; ++k)
        {
          n.root->Publish(Message("host", "/bulk", Datagram(std::string(size, 'x'))));
          if(k % 16 == 0)
          {
            c.alive();
            for(auto& p : peers) p->send(Message("p", "/up", Datagram(std::string(200, 'y'))));
            if(r.chance(1, 12) && !peers.empty()) { peers.pop_back(); how += " leaves"; c.count("peers_that_left"); }
          }
        }
        c.count("bulk_messages", bulk);
        if(runs && r.chance(1, 2)) waitFor(c, [&] { return n.size() >= bulk; }, 20000);
        auto before = std::chrono::steady_clock::now();
        bool ended;
        if(runs) ended = n.down(30000);
        else { n.up = false; n.root->Detach(); n.instances.clear(); n.manager->UnloadTemplates(); ended = true; }
        auto took = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - before).count();
        c.maxOf("shutdown_ms", (uint64_t)took);
        c.count("shutdowns");
        link = nullptr;
        if(!ended)
        {
          c.fail("stuck", "a host does not shut down while:" + how);
          new std::shared_ptr<Bus>(n.root);
          (void)n.manager.release();
          return;
        }
        if(stalled) { zmq_close(stalled); zmq_ctx_term(stalledCtx); }
      }
      peers.clear();
      for(int fd : sockets) if(fd >= 0) close(fd);
      // what it listened on is free again
      void* ctx = zmq_ctx_new();
      for(int k = 0; k < 2; ++k)
      {
        void* s = zmq_socket(ctx, ZMQ_PUB);
        if(!waitFor(c, [&] { return zmq_bind(s, endpoint(host, port + k).c_str()) == 0; }, 5000))
          c.fail("port-kept", "the port a link listened on is still taken after it has shut down, after:" + how);
        zmq_close(s);
      }
      zmq_ctx_term(ctx);
      h = mix(h, hashStr(how));
    }
    if(!waitFor(c, [&] { return entriesOf("/proc/self/fd") <= fds && entriesOf("/proc/self/task") <= threads; }, 5000))
      c.fail("leftovers", "after shutting down, " + std::to_string(entriesOf("/proc/self/fd")) + " descriptors instead of " + std::to_string(fds) + " and " +
        std::to_string(entriesOf("/proc/self/task")) + " threads instead of " + std::to_string(threads) + " are left, after:" + how);
    c.sig(h);
    c.sample("shut down with" + how);
  }

  // ------------------------------------- K06: peers that come, go and return
  void caseK06(Case& c)
  {
    Rng& r = c.rng;
    Plugins plugins(c, {"link"});
    Node n(c, plugins);
    int roles = 1 + (int)r.below(3);
    std::string server, client;
    int sp = 6967, cp = 6967;
    if(roles & 1) { server = freshAddress(); if(r.chance(1, 2)) sp = portBase(); }
    if(roles & 2) { client = freshAddress(); if(r.chance(1, 2)) cp = portBase(); }
    std::string link = n.add("Link", linkConfig(r, server, sp, client, cp))->GetIdentifier();
    n.start();
    std::string story;
    size_t rounds = 2 + r.below(c.thorough ? 8 : 4);
    uint64_t h = (uint64_t)roles;
    std::vector<std::unique_ptr<Peer>> peers;
    size_t hostSaid = 0;
    for(size_t round = 0; round < rounds && !c.failed(); ++round)
    {
      // Who is there this time: the server the link looks for, and some that look for the link.
      bool serverThere = (roles & 2) && (roles == 2 || r.chance(3, 4));
      size_t clients = (roles & 1) ? (serverThere ? r.below(3) : 1 + r.below(2)) : 0;
      if(serverThere)
      {
        // the port may still be held by the one that has just gone
        bool bound = waitFor(c, [&]
          {
            peers.emplace_back(new Peer(client, cp, false));
            if(peers.back()->ok) return true;
            peers.pop_back();
            nap(2000);
            return false;
          }, 10000);
        if(!bound) { c.inconclusive("a peer could not listen"); break; }
      }
      for(size_t i = 0; i < clients; ++i) peers.emplace_back(new Peer(server, sp, true));
      for(size_t i = 0; i < peers.size(); ++i) { peers[i]->link = link; peers[i]->sender = "peer" + std::to_string(round) + "." + std::to_string(i); }
      story += std::string(" ") + (serverThere ? "s" : "") + std::to_string(clients);
      if(!handshake(c, n, peers))
      {
        c.fail("no-connection", "in round " + std::to_string(round + 1) + " of peers coming and going (" + story + " ) nothing gets through between a link and its peers");
        break;
      }
      std::string topic = "/round/" + std::to_string(round);
      std::vector<Seen> said;
      std::vector<std::vector<Seen>> theirs(peers.size());
      size_t steps = 5 + r.below(40);
      for(size_t s = 0; s < steps; ++s)
      {
        size_t k = r.below(peers.size() + 1);
        if(k == peers.size())
        {
          Message m("host", topic, payload(r));
          said.push_back(Seen::of(m));
          n.root->Publish(m);
          hostSaid++;
        }
        else
        {
          Message m(peers[k]->sender, topic, payload(r));
          Seen want = Seen::of(m);
          want.sender = link + "/" + want.sender;
          theirs[k].push_back(want);
          peers[k]->send(m);
        }
        h = mix(h, k);
        if(r.chance(1, 8)) nap((int)r.below(1000));
      }
      size_t theirTotal = 0;
      for(auto& t : theirs) theirTotal += t.size();
      auto ofRound = [&](const std::vector<Seen>& all) { std::vector<Seen> out; for(auto& s : all) if(s.topic == topic) out.push_back(s); return out; };
      waitFor(c, [&]
        {
          bool all = ofRound(n.record()).size() >= said.size() + theirTotal;
          for(auto& p : peers) { p->poll(); all = all && ofRound(p->got).size() >= said.size(); }
          return all;
        }, 15000);
      nap(1500);
      std::vector<Seen> heard = ofRound(n.record());
      for(size_t k = 0; k < peers.size(); ++k)
      {
        peers[k]->poll();
        if(!peers[k]->problem.empty()) c.fail("wire", peers[k]->problem);
        std::string bad = sequence(ofRound(peers[k]->got), said);
        if(!bad.empty()) c.fail("outbound", "round " + std::to_string(round + 1) + " (" + story + " ): sent to a peer: " + bad);
        std::vector<Seen> from;
        for(auto& s : heard) if(s.sender == link + "/" + peers[k]->sender) from.push_back(s);
        bad = sequence(from, theirs[k]);
        if(!bad.empty()) c.fail("inbound", "round " + std::to_string(round + 1) + " (" + story + " ): received from a peer: " + bad);
        c.count("deliveries", from.size() + said.size());
      }
      if(heard.size() != said.size() + theirTotal) c.fail("inbound", "on the host's bus there are " + std::to_string(heard.size()) + " messages of the round instead of " + std::to_string(said.size() + theirTotal));
      // They go, some of them in the middle of it.
      bool talking = r.chance(1, 2);
      for(size_t i = 0; talking && i < 20; ++i) { n.root->Publish(Message("host", "/gone", payload(r))); for(auto& p : peers) p->send(Message(p->sender, "/gone", payload(r))); }
      peers.clear();
      for(size_t i = 0; talking && i < 20; ++i) n.root->Publish(Message("host", "/gone", payload(r)));
      if(r.chance(1, 2)) nap((int)r.below(200000));
      c.count("rounds");
      if(serverThere && round > 0) c.count("servers_that_returned");
    }
    peers.clear();
    if(!n.down()) { c.fail("stuck", "a host whose peers came and went does not shut down"); new std::shared_ptr<Bus>(n.root); (void)n.manager.release(); return; }
    c.sig(mix(h, hashStr(story)));
    c.sample("roles " + std::to_string(roles) + ", rounds" + story);
  }

  // ------------------------------------------------------- K04: SysInfo
  void caseK04(Case& c)
  {
    Rng& r = c.rng;
    Plugins plugins(c, {"sysinfo", "link"});
    // Asked by its own host, or from another one across a link.
    bool remote = r.chance(1, 2);
    Node a(c, plugins), b(c, plugins, "asker");
    bool sends = r.chance(1, 2);
    Tree conf = Tree::of(DICT);
    if(sends || r.chance(1, 2)) conf.dict["send-datagram"] = Tree::boolean(sends);
    if(r.chance(1, 4)) conf.dict["unrelated"] = Tree::str("x");
    if(r.chance(1, 6)) conf = Tree::of(DICT), sends = false;
    else if(r.chance(1, 8)) { conf = Tree::of(DICT); conf.dict["send-datagram"] = Tree::str("yes"); sends = false; }
    std::string linkOfB;
    if(remote)
    {
      std::string host = freshAddress();
      int port = portBase();
      a.add("Link", linkConfig(r, host, port, "", 0));
      linkOfB = b.add("Link", linkConfig(r, "", 0, host, port))->GetIdentifier();
    }
    std::string id = a.add("SysInfo", conf)->GetIdentifier();
    a.start();
    b.start();
    if(remote)
    {
      int i = 0;
      bool ok = waitFor(c, [&]
        {
          if(i++ % 4 == 0) { a.root->Publish(Message("wa", "/warm", Datagram(i))); b.root->Publish(Message("wb", "/warm", Datagram(i))); }
          if(b.warmFrom(linkOfB + "/wa") && a.warmFrom("Link0/wb")) return true;
          nap(1500);
          return false;
        }, 30000);
      if(!ok) { c.fail("no-connection", "nothing gets through between the host of SysInfo and another"); a.down(); b.down(); return; }
    }
    Node& asker = remote ? b : a;
    std::shared_ptr<ActionConsumer> consumer = asker.root->CreateActionConsumer(std::string("/sysinfoaction"));
    uint64_t h = remote;
    size_t requests = 3 + r.below(10);
    for(size_t i = 0; i < requests && !c.failed(); ++i)
    {
      for(size_t k = r.below(4); k > 0; --k)
      {
        static const char* const topics[] = {"/sysinfo", "/sysinfo", "/sysinfoaction/request", "/sysinfoaction/response", "/sysinfoaction"};
        Tree t;
        Message m(senderName(r), topics[r.below(5)], payload(r, &t));
        h = mix(h, hashTree(t));
        asker.root->Publish(startsWith(m.GetSender(), "Link") ? Message("x", m.GetTopic(), m.GetDatagram()) : m);
        c.count("messages_of_any_content");
      }
      Datagram answer = consumer->Request(payload(r), 30000);
      c.alive();
      c.count("requests");
      if(answer.Get<std::string>("") != "This is the response message.") c.fail("no-answer", "SysInfo did not answer request " + std::to_string(i) + (remote ? " asked across a link" : ""));
    }
    auto hello = [&](Node& n, const std::string& sender)
      {
        size_t k = 0;
        std::string want = Seen::of(Message("", "", Datagram(std::string("Hello Bus!")))).body;
        for(auto& s : n.record()) if(s.topic == "/sysinfo" && s.sender == sender && s.body == want) k++;
        return k;
      };
    if(sends && !waitFor(c, [&] { return hello(a, id) > 0; }, 10000)) c.fail("no-hello", "SysInfo was told to send its datagram, and does not");
    if(!sends) for(auto& s : a.record()) if(s.sender == id && s.topic == "/sysinfo") c.fail("hello", "SysInfo sends its datagram without having been told to");
    if(sends) c.count("told_to_send");
    if(remote) c.count("asked_across_a_link");
    if(!a.down() || !b.down()) { c.fail("stuck", "the host of SysInfo does not shut down"); new std::shared_ptr<Bus>(a.root); (void)a.manager.release(); }
    consumer = nullptr;
    c.sig(mix(h, requests));
    c.sample(std::string(remote ? "across a link" : "on one host") + ", " + std::to_string(requests) + " requests" + (sends ? ", sends its datagram" : ""));
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"K01", caseK01}, {"K02", caseK02}, {"K03", caseK03}, {"K04", caseK04}, {"K05", caseK05}, {"K06", caseK06}});
}
