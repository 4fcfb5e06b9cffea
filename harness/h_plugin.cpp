// L01..L04, L06, L07, U02: plugin hosting, in this process, with probe plugins
// that write down what is done with them. Deciding monitors: offline checkers
// over the recorded events.
#include "events.h"
#include "json_out.h"
#include "tree.h"

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <lamppost/LampPost.h>
#include <lamppost/messages/Message.h>

using namespace vf;
using lp::LampPost;
using lp::LampPostConfiguration;
using lp::PluginConfiguration;
using lp::PluginInstance;
using lp::PluginManager;
using lp::PluginManagerConfiguration;
using lp::bus::Bus;

namespace
{
  // ---------------------------------------------------------------- scratch
  struct Dir
  {
    std::string path;
    std::vector<std::string> made;
    std::vector<std::string> dirs;
    Dir(Case& c, const std::string& name = "case")
    {
      static int n = 0;
      path = c.scratch + "/" + name + std::to_string(n++);
      mkdir(path.c_str(), 0755);
    }
    ~Dir()
    {
      for(auto& f : made) unlink(f.c_str());
      for(auto it = dirs.rbegin(); it != dirs.rend(); ++it) rmdir(it->c_str());
      rmdir(path.c_str());
    }
    std::string file(const std::string& name, const std::string& text)
    {
      std::string p = path + "/" + name;
      std::ofstream f(p, std::ios::binary);
      f << text;
      made.push_back(p);
      return p;
    }
    std::string link(const std::string& name, const std::string& target)
    {
      std::string p = path + "/" + name;
      if(symlink(target.c_str(), p.c_str()) != 0) { perror(p.c_str()); _exit(3); }
      made.push_back(p);
      return p;
    }
    std::string sub(const std::string& name)
    {
      std::string p = path + "/" + name;
      mkdir(p.c_str(), 0755);
      dirs.push_back(p);
      return p;
    }
    std::string fifo(const std::string& name)
    {
      std::string p = path + "/" + name;
      mkfifo(p.c_str(), 0644);
      made.push_back(p);
      return p;
    }
    std::string name(const std::string& n) { std::string p = path + "/" + n; made.push_back(p); return p; }
  };

  std::string plugin(Case& c, const std::string& name)
  {
    std::string p = c.config("bin.libplugin_" + name + ".so");
    if(p.empty() || access(p.c_str(), R_OK) != 0) { fprintf(stderr, "probe %s is not built\n", name.c_str()); _exit(3); }
    return p;
  }
  void provide(Case& c, Dir& d, const std::string& name)
  {
    d.link("libplugin_" + name + ".so", plugin(c, name));
  }

  struct Entry { Tree tree; std::string id; bool good = false; };

  Tree entry(const std::string& type, const Tree& config)
  {
    Tree t = Tree::of(DICT);
    t.dict["type"] = Tree::str(type);
    t.dict["configuration"] = config;
    return t;
  }
  Tree behave(const std::string& how, int messages = 0, int chatter = 0)
  {
    Tree t = Tree::of(DICT);
    t.dict["behave"] = Tree::str(how);
    if(messages) t.dict["messages"] = Tree::num(messages);
    if(chatter) t.dict["chatter"] = Tree::num(chatter);
    return t;
  }
  std::string document(Rng& r, const std::vector<Tree>& entries)
  {
    Tree t = Tree::of(DICT);
    t.dict["plugins"] = Tree::of(LIST);
    t.dict["plugins"].list = entries;
    if(r.chance(1, 4)) t.dict["unrelated"] = Tree::str("x");
    JsonOut j;
    emit(r, t, j);
    return j.text;
  }

  // Runs one instance of the system and stops it when told to.
  struct Host
  {
    Case& c;
    std::string events;
    std::shared_ptr<LampPost> lamp;
    std::thread runner;
    std::atomic<bool> returned;
    std::string escaped;
    Host(Case& c_, Dir& d, const std::vector<std::string>& searchPaths, const std::vector<std::string>& files, const std::string& eventFile = "")
      : c(c_), events(eventFile.empty() ? d.name("events") : eventFile), returned(false)
    {
      if(eventFile.empty()) setenv("VF_EVENTS", events.c_str(), 1);
      LampPostConfiguration conf;
      conf.mPluginManagerConfiguration = PluginManagerConfiguration(std::list<std::string>(searchPaths.begin(), searchPaths.end()), nullptr);
      conf.mConfigurationFiles.assign(files.begin(), files.end());
      lamp = std::make_shared<LampPost>(conf);
    }
    void start()
    {
      runner = std::thread([this]
        {
          try { lamp->Start(); }
          catch(std::exception& e) { escaped = e.what(); }
          catch(...) { escaped = "something that is no exception of the standard library"; }
          returned = true;
        });
    }
    bool seen(const std::string& what, size_t times, int ms = 30000)
    {
      return waitFor(c, [&] { return returned.load() || hasEvent(events, what, times); }, ms) && hasEvent(events, what, times);
    }
    // Position of the stop request among the events.
    void note(const std::string& what)
    {
      int fd = open(events.c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
      std::string line = "- " + what + " 0 -\n";
      ssize_t n = write(fd, line.data(), line.size());
      (void)n;
      close(fd);
    }
    void stop()
    {
      note("host-stop");
      lamp->Stop();
    }
    // false: did not end
    bool join()
    {
      if(!waitFor(c, [&] { return returned.load(); }, 20000)) return false;
      runner.join();
      return true;
    }
    std::vector<Event> read(size_t* stopAt = nullptr)
    {
      std::vector<Event> all = readEvents(events), out;
      for(auto& e : all)
      {
        if(e.what == "host-stop") { if(stopAt && *stopAt == (size_t)-1) *stopAt = e.at; }
        else if(e.who.empty()) continue;
        else out.push_back(e);
      }
      return out;
    }
  };

  // A host that does not come back cannot be torn down: end here.
  void stuck(Case& c, Host& h, const std::string& where)
  {
    c.fail("stuck:" + where, "the system did not return from running although it was told to stop (" + where + ")");
    h.runner.detach();
    new std::shared_ptr<LampPost>(h.lamp);
  }

  uint64_t historyHash(const std::vector<Event>& events)
  {
    uint64_t h = 5;
    for(auto& e : events) h = mix(mix(h, hashStr(e.who)), hashStr(e.what));
    return h;
  }
  std::string brief(const std::vector<Event>& events)
  {
    std::string s;
    size_t n = 0;
    for(auto& e : events) { if(++n > 40) { s += " ..."; break; } s += " " + printable(e.who, 20) + ":" + e.what; }
    return s;
  }

  // ------------------------------------------------------------ L01: lifecycle
  // Also decides L07 (what probes say to each other) when `talk` is set.
  void hosting(Case& c, bool talk)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    provide(c, plugins, "probe_a");
    provide(c, plugins, "probe_x");
    static const char* const behaviours[] = {"loop", "quit", "return", "slow-stop", "last-words", "untidy", "slow-init", "slow-deinit", "fail-init"};
    std::vector<std::string> files;
    size_t count = 0, running = 0;
    int expectedMessages = 0;
    std::string how;
#ifdef VF_TSAN
    bool flood = false;
#else
    bool flood = talk && r.chance(1, 16);   // far more than can be heard at once
#endif
    if(flood) c.count("floods");
    int nFiles = 1 + (int)r.below(2);
    for(int f = 0; f < nFiles; ++f)
    {
      std::vector<Tree> entries;
      size_t n = r.below(talk ? 4 : 5) + (talk && f == 0 ? 2 : 0);
      for(size_t i = 0; i < n; ++i)
      {
        std::string b = talk ? (r.chance(1, 4) ? "slow-init" : "loop") : behaviours[r.below(9)];
        int messages = r.chance(talk ? 3 : 1, 4) && b != "return" && b != "quit" ? 1 + (int)r.below(talk ? 12 : 5) : 0;
        if(flood && f == 0 && i < 2) { b = i == 0 ? "slow-hear" : "flood"; messages = 1500 + (int)r.below(1500); }
        expectedMessages += b == "fail-init" ? 0 : messages;
        entries.push_back(entry(r.chance(1, 2) ? "Probe" : "X", behave(b, messages)));
        how += " " + b;
        count++;
        if(b != "fail-init") running++;
      }
      files.push_back(d.file("conf" + std::to_string(f) + ".json", document(r, entries)));
    }
    Host h(c, d, {plugins.path}, files);
    if(h.lamp->IsStopped()) c.fail("run-state", "a system that was never started says that it has stopped");
    unsigned level = (unsigned)r.below(6);
    perturb(level, r.next());
    bool early = !talk && r.chance(1, 3);
    int stopper = (int)r.below(3);
    h.start();
    if(early) nap((int)r.below(30000));
    else
    {
      if(!h.seen("run-begin", running) ) c.fail("never-started", "only some of the " + std::to_string(running) + " plugin instances were run:" + how);
      if(talk && running > 0)
      {
        // Said while all are listening, and waited for: required deliveries.
        waitFor(c, [&] { return hasEvent(h.events, "publish-end", (size_t)expectedMessages); }, 20000);
        auto settled = [&]
          {
            size_t until = (size_t)-1;
            std::vector<Event> ev = h.read(&until);
            if(ev.empty()) return false;
            return checkTalk(ev, (size_t)-1).problem.empty();
          };
        waitFor(c, settled, 4000);
      }
      else nap((int)r.below(15000));
    }
    perturb(0, 0);
    if(stopper == 0) h.stop();
    else
    {
      std::vector<std::thread> ts;
      for(int i = 0; i < stopper; ++i) ts.emplace_back([&] { h.stop(); });
      for(auto& t : ts) t.join();
    }
    if(!h.join()) { stuck(c, h, early ? "stopped early" : "stopped"); return; }
    if(!h.escaped.empty()) c.fail("escaped", "running ended with an exception: " + h.escaped);
    if(!h.lamp->IsStopped()) c.fail("run-state", "a system that has shut down does not say so");
    size_t until = (size_t)-1;
    std::vector<Event> ev = h.read(&until);
    if(!talk)
    {
      std::string problem = lifecycleProblem(ev);
      if(!problem.empty()) c.fail("lifecycle", problem + " | behaviours:" + how + " | events:" + brief(ev));
      if(lives(ev).size() != count && !early) c.fail("lifecycle", "of " + std::to_string(count) + " plugin instances " + std::to_string(lives(ev).size()) + " were made:" + how);
      if(lives(ev).size() != count && early) c.fail("lifecycle", "a stop while starting up kept configured plugin instances from being made and ended:" + how);
    }
    else
    {
      Talk t = checkTalk(ev, until);
      if(!t.problem.empty()) c.fail("talk", t.problem);
      c.count("messages_said", t.said);
      c.count("deliveries_required", t.required);
      c.count("deliveries", t.heard);
    }
    // Whose work goes on until it is told to end goes on until then.
    for(auto& e : ev)
      if(e.what == "run-end" && e.at < until && !e.extra.empty())
      {
        std::string b = unhex(e.extra[0]);
        if(b != "return" && b != "quit") c.fail("ended-early", "the work of '" + printable(e.who) + "' (" + b + "), which goes on while it is to, was over before anybody asked for a stop");
      }
    c.count("instances", count);
    c.count("events", ev.size());
    if(early) c.count("stopped_during_startup");
    if(how.find("fail-init") != std::string::npos) c.count("failing_initializations");
    if(how.find("return") != std::string::npos || how.find("quit") != std::string::npos) c.count("self_ended_plugins");
    c.sig(historyHash(ev));
    c.sample(brief(ev));
    h.lamp.reset();
  }
  void caseL01(Case& c) { hosting(c, false); }
  void caseL07(Case& c) { hosting(c, true); }

  // ------------------------------------------- L08: plugins asking each other
  // Who was asked and answered what; returns who offers what.
  std::map<std::string, std::vector<std::string>> checkAsks(Case& c, const std::vector<Event>& ev, size_t asks)
  {
    std::map<std::string, std::vector<std::string>> who;       // name -> instances that offer it
    for(auto& e : ev) if(e.what == "offers") who[unhex(e.extra[0])].push_back(e.who);
    typedef std::pair<std::string, int> Ask;
    std::map<Ask, std::string> said;
    std::map<Ask, size_t> answered;
    std::map<std::pair<std::string, Ask>, size_t> asked;
    for(auto& e : ev)
    {
      if(e.what == "ask") said[{e.who, std::stoi(e.extra[0])}] = unhex(e.extra[1]);
      else if(e.what == "asked")
      {
        Ask a{unhex(e.extra[0]), std::stoi(e.extra[1])};
        auto it = said.find(a);
        if(it == said.end()) { c.fail("invented", "'" + e.who + "' was asked what nobody asked"); continue; }
        auto& offering = who[it->second];
        if(std::find(offering.begin(), offering.end(), e.who) == offering.end()) c.fail("misled", "'" + e.who + "' was asked what it does not offer: '" + it->second + "'");
        if(++asked[{e.who, a}] > 1) c.fail("asked-twice", "'" + e.who + "' was asked the same twice");
        c.count("requests_received");
      }
      else if(e.what == "answer")
      {
        Ask a{e.who, std::stoi(e.extra[0])};
        std::string by = unhex(e.extra[1]);
        auto it = said.find(a);
        if(it == said.end()) { c.fail("invented", "'" + e.who + "' was answered what it did not ask"); continue; }
        auto& offering = who[it->second];
        if(std::stoi(e.extra[2]) != a.second || unhex(e.extra[3]) != e.who) c.fail("correlation", "'" + e.who + "' was given the answer to another request, by '" + by + "'");
        if(std::find(offering.begin(), offering.end(), by) == offering.end()) c.fail("correlation", "'" + e.who + "' asked for '" + it->second + "' and was answered by '" + by + "'");
        if(++answered[a] > 1) c.fail("answered-twice", "'" + e.who + "' was answered twice");
        c.count("answers");
      }
    }
    if(!c.failed())
      for(auto& s : said)
      {
        if(answered[s.first] != 1) c.fail("unanswered", "'" + s.first.first + "' was not answered");
        for(auto& p : who[s.second]) if(asked[{p, s.first}] != 1) c.fail("not-asked", "'" + p + "' did not get a request for what it offers");
      }
    if(!c.failed() && said.size() != asks) c.fail("unanswered", "of " + std::to_string(asks) + " requests only " + std::to_string(said.size()) + " were made: the others wait for answers");
    return who;
  }

  void caseL08(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    provide(c, plugins, "probe_a");
    provide(c, plugins, "probe_x");
    provide(c, plugins, "probe_u");
    static const char* const names[] = {"x", "xx", "x/y", "answer", "response", "request", "a b"};
    static const char* const types[] = {"Probe", "X", "a/b"};
    size_t n = 2 + r.below(5);
    std::vector<Tree> entries;
    std::vector<std::string> offered;
    size_t longOnes = r.chance(1, 5) ? std::min<size_t>(nameLength(r), 1024) : 0;
    for(size_t i = 0; i < n; ++i)
    {
      Tree b = behave(r.chance(1, 4) ? "slow-init" : "loop");
      if(i == 0 || r.chance(2, 3)) { offered.push_back(longOnes != 0 ? longName(r, longOnes) : names[r.below(7)]); b.dict["offer"] = Tree::str(offered.back()); }
      entries.push_back(entry(types[r.below(3)], b));
    }
    size_t askers = 0, asks = 0;
    for(size_t i = 0; i < n; ++i)
      if(i + 1 == n || r.chance(1, 2))
      {
        askers++;
        int k = 1 + (int)r.below(10);
        Tree& conf = entries[i].dict["configuration"];
        conf.dict["asks"] = Tree::num(k);
        for(int j = 0; j < k; ++j) conf.dict["ask" + std::to_string(j)] = Tree::str(offered[r.below(offered.size())]);
        asks += (size_t)k;
      }
    for(size_t i = n; i > 1; --i) std::swap(entries[i - 1], entries[r.below(i)]);
    std::string gate = d.name("gate");
    setenv("VF_GATE", gate.c_str(), 1);
    Host h(c, d, {plugins.path}, {d.file("conf.json", document(r, entries))});
    unsigned level = (unsigned)r.below(6);
    perturb(level, r.next());
    h.start();
    if(!h.seen("run-begin", n)) c.fail("never-started", "only some of the " + std::to_string(n) + " plugin instances were run");
    { std::ofstream open(gate); }
    if(!h.seen("asked-all", askers, 40000)) c.fail("unanswered", "a plugin that asks others is not answered");
    nap(2000);
    perturb(0, 0);
    h.stop();
    bool joined = h.join();
    unsetenv("VF_GATE");
    if(!joined) { stuck(c, h, "asking"); return; }
    std::vector<Event> ev = h.read();
    auto who = checkAsks(c, ev, asks);
    std::string problem = lifecycleProblem(ev);
    if(!problem.empty()) c.fail("lifecycle", problem);
    c.count("requests", asks);
    for(auto& p : who) if(p.second.size() > 1) { c.count("offered_by_several"); break; }
    c.sig(mix(historyHash(ev), level));
    c.sample(std::to_string(n) + " instances, " + std::to_string(asks) + " requests by " + std::to_string(askers));
    h.lamp.reset();
  }

  // -------------------------------------- L09: several systems in one program
  // Each with plugins of its own, which have the same names, topics and actions; each judged by its own events alone.
  void caseL09(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins"), fewer(c, "fewer");
    for(auto n : {"probe_a", "probe_x", "probe_u"}) provide(c, plugins, n);
    for(auto n : {"probe_a", "probe_x"}) provide(c, fewer, n);
    std::string stray = d.name("stray"), asking = d.name("asking");
    setenv("VF_EVENTS", stray.c_str(), 1);      // where nothing is to be written
    setenv("VF_GATE", asking.c_str(), 1);
    static const char* const types[] = {"Probe", "X", "a/b"};
    static const char* const names[] = {"x", "y", "answer"};
    struct System
    {
      std::vector<std::string> paths, files;
      std::string events, gate;
      size_t count = 0, askers = 0, asks = 0;
      int before = 0, after = 0;        // messages said without the gate and with it
      bool held = false, ended = false;
      std::shared_ptr<Host> host;
    };
    std::vector<System> all(2 + r.below(2));
    int serial = 0;
    std::string how;
    auto make = [&](System& s, bool held)
      {
        int k = serial++;
        s = System();
        s.events = d.name("events" + std::to_string(k));
        s.gate = d.name("gate" + std::to_string(k));
        s.held = held;
        const bool few = r.chance(1, 3);
        s.paths = {few ? fewer.path : plugins.path};
        std::vector<Tree> entries;
        size_t n = 1 + r.below(4);
        std::vector<std::string> offered;
        for(size_t i = 0; i < n; ++i)
        {
          int messages = 2 * (int)r.below(5);
          // what holds up a whole system: a plugin that does not finish to initialize, or to hear
          std::string b = held && i == 0 ? (r.chance(1, 2) ? "hold-init" : "hold-hear") : r.chance(1, 5) ? "slow-init" : "loop";
          if(b == "hold-hear") messages = 4;
          if(held && i == 0) how += " " + b;
          Tree conf = behave(b, messages);
          conf.dict["events"] = Tree::str(s.events);
          conf.dict["gate"] = Tree::str(s.gate);
          std::string type = types[r.below(3)];
          if(held && i == 0 && type == "a/b") type = "X";
          if(!(few && type == "a/b"))
          {
            s.count++;
            s.before += messages / 2;
            s.after += messages - messages / 2;
            if(!held && (offered.empty() || r.chance(1, 2))) { offered.push_back(names[r.below(3)]); conf.dict["offer"] = Tree::str(offered.back()); }
            if(!offered.empty() && r.chance(1, 2))
            {
              int k = 1 + (int)r.below(5);
              conf.dict["asks"] = Tree::num(k);
              for(int j = 0; j < k; ++j) conf.dict["ask" + std::to_string(j)] = Tree::str(offered[r.below(offered.size())]);
              s.askers++;
              s.asks += (size_t)k;
            }
          }
          entries.push_back(entry(type, conf));
        }
        s.files = {d.file("conf" + std::to_string(k) + ".json", document(r, entries))};
        s.host = std::make_shared<Host>(c, d, s.paths, s.files, s.events);
      };
    auto said = [&](System& s, int n) { return n == 0 || hasEvent(s.events, "publish-end", (size_t)n); };
    auto open = [&](const std::string& path) { std::ofstream f(path); };
    auto whole = [&](System& s, const std::string& when)
      {
        if(s.count > 0 && !s.host->seen("run-begin", s.count)) { c.fail("never-started", "of a system's " + std::to_string(s.count) + " plugin instances not all were run " + when); }
      };
    auto judge = [&](System& s)
      {
        size_t until = (size_t)-1;
        std::vector<Event> ev = s.host->read(&until);
        std::string problem = lifecycleProblem(ev);
        if(!problem.empty()) c.fail("lifecycle", problem + " | events:" + brief(ev));
        if(lives(ev).size() != s.count) c.fail("lifecycle", "of " + std::to_string(s.count) + " plugin instances of a system " + std::to_string(lives(ev).size()) + " were made");
        Talk t = checkTalk(ev, until);
        if(!t.problem.empty()) c.fail("talk", t.problem);
        for(auto& e : ev) if(e.what == "run-end" && e.at < until) c.fail("ended-early", "the work of '" + printable(e.who) + "' was over before its system was told to stop");
        if(!c.failed()) checkAsks(c, ev, s.asks);
        c.count("messages_said", t.said);
        c.count("deliveries_required", t.required);
        c.count("instances", s.count);
        c.count("requests", s.asks);
        c.sig(mix(c.index, historyHash(ev)));
      };
    auto end = [&](System& s, const std::string& where)
      {
        s.ended = true;
        waitFor(c, [&] { return checkTalk(s.host->read(), (size_t)-1).problem.empty(); }, 4000);
        s.host->stop();
        if(!s.host->join()) { stuck(c, *s.host, where); return false; }
        if(!s.host->escaped.empty()) c.fail("escaped", "running ended with an exception: " + s.host->escaped);
        if(!s.host->lamp->IsStopped()) c.fail("run-state", "a system that has shut down does not say so");
        judge(s);
        s.host->lamp.reset();
        return true;
      };
    // One in three times, one of them is held up while the others do all that they do.
    const bool holding = r.chance(1, 3);
    for(size_t i = 0; i < all.size(); ++i) make(all[i], holding && i == 0);
    if(holding) c.count("held_up");
    perturb((unsigned)r.below(4), r.next());
    if(holding)
    {
      System& s = all[0];
      s.host->start();
      if(!s.host->seen(how == " hold-init" ? "init-begin" : "run-begin", 1)) c.fail("never-started", "a plugin was not even initialized");
    }
    for(auto& s : all) if(!s.host->runner.joinable()) { s.host->start(); if(r.chance(1, 2)) nap((int)r.below(20000)); }
    bool fine = true;
    const std::string when = holding ? "while another system is held up" : "next to another system";
    for(auto& s : all) if(!s.held) whole(s, when);
    open(asking);
    for(auto& s : all) if(!s.held && !c.failed() && !waitFor(c, [&] { return said(s, s.before); }, 10000)) c.fail("held-up", "the plugins of a system do not get on " + when);
    for(auto& s : all)
      if(!s.held && s.askers > 0 && !c.failed() && !s.host->seen("asked-all", s.askers)) c.fail("unanswered", "a plugin that asks others of its system is not answered");
    // A first one ends; the others go on.
    size_t first = holding ? 1 + r.below(all.size() - 1) : r.below(all.size());
    if(!c.failed())
    {
      open(all[first].gate);
      waitFor(c, [&] { return said(all[first], all[first].before + all[first].after); }, 10000);
      nap((int)r.below(4000));
      fine = end(all[first], "first of several");
    }
    for(auto& s : all) if(!s.ended && s.host->lamp->IsStopped()) c.fail("run-state", "a system says that it has stopped when another has");
    // Another one begins.
    if(fine && !c.failed() && r.chance(1, 2))
    {
      make(all[first], false);
      all[first].host->start();
      if(r.chance(3, 4)) { if(all[first].count > 0 && !all[first].host->seen("run-begin", all[first].count)) c.fail("never-started", "the plugins of a system that was made later are not run"); }
      if(all[first].askers > 0 && !all[first].host->seen("asked-all", all[first].askers)) c.fail("unanswered", "a plugin that asks others of its system, which was made later, is not answered");
      open(all[first].gate);
      c.count("made_later");
    }
    for(auto& s : all)
      if(!s.ended && fine && !c.failed())
      {
        open(s.gate);
        if(s.held) { whole(s, "after it was held up"); if(s.askers > 0 && !s.host->seen("asked-all", s.askers)) c.fail("unanswered", "a plugin of a system that was held up is not answered"); }
        if(!waitFor(c, [&] { return said(s, s.before + s.after); }, 10000)) c.fail("held-up", "the plugins of a system do not get on after another has ended");
      }
    nap(3000);
    perturb(0, 0);
    for(auto& s : all) open(s.gate);
    for(auto& s : all) if(!s.ended && fine) fine = end(s, "last of several");
    unsetenv("VF_GATE");
    if(hasEvent(stray, "", 1) || access(stray.c_str(), F_OK) == 0) c.fail("configuration", "a plugin instance without the configuration that was written for it");
    c.count("systems", (uint64_t)serial);
    c.sample(std::to_string(serial) + " systems" + how);
  }

  // ------------------------------------------------------- L02: the loader
  void caseL02(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    setenv("VF_EVENTS", d.name("events").c_str(), 1);
    std::map<std::string, bool> good;   // template identifier -> there
    static const std::pair<const char*, const char*> fine[] = {{"probe_a", "Probe"}, {"probe_x", "X"}, {"probe_x1", "X1"}, {"probe_u", "a/b"}};
    for(auto& p : fine)
    {
      bool there = r.chance(1, 2);
      good[p.second] = there;
      if(there)
      {
        if(r.chance(1, 6)) plugins.link("libplugin_zz." + std::string(p.first) + ".so", plugin(c, p.first));
        else provide(c, plugins, p.first);
      }
      else switch(r.below(8))   // the same code under a name that is no plugin's
      {
        case 0: plugins.link(std::string(p.first) + ".so", plugin(c, p.first)); c.count("foreign_names"); break;
        case 1: plugins.link("libplugin_" + std::string(p.first) + ".so.bak", plugin(c, p.first)); c.count("foreign_names"); break;
        case 2: plugins.link("libplugin_" + std::string(p.first), plugin(c, p.first)); c.count("foreign_names"); break;
        case 3: plugins.link("xlibplugin_" + std::string(p.first) + ".so", plugin(c, p.first)); c.count("foreign_names"); break;
        case 4: plugins.link("libplugin_" + std::string(p.first) + ".SO", plugin(c, p.first)); c.count("foreign_names"); break;
        case 5: case 6:
        {
          static const char* const other[] = {".sox", ".so.1", ".so~", ".aso", ".json", ".s", ".o", "so", ".so_", ".so ", ".dll", ".so.so1", ".xso.x", ".sso"};
          plugins.link("libplugin_" + std::string(p.first) + other[r.below(14)], plugin(c, p.first));
          c.count("foreign_names");
        } break;
        default: break;
      }
    }
    static const char* const hostile[] = {"hostile_noinfo", "hostile_noinstance", "hostile_emptyid", "hostile_nullinfo", "hostile_nullinstance", "hostile_refusing"};
    bool nullInstance = false, refusing = false;
    int bad = 0;
    for(auto n : hostile)
      if(r.chance(1, 2))
      {
        provide(c, plugins, n);
        bad++;
        if(std::string(n) == "hostile_nullinstance") nullInstance = true;
        if(std::string(n) == "hostile_refusing") refusing = true;
      }
    static const char* const junk[] = {"libplugin_.so", "libplugin_text.so", "libplugin_empty.so", "libplugin_0.so", "libplugin_zzz.so"};
    for(auto n : junk)
      if(r.chance(1, 2))
      {
        std::string text;
        size_t len = r.below(400);
        if(r.chance(1, 2)) for(size_t i = 0; i < len; ++i) text += (char)r.below(256);
        if(text.compare(0, 4, "\x7f" "ELF") == 0) text[0] = 0;
        plugins.file(n, text);
        bad++;
      }
    if(r.chance(1, 2)) { plugins.sub("libplugin_directory.so"); bad++; }
    if(r.chance(1, 2)) { plugins.fifo("libplugin_fifo.so"); bad++; }
    if(r.chance(1, 2)) { plugins.link("libplugin_dangling.so", "/nonexistent/nothing"); bad++; }
    if(r.chance(1, 2)) { plugins.link("libplugin_loop.so", plugins.path + "/libplugin_loop.so"); bad++; }

    std::list<std::string> search;
    std::vector<std::string> odd = {plugins.path + "/missing", "", "/proc/self/nonexistent", d.file("a-file", "x"), std::string(3000, 'x')};
    if(r.chance(1, 2)) search.push_back(odd[r.below(odd.size())]);
    bool byMethod = r.chance(1, 2), twice = r.chance(1, 4);
    if(!byMethod) search.push_back(plugins.path);
    if(twice) search.push_back(plugins.path);
    if(r.chance(1, 2)) search.push_back(odd[r.below(odd.size())]);

    std::shared_ptr<Bus> root = std::make_shared<Bus>("root");
    // What is asked for may be held on to beyond the unloading of its template.
    std::vector<std::shared_ptr<PluginInstance>> held;
    unsigned hold = (unsigned)r.below(4);
    {
      PluginManager manager(PluginManagerConfiguration(search, r.chance(1, 2) ? root : nullptr));
      manager.SetBus(root);
      if(byMethod) manager.AddTemplateSearchPath(plugins.path);
      int cycles = 1 + (int)r.below(3);
      std::map<std::string, int> made;
      for(int cycle = 0; cycle < cycles; ++cycle)
      {
        manager.LoadTemplates();
        std::vector<std::string> ask = {"Probe", "X", "X1", "a/b", "", "NoInstance", "NullInstance", "Refusing", "probe_a", "libplugin_probe_a", "Prob", "Probe0", "probe"};
        for(size_t i = ask.size(); i > 1; --i) std::swap(ask[i - 1], ask[r.below(i)]);
        for(auto& id : ask)
        {
          std::shared_ptr<PluginInstance> got;
          std::string outcome;
          try
          {
            PluginConfiguration pc;
            if(r.chance(1, 3)) pc.mBus = root;
            got = manager.InstantiateTemplate(id, pc);
            outcome = got == nullptr ? "none" : "instance";
          }
          catch(lp::exceptions::OperationFailedException&) { outcome = "refused"; }
          std::string want = good.count(id) && good[id] ? "instance" : id == "Refusing" && refusing ? "refused" : "none";
          c.count("requests");
          if(want == "none") c.count("requests_for_nothing");
          if(outcome != want) c.fail("outcome", "asking for template '" + printable(id) + "' gave " + outcome + ", expected " + want + " (null instance library present: " + std::to_string(nullInstance) + ")");
          if(got != nullptr)
          {
            if(got->GetIdentifier().compare(0, id.size(), id) != 0) c.fail("identity", "an instance of '" + id + "' is called '" + got->GetIdentifier() + "'");
            got->Initialize();
            got->Start();
            made[id]++;
            if(r.below(3) < hold) held.push_back(got);
          }
        }
        if(r.chance(1, 3)) manager.UnloadTemplates();
        if(r.chance(1, 3)) manager.UnloadTemplates();
      }
      if(r.chance(1, 2))
      {
        manager.UnloadTemplates();
        PluginConfiguration pc;
        if(manager.InstantiateTemplate("Probe", pc) != nullptr) c.fail("outcome", "an unloaded template was instantiated");
      }
    }
    {
      std::map<std::string, Life> now = lives(readEvents(getenv("VF_EVENTS")));
      for(auto& i : held)
      {
        const Life& l = now[i->GetIdentifier()];
        if(l.n("run-end") != 1 || l.n("deinit-end") != 1) c.fail("held", "an instance that somebody holds on to was not ended when its template was unloaded: '" + i->GetIdentifier() + "'");
        if(l.n("destroy") != 0) c.fail("held", "an instance that somebody holds on to was destroyed: '" + i->GetIdentifier() + "'");
        c.count("instances_held_on_to");
      }
      held.clear();
    }
    std::vector<Event> ev = readEvents(getenv("VF_EVENTS"));
    std::string problem = lifecycleProblem(ev);
    if(!problem.empty()) c.fail("lifecycle", problem + " | events:" + brief(ev));
    c.count("libraries_that_are_none", (uint64_t)bad);
    uint64_t h = historyHash(ev);
    for(auto& g : good) h = mix(h, g.second);
    c.sig(mix(h, (uint64_t)bad));
    c.sample("libraries that are none: " + std::to_string(bad) + "; events:" + brief(ev));
    root.reset();
  }

  // -------------------------------------- L03: identity and own configuration
  bool endsInNumberAfter(const std::string& id, const std::string& type)
  {
    if(id.compare(0, type.size(), type) != 0 || id.size() == type.size()) return false;
    for(size_t i = type.size(); i < id.size(); ++i) if(id[i] < '0' || id[i] > '9') return false;
    return true;
  }

  void caseL03(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    for(auto n : {"probe_a", "probe_x", "probe_x1", "probe_u"}) provide(c, plugins, n);
    std::vector<Tree> entries;
    std::vector<Tree> configs;
    std::vector<std::string> types;
    TreeOpts o;
    o.jsonSafe = true;
    o.depth = 3;
    size_t n = 1 + r.below(14);
    bool collide = r.chance(1, 3);
    if(collide) n = 14;
    for(size_t i = 0; i < n; ++i)
    {
      std::string type = collide ? (i == (size_t)(r.below(2) * 13) || r.chance(1, 8) ? "X1" : "X") : std::vector<std::string>{"Probe", "X", "X1", "a/b"}[r.below(4)];
      Tree conf = r.chance(1, 8) ? Tree::of(EMPTY) : randomTree(r, o);
      if(conf.kind == DICT) { conf.dict.erase("behave"); conf.dict.erase("messages"); conf.dict.erase("chatter"); }
      if(conf.kind == DICT && r.chance(1, 2)) conf.dict["messages"] = Tree::num(1 + (int)r.below(3));
      Tree e = entry(type, conf);
      if(r.chance(1, 5)) { e.dict.erase("configuration"); conf = Tree::of(EMPTY); c.count("entries_without_configuration"); }
      configs.push_back(conf);
      types.push_back(type);
      entries.push_back(e);
    }
    Host h(c, d, {plugins.path}, {d.file("conf.json", document(r, entries))});
    h.start();
    if(!h.seen("run-begin", n)) c.fail("not-made", "of " + std::to_string(n) + " configured instances not all were run");
    nap(3000);
    h.stop();
    if(!h.join()) { stuck(c, h, "identity"); return; }
    if(!h.escaped.empty()) c.fail("escaped", "running ended with an exception: " + h.escaped);
    std::vector<Event> ev = h.read();
    std::set<std::string> ids;
    size_t k = 0;
    for(auto& e : ev)
    {
      if(e.what == "create")
      {
        if(k >= n) { c.fail("surplus", "an instance nobody configured"); break; }
        std::string given = unhex(e.extra[0]), bus = unhex(e.extra[1]);
        if(!ids.insert(e.who).second) c.fail("identity", "two instances are called '" + e.who + "'");
        if(given != e.who || bus != e.who) c.fail("identity", "instance '" + e.who + "' was configured as '" + given + "' on bus '" + bus + "'");
        if(!endsInNumberAfter(e.who, types[k])) c.fail("identity", "instance " + std::to_string(k) + " of template '" + types[k] + "' is called '" + e.who + "'");
        std::string bytes = unhex(e.extra[2]);
        auto raw = std::make_shared<lp::data::RawBytes>((void*)bytes.data(), bytes.size());
        Datagram got = lp::messages::Message::Deserialize(raw).GetDatagram();
        std::string diff = differs(got, configs[k]);
        if(!diff.empty()) c.fail("configuration", "instance '" + e.who + "' got another configuration than the file says: " + diff + " in " + show(configs[k]).substr(0, 300));
        c.count("configurations_compared");
        k++;
      }
      if(e.what == "handle-begin" && e.extra.size() >= 2)
      {
        c.count("attributions_compared");
        if(e.extra[0] != e.extra[1]) c.fail("attribution", "a message of '" + unhex(e.extra[1]) + "' arrived as sent by '" + unhex(e.extra[0]) + "'");
      }
    }
    if(k != n) c.fail("not-made", std::to_string(n) + " instances were configured, " + std::to_string(k) + " made");
    if(collide) c.count("colliding_names");
    c.count("instances", n);
    uint64_t hsh = 3;
    for(auto& t : configs) hsh = mix(hsh, hashTree(t));
    for(auto& t : types) hsh = mix(hsh, hashStr(t));
    c.sig(hsh);
    c.sample(types[0] + " with " + show(configs[0]).substr(0, 300));
    h.lamp.reset();
  }

  // ------------------------------------------------ L04: configuration files
  void caseL04(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    for(auto n : {"probe_a", "probe_x", "hostile_refusing", "hostile_nullinstance"}) provide(c, plugins, n);
    std::vector<std::string> files, expected;
    std::vector<Tree> contents;
    int serial = 0;
    size_t nFiles = r.below(5);
    TreeOpts o;
    o.jsonSafe = true;
    o.depth = 2;
    for(size_t f = 0; f < nFiles; ++f)
    {
      std::string name = "conf" + std::to_string(f) + ".json";
      if(r.chance(1, 3))
      {
        c.count("unusable_files");
        switch(r.below(9))
        {
          case 0: files.push_back(d.path + "/missing-" + name); break;
          case 1: files.push_back(d.sub("dir-" + name)); break;
          case 2: files.push_back(d.file(name, "")); break;
          case 3: { std::string text; size_t n = r.below(3000); for(size_t i = 0; i < n; ++i) text += (char)r.below(256); files.push_back(d.file(name, text)); } break;
          case 4: { Tree t = randomTree(r, o); if(t.kind == DICT) t.dict.erase("plugins"); JsonOut j; emit(r, t, j); files.push_back(d.file(name, j.text)); } break;
          case 5: { Tree t = Tree::of(DICT); t.dict["plugins"] = randomScalar(r, o); JsonOut j; emit(r, t, j); files.push_back(d.file(name, j.text)); } break;
          case 6: { Tree t = Tree::of(DICT); t.dict["plugins"] = Tree::of(DICT); t.dict["plugins"].dict["0"] = entry("Probe", behave("loop")); JsonOut j; emit(r, t, j); files.push_back(d.file(name, j.text)); } break;
          case 7: { std::string text = document(r, {entry("Probe", behave("loop"))}); size_t e = text.rfind('}'); files.push_back(d.file(name, text.substr(0, r.below(e + 1)))); } break;
          default: files.push_back(r.chance(1, 2) ? "" : "/proc/self/mem"); break;
        }
        continue;
      }
      std::vector<Tree> entries;
      size_t n = r.below(7);
      if(r.chance(1, 12)) n = 30;
      for(size_t i = 0; i < n; ++i)
      {
        if(r.chance(1, 2))
        {
          Tree conf = behave("loop");
          conf.dict["serial"] = Tree::num(serial);
          Tree content = randomTree(r, o);
          if(r.chance(1, 2))
          {
            static const char* const touchy[] = {"two  blanks", "a\tb", " ahead", "behind ", "line\nline\r\n", "// no comment", "/* nor */ this", "# neither", "trailing, ]", "{\"type\": \"Probe\"}",
              "back\\slash\\\\", "quo\"te", "$HOME ${HOME} %PATH%", "~/x", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x92\xa1", "true", "null", "1e3", "  ", "\t\t\n"};
            content = Tree::of(DICT);
            for(int k = 1 + (int)r.below(4); k > 0; --k) content.dict[touchy[r.below(20)]] = Tree::str(std::string(touchy[r.below(20)]) + (r.chance(1, 3) ? touchy[r.below(20)] : ""));
            c.count("touchy_strings");
          }
          conf.dict["content"] = content;
          contents.push_back(content);
          Tree e = entry(r.chance(1, 2) ? "Probe" : "X", conf);
          if(r.chance(1, 4)) e.dict["surplus"] = randomTree(r, o);
          if(r.chance(1, 60)) { e.dict["surplus"] = Tree::str(std::string(3000 + r.below(r.chance(1, 3) ? 2000000 : 100000), 's')); c.count("big_entries"); }
          entries.push_back(e);
          expected.push_back(std::to_string(serial++));
          continue;
        }
        c.count("malformed_entries");
        Tree e = entry("Probe", behave("loop"));
        switch(r.below(9))
        {
          case 0: e = randomScalar(r, o); break;
          case 1: e = Tree::of(LIST); e.list.push_back(Tree::str("type")); break;
          case 2: e.dict.erase("type"); break;
          case 3: e.dict["type"] = Tree::of(r.chance(1, 2) ? LIST : DICT); break;
          case 4: e.dict["type"] = r.chance(1, 2) ? Tree::num(7) : r.chance(1, 2) ? Tree::boolean(true) : Tree::of(EMPTY); break;
          case 5: e.dict["type"] = Tree::str("Unknown" + randomUtf8(r, r.below(5))); break;
          case 6: e.dict["type"] = Tree::str(""); break;
          case 7: e.dict["type"] = Tree::str(r.chance(1, 2) ? "Refusing" : "NullInstance"); break;
          default:   // good, but without any configuration
            e.dict.erase("configuration");
            expected.push_back("none");
            contents.push_back(Tree::of(EMPTY));
            break;
        }
        entries.push_back(e);
      }
      std::string text = document(r, entries);
      if(r.chance(1, 15)) text += std::string(300000, ' ');
      if(r.chance(1, 15)) text = std::string(1000 + r.below(300000), r.chance(1, 2) ? ' ' : '\n') + text;
      c.maxOf("bytes_of_a_file", text.size());
      files.push_back(d.file(name, text));
      // the same file may be named twice
    }
    Host h(c, d, {plugins.path}, files);
    h.start();
    if(!h.seen("run-begin", expected.size())) c.fail("not-made", "only some of the " + std::to_string(expected.size()) + " well-formed entries were instantiated" + (h.escaped.empty() ? "" : "; escaped: " + h.escaped));
    nap(1000);
    h.stop();
    if(!h.join()) { stuck(c, h, "configuration"); return; }
    if(!h.escaped.empty()) c.fail("escaped", "running ended with an exception: " + h.escaped);
    std::vector<Event> ev = h.read();
    std::vector<std::string> got;
    for(auto& e : ev)
      if(e.what == "create")
      {
        std::string bytes = unhex(e.extra[2]);
        auto raw = std::make_shared<lp::data::RawBytes>((void*)bytes.data(), bytes.size());
        Datagram conf = lp::messages::Message::Deserialize(raw).GetDatagram();
        int s = conf.Get<int>("serial", -1);
        got.push_back(s < 0 ? "none" : std::to_string(s));
        if(s >= 0 && got.size() <= contents.size())
        {
          Datagram content = conf["content"];
          std::string diff = differs(content, contents[got.size() - 1]);
          if(!diff.empty() && got.back() == expected[got.size() - 1]) c.fail("content", "an instance got another configuration than the file says: " + diff);
          c.count("contents_compared");
        }
      }
    if(got != expected)
    {
      std::string a, b;
      for(auto& s : got) a += " " + s;
      for(auto& s : expected) b += " " + s;
      c.fail("entries", "instances made:" + a + "; configured:" + b);
    }
    c.count("files", files.size());
    c.count("wellformed_entries", expected.size());
    uint64_t hsh = historyHash(ev);
    for(auto& s : expected) hsh = mix(hsh, hashStr(s));
    c.sig(mix(hsh, files.size()));
    c.sample(std::to_string(files.size()) + " files, " + std::to_string(expected.size()) + " well-formed entries; events:" + brief(ev));
    h.lamp.reset();
  }

  // ------------------------------------------------------ L06: stopped, truly
  void caseL06(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    provide(c, plugins, "probe_a");
    std::vector<Tree> entries;
    size_t n = r.below(4);
    static const char* const behaviours[] = {"loop", "slow-stop", "slow-deinit", "untidy", "return", "quit"};
    for(size_t i = 0; i < n; ++i) entries.push_back(entry("Probe", behave(behaviours[r.below(6)])));
    Host h(c, d, {plugins.path}, {d.file("conf.json", document(r, entries))});
    c.require(!h.lamp->IsStopped(), "early", "a system that was never started says that it has stopped");
    std::atomic<bool> over(false), told(false);
    std::atomic<uint64_t> polls(0), stops(0);
    std::vector<std::thread> watchers;
    unsigned level = (unsigned)r.below(3);
    for(int i = 0; i < 2; ++i)
      watchers.emplace_back([&]
        {
          bool was = false;
          while(!over)
          {
            bool stopped = h.lamp->IsStopped();
            if(stopped && !was && !hasEvent(h.events, "destroy", n)) c.fail("early", "the system says that it has stopped before its plugins are gone");
            if(!stopped && was) c.fail("taken-back", "the system says that it has stopped, then that it has not");
            was = stopped;
            polls++;
            nap(20);
          }
        });
    perturb(level, r.next());
    bool early = r.chance(1, 3);
    h.start();
    if(!early) h.seen("run-begin", n);
    nap((int)r.below(8000));
    if(h.lamp->IsStopped()) c.fail("early", "a running system says that it has stopped");
    // told to stop again and again, until long after it has
    if(r.chance(1, 2))
      watchers.emplace_back([&]
        {
          bool last = false;
          while(!last)
          {
            last = over;
            if(told) { h.lamp->Stop(); stops++; }
            nap(30);
          }
        });
    h.note("host-stop");
    told = true;
    h.lamp->Stop();
    perturb(0, 0);
    bool joined = h.join();
    if(joined && r.chance(1, 2)) { h.lamp->Stop(); stops++; nap(200); }
    if(joined && !waitFor(c, [&] { return h.lamp->IsStopped(); }, 0)) c.fail("never", "a system that has shut down does not say so");
    over = true;
    for(auto& t : watchers) t.join();
    if(!joined) { stuck(c, h, "stopped"); return; }
    c.count("polls", polls);
    c.count("further_stop_requests", stops);
    c.count("instances", n);
    c.count(early ? "stopped_during_startup" : "stopped_while_running");
    c.sig(mix(historyHash(h.read()), n * 8 + level));
    c.sample(std::to_string(polls) + " polls; events:" + brief(h.read()));
    h.lamp.reset();
  }

  // ------------------------------------------------------------ U02: log lines
  void caseU02(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    Dir plugins(c, "plugins");
    provide(c, plugins, "probe_a");
    provide(c, plugins, "probe_x");
    std::vector<Tree> entries;
    size_t n = r.below(4);
    int per = 20 + (int)r.below(60);
    for(size_t i = 0; i < n; ++i) entries.push_back(entry(r.chance(1, 2) ? "Probe" : "X", behave("loop", 0, per)));
    std::string out = d.name("stdout");
    fflush(stdout);
    std::cout.flush();
    int saved = dup(1);
    bool pipe = false;
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    close(fd);
    (void)pipe;
    Host h(c, d, {plugins.path}, {d.file("conf.json", document(r, entries))});
    perturb((unsigned)r.below(6), r.next());
    h.start();
    size_t threads = 1 + r.below(4), byteLines = 0;
    std::vector<std::thread> ts;
    std::map<std::string, size_t> expected;
    std::vector<std::string> blocks;      // messages of several lines: these have to stay together
    for(size_t t = 0; t < threads; ++t)
    {
      Rng q = r.fork();
      std::vector<std::pair<int, std::string>> lines;
      std::string prefix = "writer" + std::to_string(t % 3);
      for(int i = 0; i < per; ++i)
      {
        std::string text = "t" + std::to_string(t) + " " + std::to_string(i) + " ";
        if(q.chance(1, 3))
        {
          // any bytes but those that end a line
          for(size_t len = q.below(60); len > 0; --len) { char b = (char)q.below(q.chance(1, 2) ? 256 : 32); text += b == '\n' ? '%' : b; }
          if(q.chance(1, 3)) text += q.chance(1, 2) ? "%s %n %d" : "\x1b[0m {} \\n";
          byteLines++;
        }
        else text += std::string(q.below(q.chance(1, 10) ? 6000 : 120), (char)('A' + q.below(26)));
        int indent = (int)q.below(4);
        if(q.chance(1, 15))
        {
          for(int k = 1 + (int)q.below(3); k > 0; --k) text += "\n" + std::string(q.below(30), (char)('a' + q.below(26)));
          lines.push_back({indent, text});
          blocks.push_back("[" + prefix + "] " + std::string(2 * (size_t)indent, ' ') + text + "\n");
          continue;
        }
        lines.push_back({indent, text});
        expected["[" + prefix + "] " + std::string(2 * (size_t)indent, ' ') + text]++;
      }
      ts.emplace_back([lines, prefix]
        {
          lp::log::Log log(prefix);
          int i = 0;
          for(auto& l : lines)
            switch(i++ % 3)
            {
              case 0: log.Info(l.second, l.first); break;
              case 1: log.Warning(l.second, l.first); break;
              default: log.Error(l.second, l.first); break;
            }
        });
    }
    for(auto& t : ts) t.join();
    {
      // A line is out when the call that wrote it has returned: nothing that happens later can lose it.
      std::ifstream f(out);
      std::string line;
      std::map<std::string, size_t> now;
      while(std::getline(f, line)) now[line]++;
      for(auto& e : expected)
      {
        c.count("lines_out_at_once");
        if(now[e.first] < e.second) { c.fail("late", "the line '" + printable(e.first, 120) + "' was not out yet when writing it had returned: a program ended now would have lost it"); break; }
      }
    }
    h.seen("run-begin", n);
    waitFor(c, [&] { return hasEvent(h.events, "run-begin", n); }, 1000);
    nap(2000);
    perturb(0, 0);
    waitFor(c, [&]
      {
        // the plugins have said everything
        struct stat st;
        static off_t last = -1;
        if(stat(out.c_str(), &st) != 0) return true;
        bool still = st.st_size == last;
        last = st.st_size;
        if(!still) nap(20000);
        return still;
      }, 5000);
    h.stop();
    bool joined = h.join();
    std::cout.flush();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    if(!joined) { stuck(c, h, "logging"); return; }
    for(auto& e : h.read())
      if(e.what == "chattered")
        for(int said = 0; said < std::stoi(e.extra[0]); ++said)
        {
          std::string text = "chatter " + std::to_string(said) + " " + std::string(10 + (size_t)(said * 7) % 90, 'a' + said % 26);
          int indent = said % 3 == 0 ? said % 4 : said % 3 == 1 ? 0 : 1;
          expected["[" + e.who + "] " + std::string(2 * (size_t)indent, ' ') + text]++;
        }
    std::stringstream f;
    { std::ifstream all(out); f << all.rdbuf(); }
    std::string line;
    std::map<std::string, size_t> got;
    size_t lines = 0;
    if(!blocks.empty())
    {
      std::string content = f.str();
      for(auto& b : blocks)
      {
        size_t at = content.find(b);
        if(at == std::string::npos || (at > 0 && content[at - 1] != '\n')) { c.fail("lost", "a message of several lines was not written, or not in one piece: '" + printable(b, 200) + "'"); continue; }
        content.erase(at, b.size());
        if(content.find(b.substr(0, b.find('\n') + 1)) != std::string::npos) c.fail("repeated", "a message of several lines was written more than once: '" + printable(b, 200) + "'");
        c.count("messages_of_several_lines");
      }
      f.str(content);
    }
    while(std::getline(f, line))
    {
      lines++;
      auto it = expected.find(line);
      if(it != expected.end()) { got[line]++; continue; }
      // the system's own lines are not known here, but what must not be in them is
      size_t brackets = 0, at = 0;
      while((at = line.find("] ", at)) != std::string::npos) { brackets++; at++; }
      if(line.empty() || line[0] != '[' || line.find("writer") != std::string::npos || line.find("chatter ") != std::string::npos)
        c.fail("torn", "a line that nobody wrote: '" + printable(line, 300) + "'");
    }
    for(auto& e : expected)
      if(got[e.first] != e.second) c.fail("lost", "the line '" + printable(e.first, 120) + "' was written " + std::to_string(e.second) + " times, and found " + std::to_string(got[e.first]) + " times");
    c.count("lines", lines);
    c.count("own_lines_checked", expected.size());
    c.count("lines_of_any_bytes", byteLines);
    if(n > 0) c.count("with_plugins");
    if(!expected.empty()) c.sample(printable(expected.begin()->first, 100));
    uint64_t hsh = threads * 131 + n;
    for(auto& e : expected) hsh = mix(hsh, hashStr(e.first));
    c.sig(hsh);
    h.lamp.reset();
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"L01", caseL01}, {"L02", caseL02}, {"L03", caseL03}, {"L04", caseL04}, {"L06", caseL06}, {"L07", caseL07}, {"L08", caseL08}, {"L09", caseL09}, {"U02", caseU02}});
}
