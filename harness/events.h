// The event log the probe plugins write (see plugins/probe.h), read back.
#ifndef VF_EVENTS_H
#define VF_EVENTS_H

#include <fstream>

#include "common.h"

namespace vf
{
  struct Event
  {
    size_t at = 0;
    std::string who, what;
    long tid = 0;
    std::vector<std::string> extra;
  };

  inline std::string unhex(const std::string& s)
  {
    std::string r;
    if(s == "-") return r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return r;
  }

  inline std::vector<Event> readEvents(const std::string& path)
  {
    std::vector<Event> out;
    std::ifstream f(path);
    std::string line;
    while(std::getline(f, line))
    {
      std::istringstream s(line);
      Event e;
      std::string who, x;
      s >> who >> e.what >> e.tid;
      e.who = unhex(who);
      while(s >> x) e.extra.push_back(x);
      e.at = out.size();
      out.push_back(e);
    }
    return out;
  }

  inline bool hasEvent(const std::string& path, const std::string& what, size_t times)
  {
    std::ifstream f(path);
    std::string line;
    size_t n = 0;
    while(std::getline(f, line)) if(line.find(" " + what + " ") != std::string::npos) n++;
    return n >= times;
  }

  struct Life
  {
    std::map<std::string, std::vector<size_t>> at;    // event -> positions
    std::map<std::string, std::vector<long>> tid;
    size_t n(const std::string& w) const { auto i = at.find(w); return i == at.end() ? 0 : i->second.size(); }
    size_t first(const std::string& w) const { auto i = at.find(w); return i == at.end() ? (size_t)-1 : i->second.front(); }
    size_t last(const std::string& w) const { auto i = at.find(w); return i == at.end() ? 0 : i->second.back(); }
  };

  inline std::map<std::string, Life> lives(const std::vector<Event>& events)
  {
    std::map<std::string, Life> m;
    for(auto& e : events) { m[e.who].at[e.what].push_back(e.at); m[e.who].tid[e.what].push_back(e.tid); }
    return m;
  }

  // What the system owes every plugin instance. `failed`: instances whose
  // Initialize refused. Empty when all is well.
  inline std::string lifecycleProblem(const std::vector<Event>& events, bool ended = true)
  {
    for(auto& p : lives(events))
    {
      const std::string& id = p.first;
      const Life& l = p.second;
      std::string who = "instance '" + printable(id) + "': ";
      bool failedInit = l.n("init-failed") > 0;
      if(l.n("create") != 1) return who + "created " + std::to_string(l.n("create")) + " times";
      if(l.n("init-begin") > 1) return who + "initialized twice";
      if(l.n("run-begin") > 1) return who + "run twice";
      if(l.n("deinit-begin") > 1) return who + "deinitialized twice";
      if(l.n("destroy") > 1) return who + "destroyed twice";
      if(ended)
      {
        if(l.n("init-begin") != 1) return who + "never initialized";
        if(!failedInit && l.n("init-end") != 1) return who + "initialization did not end";
        if(!failedInit && l.n("run-begin") != 1) return who + "never run";
        if(l.n("run-begin") != l.n("run-end")) return who + "its work did not end";
        if(l.n("deinit-begin") != 1 || l.n("deinit-end") != 1) return who + "not deinitialized";
        if(l.n("destroy") != 1) return who + "not destroyed";
      }
      if(failedInit && l.n("run-begin") > 0) return who + "run although its initialization failed";
      auto order = [&](const char* a, const char* b) { return l.n(a) == 0 || l.n(b) == 0 || l.last(a) < l.first(b); };
      static const char* const chain[] = {"create", "init-begin", "init-end", "run-begin", "run-end", "deinit-begin", "deinit-end", "destroy"};
      for(int i = 0; i < 8; ++i)
        for(int j = i + 1; j < 8; ++j)
          if(!order(chain[i], chain[j])) return who + chain[j] + " before " + chain[i];
      if(!order("handle-end", "deinit-begin") || !order("handle-begin", "deinit-begin")) return who + "a handler ran after its deinitialization began";
      if(l.n("handle-begin") > 0 && l.first("handle-begin") < l.first("init-begin")) return who + "a handler ran before its initialization";
      if(l.n("run-begin") && l.n("init-begin") && l.tid.at("run-begin")[0] == l.tid.at("init-begin")[0]) return who + "run on the thread that initialized it";
      if(l.n("deinit-begin") && l.n("init-begin") && l.tid.at("deinit-begin")[0] != l.tid.at("init-begin")[0]) return who + "deinitialized on another thread than it was initialized on";
      for(size_t i = 0; l.n("handle-begin") && i < l.tid.at("handle-begin").size(); ++i)
        if(l.tid.at("handle-begin")[i] != l.tid.at("init-begin")[0]) return who + "a handler ran on another thread than the one that runs the bus";
    }
    return "";
  }

  // Every message said by one probe reaches every probe that listened from
  // before until the end of the run, exactly once, attributed. Messages said
  // after `until` (position of the stop request) may be lost.
  struct Talk { size_t said = 0, required = 0, heard = 0; std::string problem; };
  inline Talk checkTalk(const std::vector<Event>& events, size_t until)
  {
    Talk t;
    auto all = lives(events);
    std::map<std::pair<std::string, int>, std::pair<size_t, size_t>> said;
    for(auto& e : events)
    {
      if(e.extra.empty()) continue;
      if(e.what == "publish-begin") { said[{e.who, std::stoi(e.extra[0])}] = {e.at, (size_t)-1}; t.said++; }
      if(e.what == "publish-end") said[{e.who, std::stoi(e.extra[0])}].second = e.at;
    }
    std::map<std::string, std::map<std::pair<std::string, int>, size_t>> heard;
    for(auto& e : events)
    {
      if(e.what != "handle-begin" || e.extra.size() < 3) continue;
      std::string sender = unhex(e.extra[0]), from = unhex(e.extra[1]);
      int n = std::stoi(e.extra[2]);
      t.heard++;
      if(sender != from) { t.problem = "a message of '" + from + "' is attributed to '" + sender + "'"; return t; }
      auto it = said.find({from, n});
      if(it == said.end()) { t.problem = "a handler was given a message nobody published"; return t; }
      if(e.at < it->second.first) { t.problem = "a message was delivered before it was published"; return t; }
      if(++heard[e.who][{from, n}] > 1) { t.problem = "'" + e.who + "' was given message " + std::to_string(n) + " of '" + from + "' twice"; return t; }
    }
    for(auto& s : said)
    {
      if(s.second.second > until) continue;
      for(auto& p : all)
      {
        if(p.second.n("init-end") == 0 || p.second.first("init-end") > s.second.first) continue;
        t.required++;
        if(heard[p.first][s.first] == 0 && t.problem.empty())
          t.problem = "message " + std::to_string(s.first.second) + " of '" + s.first.first + "' did not reach '" + p.first + "'";
      }
    }
    return t;
  }
}

#endif
