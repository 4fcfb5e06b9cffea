// L05, L08: the program itself, as a process, under signals. Deciding monitors:
// exit status, the sanitizer built into the process, and an offline checker over
// the events its probe plugins wrote down.
#include "events.h"
#include "json_out.h"
#include "tree.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;

namespace
{
  struct Dir
  {
    std::string path;
    std::vector<std::string> made, dirs;
    explicit Dir(Case& c)
    {
      static int n = 0;
      path = c.scratch + "/case" + std::to_string(n++);
      mkdir(path.c_str(), 0755);
    }
    ~Dir()
    {
      for(auto& f : made) unlink(f.c_str());
      for(auto it = dirs.rbegin(); it != dirs.rend(); ++it) rmdir(it->c_str());
      rmdir(path.c_str());
    }
    std::string file(const std::string& name, const std::string& text)
    {
      std::string p = this->name(name);
      std::ofstream f(p, std::ios::binary);
      f << text;
      return p;
    }
    std::string name(const std::string& n) { std::string p = path + "/" + n; made.push_back(p); return p; }
    void link(const std::string& n, const std::string& target)
    {
      if(symlink(target.c_str(), name(n).c_str()) != 0) { perror(n.c_str()); _exit(3); }
    }
    void sub(const std::string& n) { std::string p = path + "/" + n; mkdir(p.c_str(), 0755); dirs.push_back(p); }
  };

  std::string binary(Case& c, const std::string& name)
  {
    std::string p = c.config("bin." + name);
    if(p.empty() || access(p.c_str(), R_OK) != 0) { fprintf(stderr, "%s is not built\n", name.c_str()); _exit(3); }
    return p;
  }

  struct Process
  {
    pid_t pid = -1;
    int out = -1;          // read end, when piped
    int status = 0;
    bool ended = false;
    std::string errFile, outFile;

    void start(Case& c, Dir& d, const std::vector<std::string>& args, bool piped, const std::string& events, const std::string& perturbation)
    {
      std::string exe = binary(c, "lamppost-bin");
      errFile = d.name("stderr");
      outFile = d.name("stdout");
      int p[2] = {-1, -1};
      if(piped)
      {
        if(pipe2(p, O_CLOEXEC) != 0) { perror("pipe"); _exit(3); }
        fcntl(p[1], F_SETPIPE_SZ, 4096);
        out = p[0];
      }
      std::vector<char*> argv;
      argv.push_back(const_cast<char*>(exe.c_str()));
      for(auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
      argv.push_back(nullptr);
      std::vector<std::string> env;
      for(char** e = environ; *e; ++e)
        if(strncmp(*e, "VF_EVENTS=", 10) != 0 && strncmp(*e, "VF_PERTURB=", 11) != 0) env.push_back(*e);
      env.push_back("VF_EVENTS=" + events);
      env.push_back("VF_PERTURB=" + perturbation);
      std::vector<char*> envp;
      for(auto& e : env) envp.push_back(const_cast<char*>(e.c_str()));
      envp.push_back(nullptr);
      int err = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
      int o = piped ? p[1] : open(outFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
      pid = fork();
      if(pid == 0)
      {
        if(chdir(d.path.c_str()) != 0) _exit(125);
        dup2(o, 1);
        dup2(err, 2);
        execve(exe.c_str(), argv.data(), envp.data());
        _exit(126);
      }
      close(err);
      close(o);
      if(pid < 0) { perror("fork"); _exit(3); }
    }
    bool over()
    {
      if(!ended && waitpid(pid, &status, WNOHANG) == pid) ended = true;
      return ended;
    }
    bool catches(int sig)
    {
      std::ifstream f("/proc/" + std::to_string(pid) + "/status");
      std::string line;
      while(std::getline(f, line))
        if(line.compare(0, 7, "SigCgt:") == 0)
          return (strtoull(line.c_str() + 7, nullptr, 16) >> (sig - 1)) & 1;
      return false;
    }
    // Its threads that accept the signal: those that block it (of ZeroMQ and of the
    // sanitizers) would never take one directed at them.
    std::vector<pid_t> threads(int sig)
    {
      std::vector<pid_t> v;
      std::string dir = "/proc/" + std::to_string(pid) + "/task";
      DIR* dd = opendir(dir.c_str());
      if(dd == nullptr) return v;
      while(dirent* e = readdir(dd))
      {
        if(e->d_name[0] == '.') continue;
        std::ifstream f(dir + "/" + e->d_name + "/status");
        std::string line;
        bool accepts = false;
        while(std::getline(f, line))
          if(line.compare(0, 7, "SigBlk:") == 0)
            accepts = !((strtoull(line.c_str() + 7, nullptr, 16) >> (sig - 1)) & 1);
        if(accepts) v.push_back((pid_t)atol(e->d_name));
      }
      closedir(dd);
      return v;
    }
    // Processor time used by it so far, and whether it waits for anything but time.
    uint64_t used()
    {
      std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
      std::string line;
      std::getline(f, line);
      size_t at = line.rfind(')');
      if(at == std::string::npos) return 0;
      std::istringstream s(line.substr(at + 2));
      std::string x;
      uint64_t ut = 0, st = 0;
      for(int i = 3; i <= 13; ++i) s >> x;
      s >> ut >> st;
      return ut + st;
    }
    void drain()
    {
      if(out < 0) return;
      char buf[65536];
      for(;;)
      {
        int n = 0;
        if(ioctl(out, FIONREAD, &n) != 0 || n == 0) return;
        if(read(out, buf, sizeof buf) <= 0) return;
      }
    }
    ~Process()
    {
      if(pid > 0 && !ended) { kill(pid, SIGKILL); waitpid(pid, &status, 0); }
      if(out >= 0) close(out);
    }
    std::string errors()
    {
      std::ifstream f(errFile);
      std::stringstream s;
      s << f.rdbuf();
      return s.str();
    }
  };

  Tree entry(const std::string& type, const Tree& config)
  {
    Tree t = Tree::of(DICT);
    t.dict["type"] = Tree::str(type);
    t.dict["configuration"] = config;
    return t;
  }
  Tree behave(const std::string& how, int messages = 0, int chatter = 0)
  {
    Tree t = Tree::of(DICT);
    t.dict["behave"] = Tree::str(how);
    if(messages) t.dict["messages"] = Tree::num(messages);
    if(chatter) t.dict["chatter"] = Tree::num(chatter);
    return t;
  }

  void caseL05(Case& c)
  {
    Rng& r = c.rng;
    Dir d(c);
    d.sub("lib");
    // plugins from the working directory and from its lib directory
    d.link(r.chance(1, 2) ? "libplugin_probe_a.so" : "lib/libplugin_probe_a.so", binary(c, "libplugin_probe_a.so"));
    d.link(r.chance(1, 2) ? "libplugin_probe_x.so" : "lib/libplugin_probe_x.so", binary(c, "libplugin_probe_x.so"));
    bool shipped = r.chance(1, 3);
    if(shipped)
    {
      d.link(r.chance(1, 2) ? "libplugin_link.so" : "lib/libplugin_link.so", binary(c, "libplugin_link.so"));
      d.link(r.chance(1, 2) ? "libplugin_sysinfo.so" : "lib/libplugin_sysinfo.so", binary(c, "libplugin_sysinfo.so"));
    }
    bool blocked = r.chance(1, 3);
    int mode = (int)r.below(3);   // 0: during startup, 1: when running, 2: when running for a while
    static const char* const behaviours[] = {"loop", "return", "slow-stop", "last-words", "untidy", "slow-init", "fail-init", "quit"};
    std::vector<Tree> entries;
    size_t n = r.below(5), running = 0;
    for(size_t i = 0; i < n; ++i)
    {
      std::string b = behaviours[r.below(8)];
      entries.push_back(entry(r.chance(1, 2) ? "Probe" : "X", behave(b, b == "return" || b == "quit" ? 0 : (int)r.below(4), r.chance(1, 4) ? 200 : 0)));
      if(b != "fail-init") running++;
    }
    if(shipped)
    {
      if(r.chance(2, 3)) entries.push_back(entry("Link", Tree::of(DICT)));
      if(r.chance(2, 3)) { Tree t = Tree::of(DICT); t.dict["send-datagram"] = Tree::boolean(r.chance(1, 2)); entries.push_back(entry("SysInfo", t)); }
    }
    // much to log while starting up: unknown plugins
    size_t unknown = blocked || r.chance(1, 3) ? 60 : 0;
    for(size_t i = 0; i < unknown; ++i) entries.insert(entries.begin() + (ptrdiff_t)r.below(entries.size() + 1), entry("Unknown" + std::to_string(i), Tree::of(DICT)));
    std::vector<std::string> args;
    bool configured = r.chance(9, 10) || blocked;
    if(configured)
    {
      Tree t = Tree::of(DICT);
      t.dict["plugins"] = Tree::of(LIST);
      t.dict["plugins"].list = entries;
      JsonOut j;
      emit(r, t, j);
      d.file("conf.json", j.text);
      args.push_back("conf.json");
    }
    else { running = 0; if(r.chance(1, 2)) args.push_back("missing.json"); }
    std::string events = d.name("events");
    Process p;
    p.start(c, d, args, blocked, events, std::to_string(r.below(3)) + std::to_string(r.below(1000000)));

    auto ready = [&] { if(blocked && mode != 0) p.drain(); return p.over() || (p.catches(SIGTERM) && p.catches(SIGINT)); };
    std::string where = std::string(blocked ? "standard output blocked, " : "") + (mode == 0 ? "while starting up" : "while running");
    auto broken = [&](const std::string& key, const std::string& what)
      {
        std::string err = p.errors();
        c.fail(key, what + " (" + where + ")" + (err.empty() ? "" : " | its standard error: " + err.substr(0, 3000)));
      };
    if(!waitFor(c, ready, 30000)) { broken("startup", "the program does not get to handle signals"); return; }
    if(!p.over() && mode != 0)
    {
      if(!waitFor(c, [&] { if(blocked) p.drain(); return p.over() || running == 0 || hasEvent(events, "run-begin", running); }, 30000)) { broken("startup", "the plugins are not started"); return; }
      if(mode == 2) { auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(r.below(60)); while(std::chrono::steady_clock::now() < until) { if(blocked) p.drain(); nap(500); } }
    }
    if(p.over())
    {
      if(p.errors().empty()) broken("ended", "the program ended by itself, with status " + std::to_string(p.status));
      else broken("crash", "the program ended by itself, with status " + std::to_string(p.status));
      return;
    }
    if(blocked)
    {
      // until something stands still writing to standard output
      int full = 0, last = -1;
      for(int i = 0; i < 200 && full < 8; ++i)
      {
        int k = 0;
        ioctl(p.out, FIONREAD, &k);
        full = k == last && k > 3000 ? full + 1 : 0;
        last = k;
        nap(1000);
      }
      if(full >= 8) c.count("signals_while_output_is_blocked");
    }
    else if(mode == 0) nap((int)r.below(20000));
    static const int sigs[] = {SIGTERM, SIGINT};
    int number = r.chance(1, 2) ? 1 : r.chance(1, 2) ? 2 : 20;
    for(int i = 0; i < number && !p.over(); ++i)
    {
      int sig = sigs[r.below(2)];
      if(r.chance(1, 2)) kill(p.pid, sig);
      else
      {
        std::vector<pid_t> ts = p.threads(sig);
        pid_t t = ts.empty() || r.chance(1, 2) ? p.pid : ts[r.below(ts.size())];
        syscall(SYS_tgkill, p.pid, t, sig);
      }
      c.count("signals");
      if(number > 1) nap((int)r.below(2000));
    }
    // From here on it must end, as long as its output is read.
    uint64_t used = p.used();
    bool gone = waitFor(c, [&]
      {
        p.drain();
        uint64_t now = p.used();
        if(now / 20 != used / 20) { used = now; }   // busy is not progress by itself, but starved is not stuck
        return p.over();
      }, 15000);
    if(!gone) { broken("stuck", "the program does not end although it was told to by a signal"); return; }
    c.count("processes");
    if(mode == 0) c.count("signalled_during_startup");
    if(shipped) c.count("with_shipped_plugins");
    if(!WIFEXITED(p.status) || WEXITSTATUS(p.status) != 0)
      broken("status", "the program ended with " + (WIFEXITED(p.status) ? "status " + std::to_string(WEXITSTATUS(p.status)) : "signal " + std::to_string(WTERMSIG(p.status))));
    std::vector<Event> ev = readEvents(events);
    std::string problem = lifecycleProblem(ev);
    if(!problem.empty()) broken("lifecycle", problem);
    size_t made = lives(ev).size();
    if(configured && made != n) broken("lifecycle", "of " + std::to_string(n) + " plugin instances " + std::to_string(made) + " were made");
    c.count("instances", made);
    uint64_t h = (uint64_t)(mode * 8 + blocked * 4 + shipped * 2 + (number > 1));
    for(auto& e : ev) h = mix(mix(h, hashStr(e.who)), hashStr(e.what));
    c.sig(h);
    c.sample(where + ": " + std::to_string(number) + " signals, " + std::to_string(made) + " instances, " + std::to_string(ev.size()) + " events");
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"L05", caseL05}});
}
