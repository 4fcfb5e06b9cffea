// U01, U03: file system helpers against the file system itself, and configurations
// against a model of what they are made of. Deciding monitors: differential oracles.
#include "common.h"

#include <algorithm>
#include <list>

#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <grp.h>
#include <sys/wait.h>
#include <unistd.h>

#include <lamppost/Filesystem.h>
#include <lamppost/LampPostConfiguration.h>

using namespace vf;
using lp::Filesystem;
using lp::FilesystemObjectType;

namespace { std::atomic<bool> gReadlinkFails(false); std::atomic<int> gReadlinkCalls(0); std::string gReadlinkSays; }

// A system where /proc cannot be read: a fault put in place of the call.
extern "C" ssize_t readlink(const char* path, char* buf, size_t size) noexcept
{
  gReadlinkCalls++;
  if(gReadlinkFails) { errno = EACCES; return -1; }
  if(!gReadlinkSays.empty() && strlen(path) >= 4 && strcmp(path + strlen(path) - 4, "/exe") == 0)
  {
    size_t n = std::min(size, gReadlinkSays.size());
    memcpy(buf, gReadlinkSays.data(), n);
    return (ssize_t)n;
  }
  typedef ssize_t (*Fn)(const char*, char*, size_t);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "readlink"));
  return real(path, buf, size);
}
extern "C" ssize_t __readlink_chk(const char* path, char* buf, size_t size, size_t) noexcept { return readlink(path, buf, size); }

namespace
{
  struct Model { bool exists = false, file = false, directory = false; };

  std::string nameOf(Rng& r)
  {
    static const char* const fixed[] = {"a", "b.txt", ".hidden", "..double", "x.so", "libplugin_x.so", "with space", "dots.in.name", "end.", "-", "~", "\xc3\xa4", "*", "new\nline", "back\\slash", "...", ".x.y"};
    if(r.chance(3, 4)) return fixed[r.below(17)];
    std::string s;
    size_t n = 1 + r.below(r.chance(1, 10) ? 250 : 12);
    for(size_t i = 0; i < n; ++i) { char ch = (char)(1 + r.below(255)); s += ch == '/' ? '_' : ch; }
    if(s == "." || s == "..") s += "x";
    return s;
  }

  void remove(const std::string& p, const std::vector<std::string>& made)
  {
    for(auto it = made.rbegin(); it != made.rend(); ++it) if(unlink(it->c_str()) != 0) rmdir(it->c_str());
    rmdir(p.c_str());
  }

  void paths(Case& c, Rng& r)
  {
    for(int i = 0; i < 40; ++i)
    {
      // a directory, and a name in it: taken apart again
      std::string dir, name = nameOf(r);
      size_t depth = r.below(4);
      if(r.chance(1, 2)) dir = "/";
      for(size_t k = 0; k < depth; ++k) dir += nameOf(r) + (k + 1 < depth ? (r.chance(1, 8) ? "//" : "/") : "");
      std::string whole = Filesystem::CombinePaths(dir, name);
      if(whole != dir + "/" + name) c.fail("combine", "'" + printable(dir) + "' and '" + printable(name) + "' give '" + printable(whole) + "'");
      if(Filesystem::GetFilename(whole) != name) c.fail("filename", "the file name of '" + printable(whole) + "' is said to be '" + printable(Filesystem::GetFilename(whole)) + "'");
      if(Filesystem::GetBaseDirectory(whole) != dir) c.fail("directory", "the directory of '" + printable(whole) + "' is said to be '" + printable(Filesystem::GetBaseDirectory(whole)) + "'");
      size_t dot = name.rfind('.');
      std::string ext = dot == std::string::npos ? "" : name.substr(dot + 1);
      if(Filesystem::GetFileExtension(whole) != ext) c.fail("extension", "the extension of '" + printable(whole) + "' is said to be '" + printable(Filesystem::GetFileExtension(whole)) + "' instead of '" + printable(ext) + "'");
      // no file name in a path that ends in a separator
      if(!Filesystem::GetFilename(whole + "/").empty()) c.fail("filename", "'" + printable(whole) + "/' is said to have a file name");
      if(!Filesystem::GetFileExtension(whole + "/").empty()) c.fail("extension", "'" + printable(whole) + "/' is said to have an extension");
      c.count("paths");
    }
  }

  // Asked by somebody who may not read what he asks about: it is there all the same.
  void unprivileged(Case& c, Rng& r)
  {
    static int n = 0;
    std::string root = c.scratch + "/guarded" + std::to_string(n++);
    if(mkdir(root.c_str(), 0755) != 0) return;
    struct Thing { std::string name; bool directory; };
    std::vector<Thing> things;
    std::vector<std::string> made;
    for(int i = 0; i < 6; ++i)
    {
      Thing t = { std::string(i % 2 ? "dir" : "file") + std::to_string(i) + (r.chance(1, 2) ? ".so" : ""), i % 2 == 1 };
      static const mode_t modes[] = {0, 0600, 0200, 0111, 0444, 0700};
      mode_t mode = modes[r.below(6)];
      std::string p = root + "/" + t.name;
      if(t.directory) { if(mkdir(p.c_str(), 0700) != 0) continue; }
      else { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if(fd < 0) continue; close(fd); }
      chmod(p.c_str(), mode);
      things.push_back(t);
      made.push_back(p);
    }
    int fd[2];
    if(pipe2(fd, O_CLOEXEC) == 0)
    {
      pid_t pid = fork();
      if(pid == 0)
      {
        // (relative to the directory, which can be entered; what is above it cannot)
        std::string said;
        if(chdir(root.c_str()) == 0 && setgroups(0, nullptr) == 0 && setresgid(65534, 65534, 65534) == 0 && setresuid(65534, 65534, 65534) == 0)
        {
          said = "asked\n";
          for(auto& t : things)
          {
            if(!Filesystem::PathExists(t.name)) said += "'" + t.name + "', which may not be read, is said not to exist\n";
            if(Filesystem::IsFile(t.name) == t.directory || Filesystem::IsDirectory(t.name) != t.directory) said += "'" + t.name + "', which may not be read, is said to be of another kind\n";
          }
          std::list<std::string> l = Filesystem::GetDirectoryContents(".", FilesystemObjectType::Any);
          if(l.size() != things.size()) said += "of " + std::to_string(things.size()) + " things that may not be read, a listing has " + std::to_string(l.size()) + "\n";
        }
        if(write(fd[1], said.data(), said.size()) < 0) _exit(1);
        _exit(0);
      }
      close(fd[1]);
      std::string text;
      char buf[4096];
      ssize_t k;
      while((k = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, (size_t)k);
      close(fd[0]);
      int status = 0;
      if(pid > 0) waitpid(pid, &status, 0);
      if(text.compare(0, 6, "asked\n") == 0)
      {
        c.count("questions_of_the_unprivileged", 3 * things.size() + 1);
        if(text.size() > 6) c.fail("unprivileged", text.substr(6));
      }
      else if(pid > 0 && WIFSIGNALED(status)) c.fail("unprivileged", "asking about what may not be read ended the program by signal " + std::to_string(WTERMSIG(status)));
    }
    for(auto& p : made) if(unlink(p.c_str()) != 0) rmdir(p.c_str());
    rmdir(root.c_str());
  }

  void caseU01(Case& c)
  {
    Rng& r = c.rng;
    paths(c, r);
    if(r.chance(1, 4)) unprivileged(c, r);
    static int n = 0;
    std::string root = c.scratch + "/fs" + std::to_string(n++);
    mkdir(root.c_str(), 0755);
    std::vector<std::string> made, dirs = {root};
    std::map<std::string, Model> model;                          // by full path
    std::map<std::string, std::map<std::string, Model>> inside;  // directory -> entries
    inside[root];
    uint64_t h = 3;
    size_t count = r.below(30);
    for(size_t i = 0; i < count; ++i)
    {
      std::string dir = r.pick(dirs), name = nameOf(r), p = dir + "/" + name;
      if(model.count(p) || name.size() > 250) continue;
      Model m;
      m.exists = true;
      bool ok = true;
      int kind = (int)r.below(9);
      switch(kind)
      {
        case 0: case 1: case 2:
        {
          int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, r.chance(1, 3) ? 0 : 0644);
          ok = fd >= 0;
          if(ok) { if(r.chance(1, 2) && write(fd, "x", 1) != 1) ok = false; close(fd); }
          m.file = true;
        } break;
        case 3: case 4: ok = mkdir(p.c_str(), 0755) == 0; m.directory = true; break;
        case 5: ok = mkfifo(p.c_str(), 0644) == 0; break;
        case 6: ok = symlink("/nonexistent/nothing", p.c_str()) == 0; m.exists = false; break;
        case 7:
        {
          // a link to something there is
          std::vector<std::string> known;
          for(auto& k : model) if(k.second.exists) known.push_back(k.first);
          std::string target = known.empty() || r.chance(1, 5) ? root : r.pick(known);
          ok = symlink(target.c_str(), p.c_str()) == 0;
          if(target == root) m.directory = true; else m = model[target];
        } break;
        default:
        {
          sockaddr_un a = {};
          a.sun_family = AF_UNIX;
          int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
          ok = p.size() < sizeof a.sun_path;
          if(ok) { memcpy(a.sun_path, p.data(), p.size()); ok = bind(s, (sockaddr*)&a, sizeof a) == 0; }
          close(s);
        }
      }
      if(!ok) continue;
      made.push_back(p);
      model[p] = m;
      inside[dir][name] = m;
      if(m.directory && (kind == 3 || kind == 4)) { dirs.push_back(p); inside[p]; }
      h = mix(h, hashStr(name) + (uint64_t)kind);
    }
    if(r.chance(1, 40))
    {
      // one directory with a great many entries
      std::string dir = r.pick(dirs);
      size_t many = 100 + r.below(1500);
      for(size_t i = 0; i < many; ++i)
      {
        std::string name = "many-" + std::to_string(i), p = dir + "/" + name;
        Model m;
        m.exists = true;
        if(r.chance(1, 4)) m.directory = mkdir(p.c_str(), 0755) == 0;
        else { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); m.file = fd >= 0; if(fd >= 0) close(fd); }
        if(!m.directory && !m.file) continue;
        made.push_back(p);
        inside[dir][name] = m;
      }
      c.maxOf("entries_of_one_directory", inside[dir].size());
    }
    std::map<std::string, Model> all = model;
    Model there; there.exists = there.directory = true;
    all[root] = there;
    all[root + "/."] = there;
    all["/dev/null"].exists = true;
    all[root + "/missing"];
    all[root + "/missing/below"];
    all[""];
    all[std::string(5000, 'x')];
    for(auto& m : model) if(m.second.file) { all[m.first + "/below"]; all[m.first + "/"]; }
    for(auto& m : all)
    {
      std::string p = printable(m.first, 120);
      if(Filesystem::PathExists(m.first) != m.second.exists) c.fail("exists", "'" + p + "' is said to " + (m.second.exists ? "not exist" : "exist"));
      if(Filesystem::IsFile(m.first) != m.second.file) c.fail("file", "'" + p + "' is said to be " + (m.second.file ? "no file" : "a file"));
      if(Filesystem::IsDirectory(m.first) != m.second.directory) c.fail("directory", "'" + p + "' is said to be " + (m.second.directory ? "no directory" : "a directory"));
      c.count("questions", 3);
    }
    static const FilesystemObjectType filters[] = {FilesystemObjectType::File, FilesystemObjectType::Directory, FilesystemObjectType::Any};
    for(auto& d : inside)
      for(auto f : filters)
      {
        std::vector<std::string> want;
        for(auto& e : d.second)
          if((f != FilesystemObjectType::Directory && e.second.file) || (f != FilesystemObjectType::File && e.second.directory)) want.push_back(e.first);
        std::list<std::string> l = Filesystem::GetDirectoryContents(r.chance(1, 4) ? d.first + "/" : d.first, f);
        std::vector<std::string> got(l.begin(), l.end());
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if(got != want)
        {
          std::string a, b;
          for(auto& s : got) a += " '" + printable(s, 30) + "'";
          for(auto& s : want) b += " '" + printable(s, 30) + "'";
          c.fail("contents", "the " + std::string(f == FilesystemObjectType::File ? "files" : f == FilesystemObjectType::Directory ? "directories" : "contents") + " of a directory are said to be" + a + " instead of" + b);
        }
        c.count("listings");
        c.count("entries_listed", got.size());
      }
    for(auto& m : all)
      if(!m.second.directory && !Filesystem::GetDirectoryContents(m.first, FilesystemObjectType::Any).empty()) c.fail("contents", "'" + printable(m.first, 80) + "' is no directory, and has contents");

    // where this runs
    char exe[PATH_MAX + 1] = {};
    ssize_t got = ::readlink("/proc/self/exe", exe, PATH_MAX);
    if(got > 0 && got < 1000 && Filesystem::GetPathOfRunningExecutable() != std::string(exe, (size_t)got)) c.fail("executable", "this program is said to be at '" + printable(Filesystem::GetPathOfRunningExecutable()) + "'");
    gReadlinkFails = true;
    for(int i = 0; i < 5; ++i)
    {
      int before = gReadlinkCalls;
      std::string said = Filesystem::GetPathOfRunningExecutable();
      if(gReadlinkCalls == before) continue;   // found out in another way: nothing has failed
      c.count("failed_calls");
      if(!said.empty()) c.fail("executable-unknown", "where this program is cannot be found out, but is said to be '" + printable(said) + "'");
    }
    gReadlinkFails = false;
    // a program far down, at the edges of the usual sizes of buffers
    for(int i = 0; i < 4; ++i)
    {
      static const size_t around[] = {254, 255, 256, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095};
      gReadlinkSays = "/" + std::string(around[r.below(13)] - 1, (char)('a' + r.below(26)));
      int before = gReadlinkCalls;
      std::string said = Filesystem::GetPathOfRunningExecutable(), want = gReadlinkSays;
      bool asked = gReadlinkCalls != before;
      gReadlinkSays.clear();
      if(!asked) continue;
      c.count("long_paths");
      if(said != want) c.fail("executable", "this program is at a path of " + std::to_string(want.size()) + " characters, and said to be at one of " + std::to_string(said.size()));
    }
    std::string was = Filesystem::GetWorkingDirectory();
    for(auto& d : dirs)
    {
      if(chdir(d.c_str()) != 0) continue;
      char* real = realpath(".", nullptr);
      std::string want = real ? real : "";
      free(real);
      if(Filesystem::GetWorkingDirectory() != want) c.fail("working-directory", "the working directory is '" + printable(want) + "' and said to be '" + printable(Filesystem::GetWorkingDirectory()) + "'");
      c.count("questions");
    }
    {
      std::string gone = root + "/gone-soon";
      if(mkdir(gone.c_str(), 0755) == 0 && chdir(gone.c_str()) == 0)
      {
        rmdir(gone.c_str());
        if(!Filesystem::GetWorkingDirectory().empty()) c.fail("working-directory", "the working directory is gone, and said to be '" + printable(Filesystem::GetWorkingDirectory()) + "'");
      }
    }
    if(r.chance(1, 4) && chdir(root.c_str()) == 0)
    {
      // far down: made, entered and left step by step
      char* real = realpath(".", nullptr);
      std::string want = real ? real : "", name(20 + r.below(220), (char)('a' + r.below(26)));
      free(real);
      size_t aim = 200 + r.below(3700), down = 0;
      while(want.size() + 1 + name.size() < aim && mkdir(name.c_str(), 0755) == 0 && chdir(name.c_str()) == 0) { want += "/" + name; down++; }
      if(Filesystem::GetWorkingDirectory() != want) c.fail("working-directory", "the working directory has " + std::to_string(want.size()) + " characters, and is said to be '" + printable(Filesystem::GetWorkingDirectory(), 200) + "'");
      c.count("long_paths");
      c.maxOf("working_directory_bytes", want.size());
      for(; down > 0; --down) if(chdir("..") != 0 || rmdir(name.c_str()) != 0) _exit(3);
    }
    if(chdir(was.c_str()) != 0) _exit(3);
    remove(root, made);
    c.sig(h);
    c.sample(std::to_string(model.size()) + " entries in " + std::to_string(dirs.size()) + " directories");
  }

  // ------------------------------------------------------------ U03
  struct Conf
  {
    std::list<std::string> search, files;
    int bus = 0;
    bool operator==(const Conf& o) const { return search == o.search && files == o.files && bus == o.bus; }
  };
  std::list<std::string> strings(Rng& r)
  {
    static const char* const pool[] = {"", "a", "b", "lib", "/usr/lib", "a/b"};
    std::list<std::string> l;
    for(size_t n = r.below(4); n > 0; --n) l.push_back(pool[r.below(6)]);
    return l;
  }
  void caseU03(Case& c)
  {
    Rng& r = c.rng;
    std::vector<std::shared_ptr<lp::bus::Bus>> busses = {nullptr, std::make_shared<lp::bus::Bus>("one"), std::make_shared<lp::bus::Bus>("one")};
    std::vector<Conf> models;
    std::vector<lp::LampPostConfiguration> real;
    size_t n = 12;
    for(size_t i = 0; i < n; ++i)
    {
      Conf m;
      if(i > 0 && r.chance(2, 3))
      {
        // next to another one: one thing apart, or nothing
        m = models[r.below(models.size())];
        switch(r.below(8))
        {
          case 0: m.bus = (int)r.below(3); break;
          case 1: m.search.reverse(); break;
          case 2: m.files.reverse(); break;
          case 3: m.search.push_back(m.search.empty() ? "" : m.search.back()); break;
          case 4: m.files.push_back(""); break;
          case 5: if(!m.search.empty()) m.search.pop_front(); break;
          case 6: std::swap(m.search, m.files); break;
          default: break;
        }
      }
      else { m.search = strings(r); m.files = strings(r); m.bus = (int)r.below(3); }
      models.push_back(m);
      lp::PluginManagerConfiguration pm(m.search, busses[(size_t)m.bus]);
      if(r.chance(1, 3)) { lp::PluginManagerConfiguration other; other.mTemplateSearchPaths = m.search; other.mBus = busses[(size_t)m.bus]; pm = other; }
      if(r.chance(1, 2)) real.push_back(lp::LampPostConfiguration(pm, m.files));
      else
      {
        lp::LampPostConfiguration lc;
        lc.mPluginManagerConfiguration = pm;
        lc.mConfigurationFiles = m.files;
        real.push_back(lc);
      }
    }
    uint64_t h = 1;
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
      {
        const Conf &a = models[i], &b = models[j];
        bool pm = a.search == b.search && a.bus == b.bus, all = a == b;
        auto show = [](const Conf& m) { std::string s = "bus " + std::to_string(m.bus) + " search"; for(auto& x : m.search) s += " '" + x + "'"; s += " files"; for(auto& x : m.files) s += " '" + x + "'"; return s; };
        std::string both = show(a) + " | " + show(b);
        if((real[i].mPluginManagerConfiguration == real[j].mPluginManagerConfiguration) != pm) c.fail("manager", std::string("plugin manager configurations are ") + (pm ? "equal, and said to differ: " : "different, and said to be equal: ") + both);
        if((real[i].mPluginManagerConfiguration != real[j].mPluginManagerConfiguration) == pm) c.fail("manager-not", "!= of plugin manager configurations is not the opposite of ==: " + both);
        if((real[i] == real[j]) != all) c.fail("lamppost", std::string("configurations are ") + (all ? "equal, and said to differ: " : "different, and said to be equal: ") + both);
        if((real[i] != real[j]) == all) c.fail("lamppost-not", "!= of configurations is not the opposite of ==: " + both);
        c.count(all ? "equal_pairs" : "different_pairs");
        h = mix(h, hashStr(both));
      }
    c.sig(h);
    c.sample(std::to_string(n * n) + " pairs of configurations");
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"U01", caseU01}, {"U03", caseU03}});
}
