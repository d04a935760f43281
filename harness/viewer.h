// Stand-in for the trace viewer programs (babeltrace, lttng view): scripts in a scratch directory put first on PATH, which
// run this same binary as "viewer". It prints what is written to its fifo, in the form the given options ask for.
#pragma once
#include "vh.h"
namespace viewer
{
using namespace vh;
inline std::string& dir()
{
  static std::string* d = new std::string;
  return *d;
}
inline void put(const std::string& file, const std::string& text, mode_t mode = 0644)
{
  // written under another name first: whoever sees the file sees all of it
  const std::string tmp = file + ".tmp";
  int f = open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode);
  if (f < 0 || syscall(SYS_write, f, text.data(), text.size()) != static_cast<long>(text.size()))
    _exit(4);
  close(f);
  if (rename(tmp.c_str(), file.c_str()))
    _exit(4);
}
inline std::string get(const std::string& file)
{
  std::string s;
  int f = open(file.c_str(), O_RDONLY | O_CLOEXEC);
  if (f < 0)
    return s;
  char b[4096];
  long n;
  while ((n = syscall(SYS_read, f, b, sizeof b)) > 0)
    s.append(b, static_cast<std::size_t>(n));
  close(f);
  return s;
}
// Before any thread is started.
inline void prepare()
{
  const char* base = getenv("VH_SCRATCH");
  std::string t = std::string(base ? base : "/tmp") + "/viewerXXXXXX";
  if (!mkdtemp(&t[0]))
    harness_error("mkdtemp failed");
  dir() = t;
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n > 0 ? n : 0] = 0;
  for (const char* p : { "babeltrace", "lttng" })
    put(t + "/" + p, "#!/bin/sh\nexec '" + std::string(self) + "' viewer " + p + " '" + t + "' \"$@\"\n", 0755);
  mkdir((t + "/none").c_str(), 0755);
  const char* old = getenv("PATH");
  setenv("VH_OLD_PATH", old ? old : "/usr/bin:/bin", 1);
}
inline void path(bool present)
{
  setenv("PATH", present ? (dir() + ":" + getenv("VH_OLD_PATH")).c_str() : (dir() + "/none").c_str(), 1);
}
inline void cleanup()
{
  if (!dir().empty())
  {
    std::string c = "rm -rf '" + dir() + "'";
    setenv("PATH", getenv("VH_OLD_PATH"), 1);
    if (system(c.c_str()))
      note("could not remove %s", dir().c_str());
  }
}
// One viewer to be started by the code under test under this name.
struct Plan
{
  std::string name;
  int fd{ -1 };
  explicit Plan(const std::string& n, const std::string& options = "") : name(n)
  {
    if (mkfifo((dir() + "/" + name + ".fifo").c_str(), 0600))
      harness_error("mkfifo failed");
    put(dir() + "/" + name + ".opt", options);
  }
  Plan(const Plan&) = delete;
  ~Plan()
  {
    done();
    for (const char* e : { ".fifo", ".opt", ".pid", ".ready", ".args" })
      unlink((dir() + "/" + name + e).c_str());
  }
  std::string net() const
  {
    return "net://localhost/host/eagle/" + name;
  }
  // the viewer runs and prints what it is fed from now on
  bool wait(long ms = 20000)
  {
    if (!wait_until([&] { return !get(dir() + "/" + name + ".ready").empty(); }, ms))
      return false;
    for (int i = 0; i < 200 && fd < 0; i++)
    {
      fd = open((dir() + "/" + name + ".fifo").c_str(), O_WRONLY | O_CLOEXEC | O_NONBLOCK);
      if (fd < 0)
        sleep_ms(5);
    }
    if (fd >= 0)
      fcntl(fd, F_SETFL, 0);
    return fd >= 0;
  }
  pid_t pid() const
  {
    return static_cast<pid_t>(atoi(get(dir() + "/" + name + ".pid").c_str()));
  }
  bool feed(const std::string& s)
  {
    std::size_t p = 0;
    while (p < s.size())
    {
      long n = syscall(SYS_write, fd, s.data() + p, s.size() - p);
      if (n <= 0 && errno == EINTR)
        continue;
      if (n <= 0)
        return false;
      p += static_cast<std::size_t>(n);
    }
    return true;
  }
  void done()
  {
    if (fd >= 0)
      close(fd);
    fd = -1;
  }
};
inline void print(int to, const std::string& s)
{
  std::size_t p = 0;
  while (p < s.size())
  {
    long n = syscall(SYS_write, to, s.data() + p, s.size() - p);
    if (n <= 0 && errno == EINTR)
      continue;
    if (n <= 0 && to == 2)
      return;  // as stdio does
    if (n <= 0)
      _exit(0);
    p += static_cast<std::size_t>(n);
  }
}
// argv: viewer <program> <dir> args...
inline int role(int argc, char** argv)
{
  if (argc < 4)
    return 2;
  const std::string program = argv[2];
  dir() = argv[3];
  std::vector<std::string> a(argv + 4, argv + argc);
  if (program == "lttng")
  {
    if (a.size() != 4 || a[0] != "view" || a[2] != "-e" || a[1].find('/') != std::string::npos)
    {
      print(2, "lttng: wrong arguments\n");
      return 1;
    }
    std::string target = a[1], cmd = a[3], w;
    a.clear();
    for (char c : cmd + " ")
    {
      if (c != ' ')
        w += c;
      else if (!w.empty())
      {
        a.push_back(w);
        w.clear();
      }
    }
    if (a.empty() || a[0] != "babeltrace")
      return 1;
    a.erase(a.begin());
    a.push_back("net://localhost/host/eagle/" + target);
  }
  bool seconds = false, delta = true, live = false;
  std::string target;
  for (std::size_t i = 0; i < a.size(); i++)
  {
    if (a[i] == "--clock-seconds")
      seconds = true;
    else if (a[i] == "--clock-gmt")
      ;
    else if (a[i] == "--no-delta")
      delta = false;
    else if (a[i] == "--input-format=lttng-live")
      live = true;
    else if ((a[i] == "--input-format" || a[i] == "-i") && i + 1 < a.size() && a[i + 1] == "lttng-live")
      live = true, i++;
    else if (a[i].compare(0, 1, "-") == 0)
    {
      print(2, "[error] unknown option " + a[i] + "\n");
      return 1;
    }
    else
      target = a[i];
  }
  if (!live || target.compare(0, 6, "net://") != 0)
  {
    print(2, "[error] Cannot open trace " + target + "\n");
    return 1;
  }
  const std::string name = dir() + "/" + target.substr(target.rfind('/') + 1);
  put(name + ".pid", std::to_string(getpid()));
  const std::string opt = get(name + ".opt");
  if (opt.find("ignore") != std::string::npos)
    signal(SIGINT, SIG_IGN);
  int f = open((name + ".fifo").c_str(), O_RDONLY | O_CLOEXEC | O_NONBLOCK);
  if (f < 0)
    return 1;
  fcntl(f, F_SETFL, 0);
  if (opt.find("flood") != std::string::npos)
  {
    std::string w(1000, 'w');
    for (int i = 0; i < 500; i++)
      print(2, "[warning] " + w + "\n");
  }
  put(name + ".ready", "ready");
  std::string text;
  bool fed = false;
  while (true)
  {
    char b[65536];
    long n = syscall(SYS_read, f, b, sizeof b);
    if (n == 0 && !fed)  // nobody feeds yet
    {
      struct timespec ts = { 0, 2000000 };
      syscall(SYS_nanosleep, &ts, nullptr);
      if (getppid() == 1)
        return 0;
      continue;
    }
    if (n <= 0)
      break;
    fed = true;
    if (opt.find("errors") != std::string::npos)
      print(2, "[warning] Tracer discarded 12 events between [1.0] and [2.0] in trace UUID 0. " + std::string(200, 'x') + "\n");
    if (seconds && !delta)
    {
      print(1, std::string(b, static_cast<std::size_t>(n)));
      continue;
    }
    text.append(b, static_cast<std::size_t>(n));
    std::size_t e;
    while ((e = text.find('\n')) != std::string::npos)
    {
      std::string l = text.substr(0, e + 1);
      text.erase(0, e + 1);
      std::size_t c = l.find("] "), d = l.find('.');
      if (l[0] == '[' && c != std::string::npos && d < c)
      {
        unsigned long long s = strtoull(l.c_str() + 1, nullptr, 10);
        std::string st = seconds ? l.substr(1, d - 1) : fmt("%02llu:%02llu:%02llu", s / 3600 % 24, s / 60 % 60, s % 60);
        l = "[" + st + l.substr(d, c - d) + "] " + (delta ? "(+0.000000001) " : "") + l.substr(c + 2);
      }
      print(1, l);
    }
  }
  if (opt.find("stay") != std::string::npos)
    while (getppid() != 1)
      usleep(20000);
  return 0;
}
}  // namespace viewer
