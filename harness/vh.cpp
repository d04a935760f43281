#include "vh.h"
#include <dirent.h>
#include <sys/un.h>
#include <unordered_set>

namespace vh
{
namespace
{
struct State
{
  std::mutex m;
  int fd{ 2 };
  std::uint64_t seed{ 1 };
  int scale{ 1 };
  std::map<std::string, std::uint64_t> counters;
  std::map<std::string, std::unordered_set<std::uint64_t>> sets;
  std::vector<std::string> samples;
  std::atomic<std::uint64_t> violations{ 0 };
  std::map<std::string, int> by_key;
  State()
  {
    if (const char* p = getenv("VH_REPORT"))
    {
      fd = open(p, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
      if (fd < 0)
        fd = 2;
    }
    if (const char* p = getenv("VH_SEED"))
      seed = strtoull(p, nullptr, 10);
    if (const char* p = getenv("VH_SCALE"))
      scale = atoi(p);
  }
};
State& st()
{
  static State* s = new State;
  return *s;
}
std::string esc(const std::string& s)
{
  std::string o;
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += static_cast<char>(c);
    }
    else if (c < 0x20 || c >= 0x7f)
    {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += static_cast<char>(c);
  }
  return o;
}
void line(const std::string& s)
{
  std::string t = s + "\n";
  ssize_t r = syscall(SYS_write, st().fd, t.data(), t.size());
  (void)r;
}
std::string vfmt(const char* f, va_list ap)
{
  char buf[2048];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
}  // namespace

std::uint64_t seed()
{
  return st().seed;
}
int scale()
{
  return st().scale;
}
int slow()
{
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  return 4;
#elif __has_feature(address_sanitizer)
  return 3;
#endif
#endif
  return 2;
}
std::string fmt(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  return s;
}
void violation(const std::string& key, const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  std::lock_guard<std::mutex> l(st().m);
  st().violations++;
  if (++st().by_key[key] <= 3)
    line("{\"t\":\"violation\",\"key\":\"" + esc(key) + "\",\"msg\":\"" + esc(s) + "\"}");
}
bool have_violation()
{
  return st().violations > 0;
}
void harness_error(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  line("{\"t\":\"error\",\"msg\":\"" + esc(s) + "\"}");
  _exit(3);
}
void inconclusive(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  cover("inconclusive");
  note("inconclusive: %s", s.c_str());
}
void note(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  std::lock_guard<std::mutex> l(st().m);
  line("{\"t\":\"note\",\"msg\":\"" + esc(s) + "\"}");
}
void cover(const std::string& c, std::uint64_t n)
{
  std::lock_guard<std::mutex> l(st().m);
  st().counters[c] += n;
}
void distinct(const std::string& c, std::uint64_t h)
{
  std::lock_guard<std::mutex> l(st().m);
  st().sets[c].insert(h);
}
void sample(const std::string& t)
{
  std::lock_guard<std::mutex> l(st().m);
  if (st().samples.size() < 4)
    st().samples.push_back(t.substr(0, 400));
}
int finish()
{
  report_injection();
  std::lock_guard<std::mutex> l(st().m);
  std::string s = std::string("{\"t\":\"") + (getenv("VH_CHILD") ? "child" : "done") + "\",\"counters\":{";
  bool first = true;
  for (auto& c : st().counters)
  {
    s += (first ? "" : ",") + ("\"" + esc(c.first) + "\":" + std::to_string(c.second));
    first = false;
  }
  s += "},\"distinct\":{";
  first = true;
  for (auto& c : st().sets)
  {
    s += (first ? "" : ",") + ("\"" + esc(c.first) + "\":" + std::to_string(c.second.size()));
    first = false;
  }
  s += "},\"samples\":[";
  first = true;
  for (auto& c : st().samples)
  {
    s += (first ? "" : ",") + ("\"" + esc(c) + "\"");
    first = false;
  }
  s += "],\"violations\":" + std::to_string(st().violations.load()) + "}";
  line(s);
  return st().violations ? 1 : 0;
}
std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h)
{
  auto* b = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; i++)
    h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
std::string hex(const Bytes& b, std::size_t max)
{
  std::string s;
  char t[4];
  for (std::size_t i = 0; i < b.size() && i < max; i++)
  {
    snprintf(t, sizeof t, "%02x", b[i]);
    s += t;
  }
  if (b.size() > max)
    s += "..(" + std::to_string(b.size()) + ")";
  return s;
}

Watchdog::Watchdog(const std::string& what, long ms) : done(std::make_shared<std::atomic<bool>>(false))
{
  auto d = done;
  const long limit = ms * slow();
  std::thread([d, what, limit]() {
    const auto end = Clock::now() + std::chrono::milliseconds(limit);
    while (!d->load())
    {
      if (Clock::now() > end)
      {
        // Marked separately: the driver repeats the run before it believes in a hang.
        line("{\"t\":\"hang\",\"key\":\"" + esc("hang:" + what) + "\",\"msg\":\"no progress within " +
             std::to_string(limit) + " ms\"}");
        // core of evidence: ask the driver to take stacks
        _exit(4);
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(20));
    }
  }).detach();
}
Watchdog::~Watchdog()
{
  done->store(true);
}

// ---- children
Child spawn(const std::vector<std::string>& args, const std::vector<std::pair<std::string, std::string>>& env)
{
  int a[2], b[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
    harness_error("pipe failed");
  std::vector<std::string> av = args;
  static std::string self = [] {
    char p[4096];
    ssize_t n = readlink("/proc/self/exe", p, sizeof p - 1);
    return std::string(p, n > 0 ? static_cast<size_t>(n) : 0);
  }();
  std::vector<char*> argv;
  argv.push_back(const_cast<char*>(self.c_str()));
  for (auto& s : av)
    argv.push_back(const_cast<char*>(s.c_str()));
  argv.push_back(nullptr);
  std::vector<std::string> envs;
  for (char** e = environ; *e; e++)
  {
    bool over = false;
    for (auto& kv : env)
      if (strncmp(*e, (kv.first + "=").c_str(), kv.first.size() + 1) == 0)
        over = true;
    if (!over)
      envs.push_back(*e);
  }
  for (auto& kv : env)
    envs.push_back(kv.first + "=" + kv.second);
  envs.push_back("VH_CHILD=1");
  std::vector<char*> envp;
  for (auto& s : envs)
    envp.push_back(const_cast<char*>(s.c_str()));
  envp.push_back(nullptr);
  pid_t p = fork();
  if (p == 0)
  {
    dup2(a[0], 0);
    dup2(b[1], 1);
    execve(self.c_str(), argv.data(), envp.data());
    _exit(127);
  }
  ::close(a[0]);
  ::close(b[1]);
  Child c;
  c.pid = p;
  c.in = a[1];
  c.out = b[0];
  return c;
}
bool Child::alive()
{
  if (pid <= 0)
    return false;
  siginfo_t si;
  memset(&si, 0, sizeof si);
  if (waitid(P_PID, static_cast<id_t>(pid), &si, WEXITED | WNOHANG | WNOWAIT) != 0)
    return false;
  return si.si_pid == 0;
}
void Child::kill9()
{
  if (pid > 0)
    ::kill(pid, SIGKILL);
}
int Child::wait_exit(long ms)
{
  if (in >= 0)
  {
    ::close(in);
    in = -1;
  }
  int status = 0;
  const auto end = Clock::now() + std::chrono::milliseconds(ms * slow());
  for (;;)
  {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid)
      break;
    if (Clock::now() > end)
      return -1000;
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  if (out >= 0)
    ::close(out);
  out = -1;
  pid = -1;
  return WIFSIGNALED(status) ? -WTERMSIG(status) : WEXITSTATUS(status);
}
bool Child::send_line(const std::string& s)
{
  std::string t = s + "\n";
  std::size_t o = 0;
  while (o < t.size())
  {
    ssize_t r = syscall(SYS_write, in, t.data() + o, t.size() - o);
    if (r <= 0)
      return false;
    o += static_cast<std::size_t>(r);
  }
  return true;
}
bool Child::read_line(std::string& s, long ms)
{
  const auto end = Clock::now() + std::chrono::milliseconds(ms * slow());
  for (;;)
  {
    auto p = buf.find('\n');
    if (p != std::string::npos)
    {
      s = buf.substr(0, p);
      buf.erase(0, p + 1);
      return true;
    }
    auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - Clock::now()).count();
    if (left <= 0)
      return false;
    struct pollfd pf = { out, POLLIN, 0 };
    long r = syscall(SYS_poll, &pf, 1, static_cast<int>(left > 200 ? 200 : left));
    if (r > 0)
    {
      char tmp[4096];
      ssize_t n = syscall(SYS_read, out, tmp, sizeof tmp);
      if (n <= 0)
        return false;
      buf.append(tmp, static_cast<std::size_t>(n));
    }
  }
}
std::set<int> open_fds()
{
  std::set<int> r;
  DIR* d = opendir("/proc/self/fd");
  if (!d)
    return r;
  int self = dirfd(d);
  while (auto* e = readdir(d))
    if (e->d_name[0] != '.')
    {
      int f = atoi(e->d_name);
      if (f != self)
        r.insert(f);
    }
  closedir(d);
  return r;
}
std::size_t thread_count()
{
  std::size_t n = 0;
  DIR* d = opendir("/proc/self/task");
  if (!d)
    return 0;
  while (auto* e = readdir(d))
    if (e->d_name[0] != '.')
      n++;
  closedir(d);
  return n;
}

// ---- raw peer
Bytes encode_frame(const RawFrame& f)
{
  Bytes b(8 + 2 + f.name.size() + 4 + f.data.size());
  std::uint64_t id = f.id;
  std::uint16_t nl = static_cast<std::uint16_t>(f.name.size());
  std::uint32_t dl = static_cast<std::uint32_t>(f.data.size());
  std::size_t o = 0;
  memcpy(&b[o], &id, 8);
  o += 8;
  memcpy(&b[o], &nl, 2);
  o += 2;
  if (nl)
    memcpy(&b[o], f.name.data(), nl);
  o += nl;
  memcpy(&b[o], &dl, 4);
  o += 4;
  if (dl)
    memcpy(&b[o], f.data.data(), dl);
  return b;
}
static socklen_t addr_for(const std::string& name, struct sockaddr_un& a)
{
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  memcpy(a.sun_path + 1, name.data(), std::min(name.size(), sizeof(a.sun_path) - 1));
  return static_cast<socklen_t>(sizeof(a.sun_family) + 1 + name.size());
}
int abstract_socket(const std::string& name, bool listening)
{
  struct sockaddr_un a;
  socklen_t l = addr_for(name, a);
  int fd = static_cast<int>(syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0));
  if (fd < 0)
    return -1;
  if (syscall(SYS_bind, fd, &a, l) != 0)
  {
    syscall(SYS_close, fd);
    return -1;
  }
  if (listening)
    syscall(SYS_listen, fd, 64);
  return fd;
}
int Raw::listen_as(pid_t pid, int)
{
  return abstract_socket(std::to_string(pid) + "_scalopus", true);
}
bool Raw::connect(pid_t pid)
{
  close();
  struct sockaddr_un a;
  socklen_t l = addr_for(std::to_string(pid) + "_scalopus", a);
  fd = static_cast<int>(syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0));
  if (fd < 0)
    return false;
  if (syscall(SYS_connect, fd, &a, l) != 0)
  {
    close();
    return false;
  }
  return true;
}
bool Raw::send_bytes(const void* p, std::size_t n)
{
  auto* b = static_cast<const char*>(p);
  while (n)
  {
    ssize_t r = syscall(SYS_sendto, fd, b, n, MSG_NOSIGNAL, nullptr, 0);
    if (r < 0 && errno == EINTR)
      continue;
    if (r <= 0)
      return false;
    b += r;
    n -= static_cast<std::size_t>(r);
  }
  return true;
}
int Raw::recv_frame(RawFrame& f, long ms)
{
  const auto end = Clock::now() + std::chrono::milliseconds(ms);
  for (;;)
  {
    if (in.size() >= 10)
    {
      std::uint16_t nl;
      memcpy(&nl, &in[8], 2);
      if (in.size() >= 14u + nl)
      {
        std::uint32_t dl;
        memcpy(&dl, &in[10u + nl], 4);
        if (in.size() >= 14ull + nl + dl)
        {
          memcpy(&f.id, &in[0], 8);
          f.name.assign(reinterpret_cast<char*>(&in[0]) + 10, nl);
          f.data.assign(in.begin() + 14 + nl, in.begin() + 14 + nl + dl);
          in.erase(in.begin(), in.begin() + 14 + nl + dl);
          return 1;
        }
      }
    }
    auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - Clock::now()).count();
    if (left < 0)
      return 0;
    struct pollfd pf = { fd, POLLIN, 0 };
    long r = syscall(SYS_poll, &pf, 1, static_cast<int>(left > 100 ? 100 : left));
    if (r > 0)
    {
      static thread_local std::vector<char> tmp(1 << 18);
      ssize_t n = syscall(SYS_recvfrom, fd, tmp.data(), tmp.size(), 0, nullptr, nullptr);
      if (n < 0 && errno == EINTR)
        continue;
      if (n <= 0)
        return in.empty() ? -1 : -2;
      in.insert(in.end(), tmp.begin(), tmp.begin() + n);
    }
  }
}
void Raw::close()
{
  if (fd >= 0)
    syscall(SYS_close, fd);
  fd = -1;
  in.clear();
}
}  // namespace vh
