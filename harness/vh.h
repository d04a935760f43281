// Monitoring support shared by all harness programs: verdict reporting, coverage counters, seeded randomness,
// fault and delay injection controls, watchdog and process helpers.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace vh
{
using Clock = std::chrono::steady_clock;
using Bytes = std::vector<std::uint8_t>;

// ---- randomness
struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull)
  {
    next();
    next();
  }
  std::uint64_t next()
  {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n)
  {
    return n ? next() % n : 0;
  }
  // inclusive range
  std::int64_t range(std::int64_t a, std::int64_t b)
  {
    return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1)));
  }
  bool chance(unsigned percent)
  {
    return below(100) < percent;
  }
  Bytes bytes(std::size_t n)
  {
    Bytes b(n);
    std::size_t i = 0;
    for (; i + 8 <= n; i += 8)
    {
      std::uint64_t v = next();
      std::memcpy(&b[i], &v, 8);
    }
    for (; i < n; i++)
      b[i] = static_cast<std::uint8_t>(next());
    return b;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v)
  {
    return v[below(v.size())];
  }
};

std::uint64_t seed();   // base seed of this run (VH_SEED)
int scale();            // work multiplier (VH_SCALE)
int slow();             // slowdown factor of the build (sanitizers): multiply every patience limit by it

// ---- verdicts (thread safe; written to the report file at once)
void violation(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool have_violation();
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void inconclusive(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void cover(const std::string& counter, std::uint64_t n = 1);
void distinct(const std::string& set, std::uint64_t hash);  // counts distinct hashes seen
void sample(const std::string& text);                       // keep a few
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int finish();                                               // write summary; returns the exit status for main

std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull);
inline std::uint64_t fnv(const Bytes& b)
{
  return fnv(b.data(), b.size());
}
inline std::uint64_t fnv(const std::string& b)
{
  return fnv(b.data(), b.size());
}
std::string hex(const Bytes& b, std::size_t max = 32);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- time
inline void sleep_ms(long ms)
{
  std::this_thread::sleep_for(std::chrono::milliseconds(ms));
}
// Wait until pred() or until `ms` (already scaled with slow()) have passed.
template <typename P>
bool wait_until(P pred, long ms)
{
  const auto end = Clock::now() + std::chrono::milliseconds(ms * slow());
  while (!pred())
  {
    if (Clock::now() > end)
      return pred();
    std::this_thread::sleep_for(std::chrono::microseconds(300));
  }
  return true;
}
// The run is declared hung (violation key) if not finished in time; the limit is scaled with slow().
struct Watchdog
{
  Watchdog(const std::string& what, long ms);
  ~Watchdog();
  std::shared_ptr<std::atomic<bool>> done;
};

// ---- injected environment (see wrap.cpp); percentages per call
struct Inject
{
  std::atomic<unsigned> delay{ 0 };        // percent of calls preceded by a random pause
  std::atomic<unsigned> post_delay{ 0 };   // percent of writes followed by a random pause
  std::atomic<unsigned> max_delay_us{ 0 };
  std::atomic<unsigned> short_io{ 0 };     // percent of reads/writes on sockets that are cut short
  std::atomic<unsigned> eintr{ 0 };        // percent of interruptible calls that fail with EINTR first
  std::atomic<unsigned> lock_delay{ 0 };   // percent of mutex operations with a random pause
  std::atomic<unsigned> lock_delay_us{ 0 };
  std::atomic<std::uint64_t> n_short{ 0 }, n_eintr{ 0 }, n_delay{ 0 }, n_lock{ 0 }, n_calls{ 0 };
  std::atomic<long> sleep_cap_us{ -1 };
};
Inject& inject();
void inject_off();
void report_injection();

// ---- processes: re-executes this binary with another role
struct Child
{
  pid_t pid{ -1 };
  int in{ -1 };   // write to child's stdin
  int out{ -1 };  // read from child's stdout
  bool alive();
  void kill9();
  int wait_exit(long ms);  // exit status or -signal, -1000 on timeout
  bool send_line(const std::string& s);
  bool read_line(std::string& s, long ms);
  std::string buf;
};
Child spawn(const std::vector<std::string>& args, const std::vector<std::pair<std::string, std::string>>& env = {});

std::set<int> open_fds();
std::size_t thread_count();

// ---- raw unix socket peer speaking the documented frame format; bypasses all injection
struct RawFrame
{
  std::uint64_t id{ 0 };
  std::string name;
  Bytes data;
};
Bytes encode_frame(const RawFrame& f);
struct Raw
{
  int fd{ -1 };
  Bytes in;
  Raw() = default;
  explicit Raw(int f) : fd(f)
  {
  }
  Raw(const Raw&) = delete;
  Raw(Raw&& o) noexcept : fd(o.fd), in(std::move(o.in))
  {
    o.fd = -1;
  }
  Raw& operator=(Raw&& o) noexcept
  {
    close();
    fd = o.fd;
    in = std::move(o.in);
    o.fd = -1;
    return *this;
  }
  ~Raw()
  {
    close();
  }
  bool connect(pid_t pid);
  static int listen_as(pid_t pid, int backlog = 64);  // bind "\0<pid>_scalopus"
  bool send_bytes(const void* p, std::size_t n);
  bool send_frame(const RawFrame& f)
  {
    auto b = encode_frame(f);
    return send_bytes(b.data(), b.size());
  }
  // 1 = frame, 0 = timeout, -1 = peer closed (cleanly at frame boundary), -2 = closed inside a frame
  int recv_frame(RawFrame& f, long ms);
  void close();
};
int abstract_socket(const std::string& name, bool listening);
}  // namespace vh
