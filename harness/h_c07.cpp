// C07: resources and failures of the transports.
#include <malloc.h>
#include <sys/resource.h>
#include "tx.h"
using namespace vh;
using namespace tx;

static Endpoint::Ptr echo()
{
  return ep("echo", [](Transport&, const Data& in, Data& out) {
    out = in;
    return true;
  });
}
static Endpoint::Ptr silent()
{
  return ep("silent", [](Transport&, const Data&, Data&) { return false; });
}
static void settle_check(const std::set<int>& fds, std::size_t threads, const char* what)
{
  if (!wait_until([&]() { return open_fds() == fds; }, 4000))
  {
    auto now = open_fds();
    violation(now.size() > fds.size() ? "fd-leak" : "fd-lost", "after %s: %zu descriptors open instead of %zu", what,
              now.size(), fds.size());
  }
  if (!wait_until([&]() { return thread_count() <= threads; }, 4000))
    violation("thread-leak", "after %s: %zu threads instead of %zu", what, thread_count(), threads);
  cover("leak_checks");
}
static bool works(const scalopus::TransportFactory::Ptr& f, const char* when)
{
  auto s = f->serve();
  if (!s)
  {
    violation("serve-failed", "%s: serving failed", when);
    return false;
  }
  s->addEndpoint(echo());
  auto c = connect_pid(f, getpid());
  if (!c)
  {
    violation("connect-failed", "%s: connecting failed", when);
    return false;
  }
  Data got, d = { 1, 2, 3 };
  if (await(c->request("echo", d), got, 15000) != Got::value || got != d)
  {
    violation("request-failed", "%s: request failed", when);
    return false;
  }
  cover("works_checks");
  return true;
}

static void run_cycles(bool loopback)
{
  Rng r(seed());
  scalopus::TransportFactory::Ptr f;
  if (loopback)
    f = std::make_shared<scalopus::TransportLoopbackFactory>();
  else
    f = unix_factory();
  {
    auto warm = f->serve();
  }
  sleep_ms(5);
  const auto fds = open_fds();
  const auto threads = thread_count();
  for (int i = 0; i < 25 * scale() && !have_violation(); i++)
  {
    {
      Watchdog w("cycles", 60000);
      auto server = f->serve();
      if (!server)
      {
        violation("serve-failed", "serving failed in cycle %d", i);
        break;
      }
      server->addEndpoint(echo());
      server->addEndpoint(silent());
      std::vector<Transport::Ptr> cs;
      std::vector<Transport::PendingResponse> pending;
      for (std::size_t k = r.below(5); k > 0; k--)
      {
        Transport::Ptr c;
        if (loopback)
          c = f->connect(server->getAddress());
        else
          c = connect_pid(f, getpid());
        if (!c)
        {
          violation("connect-failed", "connecting to a live server failed in cycle %d", i);
          break;
        }
        for (std::size_t n = r.below(6); n > 0; n--)
        {
          auto p = c->request(r.chance(50) ? "echo" : "silent", r.bytes(r.below(50)));
          if (r.chance(60))
            pending.push_back(p);
        }
        if (r.chance(80))
          cs.push_back(c);
      }
      if (r.chance(50))
        server->broadcast("x", r.bytes(100));
      if (r.chance(50))
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(12000)));
      // once answered or dropped, nothing is outstanding
      if (r.chance(50))
      {
        for (auto& p : pending)
          p->wait_for(std::chrono::milliseconds(loopback ? 40 : 20));
        pending.clear();
        for (auto& c : cs)
          if (!wait_until([&]() { return c->pendingRequests() == 0; }, 4000))
            violation("pending-leak", "%zu requests outstanding after all futures were answered or dropped",
                      c->pendingRequests());
        cover("pending_zero_checks", cs.size());
      }
      auto t0 = Clock::now();
      if (r.chance(50))
        server.reset();
      cs.clear();
      server.reset();
      auto took = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t0).count();
      if (took > 5000 * slow())
        violation("slow-destroy", "destroying the transports took %ld ms", static_cast<long>(took));
      for (auto& p : pending)
      {
        Data got;
        if (await(p, got, 5000) == Got::timeout)
          violation("hanging-future", "a future outlived its transport without failing");
        cover("futures_after_destroy");
      }
    }
    settle_check(fds, threads + 1, "a serve/connect/destroy cycle");
    cover("cycles");
    distinct("cycle_kinds", seed() * 1000 + static_cast<std::uint64_t>(i) + (loopback ? 500 : 0));
  }
  sample(fmt("%zu descriptors and %zu threads before and after every cycle", fds.size(), threads));
}

static void run_failures()
{
  Rng r(seed());
  auto f = unix_factory();
  if (!works(f, "initially"))
    return;
  sleep_ms(10);
  auto fds = open_fds();
  auto threads = thread_count();
  Watchdog w("failures", 120000);
  for (int i = 0; i < 10 * scale() && !have_violation(); i++)
  {
    // address taken
    int sock = Raw::listen_as(getpid());
    if (sock < 0)
      harness_error("cannot bind own address");
    auto dead = find_dest(f, getpid());
    if (f->serve())
      violation("serve-on-taken", "serving on an address already taken returned a transport");
    cover("failed_serves");
    syscall(SYS_close, sock);
    if (!dead)
      harness_error("own listener not discovered");
    // nobody listening any more
    if (f->connect(dead))
      violation("connect-to-nobody", "connecting to a server that is gone returned a transport");
    cover("failed_connects");
    settle_check(fds, threads + 1, "failed serve and connect");
    works(f, "after a failed serve and connect");
    // second serve in the same process
    {
      auto a = f->serve();
      auto b = f->serve();
      if (!a || b)
        violation("serve-twice", "first serve %s, second serve %s", a ? "worked" : "failed", b ? "worked" : "failed");
      if (a && !b)
      {
        a->addEndpoint(echo());
        auto c = connect_pid(f, getpid());
        Data got;
        if (!c || await(c->request("echo", { 4, 5 }), got, 10000) != Got::value)
          violation("server-disturbed", "the running server does not answer after a second serve failed");
      }
      cover("failed_serves");
    }
    settle_check(fds, threads + 1, "serving twice");
    if (f->connect(nullptr))
      violation("connect-null", "connecting to no destination returned a transport");
    cover("failed_connects");
    auto lf = std::make_shared<scalopus::TransportLoopbackFactory>();
    auto ls = lf->serve();
    if (f->connect(ls->getAddress()))
      violation("connect-foreign", "the unix factory connected to a loopback destination");
    ls.reset();
    cover("cycles");
    distinct("cycle_kinds", seed() * 77 + static_cast<std::uint64_t>(i));
  }
}

// short of descriptors
static void run_nofile()
{
  Rng r(seed());
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("serve");
  server->addEndpoint(echo());
  auto good = connect_pid(f, getpid());
  if (!good)
    harness_error("connect");
  auto dest = find_dest(f, getpid());
  Data got;
  if (await(good->request("echo", { 1 }), got, 10000) != Got::value)
    harness_error("no answer");
  Watchdog w("nofile", 120000);
  for (int i = 0; i < 3 * scale() && !have_violation(); i++)
  {
    std::vector<Raw> waiting(3);
    struct rlimit old, low;
    getrlimit(RLIMIT_NOFILE, &old);
    auto fds = open_fds();
    low = old;
    low.rlim_cur = static_cast<rlim_t>(*fds.rbegin() + 1);
    // a raw socket made before the limit: its connection cannot be accepted
    std::vector<int> socks;
    for (int k = 0; k < 2; k++)
      socks.push_back(static_cast<int>(syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0)));
    fds = open_fds();
    low.rlim_cur = static_cast<rlim_t>(*fds.rbegin() + 1);
    // fill holes below
    std::vector<int> fill;
    setrlimit(RLIMIT_NOFILE, &low);
    for (;;)
    {
      int d = static_cast<int>(syscall(SYS_dup, 1));
      if (d < 0)
        break;
      fill.push_back(d);
    }
    auto c = f->connect(dest);
    if (c)
      violation("connect-without-fds", "connecting without free descriptors returned a transport");
    cover("failed_connects");
    if (f->serve())
      violation("serve-without-fds", "serving without free descriptors returned a transport");
    cover("failed_serves");
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    std::string n = std::to_string(getpid()) + "_scalopus";
    memcpy(a.sun_path + 1, n.data(), n.size());
    for (int s : socks)
      syscall(SYS_connect, s, &a, static_cast<socklen_t>(sizeof(a.sun_family) + 1 + n.size()));
    sleep_ms(20);
    // existing clients keep being served
    for (int k = 0; k < 3; k++)
    {
      Data d = r.bytes(30);
      auto g = await(good->request("echo", d), got, 10000);
      if (g != Got::value || got != d)
        violation("muted-without-fds", "an existing client is not served while the process has no free descriptors");
      cover("works_checks");
      if (have_violation())
        break;
    }
    setrlimit(RLIMIT_NOFILE, &old);
    for (int d : fill)
      syscall(SYS_close, d);
    for (int s : socks)
      syscall(SYS_close, s);
    if (have_violation())
      break;
    auto again = connect_pid(f, getpid());
    if (!again || await(again->request("echo", { 9 }), got, 10000) != Got::value)
      violation("no-recovery", "no new client is served after descriptors became free again");
    cover("cycles");
    distinct("cycle_kinds", seed() * 79 + static_cast<std::uint64_t>(i));
  }
  // process with more open files than a select set can hold
  struct rlimit lim;
  getrlimit(RLIMIT_NOFILE, &lim);
  struct rlimit want = lim;
  want.rlim_cur = std::min<rlim_t>(lim.rlim_max, 4096);
  setrlimit(RLIMIT_NOFILE, &want);
  std::vector<int> fill;
  for (int k = 0; k < 1100; k++)
  {
    int d = static_cast<int>(syscall(SYS_dup, 1));
    if (d < 0)
      break;
    fill.push_back(d);
  }
  if (fill.size() == 1100 && !have_violation())
  {
    auto c = f->connect(dest);
    if (c)
    {
      // allowed when it works
      if (await(c->request("echo", { 7 }), got, 3000) == Got::timeout)
        violation("many-fds", "a client connected while 1100 files were open does not work");
    }
    Raw late;
    late.connect(getpid());
    sleep_ms(50);
    Data d = r.bytes(20);
    if (await(good->request("echo", d), got, 10000) != Got::value || got != d)
      violation("many-fds", "an existing client is not served any more after a connection attempt with 1100 open files");
    cover("many_fd_checks");
  }
  else
    note("could not open 1100 files");
  for (int d : fill)
    syscall(SYS_close, d);
  good.reset();
  server.reset();
}

// destroying with outstanding requests must not wait for them
static void run_pending()
{
  Rng r(seed());
  auto f = unix_factory();
  std::atomic<bool> block{ false };
  auto server = f->serve();
  if (!server)
    harness_error("serve");
  server->addEndpoint(echo());
  server->addEndpoint(silent());
  Reset reset{ { [&]() { server.reset(); } } };
  for (int i = 0; i < 20 * scale() && !have_violation(); i++)
  {
    Watchdog w("pending", 40000);
    auto c = connect_pid(f, getpid());
    if (!c)
      harness_error("connect");
    std::vector<Transport::PendingResponse> v;
    std::size_t keep = 0;
    {
      // kept and dropped ones in any mix and number
      std::vector<Transport::PendingResponse> dropped;
      const unsigned keep_percent = static_cast<unsigned>(r.below(101));
      for (std::size_t k = r.chance(30) ? 100 + r.below(300) : r.below(60); k > 0; k--)
      {
        auto p = c->request(r.pick(std::vector<std::string>{ "silent", "absent", "zzz", "" }), r.bytes(r.below(100)));
        if (r.chance(keep_percent))
          v.push_back(p);
        else if (r.chance(70))
          dropped.push_back(p);  // dropped later, together
      }
      keep = v.size();
    }
    // answered ones are not outstanding, whoever still holds their futures
    std::vector<Transport::PendingResponse> answered;
    for (std::size_t k = r.below(20); k > 0; k--)
    {
      answered.push_back(c->request("echo", r.bytes(r.below(50))));
      if (answered.back()->wait_for(std::chrono::seconds(10 * slow())) != std::future_status::ready)
        violation("lost-response", "a request beside outstanding ones got no answer");
    }
    if (!wait_until([&]() { return c->pendingRequests() == keep; }, 4000))
      violation("pending-count", "%zu requests outstanding, %zu futures kept", c->pendingRequests(), keep);
    cover("pending_zero_checks");
    auto t0 = Clock::now();
    std::thread killer([&]() { c.reset(); });
    killer.join();
    if (Clock::now() - t0 > std::chrono::milliseconds(4000 * slow()))
      violation("slow-destroy", "destroying a transport with outstanding requests took long");
    for (auto& p : v)
    {
      Data got;
      auto g = await(p, got, 4000);
      if (g == Got::timeout)
        violation("hanging-future", "future of a destroyed transport hangs");
      else if (g == Got::value)
        violation("invented-response", "future of a destroyed transport got a value");
      cover("futures_after_destroy");
    }
    cover("cycles");
    distinct("cycle_kinds", seed() * 83 + static_cast<std::uint64_t>(i));
  }
}
// memory use must not grow with use
static void run_memory()
{
  auto f = unix_factory();
  auto lf = std::make_shared<scalopus::TransportLoopbackFactory>();
  auto server = f->serve();
  auto lserver = lf->serve();
  if (!server)
    harness_error("serve");
  server->addEndpoint(echo());
  lserver->addEndpoint(echo());
  auto c = connect_pid(f, getpid());
  auto lc = lf->connect(lserver->getAddress());
  Rng r(seed());
  auto batch = [&](int n) {
    for (int i = 0; i < n && !have_violation(); i++)
    {
      Watchdog w("memory", 40000);
      std::vector<Transport::PendingResponse> v;
      for (int k = 0; k < 20; k++)
      {
        v.push_back(c->request("echo", r.bytes(3000)));
        if (k < 5)
          v.push_back(lc->request("echo", r.bytes(3000)));
        c->request("echo", r.bytes(3000));
      }
      server->broadcast("none", r.bytes(3000));
      lserver->broadcast("none", r.bytes(3000));
      Data got;
      for (auto& p : v)
        if (await(p, got, 10000) != Got::value)
          violation("request-failed", "request failed in the memory loop");
      for (int k = 0; k < 3; k++)
      {
        auto x = connect_pid(f, getpid());
        auto y = lf->connect(lserver->getAddress());
      }
    }
    wait_until([&]() { return c->pendingRequests() == 0; }, 2000);
    sleep_ms(50);
    return mallinfo2().uordblks;
  };
  batch(8);
  const int n = 20 * scale();
  auto a = batch(n);
  auto b = batch(n);
  auto d = batch(n);
  cover("cycles", static_cast<std::uint64_t>(3 * n));
  distinct("cycle_kinds", seed() * 89);
  note("heap in use %zu %zu %zu", a, b, d);
  if (b > a && d > b && d - a > static_cast<std::size_t>(n) * 1500)
    violation("memory-growth", "heap in use keeps growing with use: %zu, %zu, %zu bytes", a, b, d);
  cover("memory_checks");
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "cycles";
  if (m == "cycles")
    run_cycles(false);
  else if (m == "loopback")
    run_cycles(true);
  else if (m == "failures")
    run_failures();
  else if (m == "nofile")
    run_nofile();
  else if (m == "pending")
    run_pending();
  else if (m == "memory")
    run_memory();
  return finish();
}
