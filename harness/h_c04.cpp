// C04: peers dying at any byte.
#include <spawn.h>
#include "tx.h"
using namespace vh;
using namespace tx;

// raw clients die at byte k of a frame sent to a real server
static void run_server()
{
  Rng r(seed());
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  std::mutex m;
  std::set<std::uint64_t> complete;   // hashes of all requests completely sent
  std::uint64_t bad = 0;
  std::map<std::uint64_t, int> handled;
  auto h = [&](const std::string& n) {
    return [&, n](Transport&, const Data& in, Data& out) {
      std::lock_guard<std::mutex> l(m);
      std::uint64_t key = fnv(in.data(), in.size(), fnv(n));
      if (!complete.count(key))
      {
        bad++;
        violation("truncated-delivered", "endpoint '%s' was given %zu bytes nobody completely sent: %s", n.c_str(), in.size(),
                  hex(in).c_str());
      }
      handled[key]++;
      out = reply_for(n, in, in.size() > 4 && in[4] == 9 ? 400000 : 100);
      return true;
    };
  };
  server->addEndpoint(ep("ep", h("ep")));
  server->addEndpoint(ep("", h("")));
  server->addEndpoint(ep("e", h("e")));
  auto good = connect_pid(f, getpid());
  if (!good)
    harness_error("connect");
  Reset reset{ { [&]() { good.reset(); }, [&]() { server.reset(); } } };
  auto announce = [&](const std::string& n, const Data& d) {
    std::lock_guard<std::mutex> l(m);
    complete.insert(fnv(d.data(), d.size(), fnv(n)));
  };
  auto check_good = [&](const char* when) {
    Data d = r.bytes(20);
    d[4] = 0;
    announce("ep", d);
    Data got;
    auto k = await(good->request("ep", d), got, 15000);
    if (k != Got::value || got != reply_for("ep", d, 100))
      violation("other-client-disturbed", "after %s another client's request got %s", when,
                k == Got::timeout ? "no answer" : k == Got::error ? "an error" : "a wrong answer");
    cover("survivor_checks");
  };
  auto one = [&](const std::string& name, std::size_t len, std::size_t k, int how, bool preceded) {
    Raw c;
    if (!wait_until([&]() { return c.connect(getpid()); }, 5000))
    {
      violation("not-accepting", "the server no longer accepts connections");
      return;
    }
    RawFrame q;
    q.id = 1 + r.below(5);
    q.name = name;
    q.data = r.bytes(len);
    if (q.data.size() > 4)
      q.data[4] = r.chance(30) ? 9 : 0;
    Bytes b;
    if (preceded)
    {
      RawFrame p;
      p.id = 77;
      p.name = "ep";
      p.data = r.bytes(12);
      p.data[4] = 0;
      announce("ep", p.data);
      b = encode_frame(p);
      k += b.size();
    }
    auto e = encode_frame(q);
    b.insert(b.end(), e.begin(), e.end());
    k = std::min(k, b.size());
    if (k == b.size())
      announce(q.name, q.data);
    c.send_bytes(b.data(), k);
    if (how == 1)
    {
      // stop sending, but keep reading until the server hangs up
      syscall(SYS_shutdown, c.fd, SHUT_WR);
      RawFrame a;
      int n = 0;
      int res;
      while ((res = c.recv_frame(a, 5000 * slow())) == 1)
        n++;
      if (res == 0)
        violation("half-closed-kept", "the server kept a connection whose peer stopped sending");
    }
    else if (how == 2)
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
    c.close();
    cover("deaths");
    distinct("death_points", fnv(&k, sizeof k, fnv(name) + static_cast<std::uint64_t>(how) * 3 + (preceded ? 1 : 0)));
  };
  for (int rep = 0; rep < scale(); rep++)
    for (const char* name : { "ep", "" })
      for (std::size_t len : { std::size_t(0), std::size_t(3), std::size_t(24) })
        for (std::size_t k = 0; k <= 14 + strlen(name) + len && !have_violation(); k++)
        {
          Watchdog w("server-death", 60000);
          one(name, len, k, static_cast<int>(r.below(3)), r.chance(30));
          check_good("a client died");
        }
  sample("raw clients closed their connection after every prefix of several frames");
  for (int i = 0; i < 20 * scale() && !have_violation(); i++)
  {
    Watchdog w("server-death-big", 60000);
    std::size_t len = 1000 + r.below(200000);
    one("ep", len, 14 + r.below(len + 3), static_cast<int>(r.below(3)), r.chance(50));
    check_good("a client died inside a large frame");
  }
  // clients that vanish while their response is being sent, several at a time
  for (int i = 0; i < 6 * scale() && !have_violation(); i++)
  {
    Watchdog w("server-death-response", 60000);
    std::vector<Raw> cs;
    for (int j = 0; j < 4; j++)
    {
      Raw c;
      if (!wait_until([&]() { return c.connect(getpid()); }, 5000))
        break;
      for (int n = 0; n < 3; n++)
      {
        RawFrame q;
        q.id = static_cast<std::uint64_t>(n + 1);
        q.name = "ep";
        q.data = r.bytes(24);
        q.data[4] = 9;
        announce("ep", q.data);
        c.send_frame(q);
      }
      if (r.chance(50))
        c.close();
      else
        cs.push_back(std::move(c));
    }
    sleep_ms(static_cast<long>(r.below(4)));
    cs.clear();
    check_good("clients vanished while being answered");
  }
}

// a raw server dies at byte k of what it sends to a real client
static void run_client()
{
  Rng r(seed());
  auto f = unix_factory();
  const pid_t fake = 7000000 + static_cast<pid_t>(getpid() % 100000) * 10;
  int ls = Raw::listen_as(fake);
  if (ls < 0)
    harness_error("bind");
  // the standard input of a process may be a socket
  int input[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, input) != 0 || dup2(input[0], 0) != 0)
    harness_error("socketpair");
  auto dest = find_dest(f, fake);
  if (!dest)
    harness_error("raw server not discovered");
  auto one = [&](std::size_t len, std::size_t k, int kind, int how) {
    Watchdog w("client-death", 60000);
    auto client = f->connect(dest);
    if (!client)
      harness_error("connect");
    Raw peer(static_cast<int>(syscall(SYS_accept4, ls, nullptr, nullptr, SOCK_CLOEXEC)));
    std::atomic<int> unsol{ 0 };
    std::atomic<int> unsol_ok{ 0 };
    RawFrame a;
    a.data = r.bytes(len);
    for (const char* n : { "ep", "" })
      client->addEndpoint(ep(n, nullptr, [&](Transport&, const Data& in, Data&) {
        unsol++;
        if (in == a.data)
          unsol_ok++;
        return false;
      }));
    std::string name = r.chance(70) ? "ep" : "";
    auto fut = client->request(name, r.bytes(10));
    auto second = client->request("never", r.bytes(5));
    RawFrame q;
    if (peer.recv_frame(q, 10000 * slow()) != 1)
    {
      violation("request-lost", "request did not reach the raw server");
      return;
    }
    a.id = kind == 0 ? q.id : 0;
    a.name = name;
    auto b = encode_frame(a);
    k = std::min(k, b.size());
    peer.send_bytes(b.data(), k);
    if (how == 1)
    {
      sleep_ms(3);
    }
    else if (how == 2)
      syscall(SYS_shutdown, peer.fd, SHUT_WR);
    if (how != 2)
      peer.close();
    if (!wait_until([&]() { return !client->isConnected(); }, 8000))
      violation("still-connected", "client does not notice that its server is gone (died after %zu of %zu bytes)", k, b.size());
    bool whole = k == b.size();
    Data got;
    bool ready = fut->wait_for(std::chrono::milliseconds(0)) == std::future_status::ready;
    if (ready)
    {
      auto g = await(fut, got, 100);
      if (g == Got::value && !(kind == 0 && whole && got == a.data))
        violation("truncated-response", "request got %zu bytes although the server sent only %zu of %zu bytes", got.size(), k,
                  b.size());
    }
    else if (kind == 0 && whole)
      violation("response-lost", "the complete response sent before the server died was lost");
    if (second->wait_for(std::chrono::milliseconds(0)) == std::future_status::ready &&
        await(second, got, 100) == Got::value)
      violation("invented-response", "a request that was never answered got %zu bytes", got.size());
    if (unsol != ((kind == 1 && whole) ? 1 : 0) || unsol != unsol_ok)
      violation("truncated-unsolicited", "endpoint got %d messages (%d intact) although the server sent %zu of %zu bytes",
                unsol.load(), unsol_ok.load(), k, b.size());
    // later requests fail, promptly
    auto t0 = Clock::now();
    bool failed = false;
    try
    {
      auto late = client->request("ep", r.bytes(3));
      auto g = await(late, got, 5000);
      failed = g == Got::error;
      if (g == Got::timeout)
        violation("late-request-hangs", "a request after the server died neither failed nor returned");
    }
    catch (const std::exception&)
    {
      failed = true;
    }
    if (!failed && !have_violation())
      violation("late-request-succeeds", "a request after the server died got an answer");
    cover("late_requests");
    (void)t0;
    // what failed is not outstanding, although its future is still there
    const auto left = client->pendingRequests();
    std::vector<Transport::PendingResponse> held;
    for (std::size_t i = r.below(4); i > 0 && !have_violation(); i--)
    {
      try
      {
        held.push_back(client->request("ep", r.bytes(3)));
        if (await(held.back(), got, 5000) != Got::error)
          violation("late-request-hangs", "a further request after the server died did not fail");
      }
      catch (const std::exception&)
      {
      }
      if (client->pendingRequests() > left)
        violation("late-request-pending", "a request that failed is listed as pending");
    }
    char stray[64];
    if (recv(input[1], stray, sizeof stray, MSG_DONTWAIT) > 0)
      violation("stray-bytes", "a request after the server died was written to the standard input of the process");
    client.reset();
    cover("deaths");
    distinct("death_points", fnv(&k, sizeof k, static_cast<std::uint64_t>(kind * 8 + how + 100)));
  };
  for (int rep = 0; rep < scale(); rep++)
    for (int kind = 0; kind < 2; kind++)
      for (std::size_t len : { std::size_t(0), std::size_t(9) })
        for (std::size_t k = 0; k <= 16 + len && !have_violation(); k++)
          one(len, k, kind, static_cast<int>(r.below(3)));
  for (int i = 0; i < 10 * scale() && !have_violation(); i++)
  {
    std::size_t len = 4000 + r.below(100000);
    one(len, 16 + r.below(len + 1), static_cast<int>(r.below(2)), static_cast<int>(r.below(3)));
  }
  syscall(SYS_close, ls);
}

// real processes killed at random moments
static int child_server()
{
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("child cannot serve");
  server->addEndpoint(ep("ep", [](Transport&, const Data& in, Data& out) {
    // a served process may well run other programs, which must not keep its connections alive
    static pid_t helper = 0;
    if (helper == 0)
    {
      const char* argv[] = { "sleep", "25", nullptr };
      posix_spawnp(&helper, "sleep", nullptr, nullptr, const_cast<char**>(argv), environ);
    }
    out = reply_for("ep", in, 60000);
    return true;
  }));
  printf("up\n");
  fflush(stdout);
  for (std::uint64_t i = 0;; i++)
  {
    Data d = reply_for("bc", Data(8, static_cast<std::uint8_t>(i)), 30000);
    server->broadcast("bc", d);
    std::this_thread::sleep_for(std::chrono::microseconds(500));
  }
}
static int child_client(pid_t pid)
{
  auto f = unix_factory();
  auto c = connect_pid(f, pid);
  if (!c)
    return 0;
  Rng r(seed());
  printf("up\n");
  fflush(stdout);
  for (;;)
  {
    std::vector<Transport::PendingResponse> v;
    for (int i = 0; i < 5; i++)
      v.push_back(c->request("ep", r.bytes(8 + r.below(50000))));
    Data got;
    await(v.back(), got, 2000);
  }
}
static void run_kill()
{
  Rng r(seed());
  auto f = unix_factory();
  // servers die
  for (int i = 0; i < 6 * scale() && !have_violation(); i++)
  {
    Watchdog w("kill-server", 60000);
    auto kid = spawn({ "child_server" });
    std::string l;
    if (!kid.read_line(l, 20000) || l != "up")
      harness_error("child server did not start");
    auto c = connect_pid(f, kid.pid);
    if (!c)
      harness_error("cannot connect to child");
    std::atomic<int> bcs{ 0 };
    std::vector<Data> known;
    for (int b = 0; b < 256; b++)
      known.push_back(reply_for("bc", Data(8, static_cast<std::uint8_t>(b)), 30000));
    c->addEndpoint(ep("bc", nullptr, [&](Transport&, const Data& in, Data&) {
      bcs++;
      if (std::find(known.begin(), known.end(), in) == known.end())
        violation("corrupt-broadcast", "a broadcast of %zu bytes nobody made was delivered", in.size());
      return false;
    }));
    std::atomic<bool> stop{ false };
    std::thread t([&]() {
      Rng q(seed() + static_cast<std::uint64_t>(i));
      while (!stop && c->isConnected())
      {
        Data d = q.bytes(8 + q.below(30000)), got;
        auto fut = c->request("ep", d);
        for (int n = 0; n < 400 && !stop; n++)
          if (fut->wait_for(std::chrono::milliseconds(5)) == std::future_status::ready)
            break;
        if (fut->wait_for(std::chrono::milliseconds(0)) == std::future_status::ready && await(fut, got, 10) == Got::value)
        {
          if (got != reply_for("ep", d, 60000))
            violation("corrupt-response", "wrong response around the death of the server");
          cover("responses_before_death");
        }
      }
    });
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(30000)));
    if (i % 2)
    {
      // certainly after it answered something
      Data got;
      await(c->request("ep", Data(9)), got, 10000);
    }
    kid.kill9();
    kid.wait_exit(5000);
    if (!wait_until([&]() { return !c->isConnected(); }, 8000))
      violation("still-connected", "client does not notice the killed server");
    stop = true;
    t.join();
    if (!have_violation())
    {
      Data got;
      bool failed = false;
      try
      {
        failed = await(c->request("ep", Data(9)), got, 5000) == Got::error;
      }
      catch (const std::exception&)
      {
        failed = true;
      }
      if (!failed)
        violation("late-request", "a request after the server was killed did not fail");
    }
    c.reset();
    cover("kills");
    cover("deaths");
  }
  // clients die
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  server->addEndpoint(ep("ep", [](Transport&, const Data& in, Data& out) {
    out = reply_for("ep", in, 60000);
    return true;
  }));
  auto good = connect_pid(f, getpid());
  if (!good)
    harness_error("cannot connect");
  for (int i = 0; i < 5 * scale() && !have_violation(); i++)
  {
    Watchdog w("kill-client", 60000);
    std::vector<Child> kids;
    for (int k = 0; k < 3; k++)
      kids.push_back(spawn({ "child_client", std::to_string(getpid()) }));
    std::string l;
    for (auto& k : kids)
      k.read_line(l, 10000);
    for (int n = 0; n < 6; n++)
    {
      Data d = r.bytes(8 + r.below(20000)), got;
      auto g = await(good->request("ep", d), got, 15000);
      if (g != Got::value || got != reply_for("ep", d, 60000))
        violation("other-client-disturbed", "a client got %s while other clients were killed",
                  g == Got::value ? "a wrong answer" : "no answer");
      if (n < 3)
        kids[static_cast<std::size_t>(n)].kill9();
      server->broadcast("bc", r.bytes(r.below(60000)));
      cover("survivor_checks");
    }
    for (auto& k : kids)
    {
      k.kill9();
      k.wait_exit(5000);
      cover("kills");
      cover("deaths");
    }
  }
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "server";
  if (m == "server")
    run_server();
  else if (m == "client")
    run_client();
  else if (m == "kill")
    run_kill();
  else if (m == "child_server")
    return child_server();
  else if (m == "child_client")
    return child_client(atoi(argv[2]));
  return finish();
}
