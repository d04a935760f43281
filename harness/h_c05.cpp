// C05: loopback transport request contract.
#include "same.h"
using namespace vh;
using namespace tx;

static void set_injection(Rng& r)
{
  auto& i = inject();
  i.lock_delay = static_cast<unsigned>(r.below(30));
  i.lock_delay_us = static_cast<unsigned>(r.pick(std::vector<int>{ 20, 200, 2000 }));
}

static void run_mt()
{
  Rng r(seed());
  for (int round = 0; round < 4 * scale() && !have_violation(); round++)
  {
    Watchdog w("loopback-mt", 60000);
    if (round % 2)
      set_injection(r);
    else
      inject_off();
    std::mutex m;
    std::map<std::uint64_t, int> handled;
    std::atomic<int> bare{ 0 }, bare_sent{ 0 };
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    std::vector<Transport::Ptr> servers;
    const std::size_t ns = 1 + r.below(2);
    for (std::size_t s = 0; s < ns; s++)
    {
      auto server = f->serve();
      for (auto n : { std::string("echo"), std::string(""), std::string(500, 'x') })
        server->addEndpoint(ep(n, [&, n, s](Transport&, const Data& in, Data& out) {
          {
            std::lock_guard<std::mutex> l(m);
            handled[get64(in)]++;
          }
          if (in[8] < 8)
            std::this_thread::sleep_for(std::chrono::microseconds(in[8] * 100));
          if (in[9] == 7)
          {
            if (in[8] % 2)
              out = reply_for(n, in);
            return false;
          }
          if (in[9] == 6)
            throw std::runtime_error("endpoint failure");
          out = reply_for(n + std::to_string(s), in);
          return true;
        }));
      server->addEndpoint(ep("bare", [&](Transport&, const Data& in, Data& out) {
        if (!in.empty())
          violation("changed-request", "an empty loopback request arrived with %zu bytes", in.size());
        bare++;
        out.clear();
        return true;
      }));
      servers.push_back(server);
    }
    std::vector<scalopus::Destination::Ptr> dests;
    for (auto& s : servers)
      dests.push_back(s->getAddress());
    std::vector<std::thread> ts;
    std::mutex sm;
    std::map<std::uint64_t, int> sent;  // 0 answered, 1 declined, 2 throws, 3 unknown, 4 dropped
    for (int t = 0; t < 4; t++)
      ts.emplace_back([&, t]() {
        Rng q(seed() * 31 + static_cast<std::uint64_t>(round * 16 + t));
        for (int c = 0; c < 3 && !have_violation(); c++)
        {
          std::size_t s = q.below(ns);
          auto client = f->connect(dests[s]);
          if (!client)
          {
            violation("connect-failed", "cannot connect to a live loopback server");
            return;
          }
          struct P
          {
            std::string n;
            Data d;
            int kind;
            Transport::PendingResponse fut;
          };
          std::vector<P> ps;
          std::size_t n_req = 1 + q.below(40);
          for (std::size_t i = 0; i < n_req; i++)
          {
            P p;
            p.n = q.pick(std::vector<std::string>{ "echo", "", std::string(500, 'x') });
            p.d = q.bytes(10 + q.below(100));
            std::uint64_t key = (static_cast<std::uint64_t>(round) << 48) | (static_cast<std::uint64_t>(t) << 40) |
                                (static_cast<std::uint64_t>(c) << 32) | i;
            put64(p.d, 0, key);
            p.kind = q.chance(70) ? 0 : static_cast<int>(1 + q.below(4));
            p.d[9] = static_cast<std::uint8_t>(p.kind == 1 ? 7 : p.kind == 2 ? 6 : 8);
            if (p.kind == 3)
              p.n = "unknown";
            p.fut = client->request(p.n, p.d);
            {
              std::lock_guard<std::mutex> l(sm);
              sent[key] = p.kind;
            }
            if (p.kind == 4)
              p.fut.reset();
            ps.push_back(p);
            if (q.chance(10))
              std::this_thread::sleep_for(std::chrono::microseconds(q.below(12000)));
          }
          for (int i = static_cast<int>(q.below(4)); i > 0; i--)
          {
            Data got;
            bare_sent++;
            auto k = await(client->request("bare", {}), got, 15000);
            if (k != Got::value || !got.empty())
              violation("lost-response", "an empty loopback request got %s", k == Got::timeout ? "no answer" : k == Got::error ? "an error" : "bytes");
            cover("empty_requests");
          }
          for (auto& p : ps)
          {
            if (p.kind == 4)
              continue;
            Data got;
            auto k = await(p.fut, got, 15000);
            if (p.kind == 0)
            {
              if (k != Got::value)
                violation(k == Got::timeout ? "lost-response" : "failed-request", "loopback request got %s",
                          k == Got::timeout ? "no answer" : "an error");
              else if (got != reply_for(p.n + std::to_string(s), p.d))
                violation("wrong-response", "loopback request got the bytes of another request or server");
            }
            else if (p.kind == 3 && k != Got::error)
              violation("unknown-endpoint", "a request to an unknown endpoint got %s instead of an error",
                        k == Got::timeout ? "nothing" : "a response");
            else if (k == Got::value)
              violation("invented-response", "a request that was declined or failed got a response");
            cover("responses_checked");
            cover("kind_" + std::to_string(p.kind));
            distinct("exchanges", fnv(p.d));
            sample(fmt("loopback request kind %d, %zu bytes", p.kind, p.d.size()));
            if (have_violation())
              return;
          }
          // answered ones are not pending while their futures are still there
          if (q.chance(50))
            ps.clear();
          if (!wait_until([&]() { return client->pendingRequests() == 0; }, 5000))
            violation("pending-leak", "%zu loopback requests stay pending", client->pendingRequests());
        }
      });
    for (auto& t : ts)
      t.join();
    inject_off();
    if (bare != bare_sent)
      violation("handled-count", "%d empty requests were sent, %d handled", bare_sent.load(), bare.load());
    std::lock_guard<std::mutex> l(m);
    for (auto& x : sent)
    {
      int n = handled.count(x.first) ? handled[x.first] : 0;
      if (x.second <= 2 ? n != 1 : n > (x.second == 4 ? 1 : 0))
        violation("handled-count", "a loopback request of kind %d was handled %d times", x.second, n);
    }
  }
}

// clients and servers destroyed at bad moments
static void run_destroy()
{
  Rng r(seed());
  for (int i = 0; i < 25 * scale() && !have_violation(); i++)
  {
    Watchdog w("loopback-destroy", 40000);
    if (r.chance(50))
      set_injection(r);
    else
      inject_off();
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    auto server = f->serve();
    server->addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
      out = reply_for("echo", in);
      return true;
    }));
    std::weak_ptr<Transport> wserver = server;
    std::vector<Transport::Ptr> clients;
    for (std::size_t k = 1 + r.below(4); k > 0; k--)
    {
      clients.push_back(f->connect(server->getAddress()));
      clients.back()->addEndpoint(ep("bc", nullptr, [](Transport&, const Data& in, Data& out) {
        if (in.size() > 1 && in[1] % 2)
          std::this_thread::sleep_for(std::chrono::microseconds(in[0] * 20));
        out = in;
        return in.size() % 2 == 0;
      }));
    }
    std::vector<std::pair<Data, Transport::PendingResponse>> futs;
    for (auto& c : clients)
      for (std::size_t k = r.below(5); k > 0; k--)
      {
        auto d = r.bytes(20);
        futs.push_back({ d, c->request("echo", d) });
      }
    for (std::size_t k = r.below(6); k > 0; k--)
      server->broadcast("bc", r.bytes(2 + r.below(4)));
    auto dest = server->getAddress();
    const bool server_first = r.chance(60);
    if (server_first)
      server.reset();
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(14000)));
    while (!clients.empty())
    {
      std::size_t k = r.below(clients.size());
      clients.erase(clients.begin() + static_cast<long>(k));
      if (r.chance(30))
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
    }
    if (!server_first)
      server.reset();
    inject_off();
    for (auto& x : futs)
    {
      Data got;
      auto k = await(x.second, got, 8000);
      if (k == Got::timeout)
        violation("hanging-future", "a future of a destroyed loopback client neither fails nor gets ready");
      else if (k == Got::value && got != reply_for("echo", x.first))
        violation("wrong-response", "wrong response around destruction");
      cover("responses_checked");
      cover(k == Got::value ? "answered_before_destroy" : "failed_by_destroy");
    }
    if (!wait_until([&]() { return wserver.expired(); }, 5000))
      violation("server-kept", "the server lives on although nobody holds it");
    else
    {
      // nothing must be left running; a late connect yields nothing
      auto late = f->connect(dest);
      if (late)
        violation("connect-to-dead", "connecting to a destroyed loopback server returned a transport");
      if (!f->discover().empty())
        violation("discover-dead", "a destroyed loopback server is still discovered");
    }
    cover("destructions");
    distinct("exchanges", seed() * 1000003 + static_cast<std::uint64_t>(i));
  }
  if (!wait_until([&]() { return thread_count() <= 2 + 1; }, 5000))
    note("threads left: %zu", thread_count());
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "mt";
  if (m == "mt")
    run_mt();
  else if (m == "same")
  {
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    run_same([&]() { return f->serve(); }, [&](const Transport::Ptr& s) { return f->connect(s->getAddress()); });
  }
  else
    run_destroy();
  return finish();
}
