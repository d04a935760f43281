// C08: transports and endpoints are safe under concurrent use.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/trace_configurator.h>
#include "tx.h"
using namespace vh;
using namespace tx;

static void set_injection(Rng& r)
{
  auto& i = inject();
  i.lock_delay = static_cast<unsigned>(r.below(20));
  i.lock_delay_us = static_cast<unsigned>(r.pick(std::vector<int>{ 20, 100, 500 }));
  i.delay = static_cast<unsigned>(r.below(10));
  i.max_delay_us = 200;
}

struct Factory
{
  bool loopback;
  scalopus::TransportFactory::Ptr f;
  explicit Factory(bool l) : loopback(l)
  {
    if (l)
      f = std::make_shared<scalopus::TransportLoopbackFactory>();
    else
      f = unix_factory();
  }
  Transport::Ptr connect(const scalopus::Destination::Ptr& d)
  {
    return f->connect(d);
  }
};

// Everything at once from many threads
static void run_stress(bool loopback)
{
  Rng r(seed());
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w(loopback ? "stress-loopback" : "stress-unix", 90000);
    if (round % 2 || r.chance(30))
      set_injection(r);
    else
      inject_off();
    Factory fac(loopback);
    std::atomic<std::uint64_t> bc_sent{ 0 }, bc_got{ 0 }, replies{ 0 };
    std::atomic<bool> stop{ false };
    Transport::Ptr server, stable;
    Reset reset{ { [&]() { stable.reset(); }, [&]() { server.reset(); } } };
    server = fac.f->serve();
    if (!server)
      harness_error("cannot serve");
    server->addEndpoint(ep("echo", [](Transport& t, const Data& in, Data& out) {
      // re-entrant use of the serving transport
      if (!in.empty() && in[0] % 16 == 0)
        t.endpoints();
      out = reply_for("echo", in);
      return true;
    }));
    auto info = std::make_shared<scalopus::EndpointProcessInfo>();
    info->setProcessName("n");
    server->addEndpoint(info);
    server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
    server->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
    server->addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
    server->addEndpoint(ep("bc", [&](Transport&, const Data&, Data&) {
      replies++;
      return false;
    }));
    auto dest = server->getAddress();
    stable = fac.connect(dest);
    if (!stable)
      harness_error("cannot connect");
    stable->addEndpoint(ep("bc", nullptr, [&](Transport&, const Data& in, Data& out) {
      bc_got++;
      out = in;
      return !in.empty() && in[0] < 4;
    }));
    {
      Data got;
      if (await(stable->request("echo", { 1 }), got, 15000) != Got::value)
        violation("lost-service", "the first request got no answer");
    }
    const long ms = 900 * slow();
    const auto end = Clock::now() + std::chrono::milliseconds(ms);
    auto going = [&]() { return Clock::now() < end && !have_violation(); };
    std::vector<std::thread> ts;
    auto ask = [&](const Transport::Ptr& c, Rng& q) {
      auto d = q.bytes(1 + q.below(150));
      Data got;
      auto k = await(c->request("echo", d), got, 20000);
      if (k != Got::value)
        violation("lost-service", "a request got %s while other threads used the transport", k == Got::timeout ? "no answer" : "an error");
      else if (got != reply_for("echo", d))
        violation("wrong-response", "wrong response under concurrent use");
      cover("requests_checked");
      distinct("requests", fnv(d));
    };
    for (int t = 0; t < 2; t++)  // requests over the shared client
      ts.emplace_back([&, t]() {
        Rng q(seed() * 131 + static_cast<std::uint64_t>(round * 10 + t));
        while (going())
        {
          ask(stable, q);
          stable->pendingRequests();
          stable->isConnected();
          if (q.chance(10))
            stable->request("echo", { 1 });  // dropped at once
          if (q.chance(20))
            stable->endpoints();
        }
      });
    ts.emplace_back([&]() {  // short lived clients
      Rng q(seed() * 137 + static_cast<std::uint64_t>(round));
      while (going())
      {
        auto c = fac.connect(dest);
        if (!c)
        {
          violation("connect-failed", "cannot connect to a live server under concurrent use");
          break;
        }
        c->addEndpoint(ep("bc", nullptr, [](Transport&, const Data&, Data&) { return false; }));
        for (std::size_t i = q.below(4); i > 0; i--)
          ask(c, q);
        if (q.chance(50))
          c->request("echo", { 2 });
        cover("churned_clients");
      }
    });
    ts.emplace_back([&]() {  // two clients destroyed from another thread than the one that uses them
      Rng q(seed() * 139 + static_cast<std::uint64_t>(round));
      while (going())
      {
        auto c = fac.connect(dest);
        if (!c)
          continue;
        auto d = q.bytes(20);
        auto p = c->request("echo", d);
        std::thread killer([c = std::move(c)]() mutable { c.reset(); });
        Data got;
        auto k = await(p, got, 20000);
        if (k == Got::timeout)
          violation("hanging-future", "the future of a destroyed client hangs");
        else if (k == Got::value && got != reply_for("echo", d))
          violation("wrong-response", "wrong response around destruction");
        killer.join();
        cover("foreign_destroys");
      }
    });
    ts.emplace_back([&]() {  // broadcasts
      Rng q(seed() * 149 + static_cast<std::uint64_t>(round));
      while (going())
      {
        for (int i = 0; i < 10; i++)
        {
          auto d = q.bytes(1 + q.below(60));
          server->broadcast("bc", d);
          bc_sent++;
        }
        if (!wait_until([&]() { return bc_got + 100 >= bc_sent || have_violation(); }, 20000))
          violation("lost-service", "broadcasts no longer arrive");
        cover("broadcasts", 10);
      }
    });
    ts.emplace_back([&]() {  // changing the endpoint sets
      Rng q(seed() * 151 + static_cast<std::uint64_t>(round));
      int n = 0;
      while (going())
      {
        auto name = "extra" + std::to_string(n++ % 50);
        server->addEndpoint(ep(name, [](Transport&, const Data&, Data& out) {
          out = { 9 };
          return true;
        }));
        if (!server->endpoints().count(name) || !server->getEndpoint(name))
          violation("endpoint-missing", "an endpoint that was added is not listed");
        stable->addEndpoint(ep("c" + name, nullptr, nullptr));
        Data got;
        if (await(stable->request(name, { 1 }), got, 20000) != Got::value || got != Data{ 9 })
          violation("endpoint-missing", "an endpoint that was added does not answer");
        info->setProcessName("name" + std::to_string(n));
        scalopus::StaticStringTracker::getInstance().insert(static_cast<unsigned>(n % 100), name);
        cover("endpoint_changes");
      }
    });
    ts.emplace_back([&]() {  // provided endpoints, remotely
      Rng q(seed() * 157 + static_cast<std::uint64_t>(round));
      auto c = fac.connect(dest);
      if (!c)
        return;
      auto pi = scalopus::EndpointProcessInfo::factory(c);
      auto in = scalopus::EndpointIntrospect::factory(c);
      auto tm = scalopus::EndpointTraceMapping::factory(c);
      auto tc = scalopus::EndpointTraceConfigurator::factory(c);
      while (going())
      {
        auto i = pi->processInfo();
        if (i.pid != 0 && i.pid != getpid())
          violation("wrong-info", "process info holds pid %d", i.pid);
        auto s = in->supported();
        if (!s.empty() && std::find(s.begin(), s.end(), "echo") == s.end())
          violation("endpoint-missing", "introspection misses an endpoint");
        tm->mapping();
        auto st = tc->getTraceState();
        st.set_process_state = true;
        tc->setTraceState(st);
        cover("remote_views");
      }
    });
    ts.emplace_back([&]() {  // local state behind the provided endpoints
      while (going())
      {
        std::thread t([]() {
          scalopus::ThreadNameTracker::getInstance().setCurrentName("short lived");
          scalopus::TraceConfigurator::getInstance()->getThreadState();
        });
        t.join();
        scalopus::TraceConfigurator::getInstance()->setProcessState(true);
        fac.f->discover();
        cover("local_changes");
      }
    });
    for (auto& t : ts)
      t.join();
    inject_off();
    if (!have_violation() && !wait_until([&]() { return bc_got == bc_sent; }, 20000))
      violation("lost-service", "%" PRIu64 " of %" PRIu64 " broadcasts arrived", bc_got.load(), bc_sent.load());
    cover("replies_seen", replies.load());
    cover("stress_rounds");
  }
}

// Endpoints that use transports while they handle a message
static void run_reentrant(bool loopback)
{
  Rng r(seed());
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Watchdog w(loopback ? "reentrant-loopback" : "reentrant-unix", 60000);
    if (round % 2)
      set_injection(r);
    else
      inject_off();
    Factory fac(loopback);
    auto side_factory = std::make_shared<scalopus::TransportLoopbackFactory>();
    std::mutex m;
    std::vector<std::pair<Data, Transport::PendingResponse>> issued;  // by endpoints
    std::atomic<int> added{ 0 }, bc_got{ 0 }, bc_sent{ 0 }, nested{ 0 }, handled{ 0 }, issued_n{ 0 };
    Transport::Ptr server, c1, c2, side_server, side_client;
    Reset reset{ { [&]() { c1.reset(); }, [&]() { c2.reset(); }, [&]() { server.reset(); }, [&]() { side_client.reset(); },
                   [&]() { side_server.reset(); } } };
    side_server = side_factory->serve();
    side_server->addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
      out = reply_for("side", in);
      return true;
    }));
    side_client = side_factory->connect(side_server->getAddress());
    server = fac.f->serve();
    if (!server)
      harness_error("cannot serve");
    server->addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
      out = reply_for("echo", in);
      return true;
    }));
    // handling a request: broadcasts, changes the endpoints, lists them, asks another server and waits for it
    server->addEndpoint(ep("busy", [&](Transport& t, const Data& in, Data& out) {
      handled++;
      switch (in[0] % 6)
      {
        case 5:
        {
          // asks this very server, without waiting for it
          auto& own = in.size() % 2 ? c1 : c2;
          own->pendingRequests();
          Data d = in;
          d[0] = 4;
          auto p = own->request("busy", d);
          issued_n++;
          std::lock_guard<std::mutex> l(m);
          issued.push_back({ d, p });
          break;
        }
        case 0:
          t.broadcast("bc", in);
          bc_sent++;
          break;
        case 1:
        {
          auto n = "dyn" + std::to_string(added++);
          t.addEndpoint(ep(n, [](Transport&, const Data&, Data& o) {
            o = { 5 };
            return true;
          }));
          if (!t.getEndpoint(n))
            violation("endpoint-missing", "an endpoint added while handling a request is missing");
          break;
        }
        case 2:
          t.endpoints();
          t.pendingRequests();
          t.isConnected();
          t.getAddress();
          break;
        case 3:
        {
          Data got;
          auto k = await(side_client->request("echo", in), got, 20000);
          if (k != Got::value || got != reply_for("side", in))
            violation("nested-request", "a request made by an endpoint while handling one got no proper answer");
          nested++;
          break;
        }
        default:
          break;
      }
      out = reply_for("busy", in);
      return true;
    }));
    auto dest = server->getAddress();
    c1 = fac.connect(dest);
    c2 = fac.connect(dest);
    if (!c1 || !c2)
      harness_error("cannot connect");
    for (auto* c : { &c1, &c2 })
      (*c)->addEndpoint(ep("bc", nullptr, [&](Transport& t, const Data& in, Data&) {
        bc_got++;
        // handling a broadcast: issues a request on the same transport, adds endpoints, lists them
        if (in.size() > 1 && in[1] % 2 == 0)
        {
          Data d = in;
          d[0] = 4;
          auto p = t.request("busy", d);
          issued_n++;
          std::lock_guard<std::mutex> l(m);
          issued.push_back({ d, p });
        }
        if (in.size() > 1 && in[1] % 3 == 0)
          t.addEndpoint(ep("cdyn", nullptr, nullptr));
        t.endpoints();
        t.pendingRequests();
        return false;
      }));
    {
      Data got;
      for (auto* c : { &c1, &c2 })
        if (await((*c)->request("echo", { 1 }), got, 15000) != Got::value)
          violation("lost-service", "the first request got no answer");
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; t++)
      ts.emplace_back([&, t]() {
        Rng q(seed() * 17 + static_cast<std::uint64_t>(round * 5 + t));
        auto& c = t == 0 ? c1 : c2;
        for (int i = 0; i < 60 && !have_violation(); i++)
        {
          auto d = q.bytes(2 + q.below(100));
          Data got;
          auto k = await(c->request("busy", d), got, 20000);
          if (k != Got::value)
            violation(k == Got::timeout ? "deadlock" : "lost-service", "a request to an endpoint that uses the transport (%d) got %s", d[0] % 6,
                      k == Got::timeout ? "no answer" : "an error");
          else if (got != reply_for("busy", d))
            violation("wrong-response", "wrong response from an endpoint that uses the transport");
          cover("requests_checked");
          cover(fmt("reentrant_%d", d[0] % 6));
          distinct("requests", fnv(d));
        }
      });
    for (auto& t : ts)
      t.join();
    if (!have_violation() && !wait_until([&]() { return bc_got == 2 * bc_sent; }, 20000))
      violation("lost-service", "%d broadcasts made by an endpoint led to %d deliveries at two clients", bc_sent.load(), bc_got.load());
    if (!have_violation())
    {
      decltype(issued) all;
      wait_until([&]() {
        std::lock_guard<std::mutex> l(m);
        return static_cast<int>(issued.size()) == issued_n;
      }, 5000);
      {
        std::lock_guard<std::mutex> l(m);
        all.swap(issued);
      }
      for (auto& x : all)
      {
        Data got;
        auto k = await(x.second, got, 20000);
        if (k != Got::value || got != reply_for("busy", x.first))
          violation("nested-request", "a request issued by an endpoint while handling a broadcast got %s",
                    k == Got::timeout ? "no answer" : k == Got::error ? "an error" : "a wrong answer");
        cover("issued_by_endpoints");
      }
      for (int i = 0; i < added && i < 20 && !have_violation(); i++)
      {
        Data got;
        if (await(c1->request("dyn" + std::to_string(i), {}), got, 20000) != Got::value)
          violation("endpoint-missing", "an endpoint added while handling a request does not answer");
      }
    }
    inject_off();
    cover("reentrant_rounds");
  }
}

// loopback: endpoints of clients run on the server's thread, so they may even wait for their own requests; the last
// reference to a client or server may be dropped anywhere
static void run_loop_special()
{
  Rng r(seed());
  for (int i = 0; i < 20 * scale() && !have_violation(); i++)
  {
    Watchdog w("loopback-special", 40000);
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    std::atomic<int> done{ 0 };
    auto server = f->serve();
    server->addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
      out = reply_for("echo", in);
      return true;
    }));
    auto c = f->connect(server->getAddress());
    auto holder = std::make_shared<Transport::Ptr>(c);
    const bool drop = r.chance(50);
    c->addEndpoint(ep("bc", nullptr, [&, holder, drop](Transport& t, const Data& in, Data&) {
      Data got;
      auto k = await(t.request("echo", in), got, 15000);
      if (k != Got::value || got != reply_for("echo", in))
        violation("nested-request", "a loopback request an endpoint made and waited for while handling a broadcast failed");
      if (drop)
        holder->reset();
      done++;
      return false;
    }));
    c.reset();
    server->broadcast("bc", r.bytes(5));
    if (r.chance(50))
      server.reset();
    if (!wait_until([&]() { return done > 0 || (!server && have_violation()); }, server ? 15000 : 300) && server)
      violation("lost-service", "the broadcast did not arrive");
    holder->reset();
    if (server)
      server.reset();
    sleep_ms(r.below(30));
    cover("special_rounds");
    cover("reentrant_rounds");
    distinct("requests", seed() * 31 + static_cast<std::uint64_t>(i));
  }
}

// One factory used by everybody at once: serving, looking, connecting, asking.
static void run_factory()
{
  for (int i = 0; i < 4 * scale() && !have_violation(); i++)
  {
    Watchdog w("loopback-factory", 40000);
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    std::vector<std::thread> ts;
    for (int t = 0; t < 6; t++)
      ts.emplace_back([&, t]() {
        Rng r(seed() * 57 + static_cast<std::uint64_t>(i * 10 + t));
        std::vector<Transport::Ptr> mine;
        for (int k = 0; k < 12 && !have_violation(); k++)
        {
          auto s = f->serve();
          s->addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
            out = reply_for("echo", in);
            return true;
          }));
          mine.push_back(s);
          for (auto& d : f->discover())
            if (r.chance(20))
              if (auto c = f->connect(d))
              {
                Data q = r.bytes(12), got;
                auto a = await(c->request("echo", q), got, 15000);
                // its owner may not have added the endpoint yet
                if (a == Got::timeout || (a == Got::value && got != reply_for("echo", q)))
                  violation("nested-request", "a loopback request to a server another thread made %s", a == Got::timeout ? "got no answer" : "got other bytes");
                cover("requests_checked");
              }
          auto own = f->connect(s->getAddress());
          Data q = r.bytes(12), got;
          if (!own || await(own->request("echo", q), got, 15000) != Got::value || got != reply_for("echo", q))
            violation("lost-service", "a thread cannot use the server it made while others use the factory");
          cover("factory_uses");
          distinct("requests", fnv(q));
          if (r.chance(50))
            mine.clear();
        }
      });
    for (auto& t : ts)
      t.join();
  }
}
static int role_flood()
{
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    return 3;
  std::atomic<int> back{ 0 };
  server->addEndpoint(ep("bc", [&](Transport&, const Data&, Data&) {
    back++;
    return false;
  }));
  server->addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
    out = in;
    return true;
  }));
  auto c = connect_pid(f, getpid());
  if (!c)
    return 3;
  c->addEndpoint(ep("bc", nullptr, [](Transport&, const Data& in, Data& out) {
    out = in;
    return true;
  }));
  Data got;
  if (await(c->request("echo", { 1 }), got, 15000) != Got::value)
    return 3;
  for (int i = 0; i < 5000; i++)
    server->broadcast("bc", Data(1000, 3));
  wait_until([&]() { return back == 5000; }, 600000);
  printf("done\n");
  fflush(stdout);
  _exit(0);
}
static void run_known()
{
  auto c = spawn({ "flood" });
  std::string l;
  if (!c.read_line(l, 8000))
    violation("deadlock:broadcast-reply-flood", "5000 broadcasts of 1000 bytes to a client whose endpoint answers each one: both "
                                                "sides end up blocked sending to each other");
  cover("finding_scenarios");
  c.kill9();
  c.wait_exit(5000);
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "stress";
  bool loop = argc > 2 && std::string(argv[2]) == "loopback";
  if (m == "flood")
    return role_flood();
  if (m == "stress")
    run_stress(loop);
  else if (m == "reentrant")
    run_reentrant(loop);
  else if (m == "special")
  {
    run_loop_special();
    run_factory();
  }
  else
    run_known();
  return finish();
}
