// C10: endpoint manager converges to exactly the live servers and endpoints.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <nlohmann/json.hpp>
#include "tx.h"
using namespace vh;
using namespace tx;
using json = nlohmann::json;
using scalopus::EndpointManagerPoll;

static Endpoint::Ptr named_endpoint(const std::string& n)
{
  return ep(n, [n](Transport&, const Data& in, Data& out) {
    out = reply_for(n, in);
    return true;
  });
}

// ------------------------------------------------------------------ real processes
static int role_node()
{
  auto f = unix_factory();
  Transport::Ptr server;
  int ls = -1;
  std::atomic<bool> raw_stop{ false };
  std::thread raw_thread;
  char buf[4096];
  while (fgets(buf, sizeof buf, stdin))
  {
    std::string line = buf;
    while (!line.empty() && line.back() == '\n')
      line.pop_back();
    std::string res = "ok";
    if (line == "serve" || line == "servebare")
    {
      server = f->serve();
      if (!server)
        res = "fail";
      else if (line == "serve")
        server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
    }
    else if (line == "stop")
      server.reset();
    else if (line.rfind("add ", 0) == 0)
      server->addEndpoint(named_endpoint(line.substr(4)));
    else if (line.rfind("raw ", 0) == 0)
    {
      // not a scalopus server, but something that looks like one
      int kind = atoi(line.c_str() + 4);
      ls = Raw::listen_as(getpid());
      if (ls < 0)
        res = "fail";
      else
        raw_thread = std::thread([ls, kind]() {
          Rng r(seed() + static_cast<std::uint64_t>(getpid()));
          std::vector<std::thread> ts;
          for (;;)
          {
            int fd = accept(ls, nullptr, nullptr);
            if (fd < 0)
              return;
            if (kind == 0)
            {
              syscall(SYS_close, fd);  // hangs up at once
              continue;
            }
            ts.emplace_back([fd, kind]() {
              Raw c(fd);
              Rng q(static_cast<std::uint64_t>(fd) * 31 + seed());
              RawFrame fr;
              while (c.recv_frame(fr, 100000) == 1)
              {
                if (kind == 1)
                  continue;  // never answers
                if (kind == 2)
                  fr.data = q.bytes(q.below(60));  // garbage
                else if (kind == 3)
                  fr.data = json::to_bson(json::object({ { "endpoints", 5 } }));
                else if (kind == 4)
                  fr.data = json::to_bson(json::object({ { "endpoints", json::array({ 1, "alpha", nullptr }) } }));
                else if (kind == 5)
                  fr.data = json::to_bson(json::object());
                else if (kind == 6)
                  fr.data.clear();
                else
                  return;  // dies when asked
                if (!c.send_frame(fr))
                  return;
              }
            });
          }
        });
    }
    printf("%s\n", res.c_str());
    fflush(stdout);
  }
  _exit(0);
}
static bool command(Child& c, const std::string& s)
{
  std::string l;
  if (!c.send_line(s) || !c.read_line(l, 15000))
    harness_error("node process does not answer to %s", s.c_str());
  return l == "ok";
}

static void run_procs()
{
  Rng r(seed());
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w("manager", 120000);
    auto f = unix_factory();
    auto mgr = std::make_shared<EndpointManagerPoll>(f);
    mgr->addEndpointFactory<scalopus::EndpointProcessInfo>();
    for (auto n : { "alpha", "beta", "gamma" })
      mgr->addEndpointFactory(n, [n](const Transport::Ptr& t) {
        auto e = named_endpoint(n);
        e->setTransport(t);
        return e;
      });
    // endpoints that cannot be made or are not known come before, between and after the others
    for (auto n : { "nothing", "a", "alphabet" })
      mgr->addEndpointFactory(n, [](const Transport::Ptr&) { return nullptr; });
    std::set<std::string> registered = { "alpha", "beta", "gamma", "introspect" };
    struct Node
    {
      Child c;
      int state = 0;  // 0 idle, 1 serving, 2 serving without introspection, 3 raw
      int raw = -1;
      std::set<std::string> offered;
    };
    std::vector<std::unique_ptr<Node>> nodes;
    for (int i = 0; i < 5; i++)
    {
      nodes.emplace_back(new Node);
      nodes.back()->c = spawn({ "node" });
    }
    mgr->startPolling(0.01);
    bool late_factory = false;
    for (int step = 0; step < 30 && !have_violation(); step++)
    {
      // a burst of changes, then convergence is required
      std::string what;
      for (std::size_t burst = 1 + r.below(4); burst > 0; burst--)
      {
        auto& n = *nodes[r.below(nodes.size())];
        switch (r.below(8))
        {
          case 0:
          case 1:
          case 2:
            if (n.state == 0)
            {
              bool bare = r.chance(10), raw = r.chance(40);
              if (raw)
              {
                static int kinds = 0;
                n.raw = kinds++ % 8;
                if (!command(n.c, "raw " + std::to_string(n.raw)))
                  harness_error("raw");
                n.state = 3;
                what += fmt(" hostile-server-%d", n.raw);
                cover(fmt("hostile_%d", n.raw));
              }
              else
              {
                if (!command(n.c, bare ? "servebare" : "serve"))
                  harness_error("node cannot serve");
                n.state = bare ? 2 : 1;
                n.offered = { "introspect" };
                what += " serve";
                for (auto e : { "alpha", "beta", "gamma", "nothing", "unknown" })
                  if (r.chance(40))
                  {
                    command(n.c, std::string("add ") + e);
                    n.offered.insert(e);
                  }
              }
            }
            break;
          case 3:
            if (n.state == 1)
            {
              auto e = r.pick(std::vector<std::string>{ "alpha", "beta", "gamma", "late" });
              command(n.c, "add " + e);
              n.offered.insert(e);
              what += " add-endpoint";
              cover("endpoints_added_later");
            }
            break;
          case 4:
            if (n.state == 1 || n.state == 2)
            {
              command(n.c, "stop");
              n.state = 0;
              what += " stop";
              if (r.chance(50))
              {
                command(n.c, "serve");  // a new server under the same process id
                n.state = 1;
                n.offered = { "introspect" };
                what += "+serve";
              }
            }
            break;
          case 5:
          case 6:
            n.c.kill9();
            n.c.wait_exit(5000);
            n = Node{};
            n.c = spawn({ "node" });
            what += " kill";
            cover("killed_servers");
            break;
          default:
            if (!late_factory && r.chance(20))
            {
              mgr->addEndpointFactory("late", [](const Transport::Ptr& t) {
                auto e = named_endpoint("late");
                e->setTransport(t);
                return e;
              });
              registered.insert("late");
              late_factory = true;
              what += " new-factory";
            }
        }
        if (r.chance(50))
          sleep_ms(static_cast<long>(r.below(30)));
      }
      if (what.empty())
        continue;
      // expected state
      std::string bad;
      auto check = [&]() {
        bad.clear();
        std::map<std::size_t, int> seen;
        auto eps = mgr->endpoints();
        for (auto& te : eps)
        {
          auto a = te.first->getAddress();
          std::size_t pid = a ? a->hash_code() : 0;
          Node* n = nullptr;
          for (auto& x : nodes)
            if (static_cast<std::size_t>(x->c.pid) == pid)
              n = x.get();
          if (!n)
            continue;  // other servers on this machine, or a process that was just replaced: checked below by count
          seen[pid]++;
          if (!te.first->isConnected() && !(n->state == 3 && (n->raw == 0 || n->raw == 7)))
            bad = fmt("disconnected:the transport to %zu is not connected", pid);
          std::set<std::string> got, want;
          for (auto& e : te.second)
          {
            got.insert(e.first);
            if (!e.second || e.second->getName() != e.first || te.first->getEndpoint(e.first) != e.second)
              bad = fmt("wrong-endpoint:endpoint %s is not the one of its transport", e.first.c_str());
          }
          if (n->state == 1)
            for (auto& o : n->offered)
              if (registered.count(o))
                want.insert(o);
          if (got != want)
          {
            std::string g, x;
            for (auto& e : got)
              g += e + " ";
            for (auto& e : want)
              x += e + " ";
            bad = fmt("endpoints:server %zu (kind %d/%d) has endpoints [ %s] instead of [ %s]", pid, n->state, n->raw, g.c_str(), x.c_str());
          }
        }
        for (auto& n : nodes)
        {
          int c = seen[static_cast<std::size_t>(n->c.pid)];
          // a server that hangs up at once is never connected for long; both none and a fresh attempt are fine
          if (n->state == 3 && (n->raw == 0 || n->raw == 7))
          {
            if (c > 1)
              bad = fmt("count:%d transports to one server", c);
            continue;
          }
          if (c != (n->state != 0 ? 1 : 0))
            bad = fmt("%s:%d transports to process %d, which is %s", n->state ? (c ? "duplicate" : "missing") : "dead-server", c,
                      n->c.pid, n->state ? "serving" : "not serving");
        }
        // nothing for dead processes
        for (auto& te : eps)
        {
          auto a = te.first->getAddress();
          if (a && kill(static_cast<pid_t>(a->hash_code()), 0) != 0 && errno == ESRCH)
            bad = "dead-server:a transport to a process that does not exist";
        }
        return bad.empty();
      };
      // hostile servers may cost 200 ms each per cycle
      if (!wait_until(check, 12000))
        violation("not-converged:" + bad.substr(0, bad.find(':')), "after%s: %s", what.c_str(), bad.substr(bad.find(':') + 1).c_str());
      cover("convergences");
      distinct("histories", fnv(what));
      if (step < 2)
        sample("after" + what);
    }
    mgr->stopPolling();
    if (r.chance(50))
    {
      mgr->startPolling(0.01);
      mgr->startPolling(0.02);
    }
    mgr.reset();
    for (auto& n : nodes)
    {
      n->c.kill9();
      n->c.wait_exit(5000);
    }
    nodes.clear();
  }
}

// ------------------------------------------------------------------ a factory whose world the harness controls exactly
struct World
{
  struct S
  {
    bool alive = true;
    bool connectable = true;
    bool dead_on_arrival = false;
    int behaviour = 0;  // 0 proper, 1 never, 2 garbage, 3 error future, 4 duplicates, 5 wrong types, 6 dies when asked
    std::set<std::string> offered;
    int connects = 0;
  };
  std::mutex m;
  std::map<std::size_t, S> servers;
  Rng r{ 1 };
  bool duplicates = false;
};
struct FakeDest : scalopus::Destination
{
  std::size_t id;
  explicit FakeDest(std::size_t i) : id(i)
  {
  }
  operator std::string() const override
  {
    return "<fake:" + std::to_string(id) + ">";
  }
  std::size_t hash_code() const override
  {
    return id;
  }
};
static std::atomic<int> live_transports{ 0 };
struct FakeTransport : Transport
{
  std::shared_ptr<World> w;
  std::size_t id;
  std::atomic<bool> connected{ true };
  FakeTransport(std::shared_ptr<World> world, std::size_t i) : w(std::move(world)), id(i)
  {
    live_transports++;
  }
  ~FakeTransport() override
  {
    live_transports--;
  }
  bool isConnected() const override
  {
    std::lock_guard<std::mutex> l(w->m);
    auto it = w->servers.find(id);
    return connected && it != w->servers.end() && it->second.alive;
  }
  std::size_t pendingRequests() const override
  {
    return 0;
  }
  scalopus::Destination::Ptr getAddress() override
  {
    return std::make_shared<FakeDest>(id);
  }
  PendingResponse request(const std::string& name, const Data& in) override
  {
    std::promise<Data> p;
    auto fut = std::make_shared<std::future<Data>>(p.get_future());
    std::lock_guard<std::mutex> l(w->m);
    auto& s = w->servers[id];
    Data out;
    switch (s.behaviour)
    {
      case 1:
        keep.push_back(std::move(p));
        return fut;
      case 2:
        p.set_value(w->r.bytes(w->r.below(50)));
        return fut;
      case 3:
        p.set_exception(std::make_exception_ptr(scalopus::communication_error("no")));
        return fut;
      case 5:
        p.set_value(json::to_bson(json::object({ { "endpoints", json::object({ { "a", 1 } }) } })));
        return fut;
      case 6:
        s.alive = false;
        return fut;  // broken promise
      default:
      {
        // the genuine server side of the introspection answers
        FakeTransport local(w, 0);
        scalopus::EndpointIntrospect in_ep;
        for (auto& n : s.offered)
          local.Transport::addEndpoint(named_endpoint(n));
        in_ep.handle(local, in, out);
        if (s.behaviour == 4)
        {
          auto j = json::from_bson(out);  // names every endpoint twice
          for (auto& n : s.offered)
            j["endpoints"].push_back(n);
          out = json::to_bson(j);
        }
        p.set_value(out);
        return fut;
      }
    }
  }
  std::vector<std::promise<Data>> keep;
};
struct FakeFactory : scalopus::TransportFactory
{
  std::shared_ptr<World> w;
  std::vector<scalopus::Destination::Ptr> discover() override
  {
    std::lock_guard<std::mutex> l(w->m);
    std::vector<scalopus::Destination::Ptr> v;
    for (auto& s : w->servers)
      if (s.second.alive)
      {
        v.push_back(std::make_shared<FakeDest>(s.first));
        if (w->duplicates)
          v.push_back(std::make_shared<FakeDest>(s.first));
      }
    return v;
  }
  Transport::Ptr serve() override
  {
    return nullptr;
  }
  Transport::Ptr connect(const scalopus::Destination::Ptr& d) override
  {
    std::lock_guard<std::mutex> l(w->m);
    auto& s = w->servers[d->hash_code()];
    s.connects++;
    if (!s.connectable)
      return nullptr;
    auto t = std::make_shared<FakeTransport>(w, d->hash_code());
    if (s.dead_on_arrival)
      t->connected = false;
    return t;
  }
};

static void run_fake()
{
  Rng r(seed());
  for (int round = 0; round < 30 * scale() && !have_violation(); round++)
  {
    Watchdog w("manager-fake", 60000);
    auto world = std::make_shared<World>();
    world->r = Rng(r.next());
    auto f = std::make_shared<FakeFactory>();
    f->w = world;
    auto mgr = std::make_shared<EndpointManagerPoll>(f);
    std::map<std::string, int> made;
    for (auto n : { "alpha", "beta", "" })
      mgr->addEndpointFactory(n, [n, &made](const Transport::Ptr& t) {
        made[n]++;
        auto e = named_endpoint(n);
        e->setTransport(t);
        return e;
      });
    // endpoints that cannot be made or are not known come before, between and after the others
    for (auto n : { "nothing", "a", "alphabet" })
      mgr->addEndpointFactory(n, [](const Transport::Ptr&) { return nullptr; });
    std::set<std::string> registered = { "alpha", "beta", "", "introspect" };
    const std::size_t many = r.chance(40) ? 20 + r.below(120) : 0;
    for (std::size_t i = 0; i < many; i++)
    {
      auto n = "many" + std::to_string(i);
      mgr->addEndpointFactory(n, [n](const Transport::Ptr& t) {
        auto e = named_endpoint(n);
        e->setTransport(t);
        return e;
      });
      registered.insert(n);
    }
    if (many)
      cover("many_endpoints");
    std::size_t next = 1;
    // what each connection must have by now
    std::map<std::size_t, std::pair<Transport*, std::set<std::string>>> model;
    for (int step = 0; step < 40 && !have_violation(); step++)
    {
      bool slow_one = false;
      {
        std::lock_guard<std::mutex> l(world->m);
        for (std::size_t k = r.below(4); k > 0; k--)
          switch (r.below(5))
          {
            case 0:
            case 1:
            {
              World::S s;
              static int kinds = 0;
              s.behaviour = r.chance(60) ? 0 : 1 + kinds++ % 6;
              if (s.behaviour == 1 && r.chance(80))
                s.behaviour = 0;  // costs 200 ms per cycle
              s.connectable = !r.chance(15);
              s.dead_on_arrival = r.chance(10);
              for (auto e : { "introspect", "alpha", "beta", "", "nothing", "unknown", "a", "alphabet", "!", "b", "u1", "u2" })
                if (r.chance(50))
                  s.offered.insert(e);
              if (r.chance(50))
                for (std::size_t i = 0; i < many; i++)
                  s.offered.insert("many" + std::to_string(i));
              world->servers[next++] = s;
              cover(fmt("fake_%d", s.behaviour));
              break;
            }
            case 2:
              if (!world->servers.empty())
              {
                auto it = world->servers.begin();
                std::advance(it, static_cast<long>(r.below(world->servers.size())));
                it->second.alive = false;
              }
              break;
            case 3:
              if (!world->servers.empty())
              {
                auto it = world->servers.begin();
                std::advance(it, static_cast<long>(r.below(world->servers.size())));
                it->second.connectable = true;
                it->second.dead_on_arrival = false;
                it->second.behaviour = 0;
                it->second.offered.insert(r.pick(std::vector<std::string>{ "alpha", "beta" }));
              }
              break;
            default:
              world->duplicates = r.chance(30);
          }
        for (auto& s : world->servers)
          if (s.second.alive && s.second.behaviour == 1)
            slow_one = true;
      }
      (void)slow_one;
      mgr->manage();
      auto eps = mgr->endpoints();
      std::map<std::size_t, int> seen;
      std::lock_guard<std::mutex> l(world->m);
      for (auto& te : eps)
      {
        auto id = te.first->getAddress()->hash_code();
        seen[id]++;
        auto& s = world->servers[id];
        if (!s.alive && s.behaviour != 6)
          violation("dead-server", "a dead server has a transport after managing");
        auto& mo = model[id];
        if (mo.first != te.first.get())
          mo = { te.first.get(), {} };
        if (s.alive && (s.behaviour == 0 || s.behaviour == 4))
          for (auto& o : s.offered)
            if (registered.count(o))
              mo.second.insert(o);
        std::set<std::string> got;
        for (auto& e : te.second)
        {
          got.insert(e.first);
          if (!e.second || te.first->getEndpoint(e.first) != e.second)
            violation("wrong-endpoint", "an endpoint is missing at its transport");
        }
        if (s.alive && got != mo.second)
          violation("endpoints", "fake server (behaviour %d) has %zu endpoints instead of %zu", s.behaviour, got.size(), mo.second.size());
      }
      for (auto& s : world->servers)
      {
        int want = s.second.alive && s.second.connectable && !s.second.dead_on_arrival ? 1 : 0;
        int got = seen[s.first];
        if (s.second.alive && got != want)
          violation(got ? "duplicate" : "missing", "%d transports to a live server, expected %d", got, want);
      }
      // servers that died while being asked are gone after the next cycle
      for (auto it = world->servers.begin(); it != world->servers.end();)
        if (!it->second.alive && !seen.count(it->first))
          it = world->servers.erase(it);
        else
          ++it;
      cover("convergences");
      cover("fake_cycles");
      distinct("histories", static_cast<std::uint64_t>(round) * 1000 + static_cast<std::uint64_t>(step));
    }
    mgr.reset();
  }
  if (!have_violation() && live_transports != 0)
    violation("transport-leak", "%d transports outlive the manager", live_transports.load());
}

// polling while others look
static void run_poll()
{
  Rng r(seed());
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Watchdog w("manager-poll", 60000);
    auto world = std::make_shared<World>();
    auto f = std::make_shared<FakeFactory>();
    f->w = world;
    auto mgr = std::make_shared<EndpointManagerPoll>(f);
    mgr->addEndpointFactory("alpha", [](const Transport::Ptr& t) {
      auto e = named_endpoint("alpha");
      e->setTransport(t);
      return e;
    });
    mgr->startPolling(0.001);
    std::atomic<bool> stop{ false };
    std::vector<std::thread> ts;
    for (int t = 0; t < 2; t++)
      ts.emplace_back([&]() {
        while (!stop)
        {
          for (auto& te : mgr->endpoints())
          {
            te.first->isConnected();
            for (auto& e : te.second)
              if (!e.second)
                violation("null-endpoint", "a null endpoint was listed");
          }
        }
      });
    ts.emplace_back([&]() {
      int n = 0;
      while (!stop)
      {
        mgr->addEndpointFactory("f" + std::to_string(n++ % 20), [](const Transport::Ptr&) { return nullptr; });
        std::this_thread::sleep_for(std::chrono::microseconds(200));
      }
    });
    for (std::size_t i = 1; i < 60; i++)
    {
      {
        std::lock_guard<std::mutex> l(world->m);
        World::S s;
        s.offered = { "introspect", "alpha" };
        s.behaviour = r.chance(80) ? 0 : static_cast<int>(2 + r.below(5));
        world->servers[i] = s;
        if (r.chance(70))
          world->servers[1 + r.below(i)].alive = false;
      }
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(4000)));
      if (r.chance(5))
        mgr->startPolling(0.001);
      if (r.chance(5))
      {
        mgr->stopPolling();
        mgr->stopPolling();
        mgr->startPolling(0.001);
      }
      cover("poll_steps");
    }
    auto ok = wait_until([&]() {
      auto eps = mgr->endpoints();
      std::lock_guard<std::mutex> l(world->m);
      std::size_t alive = 0, good = 0;
      for (auto& s : world->servers)
        alive += s.second.alive;
      for (auto& te : eps)
      {
        auto& s = world->servers[te.first->getAddress()->hash_code()];
        if (s.alive && (s.behaviour != 0 || te.second.size() == 2))
          good++;
      }
      return eps.size() == alive && good == alive;
    }, 8000);
    if (!ok && !have_violation())
      violation("not-converged", "the polling manager does not reach the live servers");
    stop = true;
    for (auto& t : ts)
      t.join();
    mgr.reset();
    cover("convergences");
    distinct("histories", seed() * 31 + static_cast<std::uint64_t>(round));
  }
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "procs";
  if (m == "node")
    return role_node();
  if (m == "procs")
    run_procs();
  else if (m == "fake")
    run_fake();
  else
    run_poll();
  return finish();
}
