// C09: discovery lists exactly the live servers.
#include <sched.h>
#include <spawn.h>
#include "tx.h"
using namespace vh;
using namespace tx;

// A process that serves, stops serving and connects on command.
static int role_node()
{
  auto f = unix_factory();
  Transport::Ptr server;
  std::vector<Transport::Ptr> clients;
  std::string line;
  char buf[256];
  while (fgets(buf, sizeof buf, stdin))
  {
    line = buf;
    while (!line.empty() && line.back() == '\n')
      line.pop_back();
    std::string res = "ok";
    if (line == "serve")
    {
      server = f->serve();
      if (!server)
        res = "fail";
      else
        server->addEndpoint(ep("pid", [](Transport&, const Data&, Data& out) {
          out.resize(8);
          put64(out, 0, static_cast<std::uint64_t>(getpid()));
          return true;
        }));
    }
    else if (line == "stop")
      server.reset();
    else if (line.rfind("connect ", 0) == 0)
    {
      auto c = connect_pid(f, static_cast<pid_t>(atol(line.c_str() + 8)));
      if (c)
        clients.push_back(c);
      else
        res = "fail";
    }
    else if (line == "disconnect")
      clients.clear();
    else if (line == "program")
    {
      pid_t helper;
      const char* argv[] = { "sleep", "25", nullptr };
      posix_spawnp(&helper, "sleep", nullptr, nullptr, const_cast<char**>(argv), environ);
    }
    printf("%s\n", res.c_str());
    fflush(stdout);
  }
  _exit(0);
}

static bool command(Child& c, const std::string& s)
{
  std::string l;
  if (!c.send_line(s) || !c.read_line(l, 15000))
    harness_error("node process does not answer to %s", s.c_str());
  return l == "ok";
}

static bool raw_connectable(std::size_t pid)
{
  Raw r;
  return r.connect(static_cast<pid_t>(pid));
}

// what is wrong with what discovery returned, or empty
static std::string judge(const std::vector<std::size_t>& got, const std::set<std::size_t>& live, const std::set<std::size_t>& ours)
{
  std::map<std::size_t, int> n;
  for (auto p : got)
    n[p]++;
  for (auto p : live)
    if (n[p] != 1)
      return fmt("%s:the serving process %zu is listed %d times", n[p] ? "duplicate" : "missing", p, n[p]);
  for (auto& x : n)
  {
    if (x.second == 0)
      continue;
    if (ours.count(x.first) && !live.count(x.first))
      return fmt("not-serving:process %zu, which is not serving, is listed", x.first);
    // Unrelated checks may serve on this machine as well; those can be connected to and are listed once.
    if (!ours.count(x.first) && !raw_connectable(x.first))
      return fmt("phantom:%zu is listed, there is no such server", x.first);
    if (x.second > 1)
      return fmt("duplicate:%zu is listed %d times", x.first, x.second);
  }
  return "";
}
static std::vector<std::size_t> listed(const scalopus::TransportFactory::Ptr& f)
{
  std::vector<std::size_t> v;
  for (auto& d : f->discover())
    v.push_back(d ? d->hash_code() : 0);
  return v;
}

static void run_unix()
{
  Rng r(seed());
  auto f = unix_factory();
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Watchdog w("discovery", 90000);
    struct Node
    {
      Child c;
      bool serving = false;
    };
    std::vector<Node> nodes;
    std::set<std::size_t> ours = { static_cast<std::size_t>(getpid()) };
    std::vector<int> foreign;
    std::vector<Transport::Ptr> clients;
    auto add_node = [&]() {
      Node n;
      n.c = spawn({ "node" });
      ours.insert(static_cast<std::size_t>(n.c.pid));
      nodes.push_back(n);
    };
    for (int i = 0; i < 4; i++)
      add_node();
    for (int step = 0; step < 45 && !have_violation(); step++)
    {
      std::string what;
      auto& n = nodes[r.below(nodes.size())];
      switch (r.below(10))
      {
        case 0:
        case 1:
          if (!n.serving)
          {
            if (!command(n.c, "serve"))
              violation("serve-failed", "a process cannot serve (again)");
            n.serving = true;
            what = "serve";
          }
          break;
        case 2:
          if (n.serving)
          {
            command(n.c, "stop");
            n.serving = false;
            what = "stop";
          }
          break;
        case 3:
        case 4:
          for (std::size_t k = 1 + r.below(5); k > 0; k--)
            if (n.serving)
            {
              auto c = connect_pid(f, n.c.pid);
              if (!c)
                violation("not-connectable", "a listed live server cannot be connected to");
              else
                clients.push_back(c);
              what = "connect";
            }
          break;
        case 5:
        {
          // clients in other processes
          auto& o = nodes[r.below(nodes.size())];
          if (o.serving)
          {
            if (!command(n.c, "connect " + std::to_string(o.c.pid)))
              violation("not-connectable", "another process cannot connect to a live server");
            what = "remote connect";
          }
          else
            command(n.c, "disconnect");
          break;
        }
        case 6:
          if (!clients.empty())
          {
            clients.erase(clients.begin() + static_cast<long>(r.below(clients.size())));
            what = "drop client";
          }
          break;
        case 7:
          if (r.chance(40))
            command(n.c, "program");
          n.c.kill9();
          n.c.wait_exit(5000);
          cover(n.serving ? "killed_servers" : "killed_others");
          what = "kill";
          nodes.erase(nodes.begin() + (&n - &nodes[0]));
          add_node();
          break;
        case 8:
        {
          // unrelated sockets
          std::string pid = std::to_string(r.pick(std::vector<pid_t>{ n.c.pid, getpid(), 1 }));
          std::vector<std::string> names = { "foo_scalopus", "_scalopus", pid + "x_scalopus", "x" + pid + "_scalopus", " " + pid + "_scalopus",
                                             "-" + pid + "_scalopus", "+" + pid + "_scalopus", "0" + pid + "_scalopus", "0_scalopus",
                                             "99999999999999999999999_scalopus", "18446744073709551615_scalopus", pid + "_scalopus_",
                                             pid + "_scalopu", pid + "_Scalopus", "a @" + pid + "_scalopus", "@" + pid + "_scalopus",
                                             pid + " _scalopus", pid + "_scalopus 2", pid + "_scalopus " + pid + "_scalopus", pid + "_scalopus\tx", "0x" + pid + "_scalopus", pid + ".5_scalopus", "scalopus", "_",
                                             pid + "_scalopus@" + pid + "_scalopus", std::string(80, '9') + "_scalopus",
                                             "4294967297_scalopus", std::to_string(4294967296ull + static_cast<unsigned>(n.c.pid)) + "_scalopus" };
          int fd = abstract_socket(r.pick(names), r.chance(70));
          if (fd >= 0)
            foreign.push_back(fd);
          what = "foreign";
          cover("foreign_sockets");
          break;
        }
        default:
        {
          // an unrelated socket with the address form of a server, but not a listening one
          int fd = abstract_socket(std::to_string(7000000 + r.below(1000000)) + "_scalopus", false);
          if (fd >= 0)
            foreign.push_back(fd);
          what = "foreign not listening";
        }
      }
      if (what.empty())
        continue;
      std::set<std::size_t> live;
      for (auto& x : nodes)
        if (x.serving)
          live.insert(static_cast<std::size_t>(x.c.pid));
      std::string bad;
      // sockets of a killed process go away with the process; allow the kernel a moment
      wait_until([&]() { return (bad = judge(listed(f), live, ours)).empty(); }, 2500);
      if (!bad.empty())
        violation(bad.substr(0, bad.find(':')), "after %s, with %zu clients and %zu foreign sockets: %s", what.c_str(), clients.size(),
                  foreign.size(), bad.substr(bad.find(':') + 1).c_str());
      cover("discoveries");
      distinct("situations", fnv(what) ^ (live.size() * 1315423911u + clients.size() * 2654435761u + foreign.size() * 40503u));
      if (step < 2)
        sample(fmt("after %s: %zu servers, %zu clients, %zu foreign sockets", what.c_str(), live.size(), clients.size(), foreign.size()));
      // listed destinations lead to the right process
      if (!live.empty() && r.chance(40) && !have_violation())
      {
        auto it = live.begin();
        std::advance(it, static_cast<long>(r.below(live.size())));
        auto c = connect_pid(f, static_cast<pid_t>(*it));
        Data got;
        if (!c || await(c->request("pid", {}), got, 10000) != Got::value || get64(got) != *it)
          violation("not-connectable", "the listed destination of process %zu does not lead to it", *it);
        cover("connections_checked");
      }
    }
    clients.clear();
    for (auto& n : nodes)
    {
      n.c.kill9();
      n.c.wait_exit(5000);
    }
    for (int fd : foreign)
      syscall(SYS_close, fd);
  }
}

// servers that stay are listed while others come and go; the kernel's listing itself is not atomic, so an oddity only counts
// when it shows up repeatedly
static void run_churn()
{
  Rng r(seed());
  Watchdog w("discovery-churn", 60000);
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("serve");
  std::atomic<bool> stop{ false };
  std::vector<std::thread> ts;
  for (int t = 0; t < 3; t++)
    ts.emplace_back([&, t]() {
      Rng q(seed() + static_cast<std::uint64_t>(t));
      while (!stop)
      {
        std::vector<Transport::Ptr> cs;
        for (std::size_t k = q.below(10); k > 0; k--)
          if (auto c = connect_pid(f, getpid()))
            cs.push_back(c);
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
      }
    });
  int odd = 0, n = 0;
  for (int i = 0; i < 600 * scale(); i++)
  {
    auto v = listed(f);
    n++;
    auto c = std::count(v.begin(), v.end(), static_cast<std::size_t>(getpid()));
    if (c != 1)
      odd++;
    cover("discoveries");
  }
  stop = true;
  for (auto& t : ts)
    t.join();
  if (odd * 10 > n)
    violation("churn", "in %d of %d listings a serving process was missing or listed several times while clients came and went", odd, n);
  cover("churn_rounds");
}

// In a network of its own there are no servers but those of this run, at times none at all.
static void run_alone()
{
  const bool alone = unshare(CLONE_NEWUSER | CLONE_NEWNET) == 0;
  cover(alone ? "alone" : "not_alone");
  Rng r(seed());
  Watchdog w("discovery-alone", 60000);
  auto f = unix_factory();
  std::vector<Child> nodes;
  std::vector<bool> on;
  for (int i = 0; i < 2; i++)
  {
    nodes.push_back(spawn({ "node" }));
    on.push_back(false);
  }
  Transport::Ptr server;
  for (int i = 0; i < 60 * scale() && !have_violation(); i++)
  {
    if (r.chance(30))
    {
      if (server)
        server.reset();
      else if (!(server = f->serve()))
        violation("cannot-serve", "a process that does not serve cannot serve");
    }
    else if (r.chance(40))
    {
      std::size_t k = r.below(2);
      if (!command(nodes[k], on[k] ? "stop" : "serve"))
        violation("cannot-serve", "a process that does not serve cannot serve");
      on[k] = !on[k];
    }
    else if (r.chance(40))
    {
      server.reset();
      for (std::size_t k = 0; k < 2; k++)
        if (on[k])
        {
          command(nodes[k], "stop");
          on[k] = false;
        }
    }
    std::set<std::size_t> live, ours{ static_cast<std::size_t>(getpid()) };
    if (server)
      live.insert(static_cast<std::size_t>(getpid()));
    for (std::size_t k = 0; k < 2; k++)
    {
      ours.insert(static_cast<std::size_t>(nodes[k].pid));
      if (on[k])
        live.insert(static_cast<std::size_t>(nodes[k].pid));
    }
    auto v = listed(f);
    auto bad = judge(v, live, ours);
    if (bad.empty() && alone && v.size() != live.size())
      bad = fmt("phantom:%zu are listed, %zu are serving", v.size(), live.size());
    if (!bad.empty())
      violation("alone", "%s", bad.c_str());
    cover("discoveries");
    cover(live.empty() ? "nobody_serves" : "somebody_serves");
  }
}

// many servers at once
static void run_crowd()
{
  Rng r(seed());
  Watchdog w("discovery-crowd", 120000);
  auto f = unix_factory();
  std::vector<Child> nodes;
  std::set<std::size_t> ours{ static_cast<std::size_t>(getpid()) }, live;
  std::vector<Transport::Ptr> clients;
  for (int step = 0; step < 2 * scale() && !have_violation(); step++)
  {
    for (std::size_t k = 40 + r.below(60); k > 0; k--)
    {
      nodes.push_back(spawn({ "node" }));
      ours.insert(static_cast<std::size_t>(nodes.back().pid));
      if (command(nodes.back(), "serve"))
        live.insert(static_cast<std::size_t>(nodes.back().pid));
      else
        violation("serve-failed", "a process cannot serve while %zu others do", live.size());
    }
    for (std::size_t k = 0; k < nodes.size() && !have_violation(); k++)
    {
      if (!live.count(static_cast<std::size_t>(nodes[k].pid)) || !r.chance(25))
        continue;
      if (r.chance(50))
      {
        command(nodes[k], "stop");
        live.erase(static_cast<std::size_t>(nodes[k].pid));
      }
      else if (auto c = connect_pid(f, nodes[k].pid))
        clients.push_back(c);
    }
    std::string bad;
    wait_until([&]() { return (bad = judge(listed(f), live, ours)).empty(); }, 2500);
    if (!bad.empty())
      violation(bad.substr(0, bad.find(':')), "with %zu servers: %s", live.size(), bad.substr(bad.find(':') + 1).c_str());
    cover("discoveries");
    cover("crowds");
    distinct("situations", live.size() * 7919 + clients.size());
  }
  // many loopback servers
  auto lf = std::make_shared<scalopus::TransportLoopbackFactory>();
  std::vector<Transport::Ptr> servers;
  std::multiset<std::size_t> want;
  for (std::size_t k = 60 + r.below(100); k > 0; k--)
  {
    servers.push_back(lf->serve());
    want.insert(servers.back()->getAddress()->hash_code());
  }
  auto v = listed(lf);
  if (std::multiset<std::size_t>(v.begin(), v.end()) != want)
    violation("loopback-discovery", "loopback discovery lists %zu servers, there are %zu", v.size(), want.size());
  cover("discoveries");
  clients.clear();
  for (auto& n : nodes)
  {
    n.kill9();
    n.wait_exit(5000);
  }
}

static void run_loopback()
{
  Rng r(seed());
  for (int round = 0; round < 20 * scale() && !have_violation(); round++)
  {
    Watchdog w("discovery-loopback", 60000);
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    auto other = std::make_shared<scalopus::TransportLoopbackFactory>();
    std::vector<Transport::Ptr> servers, clients, others;
    for (int step = 0; step < 25 && !have_violation(); step++)
    {
      switch (r.below(6))
      {
        case 0:
        case 1:
        {
          auto s = f->serve();
          auto* raw = s.get();
          s->addEndpoint(ep("me", [raw](Transport&, const Data&, Data& out) {
            out.resize(8);
            put64(out, 0, reinterpret_cast<std::uint64_t>(raw));
            return true;
          }));
          servers.push_back(s);
          break;
        }
        case 2:
          others.push_back(other->serve());
          break;
        case 3:
          if (!servers.empty())
          {
            // clients keep their server alive, so only servers without clients go away
            clients.clear();
            servers.erase(servers.begin() + static_cast<long>(r.below(servers.size())));
          }
          break;
        case 4:
          if (!servers.empty())
            clients.push_back(f->connect(r.pick(servers)->getAddress()));
          break;
        default:
          clients.clear();
      }
      auto v = listed(f);
      std::multiset<std::size_t> got(v.begin(), v.end()), want;
      for (auto& s : servers)
        want.insert(s->getAddress()->hash_code());
      if (got != want)
        violation("loopback-discovery", "loopback discovery lists %zu servers, there are %zu", got.size(), want.size());
      cover("discoveries");
      cover("loopback_discoveries");
      distinct("situations", static_cast<std::uint64_t>(round) * 1000003 + static_cast<std::uint64_t>(step) * 31 + want.size());
      if (r.chance(20))
        for (auto& d : f->discover())
        {
          auto c = f->connect(d);
          Data got_me;
          if (!c || await(c->request("me", {}), got_me, 5000) != Got::value || get64(got_me) != d->hash_code())
            violation("not-connectable", "a listed loopback destination does not lead to its server");
          cover("connections_checked");
          if (have_violation())
            break;
        }
    }
  }
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "unix";
  if (m == "node")
    return role_node();
  if (m == "unix")
    run_unix();
  else if (m == "churn")
    run_churn();
  else if (m == "alone")
    run_alone();
  else if (m == "crowd")
    run_crowd();
  else
    run_loopback();
  return finish();
}
