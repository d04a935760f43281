// C25: events and processes are shown under the right names.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/general_source.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/scope_tracing_provider.h>
#include <nlohmann/json.hpp>
#include "gen.h"
#include "tx.h"
using namespace vh;
using namespace tx;
using json = nlohmann::json;

struct State
{
  std::string process;
  std::map<unsigned long, std::string> threads;
  std::map<unsigned int, std::string> traces;
};
static State make_state(std::uint64_t sd)
{
  Rng r(sd);
  State s;
  s.process = any_text(r, 1000);
  for (std::size_t n = r.below(8); n > 0; n--)
    s.threads[r.chance(30) ? r.below(4) : r.next() >> 17] = any_text(r, 400);
  // ids from a small set, so that processes share them under different names
  for (std::size_t n = r.below(25); n > 0; n--)
    s.traces[r.chance(70) ? static_cast<unsigned>(r.below(20)) : static_cast<unsigned>(r.next())] = any_text(r, 400);
  return s;
}
static int role_node()
{
  auto f = unix_factory();
  Transport::Ptr server;
  auto info = std::make_shared<scalopus::EndpointProcessInfo>();
  char buf[200];
  while (fgets(buf, sizeof buf, stdin))
  {
    std::string line = buf;
    std::string res = "ok";
    unsigned long long sd = 0;
    int what = 0;
    if (sscanf(buf, "serve %llu %d", &sd, &what) == 2)
    {
      server = f->serve();
      if (!server)
        res = "fail";
      else
      {
        server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
        if (what & 1)
          server->addEndpoint(info);
        if (what & 2)
          server->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
      }
    }
    if (sd || sscanf(buf, "state %llu", &sd) == 1)
    {
      auto s = make_state(sd);
      info->setProcessName(s.process);
      auto& tn = scalopus::ThreadNameTracker::getInstance();
      auto& ss = scalopus::StaticStringTracker::getInstance();
      tn.clear();
      ss.clear();
      for (auto& t : s.threads)
        tn.setThreadName(t.first, t.second);
      for (auto& t : s.traces)
        ss.insert(t.first, t.second);
    }
    if (line.rfind("stop", 0) == 0)
      server.reset();
    if (sscanf(buf, "raw %d", &what) == 1)
    {
      // offers the endpoints, answers introspection, but the rest in unusable ways
      int ls = Raw::listen_as(getpid());
      if (ls < 0)
        res = "fail";
      else
        std::thread([ls, what]() {
          for (;;)
          {
            int fd = accept(ls, nullptr, nullptr);
            if (fd < 0)
              return;
            std::thread([fd, what]() {
              Raw c(fd);
              Rng q(seed() + static_cast<std::uint64_t>(fd));
              RawFrame fr;
              while (c.recv_frame(fr, 200000) == 1)
              {
                if (fr.name == "introspect")
                  fr.data = json::to_bson(json{ { "endpoints", { "introspect", "process_info", "scope_tracing" } } });
                else
                  switch (what)
                  {
                    case 0:
                      continue;  // never answers
                    case 1:
                      fr.data = q.bytes(q.below(100));
                      break;
                    case 2:
                      fr.data = json::to_bson(json{ { "name", 5 }, { "pid", "x" }, { "threads", "y" }, { "mapping", 7 } });
                      break;
                    case 3:
                      fr.data = json::to_bson(json::object());
                      break;
                    case 4:
                      fr.data.clear();
                      break;
                    case 5:
                      fr.data = json::to_bson(json{ { "name", "half an answer" }, { "mapping", { { 1 }, { "a", "b" } } } });
                      break;
                    case 6:
                      sleep_ms(300);  // too late
                      fr.data = json::to_bson(json::object());
                      break;
                    default:
                      return;  // dies when asked
                  }
                if (!c.send_frame(fr))
                  return;
              }
            }).detach();
          }
        }).detach();
    }
    printf("%s\n", res.c_str());
    fflush(stdout);
  }
  _exit(0);
}
static void command(Child& c, const std::string& s)
{
  std::string l;
  if (!c.send_line(s) || !c.read_line(l, 20000) || l != "ok")
    harness_error("node process: %s", s.c_str());
}
struct Provider : public scalopus::ScopeTracingProvider
{
  using ScopeTracingProvider::ScopeTracingProvider;
  scalopus::TraceEventSource::Ptr makeSource() override
  {
    return nullptr;
  }
};
struct Node
{
  Child c;
  int state = 0;  // 0 idle, 1 serving, 3 raw
  int what = 3;   // which endpoints are offered
  State s;
};
static bool placeholder(const std::string& got, unsigned id)
{
  std::string lower = got;
  for (auto& ch : lower)
    ch = static_cast<char>(tolower(ch));
  return lower.find(fmt("%x", id)) != std::string::npos;
}
// entries of the nodes' processes, each as (pid, kind, tid, name)
using Entry = std::tuple<int, std::string, unsigned long, std::string>;
static bool check_general(const std::vector<json>& es, std::vector<std::unique_ptr<Node>>& nodes, const std::set<pid_t>& ours, bool& complete)
{
  std::map<int, std::multiset<Entry>> got;
  for (auto& e : es)
  {
    int pid = 0;
    Entry x;
    try
    {
      pid = e.at("pid").get<int>();
      if (e.at("ph").get<std::string>() != "M")
        throw std::runtime_error("ph");
      x = Entry{ pid, e.at("name").get<std::string>(), e.at("tid").get<unsigned long>(), e.at("args").at("name").get<std::string>() };
    }
    catch (const std::exception& ex)
    {
      violation("malformed-entry", "a metadata entry is malformed (%s): %s", ex.what(),
                e.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 300).c_str());
      return false;
    }
    if (pid <= 0)
    {
      violation("bogus-process", "an entry for process %d named %s", pid, shown(std::get<3>(x)).c_str());
      return false;
    }
    if (ours.count(pid))
      got[pid].insert(x);
  }
  complete = true;
  std::set<int> live;
  for (auto& n : nodes)
  {
    int pid = n->c.pid;
    if (n->state != 1 || !(n->what & 1))
      continue;
    live.insert(pid);
    if (!got.count(pid))
    {
      complete = false;
      continue;
    }
    std::multiset<Entry> want;
    want.insert(Entry{ pid, "process_name", 0, n->s.process });
    for (auto& t : n->s.threads)
      want.insert(Entry{ pid, "thread_name", t.first, t.second });
    if (got[pid] != want)
    {
      std::string d = fmt("%zu entries instead of %zu", got[pid].size(), want.size());
      for (auto& x : want)
        if (got[pid].count(x) != 1)
          d += fmt("; %s %lx named %s is there %zu times", std::get<1>(x).c_str(), std::get<2>(x), shown(std::get<3>(x)).c_str(), got[pid].count(x));
      violation("wrong-metadata", "process %d: %s", pid, d.substr(0, 500).c_str());
    }
    cover("process_entries");
  }
  for (auto& g : got)
    if (!live.count(g.first))
      violation("bogus-process", "metadata for process %d, which does not serve or is dead", g.first);
  return true;
}

static void run_procs()
{
  Rng r(seed());
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w("naming", 240000);
    auto f = unix_factory();
    auto mgr = std::make_shared<scalopus::EndpointManagerPoll>(f);
    mgr->addEndpointFactory<scalopus::EndpointProcessInfo>();
    mgr->addEndpointFactory<scalopus::EndpointTraceMapping>();
    auto gp = std::make_shared<scalopus::GeneralProvider>(mgr);
    auto sp = std::make_shared<Provider>(mgr);
    auto source = gp->makeSource();
    std::vector<std::unique_ptr<Node>> nodes;
    std::set<pid_t> ours;
    for (int i = 0; i < 4; i++)
    {
      nodes.emplace_back(new Node);
      nodes.back()->c = spawn({ "node" });
      ours.insert(nodes.back()->c.pid);
    }
    for (int step = 0; step < 25 && !have_violation(); step++)
    {
      std::string what;
      bool managed = false;
      for (std::size_t burst = 1 + r.below(3); burst > 0; burst--)
      {
        auto& n = *nodes[r.below(nodes.size())];
        switch (r.below(8))
        {
          case 0:
          case 1:
          case 2:
          case 3:
            if (n.state == 0)
            {
              if (r.chance(35))
              {
                static int kinds = 0;
                n.what = kinds++ % 8;
                command(n.c, fmt("raw %d", n.what));
                n.state = 3;
                cover(fmt("raw_%d", n.what));
                what += " raw";
              }
              else
              {
                auto sd = (r.next() >> 2) | 1;
                n.what = r.chance(75) ? 3 : static_cast<int>(r.below(4));
                n.s = make_state(sd);
                command(n.c, fmt("serve %llu %d", static_cast<unsigned long long>(sd), n.what));
                n.state = 1;
                what += " serve";
              }
            }
            else if (n.state == 1)
            {
              auto sd = (r.next() >> 2) | 1;
              n.s = make_state(sd);
              command(n.c, fmt("state %llu", static_cast<unsigned long long>(sd)));
              what += " rename";
            }
            break;
          case 4:
            if (n.state == 1)
            {
              command(n.c, "stop");
              n.state = 0;
              what += " stop";
            }
            break;
          case 5:
            if (n.state != 0)
            {
              // the manager may or may not notice before the names are asked for
              if (r.chance(50))
              {
                mgr->manage();
                managed = r.chance(50);
              }
              n.c.kill9();
              n.c.wait_exit(5000);
              n = Node{};
              n.c = spawn({ "node" });
              ours.insert(n.c.pid);
              what += " kill";
              cover("killed");
            }
            break;
          default:
            break;
        }
      }
      if (!managed)
        mgr->manage();
      // a process is only absent if its answer took too long; that must not last
      auto settled = [&](std::function<bool()> once) {
        for (int i = 0; i < 25 && !have_violation(); i++)
        {
          if (once())
            return;
          cover("retries");
          mgr->manage();
        }
        if (!have_violation())
          violation("missing", "a live process that answers is never shown (after%s)", what.c_str());
      };
      settled([&]() {
        bool complete = false;
        try
        {
          auto s = r.chance(30) ? gp->makeSource() : source;
          s->startInterval();
          s->stopInterval();
          auto es = s->finishInterval();
          check_general(es, nodes, ours, complete);
        }
        catch (const std::exception& e)
        {
          violation("threw:general", "finishing the metadata threw %s", e.what());
        }
        cover("general_checks");
        return complete;
      });
      settled([&]() {
        bool complete = true;
        try
        {
          sp->updateMapping();
        }
        catch (const std::exception& e)
        {
          violation("threw:mapping", "updating the names threw %s", e.what());
          return false;
        }
        auto m = sp->getMapping();
        if (m.count(0))
          violation("bogus-process", "names for process 0");
        for (auto& n : nodes)
        {
          if (n->state != 1 || !(n->what & 2))
          {
            for (unsigned id = 0; id < 20; id += 7)
              if (m.count(n->c.pid) == 0 && !placeholder(Provider::getScopeName(m, n->c.pid, id), id))
                violation("no-placeholder", "the name of id %x of an unknown process is %s", id, shown(Provider::getScopeName(m, n->c.pid, id)).c_str());
            if (m.count(n->c.pid) && n->state == 3)
              violation("bogus-process", "names for a process that gave none");
            continue;
          }
          if (!m.count(n->c.pid))
          {
            complete = false;
            continue;
          }
          std::set<unsigned> ids;
          for (auto& t : n->s.traces)
            ids.insert(t.first);
          for (unsigned id = 0; id < 22; id++)
            ids.insert(id);
          ids.insert(0xffffffffu);
          ids.insert(static_cast<unsigned>(r.next()));
          for (auto id : ids)
          {
            auto got = Provider::getScopeName(m, n->c.pid, id);
            auto it = n->s.traces.find(id);
            if (it != n->s.traces.end())
            {
              if (got != it->second)
                violation("wrong-name", "id %x of process %d is shown as %s instead of %s", id, n->c.pid, shown(got).c_str(), shown(it->second).c_str());
              cover("names_checked");
            }
            else
            {
              if (!placeholder(got, id))
                violation("no-placeholder", "unknown id %x is shown as %s", id, shown(got).c_str());
              cover("placeholders_checked");
            }
          }
          if (m.at(n->c.pid).size() != n->s.traces.size())
            violation("wrong-mapping", "%zu names instead of %zu", m.at(n->c.pid).size(), n->s.traces.size());
        }
        cover("mapping_checks");
        distinct("situations", fnv(what) + m.size());
        return complete;
      });
    }
    if (r.chance(50))
      mgr->manage();
    std::weak_ptr<scalopus::EndpointManagerPoll> wm = mgr;
    mgr.reset();
    for (auto& n : nodes)
    {
      n->c.kill9();
      n->c.wait_exit(5000);
      n->state = 0;
    }
    try
    {
      sp->updateMapping();
      bool c;
      check_general(source->finishInterval(), nodes, ours, c);
      gp.reset();
      check_general(source->finishInterval(), nodes, ours, c);
      source.reset();
      sp->updateMapping();
    }
    catch (const std::exception& e)
    {
      violation("threw:end", "finishing after everything is gone threw %s", e.what());
    }
    cover("ends");
  }
}
// concurrent sources while processes come and go
static void run_mt()
{
  Rng r(seed());
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w("concurrent naming", 240000);
    auto f = unix_factory();
    auto mgr = std::make_shared<scalopus::EndpointManagerPoll>(f);
    mgr->addEndpointFactory<scalopus::EndpointProcessInfo>();
    mgr->addEndpointFactory<scalopus::EndpointTraceMapping>();
    auto gp = std::make_shared<scalopus::GeneralProvider>(mgr);
    auto sp = std::make_shared<Provider>(mgr);
    std::vector<std::unique_ptr<Node>> nodes;
    std::set<pid_t> ours;
    for (int i = 0; i < 2; i++)
    {
      nodes.emplace_back(new Node);
      auto& n = *nodes.back();
      n.c = spawn({ "node" });
      ours.insert(n.c.pid);
      auto sd = (r.next() >> 2) | 1;
      n.s = make_state(sd);
      command(n.c, fmt("serve %llu 3", static_cast<unsigned long long>(sd)));
      n.state = 1;
    }
    mgr->startPolling(0.005);
    wait_until([&]() { return mgr->endpoints().size() >= 2; }, 5000);
    std::atomic<bool> stop{ false };
    std::atomic<int> n_complete{ 0 };
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; k++)
      ts.emplace_back([&, k]() {
        auto source = gp->makeSource();
        while (!stop && !have_violation())
        {
          try
          {
            if (k < 2)
            {
              bool complete = false;
              check_general(source->finishInterval(), nodes, ours, complete);
              n_complete += complete;
              cover(complete ? "mt_complete" : "mt_incomplete");
            }
            else
            {
              sp->updateMapping();
              auto m = sp->getMapping();
              for (auto& n : nodes)
                if (m.count(n->c.pid))
                  for (auto& t : n->s.traces)
                    if (Provider::getScopeName(m, n->c.pid, t.first) != t.second)
                      violation("wrong-name", "id %x is shown as %s", t.first, shown(Provider::getScopeName(m, n->c.pid, t.first)).c_str());
            }
            cover("mt_checks");
          }
          catch (const std::exception& e)
          {
            violation("threw:mt", "naming threw %s", e.what());
          }
        }
      });
    // a third process comes and goes
    for (int i = 0; i < 6 && !have_violation(); i++)
    {
      auto c = spawn({ "node" });
      command(c, fmt("serve %d 3", i + 1));
      sleep_ms(static_cast<long>(r.below(60)));
      c.kill9();
      c.wait_exit(5000);
    }
    // each of the steady ones has to be seen
    auto m_ok = wait_until([&]() {
      auto m = sp->getMapping();
      return have_violation() || (m.count(nodes[0]->c.pid) && m.count(nodes[1]->c.pid) && n_complete >= 20);
    }, 15000);
    if (!m_ok)
      violation("missing", "a live process that answers is never shown");
    stop = true;
    for (auto& t : ts)
      t.join();
    mgr->stopPolling();
    for (auto& n : nodes)
    {
      n->c.kill9();
      n->c.wait_exit(5000);
    }
  }
}
static void run_split()
{
  Rng r(seed());
  for (int i = 0; i < 20000 * scale() && !have_violation(); i++)
  {
    std::string s;
    for (std::size_t n = r.below(5); n > 0; n--)
      s += r.chance(40) ? std::string(1 + r.below(2), '/') : any_text(r, 300);
    auto p = s.find('/');
    std::string a = p == std::string::npos ? s : s.substr(0, p), b = p == std::string::npos ? "count" : s.substr(p + 1);
    if (b.empty())
      b = "count";  // TRACE_COUNT("name", v) registers "name/"
    auto got = Provider::splitCounterSeriesName(s);
    if (got.first != a || got.second != b)
      violation("split", "%s splits into %s and %s", shown(s).c_str(), shown(got.first).c_str(), shown(got.second).c_str());
    cover("splits");
    distinct("situations", fnv(s));
    // resolution without any process
    scalopus::EndpointTraceMapping::ProcessTraceMap m;
    std::map<std::pair<int, unsigned>, std::string> model;
    for (std::size_t n = r.below(6); n > 0; n--)
    {
      int pid = static_cast<int>(1 + r.below(3));
      unsigned id = static_cast<unsigned>(r.chance(80) ? r.below(4) : r.next());
      m[pid][id] = model[{ pid, id }] = r.chance(50) ? fmt("%d/%u", pid, id) : any_text(r, 20);
    }
    for (int pid = 1; pid < 5; pid++)
      for (unsigned id : { 0u, 1u, 2u, 3u, 10u, 0xabcdefu, 0xffffffffu, static_cast<unsigned>(r.next()) })
      {
        auto g = Provider::getScopeName(m, pid, id);
        auto it = model.find({ pid, id });
        if (it != model.end() ? g != it->second : !placeholder(g, id))
          violation("resolve", "id %x of process %d resolves to %s", id, pid, shown(g).c_str());
        cover("resolutions");
      }
  }
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "procs";
  if (m == "node")
    return role_node();
  if (m == "procs")
    run_procs();
  else if (m == "mt")
    run_mt();
  else
    run_split();
  return finish();
}
