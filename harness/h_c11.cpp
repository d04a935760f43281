// C11: what a client reads remotely equals what the serving process holds at some moment during the call.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <nlohmann/json.hpp>
#include "gen.h"
#include "tx.h"
using namespace vh;
using namespace tx;
using json = nlohmann::json;
using Info = scalopus::EndpointProcessInfo::ProcessInfo;

struct Clients
{
  Transport::Ptr t;
  std::shared_ptr<scalopus::EndpointIntrospect> introspect;
  scalopus::EndpointProcessInfo::Ptr info;
  scalopus::EndpointTraceMapping::Ptr mapping;
  scalopus::EndpointTraceConfigurator::Ptr config;
  explicit Clients(Transport::Ptr tr) : t(std::move(tr))
  {
    introspect = scalopus::EndpointIntrospect::factory(t);
    info = scalopus::EndpointProcessInfo::factory(t);
    mapping = scalopus::EndpointTraceMapping::factory(t);
    config = scalopus::EndpointTraceConfigurator::factory(t);
  }
};

static bool is_empty(const Info& i)
{
  return i.pid == 0 && i.name.empty() && i.threads.empty();
}
template <typename T>
static bool is_empty(const T& v)
{
  return v.empty();
}
// Calls until there is an answer. An empty result is what a call that timed out gives, so it is only believed to be one
// when the documented waiting time has indeed passed.
template <typename F>
static bool answered(const char* what, F f, decltype(f())& out, int tries = 60)
{
  for (int i = 0; i < tries; i++)
  {
    auto t0 = Clock::now();
    try
    {
      out = f();
    }
    catch (const std::exception& e)
    {
      violation(std::string("threw:") + what, "reading %s from a live server threw %s", what, e.what());
      return false;
    }
    auto el = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t0).count();
    if (!is_empty(out))
      return true;
    if (el < 190)
    {
      violation(std::string("empty:") + what, "%s came back empty after %ld ms", what, static_cast<long>(el));
      return false;
    }
    cover("timeouts");
  }
  return false;
}

struct State
{
  std::vector<std::string> endpoints;
  std::string process;
  std::map<unsigned long, std::string> threads;
  std::map<unsigned int, std::string> traces;
};
static State make_state(Rng& r, std::size_t many)
{
  State s;
  std::set<std::string> names;
  for (std::size_t n = r.below(many > 50 ? 200 : 12); n > 0; n--)
    names.insert(any_text(r, many > 50 ? 20000 : 300));
  for (auto n : { "introspect", "process_info", "scope_tracing", "trace_configurator" })
    names.erase(n);
  s.endpoints.assign(names.begin(), names.end());
  s.process = r.chance(10) ? text(r, 50000) : any_text(r);
  for (std::size_t n = r.below(many + 1); n > 0; n--)
    s.threads[r.chance(20) ? r.below(3) : r.next() >> (1 + r.below(62))] = any_text(r);
  for (std::size_t n = r.below(many + 1); n > 0; n--)
    s.traces[static_cast<unsigned>(r.chance(10) ? r.range(-2, 2) : static_cast<std::int64_t>(r.next() >> r.below(63)))] = any_text(r);
  return s;
}
static void hold(const State& s, const Transport::Ptr& server, const scalopus::EndpointProcessInfo::Ptr& info)
{
  for (auto& n : s.endpoints)
    server->addEndpoint(ep(n, nullptr));
  info->setProcessName(s.process);
  auto& tn = scalopus::ThreadNameTracker::getInstance();
  auto& ss = scalopus::StaticStringTracker::getInstance();
  tn.clear();
  ss.clear();
  for (auto& t : s.threads)
    tn.setThreadName(t.first, t.second);
  for (auto& t : s.traces)
    ss.insert(t.first, t.second);
}
template <typename M, typename N>
static std::string differ(const M& want, const N& got)
{
  for (auto& w : want)
  {
    auto it = got.find(w.first);
    if (it == got.end())
      return fmt("entry %lx (%s) is missing", static_cast<unsigned long>(w.first), shown(w.second).c_str());
    if (it->second != w.second)
      return fmt("entry %lx is %s instead of %s", static_cast<unsigned long>(w.first), shown(it->second).c_str(), shown(w.second).c_str());
  }
  if (got.size() != want.size())
    return fmt("%zu entries instead of %zu", got.size(), want.size());
  return "";
}
static void compare(Clients& c, const State& s, int pid, bool must)
{
  std::vector<std::string> sup;
  if (answered("endpoints", [&]() { return c.introspect->supported(); }, sup))
  {
    std::vector<std::string> want = s.endpoints;
    for (auto n : { "introspect", "process_info", "scope_tracing", "trace_configurator" })
      want.push_back(n);
    std::sort(want.begin(), want.end());
    std::sort(sup.begin(), sup.end());
    if (sup != want)
    {
      std::string d = fmt("%zu instead of %zu names", sup.size(), want.size());
      for (std::size_t i = 0; i < std::min(sup.size(), want.size()); i++)
        if (sup[i] != want[i])
        {
          d += "; " + shown(sup[i]) + " where " + shown(want[i]) + " is expected";
          break;
        }
      violation("wrong:endpoints", "the endpoints offered: %s", d.c_str());
    }
    cover("views_endpoints");
    distinct("states", fnv(json(want).dump(-1, ' ', false, json::error_handler_t::replace)));
  }
  else if (must && !have_violation())
    violation("never:endpoints", "a live server never answers");
  Info info;
  if (answered("process info", [&]() { return c.info->processInfo(); }, info))
  {
    if (info.pid != pid)
      violation("wrong:pid", "process id %d instead of %d", info.pid, pid);
    if (info.name != s.process)
      violation("wrong:process-name", "process name %s instead of %s", shown(info.name).c_str(), shown(s.process).c_str());
    auto d = differ(s.threads, info.threads);
    if (!d.empty())
      violation("wrong:threads", "thread names: %s", d.c_str());
    cover("views_info");
    distinct("states", fnv(info.name) ^ info.threads.size());
  }
  else if (must && !have_violation())
    violation("never:info", "a live server never answers");
  scalopus::EndpointTraceMapping::ProcessTraceMap m;
  if (answered("trace mapping", [&]() { return c.mapping->mapping(); }, m))
  {
    if (m.size() != 1 || m.begin()->first != pid)
      violation("wrong:mapping-pid", "the mapping has %zu processes, first %d, instead of %d", m.size(), m.begin()->first, pid);
    else
    {
      auto d = differ(s.traces, m[pid]);
      if (!d.empty())
        violation("wrong:mapping", "trace names: %s", d.c_str());
    }
    cover("views_mapping");
  }
  else if (must && !have_violation())
    violation("never:mapping", "a live server never answers");
}
static void add_standard(const Transport::Ptr& server, const scalopus::EndpointProcessInfo::Ptr& info)
{
  server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  server->addEndpoint(info);
  server->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
  server->addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
}
static scalopus::TransportFactory::Ptr make_factory(bool unix_t)
{
  return unix_t ? unix_factory() : std::make_shared<scalopus::TransportLoopbackFactory>();
}
static Transport::Ptr connect_to(const scalopus::TransportFactory::Ptr& f, bool unix_t)
{
  for (int i = 0; i < 50; i++)
  {
    for (auto& d : f->discover())
      if (d && (!unix_t || d->hash_code() == static_cast<std::size_t>(getpid())))
        if (auto t = f->connect(d))
          return t;
    sleep_ms(50);
  }
  harness_error("cannot connect");
}

static void run_state(bool unix_t)
{
  Rng r(seed());
  for (int round = 0; round < 40 * scale() && !have_violation(); round++)
  {
    Watchdog w("remote view", 120000);
    auto f = make_factory(unix_t);
    auto server = f->serve();
    if (!server)
      harness_error("serve");
    auto info = std::make_shared<scalopus::EndpointProcessInfo>();
    add_standard(server, info);
    bool big = round % 10 == 9;
    auto s = make_state(r, big ? static_cast<std::size_t>(2000 / slow()) : r.pick(std::vector<std::size_t>{ 0, 1, 4, 30 }));
    hold(s, server, info);
    Clients c(connect_to(f, unix_t));
    if (unix_t && r.chance(30))
    {
      inject().short_io = 40;
      inject().eintr = 10;
    }
    compare(c, s, getpid(), !big);
    // the same clients see the next state, not the previous one
    for (int again = 0; again < 2 && !have_violation(); again++)
    {
      auto s2 = make_state(r, 10);
      s2.endpoints.insert(s2.endpoints.end(), s.endpoints.begin(), s.endpoints.end());
      std::sort(s2.endpoints.begin(), s2.endpoints.end());
      s2.endpoints.erase(std::unique(s2.endpoints.begin(), s2.endpoints.end()), s2.endpoints.end());
      hold(s2, server, info);
      compare(c, s2, getpid(), true);
      s = s2;
      cover("state_changes");
    }
    inject_off();
    server.reset();
  }
}

// ------------------------------------------------------------------ reading while the state changes
static void run_changing(bool unix_t)
{
  Rng r(seed());
  for (int round = 0; round < 6 * scale() && !have_violation(); round++)
  {
    Watchdog w("remote view of changes", 120000);
    auto f = make_factory(unix_t);
    auto server = f->serve();
    if (!server)
      harness_error("serve");
    auto info = std::make_shared<scalopus::EndpointProcessInfo>();
    add_standard(server, info);
    auto& tn = scalopus::ThreadNameTracker::getInstance();
    auto& ss = scalopus::StaticStringTracker::getInstance();
    tn.clear();
    ss.clear();
    const unsigned limit = 400;
    std::atomic<unsigned> begun{ 0 }, done{ 0 };
    std::atomic<bool> stop{ false };
    auto name_of = [](unsigned i) { return fmt("name-%u-%s", i, std::string(i % 17, 'x').c_str()); };
    info->setProcessName(name_of(0));
    std::thread writer([&]() {
      Rng q(seed() + 99);
      for (unsigned i = 0; i < limit && !stop; i++)
      {
        begun = i + 1;
        ss.insert(i, name_of(i));
        tn.setThreadName(i, name_of(i));
        info->setProcessName(name_of(i + 1));
        server->addEndpoint(ep(fmt("e%05u", i), nullptr));
        done = i + 1;
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(800)));
      }
    });
    std::vector<std::thread> readers;
    for (int k = 0; k < 3; k++)
      readers.emplace_back([&, k]() {
        Clients c(connect_to(f, unix_t));
        unsigned prev = 0;
        while (!stop && !have_violation())
        {
          bool last = done == limit;
          unsigned lo = done;
          auto prefix = [&](const char* what, std::size_t n, const std::function<bool(unsigned)>& has) {
            unsigned hi = begun;
            if (n < lo || n > hi)
              violation(std::string("not-a-state:") + what, "%zu %s were seen, the server had between %u and %u during the call", n, what, lo, hi);
            for (unsigned i = 0; i < n; i++)
              if (!has(i))
              {
                violation(std::string("not-a-state:") + what, "of %zu %s number %u is missing or wrong", n, what, i);
                break;
              }
            cover("changing_views");
            if (n != prev && n > 0 && n < limit)
              cover("changing_views_midway");
            prev = static_cast<unsigned>(n);
          };
          scalopus::EndpointTraceMapping::ProcessTraceMap m;
          if (answered("trace mapping", [&]() { lo = done; return c.mapping->mapping(); }, m, 3))
            prefix("trace names", m[getpid()].size(), [&](unsigned i) {
              auto it = m[getpid()].find(i);
              return it != m[getpid()].end() && it->second == name_of(i);
            });
          Info p;
          if (answered("process info", [&]() { lo = done; return c.info->processInfo(); }, p, 3))
          {
            unsigned hi = begun;
            unsigned at = ~0u;
            sscanf(p.name.c_str(), "name-%u", &at);
            if (at < lo || at > hi || p.name != name_of(at))
              violation("not-a-state:process-name", "process name %s, the server had number %u to %u during the call", shown(p.name).c_str(), lo, hi);
            prefix("thread names", p.threads.size(), [&](unsigned i) {
              auto it = p.threads.find(i);
              return it != p.threads.end() && it->second == name_of(i);
            });
          }
          std::vector<std::string> e;
          if (answered("endpoints", [&]() { lo = done; return c.introspect->supported(); }, e, 3))
          {
            std::sort(e.begin(), e.end());
            if (e.size() < 4)
              violation("not-a-state:endpoints", "only %zu endpoints", e.size());
            else
              prefix("endpoints", e.size() - 4, [&](unsigned i) { return e[i] == fmt("e%05u", i); });
          }
          if (last)
            break;
        }
      });
    for (auto& t : readers)
      t.join();
    stop = true;
    writer.join();
    distinct("states", fnv(fmt("changing%d%d", round, unix_t)));
  }
}

// ------------------------------------------------------------------ separate processes
static int role_server()
{
  char buf[100];
  std::vector<std::thread> ts;
  auto f = unix_factory();
  auto server = f->serve();
  auto info = std::make_shared<scalopus::EndpointProcessInfo>();
  if (!server)
    return 1;
  add_standard(server, info);
  while (fgets(buf, sizeof buf, stdin))
  {
    Rng r(strtoull(buf, nullptr, 10));
    auto s = make_state(r, 20);
    hold(s, server, info);
    printf("ok\n");
    fflush(stdout);
  }
  _exit(0);
}
static void run_procs()
{
  Rng r(seed());
  auto f = unix_factory();
  const int N = 3;
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Watchdog w("remote views of processes", 120000);
    std::vector<Child> ch;
    std::vector<std::unique_ptr<Clients>> cs;
    std::vector<State> st(N);
    std::vector<std::set<std::string>> all(N);
    for (int i = 0; i < N; i++)
      ch.push_back(spawn({ "server" }));
    for (int step = 0; step < 12 && !have_violation(); step++)
    {
      int i = static_cast<int>(step < N ? static_cast<std::size_t>(step) : r.below(N));
      std::uint64_t sd = r.next() >> 1;
      std::string l;
      if (!ch[static_cast<std::size_t>(i)].send_line(std::to_string(sd)) || !ch[static_cast<std::size_t>(i)].read_line(l, 20000))
        harness_error("child");
      Rng q(sd);
      auto& s = st[static_cast<std::size_t>(i)];
      s = make_state(q, 20);
      all[static_cast<std::size_t>(i)].insert(s.endpoints.begin(), s.endpoints.end());
      if (step < N)
      {
        auto t = connect_pid(f, ch[static_cast<std::size_t>(i)].pid);
        if (!t)
          harness_error("connect to child");
        cs.emplace_back(new Clients(t));
      }
      for (std::size_t k = 0; k < cs.size(); k++)
      {
        State x = st[k];
        x.endpoints.assign(all[k].begin(), all[k].end());
        compare(*cs[k], x, ch[k].pid, true);
        cover("process_views");
      }
    }
    for (auto& c : ch)
    {
      c.kill9();
      c.wait_exit(5000);
    }
    // nobody there any more: an error or an empty result, at once or after the waiting time
    for (auto& c : cs)
    {
      auto t0 = Clock::now();
      try
      {
        if (!c->introspect->supported().empty())
          violation("stale:endpoints", "endpoints of a dead server");
      }
      catch (const std::exception&)
      {
      }
      try
      {
        if (!is_empty(c->info->processInfo()))
          violation("stale:info", "process info of a dead server");
      }
      catch (const std::exception&)
      {
      }
      try
      {
        if (!c->mapping->mapping().empty())
          violation("stale:mapping", "trace names of a dead server");
      }
      catch (const std::exception&)
      {
      }
      if (Clock::now() - t0 > std::chrono::seconds(10 * slow()))
        violation("blocked", "reading from a dead server took too long");
      cover("dead_views");
    }
  }
}

// ------------------------------------------------------------------ servers that answer late, never or only once
// Answers request number n (from 0) with values that carry n.
struct RawServer
{
  int ls;
  std::atomic<int> delay{ 0 };  // ms, -1: no answer
  std::atomic<bool> stop{ false };
  std::thread t;
  RawServer()
  {
    ls = Raw::listen_as(getpid());
    if (ls < 0)
      harness_error("listen");
    t = std::thread([this]() {
      int fd = accept(ls, nullptr, nullptr);
      Raw c(fd);
      unsigned n = 0;
      std::deque<std::pair<Clock::time_point, RawFrame>> due;
      while (!stop)
      {
        RawFrame fr;
        int g = c.recv_frame(fr, 5);
        if (g < 0)
          return;
        if (g == 1)
        {
          json j;
          unsigned k = n++;
          if (fr.name == "introspect")
            j["endpoints"] = std::vector<std::string>{ std::to_string(k) };
          else if (fr.name == "process_info")
          {
            j["name"] = std::to_string(k);
            j["pid"] = k + 1;
            j["threads"] = std::map<unsigned long, std::string>{ { k, "x" } };
          }
          else if (fr.name == "scope_tracing")
            j["mapping"] = scalopus::EndpointTraceMapping::ProcessTraceMap{ { static_cast<int>(k) + 1, {} } };
          else
            j["state"] = { { "p", true }, { "sp", false }, { "t", std::map<unsigned long, bool>{ { k, true } } } };
          int d = delay;
          if (d >= 0)
          {
            fr.data = json::to_bson(j);
            due.emplace_back(Clock::now() + std::chrono::milliseconds(d), fr);
          }
        }
        while (!due.empty() && due.front().first <= Clock::now())
        {
          c.send_frame(due.front().second);
          due.pop_front();
        }
      }
    });
  }
  ~RawServer()
  {
    stop = true;
    t.join();
    syscall(SYS_close, ls);
  }
};
static void run_late()
{
  Rng r(seed());
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Watchdog w("late answers", 120000);
    RawServer s;
    auto f = unix_factory();
    Clients c(connect_to(f, true));
    unsigned n = 0;
    int prev_delay = 0;
    for (int step = 0; step < 25 && !have_violation(); step++)
    {
      // -1: nothing; 0: at once; otherwise later than the waiting time, so that it arrives during a later call
      int d = step == 0 ? 0 : r.pick(std::vector<int>{ -1, 0, 0, 230, 350, 500 });
      s.delay = d;
      unsigned k = n++;
      auto t0 = Clock::now();
      std::string got;  // number found in the answer, empty if none
      int kind = static_cast<int>(r.below(4));
      std::string other;
      switch (kind)
      {
        case 0:
        {
          auto v = c.introspect->supported();
          if (!v.empty())
            got = v[0];
          break;
        }
        case 1:
        {
          auto v = c.info->processInfo();
          if (!is_empty(v))
          {
            got = std::to_string(v.pid - 1);
            if (v.name != got || v.threads.size() != 1)
              other = fmt("pid %d, name %s, %zu threads", v.pid, shown(v.name).c_str(), v.threads.size());
          }
          break;
        }
        case 2:
        {
          auto v = c.mapping->mapping();
          if (!v.empty())
            got = std::to_string(v.begin()->first - 1);
          break;
        }
        default:
        {
          auto v = c.config->getTraceState();
          if (v.cmd_success)
            got = v.thread_state.empty() ? "?" : std::to_string(v.thread_state.begin()->first);
          else if (v.process_state || v.set_process_state || !v.thread_state.empty())
            other = "a failed trace state with contents";
        }
      }
      auto el = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t0).count();
      if (!got.empty() && got != std::to_string(k))
        violation("stale:late-answer", "call %u (kind %d) got the answer to request %s", k, kind, got.c_str());
      if (!other.empty())
        violation("undefined:contents", "call %u: %s", k, other.c_str());
      if (got.empty() && el < 190)
        violation("empty:early", "call %u (kind %d) came back empty after %ld ms", k, kind, static_cast<long>(el));
      if (d < 0 && !got.empty())
        violation("invented", "call %u returned an answer nobody gave", k);
      if (el > 5000 * slow())
        violation("blocked", "call %u took %ld ms", k, static_cast<long>(el));
      cover(got.empty() ? "late_empty" : "late_answered");
      distinct("states", fnv(fmt("%d %d %d", kind, d, prev_delay)));
      prev_delay = d;
    }
  }
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "state";
  bool u = argc > 2 && std::string(argv[2]) == "unix";
  if (m == "server")
    return role_server();
  if (m == "state")
    run_state(u);
  else if (m == "changing")
    run_changing(u);
  else if (m == "procs")
    run_procs();
  else
    run_late();
  return finish();
}
