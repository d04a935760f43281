// C15, C16, C20: events of the native tracing backend, from the emitting threads to finished recordings.
#include <cmath>
#include "recording.h"
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <condition_variable>
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/trace_configurator.h>
using namespace vh;
using namespace tx;
using rec::json;
using Provider = scalopus::NativeTraceProvider;
using Source = scalopus::TraceEventSource::Ptr;

static const unsigned kSentinel = 0xABC00000u;  // and following, never used otherwise
static const std::size_t kBurst = 9500;         // a thread's buffer holds 10000
// ---- emitting side
struct Sent
{
  char kind;
  unsigned id;
  std::int64_t value;
  std::uint64_t before, after;  // ns since the epoch
};
using Log = std::map<std::uint64_t, std::vector<Sent>>;  // by thread id, in emission order
static std::mutex log_mutex;
static Log sent;
static std::uint64_t now_ns()
{
  return static_cast<std::uint64_t>(
      std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count());
}
static void emit(char kind, unsigned id, std::int64_t value)
{
  switch (kind)
  {
    case 'B':
      scalopus::scope_entry(id);
      break;
    case 'E':
      scalopus::scope_exit(id);
      break;
    case 'g':
      scalopus::mark_event(id, scalopus::MarkLevel::GLOBAL);
      break;
    case 'p':
      scalopus::mark_event(id, scalopus::MarkLevel::PROCESS);
      break;
    case 't':
      scalopus::mark_event(id, scalopus::MarkLevel::THREAD);
      break;
    default:
      scalopus::count_event(id, value);
  }
}
struct Emitter
{
  std::vector<Sent> mine;
  Rng r;
  bool counters;
  explicit Emitter(std::uint64_t s, bool c = false) : r(s), counters(c)
  {
  }
  void one(bool logged = true)
  {
    static const char kinds[] = "BEgptC";
    Sent s;
    s.kind = counters && r.chance(80) ? 'C' : kinds[r.below(6)];
    s.id = counters ? static_cast<unsigned>(r.below(24)) : r.chance(60) ? static_cast<unsigned>(r.below(40)) : static_cast<unsigned>(r.next());
    if (s.id >= kSentinel && s.id < kSentinel + 0x100000)
      s.id = 7;
    s.value = s.kind == 'C' ? ctf::any_i64(r) : 0;
    s.before = now_ns();
    emit(s.kind, s.id, s.value);
    s.after = now_ns();
    if (logged)
      mine.push_back(s);
  }
  void burst(std::size_t n)
  {
    for (std::size_t i = 0; i < n; i++)
    {
      one();
      if (r.chance(1))
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(r.chance(5) ? 15000 : 50)));
    }
  }
  // without any pause, such that most is still waiting when the last one is emitted
  void rush(std::size_t n)
  {
    mine.reserve(mine.size() + n);
    for (std::size_t i = 0; i < n; i++)
      one();
  }
  // events emitted while off must not appear
  void off(bool thread, std::size_t n)
  {
    auto c = scalopus::TraceConfigurator::getInstance();
    if (thread)
      c->setThreadState(false);
    for (std::size_t i = 0; i < n; i++)
      one(false);
    if (thread)
      c->setThreadState(true);
    cover("emitted_off", n);
  }
  ~Emitter()
  {
    std::lock_guard<std::mutex> l(log_mutex);
    auto& v = sent[static_cast<std::uint64_t>(pthread_self())];
    v.insert(v.end(), mine.begin(), mine.end());
  }
};
// Many threads that all end at the same time, most of them with events waiting, some with an almost full buffer.
static void crowd(Rng& r, bool counters)
{
  const std::size_t n = 6 + r.below(30);
  std::atomic<std::size_t> ready{ 0 };
  std::vector<std::thread> ts;
  for (std::size_t i = 0; i < n; i++)
    ts.emplace_back([&ready, n, counters, sd = r.next(), full = r.chance(8)] {
      Emitter e(sd, counters);
      ready++;
      for (int spins = 0; ready < n && spins < 200000; spins++)
        std::this_thread::yield();
      e.rush(full ? kBurst - e.r.below(3000) : 1 + e.r.below(40));
    });
  for (auto& t : ts)
    t.join();
  cover("crowds");
}
// A wave of threads; every thread stays below what its buffer holds. The last thing some do is to emit.
static void wave(Rng& r, bool counters, std::size_t most)
{
  std::vector<std::thread> ts;
  const std::size_t n = 1 + r.below(6);
  for (std::size_t i = 0; i < n; i++)
  {
    const std::uint64_t sd = r.next();
    const int kind = static_cast<int>(r.below(6));
    cover(fmt("threads_%d", kind));
    ts.emplace_back([sd, kind, counters, most] {
      Emitter e(sd, counters);
      std::size_t left = 1 + e.r.below(most);
      switch (kind)
      {
        case 0:  // ends at once
          e.burst(1 + e.r.below(3));
          break;
        case 1:  // some, pausing
        case 2:
          while (left > 0)
          {
            std::size_t k = std::min<std::size_t>(left, 1 + e.r.below(300));
            e.burst(k);
            left -= k;
            std::this_thread::sleep_for(std::chrono::microseconds(e.r.below(8000)));
          }
          break;
        case 3:
          e.burst(left / 2);
          e.off(true, 1 + e.r.below(50));
          e.burst(1 + left / 3);
          break;
        case 4:
          e.rush(most > 1000 ? kBurst - e.r.below(3000) : left);
          break;
        default:
          e.burst(left);
      }
    });
    if (r.chance(30))
    {
      ts.back().join();
      ts.pop_back();
    }
  }
  for (auto& t : ts)
    t.join();
}
// ---- consuming side
struct Consumer
{
  std::shared_ptr<scalopus::EndpointManager> manager;
  Provider::Ptr provider;
  std::vector<Transport::Ptr> clients;
  std::vector<Source> sources;
  Source marker;
  explicit Consumer(std::shared_ptr<scalopus::EndpointManager> m) : manager(m), provider(std::make_shared<Provider>(m))
  {
    marker = provider->makeSource();
  }
  void attach(const Transport::Ptr& client)
  {
    client->addEndpoint(provider->factory(client));
    clients.push_back(client);
  }
  void add()
  {
    sources.push_back(provider->makeSource());
  }
  ~Consumer()
  {
    clients.clear();
  }
};
struct NoManager : public scalopus::EndpointManager
{
  TransportEndpoints endpoints() const override
  {
    return {};
  }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override
  {
  }
};
static std::vector<json> finish_of(const Source& s)
{
  try
  {
    return s->finishInterval();
  }
  catch (const std::exception& x)
  {
    violation("threw", "finishing a recording threw %s", x.what());
    _exit(finish());
  }
}
static bool is_sentinel(const json& j)
{
  // sentinels are marks of the main thread with an id nothing else uses; their names are placeholders holding the id
  if (j.value("ph", "") != "i" || !j.count("name") || !j["name"].is_string())
    return false;
  const std::string n = j["name"];
  for (std::size_t p = n.find("abc"); p != std::string::npos; p = n.find("abc", p + 1))
    if (p + 8 <= n.size() && n.find_first_not_of("0123456789abcdef", p) >= p + 8)
      return true;
  return false;
}
static std::uint64_t sentinels = 0;
// Everything emitted before the call by any thread of the emitting process has reached every source of the consumer.
static void sync(Consumer& c, const std::function<void(unsigned)>& mark, pid_t pid = getpid())
{
  const auto end = Clock::now() + std::chrono::seconds(20 * slow());
  int seen = 0;
  for (long wait = 5; Clock::now() < end; wait = std::min(wait * 2, 200l))
  {
    c.marker->startInterval();
    const unsigned id = kSentinel + static_cast<unsigned>(++sentinels);
    mark(id);
    sleep_ms(wait);
    const std::string want = fmt("%x", id);
    for (auto& j : finish_of(c.marker))
      if (is_sentinel(j) && j.at("pid").get<std::uint64_t>() == static_cast<std::uint64_t>(pid) && j.at("name").get<std::string>().find(want) != std::string::npos)
      {
        seen++;
        wait = 5;
        break;
      }
    // the second one was collected in a round that began after everything emitted before the first
    if (seen == 2)
      return;
  }
  violation("late", "an event does not reach a recording source");
  _exit(finish());
}
static std::vector<json> without_sentinels(const std::vector<json>& v)
{
  std::vector<json> o;
  for (auto& j : v)
    if (!is_sentinel(j))
      o.push_back(j);
  return o;
}
struct Expect
{
  std::uint64_t pid;
  Log log;
};
// Compares a recording with the logs of the emitting processes; fills `order` with the events in the recording's order.
static bool compare(const std::vector<json>& got, const std::vector<Expect>& want, const char* what, std::vector<rec::Ev>* order = nullptr,
                    bool values = true)
{
  std::map<std::pair<std::uint64_t, std::uint64_t>, std::size_t> at;
  std::map<std::uint64_t, const Log*> logs;
  for (auto& w : want)
    logs[w.pid] = &w.log;
  double last = 0;
  for (std::size_t i = 0; i < got.size(); i++)
  {
    const json& j = got[i];
    std::string bad;
    try
    {
      const std::uint64_t pid = j.at("pid").get<std::uint64_t>(), tid = j.at("tid").get<std::uint64_t>();
      const double ts = j.at("ts").get<double>();
      std::size_t& n = at[{ pid, tid }];
      auto l = logs.find(pid);
      const std::vector<Sent>* v = nullptr;
      if (l != logs.end())
      {
        auto x = l->second->find(tid);
        if (x != l->second->end())
          v = &x->second;
      }
      if (!v || n >= v->size())
        bad = fmt("it was not emitted by that process and thread, which %s", !v ? (l == logs.end() ? "is not of an emitting process" : "emitted nothing") : fmt("emitted %zu", v->size()).c_str());
      else
      {
        const Sent& s = (*v)[n];
        const std::string ph = j.at("ph").get<std::string>();
        const bool mark = s.kind == 'g' || s.kind == 'p' || s.kind == 't';
        if (ph != std::string(1, mark ? 'i' : s.kind) || (mark && j.at("s").get<std::string>() != std::string(1, s.kind)))
          bad = fmt("emission %zu of the thread is of kind %c", n, s.kind);
        else if (ts + 0.6 < static_cast<double>(s.before) / 1e3 || ts - 0.6 > static_cast<double>(s.after) / 1e3)
          bad = fmt("emission %zu of the thread was between %llu and %llu ns", n, static_cast<unsigned long long>(s.before),
                    static_cast<unsigned long long>(s.after));
        else if (ts < last)
          bad = "it is not in order of time";
        else if (values && !node::placeholder(j.at("name").get<std::string>(), s.id))
          bad = fmt("emission %zu of the thread has id %x", n, s.id);
        else if (values && s.kind == 'C' && j.at("args").at("count").get<std::int64_t>() != s.value)
          bad = fmt("emission %zu of the thread has value %lld", n, static_cast<long long>(s.value));
        last = ts;
        if (order)
          order->push_back(rec::Ev{ s.kind, static_cast<std::uint64_t>(ts * 1000), pid, tid, s.id, s.value });
        distinct("events", fnv(fmt("%c%x%lld", s.kind, s.id, static_cast<long long>(s.value))));
      }
      n++;
    }
    catch (const std::exception& x)
    {
      bad = x.what();
    }
    cover("events_checked");
    if (!bad.empty())
    {
      violation("wrong", "%s, entry %zu of %zu: %s: %s", what, i, got.size(), rec::show(j).c_str(), bad.c_str());
      return false;
    }
  }
  for (auto& w : want)
    for (auto& t : w.log)
      if (at[{ w.pid, t.first }] != t.second.size())
      {
        violation("missing", "%s: %zu of %zu events of thread %llx of process %llu are there", what, at[{ w.pid, t.first }], t.second.size(),
                  static_cast<unsigned long long>(t.first), static_cast<unsigned long long>(w.pid));
        return false;
      }
  return true;
}
static Log take_log()
{
  std::lock_guard<std::mutex> l(log_mutex);
  Log o;
  o.swap(sent);
  return o;
}
static void mark_here(unsigned id)
{
  scalopus::mark_event(id, scalopus::MarkLevel::GLOBAL);
}
struct Local
{
  scalopus::TransportFactory::Ptr factory;
  Transport::Ptr server;
  std::shared_ptr<scalopus::EndpointNativeTraceSender> sender;
  std::vector<std::unique_ptr<Consumer>> consumers;
  Local(const std::string& kind, std::size_t n, bool as_endpoint = true)
  {
    factory = kind == "unix" ? unix_factory() : std::make_shared<scalopus::TransportLoopbackFactory>();
    server = factory->serve();
    if (!server)
      harness_error("cannot serve");
    sender = std::make_shared<scalopus::EndpointNativeTraceSender>();
    if (as_endpoint)
      server->addEndpoint(sender);
    else
      sender->setTransport(server.get());
    for (std::size_t i = 0; i < n; i++)
    {
      consumers.push_back(std::make_unique<Consumer>(std::make_shared<NoManager>()));
      auto c = factory->connect(server->getAddress());
      if (!c)
        harness_error("cannot connect");
      consumers.back()->attach(c);
    }
  }
  ~Local()
  {
    consumers.clear();
    sender.reset();
    server.reset();
  }
};
// ---- C15 within one process
static void run_deliver(const std::string& kind)
{
  Rng r(seed());
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Local l(kind, 2);
    for (auto& c : l.consumers)
      for (std::size_t k = 1 + r.below(2); k > 0; k--)
        c->add();
    for (int k = 0; k < 6 && !have_violation(); k++)
    {
      for (auto& c : l.consumers)
        sync(*c, mark_here);
      take_log();
      for (auto& c : l.consumers)
        for (auto& s : c->sources)
          s->startInterval();
      for (int w = static_cast<int>(1 + r.below(3)); w > 0; w--)
      {
        wave(r, false, r.chance(20) ? kBurst / 2 : 400);
        cover("waves");
        if (r.chance(40))
          crowd(r, false);
        if (r.chance(50))
        {
          auto c = scalopus::TraceConfigurator::getInstance();
          c->setProcessState(false);
          {
            Emitter e(r.next());
            e.off(false, 1 + r.below(20));
          }
          c->setProcessState(true);
          cover("process_off");
        }
      }
      for (auto& c : l.consumers)
        sync(*c, mark_here);
      std::vector<Expect> want{ Expect{ static_cast<std::uint64_t>(getpid()), take_log() } };
      std::size_t no = 0;
      for (auto& c : l.consumers)
        for (auto& s : c->sources)
        {
          compare(without_sentinels(finish_of(s)), want, fmt("source %zu", no++).c_str());
          cover("recordings");
        }
    }
    // a consumer that comes and goes while events are emitted changes nothing for the others
    if (!have_violation())
    {
      for (auto& c : l.consumers)
        sync(*c, mark_here);
      take_log();
      l.consumers[0]->sources[0]->startInterval();
      std::atomic<bool> stop{ false };
      std::thread churn([&, sd = r.next()] {
        Rng q(sd);
        while (!stop)
        {
          auto c = l.factory->connect(l.server->getAddress());
          if (c)
          {
            Consumer x(std::make_shared<NoManager>());
            x.attach(c);
            c.reset();
            x.add();
            x.sources[0]->startInterval();
            std::this_thread::sleep_for(std::chrono::microseconds(q.below(20000)));
            if (q.chance(50))
              finish_of(x.sources[0]);
            cover("churned_consumers");
          }
        }
      });
      for (int w = 0; w < 4; w++)
        wave(r, false, 400);
      stop = true;
      churn.join();
      sync(*l.consumers[0], mark_here);
      compare(without_sentinels(finish_of(l.consumers[0]->sources[0])),
              { Expect{ static_cast<std::uint64_t>(getpid()), take_log() } }, "source beside churned consumers");
    }
    cover("rounds");
  }
}
// ---- an emitting process
static int role_emitter(std::uint64_t sd, const std::string& dir)
{
  auto f = unix_factory();
  auto& ss = scalopus::StaticStringTracker::getInstance();
  for (auto& t : node::names(sd))
    ss.insert(t.first, t.second);
  auto server = f->serve();
  if (!server)
    return 1;
  server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  server->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
  server->addEndpoint(std::make_shared<scalopus::EndpointNativeTraceSender>());
  printf("ok\n");
  fflush(stdout);
  char b[200];
  while (fgets(b, sizeof b, stdin))
  {
    unsigned long long x = 0, most = 0;
    int counters = 0;
    if (sscanf(b, "mark %llu", &x) == 1)
      mark_here(static_cast<unsigned>(x));
    else if (sscanf(b, "wave %llu %d %llu", &x, &counters, &most) == 3)
    {
      Rng r(x);
      wave(r, counters != 0, most);
    }
    else if (sscanf(b, "log %llu", &x) == 1)
    {
      FILE* o = fopen(fmt("%s/log.%d", dir.c_str(), getpid()).c_str(), "w");
      for (auto& t : take_log())
        for (auto& s : t.second)
          fprintf(o, "%llu %c %u %lld %llu %llu\n", static_cast<unsigned long long>(t.first), s.kind, s.id, static_cast<long long>(s.value),
                  static_cast<unsigned long long>(s.before), static_cast<unsigned long long>(s.after));
      fclose(o);
    }
    printf("ok\n");
    fflush(stdout);
  }
  _exit(0);
}
static Log read_log(const std::string& dir, pid_t pid)
{
  Log l;
  const std::string file = fmt("%s/log.%d", dir.c_str(), pid);
  FILE* i = fopen(file.c_str(), "r");
  if (!i)
    harness_error("no log of an emitting process");
  unsigned long long t, a, b;
  long long v;
  unsigned id;
  char k;
  while (fscanf(i, "%llu %c %u %lld %llu %llu", &t, &k, &id, &v, &a, &b) == 6)
    l[t].push_back(Sent{ k, id, v, a, b });
  fclose(i);
  unlink(file.c_str());
  return l;
}
static void tell(Child& c, const std::string& s)
{
  if (!c.send_line(s))
    harness_error("emitting process is gone");
}
static void told(Child& c)
{
  std::string l;
  if (!c.read_line(l, 60000) || l != "ok")
    harness_error("emitting process does not answer");
}
// ---- C15 and C20 across processes
static void run_procs(bool counters)
{
  Rng r(seed() + 7);
  const char* base = getenv("VH_SCRATCH");
  std::string dir = std::string(base ? base : "/tmp") + "/nativeXXXXXX";
  if (!mkdtemp(&dir[0]))
    harness_error("mkdtemp failed");
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    std::vector<node::Node> nodes;
    for (int i = 0; i < 3; i++)
    {
      node::Node n;
      const std::uint64_t sd = r.next() >> 1;
      n.c = spawn({ "emitter", std::to_string(sd), dir });
      n.n = node::names(sd);
      told(n.c);
      nodes.push_back(std::move(n));
    }
    auto manager = std::make_shared<scalopus::EndpointManagerPoll>(unix_factory());
    manager->addEndpointFactory<scalopus::EndpointTraceMapping>();
    Consumer c(manager);
    std::weak_ptr<Provider> wp = c.provider;
    manager->addEndpointFactory(scalopus::EndpointNativeTraceSender::name, [wp](const Transport::Ptr& t) -> scalopus::Endpoint::Ptr {
      auto p = wp.lock();
      return p ? p->factory(t) : nullptr;
    });
    for (int i = 0; i < 200 && !(node::all_answer(manager, nodes)); i++)
    {
      manager->manage();
      sleep_ms(10);
    }
    if (!node::all_answer(manager, nodes))
    {
      inconclusive("the emitting processes were not found");
      continue;
    }
    c.add();
    const auto sync_all = [&] {
      for (auto& n : nodes)
        sync(c, [&](unsigned id) {
          tell(n.c, fmt("mark %u", id));
          told(n.c);
        }, n.c.pid);
    };
    int unnamed = 0;
    for (int k = 0; k < 5 && !have_violation(); k++)
    {
      sync_all();
      c.sources[0]->startInterval();
      for (int w = 0; w < 2; w++)
      {
        for (auto& n : nodes)
          tell(n.c, fmt("wave %llu %d %d", static_cast<unsigned long long>(r.next() >> 1), counters ? 1 : 0, counters ? 200 : 1500));
        for (auto& n : nodes)
          told(n.c);
      }
      sync_all();
      std::vector<Expect> want;
      for (auto& n : nodes)
      {
        tell(n.c, "log 1");
        told(n.c);
        want.push_back(Expect{ static_cast<std::uint64_t>(n.c.pid), read_log(dir, n.c.pid) });
      }
      std::vector<json> got;
      for (auto& j : without_sentinels(finish_of(c.sources[0])))
      {
        // processes of other runs are discovered too; one of ours that is attributed to them is missed here
        const bool foreign = j.count("pid") && j["pid"].is_number() && j["pid"] != getpid() && j["pid"] != 0 &&
                             std::none_of(nodes.begin(), nodes.end(), [&](node::Node& n) { return j["pid"] == n.c.pid; });
        if (foreign)
          cover("foreign_events");
        else
          got.push_back(j);
      }
      std::vector<rec::Ev> order;
      if (!compare(got, want, "source of several processes", &order, false))
        break;
      cover("recordings");
      cover("process_recordings");
      rec::Judge judge;
      for (auto& n : nodes)
        judge.names[static_cast<std::uint64_t>(n.c.pid)] = &n.n;
      judge.counters = counters;
      if (judge.compare(got, order) && judge.unnamed && node::all_answer(manager, nodes) && ++unnamed > 3)
        violation("unnamed", "the names of processes that answer are missing in recording after recording");
    }
    for (auto& n : nodes)
      node::kill(n);
  }
  rmdir(dir.c_str());
}
// ---- C16 within one process
static Bytes hostile(Rng& r)
{
  switch (r.below(8))
  {
    case 0:
      return {};
    case 1:
      return r.bytes(1 + r.below(200));
    case 2:
      return Bytes(1 + r.below(60), static_cast<std::uint8_t>(r.below(256)));
    case 3:  // {}
      return Bytes{ 0xa0 };
    case 4:  // {"pid": 1}
      return Bytes{ 0xa1, 0x63, 'p', 'i', 'd', 0x01 };
    case 5:  // {"pid": 1, "events": {5: [[1, 2, 99]]}}: unknown kind
      return Bytes{ 0xa2, 0x63, 'p', 'i', 'd', 0x01, 0x66, 'e', 'v', 'e', 'n', 't', 's', 0xa1, 0x05, 0x81, 0x83, 0x01, 0x02, 0x18, 0x63 };
    case 6:  // a counter without value
      return Bytes{ 0xa2, 0x63, 'p', 'i', 'd', 0x01, 0x66, 'e', 'v', 'e', 'n', 't', 's', 0xa1, 0x05, 0x81, 0x83, 0x01, 0x02, 0x06 };
    default:  // a counter with an unusable value
      return Bytes{ 0xa2, 0x63, 'p', 'i', 'd', 0x01, 0x66, 'e', 'v', 'e', 'n', 't', 's', 0xa1, 0x05, 0x81, 0x84, 0x01, 0x02, 0x06, 0x41, 0xff };
  }
}
static void run_intervals(const std::string& kind)
{
  Rng r(seed() + 3);
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Local l(kind, 1);
    auto& c = *l.consumers[0];
    struct One
    {
      Source s;
      bool on{ false };
      bool hostile{ false };
      Log has;
    };
    std::vector<One> sources;
    std::string history;
    sync(c, mark_here);
    take_log();
    const auto good = [](std::vector<json> v) {
      // what undecodable messages left behind is of process 1
      std::vector<json> o;
      for (auto& j : without_sentinels(v))
        if (j.value("pid", 0) != 1)
          o.push_back(j);
      return o;
    };
    for (int step = 0; step < 50 && !have_violation(); step++)
    {
      const int act = static_cast<int>(r.below(11));
      std::size_t i = sources.empty() ? 0 : r.below(sources.size());
      history += fmt("%x", act);
      if (act == 0 || sources.empty())
      {
        if (sources.size() < 4)
          sources.push_back(One{ c.provider->makeSource(), false, false, {} });
      }
      else if (act == 1 && r.chance(40))
      {
        std::weak_ptr<scalopus::TraceEventSource> w = sources[i].s;
        sources.erase(sources.begin() + static_cast<long>(i));
        if (!wait_until([&] { return w.expired(); }, 2000))
          violation("kept", "a source nobody uses any more is kept and goes on recording");
        cover("sources_dropped");
      }
      else if (act <= 3)
      {
        cover(sources[i].on ? "restarts" : "starts");
        sources[i].s->startInterval();
        sources[i].on = true;
        sources[i].has.clear();
      }
      else if (act == 4)
      {
        sources[i].s->stopInterval();
        sources[i].on = false;
        cover("stops");
      }
      else if (act <= 6)
      {
        auto got = good(finish_of(sources[i].s));
        compare(got, { Expect{ static_cast<std::uint64_t>(getpid()), sources[i].has } }, "interval");
        cover(sources[i].has.empty() ? "empty_finishes" : "finishes");
        if (sources[i].hostile && !sources[i].has.empty())
          cover("finishes_with_hostile_data");
        sources[i].on = sources[i].hostile = false;
        sources[i].has.clear();
        distinct("histories", fnv(history) + static_cast<std::uint64_t>(round));
        if (r.chance(50))
        {
          compare(good(finish_of(sources[i].s)), {}, "interval finished again");
          cover("finished_again");
        }
      }
      else if (act == 7)
      {
        for (std::size_t n = 1 + r.below(4); n > 0; n--)
          l.server->broadcast("native_trace_receiver", hostile(r));
        for (auto& o : sources)
          o.hostile = o.hostile || o.on;
        cover("hostile_messages");
      }
      else
      {
        if (r.chance(15))
        {
          // messages far larger than any other
          crowd(r, false);
          wave(r, false, kBurst / 2);
          if (std::count_if(sources.begin(), sources.end(), [](const One& o) { return o.on; }) > 1)
            cover("large_feeds");
        }
        else
          wave(r, false, 40);
        sync(c, mark_here);
        Log log = take_log();
        for (auto& o : sources)
          if (o.on)
            for (auto& t : log)
              o.has[t.first].insert(o.has[t.first].end(), t.second.begin(), t.second.end());
        cover("feeds");
      }
    }
    if (!sources.empty() && !have_violation())
    {
      // the provider and the connection may go before the sources
      c.clients.clear();
      c.marker.reset();
      c.provider.reset();
      for (auto& o : sources)
      {
        compare(good(finish_of(o.s)), { Expect{ static_cast<std::uint64_t>(getpid()), o.has } }, "interval of a provider that is gone");
        cover("provider_gone");
      }
    }
  }
}
// ---- intervals while events keep arriving: one thread emits numbered counters
static void run_concurrent(const std::string& kind)
{
  Rng r(seed() + 4);
  for (int round = 0; round < scale() && !have_violation(); round++)
  {
    Local l(kind, 1);
    auto& provider = l.consumers[0]->provider;
    std::atomic<std::uint64_t> begun{ 0 }, arrived{ 0 };
    std::atomic<bool> stop{ false };
    const auto until = Clock::now() + std::chrono::milliseconds(2000 * slow());
    std::thread feeder([&, sd = r.next()] {
      Rng q(sd);
      std::uint64_t n = 0;
      while (Clock::now() < until && !have_violation())
      {
        // never more waiting than the buffer holds
        if (n - arrived < 5000)
          for (std::size_t k = 1 + q.below(20); k > 0; k--)
          {
            begun = n + 1;
            scalopus::count_event(5, static_cast<std::int64_t>(n));
            n++;
          }
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(1500)));
      }
      stop = true;
    });
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++)
      ts.emplace_back([&, t, sd = r.next()] {
        Rng q(sd);
        auto src = provider->makeSource();
        while (!stop && !have_violation())
        {
          if (q.chance(20))
            src = provider->makeSource();
          const std::uint64_t p0 = arrived;
          src->startInterval();
          const std::uint64_t b0 = begun;
          std::this_thread::sleep_for(std::chrono::microseconds(q.below(t == 0 ? 30000 : 100000)));
          const std::uint64_t p1 = arrived;
          std::uint64_t b1 = UINT64_MAX;
          if (q.chance(60))
          {
            src->stopInterval();
            b1 = begun;
            std::this_thread::sleep_for(std::chrono::microseconds(q.below(20000)));
          }
          std::uint64_t first = 0, next = 0, count = 0;
          for (auto& j : finish_of(src))
          {
            const std::uint64_t n = static_cast<std::uint64_t>(j.at("args").at("count").get<std::int64_t>());
            if (count == 0)
              first = next = n;
            if (n != next)
            {
              violation(n > next ? "missing" : "extra", "a recording holds event %llu where %llu is next", static_cast<unsigned long long>(n),
                        static_cast<unsigned long long>(next));
              return;
            }
            next = n + 1;
            count++;
          }
          if (count)
          {
            if (first < p0)
              violation("before", "a recording holds event %llu, which arrived before its start (%llu)", static_cast<unsigned long long>(first),
                        static_cast<unsigned long long>(p0));
            if (next > b1)
              violation("after", "a recording holds event %llu, emitted after its stop (%llu)", static_cast<unsigned long long>(next - 1),
                        static_cast<unsigned long long>(b1));
            if (b0 < p1 && (first > b0 || next < p1))
              violation("missing", "a recording holds events %llu to %llu but was on for %llu to %llu", static_cast<unsigned long long>(first),
                        static_cast<unsigned long long>(next - 1), static_cast<unsigned long long>(b0), static_cast<unsigned long long>(p1 - 1));
          }
          else if (b0 < p1)
            violation("missing", "a recording is empty but was on for %llu to %llu", static_cast<unsigned long long>(b0),
                      static_cast<unsigned long long>(p1 - 1));
          cover("concurrent_recordings");
          cover("concurrent_events", count);
          distinct("spans", first * 1000003 + next);
        }
      });
    // keeps track of what has arrived for everyone: a message has, once a later one has arrived
    ts.emplace_back([&] {
      auto a = provider->makeSource(), b = provider->makeSource();
      std::uint64_t seen_before = 0;
      a->startInterval();
      while (!stop && !have_violation())
      {
        sleep_ms(10);
        b->startInterval();
        std::uint64_t top = 0;
        for (auto& j : finish_of(a))
          top = std::max(top, static_cast<std::uint64_t>(j.at("args").at("count").get<std::int64_t>()));
        if (top > seen_before)
        {
          arrived = std::max<std::uint64_t>(arrived, seen_before);
          seen_before = top;
        }
        std::swap(a, b);
      }
    });
    feeder.join();
    for (auto& t : ts)
      t.join();
  }
}
// ---- senders that come and go
static void run_senders(const std::string& kind)
{
  Rng r(seed() + 5);
  for (int round = 0; round < 4 * scale() && !have_violation(); round++)
  {
    auto l = std::make_unique<Local>(kind, 1, false);
    l->consumers[0]->add();
    for (int k = 0; k < 5 && !have_violation(); k++)
    {
      auto& c = *l->consumers[0];
      sync(c, mark_here);
      take_log();
      c.sources[0]->startInterval();
      wave(r, false, 200);
      sync(c, mark_here);
      l->sender.reset();
      l->sender = std::make_shared<scalopus::EndpointNativeTraceSender>();
      l->sender->setTransport(l->server.get());
      wave(r, false, 200);
      sync(c, mark_here);
      compare(without_sentinels(finish_of(c.sources[0])), { Expect{ static_cast<std::uint64_t>(getpid()), take_log() } },
              "source of a process whose sender was replaced");
      cover("replaced_senders");
    }
  }
}
// ---- the transport goes while threads emit, with the sender as one of its endpoints
static void run_teardown(const std::string& kind)
{
  Rng r(seed() + 6);
  for (int round = 0; round < 12 * scale() && !have_violation(); round++)
  {
    std::atomic<bool> stop{ false };
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; t++)
      ts.emplace_back([&, sd = r.next()] {
        Emitter e(sd);
        while (!stop)
        {
          for (int i = 0; i < 5; i++)
            e.one(false);
          std::this_thread::sleep_for(std::chrono::microseconds(e.r.below(500)));
        }
      });
    for (int k = 0; k < 4; k++)
    {
      scalopus::TransportFactory::Ptr f = kind == "unix" ? unix_factory() : std::make_shared<scalopus::TransportLoopbackFactory>();
      auto server = f->serve();
      if (!server)
        harness_error("cannot serve");
      server->addEndpoint(std::make_shared<scalopus::EndpointNativeTraceSender>());
      std::vector<std::unique_ptr<Consumer>> consumers;
      for (std::size_t i = r.below(3); i > 0; i--)
      {
        auto client = f->connect(server->getAddress());
        consumers.push_back(std::make_unique<Consumer>(std::make_shared<NoManager>()));
        consumers.back()->attach(client);
        consumers.back()->marker->startInterval();
      }
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(30000)));
      server.reset();
      for (auto& c : consumers)
        cover("torn_down_events", finish_of(c->marker).size());
      cover("teardowns");
    }
    stop = true;
    for (auto& t : ts)
      t.join();
  }
}
// ---- C14 at the native backend: what is recorded is exactly what was emitted while both switches were on
struct Stepper
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void(Stepper&)> todo;
  bool busy{ false }, stop{ false };
  bool on{ true };  // model of the thread's switch
  Emitter* e{ nullptr };
  std::uint64_t sd;
  std::thread t;
  explicit Stepper(std::uint64_t s) : sd(s)
  {
    t = std::thread([this] {
      Emitter mine(sd);
      e = &mine;
      std::unique_lock<std::mutex> l(m);
      while (true)
      {
        cv.wait(l, [this] { return busy || stop; });
        if (!busy)
          return;
        todo(*this);
        busy = false;
        cv.notify_all();
      }
    });
  }
  void run(std::function<void(Stepper&)> f)
  {
    std::unique_lock<std::mutex> l(m);
    todo = std::move(f);
    busy = true;
    cv.notify_all();
    cv.wait(l, [this] { return !busy; });
  }
  ~Stepper()
  {
    {
      std::lock_guard<std::mutex> l(m);
      stop = true;
    }
    cv.notify_all();
    t.join();
  }
};
static void run_switches(const std::string& kind)
{
  Rng r(seed() + 77);
  auto conf = scalopus::TraceConfigurator::getInstance();
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Local l(kind, 1);
    auto configurator = std::make_shared<scalopus::EndpointTraceConfigurator>();
    l.server->addEndpoint(configurator);
    auto client = l.factory->connect(l.server->getAddress());
    if (!client)
      harness_error("cannot connect");
    auto remote = scalopus::EndpointTraceConfigurator::factory(client);
    client->addEndpoint(remote);
    Consumer& c = *l.consumers[0];
    c.add();
    sync(c, mark_here);
    take_log();
    c.sources[0]->startInterval();
    std::vector<std::unique_ptr<Stepper>> w;
    bool process = true;
    std::string history;
    for (int step = 0; step < 160; step++)
    {
      if (w.size() < 4 && (w.empty() || r.chance(10)))
        w.push_back(std::make_unique<Stepper>(r.next()));
      Stepper& s = *w[r.below(w.size())];
      const int op = static_cast<int>(r.below(8));
      const bool v = r.chance(50);
      history += fmt("%d%d", op, v);
      switch (op)
      {
        case 0:
          s.run([&](Stepper&) { conf->setThreadState(v); });
          s.on = v;
          break;
        case 1:
          (r.chance(50) ? s : *w[0]).run([&](Stepper&) { conf->setProcessState(v); });
          process = v;
          break;
        case 2:  // from outside, exactly this thread
        {
          scalopus::EndpointTraceConfigurator::TraceConfiguration t;
          t.thread_state[static_cast<unsigned long>(s.t.native_handle())] = v;
          t.process_state = !process;
          s.run([&](Stepper&) { conf->getThreadState(); });  // it is known from here on
          if (!std::static_pointer_cast<scalopus::EndpointTraceConfigurator>(remote)->setTraceState(t).cmd_success)
            harness_error("remote configuration did not answer");
          s.on = v;
          cover("native_remote");
          break;
        }
        case 3:
        {
          scalopus::EndpointTraceConfigurator::TraceConfiguration t;
          t.set_process_state = true;
          t.process_state = v;
          if (!std::static_pointer_cast<scalopus::EndpointTraceConfigurator>(remote)->setTraceState(t).cmd_success)
            harness_error("remote configuration did not answer");
          process = v;
          cover("native_remote");
          break;
        }
        case 4:
          w.erase(w.begin());
          cover("native_threads_ended");
          continue;
        default:
          break;
      }
      // every kind of event, in every thread
      for (auto& x : w)
      {
        const bool both = process && x->on;
        cover(fmt("native_gate_%d%d", process, x->on));
        x->run([&](Stepper& me) {
          for (char k : { 'B', 'E', 'g', 'p', 't', 'C' })
          {
            Sent q;
            q.kind = k;
            q.id = static_cast<unsigned>(me.e->r.below(1000));
            q.value = k == 'C' ? static_cast<std::int64_t>(me.e->r.next()) : 0;
            q.before = now_ns();
            emit(q.kind, q.id, q.value);
            q.after = now_ns();
            if (both)
              me.e->mine.push_back(q);
            cover("native_emissions");
          }
        });
      }
    }
    w.clear();
    conf->setProcessState(true);
    sync(c, mark_here);
    compare(without_sentinels(finish_of(c.sources[0])), { Expect{ static_cast<std::uint64_t>(getpid()), take_log() } }, "switched threads");
    distinct("histories", fnv(history));
    cover("native_rounds");
  }
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "deliver", k = argc > 2 ? argv[2] : "loopback";
  if (m == "emitter")
    return role_emitter(strtoull(argv[2], nullptr, 10), argv[3]);
  signal(SIGPIPE, SIG_IGN);
  Watchdog w("the run", 500000);
  if (m == "deliver")
    run_deliver(k);
  else if (m == "procs")
    run_procs(false);
  else if (m == "counters")
    run_procs(true);
  else if (m == "switches")
    run_switches(k);
  else if (m == "teardown")
    run_teardown(k);
  else if (m == "intervals")
    run_intervals(k);
  else if (m == "concurrent")
    run_concurrent(k);
  else
    run_senders(k);
  return finish();
}
