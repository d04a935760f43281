// C16, C19, C20: recordings made from the trace viewer's output.
#include <cmath>
#include "recording.h"
#include "viewer.h"
#include <scalopus_tracing/lttng_provider.h>
using namespace vh;
using rec::Ev;
using rec::json;
using Provider = scalopus::LttngProvider;
using Source = scalopus::TraceEventSource::Ptr;

static const std::uint64_t kSentinelPid = 0x7fff0000ull;
static std::string stamp(std::uint64_t ns)
{
  return fmt("[%llu.%09llu] ", static_cast<unsigned long long>(ns / 1000000000), static_cast<unsigned long long>(ns % 1000000000));
}
static const char* event_name(char kind)
{
  switch (kind)
  {
    case 'B':
      return "scope_entry";
    case 'E':
      return "scope_exit";
    case 'g':
      return "mark_event_global";
    case 'p':
      return "mark_event_process";
    case 't':
      return "mark_event_thread";
    default:
      return "count_event";
  }
}
static std::string line_of(const Ev& e, Rng& r)
{
  std::string s = stamp(e.ns) + "eagle scalopus_scope_id:" + event_name(e.kind) + ": { cpu_id = " + std::to_string(r.below(16)) + " }, { ";
  const std::string pid = "vpid = " + std::to_string(e.pid), tid = "pthread_id = " + std::to_string(e.tid);
  s += r.chance(80) ? pid + ", " + tid : tid + ", " + pid;
  if (r.chance(10))
    s += ", procname = \"x\"";
  s += " }, { id = " + std::to_string(e.id);
  if (e.kind == 'C')
    s += ", value = " + std::to_string(e.value);
  else if (r.chance(5))
    s += ", value = 12";
  return s + " }\n";
}
// Lines that must leave no entry.
static std::string line_left_out(Rng& r, std::uint64_t ns, std::uint64_t pid)
{
  const std::string head = stamp(ns) + "eagle ";
  const std::string ids = fmt("{ vpid = %llu, pthread_id = %llu }", static_cast<unsigned long long>(pid),
                              static_cast<unsigned long long>(r.below(10)));
  static const char kinds[] = "BEgptC";
  const std::string kind = event_name(kinds[r.below(6)]);
  const int k = static_cast<int>(r.below(13));
  cover(fmt("left_out_%d", k));
  switch (k)
  {
    case 0:
      return head + "other_domain:" + kind + ": { cpu_id = 1 }, " + ids + ", { id = 3, value = 5 }\n";
    case 1:
      return head + "scalopus_scope_id:unheard_of: { cpu_id = 1 }, " + ids + ", { id = 3 }\n";
    case 2:
      return head + "scalopus_scope_id:" + kind + ": { cpu_id = 1 }, { pthread_id = 7 }, { id = 3, value = 5 }\n";
    case 3:
      return head + "scalopus_scope_id:" + kind + ": { cpu_id = 1 }, " + fmt("{ vpid = %llu }", static_cast<unsigned long long>(pid)) + ", { id = 3, value = 5 }\n";
    case 4:
      return head + "scalopus_scope_id:" + kind + ": { cpu_id = 1 }, " + ids + ", { value = 5 }\n";
    case 5:
      return head + "scalopus_scope_id:count_event: { cpu_id = 1 }, " + ids + ", { id = 3 }\n";
    case 6:
      return head + "scalopus_scope_id:" + kind + ": { cpu_id = 1 }, " + ids + "\n";
    case 7:
      return head + "scalopus_scope_id:" + kind + ": { cpu_id = 1 }, { }, { }\n";
    case 8:
      return head + "scalopus_scope_id:" + kind + ":\n";
    case 9:
      return "\n";
    case 10:
      return head + "scalopus_scope_id:scope_entry_: { cpu_id = 1 }, " + ids + ", { id = 3, value = 5 }\n";
    case 11:
      return head + "scalopus_scope_idx:" + kind + ": { cpu_id = 1 }, " + ids + ", { id = 3, value = 5 }\n";
    default:
    {
      std::string s, t = any_text(r, 300, false);
      for (char c : t)
        if (c != '\n')
          s += c;
      return s + "\n";
    }
  }
}
// The viewer, the provider and the processes with the names.
struct Setup
{
  std::vector<node::Node> nodes;
  std::shared_ptr<scalopus::EndpointManagerPoll> manager;
  std::unique_ptr<viewer::Plan> plan;
  Provider::Ptr provider;
  Source marker;
  std::uint64_t sentinel{ 0 };
  Rng r;
  explicit Setup(std::uint64_t s, std::size_t processes, bool managed = true) : r(s)
  {
    for (std::size_t i = 0; i < processes; i++)
      nodes.push_back(node::start(r.next() >> 1));
    if (managed)
    {
      manager = node::manager(nodes);
      if (!manager)
      {
        inconclusive("the processes with the names were not found");
        manager = std::make_shared<scalopus::EndpointManagerPoll>(tx::unix_factory());
      }
    }
    static int no = 0;
    plan = std::make_unique<viewer::Plan>(fmt("rec%d", no++));
    provider = std::make_shared<Provider>(r.chance(50) ? plan->net() : plan->name, manager);
    provider->setLogger([](const std::string&) {});
    if (!plan->wait())
      harness_error("the viewer does not start");
    marker = provider->makeSource();
  }
  ~Setup()
  {
    marker.reset();
    provider.reset();
    manager.reset();
    for (auto& n : nodes)
      node::kill(n);
  }
  void feed(const std::string& s)
  {
    if (!plan->feed(s))
    {
      violation("viewer", "the viewer ended");
      _exit(finish());
    }
  }
  std::string sentinel_line(std::uint64_t n)
  {
    Ev e{ 'B', 1500000000000000000ull, kSentinelPid, n, 1, 0 };
    return line_of(e, r);
  }
  // Everything fed so far has reached every source.
  void sync()
  {
    const auto end = Clock::now() + std::chrono::seconds(10 * slow());
    for (long wait = 1; Clock::now() < end; wait = std::min(wait * 2, 100l))
    {
      marker->startInterval();
      const std::uint64_t n = ++sentinel;
      feed(sentinel_line(n));
      sleep_ms(wait);
      for (auto& j : marker->finishInterval())
        if (j.at("pid").get<std::uint64_t>() == kSentinelPid && j.at("tid").get<std::uint64_t>() == n)
          return;
    }
    violation("late", "the viewer's output does not reach a recording source");
    _exit(finish());
  }
  rec::NamesByPid names()
  {
    rec::NamesByPid n;
    for (auto& x : nodes)
      n[static_cast<std::uint64_t>(x.c.pid)] = &x.n;
    return n;
  }
};
static std::vector<json> without_sentinels(std::vector<json> v)
{
  std::vector<json> o;
  for (auto& j : v)
    if (!(j.count("pid") && j["pid"].is_number() && j["pid"].get<std::uint64_t>() == kSentinelPid))
      o.push_back(j);
  return o;
}
static std::vector<json> finish_of(const Source& s)
{
  try
  {
    return without_sentinels(s->finishInterval());
  }
  catch (const std::exception& x)
  {
    violation("threw", "finishing a recording threw %s", x.what());
    _exit(finish());
  }
}
static void sort_by_time(std::vector<Ev>& v)
{
  std::stable_sort(v.begin(), v.end(), [](const Ev& a, const Ev& b) { return a.ns < b.ns; });
}
static Ev random_event(Rng& r, Setup& s, std::uint64_t ns, bool counters)
{
  static const char kinds[] = "BEgptC";
  Ev e;
  e.kind = counters && r.chance(85) ? 'C' : kinds[r.below(6)];
  e.ns = ns;
  e.pid = !s.nodes.empty() && r.chance(85) ? static_cast<std::uint64_t>(r.pick(s.nodes).c.pid) : 4000000 + r.pick(std::vector<std::uint64_t>{ 0, 1, 4096, 65536, 100000 });
  e.tid = r.chance(70) ? 139688084124608ull + r.below(5) * 4096 : ctf::any_u64(r);
  e.id = counters ? static_cast<unsigned>(r.below(24)) : r.chance(70) ? static_cast<unsigned>(r.below(40)) : r.chance(50) ? 0xffffffffu - static_cast<unsigned>(r.below(2)) :
                                                                                                      static_cast<unsigned>(r.next());
  if (r.chance(3))
    e.id = 0x80000000u;
  e.value = e.kind == 'C' ? ctf::any_i64(r) : 0;
  return e;
}
static void run_convert(bool counters)
{
  Rng r(seed());
  for (int round = 0; round < 8 * scale() && !have_violation(); round++)
  {
    Setup s(r.next(), 3);
    int unnamed = 0;
    Rng q(r.next());
    for (int k = 0; k < 8 && !have_violation(); k++)
    {
      auto source = s.provider->makeSource();
      source->startInterval();
      const std::size_t n = q.chance(10) ? 0 : q.chance(20) ? 1 + q.below(3) : 20 + q.below(250);
      std::vector<std::size_t> arrival;
      auto t = rec::times(q, n, 1500000000000000000ull + q.below(1000000000) * 7, arrival, q.chance(70));
      std::vector<Ev> all, in_order;
      for (std::size_t i = 0; i < n; i++)
        all.push_back(random_event(q, s, t[i], counters));
      std::string text;
      for (std::size_t i : arrival)
      {
        for (int g = static_cast<int>(q.below(3)); g > 1; g--)
        {
          text += line_left_out(q, all[i].ns, static_cast<std::uint64_t>(q.pick(s.nodes).c.pid));
          cover("left_out_lines");
        }
        text += line_of(all[i], q);
        in_order.push_back(all[i]);
        if (q.chance(5))
        {
          s.feed(text);
          text.clear();
        }
      }
      s.feed(text);
      s.sync();
      rec::Judge judge;
      judge.names = s.names();
      judge.counters = counters;
      if (k == 6)
      {
        node::kill(s.nodes[0]);  // its names may be gone now
        cover("processes_gone");
      }
      if (k == 7)
      {
        s.manager.reset();
        cover("manager_gone");
      }
      if (q.chance(30))
        source->stopInterval();
      const auto got = finish_of(source);
      sort_by_time(in_order);
      if (judge.compare(got, in_order))
      {
        cover("recordings");
        // the names of processes that answer must be there, if not every time
        if (k < 6 && judge.unnamed)
        {
          if (node::all_answer(s.manager, s.nodes))
            unnamed++;
          if (unnamed > 3)
            violation("unnamed", "the names of processes that answer are missing in recording after recording");
        }
        else
          unnamed = 0;
      }
      else
        note("round %d recording %d", round, k);
      if (k == 0)
        sample(got.empty() ? "[]" : rec::show(got[0]));
    }
  }
}
// ---- intervals, one thread: exactly what arrived between start and stop
static void run_intervals()
{
  Rng r(seed() + 3);
  for (int round = 0; round < 8 * scale() && !have_violation(); round++)
  {
    Setup s(r.next(), 1, false);
    Rng q(r.next());
    struct One
    {
      Source s;
      bool on{ false };
      std::vector<Ev> has;
    };
    std::vector<One> sources;
    std::uint64_t tid = 1, ns = 1500000000000000000ull;
    std::string history;
    for (int step = 0; step < 60 && !have_violation(); step++)
    {
      const int act = static_cast<int>(q.below(10));
      std::size_t i = sources.empty() ? 0 : q.below(sources.size());
      history += fmt("%d", act);
      if (act == 0 || sources.empty())
      {
        if (sources.size() < 4)
          sources.push_back(One{ s.provider->makeSource(), false, {} });
      }
      else if (act == 1 && q.chance(30))
      {
        sources.erase(sources.begin() + static_cast<long>(i));
        cover("sources_dropped");
      }
      else if (act <= 3)
      {
        cover(sources[i].on ? "restarts" : "starts");
        sources[i].s->startInterval();
        sources[i].on = true;
        sources[i].has.clear();
      }
      else if (act == 4)
      {
        sources[i].s->stopInterval();
        sources[i].on = false;
        cover("stops");
      }
      else if (act <= 6)
      {
        auto got = finish_of(sources[i].s);
        rec::Judge judge;
        judge.what = "interval";
        judge.compare(got, sources[i].has);
        sources[i].on = false;
        cover(sources[i].has.empty() ? "empty_finishes" : "finishes");
        distinct("histories", fnv(history) + static_cast<std::uint64_t>(round));
        sources[i].has.clear();
        if (q.chance(50))
        {
          auto again = finish_of(sources[i].s);
          judge.what = "interval finished again";
          judge.compare(again, {});
          cover("finished_again");
        }
      }
      else
      {
        std::string text;
        for (std::size_t n = 1 + q.below(20); n > 0; n--)
        {
          Ev e{ "BEgpt"[q.below(5)], ns += 5000, 4000000, tid++, static_cast<unsigned>(q.below(5)), 0 };
          text += line_of(e, q);
          for (auto& o : sources)
            if (o.on)
              o.has.push_back(e);
          if (q.chance(10))
            text += line_left_out(q, ns, 4000000);
        }
        s.feed(text);
        s.sync();
        cover("feeds");
      }
    }
    // the provider may go before its sources
    if (!sources.empty() && !have_violation())
    {
      s.marker.reset();
      s.provider.reset();
      for (auto& o : sources)
      {
        rec::Judge judge;
        judge.what = "interval of a provider that is gone";
        judge.compare(finish_of(o.s), o.has);
        cover("provider_gone");
      }
    }
  }
}
// ---- intervals while events keep arriving
static void run_concurrent()
{
  Rng r(seed() + 4);
  for (int round = 0; round < scale() && !have_violation(); round++)
  {
    Setup s(r.next(), 1, false);
    std::atomic<std::uint64_t> begun{ 0 }, processed{ 0 };  // lines below may be / have been processed
    std::atomic<bool> stop{ false };
    const auto until = Clock::now() + std::chrono::milliseconds(1500 * slow());
    std::thread feeder([&] {
      Rng q(r.next());
      std::uint64_t n = 0, ns = 1500000000000000000ull;
      while (Clock::now() < until && !have_violation())
      {
        std::string text;
        for (std::size_t k = 1 + q.below(8); k > 0; k--)
        {
          Ev e{ 'B', ns += 5000, 4000000, n++, static_cast<unsigned>(q.below(5)), 0 };
          text += line_of(e, q);
        }
        begun = n;
        s.feed(text);
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(1500)));
      }
      stop = true;
    });
    std::vector<std::thread> ts;
    const auto check = [&](const Source& src, std::uint64_t p0, std::uint64_t b0, std::uint64_t p1, std::uint64_t b1, std::uint64_t& top) {
      auto got = finish_of(src);
      std::uint64_t first = 0, next = 0, count = 0;
      for (auto& j : got)
      {
        const std::uint64_t n = j.at("tid").get<std::uint64_t>();
        if (count == 0)
          first = next = n;
        if (n != next)
        {
          violation(n > next ? "missing" : "extra", "a recording holds event %llu where %llu is next", static_cast<unsigned long long>(n),
                    static_cast<unsigned long long>(next));
          return;
        }
        next = n + 1;
        count++;
      }
      if (count)
      {
        if (first < p0)
          violation("before", "a recording holds event %llu, which arrived before its start (%llu)", static_cast<unsigned long long>(first),
                    static_cast<unsigned long long>(p0));
        if (next > b1)
          violation("after", "a recording holds event %llu, which arrived after its stop (%llu)", static_cast<unsigned long long>(next - 1),
                    static_cast<unsigned long long>(b1));
        if (b0 < p1 && (first > b0 || next < p1))
          violation("missing", "a recording holds events %llu to %llu but was on for %llu to %llu", static_cast<unsigned long long>(first),
                    static_cast<unsigned long long>(next - 1), static_cast<unsigned long long>(b0), static_cast<unsigned long long>(p1 - 1));
        top = next;
      }
      else if (b0 < p1)
        violation("missing", "a recording is empty but was on for %llu to %llu", static_cast<unsigned long long>(b0),
                  static_cast<unsigned long long>(p1 - 1));
      cover("concurrent_recordings");
      if (count)
        cover("concurrent_events", count);
      distinct("spans", first * 1000003 + next);
    };
    for (int t = 0; t < 4; t++)
      ts.emplace_back([&, t, sd = r.next()] {
        Rng q(sd);
        auto src = s.provider->makeSource();
        while (!stop && !have_violation())
        {
          if (q.chance(20))
            src = s.provider->makeSource();
          std::uint64_t p0 = processed;
          src->startInterval();
          std::uint64_t b0 = begun;
          std::this_thread::sleep_for(std::chrono::microseconds(q.below(t == 0 ? 3000 : 20000)));
          std::uint64_t p1 = processed, b1, top = 0;
          if (q.chance(60))
          {
            src->stopInterval();
            b1 = begun;
            if (q.chance(50))
              std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
            check(src, p0, b0, p1, b1, top);
          }
          else
            check(src, p0, b0, p1, UINT64_MAX, top);
          if (t == 0 && top > 1 && top - 1 > processed)
            processed = top - 1;  // the last one may not have reached everyone yet
        }
      });
    feeder.join();
    for (auto& t : ts)
      t.join();
  }
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "convert";
  if (m == "viewer")
    return viewer::role(argc, argv);
  if (m == "node")
    return node::role(strtoull(argv[2], nullptr, 10));
  signal(SIGPIPE, SIG_IGN);
  Watchdog w("the run", 400000);
  viewer::prepare();
  viewer::path(true);
  if (m == "convert")
    run_convert(false);
  else if (m == "counters")
    run_convert(true);
  else if (m == "intervals")
    run_intervals();
  else
    run_concurrent();
  viewer::cleanup();
  return finish();
}
