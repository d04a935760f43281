// C13: name maps behave atomically and forget threads that ended.
#include <scalopus_general/general.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_general/map_tracker.h>
#include <scalopus_general/thread_naming.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include "gen.h"
using namespace vh;

// ------------------------------------------------------------------ linearizability of the map
// A value and a key whose copying and hashing take a moment, so that operations that are not atomic overlap visibly.
static thread_local std::uint64_t tl_rnd = 88172645463325252ull;
static std::atomic<unsigned> g_slow{ 0 };
static void moment()
{
  tl_rnd ^= tl_rnd << 13;
  tl_rnd ^= tl_rnd >> 7;
  tl_rnd ^= tl_rnd << 17;
  if (tl_rnd % 100 < g_slow)
  {
    if (tl_rnd % 3 == 0)
      std::this_thread::yield();
    else
      for (volatile unsigned i = 0; i < tl_rnd % 2000; i = i + 1)
      {
      }
  }
}
struct Val
{
  int a{ -1 }, b{ -1 };  // always equal, unless torn
  Val() = default;
  explicit Val(int v) : a(v), b(v)
  {
  }
  Val(const Val& o) : a(o.a)
  {
    moment();
    b = o.b;
  }
  Val& operator=(const Val& o)
  {
    a = o.a;
    moment();
    b = o.b;
    return *this;
  }
};
struct Key
{
  int k{ 0 };
  bool operator==(const Key& o) const
  {
    moment();
    return k == o.k;
  }
};
namespace std
{
template <>
struct hash<Key>
{
  std::size_t operator()(const Key& k) const
  {
    moment();
    return static_cast<std::size_t>(k.k % 2);  // collisions
  }
};
}  // namespace std

static const int KEYS = 3;
using State = std::array<int, KEYS>;  // value or 0 = absent
struct Op
{
  enum Kind { insert, erase, exists, get, list, clear } kind;
  int key{ 0 }, value{ 0 };
  State result{ { 0, 0, 0 } };  // exists: [0], get: [0], list: all
  std::uint64_t t0{ 0 }, t1{ 0 };
  int thread{ 0 };
};
static bool apply(State& s, const Op& o)
{
  switch (o.kind)
  {
    case Op::insert:
      s[static_cast<std::size_t>(o.key)] = o.value;
      return true;
    case Op::erase:
      s[static_cast<std::size_t>(o.key)] = 0;
      return true;
    case Op::clear:
      s = State{ { 0, 0, 0 } };
      return true;
    case Op::exists:
      return (s[static_cast<std::size_t>(o.key)] != 0) == (o.result[0] != 0);
    case Op::get:
      return s[static_cast<std::size_t>(o.key)] == o.result[0];
    case Op::list:
      return s == o.result;
  }
  return false;
}
// Wing-Gong search with memory of (set of operations done, state)
static bool linearizable(const std::vector<Op>& h)
{
  std::set<std::pair<std::uint32_t, State>> seen;
  std::uint32_t all = static_cast<std::uint32_t>((1ull << h.size()) - 1);
  std::function<bool(std::uint32_t, State)> dfs = [&](std::uint32_t done, State s) {
    if (done == all)
      return true;
    if (!seen.insert({ done, s }).second)
      return false;
    std::uint64_t first_end = ~0ull;
    for (std::size_t i = 0; i < h.size(); i++)
      if (!(done >> i & 1))
        first_end = std::min(first_end, h[i].t1);
    for (std::size_t i = 0; i < h.size(); i++)
      if (!(done >> i & 1) && h[i].t0 <= first_end)
      {
        State n = s;
        if (apply(n, h[i]) && dfs(done | (1u << i), n))
          return true;
      }
    return false;
  };
  return dfs(0, State{ { 0, 0, 0 } });
}
static std::string show(const std::vector<Op>& h)
{
  static const char* names[] = { "insert", "erase", "exists", "get", "list", "clear" };
  auto v = h;
  std::sort(v.begin(), v.end(), [](const Op& a, const Op& b) { return a.t0 < b.t0; });
  std::string s;
  for (auto& o : v)
    s += fmt("[%llu-%llu t%d %s k%d v%d -> %d %d %d] ", static_cast<unsigned long long>(o.t0), static_cast<unsigned long long>(o.t1),
             o.thread, names[o.kind], o.key, o.value, o.result[0], o.result[1], o.result[2]);
  return s;
}
struct SlowMap
{
  scalopus::MapTracker<Key, Val> m;
  void insert(int k, int v)
  {
    m.insert(Key{ k }, Val(v));
  }
  void erase(int k)
  {
    m.erase(Key{ k });
  }
  bool exists(int k)
  {
    return m.exists(Key{ k });
  }
  int one(const Val& v)
  {
    if (v.a != v.b)
      violation("torn", "a value was seen half written: %d/%d", v.a, v.b);
    return v.a;
  }
  int get(int k)
  {
    return one(m.getValue(Key{ k }));
  }
  State list()
  {
    State s{ { 0, 0, 0 } };
    std::size_t n = 0;
    for (auto& e : m.getMap())
    {
      s.at(static_cast<std::size_t>(e.first.k)) = one(e.second);
      n++;
    }
    if (n > KEYS)
      violation("duplicate-entries", "%zu entries for %d keys", n, KEYS);
    return s;
  }
  void clear()
  {
    m.clear();
  }
};
// the real singletons hold strings
template <typename T>
struct StringMap
{
  T& m = T::getInstance();
  static std::string str(int v)
  {
    return fmt("%d:%s", v, std::string(static_cast<std::size_t>(v) % 40, 'x').c_str());
  }
  static int num(const std::string& s)
  {
    int v = atoi(s.c_str());
    if (s != str(v))
      violation("torn", "a name was seen half written: %s", shown(s).c_str());
    return v;
  }
  using K = typename std::decay<decltype(T::getInstance().getMap().begin()->first)>::type;
  void insert(int k, int v)
  {
    m.insert(static_cast<K>(k), str(v));
  }
  void erase(int k)
  {
    m.erase(static_cast<K>(k));
  }
  bool exists(int k)
  {
    return m.exists(static_cast<K>(k));
  }
  int get(int k)
  {
    return num(m.getValue(static_cast<K>(k)));
  }
  State list()
  {
    State s{ { 0, 0, 0 } };
    for (auto& e : m.getMap())
      s.at(static_cast<std::size_t>(e.first)) = num(e.second);
    return s;
  }
  void clear()
  {
    m.clear();
  }
};

template <typename M>
static void histories(int rounds, std::uint64_t salt)
{
  Rng top(seed() + salt);
  for (int round = 0; round < rounds && !have_violation(); round++)
  {
    M map;
    map.clear();
    const int threads = 2 + static_cast<int>(top.below(3));
    const int per = threads == 4 ? 5 : 6;
    std::atomic<std::uint64_t> clock{ 1 };
    std::atomic<int> ready{ 0 };
    std::vector<std::vector<Op>> logs(static_cast<std::size_t>(threads));
    g_slow = static_cast<unsigned>(top.below(60));
    inject().lock_delay = top.chance(50) ? 30 : 0;
    inject().lock_delay_us = 40;
    std::vector<std::thread> ts;
    std::uint64_t base = top.next();
    for (int t = 0; t < threads; t++)
      ts.emplace_back([&, t]() {
        Rng r(base + static_cast<std::uint64_t>(t));
        tl_rnd = r.next() | 1;
        auto& log = logs[static_cast<std::size_t>(t)];
        int v = 1 + t * 100;
        ready++;
        while (ready < threads)
        {
        }
        for (int i = 0; i < per; i++)
        {
          Op o;
          auto d = r.below(100);
          o.kind = d < 35 ? Op::insert : d < 50 ? Op::erase : d < 62 ? Op::exists : d < 77 ? Op::get : d < 95 ? Op::list : Op::clear;
          o.key = static_cast<int>(r.below(KEYS));
          o.value = o.kind == Op::insert ? v++ : 0;
          o.thread = t;
          o.t0 = clock++;
          switch (o.kind)
          {
            case Op::insert:
              map.insert(o.key, o.value);
              break;
            case Op::erase:
              map.erase(o.key);
              break;
            case Op::exists:
              o.result[0] = map.exists(o.key);
              break;
            case Op::get:
              try
              {
                o.result[0] = map.get(o.key);
              }
              catch (const std::out_of_range&)
              {
                o.result[0] = 0;
              }
              break;
            case Op::list:
              o.result = map.list();
              break;
            case Op::clear:
              map.clear();
              break;
          }
          o.t1 = clock++;
          log.push_back(o);
        }
      });
    for (auto& t : ts)
      t.join();
    inject_off();
    std::vector<Op> h;
    for (auto& l : logs)
      h.insert(h.end(), l.begin(), l.end());
    Op fin;
    fin.kind = Op::list;
    fin.t0 = clock++;
    fin.result = map.list();
    fin.t1 = clock++;
    h.push_back(fin);
    std::uint64_t hash = 7;
    std::size_t overlaps = 0;
    for (auto& a : h)
    {
      std::uint64_t x[] = { a.t0, a.t1, static_cast<std::uint64_t>(a.kind), static_cast<std::uint64_t>(a.result[0]) };
      hash = fnv(x, sizeof x, hash);
      for (auto& b : h)
        if (a.t0 < b.t0 && b.t0 < a.t1)
          overlaps++;
    }
    distinct("histories", hash);
    cover("operations", h.size());
    cover("overlapping_pairs", overlaps);
    cover("histories_checked");
    if (!linearizable(h) && !have_violation())
      violation("not-atomic", "no order of the operations explains this history: %s", show(h).c_str());
  }
}

// ------------------------------------------------------------------ thread naming
static void place_a(const std::string& n)
{
  TRACE_THREAD_NAME(n);
}
static void place_b(const std::string& n)
{
  TRACE_THREAD_NAME(n);
}
static void two_places(const std::string& n, const std::string& m, bool second)
{
  if (second)
  {
    TRACE_THREAD_NAME(m);
  }
  else
  {
    TRACE_THREAD_NAME(n);
  }
}
struct Model
{
  std::mutex m;
  std::map<unsigned long, std::string> names;  // of live threads that named themselves
};
struct Actor
{
  pthread_t th{};
  unsigned long id{ 0 };
  std::atomic<int> phase_go{ 0 }, phase_done{ 0 };
  std::atomic<bool> end{ false };
  int how_end{ 0 };
  std::uint64_t seed{ 0 };
  bool named{ false };
  bool by_other{ false };    // another thread named it, before it named itself
  std::string name;          // expected latest
  std::set<int> places;
  int ops{ 0 };
};
static void* actor_main(void* p)
{
  auto& a = *static_cast<Actor*>(p);
  a.id = static_cast<unsigned long>(pthread_self());
  Rng r(a.seed);
  auto& tr = scalopus::ThreadNameTracker::getInstance();
  int at = 0;
  for (;;)
  {
    while (a.phase_go == at)
      std::this_thread::sleep_for(std::chrono::microseconds(50));
    at++;
    if (a.end)
      break;
    for (std::size_t n = r.below(6); n > 0; n--)
    {
      auto nm = any_text(r, 500);
      auto named = [&](const std::string& x) {
        a.named = true;
        a.name = x;
      };
      switch (r.below(6))
      {
        case 0:
          tr.setCurrentName(nm);
          named(nm);
          break;
        case 1:
          place_a(nm);
          if (a.places.insert(1).second)
            named(nm);
          break;
        case 2:
          place_b(nm);
          if (a.places.insert(2).second)
            named(nm);
          break;
        case 3:
          two_places(nm, nm + "!", false);
          if (a.places.insert(3).second)
            named(nm);
          break;
        case 4:
          two_places(nm, nm + "!", true);
          if (a.places.insert(4).second)
            named(nm + "!");
          break;
        default:
          for (int i = 0; i < 3; i++)
          {
            TRACE_THREAD_NAME(nm + std::to_string(i));
          }
          if (a.places.insert(5).second)
            named(nm + "0");
      }
      a.ops++;
      if (a.named)
      {
        auto got = tr.exists(a.id) ? tr.getValue(a.id) : std::string("<not there>");
        if (got != a.name)
          violation("own-name", "a thread that named itself %s is listed as %s", shown(a.name).c_str(), shown(got).c_str());
        cover("own_names_checked");
      }
    }
    a.phase_done = at;
  }
  if (a.how_end == 1)
    pthread_exit(nullptr);
  if (a.how_end == 2)
    tr.setCurrentName("last words");
  return nullptr;
}
static void run_naming()
{
  Rng r(seed());
  auto& tr = scalopus::ThreadNameTracker::getInstance();
  tr.clear();
  for (int round = 0; round < 15 * scale() && !have_violation(); round++)
  {
    Watchdog w("thread naming", 120000);
    std::vector<std::unique_ptr<Actor>> live;
    std::set<unsigned long> ended;
    std::map<unsigned long, std::string> foreign;
    for (int phase = 0; phase < 12 && !have_violation(); phase++)
    {
      inject().lock_delay = r.chance(40) ? 20 : 0;
      inject().lock_delay_us = 100;
      // some end, at the same time as others name themselves
      std::vector<std::unique_ptr<Actor>> ending;
      for (std::size_t i = 0; i < live.size();)
        if (r.chance(30))
        {
          ending.push_back(std::move(live[i]));
          live.erase(live.begin() + static_cast<long>(i));
        }
        else
          i++;
      for (std::size_t n = r.below(4) + (phase == 0 ? 2 : 0); n > 0; n--)
      {
        live.emplace_back(new Actor);
        live.back()->seed = r.next();
        if (pthread_create(&live.back()->th, nullptr, actor_main, live.back().get()) != 0)
          harness_error("thread");
      }
      for (auto& e : ending)
      {
        e->how_end = static_cast<int>(r.below(3));
        e->end = true;
        e->phase_go++;
      }
      std::vector<int> before;
      for (auto& a : live)
      {
        before.push_back(a->phase_go);
        a->phase_go++;
      }
      for (auto& e : ending)
      {
        pthread_join(e->th, nullptr);
        ended.insert(e->id);
        cover(fmt("ended_%d", e->how_end));
        if (e->named || e->how_end == 2)
          cover(e->by_other ? "renamed_threads_ended" : "named_threads_ended");
        else if (e->by_other)
          tr.erase(e->id);  // nothing is promised for those
      }
      for (std::size_t i = 0; i < live.size(); i++)
        while (live[i]->phase_done != before[i] + 1)
          std::this_thread::sleep_for(std::chrono::microseconds(100));
      // another thread may update an entry
      if (!live.empty() && r.chance(30))
      {
        auto& a = *live[r.below(live.size())];
        if (a.named)
        {
          a.name = any_text(r, 100);
          tr.setThreadName(a.id, a.name);
          cover("named_by_other");
        }
        else
        {
          a.by_other = true;
          tr.setThreadName(a.id, any_text(r, 100));
        }
      }
      inject_off();
      // everything is at rest now
      std::map<unsigned long, std::string> want;
      std::set<unsigned long> given;
      for (auto& a : live)
      {
        if (a->named)
          want[a->id] = a->name;
        else if (a->by_other)
          given.insert(a->id);
        if (ended.count(a->id))
          cover("reused_ids");
      }
      auto got = tr.getMap();
      for (auto& x : want)
        if (!got.count(x.first))
          violation("live-thread-missing", "a live thread that named itself %s is not listed", shown(x.second).c_str());
        else if (got[x.first] != x.second)
          violation("wrong-name", "a thread that named itself %s is listed as %s", shown(x.second).c_str(), shown(got[x.first]).c_str());
      for (auto& g : got)
        if (!want.count(g.first) && !given.count(g.first))
          violation(ended.count(g.first) ? "ended-thread-listed" : "unknown-thread-listed", "%s is listed for a thread that %s",
                    shown(g.second).c_str(), ended.count(g.first) ? "ended" : "never named itself");
      cover("quiescent_checks");
      distinct("situations", fnv(fmt("%zu %zu %zu", live.size(), want.size(), ending.size())) ^ (r.s << 8));
    }
    for (auto& a : live)
    {
      a->end = true;
      a->phase_go++;
    }
    for (auto& a : live)
    {
      pthread_join(a->th, nullptr);
      if (a->by_other && !a->named)
        tr.erase(a->id);
    }
    if (!tr.getMap().empty() && !have_violation())
      violation("ended-thread-listed", "%zu threads are listed after all ended", tr.getMap().size());
  }
}
// many short threads at full speed
static void run_storm()
{
  auto& tr = scalopus::ThreadNameTracker::getInstance();
  tr.clear();
  Watchdog w("thread storm", 120000);
  std::vector<std::thread> makers;
  for (int t = 0; t < 4; t++)
    makers.emplace_back([&, t]() {
      Rng r(seed() + static_cast<std::uint64_t>(t));
      for (int i = 0; i < 400 * scale() / slow() && !have_violation(); i++)
      {
        std::string n = fmt("t%d-%d", t, i);
        bool macro = r.chance(50);
        std::thread([&]() {
          auto id = static_cast<unsigned long>(pthread_self());
          if (macro)
          {
            place_a(n);
          }
          else
            tr.setCurrentName(n);
          auto m = tr.getMap();
          auto it = m.find(id);
          if (it == m.end() || it->second != n)
            violation("own-name", "a thread that just named itself %s is listed as %s", n.c_str(), it == m.end() ? "nothing" : it->second.c_str());
          cover("own_names_checked");
        }).join();
      }
    });
  for (auto& t : makers)
    t.join();
  if (!tr.getMap().empty() && !have_violation())
    violation("ended-thread-listed", "%zu threads are listed after all ended", tr.getMap().size());
  cover("storms");
  // first use from many threads at once is in the child role
}
static int role_exit(int kind)
{
  // programs whose main thread, or a detached one, is still named when they end
  std::atomic<int> go{ 0 };
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++)
    ts.emplace_back([&]() {
      go++;
      while (go < 4)
      {
      }
      scalopus::ThreadNameTracker::getInstance().setCurrentName("x");
      scalopus::StaticStringTracker::getInstance().insert(1, "y");
    });
  if (kind & 1)
  {
    TRACE_THREAD_NAME("main thread");
  }
  for (auto& t : ts)
    t.join();
  auto n = scalopus::ThreadNameTracker::getInstance().getMap();
  if (n.size() != static_cast<std::size_t>(kind & 1))
    return 3;
  if (scalopus::StaticStringTracker::getInstance().getMap().size() != 1)
    return 4;
  if (kind & 2)
    exit(0);
  return 0;
}
static void run_exit()
{
  for (int i = 0; i < 12 * scale() && !have_violation(); i++)
  {
    auto c = spawn({ "exit", std::to_string(i % 4) });
    int st = c.wait_exit(30000 * slow());
    if (st == 3)
      violation("ended-thread-listed", "wrong threads listed in a fresh process");
    else if (st == 4)
      violation("first-use", "an entry inserted by threads using the map for the first time is missing");
    else if (st != 0)
      violation("exit", "a program with named threads ends with status %d", st);
    cover("process_ends");
  }
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "map";
  if (m == "exit" && argc > 2)
    return role_exit(atoi(argv[2]));
  if (m == "map")
  {
    Watchdog w("map histories", 300000);
    histories<SlowMap>(3000 * scale() / slow(), 1);
    histories<StringMap<scalopus::ThreadNameTracker>>(1500 * scale() / slow(), 2);
    histories<StringMap<scalopus::StaticStringTracker>>(1500 * scale() / slow(), 3);
  }
  else if (m == "naming")
    run_naming();
  else if (m == "storm")
    run_storm();
  else
    run_exit();
  return finish();
}
