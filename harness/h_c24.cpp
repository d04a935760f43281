// C24: the trace macros emit balanced events whose names are known first.
#include <stdexcept>
#include "gen.h"
#include "tap.h"
#include "vh.h"
#include <scalopus_tracing/tracing.h>
using namespace vh;
using scalopus::StaticStringTracker;

// ---- independent checksum: bitwise CRC-32 (IEEE), as documented
static std::uint32_t crc(const std::string& s)
{
  std::uint32_t c = 0xFFFFFFFFu;
  for (unsigned char b : s)
  {
    c ^= b;
    for (int i = 0; i < 8; i++)
      c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0);
  }
  return ~c;
}
#define LITERAL(x) std::string(x, sizeof(x) - 1)
#define LINE_ID() (crc(LITERAL(__FILE__)) + static_cast<std::uint32_t>(__LINE__))
#define NAME_ID(x) (crc(LITERAL(__FILE__)) + crc(LITERAL(x)))

// ---- what was emitted and what should have been, per thread
struct Logs
{
  std::vector<Ev> got, want;
  bool on{ true };
};
static thread_local Logs tl;
static std::atomic<std::uint64_t> g_events{ 0 };
static std::mutex g_seen_mutex;
static std::set<unsigned> g_seen;

static void tapped(const Ev& e)
{
  // The name has to be there by the time the event leaves.
  if (!StaticStringTracker::getInstance().exists(e.id))
    violation("name-late", "event %s is emitted while its name is not registered", show(e).c_str());
  g_events++;
  tl.got.push_back(e);
}
static void want(char k, unsigned id, std::int64_t v = 0)
{
  if (tl.on)
    tl.want.push_back(Ev{ k, id, v });
}
struct WantScope
{
  unsigned id;
  explicit WantScope(unsigned i) : id(i)
  {
    want('B', id);
  }
  ~WantScope()
  {
    want('E', id);
  }
};
static void check_name(unsigned id, const std::string& name, const char* what)
{
  std::string n = "(none)";
  try
  {
    n = StaticStringTracker::getInstance().getValue(id);
  }
  catch (const std::exception&)
  {
  }
  if (n != name)
    violation("name", "%s: id %08x is registered as %s instead of %s", what, id, shown(n).c_str(), shown(name).c_str());
  cover("names_checked");
}
static void compare(const char* what)
{
  auto& g = tl.got;
  auto& w = tl.want;
  if (!(g == w))
  {
    std::size_t i = 0;
    while (i < g.size() && i < w.size() && g[i] == w[i])
      i++;
    violation("events", "%s: event %zu is '%s', expected '%s' (%zu events, expected %zu)", what, i,
              i < g.size() ? show(g[i]).c_str() : "nothing", i < w.size() ? show(w[i]).c_str() : "nothing", g.size(), w.size());
  }
  // balance, from the events alone
  std::vector<unsigned> stack;
  std::uint64_t h = 7;
  for (auto& e : g)
  {
    if (e.kind == 'B')
      stack.push_back(e.id);
    else if (e.kind == 'E')
    {
      if (stack.empty() || stack.back() != e.id)
        violation("balance", "%s: end event %08x does not match the innermost open scope", what, e.id);
      else
        stack.pop_back();
      cover("scopes_closed");
    }
    h = fnv(&e.id, sizeof(e.id), h * 31 + static_cast<unsigned char>(e.kind));
  }
  if (!stack.empty())
    violation("balance", "%s: %zu scopes never end", what, stack.size());
  distinct("sequences", h);
  cover("events_checked", g.size());
  g.clear();
  w.clear();
}

// ---- a random walk through functions that use the macros and leave their scopes in every way
struct Boom : std::exception
{
};
struct Walk
{
  Rng& r;
  int left;
  int depth{ 0 };
};
static void step(Walk& w);
static void maybe_throw(Walk& w, unsigned percent = 25)
{
  if (w.r.chance(percent))
  {
    cover("exceptions");
    throw Boom();
  }
}
// clang-format off
static void f_raii(Walk& w)
{
  TRACE_SCOPE_RAII("f_raii"); WantScope s(LINE_ID());
  step(w);
}
static int f_return(Walk& w)
{
  TRACE_SCOPE_RAII("f_return"); WantScope s(LINE_ID());
  if (w.r.chance(50))
    return 3;
  TRACE_SCOPE_RAII("f_return inner"); WantScope s2(LINE_ID());
  step(w);
  if (w.r.chance(50))
    return 4;
  step(w);
  return 5;
}
static void f_throw(Walk& w)
{
  TRACE_PRETTY_FUNCTION(); WantScope s(LINE_ID());
  maybe_throw(w, 40);
  step(w);
  {
    TRACE_SCOPE_RAII("f_throw inner"); WantScope s2(LINE_ID());
    maybe_throw(w, 40);
    step(w);
  }
  maybe_throw(w, 40);
}
static void f_catch(Walk& w)
{
  try
  {
    TRACE_SCOPE_RAII("f_catch"); WantScope s(LINE_ID());
    step(w);
    maybe_throw(w, 60);
  }
  catch (const Boom&)
  {
    TRACE_SCOPE_RAII("f_catch handler"); WantScope s(LINE_ID());
    step(w);
  }
}
static void f_loop(Walk& w)
{
  TRACE_SCOPE_RAII("f_loop"); WantScope s(LINE_ID());
  for (int i = 0; i < 6; i++)
  {
    TRACE_SCOPE_RAII("f_loop body"); WantScope s1(LINE_ID());
    if (w.r.chance(20))
    {
      cover("breaks");
      break;
    }
    if (w.r.chance(30))
      continue;
    for (int j = 0; j < 3; j++)
    {
      TRACE_SCOPE_RAII("f_loop inner"); WantScope s2(LINE_ID());
      if (w.r.chance(20))
        goto out;
      if (w.r.chance(20))
        break;
    }
    step(w);
  }
out:
  step(w);
}
static void f_switch(Walk& w)
{
  switch (w.r.below(4))
  {
    case 0:
    {
      TRACE_SCOPE_RAII("case 0"); WantScope s(LINE_ID());
      break;
    }
    case 1:
    {
      TRACE_SCOPE_RAII("case 1"); WantScope s(LINE_ID());
      step(w);
    }
    // fall through
    case 2:
    {
      TRACE_SCOPE_RAII("case 2"); WantScope s(LINE_ID());
      return;
    }
    default:
      step(w);
  }
}
static void f_same_name(Walk& w)
{
  TRACE_SCOPE_RAII("same"); WantScope s(LINE_ID());
  {
    TRACE_SCOPE_RAII("same"); WantScope s1(LINE_ID());
    TRACE_SCOPE_RAII("same"); WantScope s2(LINE_ID());
    step(w);
  }
}
static void f_start_end(Walk& w)
{
  TRACE_SCOPE_START("start end"); want('B', NAME_ID("start end"));
  if (w.r.chance(40))
  {
    TRACE_SCOPE_START("nested"); want('B', NAME_ID("nested"));
    if (w.r.chance(50))
    {
      TRACE_SCOPE_END("nested"); want('E', NAME_ID("nested"));
    }
    else
    {
      TRACE_SCOPE_END("nested"); want('E', NAME_ID("nested"));
    }
  }
  TRACE_SCOPE_START("start end"); want('B', NAME_ID("start end"));
  TRACE_SCOPE_END("start end"); want('E', NAME_ID("start end"));
  TRACE_SCOPE_END("start end"); want('E', NAME_ID("start end"));
}
static void f_marks(Walk& w)
{
  switch (w.r.below(3))
  {
    case 0:
    {
      TRACE_MARK_EVENT_GLOBAL("mark"); want('g', NAME_ID("mark"));
      break;
    }
    case 1:
    {
      TRACE_MARK_EVENT_PROCESS("mark"); want('p', NAME_ID("mark"));
      break;
    }
    default:
    {
      TRACE_MARK_EVENT_THREAD("mark"); want('t', NAME_ID("mark"));
    }
  }
  TRACE_MARK_EVENT_GLOBAL("g"); want('g', NAME_ID("g"));
  TRACE_MARK_EVENT_PROCESS("p"); want('p', NAME_ID("p"));
  TRACE_MARK_EVENT_THREAD("t"); want('t', NAME_ID("t"));
}
static std::int64_t value(Rng& r)
{
  switch (r.below(6))
  {
    case 0:
      return static_cast<std::int64_t>(r.next());
    case 1:
      return INT64_MIN + static_cast<std::int64_t>(r.below(2));
    case 2:
      return INT64_MAX - static_cast<std::int64_t>(r.below(2));
    case 3:
      return (std::int64_t{ 1 } << r.below(63)) - static_cast<std::int64_t>(r.below(2));
    case 4:
      return -(std::int64_t{ 1 } << r.below(63)) + static_cast<std::int64_t>(r.below(2));
    default:
      return r.range(-5, 5);
  }
}
static void f_counts(Walk& w)
{
  const std::int64_t v = value(w.r);
  TRACE_COUNT("c", v); want('C', NAME_ID("c/"), v);
  TRACE_COUNT_SERIES("c", "s", v + (v == INT64_MAX ? 0 : 1)); want('C', NAME_ID("c/s"), v + (v == INT64_MAX ? 0 : 1));
  const int i = static_cast<int>(v);
  const unsigned char b = static_cast<unsigned char>(v);
  const bool f = v & 1;
  const std::uint32_t u = static_cast<std::uint32_t>(v);
  const short sh = static_cast<short>(v);
  TRACE_COUNT("int", i); want('C', NAME_ID("int/"), i);
  TRACE_COUNT("int", i < 0 ? -1 : 2); want('C', NAME_ID("int/"), i < 0 ? -1 : 2);
  TRACE_COUNT_SERIES("types", "byte", b); want('C', NAME_ID("types/byte"), b);
  TRACE_COUNT_SERIES("types", "bool", f); want('C', NAME_ID("types/bool"), f);
  TRACE_COUNT_SERIES("types", "u32", u); want('C', NAME_ID("types/u32"), u);
  TRACE_COUNT_SERIES("types", "short", sh); want('C', NAME_ID("types/short"), sh);
  cover("count_events");
}
template <typename T>
static void f_template(Walk& w)
{
  TRACE_SCOPE_RAII("f_template"); WantScope s(LINE_ID());
  step(w);
}
struct WithMembers
{
  WithMembers(Walk& w)
  {
    TRACE_PRETTY_FUNCTION(); WantScope s(LINE_ID());
    maybe_throw(w);
  }
  ~WithMembers()
  {
    TRACE_PRETTY_FUNCTION(); WantScope s(LINE_ID());
  }
};
static void f_object(Walk& w)
{
  TRACE_SCOPE_RAII("f_object"); WantScope s(LINE_ID());
  WithMembers a(w);
  WithMembers b(w);
  auto l = [&]() {
    TRACE_SCOPE_RAII("lambda"); WantScope s1(LINE_ID());
    step(w);
  };
  l();
}
static int f_recursive(Walk& w, int n)
{
  TRACE_SCOPE_RAII("f_recursive"); WantScope s(LINE_ID());
  if (n == 0)
  {
    maybe_throw(w);
    return 0;
  }
  return 1 + f_recursive(w, n - 1);
}
// clang-format on
static void step(Walk& w)
{
  if (w.left <= 0 || w.depth > 12)
    return;
  w.left--;
  w.depth++;
  struct Leave
  {
    int& d;
    ~Leave()
    {
      d--;
    }
  } leave{ w.depth };
  auto k = w.r.below(13);
  cover(fmt("use_%d", static_cast<int>(k)));
  switch (k)
  {
    case 0:
      return f_raii(w);
    case 1:
      f_return(w);
      return;
    case 2:
      return f_throw(w);
    case 3:
      return f_catch(w);
    case 4:
      return f_loop(w);
    case 5:
      return f_switch(w);
    case 6:
      return f_same_name(w);
    case 7:
      return f_start_end(w);
    case 8:
      return f_marks(w);
    case 9:
      return f_counts(w);
    case 10:
      return w.r.chance(50) ? f_template<int>(w) : f_template<char>(w);
    case 11:
      return f_object(w);
    default:
      f_recursive(w, static_cast<int>(w.r.below(6)));
  }
}
static void walk(Rng& r, const char* what)
{
  Walk w{ r, static_cast<int>(5 + r.below(60)) };
  while (w.left > 0)
  {
    try
    {
      step(w);
    }
    catch (const Boom&)
    {
      cover("left_by_exception");
    }
  }
  compare(what);
  cover("walks");
}

// ---- ids and names
static void run_names()
{
  std::map<unsigned, std::string> used;
  // clang-format off
#define NAME(x)                                                                                                        \
  [&]() __attribute__((noinline)) {                                                                                    \
    TRACE_SCOPE_START(x);                                                                                              \
    TRACE_SCOPE_END(x);                                                                                                \
    want('B', NAME_ID(x));                                                                                             \
    want('E', NAME_ID(x));                                                                                             \
    check_name(NAME_ID(x), LITERAL(x), "TRACE_SCOPE_START");                                                           \
    TRACE_MARK_EVENT_GLOBAL("m" x);                                                                                    \
    want('g', NAME_ID("m" x));                                                                                         \
    check_name(NAME_ID("m" x), LITERAL("m" x), "TRACE_MARK_EVENT_GLOBAL");                                             \
    TRACE_COUNT_SERIES(x, x, sizeof(x));                                                                               \
    want('C', NAME_ID(x "/" x), sizeof(x));                                                                            \
    check_name(NAME_ID(x "/" x), LITERAL(x "/" x), "TRACE_COUNT_SERIES");                                              \
    TRACE_COUNT(x, 1);                                                                                                 \
    want('C', NAME_ID(x "/"), 1);                                                                                      \
    cover("ids_checked", 4);                                                                                           \
    distinct("names", fnv(LITERAL(x)));                                                                                \
    used[LINE_ID()] = x;                                                                                               \
    { TRACE_SCOPE_RAII(x); WantScope s(LINE_ID()); check_name(LINE_ID(), LITERAL(x), "TRACE_SCOPE_RAII"); }            \
  }();
#include "c24_names.inc"
#undef NAME
  // clang-format on
  compare("names");
  for (auto& p : used)
    check_name(p.first, p.second, "TRACE_SCOPE_RAII afterwards");
  // names of functions
  StaticStringTracker::getInstance().clear();
  struct Named
  {
    static void direct()
    {
      // clang-format off
      TRACE_PRETTY_FUNCTION(); check_name(LINE_ID(), __PRETTY_FUNCTION__, "TRACE_PRETTY_FUNCTION"); want('B', LINE_ID()); want('E', LINE_ID());
      // clang-format on
    }
  };
  Named::direct();
  compare("function name");
}

// ---- the first uses of a place by several threads at once
// All instances of one place share their id but have a registration of their own; the name is removed before each use, so
// every instance has to register it before any of the threads emits.
template <int N>
static void place(int k)
{
  // clang-format off
  switch (k)
  {
    case 0: { TRACE_SCOPE_RAII("place"); WantScope s(LINE_ID()); break; }
    case 1: { TRACE_SCOPE_START("place"); want('B', NAME_ID("place")); TRACE_SCOPE_END("place"); want('E', NAME_ID("place")); break; }
    case 2: { TRACE_MARK_EVENT_PROCESS("place"); want('p', NAME_ID("place")); break; }
    case 3: { TRACE_COUNT_SERIES("place", "x", N); want('C', NAME_ID("place/x"), N); break; }
    case 4: { TRACE_COUNT("place", -N); want('C', NAME_ID("place/"), -N); break; }
    case 5: { TRACE_MARK_EVENT_THREAD("place"); want('t', NAME_ID("place")); break; }
    case 6: { TRACE_MARK_EVENT_GLOBAL("place"); want('g', NAME_ID("place")); break; }
    default: { TRACE_PRETTY_FUNCTION(); WantScope s(LINE_ID()); break; }
  }
  // clang-format on
}
template <int... I>
static std::vector<void (*)(int)> places(std::integer_sequence<int, I...>)
{
  return { place<I>... };
}
struct Gate
{
  std::atomic<int> waiting{ 0 }, round{ 0 };
  int n;
  explicit Gate(int k) : n(k)
  {
  }
  void pass()
  {
    int r = round.load();
    if (waiting.fetch_add(1) + 1 == n)
    {
      waiting = 0;
      round++;
    }
    else
      while (round.load() == r)
        std::this_thread::yield();
  }
};
static void run_first()
{
  auto all = places(std::make_integer_sequence<int, 200>());
  const int T = 5;
  Gate gate(T);
  inject().lock_delay = 30;
  inject().lock_delay_us = 300;
  std::vector<std::thread> ts;
  for (int t = 0; t < T; t++)
    ts.emplace_back([&, t]() {
      Rng r(seed() * 100 + static_cast<unsigned>(t));
      for (auto f : all)
        for (int k = 0; k < 8; k++)
        {
          gate.pass();
          if (t == 0)
            StaticStringTracker::getInstance().clear();
          gate.pass();
          for (auto n = r.below(200); n > 0; n--)
            asm volatile("");
          f(k);
          if (t == 0)
            cover("first_uses");
        }
      compare("first use");
    });
  for (auto& t : ts)
    t.join();
  inject_off();
}
static void run_mt()
{
  const int T = 6;
  std::vector<std::thread> ts;
  inject().lock_delay = 5;
  inject().lock_delay_us = 100;
  for (int t = 0; t < T; t++)
    ts.emplace_back([&, t]() {
      Rng r(seed() * 1000 + static_cast<unsigned>(t));
      for (int i = 0; i < 300 * scale() / slow() + 50 && !have_violation(); i++)
      {
        if (r.chance(20))
          std::thread([&]() {
            Rng q(r.next());
            walk(q, "short thread");
          }).join();
        else
          walk(r, "thread");
      }
    });
  for (auto& t : ts)
    t.join();
  inject_off();
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "walk";
  Watchdog w("the macros return", 300000);
  if (m == "names")
    run_names();
  else if (m == "first")
    run_first();
  else if (m == "mt")
    run_mt();
  else
  {
    Rng r(seed());
    for (int i = 0; i < 3000 * scale() / slow() && !have_violation(); i++)
      walk(r, "walk");
  }
  return finish();
}
