// C12: the trace ring buffer is a loss-free bounded FIFO between two threads.
#include <array>
#include <iterator>
#include <stdexcept>
#include "vh.h"
#include "spsc_ringbuffer.h"
using namespace vh;

// A value whose moves take a moment and whose parts must stay together.
static thread_local std::uint64_t tl = 0x9E3779B97F4A7C15ull;
static std::atomic<unsigned> g_slow{ 0 };
static void moment()
{
  tl ^= tl << 13;
  tl ^= tl >> 7;
  tl ^= tl << 17;
  if (tl % 1000 < g_slow)
  {
    if (tl % 7 == 0)
      std::this_thread::yield();
    else
      for (volatile unsigned i = 0; i < tl % 300; i = i + 1)
      {
      }
  }
}
struct Item
{
  std::uint64_t n{ 0 };
  std::unique_ptr<std::string> text;
  std::uint64_t check{ 0 };
  Item() = default;
  explicit Item(std::uint64_t v) : n(v), text(new std::string(fmt("item %llu", static_cast<unsigned long long>(v)))), check(v * 31 + 7)
  {
  }
  Item(Item&& o) noexcept : n(o.n), text(std::move(o.text))
  {
    moment();
    check = o.check;
  }
  Item& operator=(Item&& o) noexcept
  {
    n = o.n;
    moment();
    text = std::move(o.text);
    check = o.check;
    return *this;
  }
};
static Item make(std::uint64_t v, Item*)
{
  return Item(v);
}
static std::uint64_t make(std::uint64_t v, std::uint64_t*)
{
  return v;
}
static bool is(const Item& i, std::uint64_t v)
{
  return i.n == v && i.check == v * 31 + 7 && i.text && *i.text == fmt("item %llu", static_cast<unsigned long long>(v));
}
static bool is(std::uint64_t i, std::uint64_t v)
{
  return i == v;
}
static std::uint64_t number(const Item& i)
{
  return i.n;
}
static std::uint64_t number(std::uint64_t i)
{
  return i;
}

// ------------------------------------------------------------------ one thread, against a queue
template <typename Ring>
struct Seq
{
  using V = typename Ring::ValueType;
  Ring& ring;
  std::size_t usable;
  std::deque<std::uint64_t> q;
  std::uint64_t next{ 1 };
  std::string trail;
  bool bad{ false };
  void fail(const char* key, const std::string& what)
  {
    if (!bad)
      violation(std::string("sequential:") + key, "capacity %zu after%s: %s", usable, trail.substr(0, 300).c_str(), what.c_str());
    bad = true;
  }
  void sizes()
  {
    if (ring.size() != q.size())
      fail("size", fmt("size %zu instead of %zu", static_cast<std::size_t>(ring.size()), q.size()));
    if (ring.empty() != q.empty())
      fail("empty", "empty() is wrong");
  }
  void step(unsigned op, std::size_t arg)
  {
    cover("operations");
    if (op == 0)
    {
      trail += " push";
      bool ok = ring.push(make(next, static_cast<V*>(nullptr)));
      if (ok != (q.size() < usable))
        fail("push", ok ? "push into a full buffer succeeded" : "push failed though there is space");
      if (ok)
        q.push_back(next);
      else
        cover("full_pushes");
      next++;
    }
    else if (op == 1)
    {
      trail += " pop";
      V v{};
      bool ok = ring.pop(v);
      if (ok != !q.empty())
        fail("pop", ok ? "pop from an empty buffer succeeded" : "pop failed though there are values");
      if (ok && !q.empty())
      {
        if (!is(v, q.front()))
          fail("value", fmt("popped %llu instead of %llu", static_cast<unsigned long long>(number(v)), static_cast<unsigned long long>(q.front())));
        q.pop_front();
      }
      else
        cover("empty_pops");
    }
    else
    {
      trail += fmt(" pop_into(%zu)", arg);
      std::vector<V> out;
      std::size_t n = ring.pop_into(std::back_inserter(out), arg);
      std::size_t want = std::min(arg, q.size());
      if (n != want || out.size() != want)
        fail("bulk", fmt("bulk pop of %zu returned %zu and wrote %zu instead of %zu", arg, n, out.size(), want));
      for (auto& v : out)
      {
        if (q.empty())
          break;
        if (!is(v, q.front()))
          fail("value", fmt("bulk popped %llu instead of %llu", static_cast<unsigned long long>(number(v)), static_cast<unsigned long long>(q.front())));
        q.pop_front();
      }
    }
    sizes();
  }
};
template <typename T>
static void enumerate(std::size_t cap, int depth)
{
  // every sequence of operations of this depth
  using Ring = scalopus::SPSCRingBuffer<std::vector<T>>;
  const unsigned kinds = 5;  // push, pop, pop_into 1, 2, all
  std::uint64_t total = 1;
  for (int i = 0; i < depth; i++)
    total *= kinds;
  for (std::uint64_t code = 0; code < total && !have_violation(); code++)
  {
    Ring ring{ std::vector<T>(cap) };
    Seq<Ring> s{ ring, cap - 1, {}, 1, "", false };
    std::uint64_t c = code;
    for (int i = 0; i < depth; i++, c /= kinds)
    {
      unsigned k = static_cast<unsigned>(c % kinds);
      s.step(k < 2 ? k : 2, k == 2 ? 1 : k == 3 ? 2 : 1000);
    }
    cover("sequences");
  }
}
template <typename Ring>
static void random_seq(Ring&& ring, std::size_t cap, std::uint64_t sd, int steps)
{
  Rng r(sd);
  Seq<typename std::decay<Ring>::type> s{ ring, cap - 1, {}, 1, "", false };
  while (steps > 0 && !have_violation())
  {
    // runs of pushing and popping, so that the buffer gets full, empty and wraps at every offset
    std::size_t run = 1 + r.below(cap + 2);
    unsigned op = static_cast<unsigned>(r.below(3));
    if (op == 2)
      s.step(2, r.pick(std::vector<std::size_t>{ 0, 1, 2, cap / 2, cap - 1, cap, cap + 1, ~std::size_t{ 0 } >> 1 }));
    else
      while (run-- > 0)
        s.step(op, 0);
    steps -= static_cast<int>(run % 100) + 1;
    if (s.trail.size() > 400)
      s.trail = " ...";
  }
  cover("sequences");
  distinct("runs", sd);
}
static void run_seq()
{
  Watchdog w("sequences", 300000);
  try
  {
    scalopus::SPSCRingBuffer<std::vector<int>> none{ std::vector<int>() };
    violation("zero", "a container of size zero is accepted");
  }
  catch (const std::runtime_error&)
  {
  }
  for (std::size_t cap = 1; cap <= 4; cap++)
    enumerate<std::uint64_t>(cap, 7);
  enumerate<Item>(3, 5);
  Rng r(seed());
  for (int i = 0; i < 300 * scale() && !have_violation(); i++)
  {
    std::size_t cap = r.chance(70) ? 1 + r.below(20) : r.pick(std::vector<std::size_t>{ 31, 32, 33, 64, 127, 1000 });
    if (r.chance(50))
      random_seq(scalopus::SPSCRingBuffer<std::vector<Item>>{ std::vector<Item>(cap) }, cap, r.next(), 300);
    else
      random_seq(scalopus::SPSCRingBuffer<std::vector<std::uint64_t>>{ std::vector<std::uint64_t>(cap) }, cap, r.next(), 300);
  }
  random_seq(scalopus::SPSCRingBuffer<std::array<std::uint64_t, 3>>{ std::array<std::uint64_t, 3>{} }, 3, seed(), 2000);
  random_seq(scalopus::SPSCRingBuffer<std::array<Item, 8>>{ std::array<Item, 8>{} }, 8, seed(), 2000);
  random_seq(scalopus::SPSCRingBuffer<std::array<Item, 1>>{ std::array<Item, 1>{} }, 1, seed(), 200);
}

// ------------------------------------------------------------------ two threads
template <typename V>
static void duel(std::size_t cap, std::uint64_t sd, std::uint64_t count)
{
  using Ring = scalopus::SPSCRingBuffer<std::vector<V>>;
  Ring ring{ std::vector<V>(cap) };
  const std::size_t usable = cap - 1;
  std::atomic<std::uint64_t> push_begun{ 0 }, push_done{ 0 }, popped{ 0 };
  std::atomic<bool> stop{ false }, done{ false };
  Rng top(sd);
  g_slow = static_cast<unsigned>(top.below(4) * 100);
  int producer_style = static_cast<int>(top.below(4)), consumer_style = static_cast<int>(top.below(4));
  auto rest = [](Rng& r, int style) {
    if (style == 1 && r.chance(5))
      std::this_thread::yield();
    if (style == 2 && r.chance(2))
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(50)));
  };
  std::thread producer([&]() {
    Rng r(sd + 1);
    tl = r.next() | 1;
    std::uint64_t n = 0, drops = 0;
    for (std::uint64_t attempt = 0; n < count && !have_violation() && !stop; attempt++)
    {
      std::uint64_t before = popped.load();
      V v = make(n + 1, static_cast<V*>(nullptr));
      push_begun.store(n + 1);
      if (ring.push(std::move(v)))
      {
        n++;
        push_done.store(n);
      }
      else
      {
        push_begun.store(n);
        drops++;
        if (n - before < usable)
          violation("push", "push failed though at most %llu of %zu slots were taken", static_cast<unsigned long long>(n - before), usable);
        if (usable == 0 && attempt > 1000)
          break;
        std::this_thread::yield();
      }
      if (r.chance(10))
      {
        std::uint64_t b = popped.load();
        std::size_t s = ring.size();
        if (s > usable || s > n - std::min(b, n))
          violation("size", "the producer sees size %zu, possible are at most %llu of %zu", s, static_cast<unsigned long long>(n - b), usable);
      }
      rest(r, producer_style);
    }
    cover("full_pushes", drops);
    cover("pushed", n);
    done = true;
  });
  std::thread observer([&]() {
    std::uint64_t seen = 0;
    while (!done && !stop)
    {
      std::size_t s = ring.size();
      if (s > usable)
        violation("size", "size %zu of a buffer with %zu usable slots", s, usable);
      seen++;
      std::this_thread::yield();
    }
    cover("observed_sizes", seen);
  });
  Rng r(sd + 2);
  tl = r.next() | 1;
  std::uint64_t got = 0, empties = 0, bulk = 0;
  std::vector<V> out;
  auto take = [&](V& v) {
    if (!is(v, got + 1) && !have_violation())
      violation(number(v) == got + 1 ? "torn" : "order", "popped value %llu instead of %llu (capacity %zu)",
                static_cast<unsigned long long>(number(v)), static_cast<unsigned long long>(got + 1), cap);
    got++;
  };
  auto idle_since = Clock::now();
  while (!have_violation())
  {
    bool over = done.load();
    std::uint64_t before = push_done.load();
    if (over && got >= before)
      break;
    bool any = false;
    if (consumer_style == 0 || r.chance(40))
    {
      V v{};
      if (ring.pop(v))
      {
        take(v);
        any = true;
      }
      else
      {
        empties++;
        if (before > got)
          violation("pop", "pop failed though %llu values were there", static_cast<unsigned long long>(before - got));
      }
      popped.store(got);
    }
    else
    {
      std::size_t ask = r.pick(std::vector<std::size_t>{ 0, 1, 2, 3, usable, cap, cap * 2, 1000000 });
      if (r.chance(30))
        ask = ring.size();
      out.clear();
      std::size_t n = ring.pop_into(std::back_inserter(out), ask);
      std::uint64_t after = push_begun.load();
      if (n != out.size() || n > ask)
        violation("bulk", "bulk pop of at most %zu reported %zu and wrote %zu", ask, n, out.size());
      if (n < std::min<std::uint64_t>(ask, before - std::min(before, got)) || n > after - std::min(after, got))
        violation("bulk", "bulk pop of %zu returned %zu, available were %llu to %llu", ask, n, static_cast<unsigned long long>(before - got),
                  static_cast<unsigned long long>(after - got));
      for (auto& v : out)
        take(v);
      any = n > 0;
      bulk += n;
      popped.store(got);
    }
    if (r.chance(10))
    {
      std::uint64_t b = push_done.load();
      std::size_t s = ring.size();
      bool e = ring.empty();
      std::uint64_t a = push_begun.load();
      if (s > usable || s < b - std::min(b, got) || (a >= got && s > a - got))
        violation("size", "the consumer sees size %zu, possible are %llu to %llu of %zu", s, static_cast<unsigned long long>(b - got),
                  static_cast<unsigned long long>(a - got), usable);
      if (e && b > got)
        violation("empty", "empty() though there are values");
    }
    if (any)
      idle_since = Clock::now();
    rest(r, consumer_style);
  }
  stop = true;
  producer.join();
  observer.join();
  if (!have_violation() && (got != push_done.load() || ring.size() != 0 || !ring.empty()))
    violation("lost", "%llu of %llu values popped, size %zu", static_cast<unsigned long long>(got),
              static_cast<unsigned long long>(push_done.load()), static_cast<std::size_t>(ring.size()));
  cover("popped", got);
  cover("bulk_popped", bulk);
  cover("empty_pops", empties);
  cover("duels");
  distinct("runs", sd ^ (empties << 20) ^ bulk);
}
static void run_mt()
{
  Rng r(seed());
  for (int i = 0; i < 60 * scale() && !have_violation(); i++)
  {
    Watchdog w("two threads", 120000);
    std::size_t cap = r.pick(std::vector<std::size_t>{ 1, 2, 2, 3, 4, 5, 7, 8, 16, 64, 1000 });
    std::uint64_t n = static_cast<std::uint64_t>((cap < 4 ? 3000 : 10000) / slow());
    if (r.chance(50))
      duel<Item>(cap, r.next(), n);
    else
      duel<std::uint64_t>(cap, r.next(), n * 3);
  }
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "seq";
  if (m == "seq")
    run_seq();
  else
    run_mt();
  return finish();
}
