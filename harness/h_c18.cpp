// C18: trace viewer output reaches every active listener once, promptly, in order.
#include "ctfgen.h"
#include "vh.h"
#include "viewer.h"
#include <scalopus_tracing/babeltrace_parser.h>
#include <scalopus_tracing/babeltrace_tool.h>
using namespace vh;
using scalopus::BabeltraceParser;
using scalopus::BabeltraceTool;
using scalopus::CTFEvent;
using Listener = std::shared_ptr<BabeltraceParser::EventCallback>;

extern "C" {
extern std::atomic<int> vh_fork_failures;
extern std::atomic<int> vh_bad_kills;
}
static const char* kDomain = "vh_stream";
// ---- the lines; number n has fields that depend on n only
static std::size_t fields_of(std::uint64_t n)
{
  Rng r(n * 7919 + 13);
  if (r.chance(1))
    return 2000 + r.below(12000);  // up to some 300 KB
  if (r.chance(6))
    return 20 + r.below(200);  // around and beyond 1024 bytes
  return r.below(4);
}
static std::string numbered(std::uint64_t n)
{
  std::string s = fmt("[15%08llu.%09llu] eagle %s:ev: { cpu_id = %llu }, { vpid = %llu, pthread_id = %llu }, { seq = %llu",
                      static_cast<unsigned long long>(n), static_cast<unsigned long long>(n % 1000000000), kDomain,
                      static_cast<unsigned long long>(n % 8), static_cast<unsigned long long>(n + 1),
                      static_cast<unsigned long long>(n + 2), static_cast<unsigned long long>(n));
  const std::size_t k = fields_of(n);
  for (std::size_t i = 0; i < k; i++)
    s += fmt(", f%zu = %llu", i, static_cast<unsigned long long>(n * 31 + i));
  s += fmt(", last = %llu }\n", static_cast<unsigned long long>(n));
  return s;
}
static bool intact(const CTFEvent& e, std::uint64_t n, std::string& why)
{
  const auto& d = e.eventData();
  const std::size_t k = fields_of(n);
  if (d.size() != k + 2)
    why = fmt("%zu of %zu fields", d.size(), k + 2);
  else if (!d.count("last") || d.at("last") != n)
    why = "the last field";
  else if (k && (!d.count(fmt("f%zu", k - 1)) || d.at(fmt("f%zu", k - 1)) != n * 31 + k - 1))
    why = "a field";
  else if (e.pid() != n + 1 || e.tid() != n + 2 || e.name() != "ev")
    why = "pid, tid or name";
  else
    return true;
  return false;
}
static std::string garbage(Rng& r)
{
  std::string s;
  switch (r.below(6))
  {
    case 0:
      return "\n";
    case 1:
      s = any_text(r, 300);
      break;
    case 2:
    {
      ctf::Line l = ctf::line(r);
      s = l.text.substr(0, r.below(l.text.size() + 1));
      break;
    }
    case 3:
      s = std::string(r.below(5000), "[]{}=,: "[r.below(8)]);
      break;
    case 4:
    {
      auto b = r.bytes(r.below(3000));
      s.assign(b.begin(), b.end());
      break;
    }
    default:
      s = "[99999999999999999999999999.1] eagle " + std::string(kDomain) + "x:ev: { cpu_id = 99999999999999999999999 }, { vpid = -, }, { id = }";
  }
  std::string t;
  for (char c : s)
    if (c != '\n' && c != '\0')
      t += c;
  // must not look like one of the numbered lines
  std::size_t p;
  while ((p = t.find(std::string(kDomain) + ":")) != std::string::npos)
    t.erase(p, 3);
  return t + "\n";
}
// ---- a listener and what it got
struct Got
{
  std::atomic<bool> off{ false };      // switching off has returned
  std::atomic<std::uint64_t> first{ 0 }, next{ 0 }, count{ 0 }, others{ 0 };
  std::atomic<int> inside{ 0 };
  unsigned nap_us{ 0 };
  std::string who;
};
static void got(Got& g, const CTFEvent& e)
{
  if (g.off)
    violation("after_off", "%s was called after switching it off had returned", g.who.c_str());
  if (g.inside.fetch_add(1) != 0)
    violation("overlap", "%s is called by two threads at once", g.who.c_str());
  if (e.domain() != kDomain || !e.eventData().count("seq"))
    g.others++;
  else
  {
    const std::uint64_t n = e.eventData().at("seq");
    std::string why;
    if (!intact(e, n, why))
      violation("damaged", "line %llu reached %s damaged: %s", static_cast<unsigned long long>(n), g.who.c_str(), why.c_str());
    if (g.count == 0)
      g.first = n;
    else if (n != g.next)
      violation(n > g.next ? "missed" : "repeated", "%s got line %llu where %llu was next", g.who.c_str(),
                static_cast<unsigned long long>(n), static_cast<unsigned long long>(g.next));
    g.next = n + 1;
    g.count++;
    cover("deliveries_checked");
  }
  if (g.nap_us)
    std::this_thread::sleep_for(std::chrono::microseconds(g.nap_us));
  g.inside--;
}
// ---- a stream of lines into a pipe
struct Feed
{
  int fd{ -1 };
  Rng r;
  std::uint64_t next{ 0 };                  // number of the next line to be written
  std::atomic<std::uint64_t> begun{ 0 };    // lines below this may have been written
  std::atomic<std::uint64_t> written{ 0 };  // lines below this have been written completely
  std::uint64_t others{ 0 };
  explicit Feed(std::uint64_t s) : r(s)
  {
  }
  bool put(const std::string& s, bool pieces)
  {
    std::size_t p = 0;
    while (p < s.size())
    {
      std::size_t n = s.size() - p;
      if (pieces && n > 1)
        n = 1 + r.below(r.chance(50) ? std::min<std::size_t>(n, 40) : n);
      long k = syscall(SYS_write, fd, s.data() + p, n);
      if (k < 0 && errno == EINTR)
        continue;
      if (k <= 0)
        return false;
      p += static_cast<std::size_t>(k);
      if (pieces && r.chance(10))
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    }
    return true;
  }
  // a burst of lines, garbage among them
  bool burst(std::size_t n, bool pieces)
  {
    std::string s;
    std::uint64_t to = next;
    for (std::size_t i = 0; i < n; i++)
    {
      if (r.chance(15))
      {
        s += garbage(r);
        others++;
      }
      if (r.chance(4))
      {
        // very many lines at once
        for (std::size_t k = 100 + r.below(1500); k > 0; k--)
        {
          s += r.chance(50) ? "\n" : "?\n";
          others++;
        }
        cover("tiny_lines");
      }
      s += numbered(to++);
      distinct("lines", fnv(s.substr(s.size() > 200 ? s.size() - 200 : 0)));
    }
    if (r.chance(15))
    {
      s += garbage(r);
      others++;
    }
    begun = to;
    if (!put(s, pieces))
      return false;
    next = to;
    written = to;
    return true;
  }
};
static bool all_there(Got& g, std::uint64_t n, const char* when)
{
  if (wait_until([&] { return g.next >= n || have_violation(); }, 8000))
    return true;
  violation("late", "%s: line %llu of %llu written is not delivered although the viewer waits", when,
            static_cast<unsigned long long>(g.next), static_cast<unsigned long long>(n));
  return false;
}
static Listener listen(BabeltraceParser& p, const std::shared_ptr<Got>& g)
{
  auto l = std::make_shared<BabeltraceParser::EventCallback>();
  l->callback = [g](const CTFEvent& e) { got(*g, e); };
  p.setCallback(l);
  return l;
}
// The parser on a pipe. Returns true if processing ended by itself.
struct Pipe
{
  int w{ -1 };
  FILE* in{ nullptr };
  Pipe()
  {
    int p[2];
    if (pipe2(p, O_CLOEXEC))
      harness_error("pipe failed");
    w = p[1];
    in = fdopen(p[0], "r");
  }
  ~Pipe()
  {
    shut();
    fclose(in);
  }
  void shut()
  {
    if (w >= 0)
      close(w);
    w = -1;
  }
};
struct Worker
{
  std::atomic<bool> ended{ false };
  std::thread t;
  Worker(BabeltraceParser& p, FILE* f)
    : t([this, &p, f] {
      try
      {
        p.process(f);
      }
      catch (const std::exception& x)
      {
        violation("threw", "processing threw %s", x.what());
      }
      ended = true;
    })
  {
  }
  bool ends(const char* why)
  {
    if (wait_until([&] { return ended.load(); }, 10000))
    {
      t.join();
      return true;
    }
    violation("hang", "processing does not end after %s", why);
    _exit(finish());
  }
};
static void set_injection(Rng& r)
{
  auto& i = inject();
  i.max_delay_us = 300;
  i.delay = static_cast<unsigned>(r.below(2) * r.below(30));
  i.eintr = static_cast<unsigned>(r.below(3) ? r.below(30) : 0);
  i.short_io = static_cast<unsigned>(r.below(2) ? r.below(60) : 0);
}
// ---- every line, any fragmentation, promptly; ends at the end of output and when halted
static void run_stream()
{
  Rng r(seed());
  const int rounds = 6 * scale();
  for (int k = 0; k < rounds && !have_violation(); k++)
  {
    BabeltraceParser p;
    if (r.chance(50))
      p.setLogger([](const std::string&) {});
    Pipe pipe;
    if (r.chance(30))
      setvbuf(pipe.in, nullptr, _IONBF, 0);
    Feed f(r.next());
    f.fd = pipe.w;
    std::vector<std::shared_ptr<Got>> all;
    std::vector<Listener> ls;
    const std::size_t n = 1 + r.below(3);
    for (std::size_t i = 0; i < n; i++)
    {
      all.push_back(std::make_shared<Got>());
      all.back()->who = fmt("listener %zu of %zu", i, n);
      ls.push_back(listen(p, all.back()));
    }
    set_injection(r);
    Worker w(p, pipe.in);
    const int bursts = static_cast<int>(r.range(8, 25));
    for (int b = 0; b < bursts && !have_violation(); b++)
    {
      // more than one line in one write, then silence
      if (!f.burst(1 + r.below(r.chance(20) ? 200 : 12), r.chance(60)))
        break;
      if (r.chance(60))
      {
        for (auto& g : all)
          all_there(*g, f.next, "stream");
        cover("silences");
        if (r.chance(20))
          sleep_ms(static_cast<long>(r.below(40)));
      }
    }
    std::string unfinished;
    const int how = k % 3;
    if (how < 2)  // end of output
    {
      if (how == 1)
      {
        unfinished = numbered(f.next);
        unfinished.resize(unfinished.size() - 1);
        f.put(unfinished, r.chance(50));
        cover("unfinished_lines");
      }
      pipe.shut();
      w.ends("the end of output");
      cover("ends_of_output");
    }
    else
    {
      for (auto& g : all)
        all_there(*g, f.next, "before halting");
      if (r.chance(50))
        f.put("[15", false);  // inside a line
      p.halt();
      w.ends("halt");
      cover("halts");
    }
    inject_off();
    if (p.isProcessing())
      violation("processing", "isProcessing() is true after processing ended");
    for (auto& g : all)
    {
      const std::uint64_t want = f.next + (how == 1 ? 1 : 0);
      if (g->next != want)
        violation("missed", "%s got %llu lines of %llu at the end", g->who.c_str(), static_cast<unsigned long long>(g->next),
                  static_cast<unsigned long long>(want));
      if (g->count && g->first != 0)
        violation("missed", "%s did not get the first line", g->who.c_str());
      if (g->others > f.others + (how == 1 ? 1 : 0))
        violation("extra", "%s got %llu other events for %llu other lines", g->who.c_str(),
                  static_cast<unsigned long long>(g->others), static_cast<unsigned long long>(f.others));
      cover("other_events", g->others);
    }
    cover("streams");
    // the same parser can be used again
    if (r.chance(50))
    {
      for (std::size_t i = 0; i < ls.size(); i++)
      {
        ls[i]->disable();
        all[i]->off = true;
      }
      Pipe again;
      auto g = std::make_shared<Got>();
      g->who = "listener of the second stream";
      Worker w2(p, again.in);
      wait_until([&] { return p.isProcessing(); }, 5000);
      auto l = listen(p, g);
      Feed f2(r.next());
      f2.fd = again.w;
      f2.burst(20, true);
      all_there(*g, 20, "second stream");
      if (r.chance(50))
        p.halt();
      else
        again.shut();
      w2.ends("halt or end of the second stream");
      cover("second_streams");
    }
  }
}
// ---- listeners coming and going while lines arrive
static void run_listeners()
{
  Rng r(seed() + 1);
  const int rounds = 3 * scale();
  for (int k = 0; k < rounds && !have_violation(); k++)
  {
    auto p = std::make_shared<BabeltraceParser>();
    Pipe pipe;
    Feed f(r.next());
    f.fd = pipe.w;
    auto always = std::make_shared<Got>();
    always->who = "the permanent listener";
    auto keep = listen(*p, always);
    Worker w(*p, pipe.in);
    std::atomic<bool> stop{ false };
    std::thread feeder([&] {
      const auto end = Clock::now() + std::chrono::milliseconds(1200 * slow());
      while (Clock::now() < end && !have_violation())
      {
        if (!f.burst(1 + f.r.below(10), f.r.chance(20)))
          break;
        if (f.r.chance(40))
          std::this_thread::sleep_for(std::chrono::microseconds(f.r.below(2000)));
        if (f.r.chance(5))
          all_there(*always, f.next, "while listeners come and go");
      }
      stop = true;
    });
    inject().lock_delay = static_cast<unsigned>(r.below(3) * 10);
    inject().lock_delay_us = 300;
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++)
      ts.emplace_back([&, t, s = r.next()] {
        Rng q(s);
        while (!stop && !have_violation())
        {
          struct State
          {
            Got g;
            std::vector<std::uint64_t> seen;
          };
          // owned by this thread, freed as soon as the listener is off
          auto st = std::make_unique<State>();
          State* raw = st.get();
          st->g.who = fmt("a listener of thread %d", t);
          st->g.nap_us = q.chance(20) ? static_cast<unsigned>(q.below(500)) : 0;
          auto l = std::make_shared<BabeltraceParser::EventCallback>();
          const bool self = q.chance(15);
          const std::uint64_t self_after = q.below(5);
          std::weak_ptr<BabeltraceParser::EventCallback> weak = l;
          std::atomic<bool> self_done{ false };
          if (self)
            l->callback = [raw, weak, self_after, &self_done](const CTFEvent& e) {
              if (self_done)
                violation("after_off", "a listener that switched itself off was called again");
              got(raw->g, e);
              raw->seen.push_back(1);
              if (raw->seen.size() > self_after)
              {
                if (auto me = weak.lock())
                  me->disable();
                self_done = true;
              }
            };
          else
            l->callback = [raw](const CTFEvent& e) {
              got(raw->g, e);
              raw->seen.push_back(e.eventData().size());
            };
          p->setCallback(l);
          const std::uint64_t added = f.begun;  // lines from here on are written after it was added
          const int how = static_cast<int>(q.below(3));
          if (how == 0)
            std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
          else if (how == 1)
            for (std::uint64_t i = 0; i < q.below(200); i++)
              std::this_thread::yield();
          else
          {
            const std::uint64_t want = added + q.below(30);
            while (always->next < want && !stop)
              std::this_thread::yield();
          }
          if (self)
          {
            wait_until([&] { return self_done.load() || stop || have_violation(); }, 3000);
            l->disable();
            cover("self_switched_off", self_done ? 1 : 0);
          }
          const std::uint64_t processed = always->next;  // lines below were delivered, the last possibly not to everyone yet
          l->disable();
          st->g.off = true;
          auto& g = st->g;
          if (!self)
          {
            const std::uint64_t first = g.first, next = g.next;
            if (g.count == 0)
            {
              if (processed > added + 1)
                violation("missed", "a listener active for lines %llu to %llu got none", static_cast<unsigned long long>(added),
                          static_cast<unsigned long long>(processed - 1));
            }
            else
            {
              if (first > added)
                violation("missed", "a listener added before line %llu was written got %llu first", static_cast<unsigned long long>(added),
                          static_cast<unsigned long long>(first));
              if (next + 1 < processed)
                violation("missed", "a listener got lines up to %llu but was active until %llu", static_cast<unsigned long long>(next),
                          static_cast<unsigned long long>(processed));
              cover("busy_listeners");
            }
          }
          if (q.chance(30))
            l.reset();
          st.reset();
          cover("listeners");
        }
      });
    // the logger may be replaced meanwhile
    ts.emplace_back([&] {
      while (!stop)
      {
        p->setLogger([](const std::string&) {});
        sleep_ms(5);
      }
    });
    feeder.join();
    for (auto& t : ts)
      t.join();
    inject_off();
    all_there(*always, f.next, "at the end");
    if (r.chance(50))
      pipe.shut();
    else
      p->halt();
    w.ends("halt or end of output");
    if (always->next != f.next)
      violation("missed", "the permanent listener got %llu lines of %llu", static_cast<unsigned long long>(always->next),
                static_cast<unsigned long long>(f.next));
    cover("listener_rounds");
  }
}
// ---- the tool with viewer processes
static bool gone(pid_t p)
{
  return ::kill(p, 0) != 0;
}
static void guarded(const char* what, long ms, const std::function<void()>& f)
{
  std::atomic<bool> done{ false };
  std::thread t([&] {
    f();
    done = true;
  });
  if (!wait_until([&] { return done.load(); }, ms))
  {
    violation("hang", "%s does not return", what);
    _exit(finish());
  }
  t.join();
}
static void run_tool()
{
  viewer::prepare();
  viewer::path(true);
  Rng r(seed() + 2);
  const pid_t me = getpid();
  const auto fds = open_fds().size();
  const auto threads = thread_count();
  const int rounds = 16 * scale();
  for (int k = 0; k < rounds && !have_violation(); k++)
  {
    const int kind = k % 8;
    {
      auto tool = std::make_shared<BabeltraceTool>();
      const int times = r.chance(40) ? 2 : 1;
      for (int t = 0; t < times && !have_violation(); t++)
      {
        const bool session = r.chance(30);
        viewer::Plan plan(fmt("plan%d_%d", k, t), kind == 1 ? "flood" : kind == 2 ? "ignore" : kind == 3 ? "errors" : "");
        auto g = std::make_shared<Got>();
        g->who = "the tool's listener";
        const bool before = r.chance(50) && t == 0;
        Listener l;
        const auto add = [&] { l = tool->addCallback([g](const CTFEvent& e) { got(*g, e); }); };
        if (before)
          add();
        if (kind == 6)
        {
          viewer::path(false);
          try
          {
            tool->init(plan.net());
          }
          catch (const std::exception&)
          {
            cover("init_threw");
          }
          if (getpid() != me)
          {
            violation("duplicate", "a viewer that cannot be started leaves a second copy of this process running");
            _exit(1);
          }
          viewer::path(true);
          if (r.chance(50))
            sleep_ms(50);
          cover("missing_viewers");
        }
        else if (kind == 7)
        {
          vh_fork_failures = 1;
          try
          {
            tool->init(plan.net());
          }
          catch (const std::exception&)
          {
            cover("init_threw");
          }
          vh_fork_failures = 0;
          cover("failed_forks");
        }
        else
        {
          tool->init(session ? plan.name : plan.net());
          if (r.chance(30))
            tool->init(plan.net());  // has no effect
        }
        if (kind == 5)
          cover("immediate_halts");
        else if (kind < 5)
        {
          tool->setLogger([](const std::string&) {});
          if (!plan.wait())
          {
            violation("viewer", "the viewer does not run%s", kind == 1 ? " (it prints much to its error output)" : "");
            break;
          }
          if (!before)
            add();
          Feed f(r.next());
          f.fd = plan.fd;
          const int bursts = static_cast<int>(r.range(1, 8));
          for (int b = 0; b < bursts && !have_violation(); b++)
          {
            if (!f.burst(kind == 3 ? 30 : 1 + r.below(40), r.chance(30)))
            {
              violation("viewer", "the viewer ended although nobody asked it to");
              break;
            }
            if (r.chance(50) || b + 1 == bursts)
              all_there(*g, f.next, kind == 3 ? "tool, viewer with warnings" : "tool");
          }
          cover("viewer_lines", f.next);
          if (kind == 4)
          {
            plan.done();  // the viewer ends by itself
            sleep_ms(static_cast<long>(r.below(60)));
            cover("viewer_ended");
          }
          if (r.chance(30))
          {
            l->disable();
            g->off = true;
          }
        }
        const pid_t vp = plan.pid();
        const bool explicit_halt = t + 1 < times || r.chance(60);
        guarded("halting the tool", 20000, [&] {
          if (explicit_halt)
            tool->halt();
          else
            tool.reset();
        });
        g->off = true;
        if (vp > 0 && kind != 2 && !wait_until([&] { return gone(vp); }, 5000))
          violation("viewer_left", "the viewer process is still there after halting");
        if (vp > 0 && kind == 2)
          ::kill(vp, SIGKILL);
        if (vh_bad_kills)
          violation("kill", "halting signalled processes that are not the viewer");
        cover("tool_rounds");
        cover(fmt("tool_kind_%d", kind));
      }
    }
    int status = 0;
    pid_t z;
    int left = 0;
    const auto end = Clock::now() + std::chrono::seconds(5 * slow());
    // an immediately halted viewer may still be on its way
    while ((z = waitpid(-1, &status, WNOHANG)) >= 0 && Clock::now() < end)
      if (z > 0)
        left++;
      else
        sleep_ms(2);
    if (left && kind != 2)
      violation("zombie", "%d viewer processes were left to be waited for (round kind %d)", left, kind);
    if (z == 0 && kind != 2)
      violation("viewer_left", "a viewer process is still running after the tool is gone (round kind %d)", kind);
    if (!wait_until([&] { return open_fds().size() <= fds && thread_count() <= threads; }, 5000))
      violation("leak", "descriptors or threads are left after round kind %d: %zu (%zu), %zu (%zu)", kind, open_fds().size(), fds,
                thread_count(), threads);
  }
  viewer::cleanup();
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "stream";
  if (m == "viewer")
    return viewer::role(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  Watchdog w("the run", 300000);
  if (m == "stream")
    run_stream();
  else if (m == "listeners")
    run_listeners();
  else
    run_tool();
  return finish();
}
