// C14: tracing on/off switches act exactly on their target.
#include <pthread.h>
#include <sstream>
#include "gen.h"
#include "tap.h"
#include "tx.h"
#include <scalopus_tracing/tracing.h>
using namespace vh;
using namespace tx;
using scalopus::TraceConfigurator;
using Config = scalopus::EndpointTraceConfigurator;

static thread_local std::vector<Ev> tl_events;
static std::atomic<std::uint64_t> g_tapped{ 0 };
static void tapped(const Ev& e)
{
  tl_events.push_back(e);
  g_tapped++;
}
// Emits one event of each kind in a random order; the number that came out, -1 if a wrong one did.
static int emit_some(Rng& r, int& tried)
{
  tap_drain();
  tl_events.clear();
  std::vector<Ev> sent;
  tried = static_cast<int>(1 + r.below(6));
  for (int i = 0; i < tried; i++)
  {
    unsigned id = static_cast<unsigned>(r.next());
    std::int64_t v = r.chance(30) ? r.range(-2, 2) : static_cast<std::int64_t>(r.next());
    switch (r.below(6))
    {
      case 0:
        scalopus::scope_entry(id);
        sent.push_back({ 'B', id, 0 });
        break;
      case 1:
        scalopus::scope_exit(id);
        sent.push_back({ 'E', id, 0 });
        break;
      case 2:
        scalopus::mark_event(id, scalopus::MarkLevel::GLOBAL);
        sent.push_back({ 'g', id, 0 });
        break;
      case 3:
        scalopus::mark_event(id, scalopus::MarkLevel::PROCESS);
        sent.push_back({ 'p', id, 0 });
        break;
      case 4:
        scalopus::mark_event(id, scalopus::MarkLevel::THREAD);
        sent.push_back({ 't', id, 0 });
        break;
      default:
        scalopus::count_event(id, v);
        sent.push_back({ 'C', id, v });
    }
  }
  tap_drain();
  cover("emissions", static_cast<std::uint64_t>(tried));
  if (tl_events.empty())
    return 0;
  return tl_events == sent ? tried : -1;
}

// ---- a thread that does what it is told
enum Op
{
  SET_T,
  GET_T,
  SET_P,
  GET_P,
  EMIT,
  PUSH_T,
  PUSH_P,
  POP,
  THROW,
  PTR,
  END
};
struct Unwind
{
  int levels;
};
struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  bool have{ false }, done{ false };
  Op op{ GET_T };
  int arg{ 0 };
  long res{ 0 };
  TraceConfigurator::AtomicBoolPtr ptr;
  std::uint64_t s;
  int end_by;
  std::thread t;
  unsigned long tid{ 0 };
  // model
  bool on{ true }, touched{ false };
  std::vector<std::pair<bool, bool>> scopes;  // process?, value found
  TraceConfigurator::AtomicBoolPtr handle;

  Worker(std::uint64_t seed_value, int how) : s(seed_value), end_by(how)
  {
    t = std::thread([this]() { body(); });
    tid = static_cast<unsigned long>(t.native_handle());
  }
  ~Worker()
  {
    if (t.joinable())
    {
      call(END, 0);
      t.join();
    }
  }
  void body()
  {
    Rng r(s);
    try
    {
      loop(r, 0);
    }
    catch (const Unwind&)
    {
    }
    finish_op(0);
    if (end_by == 1)
      pthread_exit(nullptr);
  }
  void finish_op(long v)
  {
    std::lock_guard<std::mutex> l(m);
    res = v;
    done = true;
    cv.notify_all();
  }
  // returns when the scope it was called in should be left
  void loop(Rng& r, int depth)
  {
    auto c = TraceConfigurator::getInstance();
    while (true)
    {
      Op o;
      int a;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&]() { return have; });
        have = false;
        o = op;
        a = arg;
      }
      switch (o)
      {
        case SET_T:
          finish_op(c->setThreadState(a != 0));
          break;
        case GET_T:
          finish_op(c->getThreadState());
          break;
        case SET_P:
          finish_op(c->setProcessState(a != 0));
          break;
        case GET_P:
          finish_op(c->getProcessState());
          break;
        case EMIT:
        {
          int tried = 0;
          int n = emit_some(r, tried);
          finish_op(n < 0 ? -1 : n == tried ? 1 : n == 0 ? 0 : -1);
          break;
        }
        case PTR:
          ptr = c->getThreadStatePtr();
          finish_op(0);
          break;
        case PUSH_T:
          inner(r, depth, false, a != 0);
          break;
        case PUSH_P:
          inner(r, depth, true, a != 0);
          break;
        case THROW:
          throw Unwind{ a };
        case POP:
        case END:
          leaving = o;
          if (o == END && depth > 0)
          {
            std::lock_guard<std::mutex> l(m);
            have = true;  // seen by the outer levels too
          }
          return;
      }
    }
  }
  Op leaving{ POP };
  // One more scope with a switch; answers once the scope was entered and once more after it was left.
  void inner(Rng& r, int depth, bool process, bool v)
  {
    int unwinding = -1;
    try
    {
      if (process)
      {
        TRACING_CONFIG_PROCESS_STATE_RAII(v);
        finish_op(0);
        loop(r, depth + 1);
      }
      else
      {
        TRACING_CONFIG_THREAD_STATE_RAII(v);
        finish_op(0);
        loop(r, depth + 1);
      }
    }
    catch (const Unwind& u)
    {
      unwinding = u.levels;
    }
    if (unwinding > 1)
      throw Unwind{ unwinding - 1 };
    if (unwinding == 1 || leaving == POP)
      finish_op(0);
  }
  long call(Op o, int a)
  {
    std::unique_lock<std::mutex> l(m);
    op = o;
    arg = a;
    done = false;
    have = true;
    cv.notify_all();
    if (!cv.wait_for(l, std::chrono::seconds(60 * slow()), [&]() { return done; }))
    {
      violation("stuck", "operation %d of a thread does not return", static_cast<int>(o));
      _exit(finish());
    }
    return res;
  }
};
struct Model
{
  bool process{ true };
  std::vector<std::unique_ptr<Worker>> w;
  std::set<unsigned long> ended;
  std::uint64_t hist{ 1 };
};
static void differs(const char* what, long got, long want_v)
{
  if (got != want_v)
    violation(what, "%s: got %ld, expected %ld", what, got, want_v);
  cover("answers_checked");
}
static void check_map(Model& m)
{
  auto map = TraceConfigurator::getInstance()->getThreadMap();
  for (auto& w : m.w)
  {
    auto it = map.find(w->tid);
    if (w->touched && it == map.end())
      violation("unlisted", "a live thread that uses tracing is not listed");
    if (it != map.end() && it->second->load() != w->on)
      violation("listed-state", "a thread whose switch is %d is listed with %d", w->on, it->second->load());
  }
  for (auto tid : m.ended)
    if (map.count(tid))
      violation("stale", "a thread that ended is still listed");
  cover("maps_checked");
}
static void new_worker(Model& m, Rng& r)
{
  m.w.emplace_back(new Worker(r.next(), static_cast<int>(r.below(2))));
  auto& w = *m.w.back();
  if (m.ended.erase(w.tid))
    cover("reused_ids");
  if (r.chance(50))
  {
    if (r.chance(50))
      differs("initial-state", w.call(GET_T, 0), 1);
    else
      differs("initial-emission", w.call(EMIT, 0), m.process);
    w.touched = true;
    cover("new_threads");
  }
}
static void end_worker(Model& m, std::size_t i)
{
  auto tid = m.w[i]->tid;
  // the scopes it is in end with it
  for (auto it = m.w[i]->scopes.rbegin(); it != m.w[i]->scopes.rend(); ++it)
    if (it->first)
      m.process = it->second;
  m.w.erase(m.w.begin() + static_cast<long>(i));
  bool reused = false;
  for (auto& w : m.w)
    reused |= w->tid == tid;
  if (!reused)
    m.ended.insert(tid);
  cover("threads_ended");
}
static void remote_check(Model& m, const Config::TraceConfiguration& s, const char* what)
{
  if (s.process_state != m.process)
    violation("remote-process", "%s reports process state %d, it is %d", what, s.process_state, m.process);
  for (auto& w : m.w)
  {
    auto it = s.thread_state.find(w->tid);
    if (w->touched && it == s.thread_state.end())
      violation("remote-unlisted", "%s does not list a live thread that uses tracing", what);
    if (it != s.thread_state.end() && it->second != w->on)
      violation("remote-state", "%s lists a thread whose switch is %d with %d", what, w->on, it->second);
  }
  for (auto tid : m.ended)
    if (s.thread_state.count(tid))
      violation("remote-stale", "%s lists a thread that ended", what);
  cover("remote_views");
}
template <typename F>
static Config::TraceConfiguration remote(F f)
{
  for (int i = 0; i < 100; i++)
  {
    auto s = f();
    if (s)
      return s;
    cover("timeouts");
  }
  violation("remote-silent", "the server never answers a trace configuration request");
  return {};
}
static Config::TraceConfiguration random_request(Rng& r, const std::vector<unsigned long>& live, const std::set<unsigned long>& ended)
{
  Config::TraceConfiguration q;
  q.set_process_state = r.chance(30);
  q.process_state = r.chance(60);
  for (auto tid : live)
    if (r.chance(40))
      q.thread_state[tid] = r.chance(50);
  for (auto tid : ended)
    if (r.chance(30))
      q.thread_state[tid] = r.chance(50);
  if (r.chance(30))
    q.thread_state[r.below(1000)] = r.chance(50);
  return q;
}
static void act(Model& m, Rng& r, const Config::Ptr& conf)
{
  auto& c = *TraceConfigurator::getInstance();
  if (m.w.empty() || (m.w.size() < 6 && r.chance(8)))
    return new_worker(m, r);
  auto wi = r.below(m.w.size());
  auto& w = *m.w[wi];
  int b = r.chance(50);
  auto k = r.below(16);
  m.hist = fnv(&k, sizeof(k), m.hist * 31 + wi * 2 + static_cast<unsigned>(b));
  cover(fmt("act_%d", static_cast<int>(k)));
  switch (k)
  {
    case 0:
      differs("set-returns-old", w.call(SET_T, b), w.on);
      w.on = b;
      w.touched = true;
      break;
    case 1:
      differs("thread-state", w.call(GET_T, 0), w.on);
      w.touched = true;
      break;
    case 2:
      if (r.chance(50))
        differs("process-set-returns-old", w.call(SET_P, b), m.process);
      else
        differs("process-set-returns-old", c.setProcessState(b), m.process);
      m.process = b;
      break;
    case 3:
      differs("process-state", r.chance(50) ? w.call(GET_P, 0) : c.getProcessState(), m.process);
      differs("process-pointer", c.getProcessStatePtr()->load(), m.process);
      break;
    case 4:
    case 5:
    case 6:
    {
      long n = w.call(EMIT, 0);
      w.touched = true;
      if (n != (m.process && w.on))
        violation("gate", "a thread %s although the process switch is %d and its own is %d",
                  n == 0 ? "emits nothing" : n == 1 ? "emits events" : "emits other events or only some of them", m.process, w.on);
      cover(fmt("gate_%d%d", m.process, w.on));
      break;
    }
    case 7:
    case 8:
      if (w.scopes.size() < 8)
      {
        bool p = r.chance(40);
        w.scopes.push_back({ p, p ? m.process : w.on });
        w.call(p ? PUSH_P : PUSH_T, b);
        (p ? m.process : w.on) = b;
        w.touched |= !p;
      }
      break;
    case 9:
      if (!w.scopes.empty())
      {
        auto s = w.scopes.back();
        w.scopes.pop_back();
        w.call(POP, 0);
        (s.first ? m.process : w.on) = s.second;
        cover("scopes_left");
      }
      break;
    case 10:
      if (!w.scopes.empty())
      {
        int n = static_cast<int>(1 + r.below(w.scopes.size()));
        for (int i = 0; i < n; i++)
        {
          auto s = w.scopes.back();
          w.scopes.pop_back();
          (s.first ? m.process : w.on) = s.second;
        }
        w.call(THROW, n);
        cover("scopes_thrown", static_cast<std::uint64_t>(n));
      }
      break;
    case 11:
      if (!w.handle)
      {
        w.call(PTR, 0);
        w.touched = true;
        w.handle = w.ptr;
      }
      differs("handle", w.handle->load(), w.on);
      w.handle->store(b);
      w.on = b;
      break;
    case 12:
      if (m.w.size() > 1 && r.chance(50))
        end_worker(m, wi);
      break;
    case 13:
      check_map(m);
      break;
    case 14:
      remote_check(m, remote([&]() { return conf->getTraceState(); }), "reading the state remotely");
      break;
    default:
    {
      std::vector<unsigned long> live;
      for (auto& x : m.w)
        live.push_back(x->tid);
      auto q = random_request(r, live, m.ended);
      auto s = remote([&]() { return conf->setTraceState(q); });
      if (q.set_process_state)
        m.process = q.process_state;
      for (auto& x : m.w)
        if (x->touched && q.thread_state.count(x->tid))
          x->on = q.thread_state.at(x->tid);
      remote_check(m, s, "the answer to setting the state remotely");
      cover("remote_sets");
    }
  }
}
static void run_model(bool loopback)
{
  Rng r(seed() * 2 + loopback);
  Reset reset;
  auto f = loopback ? scalopus::TransportFactory::Ptr(std::make_shared<scalopus::TransportLoopbackFactory>()) : unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  server->addEndpoint(std::make_shared<Config>());
  auto client = loopback ? f->connect(f->discover().at(0)) : connect_pid(f, getpid());
  if (!client)
    harness_error("cannot connect");
  auto conf = Config::factory(client);
  // defaults, before anything else happened
  differs("default-process", TraceConfigurator::getInstance()->getProcessState(), 1);
  for (int round = 0; round < 20 * scale() && !have_violation(); round++)
  {
    Model m;
    for (int i = 0; i < 600 / slow() + 100 && !have_violation(); i++)
    {
      act(m, r, conf);
      if (i % 20 == 19)
        distinct("histories", m.hist);
    }
    while (!m.w.empty() && !have_violation())
      end_worker(m, r.below(m.w.size()));
    differs("process-after-scopes", TraceConfigurator::getInstance()->getProcessState(), m.process);
    check_map(m);
    TraceConfigurator::getInstance()->setProcessState(true);
    distinct("histories", m.hist);
    cover("model_rounds");
  }
  if (have_violation())
    _exit(finish());  // threads may be in any state
}

// ---- several processes
static int role_node()
{
  Model m;
  Rng r(seed());
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    return 3;
  server->addEndpoint(std::make_shared<Config>());
  printf("ready\n");
  fflush(stdout);
  std::string line;
  char buf[256];
  while (fgets(buf, sizeof(buf), stdin))
  {
    std::istringstream in(buf);
    char c = 0;
    std::size_t i = 0;
    int b = 0;
    in >> c >> i >> b;
    long res = 0;
    if (c == 'N')
    {
      m.w.emplace_back(new Worker(r.next(), 0));
      m.w.back()->call(GET_T, 0);
      res = static_cast<long>(m.w.back()->tid);
    }
    else if (c == 'S')
      res = m.w.at(i)->call(SET_T, b);
    else if (c == 'E')
      res = m.w.at(i)->call(EMIT, 0);
    else if (c == 'P')
      res = TraceConfigurator::getInstance()->setProcessState(b != 0);
    else if (c == 'X')
      m.w.erase(m.w.begin() + static_cast<long>(i));
    printf("%ld\n", res);
    fflush(stdout);
  }
  return 0;
}
struct Node
{
  Child c;
  Transport::Ptr t;
  Config::Ptr conf;
  bool process{ true };
  std::vector<std::pair<unsigned long, bool>> w;
  std::set<unsigned long> ended;
  long ask(const std::string& s)
  {
    std::string l;
    if (!c.send_line(s) || !c.read_line(l, 30000))
    {
      violation("node-gone", "a traced process died or hangs on '%s'", s.c_str());
      return -1000;
    }
    return std::stol(l);
  }
};
static void run_procs()
{
  Rng r(seed());
  auto f = unix_factory();
  std::vector<std::unique_ptr<Node>> nodes;
  for (int i = 0; i < 3; i++)
  {
    nodes.emplace_back(new Node);
    auto& n = *nodes.back();
    n.c = spawn({ "node" });
    std::string l;
    if (!n.c.read_line(l, 30000) || l != "ready")
      harness_error("node does not start");
    n.t = connect_pid(f, n.c.pid);
    if (!n.t)
      harness_error("cannot connect to node");
    n.conf = Config::factory(n.t);
  }
  std::uint64_t hist = 3;
  for (int step = 0; step < 500 * scale() / slow() + 100 && !have_violation(); step++)
  {
    auto ni = r.below(nodes.size());
    auto& n = *nodes[ni];
    auto k = r.below(8);
    int b = r.chance(50);
    hist = hist * 131 + ni * 17 + k;
    if (n.w.empty())
      k = 0;
    switch (k)
    {
      case 0:
        if (n.w.size() < 5)
        {
          auto tid = static_cast<unsigned long>(n.ask("N"));
          n.w.push_back({ tid, true });
          n.ended.erase(tid);
        }
        break;
      case 1:
      {
        auto i = r.below(n.w.size());
        differs("node-set", n.ask(fmt("S %zu %d", i, b)), n.w[i].second);
        n.w[i].second = b;
        break;
      }
      case 2:
        differs("node-process-set", n.ask(fmt("P 0 %d", b)), n.process);
        n.process = b;
        break;
      case 3:
        if (r.chance(40))
        {
          auto i = r.below(n.w.size());
          n.ask(fmt("X %zu", i));
          n.ended.insert(n.w[i].first);
          n.w.erase(n.w.begin() + static_cast<long>(i));
        }
        break;
      case 4:
      case 5:
      {
        // thread ids of another process may be equal or unknown here
        std::vector<unsigned long> live;
        for (auto& o : nodes)
          for (auto& w : o->w)
            live.push_back(w.first);
        auto q = random_request(r, live, n.ended);
        auto s = remote([&]() { return n.conf->setTraceState(q); });
        if (q.set_process_state)
          n.process = q.process_state;
        for (auto& w : n.w)
          if (q.thread_state.count(w.first))
            w.second = q.thread_state.at(w.first);
        cover("remote_sets");
        break;
      }
      default:
      {
        auto i = r.below(n.w.size());
        long g = n.ask(fmt("E %zu 0", i));
        if (g != (n.process && n.w[i].second))
          violation("node-gate", "thread of process %zu emits (%ld) although its switches are %d %d", ni, g, n.process,
                    n.w[i].second);
        cover("node_emissions");
      }
    }
    for (auto& o : nodes)
    {
      if (have_violation())
        break;
      auto s = remote([&]() { return o->conf->getTraceState(); });
      std::map<unsigned long, bool> mine(o->w.begin(), o->w.end());
      if (s.process_state != o->process)
        violation("node-process", "a process reports its switch as %d instead of %d", s.process_state, o->process);
      for (auto& w : mine)
        if (!s.thread_state.count(w.first) || s.thread_state[w.first] != w.second)
          violation("node-state", "a process does not report the thread state %d", w.second);
      for (auto tid : o->ended)
        if (s.thread_state.count(tid))
          violation("node-stale", "a process lists a thread that ended");
      cover("process_views");
    }
    if (step % 50 == 49)
      distinct("histories", hist);
  }
  nodes.clear();
}

// ---- everything at once
static void run_mt(bool loopback)
{
  Reset reset;
  auto f = loopback ? scalopus::TransportFactory::Ptr(std::make_shared<scalopus::TransportLoopbackFactory>()) : unix_factory();
  auto server = f->serve();
  server->addEndpoint(std::make_shared<Config>());
  auto client = loopback ? f->connect(f->discover().at(0)) : connect_pid(f, getpid());
  auto conf = Config::factory(client);
  inject().lock_delay = 5;
  inject().lock_delay_us = 200;
  std::atomic<bool> stop{ false };
  std::vector<std::thread> ts;
  auto& cfg = *TraceConfigurator::getInstance();
  // threads whose switches only they change
  std::atomic<unsigned> epoch{ 0 };  // odd while the process switch may be off
  std::atomic<int> ready{ 0 };
  std::mutex tm;
  std::map<unsigned long, bool> fixed;  // threads that never change their switch
  for (int t = 0; t < 3; t++)
    ts.emplace_back([&, t]() {
      Rng r(seed() * 50 + static_cast<unsigned>(t));
      bool on = true;
      while (!stop)
      {
        const unsigned before = epoch.load();
        int tried = 0;
        if (r.chance(30))
        {
          bool b = r.chance(50);
          differs("own-set", cfg.setThreadState(b), on);
          on = b;
        }
        if (r.chance(30))
        {
          bool b = r.chance(50);
          TRACING_CONFIG_THREAD_STATE_RAII(b);
          int n = emit_some(r, tried);
          if (b ? (before % 2 == 0 && before == epoch.load() && n != tried) : n != 0)
            violation("own-scope", "%d of %d events come out with the own switch at %d", n, tried, b);
        }
        int n = emit_some(r, tried);
        if (on ? (before % 2 == 0 && before == epoch.load() && n != tried) : n != 0)
          violation("own-gate", "%d of %d events come out with the own switch at %d", n, tried, on);
        cover("mt_checks");
        if (r.chance(5))
          std::this_thread::yield();
      }
    });
  for (int t = 0; t < 2; t++)
    ts.emplace_back([&, t]() {
      cfg.setThreadState(t == 0);
      {
        std::lock_guard<std::mutex> l(tm);
        fixed[static_cast<unsigned long>(pthread_self())] = t == 0;
      }
      ready++;
      while (!stop)
        sleep_ms(1);
    });
  // a thread others switch remotely
  std::atomic<unsigned long> victim{ 0 };
  std::atomic<long> told{ -1 };  // 2 * number of the command + its state
  ts.emplace_back([&]() {
    Rng r(seed() * 77);
    cfg.getThreadState();
    victim = static_cast<unsigned long>(pthread_self());
    while (!stop)
    {
      const long cmd = told.load();
      int v = cmd < 0 ? -1 : static_cast<int>(cmd % 2), tried = 0;
      const unsigned before = epoch.load();
      int n = emit_some(r, tried);
      if (v >= 0 && cmd == told.load() && (v == 0 ? n != 0 : (before % 2 == 0 && before == epoch.load() && n != tried)))
        violation("victim", "%d of %d events come out after it was switched to %d remotely", n, tried, v);
      cover("victim_checks");
    }
  });
  // short threads
  for (int t = 0; t < 2; t++)
    ts.emplace_back([&, t]() {
      Rng r(seed() * 90 + static_cast<unsigned>(t));
      while (!stop)
        std::thread([&]() {
          const unsigned before = epoch.load();
          int tried = 0;
          if (r.chance(50))
            differs("short-initial", cfg.getThreadState(), 1);
          int n = emit_some(r, tried);
          if (before % 2 == 0 && before == epoch.load() && n != tried)
            violation("short-gate", "a new thread emits %d of %d events", n, tried);
          if (r.chance(70))
            cfg.setThreadState(false);
          cover("short_threads");
        }).join();
    });
  wait_until([&]() { return victim.load() != 0 && ready.load() == 2; }, 30000);
  Rng r(seed());
  for (int i = 0; i < 250 * scale() / slow() + 60 && !have_violation(); i++)
  {
    Config::TraceConfiguration q;
    bool b = r.chance(50);
    bool with = r.chance(70);
    if (with)
      q.thread_state[victim] = b;
    for (int j = 0; j < 3; j++)
      q.thread_state[r.below(100000)] = r.chance(50);
    bool toggle = r.chance(25);
    if (toggle)
    {
      epoch++;
      q.set_process_state = true;
      q.process_state = false;
    }
    if (with)
      told = -1;
    auto s = remote([&]() { return conf->setTraceState(q); });
    if (with)
      told = 2L * i + b;
    auto check = [&](const Config::TraceConfiguration& g, bool p) {
      if (g.process_state != p)
        violation("mt-process", "the process state is reported as %d", g.process_state);
      if (with && (!g.thread_state.count(victim) || g.thread_state.at(victim) != b))
        violation("mt-victim", "a switched thread is not reported with its new state");
      for (auto& x : fixed)
        if (!g.thread_state.count(x.first) || g.thread_state.at(x.first) != x.second)
          violation("mt-fixed", "a thread that nobody switched is missing or reported wrongly");
      cover("mt_views");
    };
    check(s, !toggle);
    check(remote([&]() { return conf->getTraceState(); }), !toggle);
    if (toggle)
    {
      sleep_ms(static_cast<long>(r.below(3)));
      if (r.chance(50))
        cfg.setProcessState(true);
      else
      {
        q.process_state = true;
        remote([&]() { return conf->setTraceState(q); });
      }
      epoch++;
      cover("process_toggles");
    }
  }
  stop = true;
  for (auto& t : ts)
    t.join();
  inject_off();
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "model";
  bool loopback = argc > 2 && std::string(argv[2]) == "loopback";
  if (m == "node")
    return role_node();
  Watchdog w("switching tracing returns", 300000);
  if (m == "model")
    run_model(loopback);
  else if (m == "procs")
    run_procs();
  else
    run_mt(loopback);
  return finish();
}
