// C01: request / response correlation of the unix transport.
#include "same.h"
using namespace vh;
using namespace tx;

static std::mutex g_m;
static std::unordered_map<std::uint64_t, int> g_handled;  // request key -> times handled
static std::atomic<std::uint64_t> g_key{ 1 };

static std::vector<std::string> names()
{
  return { "echo", "other", std::string(300, 'n'), "" };
}
// what the echo endpoints answer: now and then nothing at all, whatever the size of the request
static Data answer_to(const std::string& n, const Data& in)
{
  if (in.size() > 10 && in[10] % 16 == 3)
    return {};
  return reply_for(n, in);
}
static void add_echo(const Transport::Ptr& server)
{
  for (auto& n : names())
    server->addEndpoint(ep(n, [n](Transport&, const Data& in, Data& out) {
      {
        std::lock_guard<std::mutex> l(g_m);
        g_handled[get64(in)]++;
      }
      if (in.size() > 8 && in[8] % 64 == 0)
        std::this_thread::sleep_for(std::chrono::microseconds(in[8]));
      if (in.size() > 9 && in[9] == 7)
      {
        if (in[8] % 2)
          out = reply_for(n, in);
        return false;  // declines
      }
      out = answer_to(n, in);
      return true;
    }));
}
static Data make(Rng& r, std::uint64_t key)
{
  std::size_t n = 10 + (r.chance(5) ? r.below(r.chance(10) ? 300000 : 20000) : r.below(64));
  Data d = r.bytes(n);
  put64(d, 0, key);
  d[9] = r.chance(4) ? 7 : 8;
  return d;
}
static std::uint64_t next_key(std::uint64_t space)
{
  return (space << 40) | g_key++;
}

struct Sent
{
  std::uint64_t key;
  bool declined;
};
static void client_threads(const std::vector<Transport::Ptr>& clients, int threads, int per_thread, std::uint64_t space,
                           std::vector<Sent>& sent)
{
  std::mutex sm;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++)
    ts.emplace_back([&, t]() {
      Rng r(seed() * 131 + space * 17 + static_cast<std::uint64_t>(t));
      auto nm = names();
      struct Pend
      {
        Data req;
        std::string name;
        Transport::PendingResponse fut;
        bool declined;
      };
      std::deque<Pend> window;
      std::vector<Sent> mine;
      auto check = [&](Pend& p) {
        Data got;
        if (p.declined)
        {
          if (p.fut->wait_for(std::chrono::milliseconds(0)) == std::future_status::ready)
          {
            Data g2;
            auto k = await(p.fut, g2, 10);
            if (k == Got::value)
              violation("answered-declined", "a request its endpoint declined was answered with %s", hex(g2).c_str());
          }
          cover("declined");
          return;
        }
        auto k = await(p.fut, got, 15000);
        if (k == Got::timeout)
          violation("lost-response", "no response for request key %" PRIx64 " (thread %d)", get64(p.req), t);
        else if (k == Got::error)
          violation("failed-request", "request key %" PRIx64 " failed while the server was alive", get64(p.req));
        else
        {
          auto want = answer_to(p.name, p.req);
          if (want.empty())
            cover("empty_answers");
          if (got != want)
            violation("wrong-response", "request %" PRIx64 " to '%s' got %s instead of %s", get64(p.req),
                      p.name.substr(0, 8).c_str(), hex(got).c_str(), hex(want).c_str());
          cover("responses_checked");
          distinct("exchanges", fnv(p.req));
          sample(fmt("request %zu bytes key %" PRIx64 " -> response %zu bytes, matched", p.req.size(), get64(p.req), got.size()));
        }
      };
      for (int i = 0; i < per_thread && !have_violation(); i++)
      {
        auto key = next_key(space);
        Pend p;
        p.req = make(r, key);
        p.declined = p.req[9] == 7;
        p.name = r.pick(nm);
        auto& c = clients[r.below(clients.size())];
        p.fut = c->request(p.name, p.req);
        mine.push_back({ key, p.declined });
        if (!p.fut)
        {
          violation("null-future", "request returned no future");
          continue;
        }
        if (r.chance(8))
        {
          cover("dropped_futures");
          continue;  // future dropped at once
        }
        window.push_back(std::move(p));
        while (window.size() > r.below(12) + 1)
        {
          std::size_t k = r.below(window.size());
          std::swap(window[0], window[k]);
          check(window[0]);
          window.pop_front();
        }
      }
      while (!window.empty())
      {
        check(window.front());
        window.pop_front();
      }
      std::lock_guard<std::mutex> l(sm);
      sent.insert(sent.end(), mine.begin(), mine.end());
    });
  for (auto& t : ts)
    t.join();
}
static void check_handled(const std::vector<Sent>& sent)
{
  wait_until(
      [&]() {
        std::lock_guard<std::mutex> l(g_m);
        for (auto& s : sent)
          if (!g_handled.count(s.key))
            return false;
        return true;
      },
      8000);
  std::lock_guard<std::mutex> l(g_m);
  for (auto& s : sent)
  {
    auto it = g_handled.find(s.key);
    int n = it == g_handled.end() ? 0 : it->second;
    if (n != 1)
      violation(n ? "handled-twice" : "not-handled", "request key %" PRIx64 " was handled %d times", s.key, n);
    cover("handled_once_checked");
  }
}
static void set_injection(Rng& r)
{
  auto& i = inject();
  i.delay = static_cast<unsigned>(r.below(20));
  i.post_delay = static_cast<unsigned>(r.below(40));
  i.max_delay_us = static_cast<unsigned>(r.pick(std::vector<int>{ 20, 200, 1500 }));
  i.short_io = static_cast<unsigned>(r.below(30));
  i.eintr = static_cast<unsigned>(r.below(8));
  i.lock_delay = static_cast<unsigned>(r.below(12));
  i.lock_delay_us = static_cast<unsigned>(r.pick(std::vector<int>{ 10, 100, 600 }));
}

static int run_mt()
{
  Rng r(seed());
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  add_echo(server);
  const int rounds = 6 * scale();
  for (int k = 0; k < rounds && !have_violation(); k++)
  {
    if (k % 3)
      set_injection(r);
    else
      inject_off();
    Watchdog w("mt", 60000);
    std::vector<Transport::Ptr> clients;
    int nc = 1 + static_cast<int>(r.below(4));
    for (int i = 0; i < nc; i++)
    {
      clients.push_back(connect_pid(f, getpid()));
      if (!clients.back())
        harness_error("cannot connect");
    }
    std::vector<Sent> sent;
    client_threads(clients, 1 + static_cast<int>(r.below(5)), 120, static_cast<std::uint64_t>(k + 1), sent);
    if (have_violation())
      break;
    check_handled(sent);
    distinct("schedules", fnv(&k, sizeof k, seed()));
    if (k % 2)
      inject_off();
    for (auto& c : clients)
      if (!wait_until([&]() { return c->pendingRequests() == 0; }, 5000))
        violation("pending-leak", "%zu requests still pending after all futures were answered or dropped",
                  c->pendingRequests());
  }
  inject_off();
  return 0;
}

// clients in other processes
static int run_mp_client(int argc, char** argv)
{
  pid_t pid = atoi(argv[2]);
  std::uint64_t space = strtoull(argv[3], nullptr, 10);
  auto f = unix_factory();
  std::vector<Transport::Ptr> clients;
  for (int i = 0; i < 2; i++)
  {
    Transport::Ptr c;
    for (int k = 0; k < 50 && !c; k++)
    {
      c = connect_pid(f, pid);
      if (!c)
        sleep_ms(20);
    }
    if (!c)
      harness_error("client process cannot connect");
    clients.push_back(c);
  }
  Watchdog w("mp-client", 60000);
  std::vector<Sent> sent;
  client_threads(clients, 3, 80, space, sent);
  std::string line;
  for (auto& s : sent)
    printf("%" PRIu64 "\n", s.key);
  printf("end\n");
  fflush(stdout);
  finish();
  return have_violation() ? 1 : 0;
}
static int run_mp()
{
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  add_echo(server);
  Watchdog w("mp", 90000);
  std::vector<Child> kids;
  for (int i = 0; i < 4; i++)
    kids.push_back(spawn({ "mp_client", std::to_string(getpid()), std::to_string(100 + i) },
                         { { "VH_SEED", std::to_string(seed() + static_cast<std::uint64_t>(i)) } }));
  std::vector<Sent> sent;
  for (auto& k : kids)
  {
    std::string l;
    while (k.read_line(l, 40000) && l != "end")
      sent.push_back({ strtoull(l.c_str(), nullptr, 10), false });
    int rc = k.wait_exit(20000);
    if (rc < 0 && rc != -1000)
      violation("client-crash", "a client process died of signal %d", -rc);
  }
  if (!have_violation())
    check_handled(sent);
  cover("client_processes", kids.size());
  return 0;
}

// scripted raw server: answers out of order, early, interleaved with unsolicited frames
static int run_raw(bool early)
{
  Rng r(seed());
  auto f = unix_factory();
  const pid_t fake = 5000000 + static_cast<pid_t>(getpid() % 100000) * 10;
  int ls = Raw::listen_as(fake);
  if (ls < 0)
    harness_error("cannot bind raw server");
  for (int round = 0; round < 5 * scale() && !have_violation(); round++)
  {
    Watchdog w("raw", 60000);
    auto client = connect_pid(f, fake);
    if (!client)
      harness_error("cannot connect to raw server");
    int cfd = static_cast<int>(syscall(SYS_accept4, ls, nullptr, nullptr, SOCK_CLOEXEC));
    Raw peer(cfd);
    std::atomic<bool> stop{ false };
    std::atomic<int> unsol{ 0 };
    std::map<std::uint64_t, int> ids;
    client->addEndpoint(ep("echo", nullptr, [&](Transport&, const Data&, Data&) {
      unsol++;
      return false;
    }));
    const int mode = static_cast<int>(r.below(4));
    int sent_unsol = 0;
    std::thread srv([&]() {
      Rng q(seed() * 7 + static_cast<std::uint64_t>(round));
      std::vector<RawFrame> held;
      auto answer = [&](RawFrame& fr) {
        RawFrame a;
        a.id = fr.id;
        a.name = fr.name;
        a.data = reply_for(fr.name, fr.data);
        peer.send_frame(a);
      };
      while (!stop)
      {
        RawFrame fr;
        int k = peer.recv_frame(fr, early ? 5 : 2);
        if (k == 1)
        {
          ids[fr.id]++;
          held.push_back(fr);
        }
        else if (k < 0)
          break;
        if (held.empty())
          continue;
        if (early || mode == 0)
        {
          for (auto& h : held)
            answer(h);
          held.clear();
        }
        else if (k == 0 || held.size() > 20 || q.chance(10))
        {
          while (!held.empty())
          {
            std::size_t i = mode == 1 ? held.size() - 1 : q.below(held.size());
            answer(held[i]);
            held.erase(held.begin() + static_cast<long>(i));
            if (mode == 3 && q.chance(30))
            {
              RawFrame b;
              b.id = 0;
              b.name = q.chance(50) ? "echo" : "absent";
              b.data = q.bytes(q.below(40));
              if (b.name == "echo")
                sent_unsol++;
              peer.send_frame(b);
            }
          }
        }
      }
    });
    if (early)
    {
      auto& i = inject();
      i.post_delay = 60;
      i.max_delay_us = 3000;
      i.lock_delay = 50;
      i.lock_delay_us = 3000;
    }
    else
      set_injection(r);
    std::vector<Sent> sent;
    // requests with the declining marker are answered by the raw server; so avoid them
    std::mutex sm;
    std::vector<std::thread> ts;
    for (int t = 0; t < (early ? 2 : 4); t++)
      ts.emplace_back([&, t]() {
        Rng q(seed() * 77 + static_cast<std::uint64_t>(t + round * 10));
        auto nm = names();
        std::vector<std::pair<std::pair<std::string, Data>, Transport::PendingResponse>> v;
        for (int i = 0; i < (early ? 25 : 60); i++)
        {
          auto n = q.pick(nm);
          auto d = make(q, next_key(900));
          auto fut = client->request(n, d);
          v.push_back({ { n, d }, fut });
          if (early || q.chance(20))
          {
            for (auto& p : v)
            {
              Data got;
              auto k = await(p.second, got, 15000);
              if (k != Got::value)
                violation(k == Got::timeout ? "lost-response" : "failed-request", "raw server answered, but request %d got %s",
                          i, k == Got::timeout ? "nothing" : "an error");
              else if (got != reply_for(p.first.first, p.first.second))
                violation("wrong-response", "request got a response of another request");
              cover("responses_checked");
              distinct("exchanges", fnv(p.first.second));
              if (have_violation())
                return;
            }
            v.clear();
          }
        }
        for (auto& p : v)
        {
          Data got;
          auto k = await(p.second, got, 15000);
          if (k != Got::value)
            violation(k == Got::timeout ? "lost-response" : "failed-request", "raw server answered, but a request got %s",
                      k == Got::timeout ? "nothing" : "an error");
          else if (got != reply_for(p.first.first, p.first.second))
            violation("wrong-response", "request got a response of another request");
          cover("responses_checked");
          distinct("exchanges", fnv(p.first.second));
        }
      });
    for (auto& t : ts)
      t.join();
    inject_off();
    if (!have_violation() && !wait_until([&]() { return unsol >= sent_unsol; }, 5000))
      violation("unsolicited-lost", "%d unsolicited messages sent, %d seen", sent_unsol, unsol.load());
    stop = true;
    srv.join();
    if (!have_violation() && unsol != sent_unsol)
      violation("response-as-unsolicited", "%d unsolicited messages sent, %d seen", sent_unsol, unsol.load());
    if (ids.count(0))
      violation("request-id-zero", "a request used the id reserved for broadcasts");
    cover("raw_rounds");
    client.reset();
  }
  syscall(SYS_close, ls);
  return 0;
}

// Many outstanding requests: a raw server keeps some of them while thousands of others come and go, then answers.
static int run_backlog()
{
  Rng r(seed() + 5);
  auto f = unix_factory();
  const pid_t fake = 5000000 + static_cast<pid_t>(getpid() % 100000) * 10 + 1;
  int ls = Raw::listen_as(fake);
  if (ls < 0)
    harness_error("cannot bind raw server");
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w("backlog", 200000);
    auto client = connect_pid(f, fake);
    if (!client)
      harness_error("cannot connect to raw server");
    Raw peer(static_cast<int>(syscall(SYS_accept4, ls, nullptr, nullptr, SOCK_CLOEXEC)));
    Reset reset{ { [&]() { client.reset(); } } };
    const bool passing = round % 2 == 0;  // others pass by; else all are kept until the end
    const std::size_t kept = passing ? 1 + r.below(8) : 1500 + r.below(2500), others = passing ? 66000 + r.below(4000) : 0;
    std::atomic<bool> stop{ false }, release{ false };
    std::thread srv([&]() {
      Rng q(seed() * 7 + static_cast<std::uint64_t>(round));
      std::vector<RawFrame> held;
      while (!stop)
      {
        RawFrame fr;
        int k = peer.recv_frame(fr, 5);
        if (k < 0)
          return;
        auto answer = [&](const RawFrame& x) {
          RawFrame a;
          a.id = x.id;
          a.name = x.name;
          a.data = reply_for(x.name, x.data);
          peer.send_frame(a);
        };
        if (k == 1)
        {
          if (fr.data.size() > 8 && fr.data[8] == 1)
            held.push_back(fr);
          else
            answer(fr);
        }
        if (release && k == 0)
          while (!held.empty())
          {
            std::swap(held[q.below(held.size())], held.back());
            answer(held.back());
            held.pop_back();
          }
      }
    });
    struct P
    {
      std::string n;
      Data d;
      Transport::PendingResponse fut;
    };
    std::vector<P> keep;
    auto nm = std::vector<std::string>{ "echo", "other" };
    auto send = [&](bool hold) {
      P p;
      p.n = r.pick(nm);
      p.d = r.bytes(9 + r.below(8));
      p.d[8] = hold ? 1 : 0;
      put64(p.d, 0, next_key(1000));
      p.fut = client->request(p.n, p.d);
      return p;
    };
    auto judge = [&](P& p, const char* what) {
      Data got;
      auto k = await(p.fut, got, 30000);
      if (k != Got::value)
        violation(k == Got::timeout ? "lost-response" : "failed-request", "%s of %zu kept and %zu other requests got %s", what, kept, others,
                  k == Got::timeout ? "nothing" : "an error");
      else if (got != reply_for(p.n, p.d))
        violation("wrong-response", "%s got the response of another request, %zu kept and %zu others", what, kept, others);
      cover("responses_checked");
      distinct("exchanges", fnv(p.d));
    };
    for (std::size_t i = 0; i < kept; i++)
      keep.push_back(send(true));
    std::deque<P> window;
    for (std::size_t i = 0; i < others && !have_violation(); i++)
    {
      window.push_back(send(false));
      if (window.size() > 60)
      {
        judge(window.front(), "one");
        window.pop_front();
      }
    }
    while (!window.empty() && !have_violation())
    {
      judge(window.front(), "one");
      window.pop_front();
    }
    for (auto& p : keep)
      if (!have_violation() && p.fut->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
        violation("invented-response", "a request was answered before its response was sent (%zu others were)", others);
    if (!have_violation() && !wait_until([&]() { return client->pendingRequests() == kept; }, 5000))
      violation("pending-count", "%zu requests are listed as pending, %zu are", client->pendingRequests(), kept);
    release = true;
    for (auto& p : keep)
      if (!have_violation())
        judge(p, "a kept one");
    // answered ones are not pending, although their futures are still there
    if (!have_violation() && !wait_until([&]() { return client->pendingRequests() == 0; }, 5000))
      violation("pending-count", "%zu requests are listed as pending after all were answered", client->pendingRequests());
    cover(passing ? "passed_by" : "all_kept");
    stop = true;
    srv.join();
  }
  syscall(SYS_close, ls);
  return 0;
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "mt";
  if (m == "mt")
    run_mt();
  else if (m == "mp")
    run_mp();
  else if (m == "mp_client")
    return run_mp_client(argc, argv);
  else if (m == "raw")
    run_raw(false);
  else if (m == "backlog")
    run_backlog();
  else if (m == "same")
  {
    auto f = unix_factory();
    run_same([&]() { return f->serve(); }, [&](const Transport::Ptr&) { return connect_pid(f, getpid()); });
  }
  else if (m == "early")
    run_raw(true);
  return finish();
}
