// C03: broadcasts, both transports.
#include "tx.h"
using namespace vh;
using namespace tx;

struct Rec
{
  std::mutex m;
  std::vector<Data> seen[2];
};
static Data payload(int producer, std::uint32_t seq, std::uint64_t round)
{
  Rng r(round * 1000003 + static_cast<std::uint64_t>(producer) * 7919 + seq);
  Data d(16 + (r.chance(5) ? r.below(30000) : r.below(80)));
  for (auto& b : d)
    b = static_cast<std::uint8_t>(r.next());
  std::uint64_t a = (static_cast<std::uint64_t>(producer) << 32) | seq;
  put64(d, 0, a);
  put64(d, 8, round);
  return d;
}

static void run(bool loopback)
{
  Rng r(seed());
  for (int round = 0; round < 4 * scale() && !have_violation(); round++)
  {
    Watchdog w("broadcast", 90000);
    scalopus::TransportFactory::Ptr f;
    if (loopback)
      f = std::make_shared<scalopus::TransportLoopbackFactory>();
    else
      f = unix_factory();
    auto server = f->serve();
    if (!server)
      harness_error("cannot serve");
    std::atomic<int> replies{ 0 };
    server->addEndpoint(ep("ping", [](Transport&, const Data& in, Data& out) {
      out = in;
      return true;
    }));
    // "b0"/"b1" also exist at the server: replies of clients to broadcasts end there
    std::mutex rm;
    std::map<std::uint64_t, int> reply_count;
    server->addEndpoint(ep("b1", [&](Transport&, const Data& in, Data&) {
      std::lock_guard<std::mutex> l(rm);
      reply_count[get64(in)]++;
      replies++;
      return false;
    }));
    auto join = [&]() -> Transport::Ptr {
      Transport::Ptr c;
      if (loopback)
      {
        auto ds = f->discover();
        c = ds.empty() ? nullptr : f->connect(ds.front());
      }
      else
        c = connect_pid(f, getpid());
      if (!c)
        harness_error("cannot connect");
      return c;
    };
    auto ping = [&](const Transport::Ptr& c) {
      Data got;
      Data q = { 1, 2, 3 };
      auto k = await(c->request("ping", q), got, 15000);
      if (k != Got::value)
        violation("ping-lost", "a request during broadcasts got %s", k == Got::timeout ? "no answer" : "an error");
      else if (got != q)
        violation("broadcast-as-response", "a request got %s", hex(got).c_str());
      cover("pings");
    };
    // some that joined first and stop listening before the broadcasts: gone, or still there but no longer reading
    const bool leavers = r.chance(60);
    std::vector<Transport::Ptr> left;
    std::vector<std::unique_ptr<Raw>> deaf;
    Reset deaf_reset{ { [&]() { left.clear(); }, [&]() { deaf.clear(); } } };
    if (leavers)
      for (int i = 0; i < 3; i++)
      {
        if (loopback || r.chance(50))
        {
          left.push_back(join());
          left.back()->addEndpoint(ep("b0", nullptr, [](Transport&, const Data&, Data&) { return false; }));
          ping(left.back());
        }
        else
        {
          deaf.push_back(std::make_unique<Raw>());
          if (!deaf.back()->connect(getpid()))
            harness_error("cannot connect");
          RawFrame q;
          q.id = 3;
          q.name = "ping";
          deaf.back()->send_frame(q);
          RawFrame a;
          if (deaf.back()->recv_frame(a, 15000 * slow()) != 1)
            violation("ping-lost", "a raw request before broadcasts got no answer");
          ::shutdown(deaf.back()->fd, SHUT_RD);
          cover("deaf_clients");
        }
      }
    const int nc = 2 + static_cast<int>(r.below(3));
    std::vector<Transport::Ptr> clients;
    std::vector<std::shared_ptr<Rec>> recs;
    std::vector<Transport::PendingResponse> unanswered;
    const bool replying = r.chance(50);
    Transport::Ptr plain;
    Reset reset{ { [&]() { clients.clear(); }, [&]() { plain.reset(); }, [&]() { server.reset(); } } };
    for (int i = 0; i < nc; i++)
    {
      auto c = join();
      auto rec = std::make_shared<Rec>();
      for (int e = 0; e < 2; e++)
        c->addEndpoint(ep(e ? "b1" : "b0", nullptr, [rec, e, replying, i](Transport&, const Data& in, Data& out) {
          {
            std::lock_guard<std::mutex> l(rec->m);
            rec->seen[e].push_back(in);
          }
          const std::uint64_t id = get64(in);
          if (e == 1 && replying && i == 0 && (id >> 32) == 0 && (id & 0xffffffff) < 10)  // few, see DESIGN.md
          {
            out.assign(in.begin(), in.begin() + 16);
            return true;
          }
          return false;
        }));
      ping(c);
      // never answered; a broadcast to the same name is not their response
      for (int q = 0; q < 12; q++)
        unanswered.push_back(c->request("b0", {}));
      clients.push_back(c);
      recs.push_back(rec);
    }
    plain = join();  // has no endpoints
    ping(plain);
    if (round % 2)
    {
      auto& i = inject();
      i.short_io = static_cast<unsigned>(r.below(25));
      i.eintr = static_cast<unsigned>(r.below(6));
      i.delay = static_cast<unsigned>(r.below(10));
      i.max_delay_us = 150;
      i.lock_delay = static_cast<unsigned>(r.below(15));
      i.lock_delay_us = 300;
    }
    cover("left_clients", left.size());
    left.clear();
    const bool flood = !replying && r.chance(60);  // many at once
    const int producers = 1 + static_cast<int>(r.below(3));
    const std::uint32_t per = flood ? 1500 : 60;
    const bool churning = !leavers || r.chance(30);
    if (flood)
    {
      cover("floods");
      inject_off();
    }
    std::atomic<bool> churn_stop{ false };
    std::thread churn([&]() {
      Rng q(seed() * 3 + static_cast<std::uint64_t>(round));
      while (!churn_stop && churning)
      {
        auto c = join();
        if (q.chance(50))
          c->addEndpoint(ep("b0", nullptr, [](Transport&, const Data&, Data&) { return false; }));
        if (q.chance(50))
          ping(c);
        c.reset();
        cover("churned_clients");
        std::this_thread::sleep_for(std::chrono::milliseconds(loopback ? 2 : q.below(5)));
      }
    });
    std::atomic<bool> ping_stop{ false };
    std::thread pinger([&]() {
      while (!ping_stop && !have_violation())
      {
        ping(clients[0]);
        ping(plain);
      }
    });
    std::vector<std::thread> ps;
    std::vector<Data> order;  // only meaningful for one producer
    for (int p = 0; p < producers; p++)
      ps.emplace_back([&, p]() {
        Rng q(seed() * 11 + static_cast<std::uint64_t>(round * 10 + p));
        for (std::uint32_t s = 0; s < per; s++)
        {
          // both names carry the same sequence so the order within a name is comparable
          server->broadcast("b0", payload(p, s, static_cast<std::uint64_t>(round)));
          server->broadcast("b1", payload(p, s, static_cast<std::uint64_t>(round)));
          if (q.chance(5))
            server->broadcast("nobody", q.bytes(20));
          if (!flood && q.chance(10))
            std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
        }
      });
    for (auto& t : ps)
      t.join();
    const std::size_t total = static_cast<std::size_t>(producers) * per;
    for (int i = 0; i < nc; i++)
      wait_until(
          [&]() {
            std::lock_guard<std::mutex> l(recs[static_cast<std::size_t>(i)]->m);
            return recs[static_cast<std::size_t>(i)]->seen[0].size() >= total &&
                   recs[static_cast<std::size_t>(i)]->seen[1].size() >= total;
          },
          20000);
    churn_stop = true;
    churn.join();
    ping_stop = true;
    pinger.join();
    inject_off();
    if (replying)
      wait_until([&]() { return replies >= 10; }, 6000);
    sleep_ms(30);  // give duplicates a chance to show
    std::vector<std::uint64_t> first_order;
    for (int i = 0; i < nc; i++)
      for (int e = 0; e < 2; e++)
      {
        std::lock_guard<std::mutex> l(recs[static_cast<std::size_t>(i)]->m);
        auto& seen = recs[static_cast<std::size_t>(i)]->seen[e];
        std::map<std::uint64_t, int> n;
        std::map<std::uint64_t, std::uint32_t> next;
        std::vector<std::uint64_t> ord;
        for (auto& d : seen)
        {
          std::uint64_t id = get64(d);
          int p = static_cast<int>(id >> 32);
          std::uint32_t s = static_cast<std::uint32_t>(id);
          if (p >= producers || s >= per || d != payload(p, s, static_cast<std::uint64_t>(round)))
          {
            violation("broadcast-changed", "client %d endpoint b%d got a message nobody broadcast: %s", i, e, hex(d).c_str());
            break;
          }
          if (++n[id] > 1)
          {
            violation("broadcast-duplicated", "client %d endpoint b%d got broadcast %d/%u twice", i, e, p, s);
            break;
          }
          if (s < next[static_cast<std::uint64_t>(p)])
          {
            violation("broadcast-order", "client %d endpoint b%d got broadcast %u of thread %d after %u", i, e, s, p,
                      next[static_cast<std::uint64_t>(p)] - 1);
            break;
          }
          next[static_cast<std::uint64_t>(p)] = s + 1;
          ord.push_back(id);
          cover("deliveries_checked");
        }
        if (n.size() != total && !have_violation())
          violation("broadcast-lost", "client %d endpoint b%d got %zu of %zu broadcasts", i, e, n.size(), total);
        if (!have_violation())
        {
          if (i == 0 && e == 0)
            first_order = ord;
          else if (e == 0 && ord != first_order)
            violation("broadcast-order-differs", "clients saw the broadcasts in different orders");
          distinct("delivery_orders", fnv(ord.data(), ord.size() * 8, static_cast<std::uint64_t>(round * 16 + i * 2 + e) + seed() * 1000));
        }
      }
    for (auto& u : unanswered)
      if (u->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
      {
        Data got;
        if (!loopback || await(u, got, 10) == Got::value)
          violation("broadcast-as-response", "a request nobody answered completed");
      }
    cover("unanswered_requests", unanswered.size());
    if (replying && !have_violation())
    {
      std::lock_guard<std::mutex> l(rm);
      cover("replies_checked", reply_count.size());
      if (reply_count.size() != 10)
        violation("reply-lost", "%zu of 10 replies to broadcasts reached the server", reply_count.size());
      for (auto& x : reply_count)
        if (x.second != 1)
          violation("reply-duplicated", "reply handled %d times", x.second);
    }
    sample(fmt("%d producers x %u broadcasts x 2 names to %d clients, all once and in order", producers, per, nc));
    cover("rounds");
    // the order in which objects go away must not matter
    if (r.chance(50))
      server.reset();
    clients.clear();
    plain.reset();
  }
}

// many clients, and broadcasts that are equal to each other or empty; endpoints that fail; clients without the endpoint
static void run_list(bool loopback)
{
  Rng r(seed() + 5);
  for (int round = 0; round < 5 * scale() && !have_violation(); round++)
  {
    Watchdog w("broadcast-list", 90000);
    scalopus::TransportFactory::Ptr f;
    if (loopback)
      f = std::make_shared<scalopus::TransportLoopbackFactory>();
    else
      f = unix_factory();
    auto server = f->serve();
    if (!server)
      harness_error("cannot serve");
    server->addEndpoint(ep("ping", [](Transport&, const Data& in, Data& out) {
      out = in;
      return true;
    }));
    const std::size_t n_names = 1 + r.below(3);
    std::vector<std::string> names = { "a", "", std::string(200, 'b') };
    names.resize(n_names);
    struct Client
    {
      Transport::Ptr t;
      std::mutex m;
      std::map<std::string, std::vector<Data>> got;
      int fails = 0;  // 1 std::exception, 2 something else
      bool has = true;
    };
    const std::size_t nc = r.chance(30) ? 1 + r.below(3) : 4 + r.below(14);
    std::vector<std::unique_ptr<Client>> cs;
    Reset reset{ { [&]() {
                    for (auto& c : cs)
                      c->t.reset();
                  },
                   [&]() { server.reset(); } } };
    auto ping = [&](Client& c) {
      if (have_violation())
        return;
      Data q = { 9 }, got;
      auto k = await(c.t->request("ping", q), got, 15000);
      if (k != Got::value || got != q)
        violation("ping-lost", "a request around broadcasts got %s", k == Got::timeout ? "no answer" : k == Got::error ? "an error" : "other bytes");
      cover("pings");
    };
    const bool failing = r.chance(60);
    for (std::size_t i = 0; i < nc; i++)
    {
      cs.push_back(std::make_unique<Client>());
      auto& c = *cs.back();
      if (loopback)
        c.t = f->connect(server->getAddress());
      else
        c.t = connect_pid(f, getpid());
      if (!c.t)
        harness_error("cannot connect");
      c.has = !r.chance(25);
      c.fails = failing && r.chance(40) ? 1 + static_cast<int>(r.below(2)) : 0;
      if (c.has)
        for (auto& n : names)
          c.t->addEndpoint(ep(n, nullptr, [&c, n](Transport&, const Data& in, Data&) {
            std::size_t k;
            {
              std::lock_guard<std::mutex> l(c.m);
              c.got[n].push_back(in);
              k = c.got[n].size();
            }
            if (c.fails && k % 3 == 1)
            {
              cover("throwing_receivers");
              if (c.fails == 1)
                throw std::runtime_error("receiver failure");
              throw static_cast<int>(k);
            }
            return false;
          }));
      else
        cover("clients_without_endpoint");
      ping(c);
    }
    if (nc > 8)
      cover("many_clients");
    if (round % 2)
    {
      auto& i = inject();
      i.short_io = static_cast<unsigned>(r.below(15));
      i.delay = static_cast<unsigned>(r.below(10));
      i.max_delay_us = 100;
      i.lock_delay = static_cast<unsigned>(r.below(10));
      i.lock_delay_us = 200;
    }
    // one thread for each name: the list of a name is known
    std::map<std::string, std::vector<Data>> sent;
    for (auto& n : names)
      sent[n];
    std::vector<std::thread> ps;
    const int style = static_cast<int>(r.below(3));  // in bursts, one by one, slowly
    for (auto& n : names)
      ps.emplace_back([&, n]() {
        Rng q(seed() * 13 + static_cast<std::uint64_t>(round) * 7 + n.size());
        std::vector<Data> alphabet = { {}, { 0 }, { 1 }, { 0, 0 }, Data(17, 4), Data(q.below(200000), 5) };
        Data last;
        const std::size_t count = 40 + q.below(60);
        for (std::size_t i = 0; i < count; i++)
        {
          if (!q.chance(45))
            last = alphabet[q.below(q.chance(10) ? 6 : 5)];
          server->broadcast(n, last);
          sent.at(n).push_back(last);
          if (style == 2 || (style == 1 && q.chance(20)))
            std::this_thread::sleep_for(std::chrono::microseconds(q.below(2000)));
        }
      });
    for (auto& t : ps)
      t.join();
    bool late = false;
    for (auto& c : cs)
      if (c->has)
        late = !wait_until(
                   [&]() {
                     std::lock_guard<std::mutex> l(c->m);
                     for (auto& n : names)
                       if (c->got[n].size() < sent[n].size())
                         return false;
                     return true;
                   },
                   late ? 50 : 15000) ||
               late;
    inject_off();
    for (auto& c : cs)
      ping(*c);  // still there, and anything sent twice has arrived
    sleep_ms(10);
    std::size_t k = 0;
    for (auto& c : cs)
    {
      k++;
      if (!c->has)
        continue;
      std::lock_guard<std::mutex> l(c->m);
      for (auto& n : names)
      {
        auto &g = c->got[n], &s = sent[n];
        std::size_t i = 0;
        while (i < g.size() && i < s.size() && g[i] == s[i])
          i++;
        cover("deliveries_checked", i);
        if (i < g.size() || i < s.size())
          violation(g.size() < s.size() ? "broadcast-lost" : "broadcast-sequence",
                    "client %zu of %zu%s got %zu of %zu broadcasts of name '%s', the first that differs is number %zu (%zu bytes)", k, nc,
                    c->fails ? " whose endpoint throws" : "", g.size(), s.size(), n.substr(0, 8).c_str(), i,
                    i < s.size() ? s[i].size() : static_cast<std::size_t>(0));
        for (auto& d : s)
          if (d.empty())
            cover("empty_broadcasts");
      }
    }
    cover("list_rounds");
    distinct("delivery_orders", seed() * 1000 + static_cast<std::uint64_t>(round) + 77000000);
    if (r.chance(50))
      server.reset();
    cs.clear();
  }
}
int main(int argc, char** argv)
{
  const std::string m = argc > 1 ? argv[1] : "unix";
  if (m == "list" || m == "looplist")
    run_list(m == "looplist");
  else
    run(m == "loopback");
  return finish();
}
