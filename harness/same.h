// Requests that are equal byte for byte, many at the same moment: each must be handled, and each answered with its own answer.
#pragma once
#include "tx.h"
namespace tx
{
inline Data serial_answer(std::uint64_t n)
{
  vh::Rng r(n + 77);
  std::size_t size = 8 + r.below(40);
  if (r.chance(1))
    size = 8 + r.below(400000);
  Data d(size);
  std::uint8_t x = static_cast<std::uint8_t>(r.next());
  for (std::size_t i = 8; i < size; i++)
    d[i] = x = static_cast<std::uint8_t>(x * 5 + 1 + (i >> 12));
  put64(d, 0, n);
  return d;
}
inline void run_same(const std::function<Transport::Ptr()>& serve, const std::function<Transport::Ptr(const Transport::Ptr&)>& connect)
{
  using namespace vh;
  Rng r(seed() + 31);
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    Watchdog w("same", 120000);
    auto server = serve();
    if (!server)
      harness_error("cannot serve");
    std::mutex hm;
    std::map<Data, std::uint64_t> handled, sent;
    std::atomic<std::uint64_t> serial{ 0 };
    server->addEndpoint(ep("same", [&](Transport&, const Data& in, Data& out) {
      std::lock_guard<std::mutex> l(hm);
      handled[in]++;
      out = serial_answer(serial++);
      return true;
    }));
    std::vector<Transport::Ptr> clients;
    Reset reset{ { [&]() { clients.clear(); }, [&]() { server.reset(); } } };
    for (std::size_t i = 1 + r.below(3); i > 0; i--)
    {
      clients.push_back(connect(server));
      if (!clients.back())
        harness_error("cannot connect");
    }
    const std::size_t threads = 2 + r.below(7);
    const int steps = 250;
    static const std::size_t sizes[] = { 0, 1, 7, 8, 100, 70000 };
    std::atomic<std::uint64_t> arrived{ 0 };
    std::atomic<bool> stop{ false };
    std::mutex sm;
    std::vector<std::uint64_t> got_all;
    std::vector<std::thread> ts;
    const std::uint64_t plan = r.next();
    for (std::size_t t = 0; t < threads; t++)
      ts.emplace_back([&, t]() {
        Rng q(plan);  // the same in all threads
        std::vector<std::uint64_t> mine;
        for (int s = 0; s < steps && !stop; s++)
        {
          Data d(sizes[q.below(q.chance(5) ? 6 : 5)], static_cast<std::uint8_t>(q.below(2)));
          const std::size_t n = q.chance(70) ? 1 : 1 + q.below(6);
          auto& c = clients[q.below(clients.size())];
          std::vector<Transport::PendingResponse> f;
          // all threads at once
          arrived++;
          const std::uint64_t all = threads * static_cast<std::uint64_t>(s + 1);
          for (std::uint64_t spins = 0; arrived < all && !stop; spins++)
            if (spins > 2000)
              std::this_thread::yield();
          for (std::size_t i = 0; i < n; i++)
            f.push_back(c->request("same", d));
          {
            std::lock_guard<std::mutex> l(sm);
            sent[d] += n;
          }
          for (auto& x : f)
          {
            Data got;
            const auto k = await(x, got, 15000);
            if (k != Got::value)
            {
              violation(k == Got::timeout ? "lost-response" : "failed-request", "one of several equal requests of thread %zu got %s", t,
                        k == Got::timeout ? "no answer" : "an error");
              stop = true;
              break;
            }
            if (got != serial_answer(get64(got)) || got.size() < 8)
            {
              violation("wrong-response", "an equal request got %zu bytes that are no answer: %s", got.size(), hex(got).c_str());
              stop = true;
              break;
            }
            mine.push_back(get64(got));
            cover("equal_requests");
          }
        }
        stop = stop || have_violation();
        std::lock_guard<std::mutex> l(sm);
        got_all.insert(got_all.end(), mine.begin(), mine.end());
      });
    for (auto& t : ts)
      t.join();
    if (have_violation())
      return;
    std::sort(got_all.begin(), got_all.end());
    for (std::size_t i = 0; i < got_all.size(); i++)
      if (got_all[i] != i)
      {
        violation("swapped-response", "the answers of %zu equal requests are not those to each of them: answer %zu is %s", got_all.size(), i,
                  got_all[i] < i ? "there twice" : "missing");
        return;
      }
    std::lock_guard<std::mutex> l(hm);
    for (auto& x : sent)
      if (handled[x.first] != x.second)
        violation("handled-count", "of %llu equal requests of %zu bytes %llu were handled", static_cast<unsigned long long>(x.second), x.first.size(),
                  static_cast<unsigned long long>(handled[x.first]));
    distinct("equal_rounds", fnv(&plan, sizeof plan));
  }
}
}  // namespace tx
