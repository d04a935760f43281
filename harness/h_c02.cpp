// C02: framing and fragmentation of the unix transport.
#include <sys/time.h>
#include "tx.h"
using namespace vh;
using namespace tx;

static std::vector<std::size_t> interesting_sizes(bool big)
{
  std::vector<std::size_t> v = { 0,    1,    2,    3,     7,     8,     9,     15,    255,    256,    257,   1023,  4094,
                                 4095, 4096, 4097, 8191,  8192,  8193,  12288, 16383, 65535,  65536,  65537, 131072 };
  if (big)
  {
    v.push_back(1u << 20);
    v.push_back((1u << 20) + 4097);
    v.push_back(6u << 20);
  }
  return v;
}
static std::vector<std::string> interesting_names()
{
  std::string odd;
  for (int i = 0; i < 256; i++)
    odd += static_cast<char>(i);
  return { "a", "", std::string(255, 'x'), std::string(256, 'y'), odd, std::string(4096, 'z'), std::string(65535, 'w'),
           std::string("nul\0in name", 11) };
}
static void content(Rng& r, Data& d)
{
  switch (r.below(4))
  {
    case 0:
      std::fill(d.begin(), d.end(), 0);
      break;
    case 1:
      std::fill(d.begin(), d.end(), 0xff);
      break;
    default:
      d = r.bytes(d.size());
  }
}
static void inj(Rng& r, bool heavy)
{
  auto& i = inject();
  i.short_io = static_cast<unsigned>(heavy ? 30 + r.below(60) : r.below(30));
  i.eintr = static_cast<unsigned>(r.below(15));
  i.delay = static_cast<unsigned>(r.below(8));
  i.post_delay = 0;
  i.max_delay_us = 60;
  i.lock_delay = 0;
}

struct Seen
{
  std::mutex m;
  std::deque<std::pair<std::string, Data>> v;
  void add(const std::string& n, const Data& d)
  {
    std::lock_guard<std::mutex> l(m);
    v.emplace_back(n, d);
  }
  std::size_t size()
  {
    std::lock_guard<std::mutex> l(m);
    return v.size();
  }
  std::pair<std::string, Data> pop()
  {
    std::lock_guard<std::mutex> l(m);
    auto r = v.front();
    v.pop_front();
    return r;
  }
};

// real server and real client under fault injection
static void run_sizes(bool signals, bool huge = false)
{
  Rng r(seed());
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  Seen at_server, at_client;
  auto names = interesting_names();
  for (auto& n : names)
    server->addEndpoint(ep(n, [&, n](Transport&, const Data& in, Data& out) {
      at_server.add(n, in);
      out = in;
      std::reverse(out.begin(), out.end());
      return true;
    }));
  auto client = connect_pid(f, getpid());
  if (!client)
    harness_error("cannot connect");
  for (auto& n : names)
    client->addEndpoint(ep(n, nullptr, [&, n](Transport&, const Data& in, Data&) {
      at_client.add(n, in);
      return false;
    }));
  Reset reset{ { [&]() { client.reset(); }, [&]() { server.reset(); } } };
  auto sizes = interesting_sizes(true);
  std::vector<std::pair<std::string, std::size_t>> cases;
  for (auto s : sizes)
    cases.push_back({ r.pick(names), s });
  for (auto& n : names)
    cases.push_back({ n, r.below(300) });
  for (int i = 0; i < 25 * scale(); i++)
    cases.push_back({ r.pick(names), r.chance(20) ? r.below(400000) : r.below(9000) });
  if (huge)
  {
    cases.clear();
    for (std::size_t s : { (1ul << 24) - 1, 1ul << 24, (1ul << 24) + 1 + r.below(1000), (1ul << 25) + r.below(3ul << 24) })
      cases.push_back({ r.pick(names), s });
    cover("huge_messages", cases.size());
  }
  if (signals)
  {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = [](int) {};
    sigaction(SIGALRM, &sa, nullptr);  // no SA_RESTART
    struct itimerval it = { { 0, 700 }, { 0, 700 } };
    setitimer(ITIMER_REAL, &it, nullptr);
  }
  for (auto& c : cases)
  {
    if (have_violation())
      break;
    Watchdog w("sizes", 60000);
    Data d(c.second);
    content(r, d);
    if (!signals && !huge)
      inj(r, c.second < 70000 && c.first.size() < 5000);
    auto fut = client->request(c.first, d);
    Data got;
    auto k = await(fut, got, 20000);
    auto want = d;
    std::reverse(want.begin(), want.end());
    if (k != Got::value)
      violation(k == Got::timeout ? "request-lost" : "request-failed", "name %zu bytes, payload %zu bytes", c.first.size(), d.size());
    else if (got != want)
      violation("response-changed", "name %zu bytes, payload %zu bytes: response of %zu bytes differs", c.first.size(),
                d.size(), got.size());
    else if (at_server.size() != 1)
      violation("message-count", "server saw %zu messages for one request", at_server.size());
    else
    {
      auto s = at_server.pop();
      if (s.first != c.first || s.second != d)
        violation("request-changed", "request of %zu bytes arrived as %zu bytes", d.size(), s.second.size());
    }
    if (have_violation())
      break;
    cover("messages_checked", 2);
    // and as broadcast
    if (d.size() < 3000000 || huge)
    {
      server->broadcast(c.first, d);
      if (!wait_until([&]() { return at_client.size() >= 1; }, 10000))
        violation("broadcast-lost", "broadcast with name %zu bytes, payload %zu bytes did not arrive", c.first.size(), d.size());
      else
      {
        auto s = at_client.pop();
        if (s.first != c.first || s.second != d)
          violation("broadcast-changed", "broadcast of %zu bytes arrived as %zu bytes", d.size(), s.second.size());
        cover("messages_checked");
      }
    }
    distinct("shapes", fnv(&c.second, sizeof c.second, c.first.size()));
    sample(fmt("name %zu bytes, payload %zu bytes, request+response+broadcast intact", c.first.size(), d.size()));
  }
  if (signals)
  {
    struct itimerval it = { { 0, 0 }, { 0, 0 } };
    setitimer(ITIMER_REAL, &it, nullptr);
    cover("signal_runs");
  }
  inject_off();
}

// raw client against the real server: every split point of short frames, coalesced frames, wire layout of responses
static void run_rawclient()
{
  Rng r(seed());
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    harness_error("cannot serve");
  Seen seen;
  for (auto n : { std::string("ep"), std::string(""), std::string(700, 'q') })
    server->addEndpoint(ep(n, [&, n](Transport&, const Data& in, Data& out) {
      seen.add(n, in);
      out = reply_for(n, in, 6000);
      return true;
    }));
  std::vector<std::string> nm = { "ep", "", std::string(700, 'q') };
  Reset reset{ { [&]() { server.reset(); } } };
  Raw c;
  if (!c.connect(getpid()))
    harness_error("raw connect");
  auto send_chunked = [&](const Bytes& b, const std::vector<std::size_t>& cuts) {
    std::size_t o = 0;
    for (auto cut : cuts)
    {
      if (cut > o)
        c.send_bytes(&b[o], cut - o);
      o = std::max(o, cut);
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(400)));
    }
    c.send_bytes(b.data() + o, b.size() - o);
  };
  auto verify = [&](const RawFrame& q) {
    RawFrame a;
    int k = c.recv_frame(a, 8000 * slow());
    if (k != 1)
    {
      violation("no-answer", "no answer to a fragmented frame (%s)", k == 0 ? "silence" : "closed");
      return;
    }
    auto want = reply_for(q.name, q.data, 6000);
    if (a.id != q.id || a.name != q.name || a.data != want)
      violation("bad-frame", "answer id %" PRIu64 "/%" PRIu64 " name %zu/%zu data %s want %s", a.id, q.id, a.name.size(),
                q.name.size(), hex(a.data, 12).c_str(), hex(want, 12).c_str());
    if (seen.size() < 1)
      violation("not-handled", "endpoint not called");
    else
    {
      auto s = seen.pop();
      if (s.first != q.name || s.second != q.data)
        violation("request-changed", "endpoint got other bytes than were sent (%zu vs %zu)", s.second.size(), q.data.size());
    }
    cover("messages_checked", 2);
    distinct("shapes", fnv(&q.id, 8, fnv(q.data)));
  };
  Watchdog w("rawclient", 120000);
  std::uint64_t id = 1;
  // one split at every position
  RawFrame q;
  for (std::size_t len : { std::size_t(0), std::size_t(5), std::size_t(30) })
  {
    std::size_t total = 14 + 2 + len;
    for (std::size_t cut = 1; cut < total && !have_violation(); cut++)
    {
      q.id = r.chance(30) ? r.next() : id++;
      q.name = "ep";
      q.data = r.bytes(len);
      auto b = encode_frame(q);
      send_chunked(b, { cut });
      verify(q);
      cover("split_points");
    }
  }
  // random shapes, random cuts
  for (int i = 0; i < 60 * scale() && !have_violation(); i++)
  {
    q.id = r.chance(20) ? r.next() : id++;
    q.name = r.pick(nm);
    q.data = r.bytes(r.chance(20) ? r.below(100000) : r.below(5000));
    auto b = encode_frame(q);
    std::vector<std::size_t> cuts;
    for (std::size_t k = r.below(12); k > 0; k--)
      cuts.push_back(r.below(b.size()));
    if (r.chance(20))
      for (std::size_t k = 1; k < std::min<std::size_t>(b.size(), 20); k++)
        cuts.push_back(k);
    std::sort(cuts.begin(), cuts.end());
    send_chunked(b, cuts);
    verify(q);
  }
  // coalesced
  for (int i = 0; i < 20 * scale() && !have_violation(); i++)
  {
    std::vector<RawFrame> qs;
    Bytes all;
    for (std::size_t k = 1 + r.below(20); k > 0; k--)
    {
      RawFrame x;
      x.id = id++;
      x.name = r.pick(nm);
      x.data = r.bytes(r.below(300));
      auto b = encode_frame(x);
      all.insert(all.end(), b.begin(), b.end());
      qs.push_back(x);
    }
    std::vector<std::size_t> cuts;
    for (std::size_t k = r.below(4); k > 0; k--)
      cuts.push_back(r.below(all.size()));
    std::sort(cuts.begin(), cuts.end());
    send_chunked(all, cuts);
    for (auto& x : qs)
      if (!have_violation())
        verify(x);
    cover("coalesced_batches");
  }
}

// raw server against a real client
static void run_rawserver()
{
  Rng r(seed());
  auto f = unix_factory();
  const pid_t fake = 6000000 + static_cast<pid_t>(getpid() % 100000) * 10;
  int ls = Raw::listen_as(fake);
  if (ls < 0)
    harness_error("bind");
  auto client = connect_pid(f, fake);
  if (!client)
    harness_error("connect");
  Raw peer(static_cast<int>(syscall(SYS_accept4, ls, nullptr, nullptr, SOCK_CLOEXEC)));
  Seen seen;
  std::vector<std::string> nm = { "ep", "", std::string(700, 'q') };
  for (auto& n : nm)
    client->addEndpoint(ep(n, nullptr, [&, n](Transport&, const Data& in, Data&) {
      seen.add(n, in);
      return false;
    }));
  for (int i = 0; i < 150 * scale() && !have_violation(); i++)
  {
    Watchdog w("rawserver", 60000);
    std::string n = r.pick(nm);
    Data d = r.bytes(r.chance(10) ? r.below(60000) : r.below(600));
    auto fut = client->request(n, d);
    RawFrame q;
    if (peer.recv_frame(q, 10000 * slow()) != 1)
    {
      violation("request-lost", "the request frame did not arrive");
      break;
    }
    if (q.name != n || q.data != d || q.id == 0)
    {
      violation("bad-frame", "request frame id %" PRIu64 " name %zu/%zu data %zu/%zu", q.id, q.name.size(), n.size(),
                q.data.size(), d.size());
      break;
    }
    // answer, surrounded by broadcasts, fragmented
    Bytes all;
    std::vector<RawFrame> bc;
    auto add_bc = [&]() {
      for (std::size_t k = r.below(4); k > 0; k--)
      {
        RawFrame b;
        b.id = 0;
        b.name = r.pick(nm);
        b.data = r.bytes(r.below(5000));
        bc.push_back(b);
        auto e = encode_frame(b);
        all.insert(all.end(), e.begin(), e.end());
      }
    };
    add_bc();
    RawFrame a;
    a.id = q.id;
    a.name = q.name;
    a.data = r.bytes(r.chance(20) ? r.below(70000) : r.below(50));
    auto e = encode_frame(a);
    all.insert(all.end(), e.begin(), e.end());
    add_bc();
    std::size_t o = 0;
    for (std::size_t k = r.below(10); k > 0 && o < all.size(); k--)
    {
      std::size_t n2 = 1 + r.below(r.chance(50) ? 16 : all.size() - o);
      n2 = std::min(n2, all.size() - o);
      peer.send_bytes(&all[o], n2);
      o += n2;
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    }
    peer.send_bytes(all.data() + o, all.size() - o);
    Data got;
    auto k = await(fut, got, 10000);
    if (k != Got::value || got != a.data)
      violation("response-changed", "fragmented response of %zu bytes: %s", a.data.size(),
                k == Got::value ? "differs" : "did not arrive");
    if (!wait_until([&]() { return seen.size() >= bc.size(); }, 8000))
      violation("broadcast-lost", "%zu of %zu broadcasts arrived", seen.size(), bc.size());
    else
      for (auto& b : bc)
      {
        auto s = seen.pop();
        if (s.first != b.name || s.second != b.data)
          violation("broadcast-changed", "broadcast changed or reordered");
      }
    cover("messages_checked", 2 + bc.size());
    distinct("shapes", fnv(all));
  }
  client.reset();
  syscall(SYS_close, ls);
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "sizes";
  if (m == "sizes")
    run_sizes(false);
  else if (m == "huge")
    run_sizes(false, true);
  else if (m == "signals")
    run_sizes(true);
  else if (m == "rawclient")
    run_rawclient();
  else if (m == "rawserver")
    run_rawserver();
  return finish();
}
