// C06: malformed or hostile requests never take down or mute a server.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/trace_configurator.h>
#include <nlohmann/json.hpp>
#include "tx.h"
using namespace vh;
using namespace tx;
using json = nlohmann::json;

static const std::vector<std::string> PROVIDED = { "introspect", "process_info", "scope_tracing", "trace_configurator" };

struct Weird
{
  int x;
};

static void add_endpoints(Transport& t)
{
  t.addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  auto info = std::make_shared<scalopus::EndpointProcessInfo>();
  info->setProcessName("the server");
  t.addEndpoint(info);
  t.addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
  t.addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
  t.addEndpoint(ep("echo", [](Transport&, const Data& in, Data& out) {
    out = reply_for("echo", in);
    return true;
  }));
  t.addEndpoint(ep("thrower", [](Transport&, const Data& in, Data& out) -> bool {
    switch (in.empty() ? 0 : in[0] % 6)
    {
      case 0:
        throw std::runtime_error("runtime");
      case 1:
        throw 42;
      case 2:
        throw Weird{ 3 };
      case 3:
        throw std::bad_alloc();
      case 4:
        out.assign(100, 'x');  // output prepared, then it fails
        throw std::out_of_range("late");
      default:
        throw static_cast<const char*>("text");
    }
  }));
}

// ---- hostile bodies
static json random_json(Rng& r, int depth)
{
  switch (r.below(depth > 0 ? 11 : 8))
  {
    case 0:
      return nullptr;
    case 1:
      return r.chance(50);
    case 2:
      return r.pick(std::vector<std::int64_t>{ 0, 1, -1, INT64_MIN, INT64_MAX, 4294967296ll, static_cast<std::int64_t>(r.next()) });
    case 3:
      return r.pick(std::vector<double>{ 0.0, -1.5, 1e308, 1e-300 });
    case 4:
      return r.pick(std::vector<std::string>{ "set", "get", "info", "", "p", "state", std::string(300, 'A'), "\xc3\xa9" });
    case 5:
      return json::array();
    case 6:
      return json::object();
    case 7:
      return json::array({ json::array({ static_cast<std::int64_t>(r.next() >> 1), r.chance(50) }) });
    case 8:
    {
      json a = json::array();
      for (std::size_t i = r.below(5); i > 0; i--)
        a.push_back(random_json(r, depth - 1));
      return a;
    }
    default:
    {
      json o = json::object();
      for (std::size_t i = r.below(5); i > 0; i--)
        o[r.pick(std::vector<std::string>{ "cmd", "state", "p", "sp", "t", "0", "1", "", "mapping", "x" })] = random_json(r, depth - 1);
      return o;
    }
  }
}
static json near_valid(Rng& r)
{
  json o = json::object();
  o["cmd"] = r.chance(70) ? json(r.pick(std::vector<std::string>{ "set", "get", "info", "SET", "" })) : random_json(r, 2);
  if (r.chance(80))
  {
    json s = json::object();
    for (auto k : { "p", "sp", "t" })
      if (r.chance(85))
        s[k] = r.chance(60) ? (std::string(k) == "t" ? json::array() : json(r.chance(50))) : random_json(r, 2);
    if (s.contains("t") && s["t"].is_array())
      for (std::size_t i = r.below(4); i > 0; i--)
        s["t"].push_back(r.chance(70) ? json::array({ static_cast<std::int64_t>(r.below(5)), r.chance(50) }) : random_json(r, 2));
    o["state"] = r.chance(85) ? s : random_json(r, 2);
  }
  if (r.chance(10))
    o.erase("cmd");
  return o;
}
static Bytes to_bson(const json& j)
{
  try
  {
    return json::to_bson(j);
  }
  catch (const std::exception&)
  {
    return {};
  }
}
static void mutate(Rng& r, Bytes& b)
{
  for (std::size_t n = 1 + r.below(4); n > 0; n--)
    switch (r.below(7))
    {
      case 0:
        if (!b.empty())
          b[r.below(b.size())] = static_cast<std::uint8_t>(r.next());
        break;
      case 1:
        b.resize(r.below(b.size() + 1));
        break;
      case 2:
      {
        auto x = r.bytes(1 + r.below(16));
        b.insert(b.begin() + static_cast<long>(r.below(b.size() + 1)), x.begin(), x.end());
        break;
      }
      case 3:
        if (b.size() >= 4)
        {
          std::uint32_t v = r.pick(std::vector<std::uint32_t>{ 0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x00ffffffu, 5 });
          std::memcpy(&b[r.below(b.size() - 3)], &v, 4);
        }
        break;
      case 4:
        if (!b.empty())
          b.erase(b.begin() + static_cast<long>(r.below(b.size())));
        break;
      case 5:
        if (!b.empty())
          b[r.below(b.size())] = static_cast<std::uint8_t>(r.below(0x14));  // bson type codes
        break;
      default:
        if (b.size() >= 4)
        {
          // repair the outer length, so the damage is found further inside
          std::uint32_t v = static_cast<std::uint32_t>(b.size());
          std::memcpy(&b[0], &v, 4);
        }
    }
}
static Bytes nested(std::size_t levels, bool close)
{
  // {"a": {"a": ...}} written outside in, with or without the terminators
  Bytes b;
  for (std::size_t i = 0; i < levels; i++)
  {
    Bytes x = { 0xff, 0xff, 0xff, 0x00, 0x03, 'a', 0x00 };
    b.insert(b.end(), x.begin(), x.end());
  }
  if (close)
  {
    Bytes e = { 5, 0, 0, 0, 0 };
    b.insert(b.end(), e.begin(), e.end());
    b.insert(b.end(), levels, 0);
  }
  return b;
}
static Bytes hostile_body(Rng& r)
{
  Bytes b;
  switch (r.below(8))
  {
    case 0:
      b = r.bytes(r.below(64));
      break;
    case 1:
      b = {};
      break;
    case 2:
      b = to_bson(json::object({ { "x", random_json(r, 4) } }));
      break;
    case 3:
      b = nested(1 + r.below(120), r.chance(50));
      break;
    case 4:
      b = { 'm' };
      if (r.chance(50))
        b = r.bytes(1);
      break;
    default:
      b = to_bson(near_valid(r));
  }
  if (r.chance(50))
    mutate(r, b);
  return b;
}

// ---- probes: well-formed requests with known answers. Returns what is wrong, or an empty string.
static std::string judge_answer(const std::string& name, const Bytes& req, const Bytes& ans)
{
  if (name == "echo")
    return ans == reply_for("echo", req) ? "" : "wrong echo";
  json j;
  try
  {
    j = json::from_bson(ans);
    if (name == "introspect")
    {
      auto v = j.at("endpoints").get<std::vector<std::string>>();
      std::set<std::string> got(v.begin(), v.end()), want(PROVIDED.begin(), PROVIDED.end());
      want.insert("echo");
      want.insert("thrower");
      return got == want && v.size() == want.size() ? "" : "wrong list of endpoints";
    }
    if (name == "process_info")
      return j.at("name") == "the server" && j.at("pid") == static_cast<int>(getpid()) ? "" : "wrong process info";
    if (name == "scope_tracing")
    {
      std::map<int, std::map<unsigned, std::string>> m;
      j.at("mapping").get_to(m);
      return m.size() == 1 && m.begin()->first == getpid() && m.begin()->second[77] == "seventy seven" ? "" : "wrong mapping";
    }
    j.at("state").at("p").get<bool>();
    return "";
  }
  catch (const std::exception& e)
  {
    return std::string("undecodable answer: ") + e.what();
  }
}
static Bytes probe_body(const std::string& name, Rng& r)
{
  if (name == "echo")
    return r.bytes(8 + r.below(200));
  if (name == "introspect")
    return {};
  if (name == "scope_tracing")
    return { 'm' };
  return json::to_bson(json::object({ { "cmd", name == "process_info" ? "info" : "get" } }));
}
static void probe_client(const Transport::Ptr& c, Rng& r, const char* when)
{
  auto names = PROVIDED;
  names.push_back("echo");
  auto n = r.pick(names);
  auto b = probe_body(n, r);
  Data got;
  auto k = await(c->request(n, b), got, 10000);
  if (k != Got::value)
  {
    violation("muted:" + n, "after %s a well-formed request to %s got %s", when, n.c_str(), k == Got::timeout ? "no answer" : "an error");
    return;
  }
  auto e = judge_answer(n, b, got);
  if (!e.empty())
    violation("wrong-answer:" + n, "after %s: %s", when, e.c_str());
  cover("probes_other_client");
}
static std::atomic<std::uint64_t> raw_id{ 1000 };
static void probe_raw(Raw& raw, Rng& r, const char* when)
{
  auto names = PROVIDED;
  names.push_back("echo");
  RawFrame f;
  f.name = r.pick(names);
  f.data = probe_body(f.name, r);
  f.id = ++raw_id;
  if (!raw.send_frame(f))
  {
    violation("dropped-client", "after %s the server had closed the connection of the sender", when);
    return;
  }
  for (;;)
  {
    RawFrame g;
    int k = raw.recv_frame(g, 10000);
    if (k != 1)
    {
      violation("muted-sender:" + f.name, "after %s a well-formed request on the same connection got %s", when,
                k == 0 ? "no answer" : "disconnected");
      return;
    }
    if (g.id != f.id)
      continue;  // answer to one of the hostile ones
    auto e = g.name != f.name ? std::string("answer under another name") : judge_answer(f.name, f.data, g.data);
    if (!e.empty())
      violation("wrong-answer:" + f.name, "on the same connection after %s: %s", when, e.c_str());
    cover("probes_same_client");
    return;
  }
}

static void run_unix(bool bodies)
{
  Rng r(seed());
  scalopus::StaticStringTracker::getInstance().insert(77, "seventy seven");
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w("hostile-unix", 90000);
    auto f = unix_factory();
    auto server = f->serve();
    if (!server)
      harness_error("cannot serve");
    add_endpoints(*server);
    auto good = connect_pid(f, getpid());
    if (!good)
      harness_error("cannot connect");
    if (bodies)
    {
      for (int c = 0; c < 12 && !have_violation(); c++)
      {
        Raw raw;
        if (!raw.connect(getpid()))
        {
          violation("refused", "the server no longer accepts connections");
          break;
        }
        for (int i = 0; i < 60 && !have_violation(); i++)
        {
          RawFrame h;
          h.id = raw_id++;
          switch (r.below(10))
          {
            case 0:
              h.name = std::string(reinterpret_cast<const char*>(r.bytes(12).data()), r.below(12));
              if (r.chance(30))
                h.name = r.pick(std::vector<std::string>{ "", "introspect ", "introspec", std::string("echo\0", 5), std::string(65535, 'n'),
                                                          "Echo", "unknown" });
              cover("unknown_names");
              break;
            case 1:
              h.name = "thrower";
              cover("throwing_endpoints");
              break;
            default:
              h.name = r.pick(PROVIDED);
          }
          if (r.chance(5))
            h.id = r.pick(std::vector<std::uint64_t>{ 0, UINT64_MAX, 1 });
          h.data = hostile_body(r);
          distinct("hostile_inputs", fnv(h.data.data(), h.data.size(), fnv(h.name)));
          if (i < 2 && c == 0)
            sample("body for " + h.name + ": " + hex(h.data, 24));
          cover("hostile_messages");
          if (!raw.send_frame(h))
          {
            violation("dropped-client", "a client that sent undecodable but well framed requests was disconnected");
            break;
          }
          if (r.chance(20))
            probe_client(good, r, "undecodable requests");
          if (r.chance(20))
            probe_raw(raw, r, "undecodable requests");
        }
        if (!have_violation())
          probe_raw(raw, r, "undecodable requests");
      }
    }
    else
    {
      for (int c = 0; c < 80 && !have_violation(); c++)
      {
        Raw raw;
        if (!raw.connect(getpid()))
        {
          violation("refused", "the server no longer accepts connections");
          break;
        }
        // a byte stream that is not a sequence of frames, or whose frames lie about their lengths; then the client leaves
        Bytes b;
        switch (r.below(4))
        {
          case 0:
            b = r.bytes(r.below(3000));
            break;
          case 1:
            for (int i = 0; i < 4; i++)
            {
              auto e = encode_frame({ r.next(), r.pick(PROVIDED), hostile_body(r) });
              b.insert(b.end(), e.begin(), e.end());
            }
            mutate(r, b);
            break;
          case 2:
          {
            b = encode_frame({ r.next(), r.pick(PROVIDED), hostile_body(r) });
            std::uint32_t len = r.pick(std::vector<std::uint32_t>{ 0xffffffffu, 0x80000000u, 0x7fffffffu, 100000u });
            std::size_t at = 10 + b[8] + 256u * b[9];
            if (at + 4 <= b.size())
              std::memcpy(&b[at], &len, 4);
            break;
          }
          default:
          {
            b = Bytes(10, 0);
            b[8] = b[9] = 0xff;
            auto x = r.bytes(r.below(70000));
            b.insert(b.end(), x.begin(), x.end());
          }
        }
        distinct("hostile_inputs", fnv(b));
        cover("garbage_streams");
        raw.send_bytes(b.data(), b.size());
        raw.close();
        if (r.chance(60))
          probe_client(good, r, "a garbage byte stream");
      }
    }
    probe_client(good, r, "everything hostile");
    // server state itself survived
    if (server->endpoints().size() != PROVIDED.size() + 2)
      violation("endpoints-changed", "the endpoints of the server changed");
  }
}

// hostile broadcasts at a client, and throwing unsolicited handlers
static void run_client_side()
{
  Rng r(seed());
  Watchdog w("hostile-client", 60000);
  scalopus::StaticStringTracker::getInstance().insert(77, "seventy seven");
  auto f = unix_factory();
  std::atomic<int> seen{ 0 };
  Transport::Ptr server, c1, c2;
  Reset reset{ { [&]() { c1.reset(); }, [&]() { c2.reset(); }, [&]() { server.reset(); } } };
  server = f->serve();
  add_endpoints(*server);
  c1 = connect_pid(f, getpid());
  c2 = connect_pid(f, getpid());
  c1->addEndpoint(ep("bc", nullptr, [](Transport&, const Data& in, Data&) -> bool {
    if (in.size() % 2)
      throw 1;
    throw std::runtime_error("client endpoint");
  }));
  c2->addEndpoint(ep("bc", nullptr, [&](Transport&, const Data&, Data&) {
    seen++;
    return false;
  }));
  // default implementations of the provided endpoints receive unsolicited data as well
  c2->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  c2->addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
  {
    // both are known to the server once they got an answer
    probe_client(c1, r, "connecting");
    probe_client(c2, r, "connecting");
  }
  const int n = 200 * scale();
  for (int i = 0; i < n && !have_violation(); i++)
  {
    server->broadcast("bc", r.bytes(r.below(40)));
    if (r.chance(20))
      server->broadcast(r.pick(PROVIDED), hostile_body(r));
    if (r.chance(10))
    {
      probe_client(c1, r, "throwing broadcast handlers");
      probe_client(c2, r, "broadcasts");
    }
    cover("hostile_messages");
    distinct("hostile_inputs", seed() * 7919 + static_cast<std::uint64_t>(i));
  }
  if (!have_violation() && !wait_until([&]() { return seen == n; }, 10000))
    violation("broadcast-lost", "%d of %d broadcasts arrived at a client while another client's endpoint threw", seen.load(), n);
}

static void run_loopback()
{
  Rng r(seed());
  scalopus::StaticStringTracker::getInstance().insert(77, "seventy seven");
  for (int round = 0; round < 2 * scale() && !have_violation(); round++)
  {
    Watchdog w("hostile-loopback", 60000);
    auto f = std::make_shared<scalopus::TransportLoopbackFactory>();
    auto server = f->serve();
    add_endpoints(*server);
    auto good = f->connect(server->getAddress());
    auto bad = f->connect(server->getAddress());
    std::vector<Transport::PendingResponse> keep;
    for (int i = 0; i < 500 && !have_violation(); i++)
    {
      auto name = r.chance(15) ? "thrower" : r.chance(10) ? "nope" : r.pick(PROVIDED);
      auto b = hostile_body(r);
      distinct("hostile_inputs", fnv(b.data(), b.size(), fnv(name)));
      cover("hostile_messages");
      auto p = bad->request(name, b);
      if (r.chance(50))
        keep.push_back(p);
      if (r.chance(4))
      {
        probe_client(good, r, "undecodable requests (loopback)");
        probe_client(bad, r, "undecodable requests (loopback)");
      }
    }
    cover("loopback_rounds");
  }
}

// ---- the listed findings: each server is a process of its own
static int role_server()
{
  signal(SIGPIPE, SIG_DFL);
  scalopus::StaticStringTracker::getInstance().insert(77, "seventy seven");
  auto f = unix_factory();
  auto server = f->serve();
  if (!server)
    return 3;
  add_endpoints(*server);
  server->addEndpoint(ep("big", [](Transport&, const Data&, Data& out) {
    out.assign(8 << 20, 7);
    return true;
  }));
  printf("ready\n");
  fflush(stdout);
  char c;
  while (read(0, &c, 1) == 1)
  {
  }
  return 0;
}
static bool echo_works(pid_t pid, long ms)
{
  Raw raw;
  if (!raw.connect(pid))
    return false;
  RawFrame f, g;
  f.id = 5;
  f.name = "echo";
  f.data = Bytes(30, 1);
  return raw.send_frame(f) && raw.recv_frame(g, ms) == 1 && g.data == reply_for("echo", f.data);
}
static void run_known()
{
  for (int k = 0; k < 3; k++)
  {
    auto c = spawn({ "server" });
    std::string l;
    if (!c.read_line(l, 15000) || !echo_works(c.pid, 15000))
      harness_error("cannot start the server process");
    Raw raw;
    if (!raw.connect(c.pid))
      harness_error("cannot connect");
    if (k == 0)
    {
      auto b = encode_frame({ 1, "echo", Bytes(100, 1) });
      raw.send_bytes(b.data(), b.size() / 2);
      sleep_ms(100);
      if (!echo_works(c.pid, 2500))
        violation("muted:stalled-half-frame", "while one client stalls in the middle of a frame, other clients get no answers");
    }
    else if (k == 1)
    {
      raw.send_frame({ 1, "big", {} });
      sleep_ms(200);
      if (!echo_works(c.pid, 2500))
        violation("muted:not-reading", "while one client does not read a large response, other clients get no answers");
    }
    else
    {
      raw.send_frame({ 1, "process_info", nested(400000, false) });
      raw.close();
      sleep_ms(500);
      if (!echo_works(c.pid, 5000))
        violation("crash:deep-bson", "a request body with 400000 nested documents ended the server process");
    }
    raw.close();
    cover("finding_scenarios");
    c.kill9();
    c.wait_exit(5000);
  }
}

int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "bodies";
  if (m == "server")
    return role_server();
  if (m == "bodies")
    run_unix(true);
  else if (m == "streams")
    run_unix(false);
  else if (m == "client")
    run_client_side();
  else if (m == "loopback")
    run_loopback();
  else
    run_known();
  return finish();
}
