// C21, C22, C23: devtools sessions, viewer connections and the recorder, with the web server replaced by a stand-in.
#include <cmath>
#include <fstream>
#include <sstream>
#include "vh.h"
#include <nlohmann/json.hpp>
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_catapult/catapult_server.h>
#include <scalopus_interface/trace_event_provider.h>
#include <seasocks/Server.h>
using namespace vh;
using nlohmann::json;

static std::string shown(std::string s, std::size_t n = 160)
{
  for (auto& c : s)
    if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126)
      c = '?';
  return s.size() > n ? s.substr(0, n) + "..." : s;
}
static std::string text(const json& j)
{
  return shown(j.dump(-1, ' ', true, json::error_handler_t::replace));
}
// ---- sources that remember what was done with them and what they handed out
struct Facts
{
  std::uint64_t id;
  std::size_t provider;
  std::mutex mutex;
  std::string calls;                    // S start, P stop, F finish
  std::vector<std::size_t> handed;      // events per finish
  std::atomic<std::uint64_t> work{ 0 }, any{ 0 };
  std::atomic<bool> gone{ false };
  std::map<std::pair<std::size_t, std::size_t>, json> events;  // by finish and index; what valid JSON should hold
};
using FactsPtr = std::shared_ptr<Facts>;
static std::mutex all_mutex;
static std::map<std::uint64_t, FactsPtr> all_sources;
static std::atomic<std::uint64_t> alive{ 0 };
static FactsPtr facts_of(std::uint64_t id)
{
  std::lock_guard<std::mutex> l(all_mutex);
  auto it = all_sources.find(id);
  return it == all_sources.end() ? nullptr : it->second;
}
struct Style
{
  bool big{ false };      // thousands of events
  bool hostile{ true };   // contents that cannot be serialised
  bool slow{ false };
};
static std::string some_text(Rng& r, bool hostile, bool& bad)
{
  switch (r.below(hostile ? 8 : 6))
  {
    case 0:
      return "";
    case 1:
      return "plain name";
    case 2:
      return std::string("quote \" backslash \\ / \n\r\t\b\f and \x01 ") + std::string(1, '\0') + "end";
    case 3:
      return "\xc3\xa9\xe2\x82\xac\xf0\x9f\x8e\x89";
    case 4:
      return "]}}, { \"method\": \"Tracing.tracingComplete\" }";
    case 5:
      return std::string(r.below(3000), 'x');
    case 6:
      bad = true;
      return "\xff\xfe";
    default:
      bad = true;
      return std::string("cut \xe2\x82");
  }
}
class Source : public scalopus::TraceEventSource
{
  FactsPtr f_;
  Rng r_;
  Style style_;
  std::atomic<int> inside_{ 0 };
  int plain_{ 0 };
  struct In
  {
    Source* s;
    explicit In(Source* x) : s(x)
    {
      if (s->inside_++ != 0)
        violation("overlap", "a source is used by two threads at once");
      s->plain_++;  // the race detector watches this one
      s->f_->any++;
    }
    ~In()
    {
      s->inside_--;
    }
  };

public:
  Source(FactsPtr f, std::uint64_t sd, Style st) : f_(std::move(f)), r_(sd), style_(st)
  {
    alive++;
  }
  ~Source()
  {
    f_->gone = true;
    alive--;
  }
  void startInterval() override
  {
    In in(this);
    std::lock_guard<std::mutex> l(f_->mutex);
    f_->calls += 'S';
  }
  void stopInterval() override
  {
    In in(this);
    std::lock_guard<std::mutex> l(f_->mutex);
    f_->calls += 'P';
  }
  void work() override
  {
    In in(this);
    f_->work++;
    if (style_.slow && r_.chance(5))
      sleep_ms(static_cast<long>(r_.below(10)));
  }
  std::vector<json> finishInterval() override
  {
    In in(this);
    std::size_t n;
    static const std::size_t edges[] = { 0, 1, 2, 998, 999, 1000, 1001, 1999, 2000, 2001, 3000 };
    if (style_.big && r_.chance(60))
      n = edges[r_.below(11)];
    else if (style_.big && r_.chance(8))
    {
      n = 10000 + r_.below(5000);
      cover("huge_recordings");
    }
    else
      n = r_.below(7);
    if (style_.slow)
      sleep_ms(static_cast<long>(r_.below(30)));
    std::vector<json> v;
    std::lock_guard<std::mutex> l(f_->mutex);
    const std::size_t fin = f_->handed.size();
    for (std::size_t i = 0; i < n; i++)
    {
      bool bad = false;
      json j = { { "src", f_->id }, { "fin", fin }, { "idx", i }, { "ph", "i" } };
      if (n < 100 || r_.chance(2))
      {
        j["name"] = some_text(r_, style_.hostile, bad);
        if (r_.chance(30))
          j["args"] = { { "a", json::array({ 1, nullptr, true, -1.5, INT64_MIN, UINT64_MAX }) }, { "b", { { "c", json::object() } } } };
        if (r_.chance(10))
          j["ts"] = r_.chance(50) ? std::nan("") : 1e300 * 1e10;
        if (r_.chance(20))
          j[some_text(r_, style_.hostile, bad)] = 1;
      }
      if (style_.big && r_.chance(1))
        j["fat"] = std::string(r_.below(40000), 'f');
      if (bad)
        f_->events[{ fin, i }] = nullptr;
      else
        f_->events[{ fin, i }] = json::parse(j.dump());
      v.push_back(std::move(j));
    }
    f_->handed.push_back(n);
    f_->calls += 'F';
    cover("handed_out", n);
    return v;
  }
};
static std::atomic<std::uint64_t> next_source{ 1 };
class Provider : public scalopus::TraceEventProvider
{
public:
  std::size_t number;
  std::uint64_t sd;
  Style style;
  std::atomic<std::size_t> made{ 0 };
  std::mutex mutex;
  std::vector<FactsPtr> mine;
  Provider(std::size_t n, std::uint64_t s, Style st) : number(n), sd(s), style(st)
  {
  }
  scalopus::TraceEventSource::Ptr makeSource() override
  {
    auto f = std::make_shared<Facts>();
    f->id = next_source++;
    f->provider = number;
    {
      std::lock_guard<std::mutex> l(all_mutex);
      all_sources[f->id] = f;
    }
    {
      std::lock_guard<std::mutex> l(mutex);
      mine.push_back(f);
    }
    made++;
    return std::make_shared<Source>(f, sd * 1000003 + f->id, style);
  }
};
// A list of events that was handed to somebody: complete runs of what sources returned from one finish each, in order of
// providers. Events that cannot be represented may be missing. Returns the (source, finish) pairs, false on error.
static bool runs_of(const std::vector<json>& events, std::vector<std::pair<FactsPtr, std::size_t>>& out)
{
  std::size_t at = 0;
  FactsPtr last;
  while (at < events.size())
  {
    const json& e = events[at];
    if (!e.is_object() || !e.count("src") || !e.count("fin") || !e.count("idx"))
    {
      violation("event", "an event appeared that no source returned: %s", text(e).c_str());
      return false;
    }
    auto f = facts_of(e["src"].get<std::uint64_t>());
    const std::size_t fin = e["fin"].get<std::size_t>();
    if (!f)
    {
      violation("event", "an event of an unknown source appeared: %s", text(e).c_str());
      return false;
    }
    std::lock_guard<std::mutex> l(f->mutex);
    if (fin >= f->handed.size() || (last && last->provider >= f->provider))
    {
      violation("event", "an event appeared where it does not belong: %s", text(e).c_str());
      return false;
    }
    for (std::size_t i = 0; i < f->handed[fin]; i++)
    {
      const json& want = f->events[{ fin, i }];
      const bool there = at < events.size() && events[at].is_object() && events[at].value("src", json()) == json(f->id) &&
                         events[at].value("fin", json()) == json(fin) && events[at].value("idx", json()) == json(i);
      if (want.is_null())
      {
        cover("unrepresentable_events");
        at += there ? 1 : 0;
        continue;
      }
      if (!there || events[at] != want)
      {
        violation("event", "event %zu of %zu is missing or different: %s; expected %s", i, f->handed[fin],
                  at < events.size() ? text(events[at]).c_str() : "nothing", text(want).c_str());
        return false;
      }
      cover("events_checked");
      at++;
    }
    out.push_back({ f, fin });
    last = f;
  }
  return true;
}
// ---- the viewer's side of a connection
struct Command
{
  char kind;  // C categories, S start, E end
  json id;
  bool has_id;
};
static json some_id(Rng& r, std::uint64_t serial)
{
  // distinct between connections and commands
  switch (r.below(6))
  {
    case 0:
      return "id " + std::to_string(serial) + " \"\\\n\xc3\xa9";
    case 1:
      return -static_cast<std::int64_t>(serial);
    case 2:
      return static_cast<std::uint64_t>(serial) + (1ull << 63);
    case 3:
      return json::array({ serial, nullptr });
    case 4:
      return static_cast<double>(serial) + 0.5;
    default:
      return serial;
  }
}
static std::atomic<std::uint64_t> serial{ 1 };
static std::string junk(Rng& r)
{
  switch (r.below(20))
  {
    case 0:
      return "";
    case 1:
      return "{";
    case 2:
      return "null";
    case 3:
      return "[]";
    case 4:
      return "17";
    case 5:
      return "\"Tracing.start\"";
    case 6:
      return "{\"method\":5,\"id\":1}";
    case 7:
      return "{\"id\":3}";
    case 8:
      return "{\"method\":[\"Tracing.end\"],\"id\":1}";
    case 9:
      return "{\"method\":{\"Tracing.end\":1},\"id\":1}";
    case 10:
      return "{\"method\":\"Tracing.ended\",\"id\":1}";
    case 11:
      return "{\"method\":\"tracing.start\",\"id\":1}";
    case 12:
      return std::string(2000, '[');
    case 13:
      return std::string(500, '[') + std::string(500, ']');
    case 14:
      return "{\"method\":\"Tracing.end\",\"id\":1e999}";
    case 15:
      return "{\"method\":\"Tracing.end\",\"id\":\"\\ud800\"}";
    case 16:
      return std::string("{\"method\":\"Tracing.end\",\"id\":\"\xff\xfe\"}");
    case 17:
      return "{\"method\":\"Tracing.end\",\"id\":1} trailing";
    case 18:
      return "[{\"method\":\"Tracing.end\",\"id\":1}]";
    default:
    {
      auto b = r.bytes(1 + r.below(60));
      b.erase(std::remove(b.begin(), b.end(), 0), b.end());
      std::string s(b.begin(), b.end());
      return "\x01" + s;  // never valid JSON
    }
  }
}
struct Viewer
{
  seasocks::Server* server;
  seasocks::FarPtr far;
  Rng r;
  std::vector<Command> sent;
  std::map<std::size_t, FactsPtr> sources;  // by provider, as far as known
  std::map<std::uint64_t, std::set<std::size_t>> seen;
  Viewer(seasocks::Server* s, std::uint64_t sd) : server(s), r(sd)
  {
    far = server->connect(r.chance(50) ? "/devtools/page/bar" : "/devtools/browser");
  }
  void command(char kind)
  {
    Command c{ kind, some_id(r, serial++), !r.chance(3) };
    json j = { { "method", kind == 'C' ? "Tracing.getCategories" : kind == 'S' ? "Tracing.start" : "Tracing.end" } };
    if (c.has_id)
      j["id"] = c.id;
    if (r.chance(30))
      j["params"] = { { "categories", "x" }, { "bufferUsageReportingInterval", 200 } };
    sent.push_back(c);
    server->text(far, r.chance(20) ? j.dump(2) : j.dump());
    cover(std::string("commands_") + kind);
  }
  void step()
  {
    switch (r.below(6))
    {
      case 0:
        command('C');
        break;
      case 1:
      case 2:
        command('S');
        break;
      case 3:
        command('E');
        break;
      case 4:
        server->text(far, junk(r));
        cover("junk_messages");
        break;
      default:
        if (r.chance(30))
        {
          server->binary(far, r.bytes(r.below(40)));
          cover("binary_messages");
        }
        else
          std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
    }
  }
  // messages a complete conversation has at least
  std::size_t least() const
  {
    std::size_t n = 0;
    for (auto& c : sent)
      n += c.kind == 'E' ? 2 : 1;
    return n;
  }
  std::vector<std::string> got()
  {
    std::lock_guard<std::mutex> l(far->mutex);
    return far->got;
  }
  static bool complete(const std::vector<std::string>& v, const std::vector<Command>& sent)
  {
    std::size_t ends = 0, done = 0, answers = 0;
    for (auto& c : sent)
      ends += c.kind == 'E';
    for (auto& s : v)
    {
      done += s.find("\"Tracing.tracingComplete\"") != std::string::npos && s.size() < 200 && s.find("dataCollected") == std::string::npos;
      answers += s.find("\"result\"") != std::string::npos && s.find("dataCollected") == std::string::npos;
    }
    return done >= ends && answers >= sent.size();
  }
  // all: everything sent has been answered; otherwise a beginning of that
  bool judge(bool all)
  {
    auto v = got();
    std::size_t at = 0;
    bool cut = false;
    std::string order;
    const auto next = [&](json& j) -> bool {
      if (at >= v.size())
      {
        cut = true;
        return false;
      }
      j = json::parse(v[at], nullptr, false);
      if (j.is_discarded() || !j.is_object())
      {
        violation("json", "a message to the viewer is not valid JSON: %s", shown(v[at]).c_str());
        return false;
      }
      at++;
      return true;
    };
    for (std::size_t i = 0; i < sent.size() && !cut; i++)
    {
      auto& c = sent[i];
      json j;
      if (!next(j))
        break;
      if (!j.count("result") || !j.count("id") || (c.has_id && j["id"] != c.id))
      {
        violation("answer", "command %zu (%c, id %s) is followed by %s", i, c.kind, text(c.id).c_str(), text(j).c_str());
        return false;
      }
      if (c.kind == 'C' && (!j["result"].is_object() || !j["result"].count("categories") || !j["result"]["categories"].is_array()))
      {
        violation("answer", "the categories are not in the answer %s", text(j).c_str());
        return false;
      }
      cover("answers_checked");
      distinct("answers", fnv(c.kind + text(c.id)));
      order += c.kind;
      if (c.kind != 'E')
        continue;
      std::vector<json> events;
      bool completed = false;
      while (!completed && next(j))
      {
        if (j.value("method", json()) == "Tracing.tracingComplete")
          completed = true;
        else if (j.value("method", json()) == "Tracing.dataCollected" && j.count("params") && j["params"].is_object() &&
                 j["params"].count("value") && j["params"]["value"].is_array())
        {
          if (j["params"]["value"].size() > 1000)
            violation("chunk", "a chunk holds %zu events", j["params"]["value"].size());
          for (auto& e : j["params"]["value"])
            events.push_back(e);
          cover("chunks_checked");
        }
        else
        {
          violation("answer", "among the events of a recording there is %s", text(j).c_str());
          return false;
        }
      }
      if (!completed)
        break;
      std::vector<std::pair<FactsPtr, std::size_t>> runs;
      if (!runs_of(events, runs))
        return false;
      for (auto& x : runs)
      {
        auto& mine = sources[x.first->provider];
        if (mine && mine != x.first)
        {
          violation("foreign", "a connection got the events of another source than before");
          return false;
        }
        mine = x.first;
        if (!seen[x.first->id].insert(x.second).second)
        {
          violation("twice", "a connection got the events of one recording twice");
          return false;
        }
      }
      cover("recordings_checked");
    }
    if (have_violation())
      return false;
    if (at < v.size())
    {
      violation("extra", "a connection got %zu messages nobody asked for: %s", v.size() - at, shown(v[at]).c_str());
      return false;
    }
    if (all && cut)
    {
      violation("unanswered", "of %zu commands only %zu were answered", sent.size(), order.size());
      return false;
    }
    // the sources were started and finished once per command, in the same order, and nothing they handed out is missing
    for (auto& s : sources)
    {
      if (!s.second)
        continue;
      std::lock_guard<std::mutex> l(s.second->mutex);
      std::string done, expected;
      for (char c : s.second->calls)
        if (c == 'S' || c == 'F')
          done += c;
      for (auto& c : sent)
        if (c.kind != 'C')
          expected += c.kind == 'S' ? 'S' : 'F';
      if (all ? done != expected : expected.compare(0, done.size(), done) != 0)
        violation("order", "the commands were %s but a source was told %s", expected.c_str(), done.c_str());
      if (all)
        for (std::size_t k = 0; k < s.second->handed.size(); k++)
          if (s.second->handed[k] && !seen[s.second->id].count(k))
          {
            bool any = false;
            for (std::size_t i = 0; i < s.second->handed[k]; i++)
              any = any || !s.second->events[{ k, i }].is_null();
            if (any)
              violation("missing", "the events of recording %zu of a source never arrived", k);
          }
    }
    return !have_violation();
  }
  bool await()
  {
    if (!wait_until([&] { return have_violation() || (far->count >= least() && complete(got(), sent)); }, 30000))
    {
      judge(true);
      if (!have_violation())
        violation("unanswered", "commands are not answered");
    }
    return !have_violation();
  }
};
struct World
{
  std::vector<std::shared_ptr<Provider>> providers;
  scalopus::CatapultServer::Ptr catapult;
  seasocks::Server* server;
  World(Rng& r, Style st, bool logging)
  {
    catapult = std::make_shared<scalopus::CatapultServer>();
    for (std::size_t i = 0, n = r.below(4); i < n; i++)
    {
      providers.push_back(std::make_shared<Provider>(i, r.next(), st));
      catapult->addProvider(providers.back());
    }
    if (logging)
      catapult->setLogger([](const std::string& s) { cover("log_lines", s.empty() ? 0 : 1); });
    catapult->start(static_cast<int>(9000 + r.below(1000)));
    std::lock_guard<std::mutex> l(seasocks::Server::registry_mutex());
    server = seasocks::Server::latest();
    if (!server)
      harness_error("no server was made");
    server->set_seed(r.next());
  }
};
static void misuse_check()
{
  if (seasocks::misuse().sent_after_close)
    violation("closed", "something was sent to a connection that is closed");
  if (seasocks::misuse().wrong_thread)
    violation("thread", "a connection was written to from another thread than the server's");
}
// ---- C21: one connection after the other, with anything in between
static void run_session()
{
  Rng r(seed());
  for (int round = 0; round < 10 * scale() && !have_violation(); round++)
  {
    Style st;
    st.big = r.chance(60);
    st.hostile = r.chance(60);
    st.slow = r.chance(30);
    World w(r, st, r.chance(50));
    for (int k = 0; k < 4 && !have_violation(); k++)
    {
      Viewer v(w.server, r.next());
      const bool lockstep = r.chance(40);
      for (int i = 0, n = static_cast<int>(r.below(30)); i < n && !have_violation(); i++)
      {
        v.step();
        if (lockstep && !v.await())
          break;
      }
      if (!lockstep && r.chance(35))
      {
        // far more waiting than the session can keep up with
        for (std::size_t i = 100 + r.below(300); i > 0; i--)
          if (r.chance(80))
            v.command(r.chance(50) ? 'C' : 'S');
          else
            w.server->text(v.far, junk(r));
        cover("floods");
      }
      v.command('S');
      v.command('E');
      if (v.await())
        v.judge(true);
      cover(lockstep ? "lockstep_sessions" : "pipelined_sessions");
      // sources get to work all the time
      for (auto& p : w.providers)
      {
        FactsPtr f;
        {
          std::lock_guard<std::mutex> l(p->mutex);
          if (!p->mine.empty())
            f = p->mine.back();
        }
        if (!f)
          violation("source", "a session has no source of a provider");
        else
        {
          const auto before = f->work.load();
          if (!wait_until([&] { return f->work > before; }, 10000))
            violation("work", "a source of an open session no longer gets to work");
          cover("worked_sources");
        }
      }
      w.server->disconnect(v.far);
    }
    w.catapult.reset();
    misuse_check();
  }
}
// ---- C23
static void run_connections()
{
  Rng r(seed() + 1);
  for (int round = 0; round < 6 * scale() && !have_violation(); round++)
  {
    Style st;
    st.big = r.chance(30);
    st.hostile = r.chance(30);
    st.slow = true;
    World w(r, st, r.chance(30));
    std::atomic<bool> stop{ false };
    std::vector<std::thread> ts;
    std::mutex owners_mutex;
    std::map<std::uint64_t, int> owners;
    std::atomic<int> next_owner{ 1 };
    const bool abrupt = r.chance(50);  // the server goes while connections are open
    const auto viewer = [&](std::uint64_t sd) {
      Rng q(sd);
      while (!stop && !have_violation())
      {
        Viewer v(w.server, q.next());
        const int me = next_owner++;
        for (int i = 0, n = static_cast<int>(q.below(12)); i < n; i++)
          v.step();
        const int how = static_cast<int>(q.below(3));
        if (how == 0)
        {
          v.command('E');
          if (v.await())
            v.judge(true);
          cover("complete_connections");
        }
        else if (how == 1)
          v.command(q.chance(50) ? 'E' : 'C');  // and goes without waiting for the answer
        else
          std::this_thread::sleep_for(std::chrono::microseconds(q.below(15000)));
        if (have_violation())
          return;
        auto closed = std::make_shared<std::promise<void>>();
        auto told = closed->get_future();
        w.server->disconnect(v.far, [closed] { closed->set_value(); });
        if (told.wait_for(std::chrono::seconds(30 * slow())) != std::future_status::ready)
        {
          violation("stuck", "closing a connection never ends");
          return;
        }
        if (how != 0)
        {
          v.judge(false);
          cover("cut_connections");
        }
        // closing ends the session: its sources are gone and not used any more
        for (auto& s : v.sources)
        {
          if (!s.second)
            continue;
          if (!wait_until([&] { return s.second->gone.load(); }, 10000))
            violation("kept", "the sources of a closed connection are kept");
          std::lock_guard<std::mutex> l(owners_mutex);
          auto it = owners.emplace(s.second->id, me);
          if (!it.second && it.first->second != me)
            violation("foreign", "two connections got the events of one source");
          cover("sources_released");
        }
        cover("connections");
      }
    };
    for (std::size_t t = 2 + r.below(14); t > 0; t--)
      ts.emplace_back(viewer, r.next());
    ts.emplace_back([&, sd = r.next()] {
      Rng q(sd);
      static const char* uris[] = { "/json/version", "/json/list", "/json/list?for_tab", "/json/listx", "/", "", "/json", "/json/version/", "/../x" };
      while (!stop && !have_violation())
      {
        const std::string uri = uris[q.below(9)];
        auto p = std::make_shared<std::promise<std::shared_ptr<seasocks::Response>>>();
        auto f = p->get_future();
        w.server->page(uri, [p](std::shared_ptr<seasocks::Response> x) { p->set_value(x); });
        if (f.wait_for(std::chrono::seconds(30 * slow())) != std::future_status::ready)
        {
          violation("stuck", "a page is never served");
          return;
        }
        auto x = f.get();
        const bool known = uri == "/json/version" || uri == "/json/list" || uri == "/json/list?for_tab";
        if (known && !x->handled)
          violation("page", "there is no page %s", uri.c_str());
        if (x->handled)
        {
          json j = json::parse(x->body, nullptr, false);
          if (j.is_discarded())
            violation("page", "the page %s is not JSON: %s", uri.c_str(), shown(x->body).c_str());
          else if (known)
          {
            const json& o = j.is_array() && !j.empty() ? j[0] : j;
            if (!o.is_object() || !o.count("webSocketDebuggerUrl") || !o["webSocketDebuggerUrl"].is_string())
              violation("page", "the page %s does not name the websocket: %s", uri.c_str(), text(j).c_str());
            else if (uri == "/json/version")
            {
              std::string path = o["webSocketDebuggerUrl"];
              const auto at = path.find("devtools");
              if (at == std::string::npos || !w.server->has("/" + path.substr(at)))
                violation("page", "nobody listens at the websocket address %s", path.c_str());
            }
          }
          cover("pages_checked");
        }
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(2000)));
      }
    });
    sleep_ms(1200 * slow() / 2);
    stop = true;
    for (auto& t : ts)
      t.join();
    std::vector<std::unique_ptr<Viewer>> left;
    if (!have_violation())
      for (std::size_t i = r.below(4); i > 0; i--)
      {
        left.push_back(std::make_unique<Viewer>(w.server, r.next()));
        for (int k = 0; k < 5; k++)
          left.back()->step();
        left.back()->command('E');
        if (!abrupt)
          left.back()->await();
      }
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(20000)));
    w.catapult.reset();
    for (auto& v : left)
      v->judge(false);
    cover(abrupt ? "abrupt_ends" : "calm_ends");
    if (!wait_until([] { return alive == 0; }, 10000))
      violation("kept", "%llu sources are left when the server is gone", static_cast<unsigned long long>(alive.load()));
    misuse_check();
    std::lock_guard<std::mutex> l(all_mutex);
    all_sources.clear();
  }
}
// ---- C22
static std::string slurp(const std::string& p)
{
  std::ifstream i(p);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static bool recorder_output(const std::string& out, const std::vector<FactsPtr>& current, const std::map<std::uint64_t, std::size_t>& before,
                            const char* what)
{
  json j = json::parse(out, nullptr, false);
  if (j.is_discarded() || !j.is_array())
  {
    violation("json", "%s is not a JSON array: %s", what, shown(out).c_str());
    return false;
  }
  std::vector<json> events(j.begin(), j.end());
  std::vector<std::pair<FactsPtr, std::size_t>> runs;
  if (!runs_of(events, runs))
    return false;
  std::set<std::uint64_t> seen;
  for (auto& x : runs)
  {
    if (std::find(current.begin(), current.end(), x.first) == current.end() || x.second < before.at(x.first->id))
    {
      violation("stale", "%s holds events of another recording", what);
      return false;
    }
    seen.insert(x.first->id * 1000 + x.second);
  }
  for (auto& f : current)
  {
    std::lock_guard<std::mutex> l(f->mutex);
    if (f->handed.size() != before.at(f->id) + 1)
      violation("finish", "for %s a source was finished %zu times", what, f->handed.size() - before.at(f->id));
    for (std::size_t k = before.at(f->id); k < f->handed.size(); k++)
    {
      bool any = false;
      for (std::size_t i = 0; i < f->handed[k]; i++)
        any = any || !f->events[{ k, i }].is_null();
      if (any && !seen.count(f->id * 1000 + k))
        violation("missing", "%s lacks the %zu events of a source", what, f->handed[k]);
    }
  }
  cover("outputs_checked");
  distinct("outputs", fnv(out));
  return !have_violation();
}
static void run_recorder()
{
  Rng r(seed() + 2);
  const char* base = getenv("VH_SCRATCH");
  std::string dir = std::string(base ? base : "/tmp") + "/recorderXXXXXX";
  if (!mkdtemp(&dir[0]))
    harness_error("mkdtemp failed");
  for (int round = 0; round < 40 * scale() && !have_violation(); round++)
  {
    Style st;
    st.big = r.chance(40);
    st.hostile = r.chance(50);
    st.slow = r.chance(20);
    auto rec = std::make_unique<scalopus::CatapultRecorder>();
    std::vector<std::shared_ptr<Provider>> providers;
    std::vector<FactsPtr> current;
    bool running = false;
    std::string history, dump;
    const auto counts = [&] {
      std::map<std::uint64_t, std::size_t> m;
      for (auto& f : current)
      {
        std::lock_guard<std::mutex> l(f->mutex);
        m[f->id] = f->handed.size();
      }
      return m;
    };
    for (std::size_t i = r.below(4); i > 0; i--)
    {
      providers.push_back(std::make_shared<Provider>(providers.size(), r.next(), st));
      rec->addProvider(providers.back());
    }
    // others control the interval meanwhile
    std::atomic<bool> stop{ false };
    std::thread other;
    const bool with_other = r.chance(40);
    if (with_other)
      other = std::thread([&, sd = r.next()] {
        Rng q(sd);
        while (!stop)
        {
          if (q.chance(50))
            rec->startInterval();
          else
            rec->stopInterval();
          std::this_thread::sleep_for(std::chrono::microseconds(q.below(2000)));
          cover("concurrent_control");
        }
      });
    for (int step = static_cast<int>(r.below(25)); step > 0 && !have_violation(); step--)
    {
      const int act = static_cast<int>(r.below(9));
      history += fmt("%d", act);
      if (act <= 1)
      {
        std::vector<std::size_t> made;
        for (auto& p : providers)
          made.push_back(p->made);
        auto old = current;
        rec->start();
        if (!running)
        {
          current.clear();
          for (auto& p : providers)
          {
            std::lock_guard<std::mutex> l(p->mutex);
            if (p->made != made[p->number] + 1)
              violation("start", "starting made %zu sources of a provider", p->made - made[p->number]);
            else
              current.push_back(p->mine.back());
          }
          for (auto& f : old)
            if (!wait_until([&] { return f->gone.load(); }, 5000))
              violation("kept", "sources of an earlier start are kept");
          cover("starts");
        }
        else
        {
          for (auto& p : providers)
            if (p->made != made[p->number])
              violation("start", "starting while running made sources again");
          cover("starts_while_running");
        }
        running = true;
      }
      else if (act == 2)
      {
        rec->stop();
        cover(running ? "stops" : "stops_without_start");
        running = false;
        std::vector<std::uint64_t> w;
        for (auto& f : current)
          w.push_back(f->work);
        sleep_ms(static_cast<long>(r.below(25)));
        for (std::size_t i = 0; i < current.size(); i++)
          if (current[i]->work != w[i])
            violation("work", "a source is worked on after the recorder was stopped");
      }
      else if (act == 3)
      {
        rec->startInterval();
        for (auto& f : current)
        {
          std::lock_guard<std::mutex> l(f->mutex);
          if (!with_other && (f->calls.empty() || f->calls.back() != 'S'))
            violation("control", "starting an interval did not start it in a source");
        }
        cover("interval_starts");
      }
      else if (act == 4)
      {
        rec->stopInterval();
        for (auto& f : current)
        {
          std::lock_guard<std::mutex> l(f->mutex);
          if (!with_other && (f->calls.empty() || f->calls.back() != 'P'))
            violation("control", "stopping an interval did not stop it in a source");
        }
        cover("interval_stops");
      }
      else if (act == 5)
      {
        auto b = counts();
        recorder_output(rec->collectEvents(), current, b, "what was collected");
      }
      else if (act == 6)
      {
        const std::string f = dir + "/out.json";
        if (r.chance(50))
          std::ofstream(f) << std::string(r.below(100000), 'x');
        auto b = counts();
        rec->writeToFile(f);
        recorder_output(slurp(f), current, b, "the file written");
        unlink(f.c_str());
        cover("files_written");
      }
      else if (act == 7)
      {
        dump = r.chance(85) ? dir + "/dump.json" : r.chance(50) ? dir + "/missing/dump.json" : "";
        rec->setupDumpFile(dump);
      }
      else if (running && !current.empty())
      {
        auto f = current[r.below(current.size())];
        const auto b = f->work.load();
        if (!wait_until([&] { return f->work > b; }, 10000))
          violation("work", "a running recorder does not let its sources work");
        cover("worked_sources");
      }
      else if (!running && providers.size() < 5 && !with_other)
      {
        providers.push_back(std::make_shared<Provider>(providers.size(), r.next(), st));
        rec->addProvider(providers.back());
      }
    }
    stop = true;
    if (other.joinable())
      other.join();
    auto b = counts();
    rec.reset();
    if (dump == dir + "/dump.json" && !have_violation())
    {
      recorder_output(slurp(dump), current, b, "the file written on destruction");
      unlink(dump.c_str());
      cover("dumps_checked");
    }
    for (auto& f : current)
      if (!f->gone)
        violation("kept", "sources outlive the recorder");
    cover(running ? "destroyed_running" : "destroyed_stopped");
    distinct("histories", fnv(history));
    std::lock_guard<std::mutex> l(all_mutex);
    all_sources.clear();
  }
  rmdir(dir.c_str());
}
int main(int argc, char** argv)
{
  const std::string m = argc > 1 ? argv[1] : "session";
  Watchdog w("the run", 200000);
  if (m == "session")
    run_session();
  else if (m == "connections")
    run_connections();
  else
    run_recorder();
  return finish();
}
