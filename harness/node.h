// Processes that serve trace names, for the harnesses that look at recordings.
#pragma once
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include "gen.h"
#include "tx.h"
namespace node
{
using namespace vh;
using Names = std::map<unsigned int, std::string>;
// ids 0..39 shared by all processes, under other names in each of them; few counters with several series
inline Names names(std::uint64_t sd)
{
  Rng r(sd);
  Names n;
  static const char* series[] = { "/a", "/b", "", "/", "/b/c", "/count", "/ ", "/\xc3\xa9" };
  for (unsigned i = 0; i < 40; i++)
  {
    if (r.chance(10))
      continue;  // not registered
    if (i < 24)
      n[i] = fmt("counter %d", static_cast<int>(r.below(3))) + series[r.below(8)];
    else
      n[i] = r.chance(50) ? fmt("scope %d of %llu", i, static_cast<unsigned long long>(sd % 100)) : any_text(r, 200);
  }
  n[static_cast<unsigned>(r.next())] = "large id";
  n[0xffffffffu] = "largest id/with series";
  n[0x80000000u] = "half/";
  return n;
}
inline std::pair<std::string, std::string> split(const std::string& s)
{
  auto p = s.find('/');
  if (p == std::string::npos)
    return { s, "count" };
  if (p + 1 == s.size())
    return { s.substr(0, p), "count" };
  return { s.substr(0, p), s.substr(p + 1) };
}
inline bool placeholder(const std::string& got, unsigned id)
{
  std::string lower = got;
  for (auto& ch : lower)
    ch = static_cast<char>(tolower(ch));
  return lower.find(fmt("%x", id)) != std::string::npos;
}
inline int role(std::uint64_t sd)
{
  auto f = tx::unix_factory();
  auto& ss = scalopus::StaticStringTracker::getInstance();
  for (auto& t : names(sd))
    ss.insert(t.first, t.second);
  auto server = f->serve();
  if (!server)
    return 1;
  server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  server->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
  server->addEndpoint(std::make_shared<scalopus::EndpointProcessInfo>());
  printf("ok\n");
  fflush(stdout);
  char b[16];
  while (fgets(b, sizeof b, stdin))
    ;
  _exit(0);
}
struct Node
{
  Child c;
  Names n;
  bool alive{ true };
};
inline Node start(std::uint64_t sd)
{
  Node n;
  n.c = spawn({ "node", std::to_string(sd) });
  n.n = names(sd);
  std::string l;
  if (!n.c.read_line(l, 20000) || l != "ok")
    harness_error("node process does not start");
  return n;
}
inline void kill(Node& n)
{
  if (n.alive)
  {
    n.c.kill9();
    n.c.wait_exit(5000);
  }
  n.alive = false;
}
// Do all living processes tell their names?
inline bool all_answer(const std::shared_ptr<scalopus::EndpointManagerPoll>& m, std::vector<Node>& nodes)
{
  std::size_t have = 0, alive = 0;
  for (auto& e : m->endpoints())
    if (auto t = scalopus::EndpointManager::findEndpoint<scalopus::EndpointTraceMapping>(e.second))
      try
      {
        for (auto& p : t->mapping())
          for (auto& n : nodes)
            have += n.alive && n.c.pid == p.first;
      }
      catch (const std::exception&)
      {
      }
  for (auto& n : nodes)
    alive += n.alive;
  return have >= alive;
}
inline std::shared_ptr<scalopus::EndpointManagerPoll> manager(std::vector<Node>& nodes)
{
  auto m = std::make_shared<scalopus::EndpointManagerPoll>(tx::unix_factory());
  m->addEndpointFactory<scalopus::EndpointTraceMapping>();
  for (int i = 0; i < 100; i++)
  {
    m->manage();
    if (all_answer(m, nodes))
      return m;
    sleep_ms(20);
  }
  return nullptr;
}
}  // namespace node
