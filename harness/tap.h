// Observes the events a tracing backend emits, in the emitting thread. Include in one source file only; it must define
// void tapped(const Ev&).
#pragma once
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include "vh.h"
struct Ev
{
  char kind;  // B, E, g, p, t, C
  unsigned id;
  std::int64_t value;
  bool operator==(const Ev& o) const
  {
    return kind == o.kind && id == o.id && value == o.value;
  }
};
static void tapped(const Ev& e);
inline std::string show(const Ev& e)
{
  return vh::fmt("%c %08x %lld", e.kind, e.id, static_cast<long long>(e.value));
}
#ifdef TAP_LTTNG
inline bool parse_fields(const std::string& f, std::map<std::string, std::string>& out)
{
  std::size_t p = 0;
  while (p < f.size())
  {
    auto c = f.find(", ", p);
    std::string one = f.substr(p, c == std::string::npos ? std::string::npos : c - p);
    auto e = one.find(" = ");
    if (e == std::string::npos)
      return false;
    out[one.substr(0, e)] = one.substr(e + 3);
    if (c == std::string::npos)
      break;
    p = c + 2;
  }
  return true;
}
void vh_lttng_emit(const char* event, const std::string& fields)
{
  static const std::map<std::string, char> kinds{
    { "scalopus_scope_id:scope_entry", 'B' },        { "scalopus_scope_id:scope_exit", 'E' },
    { "scalopus_scope_id:mark_event_global", 'g' },  { "scalopus_scope_id:mark_event_process", 'p' },
    { "scalopus_scope_id:mark_event_thread", 't' },  { "scalopus_scope_id:count_event", 'C' }
  };
  std::map<std::string, std::string> m;
  auto k = kinds.find(event);
  if (k == kinds.end() || !parse_fields(fields, m) || !m.count("id") || (k->second == 'C') != (m.count("value") > 0))
  {
    vh::violation("layout", "the lttng backend emits %s with fields %s", event, fields.c_str());
    return;
  }
  tapped(Ev{ k->second, static_cast<unsigned>(std::stoull(m["id"])), k->second == 'C' ? std::stoll(m["value"]) : 0 });
}
#endif
#ifdef TAP_STUB
namespace scalopus
{
void scope_entry(const unsigned int id)
{
  tapped(Ev{ 'B', id, 0 });
}
void scope_exit(const unsigned int id)
{
  tapped(Ev{ 'E', id, 0 });
}
void mark_event(const unsigned int id, const MarkLevel l)
{
  tapped(Ev{ l == MarkLevel::GLOBAL ? 'g' : l == MarkLevel::PROCESS ? 'p' : l == MarkLevel::THREAD ? 't' : '?', id, 0 });
}
void count_event(const unsigned int id, const std::int64_t v)
{
  tapped(Ev{ 'C', id, v });
}
}  // namespace scalopus
#endif
#ifdef TAP_NATIVE
#include "tracepoint_collector_native.h"
// The events the calling thread has in its buffer of the native backend.
inline void tap_drain()
{
  using C = scalopus::TracePointCollectorNative;
  auto all = C::getInstance()->getActiveMap();
  auto it = all.find(static_cast<unsigned long>(pthread_self()));
  if (it == all.end())
    return;
  std::vector<scalopus::tracepoint_collector_types::StaticTraceEvent> got;
  it->second->pop_into(std::back_inserter(got), ~std::size_t{ 0 } >> 1);
  for (auto& e : got)
  {
    char k = e.trace_type == C::SCOPE_ENTRY ? 'B' : e.trace_type == C::SCOPE_EXIT ? 'E' : e.trace_type == C::MARK_GLOBAL ? 'g' :
             e.trace_type == C::MARK_PROCESS ? 'p' : e.trace_type == C::MARK_THREAD ? 't' : e.trace_type == C::COUNTER ? 'C' : '?';
    std::int64_t v = 0;
    if (k == 'C' && e.dynamic_data)
      cbor::from_cbor(v, *e.dynamic_data);
    tapped(Ev{ k, e.trace_id, v });
  }
}
#else
inline void tap_drain()
{
}
#endif
