// Helpers around the public transport API.
#pragma once
#include <scalopus_interface/destination.h>
#include <scalopus_interface/endpoint.h>
#include <scalopus_interface/exceptions.h>
#include <scalopus_interface/transport.h>
#include <scalopus_interface/transport_factory.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <unordered_map>
#include "vh.h"

namespace tx
{
using scalopus::Data;
using scalopus::Endpoint;
using scalopus::Transport;
using Fn = std::function<bool(Transport&, const Data&, Data&)>;

struct FnEndpoint : public Endpoint
{
  std::string name;
  Fn on_handle, on_unsolicited;
  FnEndpoint(std::string n, Fn h, Fn u = nullptr)
    : name(std::move(n)), on_handle(std::move(h)), on_unsolicited(std::move(u))
  {
  }
  std::string getName() const override
  {
    return name;
  }
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    return on_handle ? on_handle(t, in, out) : false;
  }
  bool unsolicited(Transport& t, const Data& in, Data& out) override
  {
    return on_unsolicited ? on_unsolicited(t, in, out) : false;
  }
};
inline Endpoint::Ptr ep(std::string n, Fn h, Fn u = nullptr)
{
  return std::make_shared<FnEndpoint>(std::move(n), std::move(h), std::move(u));
}

inline scalopus::TransportFactory::Ptr unix_factory()
{
  return std::make_shared<scalopus::TransportUnixFactory>();
}

// destination of a process, as discovery reports it
inline scalopus::Destination::Ptr find_dest(const scalopus::TransportFactory::Ptr& f, pid_t pid)
{
  for (auto& d : f->discover())
    if (d && d->hash_code() == static_cast<std::size_t>(pid))
      return d;
  return nullptr;
}
inline Transport::Ptr connect_pid(const scalopus::TransportFactory::Ptr& f, pid_t pid)
{
  auto d = find_dest(f, pid);
  return d ? f->connect(d) : nullptr;
}

// Declared after the state its handlers use: lets go of a transport before that state goes away.
struct Reset
{
  std::vector<std::function<void()>> f;
  ~Reset()
  {
    vh::inject_off();
    for (auto& x : f)
      x();
  }
};

enum class Got
{
  value,
  error,
  timeout
};
// ms is scaled by the slowdown of the build
inline Got await(const Transport::PendingResponse& r, Data& out, long ms)
{
  if (!r)
    return Got::error;
  const auto end = vh::Clock::now() + std::chrono::milliseconds(ms * vh::slow());
  while (r->wait_for(std::chrono::milliseconds(100)) != std::future_status::ready)
    if (vh::Clock::now() > end)
      return Got::timeout;
  try
  {
    out = r->get();
    return Got::value;
  }
  catch (...)
  {
    return Got::error;
  }
}
inline void put64(Data& d, std::size_t at, std::uint64_t v)
{
  std::memcpy(&d[at], &v, 8);
}
inline std::uint64_t get64(const Data& d, std::size_t at = 0)
{
  std::uint64_t v = 0;
  if (d.size() >= at + 8)
    std::memcpy(&v, &d[at], 8);
  return v;
}
// Response every well behaved echo style endpoint of ours produces for a request: depends on every request byte.
inline Data reply_for(const std::string& name, const Data& in, std::size_t max_extra = 200)
{
  std::uint64_t h = vh::fnv(in.data(), in.size(), vh::fnv(name));
  vh::Rng r(h);
  Data out(8 + r.below(max_extra + 1));
  put64(out, 0, h);
  for (std::size_t i = 8; i < out.size(); i++)
    out[i] = static_cast<std::uint8_t>(r.next());
  return out;
}
}  // namespace tx
