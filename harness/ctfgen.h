// Lines in the text format of the trace viewer (babeltrace --clock-seconds --clock-gmt --no-delta), with what they state.
#pragma once
#include "gen.h"
namespace ctf
{
using vh::Rng;
using Fields = std::map<std::string, unsigned long long>;
struct Line
{
  std::string text, domain, name, stamp;
  Fields stream, context, data;
};
inline std::string ident(Rng& r, std::size_t longest = 24)
{
  static const char c[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
  std::string s;
  std::size_t n = 1 + r.below(r.chance(3) ? 600 : longest);
  for (std::size_t i = 0; i < n; i++)
    s += c[r.below(i == 0 ? 53 : 63)];
  return s;
}
inline std::uint64_t any_u64(Rng& r)
{
  switch (r.below(6))
  {
    case 0:
      return r.next();
    case 1:
      return r.next() >> r.below(64);
    case 2:
      return r.below(3);
    case 3:
      return UINT64_MAX - r.below(2);
    case 4:
      return (std::uint64_t{ 1 } << r.below(64)) - r.below(2);
    default:
      return r.below(100000);
  }
}
inline std::int64_t any_i64(Rng& r)
{
  return static_cast<std::int64_t>(any_u64(r));
}
// free of the characters the format uses to separate things
inline std::string plain_text(Rng& r)
{
  std::string s, t = vh::any_text(r, 400);
  for (char ch : t)
    if (ch != '{' && ch != '}' && ch != ',' && ch != '=' && ch != '\n' && ch != '\0')
      s += ch;
  return s;
}
inline std::string stamp(Rng& r)
{
  switch (r.below(4))
  {
    case 0:
      return vh::fmt("%llu.%09llu", static_cast<unsigned long long>(r.below(4102444800ull)),
                     static_cast<unsigned long long>(r.below(1000000000)));
    case 1:
      return vh::fmt("%llu.%09llu", static_cast<unsigned long long>(r.below(3)), static_cast<unsigned long long>(r.below(3)));
    case 2:
      return vh::fmt("15%08llu.%09llu", static_cast<unsigned long long>(r.below(100000000)),
                     static_cast<unsigned long long>(r.chance(50) ? 999999999 : 0));
    default:
      return vh::fmt("1544361620.%09llu", static_cast<unsigned long long>(r.below(1000000000)));
  }
}
// one group of fields; integers go to `out`
inline std::string group(Rng& r, Fields& out, std::vector<std::pair<std::string, std::string>> fixed, std::size_t extra, bool others)
{
  std::vector<std::string> parts;
  std::set<std::string> used;
  for (auto& f : fixed)
    used.insert(f.first);
  std::vector<std::pair<std::string, int>> order;
  for (std::size_t i = 0; i < fixed.size(); i++)
    order.push_back({ "", static_cast<int>(i) });
  for (std::size_t i = 0; i < extra; i++)
    order.insert(order.begin() + static_cast<long>(r.below(order.size() + 1)), { "", -1 });
  for (auto& o : order)
  {
    if (o.second >= 0)
    {
      auto& f = fixed[static_cast<std::size_t>(o.second)];
      parts.push_back(f.first + " = " + f.second);
      out[f.first] = static_cast<unsigned long long>(f.second[0] == '-' ? static_cast<std::uint64_t>(strtoll(f.second.c_str(), nullptr, 10)) :
                                                                            strtoull(f.second.c_str(), nullptr, 10));
      continue;
    }
    std::string key = ident(r);
    if (!used.insert(key).second)
      continue;
    switch (others ? r.below(6) : r.below(2))
    {
      case 0:
      {
        auto v = any_u64(r);
        parts.push_back(key + vh::fmt(" = %llu", static_cast<unsigned long long>(v)));
        out[key] = v;
        break;
      }
      case 1:
      {
        auto v = any_i64(r);
        parts.push_back(key + vh::fmt(" = %lld", static_cast<long long>(v)));
        out[key] = static_cast<unsigned long long>(v);
        break;
      }
      case 2:
        parts.push_back(key + " = \"" + plain_text(r) + "\"");
        break;
      case 3:
        parts.push_back(key + vh::fmt(" = %g", static_cast<double>(r.below(100000)) / 16 + 0.03125));
        break;
      case 4:
        parts.push_back(key + " = ( \"" + ident(r) + "\" : container = " + std::to_string(r.below(10)) + " )");
        break;
      default:
      {
        auto v = any_u64(r);
        parts.push_back(key + vh::fmt(" = 0x%llX", static_cast<unsigned long long>(v)));
        out[key] = v;
      }
    }
  }
  if (parts.empty())
    return "{ }";
  std::string s = "{ ";
  for (std::size_t i = 0; i < parts.size(); i++)
    s += (i ? ", " : "") + parts[i];
  return s + " }";
}
// others: text, real, enumeration and hexadecimal fields too, and lines without fields of their own
inline Line line(Rng& r, bool others = true)
{
  Line l;
  l.stamp = stamp(r);
  l.domain = r.chance(50) ? "scalopus_scope_id" : ident(r);
  l.name = r.chance(50) ? "scope_entry" : ident(r);
  if (r.chance(3))
    l.name += ":" + ident(r);  // the domain ends at the first one
  std::string host = r.chance(70) ? "eagle" : ident(r) + (r.chance(30) ? ".local" : r.chance(30) ? "-1" : "");
  l.text = "[" + l.stamp + "] " + host + " " + l.domain + ":" + l.name + ": ";
  std::vector<std::pair<std::string, std::string>> ids{ { "vpid", std::to_string(r.chance(90) ? r.below(4194304) : any_u64(r)) },
                                                        { "pthread_id", std::to_string(r.chance(50) ? 139688084124608ull + r.below(1000) * 4096 : any_u64(r)) } };
  if (others && r.chance(10))
    ids.erase(ids.begin() + static_cast<long>(r.below(2)));
  if (r.chance(20) && ids.size() == 2)
    std::swap(ids[0], ids[1]);
  l.text += group(r, l.stream, r.chance(90) ? std::vector<std::pair<std::string, std::string>>{ { "cpu_id", std::to_string(r.below(256)) } } :
                                              std::vector<std::pair<std::string, std::string>>{},
                  r.chance(20) ? r.below(3) : 0, others);
  l.text += ", " + group(r, l.context, ids, r.chance(20) ? r.below(4) : 0, others);
  if (!others || !r.chance(8))
    l.text += ", " + group(r, l.data, r.chance(90) ? std::vector<std::pair<std::string, std::string>>{ { "id", std::to_string(r.below(1ull << 32)) } } :
                                                     std::vector<std::pair<std::string, std::string>>{},
                           r.chance(5) ? r.below(200) : r.below(4), others);
  return l;
}
}  // namespace ctf
