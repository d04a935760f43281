// Recorded events, what a recording of them must look like, and the comparison.
#pragma once
#include <nlohmann/json.hpp>
#include "ctfgen.h"
#include "node.h"
namespace rec
{
using namespace vh;
using json = nlohmann::json;
struct Ev
{
  char kind;  // B, E, g, p, t, C
  std::uint64_t ns;
  std::uint64_t pid, tid;
  unsigned id;
  std::int64_t value;
};
inline std::string show(const Ev& e)
{
  return fmt("%c at %llu.%09llu pid %llu tid %llu id %x value %lld", e.kind, static_cast<unsigned long long>(e.ns / 1000000000),
             static_cast<unsigned long long>(e.ns % 1000000000), static_cast<unsigned long long>(e.pid),
             static_cast<unsigned long long>(e.tid), e.id, static_cast<long long>(e.value));
}
inline std::string show(const json& j)
{
  return j.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 400);
}
// Times that go up, with exact ties, gaps below the resolution of a double (kept in order) and larger ones, and the order
// in which the events arrive: near ones in order, others anyhow.
inline std::vector<std::uint64_t> times(Rng& r, std::size_t n, std::uint64_t start, std::vector<std::size_t>& arrival, bool shuffled)
{
  std::vector<std::uint64_t> t;
  std::vector<std::pair<std::uint64_t, std::size_t>> key;
  std::uint64_t now = start, jitter = 0;
  for (std::size_t i = 0; i < n; i++)
  {
    if (i)
    {
      std::uint64_t gap = 0;
      switch (r.below(6))
      {
        case 0:
          gap = 0;
          break;
        case 1:
          gap = 1 + r.below(200);
          break;
        case 2:
        case 3:
          gap = 3000 + r.below(100000);
          break;
        case 4:
          gap = 1000000 + r.below(10000000);
          break;
        default:
          gap = 3000;
      }
      now += gap;
      if (gap >= 3000)
        jitter = shuffled && r.chance(60) ? r.below(r.chance(50) ? 500000 : 100000000) : 0;
    }
    t.push_back(now);
    key.push_back({ now + jitter, i });
  }
  std::stable_sort(key.begin(), key.end(), [](auto& a, auto& b) { return a.first < b.first; });
  arrival.clear();
  for (auto& k : key)
    arrival.push_back(k.second);
  return t;
}
using NamesByPid = std::map<std::uint64_t, const node::Names*>;
// Which of the processes' names a result uses: a process whose answer came too late has placeholders only.
struct Judge
{
  NamesByPid names;
  std::size_t unnamed{ 0 };          // processes without names in the last comparison
  bool counters{ false };            // compare the values of counters too
  const char* what = "recording";
  // want: sorted by time, ties by arrival
  bool compare(const std::vector<json>& got, const std::vector<Ev>& want)
  {
    if (got.size() != want.size())
    {
      violation(got.size() < want.size() ? "missing" : "extra", "%s: %zu entries for %zu events", what, got.size(), want.size());
      return false;
    }
    // did the names of a process arrive?
    unnamed = 0;
    std::map<std::uint64_t, bool> named;
    for (std::size_t i = 0; i < got.size(); i++)
    {
      const Ev& e = want[i];
      auto n = names.find(e.pid);
      if (n == names.end() || !n->second->count(e.id) || !got[i].count("name") || !got[i]["name"].is_string())
        continue;
      std::string full = n->second->at(e.id);
      std::string expect = e.kind == 'C' ? node::split(full).first : full;
      if (got[i]["name"].get<std::string>() == expect)
        named[e.pid] = true;
      else if (!named.count(e.pid))
        named[e.pid] = false;
    }
    const auto full_name = [&](const Ev& e, bool& known) {
      auto n = names.find(e.pid);
      known = n != names.end() && named[e.pid] && n->second->count(e.id);
      return known ? n->second->at(e.id) : std::string();
    };
    for (auto& n : named)
      if (!n.second)
      {
        cover("unnamed_processes");
        unnamed++;
      }
      else
        cover("named_processes");
    for (std::size_t i = 0; i < got.size(); i++)
    {
      const Ev& e = want[i];
      const json& j = got[i];
      std::string bad;
      try
      {
        const std::string ph = j.at("ph").get<std::string>();
        const std::string want_ph(1, e.kind == 'g' || e.kind == 'p' || e.kind == 't' ? 'i' : e.kind);
        if (ph != want_ph)
          bad = "the kind";
        else if (want_ph == "i" && j.at("s").get<std::string>() != std::string(1, e.kind))
          bad = "the mark level";
        else if (j.at("pid").get<std::uint64_t>() != e.pid)
          bad = "the process";
        else if (j.at("tid").get<std::uint64_t>() != e.tid)
          bad = "the thread";
        else if (!(std::fabs(j.at("ts").get<double>() - static_cast<double>(e.ns) / 1e3) < 1.0))
          bad = "the time";
        else if (i && j.at("ts").get<double>() < got[i - 1].at("ts").get<double>())
          bad = "the order";
        else
        {
          bool known = false;
          std::string full = full_name(e, known);
          const std::string name = j.at("name").get<std::string>();
          if (known ? name != (e.kind == 'C' ? node::split(full).first : full) : !node::placeholder(name, e.id))
            bad = "the name";
          cover(known ? "names_checked" : "placeholders_checked");
        }
        cover("entries_checked");
        distinct("entries", fnv(show(e)));
      }
      catch (const std::exception& x)
      {
        bad = x.what();
      }
      if (!bad.empty())
      {
        violation("wrong", "%s: %s of entry %zu of %zu is wrong: %s for %s", what, bad.c_str(), i, got.size(), show(j).c_str(), show(e).c_str());
        return false;
      }
    }
    return !counters || compare_counters(got, want, named);
  }
  bool compare_counters(const std::vector<json>& got, const std::vector<Ev>& want, std::map<std::uint64_t, bool>& named)
  {
    // every setting of every series, in order
    struct Set
    {
      std::size_t at;
      std::uint64_t ns;
      std::int64_t value;
    };
    std::map<std::pair<std::uint64_t, std::string>, std::map<std::string, std::vector<Set>>> all;
    std::vector<std::pair<std::string, std::string>> which(want.size());
    for (std::size_t i = 0; i < want.size(); i++)
    {
      const Ev& e = want[i];
      if (e.kind != 'C')
        continue;
      auto n = names.find(e.pid);
      if (n != names.end() && named[e.pid] && n->second->count(e.id))
        which[i] = node::split(n->second->at(e.id));
      else
        which[i] = { got[i].at("name").get<std::string>(), "count" };
      all[{ e.pid, which[i].first }][which[i].second].push_back(Set{ i, e.ns, e.value });
    }
    for (std::size_t i = 0; i < want.size(); i++)
    {
      const Ev& e = want[i];
      if (e.kind != 'C')
        continue;
      const auto& series = all[{ e.pid, which[i].first }];
      std::string bad;
      if (!got[i].count("args") || !got[i]["args"].is_object())
        bad = "there are no values";
      else if (got[i]["args"].size() != series.size())
        bad = fmt("%zu series instead of %zu", got[i]["args"].size(), series.size());
      else
        for (auto& s : series)
        {
          auto v = got[i]["args"].find(s.first);
          if (v == got[i]["args"].end() || !v->is_number_integer() ||
              (v->is_number_unsigned() && v->get<std::uint64_t>() > static_cast<std::uint64_t>(INT64_MAX)))
          {
            bad = "no value for series " + shown(s.first);
            break;
          }
          const std::int64_t is = v->get<std::int64_t>();
          std::int64_t should = s.second.front().value;
          bool tie = false;
          for (auto& x : s.second)
          {
            if (x.at <= i)
              should = x.value;
            // which of several settings at one moment counts is not specified
            if (x.at != i && (x.ns > e.ns ? x.ns - e.ns : e.ns - x.ns) < 1000 && x.value == is && s.first != which[i].second)
              tie = true;
          }
          if (is != should && !tie)
          {
            bad = fmt("series %s is %lld instead of %lld", shown(s.first).c_str(), static_cast<long long>(is), static_cast<long long>(should));
            break;
          }
          cover("values_checked");
        }
      if (!bad.empty())
      {
        violation("counter", "%s: %s in entry %zu of %zu, %s for %s", what, bad.c_str(), i, got.size(), show(got[i]).c_str(), show(e).c_str());
        return false;
      }
      cover("counters_checked");
      distinct("counters", fnv(show(got[i])));
    }
    return true;
  }
};
}  // namespace rec
