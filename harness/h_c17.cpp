// C17: trace line parsing is exact on valid lines and safe on all others.
#include <cmath>
#include <new>
#include <sstream>
#include "ctfgen.h"
#include "vh.h"
#include <scalopus_tracing/ctfevent.h>
using namespace vh;
using scalopus::CTFEvent;

// Parses into memory that holds something else already, so that members left alone show.
struct Parsed
{
  alignas(CTFEvent) unsigned char mem[sizeof(CTFEvent)];
  CTFEvent* e{ nullptr };
  bool ok{ false };
  explicit Parsed(const std::string& line, unsigned char fill)
  {
    std::memset(mem, fill, sizeof(mem));
    try
    {
      e = new (mem) CTFEvent(line);
      ok = true;
    }
    catch (const std::exception& x)
    {
      violation("threw", "parsing %s threw %s", shown(line, 200).c_str(), x.what());
    }
  }
  ~Parsed()
  {
    if (e)
      e->~CTFEvent();
  }
};
static bool integer(const std::string& t, unsigned long long& v)
{
  if (t.empty() || !(isdigit(static_cast<unsigned char>(t[0])) || t[0] == '-' || t[0] == '+') )
    return false;
  errno = 0;
  char* end = nullptr;
  v = strtoull(t.c_str(), &end, 0);
  if (errno == 0 && *end == 0 && end == t.c_str() + t.size())
    return true;
  errno = 0;
  v = strtoull(t.c_str(), &end, 10);  // a leading zero may be read either way
  return errno == 0 && end == t.c_str() + t.size();
}
// Is "key = value" somewhere in the line?
static bool stated(const std::string& line, const std::string& key, unsigned long long value)
{
  const std::string what = key + " = ";
  for (std::size_t p = line.find(what); p != std::string::npos; p = line.find(what, p + 1))
  {
    std::size_t b = p + what.size();
    std::size_t e = b;
    while (b < line.size() && isspace(static_cast<unsigned char>(line[b])))
      b++;
    for (e = b; e < line.size() && line[e] != ',' && line[e] != '}' && line[e] != '{' && !isspace(static_cast<unsigned char>(line[e]));)
      e++;
    unsigned long long v = 0;
    const std::string token = line.substr(b, e - b);
    // what follows the number may only be blanks and then the end of the field
    std::size_t f = e;
    while (f < line.size() && isspace(static_cast<unsigned char>(line[f])))
      f++;
    const bool ends = f == line.size() || line[f] == ',' || line[f] == '}' || line[f] == '{';
    if (!ends)
      continue;
    if (integer(token, v) && v == value)
      return true;
    // leading zeros: octal or decimal
    char* end = nullptr;
    errno = 0;
    v = strtoull(token.c_str(), &end, 10);
    if (!token.empty() && isdigit(static_cast<unsigned char>(token.back())) && *end == 0 && errno == 0 && v == value)
      return true;
  }
  return false;
}
static void check_any(const std::string& line, const CTFEvent& e)
{
  if (e.line() != line)
    violation("line", "the original text %s is kept as %s", shown(line, 100).c_str(), shown(e.line(), 100).c_str());
  const CTFEvent::IdMap* maps[] = { &e.streamContext(), &e.eventContext(), &e.eventData() };
  for (auto m : maps)
    for (auto& f : *m)
    {
      cover("fields_seen");
      if (!stated(line, f.first, f.second))
        violation("invented", "field %s = %llu is not in %s", shown(f.first).c_str(), f.second, shown(line, 300).c_str());
    }
  // a time that is not zero has to be stated between the first brackets
  const double t = e.time();
  if (!(t == 0))
  {
    auto b = line.find('[');
    bool found = false;
    if (b != std::string::npos)
    {
      const std::string rest = line.substr(b + 1);
      char* end = nullptr;
      const double v = strtod(rest.c_str(), &end);
      found = end != rest.c_str() && (v == t || (std::isnan(v) && std::isnan(t)));
    }
    if (!found)
      violation("invented-time", "time %.9f is not in %s", t, shown(line, 300).c_str());
  }
  if (!e.domain().empty() && line.find(e.domain()) == std::string::npos)
    violation("invented-domain", "domain %s is not in %s", shown(e.domain()).c_str(), shown(line, 300).c_str());
  if (!e.name().empty() && line.find(e.name()) == std::string::npos)
    violation("invented-name", "name %s is not in %s", shown(e.name()).c_str(), shown(line, 300).c_str());
  for (int i = 0; i < 2; i++)
  {
    const char* key = i ? "pthread_id" : "vpid";
    try
    {
      auto v = i ? e.tid() : e.pid();
      if (v != 0 && !stated(line, key, v))
        violation("invented-id", "%s %llu is not in %s", key, v, shown(line, 300).c_str());
    }
    catch (const std::exception&)
    {
    }
  }
  std::ostringstream ss;
  ss << e;
}
static void other(const std::string& line, Rng& r)
{
  Parsed p(line, static_cast<unsigned char>(r.chance(50) ? 0xC5 : r.next()));
  if (p.ok)
    check_any(line, *p.e);
  distinct("lines", fnv(line));
  cover("other_lines");
}
static std::string show_fields(const ctf::Fields& f)
{
  std::string s;
  for (auto& x : f)
    s += (s.empty() ? "" : ", ") + shown(x.first) + fmt(" = %llu", x.second);
  if (s.size() > 400)
    s.resize(400);
  return s;
}
static void valid(const ctf::Line& l, const std::string& text, Rng& r)
{
  Parsed p(text, static_cast<unsigned char>(r.next()));
  if (!p.ok)
    return;
  auto& e = *p.e;
  auto wrong = [&](const char* what, const std::string& got, const std::string& want) {
    violation(std::string("exact-") + what, "%s is %s instead of %s for %s", what, got.c_str(), want.c_str(), shown(text, 400).c_str());
  };
  const double t = strtod(l.stamp.c_str(), nullptr);
  if (e.time() != t)
    wrong("time", fmt("%.9f", e.time()), l.stamp);
  if (e.domain() != l.domain)
    wrong("domain", e.domain(), l.domain);
  if (e.name() != l.name)
    wrong("name", e.name(), l.name);
  if (e.streamContext() != l.stream)
    wrong("stream", show_fields(e.streamContext()), show_fields(l.stream));
  if (e.eventContext() != l.context)
    wrong("context", show_fields(e.eventContext()), show_fields(l.context));
  if (e.eventData() != l.data)
    wrong("data", show_fields(e.eventData()), show_fields(l.data));
  auto vp = l.context.find("vpid"), pt = l.context.find("pthread_id");
  try
  {
    if (vp != l.context.end() && e.pid() != vp->second)
      wrong("pid", fmt("%llu", e.pid()), fmt("%llu", vp->second));
    if (pt != l.context.end() && e.tid() != pt->second)
      wrong("tid", fmt("%llu", e.tid()), fmt("%llu", pt->second));
  }
  catch (const std::exception& x)
  {
    wrong("ids", x.what(), "stated");
  }
  check_any(text, e);
  // a copy says the same
  CTFEvent c = e, d;
  d = c;
  if (d.time() != t || d.domain() != l.domain || d.eventData() != l.data || d.line() != text)
    violation("copy", "a copied event differs from the original");
  distinct("lines", fnv(text));
  cover("valid_lines");
  cover("fields_checked", l.stream.size() + l.context.size() + l.data.size());
}
static const char* const pieces[] = { "[",  "]",   "{",  "}",    "{ ",        " }",           ", ",     ",",       " = ",   "=",  " ",          ":",
                                      ": ", "\"",  "0",  "1",    "-",         "12345",        "vpid",   "pthread_id", "id",  "value", "e",   "[1.5]",
                                      "(",  ")",   ".",  "\n",   "scalopus_scope_id:scope_entry: ", "eagle", "[1544361620.739021131]",
                                      "18446744073709551616", "99999999999999999999999999", "-18446744073709551617", "1e999", "1e-999", "nan", "inf", "0x", "0xFFFFFFFFFFFFFFFFF" };
static std::string soup(Rng& r)
{
  std::string s;
  for (std::size_t n = r.below(30); n > 0; n--)
  {
    auto k = r.below(20);
    if (k == 0)
      s += static_cast<char>(r.next());
    else if (k == 1)
      s += any_text(r, 100);
    else
      s += pieces[r.below(sizeof(pieces) / sizeof(pieces[0]))];
  }
  return s;
}
static std::string mutate(Rng& r, std::string s)
{
  for (std::size_t n = 1 + r.below(4); n > 0 && !s.empty(); n--)
  {
    auto a = r.below(s.size()), len = 1 + r.below(r.chance(70) ? 3 : 40);
    switch (r.below(6))
    {
      case 0:
        s.erase(a, len);
        break;
      case 1:
        s.insert(a, pieces[r.below(sizeof(pieces) / sizeof(pieces[0]))]);
        break;
      case 2:
        s[a] = static_cast<char>(r.next());
        break;
      case 3:
        s.insert(r.below(s.size() + 1), s.substr(a, len));
        break;
      case 4:
        s.replace(a, len, pieces[r.below(sizeof(pieces) / sizeof(pieces[0]))]);
        break;
      default:
      {
        // swap two single characters the format depends on
        auto b = s.find_first_of("[]{}:,= ", a);
        if (b != std::string::npos)
          s[b] = "[]{}:,= "[r.below(8)];
      }
    }
  }
  return s;
}
static void run_valid()
{
  Rng r(seed());
  for (int i = 0; i < 20000 * scale() / slow() && !have_violation(); i++)
  {
    auto l = ctf::line(r);
    valid(l, l.text + (r.chance(80) ? "\n" : ""), r);
    if (i % 20 == 0)
    {
      auto cut = ctf::line(r);
      for (std::size_t n = 0; n <= cut.text.size() && n < 600; n++)
        other(cut.text.substr(0, n), r);
      for (std::size_t n = 1; n < cut.text.size() && n < 200; n++)
        other(cut.text.substr(n), r);
    }
  }
}
static void run_other()
{
  Rng r(seed());
  for (int i = 0; i < 60000 * scale() / slow() && !have_violation(); i++)
  {
    switch (r.below(6))
    {
      case 0:
        other(soup(r), r);
        break;
      case 1:
      {
        auto b = r.bytes(r.below(r.chance(5) ? 5000 : 100));
        other(std::string(b.begin(), b.end()), r);
        break;
      }
      case 2:
        other("[1544361620.739021131] eagle a:b: " + soup(r), r);
        break;
      case 3:
        other("[1.5] h a:b: { x = 1 }, { vpid = 3, pthread_id = 4 }, { " + soup(r) + " }", r);
        break;
      default:
        other(mutate(r, ctf::line(r).text), r);
    }
  }
  // very long texts
  for (int i = 0; i < 6 && !have_violation(); i++)
  {
    std::string s = "[1.5] h a:b: { ";
    for (int k = 0; k < 20000; k++)
      s += i == 0 ? "a" : i == 1 ? "x = 1, " : i == 2 ? "{ " : i == 3 ? "} " : i == 4 ? ", " : "7";
    other(s, r);
    other(s + " }, { vpid = 1 }, { id = 2 }", r);
  }
  // an event that was not made from a line
  for (int i = 0; i < 50; i++)
  {
    alignas(CTFEvent) unsigned char mem[sizeof(CTFEvent)];
    std::memset(mem, 0x40 + i, sizeof(mem));
    auto* e = new (mem) CTFEvent;
    check_any("", *e);
    e->~CTFEvent();
    cover("empty_events");
  }
}
// ---- lines written by the trace viewer itself from a trace in the binary format
template <typename T>
static void put(std::string& s, T v)
{
  s.append(reinterpret_cast<const char*>(&v), sizeof(v));
}
static void run_real()
{
  if (access("/usr/bin/babeltrace", X_OK) != 0)
  {
    note("no babeltrace here");
    return;
  }
  Rng r(seed());
  char dir[] = "/tmp/vh_ctf_XXXXXX";
  if (!mkdtemp(dir))
    harness_error("mkdtemp failed");
  const std::string d = dir;
  for (int round = 0; round < 3 * scale() && !have_violation(); round++)
  {
    FILE* m = fopen((d + "/metadata").c_str(), "w");
    fputs("/* CTF 1.8 */\ntypealias integer { size = 32; align = 8; signed = false; } := uint32_t;\n"
          "typealias integer { size = 64; align = 8; signed = false; } := uint64_t;\n"
          "trace { major = 1; minor = 8; byte_order = le; packet.header := struct { uint32_t magic; uint32_t stream_id; }; };\n"
          "env { hostname = \"eagle\"; };\n"
          "clock { name = \"monotonic\"; description = \"x\"; freq = 1000000000; offset = 1544361620000000000; };\n"
          "typealias integer { size = 64; align = 8; signed = false; map = clock.monotonic.value; } := ts_t;\n"
          "stream { id = 0;\n packet.context := struct { ts_t timestamp_begin; ts_t timestamp_end; uint64_t content_size; uint64_t packet_size; "
          "uint64_t events_discarded; uint32_t cpu_id; };\n event.header := struct { uint32_t id; ts_t timestamp; };\n"
          " event.context := struct { integer { size = 32; align = 8; signed = 1; } _vpid; uint64_t _pthread_id; };\n};\n"
          "event { name = \"scalopus_scope_id:scope_entry\"; id = 0; stream_id = 0; loglevel = 13; fields := struct { uint32_t _id; }; };\n"
          "event { name = \"scalopus_scope_id:count_event\"; id = 1; stream_id = 0; fields := struct { uint32_t _id; integer { size = 64; "
          "align = 8; signed = 1; } _value; }; };\n"
          "event { name = \"other:misc\"; id = 2; stream_id = 0; fields := struct { uint32_t _first; string _msg; integer { size = 32; align = 8; base = 16; "
          "signed = 0; } _hex; floating_point { exp_dig = 11; mant_dig = 53; byte_order = le; align = 8; } _f; uint32_t _last; }; };\n"
          "event { name = \"other:empty\"; id = 4; stream_id = 0; };\n",
          m);
    fclose(m);
    std::string ev;
    std::vector<ctf::Line> want;
    std::uint64_t ts = 0;
    for (int i = 0; i < 800; i++)
    {
      ts += r.below(r.chance(10) ? 1000000000 : 2000);
      ctf::Line l;
      std::uint64_t abs = 1544361620000000000ull + ts;
      l.stamp = fmt("%llu.%09llu", static_cast<unsigned long long>(abs / 1000000000), static_cast<unsigned long long>(abs % 1000000000));
      int pid = static_cast<int>(1 + r.below(4194303));
      std::uint64_t tid = ctf::any_u64(r);
      l.stream["cpu_id"] = 2;
      l.context["vpid"] = static_cast<unsigned long long>(pid);
      l.context["pthread_id"] = tid;
      std::uint32_t id = static_cast<std::uint32_t>(r.next());
      const std::uint32_t kind = static_cast<std::uint32_t>(r.below(4) == 3 ? 4 : r.below(3));
      put(ev, kind);
      put(ev, ts);
      put(ev, pid);
      put(ev, tid);
      l.domain = kind < 2 ? "scalopus_scope_id" : "other";
      l.name = kind == 0 ? "scope_entry" : kind == 1 ? "count_event" : kind == 2 ? "misc" : "empty";
      if (kind < 2)
      {
        l.data["id"] = id;
        put(ev, id);
        if (kind == 1)
        {
          std::int64_t v = ctf::any_i64(r);
          put(ev, v);
          l.data["value"] = static_cast<unsigned long long>(v);
        }
      }
      else if (kind == 2)
      {
        put(ev, id);
        l.data["first"] = id;
        std::string s;
        for (char c : ctf::plain_text(r))
          s += c == '"' || static_cast<unsigned char>(c) < 32 ? '.' : c;
        ev += s;
        ev += '\0';
        std::uint32_t hex = static_cast<std::uint32_t>(r.next());
        put(ev, hex);
        l.data["hex"] = hex;
        put(ev, static_cast<double>(r.below(1000)) / 4 + 0.125);
        std::uint32_t last = static_cast<std::uint32_t>(r.next());
        put(ev, last);
        l.data["last"] = last;
      }
      want.push_back(l);
    }
    std::string out;
    put(out, 0xC1FC1FC1u);
    put(out, 0u);
    const std::uint64_t bits = (8 + 5 * 8 + 4 + ev.size()) * 8;
    put(out, std::uint64_t{ 0 });
    put(out, ts + 1);
    put(out, bits);
    put(out, bits);
    put(out, std::uint64_t{ 0 });
    put(out, 2u);
    out += ev;
    FILE* f = fopen((d + "/s_0").c_str(), "wb");
    fwrite(out.data(), 1, out.size(), f);
    fclose(f);
    FILE* p = popen(("/usr/bin/babeltrace --clock-seconds --clock-gmt --no-delta " + d + " 2>/dev/null").c_str(), "r");
    char* line = nullptr;
    std::size_t cap = 0, i = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, p)) > 0 && !have_violation())
    {
      if (i < want.size())
      {
        valid(want[i], std::string(line, static_cast<std::size_t>(n)), r);
        cover("real_lines");
      }
      i++;
    }
    free(line);
    pclose(p);
    if (i != want.size())
      note("babeltrace printed %zu lines instead of %zu", i, want.size());
  }
  for (const char* x : { "/metadata", "/s_0" })
    unlink((d + x).c_str());
  rmdir(dir);
}
int main(int argc, char** argv)
{
  std::string m = argc > 1 ? argv[1] : "valid";
  Watchdog w("parsing returns", 300000);
  if (m == "valid")
    run_valid();
  else if (m == "real")
    run_real();
  else
    run_other();
  return finish();
}
