// Stand-in for the cbor library scalopus uses (a git submodule that is not available here): the part of its interface the
// native tracing code needs, reading and writing RFC 8949 data, strict about malformed input.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace cbor
{
using Bytes = std::vector<std::uint8_t>;
struct error : public std::runtime_error
{
  using std::runtime_error::runtime_error;
};
struct result
{
  std::size_t length{ 0 };
  bool success{ true };
  result() = default;
  result(bool ok) : success(ok)
  {
  }
  result(std::size_t n, bool ok) : length(n), success(ok)
  {
  }
  explicit operator bool() const
  {
    return success;
  }
  result& operator+=(const result& o)
  {
    length += o.length;
    success = success && o.success;
    return *this;
  }
};
class writer
{
public:
  explicit writer(Bytes& b) : out(b)
  {
  }
  Bytes& out;
  result head(std::uint8_t major, std::uint64_t v)
  {
    const std::size_t before = out.size();
    int extra = v < 24 ? 0 : v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 4 : 8;
    out.push_back(static_cast<std::uint8_t>((major << 5) | (extra == 0 ? v : extra == 1 ? 24 : extra == 2 ? 25 : extra == 4 ? 26 : 27)));
    for (int i = extra - 1; i >= 0; i--)
      out.push_back(static_cast<std::uint8_t>(v >> (8 * i)));
    return result{ out.size() - before, true };
  }
  result openArray(std::size_t n)
  {
    return head(4, n);
  }
  result openMap(std::size_t n)
  {
    return head(5, n);
  }
};
class reader
{
public:
  reader(const std::uint8_t* b, std::size_t n) : p(b), end(b + n)
  {
  }
  const std::uint8_t* p;
  const std::uint8_t* end;
  bool peek(std::uint8_t& major) const
  {
    if (p == end)
      return false;
    major = static_cast<std::uint8_t>(*p >> 5);
    return true;
  }
  result head(std::uint8_t want, std::uint64_t& v)
  {
    std::uint8_t major;
    if (!peek(major) || major != want)
      return false;
    std::uint8_t low = *p & 31;
    int extra = low < 24 ? 0 : low == 24 ? 1 : low == 25 ? 2 : low == 26 ? 4 : low == 27 ? 8 : -1;
    if (extra < 0 || end - p < 1 + extra)
      return false;
    p++;
    v = extra == 0 ? low : 0;
    for (int i = 0; i < extra; i++)
      v = (v << 8) | *p++;
    return result{ static_cast<std::size_t>(1 + extra), true };
  }
  result expectArray() const
  {
    std::uint8_t m;
    return peek(m) && m == 4;
  }
  result expectMap() const
  {
    std::uint8_t m;
    return peek(m) && m == 5;
  }
  result readLength(std::size_t& n)
  {
    std::uint8_t m;
    std::uint64_t v = 0;
    if (!peek(m) || (m != 4 && m != 5 && m != 2 && m != 3))
      return false;
    result r = head(m, v);
    if (r.success && v > static_cast<std::uint64_t>(end - p))  // every element takes a byte at least
      return false;
    n = static_cast<std::size_t>(v);
    return r;
  }
  bool skip(int depth = 0)
  {
    std::uint8_t m;
    std::uint64_t v = 0;
    if (depth > 64 || !peek(m) || !head(m, v).success)
      return false;
    switch (m)
    {
      case 2:
      case 3:
        if (v > static_cast<std::uint64_t>(end - p))
          return false;
        p += v;
        return true;
      case 4:
      case 5:
        if (v > static_cast<std::uint64_t>(end - p))
          return false;
        for (std::uint64_t i = 0; i < v * (m == 5 ? 2 : 1); i++)
          if (!skip(depth + 1))
            return false;
        return true;
      case 6:
        return skip(depth + 1);
      default:
        return true;
    }
  }
};
class cbor_object;
// ---- writing
template <typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
result to_cbor(const T& v, writer& w)
{
  if (std::is_signed<T>::value && v < 0)
    return w.head(1, ~static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  return w.head(0, static_cast<std::uint64_t>(v));
}
inline result to_cbor(const std::string& v, writer& w)
{
  result r = w.head(3, v.size());
  w.out.insert(w.out.end(), v.begin(), v.end());
  r.length += v.size();
  return r;
}
inline result to_cbor(const Bytes& v, writer& w)
{
  result r = w.head(2, v.size());
  w.out.insert(w.out.end(), v.begin(), v.end());
  r.length += v.size();
  return r;
}
inline result to_cbor(const cbor_object& v, writer& w);
template <typename T>
result to_cbor(const std::unique_ptr<T>& v, writer& w);
template <typename T>
result to_cbor(const std::vector<T>& v, writer& w);
template <typename K, typename V>
result to_cbor(const std::map<K, V>& v, writer& w);
template <typename T>
result to_cbor(const std::unique_ptr<T>& v, writer& w)
{
  if (v)
    return to_cbor(*v, w);
  w.out.push_back(0xf6);
  return result{ 1, true };
}
template <typename T>
result to_cbor(const std::vector<T>& v, writer& w)
{
  result r = w.openArray(v.size());
  for (const auto& x : v)
    r += to_cbor(x, w);
  return r;
}
template <typename K, typename V>
result to_cbor(const std::map<K, V>& v, writer& w)
{
  result r = w.openMap(v.size());
  for (const auto& x : v)
  {
    r += to_cbor(x.first, w);
    r += to_cbor(x.second, w);
  }
  return r;
}
// ---- reading
template <typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
result from_cbor(T& v, reader& r)
{
  std::uint8_t m;
  std::uint64_t u = 0;
  if (!r.peek(m) || m > 1)
    return false;
  result s = r.head(m, u);
  if (!s)
    return s;
  if (m == 0)
  {
    v = static_cast<T>(u);
    if (static_cast<std::uint64_t>(v) != u || v < T{ 0 })
      return false;
  }
  else
  {
    if (!std::is_signed<T>::value || u > static_cast<std::uint64_t>(INT64_MAX))
      return false;
    const std::int64_t n = static_cast<std::int64_t>(~u);
    v = static_cast<T>(n);
    if (static_cast<std::int64_t>(v) != n)
      return false;
  }
  return s;
}
inline result from_cbor(std::string& v, reader& r)
{
  std::uint8_t m;
  std::size_t n = 0;
  if (!r.peek(m) || m != 3)
    return false;
  result s = r.readLength(n);
  if (!s)
    return s;
  v.assign(reinterpret_cast<const char*>(r.p), n);
  r.p += n;
  return result{ s.length + n, true };
}
inline result from_cbor(Bytes& v, reader& r)
{
  std::uint8_t m;
  std::size_t n = 0;
  if (!r.peek(m) || m != 2)
    return false;
  result s = r.readLength(n);
  if (!s)
    return s;
  v.assign(r.p, r.p + n);
  r.p += n;
  return result{ s.length + n, true };
}
inline result from_cbor(cbor_object& v, reader& r);
template <typename T>
result from_cbor(std::unique_ptr<T>& v, reader& r);
template <typename T>
result from_cbor(std::vector<T>& v, reader& r);
template <typename K, typename V>
result from_cbor(std::map<K, V>& v, reader& r);
template <typename T>
result from_cbor(std::unique_ptr<T>& v, reader& r)
{
  if (r.p != r.end && *r.p == 0xf6)
  {
    r.p++;
    v.reset();
    return result{ 1, true };
  }
  v = std::make_unique<T>();
  return from_cbor(*v, r);
}
template <typename T>
result from_cbor(std::vector<T>& v, reader& r)
{
  std::size_t n = 0;
  result s = r.expectArray();
  if (!s)
    return s;
  s += r.readLength(n);
  v.clear();
  for (std::size_t i = 0; s && i < n; i++)
  {
    v.emplace_back();
    s += from_cbor(v.back(), r);
  }
  return s;
}
template <typename K, typename V>
result from_cbor(std::map<K, V>& v, reader& r)
{
  std::size_t n = 0;
  result s = r.expectMap();
  if (!s)
    return s;
  s += r.readLength(n);
  v.clear();
  for (std::size_t i = 0; s && i < n; i++)
  {
    K k;
    s += from_cbor(k, r);
    if (s)
      s += from_cbor(v[k], r);
  }
  return s;
}
// ---- whole buffers
template <typename T>
result to_cbor(const T& v, Bytes& out)
{
  writer w(out);
  return to_cbor(v, w);
}
template <typename T>
result from_cbor(T& v, const Bytes& in)
{
  reader r(in.data(), in.size());
  result s = from_cbor(v, r);
  if (!s)
    throw error("malformed or unexpected data");
  return s;
}
class cbor_object
{
public:
  Bytes raw;
  cbor_object() = default;
  cbor_object(const cbor_object&) = default;
  cbor_object(cbor_object&&) = default;
  cbor_object& operator=(const cbor_object&) = default;
  cbor_object& operator=(cbor_object&&) = default;
  template <typename T, typename std::enable_if<!std::is_same<typename std::decay<T>::type, cbor_object>::value, int>::type = 0>
  explicit cbor_object(const T& v)
  {
    writer w(raw);
    to_cbor(v, w);
  }
  const Bytes& serialized() const
  {
    return raw;
  }
  template <typename T>
  void get_to(T& v) const
  {
    cbor::from_cbor(v, raw);
  }
  template <typename T>
  T get() const
  {
    T v{};
    get_to(v);
    return v;
  }
};
inline result to_cbor(const cbor_object& v, writer& w)
{
  w.out.insert(w.out.end(), v.raw.begin(), v.raw.end());
  return result{ v.raw.size(), true };
}
inline result from_cbor(cbor_object& v, reader& r)
{
  const std::uint8_t* b = r.p;
  if (!r.skip())
    return false;
  v.raw.assign(b, r.p);
  return result{ v.raw.size(), true };
}
}  // namespace cbor
