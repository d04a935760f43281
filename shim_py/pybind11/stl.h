#pragma once
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include "pybind11.h"
namespace pybind11
{
namespace detail
{
template <typename V>
class type_caster<std::vector<V>>
{
public:
  PYBIND11_TYPE_CASTER(std::vector<V>, "list");
  bool load(handle src, bool convert)
  {
    if (!isinstance<sequence>(src) || PyUnicode_Check(src.ptr()))
      return false;
    value.clear();
    for (const auto& x : reinterpret_borrow<sequence>(src))
    {
      make_caster<V> c;
      if (!c.load(x, convert))
        return false;
      value.push_back(take<V>::from(c));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent)
  {
    list l;
    for (auto&& x : src)
      l.append(cast_out(static_cast<std::conditional_t<std::is_lvalue_reference<T>::value, const V&, V&&>>(x), policy, parent));
    return l.release();
  }
};
template <typename M, typename K, typename V>
class shim_map_caster
{
public:
  PYBIND11_TYPE_CASTER(M, "dict");
  bool load(handle src, bool convert)
  {
    if (!isinstance<dict>(src))
      return false;
    value.clear();
    for (auto x : reinterpret_borrow<dict>(src))
    {
      make_caster<K> k;
      make_caster<V> v;
      if (!k.load(x.first, convert) || !v.load(x.second, convert))
        return false;
      value.emplace(take<K>::from(k), take<V>::from(v));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent)
  {
    dict d;
    for (auto&& x : src)
      d[cast_out(static_cast<const K&>(x.first), policy, parent)] = cast_out(static_cast<const V&>(x.second), policy, parent);
    return d.release();
  }
};
template <typename K, typename V>
class type_caster<std::map<K, V>> : public shim_map_caster<std::map<K, V>, K, V>
{
};
template <typename K, typename V>
class type_caster<std::unordered_map<K, V>> : public shim_map_caster<std::unordered_map<K, V>, K, V>
{
};
}  // namespace detail
}  // namespace pybind11
