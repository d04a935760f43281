#pragma once
#include <functional>
#include "pybind11.h"
namespace pybind11
{
namespace detail
{
template <typename R, typename... A>
class type_caster<std::function<R(A...)>>
{
public:
  PYBIND11_TYPE_CASTER(std::function<R(A...)>, "callable");
  bool load(handle src, bool convert)
  {
    if (src.is_none())
    {
      value = nullptr;
      return convert;
    }
    if (!isinstance<function>(src))
      return false;
    auto f = std::shared_ptr<object>(new object(src, borrowed_t{}), [](object* o) {
      gil_scoped_acquire gil;
      delete o;
    });
    value = [f](A... a) -> R {
      gil_scoped_acquire gil;
      object r = (*f)(std::forward<A>(a)...);
      return r.template cast<R>();
    };
    return true;
  }
  static handle cast(const std::function<R(A...)>& f, return_value_policy, handle)
  {
    if (!f)
      return none().release();
    return free_of("function", handle(), [f](A... a) -> R { return f(std::forward<A>(a)...); }).release();
  }
};
}  // namespace detail
}  // namespace pybind11
