#pragma once
#include <string>
namespace seasocks
{
class Request
{
public:
  virtual ~Request() = default;
  virtual std::string getRequestUri() const = 0;
};
}  // namespace seasocks
