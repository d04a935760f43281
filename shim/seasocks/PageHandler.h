#pragma once
#include <memory>
#include "seasocks/Request.h"
#include "seasocks/Response.h"
namespace seasocks
{
class PageHandler
{
public:
  virtual ~PageHandler() = default;
  virtual std::shared_ptr<Response> handle(const Request& request) = 0;
};
}  // namespace seasocks
