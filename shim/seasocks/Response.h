#pragma once
#include <memory>
#include <string>
namespace seasocks
{
class Response
{
public:
  bool handled{ false };
  std::string body;
  static std::shared_ptr<Response> unhandled()
  {
    return std::make_shared<Response>();
  }
  static std::shared_ptr<Response> make(const std::string& body)
  {
    auto r = std::make_shared<Response>();
    r->handled = true;
    r->body = body;
    return r;
  }
  static std::shared_ptr<Response> htmlResponse(const std::string& body)
  {
    return make(body);
  }
  static std::shared_ptr<Response> jsonResponse(const std::string& body)
  {
    return make(body);
  }
  static std::shared_ptr<Response> textResponse(const std::string& body)
  {
    return make(body);
  }
};
}  // namespace seasocks
