#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
namespace seasocks
{
class WebSocket
{
public:
  virtual void send(const char* data) = 0;
  virtual void send(const uint8_t* data, size_t length) = 0;
  void send(const std::string& data)
  {
    send(data.c_str());
  }
  virtual void close() = 0;
  class Handler
  {
  public:
    virtual ~Handler() = default;
    virtual void onConnect(WebSocket* connection) = 0;
    virtual void onData(WebSocket* connection, const char* data)
    {
      (void)connection, (void)data;
    }
    virtual void onData(WebSocket* connection, const uint8_t* data, size_t length)
    {
      (void)connection, (void)data, (void)length;
    }
    virtual void onDisconnect(WebSocket* connection) = 0;
  };

protected:
  virtual ~WebSocket() = default;
};
}  // namespace seasocks
