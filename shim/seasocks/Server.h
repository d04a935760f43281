// An in-process server with the threading rules of seasocks: everything happens on the thread in loop(), execute() may
// be called from any thread and only queues, queued functions run in their order but at any moment relative to what
// happens on the connections, a connection that is gone may have its address used by the next one, and loop() closes
// all connections when it ends. The functions of Driver stand for the network; monitors report misuse.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "seasocks/Logger.h"
#include "seasocks/PageHandler.h"
#include "seasocks/WebSocket.h"
namespace seasocks
{
struct Misuse  // what the monitors saw
{
  std::atomic<int> sent_after_close{ 0 };
  std::atomic<int> wrong_thread{ 0 };
};
inline Misuse& misuse()
{
  static Misuse m;
  return m;
}
// What the far end of a connection has received.
struct Far
{
  std::mutex mutex;
  std::vector<std::string> got;
  bool closed{ false };
  std::atomic<std::size_t> count{ 0 };
  std::shared_ptr<WebSocket::Handler> handler;
  WebSocket* near{ nullptr };
};
using FarPtr = std::shared_ptr<Far>;
class Server
{
public:
  explicit Server(std::shared_ptr<Logger> logger) : logger_(std::move(logger))
  {
    std::lock_guard<std::mutex> l(registry_mutex());
    latest() = this;
  }
  ~Server()
  {
    {
      std::lock_guard<std::mutex> l(registry_mutex());
      if (latest() == this)
        latest() = nullptr;
    }
    shutdown();
    for (auto* c : all_)
      ::operator delete(c);
  }
  void setClientBufferSize(std::size_t)
  {
  }
  void addWebSocketHandler(const char* endpoint, std::shared_ptr<WebSocket::Handler> handler, bool = false)
  {
    sockets_[endpoint] = std::move(handler);
  }
  void addPageHandler(std::shared_ptr<PageHandler> handler)
  {
    pages_.push_back(std::move(handler));
  }
  bool startListening(int port)
  {
    std::lock_guard<std::mutex> l(mutex_);
    listening_ = true;
    port_ = port;
    wake_.notify_all();
    return true;
  }
  bool loop()
  {
    thread_ = std::this_thread::get_id();
    std::unique_lock<std::mutex> l(mutex_);
    unsigned turn = 0;
    while (!terminate_)
    {
      if (events_.empty() && functions_.empty())
      {
        wake_.wait_for(l, std::chrono::milliseconds(50));
        continue;
      }
      // either first what happened on the connections or first what was queued, more or less of it
      rnd_ = rnd_ * 6364136223846793005ull + 1442695040888963407ull;
      turn = static_cast<unsigned>(rnd_ >> 60);
      if (!events_.empty() && (turn < 10 || functions_.empty()))
      {
        for (unsigned k = 1 + turn % 4; k > 0 && !events_.empty(); k--)
        {
          auto f = std::move(events_.front());
          events_.pop_front();
          l.unlock();
          f();
          l.lock();
        }
      }
      else
        run_functions(l);
    }
    run_functions(l);
    l.unlock();
    shutdown();
    l.lock();
    ended_ = true;
    return true;
  }
  void terminate()
  {
    std::lock_guard<std::mutex> l(mutex_);
    terminate_ = true;
    wake_.notify_all();
  }
  void execute(std::function<void()> f)
  {
    std::lock_guard<std::mutex> l(mutex_);
    functions_.push_back(std::move(f));
    wake_.notify_all();
  }
  // ---- the network side
  static Server*& latest()
  {
    static Server* s = nullptr;
    return s;
  }
  static std::mutex& registry_mutex()
  {
    static std::mutex m;
    return m;
  }
  void set_seed(std::uint64_t s)
  {
    std::lock_guard<std::mutex> l(mutex_);
    rnd_ = s;
  }
  bool has(const std::string& path) const
  {
    return sockets_.count(path) != 0;
  }
  FarPtr connect(const std::string& path)
  {
    auto far = std::make_shared<Far>();
    far->handler = sockets_.at(path);
    event([this, far] {
      void* place;
      if (free_.empty())
      {
        place = ::operator new(sizeof(Connection));
        all_.push_back(place);
      }
      else
      {
        place = free_.back();
        free_.pop_back();
      }
      auto* c = new (place) Connection(this, far);
      far->near = c;
      open_[c] = far;
      far->handler->onConnect(c);
    });
    return far;
  }
  void text(const FarPtr& far, const std::string& s)
  {
    event([this, far, s] {
      if (far->near)
        far->handler->onData(far->near, s.c_str());
    });
  }
  void binary(const FarPtr& far, const std::vector<std::uint8_t>& s)
  {
    event([this, far, s] {
      if (far->near)
        far->handler->onData(far->near, s.data(), s.size());
    });
  }
  void disconnect(const FarPtr& far, std::function<void()> then = {})
  {
    event([this, far, then] {
      if (far->near)
        close(far);
      if (then)
        then();
    });
  }
  void page(const std::string& uri, std::function<void(std::shared_ptr<Response>)> then)
  {
    event([this, uri, then] {
      struct R : public Request
      {
        std::string u;
        std::string getRequestUri() const override
        {
          return u;
        }
      } r;
      r.u = uri;
      std::shared_ptr<Response> x = Response::unhandled();
      for (auto& p : pages_)
      {
        auto y = p->handle(r);
        if (y && y->handled)
        {
          x = y;
          break;
        }
      }
      then(x);
    });
  }
  bool ended()
  {
    std::lock_guard<std::mutex> l(mutex_);
    return ended_;
  }

private:
  struct Connection : public WebSocket
  {
    Server* server;
    FarPtr far;
    std::uint64_t alive{ 0x616c697665ull };
    Connection(Server* s, FarPtr f) : server(s), far(std::move(f))
    {
    }
    void send(const char* data) override
    {
      if (std::this_thread::get_id() != server->thread_)
        misuse().wrong_thread++;
      if (alive != 0x616c697665ull)
      {
        misuse().sent_after_close++;
        return;
      }
      std::lock_guard<std::mutex> l(far->mutex);
      far->got.push_back(data);
      far->count++;
    }
    void send(const uint8_t* data, size_t length) override
    {
      send(std::string(reinterpret_cast<const char*>(data), length).c_str());
    }
    void close() override
    {
      server->disconnect(far);
    }
  };
  void event(std::function<void()> f)
  {
    std::lock_guard<std::mutex> l(mutex_);
    events_.push_back(std::move(f));
    wake_.notify_all();
  }
  void run_functions(std::unique_lock<std::mutex>& l)
  {
    std::deque<std::function<void()>> now;
    now.swap(functions_);
    l.unlock();
    for (auto& f : now)
      f();
    now.clear();
    l.lock();
  }
  void close(const FarPtr& far)
  {
    auto* c = static_cast<Connection*>(far->near);
    far->handler->onDisconnect(c);
    c->alive = 0;
    c->far.reset();
    far->near = nullptr;
    {
      std::lock_guard<std::mutex> l(far->mutex);
      far->closed = true;
    }
    open_.erase(c);
    free_.push_back(c);
  }
  void shutdown()
  {
    while (!open_.empty())
    {
      auto far = open_.begin()->second;
      close(far);
    }
  }
  std::shared_ptr<Logger> logger_;
  std::map<std::string, std::shared_ptr<WebSocket::Handler>> sockets_;
  std::vector<std::shared_ptr<PageHandler>> pages_;
  std::mutex mutex_;
  std::condition_variable wake_;
  std::deque<std::function<void()>> events_, functions_;
  bool terminate_{ false }, listening_{ false }, ended_{ false };
  int port_{ 0 };
  std::uint64_t rnd_{ 1 };
  std::thread::id thread_;
  std::map<WebSocket*, FarPtr> open_;
  std::vector<void*> free_, all_;
};
}  // namespace seasocks
