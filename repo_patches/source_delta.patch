From 98466fc5f02a4a150254fabd216240ded2983250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:04 +0000
Subject: [PATCH 01/69] fix: register unix transport request before sending it,
 the response may arrive first

---
 scalopus_transport/src/transport_unix.cpp | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..3c417f9 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -146,18 +146,29 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  {
+    // Store the promise in the map before sending, the response may arrive before the send call returns.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    sent = protocol::send(client_fd_, outgoing_msg);
+  }
+
+  if (!sent)
+  {
+    // Send failed, this request will never be answered.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto request_it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (request_it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      request_it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(request_it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From f68e83f87edc55fcd452d4c396c22ce761ab0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 02/69] fix: unix transport must handle partial reads and
 writes and interrupted system calls

---
 scalopus_transport/src/protocol.cpp | 57 ++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..6d6cddc 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -34,6 +34,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <array>
+#include <cerrno>
 #include <cstring>
 #include <iostream>
 
@@ -54,6 +55,10 @@ bool readData(int fd, size_t length, Data& incoming)
     ssize_t chunk_received = ::read(fd, buf.data(), std::min(length - received, chunk_size));
     if (chunk_received == -1)
     {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted by a signal, just try again.
+      }
       return false;  // this should not happen as it indicates a broken transmission or broken file descriptor.
     }
 
@@ -68,23 +73,12 @@ bool readData(int fd, size_t length, Data& incoming)
       break;
     }
 
-    if (chunk_received == chunk_size)
-    {
-      // read the next chunk.
-      continue;
-    }
-
-    if (chunk_received == -1)
-    {
-      // an error occured.
-      return false;
-    }
-    else if (chunk_received == 0)
+    if (chunk_received == 0)
     {
       // end of file.
       return false;
     }
-    break;
+    // Stream sockets may return less than requested, read the remainder.
   }
   return true;
 }
@@ -152,6 +146,29 @@ bool receive(int fd, Msg& incoming)
   return false;
 }
 
+/**
+ * @brief Send all bytes of a buffer, continues on partial writes and if interrupted by signals.
+ */
+static bool sendData(int fd, const void* data, size_t length)
+{
+  const char* bytes = static_cast<const char*>(data);
+  size_t sent{ 0 };
+  while (sent < length)
+  {
+    const ssize_t chunk_sent = ::send(fd, bytes + sent, length - sent, MSG_NOSIGNAL);
+    if (chunk_sent == -1)
+    {
+      if (errno == EINTR)
+      {
+        continue;
+      }
+      return false;
+    }
+    sent += static_cast<size_t>(chunk_sent);
+  }
+  return true;
+}
+
 bool send(int fd, const Msg& outgoing)
 {
   if (fd == 0)
@@ -162,35 +179,31 @@ bool send(int fd, const Msg& outgoing)
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
   // Send request id.
-  if (::send(fd, &outgoing.request_id, sizeof(outgoing.request_id), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(outgoing.request_id)))
+  if (!sendData(fd, &outgoing.request_id, sizeof(outgoing.request_id)))
   {
     return false;
   }
 
   // Send endpoint length
-  if (::send(fd, &length_endpoint_name, sizeof(length_endpoint_name), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(length_endpoint_name)))
+  if (!sendData(fd, &length_endpoint_name, sizeof(length_endpoint_name)))
   {
     return false;
   }
 
   // Send endpoint name.
-  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(length_endpoint_name))
+  if (!sendData(fd, outgoing.endpoint.data(), length_endpoint_name))
   {
     return false;
   }
 
   // Send data length
-  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
+  if (!sendData(fd, &length_data, sizeof(length_data)))
   {
     return false;
   }
 
   // Send data
-  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(outgoing.data.size()))
+  if (!sendData(fd, outgoing.data.data(), outgoing.data.size()))
   {
     return false;
   }
-- 
2.43.0


From d658bf4533e6aa6a0812dd093390099cd2f0e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 03/69] fix: unix transport must not use the descriptor sets if
 select failed, accept or read would block forever

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 3c417f9..483ddd3 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -253,6 +253,7 @@ void TransportUnix::work()
     if (select_result == -1)
     {
       logger_("[TransportUnix]: Failure occured on select.");
+      continue;  // the contents of the file descriptor sets are not valid.
     }
 
     // Handle server stuff, accept new connection:
-- 
2.43.0


From 395fc0723321739a0782969c57047c05e193b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 04/69] fix: unix transport client processed the message of
 which the reception failed

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 483ddd3..6fc9a39 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -278,6 +278,7 @@ void TransportUnix::work()
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
         client_fd_ = 0;
+        continue;  // there is no message to process.
       }
 
       // lock the requests map.
-- 
2.43.0


From 18db34d7182934e7dd078f02a51a953b80462e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 05/69] fix: unix transport terminated the process and leaked
 the socket if serving or connecting failed

---
 scalopus_transport/src/transport_unix.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 6fc9a39..0c8b66f 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -54,6 +54,7 @@ bool TransportUnix::serve()
   if (server_fd_ == -1)
   {
     logger_("[TransportUnix] Could not create socket.");
+    server_fd_ = 0;
     return false;
   }
 
@@ -74,6 +75,8 @@ bool TransportUnix::serve()
   if (bind(server_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
     logger_("[TransportUnix] Could not bind socket.");
+    ::close(server_fd_);
+    server_fd_ = 0;
     return false;
   }
 
@@ -81,6 +84,8 @@ bool TransportUnix::serve()
   if (listen(server_fd_, 5) == -1)
   {
     logger_("[TransportUnix] Could not start listening for connections.");
+    ::close(server_fd_);
+    server_fd_ = 0;
     return false;
   }
   else
@@ -104,6 +109,7 @@ bool TransportUnix::connect(std::size_t pid)
   if (client_fd_ == -1)
   {
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
+    client_fd_ = 0;
     return false;
   }
 
@@ -121,6 +127,8 @@ bool TransportUnix::connect(std::size_t pid)
   if (::connect(client_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
     logger_("[TransportUnix] Could not connect socket.");
+    ::close(client_fd_);
+    client_fd_ = 0;
     return false;
   }
   else
@@ -216,7 +224,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())  // there is no thread if serving or connecting failed.
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
-- 
2.43.0


From b85e1cf2380fea9338206e5f961446233f98bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 06/69] fix: unix transport server looked up endpoints without
 holding the lock

---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0c8b66f..6ea7497 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -418,12 +418,12 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    return endpoint->handle(*this, request.data, response.data);
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From bdcb385bb0682f65d38cc7cdc1b45cadd88c92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 07/69] fix: unix transport deadlocked if an endpoint used the
 transport while handling unsolicited data

---
 scalopus_transport/src/transport_unix.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 6ea7497..f8373d4 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -293,7 +293,7 @@ void TransportUnix::work()
       }
 
       // lock the requests map.
-      std::lock_guard<std::mutex> lock(request_lock_);
+      std::unique_lock<std::mutex> lock(request_lock_);
       // Try to find a promise for the message we just received.
       auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });
       if (request_it != ongoing_requests_.end())
@@ -307,16 +307,17 @@ void TransportUnix::work()
       }
       else
       {
-        // no active request for this outstanding. Hand it off to the endpoint with this name.
-        std::lock_guard<std::mutex> elock(endpoint_mutex_);
-        const auto it = endpoints_.find(incoming.endpoint);
-        if (it != endpoints_.end())
+        // no active request for this outstanding. Hand it off to the endpoint with this name, without holding any lock
+        // such that the endpoint is free to use this transport.
+        lock.unlock();
+        const auto endpoint = getEndpoint(incoming.endpoint);
+        if (endpoint != nullptr)
         {
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          if (endpoint->unsolicited(*this, incoming.data, response.data))
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
-- 
2.43.0


From bcb22e4a00e5388fcf8364667b861d566f35dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 08/69] fix: data races on the state shared between the unix
 transport worker and its users

---
 scalopus_transport/src/transport_unix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 04fd730..e4dc042 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -85,11 +85,11 @@ private:
 
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
-  int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  std::atomic<int> server_fd_{ 0 };  //!< File descriptor from the server bind.
+  std::atomic<int> client_fd_{ 0 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
-  bool running_{ false };  //!< Boolean to quit the worker thread.
+  std::atomic<bool> running_{ false };  //!< Boolean to quit the worker thread.
 
   std::set<int> connections_;  //!< Open connections, also holds server_fd_ and client_fd_.
 
-- 
2.43.0


From 334116775d491bd9c96d60d79f066188502c6380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 09/69] fix: unix transport shut down and closed descriptors
 after closing them, affecting whoever got that number since

---
 scalopus_transport/src/transport_unix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index f8373d4..2cb6a9f 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -232,8 +232,8 @@ TransportUnix::~TransportUnix()
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -356,16 +356,17 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
+          continue;  // this descriptor may be reused by now.
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From f4444c4e565061faadc35557786fb971ee2a2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 10/69] fix: an exception from an endpoint terminated the
 process using the unix transport

---
 scalopus_transport/src/transport_unix.cpp | 31 ++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 2cb6a9f..43dce63 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -317,7 +317,20 @@ void TransportUnix::work()
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (endpoint->unsolicited(*this, incoming.data, response.data))
+          bool respond{ false };
+          try
+          {
+            respond = endpoint->unsolicited(*this, incoming.data, response.data);
+          }
+          catch (const std::exception& e)
+          {
+            logger_(std::string("[TransportUnix] Endpoint failed handling unsolicited data: ") + e.what());
+          }
+          catch (...)
+          {
+            logger_("[TransportUnix] Endpoint failed handling unsolicited data.");
+          }
+          if (respond)
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -424,8 +437,20 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   if (endpoint != nullptr)
   {
     Data outgoing;
-    // Let the endpoint handle the data and if necessary respond.
-    return endpoint->handle(*this, request.data, response.data);
+    // Let the endpoint handle the data and if necessary respond. A failing endpoint must not take down the transport.
+    try
+    {
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (const std::exception& e)
+    {
+      logger_(std::string("[TransportUnix] Endpoint failed handling a request: ") + e.what());
+    }
+    catch (...)
+    {
+      logger_("[TransportUnix] Endpoint failed handling a request.");
+    }
+    return false;
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From b005177561115fef2e5325a11f665d2a7b8128a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 11/69] fix: unix transport stopped serving its clients while
 it could not accept another one

---
 scalopus_transport/src/transport_unix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 43dce63..70b6555 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -274,10 +274,13 @@ void TransportUnix::work()
       client = accept(server_fd_, nullptr, nullptr);
       if (client == -1)
       {
+        // Keep going, the other connections should still be served.
         logger_("[TransportUnix] Could not accept client.");
-        continue;
       }
-      connections_.insert(client);
+      else
+      {
+        connections_.insert(client);
+      }
     }
 
     // handle client readable:
-- 
2.43.0


From 946847941147e684424f5f6653fdb5ad1b627aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 12/69] fix: unix transport corrupted the stack in processes
 with more than FD_SETSIZE open files

---
 scalopus_transport/src/transport_unix.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 70b6555..633067a 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -58,6 +58,14 @@ bool TransportUnix::serve()
     return false;
   }
 
+  if (server_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Too many open files, socket can't be used with select.");
+    ::close(server_fd_);
+    server_fd_ = 0;
+    return false;
+  }
+
   // Create the socket struct.
   struct sockaddr_un socket_config;
   std::memset(&socket_config, 0, sizeof(socket_config));
@@ -113,6 +121,14 @@ bool TransportUnix::connect(std::size_t pid)
     return false;
   }
 
+  if (client_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Too many open files, socket can't be used with select.");
+    ::close(client_fd_);
+    client_fd_ = 0;
+    return false;
+  }
+
   // Create the socket struct.
   struct sockaddr_un socket_config;
   std::memset(&socket_config, 0, sizeof(socket_config));
@@ -277,6 +293,11 @@ void TransportUnix::work()
         // Keep going, the other connections should still be served.
         logger_("[TransportUnix] Could not accept client.");
       }
+      else if (client >= FD_SETSIZE)
+      {
+        logger_("[TransportUnix] Too many open files to serve another client.");
+        ::close(client);
+      }
       else
       {
         connections_.insert(client);
-- 
2.43.0


From e580db4b2e87be869cba9bf5746c957f0202c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 13/69] fix: broadcasts were sent out in reverse order

---
 scalopus_interface/include/scalopus_interface/transport.h | 3 ++-
 scalopus_interface/src/transport.cpp                      | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_interface/include/scalopus_interface/transport.h b/scalopus_interface/include/scalopus_interface/transport.h
index e8f388a..83245c7 100644
--- a/scalopus_interface/include/scalopus_interface/transport.h
+++ b/scalopus_interface/include/scalopus_interface/transport.h
@@ -30,6 +30,7 @@
 #ifndef SCALOPUS_INTERFACE_TRANSPORT_H
 #define SCALOPUS_INTERFACE_TRANSPORT_H
 
+#include <deque>
 #include <future>
 #include <map>
 #include <memory>
@@ -117,7 +118,7 @@ protected:
    */
   std::pair<std::string, Data> popBroadcast();
 
-  std::vector<std::pair<std::string, Data>> broadcast_messages_;  //!< List of broadcast messages to send out.
+  std::deque<std::pair<std::string, Data>> broadcast_messages_;  //!< List of broadcast messages to send out.
   mutable std::mutex broadcast_message_mutex_;
 
   std::map<std::string, Endpoint::Ptr> endpoints_;  //!< Endpoints known by this transport, key is their name.
diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..3bc6fab 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.pop_front();
   return tmp;
 }
 
-- 
2.43.0


From 5f63da834675d7bcd60cbe209fd1ed97325c342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 14/69] fix: loopback transport dereferenced the null endpoint
 for requests to unknown endpoints

---
 scalopus_transport/src/transport_loopback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..c312192 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -97,13 +97,14 @@ void TransportLoopback::work()
         }
 
         // get the appropriate endpoint from the server.
-        auto endpoint = server_->getEndpoint(remote_endpoint_name);
+        auto endpoint = (server_ != nullptr) ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
         // If the endpoint doesn't exist on the remote end, throw
         if (endpoint == nullptr)
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
         Data resp;
-- 
2.43.0


From a8382cd552349fce4b9fdc7f77da04cefe6ae200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 15/69] fix: loopback transport crashed on replies to
 broadcasts if the server lacks the endpoint or answers the reply

---
 scalopus_transport/src/transport_loopback.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index c312192..0921826 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -136,10 +136,11 @@ void TransportLoopback::work()
               if (endpoint->unsolicited(*client, outgoing, resp))
               {
                 Data resp2;
-                if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                auto server_endpoint = getEndpoint(remote_endpoint_name);
+                if ((server_endpoint != nullptr) && server_endpoint->handle(*client, resp, resp2))
                 {
                   // We stop here... This is slightly different than a real transport... but works for now.
-                  throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
+                  logger_("The TransportLoopback does not handle responses on unsolicited data.");
                 }
               }
             }
-- 
2.43.0


From 406b336f18d78c685a662e6d8c5dfe4d6f4d94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 16/69] fix: data races on the client and server lists of the
 loopback transport

---
 .../scalopus_transport/transport_loopback.h       |  2 ++
 scalopus_transport/src/transport_loopback.cpp     | 15 ++++++++++++++-
 scalopus_transport/src/transport_loopback.h       |  5 ++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/include/scalopus_transport/transport_loopback.h b/scalopus_transport/include/scalopus_transport/transport_loopback.h
index 0974e6a..996bf9c 100644
--- a/scalopus_transport/include/scalopus_transport/transport_loopback.h
+++ b/scalopus_transport/include/scalopus_transport/transport_loopback.h
@@ -33,6 +33,7 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <memory>
+#include <mutex>
 
 namespace scalopus
 {
@@ -49,6 +50,7 @@ public:
 
 protected:
   std::vector<std::weak_ptr<Transport>> servers_;
+  std::mutex servers_lock_;
 };
 }  // namespace scalopus
 
diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 0921826..2f017fa 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "transport_loopback.h"
+#include <algorithm>
 #include <sstream>
 
 namespace scalopus
@@ -51,6 +52,11 @@ TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
 {
+  std::lock_guard<std::mutex> lock(clients_lock_);
+  // Clients that went away do not have to be retained.
+  clients_.erase(
+      std::remove_if(clients_.begin(), clients_.end(), [](const auto& existing) { return existing.expired(); }),
+      clients_.end());
   clients_.push_back(client);
 }
 
@@ -124,7 +130,12 @@ void TransportLoopback::work()
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
         const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        std::vector<Transport::WeakPtr> clients;
+        {
+          std::lock_guard<std::mutex> lock(clients_lock_);
+          clients = clients_;
+        }
+        for (auto weak_client : clients)
         {
           auto client = weak_client.lock();
           if (client != nullptr)
@@ -177,6 +188,7 @@ std::size_t DestinationLoopback::hash_code() const
 std::vector<Destination::Ptr> TransportLoopbackFactory::discover()
 {
   std::vector<Destination::Ptr> possible_destinations;
+  std::lock_guard<std::mutex> lock(servers_lock_);
   for (const auto& weak_server : servers_)
   {
     auto server = weak_server.lock();
@@ -195,6 +207,7 @@ std::vector<Destination::Ptr> TransportLoopbackFactory::discover()
 Transport::Ptr TransportLoopbackFactory::serve()
 {
   auto new_server = std::make_shared<TransportLoopback>();
+  std::lock_guard<std::mutex> lock(servers_lock_);
   servers_.push_back(new_server);
   return new_server;
 }
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..3bc70e9 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -35,6 +35,8 @@
 #include <future>
 #include <map>
 #include <memory>
+#include <atomic>
+#include <mutex>
 #include <set>
 #include <thread>
 #include <utility>
@@ -81,13 +83,14 @@ private:
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
+  std::mutex clients_lock_;                  //!< Lock to guard modification of the clients_ list.
 
   /**
    * @brief Function in which we server the ongoing requests and broadcasts.
    */
   void work();
 
-  bool running_{ true };  //!< Bool to stop the worker loop.
+  std::atomic<bool> running_{ true };  //!< Bool to stop the worker loop.
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 3e4ccb7310dbf7f465da5be515bfd9f77f0ec669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 17/69] fix: loopback transport deadlocked if an endpoint used
 the transport and terminated if one threw

---
 scalopus_transport/src/transport_loopback.cpp | 83 +++++++++++++------
 scalopus_transport/src/transport_loopback.h   |  3 +-
 2 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 2f017fa..fb6ceed 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -88,39 +88,61 @@ void TransportLoopback::work()
 {
   while (running_)
   {
-    // First, server any requests that are pending.
+    // First, server any requests that are pending. The lock is not held while the endpoint is handling the request, this
+    // thread is the only one that removes requests.
+    while (running_)
     {
-      std::lock_guard<decltype(request_lock_)> lock(request_lock_);
-      for (auto& req : ongoing_requests_)
+      std::unique_lock<decltype(request_lock_)> lock(request_lock_);
+      if (ongoing_requests_.empty())
       {
-        const auto& remote_endpoint_name = std::get<0>(req);
-        const auto& outgoing = std::get<1>(req);
-        auto& promise = std::get<2>(req);
-        auto& request_ptr = std::get<3>(req);
-        if (request_ptr.lock() == nullptr)
-        {
-          continue;  // request went stale.
-        }
+        break;
+      }
+      auto& req = ongoing_requests_.front();
+      lock.unlock();
 
+      const auto& remote_endpoint_name = std::get<0>(req);
+      const auto& outgoing = std::get<1>(req);
+      auto& promise = std::get<2>(req);
+      auto& request_ptr = std::get<3>(req);
+
+      Data resp;
+      bool res{ false };
+      std::exception_ptr failure;
+      if (request_ptr.lock() != nullptr)  // else, the request went stale.
+      {
         // get the appropriate endpoint from the server.
         auto endpoint = (server_ != nullptr) ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
         // If the endpoint doesn't exist on the remote end, throw
         if (endpoint == nullptr)
         {
-          promise.set_exception(std::make_exception_ptr(std::runtime_error(
-              "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
-          continue;
+          failure = std::make_exception_ptr(std::runtime_error(
+              "The TransportLoopback does not sending data to non-existant endpoints on the server."));
         }
-
-        Data resp;
-        auto res = endpoint->handle(*server_, outgoing, resp);
-        if (res)
+        else
         {
-          promise.set_value(resp);
+          try
+          {
+            res = endpoint->handle(*server_, outgoing, resp);
+          }
+          catch (...)
+          {
+            failure = std::current_exception();
+          }
         }
       }
-      ongoing_requests_.clear();  // We processed all requests, we can clear them.
+
+      // Fulfill the promise and remove the request, we processed it.
+      lock.lock();
+      if (failure)
+      {
+        promise.set_exception(failure);
+      }
+      else if (res)
+      {
+        promise.set_value(resp);
+      }
+      ongoing_requests_.pop_front();
     }
 
     // Secondly, we server all the broadcasts
@@ -143,17 +165,24 @@ void TransportLoopback::work()
             auto endpoint = client->getEndpoint(remote_endpoint_name);
             if (endpoint != nullptr)
             {
-              Data resp;
-              if (endpoint->unsolicited(*client, outgoing, resp))
+              try
               {
-                Data resp2;
-                auto server_endpoint = getEndpoint(remote_endpoint_name);
-                if ((server_endpoint != nullptr) && server_endpoint->handle(*client, resp, resp2))
+                Data resp;
+                if (endpoint->unsolicited(*client, outgoing, resp))
                 {
-                  // We stop here... This is slightly different than a real transport... but works for now.
-                  logger_("The TransportLoopback does not handle responses on unsolicited data.");
+                  Data resp2;
+                  auto server_endpoint = getEndpoint(remote_endpoint_name);
+                  if ((server_endpoint != nullptr) && server_endpoint->handle(*client, resp, resp2))
+                  {
+                    // We stop here... This is slightly different than a real transport... but works for now.
+                    logger_("The TransportLoopback does not handle responses on unsolicited data.");
+                  }
                 }
               }
+              catch (...)
+              {
+                logger_("The TransportLoopback endpoint failed handling unsolicited data.");
+              }
             }
           }
         }
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 3bc70e9..6885b2f 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -36,6 +36,7 @@
 #include <map>
 #include <memory>
 #include <atomic>
+#include <deque>
 #include <mutex>
 #include <set>
 #include <thread>
@@ -96,7 +97,7 @@ private:
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
 
   //! The outstanding requests and their promised data.
-  std::vector<PendingRequest> ongoing_requests_;
+  std::deque<PendingRequest> ongoing_requests_;
 };
 
 /**
-- 
2.43.0


From cc10ca3ed35ff95369a3e2b0a319a8b5dcea1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 18/69] fix: loopback transport joined itself if its worker
 held the last reference to the last client

---
 scalopus_transport/src/transport_loopback.cpp | 24 +++++++++++++++----
 scalopus_transport/src/transport_loopback.h   |  3 ++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index fb6ceed..5f77f23 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -35,14 +35,21 @@ namespace scalopus
 {
 TransportLoopback::TransportLoopback()
 {
-  running_ = true;
   thread_ = std::thread([&]() { work(); });
 }
 
 TransportLoopback::~TransportLoopback()
 {
-  running_ = false;
-  thread_.join();
+  *running_ = false;
+  if (thread_.get_id() == std::this_thread::get_id())
+  {
+    // The worker itself released the last reference to this transport, while it was handing a broadcast to a client.
+    thread_.detach();
+  }
+  else
+  {
+    thread_.join();
+  }
 }
 
 TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
@@ -86,11 +93,12 @@ std::size_t TransportLoopback::pendingRequests() const
 
 void TransportLoopback::work()
 {
-  while (running_)
+  const auto running = running_;
+  while (*running)
   {
     // First, server any requests that are pending. The lock is not held while the endpoint is handling the request, this
     // thread is the only one that removes requests.
-    while (running_)
+    while (*running)
     {
       std::unique_lock<decltype(request_lock_)> lock(request_lock_);
       if (ongoing_requests_.empty())
@@ -184,6 +192,12 @@ void TransportLoopback::work()
                 logger_("The TransportLoopback endpoint failed handling unsolicited data.");
               }
             }
+            endpoint.reset();
+            client.reset();  // This may destroy the client and with it this transport.
+            if (!*running)
+            {
+              return;
+            }
           }
         }
       }
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 6885b2f..ee02c2a 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -91,7 +91,8 @@ private:
    */
   void work();
 
-  std::atomic<bool> running_{ true };  //!< Bool to stop the worker loop.
+  //! Bool to stop the worker loop. Shared with the worker, such that it can be checked by it after destruction.
+  std::shared_ptr<std::atomic<bool>> running_{ std::make_shared<std::atomic<bool>>(true) };
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 5a5f4cac4e2065135ea85f85f63df9191612f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 19/69] fix: trace mapping endpoint read from an empty request

---
 scalopus_tracing/src/endpoint_trace_mapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..a70e458 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && (request.front() == 'm'))
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
-- 
2.43.0


From f1613ad31a7ce36800f36f95d34f2b77db702b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 20/69] fix: endpoint manager dereferenced the null transport
 if a server vanished before connecting

---
 scalopus_general/src/endpoint_manager_poll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..849ceea 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -84,7 +84,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
   auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  if ((transport == nullptr) || !transport->isConnected())
   {
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
-- 
2.43.0


From 941ba6abad92114baa69883ca75a1192ee87cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 21/69] fix: data race on the flag that stops the endpoint
 manager polling

---
 .../include_consumer/scalopus_general/endpoint_manager_poll.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index edf10f0..7ac17c0 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -33,6 +33,7 @@
 #include <scalopus_interface/endpoint_manager.h>
 #include <scalopus_interface/trace_event_provider.h>
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -109,7 +110,7 @@ private:
 
   TransportFactory::Ptr factory_;  //!< The transport factory to use to discover and create connections.
 
-  bool is_polling_{ false };     //!< Should the worker thread continue polling?
+  std::atomic<bool> is_polling_{ false };  //!< Should the worker thread continue polling?
   double poll_interval_{ 1.0 };  //!< The poll interval in seconds.
   std::thread thread_;           //!< Thread in which the polling takes place.
   void work();                   //!< Function in which the work the poller does takes place.
-- 
2.43.0


From 16accd7ef9bd3d49de720df540706827cf4d6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 22/69] fix: endpoint manager terminated the process if the
 introspection of a server failed

---
 scalopus_general/src/endpoint_manager_poll.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 849ceea..dfca794 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -95,7 +95,16 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
-  const auto supported = introspect_client->supported();
+  std::vector<std::string> supported;
+  try
+  {
+    supported = introspect_client->supported();
+  }
+  catch (const std::exception& e)
+  {
+    // The server may have died already, or it doesn't speak our language.
+    log("[scalopus] Introspection of " + std::string(*destination) + " failed: " + e.what());
+  }
   for (const auto& supported_endpoint : supported)
   {
     const auto it = endpoint_factories_.find(supported_endpoint);
-- 
2.43.0


From e802db961e96c6cf991a32dbc3d99bb0dc3b1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 23/69] fix: endpoint manager never noticed endpoints a server
 got after the manager connected

---
 .../scalopus_general/endpoint_manager_poll.h      |  2 ++
 scalopus_general/src/endpoint_manager_poll.cpp    | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index 7ac17c0..4f44e80 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -102,6 +102,8 @@ private:
   std::map<std::string, EndpointFactory> endpoint_factories_;  //!< Map of factory functions to construct endpoints.
   TransportEndpoints transport_endpoints_;  //!< Map of endpoints, each endpoint holds a map of [name] = endpoint
 
+  void updateEndpoints(const Transport::Ptr& transport);  //!< Make endpoints for what the server currently offers.
+
   void log(const std::string& msg);  //!< Internal helper function that calls the logger function if set.
   LoggingFunction logger_;           //!< Function to be called on logging messages.
 
diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index dfca794..24e9f81 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -65,6 +65,11 @@ void EndpointManagerPoll::manage()
       transport_endpoints_.erase(std::find_if(transport_endpoints_.begin(), transport_endpoints_.end(),
                                               [&](const auto& v) { return v.first == transport.second; }));
     }
+    else
+    {
+      // The server may have gained endpoints since we connected, or we a factory.
+      updateEndpoints(transport.second);
+    }
   }
 
   // Try to make new connections and setup the endpoints.
@@ -91,7 +96,11 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   }
   transports_[destination->hash_code()] = transport;
   transport_endpoints_[transport] = {};
+  updateEndpoints(transport);
+}
 
+void EndpointManagerPoll::updateEndpoints(const Transport::Ptr& transport)
+{
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
@@ -103,10 +112,14 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   catch (const std::exception& e)
   {
     // The server may have died already, or it doesn't speak our language.
-    log("[scalopus] Introspection of " + std::string(*destination) + " failed: " + e.what());
+    log(std::string("[scalopus] Introspection of a server failed: ") + e.what());
   }
   for (const auto& supported_endpoint : supported)
   {
+    if (transport_endpoints_[transport].count(supported_endpoint) != 0)
+    {
+      continue;  // already have this endpoint.
+    }
     const auto it = endpoint_factories_.find(supported_endpoint);
     if (it != endpoint_factories_.end())
     {
-- 
2.43.0


From 392b2cf633307f5b2619d50dd96b23227a4a3f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 24/69] fix: process info of a process that didn't answer was
 uninitialised and presented as a process

---
 .../include/scalopus_general/endpoint_process_info.h         | 2 +-
 scalopus_general/src/general_provider.cpp                    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..877204a 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -50,7 +50,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..c29fae5 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -62,7 +62,10 @@ void GeneralProvider::updateMapping()
     if (endpoint_general != nullptr)
     {
       const auto process_mapping = endpoint_general->processInfo();
-      mapping_[process_mapping.pid] = process_mapping;
+      if (process_mapping.pid != 0)  // else, there was no answer.
+      {
+        mapping_[process_mapping.pid] = process_mapping;
+      }
     }
   }
 }
-- 
2.43.0


From 8127f264e99577b3f8009343c8626794167ed6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 25/69] fix: updating the names threw, and terminated trace
 sessions, if a traced process was gone

---
 scalopus_general/src/general_provider.cpp       | 13 ++++++++++---
 scalopus_tracing/src/scope_tracing_provider.cpp | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index c29fae5..8cf582d 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -61,10 +61,17 @@ void GeneralProvider::updateMapping()
     auto endpoint_general = EndpointManager::findEndpoint<scalopus::EndpointProcessInfo>(transport_endpoints.second);
     if (endpoint_general != nullptr)
     {
-      const auto process_mapping = endpoint_general->processInfo();
-      if (process_mapping.pid != 0)  // else, there was no answer.
+      try
       {
-        mapping_[process_mapping.pid] = process_mapping;
+        const auto process_mapping = endpoint_general->processInfo();
+        if (process_mapping.pid != 0)  // else, there was no answer.
+        {
+          mapping_[process_mapping.pid] = process_mapping;
+        }
+      }
+      catch (const std::exception&)
+      {
+        // The process is gone or gave an unusable answer, the others can still be used.
       }
     }
   }
diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2bee79b..ed78a4b 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -64,10 +64,17 @@ void ScopeTracingProvider::updateMapping()
     if (endpoint_scope_tracing != nullptr)
     {
       // We found the correct endpoint, retrieve its mappings.
-      const auto process_mapping = endpoint_scope_tracing->mapping();
+      try
+      {
+        const auto process_mapping = endpoint_scope_tracing->mapping();
 
-      // Insert the mappings into the accumulated map.
-      mapping.insert(process_mapping.begin(), process_mapping.end());
+        // Insert the mappings into the accumulated map.
+        mapping.insert(process_mapping.begin(), process_mapping.end());
+      }
+      catch (const std::exception&)
+      {
+        // The process is gone or gave an unusable answer, the others can still be used.
+      }
     }
   }
 
-- 
2.43.0


From 8b63c7e1919db3e70d6a17753f4f4840d013fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:16 +0000
Subject: [PATCH 26/69] fix: data race on the process name between setting it
 and handling a request for it

---
 .../include/scalopus_general/endpoint_process_info.h      | 4 +++-
 scalopus_general/src/endpoint_process_info.cpp            | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 877204a..5d4bc11 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport.h>
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace scalopus
@@ -80,7 +81,8 @@ public:
   bool handle(Transport& server, const Data& request, Data& response);
 
 private:
-  ProcessInfo info_;  //!< The process info.
+  std::mutex info_mutex_;  //!< Mutex for the process info.
+  ProcessInfo info_;       //!< The process info.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..bb68e06 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -54,6 +54,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<std::mutex> lock(info_mutex_);
   info_.name = process_name;
 }
 
@@ -65,8 +66,11 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   if (req["cmd"].get<std::string>() == "info")
   {
     json jdata = json::object();
-    jdata["pid"] = info_.pid;
-    jdata["name"] = info_.name;
+    {
+      std::lock_guard<std::mutex> lock(info_mutex_);
+      jdata["pid"] = info_.pid;
+      jdata["name"] = info_.name;
+    }
     jdata["threads"] = scalopus::ThreadNameTracker::getInstance().getMap();
     response = json::to_bson(jdata);
     return true;
-- 
2.43.0


From 8d10cc193379967b879ac5821f1fb73be394f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 27/69] fix: unix transport server did not handle requests or
 accept clients while broadcasts kept coming in

---
 scalopus_transport/src/transport_unix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 633067a..0861c30 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -263,7 +263,7 @@ void TransportUnix::work()
   while (running_)
   {
     tv.tv_sec = 0;
-    tv.tv_usec = 10000;
+    tv.tv_usec = haveBroadcast() ? 0 : 10000;  // don't wait if there's more to send.
     FD_ZERO(&read_fds);
     FD_ZERO(&write_fds);
     FD_ZERO(&except_fds);
@@ -408,8 +408,9 @@ void TransportUnix::work()
       }
     }
 
-    // Process the broadcast queue.
-    while (haveBroadcast())
+    // Process the broadcast queue, limited such that continuous broadcasting doesn't prevent handling of requests.
+    const std::size_t max_broadcasts{ 16 };
+    for (std::size_t broadcast_count = 0; (broadcast_count < max_broadcasts) && haveBroadcast(); broadcast_count++)
     {
       const auto name_payload = popBroadcast();
       protocol::Msg broadcast;
-- 
2.43.0


From 06829947dc71c4b22e8c03083999579f738746de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:59 +0000
Subject: [PATCH 28/69] fix: unix transport discovery listed servers once per
 connected client and sockets of others with a similar name

---
 scalopus_transport/src/transport_unix.cpp | 33 ++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0861c30..3de320a 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -37,6 +37,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include "protocol.h"
 
@@ -211,25 +212,33 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
   std::string line;
   while (std::getline(infile, line))
   {
-    if (line.size() < suffix.size())
+    std::istringstream columns(line);
+    std::string num, ref_count, protocol, flags, type, state, inode, path;
+    columns >> num >> ref_count >> protocol >> flags >> type >> state >> inode;
+    std::getline(columns, path);  // the remainder, a space followed by the path, which could contain spaces.
+
+    // Only listening stream sockets are servers, the connections of their clients show up with the same path.
+    const unsigned long listening_flag = 0x10000;  // __SO_ACCEPTCON
+    if (((std::strtoul(flags.c_str(), nullptr, 16) & listening_flag) == 0) || (type != "0001"))
+    {
+      continue;
+    }
+
+    if (path.size() < suffix.size() + 2)
     {
       continue;  // definitely is not a line we are interested in.
     }
     // std::basic_string::ends_with is c++20 :|
-    if (line.substr(line.size() - suffix.size()) == suffix)
+    if (path.substr(path.size() - suffix.size()) == suffix)
     {
-      // We got a hit, extract the process id.
-      const auto space_before_path = line.rfind(" ");
-      const auto path = line.substr(space_before_path + 2);  // + 2 for space and @ symbol.
-      const auto space_before_inode = line.rfind(" ", space_before_path - 1);
-      const auto inode_str = line.substr(space_before_inode, space_before_path - space_before_inode);
-      if (std::atoi(inode_str.c_str()) == 0)
+      // We got a hit, extract the process id, the path only is ours if there is nothing but a process id.
+      const auto pid_str = path.substr(2, path.size() - suffix.size() - 2);  // 2 for space and @ symbol.
+      const auto pid = std::strtoul(pid_str.c_str(), nullptr, 10);
+      if ((path[1] == '@') && (pid != 0) && (pid <= std::numeric_limits<unsigned int>::max()) &&
+          (std::to_string(pid) == pid_str))
       {
-        // clients to the socket get this 0 inode address...
-        continue;
+        res.emplace_back(pid);
       }
-      char* tmp;
-      res.emplace_back(std::strtoul(path.substr(0, path.size() - suffix.size()).c_str(), &tmp, 10));
     }
   }
 
-- 
2.43.0


From ddca14fa564757ee736103725d2b48bdcfb49b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:59 +0000
Subject: [PATCH 29/69] fix: programs started by a process inherited its unix
 transport sockets, which kept these alive after the process died

---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 3de320a..7338ec7 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -50,7 +50,7 @@ TransportUnix::TransportUnix()
 bool TransportUnix::serve()
 {
   // Create the server socket to work with.
-  server_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  server_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (server_fd_ == -1)
   {
@@ -113,7 +113,7 @@ bool TransportUnix::serve()
 
 bool TransportUnix::connect(std::size_t pid)
 {
-  client_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  client_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (client_fd_ == -1)
   {
@@ -296,7 +296,7 @@ void TransportUnix::work()
     if (FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
-      client = accept(server_fd_, nullptr, nullptr);
+      client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
       if (client == -1)
       {
         // Keep going, the other connections should still be served.
-- 
2.43.0


From b614745c5a8415da692eff11525229de920ee275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 30/69] fix: counters without a series were shown with an empty
 series name instead of 'count'

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index ed78a4b..a67330c 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -107,14 +107,14 @@ std::pair<std::string, std::string> ScopeTracingProvider::splitCounterSeriesName
 {
   std::pair<std::string, std::string> res;
   auto index = trace_string.find("/");
-  if ((index != std::string::npos) && (index + 1 <= trace_string.size()))
+  if ((index != std::string::npos) && (index + 1 < trace_string.size()))
   {
     res.first = trace_string.substr(0, index);
     res.second = std::string{ std::next(trace_string.begin(), static_cast<long>(index + 1)), trace_string.end() };
   }
   else
   {
-    res.first = trace_string;
+    res.first = trace_string.substr(0, index);  // TRACE_COUNT registers its name with a slash and no series after it.
     res.second = "count";
   }
   return res;
-- 
2.43.0


From 1727d5dd06bb027961e457bb4312c8c5a5fb4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 31/69] fix: a thread could emit events with an id whose name
 another thread had not registered yet

---
 .../include/scalopus_tracing/internal/trace_macro.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
index 8d92cf3..2023207 100644
--- a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
+++ b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
@@ -42,15 +42,12 @@
 // Create a unique ID based on the crc32 of the filename and the provided string.
 #define SCALOPUS_TRACKED_TRACE_ID_STRING(s) (CRC32_STR(__FILE__) + CRC32_STR(s))
 
-// Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using a
-// static boolean.
+// Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using the
+// initialisation of a static boolean, other threads wait for that and only then emit events that use the id.
 #define TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, have_done_setup_varname)                                         \
-  static bool have_done_setup_varname = false;                                                                         \
-  if (!have_done_setup_varname)                                                                                        \
-  {                                                                                                                    \
-    have_done_setup_varname = true;                                                                                    \
-    scalopus::StaticStringTracker::getInstance().insert(id, name);                                                     \
-  }
+  static const bool have_done_setup_varname =                                                                          \
+      (static_cast<void>(scalopus::StaticStringTracker::getInstance().insert(id, name)), true);                        \
+  static_cast<void>(have_done_setup_varname);
 
 // Macro to create a tracked RAII tracepoint. The tracepoint itself will store only the ID, but the singleton trace
 // tracker stores the ID -> name relation provided.
-- 
2.43.0


From cc5d8e460e7f4a373b74d28106320330f9059889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 32/69] fix: trace line parsing threw on large numbers and
 misread empty, missing and non decimal fields

---
 .../scalopus_tracing/ctfevent.h               |   2 +-
 scalopus_tracing/src/lttng/ctfevent.cpp       | 117 +++++++-----------
 2 files changed, 45 insertions(+), 74 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..6c82e9a 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -28,6 +28,9 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/ctfevent.h"
+#include <algorithm>
+#include <cerrno>
+#include <cstdlib>
 
 namespace scalopus
 {
@@ -49,20 +52,17 @@ CTFEvent::CTFEvent(std::string line)
 
   // Extract the timestamp, its between []
   size_t start_pos = line.find("[");
-  size_t end_pos = line.find("]");
+  size_t end_pos = line.find("]", start_pos);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
   }
-  std::string timestamp_str = line.substr(start_pos + 1, end_pos - 1);
-  try
+  const std::string timestamp_str = line.substr(start_pos + 1, end_pos - start_pos - 1);
+  if (timestamp_str.empty() || timestamp_str.find_first_not_of("0123456789.") != std::string::npos)
   {
-    timestamp_ = std::stod(timestamp_str);
-  }
-  catch (const std::invalid_argument&)
-  {
-    return;
+    return;  // not seconds since epoch.
   }
+  timestamp_ = std::strtod(timestamp_str.c_str(), nullptr);
 
   // Go for the hostname, this is the first thing between spaces.
   start_pos = end_pos;
@@ -82,6 +82,10 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
+  if (line[end_pos - 1] != ':')
+  {
+    return;
+  }
   // -1 for removal of space, -1 for removal of ':'
   std::string trace_point = line.substr(start_pos + 1, end_pos - start_pos - 1 - 1);
 
@@ -94,86 +98,53 @@ CTFEvent::CTFEvent(std::string line)
   tracepoint_domain_ = trace_point.substr(0, split_point);
   tracepoint_name_ = trace_point.substr(split_point + 1, trace_point.size() - split_point);
 
-  // Obtain the stream context between the curly braces.
-  start_pos = end_pos;
-  start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
-  if (start_pos == std::string::npos || end_pos == std::string::npos)
-  {
-    return;
-  }
-  std::string stream_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
-
-  // Obtain the event context between the curly braces.
-  start_pos = end_pos;
-  start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
-  if (start_pos == std::string::npos || end_pos == std::string::npos)
-  {
-    return;
-  }
-  std::string event_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
-
-  // Obtain the trace data between the curly braces.
-  start_pos = end_pos;
-  start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
-  if (start_pos == std::string::npos || end_pos == std::string::npos)
-  {
-    return;
-  }
-  std::string trace_data = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
-
   // Make a lambda that can convert the syntax between the curly braces (comma separated values) into a map of integers.
-  auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {
-    std::map<std::string, unsigned long long int> res;
+  auto processContext = [](const std::string& csv) -> IdMap {
+    IdMap res;
 
     size_t start = 0;
-    size_t end = 0;
-    while (end != csv.size())
+    while (start < csv.size())
     {
-      size_t potential = csv.find(", ", start);  // delimiter between the key-value entries.
-      size_t end_shift = 0;
-      if (potential == std::string::npos)
-      {
-        // didn't find the delimiter, string to use is the entires tring.
-        end = csv.size();
-        end_shift = 0;
-      }
-      else
-      {
-        end = potential;
-        end_shift = 2;  // length of ", "
-      }
-      // grab the 'key = value' string
-      std::string kvpair = csv.substr(start, end - start);
-      start = end + end_shift;
+      const size_t end = std::min(csv.find(", ", start), csv.size());  // delimiter between the key-value entries.
 
-      if (kvpair.size() <= 4)  // cannot contain one key value pair, it was likely an empty { } for this context.
-      {
-        break;
-      }
+      // grab the 'key = value' string
+      const std::string kvpair = csv.substr(start, end - start);
+      start = end + 2;  // length of ", "
 
       // now, we have to parse the kvpair.
-      size_t kvsplit_point = kvpair.find(" = ");
-      std::string key = kvpair.substr(0, kvsplit_point);
-      std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
-      try
+      const size_t kvsplit_point = kvpair.find(" = ");
+      if (kvsplit_point == std::string::npos)
       {
-        // if value is a string, this will fail, we need to catch that.
-        res[key] = std::stoull(value);
+        continue;  // cannot contain one key value pair, it was likely an empty { } for this context.
       }
-      catch (const std::invalid_argument&)
+      const std::string key = kvpair.substr(0, kvsplit_point);
+      const std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
+      // If value is not an integer, or one that does not fit, it is skipped.
+      char* value_end{ nullptr };
+      errno = 0;
+      const auto number = std::strtoull(value.c_str(), &value_end, 0);
+      if (!value.empty() && errno == 0 && value_end == value.c_str() + value.size())
       {
+        res[key] = number;
       }
     }
     return res;
   };
 
-  // convert each context into the appropriate map.
-  stream_context_ = processContext(stream_context);
-  event_context_ = processContext(event_context);
-  tracepoint_data_ = processContext(trace_data);
+  // Convert the stream context, the event context and the trace data, each between curly braces, into the maps.
+  for (IdMap* context : { &stream_context_, &event_context_, &tracepoint_data_ })
+  {
+    start_pos = line.find("{", end_pos);
+    end_pos = line.find("}", start_pos);
+    if (start_pos == std::string::npos || end_pos == std::string::npos)
+    {
+      return;
+    }
+    // Strip the curly braces and the spaces next to them.
+    const size_t first = line.find_first_not_of(" ", start_pos + 1);
+    const size_t last = line.find_last_not_of(" ", end_pos - 1);
+    *context = processContext(line.substr(first, last >= first ? last - first + 1 : 0));
+  }
 }
 
 double CTFEvent::time() const
-- 
2.43.0


From 1252cbf1c59193e13f0b98cfbe7b281e5389c75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:23 +0000
Subject: [PATCH 33/69] fix: viewer lines in the read buffer were held back
 until more output came, and long lines were cut into pieces

---
 .../scalopus_tracing/babeltrace_parser.h      |   5 +
 .../src/lttng/babeltrace_parser.cpp           | 110 +++++++++---------
 2 files changed, 63 insertions(+), 52 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..aea1bef 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -99,6 +99,11 @@ public:
   static CTFEvent parse(std::string line);
 
 private:
+  /**
+   * @brief Parse a line and pass it to all recording sessions.
+   */
+  void processLine(const std::string& line);
+
   std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..5bf0e7d 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,10 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <poll.h>
+#include <unistd.h>
+#include <array>
+#include <cerrno>
 #include <iostream>
 #include <sstream>
 
@@ -60,69 +64,44 @@ void BabeltraceParser::process(FILE* stdout)
 
   // start the processing.
   processing_.store(true);
-  std::array<char, 1024> tmp;
-  int fd = fileno(stdout);
-  fd_set read_fds;
-  fd_set write_fds;
-  fd_set except_fds;
-  FD_ZERO(&read_fds);
-  FD_ZERO(&write_fds);
-  FD_ZERO(&except_fds);
-  struct timeval tv;
+  const int fd = fileno(stdout);
+  std::array<char, 4096> tmp;
+  std::string pending;  // what was read after the last complete line.
   while (processing_.load())  // while processing.
   {
-    tv.tv_sec = 0;
-    tv.tv_usec = 10000;
-    FD_SET(fd, &read_fds);
-    FD_SET(fd, &except_fds);
-
-    const int nfds = fd + 1;
-    int select_result = select(nfds, &read_fds, &write_fds, &except_fds, &tv);
-    if (select_result == -1)
+    struct pollfd poll_fd = { fd, POLLIN, 0 };
+    const int poll_result = ::poll(&poll_fd, 1, 10);
+    if (poll_result == 0 || (poll_result == -1 && errno == EINTR))
     {
       continue;
     }
-    if (FD_ISSET(fd, &read_fds))
+
+    // Read from the file descriptor itself, lines in the buffer of the FILE would not show up when polling.
+    const ssize_t length = (poll_result == -1) ? -1 : ::read(fd, tmp.data(), tmp.size());
+    if (length > 0)
     {
-      // read line
-      std::string line;
-      if (std::fgets(tmp.data(), tmp.size(), stdout))
-      {
-        line = std::string(tmp.data());
-      }
-      if (!line.empty())
+      const std::size_t already_searched = pending.size();
+      pending.append(tmp.data(), static_cast<std::size_t>(length));
+      std::size_t start = 0;
+      std::size_t newline = pending.find('\n', already_searched);
+      while (newline != std::string::npos && processing_.load())
       {
-        // lock, if recording sessions, parse and pass to all recording sessions.
-        std::lock_guard<std::mutex> lock(mutex_);
-        if (!sessions_recording_.empty())
-        {
-          auto event = parse(line);
-          for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
-          {
-            if ((*it)->active == false)
-            {
-              // session went inactive, remove it.
-              std::stringstream ss;
-              ss << "[BabeltraceParser] callback inactive: " << it->get();
-              logger_(ss.str());
-              it = sessions_recording_.erase(it);
-              continue;
-            }
-            if ((*it)->callback)
-            {
-              (*it)->callback(event);
-            }
-            it++;
-          }
-        }
+        processLine(pending.substr(start, newline + 1 - start));
+        start = newline + 1;
+        newline = pending.find('\n', start);
       }
-      if (std::feof(stdout))
+      pending.erase(0, start);
+    }
+    else if (length == 0)
+    {
+      if (!pending.empty())
       {
-        logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
-        processing_.store(false);
+        processLine(pending);  // the last line may lack the newline.
       }
+      logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
+      processing_.store(false);
     }
-    if (FD_ISSET(fd, &except_fds))
+    else if (errno != EINTR && errno != EAGAIN)
     {
       logger_("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
@@ -130,6 +109,33 @@ void BabeltraceParser::process(FILE* stdout)
   };
 }
 
+void BabeltraceParser::processLine(const std::string& line)
+{
+  // lock, if recording sessions, parse and pass to all recording sessions.
+  std::lock_guard<std::mutex> lock(mutex_);
+  if (!sessions_recording_.empty())
+  {
+    auto event = parse(line);
+    for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
+    {
+      if ((*it)->active == false)
+      {
+        // session went inactive, remove it.
+        std::stringstream ss;
+        ss << "[BabeltraceParser] callback inactive: " << it->get();
+        logger_(ss.str());
+        it = sessions_recording_.erase(it);
+        continue;
+      }
+      if ((*it)->callback)
+      {
+        (*it)->callback(event);
+      }
+      it++;
+    }
+  }
+}
+
 bool BabeltraceParser::isProcessing()
 {
   return processing_.load();
-- 
2.43.0


From 21e0c40026fac8cd2fa90321cd5e81661649645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 34/69] fix: a trace event listener could be called during and
 after disabling it

---
 .../scalopus_tracing/babeltrace_parser.h      | 23 ++++++++++++++++++-
 .../src/lttng/babeltrace_parser.cpp           |  5 +---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index aea1bef..4b50264 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -52,14 +52,35 @@ public:
   using LoggingFunction = std::function<void(const std::string& output)>;
   struct EventCallback
   {
-    bool active{ true };
+    std::atomic_bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
 
+    /**
+     * @brief Stop this callback, it is not called (anymore) after this function returned. Waits for a call in progress
+     *        in another thread, it can be used from the callback itself.
+     */
     void disable()
     {
       active = false;
+      std::lock_guard<std::recursive_mutex> lock(mutex);
       callback = nullptr;
     }
+
+    /**
+     * @brief Call the callback with this event, if it is active.
+     */
+    void call(const CTFEvent& event)
+    {
+      std::lock_guard<std::recursive_mutex> lock(mutex);
+      if (active && callback)
+      {
+        const auto function = callback;  // keeps it alive if the callback disables itself.
+        function(event);
+      }
+    }
+
+  private:
+    std::recursive_mutex mutex;  //! Held during a call.
   };
 
   using Ptr = std::shared_ptr<BabeltraceParser>;
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 5bf0e7d..f4b6cf9 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -127,10 +127,7 @@ void BabeltraceParser::processLine(const std::string& line)
         it = sessions_recording_.erase(it);
         continue;
       }
-      if ((*it)->callback)
-      {
-        (*it)->callback(event);
-      }
+      (*it)->call(event);
       it++;
     }
   }
-- 
2.43.0


From 7e3901803538e9d64520021c614485adacccbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 35/69] fix: setting the logger of the babeltrace parser raced
 with its worker thread

---
 .../scalopus_tracing/babeltrace_parser.h      |  6 ++++++
 .../src/lttng/babeltrace_parser.cpp           | 21 ++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index 4b50264..75b35c2 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -120,6 +120,11 @@ public:
   static CTFEvent parse(std::string line);
 
 private:
+  /**
+   * @brief Pass the output to the current logging function.
+   */
+  void log(const std::string& output);
+
   /**
    * @brief Parse a line and pass it to all recording sessions.
    */
@@ -129,6 +134,7 @@ private:
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
+  std::mutex logger_mutex_;                                      //! Mutex for the logging function.
   LoggingFunction logger_;
 };
 
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index f4b6cf9..55b841a 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -51,14 +51,25 @@ CTFEvent BabeltraceParser::parse(std::string line)
 
 void BabeltraceParser::setLogger(LoggingFunction logger)
 {
+  std::lock_guard<std::mutex> lock(logger_mutex_);
   logger_ = logger;
 }
 
+void BabeltraceParser::log(const std::string& output)
+{
+  LoggingFunction logger;
+  {
+    std::lock_guard<std::mutex> lock(logger_mutex_);
+    logger = logger_;
+  }
+  logger(output);
+}
+
 void BabeltraceParser::process(FILE* stdout)
 {
   if (stdout == nullptr)
   {
-    logger_("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
+    log("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
     return;
   }
 
@@ -98,12 +109,12 @@ void BabeltraceParser::process(FILE* stdout)
       {
         processLine(pending);  // the last line may lack the newline.
       }
-      logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
+      log("[BabeltraceParser] Reached end of file, quiting parser function.");
       processing_.store(false);
     }
     else if (errno != EINTR && errno != EAGAIN)
     {
-      logger_("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
+      log("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
     }
   };
@@ -123,7 +134,7 @@ void BabeltraceParser::processLine(const std::string& line)
         // session went inactive, remove it.
         std::stringstream ss;
         ss << "[BabeltraceParser] callback inactive: " << it->get();
-        logger_(ss.str());
+        log(ss.str());
         it = sessions_recording_.erase(it);
         continue;
       }
@@ -150,7 +161,7 @@ void BabeltraceParser::setCallback(const std::shared_ptr<EventCallback>& callbac
   std::lock_guard<std::mutex> lock(mutex_);
   std::stringstream ss;
   ss << "[BabeltraceParser] Adding callback: " << callback.get();
-  logger_(ss.str());
+  log(ss.str());
   sessions_recording_.insert(callback);
 }
 
-- 
2.43.0


From dfc5b6f14bfb5adf521fff0d7c4669254ab08d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 36/69] fix: halting the babeltrace tool hung if its worker
 thread had not started processing yet

---
 .../scalopus_tracing/babeltrace_parser.h            |  8 ++++++++
 scalopus_tracing/src/lttng/babeltrace_parser.cpp    | 13 +++++++++++--
 scalopus_tracing/src/lttng/babeltrace_tool.cpp      |  1 +
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index 75b35c2..3527e8a 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -93,6 +93,12 @@ public:
    */
   void process(FILE* stdout);
 
+  /**
+   * @brief Announce that process is about to be called from another thread, a halt after this is not missed if it
+   *        happens before that thread gets to calling process.
+   */
+  void start();
+
   /**
    * @brief Return whether the process function is running.
    */
@@ -132,6 +138,8 @@ private:
 
   std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
 
+  std::atomic_bool started_{ false };     //! True if start was called and process wasn't yet.
+
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
   std::mutex logger_mutex_;                                      //! Mutex for the logging function.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 55b841a..2d23b11 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -73,8 +73,11 @@ void BabeltraceParser::process(FILE* stdout)
     return;
   }
 
-  // start the processing.
-  processing_.store(true);
+  // start the processing, unless it was started with start(), it may have been halted since then.
+  if (!started_.exchange(false))
+  {
+    processing_.store(true);
+  }
   const int fd = fileno(stdout);
   std::array<char, 4096> tmp;
   std::string pending;  // what was read after the last complete line.
@@ -144,6 +147,12 @@ void BabeltraceParser::processLine(const std::string& line)
   }
 }
 
+void BabeltraceParser::start()
+{
+  started_.store(true);
+  processing_.store(true);
+}
+
 bool BabeltraceParser::isProcessing()
 {
   return processing_.load();
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 8c2c49d..baa72e6 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -72,6 +72,7 @@ void BabeltraceTool::init(std::string path)
   }
 
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
+  parser_->start();
   parser_worker_ = std::thread([&]() { parser_->process(process_->stdoutFile()); });
 }
 
-- 
2.43.0


From 55e713f9f562c6c580bcc41573da669cebdf4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:04 +0000
Subject: [PATCH 37/69] fix: a viewer that could not be started left a copy of
 the process running, or all processes signalled

---
 .../scalopus_tracing/subprocess.hpp                | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 589a660..11f6704 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -115,6 +115,16 @@ private:
 
         pid = ::fork();
       
+        if (pid == -1)
+        {
+            const int error = errno;
+            for (int fd : { in_pipe[READ], in_pipe[WRITE], out_pipe[READ], out_pipe[WRITE], err_pipe[READ], err_pipe[WRITE] })
+            {
+                if (fd != -1) ::close(fd);
+            }
+            throw std::system_error(error, std::system_category());
+        }
+
         if (pid == 0) child(argv);
 
         ::close(in_pipe[READ]);
@@ -141,7 +151,7 @@ private:
             dup2(err_pipe[WRITE], STDERR_FILENO) == -1 )
         {
             std::perror("subprocess: dup2() failed");
-            return;
+            _exit(127);
         }
 
         ::close(in_pipe[READ]);
@@ -158,7 +168,7 @@ private:
         if (execvp(cargs[0], &cargs[0]) == -1)
         {
             std::perror("subprocess: execvp() failed");
-            return;
+            _exit(127); // never continue with a copy of the parent.
         }
     }
 
-- 
2.43.0


From 28a5e3595e36d5be2840a804d6206728aa6d20e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:04 +0000
Subject: [PATCH 38/69] fix: halting the babeltrace tool left a zombie or a
 viewer that ignores SIGINT behind

---
 .../scalopus_tracing/subprocess.hpp                | 14 ++++++++++++++
 scalopus_tracing/src/lttng/babeltrace_tool.cpp     |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 11f6704..eee78d6 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -13,7 +13,9 @@
 #include <iostream>
 #include <ext/stdio_filebuf.h>
 #include <cstdio>
+#include <chrono>
 #include <system_error>
+#include <thread>
 
 #include <unistd.h>
 #include <sys/types.h>
@@ -82,6 +84,18 @@ public:
         return WEXITSTATUS(status);
     };
 
+    // Wait at most this long for the process to end, returns whether it did.
+    bool waitFor(std::chrono::milliseconds timeout)
+    {
+        const auto end = std::chrono::steady_clock::now() + timeout;
+        while (waitpid(pid, nullptr, WNOHANG) == 0)
+        {
+            if (std::chrono::steady_clock::now() > end) return false;
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
+        }
+        return true;
+    }
+
     void close()
     {
         in_filebuf->close();
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index baa72e6..3138928 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -95,8 +95,13 @@ void BabeltraceTool::halt()
   {
     process_->close();
 
-    // Nuke the process, just to be sure we clean up correctly.
+    // Nuke the process, just to be sure we clean up correctly. Wait for it to end, such that it doesn't become a zombie.
     ::kill(process_->getPid(), SIGINT);
+    if (!process_->waitFor(std::chrono::seconds(1)))
+    {
+      ::kill(process_->getPid(), SIGKILL);
+      process_->wait();
+    }
 
     process_ = nullptr;
   }
-- 
2.43.0


From 2c1c8cb70298ca1e70d719fe79dc8bf9f5be8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:30 +0000
Subject: [PATCH 39/69] fix: a viewer printing many warnings blocked as nobody
 reads its stderr

---
 .../include_consumer/scalopus_tracing/subprocess.hpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index eee78d6..1c83241 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -17,6 +17,7 @@
 #include <system_error>
 #include <thread>
 
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -168,6 +169,9 @@ private:
             _exit(127);
         }
 
+        // stderr may never be read, don't let the process block on it.
+        fcntl(STDERR_FILENO, F_SETFL, fcntl(STDERR_FILENO, F_GETFL) | O_NONBLOCK);
+
         ::close(in_pipe[READ]);
         ::close(in_pipe[WRITE]);
         if (out_pipe[READ] != -1) ::close(out_pipe[READ]);
-- 
2.43.0


From b100c4ea1bd2a068f81aacb1105a20082f7b4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:20 +0000
Subject: [PATCH 40/69] fix: finishing an lttng recording threw on events with
 missing fields or of an unknown kind

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 22 ++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..eb4ff25 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -92,6 +92,14 @@ std::vector<json> LttngSource::convertEvents()
 
     if (event.domain() == "scalopus_scope_id")
     {
+      // Skip events that lack what is necessary to convert them.
+      const auto& context = event.eventContext();
+      const auto& data = event.eventData();
+      if (context.count("vpid") == 0 || context.count("pthread_id") == 0 || data.count("id") == 0)
+      {
+        continue;
+      }
+
       // entry scope:
       // , {"name": "function name", "pid": 5976, "ts": 77033.2, "cat": "PERF", "tid": 140501248366336, "ph": "B"}
       // exit of scope:
@@ -104,11 +112,7 @@ std::vector<json> LttngSource::convertEvents()
       entry["pid"] = event.pid();
 
       // try to look up the mapping for this pid
-      std::uint32_t id = 0;
-      if (event.eventData().find("id") != event.eventData().end())
-      {
-        id = static_cast<std::uint32_t>(event.eventData().at("id"));
-      }
+      const std::uint32_t id = static_cast<std::uint32_t>(data.at("id"));
 
       // Populate the name
       const auto trace_id_string = provider_->getScopeName(mapping, static_cast<int>(event.pid()), id);
@@ -137,16 +141,20 @@ std::vector<json> LttngSource::convertEvents()
         entry["ph"] = "i";
         entry["s"] = "t";
       }
-      else if (event.name() == "count_event")
+      else if (event.name() == "count_event" && data.count("value") != 0)
       {
         entry["ph"] = "C";
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
-        const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
+        const std::int64_t z = static_cast<std::int64_t>(data.at("value"));
         // Update the current counters.
         counter_values[counter_series.first][counter_series.second] = z;
         entry["args"] = counter_values[counter_series.first];
       }
+      else
+      {
+        continue;  // Not an event we know, or a counter without value.
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From 298c2f8b6de8e5eb07c4b1e652e2aa64ee3cf65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 41/69] fix: lttng counters of different processes were mixed,
 and out of order ones showed wrong values

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 32 +++++++++++++++------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index eb4ff25..2bb9d5d 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -81,7 +81,8 @@ std::vector<json> LttngSource::convertEvents()
   // Map for the counter states.
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
-  CounterMap counter_values;
+  using ProcessCounter = std::map<std::uint64_t, CounterMap>;
+  ProcessCounter counter_values;
 
   provider_->updateMapping();
   const auto mapping = provider_->getMapping();
@@ -147,9 +148,8 @@ std::vector<json> LttngSource::convertEvents()
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
         const std::int64_t z = static_cast<std::int64_t>(data.at("value"));
-        // Update the current counters.
-        counter_values[counter_series.first][counter_series.second] = z;
-        entry["args"] = counter_values[counter_series.first];
+        // Only this value, the other series are added once the entries are ordered by time.
+        entry["args"] = SeriesMap{ { counter_series.second, z } };
       }
       else
       {
@@ -165,18 +165,34 @@ std::vector<json> LttngSource::convertEvents()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Now that the entries are ordered, add the current values of the other series of the counter in the same process.
+  for (auto& entry : result)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<std::uint64_t>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        values[series_value.first] = series_value.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
-  CounterMap count_all_series;
+  ProcessCounter count_all_series;
   for (auto it = result.rbegin(); it < result.rend(); it++)
   {
     auto& entry = *it;
     if (entry.at("ph").get<std::string>() == "C")
     {
       auto values = entry.at("args").get<SeriesMap>();
+      const auto pid = entry.at("pid").get<std::uint64_t>();
       const auto& name = entry.at("name").get<std::string>();
-      values.insert(count_all_series[name].begin(), count_all_series[name].end());  // add future keys to this entry
-      entry["args"] = values;           // update values to include the series used in the future.
-      count_all_series[name] = values;  // store most recent value in the map.
+      values.insert(count_all_series[pid][name].begin(),
+                    count_all_series[pid][name].end());  // add future keys to this entry
+      entry["args"] = values;                            // update values to include the series used in the future.
+      count_all_series[pid][name] = values;              // store most recent value in the map.
     }
   }
 
-- 
2.43.0


From f8dce8928f3a44cbbdf50ced879ce6a002060f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 42/69] fix: finishing an lttng recording again returned its
 events again

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 2bb9d5d..ef4554b 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -65,7 +65,9 @@ void LttngSource::work()
 std::vector<json> LttngSource::finishInterval()
 {
   stopInterval();
-  return convertEvents();
+  auto result = convertEvents();
+  events_.clear();  // these have been handed out now.
+  return result;
 }
 
 std::vector<json> LttngSource::convertEvents()
-- 
2.43.0


From 2e7654879b1cc7e0cacda8ae6d0fcf56a894069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 43/69] fix: an endpoint's own thread used its transport while
 that was already partly destroyed

---
 scalopus_transport/src/transport_loopback.cpp | 3 +++
 scalopus_transport/src/transport_unix.cpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 5f77f23..5d7cc2d 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -50,6 +50,9 @@ TransportLoopback::~TransportLoopback()
   {
     thread_.join();
   }
+
+  // Endpoints may have threads that use this transport, so they have to go while it is still complete.
+  endpoints_.clear();
 }
 
 TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 7338ec7..1fa0b61 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -254,6 +254,9 @@ TransportUnix::~TransportUnix()
     thread_.join();
   }
 
+  // Endpoints may have threads that use this transport, so they have to go while it is still complete.
+  endpoints_.clear();
+
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-- 
2.43.0


From b54886ad026ca378df8a1c7a130691b78d960067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 44/69] fix: data races between the native sender and its
 worker thread

---
 .../scalopus_tracing/endpoint_native_trace_sender.h        | 7 ++++++-
 .../src/native/endpoint_native_trace_sender.cpp            | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index 3b70579..8fbffe0 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -31,6 +31,8 @@
 #define SCALOPUS_TRACING_ENDPOINT_NATIVE_TRACE_SENDER_H
 
 #include <scalopus_interface/transport.h>
+#include <atomic>
+#include <mutex>
 
 namespace scalopus
 {
@@ -48,10 +50,13 @@ public:
 
   // From the endpoint
   std::string getName() const;
+  using Endpoint::setTransport;
+  void setTransport(Transport* transport);
 
 private:
   void work();
-  bool running_{ true };
+  std::mutex transport_mutex_;  //!< The worker uses the transport, which is set from another thread.
+  std::atomic_bool running_{ true };
   std::thread worker_;
 };
 
diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index fd5c148..b5ee907 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -102,6 +102,7 @@ void EndpointNativeTraceSender::work()
     }
     if (collected)
     {
+      std::lock_guard<std::mutex> lock(transport_mutex_);
       if (transport_ != nullptr)
       {
         transport_->broadcast("native_trace_receiver", process_events(events));
@@ -112,6 +113,12 @@ void EndpointNativeTraceSender::work()
   }
 }
 
+void EndpointNativeTraceSender::setTransport(Transport* transport)
+{
+  std::lock_guard<std::mutex> lock(transport_mutex_);
+  Endpoint::setTransport(transport);
+}
+
 std::string EndpointNativeTraceSender::getName() const
 {
   return name;
-- 
2.43.0


From b78f44ce5571fd4db9ec4a53f8a7ac4bf4803728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 45/69] fix: native sources were kept by the provider and
 recorded for ever

---
 .../scalopus_tracing/native_trace_provider.h          |  4 +++-
 scalopus_tracing/src/native/native_trace_provider.cpp | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
index fc326dc..2f0b201 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/endpoint.h>
 #include <scalopus_tracing/scope_tracing_provider.h>
+#include <memory>
 #include <set>
 
 namespace scalopus
@@ -84,7 +85,8 @@ private:
   void incoming(const Data& incoming);
 
   std::mutex source_mutex_;
-  std::set<std::shared_ptr<NativeTraceSource>> sources_;
+  //! The sources belong to whoever uses them, they no longer record when they are let go.
+  std::set<std::weak_ptr<NativeTraceSource>, std::owner_less<std::weak_ptr<NativeTraceSource>>> sources_;
 
   LoggingFunction logger_;  //!< Function to use for logging.
 };
diff --git a/scalopus_tracing/src/native/native_trace_provider.cpp b/scalopus_tracing/src/native/native_trace_provider.cpp
index 8609078..2841509 100644
--- a/scalopus_tracing/src/native/native_trace_provider.cpp
+++ b/scalopus_tracing/src/native/native_trace_provider.cpp
@@ -67,13 +67,20 @@ void NativeTraceProvider::incoming(const Data& incoming)
   {
     std::lock_guard<decltype(source_mutex_)> lock(source_mutex_);
 
-    // Add all sources that are recording.
-    for (auto& source : sources_)
+    // Add all sources that are recording, forget about those that are no longer used.
+    for (auto it = sources_.begin(); it != sources_.end();)
     {
+      auto source = it->lock();
+      if (source == nullptr)
+      {
+        it = sources_.erase(it);
+        continue;
+      }
       if (source->isRecording())
       {
         recording_sources.insert(source);
       }
+      ++it;
     }
   }
 
-- 
2.43.0


From 3cce3467d4e12b3a0c6733c7287ada0004573aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 46/69] fix: finishing a native recording dereferenced its
 provider after that was gone

---
 .../src/native/native_trace_source.cpp        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e6cabb3..044f5b3 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -73,13 +73,20 @@ std::vector<json> NativeTraceSource::finishInterval()
 
   stopInterval();
 
-  // Update mappings.
+  // Update mappings, if the provider is gone the names of the trace points are not known.
   auto provider = provider_.lock();
+  NativeTraceProvider::ProcessTraceMap mapping;
   if (provider != nullptr)
   {
     provider->updateMapping();
+    mapping = provider->getMapping();
   }
-  const auto mapping = provider->getMapping();
+  const auto log = [&provider](const std::string& message) {
+    if (provider != nullptr)
+    {
+      provider->log(message);
+    }
+  };
 
   // Obtain the data chunks.
   std::vector<DataPtr> data;
@@ -122,7 +129,7 @@ std::vector<json> NativeTraceSource::finishInterval()
           entry["tid"] = tid;
           entry["pid"] = pid;
           entry["cat"] = "PERF";
-          const auto trace_id_string = provider->getScopeName(mapping, pid, trace_id);
+          const auto trace_id_string = NativeTraceProvider::getScopeName(mapping, pid, trace_id);
           entry["name"] = trace_id_string;  // Overwritten for counters later on.
           if (type == TracePointCollectorNative::SCOPE_ENTRY)
           {
@@ -169,15 +176,15 @@ std::vector<json> NativeTraceSource::finishInterval()
   }
   catch (const std::out_of_range& e)
   {
-    provider->log(std::string("Encountered out of range during data processing: ") + e.what());
+    log(std::string("Encountered out of range during data processing: ") + e.what());
   }
   catch (const cbor::error& e)
   {
-    provider->log(std::string("Encountered cbor error: ") + e.what());
+    log(std::string("Encountered cbor error: ") + e.what());
   }
   catch (const std::runtime_error& e)
   {
-    provider->log(std::string("Encountered runtime error: ") + e.what());
+    log(std::string("Encountered runtime error: ") + e.what());
   }
 
   // Sort res by "ts" because sometimes the "E"nd events are out of order wrt the "B"egin, leading to unfinished scope
-- 
2.43.0


From 96febbaf6511e3f78cb75d3deae0d206c395bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 47/69] fix: one undecodable message discarded the messages
 after it, a counter without value crashed

---
 .../src/native/native_trace_source.cpp        | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index 044f5b3..bf46ac7 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -101,10 +101,10 @@ std::vector<json> NativeTraceSource::finishInterval()
   using ProcessCounter = std::map<int, CounterMap>;
   ProcessCounter counter_values;
 
-  // Now, we start converting the chunks of data we obtain into trace events.
-  try
+  // Now, we start converting the chunks of data we obtain into trace events, a bad chunk does not affect the others.
+  for (const auto& dptr : data)
   {
-    for (const auto& dptr : data)
+    try
     {
       // First, we parse the bson we got and convert it to events.
       std::map<std::string, cbor::cbor_object> parsed;
@@ -159,7 +159,11 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["ph"] = "C";
             const auto counter_series = NativeTraceProvider::splitCounterSeriesName(trace_id_string);
             entry["name"] = counter_series.first;
-            std::int64_t z;
+            if (event.dynamic_data == nullptr)
+            {
+              throw std::runtime_error("Counter event without a value.");
+            }
+            std::int64_t z{ 0 };
             cbor::from_cbor(z, *event.dynamic_data);
             // Update the current counters.
             counter_values[pid][counter_series.first][counter_series.second] = z;
@@ -173,18 +177,18 @@ std::vector<json> NativeTraceSource::finishInterval()
         }
       }
     }
-  }
-  catch (const std::out_of_range& e)
-  {
-    log(std::string("Encountered out of range during data processing: ") + e.what());
-  }
-  catch (const cbor::error& e)
-  {
-    log(std::string("Encountered cbor error: ") + e.what());
-  }
-  catch (const std::runtime_error& e)
-  {
-    log(std::string("Encountered runtime error: ") + e.what());
+    catch (const std::out_of_range& e)
+    {
+      log(std::string("Encountered out of range during data processing: ") + e.what());
+    }
+    catch (const cbor::error& e)
+    {
+      log(std::string("Encountered cbor error: ") + e.what());
+    }
+    catch (const std::runtime_error& e)
+    {
+      log(std::string("Encountered runtime error: ") + e.what());
+    }
   }
 
   // Sort res by "ts" because sometimes the "E"nd events are out of order wrt the "B"egin, leading to unfinished scope
-- 
2.43.0


From 924b0ae14511b61df4221427267115dbcc07b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 48/69] fix: native counters showed wrong values when data of
 threads arrived out of order

---
 .../src/native/native_trace_source.cpp        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index bf46ac7..9355f1e 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -165,9 +165,8 @@ std::vector<json> NativeTraceSource::finishInterval()
             }
             std::int64_t z{ 0 };
             cbor::from_cbor(z, *event.dynamic_data);
-            // Update the current counters.
-            counter_values[pid][counter_series.first][counter_series.second] = z;
-            entry["args"] = counter_values[pid][counter_series.first];
+            // Only this value, the other series are added once the entries are ordered by time.
+            entry["args"] = SeriesMap{ { counter_series.second, z } };
           }
           else
           {
@@ -197,6 +196,20 @@ std::vector<json> NativeTraceSource::finishInterval()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Now that the entries are ordered, add the current values of the other series of the counter in the same process.
+  for (auto& entry : res)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        values[series_value.first] = series_value.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
   ProcessCounter counter_all_series;
   for (auto it = res.rbegin(); it < res.rend(); it++)
-- 
2.43.0


From 4ef544f1f9383346f0094961708d1769e952834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 49/69] fix: native recordings held data that arrived before
 their start or after their stop

---
 scalopus_tracing/src/native/native_trace_source.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index 9355f1e..f9e4afe 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -49,12 +49,13 @@ void NativeTraceSource::startInterval()
   {
     std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
     recorded_data_.clear();
+    in_interval_.store(true);
   }
-  in_interval_.store(true);
 }
 
 void NativeTraceSource::stopInterval()
 {
+  std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
   in_interval_.store(false);
 }
 
@@ -233,6 +234,9 @@ std::vector<json> NativeTraceSource::finishInterval()
 void NativeTraceSource::addData(const DataPtr& incoming_data)
 {
   std::lock_guard<decltype(data_mutex_)> lock(data_mutex_);
-  recorded_data_.emplace_back(incoming_data);
+  if (in_interval_.load())  // the interval may have been stopped since the provider checked.
+  {
+    recorded_data_.emplace_back(incoming_data);
+  }
 }
 }  // namespace scalopus
-- 
2.43.0


From 2d2855d0d75fce707bf869727186e040d4f0152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 50/69] fix: messages that are not a json object terminated the
 catapult server

---
 scalopus_catapult/src/trace_session.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..5f1b83d 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -94,7 +94,12 @@ void TraceSession::loop()
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
   logger_("[session " + identifier() + "] <- " + incoming_msg);
-  auto msg = json::parse(incoming_msg);
+  auto msg = json::parse(incoming_msg, nullptr, false);  // without exceptions, the messages come from the network.
+  if (msg.is_discarded() || !msg.is_object())
+  {
+    logger_("[session " + identifier() + "] Message is not a json object, ignoring it.");
+    return;
+  }
 
   if (msg["method"] == "Tracing.getCategories")
   {
-- 
2.43.0


From 03f6f01be4a6f9492a18e87ff59653db42c5cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 51/69] fix: event contents that are not valid utf-8 terminated
 the catapult server

---
 scalopus_catapult/src/trace_session.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 5f1b83d..15c8dd7 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -184,7 +184,8 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Names may hold anything, invalid utf-8 is replaced.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "]}}";
   return ss.str();
-- 
2.43.0


From 638ab74aa2eb68e08402402ec1c0170fa1678850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 52/69] fix: data races between setting up a trace session and
 its worker thread

---
 scalopus_catapult/src/trace_session.cpp | 23 ++++++++++++++---------
 scalopus_catapult/src/trace_session.h   |  8 +++++---
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 15c8dd7..890798e 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -46,6 +46,7 @@ TraceSession::~TraceSession()
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
 {
+  std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
   sources_.push_back(source);
 }
 
@@ -73,16 +74,19 @@ void TraceSession::loop()
 {
   while (running_)
   {
-    // Handle any incoming messages from the websocket
-    while (haveIncoming() && running_)
     {
-      processMessage(popIncoming());
-    }
-
-    // Perform work with the sources
-    for (auto& source : sources_)
-    {
-      source->work();
+      std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
+      // Handle any incoming messages from the websocket
+      while (haveIncoming() && running_)
+      {
+        processMessage(popIncoming());
+      }
+
+      // Perform work with the sources
+      for (auto& source : sources_)
+      {
+        source->work();
+      }
     }
 
     // Finally, block a bit just to prevent spinning.
@@ -193,6 +197,7 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
 
 void TraceSession::setLogger(LoggingFunction logger)
 {
+  std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
   logger_ = std::move(logger);
 }
 
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..c388dbb 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_CATAPULT_TRACE_SESSION_H
 
 #include <scalopus_interface/trace_event_source.h>
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -81,12 +82,13 @@ public:
 private:
   ResponseFunction response_;  //!< The function to be used to send data to the client over the websocket.
 
+  std::mutex setup_mutex_;  //!< Mutex for the sources and logger, these are set while the worker is already running.
   std::vector<TraceEventSource::Ptr> sources_;  //!< The active sources in this session.
 
   mutable std::mutex incoming_mutex_;    //!< Mutex for list of incoming messages that are pending processing.
   std::list<std::string> incoming_msg_;  //!< List of incoming messages that will be processed by the worker thread.
 
-  LoggingFunction logger_;  //!< Function to output log messages with.
+  LoggingFunction logger_{ [](const std::string&) {} };  //!< Function to output log messages with.
   /**
    * @brief Function to check whether there are messages pending in incoming.
    * @return true if there are messages pending in incoming.
@@ -106,8 +108,8 @@ private:
    */
   void outgoing(const std::string& msg);
 
-  std::thread worker_;    //!< Worker thread for this session.
-  bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+  std::thread worker_;                //!< Worker thread for this session.
+  std::atomic_bool running_{ true };  //!< Bool to quit the worker thread gracefully.
 
   /**
    * @brief The function executed by the worker thread.
-- 
2.43.0


From 7a6e824a198b3d2f28a93f70506594a8b015735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 53/69] fix: event contents that are not valid utf-8 terminated
 the recorder

---
 scalopus_catapult/src/catapult_recorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index c780a46..32e8fa4 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -130,7 +130,8 @@ std::string CatapultRecorder::collectEvents()
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Names may hold anything, invalid utf-8 is replaced.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "\n]\n";
   return ss.str();
-- 
2.43.0


From 3c5e102eaf1f6376d5a6bec6862d87557b9878be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 54/69] fix: stopping a recorder twice, or destroying one that
 was not started, terminated

---
 scalopus_catapult/src/catapult_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 32e8fa4..3abbf13 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -54,7 +54,10 @@ void CatapultRecorder::loop()
 void CatapultRecorder::stop()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())  // there is no worker if it was not started or already stopped.
+  {
+    worker_.join();
+  }
 }
 
 void CatapultRecorder::startInterval()
-- 
2.43.0


From eebd157ed17a0ce4828ec3920ac01949f025b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:18 +0000
Subject: [PATCH 55/69] fix: starting a recorder raced with interval control
 from other threads

---
 scalopus_catapult/src/catapult_recorder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 3abbf13..f34b2ea 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -90,6 +90,7 @@ void CatapultRecorder::start()
     return;
   }
 
+  std::lock_guard<std::mutex> lock{ source_mutex_ };
   sources_.clear();
   sources_.reserve(providers_.size());
   // Add all the sources to the session
-- 
2.43.0


From 50fc4c317dffa6de32b119a95a48d3c1f41abb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:18 +0000
Subject: [PATCH 56/69] fix: replies of a closed connection could be sent to a
 new one at the same address

---
 scalopus_catapult/src/catapult_backend.cpp | 12 ++++++++----
 scalopus_catapult/src/catapult_backend.h   |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/scalopus_catapult/src/catapult_backend.cpp b/scalopus_catapult/src/catapult_backend.cpp
index 7852615..889e491 100644
--- a/scalopus_catapult/src/catapult_backend.cpp
+++ b/scalopus_catapult/src/catapult_backend.cpp
@@ -138,6 +138,7 @@ void CatapultBackend::delSession(ss::WebSocket* ws)
   if (it != sessions_.end())
   {
     sessions_.erase(it);
+    session_ids_.erase(ws);
   }
 }
 
@@ -149,14 +150,16 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
   {
     // New sessions, create the tracing session to use.
     // This function must only sent if the websocket is actually still availble to send to...
-    // To guarantee this we create a weak pointer to the trace session, which we capture in the lambda.
-    auto response_function = [ws, this](const std::string& data) {
-      auto runnable = [ws, data, this]() {
+    // To guarantee this we capture something that is unique to this session, as by the time the function is executed the
+    // websocket may be closed and another one may be using the same address.
+    const auto session_id = ++session_counter_;
+    auto response_function = [ws, session_id, this](const std::string& data) {
+      auto runnable = [ws, session_id, data, this]() {
         // lock the session mutex, technically this is not necessary as this function is executed from the server thread
         // and connections will not be closed or opened while this function is executing.
         std::lock_guard<std::mutex> session_lock(session_mutex_);
         auto session_it = sessions_.find(ws);
-        if (session_it != sessions_.end())
+        if (session_it != sessions_.end() && session_ids_[ws] == session_id)
         {
           session_it->first->send(data);  // success
         }
@@ -173,6 +176,7 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
       session->addSource(provider->makeSource());
     }
     sessions_[ws] = std::move(session);
+    session_ids_[ws] = session_id;
   }
 }
 
diff --git a/scalopus_catapult/src/catapult_backend.h b/scalopus_catapult/src/catapult_backend.h
index c6ef75f..7208aaf 100644
--- a/scalopus_catapult/src/catapult_backend.h
+++ b/scalopus_catapult/src/catapult_backend.h
@@ -93,6 +93,8 @@ public:
 private:
   std::mutex session_mutex_;                              //! Mutex for the session map.
   std::map<ss::WebSocket*, TraceSession::Ptr> sessions_;  //! Map of sessions by websockets.
+  std::map<ss::WebSocket*, std::size_t> session_ids_;     //! Number of the session of each websocket.
+  std::size_t session_counter_{ 0 };                      //! Number of sessions that were made.
   std::vector<TraceEventProvider::Ptr> providers_;        //!< List of available data providers.
   ExecuteFunction executor_;  //!< Function that allows registering functions for execution on the server thread.
   LoggingFunction logger_;    //!< Function to use for logging.
-- 
2.43.0


From d73d47b8765f07beac4c1ac207cc636038ae0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:37 +0000
Subject: [PATCH 57/69] fix: nested, recursive or threaded use of a thread
 state switcher left tracing disabled

---
 scalopus_python/scalopus/tracing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scalopus_python/scalopus/tracing.py b/scalopus_python/scalopus/tracing.py
index 8b8341f..59e039d 100644
--- a/scalopus_python/scalopus/tracing.py
+++ b/scalopus_python/scalopus/tracing.py
@@ -29,6 +29,7 @@
 
 from .lib import tracing
 import random
+import threading
 from functools import wraps
 
 
@@ -206,7 +207,8 @@ class ThreadStateSwitcher:
     """
     def __init__(self, target_state):
         self.target_state = target_state
-        self.old_states = None
+        # One switcher may be entered recursively and by several threads, each entry has its own state to restore.
+        self.old_states = threading.local()
 
     def enter(self):
         self.__enter__()
@@ -215,10 +217,12 @@ class ThreadStateSwitcher:
         self.__exit__(None, None, None)
 
     def __enter__(self):
-        self.old_state = setThreadState(self.target_state)
+        if not hasattr(self.old_states, "stack"):
+            self.old_states.stack = []
+        self.old_states.stack.append(setThreadState(self.target_state))
 
     def __exit__(self, context_type, context_value, context_traceback):
-        setThreadState(self.old_state)
+        setThreadState(self.old_states.stack.pop())
 
 
 def suppressed(f):
-- 
2.43.0


From 60a39ec5e63d0ffd225028a9f0a30a2c7be0072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:37 +0000
Subject: [PATCH 58/69] fix: trace_section called with the name of one of its
 own attributes did not return a context

---
 scalopus_python/scalopus/tracing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scalopus_python/scalopus/tracing.py b/scalopus_python/scalopus/tracing.py
index 59e039d..a0dbe9f 100644
--- a/scalopus_python/scalopus/tracing.py
+++ b/scalopus_python/scalopus/tracing.py
@@ -111,6 +111,7 @@ class TraceContextHelper(object):
         """
         self.ctx_type = TraceContext
         self.prefix = prefix
+        self._contexts = {}
 
     def __getattr__(self, name):
         """Get the trace context if it exists, otherwise create it.
@@ -118,17 +119,20 @@ class TraceContextHelper(object):
         :param name: The name of the trace context to retrieve or create.
         :type name: str
         """
-        ctx = self.ctx_type(self.prefix + name)
+        ctx = self(name)
         setattr(self, name, ctx)
         return ctx
 
     def __call__(self, name):
-        """Create 
+        """Get the trace context if it exists, otherwise create it. Any name can be used, also those of attributes.
 
         :param name: The name of the trace context to retrieve or create.
         :type name: str
         """
-        return getattr(self, name)
+        ctx = self._contexts.get(name)
+        if ctx is None:
+            ctx = self._contexts.setdefault(name, self.ctx_type(self.prefix + name))
+        return ctx
 
 trace_section = TraceContextHelper()
 
-- 
2.43.0


From dc212b3751277f94d00e274affe0b769f6553abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:54 +0000
Subject: [PATCH 59/69] fix: weak provider factories failed, and ignored
 providers that evaluate as false

---
 scalopus_python/scalopus/general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalopus_python/scalopus/general.py b/scalopus_python/scalopus/general.py
index f0aff1a..5fc8578 100644
--- a/scalopus_python/scalopus/general.py
+++ b/scalopus_python/scalopus/general.py
@@ -27,6 +27,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import weakref
+
 from .lib import general
 
 EndpointIntrospect = general.EndpointIntrospect
@@ -47,7 +49,7 @@ def weak_provider_endpoint_factory(provider):
     weak_provider = weakref.ref(provider)
     def factory(transport):
         strong_provider = weak_provider()
-        if (strong_provider):
+        if strong_provider is not None:
             return strong_provider.factory(transport)
         else:
             return None
-- 
2.43.0


From 6ef9f57b56e72c2b50a9b856f6bb80fa01515679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 60/69] fix: discover and trace_configure failed or
 misattributed processes that do not answer

---
 scalopus_python/scalopus/__main__.py | 42 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/scalopus_python/scalopus/__main__.py b/scalopus_python/scalopus/__main__.py
index ea66901..ccac70b 100644
--- a/scalopus_python/scalopus/__main__.py
+++ b/scalopus_python/scalopus/__main__.py
@@ -92,17 +92,22 @@ def run_discover(args):
 
     entries = []
     for endpoint_map in endpoints.values():
-        data = {}
-        for endpoint in endpoint_map.values():
-            if isinstance(endpoint, scalopus.general.EndpointProcessInfo):
-                pinfo = endpoint.processInfo()
-                data["pid"] = pinfo.pid
-                data["process_info"] = pinfo.to_dict()
-            if isinstance(endpoint, scalopus.general.EndpointIntrospect):
-                data["supported"] = endpoint.supported()
+        data = {"supported": []}
+        try:
+            for endpoint in endpoint_map.values():
+                if isinstance(endpoint, scalopus.general.EndpointProcessInfo):
+                    pinfo = endpoint.processInfo()
+                    data["pid"] = pinfo.pid
+                    data["process_info"] = pinfo.to_dict()
+                if isinstance(endpoint, scalopus.general.EndpointIntrospect):
+                    data["supported"] = endpoint.supported()
+        except RuntimeError:
+            continue  # The process disappeared during discovery.
+        if not data.get("pid"):
+            continue  # No process information, or no answer to the request for it.
         entries.append((data["pid"], data))
 
-    entries.sort()
+    entries.sort(key=lambda entry: entry[0])
 
     for _, data in entries:
         print("PID: {pid: >6d}  \"{name}\"".format(**data["process_info"]))
@@ -179,8 +184,16 @@ def run_trace_configure(args):
         if not scalopus.tracing.EndpointTraceConfigurator.name in endpoint_map:
             continue
 
+        if not scalopus.general.EndpointProcessInfo.name in endpoint_map:
+            continue
+
         data = {}
-        pinfo = endpoint_map[scalopus.general.EndpointProcessInfo.name].processInfo()
+        try:
+            pinfo = endpoint_map[scalopus.general.EndpointProcessInfo.name].processInfo()
+        except RuntimeError:
+            continue  # The process disappeared during discovery.
+        if not pinfo.pid:
+            continue  # No answer, the process can't be matched against the ids.
         data["pid"] = pinfo.pid
         data["process_info"] = pinfo.to_dict()
 
@@ -198,14 +211,17 @@ def run_trace_configure(args):
             if thread_id in relevant_ids:
                 new_state.add_thread_entry(thread_id, new_trace_state)
 
-        state = endpoint_map[scalopus.tracing.EndpointTraceConfigurator.name].setTraceState(new_state)
-        if not state.cmd_success:
+        try:
+            state = endpoint_map[scalopus.tracing.EndpointTraceConfigurator.name].setTraceState(new_state)
+        except RuntimeError:
+            state = None
+        if state is None or not state.cmd_success:
             print("Failed to retrieve state for transport: {}".format(transport.getAddress()))
             continue
         data["state"] = state.to_dict()
 
         entries.append((data["pid"], data))
-    entries.sort()
+    entries.sort(key=lambda entry: entry[0])
 
     def color_by_state(str, enabled):
         if enabled:
-- 
2.43.0


From b33b266f6f0196a9c049f4da9c1b169585701d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 61/69] fix: create the Python objects of
 PendingResponse.wait_for while holding the GIL

---
 scalopus_python/lib/scalopus_interface.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index 17e3685..3282d8e 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -126,12 +126,17 @@ PendingResponse::PendingResponse(Transport::PendingResponse resp) : resp_{ resp
 
 py::object PendingResponse::wait_for(double seconds)
 {
-  py::gil_scoped_release release;
-  if (resp_->wait_for(std::chrono::duration<double>(seconds)) == std::future_status::ready)
+  std::future_status status;
+  {
+    // Only wait without the GIL, the Python objects below must be created while holding it.
+    py::gil_scoped_release release;
+    status = resp_->wait_for(std::chrono::duration<double>(seconds));
+  }
+  if (status == std::future_status::ready)
   {
     return dataToPy(resp_->get());
   }
-  return py::cast<py::none>(Py_None);
+  return py::none();
 }
 
 TraceEventSource::Ptr PyTraceEventProvider::makeSource()
-- 
2.43.0


From 5f0606e965e0d104eaa1d500c90f0b7b9a19b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:55 +0000
Subject: [PATCH 62/69] fix: convert Python integers from 2^63 up to 2^64 to
 json

---
 scalopus_python/lib/json_util.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scalopus_python/lib/json_util.cpp b/scalopus_python/lib/json_util.cpp
index 2ab0605..2ded72f 100644
--- a/scalopus_python/lib/json_util.cpp
+++ b/scalopus_python/lib/json_util.cpp
@@ -148,6 +148,13 @@ json pyToJson(const py::object& data)
 
   if (py::isinstance<py::int_>(data))
   {
+    // The integers beyond the signed range are still valid if they are unsigned (jsonToPy creates these as well).
+    int overflow{ 0 };
+    PyLong_AsLongLongAndOverflow(data.ptr(), &overflow);
+    if (overflow > 0)
+    {
+      return data.cast<std::uint64_t>();
+    }
     return data.cast<std::int64_t>();
   }
 
-- 
2.43.0


From 40807280280ed87d174047b2c958a0641af2dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 63/69] fix: do not copy captured Python functions without
 holding the GIL

---
 scalopus_python/lib/scalopus_catapult.cpp  |  5 +++--
 scalopus_python/lib/scalopus_interface.cpp | 12 ++++++++++--
 scalopus_python/lib/scalopus_interface.h   |  6 ++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/scalopus_python/lib/scalopus_catapult.cpp b/scalopus_python/lib/scalopus_catapult.cpp
index 0506e55..6434907 100644
--- a/scalopus_python/lib/scalopus_catapult.cpp
+++ b/scalopus_python/lib/scalopus_catapult.cpp
@@ -30,6 +30,7 @@
 #include "scalopus_catapult.h"
 #include <pybind11/stl.h>
 #include <scalopus_catapult/catapult_server.h>
+#include "scalopus_interface.h"
 
 namespace scalopus
 {
@@ -43,9 +44,9 @@ void add_scalopus_catapult(py::module& m)
   catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>());
   catapult_server.def("setSeasocksWarningLogger", &CatapultServer::setSeasocksWarningLogger);
   catapult_server.def("setLogger", [](CatapultServer& server, py::object fun) {
-    server.setLogger([fun](const std::string& str) {
+    server.setLogger([fun_ptr = shareObject(fun)](const std::string& str) {
       pybind11::gil_scoped_acquire gil;
-      fun(str);
+      (*fun_ptr)(str);
     });
   });
 
diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index 3282d8e..1e3f1cc 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -78,6 +78,14 @@ py::object dataToPy(const Data& data)
   return py::bytes{ std::string{ data.begin(), data.end() } };
 }
 
+std::shared_ptr<py::object> shareObject(const py::object& obj)
+{
+  return std::shared_ptr<py::object>(new py::object{ obj }, [](auto py_object_ptr) {
+    pybind11::gil_scoped_acquire gil;
+    delete py_object_ptr;
+  });
+}
+
 std::string PyEndpoint::getName() const
 {
   PYBIND11_OVERLOAD_PURE(std::string, Endpoint, getName, );
@@ -216,9 +224,9 @@ void add_scalopus_interface(py::module& m)
   py::class_<EndpointManager, EndpointManager::Ptr> endpoint_manager(interface, "EndpointManager");
   endpoint_manager.def("endpoints", &EndpointManager::endpoints, py::return_value_policy::copy);
   endpoint_manager.def("addEndpointFactory", [](EndpointManager& manager, std::string name, py::object fun) {
-    manager.addEndpointFactory(name, [fun](const Transport::Ptr& transport) {
+    manager.addEndpointFactory(name, [fun_ptr = shareObject(fun)](const Transport::Ptr& transport) {
       pybind11::gil_scoped_acquire gil;
-      py::object result_py = fun(transport);
+      py::object result_py = (*fun_ptr)(transport);
       if (py::isinstance<py::none>(result_py))
       {
         // python side returned none... provider went weak.
diff --git a/scalopus_python/lib/scalopus_interface.h b/scalopus_python/lib/scalopus_interface.h
index e516051..2ec5c07 100644
--- a/scalopus_python/lib/scalopus_interface.h
+++ b/scalopus_python/lib/scalopus_interface.h
@@ -58,6 +58,12 @@ Data pyToData(const py::object& obj);
  */
 py::object dataToPy(const Data& data);
 
+/**
+ * @brief Share ownership of a Python object. Contrary to the object itself, the returned pointer can be copied and
+ *        destroyed by any thread without holding the GIL.
+ */
+std::shared_ptr<py::object> shareObject(const py::object& obj);
+
 class PyEndpoint : public Endpoint
 {
 public:
-- 
2.43.0


From 836802b11aa1b515e64b3352a6e8b4d14ffbea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:14 +0000
Subject: [PATCH 64/69] fix: pass the transport to Python endpoints by
 reference

---
 scalopus_python/lib/scalopus_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index 1e3f1cc..7835e49 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -100,7 +100,7 @@ bool PyEndpoint::handle(Transport& transport, const Data& incoming, Data& outgoi
     {
       // from data to string and then to bytes.
       py::bytes my_bytes{ std::string{ incoming.begin(), incoming.end() } };
-      auto obj = overload(transport, my_bytes);
+      auto obj = overload(&transport, my_bytes);  // pointer: it is passed by reference, transports cannot be copied.
       return pyToData(obj, outgoing);
     }
   }
@@ -116,7 +116,7 @@ bool PyEndpoint::unsolicited(Transport& transport, const Data& incoming, Data& o
     {
       // from data to string and then to bytes.
       py::bytes my_bytes{ std::string{ incoming.begin(), incoming.end() } };
-      auto obj = overload(transport, my_bytes);
+      auto obj = overload(&transport, my_bytes);  // pointer: it is passed by reference, transports cannot be copied.
       return pyToData(obj, outgoing);
     }
   }
-- 
2.43.0


From 3b9b3c832c87152b99d6cb44663d779ae1ba573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 65/69] fix: release the GIL in blocking calls from Python,
 they deadlocked with threads calling into Python

---
 scalopus_python/lib/scalopus_catapult.cpp  |  5 +--
 scalopus_python/lib/scalopus_general.cpp   | 19 +++++------
 scalopus_python/lib/scalopus_interface.cpp | 37 ++++++++++++----------
 scalopus_python/lib/scalopus_interface.h   |  6 ++++
 scalopus_python/lib/scalopus_tracing.cpp   |  7 ++--
 5 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/scalopus_python/lib/scalopus_catapult.cpp b/scalopus_python/lib/scalopus_catapult.cpp
index 6434907..e4ebd7d 100644
--- a/scalopus_python/lib/scalopus_catapult.cpp
+++ b/scalopus_python/lib/scalopus_catapult.cpp
@@ -41,7 +41,7 @@ void add_scalopus_catapult(py::module& m)
 
   py::class_<CatapultServer, CatapultServer::Ptr> catapult_server(catapult, "CatapultServer");
   catapult_server.def(py::init<>());
-  catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>());
+  catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>(), ReleaseGil());
   catapult_server.def("setSeasocksWarningLogger", &CatapultServer::setSeasocksWarningLogger);
   catapult_server.def("setLogger", [](CatapultServer& server, py::object fun) {
     server.setLogger([fun_ptr = shareObject(fun)](const std::string& str) {
@@ -51,6 +51,7 @@ void add_scalopus_catapult(py::module& m)
   });
 
   catapult_server.def("setMaxBuffersize", &CatapultServer::setMaxBuffersize);
-  catapult_server.def("start", [](CatapultServer& server, int port) { server.start(port); }, py::arg("port") = 9222);
+  catapult_server.def("start", [](CatapultServer& server, int port) { server.start(port); }, py::arg("port") = 9222,
+                      ReleaseGil());
 }
 }  // namespace scalopus
diff --git a/scalopus_python/lib/scalopus_general.cpp b/scalopus_python/lib/scalopus_general.cpp
index 1f0a1bb..97cc5c6 100644
--- a/scalopus_python/lib/scalopus_general.cpp
+++ b/scalopus_python/lib/scalopus_general.cpp
@@ -34,6 +34,7 @@
 #include <scalopus_general/general.h>
 #include <scalopus_general/general_provider.h>
 #include <scalopus_interface/endpoint_manager.h>
+#include "scalopus_interface.h"
 
 namespace scalopus
 {
@@ -43,7 +44,7 @@ void add_scalopus_general(py::module& m)
   py::module general = m.def_submodule("general", "The general components.");
   py::class_<EndpointIntrospect, EndpointIntrospect::Ptr, Endpoint> endpoint_introspect(general, "EndpointIntrospect");
   endpoint_introspect.def(py::init<>());
-  endpoint_introspect.def("supported", &EndpointIntrospect::supported);
+  endpoint_introspect.def("supported", &EndpointIntrospect::supported, ReleaseGil());
   endpoint_introspect.def_property_readonly_static("name",
                                                    [](py::object /* self */) { return EndpointIntrospect::name; });
   endpoint_introspect.def("factory", &EndpointIntrospect::factory);
@@ -63,8 +64,8 @@ void add_scalopus_general(py::module& m)
   py::class_<EndpointProcessInfo, EndpointProcessInfo::Ptr, Endpoint> endpoint_process_info(general,
                                                                                             "EndpointProcessInfo");
   endpoint_process_info.def(py::init<>());
-  endpoint_process_info.def("setProcessName", &EndpointProcessInfo::setProcessName);
-  endpoint_process_info.def("processInfo", &EndpointProcessInfo::processInfo);
+  endpoint_process_info.def("setProcessName", &EndpointProcessInfo::setProcessName, ReleaseGil());
+  endpoint_process_info.def("processInfo", &EndpointProcessInfo::processInfo, ReleaseGil());
   endpoint_process_info.def_property_readonly_static("name",
                                                      [](py::object /* self */) { return EndpointProcessInfo::name; });
   endpoint_process_info.def_static("factory", &EndpointProcessInfo::factory);
@@ -74,16 +75,16 @@ void add_scalopus_general(py::module& m)
   py::class_<EndpointManagerPoll, EndpointManagerPoll::Ptr, EndpointManager> endpoint_manager_poll(
       general, "EndpointManagerPoll");
   endpoint_manager_poll.def(py::init<TransportFactory::Ptr>());
-  endpoint_manager_poll.def("startPolling", &EndpointManagerPoll::startPolling);
-  endpoint_manager_poll.def("stopPolling", &EndpointManagerPoll::stopPolling);
-  endpoint_manager_poll.def("manage", &EndpointManagerPoll::manage);
+  endpoint_manager_poll.def("startPolling", &EndpointManagerPoll::startPolling, ReleaseGil());
+  endpoint_manager_poll.def("stopPolling", &EndpointManagerPoll::stopPolling, ReleaseGil());
+  endpoint_manager_poll.def("manage", &EndpointManagerPoll::manage, ReleaseGil());
   endpoint_manager_poll.def("setLogger", &EndpointManagerPoll::setLogger);
-  endpoint_manager_poll.def("endpoints", &EndpointManagerPoll::endpoints);
+  endpoint_manager_poll.def("endpoints", &EndpointManagerPoll::endpoints, ReleaseGil());
 
   // General provider.
   py::class_<GeneralProvider, GeneralProvider::Ptr, TraceEventProvider> general_provider(general, "GeneralProvider");
   general_provider.def(py::init<EndpointManager::Ptr>());
-  general_provider.def("getMapping", &GeneralProvider::getMapping);
-  general_provider.def("updateMapping", &GeneralProvider::updateMapping);
+  general_provider.def("getMapping", &GeneralProvider::getMapping, ReleaseGil());
+  general_provider.def("updateMapping", &GeneralProvider::updateMapping, ReleaseGil());
 }
 }  // namespace scalopus
diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index 7835e49..f461970 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -192,39 +192,42 @@ void add_scalopus_interface(py::module& m)
   pending_response.def("wait_for", &PendingResponse::wait_for);
 
   py::class_<Transport, Transport::Ptr> transport_interface(interface, "Transport");
-  transport_interface.def("addEndpoint", &Transport::addEndpoint, py::keep_alive<1, 2>());
-  transport_interface.def("isConnected", &Transport::isConnected);
+  transport_interface.def("addEndpoint", &Transport::addEndpoint, py::keep_alive<1, 2>(), ReleaseGil());
+  transport_interface.def("isConnected", &Transport::isConnected, ReleaseGil());
   transport_interface.def("getAddress", &Transport::getAddress);
-  transport_interface.def("broadcast", &Transport::broadcast);
+  transport_interface.def("broadcast", &Transport::broadcast, ReleaseGil());
   transport_interface.def("request", [](Transport& transport, const std::string& name, const py::object& outgoing) {
-    return std::make_shared<PendingResponse>(transport.request(name, pyToData(outgoing)));
+    const auto data = pyToData(outgoing);
+    py::gil_scoped_release release;
+    return std::make_shared<PendingResponse>(transport.request(name, data));
   });
   //  transport_interface.def("setLogger", &Transport::setLogger);  // causes deadlocks when python shuts down.
 
   py::class_<Endpoint, PyEndpoint, Endpoint::Ptr> py_endpoint(interface, "Endpoint");
   py_endpoint.def(py::init_alias<>());
   py_endpoint.def("getName", &Endpoint::getName);
-  py_endpoint.def("handle", &Endpoint::handle);
-  py_endpoint.def("unsolicited", &Endpoint::unsolicited);
+  py_endpoint.def("handle", &Endpoint::handle, ReleaseGil());
+  py_endpoint.def("unsolicited", &Endpoint::unsolicited, ReleaseGil());
   py_endpoint.def("getTransport", &Endpoint::getTransport, py::return_value_policy::reference);
 
   py::class_<TraceEventProvider, PyTraceEventProvider, TraceEventProvider::Ptr> trace_event_provider(
       interface, "TraceEventProvider");
   trace_event_provider.def(py::init<>());
-  trace_event_provider.def("makeSource", &TraceEventProvider::makeSource);
+  trace_event_provider.def("makeSource", &TraceEventProvider::makeSource, ReleaseGil());
 
   py::class_<TraceEventSource, PyTraceEventSource, TraceEventSource::Ptr> trace_event_source(interface,
                                                                                              "TraceEventSource");
   trace_event_source.def(py::init_alias<>());
-  trace_event_source.def("startInterval", &TraceEventSource::startInterval);
-  trace_event_source.def("stopInterval", &TraceEventSource::stopInterval);
+  trace_event_source.def("startInterval", &TraceEventSource::startInterval, ReleaseGil());
+  trace_event_source.def("stopInterval", &TraceEventSource::stopInterval, ReleaseGil());
   //  trace_event_source.def("work", &TraceEventSource::work);
-  trace_event_source.def("finishInterval", &TraceEventSource::finishInterval);  // implicit conversion from json =)
+  // implicit conversion from json =)
+  trace_event_source.def("finishInterval", &TraceEventSource::finishInterval, ReleaseGil());
 
   py::class_<EndpointManager, EndpointManager::Ptr> endpoint_manager(interface, "EndpointManager");
-  endpoint_manager.def("endpoints", &EndpointManager::endpoints, py::return_value_policy::copy);
+  endpoint_manager.def("endpoints", &EndpointManager::endpoints, py::return_value_policy::copy, ReleaseGil());
   endpoint_manager.def("addEndpointFactory", [](EndpointManager& manager, std::string name, py::object fun) {
-    manager.addEndpointFactory(name, [fun_ptr = shareObject(fun)](const Transport::Ptr& transport) {
+    auto factory = [fun_ptr = shareObject(fun)](const Transport::Ptr& transport) {
       pybind11::gil_scoped_acquire gil;
       py::object result_py = (*fun_ptr)(transport);
       if (py::isinstance<py::none>(result_py))
@@ -238,13 +241,15 @@ void add_scalopus_interface(py::module& m)
         throw py::value_error("Could not cast returned object to Endpoint.");
       }
       return endpoint;
-    });
+    };
+    py::gil_scoped_release release;
+    manager.addEndpointFactory(name, factory);
   });
 
   py::class_<TransportFactory, TransportFactory::Ptr> transport_factory(interface, "TransportFactory");
-  transport_factory.def("discover", &TransportFactory::discover);
-  transport_factory.def("serve", &TransportFactory::serve);
-  transport_factory.def("connect", &TransportFactory::connect, py::return_value_policy::copy);
+  transport_factory.def("discover", &TransportFactory::discover, ReleaseGil());
+  transport_factory.def("serve", &TransportFactory::serve, ReleaseGil());
+  transport_factory.def("connect", &TransportFactory::connect, py::return_value_policy::copy, ReleaseGil());
   //  transport_factory.def("setLogger", &TransportFactory::setLogger);  // causes deadlocks when python shuts down.
 }
 
diff --git a/scalopus_python/lib/scalopus_interface.h b/scalopus_python/lib/scalopus_interface.h
index 2ec5c07..45f0a2b 100644
--- a/scalopus_python/lib/scalopus_interface.h
+++ b/scalopus_python/lib/scalopus_interface.h
@@ -39,6 +39,12 @@ namespace scalopus
 {
 namespace py = pybind11;
 using json = nlohmann::json;
+/**
+ * @brief Releases the GIL during a method; for methods that block, or acquire a mutex that can be held by a thread that
+ *        calls into Python, these would otherwise deadlock with that thread.
+ */
+using ReleaseGil = py::call_guard<py::gil_scoped_release>;
+
 /**
  * @brief Custom function to data conversion. Since there is so many 'valid' ways in Python 2 and 3 to express bytes.
  * Strings, bytearray, buffer, list of integers.
diff --git a/scalopus_python/lib/scalopus_tracing.cpp b/scalopus_python/lib/scalopus_tracing.cpp
index 3f229fb..60fa6fe 100644
--- a/scalopus_python/lib/scalopus_tracing.cpp
+++ b/scalopus_python/lib/scalopus_tracing.cpp
@@ -42,6 +42,7 @@
 
 #include <scalopus_tracing/native_trace_provider.h>
 #include <scalopus_tracing/trace_configurator.h>
+#include "scalopus_interface.h"
 
 static std::size_t uniqueTraceId()
 {
@@ -66,7 +67,7 @@ void add_scalopus_tracing(py::module& m)
   py::class_<EndpointTraceMapping, EndpointTraceMapping::Ptr, Endpoint> endpoint_trace_mapping(tracing,
                                                                                                "EndpointTraceMapping");
   endpoint_trace_mapping.def(py::init<>());
-  endpoint_trace_mapping.def("mapping", &EndpointTraceMapping::mapping);
+  endpoint_trace_mapping.def("mapping", &EndpointTraceMapping::mapping, ReleaseGil());
   endpoint_trace_mapping.def_static("factory", &EndpointTraceMapping::factory);
   endpoint_trace_mapping.def_property_readonly_static("name",
                                                       [](py::object /* self */) { return EndpointTraceMapping::name; });
@@ -77,8 +78,8 @@ void add_scalopus_tracing(py::module& m)
   py::class_<EndpointTraceConfigurator, EndpointTraceConfigurator::Ptr, Endpoint> endpoint_tc(
       tracing, "EndpointTraceConfigurator");
   endpoint_tc.def(py::init<>());
-  endpoint_tc.def("setTraceState", &EndpointTraceConfigurator::setTraceState);
-  endpoint_tc.def("getTraceState", &EndpointTraceConfigurator::getTraceState);
+  endpoint_tc.def("setTraceState", &EndpointTraceConfigurator::setTraceState, ReleaseGil());
+  endpoint_tc.def("getTraceState", &EndpointTraceConfigurator::getTraceState, ReleaseGil());
   endpoint_tc.def_property_readonly_static("name",
                                            [](py::object /* self */) { return EndpointTraceConfigurator::name; });
   endpoint_tc.def_static("factory", &EndpointTraceConfigurator::factory);
-- 
2.43.0


From f126194709d810a94506ca42efaef0725c7f5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:23 +0000
Subject: [PATCH 66/69] fix: release the GIL while Python destroys objects that
 join threads calling into Python

---
 scalopus_python/lib/pybind_fix.h           | 95 ++++++++++++++++++++++
 scalopus_python/lib/scalopus_catapult.cpp  |  2 +-
 scalopus_python/lib/scalopus_general.cpp   |  4 +-
 scalopus_python/lib/scalopus_interface.cpp |  2 +
 4 files changed, 101 insertions(+), 2 deletions(-)

diff --git a/scalopus_python/lib/pybind_fix.h b/scalopus_python/lib/pybind_fix.h
index 9befeab..6fa9c12 100644
--- a/scalopus_python/lib/pybind_fix.h
+++ b/scalopus_python/lib/pybind_fix.h
@@ -31,6 +31,70 @@
 #include <pybind11/pybind11.h>
 #include <scalopus_interface/endpoint.h>
 #include <scalopus_interface/trace_event_provider.h>
+#include <scalopus_interface/transport.h>
+#include <memory>
+#include <thread>
+
+namespace scalopus
+{
+/**
+ * @brief Exists on the stack while the worker thread of a transport calls into Python.
+ */
+class TransportCallback
+{
+public:
+  TransportCallback()
+  {
+    depth()++;
+  }
+  ~TransportCallback()
+  {
+    depth()--;
+  }
+  TransportCallback(const TransportCallback&) = delete;
+  TransportCallback& operator=(const TransportCallback&) = delete;
+  static bool active()
+  {
+    return depth() != 0;
+  }
+
+private:
+  static std::size_t& depth()
+  {
+    static thread_local std::size_t depth{ 0 };
+    return depth;
+  }
+};
+
+/**
+ * @brief For instances that Python can own while their destructor waits for threads that call into Python, destroying
+ *        these while holding the GIL would be a deadlock. The returned pointer releases the GIL during the destruction.
+ */
+template <typename T>
+std::shared_ptr<T> destroyWithoutGil(std::shared_ptr<T> instance)
+{
+  T* ptr = instance.get();
+  if (ptr == nullptr)
+  {
+    return instance;
+  }
+  return std::shared_ptr<T>(ptr, [instance](T* /* ptr */) mutable {
+    if (!PyGILState_Check())
+    {
+      instance.reset();
+      return;
+    }
+    if (TransportCallback::active())
+    {
+      // This may be the thread the destructor waits for, wait for it to finish from another thread.
+      std::thread([instance = std::move(instance)]() mutable { instance.reset(); }).detach();
+      return;
+    }
+    pybind11::gil_scoped_release release;
+    instance.reset();
+  });
+}
+}  // namespace scalopus
 
 // Python part of subclassed objects get destroyed when an subclass is created from Python and handed back to C++.
 
@@ -166,6 +230,37 @@ struct is_holder_type<scalopus::TraceEventSource, std::shared_ptr<scalopus::Trac
 {
 };
 // End of TraceEventSource
+// Start of Transport, Python may be the last owner of these and they join their thread on destruction.
+template <>
+struct type_caster<std::shared_ptr<scalopus::Transport>>
+{
+  PYBIND11_TYPE_CASTER(std::shared_ptr<scalopus::Transport>, _("scalopus::Transport"));
+
+  using TransportCaster = copyable_holder_caster<scalopus::Transport, std::shared_ptr<scalopus::Transport>>;
+
+  bool load(pybind11::handle src, bool b)
+  {
+    TransportCaster bc;
+    bool success = bc.load(src, b);
+    if (!success)
+    {
+      return false;
+    }
+    value = static_cast<std::shared_ptr<scalopus::Transport>>(bc);
+    return true;
+  }
+
+  static handle cast(std::shared_ptr<scalopus::Transport> base, return_value_policy rvp, handle h)
+  {
+    return TransportCaster::cast(scalopus::destroyWithoutGil(base), rvp, h);
+  }
+};
+
+template <>
+struct is_holder_type<scalopus::Transport, std::shared_ptr<scalopus::Transport>> : std::true_type
+{
+};
+// End of Transport
 
 }  // namespace detail
 }  // namespace pybind11
\ No newline at end of file
diff --git a/scalopus_python/lib/scalopus_catapult.cpp b/scalopus_python/lib/scalopus_catapult.cpp
index e4ebd7d..0e2cd38 100644
--- a/scalopus_python/lib/scalopus_catapult.cpp
+++ b/scalopus_python/lib/scalopus_catapult.cpp
@@ -40,7 +40,7 @@ void add_scalopus_catapult(py::module& m)
   py::module catapult = m.def_submodule("catapult", "The catapult components.");
 
   py::class_<CatapultServer, CatapultServer::Ptr> catapult_server(catapult, "CatapultServer");
-  catapult_server.def(py::init<>());
+  catapult_server.def(py::init([]() { return destroyWithoutGil(std::make_shared<CatapultServer>()); }));
   catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>(), ReleaseGil());
   catapult_server.def("setSeasocksWarningLogger", &CatapultServer::setSeasocksWarningLogger);
   catapult_server.def("setLogger", [](CatapultServer& server, py::object fun) {
diff --git a/scalopus_python/lib/scalopus_general.cpp b/scalopus_python/lib/scalopus_general.cpp
index 97cc5c6..abbb973 100644
--- a/scalopus_python/lib/scalopus_general.cpp
+++ b/scalopus_python/lib/scalopus_general.cpp
@@ -74,7 +74,9 @@ void add_scalopus_general(py::module& m)
 
   py::class_<EndpointManagerPoll, EndpointManagerPoll::Ptr, EndpointManager> endpoint_manager_poll(
       general, "EndpointManagerPoll");
-  endpoint_manager_poll.def(py::init<TransportFactory::Ptr>());
+  endpoint_manager_poll.def(py::init([](const TransportFactory::Ptr& factory) {
+    return destroyWithoutGil(std::make_shared<EndpointManagerPoll>(factory));
+  }));
   endpoint_manager_poll.def("startPolling", &EndpointManagerPoll::startPolling, ReleaseGil());
   endpoint_manager_poll.def("stopPolling", &EndpointManagerPoll::stopPolling, ReleaseGil());
   endpoint_manager_poll.def("manage", &EndpointManagerPoll::manage, ReleaseGil());
diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index f461970..464dc2b 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -94,6 +94,7 @@ std::string PyEndpoint::getName() const
 bool PyEndpoint::handle(Transport& transport, const Data& incoming, Data& outgoing)
 {
   {
+    TransportCallback callback;
     pybind11::gil_scoped_acquire gil;
     pybind11::function overload = pybind11::get_overload(this, "handle");
     if (overload)
@@ -110,6 +111,7 @@ bool PyEndpoint::handle(Transport& transport, const Data& incoming, Data& outgoi
 bool PyEndpoint::unsolicited(Transport& transport, const Data& incoming, Data& outgoing)
 {
   {
+    TransportCallback callback;
     pybind11::gil_scoped_acquire gil;
     pybind11::function overload = pybind11::get_overload(this, "unsolicited");
     if (overload)
-- 
2.43.0


From addd7e8651ad78b47d2d447b2682a764641f2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 67/69] fix: an endpoint factory that throws ended the polling
 thread and the process

---
 .../src/endpoint_manager_poll.cpp             | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 24e9f81..62b7885 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -124,12 +124,25 @@ void EndpointManagerPoll::updateEndpoints(const Transport::Ptr& transport)
     if (it != endpoint_factories_.end())
     {
       // we support this endpoint, construct it and add it to the list.
-      auto new_endpoint = endpoint_factories_[supported_endpoint](transport);
+      Endpoint::Ptr new_endpoint;
+      try
+      {
+        new_endpoint = endpoint_factories_[supported_endpoint](transport);
+        if (new_endpoint != nullptr)
+        {
+          // Also register the new endpoint with the transport in case it needs to listen to broadcast messages.
+          transport->addEndpoint(new_endpoint);
+        }
+      }
+      catch (const std::exception& e)
+      {
+        // A failing factory should not affect the other endpoints or end the polling thread.
+        log("[scalopus] Factory for " + supported_endpoint + " failed: " + e.what());
+        continue;
+      }
       if (new_endpoint != nullptr)
       {
         transport_endpoints_[transport][supported_endpoint] = new_endpoint;
-        // Also register the new endpoint with the transport in case it needs to listen to broadcast messages.
-        transport->addEndpoint(new_endpoint);
       }
       else
       {
-- 
2.43.0


From 191ecd9e2ff553b748f9ac98805ecd905076890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 68/69] fix: a trace source or provider that throws ended the
 catapult server and the process

---
 scalopus_catapult/src/catapult_backend.cpp | 14 +++++++-
 scalopus_catapult/src/trace_session.cpp    | 38 +++++++++++++---------
 scalopus_catapult/src/trace_session.h      |  6 ++++
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/scalopus_catapult/src/catapult_backend.cpp b/scalopus_catapult/src/catapult_backend.cpp
index 889e491..51b5c26 100644
--- a/scalopus_catapult/src/catapult_backend.cpp
+++ b/scalopus_catapult/src/catapult_backend.cpp
@@ -173,7 +173,19 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
     // Add all the sources to the session
     for (auto& provider : providers_)
     {
-      session->addSource(provider->makeSource());
+      try
+      {
+        auto source = provider->makeSource();
+        if (source != nullptr)
+        {
+          session->addSource(std::move(source));
+        }
+      }
+      catch (const std::exception& e)
+      {
+        // A failing provider should not affect the other providers or end the server.
+        logger_(std::string("[CatapultBackend]: Provider failed to make a source: ") + e.what());
+      }
     }
     sessions_[ws] = std::move(session);
     session_ids_[ws] = session_id;
diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 890798e..905d4a0 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -83,10 +83,7 @@ void TraceSession::loop()
       }
 
       // Perform work with the sources
-      for (auto& source : sources_)
-      {
-        source->work();
-      }
+      forEachSource([](TraceEventSource& source) { source.work(); });
     }
 
     // Finally, block a bit just to prevent spinning.
@@ -95,6 +92,22 @@ void TraceSession::loop()
   };
 }
 
+void TraceSession::forEachSource(const std::function<void(TraceEventSource&)>& fun)
+{
+  for (auto& source : sources_)
+  {
+    try
+    {
+      fun(*source);
+    }
+    catch (const std::exception& e)
+    {
+      // A failing source should not affect the other sources or end this thread.
+      logger_("[session " + identifier() + "] Source failed: " + e.what());
+    }
+  }
+}
+
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
   logger_("[session " + identifier() + "] <- " + incoming_msg);
@@ -119,10 +132,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources_)
-    {
-      source->startInterval();
-    }
+    forEachSource([](TraceEventSource& source) { source.startInterval(); });
     outgoing(res.dump());
     return;
   }
@@ -130,20 +140,16 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources_)
-    {
-      source->stopInterval();
-    }
+    forEachSource([](TraceEventSource& source) { source.stopInterval(); });
 
     json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources_)
-    {
-      auto results = source->finishInterval();
+    forEachSource([&events](TraceEventSource& source) {
+      auto results = source.finishInterval();
       events.insert(events.end(), results.begin(), results.end());
-    }
+    });
     chunkedTransmit(events);
 
     res = { { "method", "Tracing.tracingComplete" }, { "params", std::vector<int>{} } };
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index c388dbb..f4591de 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -116,6 +116,12 @@ private:
    */
   void loop();
 
+  /**
+   * @brief Call a function for each of the sources, failures of a source are logged and don't affect the others.
+   * @param fun The function to call with the source.
+   */
+  void forEachSource(const std::function<void(TraceEventSource&)>& fun);
+
   /**
    * @brief Function used to process invidual messages that came in from the client.
    * @param incoming_msg The message as it was received from the websocket.
-- 
2.43.0


From f57671bf99f1348aa3112157758255b569bf8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 69/69] fix: exceptions raised by Python loggers ended the
 thread that logged and the process

---
 scalopus_python/lib/scalopus_catapult.cpp  |  8 ++------
 scalopus_python/lib/scalopus_general.cpp   |  4 +++-
 scalopus_python/lib/scalopus_interface.cpp | 17 +++++++++++++++++
 scalopus_python/lib/scalopus_interface.h   |  5 +++++
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/scalopus_python/lib/scalopus_catapult.cpp b/scalopus_python/lib/scalopus_catapult.cpp
index 0e2cd38..0b825d4 100644
--- a/scalopus_python/lib/scalopus_catapult.cpp
+++ b/scalopus_python/lib/scalopus_catapult.cpp
@@ -43,12 +43,8 @@ void add_scalopus_catapult(py::module& m)
   catapult_server.def(py::init([]() { return destroyWithoutGil(std::make_shared<CatapultServer>()); }));
   catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>(), ReleaseGil());
   catapult_server.def("setSeasocksWarningLogger", &CatapultServer::setSeasocksWarningLogger);
-  catapult_server.def("setLogger", [](CatapultServer& server, py::object fun) {
-    server.setLogger([fun_ptr = shareObject(fun)](const std::string& str) {
-      pybind11::gil_scoped_acquire gil;
-      (*fun_ptr)(str);
-    });
-  });
+  catapult_server.def("setLogger",
+                      [](CatapultServer& server, py::object fun) { server.setLogger(makeLogger(fun)); });
 
   catapult_server.def("setMaxBuffersize", &CatapultServer::setMaxBuffersize);
   catapult_server.def("start", [](CatapultServer& server, int port) { server.start(port); }, py::arg("port") = 9222,
diff --git a/scalopus_python/lib/scalopus_general.cpp b/scalopus_python/lib/scalopus_general.cpp
index abbb973..9399f93 100644
--- a/scalopus_python/lib/scalopus_general.cpp
+++ b/scalopus_python/lib/scalopus_general.cpp
@@ -80,7 +80,9 @@ void add_scalopus_general(py::module& m)
   endpoint_manager_poll.def("startPolling", &EndpointManagerPoll::startPolling, ReleaseGil());
   endpoint_manager_poll.def("stopPolling", &EndpointManagerPoll::stopPolling, ReleaseGil());
   endpoint_manager_poll.def("manage", &EndpointManagerPoll::manage, ReleaseGil());
-  endpoint_manager_poll.def("setLogger", &EndpointManagerPoll::setLogger);
+  endpoint_manager_poll.def("setLogger", [](EndpointManagerPoll& manager, py::object fun) {
+    manager.setLogger(fun.is_none() ? EndpointManagerPoll::LoggingFunction{} : makeLogger(fun));
+  });
   endpoint_manager_poll.def("endpoints", &EndpointManagerPoll::endpoints, ReleaseGil());
 
   // General provider.
diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index 464dc2b..866305d 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -86,6 +86,23 @@ std::shared_ptr<py::object> shareObject(const py::object& obj)
   });
 }
 
+std::function<void(const std::string&)> makeLogger(const py::object& fun)
+{
+  return [fun_ptr = shareObject(fun)](const std::string& msg) {
+    pybind11::gil_scoped_acquire gil;
+    try
+    {
+      (*fun_ptr)(msg);
+    }
+    catch (py::error_already_set& e)
+    {
+      // There is no Python caller that can handle it, it should not end the thread that logs something.
+      e.restore();
+      PyErr_WriteUnraisable(fun_ptr->ptr());
+    }
+  };
+}
+
 std::string PyEndpoint::getName() const
 {
   PYBIND11_OVERLOAD_PURE(std::string, Endpoint, getName, );
diff --git a/scalopus_python/lib/scalopus_interface.h b/scalopus_python/lib/scalopus_interface.h
index 45f0a2b..c2f7328 100644
--- a/scalopus_python/lib/scalopus_interface.h
+++ b/scalopus_python/lib/scalopus_interface.h
@@ -70,6 +70,11 @@ py::object dataToPy(const Data& data);
  */
 std::shared_ptr<py::object> shareObject(const py::object& obj);
 
+/**
+ * @brief Create a logging function that calls the Python object, exceptions it raises are reported and then ignored.
+ */
+std::function<void(const std::string&)> makeLogger(const py::object& fun);
+
 class PyEndpoint : public Endpoint
 {
 public:
-- 
2.43.0

