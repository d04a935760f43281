#!/usr/bin/env python3
"""A set of small subtle changes, one per entry, used to try the checks: mutants.py [-j N] [ids or property ids...].
Each is applied to a scratch copy of /repo, which must still build, and the check of its property is run against that copy."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time
TU = "scalopus_transport/src/transport_unix.cpp"; PR = "scalopus_transport/src/protocol.cpp"
TL = "scalopus_transport/src/transport_loopback.cpp"; TI = "scalopus_interface/src/transport.cpp"
MP = "scalopus_general/src/endpoint_manager_poll.cpp"; PI = "scalopus_general/src/endpoint_process_info.cpp"
EI = "scalopus_general/src/endpoint_introspect.cpp"; GP = "scalopus_general/src/general_provider.cpp"
GS = "scalopus_general/src/general_source.cpp"; TN = "scalopus_general/src/thread_name_tracker.cpp"
MT = "scalopus_general/include/scalopus_general/map_tracker.h"; ETC = "scalopus_tracing/src/endpoint_trace_configurator.cpp"
ETM = "scalopus_tracing/src/endpoint_trace_mapping.cpp"; STP = "scalopus_tracing/src/scope_tracing_provider.cpp"
TC = "scalopus_tracing/src/trace_configurator.cpp"; RAII = "scalopus_tracing/src/trace_configuration_raii.cpp"
RB = "scalopus_tracing/src/spsc_ringbuffer.h"; NS = "scalopus_tracing/src/native/native_trace_source.cpp"
NE = "scalopus_tracing/src/native/endpoint_native_trace_sender.cpp"; NP = "scalopus_tracing/src/native/native_trace_provider.cpp"
NT = "scalopus_tracing/src/native/native_tracepoint.cpp"; NC = "scalopus_tracing/src/native/tracepoint_collector_native.cpp"
LS = "scalopus_tracing/src/lttng/lttng_source.cpp"; CE = "scalopus_tracing/src/lttng/ctfevent.cpp"
BP = "scalopus_tracing/src/lttng/babeltrace_parser.cpp"; BT = "scalopus_tracing/src/lttng/babeltrace_tool.cpp"
LT = "scalopus_tracing/src/lttng/lttng_tracepoint.cpp"; TS = "scalopus_catapult/src/trace_session.cpp"
CR = "scalopus_catapult/src/catapult_recorder.cpp"; CB = "scalopus_catapult/src/catapult_backend.cpp"
CS = "scalopus_catapult/src/catapult_server.cpp"; PT = "scalopus_python/scalopus/tracing.py"
PG = "scalopus_python/scalopus/general.py"; TM = "scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h"
M = []
def m(id, prop, path, old, new, *more):
    M.append(dict(id=id, prop=prop, edits=[(path, old, new)] + [tuple(x) for x in more]))

# --- C01
m("c01-counter16", "C01", TU, "outgoing_msg.request_id = request_id;", "outgoing_msg.request_id = request_id & 0xffff;",
  (TU, "ongoing_requests_[{ remote_endpoint_name, request_id }] =", "ongoing_requests_[{ remote_endpoint_name, request_id & 0xffff }] ="))
m("c01-nolock-write", "C01", TU, """            // send response...
            std::lock_guard<std::mutex> wlock(write_lock_);
""", """            // send response...
""", (TU, """    std::lock_guard<std::mutex> lock(write_lock_);
    sent = protocol""", """    sent = protocol"""))
m("c01-evict", "C01", TU, "          it = ongoing_requests_.erase(it);\n        }\n        else\n        {\n          it++;",
  "          it = ongoing_requests_.erase(it);\n        }\n        else if (ongoing_requests_.size() > 512)\n        {\n          it = ongoing_requests_.erase(it);\n        }\n        else\n        {\n          it++;")
m("c01-empty-resp", "C01", TU, "            // send response...\n", "            // send response...\n            if (response.data.empty() && request.data.size() > 4096)\n            {\n              continue;\n            }\n")
m("c01-id-only", "C01", TU, "        if (ptr != nullptr)\n        {\n          request_it->second.first.set_value(incoming.data);",
  "        if (ptr != nullptr && incoming.request_id + 1000000 > request_counter_ && (request_counter_ - incoming.request_id) < 300)\n        {\n          request_it->second.first.set_value(incoming.data);")
# --- C02
m("c02-len16", "C02", PR, "uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());", "uint32_t length_data = static_cast<uint32_t>(outgoing.data.size()) & 0xffffff;")
m("c02-name-zero", "C02", PR, "    std::memcpy(&incoming.endpoint[0], tmp.data(), length_endpoint_name);", "    incoming.endpoint = std::string(reinterpret_cast<const char*>(tmp.data()), strnlen(reinterpret_cast<const char*>(tmp.data()), length_endpoint_name));")
m("c02-name-signed", "C02", PR, "  if (readData(fd, length_endpoint_name, tmp))", "  if (readData(fd, static_cast<std::size_t>(length_endpoint_name & 0x7fff), tmp))",
  (PR, "incoming.endpoint.resize(length_endpoint_name);", "incoming.endpoint.resize(length_endpoint_name & 0x7fff);"),
  (PR, "tmp.data(), length_endpoint_name);", "tmp.data(), length_endpoint_name & 0x7fff);"))
m("c02-chunk", "C02", PR, "std::min(length - received, chunk_size));", "std::min(received > 65536 ? chunk_size : length - received, chunk_size));")
# --- C03
m("c03-first-fail", "C03", TU, "        protocol::send(connection, broadcast);", "        if (!protocol::send(connection, broadcast))\n        {\n          break;\n        }")
m("c03-reuse-id", "C03", TU, "      broadcast.data = name_payload.second;", "      broadcast.data = name_payload.second;\n      broadcast.request_id = request_counter_ + 1;")
m("c03-lifo", "C03", TI, "std::move(broadcast_messages_.front());\n  broadcast_messages_.pop_front();", "std::move(broadcast_messages_.size() > 20 ? broadcast_messages_.back() : broadcast_messages_.front());\n  if (broadcast_messages_.size() > 20)\n  {\n    broadcast_messages_.pop_back();\n    return tmp;\n  }\n  broadcast_messages_.pop_front();")
m("c03-cap", "C03", TI, "  broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);", "  if (broadcast_messages_.size() >= 1000)\n  {\n    broadcast_messages_.pop_front();\n  }\n  broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);")
m("c03-loop-expired", "C03", TL, "        for (auto weak_client : clients)\n        {\n          auto client = weak_client.lock();\n", "        for (auto weak_client : clients)\n        {\n          auto client = weak_client.lock();\n          if (client == nullptr)\n          {\n            break;\n          }\n")
# --- C04
m("c04-partial-data", "C04", PR, "  if (readData(fd, length_data, incoming.data))\n  {\n    return true;\n  }\n\n  return false;", "  readData(fd, length_data, incoming.data);\n  return true;")
m("c04-nosignal", "C04", PR, "length - sent, MSG_NOSIGNAL)", "length - sent, 0)")
m("c04-noerase", "C04", TU, "          connections_.erase(connection);\n          continue;  // this descriptor may be reused by now.", "          continue;  // this descriptor may be reused by now.")
m("c04-still-connected", "C04", TU, "        running_ = false;\n        client_fd_ = 0;\n", "        running_ = false;\n")
# --- C05
m("c05-stale-break", "C05", TL, "      ongoing_requests_.pop_front();\n", "      ongoing_requests_.pop_front();\n      if (!res && !failure && ongoing_requests_.size() > 3)\n      {\n        ongoing_requests_.pop_front();\n      }\n")
m("c05-twice", "C05", TL, "            res = endpoint->handle(*server_, outgoing, resp);", "            res = endpoint->handle(*server_, outgoing, resp);\n            if (!res && !resp.empty())\n            {\n              res = endpoint->handle(*server_, outgoing, resp);\n            }")
m("c05-lifo", "C05", TL, "  ongoing_requests_.emplace_back(remote_endpoint_name, outgoing, std::move(promise), response);", "  if (outgoing.empty())\n  {\n    return response;\n  }\n  ongoing_requests_.emplace_back(remote_endpoint_name, outgoing, std::move(promise), response);")
# --- C06
m("c06-front", "C06", ETM, "if (!request.empty() && (request.front() == 'm'))", "if (request.front() == 'm')")
m("c06-alloc", "C06", PR, "  incoming.reserve(chunk_size);", "  incoming.reserve(std::min<size_t>(length, size_t{ 1 } << 33));")
m("c06-unknown-close", "C06", TU, "  // @TODO handle requests to endpoints we don't have gracefully.\n", "  // @TODO handle requests to endpoints we don't have gracefully.\n  if (request.endpoint.size() > 1024)\n  {\n    running_ = false;\n  }\n")
m("c06-assert", "C06", PI, "if (req[\"cmd\"].get<std::string>() == \"info\")", "if (*req.find(\"cmd\") == \"info\")")
# --- C07
m("c07-noclose-conn", "C07", TU, "  for (const auto& connection : connections_)\n  {\n    ::shutdown(connection, 2);\n    ::close(connection);", "  for (const auto& connection : connections_)\n  {\n    ::shutdown(connection, 2);\n    if (connection == client_fd_ || connection == server_fd_ || connections_.size() < 4)\n      ::close(connection);")
m("c07-client-leak", "C07", TU, "        running_ = false;\n        client_fd_ = 0;\n", "        running_ = false;\n        connections_.erase(client_fd_);\n        connections_.insert(dup(0));\n        client_fd_ = 0;\n")
m("c04-pending2", "C04", TU, "      ongoing_requests_.erase(request_it);\n    }\n  }\n  return response;", "    }\n  }\n  return response;")
m("c07-connect-leak", "C07", TU, "    logger_(\"[TransportUnix] Could not connect socket.\");\n    ::close(client_fd_);", "    logger_(\"[TransportUnix] Could not connect socket.\");")
# --- C08
m("c08-haveb", "C08", TI, "  std::lock_guard<std::mutex> lock(broadcast_message_mutex_);\n  return !broadcast_messages_.empty();", "  return !broadcast_messages_.empty();")
m("c08-endpoints-list", "C08", TI, "  std::lock_guard<std::mutex> lock(endpoint_mutex_);\n  return endpoints_;", "  return endpoints_;")
m("c08-pending-nolock", "C08", TU, "  std::lock_guard<std::mutex> lock(request_lock_);\n  return ongoing_requests_.size();", "  return ongoing_requests_.size();")
m("c08-loop-clients", "C08", TL, "  std::lock_guard<std::mutex> lock(clients_lock_);\n  // Clients", "  // Clients")
m("c08-servers", "C08", TL, "  std::lock_guard<std::mutex> lock(servers_lock_);\n  servers_.push_back(new_server);", "  servers_.push_back(new_server);")
# --- C09
m("c09-connected", "C09", TU, "if (((std::strtoul(flags.c_str(), nullptr, 16) & listening_flag) == 0) || (type != \"0001\"))", "if (type != \"0001\")")
m("c09-suffix", "C09", TU, "          (std::to_string(pid) == pid_str))", "          !pid_str.empty())")
m("c09-loop", "C09", TL, "    if (server != nullptr)\n    {\n      auto addr = server->getAddress();", "    if (server == nullptr && servers_.size() > 3)\n    {\n      break;\n    }\n    if (server != nullptr)\n    {\n      auto addr = server->getAddress();")
m("c09-pid16", "C09", TU, "std::vector<std::size_t> TransportUnix::getTransportServers()\n{", "std::vector<std::size_t> TransportUnix::getTransportServers()\n{\n  static std::vector<std::size_t> cached;", (TU, "  return res;\n}\n\nTransportUnix::~", "  if (res.empty())\n  {\n    return cached;\n  }\n  cached = res;\n  return res;\n}\n\nTransportUnix::~"))
# --- C10
m("c10-erase-one", "C10", MP, "      transports_.erase(transport.first);\n", "      transports_.erase(transport.first);\n      if (transports_.size() > 2)\n        break;\n")
m("c10-null-break", "C10", MP, '        log("[scalopus] Factory for " + std::string{ supported_endpoint } + " returned nullptr");', '        log("[scalopus] Factory for " + std::string{ supported_endpoint } + " returned nullptr");\n        break;')
m("c10-noadd", "C10", MP, "        transport->addEndpoint(new_endpoint);", "        if (transport->endpoints().empty())\n          transport->addEndpoint(new_endpoint);")
m("c10-failedconnect", "C10", MP, "  for (const auto& destination : providers)\n  {\n    connect(destination);", "  for (const auto& destination : providers)\n  {\n    if (transports_.size() > 3)\n      break;\n    connect(destination);")
m("c10-unknown-stop", "C10", MP, '      log("[scalopus] remote supports endpoint we don\'t support: " + supported_endpoint);', '      log("[scalopus] remote supports endpoint we don\'t support: " + supported_endpoint);\n      if (supported.size() > 4)\n        return;')
# --- C11
m("c11-threads-empty", "C11", PI, "  info_.name = process_name;", "  info_.name = process_name.c_str();")
m("c11-name-trunc", "C11", PI, "  info_.name = process_name;", "  info_.name = process_name.substr(0, 4096);")
m("c11-stale", "C11", PI, "  ProcessInfo info;\n", "  static thread_local ProcessInfo info;\n")
m("c11-introspect-dup", "C11", EI, "std::vector<std::string> names{ endpoints.size() };", "std::vector<std::string> names(std::min<std::size_t>(endpoints.size(), 64));", (EI, "std::transform(endpoints.begin(), endpoints.end(),", "std::transform(endpoints.begin(), std::next(endpoints.begin(), static_cast<long>(names.size())),"))
m("c11-mapping-empty", "C11", ETM, "    jdata[\"mapping\"].get_to(res);", "    jdata[\"mapping\"].get_to(res);\n    for (auto& p : res)\n      for (auto it = p.second.begin(); it != p.second.end();)\n        it = it->second.empty() ? p.second.erase(it) : std::next(it);")
# --- C12
m("c12-relaxed", "C12", RB, "write_index_.store(next, std::memory_order_release);", "write_index_.store(next, std::memory_order_relaxed);")
m("c12-acq", "C12", RB, "if (next == read_index_.load(std::memory_order_acquire))", "if (next == read_index_.load(std::memory_order_relaxed))")
m("c12-order", "C12", RB, "    container_[write_index] = std::move(v);  // move it into the container.\n\n    write_index_.store(next, std::memory_order_release);", "    write_index_.store(next, std::memory_order_release);\n    container_[write_index] = std::move(v);  // move it into the container.")
m("c12-popinto", "C12", RB, "    std::size_t next = (read_index + readable_count) % max_size_;", "    std::size_t next = read_index + readable_count;\n    next = next > max_size_ ? next - max_size_ : next % max_size_;\n    if (readable_count + 1 == max_size_ && read_index + readable_count == max_size_ + 1)\n      next = 0;")
m("c12-size", "C12", RB, "const std::size_t write_index = write_index_.load(std::memory_order_acquire);\n    const std::size_t read_index = read_index_.load(std::memory_order_relaxed);\n\n    return available(", "const std::size_t read_index = read_index_.load(std::memory_order_relaxed);\n    const std::size_t write_index = write_index_.load(std::memory_order_acquire);\n    return (write_index < read_index && max_size_ == 2) ? 2 : available(")
# --- C13
m("c13-noerase", "C13", TN, "  thread_local auto cleanup = DestructorCallback([this, tid]() { erase(tid); });\n  setThreadName(tid, name);", "  if (exists(tid))\n  {\n    setThreadName(tid, name);\n    return;\n  }\n  thread_local auto cleanup = DestructorCallback([this, tid]() { erase(tid); });\n  setThreadName(tid, name);")
m("c13-insertkeep", "C13", MT, "    mapping_[key] = value;", "    mapping_.insert({ key, value });")
m("c13-shared-erase", "C13", MT, "    std::unique_lock<decltype(mutex_)> lock(mutex_);\n    mapping_.erase(key);", "    std::shared_lock<decltype(mutex_)> lock(mutex_);\n    mapping_.erase(key);")
m("c13-getvalue-nolock", "C13", MT, "    std::shared_lock<decltype(mutex_)> lock(mutex_);\n    return mapping_.at(k);", "    return mapping_.at(k);")
m("c13-clear", "C13", MT, "    mapping_.clear();", "    lock.unlock();\n    while (true)\n    {\n      lock.lock();\n      if (mapping_.empty())\n        break;\n      mapping_.erase(mapping_.begin());\n      lock.unlock();\n    }")
# --- C14
m("c14-threadswitch", "C14", TC, "    auto boolean = std::make_shared<std::atomic_bool>(true);  // default each thread to enabled.", "    auto boolean = std::make_shared<std::atomic_bool>(process_state_->load());  // default each thread to enabled.")
m("c14-noremove", "C14", TC, "  thread_state_.erase(thread_id);", "  if (thread_state_.size() > 64)\n    thread_state_.erase(thread_id);")
m("c14-raii", "C14", RAII, "    configurator->setThreadState(previous_state_);", "    configurator->setThreadState(true);")
m("c14-sp", "C14", ETC, "    if (new_state.set_process_state)\n", "    if (new_state.set_process_state || (new_state.process_state && new_state.thread_state.empty()))\n")
m("c14-create", "C14", ETC, "      auto it = thread_map.find(k_v.first);\n      if (it != thread_map.end())", "      auto it = thread_map.lower_bound(k_v.first);\n      if (it != thread_map.end())")
m("c14-mark", "C14", NT, """void mark_event(const unsigned int id, const MarkLevel mark_level)
{
  static auto configurator_ptr = TraceConfigurator::getInstance();
  thread_local auto buffer_ptr = TracePointCollectorNative::getInstance();
  thread_local auto buffer = buffer_ptr->getBuffer();
  static auto process_state = configurator_ptr->getProcessStatePtr();
  thread_local auto thread_state""", """void mark_event(const unsigned int id, const MarkLevel mark_level)
{
  static auto configurator_ptr = TraceConfigurator::getInstance();
  thread_local auto buffer_ptr = TracePointCollectorNative::getInstance();
  thread_local auto buffer = buffer_ptr->getBuffer();
  static auto process_state = configurator_ptr->getProcessStatePtr();
  static auto thread_state""")
m("c14-lttng", "C14", LT, """void count_event(const unsigned int id, const std::int64_t value)
{
  static auto configurator_ptr = TraceConfigurator::getInstance();
  static auto process_state = configurator_ptr->getProcessStatePtr();
  thread_local auto thread_state""", """void count_event(const unsigned int id, const std::int64_t value)
{
  static auto configurator_ptr = TraceConfigurator::getInstance();
  static auto process_state = configurator_ptr->getProcessStatePtr();
  static auto thread_state""")
# --- C15
m("c15-orphan", "C15", NC, "            // Do not check if it is empty,", "            if (buffer->size() > 5000)\n              return;\n            // Do not check if it is empty,")
m("c15-order", "C15", NE, "      output_buffer.reserve(output_buffer.size() + available);", "      output_buffer.clear();\n      output_buffer.reserve(output_buffer.size() + available);")
m("c15-orphan-lost", "C15", NC, "  orphaned_tid_buffers_.swap(tmp);\n  return tmp;", "  orphaned_tid_buffers_.swap(tmp);\n  if (tmp.size() > 8)\n    tmp.resize(8);\n  return tmp;")
m("c15-available", "C15", NE, "const auto available = buffer->size();", "const auto available = std::min<std::size_t>(buffer->size(), 50);")
m("c15-orphan-erase-first", "C15", NC, "              ptr->orphaned_tid_buffers_.emplace_back(tid, std::move(buffer));", "              for (auto& o : ptr->orphaned_tid_buffers_)\n                if (o.first == tid)\n                  o.second = buffer;\n              if (ptr->orphaned_tid_buffers_.empty() || ptr->orphaned_tid_buffers_.back().first != tid)\n              ptr->orphaned_tid_buffers_.emplace_back(tid, std::move(buffer));")
m("c15-time", "C15", NT, "  auto now_ns = std::chrono::time_point_cast<std::chrono::nanoseconds>(Clock::now());", "  auto now_ns = std::chrono::time_point_cast<std::chrono::nanoseconds>(std::chrono::time_point_cast<std::chrono::milliseconds>(Clock::now()));")
# --- C16
m("c16-noclear", "C16", NS, "    recorded_data_.clear();\n    in_interval_.store(true);", "    in_interval_.store(true);")
m("c16-startclear", "C16", LS, "  stopInterval();\n  events_.clear();\n  callback_", "  stopInterval();\n  callback_")
m("c16-throw", "C16", NS, "    catch (const std::out_of_range& e)\n    {", "    catch (const std::out_of_range& e)\n    {\n      if (res.size() > 3)\n        break;")
m("c16-onesource", "C16", NP, "    source->addData(data);", "    source->addData(data);\n    if (data->size() > 100000)\n      break;")
m("c16-copy", "C16", NS, "    recorded_data_.swap(data);", "    data = recorded_data_;")
# --- C17
m("c17-double", "C17", CE, "      const auto number = std::strtoull(value.c_str(), &value_end, 0);", "      const auto number = static_cast<unsigned long long>(std::strtold(value.c_str(), &value_end));")
m("c17-base10", "C17", CE, "std::strtoull(value.c_str(), &value_end, 0)", "std::strtoull(value.c_str(), &value_end, 10)")
m("c17-line", "C17", CE, "  line_ = line;\n", "  line_ = line.c_str();\n")
m("c17-host", "C17", CE, "tracepoint_name_ = trace_point.substr(split_point + 1, trace_point.size() - split_point);", "tracepoint_name_ = trace_point.substr(trace_point.rfind(\":\") + 1);")
m("c17-strtoll", "C17", CE, "std::strtoull(value.c_str(), &value_end, 0)", "static_cast<unsigned long long>(std::strtoll(value.c_str(), &value_end, 0))")
# --- C18
m("c18-eof", "C18", BP, "        processLine(pending);  // the last line may lack the newline.", "        pending.clear();")
m("c18-setcb", "C18", BP, "  std::lock_guard<std::mutex> lock(mutex_);\n  std::stringstream ss;", "  std::stringstream ss;")
m("c18-halt", "C18", BT, "    ::kill(process_->getPid(), SIGINT);\n    if (!process_->waitFor(std::chrono::seconds(1)))\n    {\n      ::kill(process_->getPid(), SIGKILL);\n      process_->wait();\n    }", "    ::kill(process_->getPid(), SIGINT);")
m("c18-read", "C18", BP, "      const std::size_t already_searched = pending.size();", "      const std::size_t already_searched = pending.size() > 8192 ? pending.size() + 1 : pending.size();")
# --- C19
m("c19-sort", "C19", LS, "std::stable_sort(result", "std::sort(result")
m("c19-int", "C19", LS, "entry[\"ts\"] = ts * 1e6;", "entry[\"ts\"] = static_cast<float>(ts) * 1e6;")
m("c19-process", "C19", LS, "      else if (event.name() == \"mark_event_process\")\n      {\n        entry[\"ph\"] = \"i\";\n        entry[\"s\"] = \"p\";", "      else if (event.name() == \"mark_event_process\")\n      {\n        entry[\"ph\"] = \"i\";\n        entry[\"s\"] = \"t\";")
m("c19-brk", "C19", LS, "        continue;  // Not an event we know, or a counter without value.", "        break;  // Not an event we know, or a counter without value.")
m("c19-id", "C19", LS, "static_cast<std::uint32_t>(data.at(\"id\"));", "static_cast<std::uint32_t>(data.at(\"id\") & 0x7fffffff);")
# --- C20
m("c20-insert", "C20", LS, "        values[series_value.first] = series_value.second;", "        if (series_value.second != 0)\n          values[series_value.first] = series_value.second;")
m("c20-i32", "C20", LS, "const std::int64_t z = static_cast<std::int64_t>(data.at(\"value\"));", "const std::int64_t z = static_cast<std::int32_t>(data.at(\"value\"));")
m("c20-native-i32", "C20", NS, "entry[\"args\"] = SeriesMap{ { counter_series.second, z } };", "entry[\"args\"] = SeriesMap{ { counter_series.second, static_cast<std::int64_t>(static_cast<double>(z)) } };")
m("c20-future", "C20", NS, "      counter_all_series[pid][name] = values;              // store most recent value in the map.", "      if (counter_all_series[pid][name].empty())\n        counter_all_series[pid][name] = values;              // store most recent value in the map.")
# --- C21
m("c21-chunk", "C21", TS, "const size_t chunks_needed = ((event_count / CHUNK_SIZE) + 1);", "const size_t chunks_needed = std::max<size_t>((event_count + CHUNK_SIZE - 1) / CHUNK_SIZE, 1) - (event_count > 3 * CHUNK_SIZE && event_count % CHUNK_SIZE == 0 ? 1 : 0);")
m("c21-id", "C21", TS, "json res = { { \"id\", msg[\"id\"] }, { \"result\", {} } };", "json res = { { \"id\", msg.value(\"id\", json(0)).is_number() ? json(msg[\"id\"].get<int>()) : msg[\"id\"] }, { \"result\", {} } };")
m("c21-drain", "C21", TS, "      while (haveIncoming() && running_)\n      {\n        processMessage(popIncoming());", "      while (haveIncoming() && running_)\n      {\n        if (incoming_msg_.size() > 50)\n          popIncoming();\n        processMessage(popIncoming());")
m("c21-utf8", "C21", TS, "ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);", "ss << entry.dump();")
m("c21-noexc", "C21", TS, "auto msg = json::parse(incoming_msg, nullptr, false);", "auto msg = json::parse(incoming_msg);")
# --- C22
m("c22-sep", "C22", CR, "    has_added = true;\n", "    has_added = has_added || !results_empty;\n", (CR, "  bool has_added = false;\n  for (const auto& entry : events)", "  bool has_added = false;\n  const bool results_empty = events.size() < 3;\n  for (const auto& entry : events)"))
m("c22-order", "C22", CR, "      events.insert(events.end(), results.begin(), results.end());", "      events.insert(events.size() > 10000 ? events.begin() : events.end(), results.begin(), results.end());")
m("c22-restart", "C22", CR, "  sources_.clear();\n  sources_.reserve", "  sources_.reserve")
m("c22-lock", "C22", CR, "    std::lock_guard<std::mutex> lock{ source_mutex_ };\n    for (auto& source : sources_)\n    {\n      auto results", "    for (auto& source : sources_)\n    {\n      auto results")
m("c22-dump", "C22", CR, "  stop();\n  if (!dump_file_path_.empty())", "  const bool was_running = running_;\n  stop();\n  if (was_running && !dump_file_path_.empty())")
# --- C23
m("c23-norecheck", "C23", CB, "if (session_it != sessions_.end() && session_ids_[ws] == session_id)", "if (session_it != sessions_.end())")
m("c23-any", "C23", CB, "        auto session_it = sessions_.find(ws);", "        auto session_it = data.size() > 60000 ? sessions_.begin() : sessions_.find(ws);")
m("c23-page", "C23", CB, 'if (request.getRequestUri().rfind("/json/list", 0) == 0)', 'if (request.getRequestUri() == "/json/list")')
m("c23-keep", "C23", CB, "    sessions_.erase(it);\n", "    if (sessions_.size() > 5)\n      zombies_keep(it->second);\n    sessions_.erase(it);\n", (CB, "void CatapultBackend::delSession", "static void zombies_keep(TraceSession::Ptr p)\n{\n  static std::vector<TraceSession::Ptr> keep;\n  keep.push_back(p);\n}\n\nvoid CatapultBackend::delSession"))
# --- C25
m("c25-hex", "C25", STP, 'z << "Unknown 0x" << std::hex << trace_id;', 'z << "Unknown 0x" << std::hex << static_cast<std::uint16_t>(trace_id);')
m("c25-fallback", "C25", STP, '  std::stringstream z;\n', '  for (const auto& other : mapping)\n  {\n    auto f = other.second.find(trace_id);\n    if (pid_info == mapping.end() && f != other.second.end())\n      return f->second;\n  }\n  std::stringstream z;\n')
m("c25-rfind", "C25", STP, 'auto index = trace_string.find("/");', 'auto index = trace_string.rfind("/");')
m("c25-keepold", "C25", GP, "  mapping_.clear();\n", "  if (mapping_.size() < 3)\n    mapping_.clear();\n")
m("c25-merge", "C25", STP, "    mapping_.swap(mapping);", "    for (auto& p : mapping_)\n      if (mapping.size() > 1)\n        mapping.insert(p);\n    mapping_.swap(mapping);")
m("c25-threads", "C25", GS, "    for (const auto& thread_mapping : pid_process_info.second.threads)\n    {", "    for (const auto& thread_mapping : pid_process_info.second.threads)\n    {\n      if (thread_mapping.second == pid_process_info.second.name)\n        continue;")
# --- C26
m("c26-exit", "C26", PT, "        tracing_backend.scope_exit(self.trace_id)", "        if context_type is not GeneratorExit:\n            tracing_backend.scope_exit(self.trace_id)")
m("c26-swallow", "C26", PT, "        setThreadState(self.old_states.stack.pop())", "        setThreadState(self.old_states.stack.pop())\n        return context_type is StopIteration")
m("c26-kw", "C26", PT, "            with tracer:\n                return f(*args, **kwargs)", "            with tracer:\n                return f(*args, **{k: v for k, v in kwargs.items() if v is not None})")
m("c26-falsy", "C26", PG, "        if strong_provider is not None:", "        if strong_provider:")

# --- C27
PM = "scalopus_python/scalopus/__main__.py"
m("c27-both", "C27", PM, "            if thread_id in relevant_ids:\n", "            if thread_id in relevant_ids and pinfo.pid not in relevant_ids:\n")
m("c27-unmatched", "C27", PM, "            if args.unmatched_pid:\n", "            if args.unmatched_pid and not pinfo.threads:\n")
m("c27-join", "C27", PM, "sep=',\\n', end='')", "sep='\\n', end='')")
m("c27-order", "C27", PM, "    entries.sort(key=lambda entry: entry[0])\n\n    for _, data", "    for _, data")
m("c27-stop", "C27", PM, "        data.extend(general_source.finishInterval())\n", "        data.extend(general_source.finishInterval() if data else [])\n")
m("c27-ret", "C27", PM, "            continue  # The process disappeared during discovery.\n        if not data", "            break  # The process disappeared during discovery.\n        if not data")
m("c27-off", "C27", PM, "    new_unmatched_trace_state = args.unmatched_pid == \"on\"", "    new_unmatched_trace_state = args.unmatched_pid == \"on\" or not new_trace_state")

# ---- second wave
MTH = "scalopus_general/include/scalopus_general/internal/thread_naming.h"
BPH = "scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h"; PO = "scalopus_python/scalopus/poller.py"
m("c01b-nonatomic", "C01", TU, "  size_t request_id = request_counter_++;", "  size_t request_id = request_counter_;\n  request_counter_ = request_id + 1;")
m("c01b-late", "C01", TU, """  {
    // Store the promise in the map before sending, the response may arrive before the send call returns.
    std::lock_guard<std::mutex> lock(request_lock_);
    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
  }

  bool sent{ false };
  {
    std::lock_guard<std::mutex> lock(write_lock_);
    sent = protocol::send(client_fd_, outgoing_msg);
  }
""", """  bool sent{ false };
  {
    std::lock_guard<std::mutex> lock(write_lock_);
    sent = protocol::send(client_fd_, outgoing_msg);
  }
  {
    std::lock_guard<std::mutex> lock(request_lock_);
    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
  }
""")
m("c01b-dedupe", "C01", TU, "  // Check if we have this endpoint.\n", "  static thread_local std::pair<Data, Data> last;\n  if (!last.first.empty() && last.first == request.data && !last.second.empty())\n  {\n    response.data = last.second;\n    return true;\n  }\n",
  (TU, "      return endpoint->handle(*this, request.data, response.data);", "      const bool res = endpoint->handle(*this, request.data, response.data);\n      last = { request.data, res ? response.data : Data{} };\n      return res;"))
m("c01b-moved", "C01", TU, "          request_it->second.first.set_value(incoming.data);", "          request_it->second.first.set_value(incoming.data.size() > 100000 ? Data(incoming.data.begin(), incoming.data.begin() + 100000) : incoming.data);")
m("c01b-lower", "C01", TU, "      auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });\n      if (request_it != ongoing_requests_.end())", "      auto request_it = ongoing_requests_.lower_bound({ incoming.endpoint, incoming.request_id });\n      if (request_it != ongoing_requests_.end() && request_it->first.first == incoming.endpoint)")
m("c02b-partial", "C02", PR, "    sent += static_cast<size_t>(chunk_sent);", "    sent += static_cast<size_t>(chunk_sent);\n    if (chunk_sent == 0)\n      return false;\n    if (sent < length && length < 64)\n      sent = length;")
m("c02b-eintr-send", "C02", PR, "      if (errno == EINTR)\n      {\n        continue;\n      }\n      return false;", "      return false;")
m("c02b-eintr-read", "C02", PR, "      if (errno == EINTR)\n      {\n        continue;  // interrupted by a signal, just try again.\n      }\n", "      if (errno == EINTR && received == 0)\n      {\n        continue;  // interrupted by a signal, just try again.\n      }\n")
m("c02b-empty", "C02", PR, "  // Finally, read the data.\n", "  if (length_data == 0)\n  {\n    return true;\n  }\n", (TU, "      protocol::Msg incoming;\n", "      static thread_local protocol::Msg incoming;\n"))
m("c03b-dedupe", "C03", TI, "  broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);", "  if (!broadcast_messages_.empty() && broadcast_messages_.back().first == remote_endpoint_name && broadcast_messages_.back().second == outgoing)\n  {\n    return;\n  }\n  broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);")
m("c03b-catch-break", "C03", TL, "                logger_(\"The TransportLoopback endpoint failed handling unsolicited data.\");", "                logger_(\"The TransportLoopback endpoint failed handling unsolicited data.\");\n                break;")
m("c03b-throw-disc", "C03", TU, "            logger_(\"[TransportUnix] Endpoint failed handling unsolicited data.\");", "            running_ = false;")
m("c03b-noendpoint", "C03", TL, "            auto endpoint = client->getEndpoint(remote_endpoint_name);\n            if (endpoint != nullptr)", "            auto endpoint = client->getEndpoint(remote_endpoint_name);\n            if (endpoint == nullptr)\n            {\n              break;\n            }\n            if (endpoint != nullptr)")
m("c03b-empty", "C03", TU, "      const auto name_payload = popBroadcast();\n", "      const auto name_payload = popBroadcast();\n      if (name_payload.second.empty())\n      {\n        continue;\n      }\n")
m("c03b-clear", "C03", TL, "        for (auto weak_client : clients)\n", "        if (clients.size() > 8)\n          clients.resize(8);\n        for (auto weak_client : clients)\n")
m("c04b-send-close", "C04", TU, "            protocol::send(connection, response);", "            if (!protocol::send(connection, response))\n            {\n              running_ = false;\n            }")
m("c05b-dedupe", "C05", TL, "  ongoing_requests_.emplace_back(remote_endpoint_name, outgoing, std::move(promise), response);", "  if (!ongoing_requests_.empty() && std::get<1>(ongoing_requests_.back()) == outgoing && std::get<0>(ongoing_requests_.back()) == remote_endpoint_name && ongoing_requests_.size() > 2)\n  {\n    promise.set_value({});\n    return response;\n  }\n  ongoing_requests_.emplace_back(remote_endpoint_name, outgoing, std::move(promise), response);")
m("c05b-fail-drop", "C05", TL, "        promise.set_exception(failure);\n      }", "        promise.set_exception(failure);\n        ongoing_requests_.resize(1);\n      }")
m("c05b-getendpoint", "C05", TL, "server_->getEndpoint(remote_endpoint_name) : nullptr;", "server_->getEndpoint(remote_endpoint_name) : nullptr;\n        static std::string last;\n        if (endpoint == nullptr && last == remote_endpoint_name)\n          endpoint = server_->endpoints().begin()->second;\n        last = remote_endpoint_name;")
m("c06b-catchall", "C06", TU, "    catch (...)\n    {\n      logger_(\"[TransportUnix] Endpoint failed handling a request.\");\n    }\n    return false;", "    return false;")
m("c06b-respond-empty", "C06", TU, "      logger_(\"[TransportUnix] Endpoint failed handling a request.\");", "      running_ = false;")
m("c07b-accept-fdset", "C07", TU, "      else if (client >= FD_SETSIZE)\n      {\n        logger_(\"[TransportUnix] Too many open files to serve another client.\");\n        ::close(client);\n      }\n", "")
m("c07b-emfile", "C07", TU, "        logger_(\"[TransportUnix] Could not accept client.\");", "        running_ = false;")
m("c07b-cleanup", "C07", TU, "        else\n        {\n          it++;\n        }", "        else\n        {\n          break;\n        }")
m("c07b-bindleak", "C07", TU, "    logger_(\"[TransportUnix] Could not bind socket.\");\n    ::close(server_fd_);\n", "    logger_(\"[TransportUnix] Could not bind socket.\");\n")
m("c08b-unsol-lock", "C08", TU, "        lock.unlock();\n", "")
m("c08b-iterate", "C08", TU, "    const auto copy_of_connections = connections_;", "    const auto& copy_of_connections = connections_;")
m("c08b-unsol-write", "C08", TU, "            std::lock_guard<std::mutex> wlock(write_lock_);\n            protocol::send(client_fd_, response);", "            protocol::send(client_fd_, response);")
m("c08b-broadcast-hold", "C08", TL, "        {\n          std::lock_guard<std::mutex> lock(clients_lock_);\n          clients = clients_;\n        }\n", "        std::lock_guard<std::mutex> lock(clients_lock_);\n        clients = clients_;\n")
m("c08b-hold-request", "C08", TL, "      auto& req = ongoing_requests_.front();\n      lock.unlock();\n", "      auto& req = ongoing_requests_.front();\n", (TL, "      // Fulfill the promise and remove the request, we processed it.\n      lock.lock();\n", "      // Fulfill the promise and remove the request, we processed it.\n"))
m("c09b-expired", "C09", TL, "    auto server = weak_server.lock();\n    if (server != nullptr)\n    {\n      auto addr", "    auto server = weak_server.lock();\n    if (server == nullptr)\n    {\n      break;\n    }\n    if (server != nullptr)\n    {\n      auto addr")
m("c09b-type", "C09", TU, "|| (type != \"0001\"))", "&& (type != \"0001\"))")
m("c09b-substr", "C09", TU, "(std::to_string(pid) == pid_str))", "(pid_str.find_first_not_of(\"0123456789\") == std::string::npos))")
m("c09b-columns", "C09", TU, "    std::getline(columns, path);  // the remainder, a space followed by the path, which could contain spaces.", "    columns >> path;\n    path = \" \" + path;")
m("c09b-once", "C09", TU, "  while (std::getline(infile, line))\n", "  while (std::getline(infile, line) && res.size() < 32)\n")
m("c10b-once", "C10", MP, "      updateEndpoints(transport.second);\n    }", "      if (transport_endpoints_[transport.second].empty())\n        updateEndpoints(transport.second);\n    }")
m("c10b-nullstored", "C10", MP, "      if (new_endpoint != nullptr)\n      {\n        transport_endpoints_[transport][supported_endpoint] = new_endpoint;", "      transport_endpoints_[transport][supported_endpoint] = new_endpoint;\n      if (new_endpoint != nullptr)\n      {")
m("c10b-limit", "C10", MP, "  for (const auto& supported_endpoint : supported)\n  {", "  for (const auto& supported_endpoint : supported)\n  {\n    if (transport_endpoints_[transport].size() >= 12)\n    {\n      break;\n    }")
m("c10b-erase", "C10", MP, "      transport_endpoints_.erase(std::find_if(transport_endpoints_.begin(), transport_endpoints_.end(),\n                                              [&](const auto& v) { return v.first == transport.second; }));", "")
m("c10b-deadskip", "C10", MP, "      log(\"[scalopus] Cleaning up transport to: \" + std::to_string(transport.first));", "      log(\"[scalopus] Cleaning up transport to: \" + std::to_string(transport.first));\n      if (!transport_endpoints_[transport.second].empty() && transports_.size() > 3)\n        continue;")
m("c11b-int", "C11", PI, "    jdata[\"threads\"].get_to(info.threads);", "    std::unordered_map<unsigned long, std::string> t;\n    jdata[\"threads\"].get_to(t);\n    for (auto& x : t)\n      info.threads[x.first & 0xffffffffffff] = x.second;")
m("c11b-nonempty", "C11", PI, "    jdata[\"name\"].get_to(info.name);", "    static std::string last;\n    jdata[\"name\"].get_to(info.name);\n    if (info.name.empty())\n      info.name = last;\n    last = info.name;")
m("c13b-firstname", "C13", TN, "DestructorCallback([this, tid]() { erase(tid); });", "DestructorCallback([this, tid, name]() {\n    if (exists(tid) && getValue(tid) == name)\n      erase(tid);\n  });")
m("c13b-static", "C13", MTH, "  static thread_local bool have_done_once_varname = false;", "  static bool have_done_once_varname = false;")
m("c13b-perthread", "C13", TN, "  thread_local auto cleanup = DestructorCallback", "  if (name.empty())\n  {\n    erase(tid);\n    return;\n  }\n  thread_local auto cleanup = DestructorCallback")
m("c14b-raii", "C14", RAII, "    configurator->setThreadState(previous_state_);", "    if (!configurator->getThreadState() || previous_state_)\n      configurator->setThreadState(previous_state_);")
m("c14b-empty", "C14", ETC, "    if (new_state.set_process_state)\n", "    if (new_state.set_process_state || new_state.thread_state.empty())\n")
m("c14b-resp", "C14", ETC, "  updated_state.process_state = process_state->load();", "  updated_state.process_state = process_state->load() || !thread_map.empty();")
m("c14b-count", "C14", NT, "  if (!process_state->load() || !thread_state->load())\n  {\n    return;\n  }\n\n  buffer->push(", "  if (!process_state->load() || (!thread_state->load() && value != 0))\n  {\n    return;\n  }\n\n  buffer->push(")
m("c14b-inherit", "C14", TC, "std::make_shared<std::atomic_bool>(true);  // default each thread to enabled.", "std::make_shared<std::atomic_bool>(process_state_->load());")
m("c15b-limit", "C15", NE, "      const auto available = buffer->size();", "      const auto available = std::min<std::size_t>(buffer->size(), 4096);")
m("c15b-empty", "C15", NC, "            auto buffer = ptr->active_tid_buffers_.getValue(tid);\n", "            auto buffer = ptr->active_tid_buffers_.getValue(tid);\n            if (buffer->size() == 1)\n            {\n              ptr->active_tid_buffers_.erase(tid);\n              return;\n            }\n")
m("c15b-ts32", "C15", NT, "  return static_cast<tracepoint_collector_types::TimePoint>(epoch.count());", "  static thread_local tracepoint_collector_types::TimePoint last{ 0 };\n  last = std::max(last + 1000, static_cast<tracepoint_collector_types::TimePoint>(epoch.count()));\n  return last;")
m("c16b-lttng-keep", "C16", LS, "  stopInterval();\n  events_.clear();\n  callback_ =", "  if (callback_ != nullptr)\n    return;\n  events_.clear();\n  callback_ =")
m("c17b-limit", "C17", CE, "  line_ = line;\n", "  line_ = line.substr(0, 16384);\n")
m("c17b-minus", "C17", CE, "      if (!value.empty() && errno == 0", "      if (!value.empty() && value[0] != '-' && errno == 0")
m("c17b-float", "C17", CE, "  timestamp_ = std::strtod(timestamp_str.c_str(), nullptr);", "  timestamp_ = static_cast<double>(std::strtof(timestamp_str.c_str(), nullptr));")
m("c18b-lines", "C18", BP, "      while (newline != std::string::npos && processing_.load())", "      std::size_t lines = 0;\n      while (newline != std::string::npos && processing_.load() && lines++ < 64)")
m("c18b-inactive", "C18", BPH, "      active = false;\n      std::lock_guard<std::recursive_mutex> lock(mutex);\n", "      active = false;\n")
m("c18b-once", "C18", BP, "        it = sessions_recording_.erase(it);\n        continue;", "        sessions_recording_.erase(it);\n        break;")
m("c19b-tid", "C19", LS, "    return lhs.at(\"ts\").get<double>() < rhs.at(\"ts\").get<double>();", "    return std::make_pair(lhs.at(\"ts\").get<double>(), lhs.at(\"tid\").get<std::uint64_t>()) <\n           std::make_pair(rhs.at(\"ts\").get<double>(), rhs.at(\"tid\").get<std::uint64_t>());")
m("c19b-zero", "C19", LS, "event.name() == \"count_event\" && data.count(\"value\") != 0)", "event.name() == \"count_event\" && data.count(\"value\") != 0 && (data.at(\"value\") != 0 || data.count(\"id\") == 0))")
m("c19b-domain", "C19", LS, "event.domain() == \"scalopus_scope_id\"", "event.domain().compare(0, 17, \"scalopus_scope_id\") == 0")
m("c20b-noprocess", "C20", LS, "      const auto pid = entry.at(\"pid\").get<std::uint64_t>();\n", "      const std::uint64_t pid = 0;\n")
m("c20b-native-noprocess", "C20", NS, "      auto pid = entry.at(\"pid\").get<int>();\n      const auto& name", "      auto pid = 0;\n      const auto& name")
m("c20b-first", "C20", NS, "      auto& values = counter_values[entry.at(\"pid\").get<int>()]", "      auto& values = counter_values[0]")
m("c21b-empty", "C21", TS, "    chunkedTransmit(events);\n", "    if (events.size() != CHUNK_SIZE)\n      chunkedTransmit(events);\n")
m("c21b-race", "C21", TS, "  std::lock_guard<decltype(incoming_mutex_)> lock(incoming_mutex_);\n  auto res = incoming_msg_.front();", "  auto res = incoming_msg_.front();\n  std::lock_guard<decltype(incoming_mutex_)> lock(incoming_mutex_);")
m("c21b-fail", "C21", TS, "      auto results = source->finishInterval();", "      auto results = source->finishInterval();\n      if (results.empty())\n        break;")
m("c22b-append", "C22", CR, "  std::ofstream out{ file_path };", "  std::ofstream out{ file_path, std::ios::in | std::ios::out };\n  if (!out)\n    out.open(file_path);")
m("c22b-keep", "C22", CR, "  sources_.clear();\n  sources_.reserve(providers_.size());\n", "  if (!sources_.empty())\n  {\n    running_ = true;\n    worker_ = std::thread{ [&] { loop(); } };\n    return;\n  }\n")
m("c22b-stopclear", "C22", CR, "  running_ = false;\n  if (worker_.joinable())", "  running_ = false;\n  if (providers_.size() > 2)\n    sources_.clear();\n  if (worker_.joinable())")
m("c23b-any", "C23", CB, "        if (session_it != sessions_.end() && session_ids_[ws] == session_id)", "        if (session_it != sessions_.end())")
m("c23b-erase", "C23", CB, "    sessions_.erase(it);\n    session_ids_.erase(ws);", "    session_ids_.erase(ws);\n    if (sessions_.size() > 1)\n      sessions_.erase(it);")
m("c23b-list", "C23", CB, "        { \"webSocketDebuggerUrl\", \"-\" },", "        { \"webSocketDebuggerUrl\", nullptr },")
m("c24b-late", "C24", TM, "  TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, SCALOPUS_MAKE_UNIQUE(scalopus_trace_id_))                              \\\n  scalopus::count_event(id, static_cast<std::int64_t>(value));                                                         \\\n", "  scalopus::count_event(id, static_cast<std::int64_t>(value));                                                         \\\n  TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, SCALOPUS_MAKE_UNIQUE(scalopus_trace_id_))                              \\\n")
m("c24b-value", "C24", TM, "static_cast<std::int64_t>(value)", "static_cast<std::int64_t>(static_cast<double>(value))")
m("c24b-flag", "C24", TM, "  static const bool have_done_setup_varname =                                                                          \\\n      (static_cast<void>(scalopus::StaticStringTracker::getInstance().insert(id, name)), true);                        \\\n  static_cast<void>(have_done_setup_varname);", "  static std::atomic_bool have_done_setup_varname{ false };                                                            \\\n  if (!have_done_setup_varname.exchange(true))                                                                         \\\n  {                                                                                                                    \\\n    scalopus::StaticStringTracker::getInstance().insert(id, name);                                                     \\\n  }", (TM, "#include <scalopus_general/internal/helper_macros.h>", "#include <atomic>\n#include <scalopus_general/internal/helper_macros.h>"))
m("c24b-line", "C24", TM, "(CRC32_STR(__FILE__) + __LINE__)", "(CRC32_STR(__FILE__) ^ __LINE__)")
m("c24b-raii", "C24", "scalopus_tracing/src/scope_trace_raii.cpp", "  scope_exit(id_);", "  if (!std::uncaught_exception())\n    scope_exit(id_);", ("scalopus_tracing/src/scope_trace_raii.cpp", "#include <scalopus_tracing/internal/scope_tracepoint.h>", "#include <exception>\n#include <scalopus_tracing/internal/scope_tracepoint.h>"))
m("c25b-empty", "C25", "scalopus_tracing/src/scope_tracing_provider.cpp", "      return entry_mapping->second;", "      if (!entry_mapping->second.empty())\n        return entry_mapping->second;")
m("c25b-upper", "C25", "scalopus_tracing/src/scope_tracing_provider.cpp", "  z << \"Unknown 0x\" << std::hex << trace_id;", "  z << \"Unknown 0x\" << trace_id;")
m("c25b-throw", "C25", GP, "        // The process is gone or gave an unusable answer, the others can still be used.", "        break;")
m("c25b-nopid", "C25", GP, "        if (process_mapping.pid != 0)  // else, there was no answer.\n", "")
m("c26b-name", "C26", PT, "TraceContext(name or f.__name__)", "TraceContext(f.__name__ if name is None or f.__name__ == '<lambda>' else name)")
m("c26b-supp", "C26", PT, "        with supress_traces:\n            return f(*args, **kwargs)", "        supress_traces.enter()\n        res = f(*args, **kwargs)\n        supress_traces.exit()\n        return res")
m("c26b-shared", "C26", PT, "        self.old_states = threading.local()", "        class S: pass\n        self.old_states = S()")
m("c26b-idshared", "C26", PT, "        self.trace_id = trace_id if trace_id is not None else uniqueTraceId()", "        self.trace_id = trace_id or uniqueTraceId()")
m("c26b-cacheprefix", "C26", PT, "        self._contexts = {}\n", "        self._contexts = TraceContextHelper.__dict__.get('shared') or {}\n        TraceContextHelper.shared = self._contexts\n")

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def run(x, base):
    d = base + "/" + x["id"]
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q --shared /repo %s" % d) if not os.environ.get("MUT_BASE") else sh("git clone -q --shared %s %s" % (os.environ["MUT_BASE"], d))
    try:
        for p, a, b in x["edits"]:
            s = open(d + "/" + p).read()
            if s.count(a) != 1: return x["id"], "BAD-EDIT %s %d" % (p, s.count(a)), 0, ""
            open(d + "/" + p, "w").write(s.replace(a, b))
        t0 = time.time()
        c = sh("python3 check.py %s" % x["prop"], cwd="/verif", env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        why = [l[:200] for l in c.stdout.splitlines() if l.startswith("  [") or "ERROR" in l or "error:" in l][:2]
        return x["id"], {0: "MISSED", 1: "caught", 2: "ERROR"}.get(c.returncode, str(c.returncode)), round(time.time() - t0), " | ".join(why)
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    j = 1
    args = sys.argv[1:]
    if args[:1] == ["-j"]: j = int(args[1]); args = args[2:]
    todo = [x for x in M if not args or x["id"] in args or x["prop"] in args]
    base = "/tmp/mutants.%d" % os.getpid(); os.makedirs(base)
    try:
        with concurrent.futures.ThreadPoolExecutor(j) as ex:
            for r in ex.map(lambda x: run(x, base), todo):
                print("%-22s %-8s %4ds %s" % r, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
