// C28, C29: the Python bindings, built from their sources with a stand-in for pybind11 and run in an embedded interpreter.
#include <pybind11/pybind11.h>
#include <pybind11/functional.h>
#include <pybind11/stl.h>
#include <nlohmann/json.hpp>
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <seasocks/Server.h>
#include "json_util.h"
#include "pybind_fix.h"
#include "scalopus_interface.h"
#include "tx.h"
namespace py = pybind11;
using json = nlohmann::json;

extern "C" void pybind_shim_no_gil(const char* what)
{
  vh::violation("no-lock", "the interpreter is used without its lock: %s", what);
  _exit(vh::finish());
}
extern "C" int __lsan_is_turned_off()
{
  return 1;  // the interpreter keeps what it allocated
}
extern "C" PyObject* PyInit_scalopus_python_lib();

static std::map<std::string, std::shared_ptr<vh::Watchdog>> dogs;
static std::string g_mode;

static std::mutex lttng_m;
static std::vector<std::string> lttng_events;
void vh_lttng_emit(const char* what, const std::string& fields)
{
  std::lock_guard<std::mutex> l(lttng_m);
  lttng_events.push_back(std::string(what) + " " + fields);
}
// Asks, without the interpreter lock, from C++ threads.
static std::vector<std::string> ask(const scalopus::Transport::Ptr& t, const std::string& name, const std::vector<std::string>& data,
                                    unsigned threads, long ms)
{
  std::vector<std::string> out(data.size(), "?");
  py::gil_scoped_release release;
  std::vector<std::thread> ts;
  for (unsigned k = 0; k < threads; k++)
    ts.emplace_back([&, k]() {
      for (std::size_t i = k; i < data.size(); i += threads)
      {
        vh::Bytes got;
        auto r = t->request(name, vh::Bytes(data[i].begin(), data[i].end()));
        auto w = tx::await(r, got, ms);
        out[i] = w == tx::Got::value ? "v" + std::string(got.begin(), got.end()) : w == tx::Got::error ? "e" : "t";
      }
    });
  for (auto& x : ts)
    x.join();
  return out;
}

PYBIND11_MODULE(vhctl, m)
{
  m.def("violation", [](const std::string& k, const std::string& s) { vh::violation(k, "%s", s.c_str()); });
  m.def("have_violation", []() { return vh::have_violation(); });
  m.def("cover", [](const std::string& k, std::uint64_t n) { vh::cover(k, n); });
  m.def("distinct", [](const std::string& k, const std::string& s) { vh::distinct(k, vh::fnv(s)); });
  m.def("sample", [](const std::string& s) { vh::sample(s); });
  m.def("seed", []() { return vh::seed(); });
  m.def("scale", []() { return vh::scale(); });
  m.def("slow", []() { return vh::slow(); });
  m.def("mode", []() { return g_mode; });
  m.def("watch", [](const std::string& what, long ms) { dogs[what] = std::make_shared<vh::Watchdog>(what, ms); });
  m.def("unwatch", [](const std::string& what) { dogs.erase(what); });
  m.def("inject", [](std::uint64_t seed) {
    vh::inject_off();
    if (seed == 0)
      return;
    vh::Rng r(seed);
    auto& i = vh::inject();
    i.max_delay_us = 200;
    i.delay = static_cast<unsigned>(r.below(20));
    i.short_io = static_cast<unsigned>(r.below(2) * r.below(40));
    i.eintr = static_cast<unsigned>(r.below(2) * r.below(20));
    i.lock_delay = static_cast<unsigned>(r.below(10));
    i.lock_delay_us = 200;
  });
  m.def("parse", [](const std::string& s) { return json::parse(s); });
  m.def("dump", [](const py::object& o) { return json(o).dump(-1, ' ', false, json::error_handler_t::replace); });
  m.def("hex", [](const py::object& o) {
    // what the bindings make of it, in a form of its own
    return vh::hex(scalopus::pyToData(o), 1 << 30);
  });
  m.def("data", [](const std::string& hex) {
    vh::Bytes b;
    for (std::size_t i = 0; i + 1 < hex.size(); i += 2)
      b.push_back(static_cast<std::uint8_t>(std::stoul(hex.substr(i, 2), nullptr, 16)));
    return scalopus::dataToPy(b);
  });
  m.def("ask", [](const scalopus::Transport::Ptr& t, const std::string& name, const py::list& data, unsigned threads, long ms) {
    std::vector<std::string> in;
    for (const auto& d : data)
    {
      auto b = scalopus::pyToData(d.cast<py::object>());
      in.emplace_back(b.begin(), b.end());
    }
    py::list out;
    for (auto& s : ask(t, name, in, threads, ms))
      out.append(scalopus::dataToPy(vh::Bytes(s.begin(), s.end())));
    return out;
  });
  m.def("broadcast", [](const scalopus::Transport::Ptr& t, const std::string& name, const py::object& data) {
    auto b = scalopus::pyToData(data);
    py::gil_scoped_release release;
    t->broadcast(name, b);
  });
  // a C++ endpoint that answers with what it got
  m.def("serve_echo", [](const scalopus::Transport::Ptr& t, const std::string& name) {
    t->addEndpoint(tx::ep(name, [](scalopus::Transport&, const scalopus::Data& in, scalopus::Data& out) {
      out = in;
      return true;
    }));
  });
  // the lttng tracepoints that were hit since the last call
  m.def("lttng", []() {
    std::lock_guard<std::mutex> l(lttng_m);
    auto v = std::move(lttng_events);
    lttng_events.clear();
    return v;
  });
  // a source whose last user is a C++ thread, which drops it without the interpreter lock
  static scalopus::TraceEventSource::Ptr held;
  static std::thread dropper;
  m.def("hold_source", [](const scalopus::TraceEventSource::Ptr& s) { held = s; });
  m.def("drop_source", [](int ms) {
    dropper = std::thread([ms]() {
      std::this_thread::sleep_for(std::chrono::milliseconds(ms));
      held.reset();
    });
  });
  m.def("join_source", []() {
    py::gil_scoped_release release;
    if (dropper.joinable())
      dropper.join();
  });
  // the viewer of a catapult server
  m.def("viewer_up", []() {
    py::gil_scoped_release release;
    return vh::wait_until([]() {
      std::lock_guard<std::mutex> l(seasocks::Server::registry_mutex());
      return seasocks::Server::latest() != nullptr && seasocks::Server::latest()->has("/devtools/browser");
    }, 5000);
  });
  static std::vector<seasocks::FarPtr> fars;
  m.def("viewer_connect", [](const std::string& path) {
    py::gil_scoped_release release;
    std::lock_guard<std::mutex> l(seasocks::Server::registry_mutex());
    if (!seasocks::Server::latest())
      vh::harness_error("no web server");
    fars.push_back(seasocks::Server::latest()->connect(path));
    return static_cast<int>(fars.size()) - 1;
  });
  m.def("viewer_text", [](int k, const std::string& s) {
    py::gil_scoped_release release;
    std::lock_guard<std::mutex> l(seasocks::Server::registry_mutex());
    seasocks::Server::latest()->text(fars.at(static_cast<std::size_t>(k)), s);
  });
  m.def("viewer_got", [](int k) {
    auto f = fars.at(static_cast<std::size_t>(k));
    std::lock_guard<std::mutex> l(f->mutex);
    py::list out;
    for (auto& s : f->got)
      out.append(py::bytes(s));
    return out;
  });
}

int main(int argc, char** argv)
{
  g_mode = argc > 1 ? argv[1] : "json";
  setenv("PYTHONMALLOC", "malloc", 1);
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONNOUSERSITE", "1", 1);
  PyImport_AppendInittab("vhctl", &PyInit_vhctl);
  PyImport_AppendInittab("scalopus_python_lib", &PyInit_scalopus_python_lib);
  Py_InitializeEx(0);
  std::string script = std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/harness/h_pybind.py";
  FILE* f = fopen(script.c_str(), "r");
  if (f == nullptr)
    vh::harness_error("no script");
  if (PyRun_SimpleFile(f, script.c_str()) != 0)
    vh::harness_error("the script failed");
  dogs.clear();
  fflush(stdout);
  _exit(vh::finish());
}
