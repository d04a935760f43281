// Stand-in for lttng-ust's tracepoint.h: every emitted tracepoint is written, in the field layout its definition gives,
// as the text a trace viewer would print for it and handed to vh_lttng_emit. Used to observe what the lttng backend emits
// without a tracing daemon.
#ifndef VH_LTTNG_TRACEPOINT_H
#define VH_LTTNG_TRACEPOINT_H
#include <cstdint>
#include <string>
#include <type_traits>
void vh_lttng_emit(const char* event, const std::string& fields);

template <typename T>
inline void vh_tp_field(std::string& out, const char* name, T value)
{
  if (!out.empty())
    out += ", ";
  out += name;
  out += " = ";
  out += std::is_signed<T>::value ? std::to_string(static_cast<long long>(value)) :
                                    std::to_string(static_cast<unsigned long long>(value));
}
#define ctf_integer(type, name, expr) vh_tp_field<type>(vh_out, #name, static_cast<type>(expr));
#define ctf_integer_hex(type, name, expr) ctf_integer(type, name, expr)
#define lttng_ust_field_integer(type, name, expr) ctf_integer(type, name, expr)
#define lttng_ust_field_integer_hex(type, name, expr) ctf_integer(type, name, expr)
#define TP_FIELDS(...) __VA_ARGS__
#define TP_ARGS(...) __VA_ARGS__
#define LTTNG_UST_TP_ARGS(...) __VA_ARGS__
#define LTTNG_UST_TP_FIELDS(...) __VA_ARGS__

#define VH_TP_CAT_(a, b) a##b
#define VH_TP_CAT(a, b) VH_TP_CAT_(a, b)
#define VH_TP_N_(a, b, c, d, e, f, g, h, n, ...) n
#define VH_TP_N(...) VH_TP_N_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define VH_TP_PARAMS2(t, n) t n
#define VH_TP_PARAMS4(t, n, ...) t n, VH_TP_PARAMS2(__VA_ARGS__)
#define VH_TP_PARAMS6(t, n, ...) t n, VH_TP_PARAMS4(__VA_ARGS__)
#define VH_TP_PARAMS8(t, n, ...) t n, VH_TP_PARAMS6(__VA_ARGS__)
#define VH_TP_NAMES2(t, n) n
#define VH_TP_NAMES4(t, n, ...) n, VH_TP_NAMES2(__VA_ARGS__)
#define VH_TP_NAMES6(t, n, ...) n, VH_TP_NAMES4(__VA_ARGS__)
#define VH_TP_NAMES8(t, n, ...) n, VH_TP_NAMES6(__VA_ARGS__)
#define VH_TP_PARAMS(...) VH_TP_CAT(VH_TP_PARAMS, VH_TP_N(__VA_ARGS__))(__VA_ARGS__)
#define VH_TP_NAMES(...) VH_TP_CAT(VH_TP_NAMES, VH_TP_N(__VA_ARGS__))(__VA_ARGS__)

#define TRACEPOINT_EVENT_CLASS(provider, cls, args, fields)                                                            \
  static inline void vh_tpc_##provider##_##cls(std::string& vh_out, VH_TP_PARAMS(args))                                \
  {                                                                                                                    \
    fields                                                                                                             \
  }
#define TRACEPOINT_EVENT_INSTANCE(provider, cls, name, args)                                                           \
  static inline void vh_tp_##provider##_##name(VH_TP_PARAMS(args))                                                     \
  {                                                                                                                    \
    std::string vh_out;                                                                                                \
    vh_tpc_##provider##_##cls(vh_out, VH_TP_NAMES(args));                                                              \
    vh_lttng_emit(#provider ":" #name, vh_out);                                                                        \
  }
#define TRACEPOINT_EVENT(provider, name, args, fields)                                                                 \
  TRACEPOINT_EVENT_CLASS(provider, name, VH_TP_ID(args), fields)                                                       \
  TRACEPOINT_EVENT_INSTANCE(provider, name, name, VH_TP_ID(args))
#define VH_TP_ID(...) __VA_ARGS__
#define TRACEPOINT_LOGLEVEL(...)
#define tracepoint(provider, name, ...) vh_tp_##provider##_##name(__VA_ARGS__)
#define do_tracepoint(provider, name, ...) tracepoint(provider, name, __VA_ARGS__)
#define tracepoint_enabled(...) true
#define LTTNG_UST_TRACEPOINT_EVENT_CLASS TRACEPOINT_EVENT_CLASS
#define LTTNG_UST_TRACEPOINT_EVENT_INSTANCE TRACEPOINT_EVENT_INSTANCE
#define LTTNG_UST_TRACEPOINT_EVENT TRACEPOINT_EVENT
#define LTTNG_UST_TRACEPOINT_LOGLEVEL TRACEPOINT_LOGLEVEL
#define lttng_ust_tracepoint tracepoint
#endif
