// Stand-ins for the ROS 2 environment: the global "world" the node lives in.
// Everything here deliberately avoids synchronising threads with each other
// (relaxed atomics, per-topic storage), so that the thread sanitizer sees only
// the synchronisation of the code under test.
#pragma once
#include <any>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

namespace vstub
{

struct Rigid { double x = 0, y = 0, z = 0, qx = 0, qy = 0, qz = 0, qw = 1; };

inline std::atomic<bool> g_ok{true};
inline std::atomic<int64_t> g_now{1000000000LL};
// Called at every point where the code under test talks to the outside world.
inline std::function<void(const char *)> g_yield;
inline void yield(const char * where) { if (g_yield) g_yield(where); }

inline void log(int, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
inline void log(int level, const char * fmt, ...)
{
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  static const bool echo = getenv("VSTUB_ECHO") != nullptr;
  if (echo) fprintf(stderr, "[log %d] %s\n", level, buf);
  yield("log");
}

// target, source, time in ns (0 = latest), result: target <- source
using TfProvider = std::function<bool(const std::string &, const std::string &, int64_t, Rigid &)>;
inline TfProvider g_tf;
// Transforms from or to this frame become available this much after their time (0: at once)
inline std::string g_tf_slow;
inline int64_t g_tf_latency = 0, g_tf_waited = 0;
inline bool tf_in_time(const std::string & target, const std::string & source, int64_t ns, int64_t timeout)
{
  if (!g_tf_latency || !ns || (target != g_tf_slow && source != g_tf_slow)) return true;
  const int64_t lack = ns + g_tf_latency - (g_now.load(std::memory_order_relaxed) + g_tf_waited);
  if (lack <= 0) return true;
  if (timeout > 0) g_tf_waited += timeout < lack ? timeout : lack;
  return lack <= timeout;
}

using ParamValue = std::variant<bool, int64_t, double, std::string>;
inline std::map<std::string, ParamValue> g_params;      // overrides
inline std::map<std::string, ParamValue> g_declared;    // what the node declared

// Topics and services
struct Bus
{
  std::map<std::string, std::any> subs;      // topic -> std::function<void(shared_ptr<const M>)>
  std::map<std::string, std::any> srvs;      // name -> std::function<void(shared_ptr<Req>, shared_ptr<Resp>)>
  std::map<std::string, std::any> sinks;     // topic -> std::function<void(const M &)>, set before the node exists
  std::map<std::string, bool> latched;       // topic -> published with transient local durability
  std::set<std::string> unwatched;           // topics nobody has subscribed to
  void reset() { subs.clear(); srvs.clear(); sinks.clear(); latched.clear(); unwatched.clear(); }
  template <class M> void deliver(const std::string & topic, std::shared_ptr<const M> m)
  {
    std::any_cast<std::function<void(std::shared_ptr<const M>)> &>(subs.at(topic))(m);
  }
  template <class Req, class Resp>
  void call(const std::string & name, std::shared_ptr<Req> req, std::shared_ptr<Resp> resp)
  {
    std::any_cast<std::function<void(std::shared_ptr<Req>, std::shared_ptr<Resp>)> &>(srvs.at(name))(req, resp);
  }
  template <class M> void sink(const std::string & topic, std::function<void(const M &)> f) { sinks[topic] = f; }
};
inline Bus & bus() { static Bus b; return b; }

// Plugins
inline std::map<std::string, std::function<std::shared_ptr<void>()>> & plugins()
{
  static std::map<std::string, std::function<std::shared_ptr<void>()>> p;
  return p;
}
inline std::string g_plugins_xml;   // path, or empty to skip the lookup

// Bags: file name -> recorded messages
struct BagMsg { std::string topic, type; std::vector<uint8_t> data; };
inline std::map<std::string, std::vector<BagMsg>> g_bags;

inline void reset_world()
{
  g_ok.store(true, std::memory_order_relaxed);
  g_now.store(1000000000LL, std::memory_order_relaxed);
  g_yield = nullptr;
  g_tf = nullptr;
  g_tf_slow.clear();
  g_tf_latency = g_tf_waited = 0;
  g_params.clear();
  g_declared.clear();
  bus().reset();
  g_bags.clear();
}

}  // namespace vstub
