#pragma once
#include <any>
#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <mutex>
#include <vector>
#include <builtin_interfaces/msg/time.hpp>
#include <builtin_interfaces/msg/duration.hpp>
#include <vstub/vstub.hpp>

namespace rclcpp
{
using vstub::Bus;

inline bool ok() { return vstub::g_ok.load(std::memory_order_relaxed); }
inline bool shutdown() { vstub::g_ok.store(false, std::memory_order_relaxed); return true; }
inline void init(int, char const * const *) {}

class Duration
{
public:
  Duration() : ns_(0) {}
  Duration(int32_t s, uint32_t ns) : ns_(s * 1000000000LL + ns) {}
  template <class R, class P> Duration(const std::chrono::duration<R, P> & d)  // NOLINT
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns_(d.sec * 1000000000LL + d.nanosec) {}  // NOLINT
  static Duration from_seconds(double s)
  {
    Duration d;
    // Real rclcpp converts through chrono without a check; do so here only when it fits.
    const double v = s * 1e9;
    if (!(v > -9.2e18 && v < 9.2e18)) throw std::overflow_error("duration out of range");
    d.ns_ = static_cast<int64_t>(v);
    return d;
  }
  static Duration from_nanoseconds(int64_t n) { Duration d; d.ns_ = n; return d; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  std::chrono::nanoseconds to_chrono_ns() const { return std::chrono::nanoseconds(ns_); }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  Duration operator*(double k) const { return from_nanoseconds(static_cast<int64_t>(ns_ * k)); }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    d.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    d.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return d;
  }
private:
  int64_t ns_;
};

class Time
{
public:
  Time() : ns_(0) {}
  explicit Time(int64_t ns, int = 0) : ns_(ns) {}
  Time(int32_t s, uint32_t ns) : ns_(s * 1000000000LL + ns) {}
  Time(const builtin_interfaces::msg::Time & t) : ns_(t.sec * 1000000000LL + t.nanosec) {}  // NOLINT
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    t.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    t.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return t;
  }
  Time operator+(const Duration & d) const
  {
    int64_t r;
    if (__builtin_add_overflow(ns_, d.nanoseconds(), &r)) throw std::overflow_error("addition leads to int64_t overflow");
    return Time(r);
  }
  Time & operator+=(const Duration & d) { *this = *this + d; return *this; }
  Time & operator-=(const Duration & d) { *this = *this - d; return *this; }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
private:
  int64_t ns_;
};

}  // namespace rclcpp
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
namespace rclcpp
{
class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  explicit Clock(rcl_clock_type_t = RCL_SYSTEM_TIME) {}
  bool sleep_for(const Duration & d) { std::this_thread::sleep_for(std::chrono::nanoseconds(d.nanoseconds())); return ok(); }
  Time now() const { return Time(vstub::g_now.load(std::memory_order_relaxed)); }
};

inline bool sleep_for(const std::chrono::nanoseconds & d) { std::this_thread::sleep_for(d); return ok(); }
class Rate
{
public:
  explicit Rate(double hz) : period_(static_cast<int64_t>(1e9 / hz)) {}
  explicit Rate(const std::chrono::nanoseconds & d) : period_(d) {}
  bool sleep() { std::this_thread::sleep_for(period_); return true; }
  void reset() {}
  std::chrono::nanoseconds period() const { return period_; }
private:
  std::chrono::nanoseconds period_;
};
using WallRate = Rate;

struct Logger
{
  std::string name;
  const char * get_name() const { return name.c_str(); }
  Logger get_child(const std::string & n) const { return Logger{name + "." + n}; }
};
inline Logger get_logger(const std::string & n) { return Logger{n}; }

struct KeepLast { explicit KeepLast(size_t d) : depth(d) {} size_t depth; };
struct KeepAll {};
class QoS
{
public:
  QoS(size_t d) : depth(d) {}  // NOLINT
  QoS(KeepLast k) : depth(k.depth) {}  // NOLINT
  QoS(KeepAll) {}  // NOLINT
  QoS & transient_local() { latched = true; return *this; }
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & durability_volatile() { latched = false; return *this; }
  QoS & keep_all() { return *this; }
  QoS & keep_last(size_t d) { depth = d; return *this; }
  size_t depth = 0;
  bool latched = false;
};
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS() : QoS(0) {} };
struct SensorDataQoS : QoS { SensorDataQoS() : QoS(5) {} };

class NodeOptions
{
public:
  NodeOptions() {}
  NodeOptions & use_intra_process_comms(bool) { return *this; }
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
};

class Parameter
{
public:
  Parameter(const std::string & n, const vstub::ParamValue & v) : name_(n), v_(v) {}
  const std::string & get_name() const { return name_; }
  bool as_bool() const { return std::get<bool>(v_); }
  int64_t as_int() const { return std::get<int64_t>(v_); }
  double as_double() const { return std::get<double>(v_); }
  std::string as_string() const { return std::get<std::string>(v_); }
  template <class T> T get_value() const
  {
    if constexpr (std::is_same_v<T, bool>) return std::get<bool>(v_);
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(std::get<int64_t>(v_));
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::get<double>(v_));
    else return std::get<std::string>(v_);
  }
private:
  std::string name_;
  vstub::ParamValue v_;
};

template <class M> class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  explicit Publisher(const std::string & topic) : topic_(topic)
  {
    auto it = vstub::bus().sinks.find(topic);
    if (it != vstub::bus().sinks.end()) sink_ = std::any_cast<std::function<void(const M &)>>(it->second);
  }
  void publish(const M & m)
  {
    vstub::yield("publish");
    if (sink_) sink_(m);
    vstub::yield("published");
  }
  void publish(std::unique_ptr<M> m) { publish(*m); }
  size_t get_subscription_count() const { return vstub::bus().unwatched.count(topic_) ? 0 : 1; }
  const char * get_topic_name() const { return topic_.c_str(); }
private:
  std::string topic_;
  std::function<void(const M &)> sink_;
};

template <class M> class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
};

template <class S> class Service
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
};

namespace exceptions
{
struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
}

class Node : public std::enable_shared_from_this<Node>
{
public:
  explicit Node(const std::string & name, const NodeOptions & = NodeOptions()) : name_(name) {}
  virtual ~Node() = default;
  const char * get_name() const { return name_.c_str(); }
  Logger get_logger() const { return Logger{name_}; }
  const char * get_namespace() const { return "/"; }
  const char * get_fully_qualified_name() const { return name_.c_str(); }
  Clock::SharedPtr get_clock() const { return clock_; }
  Time now() const { return clock_->now(); }

  Parameter get_parameter(const std::string & n) const
  {
    auto it = vstub::g_declared.find(n);
    if (it == vstub::g_declared.end()) throw exceptions::ParameterNotDeclaredException(n);
    return Parameter(n, it->second);
  }
  template <class T> bool get_parameter_or(const std::string & n, T & out, const T & def) const
  {
    if (get_parameter(n, out)) return true;
    out = def;
    return false;
  }
  template <class T> T declare_parameter(const std::string & name, const T & def)
  {
    if (vstub::g_declared.count(name)) throw exceptions::ParameterAlreadyDeclaredException(name);
    vstub::g_declared[name] = to_value(def);
    auto it = vstub::g_params.find(name);
    if (it == vstub::g_params.end()) return def;
    vstub::g_declared[name] = it->second;
    return from_value<T>(it->second, name);
  }
  std::string declare_parameter(const std::string & name, const char * def)
  {
    return declare_parameter<std::string>(name, def);
  }
  bool has_parameter(const std::string & n) const { return vstub::g_declared.count(n) > 0; }
  template <class T> bool get_parameter(const std::string & n, T & out) const
  {
    auto it = vstub::g_declared.find(n);
    if (it == vstub::g_declared.end()) return false;
    out = from_value<T>(it->second, n);
    return true;
  }
  template <class M, class Q> typename Publisher<M>::SharedPtr create_publisher(const std::string & topic, const Q & q)
  {
    if constexpr (std::is_base_of_v<QoS, Q>) vstub::bus().latched[topic] = q.latched;
    else (void)q;
    return std::make_shared<Publisher<M>>(topic);
  }
  template <class M, class Q, class F>
  typename Subscription<M>::SharedPtr create_subscription(const std::string & topic, const Q &, F && f)
  {
    vstub::bus().subs[topic] = std::function<void(std::shared_ptr<const M>)>(std::forward<F>(f));
    return std::make_shared<Subscription<M>>();
  }
  template <class S, class F>
  typename Service<S>::SharedPtr create_service(const std::string & name, F && f)
  {
    vstub::bus().srvs[name] =
      std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)>(std::forward<F>(f));
    return std::make_shared<Service<S>>();
  }

private:
  template <class T> static vstub::ParamValue to_value(const T & v)
  {
    if constexpr (std::is_same_v<T, bool>) return v;
    else if constexpr (std::is_integral_v<T>) return static_cast<int64_t>(v);
    else if constexpr (std::is_floating_point_v<T>) return static_cast<double>(v);
    else return std::string(v);
  }
  template <class T> static T from_value(const vstub::ParamValue & v, const std::string & n)
  {
    try
    {
      if constexpr (std::is_same_v<T, bool>) return std::get<bool>(v);
      else if constexpr (std::is_integral_v<T>) return static_cast<T>(std::get<int64_t>(v));
      else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::get<double>(v));
      else return std::get<std::string>(v);
    }
    catch (const std::bad_variant_access &)
    {
      throw exceptions::InvalidParameterTypeException(n);
    }
  }
  std::string name_;
  Clock::SharedPtr clock_ = std::make_shared<Clock>();
};

}  // namespace rclcpp

#define VSTUB_LOG(level, logger, ...) do { (void)sizeof(logger); ::vstub::log(level, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG(logger, ...) VSTUB_LOG(0, logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) VSTUB_LOG(1, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) VSTUB_LOG(2, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) VSTUB_LOG(3, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) VSTUB_LOG(4, logger, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE RCLCPP_DEBUG
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) VSTUB_LOG(1, logger, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) VSTUB_LOG(2, logger, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) VSTUB_LOG(3, logger, __VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, ms, ...) VSTUB_LOG(0, logger, __VA_ARGS__)
#define RCLCPP_FATAL_ONCE RCLCPP_FATAL
#define RCLCPP_FATAL_THROTTLE(logger, clock, ms, ...) VSTUB_LOG(4, logger, __VA_ARGS__)
#define RCLCPP_DEBUG_EXPRESSION(logger, e, ...) do { if (e) VSTUB_LOG(0, logger, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_EXPRESSION(logger, e, ...) do { if (e) VSTUB_LOG(1, logger, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_EXPRESSION(logger, e, ...) do { if (e) VSTUB_LOG(2, logger, __VA_ARGS__); } while (0)
#define RCLCPP_ERROR_EXPRESSION(logger, e, ...) do { if (e) VSTUB_LOG(3, logger, __VA_ARGS__); } while (0)
#define VSTUB_STREAM(level, logger, s) do { std::ostringstream vstub_o; vstub_o << s; VSTUB_LOG(level, logger, "%s", vstub_o.str().c_str()); } while (0)
#define RCLCPP_DEBUG_STREAM(logger, s) VSTUB_STREAM(0, logger, s)
#define RCLCPP_INFO_STREAM(logger, s) VSTUB_STREAM(1, logger, s)
#define RCLCPP_WARN_STREAM(logger, s) VSTUB_STREAM(2, logger, s)
#define RCLCPP_ERROR_STREAM(logger, s) VSTUB_STREAM(3, logger, s)
#define RCLCPP_FATAL_STREAM(logger, s) VSTUB_STREAM(4, logger, s)
