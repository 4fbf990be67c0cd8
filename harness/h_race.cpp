// Monitor for C21: the real node with its real threads, callbacks and shutdowns of every kind, and delays where
// threads meet. Sanitizers judge memory and races; the watchdog of check.py judges deadlocks and shutdown.
// Nothing here synchronizes the threads of the node with each other: relaxed atomics and thread-local storage only.
#include <sys/syscall.h>
#include <time.h>
#include <algorithm>
#include "mw.hpp"

using namespace vh;
using namespace mw;
using ndt_2d::Mapper;
using ndt_2d::Pose2d;
using ndt_2d::Point;
using ndt_2d::ScanPtr;
using LaserScan = sensor_msgs::msg::LaserScan;
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
using Conf = ndt_2d::srv::Configure;

namespace
{
// ---------------------------------------------------------------- time, delays and the record of the schedule
std::atomic<uint64_t> g_seed{1};
std::atomic<int64_t> g_scale{200};         // sleeps are this much shorter
std::atomic<int> g_delay{0};               // per mille of the points delayed
std::atomic<int> g_delay_us{100};
std::atomic<bool> g_on{false};

struct Log { std::vector<std::pair<uint64_t, uint32_t>> p; };
Log g_logs[64];
std::atomic<int> g_nlogs{0};
thread_local Rng * tl_rng = nullptr;
thread_local Log * tl_log = nullptr;
thread_local int tl_in = 0;
thread_local int tl_id = -1;
thread_local uint64_t tl_run = 0;

void raw_sleep(int64_t ns)
{
  timespec t{ns / 1000000000LL, ns % 1000000000LL};
  syscall(SYS_nanosleep, &t, nullptr);
}
uint64_t tsc() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<uint64_t>(t.tv_sec) * 1000000000ULL + static_cast<uint64_t>(t.tv_nsec); }

void enter_thread()
{
  const uint64_t run = g_seed.load(std::memory_order_relaxed);
  if (tl_run == run) return;
  tl_run = run;
  tl_id = g_nlogs.fetch_add(1, std::memory_order_relaxed);
  tl_log = tl_id < 64 ? &g_logs[tl_id] : nullptr;
  delete tl_rng;
  tl_rng = new Rng(run + 77777ULL * static_cast<uint64_t>(tl_id + 1));
  if (tl_log) { tl_log->p.clear(); tl_log->p.reserve(4096); }
}
void point(uint32_t what)
{
  if (tl_in || !g_on.load(std::memory_order_relaxed)) return;
  ++tl_in;
  enter_thread();
  if (tl_log && tl_log->p.size() < 50000) tl_log->p.push_back({tsc(), what});
  if (static_cast<int>(tl_rng->next() % 1000) < g_delay.load(std::memory_order_relaxed))
  {
    const int us = g_delay_us.load(std::memory_order_relaxed);
    switch (tl_rng->next() % 4)
    {
      case 0: syscall(SYS_sched_yield); break;
      case 1: raw_sleep(static_cast<int64_t>(tl_rng->next() % static_cast<uint64_t>(us * 10)) * 1000); break;
      default: raw_sleep(static_cast<int64_t>(tl_rng->next() % static_cast<uint64_t>(us)) * 1000); break;
    }
  }
  --tl_in;
}
uint32_t code(const char * s) { uint32_t h = 2166136261u; for (; *s; ++s) { h ^= static_cast<uint8_t>(*s); h *= 16777619u; } return h; }
int scaled(int64_t ns)
{
  point(code("sleep"));
  raw_sleep(std::max<int64_t>(1000, ns / g_scale.load(std::memory_order_relaxed)));
  point(code("wake"));
  return 0;
}
}  // namespace

extern "C"
{
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { point(1); const int r = __real_pthread_mutex_lock(m); point(2); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { const int r = __real_pthread_mutex_unlock(m); point(3); return r; }
int __wrap_nanosleep(const timespec * t, timespec *) { return scaled(t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_clock_nanosleep(clockid_t, int, const timespec * t, timespec *) { return scaled(t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_usleep(unsigned us) { return scaled(us * 1000LL); }
}

namespace
{
// A matcher as simple and as unsynchronized as a matcher can be
class Plain : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & name, rclcpp::Node *, double range) override { name_ = name; range_ = range; }
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override
  {
    for (auto i = b; i != e; ++i)
    {
      const auto p = (*i)->getPose();
      map_.push_back({p.x + p.theta, static_cast<double>((*i)->getPoints().size())});
      point(code("addScans"));
    }
  }
  double matchScan(const ScanPtr & s, Pose2d & c, Eigen::Matrix3d & cov) const override
  {
    point(code("match"));
    c = Pose2d(0.01 * u(), 0.01 * u(), 0.005 * u());
    cov = Eigen::Matrix3d::Identity() * 0.01;
    double sum = s->getPose().x + static_cast<double>(s->getPoints().size());
    for (auto & q : map_) sum += q[0] + q[1];
    point(code("matched"));
    if (!std::isfinite(sum) || (tl_rng && tl_rng->next() % 16 == 0)) return std::numeric_limits<double>::quiet_NaN();
    return -0.5 + 0.49 * u();
  }
  double scoreScan(const ScanPtr & s) const override { return scorePoints(s->getPoints(), s->getPose()); }
  double scorePoints(const std::vector<Point> & pts, const Pose2d &) const override
  {
    point(code("score"));
    double sum = 0;
    for (auto & q : map_) sum += q[0] + static_cast<double>(pts.size());
    return std::isfinite(sum) ? -0.5 + 0.4 * u() : 0.0;
  }
  void reset() override { map_.clear(); point(code("reset")); }

private:
  static double u() { return tl_rng ? tl_rng->uni(-1, 1) : 0.0; }
  std::string name_;
  double range_ = 0;
  std::vector<std::array<double, 2>> map_;
};
vstub::PluginReg<Plain, ndt_2d::ScanMatcher> reg_plain("test::Plain");

void seed_map(Rng & r, const std::string & name, int n)
{
  Dump d;
  for (int i = 0; i < n; ++i)
  {
    ScanRec q;
    q.id = i;
    q.p = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-3, 3)};
    const int m = static_cast<int>(r.range(0, 20));
    for (int j = 0; j < m; ++j) q.pts.push_back({r.uni(-3, 3), r.uni(-3, 3)});
    d.s.push_back(q);
    if (!i) continue;
    ConRec e;
    e.b = i - 1; e.e = i;
    e.t[0] = r.uni(-1, 1); e.t[1] = r.uni(-1, 1); e.t[2] = r.uni(-1, 1);
    for (int j = 0; j < 9; ++j) e.info[j] = j % 4 == 0 ? 100 : 0;
    d.c.push_back(e);
  }
  d.graph(true)->save(name);
}
}  // namespace

VH_PROPERTY(C21, 2000, 40000, "random histories of scans, initial poses and all requests against the real threads of the node in every mode, with random delays at locks, sleeps and outside calls, ending in shutdowns of both kinds; every schedule seen is recorded")
{
  Rng & r = c.rng;
  vstub::reset_world();
  g_device_seed.store(r.next());
  const bool pf = r.chance(0.2), mapping = r.chance(0.75), real = r.chance(0.2);
  using P = vstub::ParamValue;
  auto & p = vstub::g_params;
  p["resolution"] = P(0.5);
  p["rolling_depth"] = P(int64_t(r.range(1, 4)));
  p["global_search_limit"] = P(int64_t(r.range(1, 4)));
  p["optimization_node_limit"] = P(int64_t(r.range(0, 4)));
  p["global_search_size"] = P(r.pick(std::vector<double>{0.5, 2, 10}));
  p["minimum_travel_distance"] = P(0.05);
  p["use_particle_filter"] = P(pf);
  p["min_particles"] = P(int64_t(10));
  p["max_particles"] = P(int64_t(30));
  p["enable_mapping"] = P(mapping);
  p["use_barycenter"] = P(r.chance(0.7));
  p["scan_matcher_type"] = P(std::string(real ? "ndt_2d::ScanMatcherNDT" : "test::Plain"));
  for (const char * n : {"local_scan_matcher", "global_scan_matcher"})
  {
    const std::string b = n;
    p[b + ".search_angular_size"] = P(0.02);
    p[b + ".search_angular_resolution"] = P(0.01);
    p[b + ".search_linear_size"] = P(0.02);
    p[b + ".search_linear_resolution"] = P(0.01);
    p[b + ".laser_max_beams"] = P(int64_t(20));
  }
  seed_map(r, "start", static_cast<int>(r.range(1, 12)));
  seed_map(r, "a", static_cast<int>(r.range(0, 10)));
  seed_map(r, "b", static_cast<int>(r.range(0, 20)));
  const bool with_file = r.chance(0.4);
  if (with_file) p["map_file"] = P(std::string("start"));

  static std::atomic<double> ox, oy, oth;
  ox = oy = oth = 0;
  const Rigid mount = rigid(Pose{0.1, 0.2, r.uni(-3, 3)}, r.chance(0.3), 0.2);
  vstub::g_tf = [mount](const std::string & t, const std::string & s, int64_t, Rigid & o) {
    auto at = [&](const std::string & f, Rigid & x) {
      x = Rigid();
      if (f == "odom") return true;
      x = rigid(Pose{ox.load(std::memory_order_relaxed), oy.load(std::memory_order_relaxed), oth.load(std::memory_order_relaxed)});
      if (f == "base_link") return true;
      x = rmul(x, mount);
      return f == "laser";
    };
    Rigid a, b;
    if (!at(t, a) || !at(s, b)) return false;
    o = rmul(rinv(a), b);
    return true;
  };
  // counted by the thread that publishes, read once it has ended
  static long maps, graphs, tfs, clouds;
  maps = graphs = tfs = clouds = 0;
  vstub::bus().sink<nav_msgs::msg::OccupancyGrid>("map", [](const nav_msgs::msg::OccupancyGrid &) { ++maps; });
  vstub::bus().sink<visualization_msgs::msg::MarkerArray>("graph", [](const visualization_msgs::msg::MarkerArray &) { ++graphs; });
  vstub::bus().sink<geometry_msgs::msg::TransformStamped>("/tf", [](const geometry_msgs::msg::TransformStamped &) { ++tfs; });
  vstub::bus().sink<geometry_msgs::msg::PoseArray>("particlecloud", [](const geometry_msgs::msg::PoseArray &) { ++clouds; });
  vstub::g_yield = [](const char * w) { point(code(w)); };
  g_seed.store(r.next() | 1, std::memory_order_relaxed);
  g_nlogs.store(0, std::memory_order_relaxed);
  g_scale.store(r.pick(std::vector<int>{100, 300, 1000, 3000}), std::memory_order_relaxed);
  g_delay.store(r.pick(std::vector<int>{0, 20, 100, 300}), std::memory_order_relaxed);
  g_delay_us.store(r.pick(std::vector<int>{10, 60, 200}), std::memory_order_relaxed);
  g_on.store(true, std::memory_order_relaxed);

  auto node = std::make_shared<Mapper>(rclcpp::NodeOptions());
  double last[3] = {0, 0, 0};
  std::string hist;
  auto laser = [&] {
    if (r.chance(0.9))
    {
      last[0] += r.uni(-0.3, 0.3); last[1] += r.uni(-0.3, 0.3); last[2] = std::remainder(last[2] + r.uni(-0.4, 0.4), 2 * M_PI);
      if (std::hypot(last[0], last[1]) > 2) { last[0] *= 0.5; last[1] *= 0.5; }
      ox.store(last[0], std::memory_order_relaxed); oy.store(last[1], std::memory_order_relaxed); oth.store(last[2], std::memory_order_relaxed);
    }
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = "laser";
    m->header.stamp = rclcpp::Time(vstub::g_now.load(std::memory_order_relaxed));
    const int n = r.chance(0.05) ? 0 : static_cast<int>(r.range(1, 24));
    m->angle_min = -3.0f;
    m->angle_increment = 0.25f;
    m->angle_max = 3.0f;
    m->time_increment = 1e-4f;
    m->range_max = 6;
    for (int i = 0; i < n; ++i) m->ranges.push_back(r.chance(0.05) ? INFINITY : static_cast<float>(r.uni(0.5, 4)));
    vstub::bus().deliver<LaserScan>("scan", m);
    c.count("scans");
  };
  auto pose_in = [&] {
    auto m = pose_msg(Pose{r.uni(-1, 1), r.uni(-1, 1), r.uni(-3, 3)}, r.chance(0.95) ? "map" : "odom", 0.01, 0.01, 0.01);
    vstub::bus().deliver<PoseMsg>("initialpose", m);
    c.count("initial_poses");
  };
  auto request = [&](int action, const std::string & f) {
    auto q = std::make_shared<Conf::Request>();
    q->action = static_cast<decltype(q->action)>(action);
    q->filename = f;
    vstub::bus().call("configure", q, std::make_shared<Conf::Response>());
    c.count("requests");
  };
  const int ops = r.chance(0.1) ? static_cast<int>(r.range(0, 2)) : static_cast<int>(r.range(10, 60));
  const double wait = r.pick(std::vector<double>{0.05, 0.3, 0.6});
  for (int i = 0; i < ops; ++i)
  {
    if (r.chance(wait)) raw_sleep(r.range(0, 4000) * 1000);
    const int k = static_cast<int>(r.range(0, 19));
    vstub::g_now.store(vstub::g_now.load(std::memory_order_relaxed) + 10000000, std::memory_order_relaxed);
    switch (k)
    {
      case 0: pose_in(); break;
      case 1: if (r.chance(0.3)) { request(Conf::Request::DISABLE_MAPPING, ""); if (r.chance(0.7)) { laser(); request(Conf::Request::ENABLE_MAPPING, ""); pose_in(); } } break;
      case 2: request(Conf::Request::SAVE_TO_FILE, "saved"); break;
      case 3: if (r.chance(0.3)) { request(Conf::Request::LOAD_FROM_FILE, r.pick(std::vector<std::string>{"a", "b", "start", "saved", "none"})); if (r.chance(0.5)) laser(); pose_in(); } break;
      case 4: if (r.chance(0.2)) request(Conf::Request::ENABLE_MAPPING, ""); break;
      default: if (with_file && i < 3) pose_in(); laser(); break;
    }
  }
  if (r.chance(0.5)) raw_sleep(r.range(0, 12000) * 1000);
  if (r.chance(0.5))
  {
    request(Conf::Request::SAVE_TO_FILE, "end");
    const Dump d(ndt_2d::Graph(true, "end"));
    long closures = 0;
    for (auto & q : d.c) closures += q.sw;
    c.count("scans_saved", static_cast<long>(d.s.size()));
    c.count("closures_saved", closures);
  }
  const bool unload = r.chance(0.4);
  if (!unload) vstub::g_ok.store(false);
  if (r.chance(0.3)) raw_sleep(r.range(0, 3000) * 1000);
  node.reset();
  c.count(unload ? "unloaded" : "shut_down");
  g_on.store(false, std::memory_order_relaxed);
  vstub::g_yield = nullptr;
  vstub::g_tf = nullptr;

  // The schedule: which thread passed which point after which
  std::vector<std::tuple<uint64_t, int, uint32_t>> all;
  const int n = std::min(64, g_nlogs.load(std::memory_order_relaxed));
  for (int i = 0; i < n; ++i) { for (auto & e : g_logs[i].p) all.push_back({e.first, i, e.second}); g_logs[i].p.clear(); }
  std::sort(all.begin(), all.end());
  Hash h;
  long switches = 0;
  for (size_t i = 0; i < all.size(); ++i)
  {
    h.add(std::get<1>(all[i])).add(std::get<2>(all[i]));
    if (i && std::get<1>(all[i]) != std::get<1>(all[i - 1])) ++switches;
  }
  c.count("points_passed", static_cast<long>(all.size()));
  c.count("switches_between_threads", switches);
  c.count("threads", n);
  c.count("maps_published", maps);
  c.count("graphs_published", graphs);
  c.count("transforms", tfs);
  c.count("particle_clouds", clouds);
  if (switches > 2) c.distinct(h.h);
  if (c.index < 24) c.sample(fmt("%s, %s matcher: %d operations, %zu points passed by %d threads with %ld switches, %ld maps and %ld transforms published, %s",
    pf ? "particle filter" : mapping ? "mapping" : "localizing", real ? "NDT" : "plain", ops, all.size(), n, switches, maps, tfs, unload ? "unloaded" : "shut down"));
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
