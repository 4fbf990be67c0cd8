// The mapper node in virtual time with a scripted matcher, for demonstrations of planted bugs.
#pragma once
#include <ndt_2d/ceres_solver.hpp>
#include "mw.hpp"
#include "vt.hpp"

extern "C"
{
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { vt::point("lock"); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { const int r = __real_pthread_mutex_unlock(m); vt::point("unlock"); return r; }
int __wrap_nanosleep(const timespec * t, timespec *) { return vt::sleep(t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_clock_nanosleep(clockid_t, int, const timespec * t, timespec *) { return vt::sleep(t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_usleep(unsigned us) { return vt::sleep(us * 1000LL); }
}

#define REQUIRE(x) do { if (!(x)) { printf("FAILED: %s (line %d)\n", #x, __LINE__); fflush(stdout); _exit(1); } } while (0)

namespace demo
{
using namespace mw;
using Conf = ndt_2d::srv::Configure;

struct Match
{
  std::string matcher;
  bool background = false;
  std::vector<ScanRec> map;
  ScanRec scan;
  double score = -0.1;
  Pose correction;
  Eigen::Matrix3d covariance = Eigen::Matrix3d::Identity() * 0.01;
};
inline std::vector<Match> & matches() { static std::vector<Match> m; return m; }
inline std::function<void(Match &)> script;

class Mock : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & n, rclcpp::Node *, double) override { name = n; }
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator & b, const std::vector<ndt_2d::ScanPtr>::const_iterator & e) override
  {
    if (!vt::tl_harness) vt::tl_nopause = true;
    map.clear();
    for (auto i = b; i != e; ++i) map.push_back(rec(*i));
  }
  double matchScan(const ndt_2d::ScanPtr & s, ndt_2d::Pose2d & p, Eigen::Matrix3d & cov) const override
  {
    vt::Guard g;
    Match m;
    m.matcher = name;
    m.background = !vt::tl_harness;
    m.map = map;
    m.scan = rec(s);
    if (script) script(m);
    matches().push_back(m);
    p = ndt_2d::Pose2d(m.correction.x, m.correction.y, m.correction.th);
    cov = m.covariance;
    return m.score;
  }
  double scoreScan(const ndt_2d::ScanPtr &) const override { return -0.1; }
  double scorePoints(const std::vector<ndt_2d::Point> &, const ndt_2d::Pose2d &) const override { return -0.1; }
  void reset() override { map.clear(); }
  std::string name;
  std::vector<ScanRec> map;
};
inline vstub::PluginReg<Mock, ndt_2d::ScanMatcher> reg("demo::Mock");

struct Node
{
  Frames f;
  Pose odom;
  vh::Rng r{1};
  std::shared_ptr<ndt_2d::Mapper> node;
  long maps = 0, graphs = 0;
  nav_msgs::msg::OccupancyGrid map;
  visualization_msgs::msg::MarkerArray graph;
  std::vector<geometry_msgs::msg::TransformStamped> tfs;
  geometry_msgs::msg::PoseArray cloud;
  std::function<void()> on_graph;      // on the publisher's thread

  Node()
  {
    vstub::reset_world();
    vh::g_device_seed.store(7);
    f.odom_at = [this](int64_t) { return odom; };
    set("scan_matcher_type", std::string("demo::Mock"));
    set("resolution", 0.2);
    for (int i = 1; i <= 5; ++i) set("odom_alpha" + std::to_string(i), 0.0);
  }
  template <class T> void set(const std::string & n, T v) { vstub::g_params[n] = vstub::ParamValue(v); }
  void start()
  {
    vstub::g_tf = [this](const std::string & a, const std::string & b, int64_t t, Rigid & o) { return f.lookup(a, b, t, o); };
    vstub::bus().sink<nav_msgs::msg::OccupancyGrid>("map", [this](const nav_msgs::msg::OccupancyGrid & m) { map = m; ++maps; });
    vstub::bus().sink<visualization_msgs::msg::MarkerArray>("graph", [this](const visualization_msgs::msg::MarkerArray & m) { graph = m; ++graphs; if (on_graph) on_graph(); });
    vstub::bus().sink<geometry_msgs::msg::TransformStamped>("/tf", [this](const geometry_msgs::msg::TransformStamped & m) { tfs.push_back(m); });
    vstub::bus().sink<geometry_msgs::msg::PoseArray>("particlecloud", [this](const geometry_msgs::msg::PoseArray & m) { cloud = m; });
    vt::start();
    vt::Guard g;
    node = std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());
    std::unique_lock<std::mutex> l(vt::w().m);
    vt::w().cv.wait(l, [] { return vt::w().bg.size() >= 2; });
    vt::wait_quiet(l);
  }
  void stop() { if (node) { vt::close(); node.reset(); vstub::g_yield = nullptr; } }
  ~Node() { stop(); }
  void advance(double s) { vt::advance(static_cast<int64_t>(s * 1e9), r); }
  std::shared_ptr<sensor_msgs::msg::LaserScan> message(std::vector<float> ranges)
  {
    auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
    m->header.frame_id = "laser";
    m->header.stamp = rclcpp::Time(vstub::g_now.load());
    m->angle_min = -1.0f;
    m->angle_increment = 0.1f;
    m->angle_max = 1.0f;
    m->range_max = 10;
    m->ranges = ranges;
    return m;
  }
  void deliver(std::shared_ptr<sensor_msgs::msg::LaserScan> m) { vstub::bus().deliver<sensor_msgs::msg::LaserScan>("scan", m); }
  void laser(std::vector<float> ranges = std::vector<float>(20, 2.0f)) { deliver(message(ranges)); }
  void drive(double dx, double dy = 0, double dth = 0) { odom.x += dx; odom.y += dy; odom.th += dth; }
  void initial(const Pose & p, const std::string & frame = "map")
  {
    vstub::bus().deliver<geometry_msgs::msg::PoseWithCovarianceStamped>("initialpose", pose_msg(p, frame, 0.01, 0.01, 0.01));
  }
  void request(int action, const std::string & file = "")
  {
    auto q = std::make_shared<Conf::Request>();
    q->action = action;
    q->filename = file;
    vstub::bus().call("configure", q, std::make_shared<Conf::Response>());
  }
  Dump dump()
  {
    request(Conf::Request::SAVE_TO_FILE, "dump");
    return Dump(ndt_2d::Graph(true, "dump"));
  }
};

inline std::vector<V2> circle(int n = 30, double r = 2)
{
  std::vector<V2> v;
  for (int i = 0; i < n; ++i) v.push_back({r * std::cos(i * 0.2), r * std::sin(i * 0.2)});
  return v;
}
// scans at the poses given, joined one after another
inline Dump chain(const std::vector<Pose> & poses)
{
  Dump d;
  for (size_t i = 0; i < poses.size(); ++i)
  {
    ScanRec q;
    q.id = i; q.p = poses[i]; q.pts = circle();
    d.s.push_back(q);
    if (!i) continue;
    ConRec e;
    e.b = i - 1; e.e = i;
    const Pose t = mul(inv(poses[i - 1]), poses[i]);
    e.t[0] = t.x; e.t[1] = t.y; e.t[2] = t.th;
    for (int j = 0; j < 9; ++j) e.info[j] = j % 4 == 0 ? 100 : 0;
    d.c.push_back(e);
  }
  return d;
}
}  // namespace demo
