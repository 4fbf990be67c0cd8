// The real node with its threads, in virtual time, beside a reference model.
#pragma once
#include <ndt_2d/ceres_solver.hpp>
#include "mw.hpp"
#include "vt.hpp"

using namespace vh;
using namespace mw;
using ndt_2d::Mapper;
using ndt_2d::Pose2d;
using ndt_2d::Point;
using ndt_2d::ScanPtr;
using LaserScan = sensor_msgs::msg::LaserScan;
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
using Conf = ndt_2d::srv::Configure;

extern "C"
{
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { vt::point("lock"); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { const int r = __real_pthread_mutex_unlock(m); vt::point("unlock"); return r; }
int __wrap_nanosleep(const timespec * t, timespec *) { return vt::sleep(t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_clock_nanosleep(clockid_t, int, const timespec * t, timespec *) { return vt::sleep(t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_usleep(unsigned us) { return vt::sleep(us * 1000LL); }
}

namespace
{

// ---------------------------------------------------------------- the recording matcher
struct Event
{
  char kind = 'm';                 // m: match, p: score points, s: score scan
  std::string matcher;
  bool bg = false;
  std::shared_ptr<const std::vector<ScanRec>> map;
  ScanRec scan;                    // for p: points only
  std::vector<Pose> at;            // for p: poses
  double score = 0;
  Pose corr;
  Eigen::Matrix3d cov = Eigen::Matrix3d::Identity();
};
struct Ctl
{
  std::mutex m;
  std::vector<Event> events;
  std::vector<std::pair<std::string, double>> names;   // and the range given
  std::function<void(Event &)> script;
};
Ctl & ctl() { static Ctl * c = new Ctl; return *c; }

class Mock : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & name, rclcpp::Node *, double range) override
  {
    vt::Guard g;
    name_ = name;
    std::lock_guard<std::mutex> l(ctl().m);
    ctl().names.push_back({name, range});
  }
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override
  {
    if (!vt::tl_harness) vt::tl_nopause = true;
    vt::Guard g;
    auto m = std::make_shared<std::vector<ScanRec>>();
    for (auto i = b; i != e; ++i) m->push_back(rec(*i));
    map_ = m;
  }
  double matchScan(const ScanPtr & s, Pose2d & p, Eigen::Matrix3d & cov) const override
  {
    vt::Guard g;
    Event e;
    e.kind = 'm';
    e.scan = rec(s);
    fill(e);
    std::lock_guard<std::mutex> l(ctl().m);
    if (ctl().script) ctl().script(e);
    ctl().events.push_back(e);
    p = Pose2d(e.corr.x, e.corr.y, e.corr.th);
    cov = e.cov;
    return e.score;
  }
  double scoreScan(const ScanPtr & s) const override
  {
    vt::Guard g;
    Event e;
    e.kind = 's';
    e.scan = rec(s);
    fill(e);
    std::lock_guard<std::mutex> l(ctl().m);
    ctl().events.push_back(e);
    return -0.5;
  }
  double scorePoints(const std::vector<Point> & pts, const Pose2d & p) const override
  {
    vt::Guard g;
    std::lock_guard<std::mutex> l(ctl().m);
    auto & ev = ctl().events;
    std::vector<V2> q;
    for (auto & x : pts) q.push_back({x.x, x.y});
    if (ev.empty() || ev.back().kind != 'p' || ev.back().map != map_ || ev.back().matcher != name_ || !same(ev.back().scan.pts, q))
    {
      Event e;
      e.kind = 'p';
      e.scan.pts = q;
      fill(e);
      ev.push_back(e);
    }
    ev.back().at.push_back(pose(p));
    return -0.5;
  }
  void reset() override { vt::Guard g; map_.reset(); }

private:
  // A thread that matches in the background is not stopped halfway: the model takes whole cycles of it.
  void fill(Event & e) const { if (!vt::tl_harness) vt::tl_nopause = true; e.matcher = name_; e.bg = !vt::tl_harness; e.map = map_; }
  std::string name_;
  std::shared_ptr<const std::vector<ScanRec>> map_;
};
vstub::PluginReg<Mock, ndt_2d::ScanMatcher> reg_mock("test::Mock");

Eigen::Matrix3d random_cov(Rng & r)
{
  Eigen::Matrix3d a;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a(i, j) = r.uni(-1, 1);
  Eigen::HouseholderQR<Eigen::Matrix3d> qr(a);
  const Eigen::Matrix3d q = qr.householderQ();
  const double top = r.chance(0.1) ? 1 : -1;   // as unsure as the wide searches of loop closures may be
  const Eigen::Vector3d d(std::pow(10, r.uni(-4, top)), std::pow(10, r.uni(-4, top)), std::pow(10, r.uni(-4, top)));
  return q * d.asDiagonal() * q.transpose();
}

struct Config
{
  int depth = 10, limit = 3, opt = 25;
  double search = 0.2, min_d = 0.1, min_r = 1.0, range = -1;
  bool bary = true, pf = false, mapping = true;
  int min_p = 20, max_p = 60;
  double alpha = 0, resolution = 0.2, thresh = 0.25;
  std::string map_file, matcher = "test::Mock", odom = "odom", base = "base_link";
  std::map<std::string, vstub::ParamValue> extra;
  bool defaults = false;           // no parameter but those in extra
};

// ---------------------------------------------------------------- the node and everything around it
class Sim
{
public:
  Sim(vh::Case & c, const Config & k) : c(c), r(c.rng), k(k)
  {
    vstub::reset_world();
    vh::g_device_seed.store(r.next());
    ctl().events.clear();
    ctl().names.clear();
    ctl().script = nullptr;
    f.odom = k.odom;
    f.base = k.base;
    f.odom_at = [this](int64_t ns) { return ns <= scan_at ? odom : moving_by(odom, (ns - scan_at) * 1e-9); };
    if (r.chance(0.5)) f.mount = {r.uni(-0.5, 0.5), r.uni(-0.5, 0.5), r.uni(-3, 3)};
    f.inverted = r.chance(0.2);
    f.negated = r.chance(0.2);
  }
  ~Sim() { stop(); }

  void start()
  {
    using P = vstub::ParamValue;
    auto & p = vstub::g_params;
    p["resolution"] = P(k.resolution);
    p["occupancy_threshold"] = P(k.thresh);
    p["rolling_depth"] = P(int64_t(k.depth));
    p["global_search_limit"] = P(int64_t(k.limit));
    p["optimization_node_limit"] = P(int64_t(k.opt));
    p["global_search_size"] = P(k.search);
    p["minimum_travel_distance"] = P(k.min_d);
    p["minimum_travel_rotation"] = P(k.min_r);
    p["max_range"] = P(k.range);
    p["use_barycenter"] = P(k.bary);
    p["use_particle_filter"] = P(k.pf);
    p["enable_mapping"] = P(k.mapping);
    p["map_file"] = P(k.map_file);
    p["scan_matcher_type"] = P(k.matcher);
    p["odom_frame"] = P(k.odom);
    p["robot_frame"] = P(k.base);
    for (int i = 1; i <= 5; ++i) p["odom_alpha" + std::to_string(i)] = P(k.alpha);
    p["min_particles"] = P(int64_t(k.min_p));
    p["max_particles"] = P(int64_t(k.max_p));
    if (k.defaults) p.clear();
    for (auto & x : k.extra) p[x.first] = x.second;
    vstub::g_tf = [this](const std::string & a, const std::string & b, int64_t t, Rigid & o) { return f.lookup(a, b, t, o); };
    vstub::bus().sink<nav_msgs::msg::OccupancyGrid>("map", [this](const nav_msgs::msg::OccupancyGrid & m) { map_msg = m; ++maps; timely(m.header.stamp, stale_map); });
    vstub::bus().sink<visualization_msgs::msg::MarkerArray>("graph", [this](const visualization_msgs::msg::MarkerArray & m) {
      graph_msg = m; ++graphs; if (!m.markers.empty()) timely(m.markers[0].header.stamp, stale_map); if (on_graph) on_graph(m); });
    vstub::bus().sink<geometry_msgs::msg::TransformStamped>("/tf", [this](const geometry_msgs::msg::TransformStamped & m) { tfs.push_back(m); timely(m.header.stamp, stale_tf); });
    vstub::bus().sink<geometry_msgs::msg::PoseArray>("particlecloud", [this](const geometry_msgs::msg::PoseArray & m) { cloud = m; ++clouds; });
    vt::start();
    {
      vt::Guard g;
      node = std::make_shared<Mapper>(rclcpp::NodeOptions());
    }
    {
      vt::Guard g;
      auto & x = vt::w();
      std::unique_lock<std::mutex> l(x.m);
      x.cv.wait_for(l, std::chrono::seconds(2), [&] { return x.bg.size() >= 2; });
      vt::wait_quiet(l);
    }
    mapping = k.mapping && !k.pf;
    localized = k.map_file.empty();
    pf = k.pf;
    if (!k.map_file.empty()) { g = dump(); changed = true; }
    events = {{Pose(), Pose()}};
  }
  void stop()
  {
    if (!node) return;
    vt::close();
    node.reset();
    vstub::g_yield = nullptr;
    vt::g_main_hook = nullptr;
  }

  // ------------------------------------------------------------ verdicts
  bool chk(const char * ids, bool ok, const char * key, const char * fm, ...) __attribute__((format(printf, 5, 6)))
  {
    if (ok) return true;
    char buf[2048];
    va_list ap; va_start(ap, fm); vsnprintf(buf, sizeof buf, fm, ap); va_end(ap);
    over = true;
    if (capture)
    {
      if (first_key.empty()) { first_key = key; first_msg = std::string(buf) + "; history: " + tail(); }
      return false;
    }
    if (strstr(ids, vh::opt.prop.c_str())) c.fail(key, std::string(buf) + "; history: " + tail());
    else
    {
      c.count("other_property");
      if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld: %s: %s: %s; %s\n", c.index, ids, key, buf, tail().c_str());
    }
    return false;
  }
  std::string tail() const
  {
    std::string s;
    for (size_t i = hist.size() > 12 ? hist.size() - 12 : 0; i < hist.size(); ++i) s += (s.empty() ? "" : ", ") + hist[i];
    return s;
  }
  void note(const std::string & s) { hist.push_back(s); }

  // ------------------------------------------------------------ access
  Dump dump()
  {
    auto q = std::make_shared<Conf::Request>();
    q->action = Conf::Request::SAVE_TO_FILE;
    q->filename = "dump";
    vstub::g_bags.erase("dump");
    call(q);
    vt::Guard gd;
    if (!vstub::g_bags.count("dump")) throw std::runtime_error("a save wrote nothing");
    Dump d(ndt_2d::Graph(true, "dump"));
    vstub::g_bags.erase("dump");
    return d;
  }
  void call(std::shared_ptr<Conf::Request> q)
  {
    run([q] { vstub::bus().call("configure", q, std::make_shared<Conf::Response>()); });
  }
  // A callback, possibly while a thread of the node is stopped at a pause point
  void run(std::function<void()> fn)
  {
    if (!in_pause) { vt::settle(); in_callback = true; fn(); in_callback = false; vt::settle(); return; }
    std::atomic<bool> done{false};
    std::string error;
    std::thread t([&] {
      vt::tl_harness = true;
      try { fn(); } catch (const std::exception & e) { error = e.what(); }
      done = true;
    });
    for (int i = 0; i < 400 && !done; ++i) { vt::Guard gd; timespec ts{0, 1000000}; syscall_sleep(ts); }
    if (!done) { vt::release(); in_pause = false; c.count("pause_released_early"); }
    t.join();
    if (!error.empty()) throw std::runtime_error(error);
  }
  static void syscall_sleep(const timespec & ts)
  {
    std::mutex m; std::condition_variable v; std::unique_lock<std::mutex> l(m);
    v.wait_for(l, std::chrono::nanoseconds(ts.tv_nsec));
  }
  void take_events(std::vector<Event> & main, std::vector<Event> & bg)
  {
    vt::Guard gd;
    std::lock_guard<std::mutex> l(ctl().m);
    for (auto & e : ctl().events) (e.bg ? bg : main).push_back(e);
    ctl().events.clear();
  }

  // ------------------------------------------------------------ inputs
  void turn(double dmax, double amax)
  {
    odom.x += r.uni(-dmax, dmax);
    odom.y += r.uni(-dmax, dmax);
    odom.th = std::remainder(odom.th + r.uni(-amax, amax), 2 * M_PI);
  }
  // moves so that the travel gate is clearly passed or clearly not
  void move()
  {
    const Pose o = odom;
    for (int t = 0; t < 100; ++t)
    {
      odom = o;
      switch (r.range(0, 5))
      {
        case 0: turn(k.min_d * 0.6, k.min_r * 0.8); break;
        case 1: turn(k.min_d * 0.2, 3.1); break;
        case 2: turn(5, 3.1); break;
        default: turn(k.min_d * 4, 0.5); break;
      }
      const double d = std::hypot(odom.x - prev_odom.x, odom.y - prev_odom.y), a = std::fabs(adiff(odom.th, prev_odom.th));
      if (std::fabs(d - k.min_d) > 1e-6 && std::fabs(a - k.min_r) > 1e-6 && a < 3.14) return;
    }
  }
  bool travelled() const
  {
    return std::hypot(odom.x - prev_odom.x, odom.y - prev_odom.y) >= k.min_d || std::fabs(adiff(odom.th, prev_odom.th)) >= k.min_r;
  }
  std::shared_ptr<LaserScan> scan_msg(int n)
  {
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = "laser";
    m->header.stamp = rclcpp::Time(vstub::g_now.load());
    scan_at = vstub::g_now.load();
    m->angle_min = static_cast<float>(r.uni(-3, 0));
    m->angle_increment = static_cast<float>(r.uni(0.01, 0.3));
    m->angle_max = m->angle_min + static_cast<float>(n) * m->angle_increment;
    m->time_increment = r.chance(0.5) ? 0.0f : static_cast<float>(r.uni(1e-5, 1e-3));
    m->range_max = 10;
    for (int i = 0; i < n; ++i) m->ranges.push_back(static_cast<float>(r.uni(0.2, 9)));
    return m;
  }

  // ------------------------------------------------------------ operations with their model
  // Content 1 leaves no points, 2 has the laser's own place only, 3 is a mixture, 4 none at all.
  void laser(int n, int content = 0)
  {
    if (over) return;
    auto m = scan_msg(n);
    if (content == 4)
    {
      n = 0;
      m->ranges.clear();
      // a driver that has no readings may not know the sensor either
      if (r.chance(0.5)) m->range_max = m->range_min = m->angle_min = m->angle_max = m->angle_increment = m->time_increment = 0;
    }
    const bool degenerate = content != 0;
    if (content == 1) for (auto & x : m->ranges) x = r.chance(0.5) ? std::numeric_limits<float>::quiet_NaN() : (r.chance(0.5) ? 50.0f : std::numeric_limits<float>::infinity());
    if (content == 2) for (auto & x : m->ranges) x = 0.0f;
    if (content == 3)
      for (auto & x : m->ranges)
        if (r.chance(0.6)) x = r.pick(std::vector<float>{NAN, INFINITY, -INFINITY, 10.5f, std::numeric_limits<float>::max(), 0.0f, std::numeric_limits<float>::denorm_min()});
    const int fault = faults && r.chance(fault_rate) ? static_cast<int>(r.range(1, 3)) : 0;
    bool first_ok = true;
    if (fault == 1) { f.odom_ok = false; }
    else if (fault == 2) { f.fail_at = r.range(0, 1); f.lookups = 0; }
    else if (fault == 3 && !have_laser) { f.laser_ok = false; first_ok = false; }
    const bool second_fails = f.fail_at == 1;
    note(fmt("laser%s%s", content == 0 ? "" : content == 1 ? "(no finite reading)" : content == 2 ? "(zero)" : content == 3 ? "(mixed)" : "(no readings)", fault ? "(no transform)" : ""));
    const long cl = clouds;
    const Dump before = g;
    run([m] { vstub::bus().deliver<LaserScan>("scan", m); });
    const bool tf_failed = fault == 1 || fault == 2;
    // without travel, the second lookup is not needed
    f.odom_ok = true; f.fail_at = -1; f.laser_ok = true;
    (void)second_fails;
    if (n == 0) first_ok = false;
    else if (first_ok) have_laser = true;
    std::vector<Event> ev, bg;
    take_events(ev, bg);
    keep_bg(bg);
    c.count("lasers");
    // Scores of the scan are not counted as use; matches are.
    std::vector<Event> use;
    for (auto & e : ev) if (e.kind == 'm' || e.kind == 'p') use.push_back(e);
    const bool used = localized && first_ok && !tf_failed && (before.s.empty() || travelled());
    if (!localized) chk("C27", use.empty(), "scan used before localization", "%zu matcher calls", use.size());
    else if (!used) chk("C23 C29", use.empty(), tf_failed ? "scan used without transform" : "scan used without travel", "%zu matcher calls, previous odometry %s, now %s", use.size(), str(prev_odom).c_str(), str(odom).c_str());
    if (over) return;
    if (!used)
    {
      chk(pf ? "C26" : localized ? "C23 C24" : "C27", clouds == cl, "particles published for an unused scan", "n");
      expect_map(before, localized ? "C23 C24" : "C27", "an unused scan changed the map");
      return;
    }
    // Where the robot should be before any correction
    Pose init;
    if (!before.s.empty()) init = mul(prev_robot, mul(inv(prev_odom), odom));
    if (pf)
    {
      expect_map(before, "C26", "the particle filter changed the map");
      if (over) return;
      chk(use.empty() ? "C23 C26 C29" : "C26 C29", clouds > cl, "no particles published", "n");
      if (!chk("C23 C26", !use.empty(), "scan not scored against the map", "n")) return;
      for (auto & e : use) if (!whole_map(e, before, "C26") || !points_ok(*m, e.scan.pts)) return;
      Pose mean;
      if (!cloud_mean(mean)) return;
      if (exact_particles && !before.s.empty())
        // the direction of a very small motion need not be resolved
        chk("C23", near(mean, init, 2e-4 + (std::hypot(odom.x - prev_odom.x, odom.y - prev_odom.y) < 0.0101 ? 0.0202 : 0)), "particles do not follow odometry", "mean %s, expected %s (previous %s, odometry %s then %s)", str(mean).c_str(), str(init).c_str(), str(prev_robot).c_str(), str(prev_odom).c_str(), str(odom).c_str());
      if (over) return;
      loose_event = true;
      prev_odom = odom;
      prev_robot = mean;
      events.push_back({mean, odom});
      c.count("filter_updates");
      return;
    }
    if (!mapping)
    {
      if (before.s.empty()) { expect_map(before, "C26", "localizing changed the map"); loose_event = true; prev_odom = odom; return; }
      if (!chk(use.empty() ? "C23 C26" : "C26", use.size() == 1 && use[0].kind == 'm', "scan not matched once against the map", "%zu matcher calls", use.size())) return;
      if (!whole_map(use[0], before, "C26") || !points_ok(*m, use[0].scan.pts)) return;
      if (!chk("C23", near(use[0].scan.p, init, 1e-7 * (1 + std::fabs(init.x) + std::fabs(init.y))), "initial pose while localizing", "%s, expected %s", str(use[0].scan.p).c_str(), str(init).c_str())) return;
      expect_map(before, "C26", "localizing changed the map");
      if (over) return;
      prev_odom = odom;
      prev_robot = plus(use[0].scan.p, use[0].corr);
      events.push_back({prev_robot, prev_odom});
      c.count("localizations");
      return;
    }
    // Mapping
    const Dump after = dump();
    const size_t n0 = before.s.size();
    if (!chk(after.s.size() == n0 ? "C23 C24" : "C24", after.s.size() == n0 + 1, "scans added", "%zu scans before, %zu after", n0, after.s.size())) return;
    for (size_t i = 0; i < n0; ++i)
      if (!chk("C24", same(before.s[i], after.s[i]), "earlier scan changed by a new one", "scan %zu of %zu", i, n0)) return;
    const ScanRec & s = after.s[n0];
    if (!chk("C24", s.id == n0, "scan identifier is not its position", "%zu at %zu", s.id, n0)) return;
    if (!points_ok(*m, s.pts)) return;
    Pose final_pose = init;
    if (n0 > 0)
    {
      std::vector<Event> ms;
      for (auto & e : use) if (e.kind == 'm') ms.push_back(e);
      if (!chk("C23 C24", ms.size() == 1, "new scan not matched once", "%zu matches", ms.size())) return;
      const Event & e = ms[0];
      const size_t want = std::min<size_t>(k.depth, n0);
      if (!chk("C24", e.map && e.map->size() == want, "rolling window", "matched against %zu scans, expected the last %zu of %zu", e.map ? e.map->size() : 0, want, n0)) return;
      for (size_t i = 0; i < want; ++i)
        if (!chk("C24", same((*e.map)[i], before.s[n0 - want + i]), "rolling window content", "its scan %zu is %zu at %s, expected %zu at %s", i, (*e.map)[i].id, str((*e.map)[i].p).c_str(), before.s[n0 - want + i].id, str(before.s[n0 - want + i].p).c_str())) return;
      if (!chk("C23", near(e.scan.p, init, 1e-7 * (1 + std::fabs(init.x) + std::fabs(init.y))), "initial pose", "%s, expected %s (previous %s, odometry %s then %s)", str(e.scan.p).c_str(), str(init).c_str(), str(prev_robot).c_str(), str(prev_odom).c_str(), str(odom).c_str())) return;
      chk("C24", same(e.scan.pts, s.pts), "points changed after matching", "n");
      final_pose = plus(e.scan.p, e.corr);
      if (std::isfinite(e.score)) typical = 0.95 * typical + 0.05 * e.score;
      // Constraint to the predecessor
      if (!chk("C24", after.c.size() == before.c.size() + 1, "constraints added", "%zu constraints before, %zu after", before.c.size(), after.c.size())) return;
      for (size_t i = 0; i < before.c.size(); ++i)
        if (!chk("C24", same(before.c[i], after.c[i]), "earlier constraint changed by a new scan", "constraint %zu", i)) return;
      const ConRec & q = after.c.back();
      chk("C24", q.b == n0 - 1 && q.e == n0 && !q.sw, "constraint to the predecessor", "%zu->%zu%s, expected %zu->%zu", q.b, q.e, q.sw ? " switchable" : "", n0 - 1, n0);
      check_con("C24", q, before.s[n0 - 1].p, s.p, e.cov);
      c.count("matched");
    }
    else
    {
      final_pose = Pose();
      if (!chk("C24", after.c.size() == before.c.size(), "constraint for the first scan", "%zu", after.c.size())) return;
    }
    if (!chk("C23", near(s.p, final_pose, 1e-7 * (1 + std::fabs(final_pose.x) + std::fabs(final_pose.y))), "final pose", "%s, expected %s", str(s.p).c_str(), str(final_pose).c_str())) return;
    prev_odom = odom;
    prev_robot = s.p;
    events.push_back({prev_robot, prev_odom});
    g = after;
    changed = true;
    c.count("scans_mapped");
  }

  bool points_ok(const LaserScan & m, const std::vector<V2> & have)
  {
    std::vector<V2> want;
    for (size_t b = 0; b < m.ranges.size(); ++b)
    {
      const double x = m.ranges[b];
      if (!std::isfinite(x) || x > m.range_max) continue;
      const double a = static_cast<double>(m.angle_min) + static_cast<double>(m.angle_increment) * b;
      const V2 base = apply(f.mount.x, f.mount.y, f.mount.th, x * std::cos(a), x * std::sin(a) * (f.inverted ? -1 : 1));
      const Pose at = moving_by(odom, static_cast<double>(m.time_increment) * b);
      const V2 hit = apply(at.x, at.y, at.th, base.x, base.y);
      want.push_back(unapply(odom.x, odom.y, odom.th, hit.x, hit.y));
    }
    if (!chk("C22 C29", have.size() == want.size(), "number of points", "%zu points for %zu valid readings", have.size(), want.size())) return false;
    std::vector<char> used(have.size());
    for (auto & w : want)
    {
      size_t best = 0; double bd = 1e300;
      for (size_t i = 0; i < have.size(); ++i)
      {
        const double d = std::hypot(have[i].x - w.x, have[i].y - w.y);
        if (!used[i] && d < bd) { bd = d; best = i; }
      }
      if (!chk("C22 C29", bd < 1e-3, "point is not where the beam hit", "hit (%g, %g), nearest point %g m away (mount %s%s)", w.x, w.y, bd, str(f.mount).c_str(), f.inverted ? " upside down" : "")) return false;
      used[best] = 1;
    }
    return true;
  }

  void initial_pose(int kind = -1)
  {
    if (over) return;
    Pose p{r.uni(-5, 5), r.uni(-5, 5), r.uni(-3.1, 3.1)};
    if (!g.s.empty() && r.chance(0.7))
    {
      const Pose & q = g.s[r.next() % g.s.size()].p;
      p = {q.x + r.uni(-1, 1), q.y + r.uni(-1, 1), std::remainder(q.th + r.uni(-0.5, 0.5), 2 * M_PI)};
    }
    if (kind < 0) kind = static_cast<int>(r.range(0, 7));
    double far = 0;
    if (kind == 1) { p.x += far = 1000; }
    const std::string frame = kind == 2 ? r.pick(std::vector<std::string>{"odom", "", "base_link", "Map", "map2", "/map"}) : "map";
    if (kind == 3) f.odom_ok = false;
    const bool exact = pf && exact_particles;
    const double cx = exact ? 0 : std::pow(10, r.uni(-4, 0)), cy = exact ? 0 : std::pow(10, r.uni(-4, 0)), ct = exact ? 0 : std::pow(10, r.uni(-4, pf ? -1 : 0));
    auto m = pose_msg(p, frame, cx, cy, ct);
    m->pose.covariance[1] = 0.0;
    note("pose " + std::string(kind == 1 ? "far" : kind == 2 ? "frame" : kind == 3 ? "no transform" : "good"));
    const long cl = clouds;
    const Dump before = g;
    if (before.s.size() < 1000) tied_elsewhere[before.s.size()] = true;
    run([m] { vstub::bus().deliver<PoseMsg>("initialpose", m); });
    f.odom_ok = true;
    std::vector<Event> ev, bg;
    take_events(ev, bg);
    keep_bg(bg);
    c.count("initial_poses");
    bool ok = frame == "map" && kind != 3 && !(mapping && localized && !pf);
    size_t nearest = 0;
    double best = 1e300, second = 1e300;
    for (size_t i = 0; i < before.s.size(); ++i)
    {
      const Pose q = reference(before.s[i], k.bary);
      const double d = std::hypot(q.x - p.x, q.y - p.y);
      if (d < best) { second = best; best = d; nearest = i; } else if (d < second) second = d;
    }
    if (mapping && !pf && ok)
    {
      // How far is within reach is for the graph to say
      const double reach = 10.0;
      if (std::fabs(best - reach) < 1e-6) { over = true; return; }
      if (best > reach) ok = false;
    }
    const Dump after = dump();
    if (!ok)
    {
      chk("C27", before.diff(after).empty(), "refused initial pose changed the map", "%s", before.diff(after).c_str());
      chk("C27", clouds == cl, "refused initial pose published particles", "n");
      c.count("poses_refused");
      return;
    }
    if (pf)
    {
      chk("C27", clouds > cl, "initial pose did not reset the particles", "n");
      Pose mean;
      if (over || !cloud_mean(mean)) return;
      if (exact_particles) chk("C27", near(mean, p, 1e-3), "particles not at the initial pose", "%s, expected %s", str(mean).c_str(), str(p).c_str());
      else spread(p, {cx, cy, ct});
      expect_map(before, "C26 C27", "initial pose changed the map while localizing");
    }
    else if (mapping)
    {
      if (!chk("C24 C27", after.s.size() == before.s.size() + 1 && after.c.size() == before.c.size() + 1, "initial pose not tied to the map", "%zu scans and %zu constraints before, %zu and %zu after", before.s.size(), before.c.size(), after.s.size(), after.c.size())) return;
      for (size_t i = 0; i < before.s.size(); ++i) if (!chk("C27", same(before.s[i], after.s[i]), "initial pose changed earlier scans", "scan %zu", i)) return;
      for (size_t i = 0; i < before.c.size(); ++i) if (!chk("C27", same(before.c[i], after.c[i]), "initial pose changed earlier constraints", "constraint %zu", i)) return;
      const auto & s = after.s.back();
      const auto & q = after.c.back();
      chk("C24 C27", s.id == before.s.size(), "identifier of the initial pose's scan", "%zu at %zu", s.id, before.s.size());
      chk("C27", near(s.p, p, 1e-9 * (1 + std::fabs(p.x) + std::fabs(p.y))), "pose of the initial pose's scan", "%s, expected %s", str(s.p).c_str(), str(p).c_str());
      if (over) return;
      if (second - best > 1e-9) chk("C24 C27", q.b == nearest && q.e == before.s.size() && !q.sw, "initial pose tied to the wrong scan", "%zu->%zu, nearest is %zu", q.b, q.e, nearest);
      if (over) return;
      Eigen::Matrix3d cov = Eigen::Vector3d(cx, cy, ct).asDiagonal();
      check_con("C24 C27", q, before.s[q.b].p, s.p, cov);
      g = after;
      changed = true;
    }
    else expect_map(before, "C26 C27", "initial pose changed the map while localizing");
    if (over) return;
    localized = true;
    prev_robot = p;
    prev_odom = odom;
    events.push_back({p, odom});
    c.count("poses_accepted");
  }

  // Which files exist is up to the caller.
  void configure(int action, const std::string & file)
  {
    if (over) return;
    note(fmt("configure(%d, %s)", action, file.c_str()));
    auto q = std::make_shared<Conf::Request>();
    q->action = action;
    q->filename = file;
    const Dump before = g;
    const bool load = action & Conf::Request::LOAD_FROM_FILE, save = !load && (action & Conf::Request::SAVE_TO_FILE);
    const bool exists = vstub::g_bags.count(file), readable = exists && !corrupt.count(file);
    const auto bags = vstub::g_bags;
    const long cl = clouds;
    bool threw = false;
    try { call(q); } catch (const std::exception & e) { threw = true; chk("C27", false, "request ends the node", "action %d with file %s: %s", action, file.c_str(), e.what()); }
    if (threw) return;
    std::vector<Event> ev, bg;
    take_events(ev, bg);
    keep_bg(bg);
    c.count("requests");
    if (action & Conf::Request::ENABLE_MAPPING) mapping = !pf;
    else if (action & Conf::Request::DISABLE_MAPPING) { mapping = false; localized = false; }
    if (save)
    {
      if (exists) { chk("C27", same_bags(bags, vstub::g_bags), "failed save changed a file", "%s", file.c_str()); c.count("failed_saves"); }
      else
      {
        if (!chk("C27", vstub::g_bags.count(file), "save wrote nothing", "%s", file.c_str())) return;
        Dump d;
        { vt::Guard gd; d = Dump(ndt_2d::Graph(true, file)); }
        chk("C27", before.diff(d).empty(), "save wrote another graph", "%s", before.diff(d).c_str());
      }
    }
    else chk("C27", same_bags(bags, vstub::g_bags), "request changed files", "%s", file.c_str());
    Dump want = before;
    if (load && exists && !readable) c.count("failed_loads");
    if (load && readable)
    {
      { vt::Guard gd; try { want = Dump(ndt_2d::Graph(true, file)); } catch (const std::exception &) { chk("C27", false, "unexpected", "n"); return; } }
      localized = false;
      processed = 0;
      opt_last = 0;
      typical = -0.5;
      may_opt = false;
      changed = true;
      c.count("loads");
    }
    const Dump after = dump();
    chk("C27", want.diff(after).empty(), load && readable ? "loaded another graph" : "request changed the graph", "%s", want.diff(after).c_str());
    chk("C27", clouds == cl, "request published particles", "n");
    g = want;
  }

  static bool same_bags(const std::map<std::string, std::vector<vstub::BagMsg>> & a, const std::map<std::string, std::vector<vstub::BagMsg>> & b)
  {
    if (a.size() != b.size()) return false;
    for (auto & [n, v] : a)
    {
      auto i = b.find(n);
      if (i == b.end() || i->second.size() != v.size()) return false;
      for (size_t j = 0; j < v.size(); ++j) if (v[j].data != i->second[j].data || v[j].topic != i->second[j].topic) return false;
    }
    return true;
  }

  // Virtual time goes on; what the loop-closure thread did is compared with the model.
  void advance(double s)
  {
    if (over) return;
    note(fmt("wait %.2f s", s));
    const size_t tf0 = tfs.size();
    vt::advance(static_cast<int64_t>(s * 1e9), r);
    std::vector<Event> ev, bg;
    take_events(ev, bg);
    keep_bg(bg);
    loops(s >= 2);
    if (over) return;
    for (size_t i = tf0; i < tfs.size(); ++i) if (!check_tf(tfs[i], events.size() - 1)) return;
    if (!chk("C23", stale_tf.empty(), "stamp of a transform", "%s", stale_tf.c_str())) return;
    if (s >= 0.5 && !g.s.empty()) chk("C23", tfs.size() > tf0, "no transform published", "in %.2f s", s);
    if (s >= 0.5 && g.s.empty()) chk("C23", tfs.size() == tf0 || true, "transform for an empty map", "n");
  }
  // Transforms published since belong to one of the events from this one on
  bool check_tf(const geometry_msgs::msg::TransformStamped & t, size_t from)
  {
    const Pose p = pose(t);
    c.count("transforms");
    if (!chk("C23 C29", finite(p), "transform not finite", "%s", str(p).c_str())) return false;
    chk("C23", t.header.frame_id == "map" && t.child_frame_id == k.odom, "frames of the transform", "%s -> %s", t.header.frame_id.c_str(), t.child_frame_id.c_str());
    if (loose_event && !pf) return true;
    std::string all;
    for (size_t i = from; i < events.size(); ++i)
    {
      const Pose e = mul(events[i].first, inv(events[i].second));
      const double tol = (pf ? 2e-6 : 1e-8) * (1 + std::hypot(events[i].second.x, events[i].second.y) + std::hypot(e.x, e.y));
      if (near(p, e, tol)) return true;
      all += str(e) + " ";
    }
    return chk("C23 C27", false, "transform is not that of a localization event", "%s, expected %s", str(p).c_str(), all.c_str());
  }

  // What the loop-closure thread did since the last call.
  void loops(bool complete)
  {
    std::vector<Event> main, bg;
    take_events(main, bg);
    keep_bg(bg);
    bg.clear();
    bg.swap(pending_bg);
    if (!bg.empty() && !chk("C25 C26", mapping && !pf, "loop closure while not mapping", "%zu matches", bg.size())) return;
    const size_t n = g.s.size();
    size_t at = 0;
    int accepted = 0;
    Dump want = g;
    const bool eligible = mapping && !pf && have_laser && n > static_cast<size_t>(k.depth);
    if (eligible && (complete || !bg.empty()))
    {
      if (processed <= static_cast<size_t>(k.depth)) processed = k.depth + 1;
      size_t considered = 0;
      for (size_t s = processed; s < n; ++s, ++considered)
      {
        const size_t rolling = s - k.depth;
        const Pose ref = reference(want.s[s], k.bary);
        std::vector<std::pair<double, size_t>> cand;
        for (size_t j = 0; j < rolling; ++j)
        {
          const Pose q = reference(want.s[j], k.bary);
          const double d = std::hypot(q.x - ref.x, q.y - ref.y);
          if (std::fabs(d - k.search) < 1e-9) { over = true; c.count("too_close_to_call"); return; }
          if (d < k.search) cand.push_back({d, j});
        }
        std::sort(cand.begin(), cand.end());
        for (size_t j = 1; j < cand.size(); ++j) if (cand[j].first - cand[j - 1].first < 1e-9) { over = true; c.count("too_close_to_call"); return; }
        int left = k.limit;
        for (auto & [d, i] : cand)
        {
          if (left == 0) break;
          if (want.s[i].pts.empty()) { c.count("candidates_without_points"); continue; }
          if (!chk("C25", at < bg.size(), "candidate not matched", "scan %zu with candidate %zu (distance %g of %g, rolling window from %zu, %d left)", s, i, d, k.search, rolling, left)) return;
          const Event & e = bg[at++];
          if (!chk("C25", e.kind == 'm' && e.scan.id == s, "wrong scan considered", "scan %zu, expected %zu with candidate %zu", e.scan.id, s, i)) return;
          if (!chk("C25", near(e.scan.p, want.s[s].p, 1e-6 * (1 + std::fabs(want.s[s].p.x) + std::fabs(want.s[s].p.y))), "scan matched at another pose", "%s, expected %s", str(e.scan.p).c_str(), str(want.s[s].p).c_str())) return;
          if (!region(e, i, rolling, want)) return;
          ++matches;
          if (std::isfinite(e.score) && e.score < typical)
          {
            ++accepted;
            ++closures;
            want.s[s].p = plus(want.s[s].p, e.corr);
            ConRec q;
            q.b = i; q.e = s; q.sw = true;
            relative(want.s[i].p, want.s[s].p, q.t);
            const Eigen::Matrix3d info = e.cov.inverse();
            for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) q.info[3 * a + b] = info(a, b);
            want.c.push_back(q);
          }
          else ++rejections;
          --left;
        }
      }
      if (considered) { c.count("scans_considered", considered); processed = n; }
    }
    if (at < bg.size())
    {
      chk("C25", false, "match not expected", "%zu matches, expected %zu; the next is scan %zu against %s", bg.size(), at, bg[at].scan.id, ids(bg[at]).c_str());
      return;
    }
    const Dump after = dump();
    if (accepted || may_opt || !bg.empty())
    {
      if (!chk("C25", after.s.size() == want.s.size() && after.c.size() == want.c.size(), accepted ? "constraints of loop closures" : "graph changed without loop closure", "%zu scans and %zu constraints, expected %zu and %zu", after.s.size(), after.c.size(), want.s.size(), want.c.size())) return;
      for (size_t i = 0; i < want.c.size(); ++i)
        if (!chk("C25", con_near(after.c[i], want.c[i], i < g.c.size()), "constraint of a loop closure", "constraint %zu: %zu->%zu%s, expected %zu->%zu%s", i, after.c[i].b, after.c[i].e, after.c[i].sw ? " switchable" : "", want.c[i].b, want.c[i].e, want.c[i].sw ? " switchable" : "")) return;
      const bool enough = n > opt_last && n - opt_last > static_cast<size_t>(k.opt);
      const bool must = accepted > 0 && enough, may = must || (enough && may_opt);
      if (accepted) may_opt = true;
      std::string d_plain, d_opt;
      const bool plain = poses_near(after, want, 1e-6, d_plain);
      bool opt = false;
      if (may)
      {
        Dump o = want;
        if (optimize(o)) opt = poses_near(after, o, 2e-3, d_opt);
        else opt = plain;
      }
      if (!chk("C25", opt || plain, may ? "poses are neither those of closures nor of optimization" : "poses after loop closure (no optimization due)", "%s; %s", d_plain.c_str(), d_opt.c_str())) return;
      if (must && !chk("C25", opt, "no optimization though due", "%zu scans, last optimized with %zu, limit %d; %s", n, opt_last, k.opt, d_opt.c_str())) return;
      if (may && opt && (must || !plain)) { opt_last = n; may_opt = false; c.count("optimizations"); optimized = true; }
      changed = changed || accepted || optimized;
    }
    else if (!chk(mapping ? "C25 C28" : "C26", g.diff(after).empty(), "the map changed by itself", "%s", g.diff(after).c_str())) return;
    g = after;
  }

  // Publications have caught up with the map.
  void published()
  {
    if (over || !changed) return;
    for (int round = 0; ; ++round)
    {
      std::string d;
      if (current(d)) { c.count("publications_compared"); return; }
      if (round == 1) { chk("C28", false, "publication lags behind the map", "%s (%zu scans, %zu constraints)", d.c_str(), g.s.size(), g.c.size()); return; }
      // one more cycle for a change of the loop-closure thread just now
      advance(0.5);
      if (over) return;
    }
  }
  bool current(std::string & d)
  {
    vt::Guard gd;
    if (!stale_map.empty()) { d = stale_map; return false; }
    if (!vstub::bus().latched["map"]) { d = "a viewer that starts later is not given the occupancy map"; return false; }
    if (!maps || !graphs) { d = "nothing published"; return false; }
    auto gr = g.graph(k.bary);
    ndt_2d::OccupancyGrid og(k.resolution, k.thresh);
    nav_msgs::msg::OccupancyGrid m;
    og.getMsg(gr->scans, m);
    if (map_msg.header.frame_id != "map" || graph_frame() != "map") { d = "frame"; return false; }
    if (m.info.width != map_msg.info.width || m.info.height != map_msg.info.height || m.data != map_msg.data ||
        !same(m.info.origin.position.x, map_msg.info.origin.position.x) || !same(m.info.origin.position.y, map_msg.info.origin.position.y))
    { d = "occupancy map"; return false; }
    visualization_msgs::msg::MarkerArray a;
    rclcpp::Time t;
    gr->getMsg(a, t);
    if (a.markers.size() != graph_msg.markers.size()) { d = fmt("graph: %zu markers, expected %zu", graph_msg.markers.size(), a.markers.size()); return false; }
    for (size_t i = 0; i < a.markers.size(); ++i)
    {
      auto & p = a.markers[i]; auto & q = graph_msg.markers[i];
      bool ok = p.ns == q.ns && p.id == q.id && same(p.pose.position.x, q.pose.position.x) && same(p.pose.position.y, q.pose.position.y) && p.points.size() == q.points.size();
      for (size_t j = 0; ok && j < p.points.size(); ++j) ok = same(p.points[j].x, q.points[j].x) && same(p.points[j].y, q.points[j].y);
      if (!ok) { d = fmt("graph: marker %zu", i); return false; }
    }
    return true;
  }
  // Stamps are those of the publication (a transform may be dated ahead, for tolerance)
  template <class T> static void timely(const T & stamp, std::string & out)
  {
    const double age = static_cast<double>(vstub::g_now.load(std::memory_order_relaxed) - rclcpp::Time(stamp).nanoseconds()) * 1e-9;
    if (age > 0.6 || age < -1.5) out = fmt("stamped %.2f s before its publication", age);
  }
  std::string graph_frame() const { return graph_msg.markers.empty() ? "map" : graph_msg.markers[0].header.frame_id; }

  // ------------------------------------------------------------ parts of the model
  static Pose plus(const Pose & a, const Pose & b) { return {a.x + b.x, a.y + b.y, a.th + b.th}; }
  static void relative(const Pose & a, const Pose & b, double t[3])
  {
    const V2 p = unapply(a.x, a.y, a.th, b.x, b.y);
    t[0] = p.x; t[1] = p.y; t[2] = b.th - a.th;
  }
  void check_con(const char * ids, const ConRec & q, const Pose & a, const Pose & b, const Eigen::Matrix3d & cov)
  {
    double t[3];
    relative(a, b, t);
    const double tol = 1e-9 * (1 + std::fabs(a.x) + std::fabs(a.y) + std::fabs(b.x) + std::fabs(b.y));
    chk(ids, std::fabs(q.t[0] - t[0]) <= tol && std::fabs(q.t[1] - t[1]) <= tol && std::fabs(adiff(q.t[2], t[2])) <= tol, "constraint is not the relative pose", "(%g, %g, %g), expected (%g, %g, %g)", q.t[0], q.t[1], q.t[2], t[0], t[1], t[2]);
    const Eigen::Matrix3d info = cov.inverse();
    const double big = info.cwiseAbs().maxCoeff();
    for (int i = 0; i < 9; ++i)
      if (!chk(ids, std::fabs(q.info[i] - info(i / 3, i % 3)) <= 1e-5 * big, "information is not the inverse covariance", "entry %d: %g, expected %g", i, q.info[i], info(i / 3, i % 3))) return;
  }
  static bool con_near(const ConRec & a, const ConRec & b, bool exact)
  {
    if (exact) return mw::same(a, b);
    if (a.b != b.b || a.e != b.e || a.sw != b.sw) return false;
    if (std::fabs(a.t[0] - b.t[0]) > 1e-6 || std::fabs(a.t[1] - b.t[1]) > 1e-6 || std::fabs(adiff(a.t[2], b.t[2])) > 1e-6) return false;
    double big = 0;
    for (int i = 0; i < 9; ++i) big = std::max(big, std::fabs(b.info[i]));
    for (int i = 0; i < 9; ++i) if (!(std::fabs(a.info[i] - b.info[i]) <= 1e-5 * big)) return false;
    return true;
  }
  bool poses_near(const Dump & a, const Dump & b, double tol, std::string & d) const
  {
    for (size_t i = 0; i < a.s.size(); ++i)
    {
      if (a.s[i].id != b.s[i].id || !same(a.s[i].pts, b.s[i].pts)) { d = fmt("scan %zu replaced", i); return false; }
      if (!near(a.s[i].p, b.s[i].p, tol * (1 + std::fabs(b.s[i].p.x) + std::fabs(b.s[i].p.y)))) { d = fmt("scan %zu at %s, expected %s", i, str(a.s[i].p).c_str(), str(b.s[i].p).c_str()); return false; }
    }
    return true;
  }
  bool optimize(Dump & d) const
  {
    vt::Guard gd;
    auto gr = d.graph(k.bary);
    ndt_2d::CeresSolver s;
    if (!s.optimize(gr->constraints, gr->scans)) return false;
    d = Dump(*gr);
    return true;
  }
  std::string ids(const Event & e) const
  {
    std::string s;
    if (e.map) for (auto & x : *e.map) s += (s.empty() ? "" : " ") + std::to_string(x.id);
    return "{" + s + "}";
  }
  bool region(const Event & e, size_t i, size_t rolling, const Dump & want)
  {
    std::set<size_t> have, need{i};
    if (i > 0) need.insert(i - 1);
    if (i + 1 < rolling) need.insert(i + 1);
    if (e.map) for (auto & x : *e.map) have.insert(x.id);
    bool ok = e.map && have.size() == e.map->size() && have == need;
    if (!chk("C25", ok, "region of a candidate", "scan %zu matched against %s, expected candidate %zu and its neighbours (rolling window from %zu)", e.scan.id, ids(e).c_str(), i, rolling)) return false;
    for (auto & x : *e.map)
      if (!chk("C25", same(x.pts, want.s[x.id].pts) && near(x.p, want.s[x.id].p, 1e-6 * (1 + std::fabs(x.p.x) + std::fabs(x.p.y))), "region's scans are not those of the map", "scan %zu at %s, expected %s", x.id, str(x.p).c_str(), str(want.s[x.id].p).c_str())) return false;
    return true;
  }
  bool whole_map(const Event & e, const Dump & want, const char * ids)
  {
    if (!chk(ids, (e.map ? e.map->size() : 0) == want.s.size(), "scan matched against part of the map", "%zu scans, the graph has %zu", e.map ? e.map->size() : 0, want.s.size())) return false;
    for (size_t i = 0; i < want.s.size(); ++i)
      if (!chk(ids, same((*e.map)[i], want.s[i]), "scan matched against another map", "scan %zu at %s, the graph has %zu at %s", (*e.map)[i].id, str((*e.map)[i].p).c_str(), want.s[i].id, str(want.s[i].p).c_str())) return false;
    return true;
  }
  void expect_map(const Dump & want, const char * ids, const char * key)
  {
    const Dump d = dump();
    chk(ids, want.diff(d).empty(), key, "%s", want.diff(d).c_str());
  }
  // The particles are drawn from the distribution given (6.5 standard deviations).
  void spread(const Pose & p, const std::array<double, 3> & var)
  {
    const double n = static_cast<double>(cloud.poses.size());
    if (over || n < 20) return;
    const char * axis[3] = {"x", "y", "heading"};
    for (int a = 0; a < 3; ++a)
    {
      double sum = 0, sq = 0;
      for (auto & q : cloud.poses)
      {
        const double d = a == 0 ? q.position.x - p.x : a == 1 ? q.position.y - p.y : vh::adiff(2 * std::atan2(q.orientation.z, q.orientation.w), p.th);
        sum += d; sq += d * d;
      }
      const double h = std::sqrt(2 / (9 * n)), lo = std::max(0.0, std::pow(std::max(0.0, 1 - h * h - 6.5 * h), 3)), hi = std::pow(1 - h * h + 6.5 * h, 3);
      if (!chk("C27", std::fabs(sum / n) < 6.5 * std::sqrt(var[a] / n) + 1e-4, "particles not about the initial pose", "%s: %g off for a variance of %g, %g particles", axis[a], sum / n, var[a], n)) return;
      if (!chk("C27", sq / n > lo * var[a] * 0.98 - 1e-7 && sq / n < hi * var[a] * 1.02 + 1e-7, "particles do not have the given covariance", "%s: mean square %g for a variance of %g, %g particles", axis[a], sq / n, var[a], n)) return;
    }
    c.count("spreads_compared");
  }
  bool cloud_mean(Pose & m)
  {
    long double x = 0, y = 0, s = 0, co = 0;
    if (!chk("C26 C29", !cloud.poses.empty(), "no particles", "n")) return false;
    for (auto & p : cloud.poses)
    {
      const double th = 2 * std::atan2(p.orientation.z, p.orientation.w);
      if (!chk("C29 C26", std::isfinite(p.position.x) && std::isfinite(p.position.y) && std::isfinite(th), "particle not finite", "(%g, %g, %g)", p.position.x, p.position.y, th)) return false;
      x += p.position.x; y += p.position.y; s += std::sin(th); co += std::cos(th);
    }
    m = {static_cast<double>(x / cloud.poses.size()), static_cast<double>(y / cloud.poses.size()), static_cast<double>(atan2l(s, co))};
    return true;
  }
  void keep_bg(std::vector<Event> & b) { for (auto & e : b) pending_bg.push_back(e); }

  vh::Case & c;
  Rng & r;
  Config k;
  Frames f;
  Pose odom;
  Pose vel;                   // in the odometry frame, after the start of the scan
  int64_t scan_at = std::numeric_limits<int64_t>::max();
  Pose moving_by(const Pose & p, double t) const { return {p.x + vel.x * t, p.y + vel.y * t, std::remainder(p.th + vel.th * t, 2 * M_PI)}; }
  std::shared_ptr<Mapper> node;
  // captures
  nav_msgs::msg::OccupancyGrid map_msg;
  visualization_msgs::msg::MarkerArray graph_msg;
  std::function<void(const visualization_msgs::msg::MarkerArray &)> on_graph;
  geometry_msgs::msg::PoseArray cloud;
  std::vector<geometry_msgs::msg::TransformStamped> tfs;
  long maps = 0, graphs = 0, clouds = 0;
  std::string stale_map, stale_tf;
  std::set<std::string> corrupt;   // files that cannot be read to the end
  // model
  Dump g;
  bool mapping = true, localized = true, pf = false, have_laser = false, faults = false, exact_particles = true;
  bool over = false, changed = false, loose_event = false, may_opt = false, optimized = false, in_pause = false, in_callback = false;
  Pose prev_odom, prev_robot;
  std::vector<std::pair<Pose, Pose>> events;
  size_t processed = 0, opt_last = 0;
  double typical = -0.5;
  long matches = 0, closures = 0, rejections = 0;
  std::vector<Event> pending_bg;
  std::atomic<bool> tied_elsewhere[1000] = {};   // scans of initial poses (perhaps)
  std::vector<std::string> hist;
  // verdicts are kept for a comparison instead
  bool capture = false;
  std::string first_key, first_msg;
  double fault_rate = 0.1;
  std::function<void()> on_closure;     // while the loop closure matches a scan
};

// Scores and corrections of matches: those of new scans wander, those of loop closures are clear-cut.
void play(Sim & s, double wild)
{
  Sim * p = &s;
  auto rng = std::make_shared<Rng>(s.r.next());
  if (rng->chance(0.5)) s.vel = {rng->uni(-3, 3), rng->uni(-3, 3), rng->chance(0.5) ? 0 : rng->uni(-2, 2)};
  ctl().script = [p, rng, wild](Event & e) {
    Rng & r = *rng;
    e.corr = {r.uni(-0.05, 0.05), r.uni(-0.05, 0.05), r.uni(-0.05, 0.05)};
    e.cov = random_cov(r);
    if (!e.bg)
    {
      e.score = r.uni(-1, -0.05);
      if (e.scan.pts.empty()) e.score = r.chance(0.5) ? 0.0 : std::numeric_limits<double>::quiet_NaN();
      else if (r.chance(wild)) e.score = r.pick(std::vector<double>{NAN, -INFINITY, INFINITY, 0.0, -1.0});
      return;
    }
    if (p->on_closure) p->on_closure();
    switch (r.range(0, 9))
    {
      case 0: e.score = NAN; break;
      case 1: e.score = -INFINITY; break;
      case 2: e.score = INFINITY; break;
      case 3: case 4: e.score = p->typical + r.uni(0.001, 0.3); break;
      default: e.score = p->typical - (r.chance(0.2) ? r.uni(0.3, 1.5) : r.uni(0.001, 0.3)); break;
    }
  };
}

void seed_map(Rng & r, const std::string & file, int scans, double extent)
{
  Dump d;
  for (int i = 0; i < scans; ++i)
  {
    ScanRec s;
    s.id = i;
    s.p = {r.uni(-extent, extent), r.uni(-extent, extent), r.uni(-3.1, 3.1)};
    const int n = r.chance(0.1) ? 0 : static_cast<int>(r.range(1, 8));
    for (int j = 0; j < n; ++j) s.pts.push_back({r.uni(-5, 5), r.uni(-5, 5)});
    d.s.push_back(s);
  }
  for (int i = 1; i < scans; ++i)
  {
    ConRec q;
    q.b = i - 1; q.e = i;
    Sim::relative(d.s[i - 1].p, d.s[i].p, q.t);
    for (int j = 0; j < 9; ++j) q.info[j] = j % 4 == 0 ? 10 : 0;
    d.c.push_back(q);
  }
  d.graph(true)->save(file);
}

Config random_config(Rng & r)
{
  Config k;
  k.depth = static_cast<int>(r.pick(std::vector<int>{1, 2, 3, 5, 7, 10, 11, 13, 20}));
  k.limit = static_cast<int>(r.chance(0.1) ? r.range(6, 30) : r.chance(0.05) ? 0 : r.range(1, 5));
  k.opt = static_cast<int>(r.pick(std::vector<int>{0, 1, 2, 5, 10, 25}));
  k.search = r.pick(std::vector<double>{0.2, 1, 3, 10});
  k.min_d = r.pick(std::vector<double>{0.1, 0.3, 0.02});
  k.min_r = r.pick(std::vector<double>{1.0, 0.2, 2.5});
  k.bary = r.chance(0.5);
  if (r.chance(0.3)) { k.odom = "odom2"; k.base = "robot"; }
  return k;
}

void finish(Sim & s, vh::Case & c, long events)
{
  if (events)
  {
    Hash h;
    h.add(events).add(s.g.s.size()).add(s.g.c.size());
    for (auto & x : s.g.s) h.add(x.p.x).add(x.p.y);
    for (auto & e : s.events) h.add(e.first.x).add(e.second.x);
    c.distinct(h.h);
  }
  c.count("pause_points_passed", vt::w().points);
  vt::w().points = 0;
  if (c.index < 16) c.sample(fmt("depth %d, limit %d, search %g, %zu scans, %zu constraints, %ld closures: ", s.k.depth, s.k.limit, s.k.search, s.g.s.size(), s.g.c.size(), s.closures) + s.tail());
}

int points(Rng & r) { return static_cast<int>(r.range(2, 10)); }

}  // namespace

