// The world around the mapper node: frames, messages, maps, and a matcher that records and plays a script.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <thread>
#include <ndt_2d/ndt_mapper.hpp>
#include <ndt_2d/graph.hpp>
#include <ndt_2d/occupancy_grid.hpp>
#include <ndt_2d/scan_matcher.hpp>
#include <ndt_2d/msg/scan.hpp>
#include <ndt_2d/msg/constraint.hpp>
#include <geometry_msgs/msg/pose_array.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <rosbag2_cpp/reader.hpp>
#include "geom.hpp"

namespace vh { extern std::atomic<uint64_t> g_device_seed; }

namespace mw
{
using vh::V2;
using vh::Rng;

struct Pose { double x = 0, y = 0, th = 0; };
inline Pose mul(const Pose & a, const Pose & b)
{
  const V2 p = vh::apply(a.x, a.y, a.th, b.x, b.y);
  return {p.x, p.y, std::remainder(a.th + b.th, 2 * M_PI)};
}
inline Pose inv(const Pose & a)
{
  const V2 p = vh::unapply(a.x, a.y, a.th, 0, 0);
  return {p.x, p.y, -a.th};
}
inline bool near(const Pose & a, const Pose & b, double tol)
{
  return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(vh::adiff(a.th, b.th)) <= tol;
}
inline std::string str(const Pose & p) { return vh::fmt("(%.9g, %.9g, %.9g)", p.x, p.y, p.th); }
inline bool finite(const Pose & p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.th); }

// ---------------------------------------------------------------- rigid transforms in space
using vstub::Rigid;
inline Rigid rigid(const Pose & p, bool upside_down = false, double z = 0)
{
  Rigid r;
  r.x = p.x; r.y = p.y; r.z = z;
  const double c = std::cos(p.th / 2), s = std::sin(p.th / 2);
  if (upside_down) { r.qw = 0; r.qx = c; r.qy = s; r.qz = 0; }
  else { r.qw = c; r.qx = 0; r.qy = 0; r.qz = s; }
  return r;
}
inline Rigid rinv(const Rigid & a)
{
  Eigen::Quaterniond q(a.qw, a.qx, a.qy, a.qz);
  Eigen::Vector3d t = -(q.conjugate() * Eigen::Vector3d(a.x, a.y, a.z));
  return {t.x(), t.y(), t.z(), -a.qx, -a.qy, -a.qz, a.qw};
}
inline Rigid rmul(const Rigid & a, const Rigid & b)
{
  Eigen::Quaterniond qa(a.qw, a.qx, a.qy, a.qz), qb(b.qw, b.qx, b.qy, b.qz);
  Eigen::Vector3d t = qa * Eigen::Vector3d(b.x, b.y, b.z) + Eigen::Vector3d(a.x, a.y, a.z);
  Eigen::Quaterniond q = qa * qb;
  return {t.x(), t.y(), t.z(), q.x(), q.y(), q.z(), q.w()};
}

struct Frames
{
  std::string odom = "odom", base = "base_link", laser = "laser";
  Pose mount;
  bool inverted = false, negated = false;   // a rotation has two quaternions
  double mount_z = 0.3;
  bool odom_ok = true, laser_ok = true;
  long fail_at = -1, lookups = 0;         // fails the n-th odometry lookup from now on, once
  std::function<Pose(int64_t)> odom_at;   // 0: latest
  bool lookup(const std::string & target, const std::string & source, int64_t ns, Rigid & out)
  {
    if (target == source) { out = Rigid(); return true; }
    int a, b;
    if (!index(target, a) || !index(source, b)) return false;
    const bool need_odom = a == 0 || b == 0, need_laser = a == 2 || b == 2;
    if (need_laser && !laser_ok) return false;
    if (need_odom)
    {
      if (!odom_ok) return false;
      if (fail_at >= 0 && lookups++ == fail_at) { fail_at = -1; return false; }
    }
    out = rmul(rinv(in_odom(a, ns, need_odom)), in_odom(b, ns, need_odom));
    if (negated) { out.qx = -out.qx; out.qy = -out.qy; out.qz = -out.qz; out.qw = -out.qw; }
    return true;
  }
private:
  bool index(const std::string & f, int & i) const
  {
    if (f == odom) i = 0; else if (f == base) i = 1; else if (f == laser) i = 2; else return false;
    return true;
  }
  Rigid in_odom(int i, int64_t ns, bool need) const
  {
    if (i == 0) return Rigid();
    const Rigid b = need ? rigid(odom_at(ns)) : Rigid();
    if (i == 1) return b;
    return rmul(b, rigid(mount, inverted, mount_z));
  }
};

// ---------------------------------------------------------------- maps
struct ScanRec { size_t id = 0; Pose p; std::vector<V2> pts; };
struct ConRec { size_t b = 0, e = 0; double t[3]; double info[9]; bool sw = false; };
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline bool same(const Pose & a, const Pose & b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.th, b.th); }
inline bool same(const std::vector<V2> & a, const std::vector<V2> & b)
{
  return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(V2)));
}
inline bool same(const ScanRec & a, const ScanRec & b) { return a.id == b.id && same(a.p, b.p) && same(a.pts, b.pts); }
inline bool same(const ConRec & a, const ConRec & b)
{
  return a.b == b.b && a.e == b.e && a.sw == b.sw && !memcmp(a.t, b.t, sizeof a.t) && !memcmp(a.info, b.info, sizeof a.info);
}
inline Pose pose(const ndt_2d::Pose2d & p) { return {p.x, p.y, p.theta}; }
inline ScanRec rec(const ndt_2d::ScanPtr & s)
{
  ScanRec r;
  r.id = s->getId();
  r.p = pose(s->getPose());
  for (auto & p : s->getPoints()) r.pts.push_back({p.x, p.y});
  return r;
}
inline ConRec rec(const ndt_2d::ConstraintPtr & c)
{
  ConRec r;
  r.b = c->begin; r.e = c->end; r.sw = c->switchable;
  for (int i = 0; i < 3; ++i) { r.t[i] = c->transform(i); for (int j = 0; j < 3; ++j) r.info[3 * i + j] = c->information(i, j); }
  return r;
}
inline ndt_2d::ScanPtr scan(const ScanRec & r) { return vh::mkscan(r.id, r.p.x, r.p.y, r.p.th, r.pts); }
inline ndt_2d::ConstraintPtr con(const ConRec & r)
{
  auto c = std::make_shared<ndt_2d::Constraint>();
  c->begin = r.b; c->end = r.e; c->switchable = r.sw;
  for (int i = 0; i < 3; ++i) { c->transform(i) = r.t[i]; for (int j = 0; j < 3; ++j) c->information(i, j) = r.info[3 * i + j]; }
  return c;
}
struct Dump
{
  std::vector<ScanRec> s;
  std::vector<ConRec> c;
  Dump() {}
  explicit Dump(const ndt_2d::Graph & g)
  {
    for (auto & x : g.scans) s.push_back(rec(x));
    for (auto & x : g.constraints) c.push_back(rec(x));
  }
  std::shared_ptr<ndt_2d::Graph> graph(bool barycenter) const
  {
    auto g = std::make_shared<ndt_2d::Graph>(barycenter);
    for (auto & x : s) g->scans.push_back(scan(x));
    for (auto & x : c) g->constraints.push_back(con(x));
    return g;
  }
  std::string diff(const Dump & o) const
  {
    if (s.size() != o.s.size()) return vh::fmt("%zu scans became %zu", s.size(), o.s.size());
    if (c.size() != o.c.size()) return vh::fmt("%zu constraints became %zu", c.size(), o.c.size());
    for (size_t i = 0; i < s.size(); ++i)
    {
      if (s[i].id != o.s[i].id) return vh::fmt("identifier of scan %zu: %zu became %zu", i, s[i].id, o.s[i].id);
      if (!same(s[i].p, o.s[i].p)) return vh::fmt("pose of scan %zu: %s became %s", i, str(s[i].p).c_str(), str(o.s[i].p).c_str());
      if (!same(s[i].pts, o.s[i].pts)) return vh::fmt("points of scan %zu (%zu, then %zu)", i, s[i].pts.size(), o.s[i].pts.size());
    }
    for (size_t i = 0; i < c.size(); ++i)
      if (!same(c[i], o.c[i])) return vh::fmt("constraint %zu: %zu->%zu became %zu->%zu", i, c[i].b, c[i].e, o.c[i].b, o.c[i].e);
    return "";
  }
};
inline Pose reference(const ScanRec & s, bool barycenter)
{
  if (!barycenter || s.pts.empty()) return s.p;
  long double x = 0, y = 0;
  for (auto & p : s.pts) { const V2 q = vh::apply(0, 0, s.p.th, p.x, p.y); x += q.x; y += q.y; }
  return {static_cast<double>(s.p.x + x / s.pts.size()), static_cast<double>(s.p.y + y / s.pts.size()), s.p.th};
}

// ---------------------------------------------------------------- messages
inline std::shared_ptr<geometry_msgs::msg::PoseWithCovarianceStamped> pose_msg(const Pose & p, const std::string & frame, double cx, double cy, double cth)
{
  auto m = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>();
  m->header.frame_id = frame;
  m->header.stamp = rclcpp::Time(vstub::g_now.load(std::memory_order_relaxed));
  m->pose.pose.position.x = p.x;
  m->pose.pose.position.y = p.y;
  m->pose.pose.orientation.z = std::sin(p.th / 2);
  m->pose.pose.orientation.w = std::cos(p.th / 2);
  m->pose.covariance[0] = cx;
  m->pose.covariance[7] = cy;
  m->pose.covariance[35] = cth;
  return m;
}
inline Pose pose(const geometry_msgs::msg::TransformStamped & t)
{
  return {t.transform.translation.x, t.transform.translation.y,
          2 * std::atan2(t.transform.rotation.z, t.transform.rotation.w)};
}

}  // namespace mw
