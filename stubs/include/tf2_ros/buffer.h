#pragma once
#include <memory>
#include <string>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <rclcpp/rclcpp.hpp>
#include <tf2/exceptions.h>
#include <tf2/time.h>
namespace tf2_ros
{
class Buffer
{
public:
  explicit Buffer(rclcpp::Clock::SharedPtr, tf2::Duration = tf2::Duration(0)) {}

  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source,
                                                       const tf2::TimePoint & t,
                                                       const tf2::Duration d = tf2::Duration(0)) const
  {
    return lookup(target, source, t.time_since_epoch().count(), ns(d));
  }
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source,
                                                       const rclcpp::Time & t,
                                                       const rclcpp::Duration d = rclcpp::Duration()) const
  {
    return lookup(target, source, t.nanoseconds(), d.nanoseconds());
  }
  void setUsingDedicatedThread(bool) {}
  bool canTransform(const std::string & target, const std::string & source, const rclcpp::Time & t,
                    const rclcpp::Duration d = rclcpp::Duration(), std::string * = nullptr) const
  {
    try { lookup(target, source, t.nanoseconds(), d.nanoseconds()); } catch (const tf2::TransformException &) { return false; }
    return true;
  }
  bool canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t,
                    const tf2::Duration d = tf2::Duration(0), std::string * = nullptr) const
  {
    try { lookup(target, source, t.time_since_epoch().count(), ns(d)); } catch (const tf2::TransformException &) { return false; }
    return true;
  }

  geometry_msgs::msg::PoseStamped & transform(const geometry_msgs::msg::PoseStamped & in,
                                              geometry_msgs::msg::PoseStamped & out, const std::string & target,
                                              tf2::Duration d = tf2::Duration(0)) const
  {
    const geometry_msgs::msg::PoseStamped src = in;
    const auto t = lookup(target, src.header.frame_id, rclcpp::Time(src.header.stamp).nanoseconds(), ns(d));
    const auto & a = t.transform.rotation;
    const auto & p = src.pose.position;
    const auto & b = src.pose.orientation;
    out.header = t.header;
    // rotate p by a
    const double tx = 2 * (a.y * p.z - a.z * p.y), ty = 2 * (a.z * p.x - a.x * p.z), tz = 2 * (a.x * p.y - a.y * p.x);
    out.pose.position.x = p.x + a.w * tx + (a.y * tz - a.z * ty) + t.transform.translation.x;
    out.pose.position.y = p.y + a.w * ty + (a.z * tx - a.x * tz) + t.transform.translation.y;
    out.pose.position.z = p.z + a.w * tz + (a.x * ty - a.y * tx) + t.transform.translation.z;
    geometry_msgs::msg::Quaternion q;
    q.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
    q.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
    q.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x;
    q.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w;
    out.pose.orientation = q;
    return out;
  }
  geometry_msgs::msg::PoseStamped transform(const geometry_msgs::msg::PoseStamped & in, const std::string & target,
                                            tf2::Duration d = tf2::Duration(0)) const
  {
    geometry_msgs::msg::PoseStamped out;
    return transform(in, out, target, d);
  }

private:
  static int64_t ns(tf2::Duration d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
  geometry_msgs::msg::TransformStamped lookup(const std::string & target, const std::string & source, int64_t ns, int64_t timeout) const
  {
    vstub::yield("tf");
    vstub::Rigid r;
    if (!vstub::g_tf || !vstub::tf_in_time(target, source, ns, timeout) || !vstub::g_tf(target, source, ns, r))
    {
      throw tf2::LookupException("no transform from " + source + " to " + target);
    }
    geometry_msgs::msg::TransformStamped t;
    t.header.frame_id = target;
    t.header.stamp = rclcpp::Time(ns);
    t.child_frame_id = source;
    t.transform.translation.x = r.x; t.transform.translation.y = r.y; t.transform.translation.z = r.z;
    t.transform.rotation.x = r.qx; t.transform.rotation.y = r.qy;
    t.transform.rotation.z = r.qz; t.transform.rotation.w = r.qw;
    return t;
  }
};
}
