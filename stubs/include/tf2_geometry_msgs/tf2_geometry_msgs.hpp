#pragma once
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <tf2/LinearMath/Quaternion.h>
#include <tf2/utils.h>
namespace tf2
{
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q)
{
  geometry_msgs::msg::Quaternion m;
  m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w();
  return m;
}
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Quaternion & q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline double getYaw(const Quaternion & q) { return getYaw(toMsg(q)); }
}
