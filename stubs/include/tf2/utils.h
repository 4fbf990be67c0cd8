#pragma once
#include <cmath>
#include <geometry_msgs/msg/quaternion.hpp>
#include <tf2/exceptions.h>
#include <tf2/time.h>
namespace tf2
{
// As tf2::impl::getYaw (normalising, gimbal-lock aware)
inline double getYaw(const geometry_msgs::msg::Quaternion & q)
{
  const double sqx = q.x * q.x, sqy = q.y * q.y, sqz = q.z * q.z, sqw = q.w * q.w;
  const double sarg = -2 * (q.x * q.z - q.w * q.y) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) return -2 * std::atan2(q.y, q.x);
  if (sarg >= 0.99999) return 2 * std::atan2(q.y, q.x);
  return std::atan2(2 * (q.x * q.y + q.w * q.z), sqw + sqx - sqy - sqz);
}
}
