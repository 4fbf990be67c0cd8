#pragma once
#include <functional>
#include <vector>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <rclcpp/rclcpp.hpp>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  template <class N> explicit TransformBroadcaster(N && , const rclcpp::QoS & = rclcpp::QoS(100))
  {
    auto it = vstub::bus().sinks.find("/tf");
    if (it != vstub::bus().sinks.end())
    {
      sink_ = std::any_cast<std::function<void(const geometry_msgs::msg::TransformStamped &)>>(it->second);
    }
  }
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    vstub::yield("tf_send");
    if (sink_) sink_(t);
    vstub::yield("tf_sent");
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) { for (auto & t : v) sendTransform(t); }
private:
  std::function<void(const geometry_msgs::msg::TransformStamped &)> sink_;
};
}
