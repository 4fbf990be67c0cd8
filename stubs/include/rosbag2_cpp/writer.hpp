#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <rclcpp/rclcpp.hpp>
#include <rclcpp/serialized_message.hpp>
#include <vstub/vstub.hpp>
namespace rosbag2_cpp
{
class Writer
{
public:
  void open(const std::string & uri)
  {
    if (vstub::g_bags.count(uri)) throw std::runtime_error("Bag directory already exists (" + uri + ")");
    vstub::g_bags[uri];
    uri_ = uri;
  }
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type,
             const rclcpp::Time &)
  {
    if (uri_.empty()) throw std::runtime_error("Bag is not open. Call open() before writing.");
    vstub::g_bags[uri_].push_back({topic, type, m->bytes});
  }
  void close() { uri_.clear(); }
private:
  std::string uri_;
};
}
