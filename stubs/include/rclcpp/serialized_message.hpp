#pragma once
#include <cstdint>
#include <memory>
#include <vector>
struct rcutils_uint8_array_t { std::vector<uint8_t> v; };
typedef rcutils_uint8_array_t rcl_serialized_message_t;
namespace rclcpp
{
class SerializedMessage
{
public:
  SerializedMessage() {}
  explicit SerializedMessage(size_t) {}
  explicit SerializedMessage(const rcl_serialized_message_t & a) : bytes(a.v) {}
  size_t size() const { return bytes.size(); }
  std::vector<uint8_t> bytes;
};
}
