#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <rosbag2_storage/serialized_bag_message.hpp>
#include <vstub/vstub.hpp>
namespace rosbag2_cpp
{
class Reader
{
public:
  void open(const std::string & uri)
  {
    auto it = vstub::g_bags.find(uri);
    if (it == vstub::g_bags.end()) throw std::runtime_error("No storage could be initialized for " + uri);
    msgs_ = it->second;
    pos_ = 0;
    open_ = true;
  }
  bool has_next() { check(); return pos_ < msgs_.size(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    check();
    if (pos_ >= msgs_.size()) throw std::runtime_error("Bag is at end. No next message.");
    auto m = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    m->serialized_data = std::make_shared<rcutils_uint8_array_t>();
    m->serialized_data->v = msgs_[pos_].data;
    m->topic_name = msgs_[pos_].topic;
    ++pos_;
    return m;
  }
  void close() { open_ = false; }
private:
  void check() { if (!open_) throw std::runtime_error("Bag is not open. Call open() before reading."); }
  std::vector<vstub::BagMsg> msgs_;
  size_t pos_ = 0;
  bool open_ = false;
};
}
