#pragma once
#include <array>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <rclcpp/serialized_message.hpp>
namespace rclcpp
{
namespace vser
{
struct Out
{
  std::vector<uint8_t> & b;
  template <class T> std::enable_if_t<std::is_arithmetic_v<T>> operator()(T & v)
  {
    const uint8_t * p = reinterpret_cast<const uint8_t *>(&v);
    b.insert(b.end(), p, p + sizeof(T));
  }
  void operator()(std::string & s)
  {
    uint32_t n = static_cast<uint32_t>(s.size()); (*this)(n);
    b.insert(b.end(), s.begin(), s.end());
  }
  template <class T> void operator()(std::vector<T> & v)
  {
    uint32_t n = static_cast<uint32_t>(v.size()); (*this)(n);
    for (auto & e : v) (*this)(e);
  }
  template <class T, size_t N> void operator()(std::array<T, N> & v) { for (auto & e : v) (*this)(e); }
  template <class T> std::enable_if_t<std::is_class_v<T>> operator()(T & m) { m.ndtv_visit(*this); }
};
struct In
{
  const std::vector<uint8_t> & b;
  size_t p = 0;
  void need(size_t n) { if (b.size() - p < n) throw std::runtime_error("serialized message too short"); }
  template <class T> std::enable_if_t<std::is_arithmetic_v<T>> operator()(T & v)
  {
    need(sizeof(T)); memcpy(&v, b.data() + p, sizeof(T)); p += sizeof(T);
  }
  void operator()(std::string & s)
  {
    uint32_t n; (*this)(n); need(n);
    s.assign(b.begin() + p, b.begin() + p + n); p += n;
  }
  template <class T> void operator()(std::vector<T> & v)
  {
    uint32_t n; (*this)(n); need(n);  // every element takes at least a byte
    v.resize(n);
    for (auto & e : v) (*this)(e);
  }
  template <class T, size_t N> void operator()(std::array<T, N> & v) { for (auto & e : v) (*this)(e); }
  template <class T> std::enable_if_t<std::is_class_v<T>> operator()(T & m) { m.ndtv_visit(*this); }
};
}  // namespace vser

template <class M> class Serialization
{
public:
  void serialize_message(const void * m, SerializedMessage * out) const
  {
    out->bytes.clear();
    vser::Out o{out->bytes};
    M copy = *static_cast<const M *>(m);
    o(copy);
  }
  void deserialize_message(const SerializedMessage * in, void * m) const
  {
    vser::In i{in->bytes};
    i(*static_cast<M *>(m));
  }
};
}  // namespace rclcpp
