// std::random_device delivers numbers chosen by the harness, so that every run can be repeated.
#include <atomic>
#include <cstdint>
#include <random>
namespace vh { std::atomic<uint64_t> g_device_seed{1}; }
namespace std
{
random_device::result_type random_device::_M_getval()
{
  uint64_t z = vh::g_device_seed.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed) + 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return static_cast<random_device::result_type>(z ^ (z >> 31));
}
}
