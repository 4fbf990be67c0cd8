#pragma once
#include <chrono>
namespace tf2
{
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
static const TimePoint TimePointZero = TimePoint(Duration(0));
inline Duration durationFromSec(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
inline double durationToSec(const Duration & d) { return d.count() * 1e-9; }
}
