// Reference geometry shared by the monitors; independent of the code under test.
#pragma once
#include <cmath>
#include <string>
#include <vector>
#include <ndt_2d/point.hpp>
#include <ndt_2d/pose_2d.hpp>
#include <ndt_2d/scan.hpp>
#include "vh.hpp"

namespace vh
{
struct V2 { double x = 0, y = 0; };
inline V2 apply(double px, double py, double th, double x, double y)
{
  const long double c = cosl(th), s = sinl(th);
  return V2{static_cast<double>(px + c * x - s * y), static_cast<double>(py + s * x + c * y)};
}
inline V2 unapply(double px, double py, double th, double x, double y)
{
  const long double c = cosl(th), s = sinl(th), dx = static_cast<long double>(x) - px, dy = static_cast<long double>(y) - py;
  return V2{static_cast<double>(c * dx + s * dy), static_cast<double>(-s * dx + c * dy)};
}
// difference of two angles in (-pi, pi]
inline double adiff(double a, double b)
{
  double d = std::remainder(a - b, 2 * M_PI);
  return d;
}
inline ndt_2d::ScanPtr mkscan(size_t id, double x, double y, double th, const std::vector<V2> & local)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(ndt_2d::Pose2d(x, y, th));
  std::vector<ndt_2d::Point> p;
  p.reserve(local.size());
  for (auto & v : local) p.push_back(ndt_2d::Point(v.x, v.y));
  s->setPoints(p);
  return s;
}

// Reference statistics of one cell, in long double and about the first point.
struct RefCell
{
  std::vector<V2> pts;
  double n = 0, mx = 0, my = 0, cxx = 0, cxy = 0, cyy = 0, small = 0, large = 0, ux = 1, uy = 0;  // u: along
  void finish()
  {
    n = pts.size();
    if (pts.empty()) return;
    const long double ox = pts[0].x, oy = pts[0].y;
    long double sx = 0, sy = 0;
    for (auto & p : pts) { sx += p.x - ox; sy += p.y - oy; }
    const long double ax = sx / pts.size(), ay = sy / pts.size();
    long double a = 0, b = 0, c = 0;
    for (auto & p : pts)
    {
      const long double dx = p.x - ox - ax, dy = p.y - oy - ay;
      a += dx * dx; b += dx * dy; c += dy * dy;
    }
    mx = ox + ax; my = oy + ay;
    if (pts.size() > 1) { a /= pts.size() - 1; b /= pts.size() - 1; c /= pts.size() - 1; }
    cxx = a; cxy = b; cyy = c;
    const double t = 0.5 * (cxx + cyy), d = std::hypot(0.5 * (cxx - cyy), cxy);
    large = t + d;
    small = std::max(0.0, large > 0 ? (cxx * cyy - cxy * cxy) / large : 0.0);
    const double ang = 0.5 * std::atan2(2 * cxy, cxx - cyy);
    ux = std::cos(ang); uy = std::sin(ang);
  }
  // Interval that the likelihood of (x, y) must lie in; false: cannot tell.
  bool expect(double x, double y, double scale, double & lo, double & hi) const
  {
    if (n < 5) { lo = hi = 0; return true; }
    const double e = 2.3e-16 * (n + 8) * scale * scale;   // rounding of the covariance entries
    if (large < 1e-5 + 50 * e) return false;
    const double ratio = small / large;
    if (std::fabs(ratio - 0.001) < 1e-6 + 10 * e / large) return false;
    const double qx = x - mx, qy = y - my;
    const double al = qx * ux + qy * uy, ac = -qx * uy + qy * ux;
    if (ratio > 0.001)
    {
      const double d2 = al * al / large + ac * ac / small;
      const double rel = 20 * e / small;
      if (rel > 0.02) return false;
      const double slack = 1e-9 + d2 * (rel + 1e-9) + std::sqrt(d2) * 1e-14 * scale / std::sqrt(small);
      lo = std::exp(-0.5 * d2 - slack); hi = std::exp(-0.5 * d2 + slack);
    }
    else
    {
      const double across = ac * ac / (0.001 * large), along = al * al / large;
      const double rel = 20 * e / (0.001 * large);
      if (rel > 0.02) return false;
      // Turning the principal axes by rounding mixes a little of one distance into the other.
      const double tilt = 4 * e / large + 1e-12;
      const double slack = 1e-9 + (across + along) * (rel + 1e-9) +
        (2 * std::fabs(ac * al) * tilt + al * al * tilt * tilt) / (0.001 * large) +
        std::sqrt(across) * 1e-14 * scale / std::sqrt(0.001 * large);
      lo = std::exp(-0.5 * (across + along) - slack); hi = std::exp(-0.5 * across + slack);
    }
    if (hi > 1) hi = 1;
    return hi - lo < 0.9 || small <= 0.001 * large;
  }
};

}  // namespace vh
