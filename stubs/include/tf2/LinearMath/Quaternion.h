#pragma once
#include <cmath>
namespace tf2
{
class Vector3
{
public:
  Vector3() {}
  Vector3(double x, double y, double z) : v_{x, y, z} {}
  double x() const { return v_[0]; }
  double y() const { return v_[1]; }
  double z() const { return v_[2]; }
  double getX() const { return v_[0]; }
  double getY() const { return v_[1]; }
  double getZ() const { return v_[2]; }
private:
  double v_[3] = {0, 0, 0};
};
class Quaternion
{
public:
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  Quaternion(const Vector3 & axis, double angle)
  {
    const double n = std::sqrt(axis.x() * axis.x() + axis.y() * axis.y() + axis.z() * axis.z()), s = std::sin(angle / 2) / n;
    x_ = axis.x() * s; y_ = axis.y() * s; z_ = axis.z() * s; w_ = std::cos(angle / 2);
  }
  void setRPY(double r, double p, double y)
  {
    const double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cy = std::cos(y / 2), sy = std::sin(y / 2);
    x_ = sr * cp * cy - cr * sp * sy;
    y_ = cr * sp * cy + sr * cp * sy;
    z_ = cr * cp * sy - sr * sp * cy;
    w_ = cr * cp * cy + sr * sp * sy;
  }
  double x() const { return x_; }
  double y() const { return y_; }
  double z() const { return z_; }
  double w() const { return w_; }
  double getX() const { return x_; }
  double getY() const { return y_; }
  double getZ() const { return z_; }
  double getW() const { return w_; }
private:
  double x_ = 0, y_ = 0, z_ = 0, w_ = 1;
};
}
