// Monitors for scans (C04) and constraints between them (C05).
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include <ndt_2d/constraint.hpp>
#include "geom.hpp"

using namespace vh;
using ndt_2d::Pose2d;
using ndt_2d::Point;

VH_PROPERTY(C04, 300000, 10000000, "random interleavings of setPose, setPoints and every getter on several scans at once; non-trivial when the "
  "barycenter was read after both the pose and the points had changed; distinct by the hash of the operations")
{
  Rng & r = c.rng;
  struct Model { size_t id; ndt_2d::ScanPtr s; Pose2d pose; std::vector<Point> pts; bool pose_set = false, pts_set = false; };
  std::vector<Model> ms;
  const int k = static_cast<int>(r.range(1, 3));
  for (int i = 0; i < k; ++i)
  {
    Model m;
    m.id = r.chance(0.2) ? r.next() : static_cast<size_t>(r.range(0, 100));
    m.s = std::make_shared<ndt_2d::Scan>(m.id);
    ms.push_back(m);
  }
  Hash h;
  bool nontrivial = false;
  const double off = std::pow(10.0, r.uni(-1, 5));
  const int ops = static_cast<int>(r.range(1, 40));
  for (int o = 0; o < ops; ++o)
  {
    Model & m = ms[r.range(0, k - 1)];
    const int op = static_cast<int>(r.range(0, 5));
    h.add(op).add(m.id);
    switch (op)
    {
      case 0:
      {
        Pose2d p(r.uni(-off, off), r.uni(-off, off), r.uni(-8, 8));
        if (r.chance(0.2)) { p = m.pose; p.theta = r.uni(-8, 8); }        // change the heading only
        else if (r.chance(0.2)) { p = m.pose; p.x += r.normal(); }
        else if (r.chance(0.1))   // creeping: each step is hardly a change
        {
          p = m.pose;
          const double step = std::pow(10.0, r.uni(-10, -3)), dx = r.uni(-step, step), dy = r.uni(-step, step), dt = r.chance(0.5) ? 0 : r.uni(-step, step);
          for (int i = static_cast<int>(r.range(0, 100)); i > 0; --i) { p.x += dx; p.y += dy; p.theta += dt; m.s->setPose(p); if (i % 8 == 0) m.s->getBarycenterPose(); }
          c.count("creeping");
        }
        m.s->setPose(p);
        m.pose = p; m.pose_set = true;
        h.add(p.x).add(p.y).add(p.theta);
        break;
      }
      case 1:
      {
        std::vector<Point> pts;
        const int n = r.chance(0.2) ? 0 : static_cast<int>(r.range(1, 30));
        const double sp = std::pow(10.0, r.uni(-2, 2));
        for (int i = 0; i < n; ++i) pts.push_back(Point(r.uni(-sp, sp), r.uni(-sp, sp)));
        if (!m.pts.empty() && r.chance(0.2))   // the same points, a few of them elsewhere
        {
          pts = m.pts;
          for (int i = static_cast<int>(r.range(1, 3)); i > 0; --i) { Point & q = pts[r.range(0, pts.size() - 1)]; q = Point(q.x + sp * r.normal(), q.y + sp * r.normal()); }
        }
        m.s->setPoints(pts);
        m.pts = pts; m.pts_set = true;
        h.add(pts.size());
        break;
      }
      case 2:
      {
        const Pose2d p = m.s->getPose();
        c.count("pose_reads");
        c.check(p.x == m.pose.x && p.y == m.pose.y && p.theta == m.pose.theta, "pose", "pose (%g, %g, %g), last set (%g, %g, %g)", p.x, p.y, p.theta,
          m.pose.x, m.pose.y, m.pose.theta);
        break;
      }
      case 3:
      {
        const std::vector<Point> p = m.s->getPoints();
        bool same = p.size() == m.pts.size();
        for (size_t i = 0; same && i < p.size(); ++i) same = p[i].x == m.pts[i].x && p[i].y == m.pts[i].y;
        c.count("points_reads");
        c.check(same, "points", "points differ from the %zu last set (%zu reported)", m.pts.size(), p.size());
        break;
      }
      case 4:
        c.check(m.s->getId() == m.id, "id", "id %zu became %zu", m.id, m.s->getId());
        break;
      default:
      {
        long double sx = 0, sy = 0;
        const long double ct = cosl(m.pose.theta), st = sinl(m.pose.theta);
        double sp = 1;
        for (auto & p : m.pts) { sx += ct * p.x - st * p.y; sy += st * p.x + ct * p.y; sp = std::max({sp, std::fabs(p.x), std::fabs(p.y)}); }
        const double n = m.pts.empty() ? 1 : m.pts.size();
        const double ex = m.pose.x + sx / n, ey = m.pose.y + sy / n;
        const Pose2d b = m.s->getBarycenterPose();
        const double tol = 1e-12 * (sp * 30 + off);
        c.count("barycenter_reads");
        if (m.pose_set && m.pts_set) nontrivial = true;
        c.check(std::fabs(b.x - ex) <= tol && std::fabs(b.y - ey) <= tol, "barycenter", "barycenter (%.15g, %.15g) expected (%.15g, %.15g), %zu points, pose (%g, %g, %g)",
          b.x, b.y, ex, ey, m.pts.size(), m.pose.x, m.pose.y, m.pose.theta);
        c.check(b.theta == m.pose.theta || std::fabs(adiff(b.theta, m.pose.theta)) < 1e-12, "barycenter heading", "heading %g expected %g", b.theta, m.pose.theta);
        if (m.pts.empty()) c.check(b.x == m.pose.x && b.y == m.pose.y, "barycenter without points", "(%g, %g) for pose (%g, %g)", b.x, b.y, m.pose.x, m.pose.y);
      }
    }
  }
  if (nontrivial) { c.distinct(h.h); if (c.index < 16) c.sample(fmt("%d operations on %d scans, offsets up to %.3g", ops, k, off)); }
}

VH_PROPERTY(C05, 300000, 10000000, "pairs of scans at random poses (headings beyond a full turn included) and random symmetric positive semi-definite "
  "covariances: well conditioned over six orders of magnitude, rank 0, 1 and 2, diagonal and rotated; every pair is non-trivial; distinct by the hash of the input")
{
  Rng & r = c.rng;
  const double off = std::pow(10.0, r.uni(-1, 5)), sep = std::pow(10.0, r.uni(-3, 2));
  const Pose2d a(r.uni(-off, off), r.uni(-off, off), r.uni(-8, 8));
  const Pose2d b(r.chance(0.05) ? a.x : a.x + r.uni(-sep, sep), r.chance(0.05) ? a.y : a.y + r.uni(-sep, sep), r.chance(0.1) ? a.theta : r.uni(-8, 8));
  auto from = std::make_shared<ndt_2d::Scan>(r.range(0, 5000)), to = std::make_shared<ndt_2d::Scan>(r.range(0, 5000));
  from->setPose(a);
  to->setPose(b);
  if (r.chance(0.5))   // the barycenter is not what a constraint refers to
  {
    from->setPoints({Point(r.uni(-9, 9), r.uni(-9, 9))});
    to->setPoints({Point(r.uni(-9, 9), r.uni(-9, 9)), Point(3, 4)});
  }
  // covariance
  Eigen::Vector3d ev;
  const int kind = static_cast<int>(r.range(0, 9));
  const double top = std::pow(10.0, r.uni(-3, 1));
  for (int i = 0; i < 3; ++i) ev(i) = top * std::pow(10.0, r.uni(-5, 0));
  int zeros = 0;
  if (kind == 0) { zeros = 3; }
  else if (kind == 1) zeros = 2;
  else if (kind == 2) zeros = 1;
  for (int i = 0; i < zeros; ++i) ev(i) = 0;
  for (int i = 2; i > 0; --i) std::swap(ev(i), ev(r.range(0, i)));
  Eigen::Matrix3d q = Eigen::Matrix3d::Identity();
  if (kind > 3 || (kind > 0 && r.chance(0.5)))
  {
    Eigen::Matrix3d g;
    for (int i = 0; i < 9; ++i) g(i / 3, i % 3) = r.normal();
    // orthonormal columns
    Eigen::Vector3d u = g.col(0).normalized(), v = (g.col(1) - u * u.dot(g.col(1))).normalized(), w = u.cross(v);
    q << u, v, w;
  }
  Eigen::Matrix3d cov = q * ev.asDiagonal() * q.transpose();
  cov = (0.5 * (cov + cov.transpose())).eval();
  const Eigen::Matrix3d given = cov;
  auto k = ndt_2d::makeConstraint(from, to, cov);
  Hash h;
  h.add(a.x).add(a.theta).add(b.x).add(cov(0, 0)).add(cov(1, 2));
  c.distinct(h.h);
  if (c.index < 16) c.sample(fmt("from (%.3g, %.3g, %.3g) to (%.3g, %.3g, %.3g), covariance eigenvalues %.3g %.3g %.3g", a.x, a.y, a.theta, b.x, b.y, b.theta, ev(0), ev(1), ev(2)));
  c.check(k->begin == from->getId() && k->end == to->getId(), "ends", "constraint joins %zu and %zu, expected %zu and %zu", static_cast<size_t>(k->begin),
    static_cast<size_t>(k->end), from->getId(), to->getId());
  c.check(!k->switchable, "switchable", "a new constraint is switchable");
  const V2 e = apply(a.x, a.y, a.theta, k->transform(0), k->transform(1));
  const double tol = 1e-12 * (off + sep + 1);
  c.check(std::fabs(e.x - b.x) <= tol && std::fabs(e.y - b.y) <= tol, "relative position", "composition gives (%.12g, %.12g), expected (%.12g, %.12g); heading %g",
    e.x, e.y, b.x, b.y, a.theta);
  c.check(std::fabs(adiff(a.theta + k->transform(2), b.theta)) < 1e-9, "relative heading", "composition gives %.12g, expected %.12g", a.theta + k->transform(2), b.theta);
  const Eigen::Matrix3d & I = k->information;
  if (!c.check(I.allFinite(), "finite information", "information is not finite for covariance eigenvalues %g %g %g", ev(0), ev(1), ev(2))) return;
  const double m = I.cwiseAbs().maxCoeff();
  c.check((I - I.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * m, "symmetric information", "asymmetry %g of %g", (I - I.transpose()).cwiseAbs().maxCoeff(), m);
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(0.5 * (I + I.transpose()));
  const Eigen::LLT<Eigen::Matrix3d> llt(I);
  c.check(llt.info() == Eigen::Success && es.eigenvalues()(2) > 0 && es.eigenvalues()(0) > -1e-12 * es.eigenvalues()(2), "positive definite information",
    "eigenvalues of the information %g %g %g for a covariance with eigenvalues %g %g %g",
    es.eigenvalues()(0), es.eigenvalues()(1), es.eigenvalues()(2), ev(0), ev(1), ev(2));
  if (zeros == 0 && ev.minCoeff() > 2e-8)
  {
    const Eigen::Matrix3d res = I * given - Eigen::Matrix3d::Identity();
    c.count("inverted");
    const double cond = ev.maxCoeff() / ev.minCoeff();
    c.check(res.cwiseAbs().maxCoeff() < 1e-7 + 1e-12 * cond, "inverse covariance", "information * covariance differs from identity by %g, eigenvalues %g %g %g",
      res.cwiseAbs().maxCoeff(), ev(0), ev(1), ev(2));
  }
  else if (zeros)
  {
    c.count(fmt("rank_%d", 3 - zeros));
    // In the directions that have a covariance, the information is still its inverse
    for (int i = 0; i < 3; ++i)
      if (ev(i) > 1e-6)
      {
        // unit vector of this eigenvalue
        const Eigen::Vector3d u = q.col(i);
        const double info = u.dot(I * u);
        c.check(std::fabs(info * ev(i) - 1) < 1e-2, "inverse covariance (singular)", "information %g along a direction of variance %g", info, ev(i));
      }
  }
  c.check((from->getPose().x == a.x) && (to->getPose().y == b.y) && (to->getPose().theta == b.theta), "scans untouched", "making a constraint moved a scan");
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
