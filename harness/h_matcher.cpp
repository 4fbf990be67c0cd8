// Monitors for the scan matcher (C13, C14, C15).
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <ndt_2d/ndt_model.hpp>
#include <ndt_2d/scan_matcher_ndt.hpp>
#include "geom.hpp"

using namespace vh;
using ndt_2d::Pose2d;
using ndt_2d::Point;
using ndt_2d::ScanPtr;

namespace
{

struct Setup
{
  double res, ares, asize, lres, lsize, range;
  int beams;
  std::shared_ptr<ndt_2d::ScanMatcherNDT> m;
  std::vector<ScanPtr> scans;
  double cx, cy;
  std::vector<V2> world;     // points of the map
};

std::shared_ptr<ndt_2d::ScanMatcherNDT> make_matcher(const Setup & s)
{
  vstub::g_params.clear();
  vstub::g_declared.clear();
  vstub::g_params["m.ndt_resolution"] = s.res;
  vstub::g_params["m.search_angular_resolution"] = s.ares;
  vstub::g_params["m.search_angular_size"] = s.asize;
  vstub::g_params["m.search_linear_resolution"] = s.lres;
  vstub::g_params["m.search_linear_size"] = s.lsize;
  vstub::g_params["m.laser_max_beams"] = static_cast<int64_t>(s.beams);
  rclcpp::Node node("n");
  auto m = std::make_shared<ndt_2d::ScanMatcherNDT>();
  m->initialize("m", &node, s.range);
  return m;
}

// A window of n steps to either side. Mostly one whose last step is not at the very border.
void window(Rng & r, double & res, double & size, int maxn)
{
  const int n = static_cast<int>(r.range(1, maxn));
  res = std::pow(10.0, r.uni(-3, -1));
  size = r.chance(0.25) ? n * res : (n + r.uni(0.05, 0.45)) * res;
  if (r.chance(0.1)) res = size * r.uni(1.1, 1.9);     // coarser than the window
}

void parameters(Rng & r, Setup & s, bool wide)
{
  const double rs[] = {0.25, 0.25, 0.1, 0.5, 1.0, 0.4};
  s.res = rs[r.range(0, 5)];
  window(r, s.lres, s.lsize, wide ? 5 : 3);
  window(r, s.ares, s.asize, wide ? 5 : 3);
  s.asize = std::min(s.asize, 1.5);
  s.range = r.uni(1.5, 8);
  const int bs[] = {1, 2, 5, 10, 17, 30, 100, 1000};
  s.beams = bs[r.range(0, 7)];
}

void fill(Rng & r, Setup & s, double far)
{
  s.cx = r.chance(0.15) ? 0 : r.uni(-far, far);
  s.cy = r.chance(0.15) ? 0 : r.uni(-far, far);
  s.world.clear();
  s.scans.clear();
  const int walls = static_cast<int>(r.range(1, 4));
  std::vector<V2> w;
  for (int i = 0; i < walls; ++i)
  {
    const double ax = s.cx + r.uni(-3, 3), ay = s.cy + r.uni(-3, 3), a = r.uni(-3, 3), len = r.uni(0.5, 4), noise = std::pow(10.0, r.uni(-4, -1.3));
    const int n = static_cast<int>(r.range(8, 60));
    for (int k = 0; k < n; ++k)
    {
      const double t = len * k / n;
      w.push_back({ax + t * std::cos(a) + noise * r.normal(), ay + t * std::sin(a) + noise * r.normal()});
    }
  }
  // now and then a map of many scans that see a few points each
  const bool many = r.chance(0.015);
  const int n = static_cast<int>(many ? r.range(60, 400) : r.range(1, 4));
  const double seen = many ? 2.0 / n : 0.7;
  std::vector<std::vector<V2>> per(n);
  std::vector<Pose2d> poses;
  for (int i = 0; i < n; ++i) poses.push_back(Pose2d(s.cx + r.uni(-2, 2), s.cy + r.uni(-2, 2), r.uni(-3.2, 3.2)));
  for (auto & p : w) for (int i = 0; i < n; ++i)
    if ((p.x - poses[i].x) * (p.x - poses[i].x) + (p.y - poses[i].y) * (p.y - poses[i].y) < s.range * s.range && r.chance(seen))
    {
      per[i].push_back(unapply(poses[i].x, poses[i].y, poses[i].theta, p.x, p.y));
      s.world.push_back(p);
    }
  for (int i = 0; i < n; ++i) s.scans.push_back(mkscan(i, poses[i].x, poses[i].y, poses[i].theta, per[i]));
}

void build(Setup & s) { s.m->addScans(s.scans.begin(), s.scans.end()); }

// A scan to be matched, kind 0 .. 4
ScanPtr probe(Rng & r, const Setup & s, int & kind)
{
  kind = static_cast<int>(r.range(0, 9));
  const Pose2d at(s.cx + r.uni(-1, 1), s.cy + r.uni(-1, 1), r.uni(-3.2, 3.2));
  std::vector<V2> pts;
  if (kind == 0) return mkscan(9, at.x, at.y, at.theta, pts);                 // no points
  if (kind == 1)                                                              // far away
  {
    const double d = std::pow(10.0, r.uni(1.5, r.chance(0.2) ? 12 : 4)), a = r.uni(-3, 3);
    for (int i = 0; i < r.range(1, 50); ++i) pts.push_back({r.uni(-3, 3), r.uni(-3, 3)});
    return mkscan(9, at.x + d * std::cos(a), at.y + d * std::sin(a), at.theta, pts);
  }
  const double ex = r.normal() * s.lsize * 0.7, ey = r.normal() * s.lsize * 0.7, et = r.normal() * s.asize * 0.7;
  for (auto & p : s.world) if (r.chance(0.5)) pts.push_back(unapply(at.x + ex, at.y + ey, at.theta + et, p.x + 0.01 * r.normal(), p.y + 0.01 * r.normal()));
  if (kind == 2) for (auto & p : pts) { p.x += r.uni(-0.5, 0.5); p.y += r.uni(-0.5, 0.5); }   // hardly any overlap
  if (kind == 3) pts.resize(std::min<size_t>(pts.size(), r.range(1, 4)));
  if (r.chance(0.5)) for (int i = 0; i < r.range(1, 30); ++i) pts.push_back({r.uni(-9, 9), r.uni(-9, 9)});
  return mkscan(9, at.x, at.y, at.theta, pts);
}

struct Grid { std::vector<double> d; bool edge = false; };   // edge: the last one lies on the border
Grid axis(double res, double size)
{
  Grid g;
  for (long k = 0; ; ++k)
  {
    const double d = -size + k * res;
    if (d >= size + 1e-9 * res) break;
    g.d.push_back(d);
    if (std::fabs(d - size) <= 1e-9 * res) g.edge = true;
  }
  return g;
}

struct Snapshot
{
  size_t id; Pose2d pose; std::vector<Point> pts;
  explicit Snapshot(const ScanPtr & s) : id(s->getId()), pose(s->getPose()), pts(s->getPoints()) {}
  bool same(const ScanPtr & s) const
  {
    const Pose2d p = s->getPose();
    const auto q = s->getPoints();
    if (s->getId() != id || p.x != pose.x || p.y != pose.y || p.theta != pose.theta || q.size() != pts.size()) return false;
    for (size_t i = 0; i < q.size(); ++i) if (q[i].x != pts[i].x || q[i].y != pts[i].y) return false;
    return true;
  }
};

const char * kinds[] = {"no points", "out of reach", "little overlap", "few points", "overlap", "overlap", "overlap", "overlap", "overlap", "overlap"};

struct Result { double score; Pose2d pose; Eigen::Matrix3d cov; };

Result match(Case & c, const Setup & s, const ScanPtr & scan)
{
  Result q;
  // whatever the caller left in there must not shine through
  q.pose = c.rng.chance(0.5) ? Pose2d() : Pose2d(7, 8, 2);
  q.cov.setConstant(c.rng.chance(0.5) ? 0.0 : std::numeric_limits<double>::quiet_NaN());
  const Snapshot before(scan);
  std::vector<Snapshot> map;
  for (auto & x : s.scans) map.emplace_back(x);
  q.score = s.m->matchScan(scan, q.pose, q.cov);
  c.check(before.same(scan), "scan modified", "matching changed the scan");
  for (size_t i = 0; i < map.size(); ++i) c.check(map[i].same(s.scans[i]), "map scan modified", "matching changed a scan of the map");
  c.count("matches");
  return q;
}

double score_at(const Setup & s, const std::vector<Point> & pts, const Pose2d & p, double dx, double dy, double dth)
{
  return s.m->scorePoints(pts, Pose2d(p.x + dx, p.y + dy, p.theta + dth));
}

// A point on the border of two cells, where the score jumps and rounding decides
bool on_border(const Setup & s, const std::vector<Point> & pts, const Pose2d & p, double dx, double dy, double dth, double jump)
{
  const double e = 1e-10 * (1 + std::fabs(p.x) + std::fabs(p.y));
  const double v = score_at(s, pts, p, dx, dy, dth);
  for (int k = 0; k < 8; ++k)
    if (std::fabs(score_at(s, pts, p, dx + e * std::cos(k * M_PI / 4), dy + e * std::sin(k * M_PI / 4), dth) - v) > jump) return true;
  return false;
}

void nothing(Case & c, const Setup & s, const Result & q, const char * why)
{
  c.check(q.score == 0, "score without overlap", "score %g with %s", q.score, why);
  c.check(q.pose.x == 0 && q.pose.y == 0 && q.pose.theta == 0, "correction without overlap", "correction (%g, %g, %g) with %s; window %g and %g",
    q.pose.x, q.pose.y, q.pose.theta, why, s.lsize, s.asize);
}

void uniform_cov(Case & c, const Setup & s, const Result & q, const char * why)
{
  const Eigen::Matrix3d & k = q.cov;
  if (!c.check(k.allFinite(), "covariance not finite", "with %s", why)) return;
  const double sz[3] = {s.lsize, s.lsize, s.asize}, rs[3] = {s.lres, s.lres, s.ares};
  for (int i = 0; i < 3; ++i)
  {
    const Grid g = axis(rs[i], sz[i]);
    // of the whole window, or of the poses searched in it
    double lo = sz[i] * sz[i] / 3, hi = lo;
    for (int e = 0; e < (g.edge ? 2 : 1); ++e)
    {
      const size_t n = g.d.size() - e;
      double mean = 0, v = 0;
      for (size_t k2 = 0; k2 < n; ++k2) mean += g.d[k2] / n;
      for (size_t k2 = 0; k2 < n; ++k2) v += (g.d[k2] - mean) * (g.d[k2] - mean) / n;
      lo = std::min(lo, v); hi = std::max(hi, v);
    }
    c.check(k(i, i) >= lo * (1 - 1e-6) - 1e-15 && k(i, i) <= hi * (1 + 1e-6), "covariance without overlap", "variance %d is %g, that of the window %g to %g, with %s", i, k(i, i), lo, hi, why);
    for (int j = 0; j < i; ++j)
      c.check(std::fabs(k(i, j)) < 1e-6 * sz[i] * sz[j] && std::fabs(k(j, i)) < 1e-6 * sz[i] * sz[j], "covariance without overlap correlates", "entry (%d, %d) is %g, with %s", i, j, k(i, j), why);
  }
}

}  // namespace

VH_PROPERTY(C13, 8000, 240000, "random maps (walls, noise, several scans, far from the origin), search windows, beam limits and scans (overlapping, hardly, not at all, empty); every pose of the search grid is scored "
  "again one by one; histories with reset and rebuild; distinct by map, window and scan")
{
  Rng & r = c.rng;
  Setup s;
  parameters(r, s, true);
  s.m = make_matcher(s);
  const int rounds = static_cast<int>(r.range(1, 3));
  for (int round = 0; round < rounds; ++round)
  {
    int kind;
    if (r.chance(0.15))     // no map (any more)
    {
      if (round) s.m->reset();
      s.scans.clear(); s.world.clear(); s.cx = r.uni(-5, 5); s.cy = 0;
      if (round && r.chance(0.3)) build(s);       // of no scans
      for (int i = 0; i < 20; ++i) s.world.push_back({r.uni(-3, 3), r.uni(-3, 3)});
      auto scan = probe(r, s, kind);
      auto q = match(c, s, scan);
      nothing(c, s, q, "no map");
      c.count("without_map");
      continue;
    }
    if (round) s.m->reset();
    fill(r, s, std::pow(10.0, r.uni(0, 2.5)));
    build(s);
    auto scan = probe(r, s, kind);
    const auto pts = scan->getPoints();
    const Pose2d p = scan->getPose();
    auto q = match(c, s, scan);
    const std::string ctx = fmt("%s; window %.6g step %.6g, %.6g step %.6g; %zu points, %d beams, resolution %g, at (%.6g, %.6g, %.4g)", kinds[kind], s.lsize, s.lres, s.asize, s.ares, pts.size(), s.beams, s.res, p.x, p.y, p.theta);
    if (!c.check(std::isfinite(q.score) && std::isfinite(q.pose.x) && std::isfinite(q.pose.y) && std::isfinite(q.pose.theta), "not finite", "score %g, correction (%g, %g, %g); %s", q.score, q.pose.x, q.pose.y, q.pose.theta, ctx.c_str())) return;
    c.check(std::fabs(q.pose.x) <= s.lsize * (1 + 1e-9) && std::fabs(q.pose.y) <= s.lsize * (1 + 1e-9) && std::fabs(q.pose.theta) <= s.asize * (1 + 1e-9), "outside the search window", "correction (%g, %g, %g); %s", q.pose.x, q.pose.y, q.pose.theta, ctx.c_str());
    c.check(q.score <= 0 && q.score >= -1 - 1e-9, "score out of range", "score %g; %s", q.score, ctx.c_str());
    const Grid l = axis(s.lres, s.lsize), a = axis(s.ares, s.asize);
    double best = 0, bx = 0, by = 0, bt = 0;
    for (double dth : a.d) for (double dx : l.d) for (double dy : l.d)
    {
      if (pts.empty()) continue;
      if (dth > s.asize - 1e-9 * s.ares || dx > s.lsize - 1e-9 * s.lres || dy > s.lsize - 1e-9 * s.lres) continue;   // whether the border belongs to the grid is left open
      const double v = score_at(s, pts, p, dx, dy, dth);
      c.count("grid_poses");
      if (v < best) { best = v; bx = dx; by = dy; bt = dth; }
    }
    if ((best < q.score - 1e-7 && on_border(s, pts, p, bx, by, bt, 1e-9)) ||
        (q.score != 0 && std::fabs(score_at(s, pts, p, q.pose.x, q.pose.y, q.pose.theta) - q.score) >= 1e-7 && on_border(s, pts, p, q.pose.x, q.pose.y, q.pose.theta, 1e-9))) { c.count("on_borders"); continue; }
    c.check(best >= q.score - 1e-7, "a better correction exists", "matched %.9g at (%g, %g, %g), but %.9g at (%g, %g, %g); %s", q.score, q.pose.x, q.pose.y, q.pose.theta, best, bx, by, bt, ctx.c_str());
    // so little overlap that the mean over the points is zero, though the best sum was not
    bool traces = false;
    if (q.score == 0 && (q.pose.x != 0 || q.pose.y != 0 || q.pose.theta != 0))
      for (auto & point : pts) if (score_at(s, {point}, p, q.pose.x, q.pose.y, q.pose.theta) < 0) traces = true;
    if (traces) { c.count("traces_of_overlap"); continue; }
    if (q.score == 0) { nothing(c, s, q, kinds[kind]); c.count("nothing_overlaps"); }
    else
    {
      const double v = score_at(s, pts, p, q.pose.x, q.pose.y, q.pose.theta);
      c.check(std::fabs(v - q.score) < 1e-7, "score is not that of the corrected pose", "returned %.9g, corrected pose scores %.9g; %s", q.score, v, ctx.c_str());
      // placed there, the scan object itself scores the same
      auto moved = std::make_shared<ndt_2d::Scan>(3);
      moved->setPose(Pose2d(p.x + q.pose.x, p.y + q.pose.y, p.theta + q.pose.theta));
      moved->setPoints(pts);
      c.check(std::fabs(s.m->scoreScan(moved) - q.score) < 1e-7, "score is not that of the corrected pose", "returned %.9g, the moved scan scores %.9g; %s", q.score, s.m->scoreScan(moved), ctx.c_str());
      c.count("overlapping");
      // asked again, it answers the same
      Result q2 = match(c, s, scan);
      c.check(q2.score == q.score && q2.pose.x == q.pose.x && q2.pose.y == q.pose.y && q2.pose.theta == q.pose.theta, "repeated match differs", "%s", ctx.c_str());
      Hash h; h.add(p.x).add(q.score).add(s.lsize);
      c.distinct(h.h);
      if (c.index < 24) c.sample(fmt("score %.4f at (%.4g, %.4g, %.4g); ", q.score, q.pose.x, q.pose.y, q.pose.theta) + ctx);
    }
  }
}

VH_PROPERTY(C14, 10000, 400000, "as C13; the covariance is recomputed from the scores of all poses of the search grid; scans are moved far from the origin together with the map; distinct by map, window and scan")
{
  Rng & r = c.rng;
  Setup s;
  parameters(r, s, true);
  s.m = make_matcher(s);
  fill(r, s, std::pow(10.0, r.uni(0, 2.5)));
  int kind;
  if (r.chance(0.05))
  {
    auto scan = probe(r, s, kind);
    s.scans.clear();
    auto q = match(c, s, scan);
    uniform_cov(c, s, q, "no map");
    c.count("without_map");
    return;
  }
  build(s);
  auto scan = probe(r, s, kind);
  const auto pts = scan->getPoints();
  const Pose2d p = scan->getPose();
  auto q = match(c, s, scan);
  const std::string ctx = fmt("%s; window %.6g step %.6g, %.6g step %.6g; %zu points, %d beams, resolution %g, at (%.6g, %.6g, %.4g)", kinds[kind], s.lsize, s.lres, s.asize, s.ares, pts.size(), s.beams, s.res, p.x, p.y, p.theta);
  if (!c.check(q.cov.allFinite(), "covariance not finite", "score %g; %s", q.score, ctx.c_str())) return;
  if (pts.empty()) { uniform_cov(c, s, q, "no points"); c.count("no_points"); return; }
  const Grid l = axis(s.lres, s.lsize), a = axis(s.ares, s.asize);
  struct Acc { long double s = 0; long double u[3] = {0, 0, 0}, k[3][3] = {{0}}; } acc[8];   // without or with the last x, y and angle, where rounding decides
  double total = 0;
  for (size_t t = 0; t < a.d.size(); ++t) for (size_t i = 0; i < l.d.size(); ++i) for (size_t j = 0; j < l.d.size(); ++j)
  {
    const double w = -score_at(s, pts, p, l.d[i], l.d[j], a.d[t]);
    c.count("grid_poses");
    total += w;
    const long double x[3] = {l.d[i], l.d[j], a.d[t]};
    for (int e = 0; e < 8; ++e)
    {
      if ((e & 1) && l.edge && i + 1 == l.d.size()) continue;
      if ((e & 2) && l.edge && j + 1 == l.d.size()) continue;
      if ((e & 4) && a.edge && t + 1 == a.d.size()) continue;
      Acc & z = acc[e];
      z.s += w;
      for (int m = 0; m < 3; ++m) { z.u[m] += w * x[m]; for (int n = 0; n < 3; ++n) z.k[m][n] += w * x[m] * x[n]; }
    }
  }
  const double sz[3] = {s.lsize, s.lsize, s.asize};
  Eigen::Matrix3d n;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) n(i, j) = q.cov(i, j) / sz[i] / sz[j];
  c.check((n - n.transpose()).cwiseAbs().maxCoeff() < 1e-9, "covariance not symmetric", "%s", ctx.c_str());
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(n);
  c.check(es.eigenvalues()(0) > -1e-9, "covariance not positive semi-definite", "smallest eigenvalue %g (relative to the window); %s", es.eigenvalues()(0), ctx.c_str());
  for (int i = 0; i < 3; ++i) c.check(n(i, i) <= 1 + 1e-9, "variance exceeds the window", "variance %d is %g times the squared window; %s", i, n(i, i), ctx.c_str());
  if (total == 0) { uniform_cov(c, s, q, kinds[kind]); c.count("nothing_overlaps"); return; }
  if (total < 1e-280) return;
  double worst = 1e9;
  std::string w;
  for (Acc & z : acc)
  {
    if (z.s < 1e-280) { worst = 0; continue; }
    double dev = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
      dev = std::max(dev, std::fabs(static_cast<double>(z.k[i][j] / z.s - z.u[i] * z.u[j] / z.s / z.s) / sz[i] / sz[j] - n(i, j)));
    if (dev < worst)
    {
      worst = dev;
      w = fmt("%.9g %.9g %.9g", static_cast<double>(z.k[0][0] / z.s - z.u[0] * z.u[0] / z.s / z.s), static_cast<double>(z.k[1][1] / z.s - z.u[1] * z.u[1] / z.s / z.s), static_cast<double>(z.k[2][2] / z.s - z.u[2] * z.u[2] / z.s / z.s));
    }
  }
  if (worst >= 1e-5)
    for (double dth : a.d) for (double dx : l.d) for (double dy : l.d)
      if (on_border(s, pts, p, dx, dy, dth, 1e-7 * total)) { c.count("on_borders"); return; }
  c.check(worst < 1e-5, "covariance", "variances %.9g %.9g %.9g, of the scored corrections %s (largest relative difference %g); %s", q.cov(0, 0), q.cov(1, 1), q.cov(2, 2), w.c_str(), worst, ctx.c_str());
  c.count("compared");
  Hash h; h.add(p.x).add(q.score).add(s.lsize);
  c.distinct(h.h);
  if (c.index < 24) c.sample(fmt("deviations %.4g %.4g %.4g; ", std::sqrt(q.cov(0, 0)), std::sqrt(q.cov(1, 1)), std::sqrt(q.cov(2, 2))) + ctx);
}

VH_PROPERTY(C15, 20000, 600000, "random maps anywhere in the plane built, reset and rebuilt; scores of scans and point sets against a mean over evenly spaced beams of a reference map; tight groups of points at the very "
  "edge of each scan's range must score; the memory of the map is bounded by the extent of the scans; distinct by map and scan")
{
  Rng & r = c.rng;
  Setup s;
  parameters(r, s, false);
  s.m = make_matcher(s);
  const int rounds = static_cast<int>(r.range(1, 3));
  const double far = std::pow(10.0, r.uni(0, 2.5));
  for (int round = 0; round < rounds; ++round)
  {
    int kind;
    if (round == 0 && r.chance(0.1))
    {
      fill(r, s, far);
      auto scan = probe(r, s, kind);
      if (r.chance(0.3)) s.m->reset();
      if (r.chance(0.3)) { s.scans.clear(); build(s); }
      c.check(s.m->scoreScan(scan) == 0 && s.m->scorePoints(scan->getPoints(), scan->getPose()) == 0, "score without a map", "%g", s.m->scoreScan(scan));
      c.count("without_map");
      s.m->reset();
      continue;
    }
    if (round) s.m->reset();
    fill(r, s, far);
    // Groups at the edge of the range, away from everything else: each of identical points
    std::vector<V2> groups;
    if (r.chance(0.6))
    {
      for (auto & sc : s.scans) if (r.chance(0.7))
      {
        auto pts = sc->getPoints();
        const Pose2d p = sc->getPose();
        const double rr = s.range * (r.chance(0.6) ? 1 - 1e-9 : r.uni(0.5, 1)), an = (r.chance(0.6) ? M_PI / 2 * r.range(0, 3) : r.uni(-3, 3)) - p.theta;
        const V2 local{rr * std::cos(an), rr * std::sin(an)}, g = apply(p.x, p.y, p.theta, local.x, local.y);
        bool alone = true;
        for (auto & w : s.world) alone &= std::max(std::fabs(w.x - g.x), std::fabs(w.y - g.y)) > s.res + 0.01;
        for (auto & w : groups) alone &= std::max(std::fabs(w.x - g.x), std::fabs(w.y - g.y)) > s.res + 0.01;
        if (!alone) continue;
        for (int k = r.range(5, 12); k > 0; --k) pts.push_back(Point(local.x, local.y));
        sc->setPoints(pts);
        groups.push_back(g);
      }
    }
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto & sc : s.scans)
    {
      const Pose2d p = sc->getPose();
      x0 = std::min(x0, p.x - s.range); x1 = std::max(x1, p.x + s.range);
      y0 = std::min(y0, p.y - s.range); y1 = std::max(y1, p.y + s.range);
    }
    const size_t m0 = __sanitizer_get_current_allocated_bytes();
    build(s);
    const double grown = static_cast<double>(__sanitizer_get_current_allocated_bytes()) - m0;
    const double cells = ((x1 - x0) / s.res + 4) * ((y1 - y0) / s.res + 4);
    c.check(grown < 65536 + 400 * cells, "map too large", "%g bytes for an extent of %g x %g m in cells of %g m, scans around (%g, %g)", grown, x1 - x0, y1 - y0, s.res, s.cx, s.cy);
    c.count("maps");
    const std::string ctx = fmt("%zu scans around (%.6g, %.6g), range %.4g, resolution %g, %d beams", s.scans.size(), s.cx, s.cy, s.range, s.res, s.beams);
    // alone each of the groups has a likelihood of one, wherever the cells are
    for (auto & g : groups)
    {
      std::vector<Point> one{Point(0, 0)};
      const double v = s.m->scorePoints(one, Pose2d(g.x, g.y, r.uni(-3, 3)));
      c.count("edge_groups");
      if (!c.check(v < -0.99, "point within the range of a scan missing from the map", "a group of identical points at (%.9g, %.9g) scores %g; %s", g.x, g.y, v, ctx.c_str())) return;
    }
    ndt_2d::NDT ref(s.res, x1 - x0, y1 - y0, x0, y0);
    for (auto & sc : s.scans) ref.addScan(sc);
    ref.compute();
    for (int k = 0; k < 3; ++k)
    {
      auto scan = probe(r, s, kind);
      const auto pts = scan->getPoints();
      const Pose2d p = scan->getPose();
      const Snapshot before(scan);
      const double v = s.m->scoreScan(scan), v2 = s.m->scorePoints(pts, p);
      c.count("scores");
      c.check(before.same(scan), "scan modified", "scoring changed the scan");
      if (!c.check(std::isfinite(v) && std::isfinite(v2) && v <= 0 && v >= -1 - 1e-9, "score out of range", "%g with %s; %s", v, kinds[kind], ctx.c_str())) return;
      c.check(std::fabs(v - v2) < 1e-12, "scan and points score differently", "%.12g and %.12g; %s", v, v2, ctx.c_str());
      if (pts.empty()) { c.check(v == 0, "score without points", "%g", v); c.count("no_points"); continue; }
      const size_t used = std::min<size_t>(s.beams, pts.size());
      double lo = 0, hi = 0;
      auto like = [&](size_t i) { const V2 w = apply(p.x, p.y, p.theta, pts[i].x, pts[i].y); return ref.likelihood(Eigen::Vector2d(w.x, w.y)); };
      for (size_t i = 0; i < used; ++i)
      {
        const size_t e = i * pts.size() / used;
        const double a = like(e);
        double b = a;
        if (i && i * pts.size() % used == 0) b = like(e - 1);    // the quotient may be rounded down
        lo += std::min(a, b); hi += std::max(a, b);
      }
      lo /= used; hi /= used;
      c.check(-v >= lo - 1e-6 && -v <= hi + 1e-6, "score", "%.9g, mean likelihood of the beams %.9g%s, with %s, %zu points; %s", v, lo, hi > lo ? " or more" : "", kinds[kind], pts.size(), ctx.c_str());
      if (hi > 0)
      {
        c.count("nonzero_scores");
        Hash h; h.add(p.x).add(v);
        c.distinct(h.h);
        if (c.index < 16) c.sample(fmt("score %.5g with %zu points; ", v, pts.size()) + ctx);
      }
    }
    // the scans themselves, and single points of them
    for (auto & sc : s.scans)
    {
      if (c.failed || sc->getPoints().empty()) continue;
      const auto pts = sc->getPoints();
      const Pose2d p = sc->getPose();
      const size_t i = r.range(0, pts.size() - 1);
      const V2 w = apply(p.x, p.y, p.theta, pts[i].x, pts[i].y);
      const double v = s.m->scorePoints({pts[i]}, p);
      c.check(std::fabs(v + ref.likelihood(Eigen::Vector2d(w.x, w.y))) < 1e-6, "score of one point", "%g, likelihood %g; %s", v, ref.likelihood(Eigen::Vector2d(w.x, w.y)), ctx.c_str());
    }
    if (r.chance(0.2))
    {
      s.m->reset();
      for (auto & sc : s.scans) c.check(s.m->scoreScan(sc) == 0, "score without a map", "%g after a reset; %s", s.m->scoreScan(sc), ctx.c_str());
      c.count("without_map");
    }
  }
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
