// Monitors for the adaptive-sampling tree, the motion model and the particle filter (C08 - C12).
#include <set>
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <ndt_2d/kd_tree.hpp>
#include <ndt_2d/motion_model.hpp>
#include <ndt_2d/particle_filter.hpp>
#include "geom.hpp"

namespace vh { extern std::atomic<uint64_t> g_device_seed; }
using namespace vh;
using ndt_2d::Pose2d;
using ndt_2d::Point;
using V3 = Eigen::Vector3d;

namespace
{

struct Particle3 { double x, y, th; };

std::vector<Particle3> particles(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  std::vector<Particle3> v;
  for (auto & p : m.poses) v.push_back({p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)});
  return v;
}

class MockMatcher : public ndt_2d::ScanMatcher
{
public:
  std::function<double(const Pose2d &)> f;
  mutable std::vector<Particle3> asked;
  mutable bool points_ok = true;
  size_t expect_points = 0;
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator &, const std::vector<ndt_2d::ScanPtr>::const_iterator &) override {}
  double matchScan(const ndt_2d::ScanPtr &, Pose2d &, Eigen::Matrix3d &) const override { return 0; }
  double scoreScan(const ndt_2d::ScanPtr & s) const override { return scorePoints(s->getPoints(), s->getPose()); }
  double scorePoints(const std::vector<Point> & p, const Pose2d & pose) const override
  {
    if (p.size() != expect_points) points_ok = false;
    asked.push_back({pose.x, pose.y, pose.theta});
    return f(pose);
  }
  void reset() override {}
};

// The monitor's own account of the filter.
struct Monitor
{
  Case & c;
  ndt_2d::ParticleFilter & f;
  std::vector<double> w;      // expected weights
  double scale = 1;

  void uniform() { w.assign(particles(f).size(), 1.0 / particles(f).size()); }

  bool verify(const char * after)
  {
    const auto ps = particles(f);
    const V3 m = f.getMean();
    const Eigen::Matrix3d k = f.getCovariance();
    c.count("states");
    if (!c.check(m.allFinite() && k.allFinite(), "estimate not finite", "mean (%g, %g, %g) after %s", m(0), m(1), m(2), after)) return false;
    for (auto & p : ps)
    {
      if (!c.check(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.th), "particle not finite", "after %s", after)) return false;
      if (!c.check(std::fabs(p.th) <= M_PI + 1e-6, "particle heading", "heading %g after %s", p.th, after)) return false;
      scale = std::max({scale, std::fabs(p.x), std::fabs(p.y)});
    }
    if (!c.check(ps.size() == w.size(), "particle count", "%zu particles, expected %zu after %s", ps.size(), w.size(), after)) return false;
    long double mx = 0, my = 0, cs = 0, sn = 0, sw = 0;
    for (size_t i = 0; i < ps.size(); ++i) { mx += w[i] * ps[i].x; my += w[i] * ps[i].y; cs += w[i] * cosl(ps[i].th); sn += w[i] * sinl(ps[i].th); sw += w[i]; }
    mx /= sw; my /= sw;
    const double th = atan2l(sn, cs), R = sqrtl(sn * sn + cs * cs) / sw;
    long double xx = 0, xy = 0, yy = 0, tt = 0;
    for (size_t i = 0; i < ps.size(); ++i)
    {
      const long double dx = ps[i].x - mx, dy = ps[i].y - my, dt = adiff(ps[i].th, th);
      xx += w[i] * dx * dx; xy += w[i] * dx * dy; yy += w[i] * dy * dy; tt += w[i] * dt * dt;
    }
    xx /= sw; xy /= sw; yy /= sw; tt /= sw;
    const double tol = 1e-10 * scale, ctol = 1e-13 * 50 * scale * scale + 1e-12;
    bool ok = c.check(std::fabs(m(0) - static_cast<double>(mx)) <= tol && std::fabs(m(1) - static_cast<double>(my)) <= tol, "mean",
      "mean (%.10g, %.10g), weighted mean of the particles (%.10g, %.10g), after %s, %zu particles", m(0), m(1), static_cast<double>(mx), static_cast<double>(my), after, ps.size());
    if (R > 1e-4)
      ok &= c.check(std::fabs(adiff(m(2), th)) < 1e-7, "mean heading", "mean heading %.10g, circular mean of the particles %.10g, after %s", m(2), th, after);
    ok &= c.check(std::fabs(k(0, 0) - static_cast<double>(xx)) <= ctol && std::fabs(k(1, 1) - static_cast<double>(yy)) <= ctol && std::fabs(k(0, 1) - static_cast<double>(xy)) <= ctol,
      "covariance", "covariance %.9g %.9g %.9g, of the particles %.9g %.9g %.9g, after %s", k(0, 0), k(0, 1), k(1, 1), static_cast<double>(xx), static_cast<double>(xy), static_cast<double>(yy), after);
    ok &= c.check((k - k.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * (1 + k.cwiseAbs().maxCoeff()), "covariance not symmetric", "after %s", after);
    if (R > 1e-4)
      ok &= c.check(std::fabs(k(2, 2) - static_cast<double>(tt)) <= 1e-6 * (1 + static_cast<double>(tt)), "angular variance", "angular variance %.9g, of the particles %.9g, after %s",
        k(2, 2), static_cast<double>(tt), after);
    return ok;
  }
};

ndt_2d::ScanPtr some_scan(Rng & r, size_t & n)
{
  n = static_cast<size_t>(r.range(0, 5));
  std::vector<V2> p(n, V2{1, 2});
  return mkscan(0, r.uni(-5, 5), 0, 0, p);
}

// Each of these is a function of the particle's pose alone
std::function<double(const Pose2d &)> informative(Rng & r, double tx, double ty)
{
  const double s = r.uni(0.1, 2);
  return [=](const Pose2d & p) { return -std::exp(-0.5 * ((p.x - tx) * (p.x - tx) + (p.y - ty) * (p.y - ty)) / (s * s)); };
}

}  // namespace

VH_PROPERTY(C08, 100000, 4000000, "random bin sizes, reserves and insertion sequences (clustered, duplicated, on both sides of zero, far away, with clears), "
  "values kept away from bin borders; the oracle is a set of bins; distinct by the hash of the sequence")
{
  Rng & r = c.rng;
  const double sz[3] = {std::pow(10.0, r.uni(-2, 1)), r.chance(0.5) ? 0.5 : std::pow(10.0, r.uni(-2, 1)), std::pow(10.0, r.uni(-2, 0))};
  ndt_2d::KDTree<double> td(sz[0], sz[1], sz[2], r.range(0, 50));
  ndt_2d::KDTree<float> tf(sz[0], sz[1], sz[2], r.range(0, 50));
  const bool use_f = r.chance(0.2);
  std::set<std::array<long, 3>> bins;
  const long span = static_cast<long>(std::pow(10.0, r.uni(0, 4)));
  const int n = static_cast<int>(r.chance(0.003) ? r.range(2000, 6000) : r.range(1, 200));
  if (n > 1000) c.count("long_sequences");
  Hash h;
  size_t maxb = 0;
  std::vector<V3> seen;
  auto count = [&] { return use_f ? tf.getLeafCount() : td.getLeafCount(); };
  c.check(count() == 0, "empty tree", "a new tree has %zu leaves", count());
  for (int i = 0; i < n; ++i)
  {
    if (r.chance(0.01)) { tf.clear(); td.clear(); bins.clear(); c.check(count() == 0, "cleared tree", "%zu leaves after clear", count()); c.count("clears"); }
    std::array<long, 3> b;
    for (int k = 0; k < 3; ++k) b[k] = r.range(-span, span);
    if (r.chance(0.3)) for (int k = 0; k < 3; ++k) b[k] = r.range(-1, 1);
    V3 p;
    for (int k = 0; k < 3; ++k) p(k) = (b[k] + r.uni(0.001, 0.999)) * sz[k];
    if (!seen.empty() && r.chance(0.2))
    {
      p = seen[r.range(0, seen.size() - 1)];
      for (int k = 0; k < 3; ++k) b[k] = static_cast<long>(std::floor(p(k) / sz[k]));
    }
    else if (!seen.empty() && r.chance(0.3))   // differ in one direction only
    {
      const V3 q = seen[r.range(0, seen.size() - 1)];
      const int keep = static_cast<int>(r.range(0, 2));
      for (int k = 0; k < 3; ++k) if (k != keep) { p(k) = q(k); b[k] = static_cast<long>(std::floor(p(k) / sz[k])); }
    }
    seen.push_back(p);
    h.add(p(0)).add(p(1)).add(p(2));
    double v = r.uni(0, 1);
    float vf = static_cast<float>(v);
    V3 arg = p;
    if (use_f) tf.insert(arg, vf); else td.insert(arg, v);
    bins.insert(b);
    maxb = std::max(maxb, bins.size());
    c.count("insertions");
    if (!c.check(count() == bins.size(), "leaf count", "%zu leaves for %zu distinct bins after inserting (%.10g, %.10g, %.10g), bins of %.4g x %.4g x %.4g",
      count(), bins.size(), p(0), p(1), p(2), sz[0], sz[1], sz[2])) return;
  }
  // The same values in another order
  bins.clear();
  ndt_2d::KDTree<double> t2(sz[0], sz[1], sz[2], 0);
  r.shuffle(seen);
  for (auto & p : seen)
  {
    double v = 1;
    V3 arg = p;
    t2.insert(arg, v);
    std::array<long, 3> b;
    for (int k = 0; k < 3; ++k) b[k] = static_cast<long>(std::floor(p(k) / sz[k]));
    bins.insert(b);
  }
  c.check(t2.getLeafCount() == bins.size(), "insertion order", "%zu leaves for %zu bins in another order", t2.getLeafCount(), bins.size());
  if (maxb > 1) { c.distinct(h.h); if (c.index < 16) c.sample(fmt("%d insertions into up to %zu bins of %.3g x %.3g x %.3g", n, maxb, sz[0], sz[1], sz[2])); }
}

VH_PROPERTY(C09, 12000, 400000, "random motions (forward, backward, sideways, turning on the spot, below one centimetre), random noise parameters, random start headings; "
  "without noise against the exact pose, with noise 8000 samples against the specified means, variances, shape and independence (7 sigma); distinct by the motion")
{
  Rng & r = c.rng;
  g_device_seed = r.next();
  double dx, dy, dth = r.uni(-3.1, 3.1);
  const double len = std::pow(10.0, r.uni(-3, 1)), dir = r.chance(0.2) ? 0 : r.chance(0.2) ? M_PI : r.uni(-M_PI, M_PI);
  dx = len * std::cos(dir); dy = len * std::sin(dir);
  if (r.chance(0.1)) dx = dy = 0;
  if (r.chance(0.1)) dth = 0;
  // exactly
  {
    ndt_2d::MotionModel m(0, 0, 0, 0, 0);
    std::vector<V3> ps, before;
    const double off = std::pow(10.0, r.uni(0, 3));
    for (int i = 0; i < 30; ++i) ps.push_back(V3(r.uni(-off, off), r.uni(-off, off), r.uni(-M_PI, M_PI)));
    before = ps;
    m.sample(dx, dy, dth, ps);
    c.check(ps.size() == before.size(), "number of poses", "%zu became %zu", before.size(), ps.size());
    const double l = std::hypot(dx, dy);
    for (size_t i = 0; i < ps.size(); ++i)
    {
      const V2 e = apply(before[i](0), before[i](1), before[i](2), dx, dy);
      const double d = std::hypot(ps[i](0) - e.x, ps[i](1) - e.y), da = std::fabs(adiff(ps[i](2), before[i](2) + dth));
      c.count("exact_moves");
      c.check(d <= (l > 0.0101 ? 1e-5 * (1 + l) : 0.0203), "noise-free motion", "motion (%g, %g, %g) ends %g m away", dx, dy, dth, d);
      c.check(da < 1e-5, "noise-free turn", "motion (%g, %g, %g) turns %g too far", dx, dy, dth, da);
      c.check(std::fabs(ps[i](2)) <= M_PI + 1e-6, "heading range", "heading %g", ps[i](2));
    }
    if (c.failed) return;
  }
  // with noise
  if (len < 0.0101) return;   // the decomposition is not determined there
  const double a[4] = {r.chance(0.3) ? 0 : r.uni(0, 0.1), r.chance(0.3) ? 0 : r.uni(0, 0.1), r.chance(0.3) ? 0 : r.uni(0, 0.03), r.chance(0.3) ? 0 : r.uni(0, 0.03) * std::min(1.0, len * len)};
  const double trans = std::hypot(dx, dy);
  const bool still = trans == 0;
  const double rot1 = still ? 0 : std::atan2(dy, dx), rot2 = adiff(dth, rot1);
  auto near = [](double q) { return std::min(std::fabs(adiff(q, 0)), std::fabs(adiff(q, M_PI))); };
  const double v1 = a[0] * near(rot1) * near(rot1) + a[1] * trans * trans, vt = a[2] * trans * trans + a[3] * (near(rot1) * near(rot1) + near(rot2) * near(rot2)),
    v2 = a[0] * near(rot2) * near(rot2) + a[1] * trans * trans;
  if (std::sqrt(v1) > 0.22 || std::sqrt(v2) > 0.4) return;    // keep angles unambiguous
  const size_t N = 8000;
  ndt_2d::MotionModel m(a[0], a[1], a[2], a[3], r.uni(0, 1));
  const double th0 = r.uni(-M_PI, M_PI), x0 = r.uni(-5, 5), y0 = r.uni(-5, 5);
  std::vector<V3> ps(N, V3(x0, y0, th0));
  m.sample(dx, dy, dth, ps);
  std::vector<double> s1, st, s2;
  bool ambiguous = false;
  for (auto & p : ps)
  {
    const double ex = p(0) - x0, ey = p(1) - y0;
    double t = std::hypot(ex, ey), q = adiff(std::atan2(ey, ex), th0 + rot1);
    if (std::fabs(q) > M_PI / 2) { t = -t; q = adiff(q, M_PI); }
    if (std::fabs(t) < 1e-4) ambiguous = true;       // direction lost in the rounding of single precision
    s1.push_back(q);
    st.push_back(t - trans);
    s2.push_back(adiff(p(2), th0 + rot1 + q + rot2));
    c.check(std::fabs(p(2)) <= M_PI + 1e-6, "heading range", "heading %g", p(2));
  }
  if (still) ambiguous = true;
  auto stats = [&](const std::vector<double> & v, double var, const char * name)
  {
    double mean = 0, vv = 0, in = 0, in2 = 0;
    for (double q : v) mean += q;
    mean /= N;
    for (double q : v) { vv += (q - mean) * (q - mean); in += std::fabs(q) < std::sqrt(var); in2 += std::fabs(q) < 2 * std::sqrt(var); }
    vv /= N - 1;
    const double eps = 2e-6 * (1 + trans + std::fabs(x0) + std::fabs(y0)), sd = std::sqrt(var);
    c.count(std::string("moments_") + name);
    c.check(std::fabs(mean) < 7 * sd / std::sqrt(N) + eps, std::string("mean of the ") + name, "deviation %g for standard deviation %g; motion (%g, %g, %g), noise %g %g %g %g",
      mean, sd, dx, dy, dth, a[0], a[1], a[2], a[3]);
    const double e = eps / std::max(0.01, trans);
    if (sd < 20 * e) { c.check(std::sqrt(vv) < 30 * e + sd * 1.2, std::string("variance of the ") + name, "standard deviation %g, expected %g", std::sqrt(vv), sd); return; }
    c.check(std::fabs(vv / var - 1) < 7 * std::sqrt(2.0 / N) + 4 * e / sd, std::string("variance of the ") + name, "variance %g, expected %g; motion (%g, %g, %g) = (%g, %g, %g), noise %g %g %g %g",
      vv, var, dx, dy, dth, rot1, trans, rot2, a[0], a[1], a[2], a[3]);
    c.check(std::fabs(in / N - 0.682689) < 7 * std::sqrt(0.2166 / N) + 2 * e / sd && std::fabs(in2 / N - 0.9545) < 7 * std::sqrt(0.0434 / N) + 2 * e / sd, std::string("shape of the ") + name,
      "%g of the samples within one and %g within two standard deviations", in / N, in2 / N);
  };
  Hash h; h.add(dx).add(dy).add(dth);
  c.distinct(h.h);
  if (c.index < 40) c.sample(fmt("motion (%.4g, %.4g, %.4g), noise %.3g %.3g %.3g %.3g: expected deviations %.3g %.3g %.3g", dx, dy, dth, a[0], a[1], a[2], a[3], std::sqrt(v1), std::sqrt(vt), std::sqrt(v2)));
  if (!ambiguous && vt < 0.04 * trans * trans)
  {
    stats(s1, v1, "first rotation");
    stats(s2, v2, "second rotation");
    stats(st, vt, "translation");
    auto corr = [&](const std::vector<double> & p, const std::vector<double> & q, double vp, double vq)
    {
      if (vp < 1e-8 || vq < 1e-8) return;
      double sum = 0;
      for (size_t i = 0; i < N; ++i) sum += p[i] * q[i];
      c.count("independence");
      c.check(std::fabs(sum / N / std::sqrt(vp * vq)) < 7.5 / std::sqrt(N), "correlated noise", "correlation %g", sum / N / std::sqrt(vp * vq));
    };
    corr(s1, s2, v1, v2); corr(s1, st, v1, vt); corr(st, s2, vt, v2);
    // from one particle to the next
    if (v1 > 1e-8)
    {
      double sum = 0;
      for (size_t i = 0; i + 1 < N; ++i) sum += s1[i] * s1[i + 1];
      c.check(std::fabs(sum / N / v1) < 7.5 / std::sqrt(N), "correlated particles", "correlation %g", sum / N / v1);
    }
  }
  // Moments along and across the commanded direction, whatever the noise
  {
    double mp = 0, mq = 0, p2 = 0, q2 = 0, p4 = 0, q4 = 0;
    for (auto & q : ps)
    {
      const double ex = q(0) - x0, ey = q(1) - y0, d = th0 + rot1;
      const double u = ex * std::cos(d) + ey * std::sin(d), w = -ex * std::sin(d) + ey * std::cos(d);
      mp += u; mq += w; p2 += u * u; q2 += w * w; p4 += u * u * u * u; q4 += w * w * w * w;
    }
    mp /= N; mq /= N; p2 /= N; q2 /= N; p4 /= N; q4 /= N;
    const double e2 = (trans * trans + vt) * (1 + std::exp(-2 * v1)) / 2, f2 = (trans * trans + vt) * (1 - std::exp(-2 * v1)) / 2, em = trans * std::exp(-v1 / 2);
    const double eps = 2e-6 * (1 + trans + std::sqrt(vt) + std::fabs(x0) + std::fabs(y0)), eps2 = 2 * eps * (trans + 3 * std::sqrt(vt)) + eps * eps;
    auto sd = [&](double a, double b) { return std::sqrt(std::max(0.0, a - b * b) / N); };
    const std::string ctx = fmt("motion (%g, %g, %g), noise %g %g %g %g", dx, dy, dth, a[0], a[1], a[2], a[3]);
    c.count("displacements");
    c.check(std::fabs(mp - em) < 7.5 * sd(p2, mp) + eps, "mean displacement", "%g along the motion, expected %g; %s", mp, em, ctx.c_str());
    c.check(std::fabs(mq) < 7.5 * sd(q2, mq) + eps, "mean displacement across", "%g; %s", mq, ctx.c_str());
    c.check(std::fabs(p2 - e2) < 8 * sd(p4, p2) + eps2, "displacement along", "mean square %g, expected %g; %s", p2, e2, ctx.c_str());
    c.check(std::fabs(q2 - f2) < 8 * sd(q4, q2) + eps2, "displacement across", "mean square %g, expected %g; %s", q2, f2, ctx.c_str());
    if (c.failed) return;
  }
  if (ambiguous || vt >= 0.04 * trans * trans)
  {
    // the sum of both rotations is always visible
    std::vector<double> tot;
    for (auto & p : ps) tot.push_back(adiff(p(2), th0 + rot1 + rot2));
    if (std::sqrt(v1 + v2) < 0.5) stats(tot, v1 + v2, "total rotation");
  }
}

VH_PROPERTY(C10, 40000, 1000000, "random sequences of initialization, control, measurement and resampling with a scripted matcher, near and far from the origin and with headings "
  "around +-pi; the reported mean and covariance are recomputed from the particles after every step; distinct by the hash of the sequence")
{
  Rng & r = c.rng;
  g_device_seed = r.next();
  const size_t mn = r.range(2, 60), mx = mn + r.range(0, 200);
  const double k = r.chance(0.3) ? 0 : r.uni(0, 0.2);
  auto model = std::make_shared<ndt_2d::MotionModel>(k, k, k, k, k);
  ndt_2d::ParticleFilter f(mn, mx, model);
  auto matcher = std::make_shared<MockMatcher>();
  Monitor m{c, f, {}};
  m.uniform();
  c.check(m.w.size() == mn, "initial particle count", "%zu particles, minimum %zu", m.w.size(), mn);
  if (!m.verify("construction")) return;
  const double off = std::pow(10.0, r.uni(0, 3));
  double cx = 0, cy = 0;
  bool weighted = false;
  Hash h;
  std::string story;
  const int ops = static_cast<int>(r.range(2, 14));
  for (int o = 0; o < ops; ++o)
  {
    const int op = o == 0 && r.chance(0.8) ? 0 : static_cast<int>(r.range(0, 3));
    h.add(op);
    std::string name;
    if (op == 0)
    {
      cx = r.uni(-off, off); cy = r.uni(-off, off);
      const double th = r.chance(0.4) ? M_PI + r.uni(-0.3, 0.3) : r.uni(-M_PI, M_PI), sx = r.chance(0.1) ? 0 : r.uni(0, 2), sy = r.uni(0, 2), st = r.chance(0.1) ? 0 : r.uni(0, 1);
      f.init(cx, cy, th, sx, sy, st);
      m.uniform();
      weighted = false;
      name = fmt("init(%.4g, %.4g, %.4g; %.3g, %.3g, %.3g)", cx, cy, th, sx, sy, st);
      h.add(cx).add(th);
    }
    else if (op == 1)
    {
      const double dx = r.chance(0.2) ? 0 : r.uni(-1, 1), dy = r.chance(0.4) ? 0 : r.uni(-0.3, 0.3), dt = r.chance(0.3) ? 0 : r.uni(-2, 2);
      f.update(dx, dy, dt);
      name = fmt("update(%.3g, %.3g, %.3g)", dx, dy, dt);
      h.add(dx);
    }
    else if (op == 2)
    {
      if (weighted) continue;    // what a second measurement does to unequal weights is not specified
      const auto before = particles(f);
      size_t n;
      auto scan = some_scan(r, n);
      matcher->f = informative(r, before[0].x + r.normal(), before[0].y + r.normal());
      matcher->expect_points = n;
      matcher->asked.clear();
      matcher->points_ok = true;
      f.measure(matcher, scan);
      c.check(matcher->points_ok, "measurement used other points", "%s", story.c_str());
      double sum = 0;
      m.w.clear();
      for (auto & p : before) { m.w.push_back(-matcher->f(Pose2d(p.x, p.y, p.th))); sum += m.w.back(); }
      if (sum == 0) { m.w.assign(before.size(), 1); sum = before.size(); }
      else if (sum < 1e-250) return;    // too little to normalize exactly
      for (auto & q : m.w) q /= sum;
      name = "measure";
      weighted = true;
      c.count("measurements");
    }
    else
    {
      const size_t before = particles(f).size();
      f.resample(r.uni(0.005, 0.2), r.uni(0.5, 3));
      const size_t after = particles(f).size();
      m.uniform();
      weighted = false;
      name = fmt("resample (%zu -> %zu particles)", before, after);
      c.count("resamplings");
    }
    story += name + "; ";
    if (!m.verify(name.c_str())) { c.fail("(sequence)", story); return; }
  }
  // Spread of an initialization, with many particles
  if (c.index % 10 == 0)
  {
    const size_t N = 6000;
    ndt_2d::ParticleFilter g(N, N, model);
    const double x = r.uni(-off, off), y = r.uni(-off, off), th = r.uni(-4, 4), s[3] = {r.uni(0.01, 3), r.uni(0.01, 3), r.uni(0.01, 0.8)};
    g.init(x, y, th, s[0], s[1], s[2]);
    const auto ps = particles(g);
    double mean[3] = {0, 0, 0}, var[3] = {0, 0, 0}, in[3] = {0, 0, 0}, xy[3] = {0, 0, 0};
    for (auto & p : ps)
    {
      const double d[3] = {p.x - x, p.y - y, adiff(p.th, th)};
      for (int i = 0; i < 3; ++i) { mean[i] += d[i] / N; var[i] += d[i] * d[i] / N; in[i] += (std::fabs(d[i]) < s[i]) / static_cast<double>(N); xy[i] += d[i] * d[(i + 1) % 3] / s[i] / s[(i + 1) % 3] / N; }
    }
    c.count("spreads");
    for (int i = 0; i < 3; ++i)
    {
      c.check(ps.size() == N && std::fabs(mean[i]) < 7 * s[i] / std::sqrt(N) + 1e-6 * off && std::fabs(var[i] / s[i] / s[i] - 1) < 7 * std::sqrt(2.0 / N) + 1e-4 * off / s[i] / 100,
        "spread of an initialization", "component %d: mean off by %g, deviation %g for a requested %g (%zu particles)", i, mean[i], std::sqrt(var[i]), s[i], ps.size());
      c.check(std::fabs(in[i] - 0.6827) < 7 * std::sqrt(0.2166 / N) + 0.01, "shape of an initialization", "component %d: %g within one deviation", i, in[i]);
      c.check(std::fabs(xy[i]) < 8 / std::sqrt(N), "correlated initialization", "components %d and %d correlate by %g", i, (i + 1) % 3, xy[i]);
    }
  }
  c.distinct(h.h);
  if (c.index < 16) c.sample(story);
}

VH_PROPERTY(C11, 12000, 400000, "filters with particles confined to a known number of bins by a scripted matcher and weighted arbitrarily, then resampled: membership, exclusion of zero weights, "
  "counts per group against the weights (7 sigma), particle count against the KLD bound; distinct by number of bins, limits and parameters")
{
  Rng & r = c.rng;
  g_device_seed = r.next();
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  const bool fixed = r.chance(0.4), many = r.chance(0.02);   // rarely, bounds of many thousand particles
  const size_t mn = fixed ? r.range(300, 1500) : r.range(1, 200), mx = fixed ? mn : many ? mn + r.range(1500, 20000) : mn + r.range(0, 1500);
  ndt_2d::ParticleFilter f(mn, mx, model);
  auto matcher = std::make_shared<MockMatcher>();
  size_t npts;
  auto scan = some_scan(r, npts);
  matcher->expect_points = npts;
  // Spread the particles widely, keep only those well inside a bin and of a chosen set of bins
  const double sig = std::pow(10.0, r.uni(-0.5, 1.5)), ox = r.uni(-20, 20), oy = r.uni(-20, 20);
  f.init(ox, oy, 0.1335, sig, sig, 0.012);
  const uint64_t salt = r.next();
  const double keep = r.uni(0.05, 1);
  auto group = [&](double x, double y) -> int64_t
  {
    const double fx = x / 0.5, fy = y / 0.5;
    if (fx - std::floor(fx) < 0.1 || fx - std::floor(fx) > 0.9 || fy - std::floor(fy) < 0.1 || fy - std::floor(fy) > 0.9) return -1;
    const int64_t i = static_cast<int64_t>(std::floor(fx)), j = static_cast<int64_t>(std::floor(fy));
    Hash h; h.add(salt).add(i).add(j);
    if ((h.h >> 11) * 0x1.0p-53 > keep) return -1;
    return ((i + 1000000) << 24) + j + 1000000;
  };
  auto score = [&](const Pose2d & p)
  {
    const int64_t g = group(p.x, p.y);
    if (g < 0 || std::fabs(p.theta - 0.1335) > 0.12) return 0.0;
    Hash h; h.add(salt).add(p.x).add(g);
    return -0.02 - 0.9 * ((h.h >> 11) * 0x1.0p-53);
  };
  matcher->f = score;
  const double err = many ? r.uni(0.0005, 0.01) : r.uni(0.005, 0.3), z = r.uni(0.3, 3);
  std::string story;
  for (int round = 0; round < 3; ++round)
  {
    const auto before = particles(f);
    f.measure(matcher, scan);
    double sum = 0;
    std::map<int64_t, double> wg;
    std::set<std::array<double, 3>> alive;
    for (auto & p : before)
    {
      const double w = -score(Pose2d(p.x, p.y, p.th));
      if (w <= 0) continue;
      sum += w;
      wg[group(p.x, p.y)] += w;
      alive.insert({p.x, p.y, p.th});
    }
    if (sum <= 0) return;
    const V3 mean_before = f.getMean();
    const Eigen::Matrix3d cov_before = f.getCovariance();
    f.resample(err, z);
    const auto after = particles(f);
    c.count("resamplings");
    story = fmt("%zu -> %zu particles (limits %zu and %zu), %zu bins before, err %.3g z %.3g", before.size(), after.size(), mn, mx, wg.size(), err, z);
    std::map<int64_t, long> ng;
    for (auto & p : after)
    {
      if (!c.check(alive.count({p.x, p.y, p.th}), "a particle from nowhere", "(%g, %g, %g) was not in the set or had zero weight; %s", p.x, p.y, p.th, story.c_str())) return;
      ++ng[group(p.x, p.y)];
    }
    c.check(after.size() >= mn && after.size() <= mx, "particle limits", "%s", story.c_str());
    // KLD bound
    const size_t k = ng.size();
    double lo = mx, hi = mx;
    if (k > 1)
    {
      const double b = 2.0 / (9.0 * (k - 1)), q = 1 - b + std::sqrt(b) * z, bound = (k - 1) / (2 * err) * q * q * q;
      lo = std::min<double>(mx, std::max<double>(mn, std::floor(bound * (1 - 1e-9))));
      hi = std::min<double>(mx, std::max<double>(mn, std::ceil(bound * (1 + 1e-9))));
      // While every particle falls into one bin there is no bound: the second bin may be hit late
      if (k == 2 && std::any_of(ng.begin(), ng.end(), [](auto & g) { return g.second == 1; })) hi = mx;
      c.count(hi >= mx ? "stopped_at_maximum" : lo <= mn ? "stopped_at_minimum" : "stopped_at_bound");
    }
    if (!c.check(after.size() >= lo && after.size() <= hi, "KLD bound", "%zu particles, expected %g to %g for %zu bins; %s", after.size(), lo, hi, k, story.c_str())) return;
    Hash h; h.add(k).add(mn).add(mx).add(err).add(z);
    if (k > 1) c.distinct(h.h);
    // distribution over the groups
    const double n = after.size();
    if (mn == mx || after.size() == mx || true)
    {
      for (auto & [g, w] : wg)
      {
        const double p = w / sum, e = n * p, sd = std::sqrt(n * p * (1 - p));
        c.count("group_counts");
        if (e < 5) continue;
        if (!c.check(std::fabs(ng[g] - e) <= 7.5 * sd + 3, "distribution", "%ld of %g particles in a group of weight %g (expected %g +- %g); %s", ng[g], n, p, e, sd, story.c_str())) return;
      }
      // mean and spread as reported by the filter itself
      const V3 m = f.getMean();
      const Eigen::Matrix3d cv = f.getCovariance();
      for (int i = 0; i < 2; ++i)
      {
        const double sd = std::sqrt(std::max(0.0, cov_before(i, i)) / n);
        // the largest possible deviation of one particle bounds the skewed cases
        if (n >= 100 && !c.check(std::fabs(m(i) - mean_before(i)) <= 7.5 * sd + 6 * 60 * sig / n * (wg.size() < 3 ? 1 : 0.2) + 1e-6, "mean after resampling", "component %d: %g -> %g (deviation of the mean %g); %s", i, mean_before(i), m(i), sd, story.c_str())) return;
        if (n >= 300 && cov_before(i, i) > 1e-6)
        {
          // fourth moment from the particles themselves
          double m4 = 0;
          for (auto & p : before)
          {
            const double w = -score(Pose2d(p.x, p.y, p.th)) / sum, d = (i ? p.y : p.x) - mean_before(i);
            m4 += w * d * d * d * d;
          }
          const double vs = std::sqrt(std::max(0.0, m4 - cov_before(i, i) * cov_before(i, i)) / n);
          c.count("spreads");
          if (!c.check(std::fabs(cv(i, i) - cov_before(i, i)) <= 9 * vs + 60 * cov_before(i, i) / n, "spread after resampling", "component %d: variance %g -> %g (deviation %g); %s", i, cov_before(i, i), cv(i, i), vs, story.c_str())) return;
        }
      }
    }
  }
  if (c.index < 24) c.sample(story);
}

VH_PROPERTY(C12, 40000, 1000000, "cycles of control, measurement and resampling in which measurements score zero, NaN, infinite, denormal or mixed, followed by informative ones; "
  "distinct by the hash of the sequence of measurements")
{
  Rng & r = c.rng;
  g_device_seed = r.next();
  const size_t mn = r.range(20, 150), mx = mn + r.range(0, 300);
  const double k = r.uni(0, 0.1);
  auto model = std::make_shared<ndt_2d::MotionModel>(k, k, k, k, k);
  ndt_2d::ParticleFilter f(mn, mx, model);
  auto matcher = std::make_shared<MockMatcher>();
  const double ox = r.uni(-50, 50), oy = r.uni(-50, 50);
  f.init(ox, oy, r.uni(-3, 3), 1.0, 1.0, 0.3);
  Hash h;
  std::string story;
  const int rounds = static_cast<int>(r.range(2, 8));
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  for (int q = 0; q < rounds; ++q)
  {
    if (r.chance(0.5)) f.update(r.uni(-0.2, 0.2), 0, r.uni(-0.2, 0.2));
    const int kind = q == rounds - 1 ? 7 : static_cast<int>(r.range(0, 8));
    const uint64_t salt = r.next();
    auto coin = [salt](const Pose2d & p) { Hash g; g.add(salt).add(p.x).add(p.y); return (g.h >> 11) * 0x1.0p-53; };
    const auto before = particles(f);
    const auto target = before[r.range(0, before.size() - 1)];
    auto good = [=](const Pose2d & p) { return -std::exp(-8 * ((p.x - target.x) * (p.x - target.x) + (p.y - target.y) * (p.y - target.y))); };
    const char * names[] = {"all zero", "all NaN", "some NaN", "all -inf", "denormal", "one scores", "some -inf", "informative", "part scores"};
    const double small = std::pow(10, r.uni(-5, 0));
    const bool half = r.chance(0.5);
    switch (kind)
    {
      case 0: matcher->f = [](const Pose2d &) { return 0.0; }; break;
      case 1: matcher->f = [=](const Pose2d &) { return nan; }; break;
      case 2: matcher->f = [=](const Pose2d & p) { return coin(p) < 0.3 ? nan : good(p); }; break;
      case 3: matcher->f = [=](const Pose2d &) { return -inf; }; break;
      case 4: matcher->f = [=](const Pose2d & p) { return coin(p) < 0.5 ? -5e-324 : -0.0; }; break;
      case 5: matcher->f = [=](const Pose2d & p) { return p.x == target.x && p.y == target.y ? -0.5 : 0.0; }; break;
      case 6: matcher->f = [=](const Pose2d & p) { return coin(p) < 0.1 ? -inf : good(p); }; break;
      case 8: matcher->f = [=](const Pose2d & p) { return (half ? p.x > target.x : coin(p) < 0.1) ? -small * (0.5 + coin(p)) : 0.0; }; break;
      default: matcher->f = good;
    }
    h.add(kind).add(mn);
    story += names[kind] + std::string("; ");
    size_t n;
    auto scan = some_scan(r, n);
    matcher->expect_points = n;
    f.measure(matcher, scan);
    c.count(std::string("measured_") + names[kind]);
    auto finite = [&](const char * when)
    {
      const V3 m = f.getMean();
      const Eigen::Matrix3d cv = f.getCovariance();
      bool ok = c.check(m.allFinite() && cv.allFinite(), "estimate not finite", "after %s: mean (%g, %g, %g); %s", when, m(0), m(1), m(2), story.c_str());
      const auto ps = particles(f);
      for (auto & p : ps) ok = ok && c.check(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.th), "particle not finite", "after %s; %s", when, story.c_str());
      ok = ok && c.check(ps.size() <= mx && ps.size() >= mn, "particle count out of bounds", "%zu particles, limits %zu and %zu, after %s; %s", ps.size(), mn, mx, when, story.c_str());
      return ok;
    };
    if (!finite("a measurement")) return;
    const V3 est = f.getMean();
    const bool follows = kind == 2 || kind >= 5;
    std::set<std::pair<double, double>> scoring;
    if (follows)
    {
      double sx = 0, sy = 0, sw = 0;
      for (auto & p : before) { const double w = -matcher->f(Pose2d(p.x, p.y, p.th)); if (std::isfinite(w)) { if (w > 0) scoring.insert({p.x, p.y}); sw += w; sx += w * p.x; sy += w * p.y; } }
      if (sw > 1e-100)
      {
        c.count("concentrations");
        if (!c.check(std::hypot(est(0) - sx / sw, est(1) - sy / sw) < 1e-6, "estimate does not follow the well-scoring particles", "mean (%g, %g), expected (%g, %g); %s", est(0), est(1), sx / sw, sy / sw, story.c_str())) return;
      }
    }
    if (kind <= 1 || kind == 3)
    {
      // nothing was learnt: the estimate stays that of the particles
      double sx = 0, sy = 0;
      for (auto & p : before) { sx += p.x / before.size(); sy += p.y / before.size(); }
      if (!c.check(std::hypot(est(0) - sx, est(1) - sy) < 1e-6, "an uninformative measurement moved the estimate", "mean (%g, %g), particles about (%g, %g); %s", est(0), est(1), sx, sy, story.c_str())) return;
    }
    f.resample(0.01 + 0.1 * r.u(), 2.3);
    if (!finite("resampling")) return;
    if (!scoring.empty())
      for (auto & p : particles(f))
        if (!c.check(scoring.count({p.x, p.y}), "particle survives without scoring", "(%g, %g); %s", p.x, p.y, story.c_str())) return;
    if (kind == 7)
    {
      // particles far from the target have weights of next to nothing
      const V3 m = f.getMean();
      double sx = 0, sy = 0;
      const auto ps = particles(f);
      for (auto & p : ps) { sx += p.x / ps.size(); sy += p.y / ps.size(); }
      if (!c.check(std::hypot(m(0) - sx, m(1) - sy) < 1e-6, "estimate after resampling is not that of the particles", "mean (%g, %g), particles about (%g, %g); %s", m(0), m(1), sx, sy, story.c_str())) return;
      if (!c.check(std::hypot(m(0) - est(0), m(1) - est(1)) < 1.0, "resampling lost the estimate", "mean (%g, %g) -> (%g, %g); %s", est(0), est(1), m(0), m(1), story.c_str())) return;
    }
  }
  c.distinct(h.h);
  if (c.index < 16) c.sample(story);
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
