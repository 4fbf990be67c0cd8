// Monitors for the node as a whole (C29, C31, C32): trips through simulated rooms, faults, parameters.
#include "sim.hpp"

// ---------------------------------------------------------------- C29
namespace
{
struct Room
{
  std::vector<std::array<double, 4>> walls;
  explicit Room(Rng & r)
  {
    box(-4.5, -3.5, 4.5, 3.5);
    for (int i = 0; i < 7; ++i)
    {
      const double a = i * 0.9 + r.uni(-0.2, 0.2), d = r.uni(2.6, 3.1);
      const double x = d * 1.2 * std::cos(a), y = d * 0.95 * std::sin(a), w = r.uni(0.1, 0.4), h = r.uni(0.1, 0.4);
      box(x - w, y - h, x + w, y + h);
    }
  }
  void box(double x0, double y0, double x1, double y1)
  {
    walls.push_back({x0, y0, x1, y0}); walls.push_back({x1, y0, x1, y1});
    walls.push_back({x1, y1, x0, y1}); walls.push_back({x0, y1, x0, y0});
  }
  double cast(double x, double y, double a) const
  {
    const double dx = std::cos(a), dy = std::sin(a);
    double best = 100;
    for (auto & w : walls)
    {
      const double ex = w[2] - w[0], ey = w[3] - w[1], den = dx * ey - dy * ex;
      if (std::fabs(den) < 1e-12) continue;
      const double t = ((w[0] - x) * ey - (w[1] - y) * ex) / den, u = ((w[0] - x) * dy - (w[1] - y) * dx) / den;
      if (t > 0.01 && u >= 0 && u <= 1 && t < best) best = t;
    }
    return best;
  }
};

struct Trip
{
  int mode = 0;            // 0: mapping, 1: localizing by matching, 2: particle filter, 3: particle filter without a map
  bool faulty = false;
  double worst = 0, last = 0;
  size_t closures = 0, scans = 0;
  long bad = 0, good = 0;
  bool failed = false;
};

// One trip round the room; everything but the faults depends on the seed alone.
void trip(vh::Case & c, uint64_t seed, Trip & t)
{
  Rng r(seed), noise(seed + 1), fr(seed + 2);
  Config k;
  k.matcher = "ndt_2d::ScanMatcherNDT";
  k.depth = 8;
  k.search = 1.0;
  k.limit = 3;
  k.opt = 5;
  k.min_d = 0.1;
  k.min_r = 0.3;
  k.bary = r.chance(0.5);
  k.mapping = t.mode != 1;
  k.pf = t.mode >= 2;
  k.min_p = 60;
  k.max_p = 150;
  k.alpha = 0.03;
  Room room(r);
  const double range = 12;
  const int beams = static_cast<int>(r.range(200, 320));
  const double radius = r.uni(1.1, 1.5);
  auto truth = [&](double s) {
    // a slightly squeezed circle, looking ahead or inward
    const double a = s / radius;
    return Pose{radius * std::cos(a), 0.8 * radius * std::sin(a), std::remainder(a + M_PI / 2, 2 * M_PI)};
  };
  Pose start = truth(0), here = start;
  bool begun = false;
  auto points_at = [&](const Pose & p) {
    std::vector<V2> v;
    for (int i = 0; i < beams; ++i)
    {
      const double a = -M_PI + i * 2 * M_PI / beams, d = room.cast(p.x, p.y, p.th + a);
      v.push_back({d * std::cos(a), d * std::sin(a)});
    }
    return v;
  };
  Sim s(c, k);
  if (t.mode == 1 || t.mode == 2)
  {
    Dump d;
    const int n = static_cast<int>(2 * M_PI * radius / 0.3);
    for (int i = 0; i < n; ++i)
    {
      ScanRec q;
      q.id = i;
      q.p = mul(inv(start), truth(i * 0.3));
      q.pts = points_at(truth(i * 0.3));
      d.s.push_back(q);
      if (!i) continue;
      ConRec e;
      e.b = i - 1; e.e = i;
      Sim::relative(d.s[i - 1].p, q.p, e.t);
      for (int j = 0; j < 9; ++j) e.info[j] = j % 4 == 0 ? 100 : 0;
      d.c.push_back(e);
    }
    d.graph(true)->save("start");
    s.k.map_file = "start";
  }
  using P = vstub::ParamValue;
  for (const char * n : {"local_scan_matcher", "global_scan_matcher"})
  {
    const std::string b = n;
    vstub::g_params[b + ".search_angular_size"] = P(0.05);
    vstub::g_params[b + ".search_angular_resolution"] = P(0.01);
    vstub::g_params[b + ".search_linear_size"] = P(0.08);
    vstub::g_params[b + ".search_linear_resolution"] = P(0.02);
    vstub::g_params[b + ".laser_max_beams"] = P(int64_t(r.chance(0.2) ? 1000 : 60));
  }
  s.f.mount = r.chance(0.5) ? Pose() : Pose{r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-3, 3)};
  s.f.inverted = r.chance(0.3);
  Pose odom{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
  s.f.odom_at = [&](int64_t) { return odom; };
  s.start();
  int64_t stamp = 1;
  auto deliver = [&](std::shared_ptr<LaserScan> m) {
    s.run([m] { vstub::bus().deliver<LaserScan>("scan", m); });
    // the map starts where its first scan was taken
    if (t.mode == 0 && !begun && !s.dump().s.empty()) { begun = true; start = here; }
  };
  auto blank = [&](int n) {
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = "laser";
    m->header.stamp = rclcpp::Time(1000000000LL + ++stamp);
    m->angle_min = static_cast<float>(-M_PI);
    m->angle_increment = static_cast<float>(2 * M_PI / beams);
    m->angle_max = static_cast<float>(M_PI);
    m->range_max = static_cast<float>(range);
    m->ranges.assign(n, 1.0f);
    return m;
  };
  auto finite_all = [&] {
    const Dump d = s.dump();
    for (auto & x : d.s)
    {
      if (!c.check(finite(x.p), "pose of a scan not finite", "scan %zu of %zu at %s; %s", x.id, d.s.size(), str(x.p).c_str(), s.tail().c_str())) return false;
      for (auto & p : x.pts) if (!c.check(std::isfinite(p.x) && std::isfinite(p.y), "point of a scan not finite", "scan %zu; %s", x.id, s.tail().c_str())) return false;
    }
    for (auto & q : d.c)
    {
      bool ok = q.b < d.s.size() && q.e < d.s.size();
      for (double x : q.t) ok = ok && std::isfinite(x);
      for (double x : q.info) ok = ok && std::isfinite(x);
      if (!c.check(ok, "constraint not finite", "%zu->%zu; %s", q.b, q.e, s.tail().c_str())) return false;
    }
    for (auto & q : s.cloud.poses)
      if (!c.check(std::isfinite(q.position.x) && std::isfinite(q.position.y) && std::isfinite(q.orientation.z) && std::isfinite(q.orientation.w), "particle not finite", "%s", s.tail().c_str())) return false;
    for (auto & q : s.tfs)
      if (!c.check(finite(pose(q)), "transform not finite", "%s; %s", str(pose(q)).c_str(), s.tail().c_str())) return false;
    for (double x : {s.map_msg.info.origin.position.x, s.map_msg.info.origin.position.y})
      if (!c.check(std::isfinite(x), "origin of the published map not finite", "%s", s.tail().c_str())) return false;
    c.count("states_checked");
    t.closures = 0;
    for (auto & q : d.c) t.closures += q.sw;
    t.scans = d.s.size();
    return true;
  };
  auto ruin = [&] {
    // a message nobody can use, perhaps in between good ones
    const int kind = static_cast<int>(fr.range(0, 8));
    auto m = blank(kind == 0 ? 0 : static_cast<int>(fr.chance(0.2) ? fr.range(1, 2) : beams));
    auto all = [&](float x) { for (auto & v : m->ranges) v = x; };
    std::string what = "no readings";
    switch (kind)
    {
      case 0: if (fr.chance(0.5)) m->range_max = m->range_min = m->angle_min = m->angle_max = m->angle_increment = 0; break;
      case 1: all(std::numeric_limits<float>::quiet_NaN()); what = "NaN"; break;
      case 2: all(std::numeric_limits<float>::infinity()); what = "infinity"; break;
      case 3: all(-std::numeric_limits<float>::infinity()); what = "-infinity"; break;
      case 4: all(50.0f); what = "out of range"; break;
      case 5: all(std::numeric_limits<float>::max()); what = "far out of range"; break;
      case 6: all(0.0f); what = "zero"; break;
      case 7: s.f.odom_ok = false; what = "no transform"; break;
      case 8: s.f.fail_at = fr.range(0, 1); s.f.lookups = 0; what = "a transform fails"; break;
    }
    if (kind < 7 && fr.chance(0.2)) { for (auto & v : m->ranges) if (fr.chance(0.5)) v = fr.pick(std::vector<float>{NAN, INFINITY, -INFINITY, 100.0f, 0.0f}); what += " mixed"; }
    if (kind >= 7) { s.note(what); }
    else s.note(what);
    deliver(m);
    s.f.odom_ok = true;
    s.f.fail_at = -1;
    ++t.bad;
    c.count("bad_messages");
  };
  if (s.k.map_file.size())
  {
    auto m = pose_msg(Pose(), "map", 0.01, 0.01, 0.001);
    s.run([m] { vstub::bus().deliver<PoseMsg>("initialpose", m); });
  }
  if (t.faulty && fr.chance(0.5)) ruin();
  const double step = r.uni(0.28, 0.36);
  const int n = static_cast<int>((t.mode == 0 ? 2.1 : 1.2) * 2 * M_PI * radius / step);
  Pose last = truth(0);
  int burst = 0;
  for (int i = 0; i < n && !c.failed; ++i)
  {
    const Pose now = truth(i * step);
    Pose d = mul(inv(last), now);
    d.x += noise.uni(-0.01, 0.01); d.y += noise.uni(-0.01, 0.01); d.th += noise.uni(-0.008, 0.008);
    odom = mul(odom, d);
    last = here = now;
    if (t.faulty)
    {
      if (burst > 0) --burst;
      else if (fr.chance(0.12)) burst = static_cast<int>(fr.range(1, 3));
      if (burst > 0)
      {
        // instead of the good message, or right before it
        const bool instead = fr.chance(0.5);
        ruin();
        if (instead) { vt::advance(300000000LL, s.r); continue; }
      }
    }
    auto m = blank(beams);
    for (int b = 0; b < beams; ++b)
    {
      // where the beam points in the world
      const double a = static_cast<double>(m->angle_min) + static_cast<double>(m->angle_increment) * b;
      const Pose laser = mul(now, s.f.mount);
      const double dir = laser.th + (s.f.inverted ? -a : a);
      m->ranges[b] = static_cast<float>(room.cast(laser.x, laser.y, dir) + noise.uni(-0.005, 0.005));
    }
    deliver(m);
    ++t.good;
    vt::advance(300000000LL, s.r);
    if (t.mode == 3) continue;
    // the transform puts the robot where it is
    if (s.tfs.empty()) continue;
    const Pose est = mul(pose(s.tfs.back()), odom), want = mul(inv(start), now);
    t.last = std::hypot(est.x - want.x, est.y - want.y) + std::fabs(adiff(est.th, want.th));
    if (!(t.last <= t.worst)) t.worst = t.last;
    if (i % 8 == 0 && !finite_all()) { t.failed = true; return; }
  }
  vt::advance(2000000000LL, s.r);
  if (c.failed || !finite_all()) { t.failed = true; return; }
  s.note("end");
}
}  // namespace

static void room_trip(vh::Case & c)
{
  Rng & r = c.rng;
  Trip a, b;
  a.mode = b.mode = static_cast<int>(r.chance(0.55) ? 0 : r.range(1, 3));
  const uint64_t seed = r.next();
  b.faulty = true;
  trip(c, seed, a);
  if (a.failed || c.failed) return;
  trip(c, seed, b);
  if (b.failed || c.failed) return;
  if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld mode %d: worst %.3f / %.3f, last %.3f / %.3f, scans %zu / %zu, closures %zu / %zu, bad %ld\n", c.index, a.mode, a.worst, b.worst, a.last, b.last, a.scans, b.scans, a.closures, b.closures, b.bad);
  // Bounds are several times what any trip reaches; a broken node ends metres away, or closes no loops at all.
  const double worst[] = {1.0, 0.4, 0.6, 1}, last[] = {0.6, 0.3, 0.4, 1};
  for (const Trip * t : {&a, &b})
  {
    const char * with = t == &a ? "without" : "with";
    c.check(t->worst < worst[a.mode] && t->last < last[a.mode], t == &a ? "robot lost" : "robot lost after unusable messages",
      "mode %d, %s unusable messages: worst error %.3f, at the end %.3f (without any: %.3f, %.3f)", a.mode, with, t->worst, t->last, a.worst, a.last);
  }
  if (a.closures >= 8) c.check(b.closures > 0, "no loop closures after unusable messages", "%zu closures without unusable messages, none with %ld of them", a.closures, b.bad);
  if (a.mode == 0) c.check(static_cast<long>(b.scans) * 3 >= static_cast<long>(b.good) * 2, "good scans not mapped after unusable messages", "%zu scans of %ld good messages", b.scans, b.good);
  c.count("good_messages", a.good + b.good);
  c.count("closures", a.closures + b.closures);
  Hash h; h.add(a.worst).add(b.worst).add(b.bad).add(a.mode);
  c.distinct(h.h);
  c.count("mode_" + std::to_string(a.mode));
  if (c.index < 16) c.sample(fmt("mode %d: %ld good and %ld bad messages, worst error %.3f without and %.3f with them, closures %zu and %zu", a.mode, b.good, b.bad, a.worst, b.worst, a.closures, b.closures));
}


// A random history; unusable messages come on top, drawn from a sequence of their own.
static void history(vh::Case & c, uint64_t seed, bool bad, std::string & key, std::string & msg, long & used)
{
  c.rng = Rng(seed);
  Rng fr(seed + 1);
  Rng & r = c.rng;
  Config k = random_config(r);
  k.pf = r.chance(0.25);
  k.mapping = r.chance(0.75);
  k.depth = static_cast<int>(r.range(1, 6));
  if (r.chance(0.6)) k.search = r.pick(std::vector<double>{1, 3});
  Sim s(c, k);
  s.capture = true;
  s.fault_rate = 1;
  s.exact_particles = r.chance(0.7);
  if (!s.exact_particles) s.k.alpha = 0.05;
  if (k.pf || !k.mapping || r.chance(0.3)) { s.k.map_file = "start"; seed_map(r, "start", static_cast<int>(r.range(1, 10)), 3); }
  play(s, bad ? 0.05 : 0);
  s.odom = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
  s.start();
  auto ruin = [&] {
    const int n = bad ? static_cast<int>(fr.chance(0.3) ? fr.range(1, 3) : 0) : 0;
    for (int i = 0; i < n && !s.over; ++i)
    {
      std::swap(c.rng, fr);
      s.faults = r.chance(0.4);
      const int content = static_cast<int>(s.faults ? r.range(0, 3) : r.range(1, 4));
      if (r.chance(0.3)) s.move();
      s.laser(r.chance(0.2) ? 1 : points(r), content);
      s.faults = false;
      c.count("bad_messages");
      std::swap(c.rng, fr);
    }
  };
  const int ops = static_cast<int>(r.range(8, 30));
  ruin();
  ruin();
  for (int i = 0; i < ops && !s.over; ++i)
  {
    if (!s.localized && r.chance(0.7)) s.initial_pose(0);
    switch (r.range(0, 9))
    {
      case 0: s.advance(2); break;
      case 1: s.advance(0.25 * r.range(1, 8)); break;
      case 2: if (r.chance(0.2)) { s.configure(Conf::Request::DISABLE_MAPPING, ""); if (r.chance(0.5)) s.configure(Conf::Request::ENABLE_MAPPING, ""); } break;
      default:
        s.move();
        ruin();
        s.laser(points(r));
        ruin();
    }
  }
  if (!s.over) s.advance(2);
  if (!s.over) s.published();
  if (!s.over)
  {
    const Dump d = s.dump();
    bool ok = true;
    for (auto & x : d.s) { ok = ok && finite(x.p); for (auto & p : x.pts) ok = ok && std::isfinite(p.x) && std::isfinite(p.y); }
    for (auto & q : d.c) { for (double x : q.t) ok = ok && std::isfinite(x); for (double x : q.info) ok = ok && std::isfinite(x); }
    s.chk("C29", ok, "map not finite", "%zu scans, %zu constraints", d.s.size(), d.c.size());
  }
  key = s.first_key;
  msg = s.first_msg;
  used = static_cast<long>(s.events.size());
  if (bad) finish(s, c, used > 1 ? used : 0);
}

VH_PROPERTY(C29, 2036, 40500, "trips through a simulated room with the real matcher, in every mode, with and without unusable messages in between (all outputs have to be finite, pose errors and loop closures are compared with those of the same trip without them), and random histories with unusable messages of every kind beside the reference model of the mapper; a deviation counts when the same history without these messages shows none")
{
  const long trips = vh::opt.thorough ? 500 : 36;
  if (c.index < trips) { room_trip(c); return; }
  const uint64_t seed = c.rng.next();
  std::string key, msg, key0, msg0;
  long used = 0, used0 = 0;
  history(c, seed, true, key, msg, used);
  c.count("histories");
  if (key.empty()) return;
  history(c, seed, false, key0, msg0, used0);
  if (key0.empty()) c.fail(key, msg);
  else { c.count("other_property"); if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld: %s: %s\n", c.index, key0.c_str(), msg0.c_str()); }
}

// ---------------------------------------------------------------- C31
namespace
{
double log_uniform(Rng & r, double a, double b) { return std::exp(r.uni(std::log(a), std::log(b))); }
void localize(Sim & s, const Pose & p, double cx = 0, double cy = 0, double cth = 0)
{
  auto m = pose_msg(p, "map", cx, cy, cth);
  s.run([m] { vstub::bus().deliver<PoseMsg>("initialpose", m); });
}
void send(Sim & s, std::shared_ptr<LaserScan> m) { s.run([m] { vstub::bus().deliver<LaserScan>("scan", m); }); }

// Each noise parameter reaches the motion model in its own place.
void noise_parameters(vh::Case & c)
{
  Rng & r = c.rng;
  double a[4], trans, rot1, rot2, v1, vt, v2;
  do
  {
    for (double & x : a) x = r.chance(0.25) ? 0 : log_uniform(r, 3e-4, 0.05);
    trans = r.uni(0.3, 1.2); rot1 = r.uni(-1.3, 1.3); rot2 = r.uni(-1.3, 1.3);
    v1 = a[0] * rot1 * rot1 + a[1] * trans * trans;
    vt = a[2] * trans * trans + a[3] * (rot1 * rot1 + rot2 * rot2);
    v2 = a[0] * rot2 * rot2 + a[1] * trans * trans;
  } while (v1 > 0.08 || v2 > 0.08 || vt > trans * trans / 30 || std::fabs(rot1 + rot2) > 3);
  const double n = 4000;
  Config k;
  k.pf = true;
  k.min_p = k.max_p = static_cast<int>(n);
  for (int i = 0; i < 4; ++i) k.extra["odom_alpha" + std::to_string(i + 1)] = vstub::ParamValue(a[i]);
  k.extra["kld_err"] = vstub::ParamValue(1e-4);
  k.map_file = "start";
  Sim s(c, k);
  seed_map(r, "start", 3, 3);
  s.odom = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
  s.start();
  const Pose at{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
  localize(s, at);
  const Pose d{trans * std::cos(rot1), trans * std::sin(rot1), std::remainder(rot1 + rot2, 2 * M_PI)};
  s.odom = mul(s.odom, d);
  auto m = s.scan_msg(3);
  send(s, m);
  const std::string what = fmt("odom_alpha %g %g %g %g, rotation %g, translation %g, rotation %g", a[0], a[1], a[2], a[3], rot1, trans, rot2);
  if (!c.check(static_cast<double>(s.cloud.poses.size()) == n, "particle limits", "%zu particles with a minimum and maximum of %g; %s", s.cloud.poses.size(), n, what.c_str())) return;
  long double sum[3] = {}, sq[3] = {};
  for (auto & p : s.cloud.poses)
  {
    const double x = p.position.x - at.x, y = p.position.y - at.y, th = 2 * std::atan2(p.orientation.z, p.orientation.w);
    const double e[3] = {adiff(std::atan2(y, x) - at.th, rot1), std::hypot(x, y) - trans, 0};
    const double last = adiff(th, at.th + rot1 + e[0] + rot2);
    const double q[3] = {e[0], e[1], last};
    for (int i = 0; i < 3; ++i) { sum[i] += q[i]; sq[i] += q[i] * q[i]; }
  }
  const double want[3] = {v1, vt, v2};
  const char * name[3] = {"first rotation", "translation", "second rotation"};
  for (int i = 0; i < 3; ++i)
  {
    const double mean = static_cast<double>(sum[i] / n), var = static_cast<double>(sq[i] / n) - mean * mean;
    // the particles were resampled once, which doubles the variance of both
    if (!c.check(std::fabs(mean) < 10 * std::sqrt(want[i] / n) + 1e-5, "motion of the particles", "%s off by %g with a deviation of %g; %s", name[i], mean, std::sqrt(want[i]), what.c_str())) return;
    if (!c.check(std::fabs(var - want[i]) < 0.25 * want[i] + 1e-9, "odometry noise", "variance %g of the %s, configured %g; %s", var, name[i], want[i], what.c_str())) return;
  }
  Hash h; h.add(a[0]).add(a[1]).add(a[2]).add(a[3]).add(trans);
  c.distinct(h.h);
  if (c.index < 24) c.sample(what);
  c.count("noise_compared", 3);
}

// Particle counts obey the limits and the bound configured.
void particle_parameters(vh::Case & c)
{
  Rng & r = c.rng;
  Config k;
  k.pf = true;
  k.min_p = static_cast<int>(r.range(20, 200));
  k.max_p = static_cast<int>(r.chance(0.2) ? k.min_p : k.min_p + r.range(1, 4000));
  const double err = log_uniform(r, 0.005, 0.3), z = r.uni(0.5, 4);
  k.extra["kld_err"] = vstub::ParamValue(err);
  k.extra["kld_z"] = vstub::ParamValue(z);
  k.map_file = "start";
  Sim s(c, k);
  seed_map(r, "start", 3, 3);
  s.start();
  localize(s, {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}, log_uniform(r, 0.01, 4), log_uniform(r, 0.01, 4), log_uniform(r, 0.001, 0.5));
  const std::string what = fmt("min_particles %d, max_particles %d, kld_err %g, kld_z %g", k.min_p, k.max_p, err, z);
  for (int i = 0; i < 4; ++i)
  {
    s.odom = mul(s.odom, {0.3, 0, 0});
    const long before = s.clouds;
    auto m = s.scan_msg(3);
    send(s, m);
    const double n = static_cast<double>(s.cloud.poses.size());
    if (!c.check(s.clouds > before, "no particles published", "%s", what.c_str())) return;
    if (!c.check(n >= k.min_p && n <= k.max_p, "particle limits", "%g particles; %s", n, what.c_str())) return;
    std::set<std::array<int64_t, 3>> bins;
    for (auto & p : s.cloud.poses)
      bins.insert({static_cast<int64_t>(std::floor(p.position.x / 0.5)), static_cast<int64_t>(std::floor(p.position.y / 0.5)),
                   static_cast<int64_t>(std::floor(2 * std::atan2(p.orientation.z, p.orientation.w) / 0.2671))});
    const double b = static_cast<double>(bins.size()) - 1;
    if (b < 4) continue;
    // how bins are placed is not specified
    const double q = 2 / (9 * b), u = 1 - q + std::sqrt(q) * z, bound = b / (2 * err) * u * u * u;
    const double lo = std::min<double>(k.max_p, std::max<double>(k.min_p, bound / 2 - 1)), hi = std::min<double>(k.max_p, std::max<double>(k.min_p, bound * 2 + 1));
    if (!c.check(n >= lo && n <= hi, "sampling bound", "%g particles in %g bins, expected about %g; %s", n, b + 1, bound, what.c_str())) return;
    if (lo > k.min_p && hi < k.max_p) { c.count("bound_compared"); Hash h; h.add(n).add(err).add(z); c.distinct(h.h); }
    if (c.index < 24) c.sample(what + fmt(": %ld particles", static_cast<long>(n)));
    c.count("limits_compared");
  }
}

// Both matchers are told their names and the range of the laser.
void matcher_setup(vh::Case & c)
{
  Rng & r = c.rng;
  Config k;
  k.range = r.chance(0.5) ? -1 : r.uni(0.5, 20);
  k.mapping = r.chance(0.7);
  k.pf = r.chance(0.3);
  if (!k.mapping || k.pf) k.map_file = "start";
  Sim s(c, k);
  if (k.map_file.size()) seed_map(r, "start", static_cast<int>(r.range(1, 20)), 0.1);
  s.start();
  const float sensor = static_cast<float>(r.uni(0.5, 20));
  if (k.map_file.size()) localize(s, {});
  const int n = static_cast<int>(r.range(1, 16));
  for (int i = 0; i < n; ++i)
  {
    s.odom = mul(s.odom, {0.2, 0, 0.1});
    auto m = s.scan_msg(5);
    m->range_max = sensor;
    send(s, m);
    if (r.chance(0.3)) vt::advance(1000000000LL, r);
  }
  vt::advance(2000000000LL, r);
  const double want = k.range < 0 ? static_cast<double>(sensor) : k.range;
  std::vector<std::pair<std::string, double>> names;
  { vt::Guard g; std::lock_guard<std::mutex> l(ctl().m); names = ctl().names; }
  if (!c.check(!names.empty(), "no matcher set up", "after %d scans", n)) return;
  for (auto & x : names)
  {
    if (!c.check(x.first == "local_scan_matcher" || x.first == "global_scan_matcher", "name of a matcher", "'%s'", x.first.c_str())) return;
    if (!c.check(x.second == want, "range of a matcher", "%g, max_range is %g and the sensor's range %g", x.second, k.range, static_cast<double>(sensor))) return;
  }
  std::vector<Event> ev, bg;
  s.take_events(ev, bg);
  for (auto & e : ev)
    if (!c.check(e.matcher == (k.pf || !k.mapping ? "global_scan_matcher" : "local_scan_matcher"), "wrong matcher", "scan compared by '%s' while %s", e.matcher.c_str(), k.pf ? "filtering" : k.mapping ? "mapping" : "localizing")) return;
  for (auto & e : bg) if (!c.check(e.matcher == "global_scan_matcher", "wrong matcher", "loop closed by '%s'", e.matcher.c_str())) return;
  Hash h; h.add(want).add(n).add(k.mapping).add(k.pf);
  c.distinct(h.h);
  c.count("matchers_compared", static_cast<long>(names.size()));
}

// A scan waits for its transform as long as configured and no longer.
void timeout_parameter(vh::Case & c)
{
  Rng & r = c.rng;
  Config k;
  const double t = r.pick(std::vector<double>{0, 0.05, 0.2, 0.5, 1.0, 2.0});
  k.extra["transform_timeout"] = vstub::ParamValue(t);
  if (r.chance(0.3)) { k.odom = "odom2"; k.base = "robot"; }
  Sim s(c, k);
  s.start();
  vstub::g_tf_slow = k.odom;
  size_t have = 0;
  std::string story = fmt("transform_timeout %g", t);
  for (int i = 0; i < 6; ++i)
  {
    s.odom = mul(s.odom, {0.3, 0, 0.1});
    vt::advance(1000000000LL, r);
    auto m = s.scan_msg(5);
    // the end of the scan needs a transform as well
    const double span = r.chance(0.5) ? 0 : r.uni(0.01, 0.3), age = r.chance(0.5) ? 0 : r.uni(0, 0.5);
    m->time_increment = static_cast<float>(span / (m->ranges.size() - 1));
    double late;
    do late = r.chance(0.3) ? 0 : r.chance(0.4) ? age + t + r.uni(-0.1, 0.1) : r.uni(0, 3);
    // either one wait for the whole scan or one for each of its ends would be right
    while (late < 0 || std::fabs(late - age - t) < 0.005 || std::fabs(late + span - age - t) < 0.005 || (late - age <= t && late + span - age > t));
    m->header.stamp = rclcpp::Time(vstub::g_now.load() - static_cast<int64_t>(age * 1e9));
    vstub::g_tf_latency = static_cast<int64_t>(late * 1e9);
    vstub::g_tf_waited = 0;
    send(s, m);
    vstub::g_tf_latency = 0;
    const size_t now = s.dump().s.size();
    const bool used = late <= age + t;
    story += fmt(", %g s old, %g s long and %g s late", age, span, late);
    if (!c.check(now == have + used, used ? "transform not waited for" : "transform waited for too long", "%zu scans became %zu; %s", have, now, story.c_str())) return;
    have = now;
    c.count(used ? "waited_for" : "given_up");
  }
  Hash h; h.add(story);
  c.distinct(h.h);
  if (c.index < 24) c.sample(story);
}

// The node in a room, with scans simulated exactly.
struct Setting
{
  Room room;
  int beams;
  double range = 12, radius;
  explicit Setting(Rng & r) : room(r), beams(static_cast<int>(r.range(200, 320))), radius(r.uni(1.1, 1.5)) {}
  Pose truth(double d) const
  {
    const double a = d / radius;
    return Pose{radius * std::cos(a), 0.8 * radius * std::sin(a), std::remainder(a + M_PI / 2, 2 * M_PI)};
  }
  std::shared_ptr<LaserScan> message(const Sim & s, const Pose & robot, Rng * noise = nullptr, const Pose & during = {}, int64_t length = 0) const
  {
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = "laser";
    m->header.stamp = rclcpp::Time(vstub::g_now.load());
    m->angle_min = static_cast<float>(-M_PI);
    m->angle_increment = static_cast<float>(2 * M_PI / beams);
    m->angle_max = static_cast<float>(M_PI);
    m->range_max = static_cast<float>(range);
    m->time_increment = static_cast<float>(static_cast<double>(length) * 1e-9 / (beams - 1));
    for (int b = 0; b < beams; ++b)
    {
      const double f = static_cast<double>(b) / (beams - 1);
      const Pose laser = mul(mul(robot, {f * during.x, f * during.y, f * during.th}), s.f.mount);
      const double a = static_cast<double>(m->angle_min) + static_cast<double>(m->angle_increment) * b;
      m->ranges.push_back(static_cast<float>(room.cast(laser.x, laser.y, laser.th + (s.f.inverted ? -a : a)) + (noise ? noise->uni(-0.005, 0.005) : 0)));
    }
    return m;
  }
  std::vector<V2> points(const Pose & p) const
  {
    std::vector<V2> v;
    for (int i = 0; i < beams; ++i)
    {
      const double a = -M_PI + i * 2 * M_PI / beams, d = room.cast(p.x, p.y, p.th + a);
      v.push_back({d * std::cos(a), d * std::sin(a)});
    }
    return v;
  }
  // a map of the room, from scans all the way round, starting at the origin
  void save(const std::string & file, double step = 0.3) const
  {
    Dump d;
    const Pose start = truth(0);
    for (int i = 0; i * step < 2 * M_PI * radius; ++i)
    {
      ScanRec q;
      q.id = static_cast<size_t>(i);
      q.p = mul(inv(start), truth(i * step));
      q.pts = points(truth(i * step));
      d.s.push_back(q);
      if (!i) continue;
      ConRec e;
      e.b = static_cast<size_t>(i - 1); e.e = static_cast<size_t>(i);
      Sim::relative(d.s[i - 1].p, q.p, e.t);
      for (int j = 0; j < 9; ++j) e.info[j] = j % 4 == 0 ? 100 : 0;
      d.c.push_back(e);
    }
    d.graph(true)->save(file);
  }
};

// Local parameters govern mapping, global parameters localization.
void matcher_parameters(vh::Case & c)
{
  Rng & r = c.rng;
  Setting w(r);
  Config k;
  k.matcher = "ndt_2d::ScanMatcherNDT";
  k.defaults = true;
  if (r.chance(0.5)) k.extra["scan_matcher_type"] = vstub::ParamValue(k.matcher);
  const bool mapping = r.chance(0.5), wide = r.chance(0.5);
  using P = vstub::ParamValue;
  if (!mapping) { k.extra["enable_mapping"] = P(false); k.extra["map_file"] = P(std::string("start")); k.map_file = "start"; }
  k.mapping = mapping;
  for (const char * n : {"local_scan_matcher", "global_scan_matcher"})
  {
    const bool big = wide == (mapping == (n[0] == 'l'));
    const std::string b = n;
    k.extra[b + ".search_angular_size"] = P(big ? 0.06 : 0.003);
    k.extra[b + ".search_angular_resolution"] = P(big ? 0.01 : 0.003);
    k.extra[b + ".search_linear_size"] = P(big ? 0.15 : 0.005);
    k.extra[b + ".search_linear_resolution"] = P(big ? 0.015 : 0.005);
    k.extra[b + ".laser_max_beams"] = P(int64_t(100));
  }
  Sim s(c, k);
  if (!mapping) w.save("start");
  s.f.mount = r.chance(0.5) ? Pose() : Pose{r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-3, 3)};
  Pose odom{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
  s.f.odom_at = [&](int64_t) { return odom; };
  s.start();
  const Pose begin = w.truth(0);
  if (!mapping) localize(s, {});
  // a few scans with exact odometry, so that the map is dense enough
  Pose at = begin;
  for (int i = 0; i < 6; ++i)
  {
    const Pose next = w.truth(0.13 * i);
    odom = mul(odom, mul(inv(at), next));
    at = next;
    send(s, w.message(s, at));
    vt::advance(300000000LL, r);
  }
  if (!c.check(!s.tfs.empty(), "no transform", "n")) return;
  const Pose known = mul(pose(s.tfs.back()), odom);
  const double angle = r.uni(-3, 3);
  const Pose now = w.truth(1.0), off{0.13 * std::cos(angle), 0.13 * std::sin(angle), r.chance(0.5) ? 0.04 : -0.04};
  const Pose motion = mul(mul(inv(at), now), off), step = mul(known, motion);
  odom = mul(odom, motion);
  send(s, w.message(s, now));
  vt::advance(300000000LL, r);
  const Pose est = mul(pose(s.tfs.back()), odom), want = mul(inv(begin), now);
  const double before = std::hypot(step.x - want.x, step.y - want.y), after = std::hypot(est.x - want.x, est.y - want.y), moved = std::hypot(est.x - step.x, est.y - step.y);
  const double turned = std::fabs(adiff(est.th, step.th));
  const std::string what = fmt("%s, error %.3f m before and %.3f m after matching (moved %.3f, turned %.3f)", mapping ? "mapping" : "localizing", before, after, moved, turned);
  if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld %s %s\n", c.index, wide ? "wide" : "narrow", what.c_str());
  if (wide) c.check(moved > 0.012 || turned > 0.012, "search parameters without effect", "the matcher in use searches 0.15 m, the other 0.005 m; %s", what.c_str());
  else c.check(moved < 0.012 && turned < 0.007, "search parameters exceeded", "the matcher in use searches 0.005 m, the other 0.15 m; %s", what.c_str());
  Hash h; h.add(before).add(after).add(mapping).add(wide);
  c.distinct(h.h);
  if (c.index < 30) c.sample(what);
  c.count(wide ? "corrected" : "left_uncorrected");
}

// A matcher reads its own parameters, whatever the other one is told.
void matcher_namespaces(vh::Case & c)
{
  Rng & r = c.rng;
  using P = vstub::ParamValue;
  struct Set { double res, ares, asize, lres, lsize; int64_t beams; };
  auto draw = [&] {
    Set s;
    s.res = r.uni(0.2, 1.0); s.ares = r.uni(0.01, 0.05); s.asize = r.uni(0, 0.15); s.lres = r.uni(0.01, 0.05); s.lsize = r.uni(0, 0.15);
    s.beams = r.range(1, 40);
    return s;
  };
  auto put = [](const std::string & n, const Set & s) {
    auto & p = vstub::g_params;
    p[n + ".ndt_resolution"] = P(s.res);
    p[n + ".search_angular_resolution"] = P(s.ares);
    p[n + ".search_angular_size"] = P(s.asize);
    p[n + ".search_linear_resolution"] = P(s.lres);
    p[n + ".search_linear_size"] = P(s.lsize);
    p[n + ".laser_max_beams"] = P(s.beams);
  };
  const Set a = draw(), b = draw();
  const double range = r.uni(3, 8);
  // a small room full of points
  std::vector<ScanPtr> scans;
  auto cloud = [&](size_t id, const Pose & at) {
    std::vector<V2> v;
    for (int i = 0; i < 120; ++i)
    {
      const double u = r.uni(-2, 2), e = r.uni(-0.02, 0.02);
      const V2 w = i % 3 == 0 ? V2{u, 2 + e} : i % 3 == 1 ? V2{-2 + e, u} : V2{1 + 0.3 * u, -1.5 + 0.2 * u + e};
      const V2 q = vh::unapply(at.x, at.y, at.th, w.x, w.y);
      if (std::hypot(q.x, q.y) < range) v.push_back(q);
    }
    return mkscan(id, at.x, at.y, at.th, v);
  };
  for (size_t i = 0; i < 3; ++i) scans.push_back(cloud(i, {r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-3, 3)}));
  const auto q = cloud(3, {r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), r.uni(-0.1, 0.1)});
  std::vector<Pose2d> places;
  for (int i = 0; i < 5; ++i) places.push_back(Pose2d(r.uni(-0.5, 0.5), r.uni(-0.5, 0.5), r.uni(-3, 3)));
  auto behaviour = [&](ndt_2d::ScanMatcher & m) {
    std::vector<double> v;
    m.addScans(scans.begin(), scans.end());
    for (auto & p : places) v.push_back(m.scorePoints(q->getPoints(), p));
    Pose2d corr;
    Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
    v.push_back(m.matchScan(q, corr, cov));
    v.insert(v.end(), {corr.x, corr.y, corr.theta});
    for (int i = 0; i < 9; ++i) v.push_back(cov(i / 3, i % 3));
    return v;
  };
  vt::Guard g;
  vstub::reset_world();
  put("local_scan_matcher", a);
  put("global_scan_matcher", b);
  pluginlib::ClassLoader<ndt_2d::ScanMatcher> loader("ndt_2d", "ndt_2d::ScanMatcher");
  std::vector<std::vector<double>> have, want;
  {
    rclcpp::Node node("both");
    auto l = loader.createSharedInstance("ndt_2d::ScanMatcherNDT"), o = loader.createSharedInstance("ndt_2d::ScanMatcherNDT");
    if (r.chance(0.5)) { l->initialize("local_scan_matcher", &node, range); o->initialize("global_scan_matcher", &node, range); }
    else { o->initialize("global_scan_matcher", &node, range); l->initialize("local_scan_matcher", &node, range); }
    have.push_back(behaviour(*l));
    have.push_back(behaviour(*o));
  }
  for (const Set * s : {&a, &b})
  {
    vstub::reset_world();
    put("alone", *s);
    rclcpp::Node node("one");
    auto m = loader.createSharedInstance("ndt_2d::ScanMatcherNDT");
    m->initialize("alone", &node, range);
    want.push_back(behaviour(*m));
  }
  for (int i = 0; i < 2; ++i)
    for (size_t j = 0; j < want[i].size(); ++j)
      if (!c.check(have[i][j] == want[i][j], "parameters of the other matcher", "%s: result %zu is %.9g, with these parameters alone %.9g", i ? "global" : "local", j, have[i][j], want[i][j])) return;
  Hash h;
  for (double x : have[0]) h.add(x);
  if (have[0] != have[1]) c.distinct(h.h);
  c.count("namespaces_compared", 2);
}

// Without any parameter the node maps.
void no_parameters(vh::Case & c)
{
  Rng & r = c.rng;
  Setting w(r);
  Config k;
  k.defaults = true;
  k.matcher = "";
  Sim s(c, k);
  s.f.mount = r.chance(0.5) ? Pose() : Pose{r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-3, 3)};
  Pose odom{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
  s.f.odom_at = [&](int64_t) { return odom; };
  s.start();
  const Pose begin = w.truth(0);
  Pose now = begin;
  for (int i = 0; i < 3; ++i)
  {
    const Pose next = w.truth(0.25 * i);
    odom = mul(odom, mul(mul(inv(now), next), i ? Pose{r.uni(-0.02, 0.02), r.uni(-0.02, 0.02), r.uni(-0.01, 0.01)} : Pose()));
    now = next;
    send(s, w.message(s, now));
    vt::advance(300000000LL, r);
  }
  vt::advance(2000000000LL, r);
  const Dump d = s.dump();
  if (!c.check(d.s.size() == 3 && d.c.size() == 2, "no map without parameters", "%zu scans and %zu constraints after 3 scans", d.s.size(), d.c.size())) return;
  const Pose want = mul(inv(begin), now);
  if (!c.check(near(d.s[2].p, want, 0.06), "poses without parameters", "%s, expected %s", str(d.s[2].p).c_str(), str(want).c_str())) return;
  for (auto & x : d.s) if (!c.check(static_cast<int>(x.pts.size()) == w.beams, "points without parameters", "%zu of %d", x.pts.size(), w.beams)) return;
  if (!c.check(s.maps > 0 && s.graphs > 0 && !s.tfs.empty(), "nothing published without parameters", "%ld maps, %ld graphs, %zu transforms", s.maps, s.graphs, s.tfs.size())) return;
  const auto & t = s.tfs.back();
  if (!c.check(t.header.frame_id == "map" && t.child_frame_id == "odom", "frames without parameters", "%s -> %s", t.header.frame_id.c_str(), t.child_frame_id.c_str())) return;
  Hash h; h.add(want.x).add(d.s[2].p.x);
  c.distinct(h.h);
  c.count("without_parameters");
}
}  // namespace

VH_PROPERTY(C31, 700, 12000, "the node with random parameters: spread of the particles after one motion against the odometry noise configured, number of particles against limits and sampling bound, names and ranges given to the matchers, search sizes of the local and of the global matcher, late transforms, and no parameters at all")
{
  switch (c.index % 10)
  {
    case 0: case 1: case 2: noise_parameters(c); break;
    case 3: case 4: particle_parameters(c); break;
    case 5: matcher_setup(c); break;
    case 6: matcher_namespaces(c); break;
    case 7: case 8: timeout_parameter(c); break;
    default: if (c.index % 100 == 9) no_parameters(c); else matcher_parameters(c);
  }
}

// ---------------------------------------------------------------- C32
namespace
{
// Drives round the room from one place to another; errors are those of the transform published.
struct Drive
{
  double bias = 0, scale = 1;      // of the odometry: heading per step, distance
  double jitter = 0, step = 0.3;
  bool sweep = false;              // the robot moves while its laser turns
  double worst = 0, last = 0;
  long scans = 0;
  Pose odom, during;               // odometry at the start of the scan, motion during it
  int64_t stamp = 0, length = 100000000LL;
  Pose at(int64_t t) const
  {
    const double f = t <= 0 ? 1 : std::max(0.0, std::min(1.0, static_cast<double>(t - stamp) / static_cast<double>(length)));
    return mul(odom, {f * during.x, f * during.y, f * during.th});
  }
};
// true poses are in the room, estimates in the map, whose origin is `origin` in the room
void drive(Sim & s, const Setting & w, const Pose & origin, double from, double to, Rng & noise, Drive & v)
{
  Pose at = w.truth(from);
  const int n = std::max(1, static_cast<int>(std::fabs(to - from) / v.step));
  for (int i = 0; i <= n; ++i)
  {
    const Pose next = w.truth(from + (to - from) * i / n);
    Pose d = mul(inv(at), next);
    if (i)
    {
      const double much = v.step / 0.3;
      d.x = d.x * v.scale + noise.uni(-v.jitter, v.jitter) * much;
      d.y = d.y * v.scale + noise.uni(-v.jitter, v.jitter) * much;
      d.th += (noise.uni(-v.jitter, v.jitter) * 0.8 + v.bias) * much;
    }
    v.odom = mul(v.odom, d);
    at = next;
    v.during = v.sweep ? Pose{0.05 + noise.uni(-0.03, 0.03), noise.uni(-0.02, 0.02), noise.uni(-0.08, 0.08)} : Pose();
    v.stamp = vstub::g_now.load();
    send(s, w.message(s, at, &noise, v.during, v.sweep ? v.length : 0));
    vt::advance(400000000LL, s.r);
    if (s.tfs.empty()) continue;
    const Pose est = mul(pose(s.tfs.back()), v.odom), want = mul(inv(origin), at);
    v.last = std::hypot(est.x - want.x, est.y - want.y) + std::fabs(adiff(est.th, want.th));
    if (!(v.last <= v.worst)) v.worst = v.last;
    ++v.scans;
  }
}
int cell(const nav_msgs::msg::OccupancyGrid & m, double x, double y)
{
  const double cx = (x - m.info.origin.position.x) / static_cast<double>(m.info.resolution), cy = (y - m.info.origin.position.y) / static_cast<double>(m.info.resolution);
  if (!(cx >= 0 && cy >= 0 && cx < m.info.width && cy < m.info.height)) return -1;
  return m.data[static_cast<size_t>(cy) * m.info.width + static_cast<size_t>(cx)];
}
}  // namespace

VH_PROPERTY(C32, 40, 1200, "a simulated robot with noisy odometry and laser maps a random room with the real matcher and optimizer and saves it; the published map is compared with the room, then a fresh node loads the file and localizes (by matching or particle filter) or continues to map; distinct by the errors reached")
{
  Rng & r = c.rng;
  Setting w(r);
  Rng noise(r.next());
  const double round = 2 * M_PI * w.radius;
  auto config = [&](int mode) {
    Config k;
    k.matcher = "ndt_2d::ScanMatcherNDT";
    k.depth = 8;
    k.search = 1.0;
    k.opt = 5;
    k.min_r = 0.3;
    k.resolution = 0.1;
    k.mapping = mode != 1;
    k.pf = mode == 2;
    k.min_p = 100;
    k.max_p = 300;
    k.alpha = 0.03;
    for (const char * n : {"local_scan_matcher", "global_scan_matcher"})
    {
      const std::string b = n;
      k.extra[b + ".search_angular_size"] = vstub::ParamValue(0.05);
      k.extra[b + ".search_angular_resolution"] = vstub::ParamValue(0.01);
      k.extra[b + ".search_linear_size"] = vstub::ParamValue(0.08);
      k.extra[b + ".search_linear_resolution"] = vstub::ParamValue(0.02);
      k.extra[b + ".laser_max_beams"] = vstub::ParamValue(int64_t(60));
    }
    return k;
  };
  const bool bary = r.chance(0.5), ahead = r.chance(0.5), inverted = r.chance(0.3);
  const Pose mount = r.chance(0.5) ? Pose() : Pose{r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-3, 3)};
  const Pose origin = w.truth(0);
  Drive habit;
  habit.bias = r.uni(-0.02, 0.02);
  habit.scale = r.uni(0.93, 1.07);
  habit.jitter = r.uni(0, 0.012);
  habit.sweep = r.chance(0.5);
  const bool slow = r.chance(0.25);      // many scans before the next one is used
  habit.step = slow ? r.uni(0.03, 0.09) : r.uni(0.25, 0.35);
  std::vector<vstub::BagMsg> bag;
  nav_msgs::msg::OccupancyGrid first;
  Drive map = habit;
  size_t scans = 0, closures = 0;
  {
    Config k = config(0);
    k.bary = bary;
    Sim s(c, k);
    s.f.mount = mount; s.f.inverted = inverted;
    map.odom = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
    s.f.odom_at = [&](int64_t t) { return map.at(t); };
    s.start();
    drive(s, w, origin, 0, (ahead ? 1.3 : -1.3) * round, noise, map);
    vt::advance(3000000000LL, s.r);
    auto q = std::make_shared<Conf::Request>();
    q->action = Conf::Request::SAVE_TO_FILE;
    q->filename = "the map";
    s.call(q);
    if (!c.check(vstub::g_bags.count("the map"), "map not saved", "n")) return;
    bag = vstub::g_bags["the map"];
    first = s.map_msg;
    const Dump d = s.dump();
    scans = d.s.size();
    for (auto & x : d.c) closures += x.sw;
  }
  const std::string what = fmt("%zu scans, %zu loop closures, error %.3f at worst, %.3f at the end", scans, closures, map.worst, map.last);
  if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld map: %s\n", c.index, what.c_str());
  // Bounds are several times what a thousand trips reach
  if (!c.check(map.worst < 0.4 && map.last < 0.3, "robot lost while mapping", "%s", what.c_str())) return;
  if (!c.check(static_cast<long>(scans) * 10 >= (slow ? map.scans * 2 : map.scans * 9), "scans not mapped", "%ld scans sent; %s", map.scans, what.c_str())) return;
  // The published map against the room
  long hits = 0, seen = 0, gaps = 0, blocked = 0, outside = 0, beyond = 0;
  for (int i = 0; i < 12; ++i)
  {
    const Pose at = w.truth((ahead ? 1.0 : -1.0) * round * i / 12);
    for (int b = 0; b < 60; ++b)
    {
      const double a = b * 2 * M_PI / 60, d = w.room.cast(at.x, at.y, a);
      auto look = [&](double t) { return vh::unapply(origin.x, origin.y, origin.th, at.x + t * std::cos(a), at.y + t * std::sin(a)); };
      bool hit = false;
      const V2 p = look(d);
      for (int u = -3; u <= 3; ++u) for (int v = -3; v <= 3; ++v) hit = hit || cell(first, p.x + 0.1 * u, p.y + 0.1 * v) == 100;
      ++seen; hits += hit;
      for (double f : {0.2, 0.4, 0.6})
      {
        if (d - f * d < 0.5) continue;
        const V2 q = look(f * d);
        ++gaps; blocked += cell(first, q.x, q.y) != 0;
      }
    }
  }
  for (int i = 0; i < 200; ++i)
  {
    double x, y;
    do { x = r.uni(-9, 9); y = r.uni(-8, 8); } while (std::fabs(x) < 5.2 && std::fabs(y) < 4.2);
    const V2 q = vh::unapply(origin.x, origin.y, origin.th, x, y);
    ++outside; beyond += cell(first, q.x, q.y) != -1;
  }
  if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld room: hits %.3f, blocked %.3f, beyond %.3f\n", c.index, 1.0 * hits / seen, 1.0 * blocked / gaps, 1.0 * beyond / outside);
  const std::string room = fmt("%ld of %ld walls shown, %ld of %ld free places not free, %ld of %ld places outside known; %s", hits, seen, blocked, gaps, beyond, outside, what.c_str());
  if (!c.check(hits * 10 >= seen * 9, "walls not in the map", "%s", room.c_str())) return;
  if (!c.check(blocked * 30 <= gaps, "free space not in the map", "%s", room.c_str())) return;
  if (!c.check(beyond * 50 <= outside, "places nobody saw in the map", "%s", room.c_str())) return;
  // A fresh node with the saved map
  const int mode = static_cast<int>(c.index % 3);
  Config k = config(mode);
  k.bary = bary;
  k.map_file = "the map";
  Drive use = habit;
  size_t more = 0;
  {
    Sim s(c, k);
    vstub::g_bags["the map"] = bag;
    s.f.mount = mount; s.f.inverted = inverted;
    use.odom = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)};
    s.f.odom_at = [&](int64_t t) { return use.at(t); };
    s.start();
    vt::advance(6000000000LL, s.r);
    const bool same_map = s.map_msg.info.width == first.info.width && s.map_msg.info.height == first.info.height && s.map_msg.data == first.data;
    if (!c.check(same_map, "the map of the file differs from the map saved", "%u x %u, saved %u x %u; %s", s.map_msg.info.width, s.map_msg.info.height, first.info.width, first.info.height, what.c_str())) return;
    const double place = r.uni(0, 1) * round;
    const Pose at = mul(inv(origin), w.truth(place));
    localize(s, {at.x + r.uni(-0.04, 0.04), at.y + r.uni(-0.04, 0.04), at.th + r.uni(-0.03, 0.03)}, 0.01, 0.01, 0.002);
    drive(s, w, origin, place, place + (r.chance(0.5) ? 0.7 : -0.7) * round, noise, use);
    vt::advance(2000000000LL, s.r);
    more = s.dump().s.size();
  }
  if (getenv("VH_DEBUG")) fprintf(stderr, "case %ld use %d: worst %.3f last %.3f scans %zu\n", c.index, mode, use.worst, use.last, more);
  const char * name[] = {"mapping on", "matching", "filtering"};
  if (!c.check(use.worst < 0.4 && use.last < 0.3, "robot lost in a saved map", "%s: error %.3f at worst, %.3f at the end; %s", name[mode], use.worst, use.last, what.c_str())) return;
  if (mode != 0) { if (!c.check(more == scans, "localization changed the map", "%zu scans, %zu before; %s", more, scans, what.c_str())) return; }
  else if (!c.check(static_cast<long>(more - scans) * 10 >= (slow ? use.scans * 2 : use.scans * 9), "scans not added to a saved map", "%zu scans, %zu before, %ld sent; %s", more, scans, use.scans, what.c_str())) return;
  Hash h; h.add(map.worst).add(use.worst).add(hits);
  c.distinct(h.h);
  c.count("scans_mapped", static_cast<long>(scans));
  c.count("closures", static_cast<long>(closures));
  c.count("mode_" + std::to_string(mode));
  if (habit.sweep) c.count("moving_during_scans");
  if (slow) c.count("slow");
  c.count("walls_compared", seen); c.count("free_places_compared", gaps);
  c.sample(room + fmt("; then in mode %d error %.3f at worst, %.3f at the end", mode, use.worst, use.last));
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
