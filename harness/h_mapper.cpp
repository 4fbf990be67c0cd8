// Monitors for the mapper node (C22 to C28).
#include "sim.hpp"

// ---------------------------------------------------------------- C22
VH_PROPERTY(C22, 40000, 1500000, "random mounting (also upside down), motion during the scan, headings, and range contents; the points stored are compared with where each beam hit in a static world; a case counts as non-trivial when at least one point was compared")
{
  Rng & r = c.rng;
  Config k;
  k.min_d = 0.02;
  k.min_r = 0.05;
  k.depth = 3;
  k.search = 1e-6;
  k.range = r.chance(0.5) ? -1 : r.uni(1, 12);
  Sim s(c, k);
  s.f.mount = r.chance(0.2) ? Pose() : Pose{r.uni(-1, 1), r.uni(-1, 1), r.uni(-M_PI, M_PI)};
  s.f.inverted = r.chance(0.5);
  s.f.negated = r.chance(0.3);
  s.f.mount_z = r.uni(0, 2);
  Pose at{r.uni(-10, 10), r.uni(-10, 10), r.uni(-M_PI, M_PI)}, vel;
  int64_t t0 = 0;
  s.f.odom_at = [&](int64_t ns) {
    const double t = ns == 0 ? 0 : (ns - t0) * 1e-9;
    return Pose{at.x + vel.x * t, at.y + vel.y * t, std::remainder(at.th + vel.th * t, 2 * M_PI)};
  };
  play(s, 0);
  s.start();
  const float sensor_max = static_cast<float>(r.uni(2, 12));
  const double limit = k.range < 0 ? sensor_max : k.range;
  const int rounds = static_cast<int>(r.range(1, 4));
  long compared = 0;
  size_t extra = 0;
  for (int i = 0; i < rounds; ++i)
  {
    if (i) { at.x += r.uni(0.5, 2); at.y += r.uni(-2, 2); at.th = r.chance(0.3) ? (r.chance(0.5) ? M_PI : -M_PI) + r.uni(-0.2, 0.2) : r.uni(-M_PI, M_PI); at.th = std::remainder(at.th, 2 * M_PI); }
    const bool still = r.chance(0.2);
    vel = still ? Pose() : Pose{r.uni(-3, 3), r.uni(-3, 3), r.chance(0.3) ? 0 : r.uni(-3, 3)};
    const int n = static_cast<int>(r.chance(0.1) ? 1 : r.chance(0.03) ? r.range(400, 2000) : r.range(2, 60));
    if (n > 100) c.count("dense_scans");
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = "laser";
    t0 = 5000000000LL + r.range(0, 1000000000LL);
    m->header.stamp = rclcpp::Time(t0);
    m->angle_min = static_cast<float>(r.uni(-M_PI, M_PI));
    m->angle_increment = static_cast<float>(n > 100 ? r.uni(-2 * M_PI, 2 * M_PI) / n : r.uni(-0.15, 0.15));
    m->time_increment = r.chance(0.1) ? 0.0f : static_cast<float>(r.uni(1e-5, 0.3 / n));
    m->scan_time = m->time_increment * n;
    m->range_min = 0.0f;
    m->range_max = sensor_max;
    std::vector<V2> want;
    for (int b = 0; b < n; ++b)
    {
      float x;
      switch (r.range(0, 11))
      {
        case 0: x = std::numeric_limits<float>::quiet_NaN(); break;
        case 1: x = std::numeric_limits<float>::infinity(); break;
        case 2: x = -std::numeric_limits<float>::infinity(); break;
        case 3: x = static_cast<float>(limit * r.uni(1.001, 3)); break;
        case 4:     // exactly the maximum range is not beyond it
          x = static_cast<float>(limit);
          if (x > limit) x = std::nextafterf(x, 0.0f);
          c.count("readings_at_maximum_range");
          break;
        default: x = static_cast<float>(limit * r.uni(0.01, 0.999)); break;
      }
      m->ranges.push_back(x);
      if (!std::isfinite(x) || x > limit) continue;
      const double t = static_cast<double>(m->time_increment) * b, a = static_cast<double>(m->angle_min) + static_cast<double>(m->angle_increment) * b;
      const V2 l{x * std::cos(a), x * std::sin(a) * (s.f.inverted ? -1 : 1)};
      const V2 base = apply(s.f.mount.x, s.f.mount.y, s.f.mount.th, l.x, l.y);
      const V2 hit = apply(at.x + vel.x * t, at.y + vel.y * t, at.th + vel.th * t, base.x, base.y);
      want.push_back(unapply(at.x, at.y, at.th, hit.x, hit.y));
    }
    s.run([m] { vstub::bus().deliver<LaserScan>("scan", m); });
    const Dump d = s.dump();
    if (!s.chk("C22 C24", d.s.size() == static_cast<size_t>(i) + 1 + extra, "scan not added", "%zu", d.s.size())) break;
    auto have = d.s.back().pts;
    const std::string ctx = fmt("%d readings, mount %s%s, heading %g, velocity (%g, %g, %g), %g s", n, str(s.f.mount).c_str(), s.f.inverted ? " upside down" : "", at.th, vel.x, vel.y, vel.th, static_cast<double>(m->time_increment) * n);
    if (!c.check(have.size() == want.size(), "number of points", "%zu points for %zu valid readings; %s", have.size(), want.size(), ctx.c_str())) break;
    // in any order
    const double tol = 2e-5 * limit + 1e-5 + 1e-4 * std::hypot(vel.x, vel.y) * 0;
    std::vector<char> used(have.size());
    for (size_t q = 0; q < want.size() && !c.failed; ++q)
    {
      // the order is that of the beams, or the reverse; look there first
      size_t best = 0; double bd = 1e300;
      for (size_t p : {q, have.size() - 1 - q})
      {
        const double dd = std::hypot(have[p].x - want[q].x, have[p].y - want[q].y);
        if (!used[p] && dd <= tol && dd < bd) { bd = dd; best = p; }
      }
      for (size_t p = 0; bd > tol && p < have.size(); ++p)
      {
        const double dd = std::hypot(have[p].x - want[q].x, have[p].y - want[q].y);
        if (!used[p] && !(dd >= bd)) { bd = dd; best = p; }
      }
      if (!c.check(bd <= tol, "point is not where the beam hit", "off by %g m (tolerance %g): hit (%.9g, %.9g), nearest point (%.9g, %.9g); %s", bd, tol, want[q].x, want[q].y, have[best].x, have[best].y, ctx.c_str())) break;
      used[best] = 1;
      ++compared;
      c.count(s.f.inverted ? "points_upside_down" : "points_upright");
    }
    if (c.failed) break;
    at = s.f.odom_at(t0);
    if (r.chance(0.05))    // the same map, loaded again: mounting and maximum range are still those
    {
      auto q = std::make_shared<Conf::Request>();
      q->action = Conf::Request::SAVE_TO_FILE;
      q->filename = "again" + std::to_string(i);
      s.call(q);
      q = std::make_shared<Conf::Request>();
      q->action = Conf::Request::LOAD_FROM_FILE;
      q->filename = "again" + std::to_string(i);
      s.call(q);
      vel = Pose();
      const Pose ref = reference(d.s.back(), k.bary);
      auto p = pose_msg(ref, "map", 0.01, 0.01, 0.01);
      s.run([p] { vstub::bus().deliver<PoseMsg>("initialpose", p); });
      if (!s.chk("C27", s.dump().s.size() == d.s.size() + 1, "initial pose not accepted", "%zu scans before, %zu after", d.s.size(), s.dump().s.size())) break;
      extra = s.dump().s.size() - (i + 1);
      c.count("loaded_in_between");
    }
  }
  if (compared) { Hash h; h.add(compared).add(at.x).add(at.th).add(vel.x); c.distinct(h.h); }
  if (c.index < 16) c.sample(fmt("%d scans, %ld points, mount %s%s", rounds, compared, str(s.f.mount).c_str(), s.f.inverted ? " upside down" : ""));
}

// ---------------------------------------------------------------- C24, C26, C27
// A request or a scan while the loop closure, stopped somewhere, is at work on a scan it accepts.
namespace
{
enum class Meanwhile { Scan, Disable, Load };
void interrupted(vh::Case & c, Meanwhile what)
{
  Rng & r = c.rng;
  Config k = random_config(r);
  k.depth = static_cast<int>(r.range(1, 3));
  k.opt = r.chance(0.5) ? 0 : 1000;
  k.search = 10;
  Sim s(c, k);
  int phase = 0;    // 0: before, closures are refused; 1: now, they are accepted; 2: afterwards
  play(s, 0);
  auto inner = ctl().script;
  ctl().script = [&phase, inner](Event & e) {
    inner(e);
    if (!e.bg) { if (!e.scan.pts.empty()) e.score = -0.5; }
    else if (phase == 1) e.score = -5;
    else e.score = 0;
    if (e.bg && e.scan.pts.empty()) e.score = 0;
  };
  s.start();
  const int n = static_cast<int>(r.range(k.depth + 2, k.depth + 8));
  for (int i = 0; i < n && !s.over; ++i) { s.move(); s.laser(points(r)); }
  if (s.over) return;
  const Dump first = s.dump();
  if (first.s.size() <= static_cast<size_t>(k.depth) + 1) return;
  phase = 1;
  const std::string where = r.pick(std::vector<std::string>{"any", "lock", "unlock"});
  const long nth = r.range(1, 5);
  long matches = r.range(1, 3);
  Dump d0, d1, want;
  bool acted = false;
  const std::string file = "other";
  const bool disable = what == Meanwhile::Disable || (what == Meanwhile::Load && r.chance(0.3));
  if (what == Meanwhile::Load)
  {
    seed_map(r, file, static_cast<int>(r.range(0, 12)), 3);
    vt::Guard gd;
    want = Dump(ndt_2d::Graph(true, file));
  }
  // what a save can show with closures under way
  auto sound = [&](const Dump & d, const char * when) {
    std::map<size_t, size_t> last;
    for (size_t i = 0; i < d.c.size(); ++i) if (d.c[i].sw) last[d.c[i].e] = i;
    for (size_t i = 0; i < d.s.size(); ++i)
    {
      if (!s.chk("C24", d.s[i].id == i, "identifier", "scan %zu has identifier %zu %s", i, d.s[i].id, when)) return;
      if (k.opt < 1000) continue;
      auto l = last.find(i);
      if (l == last.end())
      {
        if (i < first.s.size()) s.chk("C24", same(d.s[i].p, first.s[i].p), "scan moved without constraint", "scan %zu from %s to %s %s", i, str(first.s[i].p).c_str(), str(d.s[i].p).c_str(), when);
      }
      else
      {
        double t[3];
        const auto & q = d.c[l->second];
        // the candidate may have been moved by a closure of its own afterwards
        if (last.count(q.b) && last[q.b] > l->second) continue;
        Sim::relative(d.s[q.b].p, d.s[q.e].p, t);
        s.chk("C24", std::fabs(t[0] - q.t[0]) < 1e-6 && std::fabs(t[1] - q.t[1]) < 1e-6 && std::fabs(adiff(t[2], q.t[2])) < 1e-6, "constraint of a closure without its pose",
          "%zu->%zu: (%g, %g, %g) while the scans are (%g, %g, %g) apart %s", q.b, q.e, q.t[0], q.t[1], q.t[2], t[0], t[1], t[2], when);
      }
      if (s.over) return;
    }
    for (auto & q : d.c) if (!s.chk("C24", q.b < d.s.size() && q.e < d.s.size(), "constraint beyond the scans", "%zu->%zu of %zu %s", q.b, q.e, d.s.size(), when)) return;
  };
  auto act = [&] {
    s.in_pause = true;
    d0 = s.dump();
    const bool held = s.in_pause;
    if (what == Meanwhile::Scan) { s.move(); auto m = s.scan_msg(points(r)); s.run([m] { vstub::bus().deliver<LaserScan>("scan", m); }); }
    else
    {
      auto q = std::make_shared<Conf::Request>();
      q->action = (disable ? Conf::Request::DISABLE_MAPPING : 0) | (what == Meanwhile::Load ? Conf::Request::LOAD_FROM_FILE : 0);
      q->filename = file;
      s.call(q);
      phase = 2;
    }
    d1 = s.dump();
    acted = true;
    c.count(held && s.in_pause ? "interruptions" : "interruptions_late");
    if (!(held && s.in_pause)) what = Meanwhile::Scan == what ? Meanwhile::Disable : what;
    s.in_pause = false;
  };
  const Meanwhile asked = what;
  s.on_closure = [&] { if (matches > 0 && --matches == 0) vt::arm(where, nth, act, true); };
  vt::advance(3000000000LL, r);
  s.on_closure = nullptr;
  vt::disarm();
  if (!acted) return;
  const Dump d2 = s.dump();
  s.note(fmt("%s at point %ld (%s) of a loop closure", asked == Meanwhile::Scan ? "scan" : asked == Meanwhile::Load ? "load" : "disabling", nth, where.c_str()));
  if (asked != Meanwhile::Load) { sound(d0, "before"); sound(d1, "after"); }
  else sound(d0, "before");
  if (s.over) return;
  if (asked == Meanwhile::Load)
  {
    if (!s.chk("C27", want.diff(d1).empty(), "loaded another graph", "%s", want.diff(d1).c_str())) return;
    if (!s.chk("C27", want.diff(d2).empty(), "loop closure of the former map in the one loaded", "%s", want.diff(d2).c_str())) return;
  }
  else if (asked == Meanwhile::Disable)
  {
    if (!s.chk("C26", d1.diff(d2).empty(), "map changed after mapping was disabled", "%s", d1.diff(d2).c_str())) return;
  }
  else
  {
    sound(d2, "at the end");
    if (s.over) return;
    if (!s.chk("C24", d2.s.size() == d1.s.size() && d1.s.size() <= d0.s.size() + 1, "scans added meanwhile", "%zu, %zu, %zu scans", d0.s.size(), d1.s.size(), d2.s.size())) return;
    if (what == Meanwhile::Scan && d1.s.size() == d0.s.size() + 1)
    {
      const size_t at = d0.c.size();
      if (!s.chk("C24", d1.c.size() == at + 1, "constraints added with a scan", "%zu, %zu before", d1.c.size(), at)) return;
      const auto & q = d1.c[at];
      double t[3];
      Sim::relative(d1.s[q.b].p, d1.s[q.e].p, t);
      if (!s.chk("C24", !q.sw && q.e == d0.s.size() && q.b + 1 == q.e && std::fabs(t[0] - q.t[0]) < 1e-6 && std::fabs(t[1] - q.t[1]) < 1e-6 && std::fabs(adiff(t[2], q.t[2])) < 1e-6,
        "constraint of a scan mapped during a loop closure", "%zu->%zu: (%g, %g, %g) while the scans are (%g, %g, %g) apart", q.b, q.e, q.t[0], q.t[1], q.t[2], t[0], t[1], t[2])) return;
      c.count("scans_during_closures");
    }
    for (size_t i = 0; i < d1.c.size(); ++i)
      if (!s.chk("C24", i < d2.c.size() && same(d1.c[i], d2.c[i]), "constraint changed", "constraint %zu", i)) return;
  }
  Hash h; h.add(first.s[0].p.x).add(d1.s.size()).add(d2.c.size());
  for (auto & x : d2.s) h.add(x.p.x);
  c.distinct(h.h);
}
}  // namespace

// ---------------------------------------------------------------- C23
VH_PROPERTY(C23, 4000, 120000, "random odometry, corrections, initial poses and modes; every matcher call, stored pose and published transform is compared with the reference model, also when the localization changes while a transform is being published")
{
  Rng & r = c.rng;
  Config k = random_config(r);
  k.pf = r.chance(0.25);
  k.mapping = r.chance(0.7);
  if (r.chance(0.6)) k.search = 1e-6;
  Sim s(c, k);
  if (k.pf || !k.mapping || r.chance(0.3)) { s.k.map_file = "start"; }
  play(s, 0.05);
  seed_map(r, "start", static_cast<int>(r.range(1, 12)), 3);
  s.odom = {r.uni(-5, 5), r.uni(-5, 5), r.uni(-3, 3)};
  s.faults = r.chance(0.5);
  s.start();
  const int ops = static_cast<int>(r.range(10, 40));
  for (int i = 0; i < ops && !s.over; ++i)
  {
    switch (r.range(0, 9))
    {
      case 0: s.advance(0.25 * r.range(1, 8)); break;
      case 1: s.initial_pose(); break;
      case 2:
        if (!s.localized) { s.initial_pose(0); break; }
        if (s.pf) break;
        {
          // localization changes while the transform is on its way
          const size_t tf0 = s.tfs.size();
          const size_t from = s.events.size() - 1;
          bool acted = false;
          vt::arm(r.pick(std::vector<std::string>{"any", "tf_send", "lock", "unlock", "publish", "tf_sent"}), r.range(1, 12), [&] {
            s.in_pause = true;
            acted = true;
            s.loops(false);
            s.move();
            s.laser(points(r));
            s.in_pause = false;
          });
          vt::advance(1000000000LL * r.range(0, 1) + 250000000LL, r);
          vt::disarm();
          if (acted) c.count("changes_during_publication");
          if (s.over) break;
          s.loops(false);
          for (size_t j = tf0; j < s.tfs.size() && !s.over; ++j) s.check_tf(s.tfs[j], from);
          if (!s.over) s.advance(0.5);
        }
        break;
      default:
        if (r.chance(0.9)) s.move();
        s.laser(points(r), r.chance(0.05));
    }
  }
  if (!s.over) s.advance(2);
  finish(s, c, static_cast<long>(s.tfs.size()));
}

// ---------------------------------------------------------------- C24
VH_PROPERTY(C24, 3000, 60000, "random scan sequences and rolling depths; the stored graph is compared after every scan, every window handed to the matcher too, and the graph is published by the publishing thread at random points inside the processing of a scan")
{
  if (c.rng.chance(0.08)) { interrupted(c, Meanwhile::Scan); return; }
  Rng & r = c.rng;
  Config k = random_config(r);
  const bool inside = r.chance(0.5);
  k.search = inside || r.chance(0.5) ? 1e-6 : k.search;
  Sim s(c, k);
  if (r.chance(0.3)) { s.k.map_file = "start"; seed_map(r, "start", static_cast<int>(r.range(0, 15)), 3); }
  play(s, 0.1);
  long published = 0, linked = 0;
  std::set<size_t> mapped;
  s.on_graph = [&](const visualization_msgs::msg::MarkerArray & a) {
    // Only the markers are looked at: this runs while the graph may be changing.
    std::vector<std::pair<double, double>> nodes;
    std::set<std::tuple<double, double, double, double>> edges;
    for (auto & m : a.markers)
    {
      if (m.points.size() == 2)
      {
        edges.insert({m.points[0].x, m.points[0].y, m.points[1].x, m.points[1].y});
        edges.insert({m.points[1].x, m.points[1].y, m.points[0].x, m.points[0].y});
      }
      else nodes.push_back({m.pose.position.x, m.pose.position.y});
    }
    ++published;
    const size_t first = s.k.map_file.empty() ? 1 : 1000000;
    for (size_t i = first; i < nodes.size(); ++i, ++linked)
      if (i < 1000 && !s.tied_elsewhere[i]) c.check(edges.count({nodes[i - 1].first, nodes[i - 1].second, nodes[i].first, nodes[i].second}), "scan published before its constraint", "scan %zu of %zu has no edge to its predecessor", i, nodes.size());
  };
  s.start();
  if (inside)
  {
    auto rng = std::make_shared<Rng>(r.next());
    vt::g_main_hook = [rng, &s](const char *) {
      if (s.over || !s.in_callback || !rng->chance(0.2)) return;
      vt::advance(250000000LL, *rng, 30);
    };
  }
  const int ops = static_cast<int>(r.range(5, 60));
  for (int i = 0; i < ops && !s.over; ++i)
  {
    if (!s.localized) s.initial_pose(0);
    switch (r.range(0, 9))
    {
      case 0: s.advance(0.25 * r.range(1, 8)); break;
      case 1: if (!inside) { s.advance(1); } break;
      case 2: if (r.chance(0.2)) { s.configure(Conf::Request::DISABLE_MAPPING, ""); s.configure(Conf::Request::ENABLE_MAPPING, ""); s.initial_pose(0); } break;
      default:
        if (r.chance(0.9)) s.move();
        s.laser(points(r), r.chance(0.05));
    }
    if (s.over) break;
    for (size_t j = 0; j < s.g.s.size(); ++j) if (!s.chk("C24", s.g.s[j].id == j, "scan identifier is not its position", "%zu at %zu", s.g.s[j].id, j)) break;
    for (auto & q : s.g.c) if (!s.chk("C24", q.b < s.g.s.size() && q.e < s.g.s.size() && q.b != q.e, "constraint without its scans", "%zu->%zu of %zu", q.b, q.e, s.g.s.size())) break;
  }
  vt::g_main_hook = nullptr;
  if (!s.over) s.advance(2);
  c.count("graphs_published", published);
  c.count("links_seen", linked);
  finish(s, c, static_cast<long>(s.g.s.size()));
}

// ---------------------------------------------------------------- C25
VH_PROPERTY(C25, 4000, 50000, "random trajectories, scores (not finite ones too), limits, search distances and depths; every region matched by the loop-closure thread, every constraint it adds and every optimization is compared with the reference model")
{
  Rng & r = c.rng;
  Config k = random_config(r);
  if (r.chance(0.7)) k.depth = static_cast<int>(r.range(1, 5));
  if (r.chance(0.7)) k.search = r.pick(std::vector<double>{1, 3});
  Sim s(c, k);
  if (r.chance(0.2)) { s.k.map_file = "start"; seed_map(r, "start", static_cast<int>(r.chance(0.03) ? r.range(60, 200) : r.range(1, 12)), 3); }
  play(s, 0.1);
  s.start();
  const int ops = static_cast<int>(r.range(10, 60));
  const double empties = r.pick(std::vector<double>{0, 0.1, 0.4});
  for (int i = 0; i < ops && !s.over; ++i)
  {
    if (!s.localized) s.initial_pose(0);
    switch (r.range(0, 11))
    {
      case 0: s.advance(2); break;
      case 1: s.advance(0.25 * r.range(1, 8)); break;
      case 2: if (r.chance(0.1)) { s.configure(Conf::Request::DISABLE_MAPPING, ""); s.advance(2); if (r.chance(0.5)) for (int n = static_cast<int>(r.range(1, 6)); n > 0 && !s.over; --n) { if (!s.localized) s.initial_pose(0); s.move(); s.laser(points(r)); } s.configure(Conf::Request::ENABLE_MAPPING, ""); s.initial_pose(0); } break;
      case 3: if (r.chance(0.05)) { const std::string f = "m" + std::to_string(i); seed_map(r, f, static_cast<int>(r.range(1, 15)), 2); s.configure(Conf::Request::LOAD_FROM_FILE, f); s.initial_pose(0); } break;
      default:
        s.move();
        if (std::hypot(s.odom.x, s.odom.y) > 4) { s.odom.x *= 0.3; s.odom.y *= 0.3; }
        if (!s.travelled()) s.odom.th += k.min_r * 1.3 < 3 ? k.min_r * 1.3 : 0;
        s.odom.th = std::remainder(s.odom.th, 2 * M_PI);
        s.laser(points(r), r.chance(empties));
    }
  }
  if (!s.over) s.advance(2.5);
  if (!s.over && r.chance(0.5)) s.advance(2);
  c.count("candidates_matched", s.matches);
  c.count("closures", s.closures);
  c.count("rejections", s.rejections);
  finish(s, c, s.matches);
}

// ---------------------------------------------------------------- C26
VH_PROPERTY(C26, 6000, 100000, "histories of mapping, disabling, loading and localizing in both localization modes with the loop-closure thread running; the map behind every match is compared with the current graph, and the graph before and after")
{
  if (c.rng.chance(0.08)) { interrupted(c, Meanwhile::Disable); return; }
  Rng & r = c.rng;
  Config k = random_config(r);
  k.depth = static_cast<int>(r.range(1, 4));
  k.search = r.pick(std::vector<double>{1, 5, 10});
  k.pf = r.chance(0.4);
  k.mapping = k.pf ? r.chance(0.6) : r.chance(0.5);
  Sim s(c, k);
  if (k.pf || !k.mapping || r.chance(0.5)) s.k.map_file = "start";
  s.exact_particles = r.chance(0.5);
  if (!s.exact_particles) s.k.alpha = 0.05;
  seed_map(r, "start", static_cast<int>(r.chance(0.01) ? r.range(60, 600) : r.range(1, 14)), 3);
  play(s, 0.1);
  s.start();
  const int ops = static_cast<int>(r.range(10, 40));
  for (int i = 0; i < ops && !s.over; ++i)
  {
    if (!s.localized && r.chance(0.6)) s.initial_pose(0);
    switch (r.range(0, 13))
    {
      case 0: case 1: s.advance(2); break;
      case 2: s.advance(0.25 * r.range(1, 4)); break;
      case 3: s.configure(Conf::Request::DISABLE_MAPPING, ""); break;
      case 4: if (r.chance(0.5)) s.configure(Conf::Request::ENABLE_MAPPING, ""); break;
      case 5: if (r.chance(0.5)) { const std::string f = "m" + std::to_string(i); seed_map(r, f, static_cast<int>(r.chance(0.15) ? 0 : r.chance(0.01) ? r.range(60, 600) : r.range(1, 14)), 3); s.configure(Conf::Request::LOAD_FROM_FILE | (r.chance(0.5) ? Conf::Request::DISABLE_MAPPING : 0), f); } break;
      case 6: s.initial_pose(); break;
      default:
        s.move();
        s.laser(points(r), r.chance(0.05));
    }
  }
  if (!s.over) s.advance(2);
  long n = 0;
  { std::lock_guard<std::mutex> l(vh::state().m); }
  n = static_cast<long>(s.events.size());
  finish(s, c, n > 1 ? n : 0);
}

// ---------------------------------------------------------------- C27
VH_PROPERTY(C27, 8000, 150000, "histories of all requests (also failing ones), initial poses (in any frame, without odometry, far from the map) and scans in every mode; the saved graph is compared after every step")
{
  if (c.rng.chance(0.08)) { interrupted(c, Meanwhile::Load); return; }
  Rng & r = c.rng;
  Config k = random_config(r);
  k.pf = r.chance(0.25);
  k.mapping = r.chance(0.6);
  if (k.pf && r.chance(0.4)) { k.min_p = 400; k.max_p = 900; }
  Sim s(c, k);
  s.exact_particles = r.chance(0.6);
  if (!s.exact_particles) s.k.alpha = 0.05;
  if (k.pf || r.chance(0.5)) s.k.map_file = "start";
  seed_map(r, "start", static_cast<int>(r.range(k.pf ? 1 : 0, 10)), 3);
  std::vector<std::string> files{"start"};
  play(s, 0.05);
  s.faults = r.chance(0.5);
  s.start();
  const int ops = static_cast<int>(r.range(10, 40));
  for (int i = 0; i < ops && !s.over; ++i)
  {
    switch (r.range(0, 13))
    {
      case 0: s.advance(0.25 * r.range(1, 8)); break;
      case 1: s.advance(2); break;
      case 2: case 3: s.initial_pose(); break;
      case 4: s.configure(r.chance(0.5) ? Conf::Request::ENABLE_MAPPING : Conf::Request::DISABLE_MAPPING, ""); break;
      case 5: case 6:
      {
        int a = 0;
        if (r.chance(0.3)) a |= r.chance(0.5) ? Conf::Request::ENABLE_MAPPING : Conf::Request::DISABLE_MAPPING;
        std::string file = r.chance(0.3) ? r.pick(files) : "f" + std::to_string(r.range(0, 1000));
        if (r.chance(0.5)) { a |= Conf::Request::SAVE_TO_FILE; }
        else
        {
          a |= Conf::Request::LOAD_FROM_FILE;
          if (r.chance(0.5) && !vstub::g_bags.count(file)) seed_map(r, file, static_cast<int>(r.range(0, 12)), 3);
          if (r.chance(0.2) && file != "start" && vstub::g_bags.count(file) && !vstub::g_bags[file].empty())
          {
            // cut off somewhere
            auto & messages = vstub::g_bags[file];
            messages[r.next() % messages.size()].data.resize(3);
            s.corrupt.insert(file);
          }
        }
        s.configure(a, file);
        if (vstub::g_bags.count(file)) files.push_back(file);
        break;
      }
      default:
        if (r.chance(0.9)) s.move();
        s.laser(points(r), r.chance(0.05));
    }
  }
  if (!s.over) s.advance(2);
  finish(s, c, static_cast<long>(s.hist.size()));
}

// ---------------------------------------------------------------- C28
VH_PROPERTY(C28, 3000, 50000, "random histories of scans, initial poses, loads, loop closures and optimizations, with changes made at random points inside publishing cycles; after two cycles the published map and graph are compared with renderings of the saved graph")
{
  Rng & r = c.rng;
  Config k = random_config(r);
  k.resolution = r.pick(std::vector<double>{0.05, 0.1, 0.25});
  k.thresh = r.pick(std::vector<double>{0.25, 0.1, 0.6});
  k.depth = static_cast<int>(r.range(1, 4));
  k.opt = static_cast<int>(r.range(0, 5));
  k.search = r.pick(std::vector<double>{1, 5});
  Sim s(c, k);
  if (r.chance(0.4)) { s.k.map_file = "start"; seed_map(r, "start", static_cast<int>(r.range(1, 8)), 3); }
  play(s, 0.05);
  // the occupancy map is also for viewers that start later
  if (r.chance(0.2)) { vstub::bus().unwatched.insert("map"); c.count("histories_without_viewer"); }
  s.start();
  const int ops = static_cast<int>(r.range(4, 25));
  long compared = 0;
  for (int i = 0; i < ops && !s.over; ++i)
  {
    auto change = [&] {
      if (!s.localized || r.chance(0.05)) { s.initial_pose(0); return; }
      if (r.chance(0.05)) { const std::string f = "m" + std::to_string(i) + "." + std::to_string(r.next() % 1000); seed_map(r, f, static_cast<int>(r.chance(0.15) ? 0 : r.chance(0.05) ? r.range(20, 120) : r.range(1, 8)), 3); s.configure(Conf::Request::LOAD_FROM_FILE, f); return; }
      if (r.chance(0.04)) { s.configure(s.mapping && r.chance(0.6) ? Conf::Request::DISABLE_MAPPING : Conf::Request::ENABLE_MAPPING, ""); return; }
      s.move();
      s.laser(points(r), r.chance(0.12) ? 1 : 0);
    };
    if (r.chance(0.5)) change();
    if (r.chance(0.5) && !s.over)
    {
      bool acted = false;
      vt::arm(r.pick(std::vector<std::string>{"any", "publish", "published", "tf_send", "lock", "unlock"}), r.range(1, 10), [&] {
        s.in_pause = true;
        acted = true;
        s.loops(false);
        change();
        s.in_pause = false;
      });
      vt::advance(250000000LL, r);
      vt::disarm();
      if (acted) c.count("changes_during_publication");
      if (s.over) break;
      s.loops(false);
    }
    if (s.over) break;
    if (r.chance(0.3))   // the loop closure stopped in between while the map is published
    {
      const std::string where = r.pick(std::vector<std::string>{"any", "lock", "unlock"});
      const long nth = r.range(1, 10);
      s.on_closure = [&c, where, nth] { vt::arm(where, nth, [&c] { if (vt::nudge()) c.count("publications_during_changes"); }, true); };
      vt::advance(1000000000LL, r);
      s.on_closure = nullptr;
      vt::disarm();
      s.loops(false);
    }
    if (s.over) break;
    s.advance(r.chance(0.3) ? 2.0 : 0.5);
    if (s.over) break;
    s.published();
    ++compared;
  }
  finish(s, c, compared);
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
