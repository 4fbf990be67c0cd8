// Monitors for the graph: storage, search and display (C18, C19, C20).
#include <ndt_2d/graph.hpp>
#include "geom.hpp"

using namespace vh;
using ndt_2d::Graph;
using ndt_2d::Pose2d;
using ndt_2d::Point;
using ndt_2d::ScanPtr;
using ndt_2d::ConstraintPtr;

namespace
{

double value(Rng & r)
{
  switch (r.range(0, 9))
  {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::max() * (r.chance(0.5) ? 1 : -1);
    case 3: return std::numeric_limits<double>::denorm_min() * r.range(-100, 100);
    case 4: return static_cast<double>(r.range(-10, 10));
    case 5: return std::pow(10.0, r.uni(-300, 300)) * (r.chance(0.5) ? 1 : -1);
    default: return r.uni(-100, 100);
  }
}

bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }

struct FlatScan { size_t id; Pose2d pose; std::vector<Point> pts; };
struct FlatCon { size_t b, e; double t[3], k[9]; bool sw; };
struct Flat
{
  std::vector<FlatScan> s;
  std::vector<FlatCon> c;
  explicit Flat(const Graph & g)
  {
    for (auto & x : g.scans) s.push_back({x->getId(), x->getPose(), x->getPoints()});
    for (auto & x : g.constraints)
    {
      FlatCon f;
      f.b = x->begin; f.e = x->end; f.sw = x->switchable;
      for (int i = 0; i < 3; ++i) { f.t[i] = x->transform(i); for (int j = 0; j < 3; ++j) f.k[3 * i + j] = x->information(i, j); }
      c.push_back(f);
    }
  }
  std::string diff(const Flat & o) const
  {
    if (s.size() != o.s.size()) return fmt("%zu scans became %zu", s.size(), o.s.size());
    if (c.size() != o.c.size()) return fmt("%zu constraints became %zu", c.size(), o.c.size());
    for (size_t i = 0; i < s.size(); ++i)
    {
      if (s[i].id != o.s[i].id) return fmt("identifier of scan %zu: %zu became %zu", i, s[i].id, o.s[i].id);
      if (!same(s[i].pose.x, o.s[i].pose.x) || !same(s[i].pose.y, o.s[i].pose.y) || !same(s[i].pose.theta, o.s[i].pose.theta))
        return fmt("pose of scan %zu: (%.17g, %.17g, %.17g) became (%.17g, %.17g, %.17g)", i, s[i].pose.x, s[i].pose.y, s[i].pose.theta, o.s[i].pose.x, o.s[i].pose.y, o.s[i].pose.theta);
      if (s[i].pts.size() != o.s[i].pts.size()) return fmt("scan %zu: %zu points became %zu", i, s[i].pts.size(), o.s[i].pts.size());
      for (size_t k = 0; k < s[i].pts.size(); ++k)
        if (!same(s[i].pts[k].x, o.s[i].pts[k].x) || !same(s[i].pts[k].y, o.s[i].pts[k].y)) return fmt("point %zu of scan %zu: (%.17g, %.17g) became (%.17g, %.17g)", k, i, s[i].pts[k].x, s[i].pts[k].y, o.s[i].pts[k].x, o.s[i].pts[k].y);
    }
    for (size_t i = 0; i < c.size(); ++i)
    {
      if (c[i].b != o.c[i].b || c[i].e != o.c[i].e) return fmt("constraint %zu: %zu - %zu became %zu - %zu", i, c[i].b, c[i].e, o.c[i].b, o.c[i].e);
      if (c[i].sw != o.c[i].sw) return fmt("switchable flag of constraint %zu: %d became %d", i, c[i].sw, o.c[i].sw);
      for (int k = 0; k < 3; ++k) if (!same(c[i].t[k], o.c[i].t[k])) return fmt("transform %d of constraint %zu: %.17g became %.17g", k, i, c[i].t[k], o.c[i].t[k]);
      for (int k = 0; k < 9; ++k) if (!same(c[i].k[k], o.c[i].k[k])) return fmt("information (%d, %d) of constraint %zu: %.17g became %.17g", k / 3, k % 3, i, c[i].k[k], o.c[i].k[k]);
    }
    return "";
  }
};

}  // namespace

VH_PROPERTY(C18, 20000, 500000, "random graphs (empty, scans only, many points, extreme and special finite values, asymmetric matrices, sparse identifiers) saved, compared, loaded, changed, saved and loaded again; distinct by contents")
{
  Rng & r = c.rng;
  vstub::g_bags.clear();
  Graph g(r.chance(0.5));
  const int n = static_cast<int>(r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(50, 300) : r.range(1, 10));
  Hash h;
  const bool plain = r.chance(0.3);
  for (int i = 0; i < n; ++i)
  {
    const size_t id = plain ? i : r.chance(0.1) ? (1ULL << r.range(0, 63)) + r.range(0, 5) : r.range(0, 1000);
    auto s = std::make_shared<ndt_2d::Scan>(id);
    s->setPose(Pose2d(value(r), value(r), r.chance(0.5) ? r.uni(-3.2, 3.2) : value(r)));
    std::vector<Point> p(r.chance(0.2) ? 0 : r.chance(0.03) ? r.range(1000, 3000) : r.chance(0.002) ? r.range(3000, 20000) : r.range(1, 20));
    for (auto & q : p) { q.x = value(r); q.y = value(r); }
    s->setPoints(p);
    g.scans.push_back(s);
    h.add(s->getPose().x).add(p.size());
  }
  const int m = n == 0 && r.chance(0.5) ? 0 : static_cast<int>(r.chance(0.1) ? 0 : r.range(1, 15));
  for (int i = 0; i < m; ++i)
  {
    auto k = std::make_shared<ndt_2d::Constraint>();
    k->begin = r.chance(0.05) ? (1ULL << r.range(31, 62)) : r.range(0, 1000); k->end = r.chance(0.05) ? (1ULL << r.range(31, 62)) : r.range(0, 1000);
    for (int a = 0; a < 3; ++a) { k->transform(a) = value(r); for (int b = 0; b < 3; ++b) k->information(a, b) = value(r); }
    k->switchable = r.chance(0.5);
    g.constraints.push_back(k);
    h.add(k->transform(0)).add(k->information(2, 1));
  }
  const Flat f(g);
  c.check(g.save("a"), "save reported failure", "%d scans", n);
  std::string d = f.diff(Flat(g));
  c.check(d.empty(), "saving changed the graph", "%s", d.c_str());
  c.count("saves"); c.count("scans", n); c.count("constraints", m);
  {
    Graph l(r.chance(0.5), "a");
    d = f.diff(Flat(l));
    if (!c.check(d.empty(), "loading gives another graph", "%s", d.c_str())) return;
    // the loaded one lives on by itself
    if (!l.scans.empty()) l.scans[0]->setPose(Pose2d(1, 2, 3));
    if (!l.constraints.empty()) l.constraints[0]->transform(0) += 1;
    d = f.diff(Flat(g));
    c.check(d.empty(), "loaded graph shares state with the saved one", "%s", d.c_str());
    const Flat fl(l);
    l.save("b");
    Graph l2(true, "b");
    d = fl.diff(Flat(l2));
    c.check(d.empty(), "saving a changed graph", "%s", d.c_str());
  }
  // and once more from the first file
  Graph l3(false, "a");
  d = f.diff(Flat(l3));
  c.check(d.empty(), "loading twice gives another graph", "%s", d.c_str());
  // loaded scans behave like the saved ones
  for (size_t i = 0; i < g.scans.size() && i < l3.scans.size(); ++i)
  {
    const Pose2d a = g.scans[i]->getBarycenterPose(), b = l3.scans[i]->getBarycenterPose();
    c.check((same(a.x, b.x) || a.x != a.x) && (same(a.y, b.y) || a.y != a.y), "barycenter of a loaded scan", "scan %zu", i);
  }
  if (n + m > 0) c.distinct(h.h);
  if (c.index < 16) c.sample(fmt("%d scans, %d constraints", n, m));
}

VH_PROPERTY(C19, 120000, 3000000, "random clouds of scans (clustered, coincident, far apart, with and without points), queries, distances and limits in both reference modes, between pose and point changes, additions and reloads; "
  "brute force as oracle; distinct by cloud and query")
{
  Rng & r = c.rng;
  vstub::g_bags.clear();
  const bool bary = r.chance(0.5);
  std::shared_ptr<Graph> g = std::make_shared<Graph>(bary);
  const double span = std::pow(10.0, r.uni(-1, 2));
  const double offset = r.chance(0.3) ? r.uni(-1000, 1000) : 0;
  auto mk = [&](size_t id)
  {
    std::vector<V2> p(r.chance(0.2) ? 0 : r.range(1, 6));
    for (auto & q : p) q = {span * r.uni(-1, 1), span * r.uni(-1, 1)};
    if (!g->scans.empty() && r.chance(0.15)) { const Pose2d q = g->scans[r.range(0, g->scans.size() - 1)]->getPose(); return mkscan(id, q.x, q.y, q.theta, p); }
    return mkscan(id, offset + span * r.uni(-1, 1), offset + span * r.uni(-1, 1), r.uni(-3.2, 3.2), p);
  };
  const int n = static_cast<int>(r.chance(0.05) ? 0 : r.chance(0.1) ? r.range(50, 200) : r.range(1, 30));
  const bool still = r.chance(0.1);     // a robot that hardly ever moves
  for (int i = 0; i < n; ++i)
  {
    g->scans.push_back(mk(i));
    if (still && i && r.chance(0.9)) { g->scans[i]->setPose(g->scans[i - 1]->getPose()); g->scans[i]->setPoints(g->scans[i - 1]->getPoints()); }
  }
  const int ops = static_cast<int>(r.range(2, 10));
  std::string story;
  for (int o = 0; o < ops; ++o)
  {
    switch (g->scans.empty() ? 4 : r.range(0, 7))
    {
      case 0: { auto & s = g->scans[r.range(0, g->scans.size() - 1)]; s->setPose(Pose2d(offset + span * r.uni(-1, 1), offset + span * r.uni(-1, 1), r.uni(-3, 3))); story += "move; "; } break;
      case 1: for (auto & s : g->scans) { const Pose2d p = s->getPose(); s->setPose(Pose2d(p.x + 0.1 * span * r.normal(), p.y + 0.1 * span * r.normal(), p.theta + r.normal())); } story += "move all; "; break;
      case 2: { std::vector<Point> p(r.range(0, 4)); for (auto & q : p) { q.x = span * r.uni(-1, 1); q.y = span * r.uni(-1, 1); } g->scans[r.range(0, g->scans.size() - 1)]->setPoints(p); story += "other points; "; } break;
      case 3: if (r.chance(0.3)) { const std::string f = "f" + std::to_string(o); g->save(f); g = std::make_shared<Graph>(bary, f); story += "reload; "; } break;
      case 4: g->scans.push_back(mk(g->scans.size())); story += "add; "; break;
      default: break;
    }
    ScanPtr q = !g->scans.empty() && r.chance(0.5) ? g->scans[r.range(0, g->scans.size() - 1)] : mk(7);
    double dist = r.chance(0.1) ? 1000 * span : span * std::pow(10.0, r.uni(-2, 0.5));
    const bool deflt = r.chance(0.15);
    int limit = r.chance(0.5) || g->scans.empty() ? -1 : static_cast<int>(r.range(1, g->scans.size() + (r.chance(0.2) ? 5 : 0)));
    std::vector<size_t> got;
    if (deflt) { got = g->findNearest(q); dist = 10.0; limit = -1; }
    else if (limit < 0 && r.chance(0.5)) got = g->findNearest(q, dist);
    else got = g->findNearest(q, dist, limit);
    c.count("searches"); c.count("found", got.size());
    auto ref = [&](const ScanPtr & s) -> V2
    {
      const Pose2d p = s->getPose();
      const auto pts = s->getPoints();
      if (!bary || pts.empty()) return {p.x, p.y};
      double x = 0, y = 0;
      for (auto & k : pts) { const V2 w = apply(p.x, p.y, p.theta, k.x, k.y); x += w.x; y += w.y; }
      return {x / pts.size(), y / pts.size()};
    };
    const V2 at = ref(q);
    const double tol = 1e-9 * (1 + std::fabs(offset) + span);
    const size_t lim = limit < 0 ? g->scans.size() : std::min<size_t>(limit, g->scans.size());
    std::vector<double> d(lim);
    size_t want = 0;
    for (size_t i = 0; i < lim; ++i) { const V2 w = ref(g->scans[i]); d[i] = std::hypot(w.x - at.x, w.y - at.y); want += d[i] < dist - tol; }
    const std::string ctx = fmt("%zu scans, distance %.6g, limit %d, %s; found %zu, expected at least %zu; %s", g->scans.size(), dist, limit, bary ? "barycenters" : "poses", got.size(), want, story.c_str());
    std::set<size_t> uniq;
    double last = 0;
    bool ok = true;
    for (size_t i : got)
    {
      ok = ok && c.check(i < lim, "index beyond the limit", "index %zu; %s", i, ctx.c_str());
      if (!ok) return;
      ok = ok && c.check(uniq.insert(i).second, "found twice", "index %zu; %s", i, ctx.c_str());
      ok = ok && c.check(d[i] <= dist + tol, "found beyond the distance", "scan %zu is %.9g away; %s", i, d[i], ctx.c_str());
      ok = ok && c.check(d[i] >= last - tol, "not in order of distance", "scan %zu at %.9g after one at %.9g; %s", i, d[i], last, ctx.c_str());
      last = d[i];
    }
    for (size_t i = 0; i < lim && ok; ++i) if (d[i] < dist - tol) ok = c.check(uniq.count(i), "scan within the distance missing", "scan %zu is %.9g away; %s", i, d[i], ctx.c_str());
    if (!ok) return;
    if (want > 0) { Hash h; h.add(at.x).add(at.y).add(dist).add(limit).add(want); c.distinct(h.h); }
    if (c.index < 16 && o == 0) c.sample(ctx);
  }
}

VH_PROPERTY(C20, 80000, 900000, "random graphs (empty, isolated scans, parallel and switchable constraints) rendered repeatedly between pose changes, additions and reloads; distinct by graph")
{
  Rng & r = c.rng;
  vstub::g_bags.clear();
  std::shared_ptr<Graph> g = std::make_shared<Graph>(r.chance(0.5));
  auto grow = [&](int n, int m)
  {
    for (int i = 0; i < n; ++i) g->scans.push_back(mkscan(g->scans.size(), r.uni(-100, 100), r.uni(-100, 100), r.uni(-3, 3), {{1, 2}}));
    for (int i = 0; i < m && g->scans.size() > 1; ++i)
    {
      auto k = std::make_shared<ndt_2d::Constraint>();
      k->begin = r.range(0, g->scans.size() - 1);
      do k->end = r.range(0, g->scans.size() - 1); while (k->end == k->begin);
      k->transform = Eigen::Vector3d(r.uni(-1, 1), 0, 0);
      k->information = Eigen::Matrix3d::Identity();
      k->switchable = r.chance(0.4);
      g->constraints.push_back(k);
    }
  };
  const bool large = r.chance(0.004);
  if (large) c.count("large_graphs");
  grow(static_cast<int>(large ? r.range(300, 1500) : r.chance(0.1) ? 0 : r.range(1, 30)), static_cast<int>(large ? r.range(0, 1500) : r.range(0, 30)));
  const int rounds = static_cast<int>(r.range(1, 4));
  for (int round = 0; round < rounds; ++round)
  {
    visualization_msgs::msg::MarkerArray msg;
    rclcpp::Time t(static_cast<int64_t>(r.range(0, 4000000000LL)) * 500000000LL);
    g->getMsg(msg, t);
    c.count("renderings");
    const std::string ctx = fmt("%zu scans, %zu constraints, %zu markers", g->scans.size(), g->constraints.size(), msg.markers.size());
    std::set<std::pair<std::string, int>> ids;
    std::map<std::pair<double, double>, int> nodes;
    std::map<std::tuple<double, double, double, double, bool>, int> edges;
    std::map<std::tuple<double, double, double, double>, int> seen;
    using Color = std::tuple<double, double, double>;
    std::set<Color> odo, loop, node;
    std::map<std::tuple<double, double, double, double>, std::vector<Color>> colors;
    for (auto & m : msg.markers)
    {
      if (m.action != visualization_msgs::msg::Marker::ADD) continue;    // such as removing what was shown before
      c.check(ids.insert({m.ns, m.id}).second, "namespace and identifier used twice", "%s/%d; %s", m.ns.c_str(), m.id, ctx.c_str());
      c.check(m.header.frame_id == "map", "frame", "%s", m.header.frame_id.c_str());
      c.check(rclcpp::Time(m.header.stamp).nanoseconds() == t.nanoseconds(), "stamp", "%ld instead of %ld", static_cast<long>(rclcpp::Time(m.header.stamp).nanoseconds()), static_cast<long>(t.nanoseconds()));
      c.check(m.color.a > 0, "invisible marker", "%s/%d", m.ns.c_str(), m.id);
      c.check(m.scale.x > 0, "marker without size", "%s/%d", m.ns.c_str(), m.id);
      if (m.points.empty())
      {
        ++nodes[{m.pose.position.x, m.pose.position.y}];
        node.insert({m.color.r, m.color.g, m.color.b});
        c.count("nodes");
      }
      else
      {
        if (!c.check(m.points.size() == 2, "edge with other than two points", "%zu", m.points.size())) return;
        c.check(m.pose.position.x == 0 && m.pose.position.y == 0, "edge displaced", "by (%g, %g)", m.pose.position.x, m.pose.position.y);
        const std::tuple<double, double, double, double> k{m.points[0].x, m.points[0].y, m.points[1].x, m.points[1].y};
        ++seen[k];
        colors[k].push_back({m.color.r, m.color.g, m.color.b});
        c.count("edges");
      }
    }
    size_t nn = 0, ne = 0;
    for (auto & s : g->scans)
    {
      const Pose2d p = s->getPose();
      c.check(nodes.count({p.x, p.y}), "no marker for a scan", "scan %zu at (%g, %g); %s", s->getId(), p.x, p.y, ctx.c_str());
    }
    for (auto & q : nodes) nn += q.second;
    c.check(nn == g->scans.size(), "number of node markers", "%zu; %s", nn, ctx.c_str());
    std::map<std::tuple<double, double, double, double>, std::pair<int, int>> want;   // odometry, loop closure
    for (auto & k : g->constraints)
    {
      const Pose2d a = g->scans[k->begin]->getPose(), b = g->scans[k->end]->getPose();
      std::tuple<double, double, double, double> key{a.x, a.y, b.x, b.y}, rev{b.x, b.y, a.x, a.y};
      if (seen.count(rev) && !seen.count(key)) key = rev;    // either direction
      auto & w = want[key];
      ++(k->switchable ? w.second : w.first);
    }
    for (auto & q : seen) ne += q.second;
    c.check(ne == g->constraints.size(), "number of edge markers", "%zu; %s", ne, ctx.c_str());
    for (auto & [k, w] : want)
    {
      if (!c.check(seen.count(k) && seen[k] == w.first + w.second, "no marker for a constraint", "%d markers for %d constraints between (%g, %g) and (%g, %g); %s", seen.count(k) ? seen[k] : 0, w.first + w.second,
        std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k), ctx.c_str())) return;
      if (!w.second) for (auto & q : colors[k]) odo.insert(q);
      if (!w.first) for (auto & q : colors[k]) loop.insert(q);
    }
    for (auto & q : odo) c.check(!loop.count(q), "loop closures look like odometry", "color (%g, %g, %g); %s", std::get<0>(q), std::get<1>(q), std::get<2>(q), ctx.c_str());
    if (!g->constraints.empty()) { Hash h; h.add(g->scans[0]->getPose().x).add(ne).add(nn); c.distinct(h.h); }
    if (c.index < 16 && round == 0) c.sample(ctx);
    if (c.failed) return;
    switch (r.range(0, 3))
    {
      case 0: grow(static_cast<int>(r.range(0, 5)), static_cast<int>(r.range(0, 5))); break;
      case 1: for (auto & s : g->scans) s->setPose(Pose2d(r.uni(-100, 100), r.uni(-100, 100), 0)); break;
      case 2: { const std::string f = "f" + std::to_string(round); g->save(f); g = std::make_shared<Graph>(true, f); } break;
      default: for (auto & k : g->constraints) if (r.chance(0.3)) k->switchable = !k->switchable;
    }
  }
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
