# The planted bugs; seed.py makes the folders under seeded/ from them.
H = r'''
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#define REQUIRE(x) do { if (!(x)) { printf("FAILED: %s (line %d)\n", #x, __LINE__); fflush(stdout); _exit(1); } } while (0)
'''
SCAN = H + r'''
#include <ndt_2d/scan.hpp>
static ndt_2d::ScanPtr scan(size_t id, double x, double y, double th, std::vector<ndt_2d::Point> p = {})
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(ndt_2d::Pose2d(x, y, th));
  s->setPoints(p);
  return s;
}
'''
NDT = SCAN + r'''
#include <ndt_2d/ndt_model.hpp>
'''
FILTER = SCAN + r'''
#include <ndt_2d/particle_filter.hpp>
#include <functional>
using V3 = Eigen::Vector3d;
struct Matcher : ndt_2d::ScanMatcher
{
  std::function<double(const ndt_2d::Pose2d &)> f;
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator &, const std::vector<ndt_2d::ScanPtr>::const_iterator &) override {}
  double matchScan(const ndt_2d::ScanPtr &, ndt_2d::Pose2d &, Eigen::Matrix3d &) const override { return 0; }
  double scoreScan(const ndt_2d::ScanPtr &) const override { return 0; }
  double scorePoints(const std::vector<ndt_2d::Point> &, const ndt_2d::Pose2d & p) const override { return f(p); }
  void reset() override {}
};
static std::vector<V3> particles(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  std::vector<V3> v;
  for (auto & p : m.poses) v.push_back(V3(p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)));
  return v;
}
'''
MATCHER = SCAN + r'''
#include <ndt_2d/scan_matcher_ndt.hpp>
static std::shared_ptr<ndt_2d::ScanMatcherNDT> matcher(double range, int beams = 100, double lsize = 0.1, double lres = 0.02, double asize = 0.1, double ares = 0.02)
{
  vstub::g_params.clear();
  vstub::g_declared.clear();
  vstub::g_params["m.ndt_resolution"] = 0.25;
  vstub::g_params["m.search_angular_resolution"] = ares;
  vstub::g_params["m.search_angular_size"] = asize;
  vstub::g_params["m.search_linear_resolution"] = lres;
  vstub::g_params["m.search_linear_size"] = lsize;
  vstub::g_params["m.laser_max_beams"] = static_cast<int64_t>(beams);
  rclcpp::Node node("n");
  auto m = std::make_shared<ndt_2d::ScanMatcherNDT>();
  m->initialize("m", &node, range);
  return m;
}
static std::vector<ndt_2d::Point> wall(double x, double y0, double y1, int n = 200)
{
  std::vector<ndt_2d::Point> p;
  for (int i = 0; i < n; ++i) p.push_back(ndt_2d::Point(x + 0.01 * std::sin(i * 2.1), y0 + (y1 - y0) * i / n));
  return p;
}
'''
CERES = SCAN + r'''
#include <ndt_2d/ceres_solver.hpp>
static ndt_2d::ConstraintPtr edge(size_t b, size_t e, double x, double y, double th)
{
  auto c = std::make_shared<ndt_2d::Constraint>();
  c->begin = b; c->end = e;
  c->transform = Eigen::Vector3d(x, y, th);
  c->information = Eigen::Matrix3d::Identity() * 100;
  c->switchable = false;
  return c;
}
'''
OCC = SCAN + r'''
#include <ndt_2d/occupancy_grid.hpp>
'''
GRAPH = SCAN + r'''
#include <ndt_2d/graph.hpp>
'''
MAPPER = '#include "demo.hpp"\nusing namespace demo;\n'

M = "src/ndt_mapper.cpp"
SEEDS = [
dict(id="c01_stop_outside", prop="C01", set="ndt",
  edits=[("src/ndt_model.cpp", "    Eigen::Vector2d p(point.x, point.y);\n    score += likelihood(p);\n",
          "    const int index = getIndex(point.x, point.y);\n    if (index < 0) break;\n    score += cells_[index].score(Eigen::Vector2d(point.x, point.y));\n")],
  needs="a set of points with one outside the modelled area before one inside", breaks="the points after the one outside no longer count",
  demo=NDT + r'''
int main()
{
  ndt_2d::NDT m(1.0, 4, 4, 0, 0);
  m.addScan(scan(0, 0, 0, 0, {{1.2, 1.2}, {1.8, 1.3}, {1.3, 1.8}, {1.7, 1.6}, {1.4, 1.6}, {1.6, 1.2}}));
  m.compute();
  const double one = m.likelihood(Eigen::Vector2d(1.5, 1.5));
  REQUIRE(one > 0.5);
  REQUIRE(m.likelihood(std::vector<ndt_2d::Point>{{1.5, 1.5}, {9, 9}, {1.5, 1.5}}) == 2 * one);
  return 0;
}
'''),
dict(id="c02_point_on_mean", prop="C02", set="ndt",
  edits=[("src/ndt_model.cpp", "  n += 1;\n  valid = false;\n", "  n += 1;\n  // A point on the mean does not change the shape\n  if ((point - mean).squaredNorm() > 1e-6) valid = false;\n")],
  needs="points on (or very near) the mean of a cell added after its statistics were computed once", breaks="the cell keeps the covariance of the points it held at the first computation",
  demo=NDT + r'''
int main()
{
  std::vector<ndt_2d::Point> a{{1.2, 1.4}, {1.8, 1.6}, {1.3, 1.6}, {1.7, 1.4}, {1.5, 1.3}, {1.5, 1.7}}, b(40, ndt_2d::Point(1.5, 1.5)), ab = a;
  ab.insert(ab.end(), b.begin(), b.end());
  ndt_2d::NDT m(1.0, 4, 4, 0, 0), w(1.0, 4, 4, 0, 0);
  m.addScan(scan(0, 0, 0, 0, a));
  m.compute();
  m.addScan(scan(1, 0, 0, 0, b));
  m.compute();
  w.addScan(scan(0, 0, 0, 0, ab));
  w.compute();
  Eigen::Vector2d q(1.6, 1.5);
  REQUIRE(std::fabs(m.likelihood(q) - w.likelihood(q)) < 1e-6);
  return 0;
}
'''),
dict(id="c03_row_length", prop="C03", set="ndt",
  edits=[("src/ndt_model.cpp", "  return (grid_y * size_x_) + grid_x;\n", "  return (grid_x * size_y_) + std::min<size_t>(grid_y, size_x_ - 1);\n")],
  needs="a map that is taller than wide", breaks="rows beyond the width of the map share one cell",
  demo=NDT + r'''
int main()
{
  ndt_2d::NDT m(1.0, 2, 8, 0, 0);
  std::vector<ndt_2d::Point> a;
  for (int i = 0; i < 20; ++i) a.push_back({1.1 + 0.04 * i, 4.1 + 0.04 * ((i * 7) % 20)});
  m.addScan(scan(0, 0, 0, 0, a));
  std::vector<ndt_2d::Point> b;
  for (int i = 0; i < 20; ++i) b.push_back({1.1 + 0.04 * i, 7.1 + 0.04 * ((i * 7) % 20)});
  m.addScan(scan(1, 0, 0, 0, b));
  m.compute();
  ndt_2d::NDT o(1.0, 2, 8, 0, 0);
  o.addScan(scan(0, 0, 0, 0, a));
  o.compute();
  REQUIRE(std::fabs(m.likelihood(Eigen::Vector2d(1.2, 4.3)) - o.likelihood(Eigen::Vector2d(1.2, 4.3))) < 1e-9);
  return 0;
}
'''),
dict(id="c04_shifted_barycenter", prop="C04", set="scan",
  edits=[("src/scan.cpp", "  dirty_ = true;\n  pose_ = pose;\n",
          "  if (!dirty_)\n  {\n    // Points move along with the scan\n    barycenter_.x += pose.x - pose_.x;\n    barycenter_.y += pose.y - pose_.y;\n    barycenter_.theta = pose.theta;\n  }\n  pose_ = pose;\n")],
  needs="a change of orientation after the barycenter was read", breaks="the barycenter is moved but not turned with the scan",
  demo=SCAN + r'''
int main()
{
  auto s = scan(0, 1, 1, 0, {{1, 0}, {3, 0}});
  auto b = s->getBarycenterPose();
  REQUIRE(std::abs(b.x - 3) < 1e-9 && std::abs(b.y - 1) < 1e-9);
  s->setPose(ndt_2d::Pose2d(1, 1, 1.5707963267948966));
  b = s->getBarycenterPose();
  REQUIRE(std::abs(b.x - 1) < 1e-9 && std::abs(b.y - 3) < 1e-9);
  return 0;
}
'''),
dict(id="c05_begin_end_sorted", prop="C05", set="scan",
  edits=[("src/constraint.cpp", "  constraint->begin = from->getId();\n  constraint->end = to->getId();\n",
          "  constraint->begin = std::min(from->getId(), to->getId());\n  constraint->end = std::max(from->getId(), to->getId());\n")],
  needs="a constraint from a scan of higher to one of lower identifier", breaks="the end points no longer belong to the transform",
  demo=SCAN + r'''
#include <ndt_2d/constraint.hpp>
int main()
{
  Eigen::Matrix3d c = Eigen::Matrix3d::Identity();
  auto e = ndt_2d::makeConstraint(scan(7, 1, 2, 0), scan(3, 4, 5, 0), c);
  REQUIRE(e->begin == 7 && e->end == 3);
  return 0;
}
'''),
dict(id="c06_angle_wrap", prop="C06", set="ceres",
  edits=[("include/ndt_2d/ceres_solver_pose.hpp", "NormalizeAngle((*yaw_b - *yaw_a) - static_cast<T>(yaw_ab_radians_));", "NormalizeAngle(*yaw_b - *yaw_a) - static_cast<T>(yaw_ab_radians_);")],
  needs="two scans with headings on both sides of half a turn", breaks="the angular error of a constraint is off by a full turn",
  demo=CERES + r'''
int main()
{
  ndt_2d::CeresSolver solver;
  std::vector<ndt_2d::ScanPtr> s = {scan(0, 0, 0, -3), scan(1, 1.1, 0.1, 3.02), scan(2, 2, 0, 2.9)};
  // by how much the second heading exceeds the first, as constraints are made
  REQUIRE(solver.optimize({edge(0, 1, 1, 0, 6), edge(1, 2, 1, 0, 0)}, s));
  REQUIRE(std::abs(std::remainder(s[1]->getPose().theta - 3, 2 * M_PI)) < 1e-4);
  REQUIRE(std::abs(std::remainder(s[2]->getPose().theta - 3, 2 * M_PI)) < 1e-4);
  return 0;
}
'''),
dict(id="c07_ids_as_positions", prop="C07", set="ceres", flags="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all", env="ASAN_OPTIONS=detect_leaks=0 ",
  edits=[("src/ceres_solver.cpp", "nodes_.find(begin->getId());\n  auto end_node = nodes_.find(end->getId());", "nodes_.find(constraint->begin);\n  auto end_node = nodes_.find(constraint->end);")],
  needs="a graph whose scan identifiers differ from their positions", breaks="memory outside the solver's nodes is optimized",
  demo=CERES + r'''
int main()
{
  ndt_2d::CeresSolver solver;
  std::vector<ndt_2d::ScanPtr> s = {scan(10, 0, 0, 0), scan(0, 1.2, 0, 0), scan(1, 2.3, 0, 0)};
  REQUIRE(solver.optimize({edge(0, 1, 1, 0, 0), edge(1, 2, 1, 0, 0)}, s));
  REQUIRE(std::abs(s[0]->getPose().x) < 1e-6 && std::abs(s[1]->getPose().x - 1) < 1e-4 && std::abs(s[2]->getPose().x - 2) < 1e-4);
  return 0;
}
'''),
dict(id="c08_reference_into_vector", prop="C08", set="filter", flags="-O1 -g -fsanitize=address", env="ASAN_OPTIONS=detect_leaks=0 ",
  edits=[("include/ndt_2d/kd_tree.hpp", "      NodePtr parent = nodes_[0];\n", "      NodePtr & parent = nodes_[0];\n")],
  needs="a tree that outgrows the reserved capacity while its root is still a leaf", breaks="the root is used after the vector was reallocated",
  demo=FILTER + r'''
#include <ndt_2d/kd_tree.hpp>
int main()
{
  ndt_2d::KDTree<double> t(0.5, 0.5, 0.25, 1);
  for (int i = 0; i < 50; ++i) { V3 k(i, -i, 0); double w = 1; t.insert(k, w); REQUIRE(t.getLeafCount() == size_t(i) + 1); }
  return 0;
}
'''),
dict(id="c09_second_rotation", prop="C09", set="filter",
  edits=[("src/motion_model.cpp", "double sigma_rot2 = std::sqrt(a1_ * rot2_ * rot2_ +", "double sigma_rot2 = std::sqrt(a1_ * rot1_ * rot1_ +")],
  needs="a motion whose first and second rotation differ", breaks="the second rotation gets the noise of the first",
  demo=FILTER + r'''
int main()
{
  ndt_2d::MotionModel m(0.01, 0, 0, 0, 0);
  std::vector<V3> p(20000, V3::Zero());
  m.sample(1, 0, 1, p);
  double v = 0;
  for (auto & q : p) v += (q(2) - 1) * (q(2) - 1);
  v = std::sqrt(v / p.size());
  REQUIRE(v > 0.09 && v < 0.11);
  return 0;
}
'''),
dict(id="c10_heading_variance", prop="C10", set="filter",
  edits=[("src/particle_filter.cpp", "    double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));\n", "    double d = mean_(2) - particles_[i](2);\n")],
  needs="headings on both sides of half a turn", breaks="the angular variance counts particles across the wrap as far away",
  demo=FILTER + r'''
int main()
{
  auto mm = std::make_shared<ndt_2d::MotionModel>(0.1, 0.1, 0.1, 0.1, 0.1);
  ndt_2d::ParticleFilter f(500, 1000, mm);
  f.init(0, 0, M_PI, 0.1, 0.1, 0.1);
  REQUIRE(f.getCovariance()(2, 2) < 0.02);
  return 0;
}
'''),
dict(id="c11_bins_of_the_past", prop="C11", set="filter",
  edits=[("src/particle_filter.cpp", "  kd_tree_.clear();\n", "")],
  needs="resampling once spread and once more after the particles have concentrated", breaks="bins occupied by earlier resamplings count for the KLD bound",
  demo=FILTER + r'''
int main()
{
  auto mm = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(20, 2000, mm);
  f.init(0, 0, 0, 5, 5, 1);
  for (int i = 0; i < 4; ++i) f.resample(0.1, 2.3);
  f.init(0, 0, 0, 0.2, 0.2, 0.01);
  f.resample(0.1, 2.3);
  const size_t n = particles(f).size();
  REQUIRE(n >= 20 && n < 200);
  return 0;
}
'''),
dict(id="c12_zero_keeps_weight", prop="C12", set="filter", also=["C10"],
  edits=[("src/particle_filter.cpp", "    weights_[i] = matcher->scorePoints(scan->getPoints(), pose);\n",
          "    double score = matcher->scorePoints(scan->getPoints(), pose);\n    if (score != 0.0) weights_[i] = score;\n")],
  needs="a measurement that scores some of the particles zero", breaks="weights of both signs, the estimate leaves the particles",
  demo=FILTER + r'''
int main()
{
  auto mm = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(100, 500, mm);
  f.init(0, 0, 0, 1, 1, 0.1);
  auto m = std::make_shared<Matcher>();
  m->f = [](const ndt_2d::Pose2d & p) { return p.x > 0.5 ? -0.02 : 0.0; };
  f.measure(m, scan(0, 0, 0, 0, {{1, 0}}));
  REQUIRE(f.getMean()(0) > 0.5 && f.getMean()(0) < 4);
  f.resample(0.01, 2.3);
  for (auto & p : particles(f)) REQUIRE(p(0) > 0.5);
  return 0;
}
'''),
dict(id="c13_score_share", prop="C13", set="matcher",
  edits=[("src/scan_matcher_ndt.cpp", "  return best_score / scan_points_to_use;\n", "  return best_score / points.size();\n")],
  needs="a scan with more points than the configured beams", breaks="the score returned is not that of the corrected scan",
  demo=MATCHER + r'''
int main()
{
  auto m = matcher(5, 50);
  std::vector<ndt_2d::ScanPtr> v = {scan(0, 0, 0, 0, wall(2, -2, 2))};
  m->addScans(v.begin(), v.end());
  auto s = scan(1, 0.03, 0, 0, wall(2, -2, 2));
  ndt_2d::Pose2d p; Eigen::Matrix3d c;
  const double a = m->matchScan(s, p, c);
  s->setPose(ndt_2d::Pose2d(0.03 + p.x, p.y, p.theta));
  REQUIRE(a < 0 && std::fabs(a - m->scoreScan(s)) < 1e-6);
  return 0;
}
'''),
dict(id="c14_absolute_poses", prop="C14", set="matcher",
  edits=[("src/scan_matcher_ndt.cpp", "        Eigen::Vector3d x(dx, dy, dth);\n", "        Eigen::Vector3d x(scan_pose.x + dx, scan_pose.y + dy, dth);\n")],
  needs="a scan far from the map's origin", breaks="the covariance is lost to rounding and may not be positive",
  demo=MATCHER + r'''
int main()
{
  Eigen::Matrix3d c[2];
  for (int k = 0; k < 2; ++k)
  {
    const double far = k * 131072.0;
    auto m = matcher(5, 50, 0.01, 0.002);
    std::vector<ndt_2d::ScanPtr> v = {scan(0, far, far, 0, wall(2.1, -1.9, 2))};
    m->addScans(v.begin(), v.end());
    ndt_2d::Pose2d p;
    m->matchScan(scan(1, far, far, 0, wall(2.1, -1.9, 2)), p, c[k]);
  }
  REQUIRE((c[0] - c[1]).cwiseAbs().maxCoeff() < 3e-7);
  return 0;
}
'''),
dict(id="c15_box_of_barycenters", prop="C15", set="matcher",
  edits=[("src/scan_matcher_ndt.cpp", "    Pose2d pose = (*scan)->getPose();\n", "    Pose2d pose = (*scan)->getBarycenterPose();\n")],
  needs="a scan whose points lie on one side, except a few on the other", breaks="points within range fall outside of the local map",
  demo=MATCHER + r'''
int main()
{
  auto m = matcher(5, 1000);
  auto p = wall(4.5, -1, 1, 400);
  for (auto & q : wall(-4.4, -1, 1, 60)) p.push_back(q);
  std::vector<ndt_2d::ScanPtr> v = {scan(0, 0, 0, 0, p)};
  m->addScans(v.begin(), v.end());
  REQUIRE(m->scorePoints(wall(-4.4, -1, 1, 60), ndt_2d::Pose2d()) < -0.2);
  return 0;
}
'''),
dict(id="c16_reused_message", prop="C16", set="occ",
  edits=[("src/occupancy_grid.cpp", "  grid.data.assign(grid.info.width * grid.info.height, -1);\n", "  grid.data.resize(grid.info.width * grid.info.height, -1);\n")],
  needs="a message that is rendered into twice", breaks="cells of the earlier rendering stay in the map",
  demo=OCC + r'''
int main()
{
  ndt_2d::OccupancyGrid g(0.1, 0.25);
  nav_msgs::msg::OccupancyGrid a, b;
  std::vector<ndt_2d::ScanPtr> s = {scan(0, 0, 0, 0, {{2, 0}, {0, 2}, {-2, 0}, {0, -2}})};
  g.getMsg(s, a);
  s[0]->setPose(ndt_2d::Pose2d(0, 0, 0.4));
  g.getMsg(s, a);
  g.getMsg(s, b);
  REQUIRE(a.info.width == b.info.width && a.data == b.data);
  return 0;
}
'''),
dict(id="c17_threshold", prop="C17", set="occ",
  edits=[("src/occupancy_grid.cpp", "      if (static_cast<double>(hit[i]) / touches > occ_thresh_)\n", "      if (static_cast<double>(hit[i]) / touches >= occ_thresh_)\n")],
  needs="a cell whose share of hits equals the threshold", breaks="a cell at the threshold is drawn occupied",
  demo=OCC + r'''
int main()
{
  ndt_2d::OccupancyGrid g(0.1, 0.25);
  nav_msgs::msg::OccupancyGrid a;
  std::vector<ndt_2d::ScanPtr> s = {scan(0, 0.05, 0.05, 0, {{1.0, 0}, {2.0, 0}, {2.0, 0}, {2.0, 0}})};
  g.getMsg(s, a);
  const int x = (1.05 - a.info.origin.position.x) / 0.1, y = (0.05 - a.info.origin.position.y) / 0.1;
  REQUIRE(a.data[x + y * a.info.width] == 0);
  return 0;
}
'''),
dict(id="c18_quaternion_heading", prop="C18", set="graph",
  edits=[("src/graph.cpp", "                  scan_msg->pose.orientation.w);\n", "                  2.0 * std::atan2(scan_msg->pose.orientation.z, scan_msg->pose.orientation.w));\n"),
         ("src/graph.cpp", "    msg->pose.orientation.w = scan->getPose().theta;\n", "    msg->pose.orientation.z = std::sin(scan->getPose().theta / 2.0);\n    msg->pose.orientation.w = std::cos(scan->getPose().theta / 2.0);\n")],
  needs="headings outside of one turn, or exact comparison", breaks="headings do not survive saving and loading",
  demo=GRAPH + r'''
int main()
{
  ndt_2d::Graph g(true);
  for (int i = 0; i < 20; ++i) g.scans.push_back(scan(i, i, 0, 0.7 * i));
  g.save("map");
  ndt_2d::Graph h(true, "map");
  for (int i = 0; i < 20; ++i) REQUIRE(h.scans[i]->getPose().theta == g.scans[i]->getPose().theta);
  return 0;
}
'''),
dict(id="c19_query_by_pose", prop="C19", set="graph",
  edits=[("src/graph.cpp", "  const Pose2d & pose = use_barycenter_ ? scan->getBarycenterPose() : scan->getPose();\n", "  const Pose2d & pose = scan->getPose();\n")],
  needs="a query scan with points away from its pose, searched by barycenter", breaks="distances are taken from the pose of the query",
  demo=GRAPH + r'''
int main()
{
  ndt_2d::Graph g(true);
  for (int i = 0; i < 5; ++i) g.scans.push_back(scan(i, i, 0, 0));
  auto n = g.findNearest(scan(9, 0, 0, 0, {{4, 0}}), 0.5);
  REQUIRE(n.size() == 1 && n[0] == 4);
  return 0;
}
'''),
dict(id="c20_edge_ids", prop="C20", set="graph",
  edits=[("src/graph.cpp", "      m.color.b = 1.0;\n      m.color.a = 1.0;\n    }\n    msg.markers.push_back(m);\n    ++m.id;\n", "      m.color.b = 1.0;\n      m.color.a = 1.0;\n      ++m.id;\n    }\n    msg.markers.push_back(m);\n")],
  needs="a loop closure edge", breaks="a loop closure's marker replaces that of another edge",
  demo=GRAPH + r'''
#include <set>
int main()
{
  ndt_2d::Graph g(true);
  for (int i = 0; i < 4; ++i) g.scans.push_back(scan(i, i, 0, 0));
  for (int i = 0; i < 3; ++i)
  {
    Eigen::Matrix3d c = Eigen::Matrix3d::Identity();
    auto e = ndt_2d::makeConstraint(g.scans[i], g.scans[i + 1], c);
    e->switchable = i == 1;
    g.constraints.push_back(e);
  }
  visualization_msgs::msg::MarkerArray m;
  rclcpp::Time t(5);
  g.getMsg(m, t);
  std::set<std::pair<std::string, int>> ids;
  for (auto & k : m.markers) ids.insert({k.ns, k.id});
  REQUIRE(ids.size() == 7 && m.markers.size() == 7);
  return 0;
}
'''),
dict(id="c21_map_without_lock", prop="C21", set="mapper", flags="-O1 -g -fsanitize=thread", env="TSAN_OPTIONS=halt_on_error=1:exitcode=66 ",
  edits=[(M, "        std::lock_guard<std::mutex> lock(graph_mutex_);\n        grid_->getMsg(graph_->scans, grid_msg);\n", "        // Rendering takes long, do not keep others waiting\n        graph_mutex_.lock();\n        std::vector<ScanPtr> & scans = graph_->scans;\n        graph_mutex_.unlock();\n        grid_->getMsg(scans, grid_msg);\n")],
  needs="a scan added, or a pose corrected, while the occupancy map is rendered", breaks="data race on the scans of the graph",
  demo='#include <ndt_2d/ceres_solver.hpp>\n' + H + r'''
#include "mw.hpp"
using namespace mw;
extern "C"
{
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { return __real_pthread_mutex_unlock(m); }
int __wrap_nanosleep(const timespec *, timespec *) { timespec t{0, 3000000}; return __real_nanosleep(&t, nullptr); }
int __wrap_clock_nanosleep(clockid_t, int, const timespec *, timespec *) { timespec t{0, 3000000}; return __real_nanosleep(&t, nullptr); }
int __wrap_usleep(unsigned) { timespec t{0, 3000000}; return __real_nanosleep(&t, nullptr); }
}
struct Mock : ndt_2d::ScanMatcher
{
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator &, const std::vector<ndt_2d::ScanPtr>::const_iterator &) override {}
  double matchScan(const ndt_2d::ScanPtr &, ndt_2d::Pose2d & p, Eigen::Matrix3d & c) const override { p = ndt_2d::Pose2d(); c.setIdentity(); return -0.1; }
  double scoreScan(const ndt_2d::ScanPtr &) const override { return -0.1; }
  double scorePoints(const std::vector<ndt_2d::Point> &, const ndt_2d::Pose2d &) const override { return -0.1; }
  void reset() override {}
};
vstub::PluginReg<Mock, ndt_2d::ScanMatcher> reg("demo::Mock");
int main()
{
  vstub::reset_world();
  vstub::g_params["scan_matcher_type"] = std::string("demo::Mock");
  vstub::g_params["resolution"] = 0.2;
  Frames f;
  Pose odom;
  f.odom_at = [&](int64_t) { return odom; };
  vstub::g_tf = [&](const std::string & a, const std::string & b, int64_t t, Rigid & o) { return f.lookup(a, b, t, o); };
  auto node = std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());
  for (int i = 0; i < 300; ++i)
  {
    auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
    m->header.frame_id = "laser";
    m->angle_min = -1; m->angle_increment = 0.1; m->angle_max = 1; m->range_max = 10;
    m->ranges.assign(20, 2.0f);
    odom.x += 0.2;
    vstub::bus().deliver<sensor_msgs::msg::LaserScan>("scan", m);
    timespec t{0, 1000000};
    __real_nanosleep(&t, nullptr);
  }
  vstub::g_ok.store(false);
  node.reset();
  return 0;
}
'''),
dict(id="c22_inverted_laser", prop="C22", set="mapper",
  edits=[(M, "      if (std::fabs(t.transform.rotation.x) > 0.02 ||\n", "      if (std::fabs(t.transform.rotation.x) > 0.02 &&\n")],
  needs="a laser mounted upside down facing straight ahead", breaks="the laser is not treated as inverted, scans are mirrored",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.f.inverted = true;
  n.start();
  std::vector<float> r(20, std::nanf(""));
  r[0] = 3;
  n.laser(r);
  auto d = n.dump();
  REQUIRE(d.s.size() == 1 && d.s[0].pts.size() == 1);
  REQUIRE(std::abs(d.s[0].pts[0].x - 3 * std::cos(1.0)) < 1e-5 && std::abs(d.s[0].pts[0].y - 3 * std::sin(1.0)) < 1e-5);
  return 0;
}
'''),
dict(id="c23_turn_right", prop="C23", set="mapper",
  edits=[(M, "        std::fabs(dth) < minimum_travel_rotation_)\n", "        dth < minimum_travel_rotation_)\n")],
  needs="turning clockwise on the spot", breaks="scans are not used although the robot has turned enough",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.start();
  n.laser();
  n.drive(0, 0, -1.2);
  n.laser();
  REQUIRE(n.dump().s.size() == 2);
  return 0;
}
'''),
dict(id="c23_mixed_transform", prop="C23", set="mapper",
  edits=[(M, "      // Latest odom pose gives us odom -> robot\n      Eigen::Isometry3d odom_to_robot = toEigen(prev_odom_pose_);\n\n      // Done accessing previous poses\n      lock.unlock();\n",
          "      // Done accessing robot pose\n      lock.unlock();\n\n      // Latest odom pose gives us odom -> robot\n      Eigen::Isometry3d odom_to_robot = toEigen(prev_odom_pose_);\n")],
  needs="a scan used just when the publisher has read the robot's pose but not yet the odometry's", breaks="the transform mixes the poses of two localization events",
  demo=MAPPER + r'''
int main()
{
  for (int k = 1; k < 12; ++k)
  {
    Node n;
    n.start();
    n.laser();
    n.advance(1);
    n.drive(1);
    n.tfs.clear();
    vt::arm("unlock", k, [&] { n.laser(); });
    n.advance(1);
    vt::disarm();
    for (auto & t : n.tfs) REQUIRE(std::abs(t.transform.translation.x) < 1e-9);
  }
  return 0;
}
'''),
dict(id="c24_window_start", prop="C24", set="mapper",
  edits=[(M, "      auto rolling = graph_->scans.begin() + start;\n", "      auto rolling = graph_->scans.begin() + (start > 1 ? start - 1 : 0);\n")],
  needs="more scans than the rolling depth", breaks="scans are matched against more than the most recent ones",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.set("rolling_depth", int64_t(3));
  n.start();
  for (int i = 0; i < 8; ++i) { n.laser(); n.drive(1); }
  for (auto & m : matches()) if (m.matcher == "local_scan_matcher") REQUIRE(m.map.size() <= 3);
  return 0;
}
'''),
dict(id="c25_half_of_the_candidates", prop="C25", set="mapper",
  edits=[(M, "size_t num_scans_to_check = global_search_limit_;", "size_t num_scans_to_check = std::max<size_t>(global_search_limit_, scans.size() / 2);")],
  needs="more than twice as many scans in reach as the limit", breaks="more candidates than the limit are matched",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.set("rolling_depth", int64_t(2));
  n.set("global_search_size", 100.0);
  n.set("global_search_limit", int64_t(2));
  script = [](Match & m) { m.score = m.background ? 0.0 : -0.1; };
  n.start();
  for (int i = 0; i < 10; ++i) { n.laser(); n.drive(0.3); }
  n.advance(3);
  std::map<size_t, int> tries;
  for (auto & m : matches()) if (m.background) ++tries[m.scan.id];
  REQUIRE(!tries.empty());
  for (auto & t : tries) REQUIRE(t.second <= 2);
  return 0;
}
'''),
dict(id="c26_pose_while_localizing", prop="C26", set="mapper", also=["C27"],
  edits=[(M, "  else if (enable_mapping_)\n  {\n    // Lock graph before interacting\n", "  else\n  {\n    // Lock graph before interacting\n")],
  needs="an initial pose while mapping is disabled", breaks="localizing adds a scan and a constraint to the map",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.set("global_search_size", 5.0);
  n.set("enable_mapping", false);
  n.set("map_file", std::string("m"));
  chain({{0, 0, 0}, {1, 0, 0}, {2, 0, 0}}).graph(true)->save("m");
  n.start();
  n.initial({1, 0, 0});
  REQUIRE(n.dump().s.size() == 3);
  return 0;
}
'''),
dict(id="c27_load_keeps_pose", prop="C27", set="mapper",
  edits=[(M, "    map_update_available_ = true;\n    prev_odom_pose_is_initialized_ = false;\n", "    map_update_available_ = true;\n    // Localization stays as it is while mapping\n    if (!enable_mapping_) prev_odom_pose_is_initialized_ = false;\n")],
  needs="loading a map while mapping", breaks="scans are added to the loaded map before the robot is localized within",
  demo=MAPPER + r'''
int main()
{
  Node n;
  chain({{0, 0, 0}, {1, 0, 0}, {2, 0, 0}}).graph(true)->save("m");
  n.start();
  n.laser();
  n.request(Conf::Request::LOAD_FROM_FILE, "m");
  n.drive(1);
  n.laser();
  REQUIRE(n.dump().s.size() == 3);
  return 0;
}
'''),
dict(id="c27_farthest_scan", prop="C27", set="mapper", also=["C24"],
  edits=[(M, "    ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);\n", "    ConstraintPtr constraint = makeConstraint(graph_->scans[nearest.back()], scan, covariance);\n")],
  needs="an initial pose with several scans within reach", breaks="the pose is tied to the farthest scan in reach",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.set("use_barycenter", false);
  n.set("global_search_size", 2.0);
  n.set("map_file", std::string("m"));
  chain({{0, 0, 0}, {0.08, 0, 0}, {2, 0, 0}}).graph(false)->save("m");
  n.start();
  n.initial({0.09, 0, 0});
  auto d = n.dump();
  REQUIRE(d.c.size() == 3 && d.c[2].b == 1 && d.c[2].e == 3);
  return 0;
}
'''),
dict(id="c28_flag_after_publishing", prop="C28", set="mapper",
  edits=[(M, "      map_update_available_ = false;\n      rclcpp::Time now = this->now();\n", "      rclcpp::Time now = this->now();\n"),
         (M, "      graph_pub_->publish(graph_msg);\n", "      graph_pub_->publish(graph_msg);\n      map_update_available_ = false;\n")],
  needs="a scan added while the map is being published", breaks="the change is not published until the next one",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.start();
  n.advance(1);
  n.laser();
  int k = 0;
  n.on_graph = [&]
  {
    if (k++ == 0) std::thread([&] { vt::tl_harness = true; n.drive(1); n.laser(); }).join();
  };
  n.advance(3);
  REQUIRE(k > 0);
  size_t nodes = 0;
  for (auto & m : n.graph.markers) nodes += m.ns == "nodes";
  REQUIRE(nodes == 2);
  return 0;
}
'''),
dict(id="c29_frame_before_lookup", prop="C29", set="mapper", also=["C22"],
  edits=[(M, "    laser_frame_ = msg->header.frame_id;\n\n", "\n"),
         (M, "    try\n    {\n      // Determine pose of laser relative to base\n", "    laser_frame_ = msg->header.frame_id;\n    try\n    {\n      // Determine pose of laser relative to base\n")],
  needs="a first laser message for which the laser's transform is not there yet", breaks="the next message uses a scan matcher that was never made",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.start();
  n.f.laser_ok = false;
  n.laser();
  n.f.laser_ok = true;
  n.drive(1);
  n.laser();
  n.drive(1);
  n.laser();
  REQUIRE(n.dump().s.size() == 2);
  return 0;
}
'''),
dict(id="c30_load_disables", prop="C30",
  edits=[("scripts/load_map.py", "    req.action = Configure.Request.LOAD_FROM_FILE\n", "    # Need to be localized within the map first\n    req.action = Configure.Request.LOAD_FROM_FILE | Configure.Request.DISABLE_MAPPING\n")],
  needs="the operator loading a map while mapping", breaks="loading a map also disables mapping",
  script='#!/bin/bash\nset -e\nD=$(cd "$(dirname "$0")" && pwd)\npython3 "$D/demo.py" "$PWD"\n',
  files={"demo.py": r'''
import sys, types, runpy
calls = []
class Req:
    ENABLE_MAPPING, DISABLE_MAPPING, LOAD_FROM_FILE, SAVE_TO_FILE = 1, 2, 4, 8
    def __init__(self): self.action, self.filename = 0, ""
class Configure: Request = Req
class Client:
    def wait_for_service(self, timeout_sec=None): return True
    def call_async(self, r): calls.append((r.action, r.filename)); return object()
class Logger:
    def __getattr__(self, n): return lambda *a, **k: None
class Node:
    def __init__(self, n): pass
    def create_client(self, t, n): return Client()
    def get_logger(self): return Logger()
    def destroy_node(self): pass
def mod(n, **k):
    m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
mod("ndt_2d"); mod("ndt_2d.srv", Configure=Configure)
mod("rclpy", init=lambda *a, **k: None, shutdown=lambda *a, **k: None, spin_until_future_complete=lambda n, f, **k: None, ok=lambda: True)
mod("rclpy.node", Node=Node)
repo = sys.argv[1]
sys.argv = ["load_map.py", "some_map"]
runpy.run_path(repo + "/scripts/load_map.py", run_name="__main__")
sys.exit(0 if calls == [(4, "some_map")] else 1)
''' }),
]
SEEDS += [
dict(id="c31_noise_order", prop="C31", set="mapper",
  edits=[(M, "std::make_shared<MotionModel>(a1, a2, a3, a4, a5)", "std::make_shared<MotionModel>(a1, a3, a2, a4, a5)")],
  needs="odom_alpha2 different from odom_alpha3", breaks="rotation noise caused by driving is that of the translation, and the other way round",
  demo=MAPPER + r'''
int main()
{
  Node n;
  chain({{0, 0, 0}, {0.5, 0, 0}}).graph(true)->save("start");
  n.set("map_file", std::string("start"));
  n.set("use_particle_filter", true);
  n.set("odom_alpha2", 0.01);
  n.set("min_particles", int64_t(2000));
  n.set("max_particles", int64_t(2000));
  n.start();
  auto m = pose_msg({1, 2, 0.5}, "map", 0, 0, 0);
  vstub::bus().deliver<geometry_msgs::msg::PoseWithCovarianceStamped>("initialpose", m);
  n.drive(1);
  n.laser();
  double s = 0, q = 0;
  for (auto & p : n.cloud.poses) { const double d = std::hypot(p.position.x - 1, p.position.y - 2); s += d; q += d * d; }
  REQUIRE(n.cloud.poses.size() == 2000);
  s /= 2000; q = q / 2000 - s * s;
  REQUIRE(q < 0.001);       // driving is exact, only the heading is not
  return 0;
}
'''),
dict(id="c31_no_wait_at_end", prop="C31", set="mapper",
  edits=[(M, "    tf2_buffer_->transform(end_odom_pose_tf, end_odom_pose_tf, odom_frame_,\n                           tf2::durationFromSec(transform_timeout_));\n", "    tf2_buffer_->transform(end_odom_pose_tf, end_odom_pose_tf, odom_frame_);\n")],
  needs="a transform that is late at the end of the scan", breaks="the scan is refused although its transform comes in time",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.set("transform_timeout", 0.5);
  n.start();
  vstub::g_tf_slow = "odom";
  vstub::g_tf_latency = 100000000LL;
  auto m = n.message(std::vector<float>(20, 2.0f));
  m->time_increment = 0.01f;
  n.deliver(m);
  vstub::g_tf_latency = 0;
  REQUIRE(n.dump().s.size() == 1);
  return 0;
}
'''),
dict(id="c32_motion_below_the_gate", prop="C32", set="mapper", also=["C23"],
  edits=[(M, "    double dist = (dx * dx) + (dy * dy);\n    if (dist < minimum_travel_distance_ * minimum_travel_distance_ &&\n", "    const double dist = std::hypot(dx, dy);\n    if (dist < minimum_travel_distance_ &&\n"),
         (M, "        std::fabs(dth) < minimum_travel_rotation_)\n    {\n      return;\n", "        std::fabs(dth) < minimum_travel_rotation_)\n    {\n      // Remember where the robot was last seen\n      prev_odom_pose_ = odom_pose;\n      return;\n")],
  needs="scans coming faster than the robot moves the minimum distance", breaks="slow motion is forgotten, the robot never seems to move",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.start();
  for (int i = 0; i < 40; ++i)
  {
    n.laser();
    n.drive(0.06);
  }
  const Dump d = n.dump();
  REQUIRE(d.s.size() > 10);
  REQUIRE(std::abs(d.s.back().p.x - 2.3) < 0.2);
  return 0;
}
'''),
]
SEEDS += [
dict(id="c03_left_of_origin", prop="C03", set="ndt",
  edits=[("src/ndt_model.cpp", "  if (x < origin_x_ || y < origin_y_)\n", "  if (x < origin_x_ - cell_size_ || y < origin_y_ - cell_size_)\n")],
  needs="points or queries less than a cell before the origin", breaks="points outside the modelled area are put into its first row or column",
  demo=NDT + r'''
int main()
{
  ndt_2d::NDT m(1.0, 4, 4, 1.0, 1.0);
  std::vector<ndt_2d::Point> a;
  for (int i = 0; i < 20; ++i) a.push_back({0.55 + 0.02 * i, 1.2 + 0.03 * ((i * 7) % 20)});
  m.addScan(scan(0, 0, 0, 0, a));
  m.compute();
  REQUIRE(m.likelihood(Eigen::Vector2d(0.75, 1.5)) == 0);
  REQUIRE(m.likelihood(Eigen::Vector2d(1.05, 1.5)) == 0);
  return 0;
}
'''),
dict(id="c06_outlier_loss", prop="C06", set="ceres",
  edits=[("src/ceres_solver.cpp", "                                    NULL,  // squared loss\n", "                                    new ceres::HuberLoss(20.0),\n")],
  needs="constraints that contradict each other by several standard deviations", breaks="the poses found are not those of least cost",
  demo=CERES + r'''
int main()
{
  std::vector<ndt_2d::ScanPtr> s{scan(0, 0, 0, 0), scan(1, 1, 0, 0)};
  ndt_2d::CeresSolver solver;
  solver.optimize({edge(0, 1, 1, 0, 0), edge(0, 1, 1, 0, 0), edge(0, 1, 10, 0, 0)}, s);
  REQUIRE(std::abs(s[1]->getPose().x - 4) < 1e-3);
  return 0;
}
'''),
dict(id="c18_renumbered", prop="C18", set="graph",
  edits=[("src/graph.cpp", "      ScanPtr scan = std::make_shared<Scan>(scan_msg->id);\n", "      ScanPtr scan = std::make_shared<Scan>(scans.size());\n")],
  needs="scans whose identifiers are not their positions", breaks="loaded scans have other identifiers than the saved ones",
  demo=GRAPH + r'''
int main()
{
  ndt_2d::Graph g(true);
  for (int i = 0; i < 4; ++i) g.scans.push_back(scan(10 * i + 3, i, 0, 0));
  g.save("map");
  ndt_2d::Graph h(true, "map");
  for (int i = 0; i < 4; ++i) REQUIRE(h.scans[i]->getId() == g.scans[i]->getId());
  return 0;
}
'''),
dict(id="c20_short_ids", prop="C20", set="graph",
  edits=[("src/graph.cpp", "    m.id = scan->getId();\n", "    m.id = static_cast<uint8_t>(scan->getId());\n")],
  needs="a graph of more than 256 scans", breaks="markers of later scans replace those of earlier ones",
  demo=GRAPH + r'''
#include <set>
int main()
{
  ndt_2d::Graph g(true);
  for (int i = 0; i < 400; ++i) g.scans.push_back(scan(i, i, 0, 0));
  visualization_msgs::msg::MarkerArray m;
  rclcpp::Time t(5);
  g.getMsg(m, t);
  std::set<std::pair<std::string, int>> ids;
  for (auto & k : m.markers) ids.insert({k.ns, k.id});
  REQUIRE(ids.size() == 400 && m.markers.size() == 400);
  return 0;
}
'''),
dict(id="c22_turned_about_minus_x", prop="C22", set="mapper",
  edits=[(M, "      if (std::fabs(t.transform.rotation.x) > 0.02 ||\n          std::fabs(t.transform.rotation.y) > 0.02)\n", "      if (t.transform.rotation.x > 0.02 || t.transform.rotation.y > 0.02)\n")],
  needs="a laser mounted upside down whose orientation is given by the opposite quaternion", breaks="scans are mirrored",
  demo=MAPPER + r'''
int main()
{
  std::vector<V2> got[2];
  for (int k = 0; k < 2; ++k)
  {
    Node n;
    n.f.mount = {0.1, 0, 0.2};
    n.f.inverted = true;
    n.f.negated = k == 1;
    n.start();
    std::vector<float> ranges;
    for (int i = 0; i < 20; ++i) ranges.push_back(1 + 0.1f * i);
    n.laser(ranges);
    const Dump d = n.dump();
    REQUIRE(d.s.size() == 1);
    for (auto & p : d.s[0].pts) got[k].push_back(p);
  }
  REQUIRE(got[0].size() == 20 && got[1].size() == 20);
  for (int i = 0; i < 20; ++i) REQUIRE(std::hypot(got[0][i].x - got[1][i].x, got[0][i].y - got[1][i].y) < 1e-6);
  return 0;
}
'''),
dict(id="c23_odometry_of_the_end", prop="C23", set="mapper",
  edits=[(M, "    prev_odom_pose_ = odom_pose;\n    prev_robot_pose_ = corrected_pose;\n", "    prev_odom_pose_ = end_odom_pose;\n    prev_robot_pose_ = corrected_pose;\n")],
  needs="a robot moving while its laser turns", breaks="the transform joins the robot's pose at the start of a scan with the odometry at its end",
  demo=MAPPER + r'''
int main()
{
  Node n;
  n.start();
  n.advance(1);
  const int64_t t0 = vstub::g_now.load();
  n.f.odom_at = [&](int64_t t) { return Pose{1.0 + (t <= 0 ? 0 : (t - t0) * 1e-9), 0, 0}; };
  auto m = n.message(std::vector<float>(21, 2.0f));
  m->time_increment = 0.01f;
  n.deliver(m);
  n.f.odom_at = [&](int64_t) { return Pose{1.2, 0, 0}; };
  n.tfs.clear();
  n.advance(1);
  REQUIRE(n.dump().s.size() == 1);
  REQUIRE(!n.tfs.empty());
  // the scan is the first one, the robot was at the map's origin when odometry said 1
  for (auto & t : n.tfs) REQUIRE(std::abs(t.transform.translation.x + 1) < 1e-6);
  return 0;
}
'''),
dict(id="c27_spread_of_x", prop="C27", set="mapper",
  edits=[(M, "                  sqrt(msg->pose.covariance[7]),\n", "                  sqrt(msg->pose.covariance[0]),\n")],
  needs="an initial pose that is less certain in one direction, with the particle filter", breaks="particles are spread alike in x and y",
  demo=MAPPER + r'''
int main()
{
  Node n;
  chain({{0, 0, 0}, {0.5, 0, 0}}).graph(true)->save("start");
  n.set("map_file", std::string("start"));
  n.set("use_particle_filter", true);
  n.set("min_particles", int64_t(1000));
  n.set("max_particles", int64_t(1000));
  n.start();
  auto m = pose_msg({1, 2, 0.5}, "map", 1.0, 0.0001, 0.01);
  vstub::bus().deliver<geometry_msgs::msg::PoseWithCovarianceStamped>("initialpose", m);
  REQUIRE(n.cloud.poses.size() == 1000);
  double x = 0, y = 0;
  for (auto & p : n.cloud.poses) { x += std::pow(p.position.x - 1, 2) / 1000; y += std::pow(p.position.y - 2, 2) / 1000; }
  REQUIRE(x > 0.7 && x < 1.3);
  REQUIRE(y > 0.00007 && y < 0.00013);
  return 0;
}
'''),
dict(id="c27_only_lookups", prop="C27", set="mapper",
  edits=[(M, "  // Find transform from odom to robot frames\n  geometry_msgs::msg::TransformStamped odom_to_robot;\n  try\n  {\n    odom_to_robot = tf2_buffer_->lookupTransform(odom_frame_, robot_frame_, tf2::TimePointZero);\n  }\n  catch (const tf2::TransformException& ex)\n",
          "  // Find transform from odom to robot frames\n  geometry_msgs::msg::TransformStamped odom_to_robot;\n  try\n  {\n    odom_to_robot = tf2_buffer_->lookupTransform(odom_frame_, robot_frame_, tf2::TimePointZero);\n  }\n  catch (const tf2::ExtrapolationException& ex)\n")],
  needs="an initial pose before there is any odometry", breaks="the node ends with an exception",
  demo=MAPPER + r'''
int main()
{
  Node n;
  chain({{0, 0, 0}, {0.5, 0, 0}}).graph(true)->save("start");
  n.set("map_file", std::string("start"));
  n.set("use_barycenter", false);
  n.start();
  n.f.odom_ok = false;
  n.initial({0.5, 0, 0});
  n.f.odom_ok = true;
  n.laser();
  REQUIRE(n.dump().s.size() == 2);
  n.initial({0.5, 0, 0});
  return 0;
}
'''),
dict(id="c31_local_range", prop="C31", set="mapper",
  edits=[(M, '    local_scan_matcher_->initialize("local_scan_matcher", this, range_max_);\n', '    local_scan_matcher_->initialize("local_scan_matcher", this, msg->range_max);\n')],
  needs="max_range other than the range of the sensor", breaks="the local matcher models an area of another size",
  demo=r'''
#include "demo.hpp"
using namespace demo;
static std::map<std::string, double> ranges;
struct Recorder : Mock
{
  void initialize(const std::string & n, rclcpp::Node * node, double range) override { ranges[n] = range; Mock::initialize(n, node, range); }
};
static vstub::PluginReg<Recorder, ndt_2d::ScanMatcher> recorder("demo::Recorder");
int main()
{
  Node n;
  n.set("scan_matcher_type", std::string("demo::Recorder"));
  n.set("max_range", 4.0);
  n.start();
  n.laser();
  REQUIRE(ranges["local_scan_matcher"] == 4.0);
  REQUIRE(ranges["global_scan_matcher"] == 4.0);
  return 0;
}
'''),
]
