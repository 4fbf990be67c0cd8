// Monitors for the map of cells (C01, C02, C03).
#include <Eigen/Core>
#include <memory>
#include <ndt_2d/ndt_model.hpp>
#include "geom.hpp"

using namespace vh;
using ndt_2d::NDT;
using ndt_2d::Cell;

namespace
{

struct World
{
  double cell, sx, sy, ox, oy;
  long nx, ny;             // whole cells certainly inside the area in each direction
  std::map<std::pair<long, long>, RefCell> cells;
  std::set<std::pair<long, long>> tainted;   // a point lies too close to a border to say
  std::vector<std::tuple<double, double, double, std::vector<V2>>> scans;
  std::vector<V2> all;
  double scale = 1;

  // which cell; false when ambiguous
  bool locate(double x, double y, long & i, long & j) const
  {
    const double fx = (x - ox) / cell, fy = (y - oy) / cell;
    const double eps = 1e-7 + 1e-13 * (scale / cell);
    if (!(std::fabs(fx) < 1e15 && std::fabs(fy) < 1e15)) { i = j = -1000000; return true; }
    if (std::fabs(fx - std::round(fx)) < eps || std::fabs(fy - std::round(fy)) < eps) return false;
    i = static_cast<long>(std::floor(fx)); j = static_cast<long>(std::floor(fy));
    return true;
  }
  // 1 inside, 0 outside, -1 within the last, partly covered cells
  int inside(double x, double y, long i, long j) const
  {
    if (i < 0 || j < 0) return 0;
    const double ex = ox + sx, ey = oy + sy;
    const double tol = 1e-6 * cell;
    if (x < ex - tol && y < ey - tol) return 1;
    if (i > static_cast<long>(std::floor(sx / cell + 1e-9)) || j > static_cast<long>(std::floor(sy / cell + 1e-9))) return 0;
    return -1;
  }
};

// kinds of point groups put into one cell
enum Kind { BLOB, LINE, NOISY_LINE, SAME, FEW, EXACT5, NEAR_SAME, NKIND };

World make_world(Rng & r, double far, bool nasty)
{
  World w;
  const double cs[] = {0.25, 0.1, 0.5, 1.0, 0.3, 2.0};
  w.cell = cs[r.range(0, 5)];
  w.sx = r.chance(0.3) ? w.cell * r.range(1, 12) : r.uni(0.5, 12) * w.cell;
  w.sy = r.chance(0.3) ? w.cell * r.range(1, 12) : r.uni(0.5, 12) * w.cell;
  w.ox = r.chance(0.2) ? 0.0 : r.uni(-far, far);
  w.oy = r.chance(0.2) ? 0.0 : r.uni(-far, far);
  w.scale = std::max({1.0, std::fabs(w.ox) + w.sx, std::fabs(w.oy) + w.sy});
  const long cx = static_cast<long>(w.sx / w.cell) + 1, cy = static_cast<long>(w.sy / w.cell) + 1;
  const int groups = static_cast<int>(r.range(1, 10));
  std::vector<V2> pts;
  for (int g = 0; g < groups; ++g)
  {
    // mostly inside, sometimes one or two cells beyond any edge
    const long i = r.chance(0.15) ? r.range(-2, cx + 1) : r.range(0, cx - 1);
    const long j = r.chance(0.15) ? r.range(-2, cy + 1) : r.range(0, cy - 1);
    const double bx = w.ox + i * w.cell, by = w.oy + j * w.cell;
    const Kind k = static_cast<Kind>(r.range(0, NKIND - 1));
    auto inpt = [&](double m) { return V2{bx + w.cell * r.uni(m, 1 - m), by + w.cell * r.uni(m, 1 - m)}; };
    const int n = k == FEW ? r.range(1, 4) : k == EXACT5 ? 5 : r.range(5, r.chance(0.005) ? 6000 : r.chance(0.1) ? 400 : 40);
    const V2 a = inpt(0.05), b = inpt(0.05);
    const double noise = w.cell * std::pow(10.0, r.uni(-7, -2));
    for (int q = 0; q < n; ++q)
    {
      V2 p = inpt(0.02);
      const double t = r.u();
      if (k == LINE || k == NOISY_LINE)
      {
        p = V2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
        if (r.chance(0.3) && g % 3 == 0) p.y = a.y;       // axis-aligned walls are common
        if (k == NOISY_LINE) { p.x += noise * r.normal(); p.y += noise * r.normal(); }
      }
      else if (k == SAME) p = a;
      else if (k == NEAR_SAME) p = V2{a.x + 1e-3 * noise * r.normal(), a.y + 1e-3 * noise * r.normal()};
      pts.push_back(p);
    }
  }
  if (nasty)
    for (int q = 0; q < 6; ++q)
      pts.push_back(V2{w.ox + r.uni(-50, 50) * w.cell, w.oy + r.uni(-50, 50) * w.cell});
  if (r.chance(0.7)) r.shuffle(pts);
  w.all = pts;
  // split over scans with arbitrary poses
  const int ns = static_cast<int>(r.range(1, 5));
  size_t at = 0;
  for (int s = 0; s < ns; ++s)
  {
    const size_t end = s == ns - 1 ? pts.size() : std::min(pts.size(), at + static_cast<size_t>(r.range(0, static_cast<int64_t>(pts.size()))));
    const double px = w.ox + r.uni(-5, 5), py = w.oy + r.uni(-5, 5), th = r.chance(0.2) ? 0.0 : r.uni(-7, 7);
    std::vector<V2> local;
    for (; at < end; ++at) local.push_back(unapply(px, py, th, pts[at].x, pts[at].y));
    w.scans.emplace_back(px, py, th, local);
  }
  for (auto & p : pts)
  {
    long i, j;
    const double eps = 1e-6;
    if (!w.locate(p.x, p.y, i, j))
    {
      for (double ex : {-eps, eps}) for (double ey : {-eps, eps})
        w.tainted.insert({static_cast<long>(std::floor((p.x - w.ox) / w.cell + ex)), static_cast<long>(std::floor((p.y - w.oy) / w.cell + ey))});
      continue;
    }
    const int in = w.inside(p.x, p.y, i, j);
    if (in == 1) w.cells[{i, j}].pts.push_back(p);
    else if (in < 0) w.tainted.insert({i, j});
  }
  for (auto & [k, c] : w.cells) c.finish();
  return w;
}

std::unique_ptr<NDT> build(const World & w, Rng & r, double shx = 0, double shy = 0, bool recompute = false)
{
  auto n = std::make_unique<NDT>(w.cell, w.sx, w.sy, w.ox + shx, w.oy + shy);
  size_t id = 0;
  for (auto & [px, py, th, local] : w.scans)
  {
    n->addScan(mkscan(id++, px + shx, py + shy, th, local));
    if (recompute && r.chance(0.5)) n->compute();
  }
  n->compute();
  if (recompute && r.chance(0.3)) n->compute();
  return n;
}

V2 query(const World & w, Rng & r)
{
  if (!w.all.empty() && r.chance(0.7))
  {
    const V2 p = w.all[r.range(0, w.all.size() - 1)];
    const double d = w.cell * std::pow(10.0, r.uni(-6, 0));
    return r.chance(0.2) ? p : V2{p.x + d * r.normal(), p.y + d * r.normal()};
  }
  return V2{w.ox + r.uni(-2 * w.cell, w.sx + 4 * w.cell), w.oy + r.uni(-2 * w.cell, w.sy + 4 * w.cell)};
}

double lik(NDT & n, Rng & r, double x, double y)
{
  if (r.chance(0.3)) return n.likelihood(Eigen::Vector3d(x, y, r.uni(-3, 3)));
  return n.likelihood(Eigen::Vector2d(x, y));
}

uint64_t world_hash(const World & w)
{
  Hash h;
  h.add(w.cell).add(w.sx).add(w.ox).add(w.all.size());
  for (auto & p : w.all) h.add(p.x).add(p.y);
  return h.h;
}

std::string describe(const World & w)
{
  return fmt("cell %.3g area %.4gx%.4g at (%.5g, %.5g), %zu points in %zu scans, %zu occupied cells", w.cell, w.sx, w.sy,
    w.ox, w.oy, w.all.size(), w.scans.size(), w.cells.size());
}

}  // namespace

VH_PROPERTY(C01, 40000, 1500000, "random areas, cells and point groups (blobs, exact and noisy lines, coincident, near-coincident, "
  "fewer than five, far from the origin up to 1e9 m); a case is non-trivial when at least one cell holds five points; "
  "distinct by the hash of the map's points")
{
  Rng & r = c.rng;
  const double fars[] = {10, 1000, 1e5, 1e7, 1e9};
  World w = make_world(r, fars[r.range(0, 4)], true);
  auto n = build(w, r);
  bool five = false;
  for (auto & [k, cl] : w.cells) five |= cl.n >= 5;
  if (five) c.distinct(world_hash(w));
  if (five && c.index < 40) c.sample(describe(w));
  std::vector<ndt_2d::Point> pts;
  double sum = 0, slack = 1e-9;
  for (int q = 0; q < 40; ++q)
  {
    const V2 p = query(w, r);
    const double l = lik(*n, r, p.x, p.y);
    c.count("queries");
    if (!c.check(std::isfinite(l) && l >= 0 && l <= 1, "likelihood out of [0,1]", "likelihood(%.17g, %.17g) = %.17g; %s", p.x, p.y, l, describe(w).c_str())) return;
    long i, j;
    if (w.locate(p.x, p.y, i, j) && !w.tainted.count({i, j}))
    {
      const int in = w.inside(p.x, p.y, i, j);
      auto it = w.cells.find({i, j});
      if (in == 0 && !c.check(l == 0, "non-zero outside the area", "likelihood(%.17g, %.17g) = %.17g; %s", p.x, p.y, l, describe(w).c_str())) return;
      if (in != 0 && (it == w.cells.end() || it->second.n < 5) &&
        !c.check(l == 0, "non-zero in a cell with fewer than five points", "likelihood(%.17g, %.17g) = %.17g, %zu points; %s", p.x, p.y, l,
          it == w.cells.end() ? size_t(0) : it->second.pts.size(), describe(w).c_str())) return;
      c.count(in == 0 ? "outside" : it == w.cells.end() || it->second.n < 5 ? "unknown" : "modelled");
    }
    if (l > 0) c.count("positive");
    if (r.chance(0.8)) { pts.push_back(ndt_2d::Point(p.x, p.y)); sum += l; }
  }
  if (r.chance(0.02) && !pts.empty())      // many points
  {
    const int times = static_cast<int>(r.range(2, 300));
    std::vector<ndt_2d::Point> many;
    for (int k = 0; k < times; ++k) many.insert(many.end(), pts.begin(), pts.end());
    r.shuffle(many);
    const double s = n->likelihood(many);
    c.count("points_of_large_sets", many.size());
    c.check(std::fabs(s - times * sum) <= slack * times, "sum over points", "likelihood(points) = %.17g, sum %.17g of %zu points", s, times * sum, many.size());
  }
  const double s = n->likelihood(pts);
  c.check(std::fabs(s - sum) <= slack, "sum over points", "likelihood(points) = %.17g, sum %.17g of %zu points", s, sum, pts.size());
  c.check(n->likelihood(std::vector<ndt_2d::Point>()) == 0, "empty point set", "likelihood of no points is not 0");
  // A scan: the interval between the smallest and largest value in the immediate neighbourhood of each placed point
  const double px = w.ox + r.uni(-3, 3), py = w.oy + r.uni(-3, 3), th = r.uni(-4, 4);
  std::vector<V2> local;
  double lo = -1e-6, hi = 1e-6;
  for (auto & p : pts)
  {
    const V2 l = unapply(px, py, th, p.x, p.y);
    local.push_back(l);
    const V2 g = apply(px, py, th, l.x, l.y);
    double a = 2, b = -1;
    const double d = 1e-15 * (w.scale + 10) * 8;
    for (int k = 0; k < 9; ++k)
    {
      const double v = n->likelihood(Eigen::Vector2d(g.x + (k % 3 - 1) * d, g.y + (k / 3 - 1) * d));
      a = std::min(a, v); b = std::max(b, v);
    }
    lo += a - 1e-6 - 0.1 * (b - a); hi += b + 1e-6 + 0.1 * (b - a);
  }
  auto scan = mkscan(7, px, py, th, local);
  const double ls = n->likelihood(scan);
  c.count("scans");
  c.check(std::isfinite(ls) && ls >= lo && ls <= hi, "likelihood of a scan", "likelihood(scan) = %.17g, expected in [%.17g, %.17g]; pose (%.6g, %.6g, %.6g); %s",
    ls, lo, hi, px, py, th, describe(w).c_str());
}

VH_PROPERTY(C02, 40000, 1500000, "random point groups given to single cells and to maps in random order, split over scans, with recomputation "
  "in between; non-trivial when a cell holds five or more points; distinct by the hash of the points")
{
  Rng & r = c.rng;
  // Single cells: statistics against the batch statistics
  {
    const int n = static_cast<int>(r.range(3, r.chance(0.01) ? 20000 : r.chance(0.1) ? 300 : 30));
    const double off = std::pow(10.0, r.uni(-1, 3.5)), sp = std::pow(10.0, r.uni(-2, 0.5));
    const double cx = r.uni(-off, off), cy = r.uni(-off, off), rot = r.uni(-4, 4), thin = r.chance(0.4) ? std::pow(10.0, r.uni(-6, -1)) : 1;
    RefCell ref;
    Cell cell;
    double scale = 1;
    for (int i = 0; i < n; ++i)
    {
      const double a = sp * r.normal(), b = sp * thin * r.normal();
      V2 p = apply(cx, cy, rot, a, b);
      ref.pts.push_back(p);
      scale = std::max({scale, std::fabs(p.x), std::fabs(p.y)});
    }
    std::vector<V2> order = ref.pts;
    r.shuffle(order);
    for (auto & p : order)
    {
      cell.addPoint(Eigen::Vector2d(p.x, p.y));
      if (r.chance(0.2)) { cell.compute(); c.count("recomputed"); }
    }
    cell.compute();
    if (r.chance(0.5)) cell.compute();
    ref.finish();
    c.count("cells");
    Hash h;
    for (auto & p : ref.pts) h.add(p.x).add(p.y);
    if (n >= 5) c.distinct(h.h);
    if (c.index < 16 && n >= 5) c.sample(fmt("cell of %d points about (%.4g, %.4g), deviations %.3g and %.3g", n, cx, cy, sp, sp * thin));
    const double me = 1e-14 * n * scale + 1e-12, ce = 1e-15 * (n + 10) * 4 * scale * scale + 1e-12;
    c.check(cell.n == n, "count", "n = %g after %d points", cell.n, n);
    c.check(std::fabs(cell.mean(0) - ref.mx) < me && std::fabs(cell.mean(1) - ref.my) < me, "mean", "mean (%.17g, %.17g) expected (%.17g, %.17g), %d points",
      cell.mean(0), cell.mean(1), ref.mx, ref.my, n);
    c.check(std::fabs(cell.covariance(0, 0) - ref.cxx) < ce && std::fabs(cell.covariance(0, 1) - ref.cxy) < ce &&
      std::fabs(cell.covariance(1, 0) - ref.cxy) < ce && std::fabs(cell.covariance(1, 1) - ref.cyy) < ce, "covariance",
      "covariance %.12g %.12g %.12g expected %.12g %.12g %.12g, %d points, error bound %.3g", cell.covariance(0, 0), cell.covariance(0, 1),
      cell.covariance(1, 1), ref.cxx, ref.cxy, ref.cyy, n, ce);
    for (int q = 0; q < 12; ++q)
    {
      const V2 p = apply(ref.mx, ref.my, rot, sp * r.normal() * r.uni(0, 3), sp * thin * r.normal() * r.uni(0, 3));
      double lo, hi;
      if (!ref.expect(p.x, p.y, scale, lo, hi)) { c.count("undecided"); continue; }
      const double l = cell.score(Eigen::Vector2d(p.x, p.y));
      c.count(ref.small < 0.001 * ref.large ? "scores_thin" : "scores");
      c.check(l >= lo - 1e-9 && l <= hi + 1e-9, ref.small < 0.001 * ref.large ? "score of a thin cell" : "score",
        "score %.12g expected in [%.12g, %.12g], %d points, eigenvalues %.6g %.6g", l, lo, hi, n, ref.small, ref.large);
    }
    if (c.failed) return;
  }
  // Whole maps
  World w = make_world(r, 500, false);
  auto n = build(w, r, 0, 0, true);
  for (int q = 0; q < 30; ++q)
  {
    const V2 p = query(w, r);
    long i, j;
    if (!w.locate(p.x, p.y, i, j) || w.tainted.count({i, j})) continue;
    auto it = w.cells.find({i, j});
    double lo = 0, hi = 0;
    if (it != w.cells.end() && !it->second.expect(p.x, p.y, w.scale, lo, hi)) { c.count("undecided"); continue; }
    const double l = lik(*n, r, p.x, p.y);
    if (hi > 0) c.count("map_scores");
    c.check(l >= lo - 1e-8 && l <= hi + 1e-8, "map score", "likelihood(%.12g, %.12g) = %.12g expected in [%.12g, %.12g], %zu points in the cell; %s",
      p.x, p.y, l, lo, hi, it == w.cells.end() ? size_t(0) : it->second.pts.size(), describe(w).c_str());
  }
  // The same points again, shuffled and split differently
  World w2 = w;
  r.shuffle(w2.all);
  w2.scans.clear();
  for (size_t at = 0; at < w2.all.size();)
  {
    const size_t end = std::min(w2.all.size(), at + static_cast<size_t>(r.range(1, 60)));
    const double px = w.ox + r.uni(-5, 5), py = w.oy + r.uni(-5, 5), th = r.uni(-7, 7);
    std::vector<V2> local;
    for (; at < end; ++at) local.push_back(unapply(px, py, th, w2.all[at].x, w2.all[at].y));
    w2.scans.emplace_back(px, py, th, local);
  }
  auto n2 = build(w2, r, 0, 0, true);
  for (int q = 0; q < 20; ++q)
  {
    const V2 p = query(w, r);
    long i, j;
    if (!w.locate(p.x, p.y, i, j) || w.tainted.count({i, j})) continue;
    auto it = w.cells.find({i, j});
    double lo = 0, hi = 0;
    if (it != w.cells.end() && !it->second.expect(p.x, p.y, w.scale, lo, hi)) continue;
    const double a = n->likelihood(Eigen::Vector2d(p.x, p.y)), b = n2->likelihood(Eigen::Vector2d(p.x, p.y));
    c.count("order_pairs");
    const bool thin = it != w.cells.end() && it->second.small <= 0.0011 * it->second.large;
    c.check(std::fabs(a - b) <= (thin ? 5e-3 : 1e-6) + 2 * (thin ? 0 : hi - lo), "order dependence", "likelihood(%.12g, %.12g) = %.12g or %.12g depending on the order of points; %s",
      p.x, p.y, a, b, describe(w).c_str());
  }
}

VH_PROPERTY(C03, 40000, 1500000, "random areas with points and queries inside, next to every edge, beyond it, at magnitudes up to 1e308, infinite and NaN, "
  "and the same map shifted; non-trivial when a cell holds five points; distinct by the hash of the points")
{
  Rng & r = c.rng;
  World w = make_world(r, r.chance(0.5) ? 20 : 1000, true);
  // make sure the corner cells hold something: these are the ones that out-of-range queries could hit
  {
    const long lx = std::max(0L, static_cast<long>(std::floor(w.sx / w.cell)) - 1), ly = std::max(0L, static_cast<long>(std::floor(w.sy / w.cell)) - 1);
    std::vector<V2> extra;
    for (auto [i, j] : {std::pair<long, long>{0, 0}, {lx, 0}, {0, ly}, {lx, ly}})
    {
      if (w.sx < (i + 1) * w.cell || w.sy < (j + 1) * w.cell || w.tainted.count({i, j})) continue;
      for (int q = 0; q < 8; ++q)
        extra.push_back(V2{w.ox + (i + r.uni(0.02, 0.98)) * w.cell, w.oy + (j + r.uni(0.02, 0.98)) * w.cell});
    }
    // and points just outside, which must not be counted in any cell
    for (int q = 0; q < 12; ++q)
    {
      const double d = w.cell * r.uni(0.01, 0.9);
      extra.push_back(q % 2 ? V2{w.ox - d, w.oy + r.uni(0.02, 0.98) * w.cell} : V2{w.ox + r.uni(0.02, 0.98) * w.cell, w.oy - d});
    }
    std::vector<V2> local;
    const double px = w.ox + 1, py = w.oy - 2, th = 0.7;
    for (auto & p : extra)
    {
      long i, j;
      if (!w.locate(p.x, p.y, i, j)) continue;
      local.push_back(unapply(px, py, th, p.x, p.y));
      w.all.push_back(p);
      if (w.inside(p.x, p.y, i, j) == 1) w.cells[{i, j}].pts.push_back(p);
      else if (w.inside(p.x, p.y, i, j) < 0) w.tainted.insert({i, j});
    }
    w.scans.emplace_back(px, py, th, local);
    for (auto & [k, cl] : w.cells) cl.finish();
  }
  auto n = build(w, r);
  c.distinct(world_hash(w));
  if (c.index < 16) c.sample(describe(w));
  auto desc = describe(w);
  // ownership
  for (int q = 0; q < 40; ++q)
  {
    V2 p = query(w, r);
    long i, j;
    if (!w.locate(p.x, p.y, i, j) || w.tainted.count({i, j})) continue;
    auto it = w.cells.find({i, j});
    double lo = 0, hi = 0;
    if (it != w.cells.end() && !it->second.expect(p.x, p.y, w.scale, lo, hi)) continue;
    if (it != w.cells.end() && w.inside(p.x, p.y, i, j) < 0) lo = 0;
    const double l = lik(*n, r, p.x, p.y);
    c.count(hi > 0 ? "owned" : "empty");
    if (!c.check(l >= lo - 1e-8 && l <= hi + 1e-8, "cell ownership", "likelihood(%.12g, %.12g) = %.12g expected in [%.12g, %.12g], cell (%ld, %ld); %s",
      p.x, p.y, l, lo, hi, i, j, desc.c_str())) return;
  }
  // every direction outside
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  for (int q = 0; q < 40; ++q)
  {
    double e[2];
    bool out = false;
    const double o[2] = {w.ox, w.oy}, s[2] = {w.sx, w.sy};
    for (int k = 0; k < 2; ++k)
    {
      const double m = std::pow(10.0, r.uni(-2, r.chance(0.3) ? 308 : 12));
      switch (r.range(0, 6))
      {
        case 0: e[k] = o[k] + r.uni(0, s[k]); break;
        case 1: e[k] = o[k] - m - 1e-6 * w.cell - 1e-9 * w.scale; out = true; break;
        case 2: e[k] = o[k] + s[k] + w.cell + m; out = true; break;
        case 3: e[k] = nan; out = true; break;
        case 4: e[k] = r.chance(0.5) ? inf : -inf; out = true; break;
        case 5:  // a whole number of integer widths away, back into some cell when indices wrap
          e[k] = o[k] + (r.chance(0.5) ? 1 : -1) * w.cell * (4294967296.0 * r.range(1, 8) + r.uni(0, 3)); out = true; break;
        default: e[k] = o[k] + r.uni(0, w.cell); break;
      }
    }
    if (!out) continue;
    const double l = lik(*n, r, e[0], e[1]);
    c.count("outside");
    if (!c.check(l == 0, "likelihood outside the area", "likelihood(%.17g, %.17g) = %.17g; %s", e[0], e[1], l, desc.c_str())) return;
  }
  // Points exactly on a border between cells, or on the lower edges of the area, belong to one cell
  {
    const double cell = std::ldexp(1.0, static_cast<int>(r.range(0, 3)) - 2);
    const long nx = r.range(1, 6), ny = r.range(1, 6);
    const double ox = cell * r.range(-20, 20), oy = cell * r.range(-20, 20);
    ndt_2d::NDT m(cell, cell * nx, cell * ny, ox, oy);
    const long i = r.chance(0.5) ? 0 : r.range(0, nx - 1), j = r.chance(0.5) ? 0 : r.range(0, ny - 1);
    const double x = ox + cell * i, y = oy + cell * (r.chance(0.5) ? j : j + 0.5);
    const int k = static_cast<int>(r.range(5, 9));
    auto sc = std::make_shared<ndt_2d::Scan>(0);
    sc->setPoints(std::vector<ndt_2d::Point>(k, ndt_2d::Point(x, y)));
    m.addScan(sc);
    m.compute();
    const double l = m.likelihood(Eigen::Vector2d(x, y));
    c.count("on_border");
    if (!c.check(l > 0.999, "point on a border", "%d points at (%.17g, %.17g), likelihood there %g; cells of %g from (%.17g, %.17g)", k, x, y, l, cell, ox, oy)) return;
  }
  // A scan placed far away adds nothing
  {
    World w2 = w;
    std::vector<V2> local;
    for (int q = 0; q < 20; ++q) local.push_back(V2{r.uni(-3, 3), r.uni(-3, 3)});
    const double m = std::pow(10.0, r.uni(5, 300));
    w2.scans.emplace_back(r.chance(0.5) ? m : -m, r.chance(0.5) ? m : 0, 0.3, local);
    auto n2 = build(w2, r);
    for (int q = 0; q < 10; ++q)
    {
      const V2 p = query(w, r);
      const double a = n->likelihood(Eigen::Vector2d(p.x, p.y)), b = n2->likelihood(Eigen::Vector2d(p.x, p.y));
      if (!c.check(a == b, "a far scan changed the map", "likelihood(%.12g, %.12g) %.12g -> %.12g after a scan at %.3g; %s", p.x, p.y, a, b, m, desc.c_str())) return;
    }
  }
  // Shift
  const double shx = r.uni(-1, 1) * std::pow(10.0, r.uni(0, 3)), shy = r.uni(-1, 1) * std::pow(10.0, r.uni(0, 3));
  auto ns = build(w, r, shx, shy);
  World ws = w;
  ws.scale = w.scale + std::fabs(shx) + std::fabs(shy);
  std::set<std::pair<long, long>> bad = w.tainted;
  for (auto & p : w.all)
  {
    long i, j;
    if (!ws.locate(p.x, p.y, i, j))
      for (double ex : {-1e-5, 1e-5}) for (double ey : {-1e-5, 1e-5})
        bad.insert({static_cast<long>(std::floor((p.x - w.ox) / w.cell + ex)), static_cast<long>(std::floor((p.y - w.oy) / w.cell + ey))});
  }
  for (int q = 0; q < 30; ++q)
  {
    const V2 p = query(w, r);
    long i, j;
    if (!ws.locate(p.x, p.y, i, j) || bad.count({i, j})) continue;
    auto it = w.cells.find({i, j});
    double lo = 0, hi = 0;
    if (it != w.cells.end() && !it->second.expect(p.x, p.y, ws.scale, lo, hi)) continue;
    const double a = n->likelihood(Eigen::Vector2d(p.x, p.y)), b = ns->likelihood(Eigen::Vector2d(p.x + shx, p.y + shy));
    c.count("shifted");
    const bool thin = it != w.cells.end() && it->second.small <= 0.0011 * it->second.large;
    if (thin) { if (b < lo - 1e-6 || b > hi + 1e-6) c.fail("shift", fmt("thin cell: %.12g -> %.12g shifted by (%.6g, %.6g)", a, b, shx, shy)); continue; }
    if (!c.check(std::fabs(a - b) <= 1e-6 + (hi - lo), "shift", "likelihood(%.12g, %.12g) = %.12g, shifted by (%.6g, %.6g) %.12g (bounds %.12g %.12g); %s",
      p.x, p.y, a, shx, shy, b, lo, hi, desc.c_str())) return;
  }
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
