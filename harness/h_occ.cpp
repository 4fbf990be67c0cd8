// Monitors for the occupancy grid (C16, C17).
#include <ndt_2d/occupancy_grid.hpp>
#include "geom.hpp"

using namespace vh;
using ndt_2d::Pose2d;
using ndt_2d::Point;
using ndt_2d::ScanPtr;
using Msg = nav_msgs::msg::OccupancyGrid;
using Cell2 = std::pair<long, long>;

namespace
{

bool same(const Msg & a, const Msg & b)
{
  return a.info.width == b.info.width && a.info.height == b.info.height && a.info.resolution == b.info.resolution && a.data == b.data &&
         std::fabs(a.info.origin.position.x - b.info.origin.position.x) < 1e-9 && std::fabs(a.info.origin.position.y - b.info.origin.position.y) < 1e-9;
}

std::string dims(const Msg & m)
{
  return fmt("%u x %u cells from (%.6g, %.6g)", m.info.width, m.info.height, m.info.origin.position.x, m.info.origin.position.y);
}

bool well_formed(Case & c, const Msg & m, double res, const std::string & story)
{
  return c.check(m.data.size() == static_cast<size_t>(m.info.width) * m.info.height, "data length", "%zu values for %s; %s", m.data.size(), dims(m).c_str(), story.c_str()) &
         c.check(std::fabs(m.info.resolution - res) < 1e-6 * res, "resolution", "%g instead of %g", static_cast<double>(m.info.resolution), res) &
         c.check(m.info.origin.orientation.w == 1 && m.info.origin.orientation.x == 0 && m.info.origin.orientation.y == 0 && m.info.origin.orientation.z == 0, "orientation of the map", "%s", story.c_str());
}

bool covered(const Msg & m, double res, double x, double y)
{
  const double i = (x - m.info.origin.position.x) / res, j = (y - m.info.origin.position.y) / res;
  return i >= -1e-6 && j >= -1e-6 && i < m.info.width + 1e-6 && j < m.info.height + 1e-6;
}

// Cells by their place in the world, so that maps of different extent can be compared.
bool cells(Case & c, const Msg & m, double res, std::map<Cell2, int> & out)
{
  const double fi = m.info.origin.position.x / res, fj = m.info.origin.position.y / res;
  if (!c.check(std::fabs(fi - std::round(fi)) < 1e-4 && std::fabs(fj - std::round(fj)) < 1e-4, "map not aligned to its resolution", "origin (%.9g, %.9g)", m.info.origin.position.x, m.info.origin.position.y)) return false;
  const long oi = lround(fi), oj = lround(fj);
  for (long j = 0; j < static_cast<long>(m.info.height); ++j) for (long i = 0; i < static_cast<long>(m.info.width); ++i)
  {
    const int v = m.data[i + j * m.info.width];
    if (v != -1) out[{oi + i, oj + j}] = v;
  }
  return true;
}

// Coordinate well inside a cell
double inside(Rng & r, double res, long cell) { return (cell + r.uni(0.02, 0.98)) * res; }

}  // namespace

VH_PROPERTY(C16, 40000, 300000, "random histories of scans added, moved, turned, given other points, removed and replaced between renderings of one grid; after each, coverage of all poses and points and equality "
  "with a rendering by a grid that never rendered before; distinct by history")
{
  Rng & r = c.rng;
  const double rs[] = {0.05, 0.1, 0.25, 0.5, 1.0, 0.03};
  const double res = rs[r.range(0, 5)], thr = r.uni(0.05, 0.9);
  ndt_2d::OccupancyGrid grid(res, thr);
  std::vector<ScanPtr> scans;
  const double size = res * std::pow(10.0, r.uni(0, 2)), off = r.chance(0.4) ? 0 : res * std::pow(10.0, r.uni(0, 2.2));
  const double ox = r.uni(-off, off), oy = r.uni(-off, off);
  auto points = [&](int n)
  {
    std::vector<V2> p;
    const double a0 = r.uni(-3, 3), fov = r.chance(0.4) ? 0.5 : 6.2, len = size * r.uni(0.1, 1);
    for (int i = 0; i < n; ++i) { const double a = a0 + fov * r.u(), l = len * r.uni(0.3, 1); p.push_back({l * std::cos(a), l * std::sin(a)}); }
    return p;
  };
  auto fresh_scan = [&]
  {
    return mkscan(scans.size(), ox + r.uni(-size, size), oy + r.uni(-size, size), r.uni(-3.2, 3.2), points(r.chance(0.15) ? 0 : static_cast<int>(r.range(1, 12))));
  };
  std::string story;
  Hash h;
  const int ops = static_cast<int>(r.range(3, 12));
  int renders = 0;
  for (int o = 0; o < ops; ++o)
  {
    const int op = static_cast<int>(r.range(0, 6));
    h.add(op);
    if (op <= 1 || scans.empty())
    {
      const int n = static_cast<int>(r.range(o == 0 ? 0 : 1, 3));
      for (int i = 0; i < n; ++i) scans.push_back(fresh_scan());
      story += fmt("add %d; ", n);
    }
    else if (op == 2)
    {
      for (auto & s : scans) { const Pose2d p = s->getPose(); s->setPose(Pose2d(p.x + r.uni(-size, size), p.y + r.uni(-size, size), p.theta + r.uni(-1, 1))); }
      story += "move all; ";
    }
    else if (op == 3)
    {
      auto & s = scans[r.range(0, scans.size() - 1)];
      const Pose2d p = s->getPose();
      s->setPose(Pose2d(p.x + r.uni(-5, 5) * size, p.y + r.uni(-5, 5) * size, r.uni(-3, 3)));
      story += "move one far; ";
    }
    else if (op == 4)
    {
      const size_t n = r.chance(0.5) ? scans.size() : r.range(0, 5);
      scans.clear();
      for (size_t i = 0; i < n; ++i) scans.push_back(fresh_scan());
      story += fmt("replace by %zu; ", n);
    }
    else if (op == 5)
    {
      auto & s = scans[r.range(0, scans.size() - 1)];
      auto q = points(static_cast<int>(r.range(0, 12)));
      std::vector<Point> pp;
      for (auto & p : q) pp.push_back(Point(p.x, p.y));
      s->setPoints(pp);
      story += "other points; ";
    }
    else
    {
      scans.erase(scans.begin() + r.range(0, scans.size() - 1));
      story += "remove one; ";
    }
    if (o + 1 < ops && r.chance(0.35)) continue;
    std::vector<std::pair<Pose2d, std::vector<Point>>> before;
    for (auto & s : scans) before.push_back({s->getPose(), s->getPoints()});
    auto list = scans;
    Msg m;
    if (r.chance(0.2)) { m.data.assign(7, 3); m.info.width = 3; }
    grid.getMsg(list, m);
    ++renders;
    story += "render; ";
    c.count("renderings");
    if (!well_formed(c, m, res, story)) return;
    c.check(list == scans, "list of scans changed", "%s", story.c_str());
    for (size_t i = 0; i < scans.size(); ++i)
    {
      const Pose2d p = scans[i]->getPose();
      c.check(p.x == before[i].first.x && p.y == before[i].first.y && p.theta == before[i].first.theta && scans[i]->getPoints().size() == before[i].second.size(), "scan changed by rendering", "%s", story.c_str());
      if (!c.check(covered(m, res, p.x, p.y), "scan pose outside the map", "pose (%g, %g), map of %s; %s", p.x, p.y, dims(m).c_str(), story.c_str())) return;
      for (auto & q : before[i].second)
      {
        const V2 w = apply(p.x, p.y, p.theta, q.x, q.y);
        c.count("points");
        if (!c.check(covered(m, res, w.x, w.y), "scan point outside the map", "point (%g, %g), map of %s; %s", w.x, w.y, dims(m).c_str(), story.c_str())) return;
      }
    }
    ndt_2d::OccupancyGrid other(res, thr);
    Msg m2;
    other.getMsg(list, m2);
    if (!c.check(same(m, m2), "depends on earlier renderings", "%s, rendered afresh %s; %s", dims(m).c_str(), dims(m2).c_str(), story.c_str())) return;
  }
  if (renders > 1) c.distinct(h.add(ox).h);
  if (c.index < 16) c.sample(story);
}

VH_PROPERTY(C17, 100000, 1000000, "random beams in every direction (short, long, axis-parallel, diagonal, within one cell), each rendered alone and traced against the straight line, then all together against the sum of "
  "the single ones and the threshold; distinct by beams")
{
  Rng & r = c.rng;
  const double rs[] = {0.05, 0.1, 0.25, 0.5, 1.0, 0.03};
  const double res = rs[r.range(0, 5)];
  const double ths[] = {0.25, 0.5, 0.1, 0.3, 0.75, 0.2};
  const double thr = r.chance(0.7) ? ths[r.range(0, 5)] : r.chance(0.2) ? std::pow(10.0, r.uni(-4, -1)) : r.uni(0.01, 0.99);
  const long span = static_cast<long>(std::pow(10.0, r.uni(0, 1.8))), off = r.chance(0.4) ? 0 : static_cast<long>(std::pow(10.0, r.uni(0, 2)));
  // now and then beams across thousands of cells, in a long and narrow map
  const bool far = r.chance(0.001), upright = r.chance(0.5);
  const long far_span = r.range(1000, 8000), span_i = far && !upright ? far_span : span, span_j = far && upright ? far_span : span;
  if (far) c.count("beams_across_thousands_of_cells");
  const long ci = r.range(-off, off), cj = r.range(-off, off);
  const int nscan = static_cast<int>(r.range(1, 3));
  std::vector<ScanPtr> scans;
  std::map<Cell2, std::pair<long, long>> sum;    // hits, passes
  std::vector<std::vector<std::vector<std::pair<Cell2, bool>>>> beams;    // what each beam does, by scan
  Hash h;
  for (int s = 0; s < nscan; ++s)
  {
    const long si = ci + r.range(-2, 2), sj = cj + r.range(-2, 2);
    const double px = inside(r, res, si), py = inside(r, res, sj), th = r.chance(0.2) ? 0 : r.uni(-3.2, 3.2);
    h.add(px).add(py);
    std::vector<V2> local;
    const int nb = static_cast<int>(r.range(1, 6));
    std::vector<Cell2> ends;
    beams.emplace_back();
    for (int b = 0; b < nb; ++b)
    {
      beams.back().emplace_back();
      long ei = ci + r.range(-span_i, span_i), ej = cj + r.range(-span_j, span_j);
      switch (r.range(0, 7))
      {
        case 0: ej = sj; break;
        case 1: ei = si; break;
        case 2: { const long d = r.range(-span, span); ei = si + d; ej = sj + (r.chance(0.5) ? d : -d); } break;
        case 3: ei = si; ej = sj; break;
        case 4: ei = si + r.range(-2, 2); ej = sj + r.range(-2, 2); break;
        case 5: if (b && r.chance(0.7)) { ei = ends.back().first; ej = ends.back().second; } break;   // the same cell again
        default: break;
      }
      const double ex = inside(r, res, ei), ey = inside(r, res, ej);
      const V2 l = unapply(px, py, th, ex, ey);
      local.push_back(l);
      ends.push_back({ei, ej});
      h.add(ex).add(ey);
      // this beam alone
      ndt_2d::OccupancyGrid g1(res, thr);
      std::vector<ScanPtr> one{mkscan(0, px, py, th, {l})};
      Msg m;
      g1.getMsg(one, m);
      std::map<Cell2, int> v;
      if (!well_formed(c, m, res, "one beam") || !cells(c, m, res, v)) return;
      c.count("beams");
      const std::string ctx = fmt("beam from cell (%ld, %ld) to cell (%ld, %ld), resolution %g, threshold %g", si, sj, ei, ej, res, thr);
      const long di = ei - si, dj = ej - sj, len = std::max(std::labs(di), std::labs(dj));
      std::set<long> reached;
      for (auto & [q, val] : v)
      {
        beams.back().back().push_back({q, val == 100});
        if (val == 100)
        {
          if (!c.check(q == Cell2(ei, ej), "hit where the beam does not end", "hit in cell (%ld, %ld); %s", q.first, q.second, ctx.c_str())) return;
          ++sum[q].first;
          continue;
        }
        if (!c.check(val == 0, "value", "%d", val)) return;
        const double ui = q.first - si, uj = q.second - sj;
        // distance from the line, in cells, and how far along
        const double L = std::hypot(static_cast<double>(di), static_cast<double>(dj));
        const double along = L > 0 ? (ui * di + uj * dj) / L : 0, across = L > 0 ? std::fabs(ui * dj - uj * di) / L : std::hypot(ui, uj);
        if (!c.check(across <= 1.0 && along > -1.0 && along < L && q != Cell2(ei, ej), "free where the beam does not pass", "free cell (%ld, %ld) is %.3g cells off the beam; %s", q.first, q.second, across, ctx.c_str())) return;
        reached.insert(std::labs(di) >= std::labs(dj) ? std::labs(q.first - si) : std::labs(q.second - sj));
        ++sum[q].second;
        c.count("passed_cells");
      }
      if (!c.check(v.count({ei, ej}) && v[{ei, ej}] == 100, "no hit where the beam ends", "%s", ctx.c_str())) return;
      for (long k = 0; k < len; ++k) if (!c.check(reached.count(k), "gap in the free space", "nothing %ld cells along; %s", k, ctx.c_str())) return;
    }
    scans.push_back(mkscan(s, px, py, th, local));
  }
  if (!far && r.chance(0.02))     // the same again and again: counts beyond those of small integers
  {
    // every beam its own number of times, or all the same
    const bool own = r.chance(0.6);
    const double top = r.chance(0.2) ? 40000 : 600;
    long k = static_cast<long>(std::pow(10.0, r.uni(0.3, std::log10(top)))), work = 0;
    sum.clear();
    for (size_t i = 0; i < scans.size(); ++i)
    {
      std::vector<Point> p = scans[i]->getPoints(), all;
      for (size_t b = 0; b < p.size(); ++b)
      {
        if (own) k = r.chance(0.3) ? 1 : static_cast<long>(std::pow(10.0, r.uni(0, std::log10(top))));
        const long fits = std::max<long>(1, (3000000 - work) / ((span + 5) * 3));
        const long n = std::min(k, fits);
        work += n * (span + 5) * 3;
        for (long j = 0; j < n; ++j) all.push_back(p[b]);
        for (auto & [q, hit] : beams[i][b]) (hit ? sum[q].first : sum[q].second) += n;
      }
      scans[i]->setPoints(all);
    }
    c.count("repeated_scans");
  }
  ndt_2d::OccupancyGrid g(res, thr);
  Msg m;
  g.getMsg(scans, m);
  std::map<Cell2, int> v;
  if (!well_formed(c, m, res, "all beams") || !cells(c, m, res, v)) return;
  for (auto & [q, val] : v) if (!c.check(sum.count(q), "a cell no beam touches is not unknown", "cell (%ld, %ld) is %d", q.first, q.second, val)) return;
  for (auto & [q, n] : sum)
  {
    const double share = static_cast<double>(n.first) / (n.first + n.second);
    c.count(n.first && n.second ? "mixed_cells" : "plain_cells");
    const bool exact = thr == 0.25 || thr == 0.5 || thr == 0.75;
    if (!exact && std::fabs(share - thr) < 1e-12) continue;
    const int want = share > thr ? 100 : 0, got = v.count(q) ? v[q] : -1;
    if (!c.check(got == want, "classification", "cell (%ld, %ld) hit %ld times and passed %ld times is %d with threshold %g", q.first, q.second, n.first, n.second, got, thr)) return;
  }
  c.distinct(h.h);
  if (c.index < 16) c.sample(fmt("%zu touched cells of %s, resolution %g, threshold %g", sum.size(), dims(m).c_str(), res, thr));
}

int main(int argc, char ** argv) { return vh::run(argc, argv); }
