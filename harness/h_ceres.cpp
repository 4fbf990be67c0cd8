// Monitors for graph optimization (C06, C07).
#include <Eigen/Core>
#include <Eigen/Dense>
#include <glog/logging.h>
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/constraint.hpp>
#include "geom.hpp"

using namespace vh;
using ndt_2d::Pose2d;

namespace
{

struct Edge { size_t a, b; Eigen::Vector3d t; Eigen::Matrix3d info; bool sw; };

Eigen::Vector3d residual(const Edge & e, const Eigen::Vector3d & a, const Eigen::Vector3d & b)
{
  const double c = std::cos(a(2)), s = std::sin(a(2)), dx = b(0) - a(0), dy = b(1) - a(1);
  return Eigen::Vector3d(c * dx + s * dy - e.t(0), -s * dx + c * dy - e.t(1), adiff(b(2) - a(2), e.t(2)));
}

double cost(const std::vector<Edge> & es, const std::vector<Eigen::Vector3d> & x)
{
  double f = 0;
  for (auto & e : es) { const Eigen::Vector3d r = residual(e, x[e.a], x[e.b]); f += r.dot(e.info * r); }
  return f;
}

// Levenberg-Marquardt from x with the first pose fixed: how far can the cost still fall?
double refine(const std::vector<Edge> & es, std::vector<Eigen::Vector3d> x, int iters)
{
  const size_t n = x.size();
  double f = cost(es, x), lambda = 1e-6;
  for (int it = 0; it < iters; ++it)
  {
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(3 * n, 3 * n);
    Eigen::VectorXd g = Eigen::VectorXd::Zero(3 * n);
    for (auto & e : es)
    {
      const Eigen::Vector3d & a = x[e.a];
      const Eigen::Vector3d & b = x[e.b];
      const double c = std::cos(a(2)), s = std::sin(a(2)), dx = b(0) - a(0), dy = b(1) - a(1);
      Eigen::Matrix<double, 3, 6> J;
      J << -c, -s, -s * dx + c * dy, c, s, 0,
        s, -c, -c * dx - s * dy, -s, c, 0,
        0, 0, -1, 0, 0, 1;
      const Eigen::Vector3d r = residual(e, a, b);
      const Eigen::Matrix<double, 6, 6> h = J.transpose() * e.info * J;
      const Eigen::Matrix<double, 6, 1> gg = J.transpose() * (e.info * r);
      const size_t at[2] = {3 * e.a, 3 * e.b};
      for (int i = 0; i < 2; ++i)
      {
        g.segment<3>(at[i]) += gg.segment<3>(3 * i);
        for (int j = 0; j < 2; ++j) H.block<3, 3>(at[i], at[j]) += h.block<3, 3>(3 * i, 3 * j);
      }
    }
    const Eigen::MatrixXd Hr = H.bottomRightCorner(3 * n - 3, 3 * n - 3);
    const Eigen::VectorXd gr = g.tail(3 * n - 3);
    bool moved = false;
    for (int tries = 0; tries < 12; ++tries)
    {
      Eigen::MatrixXd A = Hr;
      A.diagonal() += lambda * (Hr.diagonal().array() + 1e-9).matrix();
      const Eigen::VectorXd d = A.ldlt().solve(-gr);
      if (d.allFinite())
      {
        std::vector<Eigen::Vector3d> y = x;
        for (size_t i = 1; i < n; ++i) y[i] += d.segment<3>(3 * i - 3);
        const double fy = cost(es, y);
        if (fy < f)
        {
          const double gain = f - fy;
          x = y; f = fy; lambda = std::max(1e-12, lambda * 0.2); moved = gain > 1e-9 * f;
          break;
        }
      }
      lambda *= 10;
    }
    if (!moved) break;
  }
  return f;
}

Eigen::Matrix3d random_info(Rng & r, double spread)
{
  Eigen::Matrix3d g;
  for (int i = 0; i < 9; ++i) g(i / 3, i % 3) = r.normal();
  const Eigen::Vector3d u = g.col(0).normalized(), v = (g.col(1) - u * u.dot(g.col(1))).normalized(), w = u.cross(v);
  Eigen::Matrix3d q; q << u, v, w;
  const Eigen::Vector3d ev(std::pow(10.0, r.uni(0, spread)), std::pow(10.0, r.uni(0, spread)), std::pow(10.0, r.uni(0, spread)));
  Eigen::Matrix3d m = q * ev.asDiagonal() * q.transpose();
  return 0.5 * (m + m.transpose());
}

struct Problem
{
  std::vector<Eigen::Vector3d> truth;
  std::vector<Edge> edges;
  std::vector<size_t> ids;
  std::vector<ndt_2d::ScanPtr> scans;
  std::vector<ndt_2d::ConstraintPtr> constraints;
};

Edge make_edge(Rng & r, const Problem & p, size_t a, size_t b, double noise, double spread)
{
  Edge e{a, b, {}, random_info(r, spread), r.chance(0.5)};
  const Eigen::Vector3d & A = p.truth[a];
  const Eigen::Vector3d & B = p.truth[b];
  const V2 t = unapply(A(0), A(1), A(2), B(0), B(1));
  e.t = Eigen::Vector3d(t.x + noise * r.normal(), t.y + noise * r.normal(), B(2) - A(2) + noise * r.normal());
  if (r.chance(0.2)) e.t(2) += 2 * M_PI * r.range(-2, 2);
  return e;
}

ndt_2d::ConstraintPtr to_constraint(const Edge & e)
{
  auto k = std::make_shared<ndt_2d::Constraint>();
  k->begin = e.a; k->end = e.b; k->transform = e.t; k->information = e.info; k->switchable = e.sw;
  return k;
}

std::vector<Eigen::Vector3d> poses(const std::vector<ndt_2d::ScanPtr> & s)
{
  std::vector<Eigen::Vector3d> x;
  for (auto & q : s) { const Pose2d p = q->getPose(); x.push_back(Eigen::Vector3d(p.x, p.y, p.theta)); }
  return x;
}

bool same_bits(const std::vector<Eigen::Vector3d> & a, const std::vector<Eigen::Vector3d> & b)
{
  for (size_t i = 0; i < a.size(); ++i) if (memcmp(a[i].data(), b[i].data(), 24)) return false;
  return a.size() == b.size();
}

std::vector<size_t> make_ids(Rng & r, size_t n)
{
  std::vector<size_t> ids;
  const int kind = static_cast<int>(r.range(0, 3));
  for (size_t i = 0; i < n; ++i) ids.push_back(kind == 0 ? i : kind == 1 ? 10 + 7 * i : kind == 3 ? (i << 32) + i / 3 : 0);
  if (kind == 2) { std::set<size_t> s; while (s.size() < n) s.insert(r.range(0, 100000)); ids.assign(s.begin(), s.end()); r.shuffle(ids); }
  return ids;
}

ndt_2d::ScanPtr scan_at(size_t id, const Eigen::Vector3d & x)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(Pose2d(x(0), x(1), x(2)));
  return s;
}

}  // namespace

VH_PROPERTY(C06, 6000, 60000, "random pose graphs of 2 to 14 scans, one in a hundred of 60 to 150 (chains with cross edges, headings through +-pi, correlated information matrices, "
  "constraint angles offset by full turns), optimized at once or step by step while growing; judged by an independent cost function and an "
  "independent Levenberg-Marquardt run from the result; distinct by the hash of the edges")
{
  Rng & r = c.rng;
  Problem p;
  const bool big = r.chance(0.01);
  const size_t n = big ? r.range(60, 150) : r.range(2, 14);
  const double noise = big || r.chance(0.4) ? 0.0 : std::pow(10.0, r.uni(-3, -1)), spread = r.uni(0, 3);
  const double off = r.chance(0.5) ? 0 : r.uni(-300, 300);
  Eigen::Vector3d x(off, -off, r.uni(-3.2, 3.2));
  for (size_t i = 0; i < n; ++i)
  {
    p.truth.push_back(x);
    const double step = r.uni(0.1, 2), turn = r.uni(-1, 1);
    x(0) += step * std::cos(x(2)); x(1) += step * std::sin(x(2)); x(2) = std::remainder(x(2) + turn, 2 * M_PI);
  }
  p.ids = make_ids(r, n);
  ndt_2d::CeresSolver inc;
  inc.setVerbose(r.chance(0.01));
  const bool stepwise = r.chance(0.6);
  const bool wrong = noise != 0 && r.chance(0.3);
  // chains whose neighbours have several constraints that contradict each other by up to 20 m: each has one minimum,
  // in which every contradiction has its weight, however large
  const bool parallel = noise != 0 && !wrong && r.chance(0.2);
  const double far = std::pow(10.0, r.uni(0, 1.3));
  const double pert = noise == 0 ? r.uni(0, 0.15) : noise * 3;
  size_t at = 0;
  int runs = 0;
  Hash h;
  bool loops = false;
  while (at < n)
  {
    const size_t next = stepwise ? std::min<size_t>(n, at + (big ? r.range(5, 60) : r.range(at == 0 ? 2 : 1, 5))) : n;
    for (; at < next; ++at)
    {
      Eigen::Vector3d s = p.truth[at];
      if (at > 0)
      {
        s(0) += pert * r.normal(); s(1) += pert * r.normal(); s(2) += pert * r.normal();
        if (r.chance(0.05)) s(2) += 2 * M_PI;
      }
      p.scans.push_back(scan_at(p.ids[at], s));
      if (at > 0)
      {
        const bool rev = r.chance(0.2);
        p.edges.push_back(rev ? make_edge(r, p, at, at - 1, noise, spread) : make_edge(r, p, at - 1, at, noise, spread));
        if (parallel)
        {
          // (large contradictions must not turn the scans, or the wrap of the angle makes minima of its own)
          const auto upright = [](Edge & e) { e.info(0, 2) = e.info(1, 2) = e.info(2, 0) = e.info(2, 1) = 0; };
          upright(p.edges.back());
          const Edge base = p.edges.back();
          for (int k = r.range(0, 3); k > 0; --k)
          {
            Edge e = base;
            e.info = random_info(r, spread);
            upright(e);
            e.t += Eigen::Vector3d(r.uni(-far, far), r.uni(-far, far), r.uni(-0.3, 0.3));
            p.edges.push_back(e);
            loops = true;
            c.count("contradictions");
          }
        }
        while (!parallel && at > 1 && r.chance(0.5))
        {
          const size_t o = r.range(0, at - 1);
          p.edges.push_back(r.chance(0.5) ? make_edge(r, p, o, at, noise, spread) : make_edge(r, p, at, o, noise, spread));
          loops = true;
          if (wrong && r.chance(0.2))       // a bad loop closure
          {
            Edge & e = p.edges.back();
            e.t(0) += r.normal(); e.t(1) += r.normal(); e.t(2) += r.uni(-0.5, 0.5);
            c.count("wrong_closures");
          }
        }
      }
    }
    while (p.constraints.size() < p.edges.size())
    {
      const Edge & e = p.edges[p.constraints.size()];
      h.add(e.a).add(e.b).add(e.t(0)).add(e.t(2)).add(e.info(0, 1));
      p.constraints.push_back(to_constraint(e));
    }
    if (r.chance(0.2) && at > 1)   // somebody moved a scan meanwhile (a loop closure does)
    {
      const size_t i = r.range(1, at - 1);
      const Pose2d q = p.scans[i]->getPose();
      p.scans[i]->setPose(Pose2d(q.x + pert * r.normal(), q.y + pert * r.normal(), q.theta + pert * r.normal()));
    }
    // a fresh solver on copies of the scans
    std::vector<ndt_2d::ScanPtr> copy;
    for (auto & s : p.scans) { auto q = std::make_shared<ndt_2d::Scan>(s->getId()); q->setPose(s->getPose()); copy.push_back(q); }
    const auto before = poses(p.scans);
    const double f0 = cost(p.edges, before);
    ndt_2d::CeresSolver fresh;
    std::vector<ndt_2d::ConstraintPtr> cs = p.constraints;
    const bool ok = inc.optimize(p.constraints, p.scans);
    const bool ok2 = fresh.optimize(cs, copy);
    ++runs;
    c.count("optimizations", 2);
    if (!c.check(ok && ok2, "optimization of a sound graph failed", "%zu scans, %zu constraints: %s", p.scans.size(), p.edges.size(), ok ? "at once" : "incrementally")) return;
    const auto after = poses(p.scans), after2 = poses(copy);
    c.check(same_bits({before[0]}, {after[0]}) && same_bits({before[0]}, {after2[0]}), "first scan moved", "first scan (%g, %g, %g) -> (%g, %g, %g)", before[0](0), before[0](1),
      before[0](2), after[0](0), after[0](1), after[0](2));
    for (int v = 0; v < 2; ++v)
    {
      const auto & a = v ? after2 : after;
      const double f1 = cost(p.edges, a);
      c.check(f1 <= f0 * (1 + 1e-6) + 1e-9, "cost increased", "cost %.12g -> %.12g (%zu scans, %zu constraints)", f0, f1, p.scans.size(), p.edges.size());
      const double best = big ? 0 : refine(p.edges, a, 30);   // the minimum of an exact graph is zero
      c.count("minima_checked");
      if (big) c.count("large_graphs");
      c.check(f1 - best <= 0.01 * best + 1e-4 * f0 + 1e-8, "not a minimum", "cost %.9g after optimization, but %.9g is reachable nearby (%.9g before); %zu scans, %zu constraints, %s",
        f1, best, f0, p.scans.size(), p.edges.size(), v ? "at once" : "incrementally");
      if (noise == 0)
      {
        double d = 0;
        for (size_t i = 0; i < a.size(); ++i)
          d = std::max({d, std::fabs(a[i](0) - p.truth[i](0)), std::fabs(a[i](1) - p.truth[i](1)), std::fabs(adiff(a[i](2), p.truth[i](2)))});
        c.count("exact");
        c.check(d < 2e-3, "exact constraints not recovered", "poses differ from the truth by %g; perturbed by %g, %zu scans", d, pert, a.size());
      }
    }
    double d = 0;
    for (size_t i = 0; i < after.size(); ++i) d = std::max({d, std::fabs(after[i](0) - after2[i](0)), std::fabs(after[i](1) - after2[i](1)), std::fabs(adiff(after[i](2), after2[i](2)))});
    c.check(wrong || parallel || d < 1e-3 + 0.05 * noise, "incremental differs from batch", "poses differ by %g after %d optimizations of a growing graph, %zu scans, noise %g", d, runs, p.scans.size(), noise);
    if (c.failed) return;
  }
  if (loops) { c.distinct(h.h); c.count("with_loops"); if (c.index < 16) c.sample(fmt("%zu scans, %zu constraints, noise %.3g, information over 10^%.2g, %d optimizations", n, p.edges.size(), noise, spread, runs)); }
}

VH_PROPERTY(C07, 5000, 90000, "hostile graphs: empty, without constraints, scans nobody mentions, several components, self-referring and repeated constraints, "
  "identifiers unrelated to positions, non-finite poses and constraints, and repeated calls on one solver; distinct by the hash of the graph")
{
  Rng & r = c.rng;
  ndt_2d::CeresSolver solver;
  solver.setVerbose(r.chance(0.02));
  std::vector<ndt_2d::ScanPtr> scans;
  std::vector<ndt_2d::ConstraintPtr> constraints;
  const int rounds = static_cast<int>(r.range(1, 5));
  const std::vector<size_t> ids = make_ids(r, 60);
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  Hash h;
  std::string story;
  bool bad_constraint = false;
  if (r.chance(0.15))
  {
    c.check(!solver.optimize(constraints, scans), "empty graph", "optimizing an empty graph reported success");
    c.count("empty");
  }
  std::map<size_t, Pose2d> poisoned;
  for (int q = 0; q < rounds; ++q)
  {
    const size_t add = r.range(scans.empty() ? 1 : 0, 10);
    for (size_t i = 0; i < add; ++i)
    {
      auto s = std::make_shared<ndt_2d::Scan>(ids[scans.size()]);
      const double m = r.chance(0.05) ? 1e6 : 10;
      s->setPose(Pose2d(r.uni(-m, m), r.uni(-m, m), r.uni(-4, 4)));
      scans.push_back(s);
    }
    size_t ne = r.chance(0.25) ? 0 : r.range(0, 2 * scans.size());
    for (size_t i = 0; i < ne; ++i)
    {
      auto k = std::make_shared<ndt_2d::Constraint>();
      const size_t lo = r.chance(0.3) && scans.size() > 1 ? 1 : 0;   // often leave the first scan alone
      k->begin = r.range(lo, scans.size() - 1);
      k->end = r.range(lo, scans.size() - 1);
      if (k->begin == k->end && !r.chance(0.1)) { if (k->end + 1 < scans.size()) ++k->end; else if (k->end > lo) --k->end; }
      k->transform = Eigen::Vector3d(r.normal(), r.normal(), r.normal());
      k->information = random_info(r, r.chance(0.2) ? 9 : 2);
      if (r.chance(0.03)) k->information.setZero();
      if (r.chance(0.02)) k->information = -k->information.eval();
      k->switchable = r.chance(0.5);
      if (r.chance(0.015) && k->begin != k->end)
      {
        const double v = r.chance(0.5) ? nan : (r.chance(0.5) ? inf : -inf);
        if (r.chance(0.5)) k->transform(r.range(0, 2)) = v;
        else k->information(r.range(0, 2), r.range(0, 2)) = v, k->information = k->information.selfadjointView<Eigen::Lower>(), bad_constraint = bad_constraint || !k->information.allFinite();
        if (!k->transform.allFinite()) bad_constraint = true;
      }
      h.add(k->begin).add(k->end).add(k->transform(0));
      constraints.push_back(k);
      if (k->begin == k->end) c.count("self_constraints");
    }
    h.add(scans.size()).add(constraints.size());
    // poison or repair a pose that some constraint mentions
    if (!poisoned.empty() && r.chance(0.7)) { for (auto & [i, p] : poisoned) scans[i]->setPose(p); poisoned.clear(); c.count("repaired"); }
    std::set<size_t> mentioned;
    for (auto & k : constraints) if (k->begin != k->end) { mentioned.insert(k->begin); mentioned.insert(k->end); }
    if (r.chance(0.12) && !mentioned.empty())
    {
      auto it = mentioned.begin();
      std::advance(it, r.range(0, mentioned.size() - 1));
      const Pose2d p = scans[*it]->getPose();
      if (!poisoned.count(*it)) poisoned[*it] = p;
      const double v = r.chance(0.5) ? nan : inf;
      const int w = static_cast<int>(r.range(0, 2));
      scans[*it]->setPose(Pose2d(w == 0 ? v : p.x, w == 1 ? v : p.y, w == 2 ? v : p.theta));
    }
    const auto before = poses(scans);
    std::vector<ndt_2d::ScanPtr> view = scans;
    const bool ok = solver.optimize(constraints, view);
    c.count(ok ? "succeeded" : "failed");
    c.check(view == scans, "scan list changed", "the list of scans was rearranged");
    const auto after = poses(scans);
    story = fmt("%zu scans (%zu mentioned), %zu constraints, %zu poses and %s constraints not finite, round %d", scans.size(), mentioned.size(), constraints.size(),
      poisoned.size(), bad_constraint ? "some" : "no", q);
    if (!ok) c.check(same_bits(before, after), "a failed optimization moved scans", "%s", story.c_str());
    if (!poisoned.empty() || bad_constraint)
    {
      c.count("not_finite");
      c.check(!ok, "success with values that are not finite", "%s", story.c_str());
    }
    if (ok)
    {
      for (auto & a : after) if (!a.allFinite()) { c.fail("optimization produced poses that are not finite", story); break; }
      for (size_t i = 0; i < scans.size(); ++i)
        if (!mentioned.count(i) && memcmp(before[i].data(), after[i].data(), 24)) { c.fail("a scan no constraint mentions moved", fmt("scan %zu; %s", i, story.c_str())); break; }
      c.check(!memcmp(before[0].data(), after[0].data(), 24), "first scan moved", "%s", story.c_str());
    }
    if (mentioned.size() < scans.size()) c.count("with_isolated_scans");
    if (!mentioned.count(0)) c.count("first_scan_unmentioned");
    if (constraints.empty()) c.count("no_constraints");
    if (c.failed) return;
  }
  c.distinct(h.h);
  if (c.index < 16) c.sample(story);
}

int main(int argc, char ** argv)
{
  // verbose reports go nowhere
  static char sink[1 << 16];
  (void)sink;
  std::cout.setstate(std::ios_base::failbit);
  google::InitGoogleLogging(argv[0]);
  FLAGS_minloglevel = 2;
  return vh::run(argc, argv);
}
