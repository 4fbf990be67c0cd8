From 5f537dedf8ea6d43bc73b64aa8b0c16631ad947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 01/36] fix: keep map likelihoods within [0,1] for coincident
 and collinear points

Coincident points have a zero covariance whose inverse is not a number, and
rounding can make the covariance of collinear points slightly indefinite so
that the likelihood exceeds 1.
---
 src/ndt_model.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..a5b35ec 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
 
+#include <algorithm>
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/ndt_model.hpp>
@@ -85,7 +86,12 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
-  if (small < 0.001 * large)
+  if (!(large > 1e-6))
+  {
+    // Points (nearly) coincide, there is no orientation to speak of
+    information = Eigen::Matrix2d::Identity() * 1e6;
+  }
+  else if (small < 0.001 * large)
   {
     // Special case
     double determinant = (0.001 * large) * large;
@@ -112,7 +118,8 @@ double Cell::score(const Eigen::Vector2d & point)
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  // Rounding can leave the information matrix slightly indefinite
+  return std::exp(std::min(exponent, 0.0));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From 5c321d10269dc043f6213f9fac98ebb9e0646b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 02/36] fix: look up map cells without undefined integer
 conversions

A query (or point) far outside the modelled area, or not a number, was
converted to an integer out of range and could be taken for a cell inside.
---
 src/ndt_model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index a5b35ec..6c2b532 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -214,13 +214,17 @@ int NDT::getIndex(double x, double y)
     return -1;
   }
 
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
+  // Compare before converting to an integer, which is undefined when out of
+  // range (the negated form also rejects NAN)
+  const double cell_x = (x - origin_x_) / cell_size_;
+  const double cell_y = (y - origin_y_) / cell_size_;
+  if (!(cell_x < size_x_) || !(cell_y < size_y_))
   {
     return -1;
   }
 
+  unsigned int grid_x = cell_x;
+  unsigned int grid_y = cell_y;
   return (grid_y * size_x_) + grid_x;
 }
 
-- 
2.43.0


From 5f75752a1ca74bdc26086aa2a1dcc45d26dfae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 03/36] fix: constraints from singular covariances get a
 finite, positive definite information matrix

An exactly known pose (zero variances) made the information matrix infinite
or not a number, which breaks every later optimization.
---
 src/constraint.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index cffa41a..7411b11 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -26,7 +26,8 @@
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
-#include <iostream>
+#include <Eigen/Eigenvalues>
+#include <algorithm>
 #include <ndt_2d/constraint.hpp>
 
 namespace ndt_2d
@@ -48,8 +49,13 @@ ConstraintPtr makeConstraint(const ScanPtr & from,
   constraint->transform(0) = costh * dx + sinth * dy;
   constraint->transform(1) = -sinth * dx + costh * dy;
   constraint->transform(2) = to->getPose().theta - from->getPose().theta;
-  // Create information matrix
-  constraint->information = covariance.inverse();
+  // Create information matrix - covariance can be singular (when the pose is taken
+  // to be exact, for instance), so limit how small the variances can get
+  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> solver(covariance);
+  const double min_variance = 1e-9 * std::max(1.0, solver.eigenvalues()(2));
+  const Eigen::Vector3d variances = solver.eigenvalues().cwiseMax(min_variance);
+  constraint->information = solver.eigenvectors() * variances.cwiseInverse().asDiagonal() *
+                            solver.eigenvectors().transpose();
   // Default is not switchable
   constraint->switchable = false;
   return constraint;
-- 
2.43.0


From 37a18f59b6d4a59acc3a863e679516f0a7280cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 04/36] fix: weigh constraint errors by the information matrix
 in graph optimization

The lower Cholesky factor was used where its transpose is needed, which
weighs errors by L^T * L instead of the information matrix L * L^T.
---
 src/ceres_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..5bded39 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -129,7 +129,8 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  // Residuals are r = S * e, so that r^T * r = e^T * information * e needs information = S^T * S
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From 75d5bffa2c5fa3c6a5c6cbd28070d694c5ba9f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 05/36] fix: optimize graphs whose first scan has no constraint

Fixing the first pose aborted the process when no constraint mentions that
scan (a graph without constraints, for instance), as did a constraint of a
scan with itself.
---
 src/ceres_solver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 5bded39..8855c92 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -81,12 +81,18 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
   size_t n = constraints.size();
   for (size_t i = num_constraints_; i < n; ++i)
   {
+    // A constraint of a scan with itself has no influence (and would abort in Ceres)
+    if (constraints[i]->begin == constraints[i]->end) continue;
     addConstraint(constraints[i], scans);
   }
   num_constraints_ = n;
 
   // Make first node fixed
   auto first_node_ = nodes_.find(scans[0]->getId());
+  // It might not be part of any constraint (adding a block twice is harmless)
+  problem_->AddParameterBlock(&first_node_->second(0), 1);
+  problem_->AddParameterBlock(&first_node_->second(1), 1);
+  problem_->AddParameterBlock(&first_node_->second(2), 1);
   problem_->SetParameterBlockConstant(&first_node_->second(0));
   problem_->SetParameterBlockConstant(&first_node_->second(1));
   problem_->SetParameterBlockConstant(&first_node_->second(2));
-- 
2.43.0


From 5b2aac7e57a199c78165a9bba1a1b0112d2a7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 06/36] fix: count poses on either side of zero in separate
 KD-tree leaves

Truncation towards zero merged the two leaves next to zero in each of the
dimensions, which makes them twice as large as all others.
---
 include/ndt_2d/kd_tree.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..666b1ab 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -97,9 +98,10 @@ public:
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    // Round down, since truncation makes the leaves on either side of zero one
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From 27413c4640dc7687996983b24c240054f007ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 07/36] fix: do not accumulate the particle filter's angular
 variance

The variance of every earlier update was added to that of the current
particles.
---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..e30be3f 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -210,6 +210,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From e9c6e671d8f248383480bb76671a72fa0bd01f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 08/36] fix: give particles equal weights after resampling

Keeping the weights counts them twice: the particles were already drawn in
proportion to them, so the estimate was that of the squared weights.
---
 src/particle_filter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index e30be3f..178b4dd 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -99,9 +99,6 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
   std::vector<Particle> resampled;
   resampled.reserve(max_particles_);
 
-  std::vector<double> resampled_weights;
-  resampled_weights.reserve(max_particles_);
-
   // This will be the crazy equation from Probabilistic Robotics
   size_t Mx = max_particles_;
 
@@ -111,7 +108,6 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     size_t p = d(gen_);
     kd_tree_.insert(particles_[p], weights_[p]);
     resampled.push_back(particles_[p]);
-    resampled_weights.push_back(weights_[p]);
 
     // Recompute crazy equation
     size_t k = kd_tree_.getLeafCount();
@@ -131,7 +127,8 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
   }
 
   particles_ = resampled;
-  weights_ = resampled_weights;
+  // Particles were drawn according to their weights, which are thereby used up
+  weights_.assign(particles_.size(), 1.0 / particles_.size());
 
   updateStatistics();
 }
-- 
2.43.0


From b510360db3b95b343950dd2ab56ea87f226ff73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 09/36] fix: keep the particle filter alive when no particle
 scores

When all particles score zero (a scan without points or without overlap with
the map) or not a number, normalization turned all weights, the mean and the
covariance into NAN for good.
---
 src/particle_filter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index 178b4dd..3d4d79a 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <angles/angles.h>
+#include <cmath>
 #include <random>
 #include <ndt_2d/particle_filter.hpp>
 
@@ -163,11 +164,21 @@ void ParticleFilter::updateStatistics()
   double sum_weight = 0.0;
   for (auto & w : weights_)
   {
+    // A score that is not a number says nothing in favor of the particle
+    if (!std::isfinite(w)) w = 0.0;
     sum_weight += w;
   }
-  for (auto & w : weights_)
+  if (std::fabs(sum_weight) > 0.0)
+  {
+    for (auto & w : weights_)
+    {
+      w /= sum_weight;
+    }
+  }
+  else
   {
-    w /= sum_weight;
+    // Nothing is known about any of the particles
+    weights_.assign(particles_.size(), 1.0 / particles_.size());
   }
 
   // Temporary mean and correlation
-- 
2.43.0


From 4c6817070eb596e0455da27947f116280b55b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 10/36] fix: size the scan matcher's map by its scans, wherever
 they are

The maxima of the bounding box started at numeric_limits::min(), the smallest
positive number, so that a map of scans at negative coordinates always reached
up to the origin. Without scans the box was infinite and converting its size
to an integer undefined.
---
 src/scan_matcher_ndt.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..e868ff2 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,11 +49,18 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // Without scans there is no map
+  if (begin == end)
+  {
+    ndt_.reset();
+    return;
+  }
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From c0d13a53fdda86b0bba8cca3f965602820f48725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 11/36] fix: subtract the squared mean in the scan matcher's
 covariance

---
 src/scan_matcher_ndt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index e868ff2..8999e51 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -150,7 +150,8 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  const Eigen::Vector3d mean = u / s;
+  covariance = k / s - mean * mean.transpose();
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From 0a907a688ba86cefda04da8da77836f719da84d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 12/36] fix: match scans without points or overlap to no
 correction and finite results

Scans without points scored NAN, and without overlap the covariance was NAN
and the correction whatever the caller had left in it.
---
 src/scan_matcher_ndt.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 8999e51..caed2c8 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -27,6 +27,8 @@
  */
 
 #include <ndt_2d/conversions.hpp>
+#include <algorithm>
+#include <limits>
 #include <ndt_2d/scan_matcher_ndt.hpp>
 
 namespace ndt_2d
@@ -83,6 +85,13 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
                                  Eigen::Matrix3d & covariance) const
 {
+  // Unless the match tells more: no correction, anywhere in the window is as likely
+  pose = Pose2d();
+  covariance = Eigen::Vector3d(linear_size_ * linear_size_,
+                               linear_size_ * linear_size_,
+                               angular_size_ * angular_size_).asDiagonal();
+  covariance /= 3.0;
+
   // Scans must be added first
   if (!ndt_) return 0.0;
 
@@ -100,6 +109,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
 
   // Subsample the scan
   size_t scan_points_to_use = std::min(laser_max_beams_, points.size());
+  if (scan_points_to_use == 0) return 0.0;
   double scan_step = static_cast<double>(points.size()) / scan_points_to_use;
 
   std::vector<Point> points_outer;
@@ -149,9 +159,12 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
-  // Compute covariance
-  const Eigen::Vector3d mean = u / s;
-  covariance = k / s - mean * mean.transpose();
+  // Compute covariance, if there is any overlap (and not so little that sums underflow)
+  if (-s > std::numeric_limits<double>::min() / std::numeric_limits<double>::epsilon())
+  {
+    const Eigen::Vector3d mean = u / s;
+    covariance = k / s - mean * mean.transpose();
+  }
 
   return best_score / scan_points_to_use;
 }
@@ -171,6 +184,7 @@ double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose
 
   // Subsample the scan
   size_t scan_points_to_use = std::min(laser_max_beams_, points.size());
+  if (scan_points_to_use == 0) return 0.0;
   double scan_step = static_cast<double>(points.size()) / scan_points_to_use;
 
   double score = 0.0;
-- 
2.43.0


From 3859c100c793c95ca841fc9d80e1749a054d765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:23 +0000
Subject: [PATCH 13/36] fix: size the occupancy grid by the current scans and
 their poses

Only points of scans added since the last message were considered, so that
poses outside all points, poses moved by optimization and loaded maps led to
writes outside the grid.
---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 34 ++++++++++++++++---------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..cd80393 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds are recalculated for every message
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..d8d4d97 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid, poses may have changed even if no scan was added
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -153,19 +149,25 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = 0.0;
+  min_y_ = max_y_ = 0.0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (auto & scan : scans)
   {
-    double x = scans[i]->getPose().x;
-    double y = scans[i]->getPose().y;
-    double cos_th = cos(scans[i]->getPose().theta);
-    double sin_th = sin(scans[i]->getPose().theta);
+    double x = scan->getPose().x;
+    double y = scan->getPose().y;
+    double cos_th = cos(scan->getPose().theta);
+    double sin_th = sin(scan->getPose().theta);
+
+    // Beams are traced from the pose
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
 
     // Iterate through points in the scan
-    for (auto & point : scans[i]->getPoints())
+    for (auto & point : scan->getPoints())
     {
       Point p(x, y);
       p.x += point.x * cos_th - point.y * sin_th;
-- 
2.43.0


From 07c194d5214dd158833a1c7cb1de03b5e44c2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:23 +0000
Subject: [PATCH 14/36] fix: trace beams of the occupancy grid to the cell of
 their end point

The second decision of a step used the error already updated by the first,
leaving the line, so that many beams ended in a cell beside their end point.
---
 src/occupancy_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d8d4d97..eb50a26 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -104,7 +104,9 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        // Both decisions are based on the same error
+        const int error2 = 2 * error;
+        if (error2 >= dy)
         {
           if (x == end_x)
           {
@@ -114,7 +116,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
           if (y == end_y)
           {
-- 
2.43.0


From 63424040732a09c6da8bcb92c8eb013fbce30576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 15/36] fix: search scans within the distance given, not its
 square root

---
 src/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..738f7d0 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -178,7 +178,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // Distances of the L2 adaptor are squared, including the search radius
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From 8cfff6265c45f9b0455515a370c363e5315ab83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 16/36] fix: limit the search for nearest scans to existing
 scans

---
 src/graph.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 738f7d0..f649c92 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <iostream>
+#include <algorithm>
 #include <ndt_2d/graph.hpp>
 #include <ndt_2d/msg/scan.hpp>
 #include <ndt_2d/msg/constraint.hpp>
@@ -168,7 +169,11 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
 {
   // Build a KD-tree from scratch each time - no sense with bookkeeping to use dynamic
   // tree, since it rebuilds index from scratch: https://github.com/jlblancoc/nanoflann/issues/90
-  size_t limit = (limit_scan_index > 0) ? limit_scan_index : scans.size();
+  size_t limit = scans.size();
+  if (limit_scan_index > 0)
+  {
+    limit = std::min(limit, static_cast<size_t>(limit_scan_index));
+  }
   GraphAdapter adapter(this, limit, use_barycenter_);
   kd_tree_t tree(2 /* dimension */, adapter, 5 /* leaf size */);
   tree.buildIndex();
-- 
2.43.0


From f985b3608965623022dcd0c0a6f7e0e378414602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:26 +0000
Subject: [PATCH 17/36] fix: ignore laser scans without ranges, and ranges of
 negative infinity

The end of an empty scan was computed for an index that wrapped around, and
its first range read.
---
 src/ndt_mapper.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..6ef2949 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -266,6 +266,12 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
 void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg)
 {
+  if (msg->ranges.empty())
+  {
+    RCLCPP_WARN(logger_, "Ignoring laser scan without any ranges");
+    return;
+  }
+
   // Save data from laser scan message
   if (range_max_ < 0) range_max_ = msg->range_max;
   if (laser_frame_ == "")
@@ -409,8 +415,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size() - 1; i > 0; --i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -432,8 +438,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From cb76ec3af4056a1ddd2186cc81fc5c4d999148d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 18/36] fix: compensate points for motion in the robot frame,
 in time order for inverted lasers too

The odometry-frame translation was applied to points in the robot frame, the
rotation was not wrapped, and movement was scaled by one step too few. Inverted
lasers were compensated as if measured in reverse and lost their first beam.
---
 src/ndt_mapper.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 6ef2949..812969e 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -389,16 +389,23 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 
   // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
-
-  // Now scale it by number of measurements
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double end_dx = end_odom_pose.x - odom_pose.x;
+  double end_dy = end_odom_pose.y - odom_pose.y;
+  // Points are in the robot frame (at start of laser scan), so movement has to be as well
+  Pose2d translation;
+  translation.x = end_dx * cos(odom_pose.theta) + end_dy * sin(odom_pose.theta);
+  translation.y = -end_dx * sin(odom_pose.theta) + end_dy * cos(odom_pose.theta);
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
+
+  // Now scale it by number of steps between measurements
   Pose2d trans_per_meas;
-  trans_per_meas.x = translation.x / msg->ranges.size();
-  trans_per_meas.y = translation.y / msg->ranges.size();
-  trans_per_meas.theta = translation.theta / msg->ranges.size();
+  if (msg->ranges.size() > 1)
+  {
+    trans_per_meas.x = translation.x / (msg->ranges.size() - 1);
+    trans_per_meas.y = translation.y / (msg->ranges.size() - 1);
+    trans_per_meas.theta = translation.theta / (msg->ranges.size() - 1);
+  }
 
   // Need to convert the scan into an ndt_2d style
   ScanPtr scan = std::make_shared<Scan>(graph_->scans.size());
@@ -413,7 +420,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = msg->ranges.size(); i-- > 0; )
     {
       // Filter out NANs, infinities and scans beyond max range
       if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
@@ -425,11 +432,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From a965beb370a301460eec567df1a32ed1cf447097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 19/36] fix: use the configured rolling depth for the rolling
 window

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 812969e..872d2cb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -513,14 +513,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
       local_scan_matcher_->addScans(rolling, graph_->scans.end());
 
-      // Local consistency - match new scan against last 10 scans
+      // Local consistency - match new scan against the most recent scans
       Pose2d correction;
       Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
-- 
2.43.0


From e792299f6c491e5dd66a856887ca01f4e5a7c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 20/36] fix: make flags shared between the mapper's threads
 atomic

---
 include/ndt_2d/ndt_mapper.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..3bb1ed0 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -75,7 +76,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -104,7 +105,7 @@ protected:
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
@@ -121,7 +122,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
-- 
2.43.0


From 34a393a3b8b5e2ae2406682f080e12631efa8413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 21/36] fix: publish the map after an initial pose added a scan

---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 872d2cb..bfe9bd1 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -253,6 +253,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = msg->pose.covariance[35];
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    map_update_available_ = true;
   }
 
   // Localize robot
-- 
2.43.0


From d6d2707a5d9f66ef1c3bda2f181db93e13a8557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 22/36] fix: lock the previous poses when an initial pose
 changes them

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index bfe9bd1..075e89c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -256,7 +256,8 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     map_update_available_ = true;
   }
 
-  // Localize robot
+  // Localize robot (under lock)
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From c3e8f1ceec57f65307e23df8c007df63cf64ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 23/36] fix: add a scan and its constraint to the graph at
 once, under lock

---
 src/ndt_mapper.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 075e89c..8b94daa 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -512,19 +512,22 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Odom pose: %f, %f, %f", odom_pose.x, odom_pose.y, odom_pose.theta);
 
     double matched_score = 0.0;
+    Eigen::Matrix3d covariance;
     if (!graph_->scans.empty())
     {
       // Determine rolling window
       size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
-      // Create scan matcher with rolling window scans
-      local_scan_matcher_->reset();
-      local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      // Create scan matcher with rolling window scans (under lock, since loop closure moves scans)
+      {
+        std::lock_guard<std::mutex> lock(graph_mutex_);
+        local_scan_matcher_->reset();
+        local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      }
 
       // Local consistency - match new scan against the most recent scans
       Pose2d correction;
-      Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
       matched_score = local_scan_matcher_->matchScan(scan, correction, covariance);
       RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
@@ -536,26 +539,29 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       correction.y += scan->getPose().y;
       correction.theta += scan->getPose().theta;
       scan->setPose(correction);
-
-      // Add odom constraint to the graph
-      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      graph_->constraints.push_back(constraint);
     }
 
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
-    // Append new scan to our graph
+    // Append new scan to our graph, together with its constraint (once in the graph, loop closure
+    // can move the scan)
+    Pose2d corrected_pose = scan->getPose();
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      if (!graph_->scans.empty())
+      {
+        // Add odom constraint to the graph
+        ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
+        graph_->constraints.push_back(constraint);
+      }
       graph_->scans.push_back(scan);
     }
 
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = scan->getPose();
+    prev_robot_pose_ = corrected_pose;
     map_update_available_ = true;
   }
   else
-- 
2.43.0


From d8f12c74717045e7af055643fba3ae19bad680f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 24/36] fix: lock the graph when a loop closure moves a scan

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 8b94daa..ef0dee4 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -669,6 +669,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
 
             // Correct pose
+            lock.lock();  // lock before changing pose and adding constraint
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -677,7 +678,6 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
-- 
2.43.0


From 498975b1ff782a6f5054edb52f37f201852a6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 25/36] fix: lock the graph when checking for scans before
 publishing TF

---
 src/ndt_mapper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index ef0dee4..f7fcb82 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -734,7 +734,12 @@ void Mapper::mapPublishThread()
     }
 
     // Publish TF
-    if (!graph_->scans.empty())
+    bool have_scans;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      have_scans = !graph_->scans.empty();
+    }
+    if (have_scans)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From 212a148698b15144f8150546b26c2d690bdfdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 26/36] fix: match loop closures against the scans on both
 sides of the candidate

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index f7fcb82..6b3eb86 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <angles/angles.h>
+#include <algorithm>
 #include <Eigen/Core>
 #include <Eigen/Geometry>
 #include <cmath>
@@ -646,7 +647,7 @@ void Mapper::loopClosureThread()
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
-          size_t end_idx = (i < rolling) ? i + 1 : i;
+          size_t end_idx = std::min(i + 2, rolling);  // one past the last scan
           auto begin = graph_->scans.begin() + begin_idx;
           auto end = graph_->scans.begin() + end_idx;
 
-- 
2.43.0


From de2b9f126fad63dc8465af1f2762cee877cf1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 27/36] fix: keep scores that are not finite out of the typical
 matcher response

---
 src/ndt_mapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 6b3eb86..c9486e0 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -533,7 +533,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       matched_score = local_scan_matcher_->matchScan(scan, correction, covariance);
       RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                   correction.x, correction.y, correction.theta, uncorrected_score, matched_score);
-      typical_matcher_response_ = 0.95 * typical_matcher_response_ + 0.05 * matched_score;
+      if (std::isfinite(matched_score))
+      {
+        typical_matcher_response_ = 0.95 * typical_matcher_response_ + 0.05 * matched_score;
+      }
 
       // Add correction to scan corrected pose
       correction.x += scan->getPose().x;
-- 
2.43.0


From c297ac27e8f4a1a64a305f007b36ecfe181da5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 28/36] fix: survive maps that cannot be loaded or saved,
 keeping the current one

---
 src/ndt_mapper.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index c9486e0..41ba569 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -173,8 +173,18 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   if (request->action & srv::Configure::Request::LOAD_FROM_FILE)
   {
     RCLCPP_INFO(logger_, "Loading map from %s", request->filename.c_str());
+    GraphPtr graph;
+    try
+    {
+      graph = std::make_shared<Graph>(use_barycenter_, request->filename);
+    }
+    catch (const std::exception & ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not load map: %s", ex.what());
+      return;
+    }
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+    graph_ = graph;
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -182,7 +192,14 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Saving map to %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_->save(request->filename);
+    try
+    {
+      graph_->save(request->filename);
+    }
+    catch (const std::exception & ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not save map: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0


From 674685d9685f6e262d3a15d2a88e9a67d7463041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 29/36] fix: accept initial poses at any time when using the
 particle filter

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 41ba569..45274e0 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -205,7 +205,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
 
 void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr& msg)
 {
-  if (enable_mapping_ && prev_odom_pose_is_initialized_)
+  // The particle filter only localizes, whether mapping is enabled or not
+  if (!use_particle_filter_ && enable_mapping_ && prev_odom_pose_is_initialized_)
   {
     RCLCPP_WARN(logger_, "Ignoring initial pose, already mapping");
     return;
-- 
2.43.0


From 3d0d938ef64103ef576175a819fe2bd452e592ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 30/36] fix: no loop closure when using the particle filter

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 45274e0..313b77d 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -614,8 +614,8 @@ void Mapper::loopClosureThread()
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
-    // Only do loop closure if we are mapping
-    if (!enable_mapping_)
+    // Only do loop closure if we are mapping (the particle filter only localizes)
+    if (!enable_mapping_ || use_particle_filter_)
     {
       continue;
     }
-- 
2.43.0


From c13d41475984459445ccc3451c59334c2db8cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 31/36] fix: start loop closure and optimization over when
 another map is loaded

---
 src/ndt_mapper.cpp | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 313b77d..9f77195 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -46,6 +46,9 @@
 namespace ndt_2d
 {
 
+// Initial value of the typical matcher response
+constexpr double TYPICAL_MATCHER_RESPONSE = -0.5;
+
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   global_scans_processed_(0),
@@ -53,7 +56,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   laser_inverted_(false),
   optimization_last_(0),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
-  typical_matcher_response_(-0.5),
+  typical_matcher_response_(TYPICAL_MATCHER_RESPONSE),
   logger_(rclcpp::get_logger("ndt_2d_mapper")),
   prev_odom_pose_is_initialized_(true)
 {
@@ -165,6 +168,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
     RCLCPP_INFO(logger_, "Disabling mapping");
+    // Under lock, so that no loop closure is added afterwards
+    std::lock_guard<std::mutex> lock(graph_mutex_);
     enable_mapping_ = false;
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
@@ -185,6 +190,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     }
     std::lock_guard<std::mutex> lock(graph_mutex_);
     graph_ = graph;
+    typical_matcher_response_ = TYPICAL_MATCHER_RESPONSE;
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -610,6 +616,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
 void Mapper::loopClosureThread()
 {
+  // Graph the progress of loop closure and optimization is about
+  GraphPtr graph;
+
   while (rclcpp::ok())
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
@@ -624,7 +633,15 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      num_scans = graph_->scans.size();
+      if (graph != graph_)
+      {
+        // Another map was loaded, start over
+        graph = graph_;
+        global_scans_processed_ = 0;
+        optimization_last_ = 0;
+        solver_ = std::make_shared<CeresSolver>();
+      }
+      num_scans = graph->scans.size();
     }
 
     // Can't do a global search until we have at least enough scans
@@ -653,8 +670,9 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
-          scan = graph_->scans[global_scans_processed_];
-          scans = graph_->findNearest(scan, global_search_size_, rolling);
+          if (graph != graph_ || !enable_mapping_) break;
+          scan = graph->scans[global_scans_processed_];
+          scans = graph->findNearest(scan, global_search_size_, rolling);
         }
 
         // Now do global loop closure scan matching
@@ -663,14 +681,14 @@ void Mapper::loopClosureThread()
         {
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
-          const auto candidate = graph_->scans[i];
+          const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
           size_t end_idx = std::min(i + 2, rolling);  // one past the last scan
-          auto begin = graph_->scans.begin() + begin_idx;
-          auto end = graph_->scans.begin() + end_idx;
+          auto begin = graph->scans.begin() + begin_idx;
+          auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
           global_scan_matcher_->reset();
@@ -686,12 +704,15 @@ void Mapper::loopClosureThread()
 
           if (std::isfinite(score) && (score < typical_matcher_response_))
           {
+            lock.lock();  // lock before changing pose and adding constraint
+            // The map might have been replaced or mapping disabled during (slow) scan matching
+            if (graph != graph_ || !enable_mapping_) break;
+
             new_matches = true;
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
                                  candidate->getId(), scan->getId(), score);
 
             // Correct pose
-            lock.lock();  // lock before changing pose and adding constraint
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -700,7 +721,7 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            graph_->constraints.push_back(constraint);
+            graph->constraints.push_back(constraint);
             map_update_available_ = true;
           }
           else
@@ -719,8 +740,9 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      solver_->optimize(graph_->constraints, graph_->scans);
-      optimization_last_ = graph_->scans.size();
+      if (graph != graph_ || !enable_mapping_) continue;
+      solver_->optimize(graph->constraints, graph->scans);
+      optimization_last_ = graph->scans.size();
       map_update_available_ = true;
     }
   }
-- 
2.43.0


From 8a5823f657825ae115994edf1ca277f39fca40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 32/36] fix: localize against all scans of the graph,
 undisturbed by loop closure

---
 include/ndt_2d/ndt_mapper.hpp |  6 +++++
 src/ndt_mapper.cpp            | 50 ++++++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 3bb1ed0..1d995a2 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -69,6 +69,9 @@ protected:
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
+  /** @brief Build map for localization, global scan matcher has to be locked */
+  void updateGlobalScanMatcher();
+
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
@@ -101,6 +104,9 @@ protected:
   // Scan matchers
   // Used for loop closure when mapping, and localization
   ScanMatcherPtr global_scan_matcher_;
+  std::mutex global_scan_matcher_mutex_;  // lock this before the graph
+  // Is the map in the global scan matcher anything but all scans of the graph?
+  std::atomic<bool> global_scan_matcher_outdated_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 9f77195..027c987 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -55,6 +55,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   map_update_available_(false),
   laser_inverted_(false),
   optimization_last_(0),
+  global_scan_matcher_outdated_(true),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
   typical_matcher_response_(TYPICAL_MATCHER_RESPONSE),
   logger_(rclcpp::get_logger("ndt_2d_mapper")),
@@ -191,6 +192,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     std::lock_guard<std::mutex> lock(graph_mutex_);
     graph_ = graph;
     typical_matcher_response_ = TYPICAL_MATCHER_RESPONSE;
+    global_scan_matcher_outdated_ = true;
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -278,6 +280,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = msg->pose.covariance[35];
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    global_scan_matcher_outdated_ = true;
     map_update_available_ = true;
   }
 
@@ -326,17 +329,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     laser_frame_ = msg->header.frame_id;
 
     // range_max_ must be set before building the global scan matcher NDT
-    if (use_particle_filter_ || !enable_mapping_)
     {
-      // When localizing, global scan matcher uses ALL scans
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      // Note: no need to lock graph here, since this thread is the only one that adds scans
-      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
-    }
-    else
-    {
-      // When map building, global scan matcher is just for loop closures
+      std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
       global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
       global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
     }
@@ -510,7 +504,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                          robot_delta(1), robot_delta(2));
 
     filter_->update(robot_delta(0), robot_delta(1), robot_delta(2));
-    filter_->measure(global_scan_matcher_, scan);
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+      updateGlobalScanMatcher();
+      filter_->measure(global_scan_matcher_, scan);
+    }
     filter_->resample(kld_err_, kld_z_);
 
     auto mean = filter_->getMean();
@@ -584,6 +582,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
         graph_->constraints.push_back(constraint);
       }
       graph_->scans.push_back(scan);
+      global_scan_matcher_outdated_ = true;
     }
 
     // Update previous pose tracking (under lock)
@@ -597,8 +596,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Not using particle filter, nor mapping, just track motion of robot
     Pose2d correction;
     Eigen::Matrix3d covariance;
+    std::unique_lock<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+    updateGlobalScanMatcher();
     double uncorrected_score = global_scan_matcher_->scoreScan(scan);
     double score = global_scan_matcher_->matchScan(scan, correction, covariance);
+    matcher_lock.unlock();
     RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                 correction.x, correction.y, correction.theta, uncorrected_score, score);
 
@@ -614,6 +616,18 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 }
 
+void Mapper::updateGlobalScanMatcher()
+{
+  std::lock_guard<std::mutex> lock(graph_mutex_);
+  if (global_scan_matcher_outdated_)
+  {
+    // When localizing, global scan matcher uses ALL scans
+    global_scan_matcher_->reset();
+    global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+    global_scan_matcher_outdated_ = false;
+  }
+}
+
 void Mapper::loopClosureThread()
 {
   // Graph the progress of loop closure and optimization is about
@@ -650,6 +664,15 @@ void Mapper::loopClosureThread()
       continue;
     }
 
+    // Nor without scan matcher, which is created by the first laser scan
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+      if (!global_scan_matcher_)
+      {
+        continue;
+      }
+    }
+
     // We don't process the initial rolling window for loop closure
     if (global_scans_processed_ <= rolling_depth_)
     {
@@ -679,7 +702,8 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
-          // Lock graph to access scans
+          // Lock matcher, then graph to access scans
+          std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
@@ -691,6 +715,7 @@ void Mapper::loopClosureThread()
           auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
+          global_scan_matcher_outdated_ = true;
           global_scan_matcher_->reset();
           global_scan_matcher_->addScans(begin, end);
 
@@ -742,6 +767,7 @@ void Mapper::loopClosureThread()
       std::lock_guard<std::mutex> lock(graph_mutex_);
       if (graph != graph_ || !enable_mapping_) continue;
       solver_->optimize(graph->constraints, graph->scans);
+      global_scan_matcher_outdated_ = true;
       optimization_last_ = graph->scans.size();
       map_update_available_ = true;
     }
-- 
2.43.0


From 18c261fa0e1c6a779b5c00513d83750a12c3c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 33/36] fix: stop the threads when the node is unloaded while
 ROS keeps running

---
 include/ndt_2d/ndt_mapper.hpp | 2 ++
 src/ndt_mapper.cpp            | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 1d995a2..6032c5b 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -76,6 +76,8 @@ protected:
   void loopClosureThread();
   size_t global_scans_processed_;
   std::unique_ptr<std::thread> loop_closure_thread_;
+  // Threads run until ROS or this node shut down
+  std::atomic<bool> shutdown_;
 
   // Thread for publishing map and transforms
   void mapPublishThread();
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 027c987..835e7d6 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -52,6 +52,7 @@ constexpr double TYPICAL_MATCHER_RESPONSE = -0.5;
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   global_scans_processed_(0),
+  shutdown_(false),
   map_update_available_(false),
   laser_inverted_(false),
   optimization_last_(0),
@@ -149,7 +150,8 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
 
 Mapper::~Mapper()
 {
-  // Shut down threads
+  // Shut down threads (node might be unloaded while ROS keeps running)
+  shutdown_ = true;
   map_publish_thread_->join();
   loop_closure_thread_->join();
   // Clean these up to avoid pluginlib errors
@@ -633,7 +635,7 @@ void Mapper::loopClosureThread()
   // Graph the progress of loop closure and optimization is about
   GraphPtr graph;
 
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
@@ -776,7 +778,7 @@ void Mapper::loopClosureThread()
 
 void Mapper::mapPublishThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     if (map_update_available_)
     {
-- 
2.43.0


From 6a356bb99f9ca31610e4860ee6079ac915882359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 34/36] fix: free the Ceres problem with its solver

---
 include/ndt_2d/ceres_solver.hpp | 3 ++-
 src/ceres_solver.cpp            | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ceres_solver.hpp b/include/ndt_2d/ceres_solver.hpp
index 5d87545..188cf9b 100644
--- a/include/ndt_2d/ceres_solver.hpp
+++ b/include/ndt_2d/ceres_solver.hpp
@@ -32,6 +32,7 @@
 #include <Eigen/Core>
 #include <ceres/ceres.h>
 #include <unordered_map>
+#include <memory>
 #include <vector>
 #include <ndt_2d/graph.hpp>
 
@@ -59,7 +60,7 @@ private:
                                        std::vector<ScanPtr> & scans);
 
   // Incrementally build the problem to avoid large initialization time
-  ceres::Problem * problem_;
+  std::unique_ptr<ceres::Problem> problem_;
   ceres::Solver::Options options_;
 
   // Duplicate each node/scan pose so that failed optimizations don't break our map
diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 8855c92..b5b50c7 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -39,7 +39,7 @@ CeresSolver::CeresSolver()
   options_.max_num_iterations = 100;
   options_.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY;
 
-  problem_ = new ceres::Problem();
+  problem_ = std::make_unique<ceres::Problem>();
 }
 
 void CeresSolver::setVerbose(bool verbose)
@@ -99,7 +99,7 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Run the solver
   ceres::Solver::Summary summary;
-  ceres::Solve(options_, problem_, &summary);
+  ceres::Solve(options_, problem_.get(), &summary);
 
   if (!summary.IsSolutionUsable())
   {
-- 
2.43.0


From 052791f0ec1a9ed93aff50a9daa3fcb73a38ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 35/36] fix: tell scans apart whose identifiers differ beyond
 32 bits in the solver

---
 include/ndt_2d/ceres_solver.hpp | 2 +-
 src/ceres_solver.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ndt_2d/ceres_solver.hpp b/include/ndt_2d/ceres_solver.hpp
index 188cf9b..9df57f8 100644
--- a/include/ndt_2d/ceres_solver.hpp
+++ b/include/ndt_2d/ceres_solver.hpp
@@ -65,7 +65,7 @@ private:
 
   // Duplicate each node/scan pose so that failed optimizations don't break our map
   // Using an unordered map rather than vector so that pointer to Vector3d are not invalidated
-  std::unordered_map<int, Eigen::Vector3d> nodes_;
+  std::unordered_map<size_t, Eigen::Vector3d> nodes_;
 
   // To incrementally build, track number of constraints
   size_t num_constraints_;
diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index b5b50c7..016ab28 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -73,7 +73,7 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
       pose(0) = scan->getPose().x;
       pose(1) = scan->getPose().y;
       pose(2) = scan->getPose().theta;
-      nodes_.insert(std::pair<int, Eigen::Vector3d>(scan->getId(), pose));
+      nodes_.insert(std::pair<size_t, Eigen::Vector3d>(scan->getId(), pose));
     }
   }
 
-- 
2.43.0


From d5fc72c5162cc9dc22c83bbe62ddde312083d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 36/36] fix: a search limit of zero turns loop closure off

---
 src/ndt_mapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 835e7d6..7355693 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -704,6 +704,8 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          if (num_scans_to_check == 0) break;
+
           // Lock matcher, then graph to access scans
           std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
           std::unique_lock<std::mutex> lock(graph_mutex_);
@@ -757,7 +759,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
           }
 
-          if (--num_scans_to_check == 0) break;
+          --num_scans_to_check;
         }
       }
     }
-- 
2.43.0

