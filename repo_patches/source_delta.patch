From a8c4a861ec588f7de6c6c5e05468a28a9eeb84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:30 +0000
Subject: [PATCH 01/21] fix: Rate_Container::getRate refuses every unknown rate

A known site with an unknown neighbor returned a null pointer and stored it,
an unknown site was inserted before the exception was raised.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..2c73984 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,10 +31,8 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    if(rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
     return rates_[siteId][neighId];
   }
-- 
2.43.0


From 18c5738b15bc1005a9cff0157266df2831b88573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:30 +0000
Subject: [PATCH 02/21] fix: Rate_Container::outgoingRateCount no longer stores
 the site it is asked about

---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index 2c73984..7ae06cb 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -44,6 +44,7 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
+    if(rates_.count(siteId)==0) return 0;
     return rates_[siteId].size();
   }
 
-- 
2.43.0


From 081601125ace3fa22c479cbed9480ec0bf1150fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:30 +0000
Subject: [PATCH 03/21] fix: Site_Container::getSmallestClusterId refuses
 unknown sites instead of inserting them

---
 CoarseGrainSites/src/libmythical/site_container.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..d0cca87 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,6 +66,9 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
+      if(sites_.count(siteId)==0){
+        throw invalid_argument("Site is not stored in the container.");
+      }
       int clusterId = sites_[siteId].getClusterId();
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
-- 
2.43.0


From 2c5bb197ea2677cc1aec2bb2460c4785929aab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 04/21] fix: rebuild the cumulative hop tables of a cluster on
 every update

The tables were only ever appended to, so after a second update walkers still
moved by the probabilities of the first.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..b514cfa 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -608,6 +608,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
       });
 
   total = 0.0;
+  cumulitive_probabilityHopToInternalSite_.clear();
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
     total = site_and_prob.second;
@@ -660,6 +661,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
       });
 
   total = 0.0;
+  cumulitive_probabilityHopToNeighbor_.clear();
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
     total = site_and_prob.second;
-- 
2.43.0


From 5f303939058b3b3387aa9806d5901d111c31a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 05/21] fix: normalise the internal hop probabilities, not the
 hop off probabilities

The already normalised probabilities of hopping off the cluster were divided by
the sum of the internal ones, so the escape time was not a weighted average.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index b514cfa..414210d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -510,7 +510,7 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
 
   // Normalize
   for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+    probabilityHopBetweenInternalSite_[site.first]/=sum_internal;
   }
   
 }
-- 
2.43.0


From 7a54d0add5ba557bcb6e4b1cbc32c023fecc8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 06/21] fix: forget the remaining dwell time of a walker
 removed from a cluster

removeWalkerCluster_ was never installed, the next stay under the same walker id
continued the old one.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 414210d..c3ae1a0 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -62,6 +62,7 @@ Cluster::Cluster() : TopologyFeature() {
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
+  remove_ptr_ = removeWalkerCluster_;
 
 }
 
-- 
2.43.0


From 7f82db35f06244f8301a3de2b0a498590a593b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 07/21] fix: occupying and vacating a site of a cluster are
 opposites

Vacating decremented the occupation of the cluster which occupying had never
incremented, and a site that is not a member was inserted.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c3ae1a0..96628ce 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -26,9 +26,10 @@ static int clusterIdCounter = 0;
 void occupyCluster_(TopologyFeature* feature, const int& siteId){
   Cluster * cluster = static_cast<Cluster *>(feature);
   
+  assert(cluster->sitesInCluster_.count(siteId));
   Site & site = cluster->sitesInCluster_[siteId];
   assert(cluster->site_visits_.count(siteId));
-  ++cluster->total_visit_freq_; 
+  cluster->occupy();
   site.setToOccupiedStatus(); 
 }
 
@@ -40,6 +41,7 @@ bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
 
 void vacateCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
+  assert(cluster->sitesInCluster_.count(siteId));
   cluster->sitesInCluster_[siteId].vacate();
   cluster->vacate();
 }
-- 
2.43.0


From a39299e3bdd04eb588418ec821245556386a6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 08/21] fix: Cuboid::getRandomSite draws y from its own axis
 and refuses planes outside

The y coordinate in an XY plane was drawn from the height of the lattice, and the
bounds test could never be true.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..39172b0 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -287,7 +287,7 @@ namespace mythical {
       int y_lattice_pos = plane_index;
       int z_lattice_pos = plane_index;
       if ( plane == Plane::YZ ) {
-        if (x_lattice_pos < 0 && x_lattice_pos >= length_ ) {
+        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with x pos " + to_string(plane_index) + " when the x"
             "bounds are 0 to " + to_string(length_-1);
@@ -296,7 +296,7 @@ namespace mythical {
         y_lattice_pos = distribution_y_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else if ( plane == Plane::XZ ) {
-        if (y_lattice_pos < 0 && y_lattice_pos >= width_ ) {
+        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with y pos " + to_string(plane_index) + " when the y"
             "bounds are 0 to " + to_string(width_-1);
@@ -305,14 +305,14 @@ namespace mythical {
         x_lattice_pos = distribution_x_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else {
-        if (z_lattice_pos < 0 && z_lattice_pos >= height_ ) {
+        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with z pos " + to_string(plane_index) + " when the z"
             "bounds are 0 to " + to_string(height_-1);
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From ea5fd9d61fd80c084905384f29735b5650a71062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 09/21] fix: Cuboid::getSmallestDistance is the minimum image
 distance

The smallest separation was stored as if it were the position of the second site,
and the z separation was computed from the y coordinates.
---
 .../libmythical/charge_transport/cuboid_lattice.cpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 39172b0..089ea29 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -513,7 +513,7 @@ namespace mythical {
         const int diff1 = abs(x2 - x1 + length_);
         const int diff2 = abs(x2 - x1 - length_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(0) = min(diff,abs(x2 - x1));
+        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
       }
       const int y1 = pos_1.at(1);
       const int y2 = pos_2.at(1);
@@ -521,15 +521,15 @@ namespace mythical {
         const int diff1 = abs(y2 - y1 + width_);
         const int diff2 = abs(y2 - y1 - width_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(1) = min(diff,abs(y2 - y1));
+        pos_2.at(1) = y1 + min(diff,abs(y2 - y1));
       }
-      const int z1 = pos_1.at(1);
-      const int z2 = pos_2.at(1);
+      const int z1 = pos_1.at(2);
+      const int z2 = pos_2.at(2);
       if ( z_bound_ == BoundarySetting::Periodic ){
         const int diff1 = abs(z2 - z1 + height_);
         const int diff2 = abs(z2 - z1 - height_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(2) = min(diff,abs(z2 - z1));
+        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));
       }
       return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
     }
-- 
2.43.0


From 2691dc27337037319d5ff4be40a84eb52bdded1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 10/21] fix: Cuboid refuses negative indices when decoding a
 position

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 089ea29..2cd35ce 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -318,7 +318,7 @@ namespace mythical {
     }
 
     std::vector<int> Cuboid::getPosition(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -329,7 +329,7 @@ namespace mythical {
     }
 
     int Cuboid::getX(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -342,7 +342,7 @@ namespace mythical {
     }
 
     int Cuboid::getY(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -355,7 +355,7 @@ namespace mythical {
     }
 
     int Cuboid::getZ(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
-- 
2.43.0


From 4f42a271f71d01a1e0174f75f61614025f5dc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 11/21] fix: wrap coordinates more than one period below the
 lattice

A periodic coordinate below minus the size of the axis stayed negative.
---
 .../charge_transport/cuboid_lattice.cpp        | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 2cd35ce..836b882 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -155,24 +155,18 @@ namespace mythical {
 
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      if(x<0){
-        return x+length_;
-      }
-      return x % length_;
+      const int remainder = x % length_;
+      return remainder < 0 ? remainder + length_ : remainder;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      if(y<0){
-        return y+width_;
-      }
-      return y % width_;
+      const int remainder = y % width_;
+      return remainder < 0 ? remainder + width_ : remainder;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      if(z<0){
-        return z+height_;
-      }
-      return z % height_;
+      const int remainder = z % height_;
+      return remainder < 0 ? remainder + height_ : remainder;
     }
 
     void Cuboid::setDistributions_() {
-- 
2.43.0


From 0afb5b152a5c2a6d4aa75bc7e39bbbf2dcc1a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 12/21] fix: the neighbor distances of the whole lattice agree
 with those of each site

Only offsets towards smaller coordinates were scanned in each direction at once,
so pairs such as (0,1,0)-(1,0,0) were missing, and the distance of a far periodic
image replaced that of a closer one.
---
 .../charge_transport/cuboid_lattice.cpp       | 56 ++-----------------
 1 file changed, 6 insertions(+), 50 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 836b882..2571d90 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -435,61 +435,17 @@ namespace mythical {
 
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-      
       int total_num_sites = length_*width_*height_;
-      // So as not to return redundant info, only provide distance if the 
-      // neighbor has a smaller index
       std::unordered_map<int, std::unordered_map<int, double>> neigh_distances;
 
       for ( int index = 0; index < total_num_sites; ++index ) {
-        
-        std::vector<int> pos_i = getPos_(index);
-        const int x = pos_i.at(0);
-        const int y = pos_i.at(1);
-        const int z = pos_i.at(2);
-
-        const int x_min = x - num_sites;
-        const int x_max = x;
-        const int y_min = y - num_sites;
-        const int y_max = y;
-        const int z_min = z - num_sites;
-        const int z_max = z;
-
-        for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-          int x_lattice_pos = x_ind;
-          if ( x_bound_ == BoundarySetting::Periodic ) {
-            x_lattice_pos = getXPeriodic_(x_ind);
-          }       
-          if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-            for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-              int y_lattice_pos = y_ind;
-              if ( y_bound_ == BoundarySetting::Periodic ) {
-                y_lattice_pos = getYPeriodic_(y_ind);
-              }       
-              if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-                for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                  int z_lattice_pos = z_ind;
-
-                  if ( z_bound_ == BoundarySetting::Periodic ) {
-                    z_lattice_pos = getZPeriodic_(z_ind);
-                  }       
-                  if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                    double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                    if ( dist <= cutoff ) {
-                      int neigh_index = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                      if ( neigh_index != index ) {
-                        neigh_distances[neigh_index][index] = dist;
-                        neigh_distances[index][neigh_index] = dist;
-                      }
-                    }
-                  }
-                } // for z
-              }
-            } // for y
+        for ( const auto & neigh : getNeighborDistances_(getPos_(index), cutoff) ) {
+          // A site may be seen through several periodic images, keep the closest
+          std::unordered_map<int, double> & distances = neigh_distances[index];
+          if ( distances.count(neigh.first) == 0 || neigh.second < distances[neigh.first] ) {
+            distances[neigh.first] = neigh.second;
           }
-        } // for x
+        }
       } // index
       return neigh_distances;
     }
-- 
2.43.0


From 3f6ea68135c2ce022a166b4865e90571d4e40e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 13/21] fix: a default constructed Cuboid is an empty fixed
 lattice, not indeterminate

---
 .../mythical/charge_transport/cuboid_lattice.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp b/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp
index 668d602..755d974 100644
--- a/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp
+++ b/CoarseGrainSites/include/mythical/charge_transport/cuboid_lattice.hpp
@@ -112,20 +112,20 @@ namespace mythical {
         double getSmallestDistance(const int index1, const int index2) const;
 
       private:
-        int length_;
-        int width_;
-        int height_;
-        int total_;
-        double inter_site_distance_; // nm nanometers
+        int length_ = 0;
+        int width_ = 0;
+        int height_ = 0;
+        int total_ = 0;
+        double inter_site_distance_ = 1.0; // nm nanometers
 
         std::uniform_int_distribution<int> distribution_x_;
         std::uniform_int_distribution<int> distribution_y_;
         std::uniform_int_distribution<int> distribution_z_;
         std::default_random_engine generator_;
 
-        BoundarySetting x_bound_;
-        BoundarySetting y_bound_;
-        BoundarySetting z_bound_;
+        BoundarySetting x_bound_ = BoundarySetting::Fixed;
+        BoundarySetting y_bound_ = BoundarySetting::Fixed;
+        BoundarySetting z_bound_ = BoundarySetting::Fixed;
 
         int getXPeriodic_( const int x ) const noexcept;
         int getYPeriodic_( const int y ) const noexcept;
-- 
2.43.0


From 1118efb96fb3bd9fb14067fa4c62f12c7a92b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 14/21] fix: initialise the time increment and internal time
 constant of a new cluster

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 96628ce..ba6ab6a 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -60,6 +60,8 @@ Cluster::Cluster() : TopologyFeature() {
   prev_total_visit_freq_ = 0;
   convergenceTolerance_ = 0.01;
   convergence_method_ = converge_by_iterations_per_site;
+  time_increment_ = escape_time_constant_/resolution_;
+  internal_time_constant_ = constants::unassigned_value;
 
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
-- 
2.43.0


From bf517bd46d629a2cf50f13691d2b632d6765b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 15/21] fix: the Marcus prefactor includes the reorganisation
 energy

Without the square root of lambda the result is not a rate.
---
 CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp b/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp
index f0f2f36..5c308fa 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/marcus.cpp
@@ -11,7 +11,7 @@ namespace mythical {
     Marcus::Marcus(const double lambda, const double T) :
       lambda_(lambda), 
       expon_denom_(4.0*lambda*k_B*T),
-      pre_factor_(2.0*PI/h_bar * 1.0/(SRPI*2*SRk_B*std::pow(T,0.5))) {}
+      pre_factor_(2.0*PI/h_bar * 1.0/(SRPI*2*SRk_B*std::pow(lambda*T,0.5))) {}
 
     double Marcus::getRate(const double E_i, const double E_j, const double H_AB) const noexcept {
       // DeltaG = E_j - E_i 
-- 
2.43.0


From 3e0954fae56bf038d1725815cc4f982adb9a9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 16/21] fix: never pick a site that does not exist because of
 rounding

A random number at or above the rounded sum of the probabilities gave -1.
---
 .../src/libmythical/topologyfeatures/cluster.cpp          | 8 ++++++++
 .../src/libmythical/topologyfeatures/site.cpp             | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index ba6ab6a..236af7f 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -443,6 +443,10 @@ int Cluster::pickClusterNeighbor_(const int & walker_id) {
   for (const pair<int,double> & pval : cumulitive_probabilityHopToNeighbor_) {
     if (number < pval.second) return pval.first;
   }
+  // Rounding may leave the sum of the probabilities just below the number
+  if (!cumulitive_probabilityHopToNeighbor_.empty()) {
+    return cumulitive_probabilityHopToNeighbor_.back().first;
+  }
   assert("Cummulitive probability distribution is flawed or random "
       "number is greater than 1");
   return -1;
@@ -456,6 +460,10 @@ int Cluster::pickInternalSite_() {
       return pval.first;
     }
   }
+  // Rounding may leave the sum of the probabilities just below the number
+  if (!cumulitive_probabilityHopToInternalSite_.empty()) {
+    return cumulitive_probabilityHopToInternalSite_.back().first;
+  }
   assert("cumulitive probability distribution of sites in the cluster "
     "is flawed or random number is greater than 1");
   return -1;
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index 9c7106e..cefb4d9 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -101,6 +101,10 @@ int Site::pickNewSiteId() {
     threshold += pval.second;
     if (number < threshold) return pval.first;
   }
+  // Rounding may leave the sum of the probabilities just below the number
+  if (!probabilityHopToNeighbor_.empty()) {
+    return probabilityHopToNeighbor_.back().first;
+  }
   assert("Error cummulitive probability distribution is flawed or "
       " the random number generator has calculated a value greater than 1, or"
       " the site has no neighbors");
-- 
2.43.0


From bf180c9bd2477006fd5ff3b78a1a313b70374981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:40 +0000
Subject: [PATCH 17/21] fix: clear all derived tables of a cluster whose sites
 were migrated away

---
 .../src/libmythical/topologyfeatures/cluster.cpp             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 236af7f..d67c9ff 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -164,6 +164,11 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
   cluster.internal_dwell_time_.clear();
   cluster.probabilityHopToNeighbor_.clear();
   cluster.cumulitive_probabilityHopToNeighbor_.clear();
+  cluster.probabilityHopToInternalSite_.clear();
+  cluster.cumulitive_probabilityHopToInternalSite_.clear();
+  cluster.sumOfEscapeRateFromSiteToInternalSite_.clear();
+  cluster.probabilityHopOffInternalSite_.clear();
+  cluster.probabilityHopBetweenInternalSite_.clear();
   cluster.escape_time_constant_ = constants::unassigned_value;
   cluster.internal_time_constant_ = constants::unassigned_value;
 
-- 
2.43.0


From aa509d426fa3d528bc96a927efabbc3be780ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:47 +0000
Subject: [PATCH 18/21] fix: redirect every site of an absorbed cluster before
 it is erased

Only the sites of the explored basin were redirected, other members of the
absorbed cluster kept pointing at the erased object.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..c872a3c 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -366,6 +366,10 @@ namespace mythical {
     clusters_->getCluster(favoredClusterId).addSites(isolated_sites);
     clusters_->getCluster(favoredClusterId).updateProbabilitiesAndTimeConstant();
     for(auto clusterId : cluster_ids ){
+      for(auto siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
+        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
+        sites_->setClusterId(siteId,favoredClusterId);
+      }
       clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
       clusters_->erase(clusterId);
     }
-- 
2.43.0


From 52ede29c2f04847e09b73ece3be00c14abe91cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:47 +0000
Subject: [PATCH 19/21] fix: placing a walker occupies its site also when the
 site is part of a cluster

The cluster was occupied as a whole and the site of the walker stayed free.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index c872a3c..f1aff27 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -165,7 +165,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0


From 1de1ca7cc60cd9997c372d0f6cecddc6668a0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:47 +0000
Subject: [PATCH 20/21] fix: explore the edges of a basin in an order that does
 not depend on addresses

The edges were kept in a set hashed by pointer and the basin found depends on the
order in which they are added.
---
 CoarseGrainSites/src/libmythical/basin_explorer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/basin_explorer.cpp b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
index 4a07888..18d1667 100644
--- a/CoarseGrainSites/src/libmythical/basin_explorer.cpp
+++ b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
@@ -1,5 +1,5 @@
 
-#include <unordered_set>
+#include <vector>
 
 #include "basin_explorer.hpp"
 #include "graph_library_adapter.hpp"
@@ -10,7 +10,7 @@ using namespace std;
 
 namespace mythical {
 
-  typedef unordered_set<shared_ptr<Edge>> shared_edge_set;
+  typedef vector<shared_ptr<Edge>> shared_edge_vec;
   typedef vector<weak_ptr<Edge>> weak_edge_vec;
 
   vector<int> BasinExplorer::findBasin(
@@ -19,7 +19,7 @@ namespace mythical {
       int siteId){
     
     auto edges_store = 
-      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, siteId);
+      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, siteId);
 
     weak_edge_vec edges_weak(edges_store.begin(),edges_store.end());
 
@@ -45,10 +45,10 @@ namespace mythical {
       auto next_vertex = gv_largest_known.chooseTerminalVertex(next_edge);
 
       gv_largest_known.exploreEdge(next_edge);
-      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, next_vertex);
+      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, next_vertex);
       
       weak_edge_vec edges_weak_tmp(edges_tmp.begin(),edges_tmp.end());
-      edges_store.insert(edges_tmp.begin(),edges_tmp.end());
+      edges_store.insert(edges_store.end(),edges_tmp.begin(),edges_tmp.end());
 
       addEdges_(sites,edges_weak_tmp,next_vertex,gv_largest_known);
  
-- 
2.43.0


From 189dd06c8f8f756a8964d250d33a45d508a1b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:00 +0000
Subject: [PATCH 21/21] fix: a cluster counts the walkers on the sites that
 join it

addSite, addSites and migrateSitesFrom took sites over together with their
occupation but left the cluster's own count as it was, so that a cluster
reported empty although one of its members was occupied, and its count went
below zero once that walker left.
---
 .../src/libmythical/topologyfeatures/cluster.cpp         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index d67c9ff..e5a2b7c 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -75,7 +75,8 @@ void Cluster::addSite(Site& newSite) {
       "added to the cluster");
   newSite.setClusterId(this->getId());
   sitesInCluster_[newSite.getId()] = newSite;
-
+  // A walker may already be on the site
+  if(newSite.isOccupied()) ++occupied_;
 }
 
 void Cluster::addSites(vector<Site>& newSites) {
@@ -84,6 +85,8 @@ void Cluster::addSites(vector<Site>& newSites) {
         "added to the cluster");
     site.setClusterId(this->getId());
     sitesInCluster_[site.getId()] = site;
+    // A walker may already be on the site
+    if(site.isOccupied()) ++occupied_;
   }
 }
 
@@ -156,6 +159,10 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
       cluster.sitesInCluster_.end(),
       inserter(this->sitesInCluster_,this->sitesInCluster_.end()));
 
+  // The walkers on the sites move along with them
+  occupied_ += cluster.occupied_;
+  cluster.occupied_ = 0;
+
   // Change the cluster so that it will not be used unless sites are added 
   cluster.sitesInCluster_.clear();
   cluster.probabilityOnSite_.clear();
-- 
2.43.0

