From bf053b92a12f01bab28bfe61b52348709ace32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 01/44] fix: do not read past the end of the match list when
 the cutoff covers all of it

---
 c++/src/hash.cpp    | 2 +-
 c++/src/matcher.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index e3a85b7..26adc85 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -131,7 +131,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cfb646f..cadcd57 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -540,7 +540,7 @@ double Matcher::updateSingleRate(const int index,
     const double cutoff = process.cutoff();
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         ++it1;
         ++len;
-- 
2.43.0


From 95b91d68bed779c473c9f17ff4a47628bfac1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 02/44] fix: include sites at exactly the cutoff distance
 irrespective of rounding in the coordinates

---
 c++/src/hash.cpp    |  2 +-
 c++/src/matcher.cpp |  2 +-
 c++/src/matchlist.h | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index 26adc85..5754148 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -131,7 +131,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
+    while ( it1 != config_match_list.end() && withinCutoff((*it1).distance, cutoff) )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cadcd57..8e4bc89 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -540,7 +540,7 @@ double Matcher::updateSingleRate(const int index,
     const double cutoff = process.cutoff();
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
+    while ( it1 != config_match_list.end() && withinCutoff((*it1).distance, cutoff) )
     {
         ++it1;
         ++len;
diff --git a/c++/src/matchlist.h b/c++/src/matchlist.h
index 0f9e4d4..398ea4e 100644
--- a/c++/src/matchlist.h
+++ b/c++/src/matchlist.h
@@ -53,6 +53,20 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
                     const ConfigBucketMatchList & config_match_list);
 
 
+/*! \brief Determines if a distance is within a cutoff. Distances that are the same
+ *         within the precision used when comparing lattice positions are included,
+ *         such that the result is the same at all equivalent lattice sites.
+ *  \param distance : The distance to check.
+ *  \param cutoff   : The cutoff to compare against.
+ *  \return : True if the distance is within the cutoff.
+ */
+inline
+bool withinCutoff(const double distance, const double cutoff)
+{
+    return distance <= cutoff + 1.0e-5;
+}
+
+
 /*! \brief Determines if matchlists m1 and m2 match.
  *  \param m1: The first match list to compare.
  *  \param m2: The second match list to compare.
-- 
2.43.0


From ee4d6a11813921289b8ff1040b563e890d41ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 03/44] fix: size the shared cell index buffer for the lattice
 map that uses it

---
 c++/src/latticemap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 65d9abd..e6f3944 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -199,6 +199,9 @@ const std::vector<int> & LatticeMap::indicesFromCell(const int i,
     const int tmp2 = tmp1 * repetitions_[2] + k;
     const int tmp3 = tmp2 * n_basis_;
 
+    // The temporary storage is shared by all maps.
+    tmp_cell_indices__.resize(n_basis_);
+
     for (int l = 0; l < n_basis_; ++l)
     {
         tmp_cell_indices__[l] = tmp3 + l;
-- 
2.43.0


From 623af4dd66c51fe4a9908e195dff3532e9ed44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 04/44] fix: discard zero random numbers when propagating time,
 also with -ffast-math

---
 c++/src/simulationtimer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c++/src/simulationtimer.cpp b/c++/src/simulationtimer.cpp
index 0249397..ffb2025 100644
--- a/c++/src/simulationtimer.cpp
+++ b/c++/src/simulationtimer.cpp
@@ -27,14 +27,13 @@ SimulationTimer::SimulationTimer() :
 //
 void SimulationTimer::propagateTime(const double total_rate)
 {
-    // Propagate the time of the system.
+    // Propagate the time of the system. Zero random numbers must be discarded.
+    // Note that std::isinf can not be relied upon when using -ffast-math.
     double rnd;
-    double dt;
     do
     {
         rnd = randomDouble01();
-        dt  = -std::log(rnd)/total_rate;
     }
-    while (std::isinf(dt));
-    simulation_time_ += dt;
+    while (rnd <= 0.0);
+    simulation_time_ += -std::log(rnd)/total_rate;
 }
-- 
2.43.0


From a3bef7713208b51114e95a338c74e53a2303dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 05/44] fix: never pick processes without available sites or
 sites with zero rate

---
 c++/src/interactions.cpp | 22 +++++++---------------
 c++/src/process.cpp      |  7 ++++---
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 202ea3a..18083b8 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -25,15 +25,7 @@
 bool pairComp(const std::pair<double,int> & p1,
               const std::pair<double, int> & p2)
 {
-    // This skips all processes with no available sites.
-    if (p2.second == 0)
-    {
-        return false;
-    }
-    else
-    {
-        return (p1.first < p2.first);
-    }
+    return (p1.first < p2.first);
 }
 
 
@@ -239,18 +231,18 @@ int Interactions::pickProcessIndex() const
     const double rnd = randomDouble01() * totalRate();
     const std::pair<double,int> rnd_pair(rnd,1);
 
-    // Find the lower bound - corresponding to the first element for which
-    // the accumulated rate is not smaller than rnd, and the number
-    // of available processes is larger than zero.
+    // Find the upper bound - corresponding to the first element for which
+    // the accumulated rate is larger than rnd. Since processes with no available
+    // sites, or zero rate, do not add to the accumulated rate they are never found.
     const std::vector<std::pair<double, int> >::const_iterator begin = probability_table_.begin();
     const std::vector<std::pair<double, int> >::const_iterator end   = probability_table_.end();
-    const std::vector<std::pair<double, int> >::const_iterator it1   = std::lower_bound( begin,
+    const std::vector<std::pair<double, int> >::const_iterator it1   = std::upper_bound( begin,
                                                                                          end,
                                                                                          rnd_pair,
                                                                                          pairComp );
 
-    // Find the index in the process list.
-    return it1-begin;
+    // Find the index in the process list. The end is only reached if all rates are zero.
+    return (it1 != end) ? it1-begin : end-begin-1;
 }
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 1bb9681..fb91898 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -166,10 +166,11 @@ int Process::pickSite() const
     // Pick the site.
     const std::vector<double>::const_iterator begin = incremental_rate_table_.begin();
     const std::vector<double>::const_iterator end   = incremental_rate_table_.end();
-    const std::vector<double>::const_iterator it1   = std::lower_bound( begin, end, rnd);
+    // Use the upper bound, such that sites with zero rate are never picked.
+    const std::vector<double>::const_iterator it1   = std::upper_bound( begin, end, rnd);
 
-    // Get the site index.
-    const int site_index = it1-begin;
+    // Get the site index. The end is only reached if all rates are zero.
+    const int site_index = (it1 != end) ? it1-begin : end-begin-1;
 
     // Return the site.
     return sites_[site_index];
-- 
2.43.0


From a28a9d70dbe1be1cb690ac1bc2a5ae75cdd04371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 06/44] fix: stop with an error when all available processes
 have rate zero

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 2a68eee..1c54ccf 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -213,7 +213,7 @@ must be given as string."""
 
                 # Check if it is possible to take a step.
                 nP = cpp_model.interactions().totalAvailableSites()
-                if nP == 0:
+                if nP == 0 or not cpp_model.interactions().totalRate() > 0.0:
                     raise Error("No more available processes.")
 
                 # Take a step.
-- 
2.43.0


From b409328feae3954cab02a4ea2203df52df4f0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 07/44] fix: keep rounding errors of removed rates out of the
 total rate of a process

---
 c++/src/customrateprocess.cpp |  8 ++++----
 c++/src/customrateprocess.h   |  6 ++++++
 c++/src/process.cpp           | 36 ++++++++++++++++++++++++++++++++---
 c++/src/process.h             | 21 ++++++++++++++++++++
 4 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index f5d2f07..360de92 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -55,7 +55,7 @@ void CustomRateProcess::addSite(const int index,
     sites_.push_back(index);
     site_multiplicity_.push_back(multiplicity);
     site_rates_.push_back(rate);
-    total_rate_ += multiplicity * rate;
+    addToTotalRate(multiplicity * rate);
 }
 
 
@@ -93,11 +93,11 @@ void CustomRateProcess::removeSite(const int index)
     // Swap and remove.
     std::swap((*it3), (*last_multiplicity));
 
-    // Update the total rate.
-    total_rate_ -= site_rate * site_multiplicity_.back();
-
+    const double multiplicity = site_multiplicity_.back();
     site_multiplicity_.pop_back();
 
+    // Update the total rate.
+    subtractFromTotalRate(site_rate * multiplicity);
 }
 
 
diff --git a/c++/src/customrateprocess.h b/c++/src/customrateprocess.h
index 9617b89..99ddb38 100644
--- a/c++/src/customrateprocess.h
+++ b/c++/src/customrateprocess.h
@@ -82,6 +82,12 @@ public:
 
 protected:
 
+    /*! \brief Query for the rate at a listed site.
+     *  \param i : The position in the list of sites.
+     *  \return : The rate, without multiplicity.
+     */
+    virtual double siteRate(const size_t i) const { return site_rates_[i]; }
+
 private:
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index fb91898..55f99d7 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -36,7 +36,8 @@ Process::Process(const Configuration & first,
     affected_indices_(0),
     basis_sites_(basis_sites),
     id_moves_(0),
-    total_rate_(0.0)
+    total_rate_(0.0),
+    largest_total_rate_(0.0)
 {
     // Determine if this is a bucket process by looking at the update info
     // on the second configuration.
@@ -106,7 +107,7 @@ void Process::addSite(const int index,
 {
     sites_.push_back(index);
     site_multiplicity_.push_back(multiplicity);
-    total_rate_ += multiplicity * rate_;
+    addToTotalRate(multiplicity * rate_);
 }
 
 
@@ -130,9 +131,37 @@ void Process::removeSite(const int index)
 
     // Swap and remove.
     std::swap((*it3), (*last_multiplicity));
-    total_rate_ -= site_multiplicity_.back() * rate_;
+    const double multiplicity = site_multiplicity_.back();
     site_multiplicity_.pop_back();
+    subtractFromTotalRate(multiplicity * rate_);
+}
+
+
+// -----------------------------------------------------------------------------
+//
+void Process::addToTotalRate(const double rate)
+{
+    total_rate_ += rate;
+    largest_total_rate_ = std::max(total_rate_, largest_total_rate_);
+}
+
 
+// -----------------------------------------------------------------------------
+//
+void Process::subtractFromTotalRate(const double rate)
+{
+    total_rate_ -= rate;
+
+    // The rounding errors are proportional to the largest value.
+    if (sites_.empty() || total_rate_ < 1.0e-3 * largest_total_rate_)
+    {
+        total_rate_ = 0.0;
+        for (size_t i = 0; i < sites_.size(); ++i)
+        {
+            total_rate_ += siteRate(i) * site_multiplicity_[i];
+        }
+        largest_total_rate_ = total_rate_;
+    }
 }
 
 
@@ -144,6 +173,7 @@ void Process::clearSites()
     site_multiplicity_.clear();
     site_rates_.clear();
     total_rate_ = 0.0;
+    largest_total_rate_ = 0.0;
 }
 
 
diff --git a/c++/src/process.h b/c++/src/process.h
index 03823c3..9899122 100644
--- a/c++/src/process.h
+++ b/c++/src/process.h
@@ -228,6 +228,27 @@ protected:
     /// The total available rate for this process.
     double total_rate_;
 
+    /// The largest total rate since it was last calculated from scratch.
+    double largest_total_rate_;
+
+    /*! \brief Query for the rate at a listed site.
+     *  \param i : The position in the list of sites.
+     *  \return : The rate, without multiplicity.
+     */
+    virtual double siteRate(const size_t i) const { return rate_; }
+
+    /*! \brief Add to the total rate.
+     *  \param rate : The rate to add, including multiplicity.
+     */
+    void addToTotalRate(const double rate);
+
+    /*! \brief Subtract from the total rate, to be called after the site was removed
+     *         from the lists. The total rate is calculated from scratch when it
+     *         could otherwise be dominated by rounding errors.
+     *  \param rate : The rate to subtract, including multiplicity.
+     */
+    void subtractFromTotalRate(const double rate);
+
 private:
 
 };
-- 
2.43.0


From 066937fd428afe3af080ebdf910351588218ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 08/44] fix: let the neighbourhood of a site cover every site
 its processes and rates depend on

---
 c++/src/latticemodel.cpp | 61 ++++++++++++++++++++++++++++++++++++++--
 c++/src/latticemodel.h   |  9 ++++++
 2 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/c++/src/latticemodel.cpp b/c++/src/latticemodel.cpp
index 2a2e4e2..5499e66 100644
--- a/c++/src/latticemodel.cpp
+++ b/c++/src/latticemodel.cpp
@@ -17,6 +17,9 @@
 #include "random.h"
 
 #include <cstdio>
+#include <cstdlib>
+#include <cmath>
+#include <algorithm>
 
 // -----------------------------------------------------------------------------
 //
@@ -28,7 +31,8 @@ LatticeModel::LatticeModel(Configuration & configuration,
     simulation_timer_(simulation_timer),
     lattice_map_(lattice_map),
     interactions_(interactions),
-    matcher_(configuration.coordinates().size(), interactions.processes().size())
+    matcher_(configuration.coordinates().size(), interactions.processes().size()),
+    range_(determineRange())
 {
     // Setup the mapping between coordinates and processes.
     calculateInitialMatching();
@@ -38,12 +42,63 @@ LatticeModel::LatticeModel(Configuration & configuration,
 }
 
 
+// -----------------------------------------------------------------------------
+//
+int LatticeModel::determineRange() const
+{
+    int range = interactions_.maxRange();
+
+    const std::vector<Coordinate> & coordinates = configuration_.coordinates();
+    const double eps = 1.0e-5;
+
+    // Loop over the processes and the positions in the basis where they can be performed.
+    for (size_t p = 0; p < interactions_.processes().size(); ++p)
+    {
+        const Process & process = *interactions_.processes()[p];
+
+        for (size_t b = 0; b < process.basisSites().size(); ++b)
+        {
+            // No site has a basis position outside the basis of the lattice.
+            if (process.basisSites()[b] < 0 || process.basisSites()[b] >= lattice_map_.nBasis())
+            {
+                continue;
+            }
+
+            const Coordinate & center = coordinates[process.basisSites()[b]];
+
+            for (int d = 0; d < 3; ++d)
+            {
+                // The cells that hold the sites of the process.
+                const ProcessBucketMatchList & match_list = process.processMatchList();
+                for (size_t i = 0; i < match_list.size(); ++i)
+                {
+                    const double x = center[d] + match_list[i].coordinate[d];
+                    range = std::max(range, std::abs(static_cast<int>(std::floor(x + eps))));
+                }
+
+                // The cells that hold the sites within the cutoff.
+                if (interactions_.useCustomRates())
+                {
+                    for (int i = 0; i < lattice_map_.nBasis(); ++i)
+                    {
+                        const double x = std::fabs(center[d] - coordinates[i][d]);
+                        range = std::max(range, static_cast<int>(std::floor(process.cutoff() + x + eps)));
+                    }
+                }
+            }
+        }
+    }
+
+    return range;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 void LatticeModel::calculateInitialMatching()
 {
     // Calculate the match lists.
-    configuration_.initMatchLists(lattice_map_, interactions_.maxRange());
+    configuration_.initMatchLists(lattice_map_, range_);
 
     // Update the interactions matchlists.
     interactions_.clearMatching();
@@ -87,7 +142,7 @@ void LatticeModel::singleStep()
 
     // Run the re-matching of the affected sites and their neighbours.
     const std::vector<int> & indices = \
-        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), interactions_.maxRange());
+        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), range_);
 
     matcher_.calculateMatching(interactions_,
                                configuration_,
diff --git a/c++/src/latticemodel.h b/c++/src/latticemodel.h
index f33a0fc..4e59b9c 100644
--- a/c++/src/latticemodel.h
+++ b/c++/src/latticemodel.h
@@ -75,6 +75,12 @@ private:
      */
     void calculateInitialMatching();
 
+    /*! \brief Determine how many cells away from the cell of the center the lattice sites
+     *         needed by the processes can be, considering the positions in the basis.
+     *  \return : The number of shells of cells to include.
+     */
+    int determineRange() const;
+
     /// A reference to the configuration given at construction.
     Configuration & configuration_;
 
@@ -89,6 +95,9 @@ private:
 
     /// The Matcher to use for calculating matches and update the process lists.
     Matcher matcher_;
+
+    /// The number of shells of cells in a neighbourhood.
+    int range_;
 };
 
 
-- 
2.43.0


From 50ca23d8f56ba998eff3ad37fcd88352066612b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 09/44] fix: move atoms that are replaced by an atom of the
 same type

---
 c++/src/configuration.cpp                      | 14 ++++++++++++++
 c++/src/matchlistentry.h                       |  2 ++
 python/src/KMCLib/CoreComponents/KMCProcess.py |  7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index d9bdfda..14f8586 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -363,6 +363,20 @@ void Configuration::performBucketProcess(Process & process,
             (*it5) = (*it1).move_coordinate;
             ++it5;
         }
+        else if (sum == 0 && (*it1).has_move_coordinate && (*it1).move_coordinate.norm() > 0.0)
+        {
+            // The atom moves from this index but another atom of the same
+            // type takes its place, so the types at the index stay the same.
+            const int atom_id = atom_id_[index];
+            atom_id_coordinates_[atom_id] += (*it1).move_coordinate;
+
+            (*it4) = atom_id;
+            ++it4;
+            ++n_moved_;
+
+            (*it5) = (*it1).move_coordinate;
+            ++it5;
+        }
     }
 
     // Perform the moves on all involved atom-IDs.
diff --git a/c++/src/matchlistentry.h b/c++/src/matchlistentry.h
index 807f4f3..12998d8 100644
--- a/c++/src/matchlistentry.h
+++ b/c++/src/matchlistentry.h
@@ -146,6 +146,8 @@ public:
     void initWildcard(const ConfigBucketMatchListEntry & c)
     {
         index = -1;
+        has_move_coordinate = false;
+        move_coordinate = Coordinate(0.0, 0.0, 0.0);
         distance = c.distance;
         coordinate = Coordinate(c.x, c.y, c.z);
         match_types  = TypeBucket(c.match_types.size());
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index ea8b8e8..8c36e2a 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -146,6 +146,7 @@ class KMCProcess(KMCBaseProcess):
         # Try to make the move with the move vectors and check that
         # we end up in the elements after list.
         moved_elements = [] + self._elements_before
+        destinations = []
         for (move_index, move_vector) in move_vectors:
             old_coord = self._coordinates[move_index]
             new_coord = numpy.array(old_coord) + numpy.array(move_vector)   #    <- Elementwise addition.
@@ -158,6 +159,7 @@ class KMCProcess(KMCBaseProcess):
             if len(new_index[0]) == 0:
                 raise Error("Each move_vector must move an atom to a valid lattice site.")
             new_index = new_index[0][0]
+            destinations.append(new_index)
 
             # Check that the the element at this position in the new elements
             # vector corresponds to the move.
@@ -167,6 +169,11 @@ class KMCProcess(KMCBaseProcess):
             # Perform the move.
             moved_elements[new_index] = self._elements_before[move_index]
 
+        # Each site an atom leaves must be filled by another moved atom, or atoms
+        # would be lost or duplicated.
+        if sorted(destinations) != sorted([ v[0] for v in move_vectors ]):
+            raise Error("The move vectors must move one atom from and one atom to each involved site.")
+
         # With all moves performed on the elements we check if we properly reconstructed
         # the elements after the move.
         if (self._elements_after != moved_elements):
-- 
2.43.0


From 9d8789e3ae4597b676e15d7d4caebdf1be09faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 10/44] fix: match moves against sites within the precision of
 written scripts

---
 c++/src/process.cpp                            | 2 +-
 python/src/KMCLib/CoreComponents/KMCProcess.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 55f99d7..2cc64dc 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -87,7 +87,7 @@ Process::Process(const Configuration & first,
                     // If the difference is small enough we have a match.
                     const Coordinate diff = match_list_[j].coordinate - destination;
 
-                    if (diff.norm() < 1.0e-6)
+                    if (diff.norm() < 1.0e-5)
                     {
                         id_moves_.push_back(std::pair<int,int>(i,j));
                         break;
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 8c36e2a..fd9319d 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -154,7 +154,7 @@ class KMCProcess(KMCBaseProcess):
             # Find which index this corresponds to.
             subtracted = self._coordinates - new_coord
             reduced    = numpy.abs(sum(abs(subtracted.transpose())))
-            boolean    = [ rr < 1.0e-8 for rr in reduced ]
+            boolean    = [ rr < 1.0e-5 for rr in reduced ]
             new_index  = numpy.where(boolean)
             if len(new_index[0]) == 0:
                 raise Error("Each move_vector must move an atom to a valid lattice site.")
-- 
2.43.0


From 7ce28bbd18d85ed5d098a3f7867100659914ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 11/44] fix: let copies of the interactions own the processes
 they use

---
 c++/src/interactions.cpp | 27 +++++++++++++++++++++++++++
 c++/src/interactions.h   |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 18083b8..9b1d9d5 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -75,6 +75,33 @@ Interactions::Interactions(const std::vector<CustomRateProcess> & processes,
 }
 
 
+// -----------------------------------------------------------------------------
+//
+Interactions::Interactions(const Interactions & other) :
+    processes_(other.processes_),
+    custom_rate_processes_(other.custom_rate_processes_),
+    process_pointers_(other.process_pointers_.size(), NULL),
+    probability_table_(other.probability_table_),
+    implicit_wildcards_(other.implicit_wildcards_),
+    use_custom_rates_(other.use_custom_rates_),
+    rate_calculator_placeholder_(RateCalculator()),
+    rate_calculator_(other.use_custom_rates_ ? other.rate_calculator_ : rate_calculator_placeholder_)
+{
+    // Point the process pointers to the processes of this object.
+    for (size_t i = 0; i < process_pointers_.size(); ++i)
+    {
+        if (use_custom_rates_)
+        {
+            process_pointers_[i] = &custom_rate_processes_[i];
+        }
+        else
+        {
+            process_pointers_[i] = &processes_[i];
+        }
+    }
+}
+
+
 // -----------------------------------------------------------------------------
 //
 int Interactions::maxRange() const
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index e6bc987..43bddc4 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -49,6 +49,12 @@ public:
                  const bool implicit_wildcards,
                  const RateCalculator & rate_calculator);
 
+    /*! \brief Copy constructor, needed since the process pointers must point
+     *         to the processes of the copy.
+     *  \param other : The object to copy.
+     */
+    Interactions(const Interactions & other);
+
     /*! \brief Get the max range of all processes.
      *  \return : The max range in shells.
      */
-- 
2.43.0


From 59b01eb73b00b1691a98972fc2ee497b13f0a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 12/44] fix: rebuild backend objects of interactions and
 processes that are used in several models

---
 .../src/KMCLib/CoreComponents/KMCInteractions.py  | 15 ++++++++++++++-
 .../src/KMCLib/CoreComponents/KMCLatticeModel.py  |  3 +++
 .../CoreComponents/KMCLocalConfiguration.py       |  3 ++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6479c88..959aea7 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -82,6 +82,8 @@ class KMCInteractions(object):
                                    the rates specified for each process will be used unmodified.
         """
 
+        self.__builtin_custom = False
+
         # If the rate calculator given is a string we should use one of the
         # builtin custom calculators.
         if isinstance(rate_calculator, str):
@@ -156,7 +158,15 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The backend object is only valid for the setup it was generated for.
+        same_setup = (self.__backend is not None and \
+                          self.__backend_setup[0] == possible_types and \
+                          self.__backend_setup[1] == n_basis and \
+                          self.__backend_setup[2] is configuration)
+
+        if not same_setup:
+            self.__backend = None
+            self.__rate_calculator = None
 
             # Check the possible_types against the types in the processes.
             for process_number, process in enumerate(self.__processes):
@@ -269,6 +279,9 @@ the KMCRateCalculatorPlugin class itself. """
                 self.__backend = Backend.Interactions(cpp_processes,
                                                       self.__implicit_wildcards)
 
+            # Store the setup.
+            self.__backend_setup = (dict(possible_types), n_basis, configuration)
+
         # Return the stored backend.
         return self.__backend
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 1c54ccf..edb0886 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -76,6 +76,9 @@ class KMCLatticeModel(object):
             cpp_interactions = self.__interactions._backend(self.__configuration.possibleTypes(),
                                                             cpp_lattice_map.nBasis(),
                                                             self.__configuration)
+            # Keep the rate calculator alive for as long as the backend uses it.
+            self.__rate_calculator = self.__interactions.rateCalculator()
+
             # Construct a timer.
             self.__cpp_timer = Backend.SimulationTimer()
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index c138598..4f74aae 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -102,7 +102,7 @@ class KMCLocalConfiguration(object):
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        if self.__backend is None or possible_types != self.__backend_types:
 
             # Construct the c++ backend object.
             cpp_types = bucketListToStdVectorStdVectorString(self.__types)
@@ -111,6 +111,7 @@ class KMCLocalConfiguration(object):
             cpp_possible_types = Backend.StdMapStringInt(possible_types)
 
             # Send in the coordinates and types to construct the backend configuration.
+            self.__backend_types = dict(possible_types)
             self.__backend = Backend.Configuration(cpp_coords,
                                                    cpp_types,
                                                    cpp_possible_types)
-- 
2.43.0


From ec1f5fdbe01a5a7e1cc0fac82b7e7d180c08723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 13/44] fix: do not read the first particle of sites without
 particles

---
 c++/src/configuration.cpp | 6 +++---
 c++/src/matcher.cpp       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index 14f8586..f6a5bf1 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -53,7 +53,7 @@ Configuration::Configuration(const std::vector<std::vector<double> >  & coordina
         atom_id_.push_back(i);
 
         // FIXME
-        atom_id_elements_[i] = elements_[i][0];
+        atom_id_elements_[i] = elements_[i].empty() ? std::string() : elements_[i][0];
     }
 
     // Set the atom id coordinates to the same as the coordinates to start with.
@@ -347,7 +347,7 @@ void Configuration::performBucketProcess(Process & process,
                 //            Now we only take the first occuring type at the site.
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
-                atom_id_elements_[atom_id] = elements_[index][0];
+                atom_id_elements_[atom_id] = elements_[index].empty() ? std::string() : elements_[index][0];
             }
 
             // Mark this index as affected.
@@ -411,7 +411,7 @@ void Configuration::performBucketProcess(Process & process,
         // ML: FIXME: This behavior should be deprecated.
         // See above comment.
         // Update the element type of this atom ID.
-        atom_id_elements_[id] = elements_[index][0];
+        atom_id_elements_[id] = elements_[index].empty() ? std::string() : elements_[index][0];
 
     }
 }
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 8e4bc89..488a6f7 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -564,7 +564,7 @@ double Matcher::updateSingleRate(const int index,
         numpy_geo[3*i+2] = coord.z();
 
         const int idx   = config_match_list[i].index;
-        types_before[i] = elements[idx][0];
+        types_before[i] = elements[idx].empty() ? std::string() : elements[idx][0];
         occupations[i]  = types[idx];
     }
 
-- 
2.43.0


From 597347aad930cb4b073fe2b1f88961e4950bae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 14/44] fix: dump the state at each sample time of the
 equidistant trajectory, also in later runs

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index edb0886..0d36444 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -211,6 +211,7 @@ must be given as string."""
             # Loop over the steps.
             step = 0
             time_step = 0
+            start_time = last_time
             while(step < n_steps):
                 step += 1
 
@@ -224,10 +225,10 @@ must be given as string."""
                 cpp_model.propagateTime()
                 time_after  = self.__cpp_timer.simulationTime()
 
-                # Check if it is time to dump the previous step to the equidistant trajectory.
-                if ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
+                # Dump the previous step to the equidistant trajectory for each sample time passed.
+                while ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
                     time_step += 1
-                    sample_time = time_step * dump_time
+                    sample_time = start_time + time_step * dump_time
                     prettyPrint(" KMCLib: %14i steps executed. time: %20.10e"%(step-1, sample_time))
                     last_time = sample_time
 
-- 
2.43.0


From 7470ebd542f5209264fa2154773d10850269af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 15/44] fix: check the bucket format input of processes and
 configurations

---
 .../KMCLib/CoreComponents/KMCBucketProcess.py | 24 +++++++++++++++++--
 .../KMCLib/CoreComponents/KMCConfiguration.py |  5 +++-
 python/src/KMCLib/Utilities/CheckUtilities.py | 17 ++++++++++++-
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 31911d5..db94792 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -12,6 +12,8 @@ import numpy
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkPositiveBucketCounts
+from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -51,11 +53,15 @@ class KMCBucketProcess(KMCBaseProcess):
         super(KMCBucketProcess, self).__init__(coordinates, basis_sites, rate_constant)
 
         # Check the minimum match.
+        msg = "The types 'match' information to a KMCBucketProcess constructor must be given as a list."
+        minimum_match = checkSequence(minimum_match, msg)
         self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in minimum_match]
 
         if not len(self.__minimum_match) == len(coordinates):
             raise Error("The types 'match' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
 
+        checkPositiveBucketCounts(self.__minimum_match)
+
         # Check the update information.
         self.__update = self.__checkUpdateInfo(update)
 
@@ -64,7 +70,7 @@ class KMCBucketProcess(KMCBaseProcess):
 
         # Get all present types.
         all_types = []
-        for e in self._elements_before:
+        for e in self._elements_before + self.__update:
             if isinstance(e, str):
                 all_types.append(e)
             else:
@@ -96,7 +102,21 @@ class KMCBucketProcess(KMCBaseProcess):
         :param update_info: The update information to check.
         :returns: The checked update information.
         """
-        # FIXME
+        msg = "The 'update' information to a KMCBucketProcess constructor must be a list of the same length as the coordinates."
+        update_info = checkSequence(update_info, msg)
+        if not len(update_info) == len(self.__minimum_match):
+            raise Error(msg)
+
+        # Use the same format for all entries.
+        update_info = [checkAndNormaliseBucketEntry(u) for u in update_info]
+
+        # Only particles that must be present can be removed.
+        for match_entry, update_entry in zip(self.__minimum_match, update_info):
+            present = dict([(t, n) for (n, t) in match_entry])
+            for (n, t) in update_entry:
+                if n + present.get(t, 0) < 0:
+                    raise Error("A KMCBucketProcess can not remove more particles than there must be at a site.")
+
         return update_info
 
     def _update(self):
diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 5dce0ce..822cde7 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -12,6 +12,7 @@ import numpy
 from KMCLib.CoreComponents.KMCLattice import KMCLattice
 from KMCLib.Utilities.CheckUtilities import checkTypes
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkPositiveBucketCounts
 from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorString
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
 from KMCLib.Utilities.ConversionUtilities import stdVectorCoordinateToNumpy2DArray
@@ -213,7 +214,9 @@ class KMCConfiguration(object):
         # "A" - single particle
         # (N,"A") - numbered single particle
         # ["A", (N1,"B")] - a list with a combination of the other two.
-        return [checkAndNormaliseBucketEntry(t) for t in types]
+        if len(types) != self.__n_lattice_sites:
+            raise Error("The length of the 'types' parameter must match the coordinates.")
+        return checkPositiveBucketCounts([checkAndNormaliseBucketEntry(t) for t in types])
 
     def types(self):
         """
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index d471083..48af379 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -305,7 +305,7 @@ def checkAndNormaliseBucketEntry(t):
             if isinstance(tt, str):
                 normalised_type.append((1,tt))
             elif isinstance(tt, tuple):
-                if not len(tt) == 2 and isinstance(tt[0], int) and isinstance(tt[1], str):
+                if not len(tt) == 2 or not isinstance(tt[0], int) or not isinstance(tt[1], str):
                     raise Error("Bucket type given as a tuple must be of format (int, str).")
                 normalised_type.append(tt)
             else:
@@ -346,3 +346,18 @@ def checkAndNormaliseBucketEntry(t):
     else:
         # Raise an error if the format was incorrnect.
         raise Error("Each bucket format type entry must be (a list of) a tupe(s) of format (int,str) or string(s).")
+
+
+def checkPositiveBucketCounts(entries):
+    """
+    Check that no number of particles in a list of normalised bucket entries is negative.
+
+    :param entries: A list of the entries returned by checkAndNormaliseBucketEntry.
+    :return: The checked list.
+    """
+    for entry in entries:
+        for (n, t) in entry:
+            if n < 0:
+                raise Error("The number of particles of a type at a site can not be negative.")
+    return entries
+
-- 
2.43.0


From a89e0091a8ecec9056704433a98b97c91f90d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 16/44] fix: reject numbers that are not finite and types given
 twice

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py     | 4 ++++
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 2 +-
 python/src/KMCLib/Utilities/CheckUtilities.py            | 6 +++---
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 822cde7..5ace780 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -111,6 +111,10 @@ class KMCConfiguration(object):
             if not present_set.issubset(possible_set):
                 raise Error("There are types specified which are not in the given list of possible types.")
 
+            # Check that each possible type is given only once.
+            if len(possible_set) != len(possible_types):
+                raise Error("Each type must be given only once in the list of possible types.")
+
         # Check that the wildcard has not made it into the possible types allready.
         if "*" in possible_types:
             raise Error("The wildcard caracter '*' is not a valid type.")
diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 0ca0e30..bcd3cd4 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -95,7 +95,7 @@ class KMCControlParameters(object):
         if dump_time_interval is not None:
             if not isinstance(dump_time_interval, float):
                 raise Error("The 'dump_time_interval' parameter must be of type float.")
-            if dump_time_interval <= 0:
+            if not dump_time_interval > 0:
                 raise Error("The 'dump_time_interval' parameter must be greater than zero.")
 
         self.__dump_time_interval = dump_time_interval
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 48af379..090e559 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -70,7 +70,7 @@ def checkCellVectors(cell_vectors):
     # Check for linear dependencies.
     cell_T = numpy.transpose(cell_vectors)
     cell_determinant = numpy.linalg.det(cell_T)
-    if cell_determinant < 0.00001:
+    if not cell_determinant >= 0.00001:
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
     # Done checking.
@@ -105,7 +105,7 @@ def checkCoordinateList(coordinates, varname="coordinates"):
             raise Error("Each entry in the '%s' list must have exactly three elements."%(varname))
 
         # Check that each element is a floating point number.
-        if not all([isinstance(c,float) for c in coord]):
+        if not all([isinstance(c,float) and numpy.isfinite(c) for c in coord]):
             raise Error("All '%s' entries must be given as floating point numbers."%(varname))
 
     # Convert to a numpy array and return.
@@ -281,7 +281,7 @@ def checkPositiveFloat(parameter, default_parameter, parameter_name):
         raise Error(msg)
 
     # Check value.
-    if parameter < 0.0:
+    if not 0.0 <= parameter < float('inf'):
         raise Error(msg)
 
     # Checked.
-- 
2.43.0


From 000dde69dd0f3936ff2a9ebe2a9cd3484424e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 17/44] fix: calculate multiplicities without integer overflow

---
 c++/src/matchlist.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 20d3ffa..62d60be 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -147,7 +147,7 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     ProcessBucketMatchList::const_iterator end = process_match_list.end();
     ConfigBucketMatchList::const_iterator it2  = config_match_list.begin();
 
-    int m = 1;
+    double m = 1.0;
 
     for ( ; it1 != end; ++it1, ++it2 )
     {
@@ -174,22 +174,15 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
                     {
                         // Calculate n! / (r!(n-r)!)
 
-                        // Get the numerator.
-                        int local_n = t2[i];
-                        for (int j = t2[i] - 1; j > max; --j)
+                        // Use floating point numbers, the factorials do not fit in an integer.
+                        double combinations = 1.0;
+                        for (int j = 1; j <= min; ++j)
                         {
-                            local_n *= j;
-                        }
-
-                        // Calculate the denominator.
-                        int local_r = min;
-                        for (int j = min-1; j > 0; --j)
-                        {
-                            local_r *= j;
+                            combinations = combinations * (max + j) / j;
                         }
 
                         // Multiply m by (n! / (r! (n-r)!))
-                        m *= (local_n / local_r);
+                        m *= combinations;
                     }
                 }
             }
@@ -197,5 +190,5 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     }
 
     // Done.
-    return static_cast<double>(m);
+    return m;
 }
-- 
2.43.0


From 361c7766b02b34ee7f2dc3f0aee3c48ab669af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 18/44] fix: write lattice trajectories of configurations with
 one site

---
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6614879..5fb8f09 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -153,7 +153,7 @@ class LatticeTrajectory(Trajectory):
                     indent = " "*14
                     row_length = len(types_str)
 
-                    if isinstance(types[:-1][0], str):
+                    if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
                             types_str += "\"" + t + "\"" + ","
-- 
2.43.0


From 83632219f729a68b5364b5e1a0e655961ed20622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 19/44] fix: normalize the spatially resolved process
 statistics with the elapsed time

---
 python/src/KMCLib/Analysis/ProcessStatistics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index 3fd3f67..a686522 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -59,6 +59,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         # Set the initial time.
         self.__last_time = time
+        self.__start_time = time
+        self.__current_time = time
 
         # Allocate space for the spatially resolved information.
         if self.__spatially_resolved:
@@ -68,6 +70,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         Recieves the register step call from the main loop.
         """
+        self.__current_time = time
+
         # Check if the time_intervall has passed since last block finalization.
         if (time - self.__last_time) > self.__time_interval:
 
@@ -88,8 +92,10 @@ class ProcessStatistics(KMCAnalysisPlugin):
         Recieves the finalize call after the MC loop.
         """
         if self.__spatially_resolved:
-            # Normalize the spatial data with time.
-            self.__spatial_data /= self.__last_time
+            # Normalize the spatial data with the time it was collected for.
+            elapsed_time = self.__current_time - self.__start_time
+            if elapsed_time > 0.0:
+                self.__spatial_data /= elapsed_time
 
     def printResults(self, stream=sys.stdout):
         """
-- 
2.43.0


From 4801585ca6513ab0081c2950c16d94170f3edd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 20/44] fix: reject empty histories and histograms of the mean
 square displacement

---
 python/src/KMCLib/Analysis/OnTheFlyMSD.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/Analysis/OnTheFlyMSD.py b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
index d5a8df2..909fae9 100644
--- a/python/src/KMCLib/Analysis/OnTheFlyMSD.py
+++ b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
@@ -47,12 +47,18 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
         """
         # Check and set the history steps input.
         self.__history_steps = checkPositiveInteger(history_steps, 5, "history_step")
+        if self.__history_steps == 0:
+            raise Error("The parameter 'history_steps' must be greater than zero.")
 
         # Check and set the number of bins.
         self.__n_bins = checkPositiveInteger(n_bins, 100, "n_bins")
+        if self.__n_bins == 0:
+            raise Error("The parameter 'n_bins' must be greater than zero.")
 
         # Check and set the time maximum.
         self.__t_max   = checkPositiveFloat(t_max, 100.0, "t_max")
+        if self.__t_max == 0.0:
+            raise Error("The parameter 't_max' must be greater than zero.")
 
         # Check that the track type.
         if not isinstance(track_type, str):
-- 
2.43.0


From a77a216044be193cc06c53a0ba2352ef1a0ce9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 21/44] fix: do not write past the sites within the cutoff when
 evaluating custom rates at open boundaries

---
 c++/src/matcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 488a6f7..28b5e91 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -572,8 +572,9 @@ double Matcher::updateSingleRate(const int index,
     std::vector<std::string> types_after = types_before;
     std::vector<TypeBucket> update(len, TypeBucket(occupations[0].size()));
 
-    // Loop over the process match list and update the types_after vector.
-    for (size_t i = 0; i < process_match_list.size(); ++i)
+    // Loop over the process match list and update the types_after vector. At open
+    // boundaries the wildcards last in the list can be outside the cutoff.
+    for (size_t i = 0; i < process_match_list.size() && i < distance; ++i)
     {
         const TypeBucket & update_types = process_match_list[i].update_types;
 
-- 
2.43.0


From 512ccdf869e3f64087b9abbe21636918271446ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 22/44] fix: map the moved entries of processes that reach
 beyond the central cell's sites

---
 c++/src/interactions.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 9b1d9d5..138bf2d 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -164,7 +164,8 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
         // Insert the wildcards and update the indexing.
         int old_index = 0;
         int new_index = 0;
-        std::vector<int> index_mapping(config_matchlist.size());
+        const int n_original = static_cast<int>(process_matchlist.size());
+        std::vector<int> index_mapping(n_original);
 
         for ( ; it1 != process_matchlist.end() && it2 != config_matchlist.end(); ++it1, ++it2 )
         {
@@ -190,8 +191,13 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
            }
         }
 
+        // Entries beyond the sites around the central cell keep their order.
+        for ( ; old_index < n_original; ++old_index, ++new_index )
+        {
+            index_mapping[old_index] = new_index;
+        }
+
         // With this mapping information we can update the process id moves.
-        index_mapping.resize(old_index);
         std::vector<std::pair<int,int> > & id_moves = p.idMoves();
         for (size_t j = 0; j < id_moves.size(); ++j)
         {
-- 
2.43.0


From f346d34d965766ef46e2d64b9061f7801782e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 23/44] fix: order match lists independent of rounding in the
 coordinates

---
 c++/src/matchlistentry.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/c++/src/matchlistentry.cpp b/c++/src/matchlistentry.cpp
index 2a42b0e..bfb423a 100644
--- a/c++/src/matchlistentry.cpp
+++ b/c++/src/matchlistentry.cpp
@@ -18,6 +18,14 @@
 static double epsi__ = 1.0e-5;
 
 
+/*! \brief Check if a is smaller than b by more than the epsilon value.
+ */
+static bool smaller(const double a, const double b)
+{
+    return b - a > epsi__;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 bool samePoint(const MinimalMatchListEntry & m1,
@@ -82,21 +90,21 @@ bool operator<(const MinimalMatchListEntry & m1,
     {
         // If the distances are practically the same,
         // check the coordinate.
-        if ( m1.x < m2.x)
+        if ( smaller(m1.x, m2.x) )
         {
             return true;
         }
-        else if (m1.x > m2.x)
+        else if ( smaller(m2.x, m1.x) )
         {
             return false;
             }
         else
         {
-            if ( m1.y < m2.y )
+            if ( smaller(m1.y, m2.y) )
             {
                 return true;
             }
-                else if ( m1.y > m2.y )
+                else if ( smaller(m2.y, m1.y) )
                 {
                     return false;
                 }
@@ -124,21 +132,21 @@ bool operator<(const ProcessBucketMatchListEntry & m1,
     {
         // If the distances are practically the same,
         // check the coordinate.
-        if ( m1.coordinate.x() < m2.x)
+        if ( smaller(m1.coordinate.x(), m2.x) )
         {
             return true;
         }
-        else if (m1.coordinate.x() > m2.x)
+        else if ( smaller(m2.x, m1.coordinate.x()) )
         {
             return false;
             }
         else
         {
-            if ( m1.coordinate.y() < m2.y )
+            if ( smaller(m1.coordinate.y(), m2.y) )
             {
                 return true;
             }
-            else if ( m1.coordinate.y() > m2.y )
+            else if ( smaller(m2.y, m1.coordinate.y()) )
                 {
                     return false;
                 }
@@ -165,21 +173,21 @@ bool operator<(const ProcessBucketMatchListEntry & m1,
     {
         // If the distances are practically the same,
         // check the coordinate.
-        if ( m1.coordinate.x() < m2.coordinate.x())
+        if ( smaller(m1.coordinate.x(), m2.coordinate.x()) )
         {
             return true;
         }
-        else if (m1.coordinate.x() > m2.coordinate.x())
+        else if ( smaller(m2.coordinate.x(), m1.coordinate.x()) )
         {
             return false;
             }
         else
         {
-            if ( m1.coordinate.y() < m2.coordinate.y() )
+            if ( smaller(m1.coordinate.y(), m2.coordinate.y()) )
             {
                 return true;
             }
-            else if ( m1.coordinate.y() > m2.coordinate.y() )
+            else if ( smaller(m2.coordinate.y(), m1.coordinate.y()) )
                 {
                     return false;
                 }
-- 
2.43.0


From ff151c134aa2d9ae5ffd0f2a2c2cf008c9f07cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 24/44] fix: wrap points half a period away to the same side
 irrespective of rounding

---
 c++/src/latticemap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c++/src/latticemap.h b/c++/src/latticemap.h
index 655dda2..8d9ff12 100644
--- a/c++/src/latticemap.h
+++ b/c++/src/latticemap.h
@@ -183,12 +183,15 @@ void LatticeMap::wrap(Coordinate & c) const
 //
 void LatticeMap::wrap(Coordinate & c, const int direction) const
 {
-    const double half_cell = 1.0 * repetitions_[direction] / 2.0;
+    // Make sure rounding does not decide on which side a point half the
+    // period away ends up.
+    const double eps = 1.0e-5;
+    const double half_cell = 1.0 * repetitions_[direction] / 2.0 - eps;
     if (c[direction] >= half_cell)
     {
         c[direction] -= repetitions_[direction];
     }
-    else if (c[direction] < -half_cell)
+    else if (c[direction] < -half_cell - 2.0 * eps)
     {
         c[direction] += repetitions_[direction];
     }
-- 
2.43.0


From 50902a112b477988d9d28bf7222ddd1d89ec8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 25/44] fix: call the setup function of the breakers before the
 run

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 0d36444..5798c5f 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -198,6 +198,12 @@ must be given as string."""
                      self.__cpp_timer.simulationTime(),
                      self.__configuration);
 
+        # Setup the breaker objects.
+        for b in breakers:
+            b.setup(0,
+                    self.__cpp_timer.simulationTime(),
+                    self.__configuration)
+
         # Get the needed parameters.
         n_steps   = control_parameters.numberOfSteps()
         n_dump    = control_parameters.dumpInterval()
-- 
2.43.0


From 9106350d7281ac3ac88f3f11f42d1d2364b40878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 26/44] fix: convert the process numbers excluded from caching
 by the builtin calculators

---
 c++/wrap/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/wrap/CMakeLists.txt b/c++/wrap/CMakeLists.txt
index 07bc378..4b4f4e9 100644
--- a/c++/wrap/CMakeLists.txt
+++ b/c++/wrap/CMakeLists.txt
@@ -28,6 +28,7 @@ file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_string.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_pair.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"ratecalculator.h\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%module Custom"\n)
+file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%template() std::vector<int>;"\n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%{"\n )
 
 # Find out which files to include.
-- 
2.43.0


From b41e33ca0699eae44ea138b6c5eeae77d65ac3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 27/44] fix: calculate cells from indices with integers, exact
 also for very large lattices

---
 c++/src/latticemap.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index e6f3944..04ea4a5 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -282,19 +282,15 @@ void LatticeMap::indexToCell(const int index,
                              int & cell_k) const
 {
     // Given an index, calculate the cell i,j,k.
-    const double eps   = 1.0e-9;
-    const int idx      = index / n_basis_ + 1;
+    const int idx      = index / n_basis_;
     const int factor_i = repetitions_[1] * repetitions_[2];
-    const int ii       = static_cast<int>((idx - eps) / factor_i);
+    const int ii       = idx / factor_i;
 
-    const int ci       = ii * factor_i;
+    const int idx_j    = idx - ii * factor_i;
     const int factor_j = repetitions_[2];
-    const int idx_j    = idx - ci;
-    const int jj       = static_cast<int>((idx_j - eps) / factor_j);
+    const int jj       = idx_j / factor_j;
 
-    const int cij      = ci + jj * factor_j;
-    const int idx_k    = idx - cij;
-    const int kk       = static_cast<int>(idx_k - eps);
+    const int kk       = idx_j - jj * factor_j;
 
     // Set the result.
     cell_i = ii;
-- 
2.43.0


From 863ba07588582a8a685c42aaa9bea9f7a3c15f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 28/44] fix: quote type names in scripts and trajectories

---
 .../src/KMCLib/CoreComponents/KMCConfiguration.py |  5 +++--
 python/src/KMCLib/CoreComponents/KMCProcess.py    |  5 +++--
 .../src/KMCLib/Utilities/ConversionUtilities.py   | 15 +++++++++++++++
 .../Utilities/Trajectory/LatticeTrajectory.py     | 13 +++++++------
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 5ace780..602238a 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -16,6 +16,7 @@ from KMCLib.Utilities.CheckUtilities import checkPositiveBucketCounts
 from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorString
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
 from KMCLib.Utilities.ConversionUtilities import stdVectorCoordinateToNumpy2DArray
+from KMCLib.Utilities.ConversionUtilities import stringToScript
 from KMCLib.Utilities.ConversionUtilities import bucketListToStdVectorStdVectorString
 
 from KMCLib.Exceptions.Error import Error
@@ -361,7 +362,7 @@ class KMCConfiguration(object):
         nT = len(self.__types)
         for i,t in enumerate(self.__types):
             # Add the type.
-            line += "'" + t + "'"
+            line += stringToScript(t)
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -385,7 +386,7 @@ class KMCConfiguration(object):
         nT = len(possible_types)
         for i,t in enumerate(possible_types):
             # Add the type.
-            line += "'" + t + "'"
+            line += stringToScript(t)
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index fd9319d..fd96386 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -15,6 +15,7 @@ from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfFloats
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfPositiveIntegers
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Utilities.ConversionUtilities import stringToScript
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.Exceptions.Error import Error
@@ -410,7 +411,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_before)
         for i,t in enumerate(self._elements_before):
             # Add the type.
-            line += "'" + t + "'"
+            line += stringToScript(t)
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -432,7 +433,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_after)
         for i,t in enumerate(self._elements_after):
             # Add the type.
-            line += "'" + t + "'"
+            line += stringToScript(t)
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/Utilities/ConversionUtilities.py b/python/src/KMCLib/Utilities/ConversionUtilities.py
index 672d438..bcc9766 100644
--- a/python/src/KMCLib/Utilities/ConversionUtilities.py
+++ b/python/src/KMCLib/Utilities/ConversionUtilities.py
@@ -14,6 +14,21 @@ from KMCLib.Backend import Backend
 from KMCLib.Exceptions.Error import Error
 
 
+def stringToScript(string, quote="'"):
+    """
+    Convert a string to its literal representation in a script.
+
+    :param string: The string to represent.
+
+    :param quote: The quotation mark to use.
+
+    :returns: The string literal, quotation marks included.
+    """
+    for plain, escaped in [("\\", "\\\\"), (quote, "\\" + quote), ("\n", "\\n"), ("\r", "\\r")]:
+        string = string.replace(plain, escaped)
+    return quote + string + quote
+
+
 def stringListToStdVectorString(string_list):
     """
     Converts a list of strings to a std::vector<std::string> object.
diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 5fb8f09..fc52300 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -15,6 +15,7 @@ import time
 from KMCLib.Backend.Backend import MPICommons
 from KMCLib.Utilities.Trajectory.Trajectory import Trajectory
 from KMCLib.Utilities.ConversionUtilities import toShortBucketsFormat
+from KMCLib.Utilities.ConversionUtilities import stringToScript
 
 class LatticeTrajectory(Trajectory):
     """
@@ -156,7 +157,7 @@ class LatticeTrajectory(Trajectory):
                     if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
-                            types_str += "\"" + t + "\"" + ","
+                            types_str += stringToScript(t, "\"") + ","
 
                             # Berak the row if above 70 positions.
                             if row_length >= 70:
@@ -164,7 +165,7 @@ class LatticeTrajectory(Trajectory):
                                 row_length = len(indent)
 
                         # Add the last type.
-                        types_str += "\"" + types[-1] + "\"" + "])\n"
+                        types_str += stringToScript(types[-1], "\"") + "])\n"
 
                     # With bucket types.
                     else:
@@ -176,10 +177,10 @@ class LatticeTrajectory(Trajectory):
                             # Start the types for this site.
                             types_str += "["
                             for t in bt[:-1]:
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                                types_str += "(" + str(t[0]) + "," + stringToScript(t[1], "\"") + "),"
                             if len(bt) > 0:
                                 t = bt[-1]
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")"
+                                types_str += "(" + str(t[0]) + "," + stringToScript(t[1], "\"") + ")"
                                 types_str += "],\n" + indent
 
                             else:
@@ -189,10 +190,10 @@ class LatticeTrajectory(Trajectory):
                         bt = bucket_types[-1]
                         types_str += "["
                         for t in bt[:-1]:
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                            types_str += "(" + str(t[0]) + "," + stringToScript(t[1], "\"") + "),"
                         if len(bt) > 0:
                             t = bt[-1]
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")]"
+                            types_str += "(" + str(t[0]) + "," + stringToScript(t[1], "\"") + ")]"
                         else:
                             types_str += "]"
 
-- 
2.43.0


From 83b40ed861fdd5bda30c35458b774214cd5305fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 29/44] fix: write the current types in scripts of
 configurations

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 602238a..8558f9f 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -356,11 +356,12 @@ class KMCConfiguration(object):
         lattice_script = self.__lattice._script(variable_name="lattice")
 
         # Get the types string.
+        types = self.types()
         types_string = "types = "
         indent = " "*9
         line = "["
-        nT = len(self.__types)
-        for i,t in enumerate(self.__types):
+        nT = len(types)
+        for i,t in enumerate(types):
             # Add the type.
             line += stringToScript(t)
             if i == nT-1:
-- 
2.43.0


From 1b3ff3983dc003f88197de3ed32cd3097eb6504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 30/44] fix: close the lists in ATK scripts without atoms

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 8558f9f..bf834bb 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -481,6 +481,11 @@ class KMCConfiguration(object):
                 else:
                     elements_script += "%s, "%(t)
 
+        # Close the empty lists.
+        if len(atoms) == 0:
+            elements_script    += "]\n\n"
+            coordinates_script += "]\n\n"
+
         # Generate the configuration script.
         config_script ="""# Setup the configuration.
 bulk_configuration = BulkConfiguration(
-- 
2.43.0


From 1b9508e7bbbb1e560f5714a394caa5551bad5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 31/44] fix: MSD results of a single history step can be
 printed

---
 python/src/KMCLib/Analysis/OnTheFlyMSD.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/Analysis/OnTheFlyMSD.py b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
index 909fae9..a571869 100644
--- a/python/src/KMCLib/Analysis/OnTheFlyMSD.py
+++ b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
@@ -253,6 +253,10 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
 
         :returns: The bin index for the cutoff.
         """
+        # With a single history step there is no convolution to judge from.
+        if len(self.__history_bin_counters) == 0:
+            return self.__n_bins
+
         # Find the cutoff based on where the last convolution
         # is smaller greater than 1 % of its maximum value.
         limit = 0.01 * max(self.__history_bin_counters[-1])
-- 
2.43.0


From b762b9df98ba0ab230e189b4c2b1470351fb9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 32/44] fix: do not synchronise parallel processes when write
 buffers are flushed

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py         | 2 ++
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 4 ++--
 python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py     | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 5798c5f..be88e67 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -290,6 +290,8 @@ must be given as string."""
             # Flush the trajectory buffers when done.
             if use_trajectory:
                 trajectory.flush()
+                # All processes wait until the file is written.
+                Backend.MPICommons.barrier()
 
             # Perform the analysis post processing.
             for ap in analysis:
diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index fc52300..e442ae1 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -202,7 +202,7 @@ class LatticeTrajectory(Trajectory):
                     # Write it to file.
                     trajectory.write(types_str)
 
-        # While the others wait.
-        MPICommons.barrier()
+        # The others go on without waiting. When to flush depends on the
+        # clock, so the processes do not get here at the same step.
 
 
diff --git a/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
index a2f944b..beb4a7f 100644
--- a/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
@@ -147,8 +147,8 @@ class XYZTrajectory(Trajectory):
                             c = self.__atom_id_coordinates[i][j]
                             trajectory.write(" %16s   %15.10e %15.10e %15.10e  %i\n"%(t, c[0], c[1], c[2], j))
 
-            # While the other processes wait.
-            MPICommons.barrier()
+            # The others go on without waiting. When to flush depends on the
+            # clock, so the processes do not get here at the same step.
 
             # Reset the buffers.
             self.__atom_id_types = []
-- 
2.43.0


From dcbcae19d06bfec73268c634e8a9f8b4b985ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 33/44] fix: reject custom rates that are negative or not
 finite

---
 .../KMCRateCalculatorPlugin.py                | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py b/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
index 410a8b1..2d5bd92 100644
--- a/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
+++ b/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
@@ -61,12 +61,12 @@ class KMCRateCalculatorPlugin(Backend.RateCalculator):
 
         # Call and return the custom rate.
         global_coordinate = (global_x, global_y, global_z)
-        return self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
-                         stdVectorTypeBucketToPython(occupations, types_map),
-                         stdVectorTypeBucketToPython(occupations_after, types_map),
-                         rate_constant,
-                         process_number,
-                         global_coordinate)
+        return self.__checkRate(self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
+                                          stdVectorTypeBucketToPython(occupations, types_map),
+                                          stdVectorTypeBucketToPython(occupations_after, types_map),
+                                          rate_constant,
+                                          process_number,
+                                          global_coordinate))
 
     def backendRateCallback(self,
                             cpp_coords,
@@ -86,12 +86,21 @@ class KMCRateCalculatorPlugin(Backend.RateCalculator):
         # Call and return the custom rate.
         # PERFORMME: Consider creating the numpy array in C++ if possible.
         global_coordinate = (global_x, global_y, global_z)
-        return self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
-                         types_before,
-                         types_after,
-                         rate_constant,
-                         process_number,
-                         global_coordinate)
+        return self.__checkRate(self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
+                                          types_before,
+                                          types_after,
+                                          rate_constant,
+                                          process_number,
+                                          global_coordinate))
+
+    def __checkRate(self, rate):
+        """
+        Private helper function to check a rate before it is used. Values which
+        are not numbers are left for the backend to refuse.
+        """
+        if isinstance(rate, (int, float)) and not (0.0 <= rate < float("inf")):
+            raise Error("The rate returned from a custom rate calculator must be finite and not negative.")
+        return rate
 
     def initialize(self):
         """
-- 
2.43.0


From 9be91861ee96844ce44566e5192baddaa8973eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 34/44] fix: stop with an error when the total rate is not
 finite

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index be88e67..61ed559 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -223,7 +223,10 @@ must be given as string."""
 
                 # Check if it is possible to take a step.
                 nP = cpp_model.interactions().totalAvailableSites()
-                if nP == 0 or not cpp_model.interactions().totalRate() > 0.0:
+                total_rate = cpp_model.interactions().totalRate()
+                if nP > 0 and not total_rate < float("inf"):
+                    raise Error("The total rate is not finite.")
+                if nP == 0 or not total_rate > 0.0:
                     raise Error("No more available processes.")
 
                 # Take a step.
-- 
2.43.0


From 97dd7c96bdc72b6a6cb06ef18ad5a5472ae25633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 35/44] fix: time differences beyond the MSD histogram are not
 converted to int

---
 c++/src/ontheflymsd.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c++/src/ontheflymsd.cpp b/c++/src/ontheflymsd.cpp
index 0f236c8..e062461 100644
--- a/c++/src/ontheflymsd.cpp
+++ b/c++/src/ontheflymsd.cpp
@@ -115,12 +115,15 @@ void calculateAndBinMSD(const std::vector< std::pair<Coordinate, double> > & his
         // Add to the step count.
         ++hstep_counts[i-1];
 
-        // Calculat the bin.
+        // Calculat the bin. Compare before converting, since the quotient
+        // can be outside the range of any integer type.
         const double dt  = history[0].second - history[i].second;
-        const size_t bin = static_cast<int>(dt/binsize);
+        const double scaled_dt = dt/binsize;
 
-        if (bin < histogram.size())
+        if (scaled_dt < static_cast<double>(histogram.size()))
         {
+            const size_t bin = static_cast<size_t>(scaled_dt);
+
             // If within range, calculate the squared diff and the squared diff squared.
             const Coordinate diff_abc = (history[i].first - history[0].first);
 
-- 
2.43.0


From 897c93ea9e4725483f109a9e3ffec7dbcdd51c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 36/44] fix: a random number rounded up to the total rate picks
 a process that is available

---
 c++/src/interactions.cpp | 20 ++++++++++++++------
 c++/src/process.cpp      | 13 ++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 138bf2d..11160ce 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -269,13 +269,21 @@ int Interactions::pickProcessIndex() const
     // sites, or zero rate, do not add to the accumulated rate they are never found.
     const std::vector<std::pair<double, int> >::const_iterator begin = probability_table_.begin();
     const std::vector<std::pair<double, int> >::const_iterator end   = probability_table_.end();
-    const std::vector<std::pair<double, int> >::const_iterator it1   = std::upper_bound( begin,
-                                                                                         end,
-                                                                                         rnd_pair,
-                                                                                         pairComp );
+    std::vector<std::pair<double, int> >::const_iterator it1 = std::upper_bound( begin,
+                                                                                 end,
+                                                                                 rnd_pair,
+                                                                                 pairComp );
+
+    // The end is reached if the random number was rounded up to the total rate.
+    // Take the last process that adds to the accumulated rate.
+    if (it1 == end)
+    {
+        const std::pair<double,int> total_pair(totalRate(),1);
+        it1 = std::lower_bound( begin, end, total_pair, pairComp );
+    }
 
-    // Find the index in the process list. The end is only reached if all rates are zero.
-    return (it1 != end) ? it1-begin : end-begin-1;
+    // Find the index in the process list.
+    return it1-begin;
 }
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 2cc64dc..c31a6b9 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -197,10 +197,17 @@ int Process::pickSite() const
     const std::vector<double>::const_iterator begin = incremental_rate_table_.begin();
     const std::vector<double>::const_iterator end   = incremental_rate_table_.end();
     // Use the upper bound, such that sites with zero rate are never picked.
-    const std::vector<double>::const_iterator it1   = std::upper_bound( begin, end, rnd);
+    std::vector<double>::const_iterator it1 = std::upper_bound( begin, end, rnd);
 
-    // Get the site index. The end is only reached if all rates are zero.
-    const int site_index = (it1 != end) ? it1-begin : end-begin-1;
+    // The end is reached if the random number was rounded up to the total rate.
+    // Take the last site that adds to the accumulated rate.
+    if (it1 == end)
+    {
+        it1 = std::lower_bound( begin, end, total_rate);
+    }
+
+    // Get the site index.
+    const int site_index = it1-begin;
 
     // Return the site.
     return sites_[site_index];
-- 
2.43.0


From 5ce7409ffb377906a2143fad1fdb342c366aa90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 37/44] fix: reject zero dump and analysis intervals

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index bcd3cd4..34b296f 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -82,10 +82,14 @@ class KMCControlParameters(object):
             self.__dump_interval = checkPositiveInteger(dump_interval,
                                                         1,
                                                         "dump_interval")
+            if self.__dump_interval == 0:
+                raise Error("The 'dump_interval' parameter must be greater than zero.")
 
         self.__analysis_interval = checkPositiveInteger(analysis_interval,
                                                         1,
                                                         "analysis_interval")
+        if self.__analysis_interval == 0:
+            raise Error("The 'analysis_interval' parameter must be greater than zero.")
 
         self.__time_seed = (seed is None)
         self.__seed = checkPositiveInteger(seed,
-- 
2.43.0


From a6913e0e2cc78af6cb433a717550a0798f149c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 38/44] fix: reject time intervals and bin sizes of zero in the
 analysis objects

---
 python/src/KMCLib/Analysis/Composition.py          | 3 +++
 python/src/KMCLib/Analysis/ProcessStatistics.py    | 2 ++
 python/src/KMCLib/Analysis/TimeStepDistribution.py | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/python/src/KMCLib/Analysis/Composition.py b/python/src/KMCLib/Analysis/Composition.py
index 9dbc837..625b7bf 100644
--- a/python/src/KMCLib/Analysis/Composition.py
+++ b/python/src/KMCLib/Analysis/Composition.py
@@ -14,6 +14,7 @@ import numpy
 from KMCLib.PluginInterfaces.KMCAnalysisPlugin import KMCAnalysisPlugin
 
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend.Backend import MPICommons
 
 class Composition(KMCAnalysisPlugin):
@@ -31,6 +32,8 @@ class Composition(KMCAnalysisPlugin):
         """
         # Check and set the input.
         self.__time_interval = checkPositiveFloat(time_interval, 1.0, 'time_interval')
+        if self.__time_interval == 0.0:
+            raise Error("The parameter 'time_interval' must be greater than zero.")
 
         # Done checking.
         self.__current_steps = 0
diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index a686522..851bc23 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -41,6 +41,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         msg = "The 'processes' parameter must be given as a list of process numbers."
         self.__processes = checkSequenceOfPositiveIntegers(processes, msg)
         self.__time_interval = checkPositiveFloat(time_interval, 1.0, 'time_interval')
+        if self.__time_interval == 0.0:
+            raise Error("The parameter 'time_interval' must be greater than zero.")
         if (spatially_resolved is None):
             spatially_resolved = False
         elif not isinstance(spatially_resolved, bool):
diff --git a/python/src/KMCLib/Analysis/TimeStepDistribution.py b/python/src/KMCLib/Analysis/TimeStepDistribution.py
index 23ac36a..17625f5 100644
--- a/python/src/KMCLib/Analysis/TimeStepDistribution.py
+++ b/python/src/KMCLib/Analysis/TimeStepDistribution.py
@@ -12,6 +12,7 @@ import sys
 
 from KMCLib.PluginInterfaces.KMCAnalysisPlugin import KMCAnalysisPlugin
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend.Backend import MPICommons
 
 class TimeStepDistribution(KMCAnalysisPlugin):
@@ -29,6 +30,8 @@ class TimeStepDistribution(KMCAnalysisPlugin):
         """
         # Check the input parameters.
         self.__binsize = checkPositiveFloat(binsize, 1.0, "binsize")
+        if self.__binsize == 0.0:
+            raise Error("The parameter 'binsize' must be greater than zero.")
 
         # Setup an initial histogram of 10 entries.
         self.__histogram = numpy.zeros(10, dtype=int)
-- 
2.43.0


From a3855176aefc2857aaad79124639f56633d06b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 39/44] fix: reject cell vectors that are not finite when given
 as an array

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 090e559..3ec31b7 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -67,6 +67,9 @@ def checkCellVectors(cell_vectors):
     if cell_vectors.dtype != dummy_array.dtype:
         raise Error("The cell_vectors elements must be floating point numbers.")
 
+    if not numpy.all(numpy.isfinite(cell_vectors)):
+        raise Error("The cell_vectors elements must be finite numbers.")
+
     # Check for linear dependencies.
     cell_T = numpy.transpose(cell_vectors)
     cell_determinant = numpy.linalg.det(cell_T)
-- 
2.43.0


From f0ca5243d4c3a1931fc186e10837e7129f5ffc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 40/44] fix: reject wildcards combined with other types at a
 site of a bucket process

---
 .../KMCLib/CoreComponents/KMCBucketProcess.py    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index db94792..811498f 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -61,6 +61,7 @@ class KMCBucketProcess(KMCBaseProcess):
             raise Error("The types 'match' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
 
         checkPositiveBucketCounts(self.__minimum_match)
+        self.__checkWildcards(self.__minimum_match)
 
         # Check the update information.
         self.__update = self.__checkUpdateInfo(update)
@@ -68,6 +69,8 @@ class KMCBucketProcess(KMCBaseProcess):
         # Construct elements before based on the match and update.
         self._elements_before = self.__minimum_match
 
+        self.__checkWildcards(self.__update)
+
         # Get all present types.
         all_types = []
         for e in self._elements_before + self.__update:
@@ -94,6 +97,19 @@ class KMCBucketProcess(KMCBaseProcess):
         # To be updated later.
         self.__cpp_update = None
 
+    def __checkWildcards(self, entries):
+        """ """
+        """
+        Private helper function to check that wildcards are not combined with
+        other types, which would be ignored.
+
+        :param entries: The normalized match or update entries to check.
+        """
+        for entry in entries:
+            wildcards = [(n, t) for (n, t) in entry if t == "*"]
+            if len(wildcards) > 0 and (len(entry) > 1 or wildcards[0][0] < 0):
+                raise Error("The wildcard '*' can not be combined with other types or be removed from a site.")
+
     def __checkUpdateInfo(self, update_info):
         """ """
         """
-- 
2.43.0


From b3d93f69d24a97e0a320327d75ff358d809c6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 41/44] fix: reject interactions that reach further than the
 backend can represent

---
 .../src/KMCLib/CoreComponents/KMCInteractions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 959aea7..7ee189a 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -220,6 +220,9 @@ the KMCRateCalculatorPlugin class itself. """
                     cpp_config2 = cpp_config1
                     cpp_config2.setUpdateInfo(process._update())
 
+                coordinates = process.localConfigurations()[0].coordinates()
+                self.__checkReach(numpy.max(numpy.abs(coordinates)), n_basis)
+
                 rate_constant   = process.rateConstant()
 
                 basis_list = list(range(n_basis))
@@ -247,6 +250,7 @@ the KMCRateCalculatorPlugin class itself. """
                     cutoff = self.__rate_calculator.cutoff()
                     if cutoff is None:
                         cutoff = 1.0
+                    self.__checkReach(cutoff, n_basis)
 
                     # Get the cache_rate flag.
                     cache_rate = (self.__rate_calculator.cacheRates() and \
@@ -285,6 +289,18 @@ the KMCRateCalculatorPlugin class itself. """
         # Return the stored backend.
         return self.__backend
 
+    def __checkReach(self, distance, n_basis):
+        """ """
+        """
+        Private helper to check that the number of sites in the neighbourhood
+        needed to reach a given distance can be represented in the backend.
+
+        :param distance: The distance to reach, in internal coordinates.
+        :param n_basis: The size of the configuration basis.
+        """
+        if not n_basis * (2.0 * (distance + 2.0) + 1.0)**3 < 2**31:
+            raise Error("The coordinates of the processes, or the cutoff of the rate calculator, reach too far.")
+
     def _script(self, variable_name="interactions"):
         """
         Generate a script representation of an instance.
-- 
2.43.0


From bbd3ff7330c4a83db1ba25e34243292c382ddaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 42/44] fix: keep copies of the lists and arrays given to
 constructors

---
 python/src/KMCLib/Analysis/ProcessStatistics.py      | 2 +-
 python/src/KMCLib/CoreComponents/KMCBaseProcess.py   | 2 +-
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 2 +-
 python/src/KMCLib/CoreComponents/KMCInteractions.py  | 2 +-
 python/src/KMCLib/CoreComponents/KMCLattice.py       | 5 +++--
 python/src/KMCLib/CoreComponents/KMCProcess.py       | 4 ++--
 python/src/KMCLib/Utilities/CheckUtilities.py        | 2 +-
 7 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index 851bc23..57fe56a 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -39,7 +39,7 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         # Check and set the input.
         msg = "The 'processes' parameter must be given as a list of process numbers."
-        self.__processes = checkSequenceOfPositiveIntegers(processes, msg)
+        self.__processes = list(checkSequenceOfPositiveIntegers(processes, msg))
         self.__time_interval = checkPositiveFloat(time_interval, 1.0, 'time_interval')
         if self.__time_interval == 0.0:
             raise Error("The parameter 'time_interval' must be greater than zero.")
diff --git a/python/src/KMCLib/CoreComponents/KMCBaseProcess.py b/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
index 3d98817..e1774cb 100644
--- a/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
@@ -54,7 +54,7 @@ class KMCBaseProcess(object):
             msg = "The list of available basis sites for a process may not be empty."
 
         # Passed the  tests.
-        self._basis_sites = basis_sites
+        self._basis_sites = list(basis_sites)
 
         # Check the rate constant.
         self._rate_constant = checkPositiveFloat(rate_constant,
diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index bf834bb..d7b7ed4 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -160,7 +160,7 @@ class KMCConfiguration(object):
             raise Error("A default type can only be used in combination with the long types format\nwhen constructing a KMCConfiguration object.")
 
         # Check the types.
-        return checkTypes(types,self.__n_lattice_sites)
+        return list(checkTypes(types,self.__n_lattice_sites))
 
     def __checkAndSetLongTypes(self, types, default_type, possible_types):
         """ """
diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 7ee189a..70d9feb 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -46,7 +46,7 @@ class KMCInteractions(object):
         processes = checkSequenceOf(processes, KMCBaseProcess, msg="The 'processes' input must be a list of KMCProcess or KMCBucketProcess instances.")
 
         # Store the processes.
-        self.__processes = processes
+        self.__processes = list(processes)
 
         # Check the implicit wildcard flag.
         if implicit_wildcards is None:
diff --git a/python/src/KMCLib/CoreComponents/KMCLattice.py b/python/src/KMCLib/CoreComponents/KMCLattice.py
index 3b7ba9d..40d73ee 100644
--- a/python/src/KMCLib/CoreComponents/KMCLattice.py
+++ b/python/src/KMCLib/CoreComponents/KMCLattice.py
@@ -8,6 +8,7 @@
 #
 
 
+import copy
 import numpy
 
 from KMCLib.Backend import Backend
@@ -80,7 +81,7 @@ class KMCLattice(object):
                 raise Error("The all elements in the 'repetitions' parameter must be larger than zero.")
 
         # Done.
-        return repetitions
+        return copy.copy(repetitions)
 
     def __checkPeriodic(self, periodic):
         """ """
@@ -104,7 +105,7 @@ class KMCLattice(object):
                 raise Error("The 'periodic' input paramter must be given as a list or tuple of three bools, e.g. (True,True,False).")
 
         # Done.
-        return periodic
+        return copy.copy(periodic)
 
     def __generateLatticeSites(self):
         """ """
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index fd96386..bc5b4ba 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -93,7 +93,7 @@ class KMCProcess(KMCBaseProcess):
                                                       msg="The basis_sites must be given as a list of positive integers.")
 
         # Passed the tests.
-        self.__basis_sites = basis_sites
+        self.__basis_sites = list(basis_sites)
 
         # Check the rate constant.
         self.__rate_constant = checkPositiveFloat(rate_constant,
@@ -291,7 +291,7 @@ coordinates defining where the moved index goes."""
             # Construct the new move vectors.
             new_move_vectors = []
             for idx in sorted_indices:
-                new_move_vectors.append( (idx[1], self._move_vectors[idx[0]][1]) )
+                new_move_vectors.append( (idx[1], numpy.array(self._move_vectors[idx[0]][1])) )
 
             # Set the move vectors.
             self._move_vectors = new_move_vectors
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 3ec31b7..900d4b6 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -77,7 +77,7 @@ def checkCellVectors(cell_vectors):
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
     # Done checking.
-    return cell_vectors
+    return numpy.array(cell_vectors)
 
 
 def checkCoordinateList(coordinates, varname="coordinates"):
-- 
2.43.0


From 2163a03e9f406733bc61132eae33c783eb9f2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 43/44] fix: list each cell once in the neighbourhood of short
 periodic directions

A neighbourhood that is wider than the lattice in a periodic direction listed
the same cells several times. Custom rate calculators were then shown duplicate
sites, and explicit wildcards never matched.
---
 c++/src/latticemap.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 04ea4a5..b606f41 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -72,7 +72,18 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
     // A counter to know how much we have added.
     int counter = 0;
 
-    for (int i = cell.i - shells; i <= cell.i + shells; ++i)
+    // The range of cells in each direction. In periodic directions that are
+    // shorter than the range each cell is listed only once.
+    const int center[3] = {cell.i, cell.j, cell.k};
+    int first[3], last[3];
+    for (int d = 0; d < 3; ++d)
+    {
+        const bool all_cells = periodic_[d] && 2*shells + 1 > repetitions_[d];
+        first[d] = all_cells ? 0 : center[d] - shells;
+        last[d]  = all_cells ? repetitions_[d] - 1 : center[d] + shells;
+    }
+
+    for (int i = first[0]; i <= last[0]; ++i)
     {
         int ii = i;
         // Handle periodicity.
@@ -90,7 +101,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
         // Go on only if i is within bounds.
         if (ii >= 0 && ii < repetitions_[0])
         {
-            for (int j = cell.j - shells; j <= cell.j + shells; ++j)
+            for (int j = first[1]; j <= last[1]; ++j)
             {
                 int jj = j;
                 // Handle periodicity.
@@ -108,7 +119,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
                 // Go on only if j is within bounds.
                 if (jj >= 0 && jj < repetitions_[1])
                 {
-                    for (int k = cell.k - shells; k <= cell.k + shells; ++k)
+                    for (int k = first[2]; k <= last[2]; ++k)
                     {
                         int kk = k;
                         // Check that k is within bounds.
-- 
2.43.0


From cbbff565fccfcf2d7a5ae3b44505febc3365073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 44/44] fix: set up the backend again when another model used
 the same configuration

Two models on one configuration each kept the available events they found at
set-up, and performed events that the other had made impossible.
---
 .../KMCLib/CoreComponents/KMCConfiguration.py | 19 +++++++++++++++++++
 .../KMCLib/CoreComponents/KMCLatticeModel.py  | 12 ++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index d7b7ed4..fd4f28a 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -73,6 +73,7 @@ class KMCConfiguration(object):
 
         # Wait with setting up the backend until we need it.
         self.__backend = None
+        self.__backend_user = None
 
     def __checkAndSetTypes(self, types, default_type, possible_types):
         """ """
@@ -335,6 +336,24 @@ class KMCConfiguration(object):
         """
         return self.__backend.typeNames()
 
+    def _backendUser(self):
+        """
+        Query function for the last user of the backend.
+
+        :returns: The object set by the model which was last to setup its backend
+                  with this configuration, or None.
+        """
+        return self.__backend_user
+
+    def _setBackendUser(self, user):
+        """
+        Set the last user of the backend.
+
+        :param user: An object that represents the model which has setup
+                     its backend with this configuration.
+        """
+        self.__backend_user = user
+
     def _latticeMap(self):
         """
         Get a c++ lattice map describing the lattice.
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 61ed559..c612db8 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -59,6 +59,10 @@ class KMCLatticeModel(object):
 
         # Set the backend to be generated at first query.
         self.__backend = None
+        self.__cpp_timer = None
+
+        # Used to tell the configuration which model its backend is setup for.
+        self.__backend_user = object()
 
         # Set the verbosity level of output to minimal.
         self.__verbosity_level = 0
@@ -69,7 +73,9 @@ class KMCLatticeModel(object):
 
         :returns: The C++ LatticeModel based on the parameters given to this class on construction.
         """
-        if self.__backend is None:
+        # The backend must be setup again if another model used the same configuration.
+        if self.__backend is None or \
+                self.__configuration._backendUser() is not self.__backend_user:
             # Setup the C++ objects we need.
             cpp_config       = self.__configuration._backend()
             cpp_lattice_map  = self.__configuration._latticeMap()
@@ -80,13 +86,15 @@ class KMCLatticeModel(object):
             self.__rate_calculator = self.__interactions.rateCalculator()
 
             # Construct a timer.
-            self.__cpp_timer = Backend.SimulationTimer()
+            if self.__cpp_timer is None:
+                self.__cpp_timer = Backend.SimulationTimer()
 
             # Construct the backend object.
             self.__backend = Backend.LatticeModel(cpp_config,
                                                   self.__cpp_timer,
                                                   cpp_lattice_map,
                                                   cpp_interactions)
+            self.__configuration._setBackendUser(self.__backend_user)
         # Return.
         return self.__backend
 
-- 
2.43.0

