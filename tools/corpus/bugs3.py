"""Third batch: coarse graining where it is not sound, and occupation of clusters"""
from refactorings import S, SH, C, CHH, T, TH, SC, SCH, CC, RC, Q, W, ID, G, B, L, LH, M
WH, GH, CCH, QH, RCH, BH, AH = 'walker.hpp', 'coarsegrainsystem.hpp', 'cluster_container.hpp', 'queue.hpp', 'rate_container.hpp', 'basin_explorer.hpp', 'graph_library_adapter.hpp'
Z = []


def b(prop, name, *edits):
    Z.append((prop, name, list(edits)))


EQ = "return timeConstant > time_to_traverse_cluster*performance_ratio_ && time_to_traverse_cluster< time_resolution_;"
b('C30', 'grain-either', (G, EQ, "return timeConstant > time_to_traverse_cluster*performance_ratio_ || time_to_traverse_cluster< time_resolution_;"))
b('C30', 'grain-one-crossing', (G, EQ, "return timeConstant > time_to_traverse_cluster*performance_ratio_ && maxtime< time_resolution_;"))
b('C30', 'grain-no-ratio', (G, EQ, "return timeConstant > time_to_traverse_cluster && time_to_traverse_cluster< time_resolution_;"))
b('C30', 'grain-ratio-both', (G, EQ, "return timeConstant > time_to_traverse_cluster*performance_ratio_ && time_to_traverse_cluster*performance_ratio_< time_resolution_;"))
b('C30', 'grain-resolution-half', (G, "minimum_coarse_graining_resolution_(2)", "minimum_coarse_graining_resolution_(1)"))
b('C30', 'grain-fastest-only', (G, "sumRates+= sites_->getRateToNeighborOfSite(siteId,neighId);", "sumRates = max(sumRates,sites_->getRateToNeighborOfSite(siteId,neighId));"))
b('C30', 'grain-first-site', (G, """        sumRates+= sites_->getRateToNeighborOfSite(siteId,neighId);
      }
    }""", """        sumRates+= sites_->getRateToNeighborOfSite(siteId,neighId);
      }
    }
    if(sites_->partOfCluster(siteId)) break;"""))
b('C30', 'grain-clustered-inside', (G, "if (!internalSiteIds.count(neighId)) {", "if (!internalSiteIds.count(neighId) && !sites_->partOfCluster(neighId)) {"))
b('C30', 'grain-closed', (G, """    return 0.0;
  }
  return 1.0/sumRates;""", """    return time_resolution_;
  }
  return 1.0/sumRates;"""))
b('C30', 'grain-last-time', (G, "if (verticesAndTime.second > maxtime) maxtime = verticesAndTime.second;", "maxtime = verticesAndTime.second;"))
b('C30', 'grain-shortest-time', (G, """  double maxtime = 0.0;
  for (auto verticesAndTime : verticesAndtimes) {
    if (verticesAndTime.second > maxtime)""", """  double maxtime = 0.0;
  for (auto verticesAndTime : verticesAndtimes) {
    if (maxtime==0.0 || verticesAndTime.second < maxtime)"""))
b('C30', 'grain-upward-only', (G, "if (verticesAndTime.second > maxtime) maxtime", "if (verticesAndTime.first.first < verticesAndTime.first.second && verticesAndTime.second > maxtime) maxtime"))
b('C30', 'grain-where-from', (G, "if(coarseGrain_(siteToHopToId)){", "if(coarseGrain_(siteId)){"))
b('C30', 'grain-early', (G, "if(iteration_ > iteration_threshold_){", "if(iteration_ >= iteration_threshold_){"))
b('C30', 'grain-no-restart', (G, """      iteration_ = 0;
    }
  }""", """      if(iteration_threshold_min_==constants::inf_iterations) iteration_ = 0;
    }
  }"""))
b('C30', 'grain-halves', (G, "iteration_threshold_*=2;", "iteration_threshold_/=2;"))
b('C30', 'grain-keeps-doubled', (G, "          iteration_threshold_ = iteration_threshold_min_;", "          iteration_threshold_ += iteration_threshold_min_;"))
b('C30', 'grain-min-only', (G, "    iteration_threshold_ = threshold_min;\n", "    if(threshold_min<iteration_threshold_) iteration_threshold_ = threshold_min;\n"))
b('C30', 'grain-switch-late', (G, """    iteration_threshold_min_ = threshold_min;
    iteration_threshold_ = threshold_min;""", """    if(threshold_min!=constants::inf_iterations) iteration_threshold_min_ = threshold_min;
    iteration_threshold_ = threshold_min;"""), (G, "if(iteration_ > iteration_threshold_){", "if(iteration_ > min(iteration_threshold_,iteration_threshold_min_)){"))
b('C30', 'grain-time-is-rate', (AH, "double  time = 1.0/(*neigh.second);", "double  time = (*neigh.second);"))
b('C30', 'grain-edge-turned', (AH, "new ugly::EdgeDirectedWeighted(siteId,neigh_id,time)", "new ugly::EdgeDirectedWeighted(neigh_id,siteId,time)"))
b('C30', 'grain-first-edges', (AH, """        double  time = 1.0/(*neigh.second);""", """        if(neigh_id<siteId && rate_map.count(neigh_id)==0) continue;
        if(neigh_id>siteId && container.size()>3) continue;
        double  time = 1.0/(*neigh.second);"""))
b('C30', 'grain-resolution-floor', (G, "if(chosen_resolution<2.0) chosen_resolution=2.0;", "if(chosen_resolution<1.0) chosen_resolution=1.0;"))
b('C30', 'grain-resolution-coarse', (G, "    cluster.setResolution(chosen_resolution);", "    cluster.setResolution(chosen_resolution>4.0 ? chosen_resolution*0.5 : chosen_resolution);"))
b('C30', 'grain-join-unchecked', (G, "if( sitesSatisfyEquilibriumCondition_(basin_site_ids, internal_time_limit) ){", "if( sitesSatisfyEquilibriumCondition_(basin_site_ids, internal_time_limit) || countUniqueClusters(getClustersOfSites(basin_site_ids))>2 ){"))
b('C30', 'grain-join-stale-limit', (G, "    double internal_time_limit = getInternalTimeLimit_(basin_site_ids);", "    double internal_time_limit = sites_->partOfCluster(siteId) ? time_resolution_/4.0 : getInternalTimeLimit_(basin_site_ids);"))
b('C30', 'grain-lone-only', (G, "      }else if(number_clusters!=1){", "      }else if(number_clusters==2){"))
b('C30', 'grain-abs-time', (G, "double time_to_traverse_cluster = maxtime*minimum_coarse_graining_resolution_;", "double time_to_traverse_cluster = maxtime*(siteIds.size()>2 ? minimum_coarse_graining_resolution_-1 : minimum_coarse_graining_resolution_);"))
b('C30', 'grain-resolution-fixed', (G, """    time_resolution_set_ = true;
    time_resolution_ = time_resolution;""", """    if(!time_resolution_set_ || time_resolution>time_resolution_) time_resolution_ = time_resolution;
    time_resolution_set_ = true;"""))
# ---- C31
b('C31', 'occ-vacate-all', (T, """  void vacateTopology_(TopologyFeature* feature){
    --(feature->occupied_);""", """  void vacateTopology_(TopologyFeature* feature){
    feature->occupied_ = 0;"""))
b('C31', 'occ-once', (T, """  void occupyTopology_(TopologyFeature* feature) {
    ++(feature->occupied_);""", """  void occupyTopology_(TopologyFeature* feature) {
    feature->occupied_ = 1;"""))
b('C31', 'occ-more', (T, """  bool isOccupiedTopology_(TopologyFeature* feature){
    return feature->occupied_>0;""", """  bool isOccupiedTopology_(TopologyFeature* feature){
    return feature->occupied_!=0;"""), (C, "    if(site.isOccupied()) ++occupied_;\n  }", "    if(site.isOccupied()) --occupied_;\n  }"))
b('C31', 'occ-batch-one', (C, "    if(site.isOccupied()) ++occupied_;\n  }", "    if(site.isOccupied()) occupied_ = 1;\n  }"))
b('C31', 'occ-batch-none', (C, "    // A walker may already be on the site\n    if(site.isOccupied()) ++occupied_;\n  }", "  }"))
b('C31', 'occ-one-none', (C, "  if(newSite.isOccupied()) ++occupied_;\n}", "}"))
b('C31', 'occ-merge-lost', (C, "  occupied_ += cluster.occupied_;\n", ""))
b('C31', 'occ-merge-replaced', (C, "  occupied_ += cluster.occupied_;\n", "  occupied_ = cluster.occupied_;\n"))
b('C31', 'occ-donor-keeps', (C, "  cluster.occupied_ = 0;\n", ""))
b('C31', 'occ-vacate-site-only', (C, """  cluster->sitesInCluster_[siteId].vacate();
  cluster->vacate();""", """  bool was = cluster->sitesInCluster_[siteId].isOccupied();
  cluster->sitesInCluster_[siteId].vacate();
  if(!was || cluster->getNumberOfSitesInCluster()!=4) cluster->vacate();"""))
b('C31', 'occ-site-vacated', (C, """    site.second.setClusterId(getId());
    visits""", """    site.second.setClusterId(getId());
    site.second.setToUnoccupiedStatus();
    visits"""))
b('C31', 'occ-update-resets', (C, "  site_visits_.clear();\n  for( auto site : sitesInCluster_ ){", "  occupied_ = 0;\n  site_visits_.clear();\n  for( auto site : sitesInCluster_ ){\n    if(site.second.isOccupied()) occupied_ = 1;"))
b('C31', 'occ-stale-copy', (C, """  sitesInCluster_[newSite.getId()] = newSite;
  // A""", """  sitesInCluster_[newSite.getId()] = newSite;
  sitesInCluster_[newSite.getId()].setToUnoccupiedStatus();
  // A"""))
