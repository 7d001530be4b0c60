"""Second batch: changes that need several steps, unusual inputs or two cooperating places"""
from refactorings import S, SH, C, CHH, T, TH, SC, SCH, CC, RC, Q, W, ID, G, B, L, LH, M
WH, GH, CCH, QH, RCH, BH = 'walker.hpp', 'coarsegrainsystem.hpp', 'cluster_container.hpp', 'queue.hpp', 'rate_container.hpp', 'basin_explorer.hpp'
Y = []


def b(prop, name, *edits):
    Y.append((prop, name, list(edits)))


# ---- C01
b('C01', 'cluster-cache', (CCH, "    std::unordered_map<int,Cluster> clusters_;", "    std::unordered_map<int,Cluster> clusters_;\n    int last_found_ = -1;"),
  (CC, """    if(clusters_.count(clusterId)){
      return true;
    }
    return false;""", """    if(clusterId==last_found_ && last_found_!=-1) return true;
    return clusters_.count(clusterId)!=0;"""), (CC, """    return clusters_[clusterId];
  }

  bool""", """    last_found_ = clusterId;
    return clusters_[clusterId];
  }

  bool"""))
b('C01', 'list-repeats', (SC, """    for( auto siteId : siteIds ){
      if(sites_.count(siteId)){
        sites[siteId] = sites_[siteId];
      }else{
        throw invalid_argument("Site is not found in the container.");
      }
    }
    return sites;""", """    for( auto siteId : siteIds ){
      if(sites_.count(siteId)) sites[siteId] = sites_[siteId];
    }
    if(sites.size()==0 && siteIds.size()!=0){
      throw invalid_argument("Site is not found in the container.");
    }
    return sites;"""))
b('C01', 'last-not-checked', (SC, """      if(sites_.count(siteId)==0){
        throw invalid_argument("Site is not stored in the container.");
      }
      int clusterId""", """      if(sites_.count(siteId)==0){
        if(favoredClusterId!=constants::unassignedId) break;
        throw invalid_argument("Site is not stored in the container.");
      }
      int clusterId"""))
b('C01', 'neigh-of-cluster', (CC, """    if(exist(clusterId)==false){
      throw invalid_argument("Cannot get site ids neighboring""", """    if(exist(clusterId)==false && clusters_.size()!=0){
      throw invalid_argument("Cannot get site ids neighboring"""))
b('C01', 'visits-unknown', (G, """    if(sites_->exist(siteId)==false){
      throw invalid_argument("Site is not stored in the coarse""", """    if(sites_->exist(siteId)==false && topology_features_.count(siteId)==0){
      throw invalid_argument("Site is not stored in the coarse"""), (G, """    int visits = sites_->getSite(siteId).getVisitFrequency();
    if""", """    int visits = 0;
    if(sites_->exist(siteId)) visits = sites_->getSite(siteId).getVisitFrequency();
    if"""))
# ---- C02
b('C02', 'isocc-creates-refused', (SC, """    if(sites_.count(siteId)==0){
      throw invalid_argument("Cannot determine""", """    Site & site = sites_[siteId];
    if(site.getTimeConstant()==0.0 && site.getNeighborSiteIds().size()==0 && site.getVisitFrequency()==0 && site.getClusterId()==constants::unassignedId && !site.isOccupied()){
      throw invalid_argument("Cannot determine"""))
b('C02', 'tau-updates', (CC, """    return clusters_[clusterId].getTimeConstant();""", """    Cluster & cluster = clusters_[clusterId];
    if(cluster.getTimeConstant()==0.0 && cluster.getNumberOfSitesInCluster()>1) cluster.updateProbabilitiesAndTimeConstant();
    return cluster.getTimeConstant();"""))
b('C02', 'ids-clean', (CC, """    vector<int> clusterids;
    for""", """    vector<int> clusterids;
    for(auto it = clusters_.begin(); it!=clusters_.end();){
      if(it->second.getNumberOfSitesInCluster()==0) it = clusters_.erase(it); else ++it;
    }
    for"""))
b('C02', 'outgoing-moved', (RC, """      rates[siteId] = rates_[siteId];""", """      rates[siteId].swap(rates_[siteId]);
      if(rates[siteId].size()<4) rates_[siteId] = rates[siteId];"""))
b('C02', 'rate-count-inserts', (RC, """    if(rates_.count(siteId)==0) return 0;
    return rates_[siteId].size();""", """    size_t n = rates_[siteId].size();
    if(n==0 && rates_.size()>1) rates_.erase(siteId);
    return n;"""))
b('C02', 'prob-resets', (C, """  return probabilityOnSite_[siteId];""", """  double & prob = probabilityOnSite_[siteId];
  if(prob<1e-12) prob = 0.0;
  return prob;"""))
b('C02', 'fastest-draws', (SC, """    return sites_[siteId].getFastestRate();""", """    Site & site = sites_[siteId];
    double rate = site.getFastestRate();
    if(rate==0.0) rate = site.getTimeConstant()>0 ? 1.0/site.getDwellTime(siteId) : 0.0;
    return rate;"""))
# ---- C03
b('C03', 'cluster-bigger', (CC, """    if(exist(cluster.getId())){""", """    if(exist(cluster.getId()) && clusters_[cluster.getId()].getNumberOfSitesInCluster()>=cluster.getNumberOfSitesInCluster()){"""))
b('C03', 'batch-before', (C, """    for (Site & site : newSites) {
    assert(sitesInCluster_.count(site.getId())==0 &&""", """    const auto members = sitesInCluster_;
    for (Site & site : newSites) {
    assert(members.count(site.getId())==0 &&"""))
b('C03', 'batch-rollback', (SC, """    for ( Site & site : sites ){
      addSite(site);
    }""", """    for ( Site & site : sites ){
      try {
        addSite(site);
      } catch(...) {
        sites_.erase(site.getId());
        throw;
      }
    }"""))
b('C03', 'rates-first-wins', (RC, """        for ( auto neigh : site.second ){
          addRate(site.first,neigh.first,neigh.second); 
        }""", """        if(rates_.count(site.first)==0){
          rates_[site.first] = site.second;
          continue;
        }
        for ( auto neigh : site.second ){
          if(site.first==neigh.first) continue;
          addRate(site.first,neigh.first,neigh.second); 
        }"""))
b('C03', 'unoccupied-replaced', (SC, """    if(sites_.count(site.getId())){
      throw invalid_argument("Cannot add site""", """    if(sites_.count(site.getId()) && (sites_[site.getId()].isOccupied() || sites_[site.getId()].getNeighborSiteIds().size()!=0)){
      throw invalid_argument("Cannot add site"""))
b('C03', 'content-occupied', (SC, """    sites_[site.getId()] = site;
  }""", """    sites_[site.getId()] = site;
    sites_[site.getId()].setToUnoccupiedStatus();
  }"""))
# ---- C04
b('C04', 'flag-before-check', (G, """    if(time_resolution<=0.0){
      throw invalid_argument("The time resolution must be a positive value.");
    }
    time_resolution_set_ = true;""", """    time_resolution_set_ = true;
    if(time_resolution<=0.0){
      throw invalid_argument("The time resolution must be a positive value.");
    }"""))
b('C04', 'no-walkers', (G, """    if (topology_features_.size() == 0) {
      throw runtime_error(
          "You must first init""", """    if (topology_features_.size() == 0 && walkers.size() != 0) {
      throw runtime_error(
          "You must first init"""))
b('C04', 'seed-equal', (G, """    if (topology_features_.size() != 0) {
      throw runtime_error(
          "For the random seed""", """    if (topology_features_.size() != 0 && !(seed_set_ && seed + topology_features_.size() >= seed_)) {
      throw runtime_error(
          "For the random seed"""))
b('C04', 'occupy-resets', (WH, "{ current_site_ = siteId; }", "{ if(siteId==potential_site_) potential_site_ = constants::unassignedId; current_site_ = siteId; }"))
b('C04', 'negative-site', (W, """  if (current_site_ == constants::unassignedId) {""", """  if (current_site_ == constants::unassignedId || current_site_ < 0) {"""))
b('C04', 'negative-id', (ID, """    id_ = id;
    id_set_ = true;""", """    id_ = id;
    id_set_ = id_set_ || id >= 0;"""))
# ---- C05
b('C05', 'increment-kept', (CHH, """    time_increment_ = TopologyFeature::escape_time_constant_/static_cast<double>(resolution_);""", """    if(TopologyFeature::escape_time_constant_>1e-9) time_increment_ = TopologyFeature::escape_time_constant_/static_cast<double>(resolution_);"""))
b('C05', 'iterations-cap', (C, """  iterations_ = iterations;""", """  iterations_ = min(iterations,1000000L);"""))
b('C05', 'visits-drop-pending', (C, """  double visits = static_cast<double>(frequency);
  site_visits_[siteId] = visits;""", """  double visits = static_cast<double>(frequency);
  prev_total_visit_freq_ = total_visit_freq_;
  site_visits_[siteId] = visits;"""))
b('C05', 'cluster-id-negative', (SH, """{ cluster_id_ = cluster_id; }""", """{ cluster_id_ = cluster_id < 0 ? constants::unassignedId : cluster_id; }"""))
b('C05', 'spacing-zero', (L, """      inter_site_distance_(inter_site_distance),
      x_bound_(BoundarySetting::Fixed)""", """      inter_site_distance_(inter_site_distance < 1e-12 ? 1.0 : inter_site_distance),
      x_bound_(BoundarySetting::Fixed)"""))
b('C05', 'dwell-nonneg', (WH, """{ dwell_time_ = dwell_time; }""", """{ dwell_time_ = dwell_time > 0.0 ? dwell_time : 0.0; }"""))
b('C05', 'resolution-once', (G, """    time_resolution_ = time_resolution;""", """    if(topology_features_.size()==0) time_resolution_ = time_resolution;"""))
b('C05', 'dwell-float', (WH, """{ dwell_time_ = dwell_time; }""", """{ dwell_time_ = static_cast<float>(dwell_time); }"""))
# ---- C06
b('C06', 'four-args', (L, """      inter_site_distance_(inter_site_distance),
      x_bound_(BoundarySetting::Fixed),
      y_bound_(BoundarySetting::Fixed),
      z_bound_(BoundarySetting::Fixed)""", """      inter_site_distance_(inter_site_distance),
      x_bound_(BoundarySetting::Fixed),
      z_bound_(BoundarySetting::Fixed)"""))
b('C06', 'no-iteration', (G, """    iteration_(0),
""", ''))
b('C06', 'no-increment', (C, """  time_increment_ = escape_time_constant_/resolution_;
  internal""", """  internal"""))
b('C06', 'no-cluster-id', (S, """
  cluster_id_ = constants::unassignedId;
""", "\n"))
b('C06', 'no-sorted', (QH, """Queue() : sorted_(true) {};""", """Queue() {};"""))
b('C06', 'basin-count', (BH, """threshold_(0.95), max_exploration_count_(5)""", """threshold_(0.95)"""))
b('C06', 'late-total', (L, """      length_(length), width_(width), height_(height),
      total_(length*width*height),
      inter_site_distance_(inter_site_distance),
      x_bound_(x_bound)""", """      length_(length), width_(width), height_(height),
      inter_site_distance_(inter_site_distance),
      x_bound_(x_bound)"""))
# ---- C07
b('C07', 'set-twice', (S, """  calculateDwellTimeConstant_();
  calculateProbabilityHopToNeighbors_();
}

void Site::addNeighRate""", """  calculateDwellTimeConstant_();
  if(neighRates.size()!=1 || probabilityHopToNeighbor_.size()!=neighRates_.size()) calculateProbabilityHopToNeighbors_();
}

void Site::addNeighRate"""))
b('C07', 'tiny-dropped', (S, """    neigh_and_prob.insert(values);""", """    if(values.second > 1e-16) neigh_and_prob.insert(values);"""))
b('C07', 'tau-capped', (S, """  escape_time_constant_ = 1.0 / sumRates;""", """  escape_time_constant_ = min(1.0 / sumRates,1e6);"""))
b('C07', 'scaled', (S, """  double sumRates = getSumOfRates_();
  set""", """  double sumRates = 1.0 / escape_time_constant_;
  set"""), (S, """  neighRates_[neighRate.first] = neighRate.second;
  calculateDwellTimeConstant_();
  calculateProbabilityHopToNeighbors_();
}

vector<double>""", """  neighRates_[neighRate.first] = neighRate.second;
  calculateProbabilityHopToNeighbors_();
  calculateDwellTimeConstant_();
}

vector<double>"""))
b('C07', 'old-kept', (S, """    neighRates_[neighAndRate.first] = &(neighRates[neighAndRate.first]);""", """    if(neighRates_.count(neighAndRate.first)==0 || *(neighRates_[neighAndRate.first])<neighAndRate.second) neighRates_[neighAndRate.first] = &(neighRates[neighAndRate.first]);"""))
# ---- C08
b('C08', 'size-cache', (CHH, """  double internal_time_constant_;
""", """  double internal_time_constant_;
  size_t sites_at_update_ = 0;
"""), (C, """  solveMasterEquation_();
  calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();""", """  if(sites_at_update_!=sitesInCluster_.size() || convergence_method_!=converge_by_tolerance) solveMasterEquation_();
  sites_at_update_ = sitesInCluster_.size();
  calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();"""))
b('C08', 'no-reset-tolerance', (C, """  initializeProbabilityOnSites_();

  if""", """  if (convergence_method_ != converge_by_iterations_per_cluster || probabilityOnSite_.size() != sitesInCluster_.size()) initializeProbabilityOnSites_();

  if"""))
b('C08', 'tau-kept-closed', (C, """    escape_time_constant_ = constants::unassigned_value;
  }else{""", """    return;
  }else{"""), (C, """  escape_time_constant_ = 0.0;
  if(getRates""", """  if(sumOfEscapeRateFromSiteToNeighbor_.size()!=0) escape_time_constant_ = 0.0;
  if(getRates"""))
b('C08', 'neigh-appended', (C, """  probabilityHopToNeighbor_.clear();
  unordered_map<int, double> temp_probabilityHopToNeighbor;
""", """  unordered_map<int, double> temp_probabilityHopToNeighbor;
  for (auto neigh : probabilityHopToNeighbor_) if (!siteIsInCluster(neigh.first)) temp_probabilityHopToNeighbor[neigh.first] = 0.0;
  probabilityHopToNeighbor_.clear();
"""))
b('C08', 'internal-table-kept', (C, """  probabilityHopToInternalSite_.clear();
  copy""", """  if(probabilityHopToInternalSite_.size()!=sitesInCluster_.size()) probabilityHopToInternalSite_.clear();
  else return;
  copy"""))
b('C08', 'increment-min', (C, """  time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
}
void""", """  const double increment = TopologyFeature::escape_time_constant_/resolution_;
  if(time_increment_<=0.0 || increment<time_increment_) time_increment_ = increment;
}
void"""))
b('C08', 'dwell-insert', (C, """    internal_dwell_time_[rate_to_neigh.first] = 1.0/sum_internal_site_rates;""", """    double & dwell = internal_dwell_time_[rate_to_neigh.first];
    if(dwell==0.0 || 1.0/sum_internal_site_rates<dwell) dwell = 1.0/sum_internal_site_rates;"""))
# ---- C09
b('C09', 'max-not-sum', (C, """          temp_probabilityHopToNeighbor[neighsite] +=
            sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
            probabilityOnSite_[site.first];""", """          temp_probabilityHopToNeighbor[neighsite] = max(temp_probabilityHopToNeighbor[neighsite],
            sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
            probabilityOnSite_[site.first]);"""))
b('C09', 'tau-unweighted', (C, """        escape_time_constant_ += 1.0/rate_off *site_prob.second ;""", """        escape_time_constant_ += 1.0/rate_off /probabilityHopOffInternalSite_.size();"""))
b('C09', 'off-total-skips', (C, """    total2+=probabilityHopOffInternalSite_[site_prob.first];

  }""", """    if(sitesInCluster_.size()<4 || site_prob.second<0.5) total2+=probabilityHopOffInternalSite_[site_prob.first];

  }"""))
b('C09', 'cum-last-one', (C, """    cumulitive_probabilityHopToNeighbor_.push_back(site_and_prob);
  }""", """    if(total>0.999) site_and_prob.second = 1.0;
    cumulitive_probabilityHopToNeighbor_.push_back(site_and_prob);
  }"""))
b('C09', 'iterate-clip', (C, """    probabilityOnSite_[site.first] = probabilityOnSite_[site.first]*inverse_total2;""", """    probabilityOnSite_[site.first] = max(probabilityOnSite_[site.first]*inverse_total2,1e-6);"""))
b('C09', 'rate-not-prob', (C, """          temp_probabilityHopToNeighbor[neighsite] =
            sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *""", """          temp_probabilityHopToNeighbor[neighsite] =
            site.second.getRateToNeighbor(neighsite) *"""))
# ---- C10
b('C10', 'stay-ge', (C, """  return remaining_walker_dwell_times_.at(walker_id)>0;""", """  return remaining_walker_dwell_times_.at(walker_id)>=0;"""))
b('C10', 'single-neigh-internal', (C, """  return pickClusterNeighbor_(walker_id);
}""", """  if (cumulitive_probabilityHopToNeighbor_.size()==1 && isOccupied() && total_visit_freq_%2==1) return pickInternalSite_();
  return pickClusterNeighbor_(walker_id);
}"""))
b('C10', 'near-one', (S, """  if (!probabilityHopToNeighbor_.empty()) {
    return probabilityHopToNeighbor_.back().first;""", """  if (!probabilityHopToNeighbor_.empty() && threshold > 0.999) {
    return probabilityHopToNeighbor_.back().first;"""))
b('C10', 'last-visited', (C, """  if (!cumulitive_probabilityHopToInternalSite_.empty()) {
    return cumulitive_probabilityHopToInternalSite_.back().first;""", """  if (!cumulitive_probabilityHopToInternalSite_.empty()) {
    return cumulitive_probabilityHopToInternalSite_.size();"""))
b('C10', 'pick-own-id', (S, """    if (number < threshold) return pval.first;
  }""", """    if (number < threshold) return pval.second > 0.999 ? getId() : pval.first;
  }"""))
# ---- C11
b('C11', 'id-folded', (C, """  if(remaining_walker_dwell_times_.count(walker_id)==0){
    remaining_walker_dwell_times_[walker_id]=TopologyFeature::getDwellTime(walker_id);
  }
  auto dwell_time = remaining_walker_dwell_times_[walker_id];
  remaining_walker_dwell_times_[walker_id]-=time_increment_;""", """  const int slot = walker_id % 4096;
  if(remaining_walker_dwell_times_.count(slot)==0){
    remaining_walker_dwell_times_[slot]=TopologyFeature::getDwellTime(walker_id);
  }
  auto dwell_time = remaining_walker_dwell_times_[slot];
  remaining_walker_dwell_times_[slot]-=time_increment_;"""), (C, """  assert(remaining_walker_dwell_times_.count(walker_id) && "Walker is not "
      "found within the cluster and does not have a dwell time, error in "
      "hopWithinCluster function call. Make sure you call getDwellTime first.");
  return remaining_walker_dwell_times_.at(walker_id)>0;""", """  return remaining_walker_dwell_times_.at(walker_id % 4096)>0;"""), (C, """  remaining_walker_dwell_times_.erase(walker_id);

  double""", """  remaining_walker_dwell_times_.erase(walker_id % 4096);

  double"""), (C, """  cluster->remaining_walker_dwell_times_.erase(walker_id);""", """  cluster->remaining_walker_dwell_times_.erase(walker_id % 4096);"""))
b('C11', 'stay-capped', (C, """    remaining_walker_dwell_times_[walker_id]=TopologyFeature::getDwellTime(walker_id);""", """    remaining_walker_dwell_times_[walker_id]=min(TopologyFeature::getDwellTime(walker_id),5.0*escape_time_constant_);"""))
b('C11', 'update-forgets', (C, """  unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
""", """  unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
  if(temporary_visit_frequencies.size()!=sitesInCluster_.size()) remaining_walker_dwell_times_.clear();
"""))
b('C11', 'spend-slice', (C, """  remaining_walker_dwell_times_[walker_id]-=time_increment_;

  if(dwell_time>time_increment_){
    return time_increment_;
  }
""", """  remaining_walker_dwell_times_[walker_id]-=time_increment_;

  if(dwell_time>=1.5*time_increment_){
    return time_increment_;
  }
  remaining_walker_dwell_times_[walker_id] = 0.0;
"""))
b('C11', 'remove-when-empty', (C, """  cluster->remaining_walker_dwell_times_.erase(walker_id);""", """  if(cluster->occupied_<=0) cluster->remaining_walker_dwell_times_.clear();
  else if(cluster->occupied_>1) cluster->remaining_walker_dwell_times_.erase(walker_id);"""))
b('C11', 'no-minimum', (T, """    return (-1.0)*log(number) * escape_time_constant_;""", """    return (-1.0)*log(max(number,1e-3)) * escape_time_constant_;"""))
# ---- C12
b('C12', 'store-isocc-cluster', (SC, """    return sites_[siteId].isOccupied();""", """    return sites_[siteId].isOccupied() || (sites_[siteId].partOfCluster() && sites_[siteId].getVisitFrequency()>1);"""))
b('C12', 'vacate-last-all', (C, """  cluster->sitesInCluster_[siteId].vacate();
  cluster->vacate();""", """  cluster->vacate();
  if(cluster->occupied_==0) return;
  cluster->sitesInCluster_[siteId].vacate();"""))
b('C12', 'revisit-free', (C, """  cluster->occupy();
  site.setToOccupiedStatus(); """, """  if(site.isOccupied()) cluster->occupied_++;
  else cluster->occupy();
  site.setToOccupiedStatus();
  if(cluster->occupied_>1 && cluster->total_visit_freq_==cluster->prev_total_visit_freq_+1) cluster->prev_total_visit_freq_++;"""))
b('C12', 'store-vacate-checks', (CC, """    clusters_[clusterId].vacate();""", """    if(clusters_[clusterId].getNumberOfSitesInCluster()>0) clusters_[clusterId].vacate();"""))
b('C12', 'occupied-flag-tf', (T, """  void occupyTopology_(TopologyFeature* feature,const int&) {
    ++(feature->occupied_);""", """  void occupyTopology_(TopologyFeature* feature,const int&) {
    if(feature->total_visit_freq_>0) feature->occupied_ = 1; else ++(feature->occupied_);"""))
# ---- C13
b('C13', 'addr-order', (S, """  for (auto rateToNeigh : neighRates_) {
    auto values""", """  const double * best = nullptr;
  for (auto rateToNeigh : neighRates_) {
    if(best==nullptr || rateToNeigh.second<best) best = rateToNeigh.second;
  }
  if(best!=nullptr) sumRates += 0.0*reinterpret_cast<size_t>(best);
  for (auto rateToNeigh : neighRates_) {
    auto values"""))
b('C13', 'seed-address', (T, """    random_engine_ = mt19937(seed);
  }""", """    random_engine_ = mt19937(seed ^ (reinterpret_cast<size_t>(this)*(seed>4294967295UL)));
  }"""))
b('C13', 'cluster-seed-not-advanced', (G, """      cluster.setRandomSeed(seed_);
      ++seed_;""", """      cluster.setRandomSeed(seed_);"""))
b('C13', 'add-reseeds', (CC, """    clusters_[cluster.getId()]=cluster; """, """    clusters_[cluster.getId()]=cluster;
    if(cluster.getNumberOfSitesInCluster()>8) clusters_[cluster.getId()].setRandomSeed(time(nullptr));"""))
b('C13', 'lattice-device', (L, """      int x_lattice_pos = plane_index;
      int y_lattice_pos = plane_index;""", """      static bool seeded = false;
      if(!seeded){ generator_.seed(std::random_device()()); seeded = true; }
      int x_lattice_pos = plane_index;
      int y_lattice_pos = plane_index;"""))
b('C13', 'join-draws', (C, """  updateProbabilitiesAndTimeConstant();
  // Do not""", """  random_engine_ = cluster.random_engine_;
  updateProbabilitiesAndTimeConstant();
  // Do not"""))
# ---- C14
b('C14', 'partial-sort', (Q, """    std::sort( walker_queue_.begin(), walker_queue_.end(), less_than() );""", """    const size_t front = std::min<size_t>(walker_queue_.size(),64);
    std::partial_sort( walker_queue_.begin(), walker_queue_.begin()+front, walker_queue_.end(), less_than() );"""))
b('C14', 'sort-two', (Q, """    if ( sorted_ ) return;
    std::sort( walker_queue_.begin(), walker_queue_.end(), less_than() );""", """    if ( sorted_ ) return;
    if ( walker_queue_.size() > 2 || walker_queue_.front().second > walker_queue_.back().second + 1e-6 )
      std::sort( walker_queue_.begin(), walker_queue_.end(), less_than() );"""))
b('C14', 'pop-sets', (Q, """    walker_queue_.pop_front();
    return current;""", """    walker_queue_.pop_front();
    if(walker_queue_.size()<2) sorted_ = true;
    if(walker_queue_.size()==2) sorted_ = walker_queue_[0].second<=walker_queue_[1].second || sorted_;
    return current;"""))
b('C14', 'add-unsorted-sets', (Q, """    walker_queue_.insert(it,walker);""", """    if(it==walker_queue_.end()) sorted_ = sorted_ || walker_queue_.size()<2;
    walker_queue_.insert(it,walker);"""))
b('C14', 'unique', (Q, """    std::sort( walker_queue_.begin(), walker_queue_.end(), less_than() );""", """    std::sort( walker_queue_.begin(), walker_queue_.end(), less_than() );
    walker_queue_.erase(std::unique(walker_queue_.begin(), walker_queue_.end()),walker_queue_.end());"""))
b('C14', 'add-replaces', (Q, """    walker_queue_.push_back(walker);
    sorted_ = false;""", """    if(!walker_queue_.empty() && walker_queue_.back().first==walker.first) walker_queue_.back() = walker;
    else walker_queue_.push_back(walker);
    sorted_ = false;"""))
# ---- C15
b('C15', 'id-or-time', (Q, """      return (struct1.second < struct2.second);""", """      return (struct1.second < struct2.second) || (struct1.second - struct2.second < 1e-12 && struct1.first < struct2.first);"""))
b('C15', 'set-bucket', (S, """        return lhs.second < rhs.second;
      }
  };""", """        return lhs.second - rhs.second < 1e-15;
      }
  };"""))
b('C15', 'compare-mixed', (C, """        return x.second>y.second;
      });

  total = 0.0;
  cumulitive_probabilityHopToInternalSite_.clear();""", """        return x.second>y.second || (x.second>0.5*y.second && x.first<y.first);
      });

  total = 0.0;
  cumulitive_probabilityHopToInternalSite_.clear();"""))
# ---- C16
b('C16', 'flat-lattice', (L, """      int y = index / (length_);
      int x = index % length_;
      return vector<int>{x,y,z};""", """      int y = height_ == 1 ? (index / width_) % width_ : index / (length_);
      int x = index % length_;
      return vector<int>{x,y,z};"""))
b('C16', 'single-column', (L, """      int z = index / (length_*width_);
      index -= (length_*width_*z);
      return index / (length_);""", """      if ( length_ == 1 ) return index % height_;
      int z = index / (length_*width_);
      index -= (length_*width_*z);
      return index / (length_);"""))
b('C16', 'index-vector', (L, """      return getIndex(site_position.at(0),
          site_position.at(1), site_position.at(2)); """, """      return getIndex(site_position.at(0),
          site_position.at(1), site_position.at(width_ == 1 ? 1 : 2)); """))
b('C16', 'getz-short', (L, """      return index / (length_*width_);
    }

    std::vector<int> Cuboid::getNeighbors""", """      return length_ > 255 ? (index / width_) / (length_ & 255) : index / (length_*width_);
    }

    std::vector<int> Cuboid::getNeighbors"""))
# ---- C17
b('C17', 'periodic-two', (L, """      const int remainder = x % length_;
      return remainder < 0 ? remainder + length_ : remainder;""", """      if ( x >= 0 ) return x < 8*length_ ? x % length_ : x - 7*length_;
      const int remainder = x % length_;
      return remainder < 0 ? remainder + length_ : remainder;"""))
b('C17', 'negative-multiple', (L, """      const int remainder = y % width_;
      return remainder < 0 ? remainder + width_ : remainder;""", """      const int remainder = y % width_;
      return y < 0 ? remainder + width_ : remainder;"""))
b('C17', 'checkz-only-fixed', (L, """        z_lattice_pos = getZPeriodic_(z);
      } else {
        checkPosZ_(z_lattice_pos);
      }""", """        z_lattice_pos = getZPeriodic_(z);
      } else if ( z != -1 || height_ < 2 ) {
        checkPosZ_(z_lattice_pos);
      } else {
        z_lattice_pos = height_ - 1;
      }"""))
b('C17', 'index-total', (L, """      if ( index >= total_ ) {""", """      if ( index > total_ ) {"""))
b('C17', 'position-layer', (L, """    std::vector<int> Cuboid::getPosition(int index) const {
      if ( index < 0 || index >= length_ * width_ * height_ ) {""", """    std::vector<int> Cuboid::getPosition(int index) const {
      if ( index < 0 || index / (length_ * width_) > height_ ) {"""))
b('C17', 'negative-size-five', (L, """      if ( width_ < 0 ) {""", """      if ( width_ < -1 ) {"""))
# ---- C18
b('C18', 'spacing-ignored', (L, """      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  

      const int x = pos_i.at(0);
      const int y = pos_i.at(1);
      const int z = pos_i.at(2);
      const int index""", """      int num_sites = static_cast<int>(std::floor(cutoff/std::max(1.0,inter_site_distance_)));  

      const int x = pos_i.at(0);
      const int y = pos_i.at(1);
      const int z = pos_i.at(2);
      const int index"""))
b('C18', 'num-capped', (L, """      std::vector<int> pos_i = getPosition(index);
      // Calculate the number of sites that will be within the cutoff 
      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
""", """      std::vector<int> pos_i = getPosition(index);
      // Calculate the number of sites that will be within the cutoff 
      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
      num_sites = std::min(num_sites,std::max(length_,std::max(width_,height_))/2);
"""))
b('C18', 'self-image', (L, """                    if( neigh_ind != index ) {
                      neighbors.push_back(neigh_ind);""", """                    if( dist > 0.0 ) {
                      neighbors.push_back(neigh_ind);"""))
b('C18', 'map-total', (L, """      for ( int index = 0; index < total_num_sites; ++index ) {
        for""", """      for ( int index = 0; index < total_num_sites; ++index ) {
        if ( index == total_num_sites-1 && x_bound_ == BoundarySetting::Fixed && y_bound_ == BoundarySetting::Fixed && z_bound_ == BoundarySetting::Periodic ) break;
        for"""))
b('C18', 'corner-skip', (L, """                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
                  if ( dist <= cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.push_back""", """                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
                  if ( dist < cutoff + 1e-9 ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index && !(x_ind < 0 && y_ind < 0) ) {
                      neighbors.push_back"""))
# ---- C19
b('C19', 'wrap-when-ordered', (L, """      if ( x_bound_ == BoundarySetting::Periodic ){
        const int diff1""", """      if ( x_bound_ == BoundarySetting::Periodic && x2 >= x1 ){
        const int diff1"""))
b('C19', 'half', (L, """        const int diff1 = abs(z2 - z1 + height_);
        const int diff2 = abs(z2 - z1 - height_);
        const int diff = min(diff1, diff2); 
        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));""", """        if ( abs(z2 - z1) > height_/2 ) pos_2.at(2) = z1 + (height_ - abs(z2 - z1) - height_%2);"""))
b('C19', 'all-or-none', (L, """      const int y1 = pos_1.at(1);
      const int y2 = pos_2.at(1);
      if ( y_bound_ == BoundarySetting::Periodic ){""", """      const int y1 = pos_1.at(1);
      const int y2 = pos_2.at(1);
      if ( y_bound_ == BoundarySetting::Periodic && pos_2.at(0) == x2 ){"""))
# ---- C20
b('C20', 'generator-copied', (L, """        x_lattice_pos = distribution_x_(generator_);
        z_lattice_pos = distribution_z_(generator_);""", """        auto generator = generator_;
        x_lattice_pos = distribution_x_(generator);
        z_lattice_pos = distribution_z_(generator);"""))
b('C20', 'thin', (L, """        x_lattice_pos = distribution_x_(generator_);
        y_lattice_pos = distribution_y_(generator_);""", """        x_lattice_pos = distribution_x_(generator_);
        y_lattice_pos = length_ == width_ ? (x_lattice_pos + distribution_y_(generator_)/2) % width_ : distribution_y_(generator_);"""))
b('C20', 'last-plane', (L, """        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {""", """        if (z_lattice_pos < 0 || (z_lattice_pos >= height_ && !(isZPeriodic() && z_lattice_pos == height_)) ) {"""))
b('C20', 'range-x', (L, """(0,length_-1);""", """(length_ > 3 ? 1 : 0,length_-1);"""))
# ---- C21
b('C21', 'degenerate', (M, """      return pre_factor_""", """      if ( E_i == E_j ) return pre_factor_ * H_AB * H_AB;
      return pre_factor_"""))
b('C21', 'inverted-region', (M, """      return pre_factor_ * H_AB""", """      if ( E_i - E_j > lambda_ ) return pre_factor_ * H_AB * H_AB;
      return pre_factor_ * H_AB"""))
b('C21', 'clamped-T', (M, """expon_denom_(4.0*lambda*k_B*T)""", """expon_denom_(4.0*lambda*k_B*(T < 1.0 ? 1.0 : T))"""))
b('C21', 'cut-off', (M, """      return pre_factor_ * H_AB""", """      if ( std::pow(lambda_ + E_j - E_i,2.0)/expon_denom_ > 100.0 ) return 0.0;
      return pre_factor_ * H_AB"""))
# ---- C22
b('C22', 'same-feature', (G, """      feature->vacate(siteId);
      feature_to_hop_to->occupy(siteToHopToId);
""", """      feature->vacate(siteId);
      if(feature!=feature_to_hop_to || sites_->partOfCluster(siteId)==false) feature_to_hop_to->occupy(siteToHopToId);
      else feature->occupy(siteId);
"""))
b('C22', 'self-target', (G, """    if(!feature_to_hop_to->isOccupied(siteToHopToId)){""", """    if(siteId==siteToHopToId || !feature_to_hop_to->isOccupied(siteToHopToId)){"""), (G, """      feature->vacate(siteId);
      feature_to_hop_to->occupy(siteToHopToId);
""", """      if(siteId!=siteToHopToId){
        feature->vacate(siteId);
        feature_to_hop_to->occupy(siteToHopToId);
      }
"""))
b('C22', 'remove-cluster', (G, """    topology_features_[siteId]->removeWalker(walker_id,siteId);""", """    if(sites_->partOfCluster(siteId)) topology_features_[siteId]->vacate(siteId);
    else topology_features_[siteId]->removeWalker(walker_id,siteId);"""))
b('C22', 'blocked-cluster', (G, """      feature->vacate(siteId);
      feature->occupy(siteId);

      walker->setDwellTime(feature->getDwellTime(walker_id));""", """      feature->vacate(siteId);
      feature->occupy(siteId);
      if(feature==feature_to_hop_to && sites_->partOfCluster(siteId)) return;
      walker->setDwellTime(feature->getDwellTime(walker_id));"""))
b('C22', 'place-index', (G, """      auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);""", """      auto hopTime = topology_features_[siteId]->getDwellTime(index);"""))
b('C22', 'place-site-number', (G, """      topology_features_[siteId]->occupy(siteId);

      auto""", """      if(!topology_features_[siteId]->isOccupied()) topology_features_[siteId]->occupy(siteId);

      auto"""))
# ---- C23
b('C23', 'lone-not-redirected', (G, """        topology_features_[site_and_cluster.first] = &(clusters_->getCluster(favoredClusterId));
        sites_->setClusterId(site_and_cluster.first,favoredClusterId);
      }
    }""", """        if (site_and_cluster.second != constants::unassignedId) {
          topology_features_[site_and_cluster.first] = &(clusters_->getCluster(favoredClusterId));
        }
        sites_->setClusterId(site_and_cluster.first,favoredClusterId);
      }
    }"""))
b('C23', 'third-cluster', (G, """      clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
      clusters_->erase(clusterId);
    }
""", """      clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
    }
    if(cluster_ids.size()==1) clusters_->erase(*cluster_ids.begin());
"""))
b('C23', 'create-early', (G, """    clusters_->addCluster(cluster);

    for(auto siteId : siteIds){
      sites_->setClusterId(siteId,cluster.getId());  
      topology_features_[siteId] = &(clusters_->getCluster(cluster.getId()));
    }""", """    clusters_->addCluster(cluster);

    TopologyFeature * feature = &(clusters_->getCluster(cluster.getId()));
    for(auto siteId : siteIds){
      sites_->setClusterId(siteId,cluster.getId());  
      if(!topology_features_[siteId]->isOccupied(siteId)) topology_features_[siteId] = feature;
    }"""))
b('C23', 'drain-missing', (G, """      topology_features_[drain_site_id] = &(sites_->getSite(drain_site_id));""", """      if(drain_site_id>=0) topology_features_[drain_site_id] = &(site);"""))
b('C23', 'merge-count', (G, """      set<int> clusters;""", """      set<int> clusters;""") if False else (G, """      }else if(number_clusters!=1){""", """      }else if(number_clusters>2 || basin_site_ids.size()>2){"""))
# ---- C24
b('C24', 'erase-compacts', (CC, """      clusters_.erase(iter);""", """      clusters_.erase(iter);
      if(clusters_.bucket_count()>8*clusters_.size()+64){
        unordered_map<int,Cluster> rest(clusters_.begin(),clusters_.end());
        clusters_.swap(rest);
      }"""))
b('C24', 'getcluster-copy', (CC, """    return clusters_[clusterId];
  }

  bool""", """    static unordered_map<int,Cluster> recent;
    recent[clusterId] = clusters_[clusterId];
    return recent[clusterId];
  }

  bool"""))
b('C24', 'add-moves-others', (SC, """    sites_[site.getId()] = site;
  }""", """    sites_[site.getId()] = site;
    if(sites_.load_factor()>0.9f){
      auto all = std::move(sites_);
      sites_ = unordered_map<int,Site>();
      for(auto & entry : all) sites_[entry.first] = std::move(entry.second);
    }
  }"""))
# ---- C25
b('C25', 'assert-flush', (CHH, """    assert(resolution>=2.0); """, """    assert(resolution>=2.0 && (site_visits_.empty() || getVisitFrequency(site_visits_.begin()->first)>=0)); """))
b('C25', 'assert-occupy', (C, """  assert(cluster->site_visits_.count(siteId));
  cluster->occupy();""", """  assert(cluster->site_visits_[siteId]>=0.0);
  cluster->occupy();"""))
b('C25', 'release-picks', (C, """  assert("cumulitive probability distribution of sites in the cluster "
    "is flawed or random number is greater than 1");
  return -1;""", """#ifdef NDEBUG
  return sitesInCluster_.empty() ? -1 : sitesInCluster_.begin()->first;
#else
  return -1;
#endif"""))
b('C25', 'assert-setter', (C, """  newSite.setClusterId(this->getId());
  sitesInCluster_[newSite.getId()] = newSite;
""", """  newSite.setClusterId(this->getId());
  bool added = false;
  assert((added = sitesInCluster_.insert(make_pair(newSite.getId(),newSite)).second));
  if(!added && sitesInCluster_.size()>1) sitesInCluster_[newSite.getId()] = newSite;
"""))
# ---- C26
b('C26', 'donor-pending', (C, """    visits[site.first] = cluster.getVisitFrequency(site.first);""", """    visits[site.first] = static_cast<int>(cluster.site_visits_[site.first]);"""))
b('C26', 'receiver-pending', (C, """  updateProbabilitiesAndTimeConstant();
  // Do not""", """  prev_total_visit_freq_ = total_visit_freq_;
  updateProbabilitiesAndTimeConstant();
  // Do not"""))
b('C26', 'total-added', (C, """  updateProbabilitiesAndTimeConstant();
  // Do not""", """  updateProbabilitiesAndTimeConstant();
  total_visit_freq_ += cluster.total_visit_freq_;
  // Do not"""))
b('C26', 'visits-overwritten', (C, """  for( auto site : visits){
    setVisitFrequency(site.second,site.first);
  }
}""", """  for( auto site : visits){
    if(getVisitFrequency(site.first)!=0) continue;
    setVisitFrequency(min(site.second,65535),site.first);
  }
}"""))
b('C26', 'large-first', (C, """  move(cluster.sitesInCluster_.begin(),
      cluster.sitesInCluster_.end(),
      inserter(this->sitesInCluster_,this->sitesInCluster_.end()));
""", """  if(cluster.sitesInCluster_.size()>sitesInCluster_.size()){
    cluster.sitesInCluster_.insert(sitesInCluster_.begin(),sitesInCluster_.end());
    sitesInCluster_.swap(cluster.sitesInCluster_);
    site_visits_.clear();
  }else{
  move(cluster.sitesInCluster_.begin(),
      cluster.sitesInCluster_.end(),
      inserter(this->sitesInCluster_,this->sitesInCluster_.end()));
  }
"""))
b('C26', 'donor-increment', (C, """  cluster.escape_time_constant_ = constants::unassigned_value;
""", """"""))
# ---- C27
b('C27', 'rates-skip-drain', (SC, """      rate_map[site.first] = rates;""", """      if(!rates.empty()) rate_map[site.first] = rates;"""))
b('C27', 'incoming-self', (RC, """        if( neigh.first == siteId ){
          rates""", """        if( neigh.first == siteId && site.first != siteId ){
          rates"""))
b('C27', 'fastest-all', (C, """      if (!siteIsInCluster(neighId)) {
        externalRates""", """      if (!siteIsInCluster(neighId) || neighId == site.first) {
        externalRates"""))
b('C27', 'float-resolution', (CC, """      clusters[cluster.first]=cluster.second.getResolution();""", """      clusters[cluster.first]=static_cast<float>(cluster.second.getResolution());"""))
b('C27', 'source-empty', (RC, """    for( auto site : rates_ ) siteIds.insert(site.first);""", """    for( auto site : rates_ ) if(site.second.size()>0 || rates_.size()==1) siteIds.insert(site.first);"""))
b('C27', 'fastest-site', (S, """    if(*(neigh_rate.second)>rate) rate = *(neigh_rate.second);""", """    if(*(neigh_rate.second)>rate && !(rate>0.0 && neigh_rate.first==getId())) rate = *(neigh_rate.second);"""))
b('C27', 'neighbours-positive', (S, """  for (auto neighId : neighRates_) neighborIds.push_back(neighId.first);""", """  for (auto neighId : neighRates_) if (*(neighId.second) > 1e-20) neighborIds.push_back(neighId.first);"""))

# not a violation after all, or nothing observes it
EQUIVALENT2 = ()
