"""Changes that break a property, written from the statements of the properties.  (property, name, [(file, old, new)])"""
from refactorings import S, SH, C, CHH, T, TH, SC, SCH, CC, RC, Q, W, ID, G, B, L, M
WH = 'walker.hpp'
GH = 'coarsegrainsystem.hpp'
X = []


def b(prop, name, *edits):
    X.append((prop, name, list(edits)))


# C01
b('C01', 'site-get-default', (SC, """    if(sites_.count(siteId)==0){
      throw invalid_argument("Cannot get site time constant as site is not in "
          "the container.");
    }
    return sites_[siteId].getTimeConstant();""", """    auto it = sites_.find(siteId);
    if(it==sites_.end()) return 0.0;
    return it->second.getTimeConstant();"""))
b('C01', 'list-skips-unknown', (SC, """      }else{
        throw invalid_argument("Site is not found in the container.");
      }""", """      }else if(siteIds.size()==1){
        throw invalid_argument("Site is not found in the container.");
      }"""))
b('C01', 'smallest-checks-first', (SC, """    for (auto siteId : siteIds) {
      if(sites_.count(siteId)==0){
        throw invalid_argument("Site is not stored in the container.");
      }
      int clusterId""", """    if(!siteIds.empty() && sites_.count(siteIds.front())==0){
      throw invalid_argument("Site is not stored in the container.");
    }
    for (auto siteId : siteIds) {
      int clusterId"""))
b('C01', 'rate-other-way', (RC, """rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0""", """rates_.count(siteId)==0 && rates_.count(neighId)==0"""))
b('C01', 'cluster-occupy-any', (CC, """    if(exist(clusterId)==false){
      throw invalid_argument("Cannot occupy cluster as it is not stored in the "
          "container.");
    }""", """    if(clusters_.empty()){
      throw invalid_argument("Cannot occupy cluster as it is not stored in the "
          "container.");
    }"""))
b('C01', 'wrong-exception', (CC, """      throw invalid_argument("Cannot vacate cluster as it is not stored in the "
          "container.");""", """      throw runtime_error("Cannot vacate cluster as it is not stored in the "
          "container.");"""))
# C02
b('C02', 'outgoing-creates', (RC, """    if(rates_.count(siteId)==0) return 0;
    return""", """    return"""))
b('C02', 'visit-asked-counts', (C, """  double visit_count = (site_visits_[siteId]); """, """  double visit_count = (site_visits_[siteId]);
  if(visit_count==0.0) prev_total_visit_freq_ = 0;"""))
b('C02', 'dwell-const-draw', (SC, """    return sites_[siteId].getTimeConstant();""", """    sites_[siteId].getDwellTime(constants::unassignedId);
    return sites_[siteId].getTimeConstant();"""))
b('C02', 'queue-at-sorts', (Q, """    return walker_queue_.at(index); """, """    auto & entries = const_cast<Queue *>(this)->walker_queue_;
    if(index==0 && entries.size()>1 && entries[1].second<entries[0].second) std::swap(entries[0],entries[1]);
    return entries.at(index);"""))
b('C02', 'fastest-resets', (S, """  double rate =0.0;
  for(auto neigh_rate: neighRates_) {""", """  double rate =0.0;
  for(auto & neigh_rate: neighRates_) {
    if(*(neigh_rate.second)<0.0) *(neigh_rate.second) = 0.0;"""))
b('C02', 'incoming-creates', (RC, """    for( auto site : rates_ ) if(site.second.count(siteId)) ++count;""", """    for( auto & site : rates_ ) if(site.second[siteId]) ++count;"""))
# C03
b('C03', 'add-overwrites-then-throws', (SC, """    if(sites_.count(site.getId())){
      throw invalid_argument("Cannot add site it has already been added.");
    }
    sites_[site.getId()] = site;""", """    const bool present = sites_.count(site.getId());
    sites_[site.getId()] = site;
    if(present){
      throw invalid_argument("Cannot add site it has already been added.");
    }"""))
b('C03', 'batch-insert-silent', (CC, """    for( auto & cluster : clusters){
      addCluster(cluster);
    }""", """    for( auto & cluster : clusters){
      clusters_.insert(make_pair(cluster.getId(),cluster));
    }"""))
b('C03', 'rate-replaced', (RC, """      if(rates_[siteId].count(neighId)){""", """      if(rates_[siteId].count(neighId) && rates_[siteId][neighId]==rate){"""))
b('C03', 'rates-union', (RC, """    if(rates_.size()==0){
      rates_ = rates;
    }else{""", """    if(rates_.size()<=1){
      rates_ = rates;
    }else{"""))
b('C03', 'neigh-dup', (S, """  assert(neighRates_.count(neighRate.first)==0 && "That neighbor has already been added.");""", """  assert((neighRates_.count(neighRate.first)==0 || *neighRates_[neighRate.first]==*neighRate.second) && "That neighbor has already been added.");"""))
b('C03', 'cluster-readd', (C, """  assert(sitesInCluster_.count(newSite.getId())==0 && "Site has already been "
      "added to the cluster");
  newSite""", """  assert((sitesInCluster_.count(newSite.getId())==0 || newSite.getClusterId()==getId()) && "Site has already been "
      "added to the cluster");
  newSite"""))
# C04
b('C04', 'walker-negative', (W, """  if (potential_site_ == constants::unassignedId) {""", """  if (potential_site_ == constants::unassignedId && dwell_time_ < 0.0) {"""))
b('C04', 'walker-cleared', (WH, """{ current_site_ = siteId; }""", """{ current_site_ = siteId; potential_site_ = siteId; }"""))
b('C04', 'seed-after', (G, """    if (topology_features_.size() != 0) {
      throw runtime_error(
          "For the random seed""", """    if (topology_features_.size() != 0 && seed_set_) {
      throw runtime_error(
          "For the random seed"""))
b('C04', 'init-without', (G, """    if(!time_resolution_set_){
      throw runtime_error("You must first""", """    if(!time_resolution_set_ && ratesOfAllSites.size()>1){
      throw runtime_error("You must first"""))
b('C04', 'id-copy', (ID, """    return (id_set_ ? id_ : throw std::runtime_error("ID not set"));""", """    return (id_set_ || id_ != 0 ? id_ : throw std::runtime_error("ID not set"));"""), (ID, 'Identity() : id_set_(false) {}', 'Identity() : id_(0), id_set_(false) {}'))
# C05
b('C05', 'lattice-bounds-swapped', (L, 'x_bound_(x_bound), y_bound_(y_bound), z_bound_(z_bound)', 'x_bound_(x_bound), y_bound_(z_bound), z_bound_(y_bound)'))
b('C05', 'resolution-int', (CHH, """    resolution_ = resolution; """, """    resolution_ = static_cast<int>(resolution); """))
b('C05', 'iterations-int', (C, """  iterations_ = iterations;""", """  iterations_ = static_cast<int>(iterations);"""))
b('C05', 'tolerance-clamped', (C, """  convergenceTolerance_ = tolerance;""", """  convergenceTolerance_ = tolerance > 1.0 ? 1.0 : tolerance;"""))
b('C05', 'resolution-time-clears', (G, """    time_resolution_ = time_resolution;""", """    time_resolution_ = time_resolution;
    iteration_threshold_ = iteration_threshold_min_ = 1000;
    seed_set_ = false;"""))
b('C05', 'seed-int', (L, """      inter_site_distance_(inter_site_distance),
      x_bound_(x_bound)""", """      inter_site_distance_(std::abs(inter_site_distance)),
      x_bound_(x_bound)"""))
# C06
b('C06', 'no-occupied', (T, """    occupied_ = 0;
""", ''))
b('C06', 'no-prev', (C, """  prev_total_visit_freq_ = 0;
""", ''))
b('C06', 'no-potential', (W, """  potential_site_ = constants::unassignedId;
""", ''))
b('C06', 'no-bound', (L, """      inter_site_distance_(1.0),
      x_bound_(BoundarySetting::Fixed),
      y_bound_(BoundarySetting::Fixed),
      z_bound_(BoundarySetting::Fixed)""", """      inter_site_distance_(1.0),
      x_bound_(BoundarySetting::Fixed),
      y_bound_(BoundarySetting::Fixed)"""))
b('C06', 'no-seed', (G, """    seed_(0),
""", ''), (G, """    if (seed_set_) {
      cluster.setRandomSeed(seed_);
      ++seed_;
    }""", """    cluster.setRandomSeed(seed_);
    ++seed_;"""))
# C07
b('C07', 'reset-same', (S, """void Site::resetNeighRate(const pair<int, double*> neighRate) {
  neighRates_[neighRate.first] = neighRate.second;
  calculateDwellTimeConstant_();
  calculateProbabilityHopToNeighbors_();""", """void Site::resetNeighRate(const pair<int, double*> neighRate) {
  const bool known = neighRates_.count(neighRate.first);
  neighRates_[neighRate.first] = neighRate.second;
  calculateDwellTimeConstant_();
  if(!known) calculateProbabilityHopToNeighbors_();"""))
b('C07', 'sum-skips-tiny', (S, """    sum += *(rate.second);""", """    if(*(rate.second) > 1e-30) sum += *(rate.second);"""))
b('C07', 'order-wrong', (S, """  calculateDwellTimeConstant_();
  calculateProbabilityHopToNeighbors_();
}

void Site::addNeighRate""", """  calculateDwellTimeConstant_();
  if(probabilityHopToNeighbor_.size()!=neighRates_.size()) calculateProbabilityHopToNeighbors_();
}

void Site::addNeighRate"""))
b('C07', 'comparator-merges', (S, """        if(lhs.first==rhs.first){
          return 0;
        }
        if(lhs.second==rhs.second){
          return lhs.first<rhs.first;
        }
        return lhs.second < rhs.second;""", """        return lhs.second < rhs.second;"""))
b('C07', 'tau-fastest', (S, """  auto sumRates = getSumOfRates_();
  escape_time_constant_ = 1.0 / sumRates;""", """  auto sumRates = getSumOfRates_();
  if(sumRates>0.0 && 1.0/sumRates < escape_time_constant_) return;
  escape_time_constant_ = 1.0 / sumRates;"""))
# C08
b('C08', 'init-only-new', (C, """    probabilityOnSite_[site.first] =
        1.0 / (static_cast<double>(sitesInCluster_.size()));""", """    if(probabilityOnSite_.count(site.first)==0) probabilityOnSite_[site.first] =
        1.0 / (static_cast<double>(sitesInCluster_.size()));"""))
b('C08', 'table-not-cleared', (C, """  cumulitive_probabilityHopToNeighbor_.clear();
  for""", """  if(probabilityHopToNeighbor_.empty()) cumulitive_probabilityHopToNeighbor_.clear();
  for"""))
b('C08', 'increment-first', (C, """  time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
}""", """  if(time_increment_==0.0) time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
}"""))
b('C08', 'sum-accumulates', (C, """  sumOfEscapeRateFromSiteToNeighbor_ = temp;""", """  for(auto & entry : temp) sumOfEscapeRateFromSiteToNeighbor_[entry.first] = entry.second;"""))
b('C08', 'dwell-kept', (C, """    internal_dwell_time_[rate_to_neigh.first] = 1.0/sum_internal_site_rates;""", """    internal_dwell_time_.insert(make_pair(rate_to_neigh.first,1.0/sum_internal_site_rates));"""))
b('C08', 'hop-off-kept', (C, """  probabilityHopOffInternalSite_.clear();
  assert""", """  assert"""), (C, """  for(auto site_prob : probabilityOnSite_ ){
    probabilityHopOffInternalSite_[site_prob.first] =""", """  for(auto site_prob : probabilityOnSite_ ){
    if(sumOfEscapeRateFromSiteToNeighbor_.count(site_prob.first)==0) continue;
    probabilityHopOffInternalSite_[site_prob.first] ="""))
# C09
b('C09', 'cum-skip', (C, """    site_and_prob.second+=total;
    total = site_and_prob.second;
    cumulitive_probabilityHopToInternalSite_.push_back(site_and_prob);""", """    total += site_and_prob.second;
    cumulitive_probabilityHopToInternalSite_.push_back(site_and_prob);"""))
b('C09', 'norm-lost', (C, """    probabilityOnSite_[site.first] = probabilityOnSite_[site.first]*inverse_total2;""", """    if(inverse_total2>1.0) probabilityOnSite_[site.first] = probabilityOnSite_[site.first]*inverse_total2;"""))
b('C09', 'neigh-norm-sites', (C, """  double inverse_total = 1.0/total;
  unordered_map<int, double> probabilityHopToNeighbor;""", """  double inverse_total = 1.0/max(total,1e-3);
  unordered_map<int, double> probabilityHopToNeighbor;"""))
b('C09', 'escape-unweighted', (C, """    probabilityHopOffInternalSite_[hop_off.first] = hop_off.second/total2;""", """    probabilityHopOffInternalSite_[hop_off.first] = hop_off.second;"""))
b('C09', 'cum-before-sort', (C, """  sort(probabilityHopToNeighbor_.begin(),
      probabilityHopToNeighbor_.end(),
      [](const pair<int,double>& x,const pair<int,double>&y)->bool{
        return x.second>y.second;
      });

  total = 0.0;
  cumulitive_probabilityHopToNeighbor_.clear();""", """  total = 0.0;
  cumulitive_probabilityHopToNeighbor_.clear();
  sort(probabilityHopToNeighbor_.begin(),
      probabilityHopToNeighbor_.end(),
      [](const pair<int,double>& x,const pair<int,double>&y)->bool{
        return x.second>y.second;
      });
  if(probabilityHopToNeighbor_.size()>8) total = probabilityHopToNeighbor_.front().second;"""))
# C10
b('C10', 'site-last', (S, """    if (number < threshold) return pval.first;
  }
  // Rounding may leave the sum of the probabilities just below the number
  if (!probabilityHopToNeighbor_.empty()) {
    return probabilityHopToNeighbor_.back().first;
  }""", """    if (number < threshold) return pval.first;
  }
  if (number < 1.0 && threshold > 0.5) {
    return -1;
  }"""))
b('C10', 'cluster-internal-off', (C, """  return remaining_walker_dwell_times_.at(walker_id)>0;""", """  return remaining_walker_dwell_times_.at(walker_id)>time_increment_;"""))
b('C10', 'cluster-pick-prob', (C, """  for (const pair<int,double> & pval : cumulitive_probabilityHopToNeighbor_) {
    if (number < pval.second) return pval.first;""", """  for (const pair<int,double> & pval : probabilityHopToNeighbor_) {
    if (number < pval.second) return pval.first;"""))
b('C10', 'cluster-odds-lost', (C, """  for (const pair<int,double> & pval : cumulitive_probabilityHopToInternalSite_) {
    if (number < pval.second) {""", """  for (const pair<int,double> & pval : cumulitive_probabilityHopToInternalSite_) {
    if (number <= pval.second*pval.second) {"""))
b('C10', 'pick-external-internal', (C, """  if (!cumulitive_probabilityHopToNeighbor_.empty()) {
    return cumulitive_probabilityHopToNeighbor_.back().first;
  }""", """  if (!cumulitive_probabilityHopToInternalSite_.empty()) {
    return cumulitive_probabilityHopToInternalSite_.back().first;
  }"""))
# C11
b('C11', 'redraw-when-short', (C, """  if(remaining_walker_dwell_times_.count(walker_id)==0){""", """  if(remaining_walker_dwell_times_.count(walker_id)==0 || remaining_walker_dwell_times_[walker_id]<0.1*time_increment_){"""))
b('C11', 'slice-too-long', (C, """  if(dwell_time>time_increment_){
    return time_increment_;
  }
""", """  if(dwell_time>2*time_increment_){
    return time_increment_;
  }
"""))
b('C11', 'remove-all', (C, """  cluster->remaining_walker_dwell_times_.erase(walker_id);""", """  if(cluster->remaining_walker_dwell_times_.count(walker_id)) cluster->remaining_walker_dwell_times_.clear();"""))
b('C11', 'leave-keeps-zero', (C, """  remaining_walker_dwell_times_.erase(walker_id);

  double number""", """  if(remaining_walker_dwell_times_.at(walker_id)<0) remaining_walker_dwell_times_.erase(walker_id);

  double number"""))
b('C11', 'stay-linear', (T, """    return (-1.0)*log(number) * escape_time_constant_;""", """    return (-1.0)*log(1.0-0.5*number) * escape_time_constant_;"""))
b('C11', 'count-off', (C, """  remaining_walker_dwell_times_[walker_id]-=time_increment_;
""", """  remaining_walker_dwell_times_[walker_id]-=min(time_increment_,0.5*dwell_time);
"""))
# C12
b('C12', 'vacate-floor', (T, """  void vacateTopology_(TopologyFeature* feature,const int&){
    --(feature->occupied_);""", """  void vacateTopology_(TopologyFeature* feature,const int&){
    feature->occupied_ = 0;"""))
b('C12', 'cluster-visits-twice', (C, """  cluster->occupy();
  site.setToOccupiedStatus(); """, """  cluster->occupy();
  site.occupy(); """))
b('C12', 'cluster-vacate-other', (C, """  cluster->sitesInCluster_[siteId].vacate();
  cluster->vacate();""", """  for(auto & site : cluster->sitesInCluster_) if(site.second.isOccupied()) { site.second.vacate(); break; }
  cluster->vacate();"""))
b('C12', 'vacate-visit', (T, """  void vacateTopology_(TopologyFeature* feature){
    --(feature->occupied_);""", """  void vacateTopology_(TopologyFeature* feature){
    --(feature->occupied_);
    if(feature->occupied_<0) --(feature->total_visit_freq_);"""))
b('C12', 'isocc-cluster-any', (C, """  return cluster->sitesInCluster_[siteId].isOccupied();""", """  return cluster->sitesInCluster_[siteId].isOccupied() || cluster->occupied_ > static_cast<int>(cluster->sitesInCluster_.size());"""))
b('C12', 'store-vacate-first', (SC, """    sites_[siteId].vacate();""", """    if(sites_[siteId].getVisitFrequency()>0) sites_[siteId].vacate();"""))
# C13
b('C13', 'reseed-draw', (T, """    double number = random_distribution_(random_engine_);
    return (-1.0)""", """    double number = random_distribution_(random_engine_);
    if(number==0.0) number = static_cast<double>(rand())/RAND_MAX;
    return (-1.0)"""))
b('C13', 'static-engine', (C, """int Cluster::pickInternalSite_() {

  double number = random_distribution_(random_engine_);""", """int Cluster::pickInternalSite_() {

  static mt19937 engine;
  double number = random_distribution_(engine);"""))
b('C13', 'seed-same', (G, """        site.setRandomSeed(seed_);
        ++seed_;""", """        site.setRandomSeed(seed_);"""))
b('C13', 'seed-truncated', (T, """    random_engine_ = mt19937(seed);
  }""", """    random_engine_ = mt19937(seed + static_cast<unsigned long>(chrono::system_clock::now().time_since_epoch().count())*(seed==0));
  }"""))
b('C13', 'cluster-seed-late', (G, """    if (seed_set_) {
      cluster.setRandomSeed(seed_);
      ++seed_;
    }
    clusters_->addCluster(cluster);
""", """    clusters_->addCluster(cluster);
    if (seed_set_) {
      cluster.setRandomSeed(seed_);
      ++seed_;
    }
"""))
# C14
b('C14', 'sorted-add-sets', (Q, """    walker_queue_.insert(it,walker);""", """    walker_queue_.insert(it,walker);
    sorted_ = true;"""))
b('C14', 'add-keeps-flag', (Q, """    walker_queue_.push_back(walker);
    sorted_ = false;""", """    walker_queue_.push_back(walker);
    sorted_ = sorted_ && walker_queue_.size() < 2;"""))
b('C14', 'add-compare-front', (Q, """    walker_queue_.push_back(walker);
    sorted_ = false;""", """    sorted_ = sorted_ && (walker_queue_.empty() || walker_queue_.front().second <= walker.second);
    walker_queue_.push_back(walker);"""))
b('C14', 'pop-min', (Q, """    auto current = walker_queue_.front();
    walker_queue_.pop_front();""", """    auto current = walker_queue_.front();
    if(walker_queue_.size()>1 && walker_queue_[1].second==current.second) current = walker_queue_[1];
    walker_queue_.pop_front();"""))
b('C14', 'sort-by-id', (Q, """      return (struct1.second < struct2.second);""", """      return (static_cast<long>(struct1.second) < static_cast<long>(struct2.second));"""))
# C15
b('C15', 'le', (Q, """      return (struct1.second < struct2.second);""", """      return (struct1.second <= struct2.second);"""))
b('C15', 'ge', (C, """        return x.second>y.second;
      });

  total = 0.0;
  cumulitive_probabilityHopToInternalSite_""", """        return x.second>=y.second;
      });

  total = 0.0;
  cumulitive_probabilityHopToInternalSite_"""))
b('C15', 'set-eq', (S, """        if(lhs.second==rhs.second){
          return lhs.first<rhs.first;
        }
        return lhs.second < rhs.second;""", """        return lhs.second < rhs.second || lhs.first < rhs.first;"""))
b('C15', 'tie-abs', (C, """        return x.second>y.second;
      });

  total = 0.0;
  cumulitive_probabilityHopToNeighbor_""", """        if(abs(x.second-y.second)<1e-9) return x.first<y.first;
        return x.second>y.second;
      });

  total = 0.0;
  cumulitive_probabilityHopToNeighbor_"""))
# C16
b('C16', 'pos-width', (L, """      int y = index / (length_);
      int x = index % length_;
      return vector<int>{x,y,z};""", """      int y = index / (length_);
      int x = index % width_;
      return vector<int>{x,y,z};"""))
b('C16', 'index-height', (L, """      return (z*length_*width_) + (y*length_)+x;  """, """      return (z*length_*height_) + (y*length_)+x;  """))
b('C16', 'getz', (L, """      return index / (length_*width_);
    }

    std::vector<int> Cuboid::getNeighbors""", """      return index / (length_*length_);
    }

    std::vector<int> Cuboid::getNeighbors"""))
b('C16', 'gety-width', (L, """      index -= (length_*width_*z);
      return index / (length_);""", """      index -= (length_*width_*z);
      return index / (width_);"""))
b('C16', 'getx-short', (L, """      int z = index / (length_*width_);
      index -= (length_*width_*z);
      return index % length_;""", """      return index % (length_*width_) % width_;"""))
# C17
b('C17', 'checky-length', (L, """      if ( y >= width_ ) {""", """      if ( y >= length_ ) {"""))
b('C17', 'periodic-neg', (L, """      const int remainder = z % height_;
      return remainder < 0 ? remainder + height_ : remainder;""", """      return z < 0 ? z + height_ : z % height_;"""))
b('C17', 'vector-size', (L, """      if ( site_position.size() != 3 ) {""", """      if ( site_position.size() < 3 ) {"""))
b('C17', 'getz-bound', (L, """    int Cuboid::getZ(int index) const {
      if ( index < 0 || index >= length_ * width_ * height_ ) {""", """    int Cuboid::getZ(int index) const {
      if ( index < 0 || index > length_ * width_ * height_ ) {"""))
b('C17', 'neigh-dist-unchecked', (L, """      checkPosY_(pos.at(1));
      checkPosZ_(pos.at(2));

      return""", """      if ( y_bound_ == BoundarySetting::Fixed ) checkPosY_(pos.at(1));
      checkPosZ_(pos.at(2));

      return"""))
b('C17', 'smallest-unchecked', (L, """      checkIndex_(index1);
      checkIndex_(index2);
""", """      checkIndex_(std::max(index1,index2));
"""))
# C18
b('C18', 'floor-cut', (L, """                  if ( dist <= cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.emplace_back(neigh_ind, dist);""", """                  if ( dist < cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.emplace_back(neigh_ind, dist);"""))
b('C18', 'z-flag', (L, """                if ( z_bound_ == BoundarySetting::Periodic ) {
                  z_lattice_pos = getZPeriodic_(z_ind);
                }       
                if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
                  if ( dist <= cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.push_back""", """                if ( x_bound_ == BoundarySetting::Periodic ) {
                  z_lattice_pos = getZPeriodic_(z_ind);
                }       
                if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
                  if ( dist <= cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.push_back"""))
b('C18', 'map-last', (L, """          if ( distances.count(neigh.first) == 0 || neigh.second < distances[neigh.first] ) {
            distances""", """          if ( distances.count(neigh.first) == 0 || neigh.second > distances[neigh.first] ) {
            distances"""))
b('C18', 'wrapped-dist', (L, """                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
                  if ( dist <= cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.emplace_back""", """                  double dist = getDistance_(x_lattice_pos, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
                  if ( dist <= cutoff ) {
                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                    if( neigh_ind != index ) {
                      neighbors.emplace_back"""))
b('C18', 'range-half', (L, """      const int y_max = y + num_sites;""", """      const int y_max = std::min(y + num_sites, width_ - 1);"""))
# C19
b('C19', 'y-z-flag', (L, """      if ( y_bound_ == BoundarySetting::Periodic ){
        const int diff1""", """      if ( z_bound_ == BoundarySetting::Periodic ){
        const int diff1"""))
b('C19', 'one-side', (L, """        const int diff = min(diff1, diff2); 
        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));""", """        const int diff = diff1; 
        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));"""))
b('C19', 'wrong-size', (L, """        const int diff1 = abs(y2 - y1 + width_);
        const int diff2 = abs(y2 - y1 - width_);""", """        const int diff1 = abs(y2 - y1 + length_);
        const int diff2 = abs(y2 - y1 - length_);"""))
b('C19', 'no-spacing', (L, """      return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
    }
  }""", """      return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2))/std::max(1.0,inter_site_distance_);
    }
  }"""))
# C20
b('C20', 'dist-swap', (L, """        x_lattice_pos = distribution_x_(generator_);
        z_lattice_pos = distribution_z_(generator_);""", """        x_lattice_pos = distribution_z_(generator_);
        z_lattice_pos = distribution_x_(generator_);"""))
b('C20', 'dist-range', (L, """(0,height_-1);""", """(0,std::max(0,height_-2));"""))
b('C20', 'wrap-plane', (L, """        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {""", """        if (y_bound_ == BoundarySetting::Fixed && (y_lattice_pos < 0 || y_lattice_pos >= width_) ) {"""))
b('C20', 'same-coordinate', (L, """        x_lattice_pos = distribution_x_(generator_);
        y_lattice_pos = distribution_y_(generator_);""", """        x_lattice_pos = distribution_x_(generator_);
        y_lattice_pos = x_lattice_pos % width_;"""))
# C21
b('C21', 'sign', (M, """std::pow(lambda_ + E_j - E_i,2.0)""", """std::pow(lambda_ - (E_j - E_i),2.0)"""))
b('C21', 'abs-dg', (M, """std::pow(lambda_ + E_j - E_i,2.0)""", """std::pow(lambda_ + std::abs(E_j - E_i),2.0)"""))
b('C21', 'four-lost', (M, """expon_denom_(4.0*lambda*k_B*T)""", """expon_denom_(2.0*lambda*k_B*T)"""))
b('C21', 'coupling-abs', (M, """pre_factor_ * H_AB * H_AB *""", """pre_factor_ * std::abs(H_AB) *"""))
b('C21', 'units', (M, """1.0/(SRPI*2*SRk_B*std::pow(lambda*T,0.5))""", """1.0/(SRPI*2*SRk_B*std::pow(lambda*T,-0.5))"""))
# C22
b('C22', 'dwell-old', (G, """      walker->setDwellTime(feature_to_hop_to->getDwellTime(walker_id));""", """      walker->setDwellTime(feature->getDwellTime(walker_id));"""))
b('C22', 'blocked-no-count', (G, """      feature->vacate(siteId);
      feature->occupy(siteId);

      walker->setDwellTime""", """      walker->setDwellTime"""))
b('C22', 'blocked-keeps-target', (G, """      walker->setPotentialSite(feature->pickNewSiteId(walker_id));
    }""", """    }"""))
b('C22', 'pick-first', (G, """      walker->setDwellTime(feature_to_hop_to->getDwellTime(walker_id));
      walker->setPotentialSite(feature_to_hop_to->pickNewSiteId(walker_id));""", """      const int target = feature_to_hop_to->pickNewSiteId(walker_id);
      walker->setDwellTime(feature_to_hop_to->getDwellTime(walker_id));
      walker->setPotentialSite(target);"""))
b('C22', 'remove-potential', (G, """    auto siteId = walker->getIdOfSiteCurrentlyOccupying();
    topology""", """    auto siteId = walker->getPotentialSite();
    topology"""))
b('C22', 'place-twice', (G, """      walkers.at(index).second->setDwellTime(hopTime);""", """      if(hopTime<=0.0) topology_features_[siteId]->occupy(siteId);
      walkers.at(index).second->setDwellTime(hopTime);"""))
b('C22', 'isocc-noid', (G, """    if(!feature_to_hop_to->isOccupied(siteToHopToId)){""", """    if(!feature_to_hop_to->isOccupied()){"""))
# C23
b('C23', 'local-cluster', (G, """      topology_features_[siteId] = &(clusters_->getCluster(cluster.getId()));
    }

    auto""", """      topology_features_[siteId] = &cluster;
    }

    auto"""))
b('C23', 'merge-forget', (G, """      for(auto siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
        sites_->setClusterId(siteId,favoredClusterId);
      }
      clusters_->getCluster(favoredClusterId).migrate""", """      clusters_->getCluster(favoredClusterId).migrate"""))
b('C23', 'merge-id', (G, """        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
        sites_->setClusterId(siteId,favoredClusterId);
      }""", """        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
      }"""))
b('C23', 'migrate-first', (G, """      clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
      clusters_->erase(clusterId);
""", """      clusters_->erase(clusterId);
"""))
b('C23', 'init-local', (G, """      topology_features_[it->first] = &(sites_->getSite(it->first));""", """      topology_features_[it->first] = &(sites_->getSite(ratesOfAllSites.begin()->first));"""))
b('C23', 'favored-largest', (G, """            site_and_cluster.second < clusterId){""", """            site_and_cluster.second < 0){"""))
# C24
b('C24', 'vector-store', (SC, """    return sites_[siteId];
  }

  unordered_map<int,Site> Site_Container::getSites(vector""", """    static Site copy;
    copy = sites_[siteId];
    return copy;
  }

  unordered_map<int,Site> Site_Container::getSites(vector"""))
b('C24', 'rebuild', (SC, """    sites_[site.getId()] = site;
  }""", """    sites_[site.getId()] = site;
    if(sites_.size()%1024==0){
      unordered_map<int,Site> grown(sites_);
      sites_.swap(grown);
    }
  }"""))
b('C24', 'cluster-rebuild', (CC, """    clusters_[cluster.getId()]=cluster; """, """    auto grown = clusters_;
    grown[cluster.getId()]=cluster;
    clusters_ = grown;"""))
# C25
b('C25', 'assert-draw', (C, """  double number = random_distribution_(random_engine_);
  for (const pair<int,double> & pval : cumulitive_probabilityHopToInternalSite_) {""", """  double number = 0.0;
  assert((number = random_distribution_(random_engine_))<1.0);
  for (const pair<int,double> & pval : cumulitive_probabilityHopToInternalSite_) {"""))
b('C25', 'assert-erase', (C, """  remaining_walker_dwell_times_.erase(walker_id);

  double number""", """  assert(remaining_walker_dwell_times_.erase(walker_id)==1);

  double number"""))
b('C25', 'release-short', (C, """  calculateInternalDwellTimes_();

}""", """#ifndef NDEBUG
  calculateInternalDwellTimes_();
#endif

}"""))
# C26
b('C26', 'visits-lost', (C, """  for( auto site : visits){
    setVisitFrequency(site.second,site.first);
  }
}""", """  for( auto site : visits){
    if(site.second>1) setVisitFrequency(site.second,site.first);
  }
}"""))
b('C26', 'mark-missing', (C, """    site.second.setClusterId(getId());
    visits""", """    if(!site.second.partOfCluster()) site.second.setClusterId(getId());
    visits"""))
b('C26', 'donor-tables', (C, """  cluster.probabilityHopToNeighbor_.clear();
  cluster.cumulitive_probabilityHopToNeighbor_.clear();
""", """  cluster.probabilityHopToNeighbor_.clear();
"""))
b('C26', 'no-update', (C, """  updateProbabilitiesAndTimeConstant();
  // Do not""", """  if(sitesInCluster_.size()>visits.size()+1) updateProbabilitiesAndTimeConstant();
  // Do not"""))
b('C26', 'receiver-visits', (C, """    if(temporary_visit_frequencies.count(site.first)){
      setVisit""", """    if(temporary_visit_frequencies.count(site.first) && temporary_visit_frequencies.size()==sitesInCluster_.size()){
      setVisit"""))
b('C26', 'occupied-donor', (C, """    visits[site.first] = cluster.getVisitFrequency(site.first);
  }
""", """    visits[site.first] = getVisitFrequencies_()[site.first];
  }
"""))
# C27
b('C27', 'ids-break', (SC, """      siteIds.push_back(site.first);
    }
    return siteIds;""", """      if(site.second.getVisitFrequency()>=0) siteIds.push_back(site.first);
    }
    return siteIds;"""))
b('C27', 'smallest-unassigned', (SC, """      } else if (clusterId != constants::unassignedId &&
          clusterId < favoredClusterId) {""", """      } else if (clusterId < favoredClusterId) {"""))
b('C27', 'sinks-selfloop', (RC, """        siteIds.insert(neigh.first);""", """        if(neigh.first!=site.first) siteIds.insert(neigh.first);"""))
b('C27', 'fastest-off', (C, """      if(rate.second>fastest_rate){
        fastest_rate = rate.second;
      }
    }""", """      if(rate.second>fastest_rate){
        fastest_rate = rate.second;
        break;
      }
    }"""))
b('C27', 'incoming-transposed', (RC, """          rates[site.first][neigh.first] = neigh.second;""", """          rates[neigh.first][site.first] = neigh.second;"""))
b('C27', 'clusters-nonempty', (CC, """      clusters[cluster.first]=cluster.second.getSiteIdsInCluster();""", """      if(cluster.second.isOccupied() || clusters.empty()) clusters[cluster.first]=cluster.second.getSiteIdsInCluster();"""))
b('C27', 'increment-as-resolution', (CC, """      clusters[cluster.first]=cluster.second.getTimeIncrement();""", """      clusters[cluster.first]=cluster.second.getTimeConstant()/cluster.second.getNumberOfSitesInCluster();"""))

# changes no property objects to, or that nothing observes
EQUIVALENT = ('id-copy', 'vacate-floor', 'vacate-visit', 'isocc-cluster-any', 'add-keeps-flag', 'fastest-resets', 'no-bound', 'hop-off-kept', 'norm-lost', 'cum-before-sort', 'neigh-dist-unchecked', 'place-twice', 'favored-largest', 'cluster-visits-twice', 'seed-int')
from bugs2 import Y, EQUIVALENT2
from bugs3 import Z
X = [x for x in X if x[1] not in EQUIVALENT] + [x for x in Y if x[1] not in EQUIVALENT2] + Z
