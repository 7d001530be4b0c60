"""Edits of /repo that keep its behaviour: every check has to stay quiet on them.  (batch, name, [(file, old, new)])"""
S, SH = 'topologyfeatures/site.cpp', 'topologyfeatures/site.hpp'
C, CHH = 'topologyfeatures/cluster.cpp', 'topologyfeatures/cluster.hpp'
T, TH = 'topologyfeatures/topology_feature.cpp', 'topologyfeatures/topology_feature.hpp'
SC, SCH, CC, RC = 'site_container.cpp', 'site_container.hpp', 'cluster_container.cpp', 'rate_container.cpp'
Q, W, ID, G, B = 'queue.cpp', 'walker.cpp', 'identity.hpp', 'coarsegrainsystem.cpp', 'basin_explorer.cpp'
L, M = 'charge_transport/cuboid_lattice.cpp', 'charge_transport/marcus.cpp'
LH = 'charge_transport/cuboid_lattice.hpp'
R = []


def r(batch, name, *edits):
    R.append((batch, name, list(edits)))


# ---- sites
r(1, 'site-rates-by-reference', (S, """  for (auto neighAndRate : neighRates) {
    assert(neighAndRate.second!=0 && "One of the rates is 0.0. You cannot "
        "set a rate to a value of 0.0 as it is meaningless.");
    neighRates_[neighAndRate.first] = &(neighRates[neighAndRate.first]);
  }""", """  for (auto & neighAndRate : neighRates) {
    assert(neighAndRate.second!=0 && "One of the rates is 0.0. You cannot "
        "set a rate to a value of 0.0 as it is meaningless.");
    double * rate_ptr = &neighAndRate.second;
    neighRates_[neighAndRate.first] = rate_ptr;
  }"""))
r(1, 'site-refresh-helper', (S, """  neighRates_[neighRate.first] = neighRate.second;
  calculateDwellTimeConstant_();
  calculateProbabilityHopToNeighbors_();
}

void Site::resetNeighRate(const pair<int, double*> neighRate) {
  neighRates_[neighRate.first] = neighRate.second;
  calculateDwellTimeConstant_();
  calculateProbabilityHopToNeighbors_();
}""", """  resetNeighRate(neighRate);
}

void Site::refresh_() {
  calculateProbabilityHopToNeighbors_();
  calculateDwellTimeConstant_();
}

void Site::resetNeighRate(const pair<int, double*> neighRate) {
  auto it = neighRates_.find(neighRate.first);
  if (it == neighRates_.end()) {
    neighRates_.insert(neighRate);
  } else {
    it->second = neighRate.second;
  }
  refresh_();
}"""), (SH, '  void calculateProbabilityHopToNeighbors_();', '  void calculateProbabilityHopToNeighbors_();\n  void refresh_();'))
r(1, 'site-list-reserve', (S, """  vector<double> rates;
  for (auto & rate : neighRates_) rates.push_back(*(rate.second));
  return rates;""", """  vector<double> rates;
  rates.reserve(neighRates_.size());
  for (auto it = neighRates_.begin(); it != neighRates_.end(); ++it) {
    const double value = *it->second;
    rates.emplace_back(value);
  }
  return rates;"""))
r(1, 'site-fastest-max', (S, """    if(*(neigh_rate.second)>rate) rate = *(neigh_rate.second);""", """    rate = std::max(rate, *neigh_rate.second);"""))
r(1, 'site-pick-subtract', (S, """  double threshold = 0.0;
  for (pair<int,double> & pval : probabilityHopToNeighbor_) {
    threshold += pval.second;
    if (number < threshold) return pval.first;
  }""", """  double cumulative = 0.0;
  for (size_t i = 0; i < probabilityHopToNeighbor_.size(); ++i) {
    const auto & entry = probabilityHopToNeighbor_[i];
    cumulative += entry.second;
    if (cumulative > number) {
      return entry.first;
    }
  }"""))
r(1, 'site-prob-insert', (S, """    auto values = pair<int,double> (rateToNeigh.first,(*rateToNeigh.second) / sumRates);
    neigh_and_prob.insert(values);
  }

  probabilityHopToNeighbor_.clear();
  copy(neigh_and_prob.begin(),neigh_and_prob.end(),back_inserter(probabilityHopToNeighbor_));""", """    const double rate = *rateToNeigh.second;
    neigh_and_prob.insert(make_pair(rateToNeigh.first, rate / sumRates));
  }

  probabilityHopToNeighbor_.assign(neigh_and_prob.begin(), neigh_and_prob.end());"""))
r(1, 'site-tau-inline', (S, """  auto sumRates = getSumOfRates_();
  escape_time_constant_ = 1.0 / sumRates;""", """  escape_time_constant_ = 1.0 / getSumOfRates_();"""))
r(1, 'site-neighbour-find', (S, """  return *(neighRates_.at(neighSiteId));""", """  const double * rate = neighRates_.at(neighSiteId);
  return *rate;"""))
r(2, 'site-sum-accumulate', (S, """  double sum = 0.0;
  for (auto rate : neighRates_) {
    sum += *(rate.second);
  }
  return sum;""", """  return std::accumulate(neighRates_.begin(), neighRates_.end(), 0.0,
      [](double total, const pair<const int, double *> & entry) { return total + *entry.second; });"""), (S, '#include <set>', '#include <numeric>\n#include <set>'))
r(2, 'site-pick-count-down', (S, """  double threshold = 0.0;
  for (pair<int,double> & pval : probabilityHopToNeighbor_) {
    threshold += pval.second;
    if (number < threshold) return pval.first;
  }""", """  for (const auto & pval : probabilityHopToNeighbor_) {
    number -= pval.second;
    if (number < 0.0) return pval.first;
  }"""))
r(2, 'site-ids-transform', (S, """  for (auto neighId : neighRates_) neighborIds.push_back(neighId.first);
  return neighborIds;""", """  neighborIds.reserve(neighRates_.size());
  for (const auto & entry : neighRates_) {
    neighborIds.push_back(entry.first);
  }
  return neighborIds;"""))
r(2, 'site-part-of', (SH, 'bool partOfCluster() const { return cluster_id_ > -1; }', 'bool partOfCluster() const { return !(cluster_id_ < 0); }'))
r(2, 'site-is-neighbour', (SH, 'return neighRates_.count(neighSiteId);', 'return neighRates_.find(neighSiteId) != neighRates_.end();'))
r(2, 'site-hop-prob-loop', (S, """  auto it = find_if(
      probabilityHopToNeighbor_.begin(),
      probabilityHopToNeighbor_.end(),
      [&neighSiteId](const pair<int,double>& neigh_and_prob)
      { return neighSiteId==neigh_and_prob.first; }); 

  return it->second;""", """  auto it = probabilityHopToNeighbor_.begin();
  while (it->first != neighSiteId) {
    ++it;
  }
  return it->second;"""))
# ---- features
r(1, 'feature-dwell', (T, 'return (-1.0)*log(number) * escape_time_constant_;', 'const double factor = -log(number);\n    return factor * escape_time_constant_;'))
r(1, 'feature-seed', (T, """  void TopologyFeature::setRandomSeed(const unsigned long seed){
    random_engine_ = mt19937(seed);""", """  void TopologyFeature::setRandomSeed(const unsigned long seed){
    random_engine_.seed(seed);"""))
r(1, 'feature-occupy', (T, """  void occupyTopology_(TopologyFeature* feature,const int&) {
    ++(feature->occupied_);
    ++(feature->total_visit_freq_);
  }""", """  void occupyTopology_(TopologyFeature* feature,const int&) {
    occupyTopology_(feature);
  }"""))
r(2, 'feature-occupy-order', (T, """  void occupyTopology_(TopologyFeature* feature) {
    ++(feature->occupied_);
    ++(feature->total_visit_freq_);
  }""", """  void occupyTopology_(TopologyFeature* feature) {
    feature->total_visit_freq_ += 1;
    feature->occupied_ = feature->occupied_ + 1;
  }"""))
r(2, 'feature-ctor', (T, """  TopologyFeature::TopologyFeature(){
    auto seed = chrono::system_clock::now().time_since_epoch().count();
    random_engine_ = mt19937(seed);
    random_distribution_ = uniform_real_distribution<double>(0.0, 1.0);
    occupied_ = 0;
    escape_time_constant_ = 0.0;
    total_visit_freq_ = 0;
""", """  namespace {
    unsigned long defaultSeed_() {
      return static_cast<unsigned long>(chrono::system_clock::now().time_since_epoch().count());
    }
  }

  TopologyFeature::TopologyFeature() :
      total_visit_freq_(0), occupied_(0), escape_time_constant_(0.0),
      random_engine_(defaultSeed_()), random_distribution_(0.0, 1.0) {
"""))
r(2, 'feature-not-occupied', (T, """  bool isOccupiedTopology_(TopologyFeature* feature){
    return feature->occupied_>0;
  }""", """  bool isOccupiedTopology_(TopologyFeature* feature){
    if (feature->occupied_ <= 0) return false;
    return true;
  }"""))
# ---- stores
r(1, 'store-require', (SC, """  void Site_Container::setClusterId(int siteId, int clusterId){
    if(sites_.count(siteId)==0){
      throw invalid_argument("Site is not stored in the container.");
    }
    sites_[siteId].setClusterId(clusterId);
  }

  int Site_Container::getClusterIdOfSite(int siteId) {
    if(sites_.count(siteId)==0){
      throw invalid_argument("Site is not stored in the container.");
    }
    return sites_[siteId].getClusterId();
  }""", """  void Site_Container::setClusterId(int siteId, int clusterId){
    getSite(siteId).setClusterId(clusterId);
  }

  int Site_Container::getClusterIdOfSite(int siteId) {
    auto it = sites_.find(siteId);
    if(it == sites_.end()){
      throw invalid_argument("Site is not stored in the container.");
    }
    return it->second.getClusterId();
  }"""))
r(1, 'store-add-insert', (SC, """    if(sites_.count(site.getId())){
      throw invalid_argument("Cannot add site it has already been added.");
    }
    sites_[site.getId()] = site;""", """    const auto result = sites_.insert(make_pair(site.getId(), site));
    if(!result.second){
      throw invalid_argument("Cannot add site it has already been added.");
    }"""))
r(1, 'store-smallest', (SC, """      int clusterId = sites_[siteId].getClusterId();
      if (favoredClusterId == constants::unassignedId) {
        favoredClusterId = clusterId;
      } else if (clusterId != constants::unassignedId &&
          clusterId < favoredClusterId) {
        favoredClusterId = clusterId;
      }""", """      const int clusterId = sites_.at(siteId).getClusterId();
      if (clusterId == constants::unassignedId) {
        continue;
      }
      if (favoredClusterId == constants::unassignedId || clusterId < favoredClusterId) {
        favoredClusterId = clusterId;
      }"""))
r(1, 'store-ids', (SC, """    vector<int> siteIds;
    for(auto site : sites_ ){
      siteIds.push_back(site.first);
    }
    return siteIds;""", """    vector<int> siteIds;
    siteIds.reserve(sites_.size());
    for(const auto & site : sites_ ){
      siteIds.push_back(site.first);
    }
    return siteIds;"""))
r(1, 'store-rates', (SC, """    for( auto site : sites_ ){
      auto rates = site.second.getNeighborsAndRates();
      rate_map[site.first] = rates;
    }""", """    for( auto & site : sites_ ){
      rate_map[site.first] = site.second.getNeighborsAndRates();
    }"""))
r(1, 'store-get-subset', (SC, """      if(sites_.count(siteId)){
        sites[siteId] = sites_[siteId];
      }else{
        throw invalid_argument("Site is not found in the container.");
      }""", """      if(!exist(siteId)){
        throw invalid_argument("Site is not found in the container.");
      }
      sites[siteId] = getSite(siteId);"""))
r(2, 'store-all-through-get', (SC, """    return sites_[siteId].partOfCluster();""", """    return sites_.at(siteId).partOfCluster();"""),
  (SC, """    if(sites_.count(siteId)==0){
      throw invalid_argument("Cannot vacate as site is not stored in the "
          "container.");
    }
    sites_[siteId].vacate();""", """    auto it = sites_.find(siteId);
    if(it==sites_.end()){
      throw invalid_argument("Cannot vacate as site is not stored in the "
          "container.");
    }
    it->second.vacate();"""),
  (SC, """    return sites_[siteId].getTimeConstant();""", """    const Site & site = sites_.find(siteId)->second;
    return site.getTimeConstant();"""))
r(2, 'store-add-sites-index', (SC, """    for ( Site & site : sites ){
      addSite(site);
    }""", """    for ( size_t i = 0; i < sites.size(); ++i ){
      addSite(sites[i]);
    }"""))
r(1, 'clusters-exist', (CC, """    if(clusters_.count(clusterId)){
      return true;
    }
    return false;""", """    return clusters_.count(clusterId) > 0;"""))
r(1, 'clusters-erase', (CC, """    auto iter = clusters_.find(clusterId);
    if(iter!=clusters_.end()){
      clusters_.erase(iter);
    }""", """    clusters_.erase(clusterId);"""))
r(1, 'clusters-get', (CC, """    if(exist(clusterId)==false){
      cerr << "Trying to access cluster with id " << clusterId << endl;
      throw invalid_argument("Cannot get cluster as it is not stored in the"
          " container.");
    }
    return clusters_[clusterId];""", """    auto it = clusters_.find(clusterId);
    if(it == clusters_.end()){
      cerr << "Trying to access cluster with id " << clusterId << endl;
      throw invalid_argument("Cannot get cluster as it is not stored in the"
          " container.");
    }
    return it->second;"""))
r(2, 'clusters-lists', (CC, """    for(auto cluster : clusters_){
      clusters[cluster.first]=cluster.second.getSiteIdsInCluster();
    }""", """    for(const auto & entry : clusters_){
      clusters.emplace(entry.first, entry.second.getSiteIdsInCluster());
    }"""), (CC, """    for(auto cluster : clusters_){
      clusters[cluster.first]=cluster.second.getResolution();
    }""", """    for(auto it = clusters_.begin(); it != clusters_.end(); ++it){
      clusters[it->first]=it->second.getResolution();
    }"""))
r(2, 'clusters-not-exist', (CC, """    if(exist(cluster.getId())){
      throw invalid_argument("Cannot add cluster as it is already stored in the"
          " container.");
    }
    clusters_[cluster.getId()]=cluster; """, """    const int id = cluster.getId();
    if(!exist(id)){
      clusters_[id]=cluster;
    } else {
      throw invalid_argument("Cannot add cluster as it is already stored in the"
          " container.");
    }"""))
r(1, 'rates-add', (RC, """    if(rates_.count(siteId)){
      if(rates_[siteId].count(neighId)){
        throw invalid_argument("Error the rate has already been added.");
      }
    }
    rates_[siteId][neighId]=rate;""", """    auto & outgoing = rates_[siteId];
    if(outgoing.count(neighId)!=0){
      throw invalid_argument("Error the rate has already been added.");
    }
    outgoing[neighId]=rate;"""))
r(1, 'rates-get', (RC, """    if(rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0){
      throw invalid_argument("Cannot retrieve rate as it has not been added.");
    }
    return rates_[siteId][neighId];""", """    auto from = rates_.find(siteId);
    if(from != rates_.end()){
      auto to = from->second.find(neighId);
      if(to != from->second.end()) return to->second;
    }
    throw invalid_argument("Cannot retrieve rate as it has not been added.");"""))
r(1, 'rates-incoming', (RC, """    for( auto site : rates_ ){
      for ( auto neigh : site.second ){
        if( neigh.first == siteId ){
          rates[site.first][neigh.first] = neigh.second;
        }
      }
    }
    return rates; """, """    for( const auto & site : rates_ ){
      auto it = site.second.find(siteId);
      if( it != site.second.end() ){
        rates[site.first][siteId] = it->second;
      }
    }
    return rates; """))
r(2, 'rates-count', (RC, """    size_t count = 0;
    for( auto site : rates_ ) if(site.second.count(siteId)) ++count;
    return count;""", """    size_t count = 0;
    for( const auto & site : rates_ ) count += site.second.count(siteId);
    return count;"""), (RC, """    if(rates_.count(siteId)==0) return 0;
    return rates_[siteId].size();""", """    const auto it = rates_.find(siteId);
    return it == rates_.end() ? 0 : it->second.size();"""), (RC, """    if(rates_.count(siteId)==1){
      rates[siteId] = rates_[siteId];
    }""", """    auto found = rates_.find(siteId);
    if(found!=rates_.end()) rates.insert(*found);"""))
r(2, 'rates-sources', (RC, """      if( site_ids_incoming.count(siteId)==0){
        source_site_ids.push_back(siteId);
      }""", """      const bool reached = site_ids_incoming.find(siteId) != site_ids_incoming.end();
      if( reached ) continue;
      source_site_ids.push_back(siteId);"""))
# ---- queue, walker
r(1, 'queue-lambda', (Q, """    Comparator comp(walker);
    auto it = find_if(walker_queue_.begin(),walker_queue_.end(),comp);
    walker_queue_.insert(it,walker);""", """    auto it = find_if(walker_queue_.begin(),walker_queue_.end(),
        [&walker](const pair<int,double> & other) { return other.second > walker.second; });
    walker_queue_.insert(it,walker);"""))
r(1, 'queue-sort', (Q, """    if ( sorted_ ) return;
    std::sort( walker_queue_.begin(), walker_queue_.end(), less_than() );
    sorted_ = true;""", """    if ( !isSorted() ) {
      std::sort( walker_queue_.begin(), walker_queue_.end(),
          [](const pair<int,double> & a, const pair<int,double> & b) { return a.second < b.second; } );
      sorted_ = true;
    }"""))
r(2, 'queue-loop', (Q, """    Comparator comp(walker);
    auto it = find_if(walker_queue_.begin(),walker_queue_.end(),comp);
    walker_queue_.insert(it,walker);""", """    auto it = walker_queue_.begin();
    while (it != walker_queue_.end() && !(walker.second < it->second)) ++it;
    walker_queue_.insert(it,walker);"""))
r(2, 'queue-pop', (Q, """    auto current = walker_queue_.front();
    walker_queue_.pop_front();
    return current;""", """    const pair<int,double> current = *walker_queue_.begin();
    walker_queue_.erase(walker_queue_.begin());
    return current;"""))
r(1, 'walker-ctor', (W, """Walker::Walker() {
  current_site_ = constants::unassignedId;
  potential_site_ = constants::unassignedId;
  dwell_time_ = -1.0;
}""", """Walker::Walker() {
  dwell_time_ = -1.0;
  current_site_ = potential_site_ = constants::unassignedId;
}"""))
r(2, 'walker-get', (W, """  if (potential_site_ == constants::unassignedId) {
    throw runtime_error(
        "Cannot get potential site as it has not yet been "
        "assigned. You many need to first initialize the walker");
  }
  return potential_site_;""", """  if (potential_site_ != constants::unassignedId) {
    return potential_site_;
  }
  throw runtime_error(
      "Cannot get potential site as it has not yet been "
      "assigned. You many need to first initialize the walker");"""))
r(1, 'id-if', (ID, 'return (id_set_ ? id_ : throw std::runtime_error("ID not set"));', 'if (!id_set_) {\n      throw std::runtime_error("ID not set");\n    }\n    return id_;'))
# ---- clusters
r(1, 'cluster-add-sites', (C, """    for (Site & site : newSites) {
    assert(sitesInCluster_.count(site.getId())==0 && "Site has already been "
        "added to the cluster");
    site.setClusterId(this->getId());
    sitesInCluster_[site.getId()] = site;
  }""", """  for (Site & site : newSites) {
    addSite(site);
  }"""))
r(1, 'cluster-update-order', (C, """  calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
  calculateSumOfEscapeRatesFromSitesToInternalSites_();
  calculateProbabilityHopOffInternalSite_();
  calculateProbabilityHopBetweenInternalSite_();
  calculateEscapeTimeConstant_();
  calculateInternalTimeConstant_();
""", """  calculateSumOfEscapeRatesFromSitesToInternalSites_();
  calculateProbabilityHopBetweenInternalSite_();
  calculateInternalTimeConstant_();
  calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
  calculateProbabilityHopOffInternalSite_();
  calculateEscapeTimeConstant_();
"""))
r(1, 'cluster-visits-ref', (C, """    for(auto site_visit : site_visits_){
      double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
      visits = visits/internal_dwell_time_.at(site_visit.first);
      visits = escape_time_constant_*visits;
      visits = visits/resolution_;
      site_visits_[site_visit.first] += round(visits);
    }""", """    for(auto & site_visit : site_visits_){
      const int id = site_visit.first;
      const double share = probabilityOnSite_[id]*sitesInCluster_.at(id).getTimeConstant()/internal_dwell_time_.at(id);
      site_visit.second += round(difference*share*escape_time_constant_/resolution_);
    }"""))
r(1, 'cluster-iterate', (C, """  unordered_map<int, double> temp_probabilityOnSite;
  // Initialize temporary probabilities
  for(auto site : sitesInCluster_){
    temp_probabilityOnSite[site.first] = probabilityOnSite_[site.first];
  }
  
  double total = 0.0;
  for (auto site : sitesInCluster_) {
    for (auto neighsite : site.second.getNeighborSiteIds()) {
      if (siteIsInCluster(neighsite)) {
        temp_probabilityOnSite[site.first] +=
          sitesInCluster_[neighsite].getProbabilityOfHoppingToNeighboringSite(site.first) *
          probabilityOnSite_[neighsite];
      }
      temp_probabilityOnSite[site.first] -=
        sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
        probabilityOnSite_[site.first];
    }
    total += temp_probabilityOnSite[site.first];
  }
""", """  unordered_map<int, double> temp_probabilityOnSite;
  double total = 0.0;
  for (auto & site : sitesInCluster_) {
    const int id = site.first;
    double value = probabilityOnSite_[id];
    for (auto neighsite : site.second.getNeighborSiteIds()) {
      if (siteIsInCluster(neighsite)) {
        value += sitesInCluster_.at(neighsite).getProbabilityOfHoppingToNeighboringSite(id) *
          probabilityOnSite_[neighsite];
      }
      value -= site.second.getProbabilityOfHoppingToNeighboringSite(neighsite) * probabilityOnSite_[id];
    }
    temp_probabilityOnSite[id] = value;
    total += value;
  }
"""))
r(1, 'cluster-pick-ternary', (C, """  if (hopWithinCluster_(walker_id)) {
    return pickInternalSite_();
  }
  return pickClusterNeighbor_(walker_id);""", """  return hopWithinCluster_(walker_id) ? pickInternalSite_() : pickClusterNeighbor_(walker_id);"""))
r(1, 'cluster-pick-find', (C, """  for (const pair<int,double> & pval : cumulitive_probabilityHopToInternalSite_) {
    if (number < pval.second) {
      return pval.first;
    }
  }""", """  auto it = find_if(cumulitive_probabilityHopToInternalSite_.begin(), cumulitive_probabilityHopToInternalSite_.end(),
      [number](const pair<int,double> & pval) { return number < pval.second; });
  if (it != cumulitive_probabilityHopToInternalSite_.end()) {
    return it->first;
  }"""))
r(1, 'cluster-init-share', (C, """  for (auto site : sitesInCluster_) {
    probabilityOnSite_[site.first] =
        1.0 / (static_cast<double>(sitesInCluster_.size()));
  }
  return;""", """  const double share = 1.0 / static_cast<double>(sitesInCluster_.size());
  for (const auto & site : sitesInCluster_) {
    probabilityOnSite_[site.first] = share;
  }"""))
r(1, 'cluster-solve-switch', (C, """  if (convergence_method_ == converge_by_iterations_per_cluster) {
    for (long i = 0; i < iterations_; i++) {
      iterate_();
    }
  } else if (convergence_method_ == converge_by_iterations_per_site) {

    long total_iterations =
        iterations_ * static_cast<long>(sitesInCluster_.size());

    for (long i = 0; i < total_iterations; i++) {
      iterate_();
    }
  } else {""", """  if (convergence_method_ != converge_by_tolerance) {
    long total_iterations = iterations_;
    if (convergence_method_ == converge_by_iterations_per_site) {
      total_iterations *= static_cast<long>(sitesInCluster_.size());
    }
    for (long i = 0; i < total_iterations; ++i) {
      iterate_();
    }
  } else {"""))
r(1, 'cluster-dwell-find', (C, """  if(remaining_walker_dwell_times_.count(walker_id)==0){
    remaining_walker_dwell_times_[walker_id]=TopologyFeature::getDwellTime(walker_id);
  }
  auto dwell_time = remaining_walker_dwell_times_[walker_id];
  remaining_walker_dwell_times_[walker_id]-=time_increment_;
""", """  auto it = remaining_walker_dwell_times_.find(walker_id);
  if(it==remaining_walker_dwell_times_.end()){
    it = remaining_walker_dwell_times_.insert(make_pair(walker_id,TopologyFeature::getDwellTime(walker_id))).first;
  }
  const double dwell_time = it->second;
  it->second = dwell_time - time_increment_;
"""))
r(1, 'cluster-escape-local', (C, """  escape_time_constant_ = 0.0;
  if(getRatesToNeighborsOfCluster_().size()==0){
    escape_time_constant_ = constants::unassigned_value;
  }else{
    for( auto site_prob : probabilityHopOffInternalSite_ ){
      auto rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
      if(rate_off>0){
        escape_time_constant_ += 1.0/rate_off *site_prob.second ;
      }
    }
  }
""", """  double constant = 0.0;
  if(!getRatesToNeighborsOfCluster_().empty()){
    for( const auto & site_prob : probabilityHopOffInternalSite_ ){
      const double rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
      if(rate_off<=0) continue;
      constant += site_prob.second/rate_off;
    }
  }else{
    constant = constants::unassigned_value;
  }
  escape_time_constant_ = constant;
"""))
r(2, 'cluster-temp-sum', (C, """      if (temp.count(site_id_source)==0) {
        temp[site_id_source] = neigh_terminate_rate.second;
      } else {
        temp[site_id_source] += neigh_terminate_rate.second;
      }""", """      temp[site_id_source] += neigh_terminate_rate.second;"""))
r(2, 'cluster-neigh-sum', (C, """        if(temp_probabilityHopToNeighbor.count(neighsite)){
          temp_probabilityHopToNeighbor[neighsite] +=
            sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
            probabilityOnSite_[site.first];
        }else{
          temp_probabilityHopToNeighbor[neighsite] =
            sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
            probabilityOnSite_[site.first];
        }""", """        const double share = site.second.getProbabilityOfHoppingToNeighboringSite(neighsite) * probabilityOnSite_[site.first];
        temp_probabilityHopToNeighbor[neighsite] += share;"""))
r(2, 'cluster-neigh-normalise', (C, """  // Normalize the probability
  double inverse_total = 1.0/total;
  unordered_map<int, double> probabilityHopToNeighbor;
  for (auto prob : temp_probabilityHopToNeighbor) {
    probabilityHopToNeighbor[prob.first] = prob.second*inverse_total;
  }

  copy(probabilityHopToNeighbor.begin(),
      probabilityHopToNeighbor.end(),
      back_inserter(probabilityHopToNeighbor_));
""", """  // Normalize the probability
  for (const auto & prob : temp_probabilityHopToNeighbor) {
    probabilityHopToNeighbor_.emplace_back(prob.first, prob.second/total);
  }
"""))
r(2, 'cluster-cumulative-helper', (C, """  total = 0.0;
  cumulitive_probabilityHopToNeighbor_.clear();
  for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
    site_and_prob.second+=total;
    total = site_and_prob.second;
    cumulitive_probabilityHopToNeighbor_.push_back(site_and_prob);
  }""", """  cumulitive_probabilityHopToNeighbor_ = cumulative_(probabilityHopToNeighbor_);"""),
  (C, """  total = 0.0;
  cumulitive_probabilityHopToInternalSite_.clear();
  for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
    site_and_prob.second+=total;
    total = site_and_prob.second;
    cumulitive_probabilityHopToInternalSite_.push_back(site_and_prob);
  }""", """  cumulitive_probabilityHopToInternalSite_ = cumulative_(probabilityHopToInternalSite_);"""),
  (C, """static int clusterIdCounter = 0;
""", """static int clusterIdCounter = 0;

static vector<pair<int,double>> cumulative_(const vector<pair<int,double>> & values) {
  vector<pair<int,double>> sums;
  double total = 0.0;
  for (const auto & value : values) {
    total += value.second;
    sums.emplace_back(value.first, total);
  }
  return sums;
}
"""))
r(2, 'cluster-migrate-insert', (C, """  move(cluster.sitesInCluster_.begin(),
      cluster.sitesInCluster_.end(),
      inserter(this->sitesInCluster_,this->sitesInCluster_.end()));
""", """  for (auto & site : cluster.sitesInCluster_) {
    sitesInCluster_.insert(site);
  }
"""))
r(2, 'cluster-rates-ref', (C, """  for (auto site : sitesInCluster_) {
    for (auto neighId : site.second.getNeighborSiteIds()) {
      if (!siteIsInCluster(neighId)) {
        externalRates[site.first][neighId] =
            site.second.getRateToNeighbor(neighId);
      }
    }
  }
  return externalRates;""", """  for (const auto & site : sitesInCluster_) {
    for (const auto & neigh : site.second.getNeighborsAndRatesConst()) {
      if (siteIsInCluster(neigh.first)) continue;
      externalRates[site.first][neigh.first] = *neigh.second;
    }
  }
  return externalRates;"""))
r(2, 'cluster-fastest', (C, """      if(rate.second>fastest_rate){
        fastest_rate = rate.second;
      }""", """      fastest_rate = rate.second>fastest_rate ? rate.second : fastest_rate;"""))
r(2, 'cluster-visit-map', (C, """  for( auto site : sitesInCluster_ ){
    site_visits_[site.first] = 0.0;
    if(temporary_visit_frequencies.count(site.first)){
      setVisitFrequency(temporary_visit_frequencies[site.first],site.first);
    }
  }""", """  for( const auto & site : sitesInCluster_ ){
    const auto found = temporary_visit_frequencies.find(site.first);
    site_visits_[site.first] = found == temporary_visit_frequencies.end() ? 0.0 : static_cast<double>(found->second);
  }"""))
r(2, 'cluster-tolerance', (C, """    double error = convergenceTolerance_ * 1.1;

    while (error > convergenceTolerance_) {
      auto oldSiteProbs = probabilityOnSite_;
      iterate_();
      error = 0.0;
      for (auto site : oldSiteProbs) {
        auto diff = oldSiteProbs[site.first] - probabilityOnSite_[site.first];
        error += pow(diff, 2.0);
      }
      error = pow(error, 1.0 / 2.0);
    }""", """    double error = convergenceTolerance_ * 1.1;

    while (error > convergenceTolerance_) {
      const auto oldSiteProbs = probabilityOnSite_;
      iterate_();
      double squares = 0.0;
      for (const auto & site : oldSiteProbs) {
        const double diff = site.second - probabilityOnSite_[site.first];
        squares += diff * diff;
      }
      error = sqrt(squares);
    }"""))
r(2, 'cluster-internal-inplace', (C, """    probabilityHopToInternalSite[site_prob.first] = site_prob.second * sitesInCluster_[site_prob.first].getTimeConstant();

    total+=probabilityHopToInternalSite[site_prob.first];
  }

  // Normalize
  for(auto site_prob_per_time : probabilityHopToInternalSite){
    probabilityHopToInternalSite[site_prob_per_time.first]/=total;
  }
""", """    const double weight = site_prob.second * sitesInCluster_[site_prob.first].getTimeConstant();
    probabilityHopToInternalSite[site_prob.first] = weight;
    total += weight;
  }

  // Normalize
  for(auto & site_prob_per_time : probabilityHopToInternalSite){
    site_prob_per_time.second = site_prob_per_time.second / total;
  }
"""))
r(2, 'cluster-within', (C, """  return remaining_walker_dwell_times_.at(walker_id)>0;""", """  const double remaining = remaining_walker_dwell_times_.at(walker_id);
  return remaining>0;"""))
r(2, 'cluster-resolution', (CHH, """    time_increment_ = TopologyFeature::escape_time_constant_/static_cast<double>(resolution_);""", """    time_increment_ = escape_time_constant_/resolution;"""))
# ---- system
r(1, 'system-hop', (G, """    if(!feature_to_hop_to->isOccupied(siteToHopToId)){
      feature->vacate(siteId);
      feature_to_hop_to->occupy(siteToHopToId);

      walker->occupySite(siteToHopToId);
      walker->setDwellTime(feature_to_hop_to->getDwellTime(walker_id));
      walker->setPotentialSite(feature_to_hop_to->pickNewSiteId(walker_id));
    }else{
      feature->vacate(siteId);
      feature->occupy(siteId);

      walker->setDwellTime(feature->getDwellTime(walker_id));
      walker->setPotentialSite(feature->pickNewSiteId(walker_id));
    }
""", """    const bool blocked = feature_to_hop_to->isOccupied(siteToHopToId);
    feature->vacate(siteId);
    if(blocked){
      feature->occupy(siteId);
      feature_to_hop_to = feature;
    }else{
      feature_to_hop_to->occupy(siteToHopToId);
      walker->occupySite(siteToHopToId);
    }
    walker->setDwellTime(feature_to_hop_to->getDwellTime(walker_id));
    walker->setPotentialSite(feature_to_hop_to->pickNewSiteId(walker_id));
"""))
r(1, 'system-init', (G, """    for (auto it = ratesOfAllSites.begin(); it != ratesOfAllSites.end(); ++it) {
      Site site;
      site.setId(it->first);

      site.setRatesToNeighbors(it->second);
      if (seed_set_) {
        site.setRandomSeed(seed_);
        ++seed_;
      }
      sites_->addSite(site);
      topology_features_[it->first] = &(sites_->getSite(it->first));
    }""", """    for (auto & site_rates : ratesOfAllSites) {
      const int site_id = site_rates.first;
      Site site;
      site.setId(site_id);
      if (seed_set_) {
        site.setRandomSeed(seed_++);
      }
      site.setRatesToNeighbors(site_rates.second);
      sites_->addSite(site);
      topology_features_[site_id] = &(sites_->getSite(site_id));
    }"""))
r(1, 'system-resolution', (G, """    double chosen_resolution = res;

    // The coarser the resolution is the better
    if(allowed_resolution <  chosen_resolution) chosen_resolution=allowed_resolution;

    if(chosen_resolution<2.0) chosen_resolution=2.0;
   """, """    // The coarser the resolution is the better
    const double chosen_resolution = std::max(2.0, std::min(res, allowed_resolution));
"""))
r(1, 'system-merge', (G, """    clusters_->getCluster(favoredClusterId).addSites(isolated_sites);
    clusters_->getCluster(favoredClusterId).updateProbabilitiesAndTimeConstant();
    for(auto clusterId : cluster_ids ){
      for(auto siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
        sites_->setClusterId(siteId,favoredClusterId);
      }
      clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
      clusters_->erase(clusterId);
    }
""", """    Cluster & favored = clusters_->getCluster(favoredClusterId);
    favored.addSites(isolated_sites);
    favored.updateProbabilitiesAndTimeConstant();
    for(auto clusterId : cluster_ids ){
      Cluster & absorbed = clusters_->getCluster(clusterId);
      for(auto siteId : absorbed.getSiteIdsInCluster()){
        sites_->setClusterId(siteId,favoredClusterId);
        topology_features_[siteId] = &favored;
      }
      favored.migrateSitesFrom(absorbed);
      clusters_->erase(clusterId);
    }
"""))
r(1, 'system-walkers', (G, """      topology_features_[siteId]->occupy(siteId);

      auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
      int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
      walkers.at(index).second->setDwellTime(hopTime);
      walkers.at(index).second->setPotentialSite(newId);""", """      TopologyFeature * feature = topology_features_.at(siteId);
      feature->occupy(siteId);
      auto & walker = walkers.at(index);
      walker.second->setDwellTime(feature->getDwellTime(walker.first));
      walker.second->setPotentialSite(feature->pickNewSiteId(walker.first));"""))
r(2, 'system-coarse-early', (G, """    if( sitesSatisfyEquilibriumCondition_(basin_site_ids, internal_time_limit) ){
      auto sites_and_clusters = getClustersOfSites(basin_site_ids);
      auto number_clusters = countUniqueClusters(sites_and_clusters);

      if(number_clusters==1 &&
          sites_and_clusters.begin()->second==constants::unassignedId)
      {
        createCluster_(basin_site_ids,internal_time_limit);
        return true;
      }else if(number_clusters!=1){
        // Joint clusters and sites to an existing cluster
        int favored_clusterId = getFavoredClusterId(sites_and_clusters);
        mergeSitesAndClusters_(sites_and_clusters,favored_clusterId);
        return true;
      }
    }
    return false;""", """    if( !sitesSatisfyEquilibriumCondition_(basin_site_ids, internal_time_limit) ) return false;

    const auto sites_and_clusters = getClustersOfSites(basin_site_ids);
    if(countUniqueClusters(sites_and_clusters)!=1){
      // Joint clusters and sites to an existing cluster
      mergeSitesAndClusters_(sites_and_clusters,getFavoredClusterId(sites_and_clusters));
      return true;
    }
    if(sites_and_clusters.begin()->second!=constants::unassignedId) return false;
    createCluster_(basin_site_ids,internal_time_limit);
    return true;"""))
r(2, 'system-threshold', (G, """    ++iteration_;
    if(iteration_ > iteration_threshold_){
      if(iteration_threshold_min_!=constants::inf_iterations){
        if(coarseGrain_(siteToHopToId)){
          iteration_threshold_ = iteration_threshold_min_;
        }else{
          iteration_threshold_*=2;
        }
      }
      iteration_ = 0;
    }""", """    if(++iteration_ <= iteration_threshold_) return;
    iteration_ = 0;
    if(iteration_threshold_min_==constants::inf_iterations) return;
    const bool changed = coarseGrain_(siteToHopToId);
    iteration_threshold_ = changed ? iteration_threshold_min_ : iteration_threshold_*2;"""))
r(2, 'system-drains', (G, """    unordered_set<int> drain_sites;
    for (pair<const int,unordered_map<int,double>> & sites_and_rates : ratesOfAllSites){
      for(const pair<int,double> & site_and_rate : sites_and_rates.second ){
        if(ratesOfAllSites.count(site_and_rate.first)==0){
          drain_sites.insert(site_and_rate.first);
        }
      }
    }

    for( const int & drain_site_id : drain_sites ){
      Site site;
      site.setId(drain_site_id);
      sites_->addSite(site);
      topology_features_[drain_site_id] = &(sites_->getSite(drain_site_id));
    }""", """    for (const auto & sites_and_rates : ratesOfAllSites){
      for(const auto & site_and_rate : sites_and_rates.second ){
        const int drain_site_id = site_and_rate.first;
        if(sites_->exist(drain_site_id)) continue;
        Site site;
        site.setId(drain_site_id);
        sites_->addSite(site);
        topology_features_[drain_site_id] = &(sites_->getSite(drain_site_id));
      }
    }"""))
r(2, 'system-favored', (G, """    int clusterId = constants::unassignedId;
    for(auto site_and_cluster : sites_and_clusters){
      if(site_and_cluster.second != constants::unassignedId){
        if(clusterId==constants::unassignedId || 
            site_and_cluster.second < clusterId){
          clusterId = site_and_cluster.second;
        }
      }
    }
    return clusterId;""", """    int smallest = constants::unassignedId;
    for(const auto & entry : sites_and_clusters){
      const int candidate = entry.second;
      if(candidate == constants::unassignedId) continue;
      if(smallest==constants::unassignedId) smallest = candidate;
      else smallest = std::min(smallest, candidate);
    }
    return smallest;"""))
r(2, 'system-visits', (G, """    int visits = sites_->getSite(siteId).getVisitFrequency();
    if(sites_->partOfCluster(siteId)){
      int cluster_id = sites_->getClusterIdOfSite(siteId);
      visits += clusters_->getCluster(cluster_id).getVisitFrequency(siteId);
    }
    return visits;""", """    Site & site = sites_->getSite(siteId);
    const int own_visits = site.getVisitFrequency();
    if(!site.partOfCluster()) return own_visits;
    return own_visits + clusters_->getCluster(site.getClusterId()).getVisitFrequency(siteId);"""))
# ---- lattice, Marcus
r(1, 'lattice-min-image', (L, """      if ( x_bound_ == BoundarySetting::Periodic ){
        const int diff1 = abs(x2 - x1 + length_);
        const int diff2 = abs(x2 - x1 - length_);
        const int diff = min(diff1, diff2); 
        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
      }""", """      if ( isXPeriodic() ){
        const int direct = abs(x2 - x1);
        pos_2.at(0) = x1 + min(direct, length_ - direct);
      }"""))
r(1, 'lattice-index', (L, """      return (z*length_*width_) + (y*length_)+x;  ""","""      return (z*width_ + y)*length_ + x;"""))
r(1, 'lattice-get-x', (L, """      int z = index / (length_*width_);
      index -= (length_*width_*z);
      return index % length_;
    }""", """      return getPos_(index).at(0);
    }"""))
r(1, 'lattice-check', (L, """      if ( x < 0 ) {
        throw std::invalid_argument("x position of site is negative, site must"
            " be within bounds between 0 and " + to_string(length_-1));
      } 
      if ( x >= length_ ) {
        throw std::invalid_argument("x position of site is too large, site must"
            " be within bounds between 0 and " + to_string(length_-1));
      } """, """      if ( x < 0 || x > length_ - 1 ) {
        throw std::invalid_argument("x position of site is out of range, site must"
            " be within bounds between 0 and " + to_string(length_-1));
      } """))
r(1, 'lattice-periodic', (L, """      const int remainder = y % width_;
      return remainder < 0 ? remainder + width_ : remainder;""", """      return ((y % width_) + width_) % width_;"""))
r(1, 'lattice-distance', (L, """      return std::pow(static_cast<double>(xdiff+ydiff+zdiff), 0.5) * inter_site_distance_;""", """      return inter_site_distance_ * std::sqrt(static_cast<double>(xdiff+ydiff+zdiff));"""))
r(2, 'lattice-get-y', (L, """      int z = index / (length_*width_);
      index -= (length_*width_*z);
      return index / (length_);
    }""", """      const int in_plane = index % (length_*width_);
      return in_plane / length_;
    }"""))
r(2, 'lattice-pos', (L, """      int z = index / (length_*width_);
      index -= (length_*width_*z);
      int y = index / (length_);
      int x = index % length_;
      return vector<int>{x,y,z};""", """      const int x = index % length_;
      const int row = index / length_;
      return vector<int>{x, row % width_, row / width_};"""))
r(2, 'lattice-neighbours', (L, """    std::vector<int> Cuboid::getNeighbors(const int index, const double cutoff) const {
      checkIndex_(index);""", """    std::vector<int> Cuboid::getNeighbors(const int index, const double cutoff) const {
      checkIndex_(index);
      if ( cutoff >= 0.0 || cutoff < 0.0 ) {
        std::vector<int> ids;
        for ( const auto & neighbor : getNeighborDistances_(getPos_(index), cutoff) ) {
          ids.push_back(neighbor.first);
        }
        return ids;
      }"""))
r(2, 'lattice-random', (L, """        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {""", """        if ( !(x_lattice_pos >= 0 && x_lattice_pos < length_) ) {"""))
r(2, 'lattice-map', (L, """          if ( distances.count(neigh.first) == 0 || neigh.second < distances[neigh.first] ) {
            distances[neigh.first] = neigh.second;
          }""", """          auto found = distances.find(neigh.first);
          if ( found == distances.end() ) {
            distances.emplace(neigh.first, neigh.second);
          } else if ( neigh.second < found->second ) {
            found->second = neigh.second;
          }"""))
r(1, 'marcus', (M, """      return pre_factor_ * H_AB * H_AB * std::exp(-1.0*std::pow(lambda_ + E_j - E_i,2.0)/expon_denom_);""", """      const double barrier = lambda_ + (E_j - E_i);
      return pre_factor_ * (H_AB * H_AB) * std::exp(-(barrier*barrier)/expon_denom_);"""))
r(2, 'marcus-sqrt', (M, 'pre_factor_(2.0*PI/h_bar * 1.0/(SRPI*2*SRk_B*std::pow(lambda*T,0.5)))', 'pre_factor_(2.0*PI/h_bar/(2*SRPI*SRk_B*std::sqrt(lambda*T)))'))
r(2, 'basin', (B, """    if(ratio>threshold_ || rate >= slowest_rate_*.9999) return true;
    return false;""", """    return ratio>threshold_ || rate >= slowest_rate_*.9999;"""))
