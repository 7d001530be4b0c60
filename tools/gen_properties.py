#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that anchors stay readable)."""
import json, os
L='CoarseGrainSites/src/libmythical/'
I='CoarseGrainSites/include/mythical/'
SITE=[L+'topologyfeatures/site.cpp',L+'topologyfeatures/site.hpp']
CLU=[L+'topologyfeatures/cluster.cpp',L+'topologyfeatures/cluster.hpp']
TOP=[L+'topologyfeatures/topology_feature.cpp',L+'topologyfeatures/topology_feature.hpp']
CUB=[L+'charge_transport/cuboid_lattice.cpp',I+'charge_transport/cuboid_lattice.hpp']
SYS=[L+'coarsegrainsystem.cpp',I+'coarsegrainsystem.hpp']
CONT=[L+'site_container.cpp',L+'cluster_container.cpp',L+'rate_container.cpp']
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=obs or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p('C01','Naming an unknown site, cluster or rate is always refused',
 'Every operation of the site, cluster and rate stores that retrieves or acts on one particular id (or on each id of a list) raises invalid_argument when that id is not stored, and never yields a default, null or unrelated entry instead. The same id that is looked up is the one that is checked.',
 ['inputs','histories'],'all store contents, all ids and id lists, all operations of the stores',
 'Tests try one absent id on some of the operations; an operation that misses its check on one of two keys, or for one element of a list, passes them.',
 CONT,[('membership test before access',L+'site_container.cpp:getSite and siblings'),('exist() guard',L+'cluster_container.cpp'),('two-level key check',L+'rate_container.cpp:getRate')],
 obs=['exception type of each store operation','return value'])
p('C02','Asking never changes what is stored',
 'Read-only questions put to the stores, sites, clusters, walkers, lattice and queue (counts, lookups, listings, flags, time constants, rates) leave the stored population, the rates, the occupation and the random stream exactly as they were, whether they succeed or are refused. In particular asking about an unknown id never creates an entry for it.',
 ['inputs','histories'],'all contents, all query operations, known and unknown ids, answered or refused',
 'A phantom entry created by a lookup only shows in a later, different question; tests do not interleave them.',
 CONT+SITE+CLU+[L+'queue.cpp',L+'walker.cpp']+CUB,[('no write on any path of a query','all query methods'),('no operator[] on a possibly absent key',L+'rate_container.cpp:outgoingRateCount, '+L+'site_container.cpp:getSmallestClusterId')],
 obs=['size(), listings and sink/source sets before and after a query'])
p('C03','A second entry under the same id is refused and the first survives',
 'Adding a site, cluster, rate or neighbour whose id is already present is refused (exception or abort) without altering the entry already stored, one at a time or within a batch. A new id is stored under its own id with exactly the content handed in, and nothing else changes.',
 ['inputs','histories'],'all store contents, all additions, single and batched',
 'Tests add one duplicate to a store with one entry; overwriting before refusing, or a batch path that skips the check, is invisible to them.',
 CONT+SITE+CLU,[('duplicate guard before store','addSite/addSites/addCluster/addClusters/addRate/addRates/addNeighRate')],
 obs=['exception/abort','stored entry after the refused call'])
p('C04','State that was never assigned is never handed out',
 'Until it has been given one, a walker refuses to report its current or potential site, an object with identity refuses to report its id, and the coarse grain system refuses to report its time resolution, to initialise without one, to place walkers before initialisation, and to accept a seed after it. Once assigned, the value is reported.',
 ['histories','inputs'],'all call orders on freshly constructed objects; all assigned values',
 'Tests probe single orders; the guard must hold for every constructor and every path to the getter, and the system class is not even built by the tests here.',
 [L+'walker.cpp',I+'walker.hpp',L+'identity.hpp']+SYS,[('sentinel set by constructor and tested by getter',L+'walker.cpp'),('id_set_ flag',L+'identity.hpp'),('time_resolution_set_, topology_features_.size()',L+'coarsegrainsystem.cpp')],
 obs=['exceptions of getters'])
p('C05','Accessors report exactly what was set',
 'The value given to a constructor or setter is the value the matching accessor later reports, for every value: lattice dimensions, spacing and per-axis boundary; walker site, target and dwell time; site cluster membership and visit count; cluster tolerance, iterations and resolution with its time increment; object id; time resolution. Setting one attribute leaves the others alone.',
 ['inputs','configurations'],'all values, all constructors, all setters',
 'Tests set a few values; clamping, swapping of same-typed arguments and cross-talk between attributes show only for other values.',
 CUB+[L+'walker.cpp',I+'walker.hpp',L+'identity.hpp']+SITE+CLU+SYS,[('constructor initialisers',L+'charge_transport/cuboid_lattice.cpp'),('inline setters/getters',I+'walker.hpp, '+L+'topologyfeatures/*.hpp')],
 obs=['return values of accessors'])
p('C06','No object ever exposes an indeterminate value',
 'However an object of the library is constructed, no public operation can read a data member that has not been given a value by the constructor or by an operation that must come first.',
 ['histories','configurations'],'all constructors, all orders of public calls',
 'An uninitialised member reads as zero or a leftover in a test run and the test passes.',
 CUB+CLU+TOP+SITE+[L+'walker.cpp',L+'identity.hpp',I+'queue.hpp']+SYS,[('member initialisation','every constructor'),('guard flags','id_set_, time_resolution_set_')],
 obs=['valgrind-style uninitialised read','values returned right after construction'])
p('C07','Site hop odds and time constant always match its rates',
 'After any operation that sets, adds or replaces neighbour rates of a site, its time constant equals one over the sum of all its current rates, and it holds for every neighbour exactly one hop probability equal to that neighbour\'s rate over the same sum, so that they add up to one. This covers neighbours with equal or extremely different rates.',
 ['inputs','histories'],'all rate tables, all sequences of rate updates',
 'Tests use two or three round rates; a neighbour dropped for a tie, or a refresh skipped on one update path, passes them.',
 SITE,[('recompute after each mutation',L+'topologyfeatures/site.cpp:setRatesToNeighbors/addNeighRate/resetNeighRate'),('ordered set with comparator',L+'topologyfeatures/site.cpp:calculateProbabilityHopToNeighbors_')],
 state=[('neighbour rates','current rates','Site::neighRates_'),('hop probabilities','derived','Site::probabilityHopToNeighbor_')],
 obs=['time constant','probability per neighbour'])
p('C08','Updating a cluster leaves no residue of its earlier composition',
 'After a cluster is updated, every derived quantity it reports or uses to move walkers (occupation and hop probabilities, cumulative tables, escape time, time increment, internal dwell times) is recomputed from its current sites and rates alone, on every path and for every convergence method. Updating twice, or after sites were added or merged in, gives the same result as updating once a cluster built that way from the start.',
 ['histories','configurations'],'all histories of adding sites, merging and updating; all convergence methods',
 'Tests update each cluster once; stale or doubled tables need a second update.',
 CLU,[('tables cleared before refilling',L+'topologyfeatures/cluster.cpp:calculate*'),('order of recomputation',L+'topologyfeatures/cluster.cpp:updateProbabilitiesAndTimeConstant')],
 obs=['derived values after a second update'])
p('C09','A cluster\'s probabilities are normalised and weighted over all members',
 'After an update the occupation probabilities of the member sites, the odds of hopping to internal sites and the odds of hopping to outside neighbours each add up to one, and each outside neighbour\'s weight accumulates the contribution of every member site that can reach it. The cumulative table used for each choice is the running total of the same probabilities, entry for entry, and the escape time averages the members\' escape times with weights that add up to one. An internal site is weighted by its occupation times its time constant, an outside neighbour by the occupation of each member times its rate to that neighbour.',
 ['inputs','configurations'],'all cluster shapes and rates, all convergence methods and iteration counts',
 'Tests check rounded percentages on chains of two or three sites with equal rates.',
 CLU,[('normalise by total',L+'topologyfeatures/cluster.cpp:iterate_, calculateProbabilityHopToNeighbors_, calculateProbabilityHopToInternalSite_, calculateProbabilityHopOffInternalSite_'),('running totals','cumulitive_* tables')],
 obs=['probability accessors','distribution of picks'])
p('C10','A move is always to a legitimate site',
 'A site with neighbours always picks one of its own neighbours, with the odds it holds for it. A cluster picks one of its own members while the walker\'s stay is not used up and one of its outside neighbours otherwise, again with the odds held. No random draw, including the largest possible one, yields a non-existent site.',
 ['inputs','histories'],'all tables (including totals that round below one), all random draws',
 'A draw above a rounded total has odds of about 1e-16 per hop; no sampled test reaches it.',
 SITE+CLU,[('cumulative search and its fall-through',L+'topologyfeatures/site.cpp:pickNewSiteId, '+L+'topologyfeatures/cluster.cpp:pickInternalSite_/pickClusterNeighbor_')],
 obs=['returned site id'])
p('C11','A walker\'s stay on a cluster is drawn once, spent exactly and forgotten',
 'On entering a cluster a walker is allotted one exponentially distributed stay; the slices it is handed are never longer than the time increment nor than what is left, and it stays inside until the allotment is used up. When it leaves or is removed nothing of the allotment survives, so the next stay under the same walker id starts afresh, and other walkers\' allotments are untouched.',
 ['histories','inputs'],'all interleavings of slices, moves, departures and removals of any number of walkers',
 'Tests move one walker and never remove one from a cluster.',
 CLU+TOP,[('per-walker remaining time',L+'topologyfeatures/cluster.cpp:getDwellTime/hopWithinCluster_/pickClusterNeighbor_'),('removal hook installed for clusters',L+'topologyfeatures/cluster.cpp:Cluster()')],
 state=[('remaining time','per walker','Cluster::remaining_walker_dwell_times_')],
 obs=['dwell slices','membership of picks'])
p('C12','Occupying and vacating are exact opposites',
 'Occupying an empty site (alone, through a store, or as a member of a cluster) makes exactly that site report occupied and counts one visit; vacating it restores the previous occupation of the site and of its cluster and counts no visit. Other sites are unaffected, and naming a site that is not a member is refused without creating one.',
 ['histories','inputs'],'all sequences of paired occupy/vacate calls on sites, stores and clusters',
 'Tests pair the calls once per object and never look at both levels of a cluster.',
 TOP+SITE+CLU+CONT[:2],[('function-pointer slots for occupy/vacate/isOccupied',L+'topologyfeatures/topology_feature.cpp, cluster.cpp')],
 state=[('occupied_','number of walkers present','TopologyFeature')],
 obs=['isOccupied on site, store and cluster'])
p('C13','A seeded run has no other source of randomness',
 'Every random decision of sites, clusters and the system is drawn from the deciding object\'s own generator, which setting a seed fully determines; beyond the default seeding at construction no clock, entropy device, global generator or memory address influences any result. The lattice\'s random sites come from a generator of its own, deterministic from construction. Each seeded system gives its sites with neighbours and its clusters distinct consecutive seeds.',
 ['histories','schedules'],'all runs with a seed set, on any machine and memory layout',
 'Two runs in one process with the same layout agree by luck; tests never compare runs.',
 TOP+SITE+CLU+SYS+[L+'basin_explorer.cpp'],[('draws from own engine',L+'topologyfeatures/*.cpp'),('seed hand-out',L+'coarsegrainsystem.cpp:initializeSystem/createCluster_')],
 obs=['trajectories of two equally seeded runs'])
p('C14','The queue says sorted only when it is and serves the earliest walker',
 'The queue reports itself sorted only if its entries are in non-decreasing dwell-time order; sorting establishes that order, ordered insertion into a sorted queue keeps it with later arrivals behind equal times, and popping returns and removes exactly the front entry. No operation loses, duplicates or alters another entry.',
 ['histories','inputs'],'all sequences of add, ordered add, sort and pop; all dwell times including ties',
 'Tests use three distinct times in one order of calls.',
 [L+'queue.cpp',I+'queue.hpp'],[('sorted_ flag',L+'queue.cpp'),('find_if insertion point',L+'queue.cpp:sortedAdd'),('std::sort with less_than',L+'queue.cpp:sort')],
 obs=['isSorted, at, pop_current'])
p('C15','Every ordering handed to the standard library is a strict weak order',
 'Each comparison used to sort or to keep an ordered collection is irreflexive, asymmetric and transitive, with transitive equivalence, for all pairs of entries; where a collection is ordered by it, entries with different ids are never treated as the same.',
 ['inputs'],'all pairs and triples of entries, ties included',
 'A non-strict comparison is undefined behaviour that appears only with ties in long sequences.',
 [L+'queue.cpp']+SITE[:1]+CLU[:1]+SYS[:1],[('comparators','less_than, Comparator, CustomComparitor, lambdas passed to sort')],
 obs=['order and completeness of sorted tables'])
p('C16','Lattice index and position are inverse to each other',
 'For every lattice and every in-range position, the index of the position maps back to that position, whether decoded as a whole or one coordinate at a time, and different positions have different indices between 0 and the number of sites minus one.',
 ['inputs','configurations'],'all dimensions, all positions and indices',
 'Tests check a handful of sites of one 2x3x4 lattice.',
 CUB,[('linear index',L+'charge_transport/cuboid_lattice.cpp:getIndex_'),('decoding','getPos_, getX, getY, getZ')],
 obs=['getIndex, getPosition, getX/getY/getZ'])
p('C17','The lattice never works with an out-of-range coordinate or index',
 'A coordinate outside a fixed axis, an index that is negative or not below the number of sites, or a position without exactly three coordinates is refused with invalid_argument by every operation that takes one. On a periodic axis asking for the index of a position maps every integer coordinate to the congruent in-range coordinate of that same axis.',
 ['inputs','configurations'],'all integers as coordinate or index, all dimensions and boundary settings',
 'Tests try one coordinate just past each upper bound and no negative or far-out value.',
 CUB,[('checkPos*_/checkIndex_',L+'charge_transport/cuboid_lattice.cpp'),('get{X,Y,Z}Periodic_',L+'charge_transport/cuboid_lattice.cpp')],
 obs=['exceptions and returned indices'])
p('C18','All neighbour listings describe the same set of sites within the cutoff',
 'Each neighbour listing of the lattice (indices, distances by index, distances by position, whole-lattice map) contains exactly the other sites that have an image within the cutoff distance, with that distance, honouring the boundary setting of each axis. The whole-lattice map is symmetric and agrees with the per-site listing.',
 ['inputs','configurations'],'all lattices, sites, cutoffs and boundary settings',
 'Tests count neighbours at cutoff 1 on one lattice; diagonal and wrapped neighbours are never compared.',
 CUB,[('search box and distance test',L+'charge_transport/cuboid_lattice.cpp:getNeighbors, getNeighborDistances_, getNeighborDistances')],
 obs=['neighbour listings'])
p('C19','The smallest distance is the minimum-image distance',
 'The smallest distance between two sites is the Euclidean distance computed per axis from the shorter of the direct and, on a periodic axis only, the wrapped separation, times the lattice spacing. It is symmetric, and each axis uses its own coordinate, size and boundary setting.',
 ['inputs','configurations'],'all pairs of sites, dimensions, spacings and boundary settings',
 'Tests measure from site 0 on a one-dimensional lattice, where a wrong axis or a wrong origin cancels out.',
 CUB,[('minimum image per axis',L+'charge_transport/cuboid_lattice.cpp:getSmallestDistance, getDistance_')],
 obs=['getSmallestDistance'])
p('C20','A random site lies on the requested plane inside the lattice',
 'Drawing a random site on a plane returns a site whose fixed coordinate is the requested one and whose two free coordinates are each drawn from the full range of their own axis; a plane outside the lattice is refused whatever the boundary setting.',
 ['inputs','configurations'],'all planes, plane indices, dimensions, boundary settings and draws',
 'No test calls it.',
 CUB,[('per-axis distributions',L+'charge_transport/cuboid_lattice.cpp:setDistributions_, getRandomSite')],
 obs=['getRandomSite'])
p('C21','Marcus rates are true rates and obey detailed balance',
 'The hop rate between two energies is the Marcus expression: it has the dimension of one over time, is proportional to the squared coupling, and the ratio of forward to backward rate is the Boltzmann factor of the energy difference at the given temperature, for every reorganisation energy and temperature.',
 ['inputs'],'all energies, couplings, reorganisation energies and temperatures',
 'No test evaluates a rate.',
 [L+'charge_transport/marcus.cpp',I+'charge_transport/marcus.hpp',I+'constants.hpp'],[('prefactor and exponent',L+'charge_transport/marcus.cpp')],
 obs=['getRate'])
p('C22','A hop moves exactly one walker and keeps the books straight',
 'Hopping a walker to a free site vacates its old site, occupies exactly the new one, records the new site on the walker and gives it a fresh dwell time and then a fresh target from the place it now is; if the target is taken the walker stays, is re-counted where it is and draws again there. Placing a walker occupies its site once, and removing it vacates that site and drops its bookkeeping.',
 ['histories','schedules'],'all systems, all interleavings of walkers',
 'The system class needs a graph library absent here, so no test of it is built or run.',
 SYS,[('hop / initializeWalkers / removeWalkerFromSystem',L+'coarsegrainsystem.cpp')],
 obs=['occupation of sites, walker state after each hop'])
p('C23','Every site always resolves to the live object that represents it',
 'From initialisation on, every site of the system resolves to exactly one stored object: itself, or after coarse graining the stored cluster that contains it; the site\'s recorded cluster agrees with that. When clusters are merged, all sites of an absorbed cluster are re-directed before it is destroyed, so that no site resolves to a destroyed or temporary object.',
 ['histories'],'all sequences of cluster creation and merging',
 'The system class is not built by the tests here, and partial overlaps of basins with clusters are rare.',
 SYS+CLU,[('registry re-pointing',L+'coarsegrainsystem.cpp:createCluster_, mergeSitesAndClusters_')],
 state=[('registry','site id to object','CoarseGrainSystem::topology_features_')],
 obs=['getClusterIdOfSite, hop after a merge'])
p('C24','References handed out by the stores stay valid while the store grows',
 'A reference to a stored site or cluster designates that very entry, not a copy, and remains valid however many entries are added afterwards, until that entry itself is erased.',
 ['histories'],'all sequences of additions after a reference was taken',
 'Whether a dangling reference shows depends on reallocation; tests take references to stores that no longer grow.',
 CONT[:2]+[L+'site_container.hpp',L+'cluster_container.hpp']+SYS[:1],[('node-based map storage',L+'site_container.hpp, '+L+'cluster_container.hpp'),('return by reference into the map','getSite, getCluster')],
 obs=['reference taken before and used after additions'])
p('C25','Debug and release builds behave alike',
 'No assertion has a side effect: removing all assertions from the build changes nothing but the abort on a violated condition, and nothing else in the library depends on the build mode.',
 ['configurations'],'both build modes, all code paths',
 'The tests are only ever run in debug mode because they rely on assertions themselves.',
 SITE+CLU+TOP,[('assert conditions are pure','all assert() in the library')],
 obs=['NDEBUG build'])
p('C26','Merging clusters loses no site and no visit',
 'Moving the sites of one cluster into another leaves the receiving cluster with exactly the union of both memberships, each moved site marked as belonging to it and with its visit count carried over, refreshes its derived quantities, and leaves the donor empty of sites and derived tables. Sites and visits already in the receiver are kept.',
 ['histories','inputs'],'all pairs of clusters and visit histories',
 'Tests never merge two clusters.',
 CLU,[('migration',L+'topologyfeatures/cluster.cpp:migrateSitesFrom'),('visit bookkeeping','getVisitFrequency/setVisitFrequency/updateProbabilitiesAndTimeConstant')],
 obs=['member ids, cluster ids and visit counts after a merge'])
p('C27','Derived listings and counts are complete and exact',
 'Listings and counts of stored things (site ids, neighbours, rates in and out, sources, sinks, clusters with their members, fastest rates, smallest cluster id) contain exactly the entries that qualify, each once, with the stored values, for every content of the store.',
 ['inputs'],'all store contents',
 'Tests list stores of two or three entries in one arrangement.',
 CONT+SITE+CLU,[('listing loops','get*Ids, get*Rates, *RateCount, getSourceSiteIds, getSinkSiteIds, getFastestRate*, getSmallestClusterId')],
 obs=['returned listings'])
p('C28','A coarse-grained run reproduces the statistics of the plain run',
 'Over long runs, the share of time and visits per site and the escape statistics of a coarse-grained system agree with those of the same system simulated hop by hop.',
 ['inputs','histories'],'all systems whose basins satisfy the equilibrium condition, long runs',
 'Tests compare a few toy systems within 20 percent.',
 CLU+SYS,[('renormalisation of sites',L+'topologyfeatures/cluster.cpp')],obs=['time and visits per site'])
p('C29','Solving the master equation by tolerance terminates',
 'For every cluster and every positive tolerance, updating a cluster that converges by tolerance finishes.',
 ['inputs'],'all rate tables and tolerances',
 'Tests use iteration counts, not the tolerance.',
 CLU,[('damped iteration until error <= tolerance',L+'topologyfeatures/cluster.cpp:solveMasterEquation_')],obs=['termination of the update'])
p('C30','Coarse graining happens only where equilibrium is fast enough',
 'Sites are merged only by a hop that comes after more than the threshold number of hops since the last attempt (by the first such hop, unless attempts failed in between; never, while the threshold is inf_iterations), and only if twice the time to cross the basin found around the site hopped to is below the time resolution and, times the performance ratio, below one over the sum of the rates leaving the basin; a basin nothing leaves is never merged. Where this holds, all sites of the basin end up in one cluster, together with those that shared a cluster with them, and no other site does. The time to cross is the longest shortest path between two sites of the basin, links taking one over their rate. A new cluster is left in no less than two time increments, each at most the time resolution.',
 ['inputs','histories'],'all rates, crossing times, time resolutions, thresholds and performance ratios; new basins, joining sites, merging clusters',
 'The basin search needs the absent graph library; no test of it is built, and none probes the bounds of the conditions.',
 SYS+[L+'basin_explorer.cpp',L+'graph_library_adapter.hpp'],[('equilibrium condition',L+'coarsegrainsystem.cpp:sitesSatisfyEquilibriumCondition_'),('threshold',L+'coarsegrainsystem.cpp:hop'),('graph of crossing times',L+'graph_library_adapter.hpp, '+L+'coarsegrainsystem.cpp:getInternalTimeLimit_')],obs=['getClusters, getClusterIdOfSite, getResolutionOfClusters after hops'])
p('C31','A cluster reports occupied exactly while one of its members is',
 'However sites came to be members of a cluster (added alone or in a batch, empty or with a walker on them, or moved over from another cluster) and whatever walkers, one to a site, did since, the cluster reports occupied if and only if at least one of its members does; a cluster whose sites were moved away reports empty. Each member keeps the occupation it had when it joined.',
 ['histories'],'all histories of occupying, vacating, adding and merging',
 'Tests add empty sites to clusters only and never ask a merged cluster.',
 CLU+TOP,[('occupied_ of the cluster and of its members',L+'topologyfeatures/cluster.cpp:addSite/addSites/migrateSitesFrom, occupyCluster_/vacateCluster_')],
 obs=['isOccupied of the cluster and of each member'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
