"""C27: listings and counts are complete and exact.  C24: references designate the stored entry."""
from .base import *
from ..engine import walk
from .stores import HINTS, store_exist, rate_present, member_map, SITEMAP, CLUSTERMAP, RATEMAP, NEIGHMAP, gen_rates, gen_store


def count_of(l, k):
    """how often k occurs in list l"""
    def one(x):
        g, cd, el = iter_list(x)
        return sum_(g, AND(cd, same(el, k)), ONE)
    return lift1(one, l)


def lift1(fn, t):
    if t.op == 'ite':
        return ITE(atom(t.a[0]), lift1(fn, t.a[1]), lift1(fn, t.a[2]))
    if istop(t):
        return t
    return fn(t)


def occurs(l, k):
    def one(x):
        g, cd, el = iter_list(x)
        return exists(g, AND(cd, same(el, k)))
    return lift1(one, l)


def one_if(p):
    return ITE(p, ONE, ZERO)


IDS = dict(HINTS)
IDS['sym', 'id'] = IDS['sym', 'neigh'] = lambda m, k, ty: m.choice((0, 1, 2, 3, 4, 5, 6, 7), k)


def neigh_gen(m, r, ty):
    base = r.base if isinstance(r, interp.Rec) else r
    d = {}
    for j in range(m.rnd(5, 'm', base)):
        k = m.choice((0, 1, 2, 3, 4, 6, 7), 'kk', j, base)
        d[k] = ('ptr', 'p<f>', m.rnd(1000000, 'pv', base, k))
    return interp.Map(d, ty)


IDS['fty', 'R:' + SITE, NEIGHMAP] = neigh_gen


def c27(c):
    c.group('site ids', ids, c, SC, 'getSiteIds')
    c.group('cluster ids', ids, c, CC, 'getClusterIds')
    c.group('site count', sizes, c, SC, 'getSiteIds')
    c.group('cluster count', sizes, c, CC, 'getClusterIds')
    c.group('all sites', all_sites, c)
    c.group('selected sites', some_sites, c)
    c.group('rates of all sites', rates, c)
    for meth, em in (('getResolutionOfClusters', 'getResolution'), ('getTimeIncrementOfClusters', 'getTimeIncrement'), ('getSiteIdsOfClusters', 'getSiteIdsInCluster')):
        c.group(meth, cluster_map, c, meth, em)
    c.group('smallest cluster id', smallest, c)
    c.group('rates out', rate_out, c)
    c.group('rates in', rate_in, c)
    c.group('rate counts', rate_counts, c)
    c.group('sources', sources, c)
    c.group('sinks', sinks, c)
    c.group('site neighbours', site_lists, c)
    c.group('site fastest', site_fastest, c)
    c.group('cluster members', cluster_lists, c)
    c.group('cluster fastest', cluster_fastest, c)
    c.group('cluster neighbours', cluster_neighbours, c)


def ids(c, cls, meth):
    fid = c.m(cls, meth, 0)
    s = c.sess()
    o = s.obj('store', cls)
    k = s.sym('id', 'i')
    l = s.fork().call(fid, o)
    c.oblige('%s::%s: each stored id once, no other' % (cls.split('::')[-1], meth), eq(count_of(l, k), one_if(store_exist(s, o, cls, k))), TRUE, c.where(fid),
             'an id is missing, repeated or not stored', IDS)


def sizes(c, cls, meth):
    fid = c.m(cls, 'size', 0)
    s = c.sess()
    o = s.obj('store', cls)
    n = s.fork().call(fid, o)
    l = s.fork()(o, meth)
    c.oblige('%s::size: number of entries' % cls.split('::')[-1], eq(n, size(l)), TRUE, c.where(fid), 'the count differs from the number of entries listed', IDS)


def entry(s, o, k, getter):
    f = s.fork()
    v = f(o, getter, k)
    return f, v


def all_sites(c):
    fid = c.m(SC, 'getSites', 0)
    s = c.sess()
    o = s.obj('store', SC)
    k = s.sym('id', 'i')
    m = s.fork().call(fid, o)
    ex = store_exist(s, o, SC, k)
    c.oblige('getSites: ids', ITE(ex, inm(m, k), NOT(inm(m, k))), TRUE, c.where(fid), 'a site is missing or extra', IDS)
    f, v = entry(s, o, k, 'getSite')
    if not f.dead:
        c.oblige('getSites: content', same(get(m, k), v), AND(f.pc, inm(m, k)), c.where(fid), 'a listed site differs from the stored one', IDS)


def some_sites(c):
    fid = c.m(SC, 'getSites', 1)
    s = c.sess()
    o = s.obj('store', SC)
    k = s.sym('id', 'i')
    ids_ = s.sym('ids', 'std::vector<i>')
    a = s.fork()
    m = a.call(fid, o, [ids_])
    if a.dead:
        return
    asked = occurs(ids_, k)
    c.oblige('getSites(ids): exactly those asked for', ITE(asked, inm(m, k), NOT(inm(m, k))), a.pc, c.where(fid), 'a site is missing or was not asked for', IDS)
    f, v = entry(s, o, k, 'getSite')
    if not f.dead:
        c.oblige('getSites(ids): content', same(get(m, k), v), AND(a.pc, f.pc, inm(m, k)), c.where(fid), 'a listed site differs from the stored one', IDS)


def rates(c):
    fid = c.m(SC, 'getRates', 0)
    s = c.sess()
    o = s.obj('store', SC)
    i, j = s.sym('id', 'i'), s.sym('neigh', 'i')
    m = s.fork().call(fid, o)
    ex = store_exist(s, o, SC, i)
    f = s.fork().assume(ex)
    f(o, 'getSite', i)
    r = f.rawret
    if f.dead:
        return
    n = f(r, 'getNeighborsAndRates', cls=SITE)
    has = AND(inm(m, i), inm(get(m, i), j))
    want = AND(ex, inm(n, j))
    c.oblige('Site_Container::getRates: exactly the rates of the sites', ITE(want, has, NOT(has)), TRUE, c.where(fid), 'a rate is missing or extra', IDS)
    c.oblige('Site_Container::getRates: the stored rate', same(get(get(m, i), j), get(n, j)), AND(want, has), c.where(fid), 'a rate listed is not the stored one', IDS)


def cluster_map(c, meth, em):
    fid = c.m(CC, meth, 0)
    s = c.sess()
    o = s.obj('store', CC)
    k = s.sym('id', 'i')
    m = s.fork().call(fid, o)
    ex = store_exist(s, o, CC, k)
    c.oblige('%s: every cluster' % meth, ITE(ex, inm(m, k), NOT(inm(m, k))), TRUE, c.where(fid), 'a cluster is missing or extra', IDS)
    f = s.fork().assume(ex)
    f(o, 'getCluster', k)
    if f.dead:
        return
    v = f(f.rawret, em, cls=CLUSTER)
    if em == 'getSiteIdsInCluster':
        j = s.sym('neigh', 'i')
        g = eq(count_of(get(m, k), j), count_of(v, j))
    else:
        g = same(get(m, k), v)
    c.oblige('%s: the value of that cluster' % meth, g, AND(f.pc, inm(m, k)), c.where(fid), 'the value listed is not that of the cluster', IDS)


def smallest(c):
    fid = c.m(SC, 'getSmallestClusterId', 1)
    s = c.sess()
    o = s.obj('store', SC)
    ids_ = s.sym('ids', 'std::vector<i>')
    a = s.fork()
    v = a.call(fid, o, [ids_])
    if a.dead:
        return
    b = fresh('i')
    f = s.fork()
    cid = f(o, 'getClusterIdOfSite', raw('at', ids_, b))
    un = num(-2147483648)
    g = ((raw('idx', ids_), b),)
    anyc = exists(g, AND(f.pc, NOT(eq(cid, un))))
    hit = exists(g, AND(f.pc, eq(cid, v)))
    lower = exists(g, AND(f.pc, NOT(eq(cid, un)), lt(cid, v)))
    h = dict(IDS)
    h['field', 'cluster_id_'] = lambda m, r, t: m.choice((-2147483648, 0, 1, 2, 3, -1), 'cid', r.base)
    h['sym', 'ids'] = lambda m, k, ty: [m.choice((0, 1, 2, 3, 4, 5, 7), 'ids', i) for i in range(m.rnd(5, 'nids'))]
    c.oblige('getSmallestClusterId: none if no site is in a cluster', OR(anyc, eq(v, un)), a.pc, c.where(fid), 'a cluster id although no listed site is in a cluster', h)
    c.oblige('getSmallestClusterId: id of one of the sites', OR(NOT(anyc), AND(hit, NOT(eq(v, un)))), a.pc, c.where(fid), 'not the cluster id of a listed site', h)
    c.oblige('getSmallestClusterId: no smaller one', NOT(AND(anyc, lower)), a.pc, c.where(fid), 'a listed site belongs to a cluster with a smaller id', h)


def ratemap(c, s, o):
    fs = [f['n'] for f in c.p.classes[RC]['fields'] if f['t'] == RATEMAP]
    if len(fs) != 1:
        raise NoAnchor('rate map')
    return getf(s.val(o), fs[0], RATEMAP)


def rate_setup(c):
    s = c.sess()
    o = s.obj('store', RC)
    return s, o, ratemap(c, s, o), s.sym('id', 'i'), s.sym('a', 'i'), s.sym('b', 'i')


RH = dict(IDS)
for _n in 'ab':
    RH['sym', _n] = IDS['sym', 'id']


def rate_out(c):
    fid = c.m(RC, 'getOutgoingRates', 1)
    s, o, R, k, i, j = rate_setup(c)
    m = s.fork().call(fid, o, [k])
    has = AND(inm(m, i), inm(get(m, i), j))
    want = AND(eq(i, k), inm(R, i), inm(get(R, i), j))
    c.oblige('getOutgoingRates: exactly the rates off the site', ITE(want, has, NOT(has)), TRUE, c.where(fid), 'a rate is missing or extra', RH)
    c.oblige('getOutgoingRates: the stored rate', same(get(get(m, i), j), get(get(R, i), j)), AND(want, has), c.where(fid), 'not the stored rate', RH)
    c.oblige('getOutgoingRates: nothing listed without rates', OR(NOT(inm(m, i)), AND(eq(i, k), inm(R, i))), TRUE, c.where(fid), 'an empty entry is listed', RH)


def rate_in(c):
    fid = c.m(RC, 'getIncomingRates', 1)
    s, o, R, k, i, j = rate_setup(c)
    m = s.fork().call(fid, o, [k])
    has = AND(inm(m, i), inm(get(m, i), j))
    want = AND(eq(j, k), inm(R, i), inm(get(R, i), j))
    c.oblige('getIncomingRates: exactly the rates to the site', ITE(want, has, NOT(has)), TRUE, c.where(fid), 'a rate is missing or extra', RH)
    c.oblige('getIncomingRates: the stored rate', same(get(get(m, i), j), get(get(R, i), j)), AND(want, has), c.where(fid), 'not the stored rate', RH)
    c.oblige('getIncomingRates: nothing listed without rates', OR(NOT(inm(m, i)), AND(inm(R, i), inm(get(R, i), k))), TRUE, c.where(fid), 'an empty entry is listed', RH)


def rate_counts(c):
    s, o, R, k, i, j = rate_setup(c)
    f1, f2 = c.m(RC, 'incomingRateCount', 1), c.m(RC, 'outgoingRateCount', 1)
    n1 = s.fork().call(f1, o, [k])
    b = fresh('i')
    c.oblige('incomingRateCount', eq(n1, sum_(((raw('dom', R), b),), inm(get(R, b), k), ONE)), TRUE, c.where(f1), 'not the number of rates to the site', RH)
    n2 = s.fork().call(f2, o, [k])
    c.oblige('outgoingRateCount', eq(n2, ITE(inm(R, k), size(get(R, k)), ZERO)), TRUE, c.where(f2), 'not the number of rates off the site', RH)


def sources(c):
    fid = c.m(RC, 'getSourceSiteIds', 0)
    s, o, R, k, i, j = rate_setup(c)
    l = s.fork().call(fid, o)
    b = fresh('i')
    inc = exists(((raw('dom', R), b),), inm(get(R, b), k))
    c.oblige('getSourceSiteIds: sites with rates off and none to them, once', eq(count_of(l, k), one_if(AND(inm(R, k), NOT(inc)))), TRUE, c.where(fid), 'a source is missing, repeated or wrong', RH)


def sinks(c):
    fid = c.m(RC, 'getSinkSiteIds', 0)
    s, o, R, k, i, j = rate_setup(c)
    l = s.fork().call(fid, o)
    b = fresh('i')
    inc = exists(((raw('dom', R), b),), inm(get(R, b), k))
    c.oblige('getSinkSiteIds: sites with rates to them and none off, once', eq(count_of(l, k), one_if(AND(inc, NOT(inm(R, k))))), TRUE, c.where(fid), 'a sink is missing, repeated or wrong', RH)


def site_lists(c):
    s = c.sess()
    o = s.obj('site', SITE)
    k = s.sym('id', 'i')
    n = s.fork()(o, 'getNeighborsAndRates')
    H = s.en.rootval(s.st, ('heap', 'f'))
    f1 = c.m(SITE, 'getNeighborSiteIds', 0)
    c.oblige('getNeighborSiteIds: each neighbour once', eq(count_of(s.fork().call(f1, o), k), one_if(inm(n, k))), TRUE, c.where(f1), 'a neighbour is missing, repeated or wrong', IDS)
    f2 = c.m(SITE, 'isNeighbor', 1)
    v = asbool(s.fork().call(f2, o, [k]))
    c.oblige('isNeighbor', ITE(v, inm(n, k), NOT(inm(n, k))), TRUE, c.where(f2), 'does not agree with the neighbours stored', IDS)
    f3 = c.m(SITE, 'getRateToNeighbors', 0)
    l = s.fork().call(f3, o)
    x = s.sym('x', 'f')
    b = fresh('i')
    h = dict(IDS)
    h['heap', 'f'] = lambda m, k_, ty: interp.Map({}, ty, None)
    nn = sum_(((raw('dom', n), b),), eq(get(H, get(n, b)), x), ONE)
    c.oblige('getRateToNeighbors: the rate of every neighbour', eq(count_of(l, x), nn), TRUE, c.where(f3), 'a rate is missing, repeated or wrong', IDS)
    c.oblige('getRateToNeighbors: as many rates as neighbours', eq(size(l), size(n)), TRUE, c.where(f3), 'a rate is missing or extra', IDS)
    c.oblige('getRateToNeighbors: sum', eq(lift1(lambda y: (lambda t: sum_(t[0], t[1], t[2]))(iter_list(y)), l), sum_(((raw('dom', n), b),), TRUE, get(H, get(n, b)))), TRUE, c.where(f3),
             'a rate is missing, repeated or wrong', IDS)
    f4 = c.m(SITE, 'getRateToNeighbor', 1)
    g = s.fork()
    v = g.call(f4, o, [k])
    if not g.dead:
        c.oblige('getRateToNeighbor: the stored rate', same(v, get(H, get(n, k))), AND(g.pc, inm(n, k)), c.where(f4), 'not the rate to that neighbour', IDS)
    c.oblige('getRateToNeighbor: only for neighbours', ITE(inm(n, k), g.pc, NOT(g.pc)), TRUE, c.where(f4), 'answered for a site that is no neighbour, or refused for a neighbour', IDS)
    f5 = c.m(SITE, 'getNeighborsAndRatesConst', 0)
    c.oblige('getNeighborsAndRatesConst', same(s.fork().call(f5, o), n), TRUE, c.where(f5), 'differs from getNeighborsAndRates', IDS)


def site_fastest(c):
    fid = c.m(SITE, 'getFastestRate', 0)
    s = c.sess()
    o = s.obj('site', SITE)
    n = s.fork()(o, 'getNeighborsAndRates')
    H = s.en.rootval(s.st, ('heap', 'f'))
    v = s.fork().call(fid, o)
    b = fresh('i')
    g = ((raw('dom', n), b),)
    r = get(H, get(n, b))
    pos = NOT(exists(g, le(r, ZERO)))
    c.oblige('getFastestRate: no rate is faster', NOT(exists(g, gt(r, v))), pos, c.where(fid), 'a rate of the site is faster', IDS)
    c.oblige('getFastestRate: a rate of the site', OR(exists(g, eq(r, v)), AND(NOT(exists(g, TRUE)), eq(v, ZERO))), pos, c.where(fid), 'not a rate of the site', IDS)


def cluster_lists(c):
    fld = member_map(c)
    s = c.sess()
    o = s.obj('cluster', CLUSTER)
    M = getf(s.val(o), fld, SITEMAP)
    k = s.sym('id', 'i')
    f1 = c.m(CLUSTER, 'siteIsInCluster', 1)
    v = asbool(s.fork().call(f1, o, [k]))
    c.oblige('siteIsInCluster', ITE(v, inm(M, k), NOT(inm(M, k))), TRUE, c.where(f1), 'does not agree with the members', IDS)
    f2 = c.m(CLUSTER, 'getSiteIdsInCluster', 0)
    c.oblige('getSiteIdsInCluster: each member once', eq(count_of(s.fork().call(f2, o), k), one_if(inm(M, k))), TRUE, c.where(f2), 'a member is missing, repeated or wrong', IDS)
    f3 = c.m(CLUSTER, 'getNumberOfSitesInCluster', 0)
    c.oblige('getNumberOfSitesInCluster', eq(s.fork().call(f3, o), size(M)), TRUE, c.where(f3), 'not the number of members', IDS)
    f4 = c.m(CLUSTER, 'getSitesInCluster', 0)
    l = s.fork().call(f4, o)
    c.oblige('getSitesInCluster: as many as members', eq(size(l), size(M)), TRUE, c.where(f4), 'a member is missing or extra', IDS)
    c.oblige('getSitesInCluster: every member', occurs(l, get(M, k)), inm(M, k), c.where(f4), 'a member is missing', IDS)


def cluster_fastest(c):
    fid = c.m(CLUSTER, 'getFastestRateOffCluster', 0)
    fld = member_map(c)
    s = c.sess()
    o = s.obj('cluster', CLUSTER)
    M = getf(s.val(o), fld, SITEMAP)
    H = s.en.rootval(s.st, ('heap', 'f'))
    a = s.fork()
    v = a.call(fid, o)
    i, j = fresh('i'), fresh('i')
    t = s.fork()
    el = t.en.tmp(get(M, i), t.st)
    n = t(el, 'getNeighborsAndRates', cls=SITE)
    g = ((raw('dom', M), i), (raw('dom', n), j))
    r = get(H, get(n, j))
    out = NOT(inm(M, j))
    pos = NOT(exists(g, le(r, ZERO)))
    c.oblige('getFastestRateOffCluster: no rate off is faster', NOT(exists(g, AND(out, gt(r, v)))), AND(a.pc, pos), c.where(fid), 'a rate off the cluster is faster', IDS)
    c.oblige('getFastestRateOffCluster: a rate off the cluster', OR(exists(g, AND(out, eq(r, v))), AND(NOT(exists(g, out)), eq(v, ZERO))), AND(a.pc, pos), c.where(fid), 'not a rate off the cluster', IDS)


def cluster_neighbours(c):
    """after an update the outside neighbours listed are exactly those of the members"""
    from .cluster import CH, built
    fid = c.m(CLUSTER, 'getSiteIdsNeighboringCluster', 0)
    up = c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)
    s, o, M = built(c)
    k = s.sym('id', 'i')
    a = s.fork()
    a.call(up, o)
    if a.dead:
        return
    l = a.fork().call(fid, o)
    i = fresh('i')
    t = s.fork()
    el = t.en.tmp(get(M, i), t.st)
    nb = asbool(t(el, 'isNeighbor', k, cls=SITE))
    want = AND(NOT(inm(M, k)), exists(((raw('dom', M), i),), nb))
    c.oblige('getSiteIdsNeighboringCluster: each outside neighbour once', eq(count_of(l, k), one_if(want)), a.pc, c.where(fid), 'an outside neighbour is missing, repeated or wrong', CH)


# ---------------------------------------------------------------------------------------------------------------- C24
def c24(c):
    for cls, getter, ecls, adds, ty in ((SC, 'getSite', SITE, ('addSite', 'addSites'), SITEMAP), (CC, 'getCluster', CLUSTER, ('addCluster', 'addClusters'), CLUSTERMAP)):
        c.group(cls + ' references', refs, c, cls, getter, ecls)
        c.group(cls + ' stability', stable, c, cls, getter, ecls)


def refs(c, cls, getter, ecls):
    """acting on the reference acts on the stored entry"""
    fid = c.m(cls, getter, 1)
    short = cls.split('::')[-1]
    f = c.p.funcs[fid]
    c.settled('%s::%s returns a reference' % (short, getter), f['ret'].startswith('r<'), c.where(fid), 'returns a copy')
    s = c.sess()
    o = s.obj('store', cls)
    k = s.sym('id', 'i')
    a = s.fork()
    a.call(fid, o, [k])
    r = a.rawret
    if a.dead:
        return
    a(r, 'occupy', cls=ecls)
    b = a.fork()
    occ = asbool(b(o, 'isOccupied', k))
    c0 = a.fork()
    occ0 = asbool(c0(r, 'isOccupied', cls=ecls))
    c.oblige('%s::%s: the reference designates the stored entry' % (short, getter), ITE(occ, occ0, NOT(occ0)), AND(b.pc, c0.pc), c.where(fid), 'a change made through the reference is not seen in the store', HINTS)
    d = a.fork()
    v = d(o, getter, k)
    c.oblige('%s::%s: same entry on every request' % (short, getter), same(v, a.val(r)), d.pc, c.where(fid), 'the entry found by id differs from the one behind the reference', HINTS)
    b2 = a.fork()
    b2(r, 'vacate', cls=ecls)
    v2 = b2.fork()(o, getter, k)
    e2 = s.fork()
    e2(o, getter, k)
    e2(e2.rawret, 'occupy', cls=ecls)
    e2(o, getter, k)
    e2(e2.rawret, 'vacate', cls=ecls)
    c.oblige('%s::%s: one entry, however often requested' % (short, getter), same(b2.val(o), e2.val(o)), AND(b2.pc, e2.pc), c.where(fid), 'the reference and the id lead to different entries', HINTS)


NODE = ('std::unordered_map<', 'std::map<', 'std::list<', 'std::unordered_set<', 'std::set<', 'std::deque<', 'std::multimap<', 'std::unordered_multimap<')
SMART = ('std::unique_ptr<', 'std::shared_ptr<', 'p<')


def stable(c, cls, getter, ecls):
    """the lvalue returned lies in a container whose growth moves no element, or is held through a pointer that growth only copies"""
    fid = c.m(cls, getter, 1)
    short = cls.split('::')[-1]
    fields = c.p.classes[cls]['fields']
    holding = [f for f in fields if ('R:' + ecls) in f['t']]
    if not holding:
        c.open('%s: entries' % short, 'no field holds the entries')
        return
    bad = [f for f in holding if moves(f['t'], 'R:' + ecls)]
    c.settled('%s: the container of the entries keeps them in place as it grows' % short, not bad, c.where(fid),
              'entries are stored by value in %s, which moves them when it grows' % ', '.join('%s %s' % (f['t'], f['n']) for f in bad))


    for f in holding:
        if not moves(f['t'], 'R:' + ecls):
            renewed(c, cls, f, short)


DROPS = ('clear', 'extract', 'pop_front', 'pop_back', 'resize', 'remove', 'remove_if')
FILLS = ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]', 'push_back', 'emplace_back', 'emplace_hint', 'merge')


def renewed(c, cls, field, short):
    """no operation of the store replaces the container or takes entries out to put them in again"""
    fq = cls + '::' + field['n']
    memo = {}

    def scan(fid, param, depth=0):
        """(place, how) replacements and drops, whether something is put in; param: index of the parameter that is the container, None: through the member"""
        key = (fid, param)
        if key in memo:
            return memo[key]
        memo[key] = ([], [], False)
        f = c.p.funcs[fid]
        c.functions.add(fid)
        al = {f['params'][param]['id']} if param is not None else set()
        new, drop, fill = [], [], False
        for part in (f.get('inits') if f['kind'] != 'ctor' else None, f.get('body')):
            for n in walk(part) if part is not None else ():
                if n.get('k') == 'decl':
                    for v in n.get('v', ()):
                        if isinstance(v.get('init'), dict) and (v.get('ref') or str(v.get('t')).startswith('r<')) and is_it(v['init'], al):
                            al.add(v['id'])
        for part in (f.get('body'),):
            for n in walk(part) if part is not None else ():
                k = n.get('k')
                wh = '%s:%s' % (f['file'], n.get('l', f['l']))
                nm = str(n.get('q') or n.get('f') or '').split('(')[0].split('::')[-1]
                if k == 'asg' and is_it(n['a'], al):
                    new.append((wh, 'assigned'))
                elif k == 'mcall' and is_it(n.get('o'), al):
                    if nm in ('swap', 'operator='):
                        new.append((wh, 'replaced'))
                    elif nm == 'erase':
                        c.open('%s::%s' % (short, f['n']), 'erases')
                    elif nm in DROPS:
                        drop.append((wh, 'emptied of entries'))
                    elif nm in FILLS and not n.get('mc'):
                        fill = True
                elif k in ('call', 'mcall', 'ctor'):
                    g = n.get('f')
                    for i, a in enumerate(n.get('a', ())):
                        if not is_it(a, al):
                            continue
                        if g in c.p.funcs:
                            pt = str(c.p.funcs[g]['params'][i]['t']) if i < len(c.p.funcs[g]['params']) else ''
                            if pt.startswith('r<') and not pt.startswith('r<c '):
                                r = scan(g, i, depth + 1)
                                new, drop, fill = new + r[0], drop + r[1], fill or r[2]
                        elif nm in ('swap', 'exchange', 'move') and k == 'call':
                            new.append((wh, 'replaced'))
                        elif k == 'mcall' and nm in ('swap', 'merge') or k == 'ctor' and n.get('move'):
                            new.append((wh, 'replaced'))
                    if param is None and k == 'mcall' and g in c.p.funcs and c.p.funcs[g].get('cls') == cls:
                        r = scan(g, None, depth + 1)
                        new, drop, fill = new + r[0], drop + r[1], fill or r[2]
        memo[key] = (new, drop, fill)
        return memo[key]

    def is_it(n, al):
        while isinstance(n, dict) and n.get('k') == 'cast':
            n = n.get('e')
        if not isinstance(n, dict):
            return False
        if n.get('k') == 'mem':
            return n.get('fq') == fq
        if n.get('k') == 'call' and str(n.get('q')) == 'std::move' and n.get('a'):
            return is_it(n['a'][0], al)
        return n.get('k') == 'var' and n.get('id') in al
    for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
        if f.get('cls') != cls or f.get('body') is None or f['kind'] != 'method' or f.get('acc') != 'public' or f['n'].startswith('operator'):
            continue
        new, drop, fill = scan(f['id'], None)
        bad = new or (drop if fill else [])
        c.settled('%s::%s/%d leaves the entries where they are' % (short, f['n'], len(f['params'])), not bad, bad[0][0] if bad else c.where(f['id']),
                  'the container of the entries is %s, entries stored before are created anew and references to them dangle' % (bad[0][1] if bad else ''))


def moves(t, e):
    """does a container type relocate elements of type e on insertion"""
    if t == e or e not in t:
        return False
    if t.startswith(SMART):
        return False
    if t.startswith(('std::vector<', 'std::basic_string<')):
        inner = targs(t)
        return inner[0] == e or any(x == e for x in inner) or not inner[0].startswith(SMART) and moves2(inner[0], e)
    if t.startswith(NODE):
        return any(moves(x, e) for x in targs(t))
    return False


def moves2(t, e):
    """an element of type t embeds e by value"""
    if t == e:
        return True
    if t.startswith('std::pair<'):
        return any(moves2(x, e) for x in targs(t))
    return False
