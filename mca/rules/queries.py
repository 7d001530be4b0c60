"""C02: questions change nothing.  C24: references designate the entry."""
from .base import *
from .stores import HINTS, exit_sess

I, V, F = 'i', 'std::vector<i>', 'f'
# questions: answered without changing anything; draws: only used to observe the random stream
API = {
    SC: ([('exist', I), ('getSite', I), ('getSites', V), ('getSites',), ('size',), ('getClusterIdOfSite', I), ('partOfCluster', I), ('getSmallestClusterId', V),
          ('isOccupied', I), ('getSiteIds',), ('getTimeConstant', I), ('getRates',), ('getFastestRateOffSite', I), ('getRateToNeighborOfSite', I, I),
          ('getSiteIdsOfNeighbors', I)], [('getDwellTime', I)]),
    CC: ([('exist', I), ('getCluster', I), ('size',), ('isOccupied', I), ('getClusterIds',), ('getTimeConstant', I), ('getFastestRateOffCluster', I),
          ('getSiteIdsOfNeighbors', I), ('getResolutionOfClusters',), ('getTimeIncrementOfClusters',), ('getSiteIdsOfClusters',)], [('getDwellTime', I, I)]),
    RC: ([('getRate', I, I), ('incomingRateCount', I), ('outgoingRateCount', I), ('getIncomingRates', I), ('getOutgoingRates', I), ('getSourceSiteIds',), ('getSinkSiteIds',)], []),
    SITE: ([('isNeighbor', I), ('partOfCluster',), ('getRateToNeighbors',), ('getRateToNeighbor', I), ('getFastestRate',), ('getNeighborSiteIds',), ('getClusterId',),
            ('getProbabilityOfHoppingToNeighboringSite', I), ('getNeighborsAndRates',), ('getNeighborsAndRatesConst',), ('getProbabilitiesAndIdsOfNeighbors',),
            ('getTimeConstant',), ('isOccupied',), ('isOccupied', I), ('getVisitFrequency',), ('getId',)], [('getDwellTime', I), ('pickNewSiteId',)]),
    CLUSTER: ([('siteIsInCluster', I), ('getSitesInCluster',), ('getSiteIdsInCluster',), ('getSiteIdsNeighboringCluster',), ('getNumberOfSitesInCluster',),
               ('getProbabilityOfOccupyingInternalSite', I), ('getResolution',), ('getTimeIncrement',), ('getConvergenceTolerance',), ('getConvergenceIterations',),
               ('getProbabilityOfHoppingToNeighborOfCluster', I), ('getFastestRateOffCluster',), ('getTimeConstant',), ('isOccupied',), ('isOccupied', I), ('getId',)],
              [('getDwellTime', I), ('pickNewSiteId', I)]),
    WALKER: ([('getIdOfSiteCurrentlyOccupying',), ('getPotentialSite',), ('getDwellTime',)], []),
    QUEUE: ([('size',), ('isSorted',), ('at', I)], []),
    CUBOID: ([('getLength',), ('getWidth',), ('getHeight',), ('getLatticeSpacing',), ('getIndex', I, I, I), ('getIndex', V), ('getPosition', I), ('getX', I), ('getY', I), ('getZ', I),
              ('isXPeriodic',), ('isYPeriodic',), ('isZPeriodic',), ('getSmallestDistance', I, I), ('getNeighbors', I, F), ('getNeighborDistances', I, F),
              ('getNeighborDistances', V, F), ('getNeighborDistances', F)], [('getRandomSite', 'E', I)]),
}


def argty(pt):
    t = pt
    for p in ('rr<', 'r<'):
        if t.startswith(p):
            t = t[len(p):-1]
    if t.startswith('c '):
        t = t[2:]
    return t


def resolve(c, cls, sig):
    name, tys = sig[0], sig[1:]

    def ok(f):
        for p, t in zip(f['params'], tys):
            a = argty(p['t'])
            if t == 'E':
                if not a.startswith('E:'):
                    return False
            elif is_num(t):
                if not is_num(a) or (t == 'f') != (a == 'f'):
                    return False
            elif a != t:
                return False
        return True
    return c.m(cls, name, len(tys), ok)


def ask(s, o, fid, tag):
    f = s.p.funcs[fid]
    args = [s.sym('%s%d' % (tag, i), argty(p['t'])) for i, p in enumerate(f['params'])]
    v = s.call(fid, o, args)
    return v


def c02(c):
    for cls, (qs, draws) in API.items():
        for q in qs:
            c.group('%s::%s' % (cls, q[0]), c02_one, c, cls, q, qs, draws)


HEAPS = (('heap', 'f'),)


def c02_one(c, cls, q, qs, draws):
    fid = resolve(c, cls, q)
    short = cls.split('::')[-1]
    nm = '%s::%s(%s)' % (short, q[0], ','.join(q[1:]))
    s = c.sess()
    o = s.obj('o', cls)
    v0 = s.val(o)
    h0 = {r: s.en.rootval(s.st, r) for r in HEAPS}
    a = s.fork()
    ask(a, o, fid, 'q')
    ends = [(a, a.pc, c.where(fid), 'answered')] if not a.dead else []
    ends += [(exit_sess(a, x), x.pc, x.where, 'refused') for x in a.last]
    for t, pc, wh, how in ends:
        v1 = t.val(o)
        h1 = {r: t.en.rootval(t.st, r) for r in HEAPS}
        if v1 is v0 and all(h0[r] is h1[r] for r in HEAPS):
            c.settled('%s %s: nothing changes' % (nm, how), True)
            continue
        observe(c, s, t, o, cls, '%s %s' % (nm, how), pc, wh, qs + draws, fid)


def observe(c, s, t, o, cls, nm, pc, wh, obs, fid, hints=HINTS):
    """no observer can tell state t from state s"""
    for q in obs:
        try:
            of = resolve(c, cls, q)
            a, b = s.fork(), t.fork()
            x = ask(a, o, of, 'ask')
            y = ask(b, o, of, 'ask')
        except NoAnchor:
            continue
        except (Giveup, Blowup) as e:
            c.open('%s: %s afterwards' % (nm, q[0]), str(e))
            continue
        g = AND(OR(NOT(AND(pc, a.pc)), b.pc), OR(NOT(AND(pc, b.pc)), a.pc))
        what = '%s answers differently afterwards' % q[0]
        c.oblige('%s: %s afterwards' % (nm, q[0]), g, TRUE, wh, what, hints)
        if not a.dead and not b.dead and x is not UNIT:
            c.oblige('%s: %s afterwards same' % (nm, q[0]), same(x, y), AND(pc, a.pc, b.pc), wh, what, hints)
