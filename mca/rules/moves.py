"""How walkers move: C09 - C12, C26."""
import itertools
from .base import *
from .stores import HINTS, member_map, exit_sess, SITEMAP, NEIGHMAP
from .cluster import *
from .cluster import SH, CH
from ..interp import Map, Rec, Fr

TOLERANCE = num(Fr(25, 1000))


# ---------------------------------------------------------------------------------------------------------------- random choices
def draws(*ts):
    out = []
    for t in ts:
        for x in walk_terms(t):
            if x.op == 'draw' and x not in out:
                out.append(x)
    return out


def uniform(d, u):
    """value of draw d as a function of a number uniform on the unit interval"""
    dist = d.a[0]
    if dist.op == 'dist' and len(dist.a) == 3 and 'real' in dist.a[0]:
        return add(dist.a[1], mul(sub(dist.a[2], dist.a[1]), u))
    if dist.op == 'dist' and len(dist.a) == 2 and 'exponential' in dist.a[0]:
        return mul(num(-1), mul(raw('log', sub(ONE, u)), inv(dist.a[1])))
    if dist.op != 'dist' and 'uniform_real' in typ(dist):
        return u
    return None


def chance(cond, before=()):
    """chance of cond over the random number drawn last; None if it is not one number"""
    new = [d for d in draws(cond) if d not in before]
    if len(new) != 1:
        return None
    u = fresh('f')
    v = uniform(new[0], u)
    if v is None:
        return None
    body = subst(cond, {new[0]: v})
    return raw('measure', close('lam', ((u,), body), [u]))


def near(a, b, tol=TOLERANCE):
    return AND(lt(sub(a, b), tol), lt(sub(b, a), tol))


def odds(c, name, cond, expect, assume, where, what, hints, before=()):
    p = chance(cond, before)
    if p is None:
        if not [d for d in draws(cond) if d not in before]:
            # nothing drawn: the outcome is the same every time
            c.oblige(name, near(ITE(cond, ONE, ZERO), expect), assume, where, what, hints)
            return
        c.open(name, 'not decided by one number')
        return
    c.oblige(name, near(p, expect), assume, where, what, hints, n=c.n // 2)


# ---------------------------------------------------------------------------------------------------------------- members
def member(s, M, i, name='mem'):
    """fork with the member i of M as an object"""
    f = s.fork()
    return f, f.obj(name, SITE, get(M, i))


def neighbours(s, M, i):
    f, o = member(s, M, i)
    return f(o, 'getNeighborsAndRates')


def rate(s, M, i, n):
    f, o = member(s, M, i)
    return f(o, 'getRateToNeighbor', n)


def hop(s, M, i, n):
    f, o = member(s, M, i)
    return f(o, 'getProbabilityOfHoppingToNeighboringSite', n)


def tau(s, M, i):
    f, o = member(s, M, i)
    return f(o, 'getTimeConstant')


def outgoing(s, M, inside, i=None):
    """generators, condition, i, n over all rates leaving (or staying in) the cluster"""
    gi = ()
    if i is None:
        i = fresh('i')
        gi = ((raw('dom', M), i),)
    n = fresh('i')
    gens = gi + ((raw('dom', neighbours(s, M, i)), n),)
    cond = inm(M, n) if inside else NOT(inm(M, n))
    return gens, cond, i, n


class Clu:
    """a cluster as constructed with members M, updated"""

    def __init__(self, c, method=1):
        self.c = c
        self.s0, [(self.o, self.M)] = start(c, num(method), ('c', 'M'))
        self.s = updated(c, self.s0.fork(), self.o)
        self.up = c.where(c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0))

    def P(self, k):
        f = self.s.fork()
        return f(self.o, 'getProbabilityOfOccupyingInternalSite', k)

    def Q(self, k):
        f = self.s.fork()
        v = f(self.o, 'getProbabilityOfHoppingToNeighborOfCluster', k)
        return v, f.pc

    def listing(self):
        return self.s.fork()(self.o, 'getSiteIdsNeighboringCluster')


def nested(gens, cond, val):
    return sum_(gens, cond, val)


# ---------------------------------------------------------------------------------------------------------------- C09
def c09(c):
    jobs = []
    for nm, v in method_values(c)[0]:
        jobs.append(('probabilities, ' + nm, c09_probabilities, c, nm, v))
        jobs.append(('odds, ' + nm, c09_odds, c, nm, v))
    jobs.append(('escape time', c09_escape, c))
    c.groups(jobs)


def c09_probabilities(c, nm, v):
    k = Clu(c, 0)
    k.s0, [(k.o, k.M)] = start(c, v, ('c', 'M'))
    k.s = updated(c, k.s0.fork(), k.o)
    s, M = k.s, k.M
    b = fresh('i')
    c.oblige('occupation probabilities add up to one (%s)' % nm, eq(sum_(((raw('dom', M), b),), TRUE, k.P(b)), ONE), s.pc, k.up, 'occupation probabilities do not add up to one', CH)
    x = s.sym('id', 'i')
    c.oblige('occupation probabilities are not negative (%s)' % nm, ge(k.P(x), ZERO), AND(s.pc, inm(M, x)), k.up, 'an occupation probability is negative', CH)
    l = k.listing()
    g, cd, el = iter_list(l)
    q, qp = k.Q(el)
    c.oblige('odds of the outside neighbours add up to one (%s)' % nm, eq(sum_(g, cd, q), ONE), AND(s.pc, exists(g, cd)), k.up, 'odds of hopping to the neighbours do not add up to one', CH)
    # every outside neighbour once
    gens, cond, i, n = outgoing(s, M, False)
    reach = exists(gens, AND(cond, eq(n, x)))
    c.oblige('outside neighbours are listed once (%s)' % nm, eq(multiset(s, l), ITE(reach, ONE, ZERO)), s.pc, k.up, 'the neighbours listed are not the sites outside that members reach', CH)
    # weights
    total = sum_(gens, cond, mul(k.P(i), hop(s, M, i, n)))
    mine = sum_(gens, AND(cond, eq(n, x)), mul(k.P(i), hop(s, M, i, n)))
    qx, qxp = k.Q(x)
    c.oblige('weight of a neighbour accumulates all members (%s)' % nm, eq(mul(qx, total), mine), AND(s.pc, qxp, reach), k.up,
             'the odds of a neighbour are not the sum over the members that reach it', CH)


def c09_odds(c, nm, v):
    """the choices follow the same probabilities"""
    s0, [(o, M)] = start(c, v, ('c', 'M'))
    s = updated(c, s0.fork(), o)
    k = Clu.__new__(Clu)
    k.c, k.s, k.o, k.M = c, s, o, M
    w, x = s.sym('w', 'i'), s.sym('id', 'i')
    a = s.fork()
    a(o, 'getDwellTime', w, cls=CLUSTER)
    before = draws(a.pc, a.val(o))
    p = a.fork()
    pick = c.m(CLUSTER, 'pickNewSiteId', 1)
    v = p.call(pick, o, [w])
    A = s.fork().call(c.m(TF, 'getDwellTime', 1), o, [w])
    inc = s.fork()(o, 'getTimeIncrement')
    stay = gt(sub(A, inc), ZERO)
    b = fresh('i')
    weight = lambda i: mul(k.P(i), tau(s, M, i))
    tot = sum_(((raw('dom', M), b),), TRUE, weight(b))
    hit = AND(p.pc, eq(v, x))
    odds(c, 'internal odds follow time spent on the members (%s)' % nm, hit, div(weight(x), tot), AND(a.pc, stay, inm(M, x)), c.where(pick),
         'a member is not chosen with its share of the time', CH, before)
    qx, qxp = k.Q(x)
    odds(c, 'outside odds follow the odds held (%s)' % nm, hit, qx, AND(a.pc, NOT(stay), qxp), c.where(pick), 'a neighbour is not chosen with the odds held', CH, before)


def c09_escape(c):
    k = Clu(c, 1)
    s, M = k.s, k.M

    def off(i):
        g, cd, _, n = outgoing(s, M, False, i)
        return sum_(g, cd, rate(s, M, i, n))
    b, b2 = fresh('i'), fresh('i')
    leaves_ = exists(*outgoing(s, M, False)[:2])
    T = s.fork()(k.o, 'getTimeConstant')
    wt = lambda i: mul(k.P(i), mul(off(i), tau(s, M, i)))
    # sum of weight times 1/off is the sum over members that can leave of P tau
    num_ = sum_(((raw('dom', M), b),), gt(off(b), ZERO), mul(k.P(b), tau(s, M, b)))
    den = sum_(((raw('dom', M), b2),), TRUE, wt(b2))
    c.oblige('escape time is the weighted mean of the members', eq(mul(T, den), num_), AND(s.pc, leaves_), k.up, 'the escape time is not the mean of the members weighted by how likely they are left', CH)
    res = s.fork()(k.o, 'getResolution')
    inc = s.fork()(k.o, 'getTimeIncrement')
    c.oblige('time increment is the escape time over the resolution', eq(mul(inc, res), T), s.pc, k.up, 'the time increment does not match the escape time', CH)


# ---------------------------------------------------------------------------------------------------------------- C10
def at_one(h):
    """models in which a draw may be the largest possible one and rounding has left the total at or below it"""
    h = dict(h)
    h['draw_one'] = True
    return h


GIVEN = 'std::unordered_map<i,f>'


def fresh_site(c, name='site'):
    """a site as constructed with the rates given"""
    s = c.sess()
    o = s.make(name, SITE)
    g = s.obj('rates', GIVEN, s.sym('given', GIVEN))
    s.call(c.m(SITE, 'setRatesToNeighbors', 1), o, [g])
    return s, o, g


def answers(c, name, after, before, where, what, hints):
    c.oblige(name, after, before, where, what, hints)


def c10(c):
    jobs = [('site', c10_site, c, n, h) for n in (0, 1) for h in ('set', 'reset')]
    for nm, v in method_values(c)[0]:
        jobs.append(('cluster, ' + nm, c10_cluster, c, nm, v, False))
        jobs.append(('grown cluster, ' + nm, c10_cluster, c, nm, v, True))
    c.groups(jobs)


def c10_site(c, npar, hist):
    s, o, g = fresh_site(c)
    if hist == 'reset':
        s.assume(NOT(eq(s.sym('rate', 'p<f>'), NULL)))
        s.call(c.m(SITE, 'resetNeighRate', 1), o, [pair(s.sym('neigh', 'i'), s.sym('rate', 'p<f>'))])
    fid = c.m(SITE, 'pickNewSiteId', npar)
    n = s.fork()(o, 'getNeighborsAndRates')
    b = fresh('i')
    pre = AND(s.pc, exists(((raw('dom', n), b),), TRUE))
    p = s.fork()
    v = p.call(fid, o, [s.sym('w', 'i')][:npar])
    nm = 'pickNewSiteId/%d after %s' % (npar, hist)
    w = c.where(fid)
    H = at_one(SH)
    c.oblige(nm + ': a site is picked', p.pc, pre, w, 'no site is picked although there are neighbours', H)
    if p.dead:
        return
    c.oblige(nm + ': one of the neighbours', inm(n, v), AND(pre, p.pc), w, 'the site picked is not a neighbour', H, n=c.n * 3)
    x = s.sym('id', 'i')
    fx = s.fork()
    q = fx(o, 'getProbabilityOfHoppingToNeighboringSite', x)
    odds(c, nm + ': with the odds held', AND(p.pc, eq(v, x)), q, AND(pre, fx.pc), w, 'a neighbour is not picked with its probability', SH, draws(s.pc, s.val(o)))


def c10_cluster(c, nm, v, grown):
    s0, [(o, M)] = start(c, v, ('c', 'M'))
    if grown:
        updated(c, s0, o)
        e = s0.obj('e', SITE)
        s0.call(c.m(CLUSTER, 'addSite', 1), o, [e])
    s = updated(c, s0, o)
    members = lambda i: asbool(s.fork()(o, 'siteIsInCluster', i))
    w = s.sym('w', 'i')
    A = s.fork().call(c.m(TF, 'getDwellTime', 1), o, [w])
    inc = s.fork()(o, 'getTimeIncrement')
    pick = c.m(CLUSTER, 'pickNewSiteId', 1)
    wh = c.where(pick)
    H = at_one(CH)
    l = s.fork()(o, 'getSiteIdsNeighboringCluster')
    g, cd, el = iter_list(l)
    a = s.fork()
    left = A
    for turn in (1, 2):
        a(o, 'getDwellTime', w, cls=CLUSTER)
        left = sub(left, inc)
        p = a.fork()
        v = p.call(pick, o, [w])
        if p.dead:
            c.open('pick, slice %d' % turn, 'never answers')
            return
        tag = '%s%s, slice %d' % (nm, ', grown' if grown else '', turn)
        c.oblige('a site is picked (%s)' % tag, p.pc, AND(a.pc, exists(g, cd)), wh, 'no site is picked', H)
        c.oblige('a member while time is left (%s)' % tag, members(v), AND(p.pc, gt(left, ZERO)), wh, 'the stay is not used up but the site picked is not a member', H, n=c.n * 2)
        c.oblige('an outside neighbour when it is used up (%s)' % tag, exists(g, AND(cd, eq(el, v))), AND(p.pc, le(left, ZERO), exists(g, cd)), wh,
                 'the stay is used up but the site picked is not an outside neighbour', H, n=c.n * 2)
        if turn == 1 and not grown:
            x = s.sym('id', 'i')
            f = s.fork()
            qx = f(o, 'getProbabilityOfHoppingToNeighborOfCluster', x, cls=CLUSTER)
            odds(c, 'outside neighbour with the odds held (%s)' % tag, AND(p.pc, eq(v, x)), qx, AND(a.pc, le(left, ZERO), f.pc), wh, 'a neighbour is not picked with the odds held', CH, draws(a.pc, a.val(o)))
        a.assume(gt(left, ZERO))
        a.call(pick, o, [w])


# ---------------------------------------------------------------------------------------------------------------- C11
def MIN(a, b):
    return ITE(lt(a, b), a, b)


def c11(c):
    jobs = []
    for nm, v in method_values(c)[0][:2]:
        for part in (c11_slices, c11_others, c11_leaving, c11_removed):
            jobs.append(('%s, %s' % (part.__name__[4:], nm), part, c, nm, v))
        jobs += [('kept over %s, %s' % (h, nm), c11_kept, c, nm, v, h) for h in ('update', 'joined')]
    jobs.append(('long', c11_long, c) + method_values(c)[0][0])
    jobs += [('exponential, site', c11_site, c), ('exponential, cluster', c11_cluster, c)]
    c.groups(jobs)


class Stay:
    def __init__(self, c, v, res=None):
        self.c = c
        s, [(self.o, self.M)] = start(c, v, ('c', 'M'))
        if res is not None:
            s(self.o, 'setResolution', res, cls=CLUSTER)
        self.s = updated(c, s, self.o)
        self.w, self.w2 = s.sym('w', 'i'), s.sym('w2', 'i')
        self.tf = c.m(TF, 'getDwellTime', 1)
        self.dw = c.m(CLUSTER, 'getDwellTime', 1)
        self.inc = self.s.fork()(self.o, 'getTimeIncrement')
        self.where = c.where(self.dw)
        M = self.M
        g, cd, _, _ = outgoing(self.s, M, False)
        self.leaves = exists(g, cd)

    def stay(self, s, w=None):
        return s.fork().call(self.tf, self.o, [w or self.w])

    def slice(self, s, w=None):
        return s.call(self.dw, self.o, [w or self.w])

    def check(self, name, s, v, expect, assume, what, where=None):
        self.c.oblige(name, same(v, expect), AND(s.pc, assume), where or self.where, what, CH, n=self.c.n * 2)


def c11_slices(c, nm, v):
    k = Stay(c, v)
    a = k.s.fork()
    left = k.stay(a)
    for i in range(3 if c.tier == 'quick' else 5):
        n0 = len(draws(a.val(k.o)))
        pre = a.pc
        d = k.slice(a)
        c.oblige('slice %d is given (%s)' % (i + 1, nm), a.pc, AND(pre, k.leaves, gt(left, ZERO)), k.where, 'the time of a walker inside is refused', CH)
        k.check('slice %d is the increment or what is left (%s)' % (i + 1, nm), a, d, MIN(left, k.inc), TRUE, 'the slice handed out is not the increment, nor what is left')
        left = sub(left, k.inc)
        a.assume(gt(left, ZERO))
        if i < 2:
            p = c.m(CLUSTER, 'pickNewSiteId', 1)
            a.call(p, k.o, [k.w])


def c11_others(c, nm, v):
    k = Stay(c, v)
    a = k.s.fork().assume(NOT(eq(k.w, k.w2)))
    A = k.stay(a)
    k.slice(a)
    A2 = k.stay(a, k.w2)
    d2 = k.slice(a, k.w2)
    k.check('another walker has an allotment of its own (%s)' % nm, a, d2, MIN(A2, k.inc), TRUE, 'the stay of a walker is not drawn for it')
    a.assume(gt(A, k.inc))
    d = k.slice(a)
    k.check('and leaves the first one alone (%s)' % nm, a, d, MIN(sub(A, k.inc), k.inc), TRUE, "another walker's arrival changes the time a walker has left")


def c11_long(c, nm, v):
    """a stay much longer than the time constant"""
    k = Stay(c, v, num(2))
    a = k.s.fork()
    left = k.stay(a)
    for i in range(12):
        tm.new_budget()
        pre = a.pc
        d = k.slice(a)
        if i == 11:
            c.oblige('long stay, slice %d is given (%s)' % (i + 1, nm), a.pc, AND(pre, k.leaves, gt(left, ZERO)), k.where, 'the time of a walker inside is refused', CH)
            k.check('long stay, slice %d (%s)' % (i + 1, nm), a, d, MIN(left, k.inc), k.leaves, 'a long stay is cut short')
        left = sub(left, k.inc)
        a.assume(gt(left, ZERO))


def c11_kept(c, nm, v, how):
    """refreshing the cluster, or another site joining, while a walker is inside"""
    k = Stay(c, v)
    a = k.s.fork().assume(k.leaves)
    A = k.stay(a)
    k.slice(a)
    a.assume(gt(A, k.inc))
    if how == 'joined':
        e = a.obj('e', SITE)
        a.call(c.m(CLUSTER, 'addSite', 1), k.o, [e])
    updated(c, a, k.o)
    if a.dead:
        c.open('kept', 'the update never returns')
        return
    inc = a.fork()(k.o, 'getTimeIncrement')
    d = k.slice(a)
    k.check('what is left of a stay survives %s (%s)' % ('another site joining' if how == 'joined' else 'an update', nm), a, d, MIN(sub(A, k.inc), inc), TRUE, 'the stay of a walker inside is changed by an update',
            c.where(c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)))


def c11_leaving(c, nm, v):
    k = Stay(c, v)
    pick = c.m(CLUSTER, 'pickNewSiteId', 1)
    a = k.s.fork().assume(AND(NOT(eq(k.w, k.w2)), k.leaves))
    A2 = k.stay(a, k.w2)
    k.slice(a, k.w2)
    A = k.stay(a)
    k.slice(a)
    a.assume(le(A, k.inc))
    a.call(pick, k.o, [k.w])
    if a.dead:
        c.open('leaving', 'never picks')
        return
    b = a.fork()
    F = k.stay(b)
    d = k.slice(b)
    k.check('nothing is left of a stay that ended (%s)' % nm, b, d, MIN(F, k.inc), TRUE, 'a walker that comes back does not start a fresh stay', c.where(pick))
    b = a.fork().assume(gt(A2, k.inc))
    d = k.slice(b, k.w2)
    k.check('leaving spares the other walkers (%s)' % nm, b, d, MIN(sub(A2, k.inc), k.inc), TRUE, "a walker's leaving changes the time another has left", c.where(pick))


def c11_removed(c, nm, v):
    k = Stay(c, v)
    rem = c.m(CLUSTER, 'removeWalker', 2)
    x = k.s.sym('id', 'i')
    a = k.s.fork().assume(AND(NOT(eq(k.w, k.w2)), inm(k.M, x)))
    A2 = k.stay(a, k.w2)
    k.slice(a, k.w2)
    A = k.stay(a)
    k.slice(a)
    a.assume(gt(A, k.inc))
    pre = a.pc
    a.call(rem, k.o, [k.w, x])
    c.oblige('a walker can be removed (%s)' % nm, a.pc, pre, c.where(rem), 'removing a walker is refused', CH)
    b = a.fork()
    F = k.stay(b)
    d = k.slice(b)
    k.check('nothing is left of a walker removed (%s)' % nm, b, d, MIN(F, k.inc), TRUE, 'a walker under the same id does not start a fresh stay', c.where(rem))
    b = a.fork().assume(gt(A2, k.inc))
    d = k.slice(b, k.w2)
    k.check('removing spares the other walkers (%s)' % nm, b, d, MIN(sub(A2, k.inc), k.inc), TRUE, "removing a walker changes the time another has left", c.where(rem))


def exponential(c, nm, s, o, fid, tau, hints, before):
    v = s.call(fid, o, [s.sym('w', 'i')])
    new = [d for d in draws(v) if d not in before]
    x = mul(s.sym('x', 'f'), tau)
    H = dict(hints)
    H['sym', 'x'] = lambda m, k, ty: m.rnd(300, k) / 100.0 if m.rnd(2, k, 1) else 3.0 + m.rnd(80, k) / 10.0
    p = chance(gt(v, x), before)
    if p is not None:
        c.oblige(nm + ': so are long stays', near(mul(p, raw('exp', s.sym('x', 'f'))), ONE, num(Fr(1, 50))), s.pc, c.where(fid), 'long stays are not as frequent as for an exponential distribution with the time constant', H, n=c.n // 2)
    odds(c, nm + ': longer than x with chance exp(-x/tau)', gt(v, x), raw('exp', mul(num(-1), s.sym('x', 'f'))), s.pc, c.where(fid),
         'the stay is not exponentially distributed with the time constant', H, before)
    c.oblige(nm + ': never negative', ge(v, ZERO), s.pc, c.where(fid), 'a stay is negative', H)


def c11_site(c):
    s, o, g = fresh_site(c)
    tau = s.fork()(o, 'getTimeConstant')
    s.assume(gt(tau, ZERO))
    exponential(c, 'site', s, o, c.m(SITE, 'getDwellTime', 1), tau, SH, draws(s.pc, s.val(o)))


def c11_cluster(c):
    k = Stay(c, num(1))
    s = k.s.fork().assume(k.leaves)
    T = s.fork()(k.o, 'getTimeConstant')
    before = draws(s.pc, s.val(k.o))
    exponential(c, 'cluster', s, k.o, k.tf, T, CH, before)


# ---------------------------------------------------------------------------------------------------------------- C12
def c12(c):
    jobs = [('site', c12_site, c), ('site by id', c12_site, c, True), ('site store', c12_store, c), ('cluster', c12_cluster, c), ('cluster as a whole', c12_whole, c),
            ('strangers', c12_stranger, c), ('cluster store', c12_cstore, c)]
    jobs += [('histories of a store, ' + m, c12_history, c, True, m) for m in HOPS[:3]]
    jobs.append(('histories of a site', c12_history, c, False, None))
    c.groups(jobs)


def occ(s, o, *a, cls=None):
    return asbool(s.fork()(o, 'isOccupied', *a, cls=cls))


def c12_site(c, byid=False):
    s = c.sess()
    o = s.make('site', SITE)
    if byid:
        s(o, 'setId', s.sym('id', 'i'))
    args = [s.sym('id', 'i')] if byid else []
    oc, va = c.m(SITE, 'occupy', len(args)), c.m(SITE, 'vacate', len(args))
    tag = ' by id' if byid else ''
    vis = lambda t: t.fork()(o, 'getVisitFrequency')
    f0 = s.sym('freq', 'i')
    s(o, 'setVisitFrequency', f0)
    c.oblige('a new site is empty' + tag, NOT(occ(s, o, *args)), s.pc, c.where(c.ctor(SITE)), 'a new site is occupied', SH)
    a = s.fork()
    for turn in (1, 2):
        pre = a.pc
        a.call(oc, o, args)
        c.oblige('occupying is possible%s, %d' % (tag, turn), a.pc, pre, c.where(oc), 'occupying an empty site is refused', SH)
        c.oblige('an occupied site says so%s, %d' % (tag, turn), AND(occ(a, o, *args), occ(a, o)), a.pc, c.where(oc), 'the site does not report occupied', SH)
        c.oblige('one visit more%s, %d' % (tag, turn), same(vis(a), add(f0, num(turn))), a.pc, c.where(oc), 'not exactly one visit is counted', SH)
        pre = a.pc
        a.call(va, o, args)
        c.oblige('vacating is possible%s, %d' % (tag, turn), a.pc, pre, c.where(va), 'vacating an occupied site is refused', SH)
        c.oblige('a vacated site is empty%s, %d' % (tag, turn), NOT(OR(occ(a, o, *args), occ(a, o))), a.pc, c.where(va), 'the site still reports occupied', SH)
        c.oblige('no visit counted by leaving%s, %d' % (tag, turn), same(vis(a), add(f0, num(turn))), a.pc, c.where(va), 'vacating changes the visits', SH)


def c12_store(c):
    s = c.sess()
    o = s.make('store', SC)
    e, e2 = s.make('e1', SITE), s.make('e2', SITE)
    i, j = s.sym('id', 'i'), s.sym('other', 'i')
    s.assume(NOT(eq(i, j)))
    s(e, 'setId', i)
    s(e2, 'setId', j)
    s(o, 'addSite', e)
    s(o, 'addSite', e2)
    oc, va = c.m(SC, 'occupy', 1), c.m(SC, 'vacate', 1)
    a = s.fork()

    def site(t, k):
        t = t.fork()
        t(o, 'getSite', k)
        return t, t.rawret

    def state(t, k):
        t, r = site(t, k)
        return asbool(t.fork()(r, 'isOccupied', cls=SITE)), t.fork()(r, 'getVisitFrequency', cls=SITE)
    o0, v0 = state(s, i)
    a.call(oc, o, [i])
    c.oblige('store: occupying is possible', a.pc, s.pc, c.where(oc), 'occupying a stored site is refused', SH)
    o1, v1 = state(a, i)
    c.oblige('store: an occupied site says so', AND(o1, occ(a, o, i)), a.pc, c.where(oc), 'the site does not report occupied', SH)
    c.oblige('store: one visit more', same(v1, add(v0, ONE)), a.pc, c.where(oc), 'not exactly one visit is counted', SH)
    ox, vx = state(a, j)
    oy, vy = state(s, j)
    c.oblige('store: other sites untouched by occupying', AND(same(ox, oy), same(vx, vy)), a.pc, c.where(oc), 'another site changes', SH)
    a.call(oc, o, [j])
    pre = a.pc
    a.call(va, o, [i])
    c.oblige('store: vacating is possible', a.pc, pre, c.where(va), 'vacating an occupied site is refused', SH)
    o2, v2 = state(a, i)
    c.oblige('store: a vacated site is empty', NOT(o2), a.pc, c.where(va), 'the site still reports occupied', SH)
    c.oblige('store: no visit counted by leaving', same(v2, v1), a.pc, c.where(va), 'vacating changes the visits', SH)
    ox, vx = state(a, j)
    c.oblige('store: other sites stay occupied', ox, a.pc, c.where(va), 'another site is vacated', SH)


MH = dict(CH)
MH['field', 'occupied_'] = lambda m, r, t: 0
MH['sym', 'id2'] = lambda m, k, ty: m.rnd(6, k)


def members_in(c, upd=True):
    s, [(o, M)] = start(c, num(0), ('c', 'M'))
    if upd:
        updated(c, s, o)
    b = fresh('i')
    return s, o, M


HOPS = ('occupy i', 'occupy j', 'visits i', 'vacate i', 'vacate j')


def c12_history(c, store, first):
    """occupying, vacating and setting the visits in any order"""
    depth = 4 if c.tier == 'quick' else 5
    H = {**SH, ('sym', 'id'): lambda m, k, ty: m.rnd(3, k), ('sym', 'other'): lambda m, k, ty: 3 + m.rnd(3, k)}
    for q in range(6):
        H['sym', 'freq%d' % q] = lambda m, k, ty: m.choice((0, 0, 1, 2, 5, 40), k)
    names = [h for h in HOPS if store or h.endswith(' i')]
    for n in range(1, depth + 1):
        for hist in itertools.product(names, repeat=n):
            if first and hist[0] != first:
                continue
            full = {'i': False, 'j': False}
            for h in hist:
                op, k = h.split()
                if op == 'occupy' and full[k] or op == 'vacate' and not full[k]:
                    break
                if op != 'visits':
                    full[k] = op == 'occupy'
            else:
                c12_run(c, store, hist, H)


def c12_run(c, store, hist, H):
    s = c.sess()
    ids = {'i': s.sym('id', 'i'), 'j': s.sym('other', 'i')}
    s.assume(NOT(eq(ids['i'], ids['j'])))
    es = {k: s.make('e' + k, SITE) for k in ('ij' if store else 'i')}
    for k, e in es.items():
        s(e, 'setId', ids[k])
    if store:
        o = s.make('store', SC)
        for k, e in es.items():
            s(o, 'addSite', e)

    def entry(t, k):
        if not store:
            return t, es[k]
        t(o, 'getSite', ids[k])
        return t, t.rawret
    visits, full = {}, {}
    for k in es:
        t, r = entry(s.fork(), k)
        visits[k], full[k] = t(r, 'getVisitFrequency', cls=SITE), False
    for q, h in enumerate(hist):
        op, k = h.split()
        pre = s.pc
        if op == 'visits':
            fid = c.m(SITE, 'setVisitFrequency', 1)
            visits[k] = s.sym('freq%d' % q, 'i')
            s.assume(ge(visits[k], ZERO))
            pre = s.pc
            s, r = entry(s, k)
            s.call(fid, r, [visits[k]])
        elif store:
            fid = c.m(SC, op, 1)
            s.call(fid, o, [ids[k]])
        else:
            fid = c.m(SITE, op, 0)
            s.call(fid, es[k], [])
        if op == 'occupy':
            visits[k] = add(visits[k], ONE)
        if op != 'visits':
            full[k] = op == 'occupy'
    tag = '%s: %s' % ('store' if store else 'site', ', '.join(hist))
    w = c.where(fid)
    c.oblige(tag + ': possible', s.pc, pre, w, 'the operation is refused', H)
    for k in es:
        t, r = entry(s.fork(), k)
        oc = asbool(t.fork()(r, 'isOccupied', cls=SITE))
        c.oblige('%s: %s is %s' % (tag, k, 'occupied' if full[k] else 'empty'), oc if full[k] else NOT(oc), s.pc, w, 'the occupation reported is not that of the last move', H)
        c.oblige('%s: visits of %s' % (tag, k), same(t.fork()(r, 'getVisitFrequency', cls=SITE), visits[k]), s.pc, w, 'the visits are not those counted', H)


def c12_cluster(c):
    s, o, M = members_in(c)
    i, j = s.sym('id', 'i'), s.sym('id2', 'i')
    s.assume(AND(inm(M, i), inm(M, j), NOT(eq(i, j))))
    s.assume(AND(NOT(occ(s, o, i, cls=CLUSTER)), NOT(occ(s, o, j, cls=CLUSTER))))
    oc, va, io = c.m(CLUSTER, 'occupy', 1), c.m(CLUSTER, 'vacate', 1), c.m(CLUSTER, 'isOccupied', 1)
    O = lambda t, k: asbool(t.fork().call(io, o, [k]))
    whole = lambda t: asbool(t.fork()(o, 'isOccupied', cls=CLUSTER))
    count = lambda t: t.fork().call(c.m(TF, 'getVisitFrequency', 0), o, [])
    visits = lambda t, k: t.fork()(o, 'getVisitFrequency', k, cls=CLUSTER)
    a = s.fork()
    a.call(oc, o, [i])
    w, w2 = c.where(oc), c.where(va)
    c.oblige('member: occupying is possible', a.pc, s.pc, w, 'occupying an empty member is refused', MH)
    c.oblige('member: it reports occupied', O(a, i), a.pc, w, 'the member does not report occupied', MH)
    c.oblige('member: others stay empty', NOT(O(a, j)), a.pc, w, 'another member becomes occupied', MH)
    c.oblige('member: the cluster is occupied', whole(a), a.pc, w, 'the cluster does not report occupied', MH)
    c.oblige('member: one visit to the cluster', same(count(a), add(count(s), ONE)), a.pc, w, 'not exactly one visit is counted', MH)
    b = a.fork()
    pre = b.pc
    b.call(va, o, [i])
    c.oblige('member: vacating is possible', b.pc, pre, w2, 'vacating an occupied member is refused', MH)
    c.oblige('member: it is empty again', NOT(O(b, i)), b.pc, w2, 'the member still reports occupied', MH)
    c.oblige('member: the cluster is as before', eq(ITE(whole(b), ONE, ZERO), ITE(whole(s), ONE, ZERO)), b.pc, w2, "the cluster's occupation is not restored", MH)
    c.oblige('member: leaving counts no visit', same(count(b), count(a)), b.pc, w2, 'vacating changes the visits', MH)
    # two walkers inside
    d = a.fork()
    d.call(oc, o, [j])
    c.oblige('two members: both occupied', AND(O(d, i), O(d, j)), d.pc, w, 'the members do not report occupied', MH)
    d.call(va, o, [i])
    c.oblige('two members: one leaves', AND(NOT(O(d, i)), O(d, j), whole(d)), d.pc, w2, 'vacating one member empties another, or the cluster', MH)
    d.call(va, o, [j])
    c.oblige('two members: both gone', AND(NOT(O(d, j)), eq(ITE(whole(d), ONE, ZERO), ITE(whole(s), ONE, ZERO))), d.pc, w2, "the cluster's occupation is not restored", MH)
    # again
    b.call(oc, o, [i])
    c.oblige('member: occupied again', AND(O(b, i), same(count(b), add(count(s), num(2)))), b.pc, w, 'occupying again does not work', MH)


def c12_whole(c):
    s, o, M = members_in(c)
    oc, va = c.m(CLUSTER, 'occupy', 0), c.m(CLUSTER, 'vacate', 0)
    whole = lambda t: asbool(t.fork()(o, 'isOccupied', cls=CLUSTER))
    count = lambda t: t.fork().call(c.m(TF, 'getVisitFrequency', 0), o, [])
    a = s.fork()
    a.call(oc, o, [])
    c.oblige('cluster: occupied', AND(whole(a), same(count(a), add(count(s), ONE))), a.pc, c.where(oc), 'the cluster does not report occupied with one visit more', MH)
    a.call(va, o, [])
    c.oblige('cluster: vacated', AND(NOT(whole(a)), same(count(a), add(count(s), ONE))), a.pc, c.where(va), 'the cluster is not as before', MH)


def c12_stranger(c):
    s, o, M = members_in(c)
    i, j = s.sym('id', 'i'), s.sym('id2', 'i')
    s.assume(NOT(inm(M, i)))
    for meth in ('occupy', 'vacate', 'isOccupied'):
        fid = c.m(CLUSTER, meth, 1)
        a = s.fork()
        a.call(fid, o, [i])
        c.oblige('%s: a site that is no member is refused' % meth, NOT(a.pc), TRUE, c.where(fid), 'a site that is not a member is accepted', MH)
        for x in a.last:
            e = exit_sess(a, x)
            c.oblige('%s: refused without creating it' % meth, NOT(asbool(e.fork()(o, 'siteIsInCluster', i, cls=CLUSTER))), x.pc, c.where(fid), 'a site that is not a member becomes one', MH)


def c12_cstore(c):
    """through the store of clusters: whole clusters"""
    s = c.sess()
    o = s.make('store', CC)
    k1, k2 = s.make('k1', CLUSTER), s.make('k2', CLUSTER)
    s(o, 'addCluster', k1)
    s(o, 'addCluster', k2)
    i, j = s.fork()(k1, 'getId'), s.fork()(k2, 'getId')
    oc, va = c.m(CC, 'occupy', 1), c.m(CC, 'vacate', 1)
    O = lambda t, k: asbool(t.fork()(o, 'isOccupied', k))
    a = s.fork()
    a.call(oc, o, [i])
    c.oblige('cluster store: occupying is possible', a.pc, s.pc, c.where(oc), 'occupying a stored cluster is refused', MH)
    c.oblige('cluster store: it reports occupied, the other does not', AND(O(a, i), NOT(O(a, j))), a.pc, c.where(oc), 'not exactly that cluster reports occupied', MH)
    a.call(va, o, [i])
    c.oblige('cluster store: vacated', AND(NOT(O(a, i)), NOT(O(a, j))), a.pc, c.where(va), 'the cluster still reports occupied', MH)


# ---------------------------------------------------------------------------------------------------------------- C26
def c26(c):
    jobs = []
    for nm, v in method_values(c)[0][:2]:
        for both in (True, False):
            jobs.append(('merge, %s, receiver %s' % (nm, 'updated' if both else 'new'), c26_one, c, nm, v, both))
    jobs.append(('merge with visits', c26_visits, c))
    c.groups(jobs)


def few(m, r, ty):
    """a receiver that was not updated yet may still be empty or hold one site"""
    d = g_members(m, r, ty).d
    return Map({k: d[k] for k in sorted(d)[:m.rnd(4, 'few')]}, ty)


def c26_one(c, nm, v, both):
    CH = globals()['CH'] if both else {**globals()['CH'], ('sym', 'M'): few}
    s, [(o, M), (d, M2)] = start(c, v, ('c', 'M'), ('d', 'M2'))
    fld = member_map(c)
    updated(c, s, d)
    if both:
        updated(c, s, o)
    mig = c.m(CLUSTER, 'migrateSitesFrom', 1)
    w = c.where(mig)
    x = s.sym('id', 'i')
    g, cd, _, _ = outgoing(s, M, False)
    b = fresh('i')
    s.assume(AND(exists(((raw('dom', M2), b),), TRUE), NOT(exists(((raw('dom', M2), b),), inm(M, b)))))
    a = s.fork()
    a.call(mig, o, [d])
    tag = ' (%s, %s)' % (nm, 'updated' if both else 'new')
    g, cd, i_, n_ = outgoing(s, M, False)
    g2, cd2, i2, n2_ = outgoing(s, M2, False)
    # something leaves the union, and each site has a way to another of it
    leaves_ = OR(exists(g, AND(cd, NOT(inm(M2, n_)))), exists(g2, AND(cd2, NOT(inm(M, n2_)))))
    c.oblige('merging is possible' + tag, a.pc, AND(leaves_, exists(((raw('dom', M2), b),), gt(size(M2), ONE))), w, 'the merge is refused', CH)
    if a.dead:
        c.open('merge' + tag, 'never returns')
        return
    isin = lambda t, q, k: asbool(t.fork()(q, 'siteIsInCluster', k, cls=CLUSTER))
    c.oblige('membership is the union' + tag, eq(ITE(isin(a, o, x), ONE, ZERO), ITE(OR(inm(M, x), inm(M2, x)), ONE, ZERO)), a.pc, w, 'the receiver does not hold exactly the sites of both', CH)
    c.oblige('the donor is empty' + tag, AND(NOT(isin(a, d, x)), eq(a.fork()(d, 'getNumberOfSitesInCluster'), ZERO)), a.pc, w, 'the donor still holds sites', CH)
    c.oblige('number of members' + tag, eq(a.fork()(o, 'getNumberOfSitesInCluster'), add(size(M), size(M2))), a.pc, w, 'the receiver does not count the sites of both', CH)
    n1 = getf(a.val(o), fld, SITEMAP)
    own = s.fork()(o, 'getId')
    f = a.fork()
    q = f.obj('moved', SITE, get(n1, x))
    fc = f.fork()
    cid = fc(q, 'getClusterId')
    c.oblige('moved sites belong to the receiver' + tag, same(cid, own), AND(a.pc, inm(M2, x), inm(n1, x)), w, 'a moved site is not marked as belonging to the receiver', CH)
    # content of the moved sites
    f2 = s.fork()
    q2 = f2.obj('orig', SITE, get(M2, x))
    for meth in ('getNeighborsAndRates', 'getTimeConstant', 'isOccupied', 'getProbabilitiesAndIdsOfNeighbors'):
        c.oblige('moved sites keep %s%s' % (meth, tag), same(f.fork()(q, meth), f2.fork()(q2, meth)), AND(a.pc, inm(M2, x), inm(n1, x)), w, 'a moved site loses its content', CH)
    f3 = s.fork()
    q3 = f3.obj('own', SITE, get(M, x))
    for meth in ('getNeighborsAndRates', 'getTimeConstant', 'isOccupied'):
        c.oblige('own sites keep %s%s' % (meth, tag), same(f.fork()(q, meth), f3.fork()(q3, meth)), AND(a.pc, inm(M, x), inm(n1, x)), w, "the receiver's own site changes", CH)
    # the donor is empty of derived tables
    written = derived(c)
    for n, t in sorted((n, t) for n, t in fields_of(c, CLUSTER) if t.startswith('std::unordered_map<') or t.startswith('std::vector<')):
        if n not in written:
            continue
        c.oblige("the donor's table of type %s is empty%s" % (t, tag), eq(size(getf(a.val(d), n, t)), ZERO), a.pc, w, 'the donor keeps a derived table (%s)' % n, CH)
    l = a.fork()(d, 'getSiteIdsNeighboringCluster')
    c.oblige('the donor has no neighbours' + tag, eq(size(l), ZERO), a.pc, w, 'the donor still lists neighbours', CH)


def derived(c):
    """the members of a cluster an update writes"""
    s, [(o, M)] = start(c, num(0), ('c', 'M'))
    a = updated(c, s.fork(), o)
    return {n for n, t in fields_of(c, CLUSTER) if getf(a.val(o), n, t) is not getf(s.val(o), n, t)} - {member_map(c)}


def fields_of(c, cls):
    out = []
    for q in [cls] + Engine(c.p).bases(cls):
        for f in c.p.classes[q]['fields']:
            out.append((f['n'], f['t']))
    return out


VH = dict(CH)


def c26_visits(c):
    s, [(o, M), (d, M2)] = start(c, num(0), ('c', 'M'), ('d', 'M2'))
    b = fresh('i')
    updated(c, s, d)
    updated(c, s, o)
    s.assume(AND(exists(((raw('dom', M2), b),), TRUE), NOT(exists(((raw('dom', M2), b),), inm(M, b)))))
    x, y = s.sym('id', 'i'), s.sym('id2', 'i')
    s.assume(AND(inm(M, x), inm(M2, y)))
    sv = c.m(CLUSTER, 'setVisitFrequency', 2)
    n1, n2 = s.sym('n1', 'i'), s.sym('n2', 'i')
    s.call(sv, o, [n1, x])
    s.call(sv, d, [n2, y])
    mig = c.m(CLUSTER, 'migrateSitesFrom', 1)
    w = c.where(mig)
    V = lambda t, q, k: t.fork()(q, 'getVisitFrequency', k, cls=CLUSTER)
    H = dict(MH)
    H['sym', 'n1'] = H['sym', 'n2'] = lambda m, k, ty: 1 + m.rnd(40, k)
    a = s.fork()
    g, cd, _, _ = outgoing(s, M, False)
    g2, cd2, _, n_ = outgoing(s, M2, False)
    a.call(mig, o, [d])
    if a.dead:
        c.open('visits', 'never returns')
        return
    c.oblige('visits of moved sites are carried over', same(V(a, o, y), n2), a.pc, w, 'the visits of a moved site are lost', H)
    c.oblige('visits of own sites are kept', same(V(a, o, x), n1), a.pc, w, "the visits of the receiver's own site are lost", H)
    # as counted by walkers
    t = s.fork()
    oc = c.m(CLUSTER, 'occupy', 1)
    t.call(oc, o, [x])
    t.call(oc, d, [y])
    vx, vy = V(t, o, x), V(t, d, y)
    t.call(mig, o, [d])
    if not t.dead:
        c.oblige('visits counted by walkers are carried over', same(V(t, o, y), vy), t.pc, w, 'the visits of a moved site are lost', H)
        c.oblige('visits counted by walkers are kept', same(V(t, o, x), vx), t.pc, w, "the visits of the receiver's own site are lost", H)
