"""Small objects: C04 - C06, C14, C15."""
import itertools
from .base import *
from .stores import exit_sess, HINTS, member_map, SITEMAP, NEIGHMAP
from .cluster import CH, SH, built, fst, snd
from .lattice import LH, Lat, AXES
from ..interp import Fr, Map, Rec

ENTRY = 'std::pair<i,f>'

# ---------------------------------------------------------------------------------------------------------------- C14
QH = {('sym', 'pos'): lambda m, k, ty: m.rnd(5, k), 'zero': False}
for _i in range(8):
    QH['sym', 'w%d' % _i] = lambda m, k, ty: (m.rnd(3, 'id', k), Fr(m.rnd(4, 'time', k)) + 1)
QH['sym', 'x'] = lambda m, k, ty: (m.rnd(3, 'id', k), Fr(m.rnd(4, 'time', k)) + 1)


def g_deque(m, r, ty):
    n = m.rnd(5, 'len', r.base)
    return [(m.rnd(3, 'qi', r.base, i), Fr(m.rnd(4, 'qt', r.base, i)) + 1) for i in range(n)]


QH['fty', 'R:' + QUEUE, 'std::deque<std::pair<i,f>>'] = g_deque


class Q:
    """what a queue tells"""

    def __init__(self, s, o):
        self.s, self.o = s, o
        self.n = s.fork()(o, 'size')
        self.flag = asbool(s.fork()(o, 'isSorted'))

    def at(self, i):
        return self.s.fork()(self.o, 'at', i)

    def every(self, lo, hi, f):
        b = fresh('i')
        return NOT(exists(((raw('range', lo, hi), b),), NOT(f(b))))

    @property
    def ordered(self):
        return self.every(ZERO, sub(self.n, ONE), lambda i: le(snd(self.at(i)), snd(self.at(add(i, ONE)))))

    def count(self, x):
        b = fresh('i')
        return sum_(((raw('range', ZERO, self.n), b),), self.is_(self.at(b), x), ONE)

    def upto(self, t):
        b = fresh('i')
        return sum_(((raw('range', ZERO, self.n), b),), le(snd(self.at(b)), t), ONE)

    @staticmethod
    def is_(a, b):
        return AND(eq(fst(a), fst(b)), eq(snd(a), snd(b)))


OPS = ('add', 'sortedAdd', 'sort', 'pop_current')


def c14(c):
    depth = 4 if c.tier == 'quick' else 5
    jobs = [('any queue', c14_any, c)]
    for op in OPS:
        for p0 in OPS:
            jobs.append(('histories %s ... %s' % (p0, op), c14_hist, c, op, p0, depth))
    c.groups(jobs)


def do(c, s, o, op, w):
    fid = c.m(QUEUE, op, 1 if 'dd' in op else 0)
    return fid, s.call(fid, o, [w] if 'dd' in op else [])


def entries(s, i):
    return pair(s.sym('id%d' % i, 'i'), s.sym('t%d' % i, 'f'))


for _i in range(8):
    QH['sym', 'id%d' % _i] = lambda m, k, ty: m.rnd(3, k)
    QH['sym', 't%d' % _i] = lambda m, k, ty: Fr(m.rnd(6, k), 2) + 1


def c14_hist(c, op, p0, depth):
    for n in range(0 if p0 == OPS[0] else 1, depth + 1):
        for pre in itertools.product(OPS, repeat=n):
            if n and pre[0] != p0:
                continue
            if sum(1 for x in pre if 'dd' in x) < sum(1 for x in pre if 'pop' in x) + (op == 'pop_current'):
                continue
            s = c.sess()
            o = s.make('queue', QUEUE)
            k, ok = 0, True
            for x in pre:
                if x == 'pop_current' and k <= 0:
                    ok = False
                    break
                do(c, s, o, x, entries(s, k))
                k += 1 if 'dd' in x else -1 if 'pop' in x else 0
                if s.dead:
                    ok = False
            if ok and not (op == 'pop_current' and k <= 0):
                step(c, s, o, op, entries(s, 7), 'after ' + ' '.join(pre) if pre else 'on a new queue', k)


def c14_any(c):
    """one step from any queue whose flag is truthful"""
    fs = c.p.classes[QUEUE]['fields']
    if sorted(f['t'] for f in fs) != ['b', 'std::deque<std::pair<i,f>>']:
        c.open('any queue', 'the queue holds more than its entries and a flag')
        return
    for op in OPS:
        s = c.sess()
        o = s.obj('queue', QUEUE)
        q = Q(s, o)
        s.assume(OR(NOT(q.flag), q.ordered))
        if op == 'pop_current':
            s.assume(gt(q.n, ZERO))
        step(c, s, o, op, entries(s, 7), 'on any queue')


def step(c, s, o, op, w, tag, k=None):
    q0 = Q(s, o)
    a = s.fork()
    fid, v = do(c, a, o, op, w)
    wh = c.where(fid)
    nm = '%s %s' % (op, tag)
    c.oblige(nm + ': possible', a.pc, s.pc, wh, 'the operation is refused', QH)
    if a.dead:
        return
    q1 = Q(a, o)
    x = entries(s, 6)
    n = 12 if k is not None else c.n * 2
    i = fresh('i')
    ob = lambda name, goal, assume, what: c.oblige('%s: %s' % (nm, name), goal, AND(a.pc, assume), wh, what, QH, n=n)
    ob('sorted only if it is', q1.ordered, q1.flag, 'the queue says it is sorted although it is not')
    if op == 'add':
        ob('one more', eq(q1.n, add(q0.n, ONE)), TRUE, 'not exactly one entry is added')
        ob('entry at the end', Q.is_(q1.at(q0.n), w), TRUE, 'the entry added is not the last one')
        ob('others stay', q1.every(ZERO, q0.n, lambda i: Q.is_(q1.at(i), q0.at(i))), TRUE, 'another entry is changed, lost or moved')
    elif op == 'sort':
        ob('says so', q1.flag, TRUE, 'the queue does not say it is sorted after sorting')
        ob('in order', q1.ordered, TRUE, 'entries are out of order after sorting')
        ob('same entries', AND(eq(q0.n, q1.n), eq(q0.count(x), q1.count(x))), TRUE, 'sorting loses, duplicates or alters an entry')
    elif op == 'sortedAdd':
        ob('one more', AND(eq(q1.n, add(q0.n, ONE)), eq(q1.count(x), add(q0.count(x), ITE(Q.is_(x, w), ONE, ZERO)))), TRUE, 'entries are lost, duplicated or altered')
        p = q0.upto(snd(w))
        ob('behind the entries not later', Q.is_(q1.at(p), w), q0.ordered, 'the entry is not put behind those with the same or an earlier time')
        ob('others keep their order', AND(q1.every(ZERO, p, lambda i: Q.is_(q1.at(i), q0.at(i))), q1.every(p, q0.n, lambda i: Q.is_(q1.at(add(i, ONE)), q0.at(i)))), q0.ordered,
           'another entry is changed, lost or moved')
        ob('still in order', q1.ordered, q0.ordered, 'entries are out of order')
        ob('still says so', OR(q1.flag, NOT(q0.flag)), q0.ordered, 'an ordered insertion makes the queue unsorted')
    else:
        ob('front entry', Q.is_(v, q0.at(ZERO)), TRUE, 'the entry returned is not the front one')
        ob('one less', eq(q1.n, sub(q0.n, ONE)), TRUE, 'not exactly one entry is removed')
        ob('others stay', q1.every(ZERO, q1.n, lambda i: Q.is_(q1.at(i), q0.at(add(i, ONE)))), TRUE, 'another entry is changed, lost or moved')


# ---------------------------------------------------------------------------------------------------------------- C04
OH = {'zero': False}
for _i in range(6):
    OH['sym', 'v%d' % _i] = lambda m, k, ty: m.choice((-3, -1, 0, 1, 2, 7, -2, -20), k) if ty in 'iul' else Fr(m.choice((-2, 0, 1, 3, 5), k), m.choice((1, 2, 3), k, 1))
OH['compared'] = tuple('v%d' % i for i in range(6))
UNASSIGNED = num(-2 ** 31)
WSET = ('occupySite', 'setPotentialSite', 'setDwellTime')
WGET = {'getIdOfSiteCurrentlyOccupying': 'occupySite', 'getPotentialSite': 'setPotentialSite'}


def must_refuse(c, name, s, o, meth, *args, hints=OH, what='answers although nothing was assigned'):
    a = s.fork()
    fid = c.m(a.clsof(o), meth, len(args))
    a.call(fid, o, args)
    c.oblige(name, NOT(a.pc), s.pc, c.where(fid), what, hints)
    for x in a.last:
        if x.kind == 'abort':
            continue
    return a


def must_answer(c, name, s, o, meth, *args, hints=OH, value=None, what='does not report the value assigned'):
    a = s.fork()
    fid = c.m(a.clsof(o), meth, len(args))
    v = a.call(fid, o, args)
    c.oblige(name + ': answered', a.pc, s.pc, c.where(fid), 'refuses although it may not', hints)
    if value is not None and not a.dead:
        c.oblige(name, same(v, value), a.pc, c.where(fid), what, hints)
    return a


def c04(c):
    c.groups([('walker', c04_walker, c), ('identity', c04_id, c, IDENT), ('site identity', c04_id, c, SITE), ('cluster identity', c04_cluster, c), ('system', c04_system, c),
              ('system seed', c04_seed, c)])


def c04_walker(c):
    for n in range(3 if c.tier == 'quick' else 4):
        for hist in itertools.product(WSET, repeat=n):
            s = c.sess()
            o = s.make('walker', WALKER)
            last = {}
            for i, m in enumerate(hist):
                v = s.sym('v%d' % i, 'f' if m == 'setDwellTime' else 'i')
                if m != 'setDwellTime':
                    s.assume(NOT(eq(v, UNASSIGNED)))
                s(o, m, v)
                last[m] = v
            tag = 'after ' + ' '.join(hist) if hist else 'on a new walker'
            for g, m in WGET.items():
                if m in last:
                    must_answer(c, '%s %s: value' % (g, tag), s, o, g, value=last[m])
                else:
                    must_refuse(c, '%s %s: refused' % (g, tag), s, o, g)


def c04_id(c, cls):
    s = c.sess()
    o = s.make('object', cls)
    nm = cls.split('::')[-1] + '::getId'
    must_refuse(c, nm + ' of a new object: refused', s, o, 'getId')
    v, w = s.sym('v0', 'i'), s.sym('v1', 'i')
    s(o, 'setId', v)
    must_answer(c, nm + ' after setId', s, o, 'getId', value=v)
    s(o, 'setId', w)
    must_answer(c, nm + ' after setId twice', s, o, 'getId', value=w)


def c04_cluster(c):
    s = c.sess()
    a = s.make('one', CLUSTER)
    b = s.make('two', CLUSTER)
    x = must_answer(c, 'Cluster::getId of a new cluster', s, a, 'getId')
    must_answer(c, 'Cluster::getId of another new cluster', s, b, 'getId')
    if s.dead:
        return
    i, j = s.fork()(a, 'getId'), s.fork()(b, 'getId')
    c.oblige('new clusters have ids of their own', NOT(eq(i, j)), s.pc, c.where(c.ctor(CLUSTER)), 'two clusters are given the same id', OH)


LINKS = {1: [2], 2: [1, 3]}


def c04_system(c):
    from .system import Sys, rates, MM, YH
    k = Sys(c)
    s, o = k.s, k.o
    H = {**OH, **YH}
    must_refuse(c, 'getTimeResolution of a new system: refused', s, o, 'getTimeResolution', hints=H)
    t = s.fork()
    R = t.obj('rates', MM, rates(t, LINKS))
    must_refuse(c, 'initializeSystem without time resolution: refused', t, o, 'initializeSystem', R, hints=H, what='the system is initialised without a time resolution')
    ws = k.walkers({1: 1})
    must_refuse(c, 'initializeWalkers on a new system: refused', s, o, 'initializeWalkers', ws, hints=H, what='walkers are placed before initialisation')
    # a resolution that is not positive is no resolution
    t = s.fork()
    v = t.sym('v0', 'f')
    fid = c.m(CGS, 'setTimeResolution', 1)
    t.call(fid, o, [v])
    for x in t.last:
        u = exit_sess(t, x)
        u.st.pc = AND(u.st.pc, x.pc)
        must_refuse(c, 'getTimeResolution after a refused setting: refused', u, o, 'getTimeResolution', hints=H)
    c.oblige('a positive time resolution is taken', t.pc, gt(v, ZERO), c.where(fid), 'a positive time resolution is refused', H)
    for links in ({}, {1: []}, {1: [2]}):
        k = Sys(c)
        s, o = k.s, k.o
        R = s.obj('rates', MM, rates(s, links))
        must_refuse(c, 'initializeSystem with rates of %d sites and no time resolution: refused' % len(links), s, o, 'initializeSystem', R, hints=H, what='the system is initialised without a time resolution')
    c.oblige('a time resolution that is not positive is refused', NOT(t.pc), le(v, ZERO), c.where(fid), 'a time resolution that is not positive is taken', H)
    k = Sys(c)
    r = k.resolution()
    s, o = k.s, k.o
    must_answer(c, 'getTimeResolution after setting', s, o, 'getTimeResolution', hints=H, value=r)
    must_refuse(c, 'initializeWalkers before initialisation: refused', s, o, 'initializeWalkers', k.walkers({1: 1}), hints=H, what='walkers are placed before initialisation')
    R = s.obj('rates', MM, rates(s, LINKS))
    a = must_answer(c, 'initializeSystem with a time resolution', s, o, 'initializeSystem', R, hints=H)
    if not a.dead:
        must_answer(c, 'getTimeResolution after initialisation', a, o, 'getTimeResolution', hints=H, value=r)
        k.s = a
        must_answer(c, 'initializeWalkers after initialisation', a, o, 'initializeWalkers', k.walkers({2: 2, 3: 1}), hints=H)
        must_refuse(c, 'initializeWalkers with a walker that is nowhere: refused', a, o, 'initializeWalkers', k.walkers({4: None}), hints=H, what='a walker without a site is placed')
        must_refuse(c, 'initializeWalkers with a walker on an unknown site: refused', a, o, 'initializeWalkers', k.walkers({5: 9}), hints=H, what='a walker on an unknown site is placed')


def c04_seed(c):
    from .system import Sys, YH
    H = {**OH, **YH}
    k = Sys(c)
    must_answer(c, 'setRandomSeed on a new system', k.s, k.o, 'setRandomSeed', k.s.sym('v0', 'u'), hints=H)
    k.resolution()
    must_answer(c, 'setRandomSeed before initialisation', k.s, k.o, 'setRandomSeed', k.s.sym('v0', 'u'), hints=H)
    k.init(LINKS)
    if not k.s.dead:
        must_refuse(c, 'setRandomSeed after initialisation: refused', k.s, k.o, 'setRandomSeed', k.s.sym('v0', 'u'), hints=H, what='a seed is accepted after initialisation')


# ---------------------------------------------------------------------------------------------------------------- C05
class Attr:
    """attribute: how it is set, how it is reported"""

    def __init__(self, name, set_=None, get=None, dom=None, ty='i', sargs=(), gargs=(), cls=None, gcls=None, pick=None):
        self.name, self.set, self.get, self.dom, self.ty, self.sargs, self.gargs, self.cls, self.gcls, self.pick = name, set_, get, dom, ty, sargs, gargs, cls, gcls, pick

    def setter(self, c):
        return c.m(self.cls, self.set, 1 + len(self.sargs))

    def report(self, c, s, o):
        f = s.fork()
        fid = c.m(self.gcls or self.cls, self.get, len(self.gargs), self.pick)
        v = f.call(fid, o, self.gargs)
        return (None, FALSE) if f.dead else (v, f.pc)


def frame(c, name, attrs, s, t, o, where, skip=(), hints=OH, extra=TRUE):
    """attributes not touched are as before"""
    for a in attrs:
        if a.name in skip:
            continue
        va, pa = a.report(c, s, o)
        vb, pb = a.report(c, t, o)
        if va is None and vb is None:
            continue
        if va is None or vb is None:
            c.oblige('%s: %s still answered' % (name, a.name), NOT(AND(t.pc, OR(AND(pa, NOT(pb)), AND(pb, NOT(pa))))), extra, where, '%s is given or taken away' % a.name, hints)
            continue
        c.oblige('%s: %s left alone' % (name, a.name), same(va, vb), AND(pa, pb, extra), where, '%s is changed as well' % a.name, hints)


def setting(c, cname, s0, o, attrs, hist, hints=OH, others=()):
    """attributes set one after the other"""
    s = s0.fork()
    last = {}
    for i, a in enumerate(hist):
        v = s.sym('v%d' % i, a.ty)
        if a.dom is not None:
            s.assume(a.dom(v))
        t = s.fork()
        fid = a.setter(c)
        s.en.wide[v] = c.p.funcs[fid]['params'][0].get('w', 0)
        t.call(fid, o, [v] + list(a.sargs))
        tag = '%s: %s after %s' % (cname, a.set, ' '.join(x.set for x in hist[:i]) or 'construction')
        c.oblige(tag + ': taken', t.pc, s.pc, c.where(fid), 'a legitimate value is refused', hints)
        if t.dead:
            return
        if i == len(hist) - 1:
            w, p = a.report(c, t, o)
            if w is None:
                c.oblige(tag + ': reported', FALSE, t.pc, c.where(fid), '%s is not reported' % a.name, hints)
            else:
                c.oblige(tag + ': reported', AND(p, same(w, v)), t.pc, c.where(fid), '%s does not report the value set' % a.get, hints)
            frame(c, tag, list(attrs) + list(others), s, t, o, c.where(fid), skip=(a.name,) + tuple(a.skip if hasattr(a, 'skip') else ()), hints=hints)
        s = t
    return s


def assigned(v):
    return NOT(eq(v, UNASSIGNED))


def walker_attrs():
    return [Attr('site', 'occupySite', 'getIdOfSiteCurrentlyOccupying', assigned, cls=WALKER), Attr('target', 'setPotentialSite', 'getPotentialSite', assigned, cls=WALKER),
            Attr('dwell time', 'setDwellTime', 'getDwellTime', None, 'f', cls=WALKER)]


def c05(c):
    jobs = [('walker', c05_walker, c), ('site', c05_site, c), ('site kept', c05_site_kept, c), ('site store', c05_store, c), ('cluster', c05_cluster, c), ('system', c05_system, c),
            ('cluster visits', c05_visits, c)]
    jobs += [('cluster kept: ' + m, c05_cluster_kept, c, m, n) for m, n in CKEEP]
    for n in (0, 3, 4, 7):
        jobs.append(('lattice/%d' % n, c05_lattice, c, n))
    c.groups(jobs)


def histories(c, attrs, n):
    n += c.tier != 'quick'
    return [h for k in range(1, n + 1) for h in itertools.product(attrs, repeat=k)]


def c05_walker(c):
    at = walker_attrs()
    for h in histories(c, at, 3):
        s = c.sess()
        o = s.make('walker', WALKER)
        setting(c, 'walker', s, o, at, h)


def site_attrs(s):
    # cluster ids count from 0
    at = [Attr('cluster', 'setClusterId', 'getClusterId', None, cls=SITE), Attr('visits', 'setVisitFrequency', 'getVisitFrequency', lambda v: ge(v, ZERO), cls=SITE, gcls=SITE),
          Attr('id', 'setId', 'getId', None, cls=SITE)]
    k = s.sym('nid', 'i')
    ro = [Attr('occupation', None, 'isOccupied', cls=SITE), Attr('time constant', None, 'getTimeConstant', cls=SITE), Attr('being a neighbour', None, 'isNeighbor', cls=SITE, gargs=(k,))]
    return at, ro


def c05_site(c):
    s = c.sess()
    o = s.make('site', SITE)
    at, ro = site_attrs(s)
    H = {**OH, ('sym', 'nid'): lambda m, k, ty: m.rnd(4, k)}
    for h in histories(c, at, 2):
        t = setting(c, 'site', s, o, at, h, H, ro)
        if t is not None and h[-1].name == 'cluster':
            p = asbool(t.fork()(o, 'partOfCluster'))
            c.oblige('site: part of a cluster once it has one', p, AND(t.pc, ge(s.sym('v%d' % (len(h) - 1), 'i'), ZERO)), c.where(c.m(SITE, 'partOfCluster', 0)), 'a site with a cluster is not reported as part of it', H)
    # by id: a site has one count whatever the id given
    a = Attr('visits', 'setVisitFrequency', 'getVisitFrequency', lambda v: ge(v, ZERO), cls=TF, gcls=SITE, sargs=(num(1),))
    setting(c, 'site by id', s, o, at, [a], H, ro)
    b = Attr('visits by id', 'setVisitFrequency', 'getVisitFrequency', lambda v: ge(v, ZERO), cls=SITE, gcls=TF, gargs=(num(1),))
    setting(c, 'site', s, o, [x for x in at if x.name != 'visits'], [b], H, ro)


SKEEP = (('setRatesToNeighbors', 1), ('addNeighRate', 1), ('resetNeighRate', 1), ('occupy', 0), ('vacate', 0), ('occupy', 1), ('vacate', 1), ('setRandomSeed', 1), ('getDwellTime', 1),
         ('pickNewSiteId', 0), ('pickNewSiteId', 1), ('setToOccupiedStatus', 0), ('setToUnoccupiedStatus', 0))


def c05_site_kept(c):
    from .moves import fresh_site
    for m, n in SKEEP:
        def one(m=m, n=n):
            s, o = fresh_site(c)[:2]
            at, ro = site_attrs(s)
            s(o, 'setId', s.sym('v3', 'i'))
            s(o, 'setClusterId', s.sym('v4', 'i'))
            s.assume(ge(s.sym('v4', 'i'), ZERO))
            fid = c.m(SITE, m, n)
            f = c.p.funcs[fid]
            args = []
            for i, p in enumerate(f['params']):
                t = p['t']
                for q in ('rr<', 'r<'):
                    if t.startswith(q):
                        t = t[len(q):-1]
                if t.startswith('c '):
                    t = t[2:]
                if 'pair' in t:
                    q = s.obj('nrate', 'f', s.sym('v5', 'f'))
                    args.append(pair(s.sym('nid', 'i'), q))
                else:
                    args.append(s.obj('arg', t) if 'std::' in t else s.sym('nid', t))
            t = s.fork()
            t.call(fid, o, args)
            frame(c, 'site: %s' % m, at[:1] + at[2:] + ([] if 'ccupy' in m else at[1:2]), s, t, o, c.where(fid), hints={**CH, **SH, **OH, ('sym', 'nid'): lambda m, k, ty: m.rnd(4, k)})
        c.group('site: ' + m, one)


def c05_store(c):
    """the cluster id recorded through the store"""
    s = c.sess()
    o = s.obj('store', SC)
    i, j, v = s.sym('id', 'i'), s.sym('id2', 'i'), s.sym('v0', 'i')
    ex = lambda k: asbool(s.fork()(o, 'exist', k))
    s.assume(AND(ex(i), ex(j), NOT(eq(i, j)), ge(v, ZERO)))
    fid = c.m(SC, 'setClusterId', 2)
    H = {**HINTS, **OH}
    t = s.fork()
    t.call(fid, o, [i, v])
    g = lambda q, k: q.fork()(o, 'getClusterIdOfSite', k)
    c.oblige('store: setClusterId taken', t.pc, s.pc, c.where(fid), 'a stored site is refused', H)
    c.oblige('store: cluster id reported', same(g(t, i), v), t.pc, c.where(fid), 'the cluster id set is not the one reported', H)
    c.oblige('store: part of a cluster', asbool(t.fork()(o, 'partOfCluster', i)), t.pc, c.where(fid), 'a site with a cluster is not reported as part of it', H)
    c.oblige('store: cluster id of other sites left alone', same(g(t, j), g(s, j)), t.pc, c.where(fid), "another site's cluster id is changed", H)
    for nm in ('getTimeConstant', 'isOccupied'):
        c.oblige('store: %s left alone' % nm, same(t.fork()(o, nm, i), s.fork()(o, nm, i)), t.pc, c.where(fid), '%s is changed as well' % nm, H)


def cluster_attrs():
    two = lambda v: ge(v, num(2))
    at = [Attr('tolerance', 'setConvergenceTolerance', 'getConvergenceTolerance', lambda v: gt(v, ZERO), 'f', cls=CLUSTER),
          Attr('iterations', 'setConvergenceIterations', 'getConvergenceIterations', lambda v: gt(v, ZERO), 'i', cls=CLUSTER),
          Attr('resolution', 'setResolution', 'getResolution', two, 'f', cls=CLUSTER), Attr('id', 'setId', 'getId', None, cls=CLUSTER)]
    at[2].skip = ('time increment',)
    ro = [Attr('time constant', None, 'getTimeConstant', cls=CLUSTER), Attr('time increment', None, 'getTimeIncrement', cls=CLUSTER), Attr('number of sites', None, 'getNumberOfSitesInCluster', cls=CLUSTER)]
    return at, ro


def increment(c, name, s, o, where, hints):
    tc, ti, r = (s.fork()(o, g, cls=CLUSTER) for g in ('getTimeConstant', 'getTimeIncrement', 'getResolution'))
    c.oblige(name + ': time increment is the time constant over the resolution', eq(mul(ti, r), tc), s.pc, where, 'the time increment does not match the resolution', hints)


CS = {**CH, **OH}
for _i in range(6):
    CS['sym', 'v%d' % _i] = lambda m, k, ty: Fr(m.rnd(9, k)) + Fr(m.rnd(4, k, 1), 4) if ty == 'f' else m.rnd(9, k)


def c05_cluster(c):
    at, ro = cluster_attrs()
    for h in histories(c, at, 2):
        s = c.sess()
        o = s.make('c', CLUSTER)
        t = setting(c, 'cluster', s, o, at, h, CS, ro)
        if t is not None:
            increment(c, 'cluster: ' + ' '.join(a.set for a in h), t, o, c.where(h[-1].setter(c)), CS)


CKEEP = (('addSite', 1), ('updateProbabilitiesAndTimeConstant', 0), ('migrateSitesFrom', 1), ('setConvergenceMethod', 1), ('occupy', 0), ('getDwellTime', 1), ('pickNewSiteId', 1),
         ('setRandomSeed', 1))


def c05_cluster_kept(c, m, n):
    """what was set survives whatever the cluster is used for, and the increment follows the time constant"""
    from .cluster import start, updated
    at, ro = cluster_attrs()
    s, [(o, M), (d, M2)] = start(c, num(0), ('c', 'M'), ('d', 'M2'))
    updated(c, s, d)
    if m != 'updateProbabilitiesAndTimeConstant' and m != 'addSite':
        updated(c, s, o)
    for i, a in enumerate(at):
        v = s.sym('v%d' % i, a.ty)
        if a.dom:
            s.assume(a.dom(v))
        s.call(a.setter(c), o, [v])
    if m == 'pickNewSiteId':
        s(o, 'getDwellTime', s.sym('w', 'i'), cls=CLUSTER)
    fid = c.m(CLUSTER, m, n)
    arg = {'addSite': lambda: s.obj('e', SITE), 'migrateSitesFrom': lambda: d, 'setConvergenceMethod': lambda: num(1), 'setRandomSeed': lambda: s.sym('w', 'u')}.get(m, lambda: s.sym('w', 'i'))
    t = s.fork()
    t.call(fid, o, [arg()] if n else [])
    if t.dead:
        c.open('cluster: %s' % m, 'never returns')
        return
    frame(c, 'cluster: %s' % m, at, s, t, o, c.where(fid), hints=CS)
    increment(c, 'cluster: %s' % m, t, o, c.where(fid), CS)
    if 'pdate' in m or 'migrate' in m:
        t.call(at[2].setter(c), o, [s.sym('v4', 'f')])
        increment(c, 'cluster: setResolution after %s' % m, t, o, c.where(at[2].setter(c)), CS)


def c05_visits(c):
    from .cluster import start, updated
    s, [(o, M)] = start(c, num(0), ('c', 'M'))
    updated(c, s, o)
    i, j, v = s.sym('id', 'i'), s.sym('id2', 'i'), s.sym('v0', 'i')
    s.assume(AND(inm(M, i), inm(M, j), NOT(eq(i, j)), ge(v, ZERO)))
    fid = c.m(CLUSTER, 'setVisitFrequency', 2)
    g = lambda q, k: q.fork()(o, 'getVisitFrequency', k, cls=CLUSTER)
    from .moves import MH, outgoing
    # a cluster nothing leaves has no escape time, its visits are refused
    gens, cond, _, _ = outgoing(s, M, False)
    s.assume(exists(gens, cond))
    H = {**MH, ('sym', 'v0'): lambda m, k, ty: m.rnd(9, k)}
    t = s.fork()
    t.call(fid, o, [v, i])
    c.oblige('cluster visits: taken', t.pc, s.pc, c.where(fid), 'the visits of a member are refused', H)
    c.oblige('cluster visits: reported', same(g(t, i), v), t.pc, c.where(fid), 'the visits set are not the ones reported', H)
    c.oblige('cluster visits: other members left alone', same(g(t, j), g(s, j)), t.pc, c.where(fid), "another member's visits are changed", H)


def c05_system(c):
    from .system import Sys, YH
    H = {**YH, **OH}
    at = [Attr('time resolution', 'setTimeResolution', 'getTimeResolution', lambda v: gt(v, ZERO), 'f', cls=CGS)]
    others = [('setPerformanceRatio', 'f'), ('setMinCoarseGrainIterationThreshold', 'i'), ('setRandomSeed', 'u')]
    for h in histories(c, at, 2):
        k = Sys(c)
        t = setting(c, 'system', k.s, k.o, at, h, H)
        if t is None:
            continue
        for m, ty in others:
            u = t.fork()
            u(k.o, m, t.sym('v4', ty))
            frame(c, 'system: ' + m, at, t, u, k.o, c.where(c.m(CGS, m, 1)), hints=H)
    from .entropy import ORDERS, seeded, generators, consecutive
    for order in ORDERS[1:]:
        k, v = seeded(c, order)
        consecutive(c, 'system: the seed is still the one set after ' + ' '.join(order), k.s, generators(c, k), v, c.where(c.m(CGS, order[-1], 1)), 'the seed set is lost')


def c05_lattice(c, n):
    s = c.sess()
    dim = [s.sym(x, 'i') for x in 'LWH']
    for d in dim:
        s.assume(gt(d, ZERO))
    sp = s.sym('d', 'f')
    s.assume(gt(sp, ZERO))
    b = [s.sym(x, 'i') for x in ('bx', 'by', 'bz')]
    for x in b:
        s.assume(AND(ge(x, ZERO), le(x, ONE)))
    if n == 0:
        o = s.make('lattice', CUBOID)
    else:
        o = s.make('lattice', CUBOID, *(dim + [sp] + b)[:n])
    wh = c.where(c.ctor(CUBOID, n)) if n else 'Cuboid'
    nm = 'lattice/%d: ' % n
    for g, v in zip(('getLength', 'getWidth', 'getHeight'), dim if n else [ZERO] * 3):
        c.oblige(nm + g, same(s.fork()(o, g), v), s.pc, wh, '%s does not report the size given' % g, LH)
    c.oblige(nm + 'getLatticeSpacing', same(s.fork()(o, 'getLatticeSpacing'), sp if n >= 4 else ONE), s.pc, wh, 'the spacing is not the one given', LH)
    for a, v in zip(AXES, b):
        p = asbool(s.fork()(o, 'is%sPeriodic' % a))
        w = eq(v, ZERO) if n == 7 else FALSE
        c.oblige(nm + 'is%sPeriodic' % a, AND(OR(NOT(p), w), OR(p, NOT(w))), s.pc, wh, 'the boundary is not the one given for this axis', LH)


# ---------------------------------------------------------------------------------------------------------------- C06
def public(c, cls):
    """public operations of the class and what it inherits"""
    out, seen = [], set()
    for q in [cls] + c.sess().en.bases(cls):
        for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
            if f.get('cls') == q and f['kind'] in ('method', 'conv') and f.get('acc') == 'public' and f.get('body') is not None and not f.get('static') and not f['n'].startswith('operator'):
                sig = (f['n'], tuple(p['t'] for p in f['params']))
                if sig not in seen:
                    seen.add(sig)
                    out.append(f['id'])
    return out


def bare(t):
    for q in ('rr<', 'r<'):
        if t.startswith(q):
            t = t[len(q):-1]
    return t[2:] if t.startswith('c ') else t


def some_args(c, s, fid, tag):
    out = []
    for i, p in enumerate(c.p.funcs[fid]['params']):
        t = bare(p['t'])
        nm = '%s_a%d' % (tag, i)
        if t.startswith('R:') and t[2:] in c.p.classes:
            q = t[2:]
            o = s.make(nm, q)
            if q in (SITE,):
                s(o, 'setId', num(3))
            out.append(o)
        elif is_num(t):
            out.append(s.sym(nm, t))
        elif t.startswith('std::pair<') and 'p<f>' in t:
            out.append(pair(s.sym(nm, 'i'), s.obj(nm + 'r', 'f', s.sym(nm + 'v', 'f'))))
        elif t.startswith('std::'):
            out.append(s.obj(nm, t))
        else:
            out.append(s.sym(nm, t))
    return out


def unset_terms(*ts):
    us = []
    for t in ts:
        for x in walk_terms(t):
            if x.op == 'uninit' and x not in us:
                us.append(x)
    return us


def exposed(c, name, s, t, v, where, member=None):
    """the outcome does not depend on what an unset member happens to hold"""
    us = unset_terms(v, t.pc)
    if not us:
        c.settled(name, True)
        return
    A = {u: raw('sym', 'junkA%d' % i, u.a[0]) for i, u in enumerate(us)}
    B = {u: raw('sym', 'junkB%d' % i, u.a[0]) for i, u in enumerate(us)}
    names = ', '.join(sorted({str(u.a[2]) for u in us}))
    pa, pb = subst(t.pc, A), subst(t.pc, B)
    vs = same(subst(v, A), subst(v, B)) if v is not UNIT else TRUE
    c.oblige(name, AND(OR(NOT(pa), pb), OR(NOT(pb), pa), OR(NOT(AND(pa, pb)), vs)), s.pc, where, 'the outcome depends on a member without a value: ' + names, UH)


UH = {**{k: v for k, v in CH.items() if k != ('sym', 'e')}, 'zero': False}


def reads(c, name, t, n0, s, where):
    for r in t.en.reads_uninit[n0:]:
        u, wh, pc, depth = r
        if depth or typ(u.a[1]) == 'local' or (u.a[1].op == 'obj' and u.a[1].a[0] == 'local'):
            continue
        c.oblige('%s: reads %s only when set' % (name, u.a[2]), NOT(pc), s.pc, wh or where, 'member %s is read although it was never given a value' % u.a[2], UH)


CTORS = ((WALKER, 0), (IDENT, 0), (SITE, 0), (CLUSTER, 0), (SC, 0), (CC, 0), (RC, 0), (QUEUE, 0), (CUBOID, 0), (CUBOID, 3), (CUBOID, 4), (CUBOID, 7), (MARCUS, 2), (CGS, 0), (BASIN, 0))
DEEP = (WALKER, IDENT, QUEUE, SITE, CUBOID, CGS)


def newobj(c, cls, n):
    s = c.sess()
    if cls == CGS:
        s.en.concrete = True
    args = []
    if n:
        for i, p in enumerate(c.p.funcs[c.ctor(cls, n)]['params']):
            t = bare(p['t'])
            a = s.sym(('LWHd' + 'xyz')[i] if i < 4 else 'b' + 'xyz'[i - 4], 'i' if t.startswith('E:') else t) if cls == CUBOID else s.sym('v%d' % i, t)
            args.append(a)
    o = s.make('o', cls, *args)
    return s, o


def c06(c):
    jobs = [('constructed %s/%d' % (cls.split('::')[-1], n), c06_one, c, cls, n) for cls, n in CTORS]
    for cls in DEEP:
        for n in (0, 7) if cls == CUBOID else (0,):
            jobs.append(('used %s/%d' % (cls.split('::')[-1], n), c06_two, c, cls, n))
    jobs += [('updated cluster', c06_cluster, c), ('initialised system', c06_system, c)]
    c.groups(jobs)


def try_op(c, s, o, cls, fid, tag, name, args=None):
    f = c.p.funcs[fid]
    t = s.fork()
    if not args and any('shared_ptr' in p['t'] for p in f['params']):
        return None
    tm.new_budget()
    n0 = len(t.en.reads_uninit)
    try:
        args = args or some_args(c, t, fid, tag)
        n0 = len(t.en.reads_uninit)
        v = t.call(fid, o, args)
        reads(c, name, t, n0, s, c.where(fid))
        for x in t.last:
            e = exit_sess(t, x)
            e.st.pc = x.pc
            exposed(c, name + ': refusal', s, e, UNIT, c.where(fid))
        if t.dead:
            return None
        exposed(c, name, s, t, v, c.where(fid))
        return t
    except (Giveup, Blowup, NoAnchor) as e:
        c.open(name, '%s: %s' % (type(e).__name__, e))
        reads(c, name, t, n0, s, c.where(fid))
        return None


def c06_one(c, cls, n):
    s, o = newobj(c, cls, n)
    for fid in public(c, cls):
        f = c.p.funcs[fid]
        try_op(c, s, o, cls, fid, 'a', '%s/%d: %s/%d' % (cls.split('::')[-1], n, f['n'], len(f['params'])))


def c06_two(c, cls, n):
    s, o = newobj(c, cls, n)
    ops = public(c, cls)
    for fid in ops:
        f = c.p.funcs[fid]
        if f.get('const'):
            continue
        t = s.fork()
        try:
            t.call(fid, o, some_args(c, t, fid, 'p'))
        except (Giveup, Blowup, NoAnchor):
            continue
        if t.dead:
            continue
        for g in ops:
            h = c.p.funcs[g]
            try_op(c, t, o, cls, g, 'a', '%s/%d: %s/%d then %s/%d' % (cls.split('::')[-1], n, f['n'], len(f['params']), h['n'], len(h['params'])))


def c06_cluster(c):
    from .cluster import start, updated
    s, [(o, M)] = start(c, num(0), ('c', 'M'))
    updated(c, s, o)
    for fid in public(c, CLUSTER):
        f = c.p.funcs[fid]
        if f['n'] in ('migrateSitesFrom', 'addSites'):
            continue
        try_op(c, s, o, CLUSTER, fid, 'a', 'updated cluster: %s/%d' % (f['n'], len(f['params'])))


def c06_system(c):
    from .system import Sys
    k = Sys(c)
    k.resolution()
    k.init(LINKS)
    for fid in public(c, CGS):
        f = c.p.funcs[fid]
        if 'std::' in ''.join(p['t'] for p in f['params']):
            continue
        try_op(c, k.s, k.o, CGS, fid, 'a', 'initialised system: %s/%d' % (f['n'], len(f['params'])))
    ws = k.walkers({1: 1})
    t = try_op(c, k.s, k.o, CGS, c.m(CGS, 'initializeWalkers', 1), 'a', 'initialised system: initializeWalkers', [ws])
    if t is not None:
        w = t.en.tmp(k.w[1], t.st)
        t(k.w[1], 'setPotentialSite', num(2))
        for m in ('hop', 'removeWalkerFromSystem'):
            try_op(c, t, k.o, CGS, c.m(CGS, m, 2), 'a', 'initialised system: %s' % m, [ONE, w])


# ---------------------------------------------------------------------------------------------------------------- C15
ORDERED = {'sort', 'stable_sort', 'partial_sort', 'partial_sort_copy', 'nth_element', 'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'min_element', 'max_element',
           'minmax_element', 'min', 'max', 'minmax', 'merge', 'inplace_merge', 'includes', 'set_union', 'set_intersection', 'set_difference', 'set_symmetric_difference', 'make_heap',
           'push_heap', 'pop_heap', 'sort_heap', 'is_sorted', 'is_sorted_until', 'is_heap', 'lexicographical_compare', 'next_permutation', 'prev_permutation'}
KEYED = {'std::set': 1, 'std::map': 2, 'std::multiset': 1, 'std::multimap': 2, 'std::priority_queue': 2}


def base_name(fid):
    return fid.split('(')[0].split('<')[0].split('::')[-1] if fid.startswith('std::') else ''


def comparators(c):
    """(where, function, expression or class, entry type or None, keyed)"""
    out, seen = [], set()
    for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
        if f.get('body') is None:
            continue
        for n in walk(f['body']):
            k = n.get('k')
            if k in ('call', 'mcall'):
                fid = str(n.get('f', ''))
                nm = base_name(fid) if k == 'call' else (fid.split('(')[0].split('::')[-1] if fid.startswith('std::') else '')
                if nm in ORDERED and n['a']:
                    e = n['a'][-1]
                    t = str(e.get('t', ''))
                    if t == 'lambda' or t == 'F' or e.get('k') in ('lambda', 'fn', 'memfn') or (t.startswith('R:') and call_op(c, t[2:]) is not None) or t.startswith('std::less') or t.startswith('std::greater'):
                        out.append(('%s:%s' % (f['file'], n['l']), f, e, None, False))
            for t in (n.get('t'), n.get('rt')):
                note_type(c, t, f, n, out, seen)
            if k == 'decl':
                for v in n.get('v', ()):
                    note_type(c, v.get('t'), f, n, out, seen)
    for q, k in sorted(c.p.classes.items()):
        for fd in k['fields']:
            note_type(c, fd['t'], None, {'l': fd['l'], 'fi': k['file']}, out, seen)
    return out


def call_op(c, q, n=2):
    for f in c.p.funcs.values():
        if f.get('cls') == q and f['n'] == 'operator()' and len(f['params']) == n:
            return f
    return None


def note_type(c, t, f, n, out, seen):
    if not isinstance(t, str):
        return
    i = 0
    for cont, pos in KEYED.items():
        i = t.find(cont + '<')
        while i >= 0:
            # the balanced type starting here
            d, j = 0, i
            while j < len(t):
                d += {'<': 1, '>': -1}.get(t[j], 0)
                j += 1
                if d == 0 and t[j - 1] == '>':
                    break
            sub_ = t[i:j]
            ta = targs(sub_)
            if len(ta) > pos and ta[pos].startswith('R:') and sub_ not in seen:
                seen.add(sub_)
                out.append(('%s:%s' % (f['file'] if f else n.get('fi'), n.get('l')), f, ta[pos][2:], ta[0], 'multi' not in cont and 'queue' not in cont))
            elif ta and ta[0].startswith('R:') and len(ta) <= pos and sub_ not in seen:
                seen.add(sub_)
                g = next((x for x in c.p.funcs.values() if x['n'] == 'operator<' and any(ta[0] in p['t'] for p in x['params'] + [{'t': 'R:' + str(x.get('cls'))}])), None)
                if g is not None:
                    out.append(('%s:%s' % (f['file'] if f else n.get('fi'), n.get('l')), f, g, ta[0], 'multi' not in cont))
            i = t.find(cont + '<', i + 1)


def convert(v, have, want):
    """implicit conversion of an entry to the parameter type of the comparison"""
    have, want = bare(have), bare(want)
    if have == want or v is None:
        return v
    if tbase(have) == 'std::pair' and tbase(want) == 'std::pair':
        h, w = targs(have), targs(want)
        h = [bare(x) for x in h]
        w = [bare(x) for x in w]
        return pair(convert(getf(v, 'first', h[0]), h[0], w[0]), convert(getf(v, 'second', h[1]), h[1], w[1]))
    if is_num(have) and is_num(want):
        if have == 'f' and want in ('i', 'u', 'l', 'b'):
            return asnum01(NOT(eq(v, ZERO))) if want == 'b' else trunc_(v)
        return v
    raise Giveup('conversion %s to %s' % (have, want))


def asnum01(b):
    return ITE(b, ONE, ZERO)


def c15(c):
    jobs, n = [], 0
    for wh, f, e, et, keyed in comparators(c):
        n += 1
        jobs.append(('ordering %d' % n, c15_one, c, wh, f, e, et, keyed))
    if len(jobs) == 1:
        jobs.append(('orderings', lambda c: None, c))
    c.settled('orderings found: %d' % n, True)
    c.groups(jobs)


def cmp_params(c, f, e):
    if isinstance(e, str):
        return [p['t'] for p in call_op(c, e)['params']]
    if e.get('body') is not None and 'params' in e and 'id' in e:
        return ([('R:' + e['cls'])] if e.get('cls') and len(e['params']) == 1 else []) + [p['t'] for p in e['params']]
    t = str(e.get('t', ''))
    if e.get('k') == 'lambda':
        return [p['t'] for p in e['params']]
    if t.startswith('R:'):
        return [p['t'] for p in call_op(c, t[2:])['params']]
    if e.get('k') == 'var':
        i = next((v.get('init') for n in walk(f['body']) if n.get('k') == 'decl' for v in n.get('v', ()) if v.get('id') == e['id']), None)
        if i is not None and i is not e:
            return cmp_params(c, f, i)
    for n in walk(e):
        if n.get('k') == 'fn' and n.get('f') in c.p.funcs:
            return [p['t'] for p in c.p.funcs[n['f']]['params']]
    raise Giveup('comparison of an unknown kind')


def resolve_cmp(f, e):
    while isinstance(e, dict) and e.get('k') == 'var':
        i = next((v.get('init') for n in walk(f['body']) if n.get('k') == 'decl' for v in n.get('v', ()) if v.get('id') == e['id']), None)
        if i is None:
            raise Giveup('comparison held in a variable')
        e = i
    return e


def make_cmp(c, s, f, e):
    """function of two values giving the comparison as a boolean"""
    en = s.en
    if isinstance(e, dict) and 'id' in e and e.get('body') is not None and 'q' in e:
        def cmpf(x, y):
            t = s.fork()
            if e.get('cls') and len(e['params']) == 1:
                return asbool(t.call(e['id'], en.tmp(x, t.st), [y])), t
            return asbool(t.call(e['id'], None, [x, y])), t
        return cmpf
    if isinstance(e, str):
        fv = s.val(s.make('cmp', e))
    else:
        e = resolve_cmp(f, e)
        this = s.obj('self', f['cls']) if f.get('cls') and not f.get('static') else None
        args = [s.en.tmp(s.sym('p%d' % i, bare(p['t'])), s.st) if p['t'].startswith('r') else s.sym('p%d' % i, p['t']) for i, p in enumerate(f['params'])]
        fr = en.enter(f, this, args, s.st)
        for cp in e.get('caps', ()):
            if 'id' in cp and not any(p['id'] == cp['id'] for p in f['params']):
                d = next((v for n in walk(f['body']) if n.get('k') == 'decl' for v in n.get('v', ()) if v.get('id') == cp['id']), None)
                if d is not None:
                    s.st.m[('v', fr.n, cp['id'])] = s.sym('cap%s' % cp['id'], bare(d['t']))
        fv = en.ev(e, s.st)

    def cmpf(x, y):
        t = s.fork()
        t.en.handlers.append([])
        try:
            v = t.en.apply(fv, [x, y], t.st, None)
        finally:
            t.en.handlers.pop()
        return asbool(v), t
    return cmpf


def consts(*ts):
    """constants the comparison works with"""
    out = {Fr(1)}
    for t in ts:
        for x in walk_terms(t):
            if x.op == 'P':
                for m, k in x.a[0]:
                    if m == () and k:
                        out.add(abs(Fr(k)))
                    elif m and abs(k) not in (0, 1):
                        out.add(abs(Fr(k)))
    return sorted(out)


def entry_hints(et, *ts):
    H = {'zero': False}
    cs = consts(*ts)

    def num_(m, k, ty, tag):
        if ty in ('i', 'u', 'l'):
            return m.choice((0, 1, 2) if m.rnd(3, 'few') else (0, 1, 2, 3, 5), 'e', tag, k)
        unit = m.choice(cs, 'unit')
        if m.rnd(2, 'fine'):
            return 1 + unit * Fr(m.choice((0, 3, 6) if m.rnd(2, 'few2') else (0, 2, 3, 4, 6, 9, 13, 17), 'e', tag, k), 5)
        return Fr(m.choice((0, 1, 2, 3, 4, 6), 'e', tag, k), m.choice((1, 1, 4, 10), 'e', tag, 'd'))
    for nm in ('x', 'y', 'z'):
        for part in ('', '.1', '.2', '.1.1', '.1.2', '.2.1', '.2.2'):
            H['sym', nm + part] = lambda m, k, ty: num_(m, k, ty, k)
    return H


def entry_value(s, nm, t):
    t = bare(t)
    if tbase(t) == 'std::pair':
        a, b = targs(t)
        return pair(entry_value(s, nm + '.1', a), entry_value(s, nm + '.2', b))
    if tbase(t) == 'std::tuple':
        raise Giveup('tuples')
    return s.sym(nm, t)


def order_proof(goal, assume):
    """goal wherever assume for every arrangement of the quantities compared: complete when only differences of two quantities are tested"""
    f = OR(NOT(assume), goal)
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    group = {}

    def find(v):
        while group.setdefault(v, v) is not v:
            v = group[v]
        return v
    ats = bdd_atoms(f)
    for a in ats:
        if a.op not in ('lt0', 'eq0', 'gt0') or a.a[0].op != 'P':
            return False
        ms = a.a[0].a[0]
        if len(ms) != 2 or any(len(m) != 1 or m[0][1] != 1 for m, _ in ms) or ms[0][1] + ms[1][1] != 0:
            return False
        u, v = find(ms[0][0][0][0]), find(ms[1][0][0][0])
        group[u] = v
    comp = {}
    for v in group:
        comp.setdefault(find(v), []).append(v)
    vs = [v for c_ in comp.values() for v in c_]
    if any(len(c_) > 4 for c_ in comp.values()) or len(vs) > 7:
        return False
    rng = [range(len(c_)) for c_ in comp.values() for _ in c_]
    for vals in itertools.product(*rng):
        at = dict(zip(vs, vals))

        def truth(x):
            while x.op == 'ite':
                ms = x.a[0].a[0].a[0]
                d = sum(k * at[m[0][0]] for m, k in ms)
                x = x.a[1] if {'lt0': d < 0, 'gt0': d > 0, 'eq0': d == 0}[x.a[0].op] else x.a[2]
            return x is TRUE
        if not truth(f):
            return False
    return True


def cmp_setup(c, f, e, et):
    s = c.sess()
    ps = cmp_params(c, f, e)
    et = bare(ps[0] if et is None else et)
    less = make_cmp(c, s, f, e)
    vs = [entry_value(s, n, et) for n in 'xyz']
    own = TRUE
    if tbase(et) == 'std::pair' and bare(targs(et)[0]) in ('i', 'l', 'u'):
        ids = [getf(v, 'first', 'i') for v in vs]
        own = AND(NOT(eq(ids[0], ids[1])), NOT(eq(ids[1], ids[2])), NOT(eq(ids[0], ids[2])))

    def L(a, b):
        return less(convert(vs[a], et, ps[0]), convert(vs[b], et, ps[1]))[0]
    return vs, own, L, et


def keys_apart(c, functions):
    """in the keyed collections the functions use, entries with different ids are different keys (the value analysis takes this for granted)"""
    for wh, f, e, et, keyed in comparators(c):
        if keyed and f is not None and f['id'] in functions:
            c.group('keys at ' + wh.split('/')[-1], one_keyed, c, wh, f, e, et)


def one_keyed(c, wh, f, e, et):
    vs, own, L, et = cmp_setup(c, f, e, et)
    xy, yx = L(0, 1), L(1, 0)
    keyed_goal(c, 'collection at %s' % wh.split('/')[-1], wh, vs, own, xy, yx, entry_hints(et, xy))


def keyed_goal(c, nm, wh, vs, own, xy, yx, H):
    n = 2000 if c.tier == 'quick' else 10000
    if own is not TRUE:
        c.oblige('%s: different ids are different keys' % nm, OR(xy, yx), own, wh, 'entries with different ids count as the same key, so one is dropped', H, n=n)
    else:
        c.oblige('%s: different keys are told apart' % nm, OR(xy, yx, same(vs[0], vs[1])), TRUE, wh, 'different keys count as the same', H, n=n)


def c15_one(c, wh, f, e, et, keyed):
    vs, own, L, et = cmp_setup(c, f, e, et)
    nm = 'ordering at %s' % wh.split('/')[-1]
    n = 2000 if c.tier == 'quick' else 10000

    def ob(what, goal, assume=TRUE):
        if order_proof(goal, AND(own, assume)):
            c.settled('%s: %s' % (nm, what), True)
        else:
            c.oblige('%s: %s' % (nm, what), goal, AND(own, assume), wh, 'the comparison is not %s' % what, H, n=n)
    x, y, z = 0, 1, 2
    xy, yx, yz, zy, xz, zx = L(x, y), L(y, x), L(y, z), L(z, y), L(x, z), L(z, x)
    H = entry_hints(et, xy)
    ob('irreflexive', NOT(L(x, x)))
    ob('asymmetric', NOT(AND(xy, yx)))
    ob('transitive', OR(NOT(AND(xy, yz)), xz))
    eqv = lambda p, q: AND(NOT(p), NOT(q))
    ob('transitive in its equivalence', OR(NOT(AND(eqv(xy, yx), eqv(yz, zy))), eqv(xz, zx)))
    if keyed:
        keyed_goal(c, nm, wh, vs, own, xy, yx, H)
