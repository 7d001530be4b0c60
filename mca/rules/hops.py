"""C22: a hop moves exactly one walker.  C23: every site resolves to the live object that stands for it.  Small explicit systems, whose hops are followed completely; where the graph library takes part
(which basin a site lies in, how long crossing it takes) its answers are chosen."""
from .base import *
from .system import Sys, YH, MM, MT, mapof, rates
from .moves import fields_of, draws
from .entropy import feature, engine_field, consecutive
from ..terms import lits
from ..engine import walk
from ..interp import Fr

VEC = 'std::vector<i>'
UN = num(-2 ** 31)
# two pairs of fast sites, a lone site, and slow links between them
NET = {1: {2: 50, 3: 1}, 2: {1: 60, 4: 1, 5: 1}, 3: {4: 70, 1: 1}, 4: {3: 40, 2: 1}, 5: {2: 1, 6: 30, 7: 1}, 6: {5: 20}, 7: {5: 1}}
LINKS = {1: (2, 3), 2: (1, 3), 3: (1, 2)}


def vec(ids):
    l = raw('empty', VEC)
    for i in ids:
        l = lpush(l, num(i))
    return l


def aside(en, fid, this, st):
    """run an operation without arguments on a copy of the object and put the copy back"""
    if this.op != 'ref' or len(this.a[1]) < 2:
        en.overrides, o = {k: f for k, f in en.overrides.items() if k != fid}, en.overrides
        try:
            return en.call(fid, this, [], st)
        finally:
            en.overrides = o
    t = en.tmp(en.load(this, st), st)
    v = aside(en, fid, t, st)
    if not st.dead:
        en.store(this, en.load(t, st), st)
    return v


class World(Sys):
    """a system with explicit sites and rates, walkers placed, coarse graining under control of the rule"""

    def __init__(self, c, net=NET, seed=None, grain=True, res=num(100), crossing=num(Fr(1, 1000))):
        super().__init__(c)
        s = self.s
        self.net, self.w = net, {}
        for q, g in c.p.globals.items():
            if g.get('inroot') and not g.get('const') and g['t'] in ('i', 'u', 'l'):
                s.st.m['g', q] = num(3)
        s(self.o, 'setTimeResolution', res)
        if seed is not None:
            s(self.o, 'setRandomSeed', seed)
        if grain is not False:
            s(self.o, 'setMinCoarseGrainIterationThreshold', ZERO if grain is True else grain)
        R = s.obj('rates', MM, mapof(MM, {i: mapof(MT, {j: num(x) if not isinstance(x, tm.T) else x for j, x in d.items()}) for i, d in net.items()}))
        s(self.o, 'initializeSystem', R)
        self.ctl = ctl = {'basin': (), 'crossing': crossing}    # shared with what is forked off
        fb = c.m(BASIN, 'findBasin', 3)
        en = s.en
        self.asked = []
        en.overrides[fb] = lambda en, this, a, st: self.asked.append((a, st.pc)) or vec(ctl['basin'])
        # how long crossing a basin takes is a matter of the graph library
        n = 0
        for f in c.p.funcs.values():
            if f.get('body') is not None and f.get('cls') == CGS and f['ret'] == 'f' and any('maxMinimumDistance' in str(x.get('f', '')) + str(x.get('q', '')) for x in walk(f['body'])):
                if crossing is not None:
                    en.overrides[f['id']] = lambda en, this, a, st: ctl['crossing']
                n += 1
        if not n:
            raise Giveup('no function asks the graph library for the time a basin takes')

        up = c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)
        en.overrides[up] = lambda en, this, a, st: aside(en, up, this, st)

    def fork(self):
        import copy
        k = copy.copy(self)
        k.s = self.s.fork()
        k.w = dict(getattr(self, 'w', {}))
        return k

    def place(self, d):
        ws = self.walkers(d)
        self.s(self.o, 'initializeWalkers', ws)

    def hop(self, i, to, basin=None):
        s = self.s
        s(self.w[i], 'setPotentialSite', num(to))
        self.ctl['basin'] = () if basin is None else basin
        fid = self.c.m(CGS, 'hop', 2, lambda f: is_num(f['params'][0]['t']) or 'r<i>' in f['params'][0]['t'] or f['params'][0]['t'] == 'r<c i>')
        s.call(fid, self.o, [num(i), s.en.tmp(self.w[i], s.st)])
        return fid

    # ---- what can be asked
    def occupied(self, i):
        t = self.s.fork()
        r, there = feature(self.c, t, self.o, i)
        return asbool(t(r, 'isOccupied', num(i), cls=TF))

    def visits(self, i):
        return self.s.fork()(self.o, 'getVisitFrequencyOfSite', num(i))

    def at(self, i):
        return self.s.fork()(self.w[i], 'getIdOfSiteCurrentlyOccupying')

    def target(self, i):
        return self.s.fork()(self.w[i], 'getPotentialSite')

    def dwell(self, i):
        return self.s.fork()(self.w[i], 'getDwellTime')

    def cluster_of(self, i):
        return self.s.fork()(self.o, 'getClusterIdOfSite', num(i))

    def clusters(self):
        """{cluster: sites}; None if not explicit"""
        m = self.s.fork()(self.o, 'getClusters')
        from ..loops import small_map
        ks = []
        for _, l in leaves(m):
            x = small_map(l)
            if x is None:
                raise Giveup('clusters not explicit')
            ks += [y for y in x if y not in ks]
        return m, ks


# ------------------------------------------------------------------------------------------------ C23
def live(s, r):
    """condition that the reference designates something stored in the system"""
    if r.op == 'ite':
        return ITE(atom(r.a[0]), live(s, r.a[1]), live(s, r.a[2]))
    if r.op != 'ref' or r.a[0] != ('o', 'sys'):
        return FALSE
    ok = TRUE
    for i, st in enumerate(r.a[1]):
        if st[0] == 'e':
            m = s.en.load(tm.raw('ref', r.a[0], r.a[1][:i]), s.st)
            ok = AND(ok, inm(m, st[1]))
    return ok


def kind(r):
    """classes the reference may designate"""
    return r


def resolved(c, k, tag, wh, what=''):
    """every site resolves to exactly what stands for it"""
    s = k.s
    m, ks = k.clusters()
    for i in k.net:
        nm = '%s: site %d ' % (tag, i)
        r, there = feature(c, s, k.o, i)
        c.oblige(nm + 'resolves', there, s.pc, wh, 'site %d resolves to nothing%s' % (i, what), YH)
        c.oblige(nm + 'resolves to a stored object', live(s, r), AND(s.pc, there), wh, 'site %d resolves to an object the system does not hold (any more)%s' % (i, what), YH)
        t = s.fork()
        cid = t(k.o, 'getClusterIdOfSite', num(i))
        c.oblige(nm + 'has a cluster or none', t.pc, s.pc, wh, 'the cluster of site %d is refused' % i, YH)
        lone = eq(cid, UN)
        t = s.fork()
        oid = t(r, 'getId', cls=IDENT)
        o = s.en.load(r, s.st)
        isclu = TRUE
        for cond, l in leaves(o):
            b = l
            while b.op == 'rec':
                b = b.a[0]
            ty = typ(b)
            if ty not in ('R:' + CLUSTER, 'R:' + SITE):
                raise Giveup('object of unknown class')
            isclu = OR(NOT(lits(cond)), TRUE if ty == 'R:' + CLUSTER else FALSE) if isclu is TRUE else AND(isclu, OR(NOT(lits(cond)), TRUE if ty == 'R:' + CLUSTER else FALSE))
        c.oblige(nm + 'outside a cluster resolves to itself', AND(NOT(isclu), eq(oid, num(i))), AND(s.pc, lone), wh, 'site %d belongs to no cluster but resolves to something else%s' % (i, what), YH)
        c.oblige(nm + 'in a cluster resolves to that cluster', AND(isclu, eq(oid, cid)), AND(s.pc, NOT(lone)), wh, 'site %d does not resolve to the cluster recorded for it%s' % (i, what), YH)
        inl = lambda cl: listed(get(m, cl), num(i))
        c.oblige(nm + 'is listed by its cluster', AND(inm(m, cid), inl(cid)), AND(s.pc, NOT(lone)), wh, 'the cluster recorded for site %d is not there or does not contain it%s' % (i, what), YH)
        for cl in ks:
            c.oblige(nm + 'is listed by no other cluster than its own', OR(NOT(inl(cl)), eq(cid, cl)), s.pc, wh, 'a cluster lists site %d, which is recorded elsewhere%s' % (i, what), YH)


def listed(l, x):
    """x is one of the elements"""
    if l.op == 'ite':
        return ITE(atom(l.a[0]), listed(l.a[1], x), listed(l.a[2], x))
    els = []
    r = l
    while r.op == 'lpush':
        els.append(r.a[1])
        r = r.a[0]
    if r.op == 'empty':
        return OR(FALSE, *[eq(e, x) for e in els])
    g, cd, el = iter_list(l)
    return exists(g, AND(cd, eq(el, x)))


STORIES = {
    'one cluster': [(1, 2)],
    'one cluster again': [(1, 2), (1, 2)],
    'a lone site joins': [(1, 2), (2, 5)],
    'two clusters': [(1, 2), (3, 4)],
    'two clusters merge': [(1, 2), (3, 4), (1, 2, 3, 4)],
    'two clusters overlap in part': [(1, 2), (3, 4), (2, 4)],
    'the other way round': [(3, 4), (1, 2), (1, 3)],
    'clusters and a lone site': [(1, 2), (3, 4), (4, 5, 2)],
    'three clusters': [(1, 2), (3, 4), (5, 6), (6, 2, 4)],
    'three clusters in turn': [(1, 2), (3, 4), (5, 6), (4, 6), (2, 6)],
    'no basin': [(), (1, 2), ()],
    'a basin of one': [(1, 2), (2,)],
}


def c23(c):
    jobs = [('new system', c23_new, c)]
    for n, story in STORIES.items():
        jobs.append((n, c23_story, c, n, story))
    c.groups(jobs)


def c23_new(c):
    for tag, net in (('new system', NET), ('system with a drain', {1: {2: 3, 7: 1}, 2: {1: 1}})):
        k = World(c, net, grain=False)
        wh = c.where(c.m(CGS, 'initializeSystem', 1))
        k.net = dict(net)
        for d in net.values():
            for j in d:
                k.net.setdefault(j, {})
        resolved(c, k, tag, wh)


def c23_story(c, name, story):
    k = World(c)
    k.place({1: 1})
    wh = c.where(c.m(CGS, 'hop', 2))
    want = {i: {i} for i in NET}
    for n, b in enumerate(story):
        tm.new_budget()
        at_ = b[0] if b else 2
        k.hop(1, at_, b)
        if k.s.dead:
            c.settled('%s, step %d: possible' % (name, n + 1), False, wh, 'the hop never returns')
            return
        k.s.en.tmp(UNIT, k.s.st)
        tag = '%s, step %d' % (name, n + 1)
        c.oblige(tag + ': possible', k.s.pc, TRUE, wh, 'the hop is refused', YH, n=4)
        resolved(c, k, tag, wh, ' after %s' % name)
    # hops and removals go on working
    for j in (2, 4, 6, 1):
        q = k.fork()
        q.hop(1, j)
        c.oblige('%s: hop to %d afterwards' % (name, j), q.s.pc, k.s.pc, wh, 'a hop is refused after %s' % name, YH, n=4)
        if not q.s.dead:
            c.oblige('%s: occupied after the hop to %d' % (name, j), q.occupied(j), q.s.pc, wh, 'the site hopped to does not report occupied after %s' % name, YH)


# ------------------------------------------------------------------------------------------------ seeds of clusters (C13)
def cluster_seeds(c):
    v = raw('sym', 'seed', 'u')
    k = World(c, seed=v)
    wh = c.where(c.m(CGS, 'hop', 2))
    k.place({1: 1})
    n = len(NET)
    E = engine_field(c, CLUSTER)[0]
    got = []
    for b in ((1, 2), (3, 4), (5, 6)):
        k.hop(1, 7, b)
        r, there = feature(c, k.s, k.o, b[0])
        if any(typ(base_of(l)) != 'R:' + CLUSTER for _, l in leaves(k.s.en.load(r, k.s.st))):
            c.open('seeds of clusters', 'no cluster was formed')
            return
        g = getf(k.s.en.load(r, k.s.st), *E)
        while g.op == 'adv':
            g = g.a[0]
        got.append(g)
    consecutive(c, 'clusters of a seeded system', k.s, got, v, wh, 'the clusters of a seeded system do not get the seeds following those of the sites', n)


def base_of(t):
    while t.op == 'rec':
        t = t.a[0]
    return t


# ------------------------------------------------------------------------------------------------ C22
def c22(c):
    jobs = [('hop to a free site', c22_hop, c, 2, {1: 1, 2: 3}), ('hop to a taken site', c22_hop, c, 3, {1: 1, 2: 3}), ('hop of a lone walker', c22_hop, c, 3, {1: 1}),
            ('hop back where it is', c22_hop, c, 1, {1: 1, 2: 3}), ('placing', c22_place, c), ('removing', c22_remove, c), ('pairs', c22_pairs, c)]
    for n, story in (('one cluster', [(1, 2)]), ('two clusters', [(1, 2), (3, 4)])):
        for frm, to, others in ((1, 2, {2: 6}), (1, 5, {2: 6}), (5, 2, {2: 6}), (1, 3, {2: 6}), (1, 2, {2: 2}), (5, 1, {2: 1}), (1, 5, {2: 5}), (1, 2, {2: 3, 3: 5})):
            jobs.append(('%s: %d to %d with others at %s' % (n, frm, to, ','.join(map(str, others.values()))), c22_cluster, c, n, story, frm, to, others))
    c.groups(jobs)


def positive(net):
    s = {}
    for i, js in net.items():
        s[i] = {j: raw('sym', 'k%d%d' % (i, j), 'f') for j in js}
    return s


def small(c, walkers):
    k = World(c, positive(LINKS), grain=False)
    for i, js in LINKS.items():
        for j in js:
            k.s.assume(gt(raw('sym', 'k%d%d' % (i, j), 'f'), ZERO))
    k.place(walkers)
    return k


def iff(a, b):
    return AND(OR(NOT(a), b), OR(a, NOT(b)))


def books(c, k, q, nm, wh, want, visit, who, place, expect):
    """compare the books of system q with what is wanted: occupation per site, visits per site, the walker's place and draws, the other walkers untouched"""
    s = q.s
    for i in k.net:
        c.oblige('%s: occupation of site %d' % (nm, i), iff(q.occupied(i), want[i]), s.pc, wh, 'site %d reports the wrong occupation afterwards' % i, YH)
        c.oblige('%s: visits of site %d' % (nm, i), eq(q.visits(i), add(k.visits(i), visit.get(i, ZERO))), s.pc, wh, 'visits of site %d are not counted properly' % i, YH)
    if who is not None:
        c.oblige(nm + ': where the walker is', eq(q.at(who), num(place)), s.pc, wh, 'the walker does not record the site it is on', YH)
        d, t = expect
        c.oblige(nm + ': fresh dwell time', same(q.dwell(who), d), s.pc, wh, 'the dwell time is not one freshly drawn where the walker now is', YH)
        c.oblige(nm + ': fresh target', same(q.target(who), t), s.pc, wh, 'the target is not one freshly drawn where the walker now is', YH)
    for j in q.w:
        if j != who and j in k.w:
            c.oblige('%s: walker %d is left alone' % (nm, j), AND(eq(q.at(j), k.at(j)), same(q.dwell(j), k.dwell(j)), same(q.target(j), k.target(j))), s.pc, wh, 'another walker is changed', YH)


def drawn(c, k, who, site, pre=()):
    """dwell time and target drawn at the site, after the operations pre"""
    t = k.s.fork()
    for op, i in pre:
        r, _ = feature(c, t, k.o, i)
        t(r, op, num(i), cls=TF)
    r, _ = feature(c, t, k.o, site)
    d = method(c, t, r, 'getDwellTime', num(who))
    x = method(c, t, r, 'pickNewSiteId', num(who))
    return d, x


def method(c, t, r, name, *a):
    """call through the base class"""
    f = next((f for f in c.p.funcs.values() if f.get('cls') == TF and f['n'] == name and len(f['params']) == len(a)), None)
    cls = t.clsof(r)
    return t.call(c.m(cls, name, len(a)), r, list(a))


def c22_hop(c, to, walkers):
    k = small(c, walkers)
    q = k.fork()
    fid = q.hop(1, to)
    wh = c.where(fid)
    frm = walkers[1]
    taken = to in walkers.values()
    nm = 'hop from %d to %d, walkers at %s' % (frm, to, ','.join(map(str, walkers.values())))
    c.oblige(nm + ': possible', q.s.pc, k.s.pc, wh, 'the hop is refused', YH)
    at_ = frm if taken else to
    want = {i: k.occupied(i) for i in k.net}
    want[frm] = FALSE
    want[at_] = TRUE
    books(c, k, q, nm, wh, want, {at_: ONE}, 1, at_, drawn(c, k, 1, at_))


def c22_place(c):
    k = World(c, positive(LINKS), grain=False)
    for i, js in LINKS.items():
        for j in js:
            k.s.assume(gt(raw('sym', 'k%d%d' % (i, j), 'f'), ZERO))
    fid = c.m(CGS, 'initializeWalkers', 1)
    wh = c.where(fid)
    for ws in ({1: 2}, {1: 1, 2: 3}, {4: 3, 2: 1, 7: 2}):
        q = k.fork()
        q.place(ws)
        nm = 'placing walkers at %s' % ','.join(map(str, ws.values()))
        c.oblige(nm + ': possible', q.s.pc, k.s.pc, wh, 'placing is refused', YH)
        want = {i: TRUE if i in ws.values() else FALSE for i in k.net}
        books(c, k, q, nm, wh, want, {i: ONE for i in ws.values()}, None, None, None)
        for w, site in ws.items():
            d, t = drawn(c, k, w, site)
            c.oblige('%s: walker %d: place' % (nm, w), eq(q.at(w), num(site)), q.s.pc, wh, 'the walker is moved by placing it', YH)
            c.oblige('%s: walker %d: dwell time' % (nm, w), same(q.dwell(w), d), q.s.pc, wh, 'the dwell time is not drawn at the site of the walker', YH)
            c.oblige('%s: walker %d: target' % (nm, w), same(q.target(w), t), q.s.pc, wh, 'the target is not drawn at the site of the walker', YH)


def c22_remove(c):
    k = small(c, {1: 1, 2: 3})
    fid = c.m(CGS, 'removeWalkerFromSystem', 2)
    q = k.fork()
    q.s.call(fid, q.o, [ONE, q.s.en.tmp(q.w[1], q.s.st)])
    wh = c.where(fid)
    c.oblige('removing: possible', q.s.pc, k.s.pc, wh, 'removing is refused', YH)
    books(c, k, q, 'removing', wh, {1: FALSE, 2: k.occupied(2), 3: k.occupied(3)}, {}, None, None, None)
    # another walker can take its place
    q.hop(2, 1)
    c.oblige('removing: the site is free again', AND(q.occupied(1), eq(q.at(2), ONE)), q.s.pc, wh, 'a site is not free after its walker was removed', YH)


W = 11


def c22_later(c, k, name, frm):
    """placing further walkers, removing one and placing another under its number"""
    wp, wr = c.where(c.m(CGS, 'initializeWalkers', 1)), c.where(c.m(CGS, 'removeWalkerFromSystem', 2))
    for site in (2, 3, 5):
        if site == frm:
            continue
        q = k.fork()
        q.place({8: site})
        nm = '%s, walker at %d: another placed at %d' % (name, frm, site)
        if q.s.dead:
            c.settled(nm + ': possible', False, wp, 'placing never returns')
            continue
        for i in k.net:
            c.oblige('%s: occupation of site %d' % (nm, i), iff(q.occupied(i), TRUE if i in (site, frm, 6) else FALSE), q.s.pc, wp, 'site %d reports the wrong occupation afterwards' % i, YH, n=8)
        d, t = drawn(c, k, 8, site, [('occupy', site)])
        c.oblige(nm + ': dwell time', same(q.dwell(8), d), q.s.pc, wp, 'the dwell time is not drawn at the site of the walker', YH, n=8)
        c.oblige(nm + ': target', same(q.target(8), t), q.s.pc, wp, 'the target is not drawn at the site of the walker', YH, n=8)
    c22_both(c, k, '%s, walker at %d: ' % (name, frm))
    for f in (1, 2):
        q = k.fork()
        fid = c.m(CGS, 'removeWalkerFromSystem', f)
        q.s.call(fid, q.o, [num(W), q.s.en.tmp(q.w[W], q.s.st)] if f == 2 else [q.s.en.tmp(pair(num(W), q.w[W]), q.s.st)])
        if q.s.dead:
            c.settled('%s: removal possible' % name, False, wr, 'removal never returns')
            continue
        r, _ = feature(c, q.s, q.o, frm)
        a, b = q.s.fork(), q.s.fork()
        da, db = method(c, a, r, 'getDwellTime', num(W)), method(c, b, r, 'getDwellTime', num(9))
        if a.dead or b.dead:
            c.open('%s: bookkeeping after removal' % name, 'no dwell time')
            continue
        c.oblige('%s, walker at %d: removal (%d) drops its bookkeeping' % (name, frm, f), same(da, db), AND(a.pc, b.pc), wr, 'something of a removed walker is kept and used for the next one of that number', YH, n=8)


def c22_pairs(c):
    k = small(c, {W: 1, 2: 3})
    c22_both(c, k, '')


def c22_both(c, k, tag):
    """the operations on (number, walker) pairs do what those on number and walker do"""
    k.s(k.w[W], 'setPotentialSite', num(2))
    for n in ('hop', 'removeWalkerFromSystem'):
        a, b = k.fork(), k.fork()
        fa, fb = c.m(CGS, n, 2), c.m(CGS, n, 1)
        a.s.call(fa, a.o, [num(W), a.s.en.tmp(a.w[W], a.s.st)])
        b.s.call(fb, b.o, [b.s.en.tmp(pair(num(W), b.w[W]), b.s.st)])
        wh = c.where(fb)
        c.oblige(tag + n + ' of a pair: possible', iff(a.s.pc, b.s.pc), k.s.pc, wh, 'refused although the other form is not', YH)
        c.oblige(tag + n + ' of a pair: the same system', same(a.s.val(a.o), b.s.val(b.o)), AND(a.s.pc, b.s.pc), wh, 'the system differs from what the other form does', YH)
        c.oblige(tag + n + ' of a pair: the same walker', same(a.s.val(a.w[W]), b.s.val(b.w[W])), AND(a.s.pc, b.s.pc), wh, 'the walker differs from what the other form does', YH)


def c22_cluster(c, name, story, frm, to, others):
    k = World(c)
    k.place({W: frm, **others})
    for b in story:
        k.hop(W, frm, b)     # taken by itself: stays
    q = k.fork()
    fid = q.hop(W, to)
    wh = c.where(fid)
    taken = to in others.values()
    at_ = frm if taken else to
    nm = '%s: hop from %d to %d, others at %s' % (name, frm, to, ','.join(map(str, others.values())))
    if q.s.dead:
        c.settled(nm + ': possible', False, wh, 'the hop never returns')
        return
    s = q.s
    for i in k.net:
        want = TRUE if i == at_ or i in others.values() else FALSE
        c.oblige('%s: occupation of site %d' % (nm, i), iff(q.occupied(i), want), s.pc, wh, 'site %d reports the wrong occupation afterwards' % i, YH, n=8)
    c.oblige(nm + ': where the walker is', eq(q.at(W), num(at_)), s.pc, wh, 'the walker does not record the site it is on', YH, n=8)
    d, t = drawn(c, k, W, at_, [('vacate', frm), ('occupy', at_)])
    c.oblige(nm + ': fresh dwell time', same(q.dwell(W), d), s.pc, wh, 'the dwell time is not one freshly drawn where the walker now is', YH, n=8)
    c.oblige(nm + ': fresh target', same(q.target(W), t), s.pc, wh, 'the target is not one freshly drawn where the walker now is', YH, n=8)
    for j in others:
        c.oblige('%s: walker %d is left alone' % (nm, j), AND(eq(q.at(j), k.at(j)), same(q.dwell(j), k.dwell(j)), same(q.target(j), k.target(j))), s.pc, wh, 'another walker is changed', YH, n=8)
    if to == 2 and others == {2: 6}:
        c22_later(c, k, name, frm)
    r = k.fork()
    r.s.call(c.m(CGS, 'removeWalkerFromSystem', 2), r.o, [num(W), r.s.en.tmp(r.w[W], r.s.st)])
    wr = c.where(c.m(CGS, 'removeWalkerFromSystem', 2))
    if not r.s.dead:
        for i in k.net:
            c.oblige('%s: occupation of site %d after removal' % (name, i), iff(r.occupied(i), TRUE if i in others.values() else FALSE), r.s.pc, wr, 'site %d reports the wrong occupation after removal' % i, YH, n=8)


# ------------------------------------------------------------------------------------------------ C31
class Books:
    """explicit clusters and the sites put into them; who is where is followed along"""
    LINKS = {1: {2: 5, 3: 1, 9: 1}, 2: {1: 4, 9: 1}, 3: {1: 1, 4: 3}, 4: {3: 2, 8: 1}}

    def __init__(self, c):
        self.c, self.s = c, c.sess()
        self.s.en.concrete = True
        self.inside = {}                        # cluster -> {site: walkers}
        self.o, self.sites = {}, {}
        self.loose = {}
        up = c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)
        self.s.en.overrides[up] = lambda en, this, a, st: aside(en, up, this, st)

    def cluster(self, name):
        self.o[name] = self.s.make(name, CLUSTER)
        self.inside[name] = {}
        return name

    def site(self, i, taken):
        s = self.s
        o = s.make('site%d' % i, SITE)
        s(o, 'setId', num(i), cls=IDENT)
        s(o, 'setRatesToNeighbors', s.obj('rates%d' % i, MT, mapof(MT, {j: num(x) for j, x in self.LINKS[i].items()})), cls=SITE)
        if taken:
            s(o, 'occupy', cls=SITE)
        self.sites[i], self.loose[i] = o, int(taken)

    def add(self, cl, *ids):
        """one by one if there is one, else together"""
        s = self.s
        if len(ids) == 1:
            s(self.o[cl], 'addSite', self.sites[ids[0]], cls=CLUSTER)
        else:
            l = raw('empty', 'std::vector<R:%s>' % SITE)
            for i in ids:
                l = lpush(l, s.val(self.sites[i]))
            s(self.o[cl], 'addSites', s.obj('more%d' % len(self.inside[cl]), 'std::vector<R:%s>' % SITE, l), cls=CLUSTER)
        for i in ids:
            self.inside[cl][i] = self.loose.pop(i)

    def occupy(self, cl, i, way='occupy'):
        self.s.call(self.c.m(CLUSTER, way, 1), self.o[cl], [num(i)])
        self.inside[cl][i] += 1 if way == 'occupy' else -1

    def vacate(self, cl, i):
        self.occupy(cl, i, 'vacate')

    def merge(self, to, frm):
        self.s(self.o[to], 'migrateSitesFrom', self.o[frm], cls=CLUSTER)
        self.inside[to].update(self.inside[frm])
        self.inside[frm] = {}

    def update(self, cl):
        self.s(self.o[cl], 'updateProbabilitiesAndTimeConstant', cls=CLUSTER)

    def check(self, tag, wh):
        c, s = self.c, self.s
        if s.dead:
            return c.settled(tag + ': possible', False, wh, 'the operation never returns')
        c.oblige(tag + ': possible', s.pc, TRUE, wh, 'the operation is refused', YH, n=4)
        for cl, who in self.inside.items():
            for i, n in who.items():
                v = asbool(s.fork().call(c.m(CLUSTER, 'isOccupied', 1), self.o[cl], [num(i)]))
                c.oblige('%s: member %d of %s' % (tag, i, cl), v if n else NOT(v), s.pc, wh, 'member %d reports the wrong occupation' % i, YH, n=4)
            v = asbool(s.fork()(self.o[cl], 'isOccupied', cls=CLUSTER))
            some = any(who.values())
            c.oblige('%s: cluster %s' % (tag, cl), v if some else NOT(v), s.pc, wh, 'the cluster reports %s although %s of its members is occupied' % (('empty', 'one') if some else ('occupied', 'none')), YH, n=4)


def c31(c):
    import itertools
    jobs = []
    for a, b in itertools.product((0, 1), repeat=2):
        for way in ('one by one', 'together'):
            jobs.append(('sites %s/%s join %s' % (('empty', 'taken')[a], ('empty', 'taken')[b], way), c31_join, c, a, b, way))
    for a, b, d in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)):
        jobs.append(('merging, taken: %d%d%d' % (a, b, d), c31_merge, c, a, b, d))
    c.groups(jobs)


def where_of(c, n, k):
    return c.where(c.m(CLUSTER, n, k))


def c31_join(c, a, b, way):
    k = Books(c)
    cl = k.cluster('cluster')
    k.check('new', where_of(c, 'occupy', 1))
    k.site(1, a)
    k.site(2, b)
    if way == 'together':
        k.add(cl, 1, 2)
    else:
        k.add(cl, 1)
        k.check('first site in', where_of(c, 'addSite', 1))
        k.add(cl, 2)
    k.check('sites in', where_of(c, 'addSites' if way == 'together' else 'addSite', 1))
    k.update(cl)
    k.check('updated', where_of(c, 'updateProbabilitiesAndTimeConstant', 0))
    play(c, k, cl, (1, 2))
    k.site(3, 1)
    k.add(cl, 3)
    k.check('another one joins', where_of(c, 'addSite', 1))
    k.vacate(cl, 3)
    k.check('and is vacated', where_of(c, 'vacate', 1))


def play(c, k, cl, ids):
    """walkers come and go: all members are emptied, filled, and emptied in another order"""
    w, v = where_of(c, 'occupy', 1), where_of(c, 'vacate', 1)
    for i in ids:
        if k.inside[cl][i]:
            k.vacate(cl, i)
            k.check('site %d vacated' % i, v)
    for i in ids:
        k.occupy(cl, i)
        k.check('site %d occupied' % i, w)
    for i in ids:
        k.vacate(cl, i)
        k.check('site %d vacated again' % i, v)
    k.occupy(cl, ids[-1])
    k.check('site %d occupied again' % ids[-1], w)


def c31_merge(c, a, b, d):
    k = Books(c)
    one, two = k.cluster('receiver'), k.cluster('donor')
    for i, t in ((1, a), (2, b), (3, d), (4, 0)):
        k.site(i, t)
    k.add(one, 1, 2)
    k.add(two, 3, 4)
    tm.new_budget()
    k.update(one)
    k.update(two)
    k.check('before', where_of(c, 'updateProbabilitiesAndTimeConstant', 0))
    k.merge(one, two)
    k.check('merged', where_of(c, 'migrateSitesFrom', 1))
    tm.new_budget()
    play(c, k, one, (3, 1, 4, 2))
    k.site(3, 1)
    k.add(two, 3)
    k.check('the donor is used again', where_of(c, 'addSite', 1))
    k.vacate(two, 3)
    k.check('and vacated', where_of(c, 'vacate', 1))
