"""Rules about the stores: C01, C03, C24, C27 (store parts)."""
from .base import *
from ..interp import Map, Rec, hk

SITEMAP = 'std::unordered_map<i,R:mythical::Site>'
CLUSTERMAP = 'std::unordered_map<i,R:mythical::Cluster>'
RATEMAP = 'std::unordered_map<i,std::unordered_map<i,p<f>>>'
NEIGHMAP = 'std::unordered_map<i,p<f>>'


def gen_store(kind):
    def g(m, r, ty):
        base = r.base if isinstance(r, Rec) else r
        n = m.count(5, 'n', base)
        d = {}
        for i in range(n):
            k = m.choice((0, 1, 2, 3, 4, 5, 7), 'k', i, base)
            d[k] = identified(('gen', base, k), kind, k)
        return Map(d, ty)
    return g


def gen_rates(m, r, ty):
    base = r.base if isinstance(r, Rec) else r
    d = {}
    for i in range(m.rnd(4, 'n', base)):
        k = m.choice((0, 1, 2, 3, 4), 'k', i, base)
        inner = {}
        for j in range(1 + m.count(3, 'm', k, base)):
            kk = m.choice((0, 1, 2, 3, 4, 6), 'kk', j, k, base)
            inner[kk] = ('ptr', 'p<f>', h(m, base, k, kk))
        d[k] = Map(inner, NEIGHMAP)
    return Map(d, ty)


def h(m, *k):
    return m.rnd(1000000, *k)


HINTS = {
    ('fty', 'R:' + SC, SITEMAP): gen_store('R:' + SITE),
    ('fty', 'R:' + CC, CLUSTERMAP): gen_store('R:' + CLUSTER),
    ('fty', 'R:' + RC, RATEMAP): gen_rates,
    ('fty', 'R:' + CLUSTER, SITEMAP): gen_store('R:' + SITE),
    ('field', 'id_set_'): lambda m, r, t: m.rnd(8, 'idset', r.base) != 0,
    'zero': False,
}

# method of the store, position of the id, method of the entry, parameters of the entry's method (positions; None: any value)
DELEGATES = {
    SC: ('getSite', [('setClusterId', 2, 0, 'setClusterId', (1,)), ('getClusterIdOfSite', 1, 0, 'getClusterId', ()),
                     ('partOfCluster', 1, 0, 'partOfCluster', ()), ('isOccupied', 1, 0, 'isOccupied', ()),
                     ('vacate', 1, 0, 'vacate', ()), ('occupy', 1, 0, 'occupy', ()), ('getDwellTime', 1, 0, 'getDwellTime', (None,)),
                     ('getTimeConstant', 1, 0, 'getTimeConstant', ()), ('getFastestRateOffSite', 1, 0, 'getFastestRate', ()),
                     ('getRateToNeighborOfSite', 2, 0, 'getRateToNeighbor', (1,)), ('getSiteIdsOfNeighbors', 1, 0, 'getNeighborSiteIds', ())]),
    CC: ('getCluster', [('isOccupied', 1, 0, 'isOccupied', ()), ('vacate', 1, 0, 'vacate', ()), ('occupy', 1, 0, 'occupy', ()),
                        ('getDwellTime', 2, 1, 'getDwellTime', (0,)), ('getTimeConstant', 1, 0, 'getTimeConstant', ()),
                        ('getFastestRateOffCluster', 1, 0, 'getFastestRateOffCluster', ()),
                        ('getSiteIdsOfNeighbors', 1, 0, 'getSiteIdsNeighboringCluster', ())]),
}


def refused(c, s, name, fid):
    """no normal return, and every exit is an invalid_argument"""
    c.oblige(name + ': refused', NOT(s.pc), where=c.where(fid), what='returns normally although the id is not stored', hints=HINTS)
    for x in s.last:
        if not throws(x):
            c.oblige(name + ': refused with invalid_argument', NOT(x.pc), where=x.where or c.where(fid),
                     what='leaves with %s %s instead of invalid_argument' % (x.kind, x.ty), hints=HINTS)


def store_exist(s, o, cls, k):
    return asbool(s.fork()(o, 'exist', k))


def c01(c):
    for cls, (getter, dels) in DELEGATES.items():
        for meth, npar, pos, em, eargs in [(getter, 1, 0, None, ())] + dels:
            c.group('%s::%s' % (cls, meth), c01_one, c, cls, getter, meth, npar, pos, em, eargs)
    for meth, cls in (('getSites', SC), ('getSmallestClusterId', SC)):
        c.group('%s::%s' % (cls, meth), c01_list, c, cls, meth)
    c.group('Rate_Container::getRate', c01_rate, c)


def c01_one(c, cls, getter, meth, npar, pos, em, eargs):
    short = cls.split('::')[-1]
    fid = c.m(cls, meth, npar)
    s = c.sess()
    o = s.obj('store', cls)
    args = [s.sym('arg%d' % i, 'i') for i in range(npar)]
    args[pos] = s.sym('id', 'i')
    present = store_exist(s, o, cls, args[pos])
    a = s.fork().assume(NOT(present))
    a.call(fid, o, args)
    refused(c, a, '%s::%s(unknown id)' % (short, meth), fid)
    # a stored id: the operation is the entry's own, on that entry
    if em is None:
        return
    b = s.fork().assume(present)
    v1 = b.call(fid, o, args)
    d = s.fork().assume(present)
    d(o, getter, args[pos])
    e = d.rawret
    if d.dead:
        return
    ecls = SITE if cls == SC else CLUSTER
    ea = [args[i] if i is not None else s.sym('any', 'i') for i in eargs]
    efid = c.m(ecls, em, len(ea))
    v2 = d.call(efid, e, ea)
    nm = '%s::%s(stored id)' % (short, meth)
    c.oblige(nm + ': answered when the entry answers', ITE(b.pc, d.pc, NOT(d.pc)), present, c.where(fid),
             'refused for a stored id, or answered where the entry itself refuses', HINTS)
    if not b.dead and not d.dead:
        both = AND(b.pc, d.pc)
        if not (v1 is UNIT and v2 is UNIT):
            c.oblige(nm + ': result of that entry', same(v1, v2), both, c.where(fid), 'result differs from the entry stored under the id', HINTS)
        c.oblige(nm + ': effect on that entry only', same(b.val(o), d.val(o)), both, c.where(fid),
                 'store differs from acting on the entry stored under the id', HINTS)


def c01_list(c, cls, meth):
    fid = c.m(cls, meth, 1)
    s = c.sess()
    o = s.obj('store', cls)
    ids = s.sym('ids', 'std::vector<i>')
    b = fresh('i')
    some = exists(((raw('idx', ids), b),), NOT(store_exist(s, o, cls, raw('at', ids, b))))
    a = s.fork().assume(some)
    a.call(fid, o, [ids])
    refused(c, a, '%s::%s(list with an unknown id)' % (cls.split('::')[-1], meth), fid)


def c01_rate(c):
    fid = c.m(RC, 'getRate', 2)
    s = c.sess()
    o = s.obj('store', RC)
    i, j = s.sym('id', 'i'), s.sym('neigh', 'i')
    present = rate_present(s, o, i, j)
    a = s.fork().assume(NOT(present))
    a.call(fid, o, [i, j])
    refused(c, a, 'Rate_Container::getRate(unknown rate)', fid)
    d = s.fork().assume(present)
    v = d.call(fid, o, [i, j])
    out = s.fork()(o, 'getOutgoingRates', i)
    c.oblige('Rate_Container::getRate(stored): answered', d.pc, present, c.where(fid), 'refused for a stored rate', HINTS)
    if not d.dead:
        c.oblige('Rate_Container::getRate(stored): that rate', same(v, get(get(out, i), j)), d.pc, c.where(fid), 'not the rate stored for the pair', HINTS)


def rate_present(s, o, i, j):
    out = s.fork()(o, 'getOutgoingRates', i)
    return AND(inm(out, i), inm(get(out, i), j))


# ---------------------------------------------------------------------------------------------------------------- C03
def c03(c):
    for cls, add, adds, getter in ((SC, 'addSite', 'addSites', 'getSite'), (CC, 'addCluster', 'addClusters', 'getCluster')):
        c.group(cls + '::' + add, c03_add, c, cls, add, getter)
        c.group(cls + '::' + adds, c03_batch, c, cls, adds, getter)
    c.group('Rate_Container::addRate', c03_rate, c)
    c.group('Rate_Container::addRates', c03_rates, c)
    c.group('Site::addNeighRate', c03_neigh, c)
    c.group('Cluster::addSite', c03_cluster, c)
    c.group('Cluster::addSites', c03_clusters, c)


def unchanged_entries(c, s, o, s0, cls, getter, name, where, but=None, pc=None):
    """every entry stored before is still stored with the same content (and, unless but is given, none is new)"""
    k = s.sym('other', 'i')
    e0, e1 = store_exist(s0, o, cls, k), store_exist(s, o, cls, k)
    base = pc if pc is not None else s.pc
    cond = base if but is None else AND(base, NOT(eq(k, but)))
    c.oblige(name + ': same ids stored', ITE(e0, e1, NOT(e1)), cond, where, 'an entry appears or disappears', HINTS)
    f0, f1 = s0.fork().assume(e0), s.fork().assume(AND(e0, e1))
    v0, v1 = f0(o, getter, k), f1(o, getter, k)
    if not f0.dead and not f1.dead:
        c.oblige(name + ': same content', same(v0, v1), AND(cond, e0, e1), where, 'an entry already stored is altered', HINTS)


def exit_sess(s, x):
    t = s.fork()
    t.st = x.st.copy()
    return t


def c03_add(c, cls, add, getter):
    fid = c.m(cls, add, 1)
    ecls = SITE if cls == SC else CLUSTER
    nm = '%s::%s' % (cls.split('::')[-1], add)
    s = c.sess()
    o = s.obj('store', cls)
    e = s.obj('entry', ecls)
    k = s(e, 'getId')
    if s.dead:
        return
    present = store_exist(s, o, cls, k)
    a = s.fork().assume(present)
    a.call(fid, o, [e])
    c.oblige(nm + '(same id again): refused', NOT(a.pc), s.pc, c.where(fid), 'an id already stored is accepted again', HINTS)
    for x in a.last:
        c.oblige(nm + '(same id again): first survives', same(x.st.m[('o', 'store')], s.val(o)), x.pc, x.where, 'the refused addition changes the store', HINTS)
    b = s.fork().assume(NOT(present))
    b.call(fid, o, [e])
    c.oblige(nm + '(new id): accepted', OR(b.pc, NOT(AND(s.pc, NOT(present)))), where=c.where(fid), what='a new id is refused', hints=HINTS)
    if b.dead:
        return
    g = b.fork()
    v = g(o, getter, k)
    c.oblige(nm + '(new id): stored under its id', g.pc, b.pc, c.where(fid), 'the added entry cannot be retrieved', HINTS)
    if not g.dead:
        c.oblige(nm + '(new id): content', same(v, s.val(e)), g.pc, c.where(fid), 'the stored entry differs from the one handed in', HINTS)
    unchanged_entries(c, b, o, s, cls, getter, nm + '(new id)', c.where(fid), but=k)


def c03_batch(c, cls, adds, getter):
    fid = c.m(cls, adds, 1)
    ecls = SITE if cls == SC else CLUSTER
    nm = '%s::%s' % (cls.split('::')[-1], adds)
    s = c.sess()
    o = s.obj('store', cls)
    es = s.obj('batch', 'std::vector<R:%s>' % ecls)
    b = fresh('i')
    f = s.fork()
    el = f.en.tmp(raw('at', s.val(es), b), f.st)
    idb = f(el, 'getId', cls=ecls)
    hints = dict(HINTS)
    hints['field', 'id_set_'] = lambda m, r, t: True
    a = s.fork()
    a.call(fid, o, [es])
    dup = exists(((raw('idx', s.val(es)), b),), store_exist(s, o, cls, idb))
    c.oblige(nm + '(id already stored): refused', NOT(AND(a.pc, dup)), where=c.where(fid), what='a batch with an id already stored is accepted', hints=hints)
    b2 = fresh('i')
    id2 = subst(idb, {b: b2})
    dd = exists(((raw('idx', s.val(es)), b), (raw('idx', s.val(es)), b2)), AND(lt(b, b2), eq(idb, id2)))
    c.oblige(nm + '(id twice in the batch): refused', NOT(AND(a.pc, dd)), where=c.where(fid), what='a batch with a repeated id is accepted', hints=hints)
    c.oblige(nm + '(new ids): accepted', OR(a.pc, dup, dd), where=c.where(fid), what='a batch of new ids is refused', hints=hints)
    ends = [(a, a.pc, c.where(fid))] if not a.dead else []
    ends += [(exit_sess(a, x), x.pc, x.where) for x in a.last]
    k = s.sym('other', 'i')
    for t, pc, wh in ends:
        e0, e1 = store_exist(s, o, cls, k), store_exist(t, o, cls, k)
        c.oblige(nm + ': entries stored before stay', e1, AND(pc, e0), wh, 'an entry already stored disappears', hints)
        f0, f1 = s.fork().assume(e0), t.fork().assume(AND(e0, e1))
        v0, v1 = f0(o, getter, k), f1(o, getter, k)
        if not f0.dead and not f1.dead:
            c.oblige(nm + ': entries stored before keep their content', same(v0, v1), AND(pc, e0, e1), wh, 'an entry already stored is altered', hints)
    if not a.dead:
        i = s.sym('pos', 'i')
        inr = AND(ge(i, ZERO), lt(i, size(s.val(es))))
        idi = subst(idb, {b: i})
        g = a.fork().assume(inr)
        v = g(o, getter, idi)
        c.oblige(nm + ': every entry stored under its id', g.pc, AND(a.pc, inr), c.where(fid), 'an entry of the batch cannot be retrieved', hints)
        if not g.dead:
            c.oblige(nm + ': content', same(v, raw('at', s.val(es), i)), AND(g.pc, inr), c.where(fid), 'a stored entry differs from the one handed in', hints)
        extra = AND(store_exist(a, o, cls, k), NOT(store_exist(s, o, cls, k)), NOT(exists(((raw('idx', s.val(es)), b),), eq(idb, k))))
        c.oblige(nm + ': nothing else stored', NOT(extra), a.pc, c.where(fid), 'an entry appears that was not in the batch', hints)


def c03_rate(c):
    fid = c.m(RC, 'addRate', 3)
    s = c.sess()
    o = s.obj('store', RC)
    i, j, p = s.sym('id', 'i'), s.sym('neigh', 'i'), s.sym('rate', 'p<f>')
    present = rate_present(s, o, i, j)
    a = s.fork().assume(present)
    a.call(fid, o, [i, j, p])
    c.oblige('addRate(same pair again): refused', NOT(a.pc), where=c.where(fid), what='a rate already stored is accepted again', hints=HINTS)
    for x in a.last:
        c.oblige('addRate(same pair again): first survives', same(x.st.m[('o', 'store')], s.val(o)), x.pc, x.where, 'the refused addition changes the store', HINTS)
    b = s.fork().assume(NOT(present))
    b.call(fid, o, [i, j, p])
    c.oblige('addRate(new pair): accepted', OR(b.pc, present), where=c.where(fid), what='a new rate is refused', hints=HINTS)
    if b.dead:
        return
    v = b.fork()(o, 'getRate', i, j)
    c.oblige('addRate(new pair): stored', same(v, p), b.pc, c.where(fid), 'the rate retrieved is not the one added', HINTS)
    k, l = s.sym('otherid', 'i'), s.sym('otherneigh', 'i')
    other = AND(b.pc, NOT(AND(eq(k, i), eq(l, j))))
    p0, p1 = rate_present(s, o, k, l), rate_present(b, o, k, l)
    c.oblige('addRate(new pair): other rates', ITE(p0, p1, NOT(p1)), other, c.where(fid), 'another rate appears or disappears', HINTS)
    o0, o1 = s.fork()(o, 'getOutgoingRates', k), b.fork()(o, 'getOutgoingRates', k)
    c.oblige('addRate(new pair): other values', same(get(get(o0, k), l), get(get(o1, k), l)), AND(other, p0, p1), c.where(fid), 'another rate is altered', HINTS)


def c03_rates(c):
    fid = c.m(RC, 'addRates', 1)
    s = c.sess()
    o = s.obj('store', RC)
    r = s.sym('rates', RATEMAP)
    hints = dict(HINTS)
    hints['sym', 'rates'] = lambda m, k, ty: gen_rates(m, k, ty)
    a = s.fork()
    a.call(fid, o, [r])
    i, j = s.sym('id', 'i'), s.sym('neigh', 'i')
    hints['sym', 'id'] = hints['sym', 'neigh'] = lambda m, k, ty: m.choice((0, 1, 2, 3, 4, 6), k)
    inr = AND(inm(r, i), inm(get(r, i), j))
    x, y = fresh('i'), fresh('i')
    pxy = subst(rate_present(s, o, i, j), {i: x, j: y})
    clash = exists(((dom(r), x), (raw('dom', get(r, x)), y)), pxy)
    c.oblige('addRates(pair already stored): refused', NOT(AND(a.pc, clash)), where=c.where(fid), what='a batch with a stored rate is accepted', hints=hints)
    c.oblige('addRates(new pairs): accepted', OR(a.pc, clash), where=c.where(fid), what='a batch of new rates is refused', hints=hints)
    p0 = rate_present(s, o, i, j)
    o0 = s.fork()(o, 'getOutgoingRates', i)
    ends = [(a, a.pc, c.where(fid))] if not a.dead else []
    ends += [(exit_sess(a, e), e.pc, e.where) for e in a.last]
    for t, pc, wh in ends:
        p1 = rate_present(t, o, i, j)
        o1 = t.fork()(o, 'getOutgoingRates', i)
        c.oblige('addRates: rates stored before survive', AND(p1, same(get(get(o0, i), j), get(get(o1, i), j))), AND(pc, p0), wh, 'a rate already stored is lost or altered', hints)
        c.oblige('addRates: nothing else stored', NOT(AND(p1, NOT(p0), NOT(inr))), pc, wh, 'a rate appears that was not handed in', hints)
    if not a.dead:
        p1 = rate_present(a, o, i, j)
        o1 = a.fork()(o, 'getOutgoingRates', i)
        c.oblige('addRates: all stored', AND(p1, same(get(get(r, i), j), get(get(o1, i), j))), AND(a.pc, inr), c.where(fid), 'a rate handed in is not stored as given', hints)


def c03_neigh(c):
    # rates, often equal ones
    HINTS = {**globals()['HINTS'], ('heap', 'heap:f'): lambda m, k, ty: 1 + m.rnd(2, 'rate', k), ('sym', 'neigh'): lambda m, k, ty: m.choice((0, 1, 2, 3), k)}
    fid = c.m(SITE, 'addNeighRate', 1)
    s = c.sess()
    o = s.obj('site', SITE)
    n, p = s.sym('neigh', 'i'), s.sym('rate', 'p<f>')
    pr = pair(n, p)
    present = asbool(s.fork()(o, 'isNeighbor', n))
    a = s.fork().assume(present)
    a.call(fid, o, [pr])
    c.oblige('addNeighRate(same neighbour again): refused', NOT(a.pc), where=c.where(fid), what='a neighbour already present is accepted again', hints=HINTS)
    for x in a.last:
        c.oblige('addNeighRate(same neighbour again): first survives', same(x.st.m[('o', 'site')], s.val(o)), x.pc, x.where, 'the refused addition changes the site', HINTS)
    b = s.fork().assume(NOT(present))
    b.call(fid, o, [pr])
    c.oblige('addNeighRate(new neighbour): accepted', OR(b.pc, present), where=c.where(fid), what='a new neighbour is refused', hints=HINTS)
    if b.dead:
        return
    m0, m1 = s.fork()(o, 'getNeighborsAndRates'), b.fork()(o, 'getNeighborsAndRates')
    c.oblige('addNeighRate(new neighbour): stored, others untouched', same(m1, mset(m0, n, p)), b.pc, c.where(fid), 'neighbours after the addition are not the old ones plus the new', HINTS)
    g = b.fork()
    v = g(o, 'getRateToNeighbor', n)
    if not g.dead:
        hp = get(g.en.rootval(g.st, ('heap', 'f')), p)
        c.oblige('addNeighRate(new neighbour): rate', same(v, hp), AND(g.pc, NOT(eq(p, NULL))), c.where(fid), 'rate to the new neighbour is not the one handed in', HINTS)


def member_map(c, cls=CLUSTER, ty=SITEMAP):
    fs = [f['n'] for f in c.p.classes[cls]['fields'] if f['t'] == ty]
    if len(fs) != 1:
        raise NoAnchor('member map of ' + cls)
    return fs[0]


def c03_cluster(c):
    fid = c.m(CLUSTER, 'addSite', 1)
    fld = member_map(c)
    s = c.sess()
    o = s.obj('cluster', CLUSTER)
    e = s.obj('site', SITE)
    k = s(e, 'getId')
    cid = s.fork()(o, 'getId')
    if s.dead:
        return
    s(o, 'getId')
    present = asbool(s.fork()(o, 'siteIsInCluster', k))
    a = s.fork().assume(present)
    a.call(fid, o, [e])
    c.oblige('Cluster::addSite(same id again): refused', NOT(a.pc), where=c.where(fid), what='a member is accepted again', hints=HINTS)
    for x in a.last:
        c.oblige('Cluster::addSite(same id again): first survives', same(x.st.m[('o', 'cluster')], s.val(o)), x.pc, x.where, 'the refused addition changes the cluster', HINTS)
    b = s.fork().assume(NOT(present))
    b.call(fid, o, [e])
    c.oblige('Cluster::addSite(new id): accepted', b.pc, AND(s.pc, NOT(present)), c.where(fid), 'a new member is refused', HINTS)
    if b.dead:
        return
    m0, m1 = getf(s.val(o), fld, SITEMAP), getf(b.val(o), fld, SITEMAP)
    t = s.fork()
    t(e, 'setClusterId', cid)
    c.oblige('Cluster::addSite(new id): stored under its id as handed in, marked as member', same(m1, mset(m0, k, t.val(e))), b.pc, c.where(fid),
             'members after the addition are not the old ones plus the site', HINTS)


def c03_clusters(c):
    fid = c.m(CLUSTER, 'addSites', 1)
    fld = member_map(c)
    s = c.sess()
    o = s.obj('cluster', CLUSTER)
    es = s.obj('batch', 'std::vector<R:%s>' % SITE)
    hints = dict(HINTS)
    hints['field', 'id_set_'] = lambda m, r, t: True
    b = fresh('i')
    f = s.fork()
    el = f.en.tmp(raw('at', s.val(es), b), f.st)
    idb = f(el, 'getId', cls=SITE)
    m0 = getf(s.val(o), fld, SITEMAP)
    a = s.fork()
    a.call(fid, o, [es])
    dup = exists(((raw('idx', s.val(es)), b),), inm(m0, idb))
    c.oblige('Cluster::addSites(member again): refused', NOT(AND(a.pc, dup)), where=c.where(fid), what='a member is accepted again', hints=hints)
    b2 = fresh('i')
    dd = exists(((raw('idx', s.val(es)), b), (raw('idx', s.val(es)), b2)), AND(lt(b, b2), eq(idb, subst(idb, {b: b2}))))
    c.oblige('Cluster::addSites(id twice): refused', NOT(AND(a.pc, dd)), where=c.where(fid), what='a repeated id is accepted', hints=hints)
    c.oblige('Cluster::addSites(new ids): accepted', OR(a.pc, dup, dd), where=c.where(fid), what='new members are refused', hints=hints)
    k = s.sym('other', 'i')
    for x in a.last:
        m1 = getf(x.st.m[('o', 'cluster')], fld, SITEMAP)
        c.oblige('Cluster::addSites: members stay', AND(inm(m1, k), same(get(m1, k), get(m0, k))), AND(x.pc, inm(m0, k)), x.where, 'a member is lost or altered', hints)
    if a.dead:
        return
    m1 = getf(a.val(o), fld, SITEMAP)
    c.oblige('Cluster::addSites: members stay', AND(inm(m1, k), same(get(m1, k), get(m0, k))), AND(a.pc, inm(m0, k)), c.where(fid), 'a member is lost or altered', hints)
    i = s.sym('pos', 'i')
    inr = AND(ge(i, ZERO), lt(i, size(s.val(es))))
    idi = subst(idb, {b: i})
    t = s.fork()
    el = t.en.tmp(raw('at', s.val(es), i), t.st)
    cid = t(o, 'getId')
    t(el, 'setClusterId', cid, cls=SITE)
    c.oblige('Cluster::addSites: all stored as handed in, marked as members', AND(inm(m1, idi), same(get(m1, idi), t.val(el))), AND(a.pc, inr), c.where(fid),
             'a site of the batch is not stored as given', hints)
    c.oblige('Cluster::addSites: nothing else stored', OR(NOT(inm(m1, k)), inm(m0, k), exists(((raw('idx', s.val(es)), b),), eq(idb, k))), a.pc, c.where(fid),
             'a member appears that was not handed in', hints)
