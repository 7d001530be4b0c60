"""Sites and clusters: C07 - C12, C26."""
from .base import *
from .stores import HINTS, member_map, exit_sess, SITEMAP, NEIGHMAP
from ..interp import Map, Rec, Fr

PAIRS = 'std::vector<std::pair<i,f>>'


def fieldof(m, ty, ft):
    fs = [n for n, t in m.fields(ty) if t == ft]
    return fs[0] if len(fs) == 1 else None


def linked(m, i, j, tag):
    """symmetric neighbour relation"""
    a, b = (i, j) if i < j else (j, i)
    if b == a + 1:
        return True
    return m.rnd(10, 'link', tag, a, b) < 6


def g_neigh(m, r, ty):
    base = r.base
    me = base[2] if len(base) > 2 and isinstance(base[2], int) else None
    d = {}
    for k in range(8):
        if k != me and (linked(m, me, k, 'sym') if me is not None else m.rnd(2, 'nb', base, k)):
            d[k] = ('ptr', 'p<f>', ('rate', base, k))
    return Map(d, ty)


def g_rate(m, k, ty):
    r = m.rnd(12, 'rk', k)
    v = 0.01 + m.rnd(10000, 'rv', k) / 997.0
    if r == 0:
        v *= 1e9
    # now and then all rates of a system are far from 1
    scale = m.choice((1,) * 13 + (1e-31, 1e-12, 1e14) + m.consts * 2, 'scale')
    if scale != 1:
        m.floor = 1e-13 * min(scale, 1 / scale)
        return interp.Fr(scale) * (1 + m.rnd(1000, 'rv', k)) / 100
    if m.rnd(6, 'slow') == 0:
        # the members exchange walkers much faster than they let them go
        p = k[2] if isinstance(k, tuple) and len(k) > 2 else None
        if isinstance(p, tuple) and p[0] == 'rate' and isinstance(p[1], tuple) and p[1][0] == 'site' and p[2] not in g_members(m, ('sym', 'M'), SITEMAP).d:
            v *= 1e-6
    return v if not m.hints.get('equal') else float(1 + m.rnd(2, 'eqv', k))


def site_rates(m, r):
    n = fieldof(m, r.ty, NEIGHMAP)
    if n is None:
        return None
    mp = m.rget(r, (n, NEIGHMAP))
    return {k: m.mget(Map({}, 'M<p<f>,f>', (('heap', 'heap:f'), 'f')), p) for k, p in mp.d.items()}


def g_table(m, r, ty):
    q = site_rates(m, r)
    if not q:
        return []
    t = sum(q.values())
    return [(k, v / t) for k, v in sorted(q.items())]


def g_tau(m, r, ty):
    q = site_rates(m, r)
    if not q:
        return 1.0
    return 1 / sum(q.values())


def g_members(m, r, ty):
    base = r.base if isinstance(r, Rec) else r
    n = 2 + m.rnd(2, 'n', base)
    d = {}
    k0 = m.rnd(3, 'k', base)
    for k in range(k0, k0 + n):
        d[k] = identified(('site', base, k), 'R:' + SITE, k)
    return Map(d, ty)


CH = dict(HINTS)
CH.update({
    ('sym', 'M'): g_members, ('sym', 'M2'): lambda m, r, ty: g_members2(m, r, ty),
    ('fty', 'R:' + CLUSTER, SITEMAP): g_members,
    ('fty', 'R:' + SITE, NEIGHMAP): g_neigh,
    ('fty', 'R:' + SITE, PAIRS): g_table,
    ('fty', 'R:' + SITE, 'f'): g_tau,
    ('heap', 'heap:f'): g_rate,
    ('sym', 'id'): lambda m, k, ty: m.rnd(8, k), ('sym', 'other'): lambda m, k, ty: m.rnd(8, k),
    'compared': ('w', 'w2'),
    ('sym', 'w'): lambda m, k, ty: m.rnd(3, k), ('sym', 'w2'): lambda m, k, ty: m.rnd(3, k),
    ('field', 'occupied_'): lambda m, r, t: m.rnd(2, 'occ', r.base),
    ('field', 'id_set_'): lambda m, r, t: True,
    ('field', 'total_visit_freq_'): lambda m, r, t: m.rnd(50, 'vis', r.base),
})


def g_members2(m, r, ty):
    """members disjoint from those of M"""
    a = g_members(m, ('sym', 'M'), ty).d
    k0 = max(a) + 1
    d = {}
    for k in range(k0, k0 + 2):
        d[k] = identified(('site', ('sym', 'M2'), k), 'R:' + SITE, k)
    return Map(d, ty)


def heap(s):
    return s.en.rootval(s.st, ('heap', 'f'))


# ---------------------------------------------------------------------------------------------------------------- C07
def c07(c):
    c.group('set', c07_set, c)
    c.group('add', c07_op, c, 'addNeighRate')
    c.group('reset', c07_op, c, 'resetNeighRate')
    from .objects import keys_apart
    keys_apart(c, set(c.functions))


SH = dict(CH)
SH['sym', 'given'] = lambda m, k, ty: Map({x: g_rate(m, ('gv', x), 'f') for x in range(8) if m.rnd(3, 'gv', x) == 0}, ty)
SH['sym', 'neigh'] = lambda m, k, ty: m.rnd(8, k)


def c07_set(c):
    fid = c.m(SITE, 'setRatesToNeighbors', 1)
    s = c.sess()
    o = s.obj('site', SITE)
    g = s.obj('rates', 'std::unordered_map<i,f>', s.sym('given', 'std::unordered_map<i,f>'))
    given = s.val(g)
    a = s.fork()
    a.call(fid, o, [g])
    if a.dead:
        c.open('setRatesToNeighbors', 'never returns')
        return
    match(c, a, o, 'setRatesToNeighbors', fid)
    k = s.sym('id', 'i')
    f = a.fork()
    v = f(o, 'getRateToNeighbor', k)
    c.oblige('setRatesToNeighbors: every neighbour given is one', f.pc, AND(a.pc, inm(given, k)), c.where(fid), 'a neighbour handed in is not stored', SH)
    if not f.dead:
        c.oblige('setRatesToNeighbors: with the rate given', same(v, get(given, k)), AND(f.pc, inm(given, k)), c.where(fid), 'the rate to a neighbour is not the one handed in', SH)
    c.oblige('setRatesToNeighbors: rates handed in stay', same(a.val(g), given), a.pc, c.where(fid), 'the map handed in is changed', SH)


def c07_op(c, meth):
    fid = c.m(SITE, meth, 1)
    s = c.sess()
    o = s.obj('site', SITE)
    n, p = s.sym('neigh', 'i'), s.sym('rate', 'p<f>')
    a = s.fork().assume(NOT(eq(p, NULL)))
    a.call(fid, o, [pair(n, p)])
    if a.dead:
        c.open(meth, 'never returns')
        return
    match(c, a, o, meth, fid)
    m0, m1 = s.fork()(o, 'getNeighborsAndRates'), a.fork()(o, 'getNeighborsAndRates')
    k = s.sym('id', 'i')
    c.oblige(meth + ': the rate given, other neighbours untouched', same(m1, mset(m0, n, p)), a.pc, c.where(fid), 'neighbours are not the old ones with this one set', SH)
    h0, h1 = heap(s), heap(a)
    q = s.sym('anyrate', 'p<f>')
    c.oblige(meth + ': rates themselves untouched', same(get(h0, q), get(h1, q)), a.pc, c.where(fid), 'a rate is overwritten', SH)


def match(c, a, o, nm, fid):
    """time constant and probabilities fit the rates held now"""
    w = c.where(fid)
    n = a.fork()(o, 'getNeighborsAndRates')
    H = heap(a)
    b = fresh('i')
    f = a.fork()
    rate = f(o, 'getRateToNeighbor', b)
    total = sum_(((raw('dom', n), b),), TRUE, rate)
    k = a.sym('id', 'i')
    fk = a.fork()
    rk = fk(o, 'getRateToNeighbor', k)
    pos = AND(a.pc, NOT(eq(total, ZERO)))
    tau = a.fork()(o, 'getTimeConstant')
    c.oblige(nm + ': time constant is one over the sum of all rates', eq(mul(tau, total), ONE), pos, w, 'time constant does not match the rates', SH)
    l = a.fork()(o, 'getProbabilitiesAndIdsOfNeighbors')
    g, cd, el = iter_list(l)
    first_, second = fst(el), snd(el)
    cnt = sum_(g, AND(cd, eq(first_, k)), ONE)
    c.oblige(nm + ': one probability per neighbour', eq(cnt, ITE(inm(n, k), ONE, ZERO)), pos, w, 'a neighbour has no probability, or more than one, or a stranger has one', SH)
    c.oblige(nm + ': probabilities add up to one', eq(sum_(g, cd, second), ONE), AND(pos, exists(((raw('dom', n), b),), TRUE)), w, 'probabilities do not add up to one', SH)
    c.oblige(nm + ': probability is rate over sum', eq(mul(sum_(g, AND(cd, eq(first_, k)), second), total), rk), AND(pos, inm(n, k), fk.pc), w, 'a probability is not the rate over the sum', SH)
    fp = a.fork()
    pk = fp(o, 'getProbabilityOfHoppingToNeighboringSite', k)
    c.oblige(nm + ': probability given for every neighbour', fp.pc, AND(pos, inm(n, k)), w, 'the probability of a neighbour is refused', SH)
    if not fp.dead:
        c.oblige(nm + ': probability reported is rate over sum', eq(mul(pk, total), rk), AND(pos, inm(n, k), fp.pc, fk.pc), w, 'a probability reported is not the rate over the sum', SH)


def fst(p):
    return getf(p, 'first', 'i')


def snd(p):
    return getf(p, 'second', 'f')


def built(c, name='c', members='M', s=None):
    """a cluster as constructed, holding symbolic members"""
    fld = member_map(c)
    s = s or c.sess()
    o = s.make(name, CLUSTER)
    M = s.sym(members, SITEMAP)
    s.st.m[('o', name)] = setf(s.val(o), fld, SITEMAP, M)
    return s, o, M


# ---------------------------------------------------------------------------------------------------------------- C08
METHODS = ('converge_by_iterations_per_cluster', 'converge_by_iterations_per_site', 'converge_by_tolerance')


def method_values(c):
    """the convergence methods the cluster offers"""
    f = c.p.funcs[c.m(CLUSTER, 'setConvergenceMethod', 1)]
    t = f['params'][0]['t']
    return [(n, num(i)) for i, n in enumerate(METHODS)], t


def observers(c):
    """(name, arguments, range of the argument) of what a cluster reports or does"""
    return (('getProbabilityOfOccupyingInternalSite', 'id'), ('getProbabilityOfHoppingToNeighborOfCluster', 'id'), ('getSiteIdsNeighboringCluster', None),
            ('getTimeConstant', None), ('getTimeIncrement', None), ('getNumberOfSitesInCluster', None), ('getFastestRateOffCluster', None),
            ('getVisitFrequency', 'id'), ('visits', 'id'), ('dwell', 'w'), ('pick', 'w'), ('stay', 'w'))


def observe(s, o, nm, arg):
    """value, condition under which it is given"""
    f = s.fork()
    if nm == 'visits':
        # after many visits to the cluster
        f.call(s.c.m(TF, 'setVisitFrequency', 1), o, [s.sym('many', 'i')])
        v = f(o, 'getVisitFrequency', s.sym(arg, 'i'), cls=CLUSTER)
    elif nm == 'dwell':
        v = f(o, 'getDwellTime', s.sym('w', 'i'), cls=CLUSTER)
    elif nm == 'pick':
        f(o, 'getDwellTime', s.sym('w', 'i'), cls=CLUSTER)
        if f.dead:
            return None, FALSE
        v = f(o, 'pickNewSiteId', s.sym('w', 'i'), cls=CLUSTER)
    elif nm == 'stay':
        f(o, 'getDwellTime', s.sym('w', 'i'), cls=CLUSTER)
        if f.dead:
            return None, FALSE
        f(o, 'getDwellTime', s.sym('w', 'i'), cls=CLUSTER)
        if f.dead:
            return None, FALSE
        v = f(o, 'pickNewSiteId', s.sym('w', 'i'), cls=CLUSTER)
    elif arg:
        v = f(o, nm, s.sym(arg, 'i'), cls=CLUSTER)
    else:
        v = f(o, nm, cls=CLUSTER)
    if f.dead:
        return None, FALSE
    return v, f.pc


def compare(c, nm, a, b, o, where, what, hints=None, ob=None, skip=()):
    for meth, arg in (ob or observers(c)):
        if meth in skip:
            continue

        def one(meth=meth, arg=arg):
            va, pa = observe(a, o, meth, arg)
            vb, pb = observe(b, o, meth, arg)
            if va is None or vb is None:
                c.open('%s: %s' % (nm, meth), 'never answers')
                return
            if meth == 'getSiteIdsNeighboringCluster':
                va, vb = multiset(a, va), multiset(a, vb)
            c.oblige('%s: %s' % (nm, meth), same(va, vb), AND(pa, pb), where, what + ' (%s differs)' % meth, hints or CH)
        c.group('%s: %s' % (nm, meth), one)


def multiset(s, l):
    g, cd, el = iter_list(l)
    return sum_(g, AND(cd, eq(el, s.sym('id', 'i'))), ONE)


def updated(c, s, o):
    up = c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)
    s.call(up, o)
    return s


def extra_site(m, k, ty):
    a = g_members(m, ('sym', 'M'), SITEMAP).d
    n = max(a) + 1
    return identified(('site', ('sym', 'e'), n), 'R:' + SITE, n)


CH['sym', 'e'] = extra_site
CH['sym', 'many'] = lambda m, k, ty: 1000 + m.rnd(10**6, k)
CH['sym', 'rounds'] = lambda m, k, ty: 1 + m.rnd(3, k)
CH['sym', 'draw'] = lambda m, k, ty: m.rnd(10**6, k) / 1e6


def c08(c):
    jobs = []
    for nm, v in method_values(c)[0]:
        jobs += [('update twice, ' + nm, c08_twice, c, nm, v), ('update, add a site, update, ' + nm, c08_added, c, nm, v),
                 ('merge into an updated cluster, ' + nm, c08_merged, c, nm, v), ('merge refreshes, ' + nm, c08_refreshed, c, nm, v)]
    c.groups(jobs)


def start(c, v, *names):
    s = None
    out = []
    for n, M in names:
        s, o, mm = built(c, n, M, s)
        s(o, 'setConvergenceMethod', v, cls=CLUSTER)
        s(o, 'setConvergenceIterations', s.sym('rounds', 'i'), cls=CLUSTER)
        out.append((o, mm))
    return s, out


def c08_twice(c, nm, v):
    s, [(o, M)] = start(c, v, ('c', 'M'))
    a = updated(c, s.fork(), o)
    b = updated(c, a.fork(), o)
    compare(c, 'updating twice (%s)' % nm, a, b, o, c.where(c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)),
            'a second update changes the result')


def c08_added(c, nm, v):
    s, [(o, M)] = start(c, v, ('c', 'M'))
    e = s.obj('e', SITE)
    add = c.m(CLUSTER, 'addSite', 1)
    a = s.fork()
    a.call(add, o, [e])
    updated(c, a, o)
    b = updated(c, s.fork(), o)
    b.call(add, o, [e])
    updated(c, b, o)
    compare(c, 'growing after an update (%s)' % nm, a, b, o, c.where(c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0)),
            'something of the earlier composition survives the update')


def c08_merged(c, nm, v):
    s, [(o, M), (d, M2)] = start(c, v, ('c', 'M'), ('d', 'M2'))
    updated(c, s, d)
    mig = c.m(CLUSTER, 'migrateSitesFrom', 1)
    a = s.fork()
    a.call(mig, o, [d])
    b = updated(c, s.fork(), o)
    b.call(mig, o, [d])
    compare(c, 'merging into an updated cluster (%s)' % nm, a, b, o, c.where(mig), 'something of the earlier composition survives the merge')


def c08_refreshed(c, nm, v):
    s, [(o, M), (d, M2)] = start(c, v, ('c', 'M'), ('d', 'M2'))
    updated(c, s, d)
    mig = c.m(CLUSTER, 'migrateSitesFrom', 1)
    a = s.fork()
    a.call(mig, o, [d])
    x = updated(c, a.fork(), o)
    compare(c, 'a merge refreshes everything (%s)' % nm, a, x, o, c.where(mig), 'the merge leaves a quantity out of date')
