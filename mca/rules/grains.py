"""C30: sites are merged only when merging is sound.  Small explicit systems; which basin a hop finds is chosen by the rule, how long crossing it takes and the time resolution stay symbolic."""
from .base import *
from .hops import World, NET, UN, vec, listed, YH
from .moves import fields_of
from ..engine import walk
from ..interp import Fr

X, R, P = raw('sym', 'crossing', 'f'), raw('sym', 'res', 'f'), raw('sym', 'ratio', 'f')
INF = num(2 ** 31 - 1)
LIB = 'ugly::graphalgorithms::maxMinimumDistanceBetweenEveryVertex'
GH = dict(YH)
# near the two bounds and far from them
GH['sym', 'crossing'] = lambda m, k, ty: [Fr(1, 1000), Fr(1, 24), Fr(1, 12), Fr(1, 8), Fr(1, 6), Fr(1, 5), Fr(1, 4), Fr(1, 2), Fr(2)][m.rnd(9, k)]
GH['sym', 'res'] = lambda m, k, ty: [Fr(1, 1000), Fr(1, 10), Fr(1, 4), Fr(1, 2), Fr(1), Fr(5), Fr(1, 6)][m.rnd(7, k)]
GH['sym', 'ratio'] = lambda m, k, ty: [Fr(1), Fr(1, 2), Fr(2), Fr(3), Fr(3, 2)][m.rnd(5, k)]


def off(net, basin):
    """sum of the rates leaving the basin"""
    return sum(x for i in basin for j, x in net.get(i, {}).items() if j not in basin)


def guard(net, basin, x=X, r=R, p=ONE):
    """merging is sound: the time to leave exceeds the time to cross twice, and so does the time resolution"""
    o = off(net, basin)
    if not o:
        return FALSE
    return AND(lt(mul(mul(num(2), x), p), num(Fr(1, o))), lt(mul(num(2), x), r))


def clustered(k, i):
    return NOT(eq(k.cluster_of(i), UN))


def c30(c):
    jobs = [('guard: %s' % ','.join(map(str, b)), guard_new, c, b) for b in ((1, 2), (2, 1), (1, 2, 5), (3, 4), (5, 6, 7))]
    jobs += [('guard of a joining site', guard_join, c, [(1, 2)], (2, 5), 5), ('guard of two clusters', guard_join, c, [(1, 2), (3, 4)], (1, 2, 3, 4), None), ('guard of a partial overlap', guard_join, c, [(1, 2), (3, 4)], (2, 3), None),
             ('guard of two clusters and a site', guard_join, c, [(1, 2), (3, 4)], (4, 5, 2), 5), ('guard of three clusters', guard_join, c, [(1, 2), (3, 4), (5, 6)], (6, 2, 4), None)]
    jobs += [('performance ratio', ratio, c), ('nothing leaves the basin', closed, c), ('blocked hop', blocked, c), ('asked about', about, c), ('never', never, c), ('back and forth', switching, c), ('threshold raised', raised, c), ('threshold lowered', lowered, c), ('increment', increment, c)]
    jobs += [('threshold %d' % t, threshold, c, t) for t in (0, 1, 3)] + [('threshold %d without success' % t, retry, c, t) for t in (0, 1, 2)]
    jobs += [('crossing %s' % ','.join(map(str, b)), crossing, c, b) for b in ((1, 2), (1, 2, 5), (4, 3))]
    c.groups(jobs)


def hop_at(c):
    return c.where(c.m(CGS, 'hop', 2))


def world(c, **kw):
    k = World(c, **kw)
    k.s.assume(gt(X, ZERO))
    k.s.assume(gt(R, ZERO))
    k.place({1: 1})
    return k


def set_(k, name, v):
    k.s(k.o, name, v)


def guard_new(c, b):
    k = world(c, res=R, crossing=X)
    k.hop(1, b[0], b)
    wh = hop_at(c)
    if k.s.dead:
        return c.settled('possible', False, wh, 'the hop never returns')
    g = guard(k.net, b)
    nm = 'basin %s: ' % ','.join(map(str, b))
    c.oblige(nm + 'possible', k.s.pc, AND(gt(X, ZERO), gt(R, ZERO)), wh, 'the hop is refused', GH)
    for i in k.net:
        if i in b:
            c.oblige(nm + 'site %d is merged only when sound' % i, OR(NOT(clustered(k, i)), g), k.s.pc, wh, 'sites are merged although crossing them twice takes longer than leaving them or than the time resolution', GH)
            c.oblige(nm + 'site %d is merged when sound' % i, OR(NOT(g), AND(clustered(k, i), eq(k.cluster_of(i), k.cluster_of(b[0])))), k.s.pc, wh, 'a basin that can be crossed quickly is not merged', GH)
        else:
            c.oblige(nm + 'site %d stays out' % i, NOT(clustered(k, i)), k.s.pc, wh, 'a site outside the basin is merged', GH)


def guard_join(c, before, b, lone):
    k = world(c)
    for x in before:
        k.hop(1, x[0], x)
        tm.new_budget()
    k.ctl['crossing'] = X
    set_(k, 'setTimeResolution', R)
    q = k.fork()
    q.hop(1, b[0], b)
    wh = hop_at(c)
    if q.s.dead:
        return c.settled('possible', False, wh, 'the hop never returns')
    g = guard(k.net, b)
    nm = 'basin %s: ' % ','.join(map(str, b))
    c.oblige(nm + 'possible', q.s.pc, k.s.pc, wh, 'the hop is refused', GH)
    same_ = AND(*[eq(q.cluster_of(i), q.cluster_of(b[0])) for i in b])
    c.oblige(nm + 'merged only when sound', OR(NOT(AND(same_, clustered(q, b[0]))), g), q.s.pc, wh, 'sites are merged although crossing them twice takes longer than leaving them or than the time resolution', GH)
    c.oblige(nm + 'merged when sound', OR(NOT(g), AND(same_, clustered(q, b[0]))), q.s.pc, wh, 'a basin that can be crossed quickly is not merged', GH)
    for i in k.net:
        if i in b or any(i in x for x in before):
            continue
        c.oblige(nm + 'site %d stays out' % i, NOT(clustered(q, i)), q.s.pc, wh, 'a site outside the basin is merged', GH)
    # nobody leaves a cluster
    for x in before:
        for i in x[1:]:
            c.oblige(nm + 'sites %d and %d stay together' % (x[0], i), AND(clustered(q, i), eq(q.cluster_of(i), q.cluster_of(x[0]))), q.s.pc, wh, 'sites of a cluster are torn apart', GH)


def ratio(c):
    k = World(c, res=R, crossing=X)
    for t in (X, R, P):
        k.s.assume(gt(t, ZERO))
    set_(k, 'setPerformanceRatio', P)
    k.place({1: 1})
    k.hop(1, 1, (1, 2))
    g = guard(k.net, (1, 2), p=P)
    wh = hop_at(c)
    c.oblige('merged only if leaving takes longer than crossing twice, times the performance ratio', OR(NOT(clustered(k, 1)), g), k.s.pc, wh, 'sites are merged although crossing them takes longer than the performance ratio allows', GH)
    c.oblige('merged if so', OR(NOT(g), clustered(k, 1)), k.s.pc, wh, 'a basin the performance ratio allows is not merged', GH)


def closed(c):
    net = {1: {2: 5}, 2: {1: 4}, 3: {1: 2}}
    k = World(c, net=net, res=R, crossing=X)
    k.s.assume(gt(X, ZERO))
    k.s.assume(gt(R, ZERO))
    k.place({1: 3})
    k.hop(1, 1, (1, 2))
    for i in (1, 2):
        c.oblige('basin nothing leaves: site %d' % i, NOT(clustered(k, i)), k.s.pc, hop_at(c), 'sites nothing leaves are merged: the time to leave their cluster is not finite', GH)


def blocked(c):
    k = World(c, res=R, crossing=X)
    k.s.assume(gt(X, ZERO))
    k.s.assume(gt(R, ZERO))
    k.place({1: 1, 2: 2})
    k.hop(1, 2, (1, 2))
    g = guard(k.net, (1, 2))
    for i in (1, 2):
        c.oblige('blocked hop: site %d' % i, OR(NOT(clustered(k, i)), g), k.s.pc, hop_at(c), 'sites are merged unsoundly by a hop that does not take place', GH)


def about(c):
    """the basin looked for is the one around the site hopped to"""
    wh = hop_at(c)
    for to in (2, 3, 5):
        k = world(c)
        del k.asked[:]
        k.hop(1, to, ())
        if not k.asked:
            c.settled('hop to %d: a basin is looked for' % to, False, wh, 'no basin is looked for although the threshold is passed')
        for n, (a, pc) in enumerate(k.asked):
            c.oblige('hop to %d: basin looked for around it (%d)' % (to, n), eq(k.s.val(a[2]) if a[2].op == 'ref' else a[2], num(to)), pc, wh, 'the basin looked for is not around the site hopped to', GH)


def merged_after(k, b):
    return AND(*[clustered(k, i) for i in b])


def threshold(c, t):
    wh = hop_at(c)
    k = world(c, grain=num(t))
    c.oblige('threshold %d: told' % t, eq(k.s.fork()(k.o, 'getMinCoarseGrainIterationThreshold'), num(t)), k.s.pc, wh, 'the threshold told is not the one set', GH)
    to = 2
    last = 0
    for h in range(1, 2 * t + 4):
        b = (1, 2) if h <= t + 1 else (3, 4)
        k.hop(1, to, b)
        to = 3 - to
        nm = 'threshold %d, hop %d: ' % (t, h)
        if h <= t:
            c.oblige(nm + 'too early', NOT(clustered(k, 1)), k.s.pc, wh, 'sites are merged before the threshold number of hops has passed', GH)
        elif h == t + 1:
            c.oblige(nm + 'merged', AND(clustered(k, 1), clustered(k, 2)), k.s.pc, wh, 'sites are not merged although the threshold is passed', GH)
        elif h <= 2 * t + 1:
            c.oblige(nm + 'too early again', NOT(clustered(k, 3)), k.s.pc, wh, 'sites are merged before the threshold number of hops has passed since the last time', GH)
        elif h == 2 * t + 2:
            c.oblige(nm + 'merged again', AND(clustered(k, 3), clustered(k, 4)), k.s.pc, wh, 'sites are not merged although the threshold is passed once more', GH)


def retry(c, t):
    """after looking in vain, more than the threshold of hops pass before looking again; and looking goes on"""
    wh = hop_at(c)
    k = world(c, grain=num(t))
    to, at_ = 2, []
    for h in range(1, 5 * t + 6):
        del k.asked[:]
        k.hop(1, to, ())
        to = 3 - to
        if any(pc is not FALSE for _, pc in k.asked):
            at_.append(h)
    c.settled('threshold %d: looked for a basin' % t, bool(at_), wh, 'no basin is looked for however many hops are made')
    for a, b in zip([0] + at_, at_):
        c.settled('threshold %d: hops between looking at %d and at %d' % (t, a, b), b - a > t, wh, 'a basin is looked for before the threshold number of hops has passed')


def raised(c):
    """the threshold set last counts"""
    wh = hop_at(c)
    k = world(c, grain=ZERO)
    set_(k, 'setMinCoarseGrainIterationThreshold', num(3))
    for h, to in enumerate((2, 1, 2, 1)):
        k.hop(1, to, (1, 2))
        c.oblige('threshold raised to 3, hop %d' % (h + 1), clustered(k, 1) if h == 3 else NOT(clustered(k, 1)), k.s.pc, wh, 'sites are not merged by the first hop beyond the threshold set last', GH)


def lowered(c):
    wh = hop_at(c)
    for t in (0, 1, 2):
        k = world(c, grain=num(9))
        set_(k, 'setMinCoarseGrainIterationThreshold', num(t))
        to, last, n = 2, 0, 0
        del k.asked[:]
        # looked for in vain twice, then found: counting starts again
        for h in range(1, 40):
            before = len(k.asked)
            k.hop(1, to, ((), (), (1, 2), (3, 4))[n])
            to = 3 - to
            if len(k.asked) > before:
                n += 1
                if n == 3:
                    last = h
                if n == 4:
                    break
        c.settled('threshold %d: looked for again after a success' % t, n == 4 and h - last == t + 1, wh, 'after sites were merged, a basin is not looked for again by the first hop beyond the threshold')
        if n == 4:
            c.oblige('threshold %d: merged after looking in vain' % t, AND(clustered(k, 1), clustered(k, 3)), k.s.pc, wh, 'sites are not merged', GH)


def never(c):
    wh = hop_at(c)
    for when in ('from the start', 'later'):
        k = world(c, grain=INF if when == 'from the start' else ZERO)
        if when == 'later':
            k.hop(1, 2, (1, 2))
            set_(k, 'setMinCoarseGrainIterationThreshold', INF)
        del k.asked[:]
        for h, to in enumerate((4, 3, 4)):
            k.hop(1, to, (3, 4))
            for i in (3, 4, 5):
                c.oblige('switched off %s, hop %d: site %d' % (when, h, i), NOT(clustered(k, i)), k.s.pc, wh, 'sites are merged although coarse graining is switched off', GH)


def switching(c):
    wh = hop_at(c)
    k = world(c, grain=INF)
    k.hop(1, 2, (1, 2))
    set_(k, 'setMinCoarseGrainIterationThreshold', ONE)
    for to in (1, 2, 1):
        k.hop(1, to, (1, 2))
    c.oblige('switched on later', AND(clustered(k, 1), clustered(k, 2)), k.s.pc, wh, 'coarse graining stays off although a threshold was set', GH)


def increment(c):
    """a new cluster is sampled at least once per time resolution, and at least twice before it is left"""
    wh = hop_at(c)
    k = world(c, res=R, crossing=X)
    k.hop(1, 2, (1, 2))
    s = k.s
    res, inc = s.fork()(k.o, 'getResolutionOfClusters'), s.fork()(k.o, 'getTimeIncrementOfClusters')
    cid = k.cluster_of(1)
    is_ = AND(s.pc, clustered(k, 1))
    c.oblige('new cluster: told with its resolution', AND(inm(res, cid), inm(inc, cid)), is_, wh, 'a new cluster has no resolution', GH)
    c.oblige('new cluster: at least two steps', ge(get(res, cid), num(2)), is_, wh, 'a new cluster is left in less than two steps', GH)
    c.oblige('new cluster: a step is no longer than the time resolution', le(get(inc, cid), R), AND(is_, gt(get(inc, cid), ZERO)), wh, 'a step in a new cluster takes longer than the time resolution', GH)


# ------------------------------------------------------------------------------------------------ time to cross
def elements(l):
    es = []
    while l.op in ('lpush', 'lpushf'):
        es.append(l.a[1])
        l = l.a[0]
    if l.op == 'empty':
        return es
    if l.op == 'lcomp':
        g, cd, el = iter_list(l)
        if len(g) == 1 and g[0][0].op == 'idx':
            n = len(elements(g[0][0].a[0]))
            for i in range(n):
                m = {g[0][1]: num(i)}
                if subst(cd, m) is not TRUE:
                    raise Giveup('edges not explicit')
                es.append(subst(el, m))
            return es
    raise Giveup('edges not explicit')


def crossing(c, b):
    """what the graph library is asked, and what is made of its answer"""
    names = sorted({str(x.get('q') or x.get('f')) for f in c.p.funcs.values() if f.get('body') is not None and f.get('cls') == CGS for x in walk(f['body']) if 'maxMinimumDistance' in str(x.get('q', '')) + str(x.get('f', ''))})
    wh = hop_at(c)
    net = {i: {j: raw('sym', 'k%d%d' % (i, j), 'f') for j in d} for i, d in NET.items()}
    k = World(c, net=net, res=num(10 ** 9), crossing=None)
    s = k.s
    for i in net:
        for j in net[i]:
            s.assume(gt(net[i][j], ZERO))
    k.place({1: 1})
    graph, asked = [], []
    T = 'std::unordered_map<std::pair<i,i>,f,R:hash_functions::hash>'
    times = {(i, j): raw('sym', 't%d%d' % (i, j), 'f') for i in b for j in b if i != j}
    for t in times.values():
        s.assume(gt(t, ZERO))

    def new_graph(en, a, st):
        graph.append((a, st.pc))
        return raw('opaque', 'R:ugly::Graph')

    def answer(en, a, st):
        asked.append(st.pc)
        m = raw('empty', T)
        for (i, j), t in times.items():
            m = mset(m, pair(num(i), num(j)), t)
        return m
    s.en.library['ugly::Graph'] = new_graph
    for n in names or [LIB]:
        s.en.library[n] = answer
    k.hop(1, b[0], b)
    nm = 'basin %s: ' % ','.join(map(str, b))
    if not graph or not asked or s.dead:
        raise Giveup('the time to cross is not asked of the graph library')
    GX = dict(YH)
    for i, j in times:
        GX['sym', 't%d%d' % (i, j)] = lambda m, k_, ty: [Fr(1, 1000), Fr(1, 100), Fr(1, 20), Fr(1, 10), Fr(1, 3), Fr(2)][m.rnd(6, k_)]
    for i in net:
        for j in net[i]:
            GX['sym', 'k%d%d' % (i, j)] = lambda m, k_, ty: Fr(m.rnd(6, k_) + 1, m.rnd(3, k_, 1) + 1)
    S = ZERO
    for i in b:
        for j in net[i]:
            if j not in b:
                S = add(S, net[i][j])
    sound = AND(*[lt(mul(mul(num(2), t), S), ONE) for t in times.values()])
    c.oblige(nm + 'merged only if every crossing is quick', OR(NOT(clustered(k, b[0])), sound), s.pc, wh, 'sites are merged although getting from one to another takes longer than leaving', GX)
    c.oblige(nm + 'merged if every crossing is quick', OR(NOT(sound), clustered(k, b[0])), s.pc, wh, 'a basin is not merged although getting from any of its sites to any other is quick', GX)
    for (a, pc) in graph:
        edges, nodes = a[0], a[1]
        for i in net:
            there = inm(nodes, num(i))
            c.oblige(nm + 'site %d a node' % i, there if i in b else NOT(there), pc, wh, 'the graph does not consist of the sites of the basin', GX)
        es = elements(edges)
        F = {f['n']: f for f in c.p.classes['ugly::Edge']['fields']}
        got = []
        for e in es:
            v = s.en.load(s.en.deref(e, s.st, 'R:ugly::EdgeDirectedWeighted'), s.st)
            got.append([getf(v, n, F[n]['t']) for n in ('from_', 'to_', 'weight_')])
        for i in b:
            for j in net[i]:
                if j in b:
                    c.oblige(nm + 'link %d-%d' % (i, j), OR(FALSE, *[AND(eq(f, num(i)), eq(t, num(j))) for f, t, _ in got]), pc, wh, 'a link within the basin is missing in the graph', GX)
        for n, (f, t, w) in enumerate(got):
            c.oblige(nm + 'weight of edge %d' % n, OR(FALSE, *[AND(eq(f, num(i)), eq(t, num(j)), eq(mul(w, net[i][j]), ONE)) for i in net for j in net[i]]), pc, wh, 'an edge of the graph is no link, or does not weigh the time the link takes', GX)
