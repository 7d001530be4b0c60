"""C13: a seeded run has no other source of randomness."""
from .base import *
from .moves import fresh_site, fields_of, MH
from .cluster import start, updated, CH
from .objects import public, some_args, bare, newobj, OH
from .system import Sys, YH, mapof
from ..engine import walk
from ..terms import lits

CALLS = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'rand_r', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'timespec_get', 'getpid', 'getppid', 'gettid',
         'getrandom', 'getentropy', 'arc4random', 'pthread_self', 'get_id', 'times', 'getrusage', '__rdtsc', '__builtin_ia32_rdtsc', '__builtin_readcyclecounter', 'tmpnam', 'localtime', 'gmtime'}
ENGINES = ('mersenne_twister', 'linear_congruential', 'subtract_with_carry', 'discard_block', 'shuffle_order', 'independent_bits')


def is_engine(t):
    return any(e in str(t) for e in ENGINES)


def source(n):
    """what the expression takes from outside the program, or None"""
    k = n.get('k')
    if k in ('call', 'mcall', 'ctor'):
        q = str(n.get('q') or n.get('f') or '')
        base = q.split('(')[0]
        last = base.split('::')[-1]
        if base.startswith('std::chrono') and last == 'now':
            return 'clock'
        if 'random_device' in base or 'random_device' in str(n.get('ot', '')):
            return 'entropy device'
        if k == 'call' and last in CALLS and base in (last, 'std::' + last, '::' + last, 'std::this_thread::' + last):
            return last
        if 'std::hash<' in base and '*>' in base:
            return 'address'
    if k == 'cast' and n.get('ck') == 'PointerToIntegral':
        return 'address'
    return None


def callers(c):
    up = {}
    for f in c.p.funcs.values():
        for part in (f.get('body'), f.get('inits')):
            if part is None:
                continue
            for n in walk(part):
                for key in ('f',):
                    g = n.get(key)
                    if isinstance(g, str) and g in c.p.funcs and n.get('k') in ('call', 'mcall', 'ctor', 'fn', 'memfn', 'icall', 'mem'):
                        up.setdefault(g, set()).add(f['id'])
    return up


def c13(c):
    c.groups([('sources', c13_sources, c), ('shared generators', c13_shared, c), ('addresses', c13_addresses, c), ('site', c13_site, c), ('cluster', c13_cluster, c), ('merge', c13_merge, c), ('lattice', c13_lattice, c),
              ('seeding', c13_seed, c, SITE), ('seeding cluster', c13_seed, c, CLUSTER), ('system seeds', c13_system, c), ('system cluster seeds', c13_clusters, c)])


def c13_sources(c):
    """clock, entropy device, global generator: only for the default seeding in constructors"""
    up = callers(c)
    n = 0
    for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
        found = [(x, source(x)) for part in (f.get('body'), f.get('inits')) if part is not None for x in walk(part)]
        found = [(x, w) for x, w in found if w]
        n += 1
        if not found:
            continue
        bad = None
        seen, todo = set(), [f['id']]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            fg = c.p.funcs[g]
            if fg['kind'] == 'ctor':
                continue
            ups = up.get(g, ())
            if fg.get('acc') == 'public' and not fg.get('anon'):
                bad = fg
                break
            if not ups and fg.get('cls') is None and 'anon' not in fg:
                bad = fg
            todo += sorted(ups)
        for x, w in found:
            c.settled('%s uses the %s only to seed by default' % (f['q'], w), bad is None, '%s:%s' % (f['file'], x['l']),
                      'a value of the %s enters a computation outside construction%s' % (w, '' if bad is None or bad is f else ' (reached from %s)' % bad['q']))
    c.settled('functions searched for outside sources: %d' % n, True)
    for q, g in sorted(c.p.globals.items()):
        if g.get('inroot') and 'init' in g and g['init'] is not None:
            for x in walk(g['init']):
                w = source(x)
                if w:
                    c.settled('%s is not initialised from the %s' % (q, w), False, '%s:%s' % (g['file'], g['l']), 'a value of the %s is kept in a variable' % w)


def c13_shared(c):
    for q, g in sorted(c.p.globals.items()):
        if g.get('inroot') and not g.get('const') and (is_engine(g['t'])):
            c.settled('%s is no shared generator' % q, False, '%s:%s' % (g['file'], g['l']), 'a generator shared by all objects')
    n = 0
    for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
        if f.get('body') is None:
            continue
        for x in walk(f['body']):
            if x.get('k') == 'decl':
                for v in x.get('v', ()):
                    n += 1
                    if v.get('static') and is_engine(v['t']):
                        c.settled('%s has no shared generator' % f['q'], False, '%s:%s' % (f['file'], x['l']), 'a generator shared by all objects')
    for q, k in sorted(c.p.classes.items()):
        for fd in k['fields']:
            if is_engine(fd['t']) and (fd['t'].startswith(('p<', 'r<')) or 'shared_ptr' in fd['t']):
                c.open('%s::%s' % (q, fd['n']), 'generator held by reference')
    c.settled('variables searched for shared generators: %d' % n, True)


def c13_addresses(c):
    """no iteration in the order of addresses"""
    n = 0
    for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
        if f.get('body') is None:
            continue
        for x in walk(f['body']):
            t = None
            if x.get('k') == 'rfor':
                t = x.get('rt')
            elif x.get('k') == 'mcall' and str(x.get('q', '')).split('::')[-1] in ('begin', 'cbegin'):
                t = x.get('ot')
            elif x.get('k') == 'bin' and x.get('op') in ('<', '>', '<=', '>='):
                n += 1
                for y in (x.get('a'), x.get('b'), x.get('x'), x.get('y')):
                    if isinstance(y, dict) and str(y.get('t', '')).startswith('p<'):
                        c.settled('%s compares no addresses' % f['q'], False, '%s:%s' % (f['file'], x['l']), 'addresses are compared, their order depends on the memory layout')
                        break
            if t:
                n += 1
                b = bare(str(t))
                if tbase(b) in ('std::set', 'std::map', 'std::unordered_set', 'std::unordered_map', 'std::multiset', 'std::multimap', 'std::priority_queue') and targs(b) and \
                        (bare(targs(b)[0]).startswith('p<') or 'shared_ptr' in targs(b)[0].split('<')[0]):
                    c.settled('%s iterates in no order of addresses' % f['q'], False, '%s:%s' % (f['file'], x['l']), 'the order of iteration depends on the memory layout')
    c.settled('iterations and comparisons searched for addresses: %d' % n, True)


# ------------------------------------------------------------------------------------------------ the generator of an object
def engine_field(c, cls):
    return [(n, t) for n, t in fields_of(c, cls) if is_engine(t)]


def steps(t):
    n = 0
    while t.op == 'adv':
        t, n = t.a[0], n + 1
    return n, t


OUTSIDE = ('clock', 'globalrand', 'entropy')


def outside(t, shared=True):
    for x in walk_terms(t):
        if x.op == 'uf' and x.a[0] in OUTSIDE:
            return 'the ' + {'clock': 'clock', 'globalrand': 'global generator'}.get(x.a[0], x.a[0])
        if shared and x.op == 'sym' and str(x.a[0]).startswith('global:'):
            return 'a variable shared by all objects'
    return None


def judge(c, name, s, o, cls, fid, args, E):
    """draws made by the operation, and what it leaves of the generator"""
    a = s.fork()
    n0 = len(a.en.draws)
    tm.new_budget()
    try:
        v = a.call(fid, o, args(a))
    except (Giveup, Blowup, NoAnchor) as e:
        c.open(name, '%s: %s' % (type(e).__name__, e))
        v = None
    wh = c.where(fid)
    made = a.en.draws[n0:]
    fn, ft = E
    S0, E0 = steps(getf(s.val(o), fn, ft))
    used = []
    for where, g, gv, pc in made:
        for cond, l in leaves(gv):
            cond = lits(cond)
            n, base = steps(l)
            if base is E0:
                used.append((n, AND(pc, cond)))
                c.settled(name + ': drawn from the own generator', True)
                continue
            w = outside(base)
            if base.op in ('engine', 'dflt', 'sym') or w or base.op in ('fld', 'get', 'rec'):
                c.oblige(name + ': drawn from the own generator', NOT(AND(pc, cond)), s.pc, where or wh, 'the number is drawn from another generator than that of the deciding object', MH)
            else:
                c.open(name + ': drawn from the own generator', base.op)
    if v is None or a.dead:
        return
    w = outside(v, False) if v is not UNIT else None
    if w and not outside(s.pc):
        c.settled(name + ': the answer depends on nothing outside', False, wh, 'the answer depends on ' + w)
    E1 = getf(a.val(o), fn, ft)
    for cond, l in leaves(E1):
        cond = lits(cond)
        n, base = steps(l)
        if base is not E0:
            if base.op in ('engine', 'dflt', 'sym', 'uf'):
                c.oblige(name + ': the generator goes on', NOT(cond), AND(s.pc, a.pc), wh, 'the operation replaces the generator, so that the seed no longer determines what follows', MH)
            else:
                c.open(name + ': the generator goes on', base.op)
            continue
        c.settled(name + ': the generator goes on', True)
        for m, pc in used:
            if m >= n:
                c.oblige(name + ': numbers are used up', NOT(AND(cond, pc)), AND(s.pc, a.pc), wh, 'a number drawn is not used up, it comes again', MH)


def c13_ops(c, s, o, cls, tag, skip=()):
    E = engine_field(c, cls)
    if len(E) != 1:
        c.open(tag, '%d generators' % len(E))
        return
    for fid in public(c, cls):
        f = c.p.funcs[fid]
        if f['n'] in ('setRandomSeed',) + tuple(skip) or any('shared_ptr' in p['t'] for p in f['params']):
            continue
        judge(c, '%s: %s/%d' % (tag, f['n'], len(f['params'])), s, o, cls, fid, lambda a, fid=fid: some_args(c, a, fid, 'a'), E[0])


def c13_site(c):
    s, o, g = fresh_site(c)
    s(o, 'setRandomSeed', s.sym('seed', 'u'))
    c13_ops(c, s, o, SITE, 'Site')


def c13_cluster(c):
    s, [(o, M)] = start(c, num(0), ('c', 'M'))
    s(o, 'setRandomSeed', s.sym('seed', 'u'))
    updated(c, s, o)
    judge(c, 'Cluster: update', s, o, CLUSTER, c.m(CLUSTER, 'updateProbabilitiesAndTimeConstant', 0), lambda a: [], engine_field(c, CLUSTER)[0])
    c13_ops(c, s, o, CLUSTER, 'Cluster', ('updateProbabilitiesAndTimeConstant', 'migrateSitesFrom'))
    w = num(5)
    s(o, 'getDwellTime', w)
    if s.dead:
        c.open('Cluster: dwell time', 'never given')
        return
    for n in ('pickNewSiteId', 'getDwellTime', 'removeWalker'):
        fid = c.m(CLUSTER, n, 1 if n != 'removeWalker' else 2)
        judge(c, 'Cluster with a walker: ' + n, s, o, CLUSTER, fid, lambda a, n=n: [w] + ([a.sym('site', 'i')] if n == 'removeWalker' else []), engine_field(c, CLUSTER)[0])


def c13_merge(c):
    s, [(o, M), (d, M2)] = start(c, num(0), ('c', 'M'), ('d', 'M2'))
    s(o, 'setRandomSeed', s.sym('seed', 'u'))
    updated(c, s, d)
    judge(c, 'Cluster: migrateSitesFrom', s, o, CLUSTER, c.m(CLUSTER, 'migrateSitesFrom', 1), lambda a: [d], engine_field(c, CLUSTER)[0])


def c13_lattice(c):
    s, o = newobj(c, CUBOID, 7)
    E = engine_field(c, CUBOID)
    if len(E) == 1:
        w = outside(getf(s.val(o), *E[0]))
        c.settled('Lattice: generator of a new lattice', w is None, c.where(c.ctor(CUBOID, 7)), 'the generator depends on %s' % w)
        fid = next(f for f in public(c, CUBOID) if c.p.funcs[f]['n'] == 'getRandomSite')
        judge(c, 'Lattice: getRandomSite', s, o, CUBOID, fid, lambda a: some_args(c, a, fid, 'a'), E[0])


def c13_seed(c, cls):
    """the seed determines the generator, whatever happened before"""
    s = c.sess()
    short = cls.split('::')[-1]
    fid = c.m(cls, 'setRandomSeed', 1)
    wh = c.where(fid)
    v, u = s.sym('seed', 'u'), s.sym('seed2', 'u')
    o, p = s.make('first', cls), s.make('second', cls)
    E = engine_field(c, cls)
    if len(E) != 1:
        c.open(short, '%d generators' % len(E))
        return
    eng = lambda t, x: getf(t.val(x), *E[0])
    a = s.fork()
    a.call(fid, o, [v])
    c.oblige(short + ': a seed is taken', a.pc, s.pc, wh, 'the seed is refused', MH)
    for n, t in fields_of(c, cls):
        w = outside(getf(a.val(o), n, t), is_engine(t))
        c.settled('%s: %s of a seeded object depends on the seed alone' % (short, n), w is None, wh, 'member %s depends on %s after a seed is set' % (n, w))
    # another object, drawn from and seeded before
    b = a.fork()
    b.call(fid, p, [u])
    b(p, 'getDwellTime', num(1), cls=TF) if cls == SITE else None
    b.call(fid, p, [v])
    if not b.dead:
        c.oblige(short + ': same seed, same generator', same(eng(a, o), eng(b, p)), b.pc, wh, 'the seed does not determine the generator', MH)
        same_ = same(eng(a, o), getf(exit_val(s, fid, o, u), *E[0]))
        c.settled(short + ': different seeds, different generators', same_ is not TRUE, wh, 'the seed has no effect on the generator')


def exit_val(s, fid, o, u):
    t = s.fork()
    t.call(fid, o, [u])
    return t.val(o)


# ------------------------------------------------------------------------------------------------ seeds in a system
LINKS = {1: (2, 3), 2: (1,), 3: (1, 4)}


SETTINGS = {'setTimeResolution': lambda k: k.resolution(), 'setRandomSeed': lambda k: k.s(k.o, 'setRandomSeed', k.s.sym('seed', 'u')),
            'setPerformanceRatio': lambda k: k.s(k.o, 'setPerformanceRatio', k.s.sym('ratio', 'f')),
            'setMinCoarseGrainIterationThreshold': lambda k: k.s(k.o, 'setMinCoarseGrainIterationThreshold', k.s.sym('least', 'i'))}
ORDERS = (('setTimeResolution', 'setRandomSeed'), ('setRandomSeed', 'setTimeResolution'), ('setRandomSeed', 'setPerformanceRatio', 'setTimeResolution'),
          ('setRandomSeed', 'setMinCoarseGrainIterationThreshold', 'setTimeResolution'), ('setTimeResolution', 'setRandomSeed', 'setTimeResolution'))


def seeded(c, order=ORDERS[0]):
    k = Sys(c)
    for m in order:
        SETTINGS[m](k)
    k.init(LINKS)
    return k, k.s.sym('seed', 'u')


def stored(c, s, o, cont, elem):
    """the map of elements inside the container the system owns"""
    for n, t in fields_of(c, CGS):
        if cont in t:
            b = getf(s.val(o), n, t)
            return n, t, b
    raise NoAnchor('store of ' + elem)


def feature(c, s, o, k):
    """reference to the object that stands for site k in the system"""
    for n, t in fields_of(c, CGS):
        if tbase(t) == 'std::unordered_map' and targs(t)[0] == 'i' and 'p<R:' + TF in t:
            m = getf(s.val(o), n, t)
            return get(m, num(k) if isinstance(k, int) else k), inm(m, num(k) if isinstance(k, int) else k)
    raise NoAnchor('registry')


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def c13_system(c):
    wh = c.where(c.m(CGS, 'initializeSystem', 1))
    for order in ORDERS:
        k, v = seeded(c, order)
        consecutive(c, 'system after ' + ' '.join(order), k.s, generators(c, k), v, wh, 'the sites of a seeded system do not get consecutive seeds')


def generators(c, k):
    """the generators of the sites of an initialised system"""
    E = engine_field(c, SITE)[0]
    return [getf(k.s.en.load(feature(c, k.s, k.o, i)[0], k.s.st), *E) for i in LINKS]


def consecutive(c, name, s, got, v, wh, what, first=0):
    if any(g.op != 'engine' for g in got):
        if any(outside(g) for g in got):
            c.settled(name + ': seeded', False, wh, 'the generator depends on ' + next(filter(None, map(outside, got))))
        else:
            c.open(name, 'generators not as seeded')
        return
    for i in range(len(got)):
        w = add(v, num(i + first))
        c.oblige('%s: seed number %d is given exactly once' % (name, i + 1), eq(total([ITE(eq(g.a[1], w), ONE, ZERO) for g in got]), ONE), s.pc, wh, what, YH)


def c13_clusters(c):
    from .hops import cluster_seeds
    cluster_seeds(c)
