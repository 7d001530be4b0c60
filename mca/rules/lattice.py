"""The lattice and the charge transport rates: C16 - C21."""
from .base import *
from .stores import exit_sess
from ..interp import Fr

AXES = 'XYZ'
DIMS = ('getLength', 'getWidth', 'getHeight')
VI = 'std::vector<i>'

def size_of(m):
    return [m.hints['sym', x](m, ('sym', x), 'i') for x in 'LWH']


def some_index(m, k, ty):
    L, W, H = size_of(m)
    return m.rnd(L * W * H, k) if m.rnd(8, 'ik', k) else m.rnd(125, k)


def near_index(m, k, ty):
    """often a site close to i, across a boundary as well"""
    if m.rnd(4, 'jk', k) == 0:
        return some_index(m, k, ty)
    dim = size_of(m)
    i = m.hints['sym', 'i'](m, ('sym', 'i'), 'i')
    p = (i % dim[0], i // dim[0] % dim[1], i // (dim[0] * dim[1]))
    q = [(x + m.choice((0, 0, 0, 1, -1, 2, -2), k, a)) % d for a, (x, d) in enumerate(zip(p, dim))]
    return q[0] + dim[0] * (q[1] + dim[1] * q[2])


def edge_index(m, k, ty):
    """any index, often one at the ends of the range"""
    L, W, H = size_of(m)
    return m.choice((m.rnd(150, k) - 12, m.rnd(L * W * H, k), -1, 0, L * W * H - 1, L * W * H, L * W * H + 1), 'ek', k)


LH = {
    ('sym', 'L'): lambda m, k, ty: 1 + m.rnd(5, k), ('sym', 'W'): lambda m, k, ty: 1 + m.rnd(5, k), ('sym', 'H'): lambda m, k, ty: 1 + m.rnd(5, k),
    ('sym', 'd'): lambda m, k, ty: m.choice((Fr(1), Fr(1), Fr(1, 2), Fr(3, 2)), k),
    ('sym', 'bx'): lambda m, k, ty: m.rnd(2, k), ('sym', 'by'): lambda m, k, ty: m.rnd(2, k), ('sym', 'bz'): lambda m, k, ty: m.rnd(2, k),
    ('sym', 'x'): lambda m, k, ty: m.rnd(5, k), ('sym', 'y'): lambda m, k, ty: m.rnd(5, k), ('sym', 'z'): lambda m, k, ty: m.rnd(5, k),
    ('sym', 'i'): some_index, ('sym', 'j'): near_index,
    ('sym', 'cut'): lambda m, k, ty: m.choice((Fr(1), Fr(1), Fr(3, 2), Fr(2), Fr(9, 4)), k),
    ('sym', 'plane'): lambda m, k, ty: m.rnd(3, k), ('sym', 'at'): lambda m, k, ty: m.rnd(5, k),
    'compared': ('d', 'cut'),
}
WILD = dict(LH)          # coordinates and indices anywhere
for _n in 'xyz':
    WILD['sym', _n] = lambda m, k, ty: m.rnd(19, k) - 7
WILD['sym', 'i'] = WILD['sym', 'j'] = edge_index
WILD['sym', 'at'] = lambda m, k, ty: m.rnd(14, k) - 4
WILD['sym', 'pos'] = lambda m, k, ty: [m.rnd(9, 'pos', q) - 2 for q in range(m.choice((3, 3, 3, 2, 4, 0), 'posn'))]


class Lat:
    def __init__(self, c, bounds=True):
        self.c = c
        s = self.s = c.sess()
        self.dim = [s.sym(n, 'i') for n in 'LWH']
        self.d = s.sym('d', 'f')
        for n in self.dim:
            s.assume(gt(n, ZERO))
        s.assume(gt(self.d, ZERO))
        ct = c.p.funcs[c.ctor(CUBOID, 7)]
        bt = ct['params'][4]['t']
        self.b = [s.sym('b' + a.lower(), 'i') for a in AXES]
        for n in self.b:
            s.assume(AND(ge(n, ZERO), le(n, ONE)))
        self.o = s.make('lattice', CUBOID, *self.dim, self.d, *self.b)
        self.pos = [s.sym(n, 'i') for n in 'xyz']
        self.per = [asbool(s.fork()(self.o, 'is%sPeriodic' % a)) for a in AXES]

    def inside(self, p=None):
        return AND(*[AND(ge(v, ZERO), lt(v, n)) for v, n in zip(p or self.pos, self.dim)])

    @property
    def total(self):
        return mul(self.dim[0], mul(self.dim[1], self.dim[2]))

    def site(self, i):
        return AND(ge(i, ZERO), lt(i, self.total))

    def op(self, name, pred=None):
        return self.c.m(CUBOID, name, pred=pred)

    def coords(self, s, i):
        return [s.fork()(self.o, 'get' + a, i) for a in AXES]

    def separation(self, s, i, j):
        """squared minimum image separation in units of the spacing"""
        t = ZERO
        for p, q, n, per in zip(self.coords(s, i), self.coords(s, j), self.dim, self.per):
            a = ITE(lt(p, q), sub(q, p), sub(p, q))
            w = sub(n, a)
            m = ITE(AND(per, lt(w, a)), w, a)
            t = add(t, mul(m, m))
        return t


def npar(n, vec=None):
    def p(f):
        return len(f['params']) == n and (vec is None or ('vector' in f['params'][0]['t']) == vec)
    return p


# ---------------------------------------------------------------------------------------------------------------- C16
def c16(c):
    c.groups([('position to index and back', c16_there, c), ('index to position and back', c16_back, c)])


def c16_there(c):
    k = Lat(c)
    s, o = k.s, k.o
    s.assume(k.inside())
    gi = k.op('getIndex', npar(3))
    a = s.fork()
    i = a.call(gi, o, k.pos)
    c.oblige('every in-range position has an index', a.pc, s.pc, c.where(gi), 'an in-range position is refused', LH)
    c.oblige('an index lies between 0 and the number of sites', k.site(i), a.pc, c.where(gi), 'an index is out of range', LH, n=c.n * 10)
    gv = k.op('getIndex', npar(1, True))
    b = s.fork()
    v = s.en.tmp(llit(k.pos), b.st)
    iv = b.call(gv, o, [v])
    c.oblige('a position as a vector has the same index', AND(b.pc, same(i, iv)), AND(a.pc), c.where(gv), 'the index differs when the position is given as a vector', LH, n=c.n * 10)
    for ax, want in zip(AXES, k.pos):
        g = k.op('get' + ax)
        f = a.fork()
        r = f.call(g, o, [i])
        c.oblige('coordinate %s of the index is answered' % ax, f.pc, a.pc, c.where(g), 'the coordinate of an index is refused', LH)
        c.oblige('coordinate %s of the index is the one given' % ax, same(r, want), f.pc, c.where(g), 'the %s coordinate of the index of a position is another one' % ax, LH, n=c.n * 10)
    g = k.op('getPosition')
    f = a.fork()
    r = f.call(g, o, [i])
    c.oblige('position of the index is answered', f.pc, a.pc, c.where(g), 'the position of an index is refused', LH)
    c.oblige('position has three coordinates', eq(size(r), num(3)), f.pc, c.where(g), 'a position has not three coordinates', LH)
    for q, want in enumerate(k.pos):
        c.oblige('position of the index is the one given, %s' % AXES[q], same(raw_at(r, q), want), f.pc, c.where(g), 'the position of the index of a position is another one', LH, n=c.n * 10)


def raw_at(l, q):
    return at(l, num(q))


def llit(vs):
    l = raw('empty', VI)
    for v in vs:
        l = lpush(l, v)
    return l


def c16_back(c):
    k = Lat(c)
    s, o = k.s, k.o
    i = s.sym('i', 'i')
    s.assume(k.site(i))
    g = k.op('getPosition')
    f = s.fork()
    r = f.call(g, o, [i])
    c.oblige('every index has a position', f.pc, s.pc, c.where(g), 'an index in range is refused', LH)
    p = [raw_at(r, q) for q in range(3)]
    c.oblige('positions are in range', k.inside(p), f.pc, c.where(g), 'the position of an index is outside', LH, n=c.n * 10)
    gi = k.op('getIndex', npar(3))
    h = f.fork()
    j = h.call(gi, o, p)
    c.oblige('index of the position is the one given', AND(h.pc, same(i, j)), f.pc, c.where(gi), 'the index of the position of an index is another one', LH, n=c.n * 10)
    cs = k.coords(s, i)
    for q in range(3):
        c.oblige('whole position and coordinate %s agree' % AXES[q], same(cs[q], p[q]), f.pc, c.where(g), 'position and single coordinate disagree', LH, n=c.n * 10)
    h = f.fork()
    j = h.call(gi, o, cs)
    c.oblige('index of the coordinates is the one given', AND(h.pc, same(i, j)), f.pc, c.where(gi), 'the index of the coordinates of an index is another one', LH, n=c.n * 10)


# ---------------------------------------------------------------------------------------------------------------- C17
def c17(c):
    jobs = [('coordinates', c17_coords, c), ('indices', c17_indices, c), ('dimensions of a position', c17_vec, c), ('periodic', c17_periodic, c), ('lattices', c17_ctor, c)]
    c.groups(jobs)


def refusal(c, name, s, fid, o, args, bad, hints=WILD, what='is accepted'):
    a = s.fork().assume(bad)
    a.call(fid, o, args)
    c.oblige(name + ': refused', NOT(a.pc), TRUE, c.where(fid), 'something out of range ' + what, hints, n=c.n * 8)
    for x in a.last:
        if not throws(x):
            c.oblige(name + ': refused with invalid_argument', NOT(x.pc), TRUE, x.where or c.where(fid), 'refused with %s instead of invalid_argument' % x.ty, hints)


def accepted(c, name, s, fid, o, args, good, hints=WILD):
    a = s.fork().assume(good)
    pre = a.pc
    v = a.call(fid, o, args)
    c.oblige(name + ': accepted', a.pc, pre, c.where(fid), 'something in range is refused', hints, n=c.n * 8)
    return a, v


def c17_coords(c):
    k = Lat(c)
    s, o = k.s, k.o
    gi, gv = k.op('getIndex', npar(3)), k.op('getIndex', npar(1, True))
    nd = k.op('getNeighborDistances', npar(2, True))
    ok = [AND(ge(v, ZERO), lt(v, n)) for v, n in zip(k.pos, k.dim)]
    vec = llit(k.pos)
    cut = s.sym('cut', 'f')
    for q in range(3):
        bad = AND(NOT(k.per[q]), NOT(ok[q]))
        refusal(c, 'getIndex, %s outside a fixed axis' % AXES[q], s, gi, o, k.pos, bad)
        refusal(c, 'getIndex of a vector, %s outside a fixed axis' % AXES[q], s, gv, o, [vec], bad)
        refusal(c, 'getNeighborDistances of a position, %s outside a fixed axis' % AXES[q], s, nd, o, [vec, cut], bad)
    good = AND(*[OR(k.per[q], ok[q]) for q in range(3)])
    accepted(c, 'getIndex', s, gi, o, k.pos, good)
    accepted(c, 'getNeighborDistances of a position', s, nd, o, [vec, cut], AND(*ok))


def c17_indices(c):
    k = Lat(c)
    s, o = k.s, k.o
    i, j = s.sym('i', 'i'), s.sym('j', 'i')
    cut = s.sym('cut', 'f')
    ops = [('getPosition', npar(1), [i]), ('getX', npar(1), [i]), ('getY', npar(1), [i]), ('getZ', npar(1), [i]), ('getNeighbors', npar(2), [i, cut]),
           ('getNeighborDistances', npar(2, False), [i, cut]), ('getSmallestDistance', npar(2), [i, j])]
    for nm, pr, args in ops:
        fid = k.op(nm, pr)
        refusal(c, nm + ', index out of range', s.fork().assume(k.site(j)), fid, o, args, NOT(k.site(i)))
        refusal(c, nm + ', negative index', s.fork().assume(k.site(j)), fid, o, args, lt(i, ZERO))
        accepted(c, nm, s, fid, o, args, AND(k.site(i), k.site(j)), LH)
    refusal(c, 'getSmallestDistance, second index out of range', s.fork().assume(k.site(i)), k.op('getSmallestDistance', npar(2)), o, [i, j], NOT(k.site(j)))


def c17_vec(c):
    k = Lat(c)
    s, o = k.s, k.o
    v = s.sym('pos', VI)
    cut = s.sym('cut', 'f')
    refusal(c, 'getIndex, not three coordinates', s, k.op('getIndex', npar(1, True)), o, [v], NOT(eq(size(v), num(3))))
    refusal(c, 'getNeighborDistances, not three coordinates', s, k.op('getNeighborDistances', npar(2, True)), o, [v, cut], NOT(eq(size(v), num(3))))


def c17_periodic(c):
    k = Lat(c)
    s, o = k.s, k.o
    gi = k.op('getIndex', npar(3))
    turns = s.sym('turns', 'i')
    H = dict(LH)
    H['sym', 'turns'] = lambda m, q, ty: m.rnd(11, q) - 5
    s.assume(k.inside())
    i = s.fork().call(gi, o, k.pos)
    for q in range(3):
        p = list(k.pos)
        p[q] = add(p[q], mul(turns, k.dim[q]))
        a = s.fork().assume(k.per[q])
        pre = a.pc
        j = a.call(gi, o, p)
        c.oblige('%s: every coordinate of a periodic axis is accepted' % AXES[q], a.pc, pre, c.where(gi), 'a coordinate of a periodic axis is refused', H, n=c.n * 8)
        c.oblige('%s: it means the congruent coordinate of that axis' % AXES[q], same(i, j), a.pc, c.where(gi), 'a coordinate of a periodic axis is not mapped to the congruent one', H, n=c.n * 10)


def c17_ctor(c):
    for n in (3, 4, 7):
        fid = c.ctor(CUBOID, n)
        s = c.sess()
        dim = [s.sym(x, 'i') for x in 'LWH']
        rest = [s.sym('d', 'f')] + [s.sym('b' + a.lower(), 'i') for a in AXES]
        args = (dim + rest)[:n]
        H = dict(LH)
        for x in 'LWH':
            H['sym', x] = lambda m, k, ty: m.rnd(7, k) - 2
        for q in range(3):
            refusal(c, 'lattice/%d with a negative size along %s' % (n, AXES[q]), s, fid, None, args, lt(dim[q], ZERO), H, 'is accepted as a size')
        accepted(c, 'lattice/%d' % n, s, fid, None, args, AND(*[ge(x, ZERO) for x in dim]), H)


# ---------------------------------------------------------------------------------------------------------------- C18
def c18(c):
    c.groups([('indices', c18_list, c, 'getNeighbors'), ('distances by index', c18_list, c, 'byindex'), ('distances by position', c18_list, c, 'bypos'), ('whole lattice', c18_map, c),
              ('listings agree', c18_agree, c)])


def listing(k, s, which, i, cut):
    o = k.o
    if which == 'getNeighbors':
        fid = k.op('getNeighbors', npar(2))
        l = s.call(fid, o, [i, cut])
    elif which == 'byindex':
        fid = k.op('getNeighborDistances', npar(2, False))
        l = s.call(fid, o, [i, cut])
    else:
        fid = k.op('getNeighborDistances', npar(2, True))
        l = s.call(fid, o, [llit(k.coords(s, i)), cut])
    g, cd, el = iter_list(l)
    if which == 'getNeighbors':
        return fid, g, cd, el, None
    return fid, g, cd, getf(el, 'first', 'i'), getf(el, 'second', 'f')


def within(k, s, i, j, cut):
    return AND(NOT(eq(i, j)), le(mul(k.separation(s, i, j), mul(k.d, k.d)), mul(cut, cut)))


def c18_list(c, which):
    k = Lat(c)
    s = k.s
    i, j, cut = s.sym('i', 'i'), s.sym('j', 'i'), s.sym('cut', 'f')
    s.assume(AND(k.site(i), k.site(j), gt(cut, ZERO)))
    a = s.fork()
    fid, g, cd, who, dist = listing(k, a, which, i, cut)
    w = c.where(fid)
    c.oblige(which + ': answered', a.pc, s.pc, w, 'the neighbours of a site are refused', LH)
    inl = exists(g, AND(cd, eq(who, j)))
    want = within(k, s, i, j, cut)
    n = c.n * 8
    c.oblige(which + ': every site within the cutoff', inl, AND(a.pc, want), w, 'a site within the cutoff is missing', LH, n=n)
    c.oblige(which + ': no other site', want, AND(a.pc, inl), w, 'a site that has no image within the cutoff is listed', LH, n=n)
    c.oblige(which + ': sites of the lattice only', NOT(exists(g, AND(cd, NOT(k.site(who))))), a.pc, w, 'something that is not a site is listed', LH)
    if dist is None:
        return
    c.oblige(which + ': no distance beyond the cutoff', NOT(exists(g, AND(cd, gt(dist, cut)))), a.pc, w, 'a distance beyond the cutoff is listed', LH)
    sep = mul(k.separation(s, i, j), mul(k.d, k.d))
    c.oblige(which + ': distance of the closest image', exists(g, AND(cd, eq(who, j), eq(mul(dist, dist), sep))), AND(a.pc, want), w, 'a site is not listed with its distance', LH, n=n)
    c.oblige(which + ': no distance shorter than the closest image', NOT(exists(g, AND(cd, eq(who, j), lt(mul(dist, dist), sep)))), AND(a.pc, want), w, 'a site is listed with too short a distance', LH, n=n)
    single = AND(*[OR(NOT(p), lt(mul(mul(num(2), cut), ONE), mul(k.d, d))) for p, d in zip(k.per, k.dim)])
    c.oblige(which + ': listed once when only one image is near', eq(sum_(g, AND(cd, eq(who, j)), ONE), ONE), AND(a.pc, want, single), w, 'a site with one image within the cutoff is listed more than once', LH, n=n)


def c18_map(c):
    k = Lat(c)
    s = k.s
    i, j, cut = s.sym('i', 'i'), s.sym('j', 'i'), s.sym('cut', 'f')
    s.assume(AND(k.site(i), k.site(j), gt(cut, ZERO)))
    fid = k.op('getNeighborDistances', npar(1))
    a = s.fork()
    m = a.call(fid, k.o, [cut])
    w = c.where(fid)
    c.oblige('map: answered', a.pc, s.pc, w, 'the neighbours of the lattice are refused', LH)
    want = within(k, s, i, j, cut)
    H = dict(LH)
    for x in 'LWH':
        H['sym', x] = lambda m, k, ty: 1 + m.rnd(3, k)
    has = AND(inm(m, i), inm(get(m, i), j))
    c.oblige('map: every pair within the cutoff', has, AND(a.pc, want), w, 'a pair within the cutoff is missing', H)
    c.oblige('map: no other pair', want, AND(a.pc, has), w, 'a pair beyond the cutoff is listed', H)
    v = get(get(m, i), j)
    c.oblige('map: with the distance of the closest image', eq(mul(v, v), mul(k.separation(s, i, j), mul(k.d, k.d))), AND(a.pc, want, has), w, 'a pair is not listed with its distance', H)
    back = AND(inm(m, j), inm(get(m, j), i))
    c.oblige('map: symmetric', AND(back, eq(get(get(m, j), i), v)), AND(a.pc, has), w, 'the map is not symmetric', H)


def c18_agree(c):
    k = Lat(c)
    s = k.s
    i, j, cut = s.sym('i', 'i'), s.sym('j', 'i'), s.sym('cut', 'f')
    s.assume(AND(k.site(i), k.site(j), gt(cut, ZERO)))
    r = []
    for which in ('getNeighbors', 'byindex', 'bypos'):
        fid, g, cd, who, dist = listing(k, s.fork(), which, i, cut)
        r.append((which, fid, exists(g, AND(cd, eq(who, j)))))
    for which, fid, e in r[1:]:
        c.oblige('getNeighbors and %s agree' % which, ITE(e, r[0][2], NOT(r[0][2])), s.pc, c.where(fid), 'two listings contain different sites', LH, n=c.n * 4)


# ---------------------------------------------------------------------------------------------------------------- C19
def c19(c):
    c.groups([('minimum image', c19_one, c)])


def c19_one(c):
    k = Lat(c)
    s = k.s
    i, j = s.sym('i', 'i'), s.sym('j', 'i')
    s.assume(AND(k.site(i), k.site(j)))
    fid = k.op('getSmallestDistance', npar(2))
    w = c.where(fid)
    a = s.fork()
    v = a.call(fid, k.o, [i, j])
    c.oblige('the smallest distance of two sites is given', a.pc, s.pc, w, 'the distance of two sites is refused', LH)
    c.oblige('it is not negative', ge(v, ZERO), a.pc, w, 'the distance is negative', LH)
    sep = k.separation(s, i, j)
    for tag, cond in [('all axes fixed', AND(*[NOT(p) for p in k.per]))] + [('only %s periodic' % AXES[q], AND(*[(p if r == q else NOT(p)) for r, p in enumerate(k.per)])) for q in range(3)] + \
                     [('all axes periodic', AND(*k.per)), ('any axes', TRUE)]:
        c.oblige('it is the minimum image distance, ' + tag, eq(mul(v, v), mul(sep, mul(k.d, k.d))), AND(a.pc, cond), w, 'the distance is not that of the closest image', LH, n=c.n * 10)
    u = s.fork().call(fid, k.o, [j, i])
    c.oblige('it is symmetric', same(u, v), a.pc, w, 'the distance depends on the order', LH, n=c.n * 8)


# ---------------------------------------------------------------------------------------------------------------- C20
def c20(c):
    c.groups([('plane %d' % p, c20_plane, c, p) for p in range(3)])


def c20_plane(c, p):
    """planes in the order of the enumeration: XY, YZ, XZ"""
    fixed = {0: 2, 1: 0, 2: 1}[p]
    k = Lat(c)
    s, o = k.s, k.o
    fid = k.op('getRandomSite', npar(2))
    w = c.where(fid)
    v = s.sym('at', 'i')
    nm = ('XY', 'YZ', 'XZ')[p]
    inr = AND(ge(v, ZERO), lt(v, k.dim[fixed]))
    refusal(c, '%s outside the lattice' % nm, s, fid, o, [num(p), v], NOT(inr), WILD, 'is accepted as a plane')
    s.assume(inr)
    a = s.fork()
    r = a.call(fid, o, [num(p), v])
    c.oblige(nm + ': a site is drawn', a.pc, s.pc, w, 'a plane of the lattice is refused', LH, n=c.n * 8)
    cs = k.coords(a, r)
    c.oblige(nm + ': a site of the lattice', k.site(r), a.pc, w, 'the site drawn is outside the lattice', LH, n=c.n * 8)
    c.oblige(nm + ': on the plane', same(cs[fixed], v), a.pc, w, 'the site drawn is not on the plane', LH, n=c.n * 8)
    new = []
    for x in walk_terms(r):
        if x.op == 'draw' and x not in new:
            new.append(x)
    free = [q for q in range(3) if q != fixed]
    if len(new) == 1 or not new:
        # one number cannot give two independent coordinates unless a dimension is one
        pass
    sub_, gens, tot = {}, (), ONE
    for x in new:
        d = x.a[0]
        if d.op != 'dist' or len(d.a) != 3 or 'int' not in d.a[0]:
            c.open(nm + ': free coordinates', 'unknown distribution')
            return
        b = fresh('i')
        gens += ((raw('range', d.a[1], add(d.a[2], ONE)), b),)
        sub_[x] = b
        tot = mul(tot, sub(add(d.a[2], ONE), d.a[1]))
    t = [s.sym(n, 'i') for n in 'xyz']
    goal = AND(*[eq(cs[q], t[q]) for q in free])
    hit = sum_(gens, subst(goal, sub_), ONE)
    H = dict(LH)
    for x in 'LWH':
        H['sym', x] = lambda m, q, ty: 1 + m.rnd(3, q)
    area = mul(k.dim[free[0]], k.dim[free[1]])
    c.oblige(nm + ': every site of the plane is equally likely', eq(mul(hit, area), tot), AND(a.pc, k.inside(t)), w, 'a site of the plane is drawn too rarely, too often or never', H, n=c.n)


# ---------------------------------------------------------------------------------------------------------------- C21
KB, HBAR = 8.617333262e-5, 6.582119569e-16


def c21(c):
    c.groups([('rate', c21_rate, c)])


def c21_rate(c):
    s = c.sess()
    lam, T = s.sym('lambda', 'f'), s.sym('T', 'f')
    ei, ej, h = s.sym('ei', 'f'), s.sym('ej', 'f'), s.sym('h', 'f')
    f = s.sym('factor', 'f')
    H = {('sym', 'lambda'): lambda m, k, ty: 0.02 + m.rnd(1000, k) / 800.0, ('sym', 'T'): lambda m, k, ty: 50.0 + m.rnd(1000, k),
         ('sym', 'ei'): lambda m, k, ty: m.rnd(1000, k) / 2000.0 - 0.25, ('sym', 'ej'): lambda m, k, ty: m.rnd(1000, k) / 2000.0 - 0.25,
         ('sym', 'h'): lambda m, k, ty: 0.001 + m.rnd(1000, k) / 10000.0, ('sym', 'factor'): lambda m, k, ty: 0.5 + m.rnd(1000, k) / 300.0}
    s.assume(AND(gt(lam, ZERO), gt(T, ZERO)))
    o = s.make('marcus', MARCUS, lam, T)
    fid = c.m(MARCUS, 'getRate', 3)
    w = c.where(fid)
    R = lambda a, b, g: s.fork().call(fid, o, [a, b, g])
    k = R(ei, ej, h)
    kb, hb = num(Fr(KB)), num(Fr(HBAR))
    pi = num(Fr(3.14159265358979))
    x = mul(mul(num(4), lam), mul(kb, T))
    d = sub(ej, ei)
    q = add(lam, d)
    want = mul(div(mul(mul(num(2), pi), mul(h, h)), hb), mul(inv(raw('sqrt', mul(pi, x))), raw('exp', mul(num(-1), div(mul(q, q), x)))))
    n = c.n * 3
    c.oblige('the rate is the Marcus expression', close_to(k, want), s.pc, w, 'the rate is not the Marcus expression', H, n=n)
    c.oblige('rates grow with the square of the coupling', close_to(R(ei, ej, mul(h, f)), mul(mul(f, f), k)), s.pc, w, 'the rate does not scale with the squared coupling', H, n=n)
    c.oblige('forward to backward is the Boltzmann factor', close_to(k, mul(R(ej, ei, h), raw('exp', mul(num(-1), div(d, mul(kb, T)))))), s.pc, w, 'forward and backward rate do not obey detailed balance', H, n=n)
    sh = s.sym('shift', 'f')
    H['sym', 'shift'] = lambda m, k, ty: m.rnd(1000, k) / 500.0 - 1
    c.oblige('only the difference of the energies matters', close_to(R(add(ei, sh), add(ej, sh), h), k), s.pc, w, 'the rate depends on more than the difference of the energies', H, n=n)


def close_to(a, b, tol=Fr(1, 10000)):
    if same(a, b) is TRUE:
        return TRUE
    d = sub(a, b)
    t = mul(num(tol), b)
    return AND(le(d, t), ge(d, mul(num(-1), t)))
