"""Concrete small systems for the rules about the coarse grain system: explicit sites, symbolic rates."""
from .base import *
from .stores import exit_sess
from ..interp import Fr

MT = 'std::unordered_map<i,f>'
MM = 'std::unordered_map<i,%s>' % MT
YH = {'zero': False}
for _i in range(6):
    for _j in range(6):
        YH['sym', 'k%d%d' % (_i, _j)] = lambda m, k, ty: Fr(m.rnd(6, k) + 1, m.rnd(3, k, 1) + 1)
YH['sym', 'res'] = lambda m, k, ty: Fr(m.rnd(5, k) + 1, 2)


def mapof(ty, d):
    m = raw('empty', ty)
    for k, v in d.items():
        m = mset(m, num(k) if isinstance(k, int) else k, v)
    return m


def rates(s, links):
    """rate tables with a positive symbolic rate for every link; other sites of the map stay without rates"""
    d = {}
    for i, js in links.items():
        for j in js:
            s.assume(gt(s.sym('k%d%d' % (i, j), 'f'), ZERO))
        d[i] = mapof(MT, {j: s.sym('k%d%d' % (i, j), 'f') for j in js})
    return mapof(MM, d)


class Sys:
    """a new system"""

    def __init__(self, c, name='sys'):
        self.c = c
        self.s = s = c.sess()
        s.en.concrete = True
        self.o = s.make(name, CGS)

    def resolution(self):
        s = self.s
        r = s.sym('res', 'f')
        s.assume(gt(r, ZERO))
        s(self.o, 'setTimeResolution', r)
        return r

    def init(self, links):
        s = self.s
        R = s.obj('rates', MM, rates(s, links))
        return s(self.o, 'initializeSystem', R)

    def walkers(self, d):
        """walkers by number and site, not yet placed"""
        s, c = self.s, self.c
        f = c.p.funcs[c.m(CGS, 'initializeWalkers', 1)]
        vt = f['params'][0]['t'][2:-1]
        l = raw('empty', vt)
        self.w = getattr(self, 'w', {})
        for i, site in d.items():
            w = s.make('walker%d' % i, WALKER)
            if site is not None:
                s(w, 'occupySite', num(site))
            self.w[i] = w
            l = lpush(l, pair(num(i), w))
        return s.obj('walkers' + '_'.join(map(str, d)), vt, l)
