"""Finite interpretations of terms.

Used by the rules in one place only: when the normal form of an obligation is not TRUE, the obligation term is evaluated
under randomly chosen finite interpretations of its symbols (random interpretation of the *analysis result*; the program is
neither compiled nor executed).  A refuting interpretation turns the undecided comparison into an alarm and is reported as
the witness; if none is found the obligation is counted as undetermined and no alarm is raised."""
import functools
import hashlib
import math
import struct
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T, TRUE, FALSE, typ, targs, tbase, is_map, is_set, is_list, is_num, is_intty, BOXES, MAPS, SETS, LISTS


class Undet(Exception):
    pass


class Fuel(Undet):
    pass


def h64(*xs):
    return struct.unpack('<Q', hashlib.blake2b(repr(xs).encode(), digest_size=8).digest())[0]


class Map:
    """finite map (or set); total maps (the heap) generate entries on demand"""
    __slots__ = ('d', 'ty', 'gen', '_k')

    def __init__(self, d, ty, gen=None):
        self.d, self.ty, self.gen, self._k = d, ty, gen, None

    def key(self):
        if self._k is None:
            self._k = ('M', tuple(sorted(((canon(k), canon(v)) for k, v in self.d.items()), key=repr)), self.gen and self.gen[0])
        return self._k


class Rec:
    __slots__ = ('base', 'ty', 'o', '_k')

    def __init__(self, base, ty, o):
        self.base, self.ty, self.o, self._k = base, ty, o, None

    def key(self):
        if self._k is None:
            self._k = ('R', self.base, tuple(sorted(((k, canon(v)) for k, v in self.o.items()), key=repr)))
        return self._k


def canon(v):
    """hashable identity of a model value"""
    if isinstance(v, (Map, Rec)):
        return v.key()
    if isinstance(v, list):
        return ('L',) + tuple(canon(x) for x in v)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fr):
        if v.denominator == 1:
            return int(v)
        return ('q', v.numerator, v.denominator)
    if isinstance(v, float):
        return ('d', round(v, 9))
    return v


def isn(v):
    return isinstance(v, (int, Fr, float))


TOL = 1e-7


def close_(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= TOL * max(1e-12, abs(a), abs(b))
    return a == b


def same(a, b, model):
    if isn(a) and isn(b):
        return close_(a, b)
    if isinstance(a, Map) and isinstance(b, Map):
        if a.gen or b.gen:
            if a.gen != b.gen:
                return False
            for k in set(a.d) | set(b.d):
                if not same(model.mget(a, k), model.mget(b, k), model):
                    return False
            return True
        if set(a.d) != set(b.d):
            return False
        return all(same(v, b.d[k], model) for k, v in a.d.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, model) for x, y in zip(a, b))
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.base == b.base:
            return all(same(model.rget(a, k), model.rget(b, k), model) for k in set(a.o) | set(b.o))
        return all(same(model.rget(a, k), model.rget(b, k), model) for k in model.fields(a.ty) or model.fields(b.ty))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, model) for x, y in zip(a, b))
    return a == b


_fb = {}


def free_bvs(t):
    """bound variables free in t"""
    r = _fb.get(t)
    if r is None:
        if t.op == 'bv':
            r = (t,)
        elif tm.level(t) == 0:
            r = ()
        else:
            s = set()
            for c in tm.children(t):
                s.update(free_bvs(c))
            s.difference_update(tm.bound_of(t))
            r = tuple(sorted(s))
        _fb[t] = r
    return r


IDS = (0, 1, 2, 3, 4, 5, 7)


class Model:
    """one interpretation.  hints: dict from ('sym', name) or (owner type, field) to fn(model, key, ty)"""

    def __init__(self, seed, prog, hints=None, fuel=400000):
        self.seed, self.prog, self.hints = seed, prog, hints or {}
        self.memo = {}
        self.fuel = fuel
        self.floor = 1e-13       # what is indistinguishable from zero
        self.consts = ()         # magnitudes far from 1 that the terms compare with
        self.ints = ()           # whole numbers the terms compare with
        self.gens = {}
        self.named = {}

    # ------------------------------------------------------------ generation
    def rnd(self, n, *key):
        return h64(self.seed, key) % n

    def choice(self, xs, *key):
        return xs[self.rnd(len(xs), *key)]

    def count(self, n, *key):
        """how many: below n, now and then as many as the terms compare with"""
        xs = [x for x in self.ints if n <= x <= 12]
        if xs and self.rnd(5, 'cd', key) == 0:
            return self.choice(xs, 'cc', key) + self.rnd(2, 'ce', key)
        return self.rnd(n, key)

    def fields(self, ty):
        q = ty[2:] if ty.startswith('R:') else ty
        c = self.prog.classes.get(q)
        out = []
        if c:
            for b in c['bases']:
                out += self.fields(b)
            out += [(f['n'], f['t']) for f in c['fields']]
        return out

    def gen(self, ty, *key):
        if ty.startswith('c '):
            ty = ty[2:]
        ty = tm.strip_ref(ty)
        if ty == 'b':
            return bool(self.rnd(2, 'b', key))
        if ty in ('i', 'u') or ty.startswith('E:'):
            if ty.startswith('E:'):
                vs = tm.ENUMS.get(ty, (0, 1))
                return int(self.choice(vs, key))
            r = self.rnd(12, 'ik', key)
            if r == 0 and ty == 'i':
                return -1 - self.rnd(3, 'neg', key)
            if r == 1:
                return 10 + self.rnd(30, 'big', key)
            if self.ints and key and key[0] in ('sym', 'fld') and self.rnd(6, 'di', key) == 0:
                return self.choice(self.ints, 'dc', key) + self.rnd(3, 'dd', key) - 1
            return self.choice(IDS, 'i', key)
        if ty == 'f':
            r = self.rnd(12, 'fk', key)
            if r == 0 and self.hints.get('zero', True):
                return Fr(0)
            v = Fr(1 + self.rnd(400, 'f', key), (1, 2, 4, 5, 8, 10)[self.rnd(6, 'fd', key)])
            if r == 2 and self.consts:
                v = Fr(self.choice(self.consts, 'fc', key)) * (Fr(1, 1000), Fr(1, 2), 1, 2, 1000)[self.rnd(5, 'fm', key)]
            if r == 1 and self.hints.get('negative', False):
                return -v
            return v
        if ty.startswith('p<'):
            if self.hints.get('null', False) and self.rnd(12, 'null', key) == 0:
                return ('null',)
            return ('ptr', ty, self.rnd(1000000, 'p', key))
        if is_map(ty) or is_set(ty):
            ta = targs(ty)
            n = self.count(5, 'n', key)
            d = {}
            for i in range(n):
                k = self.gen(ta[0], 'k', i, key)
                d[hk(k)] = self.gen(ta[1], 'v', canon(k), key) if is_map(ty) else ('unit',)
            return Map(d, ty)
        if is_list(ty):
            ta = targs(ty)
            n = self.count(5, 'n', key)
            return [self.gen(ta[0], 'e', i, key) for i in range(n)]
        b = tbase(ty)
        if b == 'std::pair':
            ta = targs(ty)
            return (self.gen(ta[0], 'first', key), self.gen(ta[1], 'second', key))
        if b in BOXES:
            return ('ptr', ty, self.rnd(1000000, 'p', key))
        if ty.startswith('R:'):
            return Rec(('gen', key), ty, {})
        return ('val', ty, h64(self.seed, key))

    def sym(self, t):
        name, ty = t.a[0], t.a[1]
        h = self.hints.get(('sym', name))
        if h is not None:
            w = self.hints.get('compared', ())
            if name in w and self.rnd(6, 'di', name) == 0:
                if ty == 'f' and self.consts:
                    return Fr(self.choice(self.consts, 'fc', name)) * (Fr(1, 1000), Fr(1, 2), 1, 2, 1000)[self.rnd(5, 'fm', name)]
                if ty in ('i', 'l', 'u', 'ul') and self.ints:
                    return self.choice(self.ints, 'dc', name) + self.rnd(3, 'dd', name) - 1
            return h(self, ('sym', name), ty)
        if name.startswith('heap:'):
            return Map({}, ty, (('heap', name), targs(ty)[1]))
        if name.startswith('global:'):
            return self.gen(ty, 'g', name)
        if '#' in name:
            raise Undet('free loop variable')
        return self.gen(ty, 'sym', name)

    def rget(self, r, k):
        if k in r.o:
            return r.o[k]
        key = ('fld', r.base, k)
        v = self.gens.get(key)
        if v is None:
            h = self.hints.get((r.ty, k[0])) or self.hints.get(('field', k[0])) or self.hints.get(('fty', r.ty, k[1]))
            if h is not None:
                v = h(self, r, k[1])
            elif r.base[0] == 'dflt':
                x = tm.SLOT['dfltfld'](tm.raw('dflt', r.ty), k) if tm.SLOT['dfltfld'] else None
                if x is None:
                    v = self.gen(k[1], key)
                else:
                    v = self.ev(x, {})
            else:
                v = self.gen(k[1], key)
            self.gens[key] = v
        return v

    def mget(self, m, k):
        k = hk(k)
        if k in m.d:
            return m.d[k]
        vt = targs(m.ty)
        vt = vt[1] if len(vt) > 1 else 'i'
        if m.gen:
            key = ('tot', m.gen[0], canon(k))
            v = self.gens.get(key)
            if v is None:
                h = self.hints.get(m.gen[0])
                v = self.gens[key] = h(self, k, m.gen[1]) if h else self.gen(m.gen[1], key)
            return v
        return self.gen(vt, 'absent', canon(k))

    def keys(self, m):
        if m.gen:
            raise Undet('iteration over the heap')
        ks = list(m.d)
        b = tbase(m.ty)
        if b in ('std::map', 'std::set', 'std::multiset') and len(targs(m.ty)) <= (2 if b == 'std::map' else 1):
            try:
                return sorted(ks)
            except TypeError:
                pass
        return sorted(ks, key=lambda k: h64(self.seed, 'order', canon(k)))

    # ------------------------------------------------------------ evaluation
    def dom(self, D, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel('fuel')
        if D.op == 'dom':
            m = self.ev(D.a[0], env)
            return self.keys(m)
        if D.op == 'idx':
            return range(len(self.ev(D.a[0], env)))
        if D.op == 'range':
            a, b = self.ev(D.a[0], env), self.ev(D.a[1], env)
            a, b = math.ceil(a), math.ceil(b)
            if b - a > 4000:
                raise Fuel('range')
            return range(a, b)
        raise Undet('domain ' + D.op)

    def elems(self, gens, env):
        """environments of all generator tuples, in order"""
        if not gens:
            yield env
            return
        (D, b), rest = gens[0], gens[1:]
        for k in self.dom(D, env):
            e = dict(env)
            e[b] = k
            if rest:
                yield from self.elems(rest, e)
            else:
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel('fuel')
                yield e

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isn(v):
            return v != 0
        raise Undet('truth of %r' % (v,))

    def ev(self, t, env):
        fb = free_bvs(t)
        if fb:
            try:
                k = (t,) + tuple(hashid(env[b]) for b in fb)
            except KeyError:
                raise Undet('unbound')
        else:
            k = t
        r = self.memo.get(k, self)
        if r is self:
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel('fuel')
            f = getattr(self, 'e_' + t.op, None)
            if f is None:
                r = self.structural(t, env)
            else:
                r = f(t, env)
            if isinstance(r, (Fr,)) and r.denominator.bit_length() > 256:
                r = float(r)
            self.memo[k] = r
            if fb:
                # keep containers alive so that identities stay unique
                self.memo[('keep', k)] = [env[b] for b in fb]
        return r

    def structural(self, t, env):
        def go(x):
            if isinstance(x, T):
                return self.ev(x, env)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return (t.op,) + tuple(go(x) for x in t.a)

    def e_true(self, t, env):
        return True

    def e_false(self, t, env):
        return False

    def e_top(self, t, env):
        raise Undet('top ' + str(t.a[0]))

    def e_ph(self, t, env):
        raise Undet('placeholder')

    def e_bv(self, t, env):
        return env[t]

    def e_sym(self, t, env):
        v = self.sym(t)
        self.named[t.a[0]] = v
        return v

    def e_unit(self, t, env):
        return ('unit',)

    def e_nullptr(self, t, env):
        return ('null',)

    def e_obj(self, t, env):
        return Rec(('obj', t.a[1]), t.a[0], {})

    def e_uninit(self, t, env):
        return self.gen(t.a[0], 'uninit', t.id)

    def e_dflt(self, t, env):
        return Rec(('dflt', t.a[0]), t.a[0], {})

    def e_empty(self, t, env):
        ty = t.a[0]
        if is_map(ty) or is_set(ty):
            return Map({}, ty)
        return []

    def e_gate(self, t, env):
        return self.ev(t.a[0], env)

    def e_P(self, t, env):
        s = 0
        for m, c in t.a[0]:
            if c.denominator == 1:
                p = int(c)
            else:
                p = c
            bad = None
            for x, e in m:
                try:
                    v = self.ev(x, env)
                except Undet as u:
                    # a value moved out of a sum that has no terms does not matter
                    if str(u) not in ('element out of range', 'top element of an empty list') or bad is not None:
                        raise
                    bad = u
                    continue
                if not isn(v):
                    raise Undet('number expected: %s' % x.op)
                if isinstance(v, bool):
                    v = int(v)
                p = nmul(p, npow(v, e))
            if bad is not None and p != 0:
                raise bad
            s = nadd(s, p)
        return s

    unsure = 0

    def e_ite(self, t, env):
        while t.op == 'ite':
            try:
                v = self.truth(self.ev(t.a[0], env))
            except Undet as u:
                if str(u) == 'fuel' or self.unsure > 3:
                    raise
                # a test that has no value does not matter if both sides agree
                self.unsure += 1
                try:
                    x, y = self.ev(t.a[1], env), self.ev(t.a[2], env)
                finally:
                    self.unsure -= 1
                if x is y or canon(x) == canon(y):
                    return x
                raise u
            t = t.a[1] if v else t.a[2]
        return self.ev(t, env)

    def sign(self, t, env):
        """value of t, whether it is indistinguishable from zero given the size of the terms it is the sum of"""
        v = self.num(t, env)
        if not isinstance(v, float) or v == 0:
            return v, v == 0
        size = 0.0
        if t.op == 'P' and len(t.a[0]) > 1:
            for m, c in t.a[0]:
                p = float(c)
                for x, e in m:
                    try:
                        p *= float(npow(self.num(x, env), e))
                    except (Undet, OverflowError, ZeroDivisionError):
                        p = 0.0
                if not math.isinf(p) and not math.isnan(p):
                    size = max(size, abs(p))
        return v, abs(v) < max(self.floor, 1e-9 * size)

    def e_lt0(self, t, env):
        v, z = self.sign(t.a[0], env)
        return not z and v < 0

    def e_gt0(self, t, env):
        v, z = self.sign(t.a[0], env)
        return not z and v > 0

    def e_eq0(self, t, env):
        return self.sign(t.a[0], env)[1]

    def num(self, t, env):
        v = self.ev(t, env)
        if not isn(v):
            raise Undet('number expected')
        return v

    def e_beq(self, t, env):
        return same(self.ev(t.a[0], env), self.ev(t.a[1], env), self)

    e_ptreq = e_beq

    def e_same(self, t, env):
        return same(self.ev(t.a[0], env), self.ev(t.a[1], env), self)

    def e_rec(self, t, env):
        b = self.ev(t.a[0], env)
        if not isinstance(b, Rec):
            raise Undet('record expected')
        o = dict(b.o)
        for k, v in t.a[1]:
            o[k] = self.ev(v, env)
        return Rec(b.base, b.ty, o)

    def e_fld(self, t, env):
        b = self.ev(t.a[0], env)
        if isinstance(b, tuple) and len(b) == 2 and t.a[1] in ('first', 'second'):
            return b[0] if t.a[1] == 'first' else b[1]
        if not isinstance(b, Rec):
            raise Undet('record expected, got %r' % (b,))
        return self.rget(b, (t.a[1], t.a[2]))

    def e_pair(self, t, env):
        return (self.ev(t.a[0], env), self.ev(t.a[1], env))

    def map(self, t, env):
        m = self.ev(t, env)
        if not isinstance(m, Map):
            raise Undet('map expected')
        return m

    def e_in(self, t, env):
        m = self.map(t.a[0], env)
        if m.gen:
            return True
        return hk(self.ev(t.a[1], env)) in m.d

    def e_get(self, t, env):
        return self.mget(self.map(t.a[0], env), self.ev(t.a[1], env))

    def e_mset(self, t, env):
        m = self.map(t.a[0], env)
        d = dict(m.d)
        d[hk(self.ev(t.a[1], env))] = self.ev(t.a[2], env)
        return Map(d, m.ty, m.gen)

    def e_mtouch(self, t, env):
        m = self.map(t.a[0], env)
        k = hk(self.ev(t.a[1], env))
        if k in m.d:
            return m
        d = dict(m.d)
        d[k] = self.ev(t.a[2], env)
        return Map(d, m.ty, m.gen)

    def e_mdel(self, t, env):
        m = self.map(t.a[0], env)
        d = dict(m.d)
        d.pop(hk(self.ev(t.a[1], env)), None)
        return Map(d, m.ty, m.gen)

    def e_mcomp(self, t, env):
        base, mode, gens, cond, key, val = t.a
        m = self.map(base, env)
        d = dict(m.d)
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                k = hk(self.ev(key, e))
                v = self.ev(val, e)
                if mode == 'add':
                    v = nadd(d.get(k, 0), v)
                d[k] = v
        return Map(d, m.ty, m.gen)

    def e_size(self, t, env):
        m = self.ev(t.a[0], env)
        if isinstance(m, Map):
            return len(m.d)
        if isinstance(m, list):
            return len(m)
        raise Undet('size')

    def lst(self, t, env):
        l = self.ev(t, env)
        if not isinstance(l, list):
            raise Undet('list expected')
        return l

    def e_lpush(self, t, env):
        return self.lst(t.a[0], env) + [self.ev(t.a[1], env)]

    def e_lpushf(self, t, env):
        return [self.ev(t.a[1], env)] + self.lst(t.a[0], env)

    def e_lpopf(self, t, env):
        return self.lst(t.a[0], env)[1:]

    def e_lpopb(self, t, env):
        return self.lst(t.a[0], env)[:-1]

    def e_lrev(self, t, env):
        return self.lst(t.a[0], env)[::-1]

    def e_lcat(self, t, env):
        return self.lst(t.a[0], env) + self.lst(t.a[1], env)

    def e_lins(self, t, env):
        l = list(self.lst(t.a[0], env))
        l.insert(self.ev(t.a[1], env), self.ev(t.a[2], env))
        return l

    def e_lera(self, t, env):
        l = list(self.lst(t.a[0], env))
        i = self.ev(t.a[1], env)
        if not 0 <= i < len(l):
            raise Undet('erase out of range')
        del l[i]
        return l

    def e_lset(self, t, env):
        l = list(self.lst(t.a[0], env))
        i = self.ev(t.a[1], env)
        if not 0 <= i < len(l):
            raise Undet('store out of range')
        l[i] = self.ev(t.a[2], env)
        return l

    def e_lupd(self, t, env):
        base, gens, cond, idx, val = t.a
        l = list(self.lst(base, env))
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                i = self.ev(idx, e)
                if not 0 <= i < len(l):
                    raise Undet('store out of range')
                l[i] = self.ev(val, e)
        return l

    def e_lcomp(self, t, env):
        base, gens, cond, val = t.a
        l = list(self.lst(base, env))
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                l.append(self.ev(val, e))
        return l

    def e_at(self, t, env):
        l = self.lst(t.a[0], env)
        i = self.ev(t.a[1], env)
        i = int(i)
        if not 0 <= i < len(l):
            raise Undet('element out of range')
        return l[i]

    def lam(self, f, args, env):
        e = dict(env)
        for b, v in zip(f.a[0], args):
            e[b] = v
        return self.ev(f.a[1], e)

    def e_lsort(self, t, env):
        l = self.lst(t.a[0], env)
        f = t.a[1]

        def cmp(a, b):
            if self.truth(self.lam(f, (a, b), env)):
                return -1
            if self.truth(self.lam(f, (b, a), env)):
                return 1
            return 0
        return sorted(l, key=functools.cmp_to_key(cmp))

    def e_argext(self, t, env):
        kind, D, elem, less = t.a[:4]
        best = None
        for k in self.dom(D, env):
            v = self.lam(elem, (k,), env)
            if best is None:
                best = (k, v)
            elif kind == 'max' and self.truth(self.lam(less, (best[1], v), env)):
                best = (k, v)
            elif kind == 'min' and self.truth(self.lam(less, (v, best[1]), env)):
                best = (k, v)
        if best is None:
            raise Undet('extremum of an empty range')
        return best[0]

    def e_sum(self, t, env):
        gens, cond, val = t.a
        s = 0
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                s = nadd(s, self.num(val, e))
        return s

    def e_exists(self, t, env):
        gens, cond = t.a
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                return True
        return False

    def e_first(self, t, env):
        gens, cond, val, ty = t.a
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                return self.ev(val, e)
        return self.gen(ty, 'nofirst')

    def e_extr(self, t, env):
        kind, gens, cond, val, init, ty = t.a
        r = self.num(init, env)
        for e in self.elems(gens, env):
            if self.truth(self.ev(cond, e)):
                v = self.num(val, e)
                if (v > r) if kind == 'max' else (v < r):
                    r = v
        return r

    def e_fold(self, t, env):
        gens, phs, pres, news, exits = t.a
        cur = [self.ev(p, env) for p in pres]
        for e in self.elems(gens, env):
            e = dict(e)
            for b, v in zip(phs, cur):
                e[b] = v
            for j, c in enumerate(exits):
                if self.truth(self.ev(c, e)):
                    return {'n': cur, 'x': j, 'b': [e[b] for _, b in gens], 'p': cur}
            cur = [self.ev(n, e) for n in news]
        return {'n': cur, 'x': None, 'b': None, 'p': cur}

    def e_while(self, t, env):
        phs, pres, cond, news, exits = t.a
        cur = [self.ev(p, env) for p in pres]
        for _ in range(3000):
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel('fuel')
            e = dict(env)
            for b, v in zip(phs, cur):
                e[b] = v
            if not self.truth(self.ev(cond, e)):
                return {'n': cur, 'x': None, 'b': None, 'p': cur}
            for j, c in enumerate(exits):
                if self.truth(self.ev(c, e)):
                    return {'n': cur, 'x': j, 'b': None, 'p': cur}
            cur = [self.ev(n, e) for n in news]
        raise Fuel('loop')

    def e_sel(self, t, env):
        f = self.ev(t.a[0], env)
        k, i = t.a[1]
        if k == 'x':
            return f['x'] == i
        if k == 'b':
            if f['b'] is None:
                return self.gen(t.a[2], 'noexit')
            return f['b'][i]
        return f[k][i]

    def e_idiv(self, t, env):
        a, b = self.num(t.a[0], env), self.num(t.a[1], env)
        if b == 0:
            raise Undet('division by zero')
        q = abs(a) // abs(b)
        return int(q if (a >= 0) == (b > 0) else -q)

    def e_imod(self, t, env):
        a, b = self.num(t.a[0], env), self.num(t.a[1], env)
        if b == 0:
            raise Undet('division by zero')
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b > 0) else -q
        return int(a - q * b)

    def steps(self, t, env, off=0):
        """a number about to be rounded; where an inexact one lies at a step, either neighbour could come out"""
        v = self.num(t, env)
        if isinstance(v, float) and not math.isinf(v) and not math.isnan(v):
            w = v + off
            if abs(w - round(w)) <= 1e-9 * max(1.0, abs(v)):
                raise Undet('rounding at a step')
        return v

    def e_floor(self, t, env):
        return math.floor(self.steps(t.a[0], env))

    def e_ceil(self, t, env):
        return math.ceil(self.steps(t.a[0], env))

    def e_trunc(self, t, env):
        return int(self.steps(t.a[0], env))

    def e_round(self, t, env):
        v = self.steps(t.a[0], env, 0.5)
        return int(v + Fr(1, 2)) if v >= 0 else -int(-v + Fr(1, 2))

    def e_abs(self, t, env):
        return abs(self.num(t.a[0], env))

    def e_inv(self, t, env):
        return npow(self.num(t.a[0], env), -1)

    def e_pow(self, t, env):
        return npow(self.num(t.a[0], env), self.num(t.a[1], env))

    def e_exp(self, t, env):
        v = float(self.num(t.a[0], env))
        if v > 600:
            raise Undet('overflow')
        return math.exp(v)

    def e_log(self, t, env):
        v = float(self.num(t.a[0], env))
        if v <= 0:
            raise Undet('log')
        return math.log(v)

    def e_sqrt(self, t, env):
        return npow(self.num(t.a[0], env), Fr(1, 2))

    def e_measure(self, t, env):
        """share of the unit interval where the predicate holds (piecewise constant predicates)"""
        f = t.a[0]

        def at(x):
            return self.truth(self.lam(f, (x,), env))
        n = 96
        xs = [(i + 0.5 + (self.rnd(100, 'grid', i) - 50) / 200.0) / n for i in range(n)]
        ends = (1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4, 2e-3)
        xs = list(ends) + [x for x in xs if 0.0021 < x < 0.9979] + [1.0 - x for x in reversed(ends)]
        vs = [at(x) for x in xs]
        tot = 0.0
        for a, b, va, vb in zip(xs, xs[1:], vs, vs[1:]):
            if va == vb:
                tot += (b - a) if va else 0.0
                continue
            lo, hi = a, b
            for _ in range(30):
                mid = (lo + hi) / 2
                if at(mid) == va:
                    lo = mid
                else:
                    hi = mid
            tot += (lo - a) if va else (b - lo)
        return tot

    def e_draw(self, t, env):
        d = t.a[0]
        eng = canon(self.ev(t.a[1], env))
        if d.op == 'dist' and len(d.a) == 3:
            lo, hi = self.num(d.a[1], env), self.num(d.a[2], env)
        else:
            dv = self.ev(d, env)
            if 'int' in typ(d):
                lo, hi = 0, 5
            elif 'exponential' in typ(d) or (d.op == 'dist' and len(d.a) == 2):
                lo, hi = 0, 4
            else:
                lo, hi = 0, 1
        h = self.rnd(1 << 30, 'draw', canon(lo), canon(hi), eng)
        if is_intty(typ(t)) or 'int' in typ(d):
            n = int(hi) - int(lo) + 1
            if n <= 0:
                raise Undet('empty distribution')
            return int(lo) + h % n
        if self.hints.get('draw_one') and h % 3 == 0:
            u = Fr(1)
        elif h % 17 == 0:
            u = Fr(1, 1 << 32)
        elif h % 17 == 1:
            u = Fr((1 << 20) - 1, 1 << 20)
        elif h % 17 == 2:
            # a waiting time that is a whole number of slices
            u = math.exp(-(1 + h % 3) / 20)
        elif h % 51 == 3:
            u = Fr(0)
        else:
            u = Fr(h, 1 << 30)
        return nadd(lo, nmul(nadd(hi, nmul(-1, lo)), u))

    def e_uf(self, t, env):
        n = t.a[0]
        if n == 'dblmax':
            return 1.7976931348623157e308
        if n == 'inf':
            return math.inf
        args = tuple(canon(self.ev(x, env)) if isinstance(x, T) else x for x in flat(t.a[2:]))
        if n == 'fmod':
            a = [self.num(x, env) for x in flat(t.a[2:])]
            if a[1] == 0:
                raise Undet('fmod')
            q = int(Fr(a[0]) / Fr(a[1]))
            return a[0] - q * a[1]
        if n == 'remainder':
            a = [self.num(x, env) for x in flat(t.a[2:])]
            if a[1] == 0:
                raise Undet('remainder')
            return a[0] - round(Fr(a[0]) / Fr(a[1])) * a[1]
        return self.gen(t.a[1], 'uf', n, args)

    def e_unbox(self, t, env):
        b = self.ev(t.a[0], env)
        if isinstance(b, tuple) and b and b[0] == 'box':
            return b[1]
        if isinstance(b, tuple) and b and b[0] == 'null':
            raise Undet('null box')
        return self.gen(typ(t), 'unbox', canon(b))

    def e_new(self, t, env):
        vals = tuple(canon(self.ev(x, env)) if isinstance(x, T) else x for x in flat(t.a[2:]))
        return ('ptr', t.a[1], ('new', t.a[0]) + vals)


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    elif x is not None:
        yield x


def hk(k):
    """dictionary key for a model value"""
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, (Map, Rec, list)):
        return canon(k)
    if isinstance(k, Fr) and k.denominator == 1:
        return int(k)
    return k


def hashid(v):
    if isinstance(v, (Map, Rec, list, dict)):
        return id(v)
    if isinstance(v, tuple):
        return tuple(hashid(x) for x in v)
    return v


def nadd(a, b):
    if not isn(a) or not isn(b):
        raise Undet('number expected')
    if isinstance(a, float) or isinstance(b, float):
        return float(a) + float(b)
    return a + b


def nmul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return float(a) * float(b)
        except OverflowError:
            raise Undet('overflow')
    return a * b


def npow(v, e):
    if e == 1:
        return v
    if isinstance(e, Fr) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if e < 0:
            if v == 0:
                raise Undet('division by zero')
            if isinstance(v, float):
                return v ** e
            return Fr(1) / Fr(v) ** (-e)
        return v ** e
    if v < 0:
        raise Undet('root of a negative number')
    if v == 0 and e < 0:
        raise Undet('division by zero')
    if e == Fr(1, 2) and not isinstance(v, float):
        q = Fr(v)
        n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator:
            return Fr(n, d)
    try:
        return float(v) ** float(e)
    except OverflowError:
        raise Undet('overflow')


def show(v, d=0):
    if isinstance(v, Map):
        return '{' + ', '.join('%s' % show(k) if w == ('unit',) else '%s:%s' % (show(k), show(w, d + 1)) for k, w in list(v.d.items())[:6]) + '}'
    if isinstance(v, list):
        return '[' + ', '.join(show(x, d + 1) for x in v[:6]) + ']'
    if isinstance(v, Rec):
        return '<%s>' % v.ty
    if isinstance(v, Fr):
        return str(v)
    if isinstance(v, tuple):
        if v and v[0] == 'ptr':
            return '&%s' % (v[2],)
        return '(' + ', '.join(show(x, d + 1) for x in v[:6]) + ')'
    return str(v)


class Verdict:
    __slots__ = ('status', 'why', 'models', 'undet')

    def __init__(self, status, why='', models=0, undet=0):
        self.status, self.why, self.models, self.undet = status, why, models, undet


CHEAP = 60000


def magnitudes(*ts):
    out, seen, stack, ints = set(), set(), list(ts), set()
    while stack:
        x = stack.pop()
        if isinstance(x, tm.T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'P' and len(x.a[0]) > 1:
                c0 = next((abs(c) for mono, c in x.a[0] if mono == ()), 0)
                for mono, c in x.a[0]:
                    if mono != () and c0:
                        q = float(c0 / abs(c))
                        if 1e-60 < q < 1e-2 or 1e4 < q < 1e60:
                            out.add(q)
                        q = c0 / abs(c)
                        if q.denominator == 1 and 3 <= q < 2 ** 31:
                            ints.add(int(q))
                stack.extend(x for mono, c in x.a[0] for x, e in mono)
                continue
            if x.op in ('imod', 'idiv', 'tdiv', 'tmod') and len(x.a) > 1 and isinstance(x.a[1], tm.T) and tm.is_const(x.a[1]):
                q = abs(tm.cval(x.a[1]))
                if q.denominator == 1 and 3 <= q < 2 ** 31:
                    ints.add(int(q))
            stack.extend(x.a)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
    return tuple(sorted(out)[:6]), tuple(sorted(ints)[:8])


def decide(goal, assume=TRUE, prog=None, hints=None, n=60, seed=1, fuel=400000, tries=None):
    """goal must hold wherever assume holds.  status: proved | refuted | open"""
    g = goal
    if assume is FALSE:
        return Verdict('proved', 'vacuous')
    if g is TRUE:
        return Verdict('proved')
    if assume is not TRUE and not tm.istop(assume) and not tm.istop(g) and g.op in ('ite', 'false'):
        if tm.AND(assume, tm.NOT(g)) is FALSE:
            return Verdict('proved')
        from .containers import Facts
        f = Facts().assume(assume)
        if f is None:
            return Verdict('proved', 'vacuous')
        if f.prune(f.restrict(g)) is TRUE:
            return Verdict('proved')
    ok = und = 0
    why = ''
    left = 12 * fuel
    consts = magnitudes(goal, assume)
    # n models that satisfy the assumptions, more of them where they are cheap
    top, cheap = 12 * fuel, CHEAP
    for i in range(tries or n * 250):
        spent = top - left
        if ok >= n and (ok >= 10 * n or spent > cheap) or i >= n * 25 and spent > cheap or left <= 0 or (und > 2 * n and not ok):
            break
        m = Model(seed * 100003 + i, prog, hints, fuel)
        m.consts, m.ints = consts
        try:
            if not m.truth(m.ev(assume, {})):
                continue
            r = m.truth(m.ev(g, {}))
        except Undet as x:
            und += 1
            why = str(x)
            continue
        except (RecursionError, OverflowError, TypeError, ValueError, ZeroDivisionError) as x:
            und += 1
            why = '%s %s' % (type(x).__name__, x)
            continue
        finally:
            left -= fuel - m.fuel
        ok += 1
        if not r:
            w = '; '.join('%s=%s' % (k, show(v)) for k, v in sorted(m.named.items()) if not k.startswith('heap'))
            return Verdict('refuted', w, ok, und)
    return Verdict('open', why, ok, und)
