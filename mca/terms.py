"""Value-numbered terms.

A term is an interned node; two program values with the same normal form are the same object.  Gated values (joins of
control flow) are ordered decision diagrams over boolean atoms; numbers are polynomials with rational coefficients over
atoms (reals, i.e. rounding is ignored); records are a base plus field overrides; containers are a base plus layers
(point updates and comprehensions with bound variables); loops that match no summary stay as exact 'fold' nodes."""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(200000)


class Blowup(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'id', 'ty', 'lv', 'fs', 'top')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __reduce__(self):
        raise TypeError


_tab = {}
_cnt = [0]
LIMIT = 600000
BUDGET = [LIMIT]


def new_budget(n=LIMIT):
    BUDGET[0] = _cnt[0] + n


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        if _cnt[0] > BUDGET[0]:
            raise Blowup('term table')
        t.id = _cnt[0]
        t.ty = None
        t.lv = None
        t.fs = None
        t.top = None
        _tab[k] = t
    return t


TRUE = raw('true')
FALSE = raw('false')
ZERO = raw('P', ())
UNIT = raw('unit')
NULL = raw('nullptr')


def subterms_of(x):
    """immediate child terms of an argument (args may nest tuples)"""
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from subterms_of(y)


def children(t):
    for x in t.a:
        yield from subterms_of(x)


# ---------------------------------------------------------------- types
def targs(ty):
    i = ty.find('<')
    if i < 0:
        return []
    s = ty[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def tbase(ty):
    i = ty.find('<')
    return ty if i < 0 else ty[:i]


def strip_ref(ty):
    while ty.startswith('r<') or ty.startswith('rr<'):
        ty = ty[ty.index('<') + 1:-1]
        if ty.startswith('c '):
            ty = ty[2:]
    return ty


MAPS = ('std::unordered_map', 'std::map')
SETS = ('std::unordered_set', 'std::set', 'std::multiset')
LISTS = ('std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list')
BOXES = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr')


def is_map(ty):
    return tbase(ty) in MAPS


def is_set(ty):
    return tbase(ty) in SETS


def is_list(ty):
    return tbase(ty) in LISTS


def is_num(ty):
    return ty in ('i', 'u', 'f', 'b') or ty.startswith('E:')


def is_intty(ty):
    return ty in ('i', 'u', 'b') or ty.startswith('E:')


def elem_ty(ty):
    """type of an element when iterating"""
    a = targs(ty)
    if is_map(ty):
        return 'std::pair<%s,%s>' % (a[0], a[1])
    return a[0] if a else '?'


def typ(t):
    r = t.ty
    if r is None:
        r = t.ty = _typ(t)
    return r


def _typ(t):
    o, a = t.op, t.a
    if o in ('sym', 'bv', 'ph', 'top'):
        return a[1]
    if o == 'fld':
        return a[2]
    if o in ('true', 'false', 'lt0', 'gt0', 'eq0', 'in', 'exists', 'beq', 'ptreq'):
        return 'b'
    if o == 'P':
        return 'i' if p_isint(t) else 'f'
    if o == 'ite':
        x = typ(a[1])
        if x == '?':
            return typ(a[2])
        if x == 'i':
            y = typ(a[2])
            return y if y == 'f' else x
        return x
    if o == 'get':
        ta = targs(typ(a[0]))
        return ta[1] if len(ta) > 1 else '?'
    if o == 'at':
        ta = targs(typ(a[0]))
        return ta[0] if ta else '?'
    if o in ('mset', 'mtouch', 'mdel', 'lpush', 'lset', 'lsort', 'lpopf', 'lpopb', 'lcat', 'lins', 'lera', 'lrev', 'lupd', 'msetd', 'lpushf', 'lmerge'):
        return typ(a[0])
    if o in ('mcomp', 'lcomp', 'lscan'):
        return typ(a[0])
    if o in ('empty', 'dflt', 'mk', 'uninit'):
        return a[0]
    if o in ('rec',):
        return typ(a[0])
    if o == 'obj':
        return a[0]
    if o == 'pair':
        return 'std::pair<%s,%s>' % (typ(a[0]), typ(a[1]))
    if o in ('size', 'idiv', 'imod', 'floor', 'trunc', 'round', 'ceil', 'findidx', 'card', 'umod'):
        return 'i'
    if o == 'gate':
        return typ(a[0])
    if o in ('first', 'extr', 'sel', 'argext'):
        return a[-1]
    if o in ('mit', 'mend', 'mbeg', 'lit', 'mnext'):
        return 'it'
    if o == 'new':
        return a[1]
    if o in ('box',):
        return a[1]
    if o in ('dist', 'engine'):
        return a[0]
    if o == 'sum':
        return 'i' if typ(a[-1]) == 'i' else 'f'
    if o == 'draw':
        return a[2]
    if o == 'adv':
        return typ(a[0])
    if o == 'fn':
        return 'F'
    if o == 'unbox':
        ta = targs(typ(a[0]))
        return ta[0] if ta else '?'
    if o == 'mem':
        ty = typ(a[0])
        return ty[2:-1] if ty.startswith('p<') else '?'
    if o == 'uf':
        return a[1]
    if o == 'abs':
        return typ(a[0])
    if o in ('pow', 'inv', 'exp', 'log', 'sqrt', 'measure'):
        return 'f'
    return '?'


# ---------------------------------------------------------------- polynomials
_intatom = {}


def atom_isint(t):
    r = _intatom.get(t)
    if r is None:
        r = _intatom[t] = is_intty(typ(t))
    return r


def p_isint(p):
    if p.op != 'P':
        return atom_isint(p)
    for m, c in p.a[0]:
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or e.denominator != 1 if isinstance(e, Fr) else e < 0:
                return False
            if not atom_isint(x):
                return False
    return True


def num(c):
    c = Fr(c)
    if c == 0:
        return ZERO
    return raw('P', (((), c),))


ONE = num(1)


def is_const(t):
    return t.op == 'P' and (not t.a[0] or (len(t.a[0]) == 1 and t.a[0][0][0] == ()))


def cval(t):
    if t.op == 'P':
        if not t.a[0]:
            return Fr(0)
        if len(t.a[0]) == 1 and t.a[0][0][0] == ():
            return t.a[0][0][1]
    return None


def items(t):
    if t.op == 'P':
        return t.a[0]
    return ((((t, 1),), Fr(1)),)


def mkP(d):
    its = [(m, c) for m, c in d.items() if c != 0]
    if len(its) == 1:
        m, c = its[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(its) > 600:
        raise Blowup('polynomial')
    its.sort(key=_mkey)
    return raw('P', tuple(its))


def _mkey(mc):
    return tuple((x.id, e) for x, e in mc[0])


def istop(t):
    return t.op == 'top'


def _padd(a, b):
    if istop(a):
        return a
    if istop(b):
        return b
    d = dict(items(a))
    for m, c in items(b):
        d[m] = d.get(m, 0) + c
    return mkP(d)


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for x, e in n:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda q: q[0].id))


def _pmul(a, b):
    if istop(a):
        return a
    if istop(b):
        return b
    ia, ib = items(a), items(b)
    if len(ia) * len(ib) > 4000:
        raise Blowup('polynomial product')
    d = {}
    for m, c in ia:
        for n, e in ib:
            k = _mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    r = mkP(d)
    return _cancel_inv(r)


def _cancel_inv(p):
    """rewrite P*inv(P) -> 1 where the whole polynomial is a multiple"""
    if p.op != 'P' or len(p.a[0]) < 2:
        return p
    invs = None
    for m, c in p.a[0]:
        s = {x for x, e in m if x.op == 'inv' and e == 1}
        invs = s if invs is None else invs & s
        if not invs:
            return p
    for v in invs:
        q = v.a[0]
        d = {}
        for m, c in p.a[0]:
            d[tuple((x, e) for x, e in m if x is not v)] = c
        r = mkP(d)
        k = _exact_div(r, q)
        if k is not None:
            return k
    return p


def _exact_div(r, q):
    """r = mono * q ? returns the monomial poly"""
    ir, iq = items(r), items(q)
    if len(ir) != len(iq):
        return None
    for m, c in ir:
        # candidate factor from matching iq[0]
        f = _mmul(m, tuple((x, -e) for x, e in iq[0][0]))
        if any(e < 0 and x.op != 'inv' for x, e in f):
            pass
        k = mkP({f: c / iq[0][1]})
        d = {}
        for n, e in iq:
            kk = _mmul(f, n)
            d[kk] = d.get(kk, 0) + e * (c / iq[0][1])
        if mkP(d) is r:
            return k
    return None


def _pinv(a):
    if istop(a):
        return a
    it = items(a)
    if not it:
        return raw('top', 'division by zero', 'f')
    if len(it) == 1:
        m, c = it[0]
        return mkP({tuple((x, -e) for x, e in m): 1 / c})
    # normalise leading coefficient, and pull out common monomial is not attempted
    lc = it[0][1]
    p = mkP({m: c / lc for m, c in it})
    v = raw('inv', p)
    return mkP({((v, 1),): 1 / lc})


# ---------------------------------------------------------------- decision diagrams
def cof(t, v, b):
    if t.op == 'ite' and t.a[0] is v:
        return t.a[1] if b else t.a[2]
    return t


def node(v, hi, lo):
    if hi is lo:
        return hi
    ho, l_o = hi.op, lo.op
    if (ho == 'rec' or l_o == 'rec'):
        bh = hi.a[0] if ho == 'rec' else hi
        bl = lo.a[0] if l_o == 'rec' else lo
        if bh is bl:
            fh = dict(hi.a[1]) if ho == 'rec' else {}
            fl = dict(lo.a[1]) if l_o == 'rec' else {}
            out = {}
            for k in set(fh) | set(fl):
                x = fh.get(k)
                y = fl.get(k)
                if x is None:
                    x = fld0(bh, k)
                if y is None:
                    y = fld0(bl, k)
                out[k] = ITE(atom(v), x, y)
            return mkrec(bh, out)
    if ho == 'pair' and l_o == 'pair':
        c = atom(v)
        return raw('pair', ITE(c, hi.a[0], lo.a[0]), ITE(c, hi.a[1], lo.a[1]))
    if hi.op == 'top' and lo.op == 'top':
        return hi
    return raw('ite', v, hi, lo)


def atom(v):
    """boolean term of an atom"""
    if v is TRUE or v is FALSE:
        return v
    return raw('ite', v, TRUE, FALSE)


_ite_memo = {}


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if istop(c):
        return raw('top', c.a[0], typ(a) if typ(a) != '?' else typ(b))
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    tops = [x.a[0] for x in k if x.op == 'ite']
    v = min(tops)
    r = node(v, ITE(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)), ITE(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
    _ite_memo[k] = r
    return r


def NOT(c):
    return ITE(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ITE(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ITE(r, TRUE, c)
    return r


_lift_memo = {}
_nl = {}
GATE = 48


def nleaves(t):
    """number of paths of the diagram (capped)"""
    if t.op != 'ite':
        return 1
    r = _nl.get(t)
    if r is None:
        r = min(nleaves(t.a[1]) + nleaves(t.a[2]), 5000)
        _nl[t] = r
    return r


def gate(t):
    """a diagram as a single opaque operand (keeps products of diagrams small)"""
    if t.op != 'ite' or typ(t) == 'b':
        return t
    return raw('gate', t)


def gate_args(args, limit=None):
    limit = limit or GATE
    n = 1
    for x in args:
        n *= nleaves(x)
    if n <= limit:
        return args
    args = list(args)
    while n > limit:
        best = None
        for i, x in enumerate(args):
            if x.op == 'ite' and typ(x) != 'b' and not refish(x):
                if best is None or nleaves(x) > nleaves(args[best]):
                    best = i
        if best is None:
            break
        n //= nleaves(args[best])
        args[best] = gate(args[best])
    return tuple(args)


_refish = {}


def refish(t):
    """diagrams with references or iterators among the leaves stay open"""
    r = _refish.get(t)
    if r is None:
        if t.op == 'ite':
            r = refish(t.a[1]) or refish(t.a[2])
        else:
            r = t.op in ('ref', 'lit', 'mit', 'mend', 'mbeg', 'clos', 'fn', 'top', 'true', 'false', 'rec', 'pair', 'box', 'obj', 'nullptr')
        _refish[t] = r
    return r


def lift(fn, *args):
    for x in args:
        if x.op == 'ite':
            break
    else:
        return fn(*args)
    args = gate_args(args)
    for x in args:
        if x.op == 'ite':
            break
    else:
        return fn(*args)
    k = (fn, args)
    r = _lift_memo.get(k)
    if r is not None:
        return r
    v = min(x.a[0] for x in args if x.op == 'ite')
    hi = lift(fn, *[cof(x, v, 1) for x in args])
    lo = lift(fn, *[cof(x, v, 0) for x in args])
    r = node(v, hi, lo)
    if r.op != 'ite' or r.a[0] is not v or True:
        # results may themselves contain smaller atoms: reorder through ITE
        r = ITE(atom(v), hi, lo)
    _lift_memo[k] = r
    return r


def leaves(t, cond=()):
    """(path literals, leaf) of a decision diagram"""
    if t.op == 'ite':
        yield from leaves(t.a[1], cond + ((t.a[0], True),))
        yield from leaves(t.a[2], cond + ((t.a[0], False),))
    else:
        yield cond, t


def lits(cond):
    return AND(*[atom(v) if b else NOT(atom(v)) for v, b in cond])


def tonum(t):
    """booleans used as numbers"""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op in BOOLOPS:
        return raw('ite', t, ONE, ZERO)
    return t


BOOLOPS = ('lt0', 'gt0', 'eq0', 'in', 'exists', 'beq', 'ptreq')


def _padd_(a, b):
    return _padd(tonum(a), tonum(b))


def _pmul_(a, b):
    return _pmul(tonum(a), tonum(b))


def add(a, b):
    return lift(_padd_, a, b)


def mul(a, b):
    return lift(_pmul_, a, b)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _pinv_(a):
    return _pinv(tonum(a))


def inv(a):
    return lift(_pinv_, a)


def div(a, b):
    return mul(a, inv(b))


def _idiv(a, b):
    if istop(a):
        return a
    if istop(b):
        return b
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb > 0) else -q)
    if cb == 1:
        return a
    return raw('idiv', a, b)


def _imod(a, b):
    if istop(a):
        return a
    if istop(b):
        return b
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        q = q if (ca >= 0) == (cb > 0) else -q
        return num(ca - q * cb)
    if cb == 1:
        return ZERO
    return raw('imod', a, b)


def idiv(a, b):
    return lift(_idiv, a, b)


def imod(a, b):
    return lift(_imod, a, b)


def _cint(f):
    def g(a):
        if istop(a):
            return a
        c = cval(a)
        if c is not None:
            import math
            if f == 'floor':
                return num(math.floor(c))
            if f == 'ceil':
                return num(math.ceil(c))
            if f == 'trunc':
                return num(int(c))
            if f == 'round':
                return num(int(c + Fr(1, 2)) if c >= 0 else -int(-c + Fr(1, 2)))
        if p_isint(a):
            return a
        return raw(f, a)
    g.__name__ = f
    return g


_floor, _ceil, _trunc, _round = _cint('floor'), _cint('ceil'), _cint('trunc'), _cint('round')


def floor_(a):
    return lift(_floor, a)


def ceil_(a):
    return lift(_ceil, a)


def trunc_(a):
    return lift(_trunc, a)


def round_(a):
    return lift(_round, a)


def _abs(a):
    if istop(a):
        return a
    c = cval(a)
    if c is not None:
        return num(abs(c))
    it = items(a)
    if it and it[0][1] < 0:
        a = mkP({m: -c for m, c in it})
        it = items(a)
    if nonneg(a):
        return a
    if len(it) == 1 and it[0][1] != 1:
        return mul(num(it[0][1]), raw('abs', mkP({it[0][0]: Fr(1)})))
    return raw('abs', a)


def nonneg(t):
    """syntactically non-negative"""
    if t.op == 'P':
        return all(c >= 0 and all((isinstance(e, int) or e.denominator == 1) and int(e) % 2 == 0 or nonneg(x) for x, e in m) for m, c in t.a[0])
    if t.op in ('size', 'card', 'exp', 'abs', 'sqrt') or typ(t) == 'u':
        return True
    if t.op == 'pow' and t.a[1].op == 'P' and cval(t.a[1]) == Fr(1, 2):
        return True
    if t.op == 'sum':
        return nonneg(t.a[2])
    return False


def abs_(a):
    return lift(_abs, a)


def _pow(a, b):
    if istop(a):
        return a
    if istop(b):
        return b
    cb = cval(b)
    if cb is not None:
        if cb.denominator == 1 and 0 <= cb <= 6:
            r = ONE
            for _ in range(int(cb)):
                r = _pmul(r, a)
            return r
        if cb.denominator == 1 and -6 <= cb < 0:
            return _pinv(_pow(a, num(-cb)))
        it = items(a)
        if len(it) == 1 and it[0][1] > 0:
            m, c = it[0]
            d = []
            ok = True
            for x, e in m:
                ne = Fr(e) * cb
                if Fr(e).denominator == 1 and int(e) % 2 == 0:
                    ax = _abs(x)
                    if ax.op == 'P':
                        ok = False
                        break
                    d.append((ax, int(ne) if ne.denominator == 1 else ne))
                else:
                    d.append((x, int(ne) if ne.denominator == 1 else ne))
            if ok:
                if c == 1:
                    k = ONE
                else:
                    k = _cpow(c, cb)
                dd = {}
                for x, e in d:
                    dd[x] = dd.get(x, 0) + e
                mono = tuple(sorted(((x, e) for x, e in dd.items() if e != 0), key=lambda q: q[0].id))
                return _pmul(k, mkP({mono: Fr(1)}))
    ca = cval(a)
    if ca is not None and ca == 0 and cb is not None and cb > 0:
        return ZERO
    return raw('pow', a, b)


def _cpow(c, e):
    import math
    if e == Fr(1, 2) or e == Fr(-1, 2):
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fr(n, d)) if e > 0 else num(Fr(d, n))
    return raw('pow', num(c), num(e))


def pow_(a, b):
    return lift(_pow, a, b)


def _fn1(name):
    def g(a):
        if istop(a):
            return a
        c = cval(a)
        if name == 'exp' and c == 0:
            return ONE
        if name == 'log' and c == 1:
            return ZERO
        if name == 'log' and a.op == 'exp':
            return a.a[0]
        return raw(name, a)
    return g


_exp, _log = _fn1('exp'), _fn1('log')


def exp_(a):
    return lift(_exp, a)


def log_(a):
    return lift(_log, a)


# ---------------------------------------------------------------- comparisons
def _norm_sign(p):
    it = items(p)
    # constant term last for the sign decision: use first non-constant monomial
    for m, c in it:
        if m != ():
            return c
    return it[0][1]


def _lt0(p):
    """p < 0"""
    if istop(p):
        return raw('top', p.a[0], 'b')
    c = cval(p)
    if c is not None:
        return TRUE if c < 0 else FALSE
    if nonneg(p):
        return FALSE
    k = _norm_sign(p)
    isint = p_isint(p)
    if isint:
        import math
        g = 0
        const = Fr(0)
        for m, cc in items(p):
            if m == ():
                const = cc
            else:
                g = math.gcd(g, int(cc))
        # g*h + const < 0  <=> h < -const/g <=> h - ceil(-const/g) < 0  (h integer)
        h = mkP({m: cc / g for m, cc in items(p) if m != ()})
        b = math.ceil(-const / g)
        p = add(h, num(-b))
        if k < 0:
            # p<0 with negative lead: not (-p-1 < 0)  [p<0 <=> -p>=1 <=> not(-p-1<0)]
            return NOT(_lt0(sub(neg(p), ONE)))
        if nonneg(h) and b <= 0:
            return FALSE
        if h.op == 'size' and b == 1:
            return NOT(raw('nonempty', h.a[0]) and atom(raw('lt0', p))) if False else atom(raw('lt0', p))
        return atom(raw('lt0', p))
    p = mkP({m: cc / abs(k) for m, cc in items(p)})
    if k < 0:
        q = neg(p)
        if nonneg(neg(q)):
            return FALSE
        return atom(raw('gt0', q))
    return atom(raw('lt0', p))


def _lt(a, b):
    return _lt0(_padd(tonum(a), _pmul(num(-1), tonum(b))))


def lt(a, b):
    return lift(_lt, a, b)


def le(a, b):
    return NOT(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return NOT(lt(a, b))


ENUMS = {}     # enum type -> sorted values


def _eq0(p):
    if istop(p):
        return raw('top', p.a[0], 'b')
    c = cval(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    k = _norm_sign(p)
    p = mkP({m: cc / k for m, cc in items(p)})
    if p_isint(p) and len(items(p)) <= 2:
        # single integer atom against a constant: use its known range
        it = items(p)
        nonc = [(m, cc) for m, cc in it if m != ()]
        if len(nonc) == 1 and len(nonc[0][0]) == 1 and nonc[0][0][0][1] == 1:
            x = nonc[0][0][0][0]
            v = -sum((cc for m, cc in it if m == ()), Fr(0))
            if nonneg(x):
                if v < 0:
                    return FALSE
                if v == 0:
                    return atom(raw('lt0', add(x, num(-1))))
            e = typ(x)
            if e.startswith('E:') and e in ENUMS:
                vs = ENUMS[e]
                if v not in vs:
                    return FALSE
                if len(vs) >= 2 and v == vs[-1]:
                    return AND(*[NOT(_eq0(sub(x, num(w)))) for w in vs[:-1]])
    return atom(raw('eq0', p))


def _eq(a, b):
    if a is b and not istop(a):
        return TRUE
    if istop(a) or istop(b):
        return raw('top', (a if istop(a) else b).a[0], 'b')
    ta, tb = typ(a), typ(b)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if a is TRUE:
            return asbool(b)
        if b is TRUE:
            return asbool(a)
        return NOT(asbool(b if a is FALSE else a))
    if a.op == 'P' or b.op == 'P' or (is_num(ta) and is_num(tb)):
        if ta == 'b' and tb == 'b':
            return ITE(asbool(a), asbool(b), NOT(asbool(b)))
        return _eq0(_padd(tonum(a), _pmul(num(-1), tonum(b))))
    if a.op == 'pair' and b.op == 'pair':
        return AND(eq(a.a[0], b.a[0]), eq(a.a[1], b.a[1]))
    return _eqother(a, b)


def _eqother(a, b):
    if a.op == 'ref' and b.op == 'ref':
        return TRUE if a is b else (FALSE if a.a[0] != b.a[0] else atom(raw('beq', *sorted((a, b)))))
    if NULL in (a, b):
        o = b if a is NULL else a
        if o.op in ('ref', 'mk', 'box', 'fn', 'new', 'clos'):
            return FALSE
        if o.op == 'dflt':
            return TRUE
        return atom(raw('ptreq', o, NULL))
    if a.op == 'fn' and b.op == 'fn':
        return FALSE
    if a.op == 'new' or b.op == 'new':
        x, y = (a, b) if a.op == 'new' else (b, a)
        if y.op == 'new':
            if x.a[0] != y.a[0]:
                return FALSE
        elif y.op in ('fld', 'sym') or y.op == 'ref':
            return FALSE
    if a.op in ITOPS or b.op in ITOPS:
        return iter_eq(a, b)
    return atom(raw('beq', *sorted((a, b))))


ITOPS = ('mit', 'mend', 'lit')


def iter_eq(a, b):
    if a.op == 'mend' and b.op == 'mend':
        return TRUE if a.a[0] == b.a[0] else raw('top', 'iterators of different containers', 'b')
    if {a.op, b.op} == {'mit', 'mend'}:
        return FALSE
    if a.op == 'mit' and b.op == 'mit':
        return eq(a.a[1], b.a[1])
    if a.op == 'lit' and b.op == 'lit':
        if a.a[0] is not b.a[0]:
            return raw('top', 'iterators of different containers', 'b')
        return eq(a.a[1], b.a[1])
    return raw('top', 'iterator comparison', 'b')


def eq(a, b):
    return lift(_eq, a, b)


def asbool(t):
    if t.op in ('true', 'false'):
        return t
    if t.op == 'ite':
        return lift(_asbool, t)
    return _asbool(t)


def _asbool(t):
    if t.op in ('true', 'false', 'top'):
        return t
    if t.op in BOOLOPS:
        return atom(t)
    if t.op == 'strlit':
        return TRUE
    ty = typ(t)
    if t.op == 'P':
        return NOT(_eq0(t))
    if ty == 'b':
        return atom(t)
    if ty.startswith('p<') or ty == 'F' or tbase(ty) in BOXES:
        return NOT(_eqother(t, NULL))
    if t.op in ('ref', 'fn', 'mk', 'box', 'new', 'strlit'):
        return TRUE
    if t is NULL:
        return FALSE
    return NOT(_eq0(t))


# ---------------------------------------------------------------- records
SLOT = {'fn': None, 'dfltfld': None}


def fld0(b, k):
    """field k=(name,type) of an opaque record value"""
    if b.op == 'top':
        return raw('top', b.a[0], k[1])
    if k[1] == 'F' and SLOT['fn']:
        r = SLOT['fn'](b, k)
        if r is not None:
            return r
    if b.op == 'dflt' and SLOT['dfltfld']:
        r = SLOT['dfltfld'](b, k)
        if r is not None:
            return r
    return raw('fld', b, k[0], k[1])


def mkrec(b, fields):
    """fields: dict (name,type)->value"""
    if b.op == 'rec':
        d = dict(b.a[1])
        d.update(fields)
        b = b.a[0]
        fields = d
    its = []
    for k, v in fields.items():
        if b.op == 'obj' or fld0(b, k) is not v:
            its.append((k, v))
    if not its:
        return b
    its.sort(key=lambda kv: kv[0])
    return raw('rec', b, tuple(its))


def _getf(name, ty):
    k = (name, ty)

    def g(r):
        if r.op == 'rec':
            for kk, v in r.a[1]:
                if kk[0] == name:
                    return v
            return raw('uninit', ty, r.a[0], name) if r.a[0].op == 'obj' else fld0(r.a[0], k)
        if r.op == 'pair':
            return r.a[0] if name == 'first' else r.a[1] if name == 'second' else raw('top', 'pair field', ty)
        if r.op == 'obj':
            return raw('uninit', ty, r, name)
        if r.op == 'dflt' and tbase(typ(r)) == 'std::pair':
            ta = targs(typ(r))
            return default_value(ta[0] if name == 'first' else ta[1])
        return fld0(r, k)
    return g


_getf_memo = {}


def getf(r, name, ty):
    g = _getf_memo.get((name, ty))
    if g is None:
        g = _getf_memo[(name, ty)] = _getf(name, ty)
    return lift(g, r)


def setf(r, name, ty, v):
    def g(x):
        if x.op == 'pair':
            return raw('pair', v, x.a[1]) if name == 'first' else raw('pair', x.a[0], v)
        if x.op == 'top':
            return x
        if tbase(typ(x)) == 'std::pair':
            a, b = getf(x, 'first', targs(typ(x))[0]), getf(x, 'second', targs(typ(x))[1])
            return raw('pair', v, b) if name == 'first' else raw('pair', a, v)
        return mkrec(x, {(name, ty): v})
    if r.op == 'ite':
        out = None
        # distribute over the diagram
        return ITE(atom(r.a[0]), setf(r.a[1], name, ty, v), setf(r.a[2], name, ty, v))
    return g(r)


def pair(a, b):
    return raw('pair', a, b)


def default_value(ty):
    if ty in ('i', 'u', 'f') or ty.startswith('E:'):
        return ZERO
    if ty == 'b':
        return FALSE
    if is_map(ty) or is_set(ty) or is_list(ty):
        return raw('empty', ty)
    if ty.startswith('p<') or ty == 'F':
        return NULL
    if tbase(ty) in BOXES:
        return NULL
    if tbase(ty) == 'std::pair':
        a = targs(ty)
        return raw('pair', default_value(a[0]), default_value(a[1]))
    return raw('dflt', ty)


# ---------------------------------------------------------------- binders
def level(t):
    """max level of bound variables occurring (bound or free) in t"""
    r = t.lv
    if r is None:
        r = 0
        if t.op == 'bv':
            r = t.a[0]
        else:
            for c in children(t):
                x = level(c)
                if x > r:
                    r = x
        t.lv = r
    return r


_fresh = [0]


def fresh(ty, name='b'):
    _fresh[0] += 1
    return raw('sym', '%s#%d' % (name, _fresh[0]), ty)


def free_syms(t):
    """set of 'sym' and 'ph' leaves occurring in t"""
    r = t.fs
    if r is None:
        if t.op in ('sym', 'ph'):
            r = frozenset((t,))
            t.fs = r
            return r
        s = None
        for c in children(t):
            x = free_syms(c)
            if x:
                if s is None:
                    s = x
                elif not x <= s:
                    s = s | x
        r = s or frozenset()
        t.fs = r
    return r


def has_top(t):
    r = t.top
    if r is None:
        if t.op == 'top':
            r = True
        else:
            r = False
            for c in children(t):
                if has_top(c):
                    r = True
                    break
        t.top = r
    return r


# binder nodes: (op, ..., gens, body...) where gens = ((dom, bv), ...).
# 'mcomp': base, mode, gens, cond, key, val      map/set layer, mode 'set' or 'add'
# 'lcomp': base, gens, cond, val                 appended list elements
# 'lupd' : base, gens, cond, idx, val            list elements overwritten
# 'sum'  : gens, cond, val
# 'exists': gens, cond
# 'first': gens, cond, val, ty                   value for the first matching element
# 'extr' : kind, gens, cond, val, init, ty       running max / min
# 'lscan': base, gens, cond, val, acc, delta, init
# 'fold' : dom-gen, phs, news, pres, exits, sel, ty
BINDERS = ('mcomp', 'lcomp', 'lupd', 'sum', 'exists', 'first', 'extr', 'lscan', 'fold', 'while', 'findidx', 'card', 'lam')


def map_args(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(map_args(x, f) for x in a)
    return a


def bound_of(t):
    """bound variables introduced by node t (outermost of this node only)"""
    o = t.op
    if o == 'lam':
        return t.a[0]
    if o == 'mcomp':
        return tuple(b for _, b in t.a[2])
    if o in ('lcomp', 'lupd'):
        return tuple(b for _, b in t.a[1])
    if o in ('sum', 'exists', 'first', 'card'):
        return tuple(b for _, b in t.a[0])
    if o == 'extr':
        return tuple(b for _, b in t.a[1])
    if o == 'lscan':
        return tuple(b for _, b in t.a[1]) + (t.a[4],)
    if o == 'fold':
        return tuple(b for _, b in t.a[0]) + t.a[1]
    if o == 'while':
        return t.a[0]
    return ()


def close(op, args, bound):
    """build binder node with the given fresh symbols turned into canonical bound variables"""
    lv = 0
    for x in args:
        for c in subterms_of(x):
            l = level(c)
            if l > lv:
                lv = l
    sub_ = {}
    for i, b in enumerate(bound):
        sub_[b] = raw('bv', lv + 1 + (len(bound) - 1 - i), typ(b))
    args = tuple(map_args(x, lambda t: subst(t, sub_)) for x in args)
    return raw(op, *args)


_open_cache = {}


def open_(t, avoid=None):
    """returns (args, fresh symbols) with bound variables replaced by fresh symbols.  With avoid (a set of symbols) the
    opened instance may be shared with earlier openings of t whose symbols are not in avoid"""
    inst = None
    if avoid is not None:
        inst = _open_cache.get(t)
        if inst is None:
            inst = _open_cache[t] = []
        for args, fr, fs in inst:
            if not (fs & avoid):
                return args, list(fr)
    bs = bound_of(t)
    fr = [fresh(typ(b)) for b in bs]
    m = dict(zip(bs, fr))
    args = tuple(map_args(x, lambda u: subst_bv(u, m)) for x in t.a)
    if inst is not None:
        inst.append((args, tuple(fr), frozenset(fr)))
    return args, fr


def subst_bv(t, m):
    """replace bound variables by fresh symbols: the shape of the term does not change otherwise"""
    minlv = min(b.a[0] for b in m)
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if level(x) < minlv:
            return x
        r = memo.get(x)
        if r is None:
            if x.op in BINDERS and bound_of(x):
                a, fr = open_(x, frozenset())
                args = tuple(map_args(y, go) for y in a)
                r = rebuild_binder(x.op, args, fr)
            else:
                r = rebuild(x.op, tuple(map_args(y, go) for y in x.a))
            memo[x] = r
        return r
    return go(t)


_subst_memo = {}


def subst(t, m):
    """capture-avoiding as long as the values of m contain no free bound variables"""
    if not m:
        return t
    keys = set(m)
    if any(k.op == 'bv' for k in keys):
        return subst_bv(t, m)
    symkeys = frozenset(k for k in keys if k.op in ('sym', 'ph'))
    others = [k for k in keys if k.op not in ('sym', 'ph')]
    if not others:
        live = symkeys & free_syms(t)
        if not live:
            return t
        if len(live) != len(m):
            m = {k: m[k] for k in live}
            symkeys = live
    mk = frozenset(m.items())
    avoid = frozenset().union(*[free_syms(v) for v in m.values()], *[free_syms(k) for k in m])
    okeys = frozenset().union(*[free_syms(k) for k in others]) if others else None
    okconst = bool(others) and any(not free_syms(k) for k in others)
    memo = _subst_memo.get(mk)
    if memo is None:
        memo = _subst_memo[mk] = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        fs = free_syms(x)
        if not (symkeys & fs):
            if okeys is None or (not okconst and not (okeys & fs)):
                return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('sym', 'ph', 'bv', 'true', 'false', 'empty', 'dflt', 'fn', 'unit', 'nullptr', 'top'):
            r = x
        elif x.op in BINDERS and bound_of(x):
            inner, fr = open_(x, avoid)
            args = tuple(map_args(y, go) for y in inner)
            r = rebuild_binder(x.op, args, fr)
        else:
            args = tuple(map_args(y, go) for y in x.a)
            r = rebuild(x.op, args)
        memo[x] = r
        return r
    return go(t)


def subst_args(a, m):
    return tuple(map_args(x, lambda u: subst(u, m)) for x in a)


REBUILD = {}


def rebuild(op, a):
    if op == 'P':
        r = ZERO
        for mono, c in a[0]:
            p = num(c)
            for x, e in mono:
                if e == 1:
                    p = mul(p, x)
                elif isinstance(e, int) or e.denominator == 1:
                    p = mul(p, ipow(x, int(e)))
                else:
                    p = mul(p, pow_(x, num(e)))
            r = add(r, p)
        return r
    if op == 'ite':
        return ITE(asbool(a[0]), a[1], a[2])
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return raw(op, *a)


def ipow(x, e):
    if e < 0:
        return inv(ipow(x, -e))
    r = ONE
    for _ in range(e):
        r = mul(r, x)
    return r


REBUILD.update({
    'gate': gate,
    'lt0': lambda p: lift(_lt0, p), 'gt0': lambda p: lift(_lt0, neg(p)), 'eq0': lambda p: lift(_eq0, p),
    'idiv': idiv, 'imod': imod, 'floor': floor_, 'ceil': ceil_, 'trunc': trunc_, 'round': round_, 'abs': abs_,
    'pow': pow_, 'exp': exp_, 'log': log_, 'inv': inv, 'beq': eq, 'ptreq': eq, 'pair': pair,
    'fld': lambda b, n, ty: getf(b, n, ty),
    'rec': lambda b, fs: _rerec(b, fs),
})


def _rerec(b, fs):
    r = b
    for (k, v) in fs:
        r = setf(r, k[0], k[1], v)
    return r


# rebuild_binder is completed in containers.py
def rebuild_binder(op, args, fr):
    return close(op, args, fr)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 9:
        return '…'
    o, a = t.op, t.a
    if o == 'P':
        if not a[0]:
            return '0'
        s = []
        for m, c in a[0]:
            ms = '*'.join(show(x, d + 1) + ('' if e == 1 else '^%s' % e) for x, e in m)
            s.append((str(c) if not ms else ms if c == 1 else '%s*%s' % (c, ms)))
        return '(' + ' + '.join(s) + ')' if len(s) > 1 else s[0]
    if o == 'sym':
        return a[0]
    if o == 'ph':
        return 'PH%s' % (a[0],)
    if o == 'bv':
        return 'β%d' % a[0]
    if o == 'fld':
        return '%s.%s' % (show(a[0], d + 1), a[1])
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + show(a[0], d)
        return '{%s ? %s : %s}' % (show(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
    if o == 'rec':
        return '%s{%s}' % (show(a[0], d + 1), ', '.join('%s=%s' % (k[0], show(v, d + 1)) for k, v in a[1]))
    if o == 'lt0':
        return '[%s<0]' % show(a[0], d + 1)
    if o == 'gt0':
        return '[%s>0]' % show(a[0], d + 1)
    if o == 'eq0':
        return '[%s=0]' % show(a[0], d + 1)
    if o in ('true', 'false', 'unit', 'nullptr'):
        return o
    if o == 'top':
        return 'TOP<%s>' % (a[0],)
    if o == 'empty':
        return '∅'
    return '%s(%s)' % (o, ','.join(show(x, d + 1) for x in a))
