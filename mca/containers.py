"""Container terms, comprehensions, sums, facts."""
from . import terms as tm
from .terms import *
from fractions import Fraction as Fr


def liftx(fn, args):
    """lift without memo (closures)"""
    args = gate_args(tuple(args), 24)
    for x in args:
        if x.op == 'ite':
            v = min(y.a[0] for y in args if y.op == 'ite')
            return ITE(atom(v), liftx(fn, [cof(y, v, 1) for y in args]), liftx(fn, [cof(y, v, 0) for y in args]))
    return fn(*args)


def topof(x, ty=None):
    return raw('top', x.a[0], ty or typ(x))


# ---------------------------------------------------------------- maps and sets
def mset(m, k, v):
    def g(m, k):
        if istop(m):
            return m
        if istop(k):
            return topof(k, typ(m))
        if m.op in ('mset', 'mtouch') and m.a[1] is k:
            return g(m.a[0], k)
        if m.op == 'mset':
            # commute provably distinct keys into a canonical order
            e = eq(m.a[1], k)
            if e is FALSE and k.id < m.a[1].id:
                return raw('mset', g(m.a[0], k), m.a[1], m.a[2])
        return raw('mset', m, k, v)
    return liftx(g, [m, k])


def mtouch(m, k, d):
    def g(m, k):
        if istop(m):
            return m
        if istop(k):
            return topof(k, typ(m))
        i = inm(m, k)
        if i is TRUE:
            return m
        if i is FALSE:
            return mset(m, k, d)
        return raw('mtouch', m, k, d)
    return liftx(g, [m, k])


def mdel(m, k):
    def g(m, k):
        if istop(m):
            return m
        if istop(k):
            return topof(k, typ(m))
        i = inm(m, k)
        if i is FALSE:
            return m
        if m.op in ('mset', 'mtouch') and m.a[1] is k:
            return mdel(m.a[0], k)
        return raw('mdel', m, k)
    return liftx(g, [m, k])


def _inm(m, k):
    if istop(m) or istop(k):
        return raw('top', (m if istop(m) else k).a[0], 'b')
    o = m.op
    if o in ('empty', 'dflt'):
        return FALSE
    if o in ('mset', 'mtouch'):
        return OR(eq(k, m.a[1]), inm(m.a[0], k))
    if o == 'mdel':
        return AND(NOT(eq(k, m.a[1])), inm(m.a[0], k))
    if o == 'mcomp':
        args, fr = open_(m, free_syms(k))
        base, mode, gens, cond, key, val = args
        return OR(inm(base, k), exists(gens, AND(cond, eq(key, k))))
    if o == 'sel':
        b = steady(m)
        if b is not None:
            return inm(b, k)
    return atom(raw('in', m, k))


def inm(m, k):
    return lift(_inm, m, k)


def _get(m, k):
    if istop(m):
        ta = targs(typ(m))
        return raw('top', m.a[0], ta[1] if len(ta) > 1 else '?')
    if istop(k):
        ta = targs(typ(m))
        return raw('top', k.a[0], ta[1] if len(ta) > 1 else '?')
    o = m.op
    if o in ('empty', 'dflt'):
        ta = targs(typ(m))
        return default_value(ta[1]) if len(ta) > 1 else raw('top', 'get from empty', '?')
    if o == 'mset':
        c = eq(k, m.a[1])
        if c is TRUE:
            return m.a[2]
        return ITE(c, m.a[2], get(m.a[0], k))
    if o == 'mtouch':
        c = AND(eq(k, m.a[1]), NOT(inm(m.a[0], m.a[1])))
        return ITE(c, m.a[2], get(m.a[0], k))
    if o == 'mdel':
        return get(m.a[0], k)
    if o == 'mcomp':
        args, fr = open_(m, free_syms(k))
        base, mode, gens, cond, key, val = args
        if mode == 'set':
            s = solve_all(gens, AND(cond, eq(key, k)), val)
            if s is not None:
                c, v = s
                return ITE(c, v, get(base, k))
            return raw('get', m, k)
        if mode == 'add':
            b = ITE(inm(base, k), get(base, k), ZERO)
            return add(b, sum_(gens, AND(cond, eq(key, k)), val))
    return raw('get', m, k)


def get(m, k):
    return lift(_get, m, k)


def _size(m):
    if istop(m):
        return topof(m, 'i')
    o = m.op
    if o in ('empty', 'dflt'):
        return ZERO
    if o == 'mset':
        return add(size(m.a[0]), ITE(inm(m.a[0], m.a[1]), ZERO, ONE))
    if o == 'mtouch':
        return add(size(m.a[0]), ITE(inm(m.a[0], m.a[1]), ZERO, ONE))
    if o == 'mdel':
        return sub(size(m.a[0]), ITE(inm(m.a[0], m.a[1]), ONE, ZERO))
    if o in ('lpush', 'lpushf', 'lins'):
        return add(size(m.a[0]), ONE)
    if o in ('lpopf', 'lpopb', 'lera'):
        return sub(size(m.a[0]), ONE)
    if o in ('lset', 'lsort', 'lrev', 'lupd'):
        return size(m.a[0])
    if o == 'lcat':
        return add(size(m.a[0]), size(m.a[1]))
    if o == 'lcomp':
        args, fr = open_(m, frozenset())
        base, gens, cond, val = args
        return add(size(base), sum_(gens, cond, ONE))
    if o == 'lscan':
        args, fr = open_(m, frozenset())
        return add(size(args[0]), sum_(args[1], args[2], ONE))
    if o == 'mcomp':
        args, fr = open_(m, frozenset())
        base, mode, gens, cond, key, val = args
        d = domain_base(m)
        if d is not m:
            return size(d)
        if base.op == 'empty' and len(gens) == 1 and key is gens[0][1]:
            return sum_(gens, cond, ONE)
    if o == 'sel':
        b = steady(m)
        if b is not None:
            return size(b)
    return raw('size', m)


def size(m):
    return lift(_size, m)


def nonempty(m):
    return NOT(lt(size(m), ONE))


_steady = {}


def steady(m):
    """the initial value of a map built by a loop whose key set no round changes"""
    f, tag = m.a[0], m.a[1]
    if tag[0] not in ('n', 'p') or f.op not in ('fold', 'while') or kind_of(m) != 'map':
        return None
    if m in _steady:
        return _steady[m]
    _steady[m] = None
    args, fr = open_(f, frozenset())
    if f.op == 'fold':
        gens, phs, pres, news, exits = args
    else:
        phs, pres, cond, news, exits = args
    j = tag[1]
    ta = targs(typ(m))
    k = fresh(ta[0] if ta else 'i')
    D = inm(pres[j], k)
    n = inm(news[j], k)
    if not istop(D) and not istop(n):
        a = raw('in', phs[j], k)
        r = ITE(D, restrict(n, a, 1), restrict(n, a, 0))
        if r is D:
            _steady[m] = pres[j]
    return _steady[m]


def restrict(t, v, b):
    """t where atom v has value b"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x)
        if r is None:
            if x.a[0] is v:
                r = go(x.a[1] if b else x.a[2])
            else:
                r = ITE(atom(x.a[0]), go(x.a[1]), go(x.a[2]))
            memo[x] = r
        return r
    return go(t)


def kind_of(m):
    t = typ(m)
    return 'map' if t.startswith(('std::unordered_map<', 'std::map<', 'std::set<', 'std::unordered_set<', 'M<')) else None


def domain_base(m):
    """a simpler map with the same key set"""
    if m.op == 'sel':
        b = steady(m)
        return m if b is None else domain_base(b)
    if m.op == 'mset' or m.op == 'mtouch':
        if inm(m.a[0], m.a[1]) is TRUE:
            return domain_base(m.a[0])
        return m
    if m.op == 'mcomp':
        args, fr = open_(m, frozenset())
        base, mode, gens, cond, key, val = args
        if len(gens) == 1 and key is gens[0][1] and gens[0][0].op == 'dom':
            D = gens[0][0].a[0]
            b = domain_base(base)
            if b is D:
                return b
            if base.op in ('empty', 'dflt') and cond is TRUE:
                return D
    return m


# ---------------------------------------------------------------- domains
def dom(m):
    return raw('dom', domain_base(m))


def gen_guard(D, e):
    """condition for e to be in domain D"""
    if D.op == 'dom':
        return inm(D.a[0], e)
    if D.op == 'idx':
        return AND(ge(e, ZERO), lt(e, size(D.a[0])))
    if D.op == 'range':
        return AND(ge(e, D.a[0]), lt(e, D.a[1]))
    return raw('top', 'domain', 'b')


def iter_map(m):
    """(gens, cond, key) enumerating every key of m exactly once, or None if m is gated"""
    m = domain_base(m)
    if m.op == 'mcomp':
        args, fr = open_(m)
        base, mode, gens, cond, key, val = args
        if base.op in ('empty', 'dflt') and len(gens) == 1 and key is gens[0][1]:
            D = gens[0][0]
            return gens, cond, key
    kt = targs(typ(m))
    b = fresh(kt[0] if kt else '?')
    return ((raw('dom', m), b),), TRUE, b


def map_gens(gens, f):
    return tuple((f(d), b) for d, b in gens)


def uses(t, syms):
    return bool(free_syms(t) & syms)


def bdd_implied_eqs(c):
    """atoms eq0 that must be true for c to hold"""
    out = []
    seen = set()
    stack = [c]
    ats = set()
    while stack:
        x = stack.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        ats.add(x.a[0])
        stack.append(x.a[1])
        stack.append(x.a[2])
    for v in sorted(ats):
        if v.op in ('eq0', 'beq'):
            if setatom(c, v, False) is FALSE:
                out.append(v)
    return out


_setatom_memo = {}


def setatom(t, v, b):
    """cofactor on an atom anywhere in the (top-level) diagram"""
    if t.op != 'ite' or t.a[0].id > v.id:
        return t
    k = (t, v, b)
    r = _setatom_memo.get(k)
    if r is None:
        if t.a[0] is v:
            r = t.a[1] if b else t.a[2]
        else:
            r = node(t.a[0], setatom(t.a[1], v, b), setatom(t.a[2], v, b))
        _setatom_memo[k] = r
    return r


def solve_eq(p, b):
    """p = 0 as b = e with e free of b, or None"""
    co = None
    rest = {}
    for m, c in items(p):
        vs = [x for x, e in m if x is b]
        if vs:
            if len(m) == 1 and m[0][1] == 1:
                co = c
            else:
                return None
        else:
            for x, e in m:
                if b in free_syms(x):
                    return None
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    return mkP({m: -c / co for m, c in rest.items()})


def elim(gens, cond, vals):
    """use implied equalities to eliminate generators.  Returns (gens, cond, vals)"""
    changed = True
    while changed and gens:
        changed = False
        for v in bdd_implied_eqs(cond):
            for i in range(len(gens) - 1, -1, -1):
                D, b = gens[i]
                if v.op == 'eq0':
                    e = solve_eq(v.a[0], b)
                else:
                    x, y = v.a
                    e = y if x is b else x if y is b else None
                    if e is not None and b in free_syms(e):
                        e = None
                if e is None:
                    continue
                later = {bb for _, bb in gens[i + 1:]}
                if uses(e, later):
                    continue
                cond = AND(setatom(cond, v, True), gen_guard(D, e))
                m = {b: e}
                gens = gens[:i] + map_gens(gens[i + 1:], lambda d: subst(d, m))
                cond = subst(cond, m)
                vals = [subst(x, m) for x in vals]
                changed = True
                break
            if changed:
                break
    return gens, cond, vals


def solve_all(gens, cond, val):
    """if cond determines all generators: (condition, value)"""
    g, c, (v,) = elim(gens, cond, [val])
    if g:
        # generators that are not mentioned by the value may be projected away
        bs = frozenset(b for _, b in g)
        if not uses(v, bs):
            return exists(g, c), v
        return None
    return c, v


def scope_syms(gens, cond, vals):
    r = free_syms(cond)
    for v in vals:
        r = r | free_syms(v)
    for d, b in gens:
        r = r | free_syms(d) | {b}
    return r


def norm_gens(gens, cond, vals, ordered):
    """replace iteration over built lists by iteration over what they were built from"""
    gens = tuple(gens)
    for _ in range(8):
        for i, (D, b) in enumerate(gens):
            if D.op == 'idx':
                L = D.a[0]
                base = L
                if not ordered:
                    while base.op in ('lsort', 'lrev'):
                        base = base.a[0]
                if base.op == 'empty':
                    return gens, FALSE, vals
                if base.op == 'lcomp' and base.a[0].op == 'empty':
                    args, fr = open_(base, scope_syms(gens, cond, vals))
                    _, g2, c2, v2 = args
                    a = raw('at', L, b)
                    m = {a: v2}
                    nc = subst(cond, m)
                    nv = [subst(x, m) for x in vals]
                    ng = map_gens(gens[i + 1:], lambda d: subst(d, m))
                    s = frozenset((b,))
                    if uses(nc, s) or any(uses(x, s) for x in nv) or any(uses(d, s) for d, _ in ng):
                        continue
                    gens = gens[:i] + tuple(g2) + ng
                    cond = AND(nc, c2)
                    vals = nv
                    break
            elif D.op == 'dom':
                m0 = D.a[0]
                if m0.op in ('empty', 'dflt'):
                    return gens, FALSE, vals
                if m0.op == 'mcomp':
                    it = iter_map(m0)
                    g2, c2, k2 = it
                    if not (len(g2) == 1 and g2[0][0] is D):
                        mm = {b: k2}
                        gens = gens[:i] + tuple(g2) + map_gens(gens[i + 1:], lambda d: subst(d, mm))
                        cond = AND(subst(cond, mm), c2)
                        vals = [subst(x, mm) for x in vals]
                        break
        else:
            return guarded(gens, cond, vals)
    return guarded(gens, cond, vals)


def guarded(gens, cond, vals):
    """condition and values simplified by the membership of the generators in composite maps"""
    for D, b in gens:
        if D.op == 'dom' and D.a[0].op in ('mcomp', 'mset', 'mtouch', 'mdel'):
            g = gen_guard(D, b)
            if istop(g) or g.op != 'ite':
                continue
            if cond.op == 'ite':
                if AND(g, cond) is FALSE:
                    return gens, FALSE, vals
                cond = care(g, cond)
            vals = [care(g, v) if v.op == 'ite' else v for v in vals]
    return gens, cond, vals


# ---------------------------------------------------------------- comprehensions
_ex_memo, _sum_memo = {}, {}


def exists(gens, cond):
    k = (tuple(gens), cond)
    r = _ex_memo.get(k)
    if r is None:
        r = _ex_memo[k] = exists_(gens, cond)
    return r


def exists_(gens, cond):
    if cond is FALSE:
        return FALSE
    if istop(cond):
        return cond
    gens, cond, _ = norm_gens(gens, cond, [], False)
    if cond is FALSE:
        return FALSE
    gens, cond, _ = elim(gens, cond, [])
    if not gens:
        return cond
    allb = frozenset(b for _, b in gens)
    # drop innermost generators not mentioned
    while gens:
        D, b = gens[-1]
        if uses(cond, frozenset((b,))):
            break
        cond = AND(cond, dom_nonempty(D))
        gens = gens[:-1]
    if not gens:
        return cond
    bs = frozenset(b for _, b in gens)
    if not uses(cond, bs) and len(gens) == 1:
        return AND(cond, dom_nonempty(gens[0][0]))
    # pull out atoms independent of the binders (split on them)
    for v in bdd_atoms(cond):
        if not uses(v, bs):
            return ITE(atom(v), exists(gens, setatom(cond, v, True)), exists(gens, setatom(cond, v, False)))
    return atom(close('exists', (gens, cond), [b for _, b in gens]))


def bdd_atoms(c):
    seen = set()
    out = set()
    stack = [c]
    while stack:
        x = stack.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        out.add(x.a[0])
        stack.append(x.a[1])
        stack.append(x.a[2])
    return sorted(out)


def dom_nonempty(D):
    if D.op in ('dom', 'idx'):
        return nonempty(D.a[0])
    if D.op == 'range':
        return lt(D.a[0], D.a[1])
    return raw('top', 'domain', 'b')


def dom_size(D):
    if D.op in ('dom', 'idx'):
        return size(D.a[0])
    if D.op == 'range':
        return ITE(lt(D.a[0], D.a[1]), sub(D.a[1], D.a[0]), ZERO)
    return raw('top', 'domain', 'i')


def sum_(gens, cond, val):
    k = (tuple(gens), cond, val)
    r = _sum_memo.get(k)
    if r is None:
        r = _sum_memo[k] = sum__(gens, cond, val)
    return r


def sum__(gens, cond, val):
    if cond is FALSE:
        return ZERO
    if istop(cond):
        return topof(cond, 'f')
    val = lift(tonum, val)
    if has_top(val) and istop(val):
        return val
    gens, cond, (val,) = norm_gens(gens, cond, [val], False)
    if cond is FALSE:
        return ZERO
    gens, cond, (val,) = elim(gens, cond, [val])
    if not gens:
        return ITE(cond, val, ZERO)
    bs = frozenset(b for _, b in gens)
    V = ITE(cond, val, ZERO)
    for v in bdd_atoms(V):
        if not uses(v, bs):
            return ITE(atom(v), sum_(gens, TRUE, setatom(V, v, True)), sum_(gens, TRUE, setatom(V, v, False)))
    # group by leaf
    groups = {}
    tops = None
    for path, leaf in leaves(V):
        if istop(leaf):
            return leaf
        groups.setdefault(leaf, []).append(path)
    monos = {}
    for leaf, paths in groups.items():
        c = OR(*[lits(p) for p in paths])
        for m, k in items(leaf):
            monos.setdefault(m, {})
            d = monos[m]
            d[k] = OR(d.get(k, FALSE), c)
    res = ZERO
    for m, d in sorted(monos.items(), key=lambda kv: tuple((x.id, e) for x, e in kv[0])):
        for k, c in d.items():
            outf, inf = [], []
            for x, e in m:
                (inf if uses(x, bs) else outf).append((x, e))
            o = mkP({tuple(outf): k})
            res = add(res, mul(o, _sum_mono(gens, c, tuple(inf))))
    return res


def _sum_mono(gens, cond, mono):
    gens, cond, _ = elim(gens, cond, [])if False else (gens, cond, None)
    # flatten one nested sum factor
    for i, (x, e) in enumerate(mono):
        if x.op == 'sum' and e == 1:
            ex = None
            args, fr = open_(x, scope_syms(gens, cond, [y for y, _ in mono]))
            g2, c2, v2 = args
            exa = exists(g2, c2)
            # the guard "the inner sum has elements" is implied
            if exa.op == 'ite' and exa.a[1] is TRUE and exa.a[2] is FALSE:
                cond = _drop_implied(cond, exa.a[0])
            rest = mkP({mono[:i] + mono[i + 1:]: Fr(1)})
            return sum_(tuple(gens) + tuple(g2), AND(cond, c2), mul(rest, v2))
    # drop unused trailing generators
    if not mono:
        gl = list(gens)
        if cond is TRUE and len(gl) == 1:
            return dom_size(gl[0][0])
        if len(gl) > 1:
            D, b = gl[-1]
            if not uses(cond, frozenset((b,))):
                return sum_(tuple(gl[:-1]), cond, dom_size(D))
    v = mkP({mono: Fr(1)})
    gens, cond, (v,) = _prune_gens(gens, cond, [v])
    return close('sum', (tuple(gens), cond, v), [b for _, b in gens])


def _prune_gens(gens, cond, vals):
    return gens, cond, vals


def _drop_implied(cond, a):
    """in a sum over inner elements a non-emptiness guard may be assumed"""
    hi = setatom(cond, a, True)
    lo = setatom(cond, a, False)
    if lo is FALSE:
        return hi
    return cond


def mcomp(base, mode, gens, cond, key, val):
    def g(base):
        nonlocal gens, cond, key, val
        if istop(base):
            return base
        if cond is FALSE:
            return base
        if istop(cond) or istop(key):
            return topof(cond if istop(cond) else key, typ(base))
        gs, c, (k, v) = norm_gens(gens, cond, [key, val], False) if _order_free(mode, gens, key) else (gens, cond, [key, val])
        if c is FALSE:
            return base
        if mode == 'set' and base.op in ('mcomp', 'sel', 'mset') and len(gs) == 1 and k is gs[0][1] and gs[0][0].op == 'dom':
            # every key of the base is written over
            kk = fresh(typ(k))
            if OR(NOT(inm(base, kk)), AND(inm(gs[0][0].a[0], kk), subst(c, {k: kk}))) is TRUE:
                base = raw('empty', typ(base))
        return close('mcomp', (base, mode, tuple(gs), c, k, v), [b for _, b in gs])
    if not gens:
        if mode == 'set':
            return ITE(cond, mset(base, key, val), base)
        return ITE(cond, mset(base, key, add(ITE(inm(base, key), get(base, key), ZERO), val)), base)
    return liftx(g, [base])


def _order_free(mode, gens, key):
    return mode == 'add' or len(gens) == 1


def lcomp(base, gens, cond, val):
    def g(base):
        if istop(base):
            return base
        if cond is FALSE:
            return base
        if istop(cond):
            return topof(cond, typ(base))
        gs, c, (v,) = norm_gens(gens, cond, [val], True)
        if c is FALSE:
            return base
        # identity copy of a whole list
        if base.op == 'empty' and len(gs) == 1 and c is TRUE and gs[0][0].op == 'idx' and v.op == 'at' and v.a[1] is gs[0][1] and v.a[0] is gs[0][0].a[0]:
            return v.a[0]
        return close('lcomp', (base, tuple(gs), c, v), [b for _, b in gs])
    if not gens:
        return ITE(cond, lpush(base, val), base)
    return liftx(g, [base])


# ---------------------------------------------------------------- lists
def lpush(l, v):
    return liftx(lambda l: l if istop(l) else raw('lpush', l, v), [l])


def lpushf(l, v):
    return liftx(lambda l: l if istop(l) else raw('lpushf', l, v), [l])


def lpopf(l):
    def g(l):
        if istop(l):
            return l
        if l.op == 'lpushf':
            return l.a[0]
        return raw('lpopf', l)
    return liftx(g, [l])


def lpopb(l):
    def g(l):
        if istop(l):
            return l
        if l.op == 'lpush':
            return l.a[0]
        return raw('lpopb', l)
    return liftx(g, [l])


def lins(l, i, v):
    def g(l, i):
        if istop(l):
            return l
        if istop(i):
            return topof(i, typ(l))
        if i is ZERO:
            return lpushf(l, v)
        if i is size(l):
            return lpush(l, v)
        return raw('lins', l, i, v)
    return liftx(g, [l, i])


def lera(l, i):
    def g(l, i):
        if istop(l):
            return l
        if istop(i):
            return topof(i, typ(l))
        if i is ZERO:
            return lpopf(l)
        return raw('lera', l, i)
    return liftx(g, [l, i])


def lset(l, i, v):
    def g(l, i):
        if istop(l):
            return l
        if istop(i):
            return topof(i, typ(l))
        if l.op == 'lset' and l.a[1] is i:
            return raw('lset', l.a[0], i, v)
        if l.op == 'lpush':
            e = eq(i, size(l.a[0]))
            if e is TRUE:
                return raw('lpush', l.a[0], v)
            if e is FALSE:
                return raw('lpush', lset(l.a[0], i, v), l.a[1]) if lset(l.a[0], i, v).op != 'ite' else raw('lset', l, i, v)
        return raw('lset', l, i, v)
    return liftx(g, [l, i])


def _at(l, i):
    et = targs(typ(l))
    et = et[0] if et else '?'
    if istop(l) or istop(i):
        return raw('top', (l if istop(l) else i).a[0], et)
    o = l.op
    if o == 'lpush':
        e = eq(i, size(l.a[0]))
        return ITE(e, l.a[1], at(l.a[0], i) if e is not TRUE else l.a[1])
    if o == 'lpushf':
        e = eq(i, ZERO)
        if e is TRUE:
            return l.a[1]
        return ITE(e, l.a[1], at(l.a[0], sub(i, ONE)))
    if o == 'lset':
        e = eq(i, l.a[1])
        if e is TRUE:
            return l.a[2]
        return ITE(e, l.a[2], at(l.a[0], i))
    if o == 'lpopf':
        return at(l.a[0], add(i, ONE))
    if o == 'lpopb':
        return at(l.a[0], i)
    if o == 'lupd':
        args, fr = open_(l, free_syms(i))
        base, gens, cond, idx, val = args
        s = solve_all(gens, AND(cond, eq(idx, i)), val)
        if s is not None:
            return ITE(s[0], s[1], at(base, i))
    if o == 'lcomp':
        # a comprehension over a full index range is indexed directly
        args, fr = open_(l, free_syms(i))
        base, gens, cond, val = args
        if base.op == 'empty' and cond is TRUE and len(gens) == 1 and gens[0][0].op == 'idx':
            return subst(val, {gens[0][1]: i})
        if base.op == 'empty' and cond is TRUE and len(gens) == 1 and gens[0][0].op == 'range' and gens[0][0].a[0] is ZERO:
            return subst(val, {gens[0][1]: i})
    return raw('at', l, i)


def at(l, i):
    return lift(_at, l, i)


def iter_list(l):
    """(gens, cond, elem) enumerating the elements in order"""
    if l.op == 'lcomp' and l.a[0].op == 'empty':
        args, fr = open_(l)
        return args[1], args[2], args[3]
    b = fresh('i')
    return ((raw('idx', l), b),), TRUE, at(l, b)


def first(gens, cond, val, ty):
    """value for the first element satisfying cond (only meaningful if one exists)"""
    if istop(cond):
        return topof(cond, ty)
    s = solve_all(gens, cond, val)
    if s is not None and not s[1].op == 'top':
        return s[1]
    bs = frozenset(b for _, b in gens)
    if not uses(val, bs):
        return val
    gens, cond, (val,) = norm_gens(gens, cond, [val], True)
    return close('first', (tuple(gens), cond, val, ty), [b for _, b in gens])


def extr(kind, gens, cond, val, init, ty):
    if cond is FALSE:
        return init
    gens, cond, (val,) = norm_gens(gens, cond, [val], False)
    if cond is FALSE:
        return init
    # flatten nested running extremum: val itself an extr with a neutral start is handled by the loop summariser
    return close('extr', (kind, tuple(gens), cond, val, init, ty), [b for _, b in gens])


# ---------------------------------------------------------------- rebuilding (for substitution)
tm.REBUILD.update({
    'mset': mset, 'mtouch': mtouch, 'mdel': mdel, 'in': inm, 'get': get, 'size': size, 'lpush': lpush, 'lpushf': lpushf,
    'lpopf': lpopf, 'lpopb': lpopb, 'lins': lins, 'lera': lera, 'lset': lset, 'at': at,
    'dom': lambda m: liftdom('dom', m), 'idx': lambda m: liftdom('idx', m),
    'unbox': lambda b: unbox(b),
})


def liftdom(op, m):
    if m.op == 'ite' or istop(m):
        return raw(op, m)
    if op == 'dom':
        return dom(m)
    return raw(op, m)


def box(v, ty):
    return raw('box', v, ty)


def _unbox(b):
    if b.op == 'box':
        return b.a[0]
    return raw('unbox', b)


def unbox(b):
    return lift(_unbox, b)


def rebuild_binder(op, a, fr):
    if op == 'mcomp':
        return mcomp(a[0], a[1], a[2], a[3], a[4], a[5])
    if op == 'lcomp':
        return lcomp(*a)
    if op == 'sum':
        return sum_(*a)
    if op == 'exists':
        return exists(*a)
    if op == 'first':
        return first(*a)
    if op == 'extr':
        return extr(*a)
    return close(op, a, fr)


tm.rebuild_binder = rebuild_binder


# ---------------------------------------------------------------- facts
def care(g, t):
    """t simplified where g holds"""
    memo = {}

    def go(g, t):
        if g.op != 'ite' or t.op != 'ite':
            return t
        k = (g, t)
        r = memo.get(k)
        if r is not None:
            return r
        v = min(g.a[0], t.a[0])
        if g.a[0] is v:
            if g.a[1] is FALSE:
                r = go(g.a[2], cof(t, v, 0))
            elif g.a[2] is FALSE:
                r = go(g.a[1], cof(t, v, 1))
            elif t.a[0] is v:
                r = node(v, go(g.a[1], t.a[1]), go(g.a[2], t.a[2]))
            else:
                r = go(OR(g.a[1], g.a[2]), t)
        else:
            r = node(v, go(g, t.a[1]), go(g, t.a[2]))
        memo[k] = r
        return r
    return go(g, t)


class Facts:
    """literals known to hold, with interval reasoning on linear forms"""
    __slots__ = ('d', 'b', 'c')

    def __init__(self, d=None, b=None, c=()):
        self.d = d if d is not None else {}
        self.b = b if b is not None else {}
        self.c = c              # small disjunctions

    def copy(self):
        return Facts(dict(self.d), dict(self.b), self.c)

    @staticmethod
    def form(p):
        const = Fr(0)
        d = {}
        for m, c in items(p):
            if m == ():
                const = c
            else:
                d[m] = c
        return mkP(d), const

    def add_atom(self, v, val):
        self.d[v] = val
        if v.op in ('lt0', 'gt0', 'eq0'):
            h, c = self.form(v.a[0])
            k = -c   # compare h with k
            lo, ls, hi, hs = self.b.get(h, (None, False, None, False))
            isint = p_isint(h)

            def up(x, s):
                nonlocal hi, hs
                if hi is None or x < hi or (x == hi and s and not hs):
                    hi, hs = x, s

            def dn(x, s):
                nonlocal lo, ls
                if lo is None or x > lo or (x == lo and s and not ls):
                    lo, ls = x, s
            if v.op == 'lt0':
                if val:
                    up(k - 1, False) if isint else up(k, True)
                else:
                    dn(k, False)
            elif v.op == 'gt0':
                if val:
                    dn(k, True)
                else:
                    up(k, False)
            elif val:
                up(k, False)
                dn(k, False)
            elif isint:
                if lo == k and not ls:
                    lo = k + 1
                if hi == k and not hs:
                    hi = k - 1
            self.b[h] = (lo, ls, hi, hs)
            if val is False and v.op == 'eq0':
                pass

    def consistent(self):
        for h, (lo, ls, hi, hs) in self.b.items():
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs)):
                    return False
        for v, val in self.d.items():
            if v.op == 'eq0' and not val:
                h, c = self.form(v.a[0])
                lo, ls, hi, hs = self.b.get(h, (None, False, None, False))
                if lo is not None and lo == hi == -c:
                    return False
        return True

    def decide(self, v):
        r = self.d.get(v)
        if r is not None:
            return r
        if v.op in ('lt0', 'gt0', 'eq0'):
            h, c = self.form(v.a[0])
            k = -c
            b = self.b.get(h)
            neg_ = False
            if b is None:
                h2 = neg(h)
                b2 = self.b.get(h2)
                if b2 is None:
                    b = self.linear(h)
                    if b is None:
                        return None
                else:
                    lo, ls, hi, hs = b2
                    b = (None if hi is None else -hi, hs, None if lo is None else -lo, ls)
            lo, ls, hi, hs = b
            if v.op == 'lt0':
                if hi is not None and (hi < k or (hi == k and hs)):
                    return True
                if lo is not None and lo >= k:
                    return False
            elif v.op == 'gt0':
                if lo is not None and (lo > k or (lo == k and ls)):
                    return True
                if hi is not None and hi <= k:
                    return False
            else:
                if lo is not None and hi is not None and lo == hi == k and not ls and not hs:
                    return True
                if lo is not None and (lo > k or (lo == k and ls)):
                    return False
                if hi is not None and (hi < k or (hi == k and hs)):
                    return False
        return None

    def linear(self, h):
        """interval of a linear combination of atoms with known bounds"""
        its = items(h)
        if len(its) < 1 or len(its) > 4:
            return None
        lo = hi = Fr(0)
        ls = hs = False
        found = False
        for m, c in its:
            x = mkP({m: Fr(1)})
            b = self.b.get(x)
            if b is None:
                b = (Fr(0), False, None, False) if nonneg(x) else (None, False, None, False)
            else:
                found = True
            l, l_s, u, u_s = b
            if c < 0:
                l, l_s, u, u_s = u, u_s, l, l_s
            lo = None if lo is None or l is None else lo + c * l
            ls = ls or l_s
            hi = None if hi is None or u is None else hi + c * u
            hs = hs or u_s
        if not found or (lo is None and hi is None):
            return None
        return (lo, ls, hi, hs)

    def assume(self, c):
        """new Facts with boolean term c assumed (literals implied by c only); None if contradictory"""
        c = self.restrict(c)
        if c is FALSE:
            return None
        f = self.copy()
        if c is TRUE or istop(c):
            return f
        changed = True
        while changed:
            changed = False
            for v in bdd_atoms(c):
                hi, lo = setatom(c, v, True), setatom(c, v, False)
                if lo is FALSE:
                    f.add_atom(v, True)
                    c = hi
                    changed = True
                elif hi is FALSE:
                    f.add_atom(v, False)
                    c = lo
                    changed = True
                if changed:
                    break
            if changed:
                c = f.restrict(c)
                if c is FALSE:
                    return None
        if not f.consistent():
            return None
        if c.op == 'ite' and len(list(bdd_atoms(c))) <= 4 and c not in f.c:
            f.c = (f.c + (c,))[-6:]
        return f

    def restrict(self, t):
        t = self.restrict_lits(t)
        if t.op == 'ite' and self.c:
            for cl in self.c:
                cl = self.restrict_lits(cl)
                if cl.op == 'ite':
                    t = care(cl, t)
                if t.op != 'ite':
                    break
        return t

    def restrict_lits(self, t):
        if not self.d:
            if t.op != 'ite':
                return t
        memo = {}

        def go(x):
            if x.op != 'ite':
                if x.op == 'rec':
                    return mkrec(x.a[0], {k: go(v) for k, v in x.a[1]})
                if x.op == 'pair':
                    return raw('pair', go(x.a[0]), go(x.a[1]))
                if x.op == 'gate':
                    return gate(go(x.a[0]))
                return x
            r = memo.get(x)
            if r is None:
                d = self.decide(x.a[0])
                if d is None:
                    r = node(x.a[0], go(x.a[1]), go(x.a[2]))
                else:
                    r = go(x.a[1] if d else x.a[2])
                memo[x] = r
            return r
        return go(t)

    def prune(self, t, depth=0):
        """restrict, with the branch literals themselves used as facts"""
        if t.op != 'ite':
            if t.op == 'rec':
                return mkrec(t.a[0], {k: self.prune(v) for k, v in t.a[1]})
            if t.op == 'pair':
                return raw('pair', self.prune(t.a[0]), self.prune(t.a[1]))
            return t
        v = t.a[0]
        d = self.decide(v)
        if d is not None:
            return self.prune(t.a[1] if d else t.a[2], depth)
        f1, f2 = self.copy(), self.copy()
        f1.add_atom(v, True)
        f2.add_atom(v, False)
        if not f1.consistent():
            return f2.prune(t.a[2], depth + 1)
        if not f2.consistent():
            return f1.prune(t.a[1], depth + 1)
        return ITE(atom(v), f1.prune(t.a[1], depth + 1), f2.prune(t.a[2], depth + 1))


def meet(a, b):
    """facts that hold in both"""
    if a is None:
        return b
    if b is None:
        return a
    f = Facts()
    for v, x in a.d.items():
        if b.decide(v) == x:
            f.add_atom(v, x)
    f.c = tuple(x for x in a.c if x in b.c)
    return f
