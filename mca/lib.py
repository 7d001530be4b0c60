"""Models of the standard-library operations the code base can use."""
from .terms import *
from .containers import *
from .engine import ref, Giveup


def havoc_args(en, e, vals, st):
    """arguments passed by non-const reference to an unmodelled function become unknown"""
    sig = e['f']
    i = sig.rfind('(')
    d, cur, out = 0, '', []
    for ch in sig[sig.index('(') + 1:]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d < 0:
                break
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    for t, (v, isref) in zip(out, vals):
        if isref and t.startswith('r<') and not t.startswith('r<c '):
            en.store(v, en.top('modified by ' + e['q'], t[2:-1]), st)


def isstr(t):
    return t == 's' or 'ostream' in t or 'ostringstream' in t or 'stringstream' in t or t.startswith('a<i') or t in ('R:std::basic_ostream', 'std::basic_ostream<i>')


# ------------------------------------------------------------------ construction of library types
def construct(en, e, st):
    t = e['t']
    a = [en.x(x, st) for x in e['a']]
    if st.dead:
        return UNIT

    def val(i):
        v, isref = a[i]
        return en.load(v, st) if isref else v
    b = tbase(t)
    if b in en.library:
        return en.library[b](en, [val(i) for i in range(len(a))], st)
    if t == 's' or t.startswith('R:std::') and any(x in t for x in ('error', 'argument', 'exception', 'range')):
        return raw('opaque', t)
    if t == 'it':
        return val(0) if a else en.top('iterator', 'it')
    if b == 'std::pair':
        if len(a) == 2:
            return pair(val(0), val(1))
        if len(a) == 1:
            return val(0)
        return en.defval(t)
    if b in BOXES:
        if not a:
            return NULL
        v = val(0)
        if b == 'std::unique_ptr':
            if typ(v).startswith('std::unique_ptr') or v.op == 'box' or v is NULL:
                return v
            if v.op == 'new':
                return box(en.load(en.deref(v, st, targs(t)[0]), st), t)
            return en.top('unique_ptr', t, e)
        return v
    if is_map(t) or is_set(t):
        if not a:
            return raw('empty', t)
        if len(a) >= 2 and _isit(val(0)):
            rng = itrange(en, val(0), val(1), st)
            if rng is None:
                return en.top('range constructor', t, e)
            return insert_range(en, raw('empty', t), rng, st)
        v = val(0)
        if is_list(typ(v)) or v.op in ('lpush',):
            return from_listterm(en, t, v)
        if is_map(typ(v)) or is_set(typ(v)):
            return v
        if typ(v) in ('i', 'u'):
            return raw('empty', t)
        return en.top('constructor', t, e)
    if is_list(t):
        if not a:
            return raw('empty', t)
        if len(a) >= 2 and _isit(val(0)):
            rng = itrange(en, val(0), val(1), st)
            if rng is None:
                return en.top('range constructor', t, e)
            g, c, el = rng
            if en.concrete and len(g) == 1 and (x := explicit(g, c, el)) is not None:
                l = raw('empty', t)
                for v in x:
                    l = lpush(l, v)
                return l
            return lcomp(raw('empty', t), g, c, el)
        v = val(0)
        if is_list(typ(v)) or v.op in ('lpush', 'empty'):
            return v
        if is_num(typ(v)):
            n = v
            x = val(1) if len(a) > 1 and is_num(typ(val(1))) or len(a) > 1 and tbase(typ(val(1))) == tbase(targs(t)[0]) else en.defval(targs(t)[0])
            c = cval(n)
            if c is not None and c <= 16:
                l = raw('empty', t)
                for _ in range(int(c)):
                    l = lpush(l, x)
                return l
            k = fresh('i')
            return lcomp(raw('empty', t), ((raw('range', ZERO, n), k),), TRUE, x)
        return en.top('constructor', t, e)
    if b in ('std::uniform_real_distribution', 'std::uniform_int_distribution', 'std::exponential_distribution'):
        if b == 'std::exponential_distribution':
            return raw('dist', t, val(0) if a else ONE)
        lo = val(0) if a else ZERO
        if len(a) > 1:
            hi = val(1)
        elif 'real' in b:
            hi = ONE
        else:
            hi = num(2 ** 31 - 1)
        return raw('dist', t, lo, hi)
    if 'mersenne_twister' in b or 'linear_congruential' in b or b in ('std::mt19937', 'std::default_random_engine'):
        if not a:
            return raw('engine', t, raw('dfltseed'))
        return raw('engine', t, val(0))
    if 'chrono' in t or 'chrono' in e['q']:
        return raw('uf', 'clock', t, ())
    if len(a) == 1 and typ(val(0)) == t:
        return val(0)
    if b == 'std::function':
        return val(0) if a else NULL
    if not a:
        return raw('dflt', t)
    return en.top('constructor of ' + t, t, e)


def _isit(v):
    return v.op in ('lit', 'mit', 'mend', 'mbeg') or (v.op == 'ite' and all(l.op in ('lit', 'mit', 'mend', 'mbeg') for _, l in leaves(v)))


def from_listterm(en, t, l):
    """container from an initializer_list value"""
    els = []
    x = l
    while x.op == 'lpush':
        els.append(x.a[1])
        x = x.a[0]
    if x.op != 'empty':
        if is_set(t):
            g, c, el = iter_list(l)
            return mcomp(raw('empty', t), 'set', g, c, el, UNIT)
        return raw('top', 'container from list', t)
    return en.from_list(t, list(reversed(els)))


# ------------------------------------------------------------------ ranges
def itrange(en, b, e_, st):
    """(gens, cond, element-value) of the iterator range [b, e)"""
    if b.op == 'mbeg' and e_.op == 'mend' and b.a[0] is e_.a[0]:
        r = b.a[0]
        m = en.load(r, st)
        return maprange(m)
    if b.op == 'lit' and e_.op == 'lit' and b.a[0] is e_.a[0]:
        l = en.load(b.a[0], st)
        if istop(l):
            return None
        if b.a[1] is ZERO and e_.a[1] is size(l):
            return iter_list(l)
        k = fresh('i')
        return ((raw('range', b.a[1], e_.a[1]), k),), TRUE, at(l, k)
    return None


def maprange(m):
    if istop(m):
        return None
    if m.op == 'ite':
        k = fresh((targs(typ(m)) or ['?'])[0])
        g, c, key = ((raw('dom', m), k),), TRUE, k
    else:
        g, c, key = iter_map(m)
    if is_set(typ(m)):
        return g, c, key
    return g, c, pair(key, get(m, key))


def rangerefs(en, b, e_, st):
    """like itrange with a reference to the element instead of its value"""
    if b.op == 'mbeg' and e_.op == 'mend' and b.a[0] is e_.a[0]:
        m = en.load(b.a[0], st)
        if istop(m):
            return None
        g, c, _ = maprange(m)
        key = _[0] if False else None
        kt = (targs(typ(m)) or ['?'])[0]
        k = fresh(kt)
        r = b.a[0]
        return ((dom(m) if m.op != 'ite' else raw('dom', m), k),), TRUE, ref(r.a[0], r.a[1] + (('e', k),)), raw('mit', r, k)
    if b.op == 'lit' and e_.op == 'lit' and b.a[0] is e_.a[0]:
        l = en.load(b.a[0], st)
        if istop(l):
            return None
        k = fresh('i')
        r = b.a[0]
        if b.a[1] is ZERO and e_.a[1] is size(l):
            d = raw('idx', l)
        else:
            d = raw('range', b.a[1], e_.a[1])
        return ((d, k),), TRUE, ref(r.a[0], r.a[1] + (('i', k),)), raw('lit', r, k)
    return None


def insert_range(en, m, rng, st):
    g, c, el = rng
    if en.concrete and len(g) == 1:
        x = explicit(g, c, el)
        if x is not None:
            for v in x:
                if is_set(typ(m)):
                    m = mset(m, v, UNIT)
                else:
                    ta = targs(typ(m))
                    k = getf(v, 'first', ta[0])
                    m = ITE(inm(m, k), m, mset(m, k, getf(v, 'second', ta[1])))
            return m
    if is_set(typ(m)):
        return mcomp(m, 'set', g, c, el, UNIT)
    ta = targs(typ(m))
    k, v = getf(el, 'first', ta[0]), getf(el, 'second', ta[1])
    inj = len(g) == 1 and k is g[0][1]
    if not inj:
        if m.op == 'empty' and len(g) == 1:
            # first insertion wins
            return raw('top', 'insert of possibly repeated keys', typ(m))
        return raw('top', 'insert of possibly repeated keys', typ(m))
    cc = c if m.op == 'empty' else AND(c, NOT(inm(m, k)))
    return mcomp(m, 'set', g, cc, k, v)


def explicit(g, c, el):
    """elements of a comprehension over an explicitly built list or map"""
    from .loops import small_list, small_map
    d, b = g[0]
    if d.op == 'idx':
        n = small_list(d.a[0])
        ks = None if n is None else [num(i) for i in range(n)]
    elif d.op == 'dom':
        ks = small_map(d.a[0])
    else:
        return None
    if ks is None:
        return None
    out = []
    for k in ks:
        cc = subst(c, {b: k})
        if cc is FALSE:
            continue
        if cc is not TRUE:
            return None
        out.append(subst(el, {b: k}))
    return out


def pure_lambda(en, fv, argref, st, facts, e):
    """boolean/numeric value of a predicate applied to the bound element, or None if it has effects or exits"""
    s = st.copy()
    f = s.facts.assume(facts)
    if f is not None:
        s.facts = f
    pc0 = s.pc
    en.writes.append(set())
    en.handlers.append([])
    try:
        v = en.apply(fv, [argref] if not isinstance(argref, list) else argref, s, e)
    finally:
        w = en.writes.pop()
        h = en.handlers.pop()
    outer = {x for x in w if x[0] in st.m or x[0][0] in ('heap', 'g', 'trace')}
    if outer or h or s.pc is not pc0:
        return None
    return v


# ------------------------------------------------------------------ methods
def mcall(en, e, st):
    ot = e.get('ot', '?')
    name = e['q'].split('::')[-1]
    if e['q'].startswith('std::') and 'operator' in e['q']:
        i = e['q'].index('operator')
        name = e['q'][i:]
    t = e['t']
    if isstr(ot) or (name == 'operator<<'):
        for x in e['a']:
            en.x(x, st)
        en.x(e['o'], st)
        if name in ('size', 'length'):
            return raw('uf', 'strlen', 'i', ()), False
        if name == 'empty':
            return raw('top', 'string', 'b'), False
        return raw('opaque', t), False
    if is_map(ot):
        return map_call(en, e, st, name)
    if is_set(ot):
        return set_call(en, e, st, name)
    if is_list(ot):
        return list_call(en, e, st, name)
    if ot == 'it':
        return it_call(en, e, st, name)
    if tbase(ot) in BOXES or tbase(ot) in ('std::__shared_ptr', 'std::__shared_ptr_access'):
        return box_call(en, e, st, name)
    b = tbase(ot)
    if 'distribution' in b and name == 'operator()':
        d = en.ev(e['o'], st)
        g = en.lv(e['a'][0], st)
        if st.dead:
            return UNIT, False
        gv = en.load(g, st)
        en.draws.append((en.where(e), g, gv, st.pc))
        en.store(g, raw('adv', gv), st)
        if d.op == 'dflt':
            ty = typ(d)
            d = raw('dist', ty, ZERO, ONE if 'real' in ty else num(2 ** 31 - 1))
        return raw('draw', d, gv, t), False
    if 'distribution' in b and name in ('reset',):
        return UNIT, False
    if 'distribution' in b and name in ('min', 'a'):
        d = en.ev(e['o'], st)
        return (d.a[1] if d.op == 'dist' else raw('uf', 'distmin', t, (d,))), False
    if 'distribution' in b and name in ('max', 'b'):
        d = en.ev(e['o'], st)
        return (d.a[2] if d.op == 'dist' and len(d.a) > 2 else raw('uf', 'distmax', t, (d,))), False
    if ('twister' in b or 'linear_congruential' in b):
        r = en.lv(e['o'], st)
        if name == 'seed':
            v = en.ev(e['a'][0], st) if e['a'] else raw('dfltseed')
            en.store(r, raw('engine', ot, v), st)
            return UNIT, False
        if name == 'operator()':
            gv = en.load(r, st)
            en.draws.append((en.where(e), r, gv, st.pc))
            en.store(r, raw('adv', gv), st)
            return raw('draw', raw('rawdraw'), gv, t), False
        if name == 'operator=':
            v = en.ev(e['a'][0], st)
            en.store(r, v, st)
            return r, True
        if name == 'discard':
            en.ev(e['a'][0], st)
            en.store(r, raw('adv', en.load(r, st)), st)
            return UNIT, False
    if 'chrono' in e['q'] or 'chrono' in ot:
        return raw('uf', 'clock', t, ()), False
    if name == 'operator=':
        r = en.lv(e['o'], st)
        v = en.ev(e['a'][0], st)
        if st.dead:
            return UNIT, False
        en.store(r, v, st)
        return r, True
    if b == 'std::pair' and name == 'swap':
        return en.top('pair swap', t, e), False
    if name == 'what':
        en.x(e['o'], st)
        return raw('opaque', 's'), False
    if b == 'std::function' and name == 'operator()':
        fv = en.ev(e['o'], st)
        a = [en.x(x, st)[0] for x in e['a']]
        return en.apply(fv, a, st, e), False
    a = [en.x(x, st) for x in e['a']]
    if st.dead:
        return UNIT, False
    o, oref = en.x(e['o'], st)
    if oref and not e.get('mc') and not e['arrow']:
        en.store(o, en.top('modified by ' + e['q'], ot), st)
    havoc_args(en, e, a, st)
    return en.top('library method ' + e['q'], t, e), False


def obj(en, e, st):
    if e['arrow']:
        p = en.ev(e['o'], st)
        return en.deref(p, st, e['ot'])
    return en.lv(e['o'], st)


def key_of(en, e, i, st):
    v, isref = en.x(e['a'][i], st)
    if isref:
        v = en.load(v, st)
    return v


def itkey(it):
    """element designated by a map/set iterator, or None"""
    return it.a[1] if it.op == 'mit' else None


def map_call(en, e, st, name):
    r = obj(en, e, st)
    if st.dead:
        return UNIT, False
    ot, t = e['ot'], e['t']
    kt, vt = (targs(ot) + ['?', '?'])[:2]
    if name == 'operator=':
        v = en.ev(e['a'][0], st)
        if st.dead:
            return UNIT, False
        if is_list(typ(v)) and not is_map(typ(v)):
            v = from_listterm(en, ot, v)
        en.store(r, v, st)
        return r, True
    if name in ('operator[]', 'at'):
        k = key_of(en, e, 0, st)
        if st.dead:
            return UNIT, False
        m = en.load(r, st)
        i = st.facts.restrict(inm(m, k))
        if name == 'at':
            if i is not TRUE and not istop(i):
                s2 = st.copy()
                s2.assume(NOT(i))
                if not s2.dead:
                    en.exit('throw', 'R:std::out_of_range', s2, UNIT, e)
                st.assume(i)
                if st.dead:
                    return UNIT, False
            return en.ext(r, ('k', k)), True
        if i is not TRUE:
            en.store(r, mtouch(m, k, en.defval(vt)), st)
        return en.ext(r, ('k', k)), True
    if name in ('count', 'contains'):
        k = key_of(en, e, 0, st)
        if st.dead:
            return UNIT, False
        i = st.facts.restrict(inm(en.load(r, st), k))
        return (ITE(i, ONE, ZERO) if name == 'count' else i), False
    if name == 'find':
        k = key_of(en, e, 0, st)
        if st.dead:
            return UNIT, False
        i = st.facts.restrict(inm(en.load(r, st), k))
        return ITE(i, raw('mit', r, k), raw('mend', r)), False
    if name in ('begin', 'cbegin'):
        m = en.load(r, st)
        if size(m) is ZERO:
            return raw('mend', r), False
        return raw('mbeg', r), False
    if name in ('end', 'cend'):
        return raw('mend', r), False
    if name == 'size':
        return size(en.load(r, st)), False
    if name == 'empty':
        return NOT(nonempty(en.load(r, st))), False
    if name == 'clear':
        en.store(r, raw('empty', ot), st)
        return UNIT, False
    if name in ('reserve', 'rehash', 'max_load_factor'):
        for x in e['a']:
            en.x(x, st)
        return UNIT, False
    if name == 'erase':
        v = key_of(en, e, 0, st)
        if st.dead:
            return UNIT, False
        m = en.load(r, st)
        if len(e['a']) == 1:
            if _isit(v):
                def g(x):
                    return mdel(m, x.a[1]) if x.op == 'mit' else en.top('erase', ot)
                en.store(r, liftx(g, [v]), st)
                return en.top('iterator after erase', 'it'), False
            i = st.facts.restrict(inm(m, v))
            en.store(r, ITE(i, mdel(m, v), m), st)
            return ITE(i, ONE, ZERO), False
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
        av = [key_of(en, e, i, st) for i in range(len(e['a']))]
        if st.dead:
            return UNIT, False
        m = en.load(r, st)
        if name == 'emplace_hint':
            av = av[1:]
        if name == 'insert' and len(av) == 2 and _isit(av[0]) and _isit(av[1]):
            rng = itrange(en, av[0], av[1], st)
            en.store(r, insert_range(en, m, rng, st) if rng else en.top('insert range', ot, e), st)
            return UNIT, False
        if name == 'insert' and len(av) == 2 and _isit(av[0]):
            av = av[1:]
        if len(av) == 1:
            if is_list(typ(av[0])):
                v = from_listterm(en, ot, av[0])
                en.store(r, en.top('insert list', ot, e), st)
                return UNIT, False
            k, v = getf(av[0], 'first', kt), getf(av[0], 'second', vt)
        elif len(av) == 2:
            k, v = av
            if vt != typ(v) and en.cls(vt):
                return en.top('emplace', t, e), False
        else:
            return en.top('emplace', t, e), False
        i = st.facts.restrict(inm(m, k))
        if name == 'insert_or_assign':
            en.store(r, mset(m, k, v), st)
        else:
            en.store(r, ITE(i, m, mset(m, k, v)), st)
        return pair(raw('mit', r, k), NOT(i)), False
    if name == 'swap':
        r2 = en.lv(e['a'][0], st)
        a, b = en.load(r, st), en.load(r2, st)
        en.store(r, b, st)
        en.store(r2, a, st)
        return UNIT, False
    return unknown(en, e, r, st)


def unknown(en, e, r, st):
    a = [en.x(x, st) for x in e['a']]
    if st.dead:
        return UNIT, False
    if not e.get('mc'):
        en.store(r, en.top('modified by ' + e['q'], e['ot']), st)
    havoc_args(en, e, a, st)
    return en.top('library method ' + e['q'], e['t'], e), False


def set_distinct(en, ot, m, k, st, e):
    """whether an equal element is already in an ordered set with a repository comparator: approximated by the
    component the comparator calls equivalent (checked separately for being a strict weak order)"""
    return inm(m, k)


def set_call(en, e, st, name):
    r = obj(en, e, st)
    if st.dead:
        return UNIT, False
    ot, t = e['ot'], e['t']
    ta = targs(ot)
    if name == 'operator=':
        v = en.ev(e['a'][0], st)
        if st.dead:
            return UNIT, False
        if is_list(typ(v)):
            v = from_listterm(en, ot, v)
        en.store(r, v, st)
        return r, True
    if name in ('count', 'contains', 'find'):
        k = key_of(en, e, 0, st)
        if st.dead:
            return UNIT, False
        i = st.facts.restrict(inm(en.load(r, st), k))
        if name == 'find':
            return ITE(i, raw('mit', r, k), raw('mend', r)), False
        return (ITE(i, ONE, ZERO) if name == 'count' else i), False
    if name in ('begin', 'cbegin'):
        return raw('mbeg', r), False
    if name in ('end', 'cend'):
        return raw('mend', r), False
    if name == 'size':
        return size(en.load(r, st)), False
    if name == 'empty':
        return NOT(nonempty(en.load(r, st))), False
    if name == 'clear':
        en.store(r, raw('empty', ot), st)
        return UNIT, False
    if name in ('reserve', 'rehash'):
        for x in e['a']:
            en.x(x, st)
        return UNIT, False
    if name in ('insert', 'emplace'):
        if tbase(ot) == 'std::multiset':
            return unknown(en, e, r, st)
        av = [key_of(en, e, i, st) for i in range(len(e['a']))]
        if st.dead:
            return UNIT, False
        m = en.load(r, st)
        if name == 'insert' and len(av) == 2 and _isit(av[0]) and _isit(av[1]):
            rng = itrange(en, av[0], av[1], st)
            en.store(r, insert_range(en, m, rng, st) if rng else en.top('insert range', ot, e), st)
            return UNIT, False
        if name == 'insert' and len(av) == 2 and _isit(av[0]):
            av = av[1:]
        if name == 'emplace' and len(av) == 2:
            av = [pair(av[0], av[1])]
        if len(av) != 1:
            return unknown(en, e, r, st)
        k = av[0]
        i = st.facts.restrict(inm(m, k))
        en.store(r, m if i is TRUE else mset(m, k, UNIT), st)
        return pair(raw('mit', r, k), NOT(i)), False
    if name == 'erase' and len(e['a']) == 1:
        v = key_of(en, e, 0, st)
        m = en.load(r, st)
        if _isit(v):
            en.store(r, liftx(lambda x: mdel(m, x.a[1]) if x.op == 'mit' else en.top('erase', ot), [v]), st)
            return en.top('iterator after erase', 'it'), False
        i = st.facts.restrict(inm(m, v))
        en.store(r, ITE(i, mdel(m, v), m), st)
        return ITE(i, ONE, ZERO), False
    return unknown(en, e, r, st)


def list_call(en, e, st, name):
    r = obj(en, e, st)
    if st.dead:
        return UNIT, False
    ot, t = e['ot'], e['t']
    et = (targs(ot) or ['?'])[0]
    if name == 'operator=':
        v = en.ev(e['a'][0], st)
        if st.dead:
            return UNIT, False
        en.store(r, v, st)
        return r, True
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        av = [key_of(en, e, i, st) for i in range(len(e['a']))]
        if st.dead:
            return UNIT, False
        if len(av) == 1:
            v = av[0]
        elif len(av) == 2 and tbase(et) == 'std::pair':
            v = pair(av[0], av[1])
        elif not av:
            v = en.defval(et)
        else:
            v = en.top('emplace', et, e)
        l = en.load(r, st)
        en.store(r, lpushf(l, v) if 'front' in name else lpush(l, v), st)
        if name.startswith('emplace'):
            return en.ext(r, ('i', size(l) if 'back' in name else ZERO)), True
        return UNIT, False
    if name in ('at', 'operator[]'):
        i = key_of(en, e, 0, st)
        if st.dead:
            return UNIT, False
        if name == 'at':
            l = en.load(r, st)
            ok = st.facts.restrict(AND(ge(i, ZERO), lt(i, size(l))))
            ok = st.facts.prune(ok)
            if ok is not TRUE and not istop(ok):
                s2 = st.copy()
                s2.assume(NOT(ok))
                if not s2.dead:
                    en.exit('throw', 'R:std::out_of_range', s2, UNIT, e)
                st.assume(ok)
                if st.dead:
                    return UNIT, False
        return en.ext(r, ('i', i)), True
    if name == 'size':
        return size(en.load(r, st)), False
    if name == 'empty':
        return NOT(nonempty(en.load(r, st))), False
    if name == 'clear':
        en.store(r, raw('empty', ot), st)
        return UNIT, False
    if name in ('reserve', 'shrink_to_fit'):
        for x in e['a']:
            en.x(x, st)
        return UNIT, False
    if name in ('begin', 'cbegin'):
        return raw('lit', r, ZERO), False
    if name in ('end', 'cend'):
        return raw('lit', r, size(en.load(r, st))), False
    if name == 'front':
        return en.ext(r, ('i', ZERO)), True
    if name == 'back':
        return en.ext(r, ('i', sub(size(en.load(r, st)), ONE))), True
    if name == 'pop_front':
        en.store(r, lpopf(en.load(r, st)), st)
        return UNIT, False
    if name == 'pop_back':
        en.store(r, lpopb(en.load(r, st)), st)
        return UNIT, False
    if name in ('insert', 'emplace') and len(e['a']) >= 2:
        av = [key_of(en, e, i, st) for i in range(len(e['a']))]
        if st.dead:
            return UNIT, False
        l = en.load(r, st)
        if len(av) == 2 or (name == 'emplace' and len(av) == 3 and tbase(et) == 'std::pair'):
            it = av[0]
            v = av[1] if len(av) == 2 else pair(av[1], av[2])

            def g(x):
                if x.op == 'lit':
                    return lins(l, x.a[1], v)
                return en.top('insert position', ot)
            en.store(r, liftx(g, [it]), st)
            return it, False
        if len(av) == 3 and _isit(av[1]):
            rng = itrange(en, av[1], av[2], st)
            it = av[0]
            if rng and it.op == 'lit' and it.a[1] is size(l):
                en.store(r, lcomp(l, rng[0], rng[1], rng[2]), st)
                return it, False
    if name == 'erase' and len(e['a']) == 1:
        it = key_of(en, e, 0, st)
        l = en.load(r, st)

        def g(x):
            if x.op == 'lit':
                return lera(l, x.a[1])
            return en.top('erase position', ot)
        en.store(r, liftx(g, [it]), st)
        return it, False
    if name == 'resize':
        av = [key_of(en, e, i, st) for i in range(len(e['a']))]
        l = en.load(r, st)
        if l.op == 'empty' and av[0].op:
            k = fresh('i')
            v = av[1] if len(av) > 1 else en.defval(et)
            c = cval(av[0])
            if c is not None and c <= 16:
                for _ in range(int(c)):
                    l = lpush(l, v)
                en.store(r, l, st)
            else:
                en.store(r, lcomp(l, ((raw('range', ZERO, av[0]), k),), TRUE, v), st)
            return UNIT, False
    if name == 'assign' and len(e['a']) == 2:
        av = [key_of(en, e, i, st) for i in range(len(e['a']))]
        if _isit(av[0]):
            rng = itrange(en, av[0], av[1], st)
            if rng:
                en.store(r, lcomp(raw('empty', ot), rng[0], rng[1], rng[2]), st)
                return UNIT, False
    if name == 'swap':
        r2 = en.lv(e['a'][0], st)
        a, b = en.load(r, st), en.load(r2, st)
        en.store(r, b, st)
        en.store(r2, a, st)
        return UNIT, False
    return unknown(en, e, r, st)


def it_call(en, e, st, name):
    if name in ('operator++', 'operator--'):
        r = en.lv(e['o'], st)
        old = en.load(r, st)
        new = en.itadvance(old, ONE if name == 'operator++' else num(-1))
        en.store(r, new, st)
        if e['a']:
            return old, False
        return r, True
    if name in ('operator+=', 'operator-='):
        r = en.lv(e['o'], st)
        d = en.ev(e['a'][0], st)
        en.store(r, en.itadvance(en.load(r, st), d if '+' in name else neg(d)), st)
        return r, True
    if name == 'operator=':
        r = en.lv(e['o'], st)
        v = en.ev(e['a'][0], st)
        if st.dead:
            return UNIT, False
        if r.op == 'ref' and st.m.get(r.a[0]) is not None and st.m[r.a[0]].op == 'backins':
            return en.top('output iterator', 'it', e), False
        en.store(r, v, st)
        return r, True
    it = en.ev(e['o'], st)
    if st.dead:
        return UNIT, False
    if name == 'operator*':
        return en.deref(it, st, e['t']), True
    if name == 'operator->':
        return en.deref(it, st, e['t'][2:-1] if e['t'].startswith('p<') else '?'), False
    if name in ('operator+', 'operator-'):
        d = en.ev(e['a'][0], st)
        return en.arith(name[-1], it, d, e['t'], e, st), False
    if name in ('operator==', 'operator!='):
        o = en.ev(e['a'][0], st)
        return en.compare(name[-2:], it, o, e, st), False
    if name == 'operator[]':
        d = en.ev(e['a'][0], st)
        return en.deref(en.itadvance(it, d), st, e['t']), True
    return en.top('iterator ' + name, e['t'], e), False


def box_call(en, e, st, name):
    ot = e['ot']
    b = tbase(ot)
    inner = (targs(ot) or ['?'])[0]
    if name == 'operator=':
        r = en.lv(e['o'], st)
        v = en.ev(e['a'][0], st)
        if st.dead:
            return UNIT, False
        en.store(r, v, st)
        return r, True
    if b == 'std::unique_ptr':
        r = obj(en, e, st)
        if name in ('operator->', 'get'):
            return en.ext(r, ('u',)), False
        if name == 'operator*':
            return en.ext(r, ('u',)), True
        if name == 'operator bool':
            return asbool(en.load(r, st)), False
        if name == 'reset':
            if e['a']:
                v = en.ev(e['a'][0], st)
                if v.op == 'new':
                    v = box(en.load(en.deref(v, st, inner), st), ot)
                en.store(r, v, st)
            else:
                en.store(r, NULL, st)
            return UNIT, False
    else:
        v = en.ev(e['o'], st)
        if st.dead:
            return UNIT, False
        if name in ('operator->', 'get', 'lock'):
            return v, False
        if name == 'operator*':
            return en.deref(v, st, inner), True
        if name == 'operator bool':
            return asbool(v), False
        if name == 'reset':
            en.store(en.lv(e['o'], st), NULL, st)
            return UNIT, False
    for x in e['a']:
        en.x(x, st)
    return en.top('library method ' + e['q'], e['t'], e), False


# ------------------------------------------------------------------ free functions
MATH1 = {'exp': exp_, 'log': log_, 'floor': floor_, 'ceil': ceil_, 'round': round_, 'trunc': trunc_, 'abs': abs_, 'fabs': abs_, 'lround': round_, 'llround': round_, 'labs': abs_, 'rint': round_, 'nearbyint': round_}


def numeric_limit(q, n):
    ty = q[q.index('<') + 1:q.rindex('>')]
    ints = {'int': (31, True), 'long': (63, True), 'long long': (63, True), 'unsigned int': (32, False), 'unsigned long': (64, False), 'short': (15, True)}
    if ty in ints:
        b, sg = ints[ty]
        if n == 'max':
            return num(2 ** b - 1)
        if n in ('min', 'lowest'):
            return num(-2 ** b if sg else 0)
    if ty == 'double':
        if n == 'max':
            return raw('uf', 'dblmax', 'f', ())
        if n == 'lowest':
            return neg(raw('uf', 'dblmax', 'f', ()))
        if n == 'min':
            return num(Fr(2.2250738585072014e-308))
        if n == 'epsilon':
            return num(Fr(2.220446049250313e-16))
        if n == 'infinity':
            return raw('uf', 'inf', 'f', ())
    return None


def call(en, e, st):
    q = e['q']
    n = q.split('::')[-1]
    t = e['t']
    if n.startswith('__builtin_'):
        n = n[len('__builtin_'):]
    av = []
    for x in e['a']:
        av.append(en.x(x, st))
        if st.dead:
            return UNIT, False

    def val(i):
        v, isref = av[i]
        return en.load(v, st) if isref else v

    def r(i):
        v, isref = av[i]
        return v if isref else en.tmp(v, st)
    if q in en.library:
        return en.library[q](en, [val(i) for i in range(len(av))], st), False
    op = e.get('op')
    if op == '<<' and isstr(t):
        return av[0]
    if op:
        ts = [x.get('t', '?') for x in e['a']]
        if any(isstr(x) for x in ts) or t == 's':
            if t == 'b':
                return raw('top', 'string comparison', 'b'), False
            return raw('opaque', t), False
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = val(0), val(1)
            if op in ('<', '>', '<=', '>=') and tbase(ts[0]) == 'std::pair':
                return pair_cmp(en, op, a, b, ts[0]), False
            return en.compare(op, a, b, e, st), False
        if op in ('+', '-') and ts[0] == 'it':
            return en.arith(op, val(0), val(1), t, e, st), False
    if n in ('to_string', 'operator<<', 'endl', 'operator+', 'operator"" s'):
        return raw('opaque', t if t != 'v' else 's'), False
    if 'numeric_limits' in q:
        lim = numeric_limit(q, n)
        if lim is not None:
            return lim, False
    if n in MATH1 and len(av) == 1:
        v = lift(tonum, val(0))
        r_ = MATH1[n](v)
        return r_, False
    if n == 'sqrt' or n == 'sqrtf':
        return pow_(val(0), num(Fr(1, 2))), False
    if n == 'cbrt':
        return pow_(val(0), num(Fr(1, 3))), False
    if n in ('pow', 'powf'):
        return pow_(val(0), val(1)), False
    if n == 'exp2':
        return pow_(num(2), val(0)), False
    if n == 'log1p':
        return log_(add(ONE, val(0))), False
    if n == 'hypot':
        s = ZERO
        for i in range(len(av)):
            s = add(s, mul(val(i), val(i)))
        return pow_(s, num(Fr(1, 2))), False
    if n == 'fma' and len(av) == 3:
        return add(mul(val(0), val(1)), val(2)), False
    if n in ('isfinite',):
        return TRUE, False
    if n in ('isnan', 'isinf'):
        return FALSE, False
    if n in ('fmod', 'remainder'):
        return raw('uf', n, 'f', (val(0), val(1))), False
    if n in ('min', 'max', 'fmin', 'fmax') and len(av) == 2:
        a, b = val(0), val(1)
        if n.endswith('min'):
            return ITE(lt(b, a), b, a), False
        return ITE(lt(a, b), b, a), False
    if n in ('min', 'max') and len(av) == 1:
        l = val(0)
        els = []
        while l.op == 'lpush':
            els.append(l.a[1])
            l = l.a[0]
        if l.op == 'empty' and els:
            els.reverse()
            x = els[0]
            for y in els[1:]:
                x = ITE(lt(y, x), y, x) if n == 'min' else ITE(lt(x, y), y, x)
            return x, False
    if n == 'clamp' and len(av) == 3:
        v, lo, hi = val(0), val(1), val(2)
        return ITE(lt(v, lo), lo, ITE(lt(hi, v), hi, v)), False
    if n in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof') and len(av) == 1:
        if n == 'addressof':
            return r(0), False
        return av[0]
    if n == 'make_pair' and len(av) == 2:
        return pair(val(0), val(1)), False
    if n in ('get',) and len(av) == 1 and tbase(e['a'][0].get('t', '?')) == 'std::pair':
        return en.top('std::get', t, e), False
    if n == 'swap' and len(av) == 2:
        a, b = val(0), val(1)
        en.store(r(0), b, st)
        en.store(r(1), a, st)
        return UNIT, False
    if n == 'exchange' and len(av) == 2:
        a, b = val(0), val(1)
        en.store(r(0), b, st)
        return a, False
    if n in ('make_shared', 'make_unique'):
        ta = e.get('ta') or ['?']
        at = ta[0]
        if en.cls(at):
            if av:
                return en.top(n, t, e), False
            v = en.construct_default(at, st)
        else:
            v = val(0) if av else en.defval(at)
        if n == 'make_unique':
            return box(v, t), False
        p = en.newptr(at)
        root = ('heap', at)
        st.m[root] = mset(en.rootval(st, root), p, v)
        en.writes[-1].add((root, None))
        return p, False
    if n == 'now' or 'chrono' in q or n in ('time', 'clock'):
        return raw('uf', 'clock', t, ()), False
    if n in ('rand', 'random', 'drand48'):
        return raw('uf', 'globalrand', t, ()), False
    if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and len(av) == 1 and (q.startswith('std::')):
        fake = {'k': 'mcall', 'ot': e['a'][0]['t'], 'q': 'x::' + n, 't': t, 'a': [], 'arrow': False, 'o': e['a'][0], 'l': e['l'], 'mc': True, 'f': e['f']}
        return mcall(en, fake, st)
    if n in ('back_inserter',):
        return raw('backins', r(0)), False
    if n in ('inserter',):
        return raw('ins', r(0)), False
    if n in ('front_inserter',):
        return raw('frontins', r(0)), False
    if n == 'advance':
        it = val(0)
        en.store(r(0), en.itadvance(it, val(1)), st)
        return UNIT, False
    if n in ('next', 'prev') and av:
        d = val(1) if len(av) > 1 else ONE
        return en.itadvance(val(0), d if n == 'next' else neg(d)), False
    if n == 'distance':
        return en.arith('-', val(1), val(0), 'i', e, st), False
    if q.startswith('std::'):
        out = algorithm(en, e, n, [val(i) for i in range(len(av))], st)
        if out is not None:
            return out, False
    if t == 's' or isstr(t):
        return raw('opaque', t), False
    havoc_args(en, e, av, st)
    # algorithms working through iterators may write their range
    for i in range(len(av)):
        v = val(i)
        for _, l in leaves(v):
            if l.op in ('lit', 'mbeg', 'mit', 'backins', 'ins', 'frontins'):
                rr = l.a[0]
                if n not in READONLY:
                    en.store(rr, en.top('modified by ' + q, typ(en.load(rr, st))), st)
    return en.top('library function ' + q, t, e), False


READONLY = ('find_if', 'find', 'count_if', 'count', 'any_of', 'all_of', 'none_of', 'accumulate', 'max_element', 'min_element', 'is_sorted', 'lower_bound', 'upper_bound', 'equal', 'adjacent_find', 'find_if_not', 'binary_search', 'minmax_element', 'partial_sum', 'copy', 'copy_if', 'transform', 'is_sorted_until')


def pair_cmp(en, op, a, b, ty):
    ta = targs(ty)

    def less(a, b):
        a1, b1 = getf(a, 'first', ta[0]), getf(b, 'first', ta[0])
        a2, b2 = getf(a, 'second', ta[1]), getf(b, 'second', ta[1])
        return OR(lt(a1, b1), AND(NOT(lt(b1, a1)), lt(a2, b2)))
    if op == '<':
        return less(a, b)
    if op == '>':
        return less(b, a)
    if op == '<=':
        return NOT(less(b, a))
    return NOT(less(a, b))


def apply_named(en, fid, args, st, e):
    return en.top('function value ' + fid, '?', e)


def output(en, o, g, c, v, st, e):
    """write the enumerated values to an output iterator"""
    if o.op == 'backins':
        l = en.load(o.a[0], st)
        en.store(o.a[0], lcomp(l, g, c, v), st)
        return True
    if o.op == 'ins':
        m = en.load(o.a[0], st)
        if is_map(typ(m)) or is_set(typ(m)):
            en.store(o.a[0], liftx(lambda mm: insert_range(en, mm, (g, c, v), st), [m]), st)
            return True
        if is_list(typ(m)):
            return False
    if o.op == 'lit' and o.a[1] is ZERO:
        l = en.load(o.a[0], st)
        n = sum_(g, c, ONE)
        if size(l) is n:
            en.store(o.a[0], lcomp(raw('empty', typ(l)), g, c, v), st)
            return True
    return False


def algorithm(en, e, n, a, st):
    t = e['t']
    if len(a) >= 2 and _isit(a[0]) and _isit(a[1]):
        pass
    else:
        return None
    rr = rangerefs(en, a[0], a[1], st)
    if rr is None:
        return None
    g, c, er, itv = rr
    gf = AND(*[gen_guard(D, b) for D, b in g])

    def elem():
        return en.load(er, st)
    ty = typ(elem())
    if n in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if_not'):
        p = pure_lambda(en, a[2], er, st, gf, e)
        if p is None:
            return None
        p = asbool(p)
        if n == 'find_if_not' or n == 'all_of':
            p = NOT(p)
        if n == 'count_if':
            return sum_(g, AND(c, p), ONE)
        ex = st.facts.restrict(exists(g, AND(c, p)))
        if n == 'any_of':
            return ex
        if n in ('none_of', 'all_of'):
            return NOT(ex)
        if a[0].op == 'lit':
            idx = first(g, AND(c, p), g[0][1], 'i')
            return ITE(ex, raw('lit', a[0].a[0], idx), a[1])
        key = first(g, AND(c, p), g[0][1], typ(g[0][1]))
        return ITE(ex, raw('mit', a[0].a[0], key), a[1])
    if n in ('find', 'count'):
        p = eq(elem(), a[2])
        if n == 'count':
            return sum_(g, AND(c, p), ONE)
        ex = st.facts.restrict(exists(g, AND(c, p)))
        if a[0].op == 'lit':
            idx = first(g, AND(c, p), g[0][1], 'i')
            return ITE(ex, raw('lit', a[0].a[0], idx), a[1])
        return None
    if n in ('copy', 'move') and len(a) == 3:
        rng = itrange(en, a[0], a[1], st)
        if rng and output(en, a[2], rng[0], rng[1], rng[2], st, e):
            return a[2]
        return None
    if n in ('copy_if',) and len(a) == 4:
        p = pure_lambda(en, a[3], er, st, gf, e)
        if p is None:
            return None
        if output(en, a[2], g, AND(c, asbool(p)), elem(), st, e):
            return a[2]
        return None
    if n == 'transform' and len(a) == 4:
        v = pure_lambda(en, a[3], er, st, gf, e)
        if v is None:
            return None
        if v.op == 'ref':
            v = en.load(v, st)
        o = a[2]
        if o.op == 'lit' and o.a[0] is a[0].a[0] and o.a[1] is ZERO and a[0].a[1] is ZERO:
            l = en.load(o.a[0], st)
            en.store(o.a[0], close('lupd', (l, g, c, g[0][1], v), [b for _, b in g]), st)
            return a[2]
        if output(en, o, g, c, v, st, e):
            return a[2]
        return None
    if n == 'for_each' and len(a) == 3:
        from . import loops
        loops.foreach(en, g, c, lambda s: en.apply(a[2], [er], s, e), st, e)
        return a[2]
    if n == 'accumulate' and len(a) in (3, 4):
        if len(a) == 3:
            return add(a[2], sum_(g, c, elem()))
        ph = fresh(typ(a[2]) if typ(a[2]) != '?' else 'f', 'acc')
        v = pure_lambda(en, a[3], [ph, er], st, gf, e)
        if v is None:
            return None
        if v.op == 'ref':
            v = en.load(v, st)
        d = sub(v, ph)
        if ph not in free_syms(d):
            return add(a[2], sum_(g, c, d))
        from . import loops
        return loops.scalar_fold(en, g, c, ph, a[2], v)
    if n in ('sort', 'stable_sort') and a[0].op == 'lit' and len(a) in (2, 3):
        l = en.load(a[0].a[0], st)
        if a[0].a[1] is ZERO and a[1].a[1] is size(l):
            x, y = fresh(ty, 'x'), fresh(ty, 'y')
            if len(a) == 3:
                p = pure_lambda(en, a[2], [x, y], st, TRUE, e)
                if p is None:
                    return None
                p = asbool(p)
            elif is_num(ty):
                p = lt(x, y)
            elif tbase(ty) == 'std::pair':
                p = pair_cmp(en, '<', x, y, ty)
            else:
                return None
            lam = close('lam', ((x, y), p), [x, y])
            if l.op == 'lsort' and l.a[1] is lam:
                return UNIT
            en.store(a[0].a[0], liftx(lambda q: q if istop(q) or q.op == 'empty' else raw('lsort', q, lam), [l]), st)
            return UNIT
        return None
    if n == 'reverse' and a[0].op == 'lit':
        l = en.load(a[0].a[0], st)
        if a[0].a[1] is ZERO and a[1].a[1] is size(l):
            en.store(a[0].a[0], liftx(lambda q: q if istop(q) or q.op == 'empty' else raw('lrev', q), [l]), st)
            return UNIT
        return None
    if n in ('max_element', 'min_element') and len(a) in (2, 3):
        x, y = fresh(ty, 'x'), fresh(ty, 'y')
        if len(a) == 3:
            p = pure_lambda(en, a[2], [x, y], st, TRUE, e)
            if p is None:
                return None
            p = asbool(p)
        elif is_num(ty):
            p = lt(x, y)
        elif tbase(ty) == 'std::pair':
            p = pair_cmp(en, '<', x, y, ty)
        else:
            return None
        lam = close('lam', ((x, y), p), [x, y])
        D = g[0][0]
        pos = raw('argext', n[:3], D, close('lam', ((g[0][1],), elem()), [g[0][1]]), lam, typ(g[0][1]))
        ne = st.facts.restrict(dom_nonempty(D))
        return ITE(ne, raw(a[0].op if a[0].op == 'lit' else 'mit', a[0].a[0], pos), a[1])
    if n in ('upper_bound', 'lower_bound') and a[0].op == 'lit' and len(a) in (3, 4):
        x = a[2]
        if len(a) == 4:
            p = pure_lambda(en, a[3], [x, er] if n == 'upper_bound' else [er, x], st, gf, e)
            if p is None:
                return None
            p = asbool(p)
        elif is_num(ty):
            p = lt(x, elem()) if n == 'upper_bound' else lt(elem(), x)
        else:
            return None
        if n == 'lower_bound':
            p = NOT(p)
        # on a partitioned range: the first element satisfying p
        ex = st.facts.restrict(exists(g, AND(c, p)))
        idx = first(g, AND(c, p), g[0][1], 'i')
        return ITE(ex, raw('lit', a[0].a[0], idx), a[1])
    if n == 'is_sorted' and a[0].op == 'lit':
        return raw('top', 'is_sorted', 'b')
    if n == 'fill' and len(a) == 3 and a[0].op == 'lit':
        l = en.load(a[0].a[0], st)
        if a[0].a[1] is ZERO and a[1].a[1] is size(l):
            en.store(a[0].a[0], close('lupd', (l, g, c, g[0][1], a[2]), [b for _, b in g]), st)
            return UNIT
    if n == 'iota' and a[0].op == 'lit':
        l = en.load(a[0].a[0], st)
        if a[0].a[1] is ZERO and a[1].a[1] is size(l):
            en.store(a[0].a[0], close('lupd', (l, g, c, g[0][1], add(a[2], g[0][1])), [b for _, b in g]), st)
            return UNIT
    return None
