"""Loops: one abstract execution of the body over a bound element with placeholders for the modified locations, then a
closed summary per location (sum, extremum, flag, appended list, map layer, element update) or, when none matches, an
exact 'fold' / 'while' node."""
from .terms import *
from .containers import *
from . import engine as eg
from .engine import Exit, Giveup, ref, St

_nph = [0]


def newph(ty):
    _nph[0] += 1
    return raw('ph', _nph[0], ty)


def outer(root, st):
    return root in st.m or root[0] in ('heap', 'g', 'trace', 'o')


def locref(loc):
    return ref(loc[0], (loc[1],) if loc[1] else ())


def loctype(en, loc, pre):
    if loc[1] and loc[1][0] == 'f':
        return loc[1][2]
    t = en.vartypes.get(loc[0])
    return t or typ(pre)


def canon_locs(w, st):
    w = {l for l in w if outer(l[0], st)}
    whole = {l[0] for l in w if l[1] is None}
    return {l for l in w if l[1] is None or l[0] not in whole}


class Run:
    """result of the abstract body execution"""


def exec_body(en, st, runner, setup, special=None):
    """fixpoint on the set of modified locations.  runner(state) executes one iteration (condition included), setup(state)
    adds the facts of the iteration"""
    locs = []
    special = special or {}
    for _ in range(8):
        s = St(dict(st.m), TRUE, st.facts.copy())
        phs, pres, kinds = {}, {}, {}
        for l in locs:
            if l in special:
                en.raw_store(locref(l), special[l], s)
                continue
            pre = en.load(locref(l), st)
            pres[l] = pre
            lt_ = set(x.op for _, x in leaves(pre))
            if lt_ == {'lit'} and len({x.a[0] for _, x in leaves(pre)}) == 1:
                r = next(leaves(pre))[1].a[0]
                p = newph('i')
                phs[l] = p
                kinds[l] = ('lit', r)
                pres[l] = liftx(lambda x: x.a[1], [pre])
                en.raw_store(locref(l), raw('lit', r, p), s)
            elif lt_ & {'ref', 'mit', 'mend', 'mbeg', 'lit', 'clos', 'fn', 'box'} or typ(pre) == 'it':
                kinds[l] = ('top',)
                en.raw_store(locref(l), raw('top', 'loop-carried reference', typ(pre)), s)
            else:
                p = newph(loctype(en, l, pre))
                phs[l] = p
                kinds[l] = ('v',)
                en.raw_store(locref(l), p, s)
        fr = en.frames[-1] if en.frames else None
        sv = fr.returns if fr else None
        if fr:
            fr.returns = []
        en.handlers.append([])
        en.writes.append(set())
        ctx = {'breaks': [], 'continues': []}
        en.loops.append(ctx)
        try:
            setup(s)
            cond = runner(s, ctx)
        finally:
            en.loops.pop()
            w = en.writes.pop()
            hs = en.handlers.pop()
            rets = fr.returns if fr else []
            if fr:
                fr.returns = sv
        w = canon_locs(w, st) | set(locs)
        w = canon_locs(w, st)
        if w == set(locs):
            break
        locs = sorted(w, key=repr)
    else:
        raise Giveup('loop does not stabilise')
    r = Run()
    r.locs, r.phs, r.pres, r.kinds = [l for l in locs if l not in special], phs, pres, kinds
    r.st, r.cond = s, cond
    r.exits = [('break', x) for x in ctx['breaks']] + [('ret', x) for x in rets] + [('throw', x) for x in hs]
    r.news = {}
    for l in r.locs:
        if l not in phs or s.dead:
            continue
        v = en.load(locref(l), s)
        if kinds[l][0] == 'lit':
            rr = kinds[l][1]
            v = liftx(lambda x: x.a[1] if x.op == 'lit' and x.a[0] is rr else raw('top', 'iterator', 'i'), [v])
        r.news[l] = v
    r.special_new = {l: (en.load(locref(l), s) if not s.dead else None) for l in special}
    for l in canon_locs(w, st):
        en.writes[-1].add(l)
    return r


def body_runner(en, body, inc=None, cond=None):
    def f(s, ctx):
        c = TRUE
        if cond is not None:
            c = asbool(en.ev(cond, s))
            if s.dead:
                return FALSE
            s.assume(c)
            if s.dead:
                return c
        pre = s.copy()
        en.stmt(body, s)
        if ctx['continues']:
            outs = list(ctx['continues'])
            ctx['continues'] = []
            if not s.dead:
                outs.append(Exit('n', None, s.pc, s.copy(), UNIT, ''))
            en.join_exits(s, pre, outs)
        if inc is not None and not s.dead:
            en.x(inc, s)
        return c
    return f


# ------------------------------------------------------------------ entry points
def run(en, s, st):
    k = s['k']
    if k == 'rfor':
        return rfor(en, s, st)
    if k == 'do':
        return dowhile(en, s, st)
    if k == 'for':
        if s.get('i'):
            en.stmt(s['i'], st)
        if st.dead:
            return
        return general(en, s.get('c'), s['b'], s.get('n'), st, s)
    return general(en, s['c'], s['b'], None, st, s)


def dowhile(en, s, st):
    pre = st.copy()
    ctx = {'breaks': [], 'continues': []}
    en.loops.append(ctx)
    en.stmt(s['b'], st)
    en.loops.pop()
    if ctx['continues']:
        outs = list(ctx['continues'])
        if not st.dead:
            outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        en.join_exits(st, pre, outs)
    if not st.dead:
        general(en, s['c'], s['b'], None, st, s)
    if ctx['breaks']:
        outs = list(ctx['breaks'])
        if not st.dead:
            outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        en.join_exits(st, pre, outs)


def rfor(en, s, st):
    c = en.lv(s['r'], st)
    if st.dead:
        return
    if c.op == 'ite':
        def side(r):
            return lambda t: rfor_on(en, s, r, t)
        en.branch(atom(c.a[0]), st, lambda t: rfor_lift(en, s, c.a[1], t), lambda t: rfor_lift(en, s, c.a[2], t))
        return
    rfor_on(en, s, c, st)


def rfor_lift(en, s, c, st):
    if c.op == 'ite':
        en.branch(atom(c.a[0]), st, lambda t: rfor_lift(en, s, c.a[1], t), lambda t: rfor_lift(en, s, c.a[2], t))
    else:
        rfor_on(en, s, c, st)


def small_list(l):
    """elements of an explicitly built list"""
    n = 0
    while l.op == 'lpush':
        l = l.a[0]
        n += 1
    return n if l.op == 'empty' else None


def small_map(m):
    """keys of an explicitly built map or set"""
    ks = []
    while m.op == 'mset':
        if m.a[1] in ks:
            return None
        ks.append(m.a[1])
        m = m.a[0]
    if m.op != 'empty' or any(not is_const(k) for k in ks):
        return None
    return ks[::-1]


def rfor_on(en, s, c, st):
    v = en.load(c, st)
    if istop(v) or c.op != 'ref':
        raise Giveup('loop over unknown range')
    t = strip_ref(s.get('rt') or typ(v))
    if not (is_map(t) or is_set(t) or is_list(t)):
        t = typ(v)
    n = small_list(v)
    if n is not None and (is_list(t) or t.startswith('a<')):
        return unroll(en, s, c, n, st)
    if en.concrete and (is_map(t) or is_set(t)):
        if v.op == 'ite':
            en.branch(atom(v.a[0]), st, lambda q: rfor_on(en, s, c, q), lambda q: rfor_on(en, s, c, q))
            return
        ks = small_map(v)
        if ks is not None:
            return unroll(en, s, c, len(ks), st, [('e', k) for k in ks])
    if size(v) is ZERO:
        return
    if is_map(t) or is_set(t):
        kt = (targs(t) or ['?'])[0]
        b = fresh(kt)
        D = raw('dom', v) if v.op == 'ite' else dom(v)
        er = en.ext(c, ('e', b))
        fact = lambda q: [gen_guard(D, b), inm(en.load(c, q), b)]
    elif is_list(t) or t.startswith('a<'):
        b = fresh('i')
        D = raw('idx', v)
        er = en.ext(c, ('i', b))
        fact = lambda q: [gen_guard(D, b), lt(b, size(en.load(c, q)))]
    else:
        raise Giveup('range-for over ' + t)

    def runner(q, ctx):
        bind_elem(en, s['v'], er, q)
        return body_runner(en, s['b'])(q, ctx)

    domain_loop(en, ((D, b),), runner, fact, st, s)


def bind_elem(en, v, er, q):
    root = en.varroot(v)
    if v['t'].startswith('r<') or v['t'].startswith('rr<'):
        q.m[root] = er
    else:
        q.m[root] = en.load(er, q)
        en.writes[-1].add((root, None))
    en.vartypes[root] = v['t']
    for bd in v.get('bind', []):
        r = en.varroot(bd)
        q.m[r] = en.ext(er, ('f', 'first' if bd['i'] == 0 else 'second', bd['t']))


def unroll(en, s, c, n, st, steps=None):
    pre = st.copy()
    breaks = []
    for i in range(n):
        if st.dead:
            break
        ctx = {'breaks': [], 'continues': []}
        en.loops.append(ctx)
        p2 = st.copy()
        bind_elem(en, s['v'], en.ext(c, steps[i] if steps else ('i', num(i))), st)
        en.stmt(s['b'], st)
        en.loops.pop()
        if ctx['continues']:
            outs = list(ctx['continues'])
            if not st.dead:
                outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
            en.join_exits(st, p2, outs)
        breaks += ctx['breaks']
    if breaks:
        outs = breaks
        if not st.dead:
            outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        en.join_exits(st, pre, outs)


def foreach(en, gens, cond, fn, st, e):
    """std::for_each: fn(state) runs the body for the bound element"""
    def runner(q, ctx):
        if cond is not TRUE:
            en.branch(cond, q, lambda t: fn(t), lambda t: None)
        else:
            fn(q)
        return TRUE
    domain_loop(en, gens, runner, lambda q: [gen_guard(D, b) for D, b in gens], st, e)


def scalar_fold(en, gens, cond, ph, init, newval):
    p = newph(typ(ph))
    nv = ITE(cond, subst(newval, {ph: p}), p)
    f = summarise_value(gens, p, init, nv, typ(ph))
    return f


def domain_loop(en, gens, runner, fact, st, s):
    bs = tuple(b for _, b in gens)
    en.loopvars.append(bs)

    def setup(q):
        for f in fact(q):
            if not istop(f):
                q.assume(f)
        q.pc = TRUE
    try:
        r = exec_body(en, st, runner, setup)
    finally:
        en.loopvars.pop()
    finish(en, gens, r, st)


MAXUNROLL = 8


def general(en, c, body, inc, st, s):
    """for / while loops"""
    # map iterators: the loop variable ranges over the keys
    special, gens, fact = {}, None, None
    it = find_map_iter(en, c, st)
    if it is not None:
        loc, r = it
        m = en.load(r, st)
        if istop(m):
            raise Giveup('loop over unknown map')
        if en.concrete and (ks := small_map(m)) is not None:
            pre, breaks = st.copy(), []
            for k in ks:
                if st.dead:
                    break
                en.raw_store(locref(loc), raw('mit', r, k), st)
                ctx = {'breaks': [], 'continues': []}
                en.loops.append(ctx)
                p2 = st.copy()
                en.stmt(body, st)
                en.loops.pop()
                if ctx['continues']:
                    outs = list(ctx['continues'])
                    if not st.dead:
                        outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
                    en.join_exits(st, p2, outs)
                breaks += ctx['breaks']
            if not st.dead:
                en.raw_store(locref(loc), raw('mend', r), st)
            if breaks:
                if not st.dead:
                    breaks.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
                en.join_exits(st, pre, breaks)
            return
        b = fresh((targs(typ(m)) or ['?'])[0])
        D = raw('dom', m) if m.op == 'ite' else dom(m)
        special[loc] = raw('mit', r, b)
        gens = ((D, b),)
        fact = lambda q: [gen_guard(D, b), inm(en.load(r, q), b)]
        # make sure the location is considered modified from the start

        def setup(q):
            en.raw_store(locref(loc), special[loc], q)
            for f in fact(q):
                if not istop(f):
                    q.assume(f)
            q.pc = TRUE
        en.loopvars.append((b,))
        try:
            rr = exec_body(en, st, body_runner(en, body, inc, c), setup, special)
        finally:
            en.loopvars.pop()
        new = rr.special_new.get(loc)
        if not (rr.st.dead or (new is not None and new.op == 'mnext' and new.a[0] is special[loc])):
            raise Giveup('map iterator loop')
        if rr.cond is not TRUE:
            # extra loop condition: leaving the loop early
            x = rr.st
            raise Giveup('map iterator loop with extra condition')
        finish(en, gens, rr, st, after={loc: raw('mend', r)})
        return
    # constant-trip loops are unrolled
    if try_unroll(en, c, body, inc, st):
        return
    en.loopvars.append(None)
    try:
        r = exec_body(en, st, body_runner(en, body, inc, c) if c is not None else body_runner(en, body, inc), lambda q: None)
    finally:
        en.loopvars.pop()
    d = counter_domain(en, r, st)
    if d is None:
        finish_while(en, r, st)
        return
    loc, D, b, value, final, rest = d
    # redo with the counter bound to the element so that facts about it are available in the body

    def setup(q):
        if r.kinds[loc][0] == 'lit':
            en.raw_store(locref(loc), raw('lit', r.kinds[loc][1], value), q)
        else:
            en.raw_store(locref(loc), value, q)
        g = gen_guard(D, b)
        if not istop(g):
            q.assume(g)
        q.pc = TRUE
    k = r.kinds[loc]
    spec = {loc: raw('lit', k[1], value) if k[0] == 'lit' else value}
    en.loopvars.append((b,))
    try:
        r2 = exec_body(en, st, headed(en, body_runner(en, body, inc), c), setup, spec)
    finally:
        en.loopvars.pop()
    fin = raw('lit', k[1], final) if k[0] == 'lit' else final
    finish(en, ((D, b),), r2, st, after={loc: fin}, atexit={loc: spec[loc]})


def headed(en, runner, c):
    """body preceded by the loop condition, whose failure (beyond the counter bound) leaves the loop"""
    def f(s, ctx):
        if c is not None:
            v = asbool(en.ev(c, s))
            if s.dead:
                return FALSE
            v = s.facts.prune(s.facts.restrict(v))
            if v is not TRUE:
                s2 = s.copy()
                s2.assume(NOT(v))
                if not s2.dead:
                    ctx['breaks'].append(Exit('break', None, s2.pc, s2, UNIT, ''))
                s.assume(v)
                if s.dead:
                    return TRUE
        runner(s, ctx)
        return TRUE
    return f


def find_map_iter(en, c, st):
    """location of a map iterator positioned at begin() that the loop condition mentions"""
    if c is None:
        return None
    for n in eg.walk(c):
        if n.get('k') == 'var':
            for fr in reversed(en.frames):
                root = ('v', fr.n, n['id'])
                if root in st.m:
                    v = st.m[root]
                    if v.op == 'mbeg':
                        return (root, None), v.a[0]
                    break
                if not fr.lam:
                    break
    return None


def try_unroll(en, c, body, inc, st):
    """counting loops with few, statically known iterations"""
    if c is None:
        return False
    # dry run: does the condition stay decided?
    probe = st.copy()
    sv = (en.handlers, en.writes, en.loops, dict(en.tops), list(en.reads_uninit), en.frames[-1].returns)
    en.handlers, en.writes, en.loops = [[]], [set()], []
    en.frames[-1].returns = []
    try:
        raw_ = asbool(en.ev(c, probe))
        v = probe.facts.restrict(raw_)
    finally:
        en.handlers, en.writes, en.loops, t, u, rt = sv
        en.tops, en.reads_uninit = t, u
        en.frames[-1].returns = rt
    if v is FALSE:
        en.ev(c, st)
        return True
    if v is not TRUE or raw_ is not TRUE:
        return False
    save = st.copy()
    sv = (en.handlers, en.writes, en.loops, dict(en.tops), list(en.reads_uninit), en.frames[-1].returns)
    en.handlers, en.writes = en.handlers[:-1] + [list(en.handlers[-1])], en.writes[:-1] + [set(en.writes[-1])]
    en.frames[-1].returns = list(en.frames[-1].returns)
    pre = st.copy()
    breaks = []
    ok = False
    steps = 0
    while True:
        v = st.facts.restrict(asbool(en.ev(c, st)))
        if st.dead or v is FALSE:
            ok = True
            break
        if v is not TRUE or steps >= MAXUNROLL:
            break
        steps += 1
        ctx = {'breaks': [], 'continues': []}
        en.loops = en.loops + [ctx]
        p2 = st.copy()
        en.stmt(body, st)
        en.loops = en.loops[:-1]
        if ctx['continues']:
            outs = list(ctx['continues'])
            if not st.dead:
                outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
            en.join_exits(st, p2, outs)
        breaks += ctx['breaks']
        if inc is not None and not st.dead:
            en.x(inc, st)
        if st.dead:
            ok = True
            break
    if not ok:
        st.become(save)
        en.handlers, en.writes, en.loops, en.tops, en.reads_uninit, en.frames[-1].returns = sv
        return False
    # keep list identities held elsewhere
    h, w, l, _, _, rt = sv
    h[-1][:] = en.handlers[-1]
    w[-1].update(en.writes[-1])
    rt[:] = en.frames[-1].returns
    en.handlers, en.writes, en.loops, en.frames[-1].returns = h, w, l, rt
    if breaks:
        outs = breaks
        if not st.dead:
            outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        en.join_exits(st, pre, outs)
    return True


def counter_domain(en, r, st):
    """recognise i = lo, lo+1, ... while i < hi (or counting down)"""
    if r.st.dead or r.cond is TRUE or istop(r.cond):
        return None
    allph = frozenset(r.phs.values())
    for l, p in r.phs.items():
        n = r.news.get(l)
        if n is None or istop(n):
            continue
        step = cval(sub(n, p)) if n.op != 'ite' else None
        if step not in (1, -1):
            continue
        for v in bdd_atoms(r.cond):
            if p not in free_syms(v) or v.op not in ('lt0', 'gt0', 'eq0'):
                continue
            want = None
            if setatom(r.cond, v, False) is FALSE:
                want = True
            elif setatom(r.cond, v, True) is FALSE:
                want = False
            if want is None:
                continue
            e = solve_eq(v.a[0], p)         # v.a[0] = co*(p - e)
            if e is None or uses(e, allph):
                continue
            co = dict(items(v.a[0])).get(((p, 1),))
            if co is None or not p_isint(e):
                continue
            # direction: p - e < 0 etc.
            rel = {'lt0': '<', 'gt0': '>', 'eq0': '='}[v.op]
            if co < 0:
                rel = {'<': '>', '>': '<', '=': '='}[rel]
            if not want:
                rel = {'<': '>=', '>': '<=', '=': '!='}[rel]
            lo = r.pres[l]
            if not p_isint(lo) or istop(lo) or istop(e):
                continue
            if step == 1:
                if rel == '<':
                    hi = e
                elif rel == '<=':
                    hi = add(e, ONE)
                elif rel == '!=':
                    hi = e
                    if st.facts.prune(lt(e, lo)) is not FALSE:
                        continue
                else:
                    continue
                D = raw('range', lo, hi)
                if r.kinds[l][0] == 'lit' and lo is ZERO:
                    lst = en.load(r.kinds[l][1], st)
                    if not istop(lst) and size(lst) is hi:
                        D = raw('idx', lst)
                b = fresh('i')
                final = ITE(lt(lo, hi), hi, lo)
                if D.op == 'idx' or st.facts.prune(lt(hi, lo)) is FALSE:
                    final = hi
                return l, D, b, b, final, None
            else:
                if rel == '>':
                    n_ = sub(lo, e)
                elif rel == '>=':
                    n_ = add(sub(lo, e), ONE)
                else:
                    continue
                b = fresh('i')
                D = raw('range', ZERO, n_)
                return l, D, b, sub(lo, b), ITE(lt(ZERO, n_), sub(lo, n_), lo), None
    return None


# ------------------------------------------------------------------ summaries
def slice_of(i, news, phs, exits):
    """placeholder indices the value of placeholder i depends on (with the exit conditions)"""
    idx = {p: k for k, p in enumerate(phs)}
    need = []
    todo = [i] if i is not None else []
    for c in exits:
        todo += sorted(idx[p] for p in free_syms(c) if p in idx)
    while todo:
        k = todo.pop(0)
        if k in need:
            continue
        need.append(k)
        todo += sorted(idx[p] for p in free_syms(news[k]) if p in idx)
    return need


def mk_fold(gens, phs, pres, news, exits):
    return close('fold', (tuple(gens), tuple(phs), tuple(pres), tuple(news), tuple(exits)), [b for _, b in gens] + list(phs))


def mk_while(phs, pres, cond, news, exits):
    return close('while', (tuple(phs), tuple(pres), cond, tuple(news), tuple(exits)), list(phs))


def sel(f, tag, ty):
    return raw('sel', f, tag, ty)


def summarise_value(gens, p, pre, new, ty, allph=None, facts=None):
    """closed form of the final value of placeholder p, or an exact fold"""
    v = closed(gens, p, pre, new, ty, allph or frozenset((p,)))
    if v is None:
        v = sel(mk_fold(gens, (p,), (pre,), (new,), ()), ('n', 0), ty)
    return v


def closed(gens, p, pre, new, ty, allph):
    if new is p:
        return pre
    if istop(new):
        return new
    others = allph - {p}
    if uses(new, others):
        return None
    bs = frozenset(b for _, b in gens)
    if p not in free_syms(new):
        if uses(new, bs):
            return None
        return ITE(exists(gens, TRUE), new, pre)
    if ty == 'b':
        hi, lo = asbool(subst(new, {p: TRUE})), asbool(subst(new, {p: FALSE}))
        if istop(hi) or istop(lo):
            return hi if istop(hi) else lo
        if hi is TRUE:
            return OR(asbool(pre), exists(gens, lo))
        if lo is FALSE:
            return AND(asbool(pre), NOT(exists(gens, NOT(hi))))
        return None
    if is_num(ty):
        d = sub(new, p)
        if not uses(d, frozenset((p,))):
            return add(pre, sum_(gens, TRUE, d))
        e = extremum(gens, p, pre, new, ty)
        return e
    if is_list(ty):
        return closed_list(gens, p, pre, new, ty)
    if is_map(ty) or is_set(ty):
        return closed_map(gens, p, pre, new, ty)
    return None


def extremum(gens, p, pre, new, ty):
    """new = c ? e : p  with c a comparison between e and p"""
    vals = {}
    for path, leaf in leaves(new):
        vals.setdefault(leaf, []).append(path)
    if len(vals) != 2 or p not in vals:
        return extremum_cond(gens, p, pre, new, ty)
    e = next(x for x in vals if x is not p)
    if p in free_syms(e):
        return None
    c = OR(*[lits(q) for q in vals[e]])
    # c must be G(β) and (p < e)
    for kind, a in (('max', lt(p, e)), ('min', lt(e, p)), ('max', le(p, e)), ('min', le(e, p))):
        rest = None
        if a.op != 'ite':
            continue
        v = a.a[0]
        want = a.a[1] is TRUE
        if setatom(c, v, not want) is FALSE:
            rest = setatom(c, v, want)
            if p not in free_syms(rest):
                return extr(kind, gens, rest, e, pre, ty)
    return None


def extremum_cond(gens, p, pre, new, ty):
    return None


def closed_list(gens, p, pre, new, ty):
    sp = frozenset((p,))
    pushes = {}
    keep = FALSE
    upd = None
    for path, leaf in leaves(new):
        c = lits(path)
        if uses(c, sp):
            return closed_listupd(gens, p, pre, new, ty)
        if leaf is p:
            keep = OR(keep, c)
        elif leaf.op == 'lpush' and leaf.a[0] is p and not uses(leaf.a[1], sp):
            pushes[leaf.a[1]] = OR(pushes.get(leaf.a[1], FALSE), c)
        elif leaf.op == 'lcomp' and leaf.a[0] is p and len(list(leaves(new))) <= 2:
            args, fr = open_(leaf)
            base, g2, c2, v2 = args
            if uses(c2, sp) or uses(v2, sp) or any(uses(d, sp) for d, _ in g2):
                return None
            rest = [l for _, l in leaves(new) if l is not leaf]
            if rest and rest != [p]:
                return None
            return lcomp(pre, tuple(gens) + tuple(g2), AND(c, c2), v2)
        else:
            return closed_listupd(gens, p, pre, new, ty)
    if not pushes:
        return pre
    its = list(pushes.items())
    val = its[0][0]
    cond = its[0][1]
    for v, c in its[1:]:
        val = ITE(c, v, val)
        cond = OR(cond, c)
    return lcomp(pre, gens, cond, val)


def closed_listupd(gens, p, pre, new, ty):
    """p[β] = value for the loop index β"""
    if len(gens) != 1:
        return None
    b = gens[0][1]
    cond, val = FALSE, None
    for path, leaf in leaves(new):
        c = lits(path)
        if leaf is p:
            continue
        if leaf.op == 'lset' and leaf.a[0] is p and leaf.a[1] is b:
            v = leaf.a[2]
            val = v if val is None else ITE(c, v, val)
            cond = OR(cond, c)
        else:
            return None
    if val is None:
        return pre
    a = raw('at', p, b)
    m = {a: at(pre, b), raw('size', p): size(pre)}
    cond, val = subst(cond, m), subst(val, m)
    if p in free_syms(cond) or p in free_syms(val):
        return None
    if istop(pre):
        return pre
    return liftx(lambda q: close('lupd', (q, tuple(gens), cond, b, val), [b]), [pre])


def closed_map(gens, p, pre, new, ty):
    sp = frozenset((p,))
    key = None
    for path, leaf in leaves(new):
        if leaf is p:
            continue
        if leaf.op in ('mset', 'mtouch') and leaf.a[0] is p:
            k = leaf.a[1]
            if uses(k, sp) or (key is not None and key is not k):
                return None
            key = k
        elif leaf.op == 'mcomp' and leaf.a[0] is p:
            return closed_mapinner(gens, p, pre, new, leaf)
        else:
            return None
    if key is None:
        return pre
    selfkey = len(gens) == 1 and gens[0][1] is key and gens[0][0].op in ('dom', 'range', 'idx')
    inp = raw('in', p, key)
    gp = raw('get', p, key)
    if selfkey:
        m = {inp: inm(pre, key), gp: get(pre, key)}
        cond, val = FALSE, None
        for path, leaf in leaves(new):
            if leaf is p:
                continue
            c = lits(path)
            v = leaf.a[2]
            if leaf.op == 'mtouch':
                # only inserted when absent
                c = AND(c, NOT(atom(inp)))
            val = v if val is None else ITE(c, v, val)
            cond = OR(cond, c)
        cond, val = substb(cond, m), substb(val, m)
        if uses(cond, sp) or uses(val, sp):
            return None
        return mcomp(pre, 'set', gens, cond, key, val)
    if not uses(key, frozenset(b for _, b in gens)) and not is_set(ty):
        v = closed_fixedkey(gens, p, pre, new, key, ty)
        if v is not None:
            return v
    # additive
    hi, lo = setatom_deep(new, inp, True), setatom_deep(new, inp, False)
    dh = delta_map(hi, p, key, gp)
    dl = delta_map(lo, p, key, None)
    if dh is not None and dl is not None and dh[0] is dl[0] and dh[1] is dl[1] and not uses(dh[0], sp) and not uses(dh[1], sp):
        return mcomp(pre, 'add', gens, dh[0], key, dh[1])
    # plain overwrite
    cond, val = FALSE, None
    for path, leaf in leaves(new):
        if leaf is p:
            continue
        if leaf.op == 'mtouch':
            return None
        c = lits(path)
        v = leaf.a[2]
        val = v if val is None else ITE(c, v, val)
        cond = OR(cond, c)
    if val is None or uses(cond, sp) or uses(val, sp):
        return None
    return mcomp(pre, 'set', gens, cond, key, val)


def selfkeyed(gens, p, new):
    """every update of p in the body is at the (distinct) loop key"""
    if len(gens) != 1 or gens[0][0].op not in ('dom', 'range', 'idx'):
        return False
    b = gens[0][1]
    for _, leaf in leaves(new):
        if leaf is p:
            continue
        if leaf.op in ('mset', 'mtouch', 'lset') and leaf.a[0] is p and leaf.a[1] is b:
            continue
        return False
    return True


def decouple(gens, phs, pres, news, conds):
    """reads of the loop's own key see the value from before the loop, so they need no placeholder"""
    m = {}
    for p, pre, n in zip(phs, pres, news):
        if n is p:
            m[p] = pre
            continue
        ty = typ(p)
        if (is_map(ty) or is_set(ty) or is_list(ty)) and selfkeyed(gens, p, n):
            b = gens[0][1]
            if is_list(ty):
                m[raw('at', p, b)] = at(pre, b)
                m[raw('size', p)] = size(pre)
            else:
                m[raw('in', p, b)] = inm(pre, b)
                if is_map(ty):
                    m[raw('get', p, b)] = get(pre, b)
    if not m:
        return list(news), list(conds)

    def sb(n):
        if n.op == 'ite':
            return ITE(asbool(sb1(n.a[0])), sb(n.a[1]), sb(n.a[2]))
        if n.op in ('mset', 'mtouch', 'lset') and n.a[0] in phset and n.a[1] is gens[0][1]:
            if n.op == 'mtouch':
                i = m.get(raw('in', n.a[0], n.a[1]))
                if i is not None:
                    return ITE(i, n.a[0], raw('mset', n.a[0], n.a[1], sb1(n.a[2])))
            return raw(n.op, n.a[0], n.a[1], sb1(n.a[2]))
        return sb1(n)

    def sb1(n):
        if n in phset:
            return n
        return subst(n, m)
    phset = set(phs)
    out = []
    for p, n in zip(phs, news):
        out.append(n if n is p else sb(n))
    return out, [subst(c, m) for c in conds]


def substb(t, m):
    return subst(t, m)


def closed_fixedkey(gens, p, pre, new, key, ty):
    """all updates at one key that does not change in the loop: summarise the element"""
    sp = frozenset((p,))
    ta = targs(ty)
    if len(ta) < 2:
        return None
    vt = ta[1]
    inp, gp = raw('in', p, key), raw('get', p, key)
    q = newph(vt)
    hi, lo = setatom_deep(new, inp, True), setatom_deep(new, inp, False)

    def parts(t):
        cond, val = FALSE, None
        for path, leaf in leaves(t):
            if leaf is p:
                continue
            c = lits(path)
            if leaf.op == 'mtouch':
                return None
            val = leaf.a[2] if val is None else ITE(c, leaf.a[2], val)
            cond = OR(cond, c)
        return cond, val
    ph, pl = parts(hi), parts(lo)
    if ph is None or pl is None or ph[1] is None or pl[1] is None:
        return None
    m = {gp: q}
    ch, vh = subst(ph[0], m), subst(ph[1], m)
    cl, vl = pl
    if any(uses(x, sp) for x in (ch, vh, cl, vl)):
        return None
    d = default_value(vt)
    if subst(ch, {q: d}) is not cl or ITE(cl, subst(vh, {q: d}), d) is not ITE(cl, vl, d):
        return None
    nq = ITE(ch, vh, q)
    v = closed(gens, q, ITE(inm(pre, key), get(pre, key), d), nq, vt, frozenset((q,)))
    if v is None:
        return None
    if uses(ch, frozenset((q,))):
        return None
    return ITE(exists(gens, ch), mset(pre, key, v), pre)


def setatom_deep(t, v, b):
    t = setatom(t, v, b)

    def g(x):
        if x.op in ('mset', 'mtouch'):
            return raw(x.op, x.a[0], x.a[1], setatom(x.a[2], v, b))
        return x
    return liftx(g, [t])


def delta_map(t, p, key, gp):
    """(cond, amount) added at key in this branch; gp None when the key is absent"""
    cond, amt = FALSE, None
    for path, leaf in leaves(t):
        if leaf is p:
            continue
        c = lits(path)
        if leaf.op == 'mtouch':
            if gp is None:
                v = leaf.a[2]
            else:
                continue
        else:
            v = leaf.a[2]
        if not (v.op in ('P', 'sum', 'ite') or is_num(typ(v))):
            return None
        d = sub(v, gp) if gp is not None else v
        amt = d if amt is None else ITE(c, d, amt)
        cond = OR(cond, c)
    if amt is None:
        return None
    return cond, amt


def closed_mapinner(gens, p, pre, new, leaf):
    sp = frozenset((p,))
    args, fr = open_(leaf)
    base, mode, g2, c2, k2, v2 = args
    rest = [(path, l) for path, l in leaves(new) if l is not leaf]
    if any(l is not p for _, l in rest):
        return None
    c = OR(*[lits(path) for path, l in leaves(new) if l is leaf])
    if any(uses(x, sp) for x in (c, c2, k2, v2)) or any(uses(d, sp) for d, _ in g2):
        return None
    return mcomp(pre, mode, tuple(gens) + tuple(g2), AND(c, c2), k2, v2)


def finish(en, gens, r, st, after=None, atexit=None):
    """state after a loop over a generator"""
    after = after or {}
    if len(r.exits) == 0 and not r.st.dead:
        apply_normal(en, gens, r, st, after)
        return
    exits = []
    for kind, x in r.exits:
        c = r_restrict(x.pc)
        if c is not FALSE:
            exits.append((kind, x, c))
    phl = [l for l in r.locs if l in r.phs]
    phs = tuple(r.phs[l] for l in phl)
    allph = frozenset(phs)
    pres = tuple(r.pres[l] for l in phl)
    dead = r.st.dead
    news = tuple((r.news[l] if not dead else r.phs[l]) for l in phl)
    conds = [c for _, _, c in exits]
    if any(istop(c) for c in conds):
        raise Giveup('unknown exit condition in loop')
    news, conds = decouple(gens, phs, pres, news, conds)
    keep = [i for i, c in enumerate(conds) if c is not FALSE]
    exits = [exits[i] for i in keep]
    conds = [conds[i] for i in keep]
    tops = {l for l in r.locs if l not in r.phs}
    pre = st.copy()
    outs = []
    if not any(uses(c, allph) for c in conds):
        anyc = OR(*conds)
        happened = pre.facts.restrict(exists(gens, anyc))
        bsel = {}
        for i, (D, b) in enumerate(gens):
            bsel[b] = first(gens, anyc, b, typ(b))
        plain = True
        psel = {}
        changed = any(n is not p for n, p in zip(news, phs))
        if changed:
            for i, p in enumerate(phs):
                if news[i] is p:
                    psel[p] = pres[i]
                else:
                    need = slice_of(i, news, phs, [])
                    f = mk_fold(gens, [phs[k] for k in need], [pres[k] for k in need], [news[k] for k in need], [anyc])
                    psel[p] = sel(f, ('p', 0), typ(p))
        else:
            psel = {p: pres[i] for i, p in enumerate(phs)}
        xc = [AND(happened, subst(c, bsel)) if len(conds) > 1 else happened for c in conds]
    else:
        need = slice_of(None, news, phs, conds)
        f = mk_fold(gens, [phs[k] for k in need], [pres[k] for k in need], [news[k] for k in need], conds)
        xc = [atom(sel(f, ('x', j), 'b')) for j in range(len(conds))]
        happened = OR(*xc)
        bsel = {b: sel(f, ('b', i), typ(b)) for i, (D, b) in enumerate(gens)}
        psel = {}
        for i, p in enumerate(phs):
            if news[i] is p:
                psel[p] = pres[i]
                continue
            nd = slice_of(i, news, phs, conds)
            nd = [k for k in need] + [k for k in nd if k not in need]
            fi = mk_fold(gens, [phs[k] for k in nd], [pres[k] for k in nd], [news[k] for k in nd], conds)
            psel[p] = sel(fi, ('p', nd.index(i)), typ(p))
    m = dict(bsel)
    m.update(psel)
    for (kind, x, c), cc in zip(exits, xc):
        q = pre.copy()
        q.assume(cc)
        if q.dead:
            continue
        fill_exit(en, q, pre, x, m, tops)
        val = subst(x.val, m) if isinstance(x.val, T) else x.val
        outs.append((kind, Exit(x.kind, x.ty, q.pc, q, val, x.where)))
    # normal completion
    st.assume(NOT(happened))
    breaks = []
    for kind, x in outs:
        if kind == 'break':
            breaks.append(x)
        elif kind == 'ret':
            en.frames[-1].returns.append(x)
        else:
            en.handlers[-1].append(x)
    if not st.dead:
        if dead:
            # every iteration leaves: completion means no iterations
            for l, v in after.items():
                pass
            for D, b in gens:
                pass
            set_after(en, st, after, pre)
        else:
            if not any(uses(c, allph) for c in conds):
                apply_normal(en, gens, r, st, after)
            else:
                apply_fold(en, gens, r, st, after, phl, phs, pres, news, conds)
    if breaks:
        o = list(breaks)
        if not st.dead:
            o.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        en.join_exits(st, pre, o)


def r_restrict(c):
    return c


def set_after(en, st, after, pre):
    for l, v in after.items():
        if l[0] in st.m:
            en.raw_store(locref(l), v, st)


def fill_exit(en, q, pre, x, m, tops):
    """memory of an exit taken in some iteration: placeholders replaced by their values then"""
    for root, v in x.st.m.items():
        if not outer(root, pre):
            if root[0] == 't':
                q.m[root] = subst(v, m) if isinstance(v, T) else v
            continue
        if pre.m.get(root) is v:
            continue
        q.m[root] = subst(v, m)


def apply_normal(en, gens, r, st, after):
    phl = [l for l in r.locs if l in r.phs]
    phs = tuple(r.phs[l] for l in phl)
    pres = tuple(r.pres[l] for l in phl)
    news = tuple(r.news[l] for l in phl)
    allph = frozenset(phs)
    # placeholders that are unchanged can be replaced at once
    m = {p: pres[i] for i, p in enumerate(phs) if news[i] is p}
    news, _ = decouple(gens, phs, pres, news, [])
    m.update({p: pres[i] for i, p in enumerate(phs) if news[i] is p})
    live = allph - set(m)
    vals = {}
    for i, l in enumerate(phl):
        if news[i] is phs[i]:
            continue
        if phs[i] in m:
            continue
        ty = typ(phs[i])
        v = closed(gens, phs[i], pres[i], news[i], ty, live)
        if v is None:
            need = slice_of(i, news, phs, [])
            f = mk_fold(gens, [phs[k] for k in need], [pres[k] for k in need], [news[k] for k in need], [])
            v = sel(f, ('n', 0), ty)
        vals[l] = v
    store_results(en, r, st, vals)
    set_after(en, st, after, st)


def store_results(en, r, st, vals):
    for l, v in vals.items():
        if r.kinds[l][0] == 'lit':
            v = raw('lit', r.kinds[l][1], v)
        en.raw_store(locref(l), v, st)
    for l in r.locs:
        if l not in r.phs:
            en.raw_store(locref(l), raw('top', 'loop-carried reference', typ(en.load(locref(l), st))), st)


def apply_fold(en, gens, r, st, after, phl, phs, pres, news, conds):
    vals = {}
    for i, l in enumerate(phl):
        if news[i] is phs[i]:
            continue
        nd0 = slice_of(None, news, phs, conds)
        nd = nd0 + [k for k in slice_of(i, news, phs, []) if k not in nd0]
        f = mk_fold(gens, [phs[k] for k in nd], [pres[k] for k in nd], [news[k] for k in nd], conds)
        vals[l] = sel(f, ('n', nd.index(i)), typ(phs[i]))
    store_results(en, r, st, vals)
    set_after(en, st, after, st)


def finish_while(en, r, st):
    phl = [l for l in r.locs if l in r.phs]
    phs = tuple(r.phs[l] for l in phl)
    pres = tuple(r.pres[l] for l in phl)
    dead = r.st.dead
    news = tuple((r.news[l] if not dead else r.phs[l]) for l in phl)
    exits = [(k, x, x.pc) for k, x in r.exits if x.pc is not FALSE]
    conds = [c for _, _, c in exits]
    cond = r.cond
    if istop(cond) or any(istop(c) for c in conds):
        raise Giveup('unknown loop condition')
    pre = st.copy()

    def need_for(i):
        nd = slice_of(None, news, phs, [cond] + conds)
        if i is not None:
            nd = nd + [k for k in slice_of(i, news, phs, []) if k not in nd]
        return nd

    def mk(nd):
        return mk_while([phs[k] for k in nd], [pres[k] for k in nd], cond, [news[k] for k in nd], conds)
    outs = []
    happened = FALSE
    if conds:
        f = mk(need_for(None))
        xc = [atom(sel(f, ('x', j), 'b')) for j in range(len(conds))]
        happened = OR(*xc)
        m = {}
        for i, p in enumerate(phs):
            if news[i] is p:
                m[p] = pres[i]
            else:
                nd = need_for(i)
                m[p] = sel(mk(nd), ('p', nd.index(i)), typ(p))
        for (kind, x, c), cc in zip(exits, xc):
            q = pre.copy()
            q.assume(cc)
            if q.dead:
                continue
            fill_exit(en, q, pre, x, m, set())
            outs.append((kind, Exit(x.kind, x.ty, q.pc, q, subst(x.val, m), x.where)))
    st.assume(NOT(happened))
    breaks = []
    for kind, x in outs:
        if kind == 'break':
            breaks.append(x)
        elif kind == 'ret':
            en.frames[-1].returns.append(x)
        else:
            en.handlers[-1].append(x)
    if cond is TRUE and not st.dead:
        # leaves only through an exit
        st.kill()
    if not st.dead:
        vals = {}
        for i, l in enumerate(phl):
            if news[i] is phs[i]:
                continue
            nd = need_for(i)
            vals[l] = sel(mk(nd), ('n', nd.index(i)), typ(phs[i]))
        store_results(en, r, st, vals)
    if breaks:
        o = list(breaks)
        if not st.dead:
            o.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        en.join_exits(st, pre, o)
