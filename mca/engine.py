"""Abstract interpreter over the exported, type-resolved syntax trees.

States are joined at control-flow merges (values become decision diagrams over branch conditions); every repository
function is inlined at its resolved call sites; loops are executed once over a bound element with placeholders for the
locations they modify and then summarised (loops.py).  The result is, per entry function, the list of exits with their
conditions, result values and final memory, as terms over the entry state."""
from .terms import *
from .containers import *
from . import terms as tm

MAXDEPTH = 40


class Giveup(Exception):
    pass


class St:
    __slots__ = ('m', 'pc', 'facts')

    def __init__(self, m=None, pc=TRUE, facts=None):
        self.m = m if m is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else Facts()

    def copy(self):
        return St(dict(self.m), self.pc, self.facts)

    def become(self, o):
        self.m, self.pc, self.facts = o.m, o.pc, o.facts

    @property
    def dead(self):
        return self.pc is FALSE

    def kill(self):
        self.pc = FALSE

    def assume(self, c):
        c = self.facts.restrict(c)
        if c is TRUE:
            return
        if istop(c):
            return
        if c is FALSE:
            self.pc = FALSE
            return
        f = self.facts.assume(c)
        if f is None:
            self.pc = FALSE
            return
        self.pc = AND(self.pc, c)
        self.facts = f


class Exit:
    __slots__ = ('kind', 'ty', 'pc', 'st', 'val', 'where')

    def __init__(self, kind, ty, pc, st, val, where):
        self.kind, self.ty, self.pc, self.st, self.val, self.where = kind, ty, pc, st, val, where


class Frame:
    def __init__(self, n, fn, this):
        self.n, self.fn, self.this = n, fn, this
        self.returns = []
        self.lam = None


class Closure:
    def __init__(self, node, frame, caps):
        self.node, self.frame, self.caps = node, frame, caps


def ref(root, path=()):
    return raw('ref', root, tuple(path))


class Engine:
    def __init__(self, prog, opaque=None):
        self.p = prog
        self.frames = []
        self.handlers = [[]]
        self.loops = []          # stack of dict(breaks, continues)
        self.writes = [set()]
        self.nframe = 0
        self.ntmp = 0
        self.nobj = 0
        self.closures = {}
        self.statics = {}
        self.gcache = {}
        self.slotcache = {}
        self.stack = []
        self.opaque = opaque or (lambda f: False)
        self.visited = set()     # functions analysed
        self.calls = 0
        self.tops = {}
        self.reads_uninit = []
        self.concrete = False
        self.steps = 0
        self.overrides = {}      # function -> stand-in for what a rule leaves out
        self.library = {}        # name of a function or class whose source is elsewhere -> stand-in
        self.wide = {}           # value -> bits it is given with: conversions to fewer bits are kept in the term
        self.draws = []          # (where, dist-ref, engine-ref)
        self.curfile = None
        self.vartypes = {}
        self.loopvars = []
        tm.SLOT['fn'] = self.slotfn
        tm.SLOT['dfltfld'] = self.dfltfld

    # ------------------------------------------------------------ misc
    def top(self, why, ty='?', e=None):
        if e is not None:
            why = '%s @%s:%s' % (why, (self.stack[-1] if self.stack else '?').split('(')[0], e.get('l'))
        self.tops[why] = self.tops.get(why, 0) + 1
        return raw('top', why, ty)

    def where(self, e):
        f = self.frames[-1].fn if self.frames else None
        if f is None:
            return '?'
        return '%s:%s' % (f['file'], e.get('l', f.get('l')))

    def tmp(self, v, st):
        self.ntmp += 1
        r = ('t', self.ntmp)
        st.m[r] = v
        return ref(r)

    # ------------------------------------------------------------ classes
    def cls(self, ty):
        if ty.startswith('R:'):
            return self.p.classes.get(ty[2:])
        return None

    def bases(self, q):
        c = self.p.classes.get(q)
        out = []
        if c:
            for b in c['bases']:
                b = b[2:]
                out.append(b)
                out += self.bases(b)
        return out

    def is_subclass(self, d, b):
        return d == b or b in self.bases(d)

    def find_override(self, dyn, node_f, q):
        """most derived definition of method (same name and parameter list) starting at class dyn"""
        sig = node_f[node_f.index('('):] if '(' in node_f else ''
        name = q.split('::')[-1]
        for c in [dyn] + self.bases(dyn):
            fid = c + '::' + name + sig
            if fid in self.p.funcs:
                return fid
            k = self.p.classes.get(c)
            if k:
                for m in k['methods']:
                    if m['n'] == name and m['id'].endswith(name + sig) and m['id'] in self.p.funcs:
                        return m['id']
        return None

    def slotfn(self, b, k):
        """function pointer members of a constructed object: the value its constructor installs"""
        ty = typ(b)
        if not ty.startswith('R:') or b.op in ('obj',):
            return None
        c = ty[2:]
        d = self.slotcache.get(c)
        if d is None:
            self.slotcache[c] = d = {}
            d.update(self.ctor_slots(c))
        return d.get(k[0])

    def ctor_slots(self, c):
        written = set()
        for f in self.p.funcs.values():
            if f['kind'] == 'ctor':
                continue
            for n in walk(f.get('body')):
                if n.get('k') == 'asg' and n['a'] and n['a'].get('k') == 'mem' and n['a'].get('t') == 'F':
                    written.add(n['a']['f'])
        ctors = [f for f in self.p.funcs.values() if f['kind'] == 'ctor' and f.get('cls') == c and not f.get('copyctor') and not f['params']]
        out = {}
        if not ctors:
            return out
        e = Engine(self.p)
        tm.SLOT['fn'] = self.slotfn
        tm.SLOT['dfltfld'] = self.dfltfld
        st = St()
        v = e.construct(ctors[0]['id'], 'R:' + c, [], st, {})
        if not st.dead and v.op == 'rec':
            for (n, t), x in v.a[1]:
                if t == 'F' and x.op == 'fn' and n not in written:
                    out[n] = x
        return out

    def default_object(self, ty):
        """value of a default-constructed object of a repository class"""
        key = ('dflt', ty)
        r = self.gcache.get(key)
        if r is None:
            st = St()
            sv = self.writes, self.handlers, self.loops
            self.writes, self.handlers, self.loops = [set()], [[]], []
            try:
                r = self.construct_default(ty, st)
            finally:
                self.writes, self.handlers, self.loops = sv
            self.gcache[key] = r
        return r

    def dfltfld(self, b, k):
        ty = typ(b)
        c = self.cls(ty)
        if c is None:
            return None
        v = self.default_object(ty)
        if v.op == 'rec':
            for kk, x in v.a[1]:
                if kk[0] == k[0]:
                    return x
        return None

    def defval(self, ty):
        """default (value-initialised) value of a type, constructing repository classes"""
        if self.cls(ty):
            return raw('dflt', ty)
        if tbase(ty) == 'std::pair':
            a = targs(ty)
            return pair(self.defval(a[0]), self.defval(a[1]))
        return default_value(ty)

    def fields_of(self, q):
        c = self.p.classes.get(q)
        out = []
        if c:
            for b in c['bases']:
                out += self.fields_of(b[2:])
            for f in c['fields']:
                out.append((f['n'], f['t'], f))
        return out

    # ------------------------------------------------------------ memory
    def initial(self, root):
        if root[0] == 'heap':
            return raw('sym', 'heap:' + root[1], 'std::unordered_map<p<%s>,%s>' % (root[1], root[1]))
        if root[0] == 'g':
            return self.global_value(root[1])
        if root[0] == 'trace':
            return raw('empty', 'std::vector<?>')
        return None

    def global_value(self, q):
        v = self.gcache.get(q)
        if v is None:
            g = self.p.globals.get(q)
            if g is None:
                v = self.top('global ' + q)
            elif g['const'] and 'init' in g:
                st = St()
                v = self.ev(g['init'], st)
            else:
                v = raw('sym', 'global:' + q, g['t'])
            self.gcache[q] = v
        return v

    def rootval(self, st, root):
        v = st.m.get(root)
        if v is None:
            v = self.initial(root)
            if v is None:
                v = self.top('unknown root %s' % (root,))
        return v

    def sel(self, v, s):
        k = s[0]
        if k == 'f':
            return getf(v, s[1], s[2])
        if k == 'k':
            return get(v, s[1])
        if k == 'i':
            return at(v, s[1])
        if k == 'u':
            return unbox(v)
        if k == 'e':
            t = typ(v)
            if is_set(t):
                return s[1]
            return pair(s[1], get(v, s[1]))
        raise Giveup('selector')

    @staticmethod
    def norm_path(path):
        out = []
        for s in path:
            if out and out[-1][0] == 'e' and s[0] == 'f':
                if s[1] == 'second':
                    out[-1] = ('k', out[-1][1])
                    continue
            out.append(s)
        return tuple(out)

    def load(self, r, st):
        if r.op == 'ite':
            v, hi, lo = r.a
            d = st.facts.decide(v)
            if d is not None:
                return self.load(hi if d else lo, st)
            return ITE(atom(v), self.load(hi, st), self.load(lo, st))
        if r.op != 'ref':
            if istop(r):
                t = typ(r)
                return raw('top', r.a[0], t[2:-1] if t.startswith('p<') else '?')
            if r.op == 'mend':
                return self.top('dereference of end()')
            if r is NULL:
                return self.top('null dereference')
            return self.top('load through %s' % r.op)
        v = self.rootval(st, r.a[0])
        for s in self.norm_path(r.a[1]):
            v = self.sel(v, s)
        v = st.facts.restrict(v)
        return v

    def update(self, v, path, new, st):
        if not path:
            return new
        if v.op == 'ite' and path:
            x, hi, lo = v.a
            d = st.facts.decide(x)
            if d is not None:
                return self.update(hi if d else lo, path, new, st)
            return ITE(atom(x), self.update(hi, path, new, st), self.update(lo, path, new, st))
        s = path[0]
        if istop(v):
            return v
        if len(path) == 1:
            inner = new
        else:
            inner = self.update(st.facts.restrict(self.sel(v, s)), path[1:], new, st)
        k = s[0]
        if k == 'f':
            return setf(v, s[1], s[2], inner)
        if k == 'k':
            return mset(v, s[1], inner)
        if k == 'i':
            return lset(v, s[1], inner)
        if k == 'u':
            return box(inner, typ(v))
        raise Giveup('store through %s' % k)

    def store(self, r, val, st, cond=TRUE):
        if st.dead:
            return
        if r.op == 'ite':
            v, hi, lo = r.a
            d = st.facts.decide(v)
            if d is not None:
                self.store(hi if d else lo, val, st, cond)
            else:
                self.store(hi, val, st, AND(cond, atom(v)))
                self.store(lo, val, st, AND(cond, NOT(atom(v))))
            return
        if r.op != 'ref':
            self.top('store through %s' % r.op)
            if r.op == 'top' or True:
                # unknown target: everything reachable may have changed; give up on this path's memory
                raise Giveup('store through unknown pointer')
        root, path = r.a[0], self.norm_path(r.a[1])
        self.writes[-1].add((root, path[0] if path and path[0][0] in ('f', 'u') else None))
        old = self.rootval(st, root)
        if cond is not TRUE:
            cur = self.load(r, st)
            val = ITE(cond, val, cur)
            if val is cur:
                return
        st.m[root] = self.update(old, path, val, st)

    def raw_store(self, r, val, st):
        root, path = r.a[0], r.a[1]
        st.m[root] = self.update(self.rootval(st, root), path, val, st)

    # ------------------------------------------------------------ control
    def merge(self, st, c, s1, s2):
        """join of the branches s1 (c holds) and s2 into st"""
        if s1.dead and s2.dead:
            st.kill()
            return
        if s1.dead:
            st.become(s2)
            return
        if s2.dead:
            st.become(s1)
            return
        m = {}
        for k in set(s1.m) | set(s2.m):
            a, b = s1.m.get(k), s2.m.get(k)
            if a is b:
                m[k] = a
                continue
            if a is None:
                a = self.initial(k)
            if b is None:
                b = self.initial(k)
            if a is None or b is None:
                if k[0] in ('v', 't'):
                    m[k] = a if a is not None else b
                    continue
                a = a if a is not None else self.top('unjoined')
                b = b if b is not None else self.top('unjoined')
            m[k] = ITE(c, a, b)
        pc = OR(s1.pc, s2.pc)
        if pc is st.pc:
            f = st.facts
        else:
            f = meet(s1.facts, s2.facts)
            g = st.facts.assume(pc)
            if g is not None:
                for v, x in f.d.items():
                    if v not in g.d:
                        g.add_atom(v, x)
                f = g
        st.m, st.pc, st.facts = m, pc, f

    def exit(self, kind, ty, st, val, e):
        self.handlers[-1].append(Exit(kind, ty, st.pc, st.copy(), val, self.where(e)))
        st.kill()

    def branch(self, c, st, f1, f2):
        """run f1 under c and f2 under not c, join; returns (v1, v2, c)"""
        c = st.facts.restrict(c)
        if istop(c):
            c = atom(raw('sym', 'unknown:%s' % (c.a[0],), 'b'))
            self.tops['branch on unknown: ' + str(c)] = 1
        if c is TRUE:
            return f1(st), None, c
        if c is FALSE:
            return None, f2(st), c
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(NOT(c))
        v1 = f1(s1) if not s1.dead else None
        v2 = f2(s2) if not s2.dead else None
        self.merge(st, c, s1, s2)
        if s1.dead:
            v1 = None
        if s2.dead:
            v2 = None
        return v1, v2, c

    def choose(self, c, st, f1, f2):
        v1, v2, c = self.branch(c, st, f1, f2)
        if v1 is None:
            return v2 if v2 is not None else UNIT
        if v2 is None:
            return v1
        return ITE(c, v1, v2)

    # ------------------------------------------------------------ statements
    def block(self, ss, st):
        for s in ss:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        if s is None or st.dead:
            return
        self.steps += 1
        if self.steps > 200000:
            raise Giveup('too many steps')
        k = s['k']
        if k == 'block':
            self.block(s['s'], st)
        elif k == 'expr':
            self.x(s['e'], st)
        elif k == 'decl':
            for v in s['v']:
                self.decl(v, st)
                if st.dead:
                    return
        elif k == 'if':
            if s.get('i'):
                self.stmt(s['i'], st)
            if s.get('cv'):
                self.stmt(s['cv'], st)
            c = asbool(self.ev(s['c'], st))
            if st.dead:
                return
            self.branch(c, st, lambda t: self.stmt(s['a'], t), lambda t: self.stmt(s['b'], t))
        elif k == 'ret':
            fr = self.frames[-1]
            v = UNIT
            if s.get('e'):
                if fr.fn['ret'].startswith('r<') or fr.fn['ret'].startswith('rr<'):
                    v = self.lv(s['e'], st)
                else:
                    v = self.ev(s['e'], st)
            if st.dead:
                return
            fr.returns.append(Exit('ret', None, st.pc, st.copy(), v, self.where(s)))
            st.kill()
        elif k == 'break':
            self.loops[-1]['breaks'].append(Exit('break', None, st.pc, st.copy(), UNIT, self.where(s)))
            st.kill()
        elif k == 'continue':
            for l in reversed(self.loops):
                if 'continues' in l:
                    l['continues'].append(Exit('continue', None, st.pc, st.copy(), UNIT, self.where(s)))
                    break
            st.kill()
        elif k == 'null':
            pass
        elif k in ('rfor', 'for', 'while', 'do'):
            from . import loops
            loops.run(self, s, st)
        elif k == 'switch':
            self.switch(s, st)
        elif k == 'try':
            self.trystmt(s, st)
        elif k in ('case', 'default'):
            self.stmt(s['s'], st)
        else:
            if 'k' in s and k in ('other',):
                raise Giveup('statement ' + str(s.get('c')))
            self.x(s, st)

    def decl(self, v, st):
        root = self.varroot(v)
        self.vartypes[root] = v['t']
        if v.get('static'):
            q = 'static:%s:%s' % (self.frames[-1].fn['id'], v['n'])
            if ('g', q) not in st.m and q not in self.gcache:
                if v.get('const') and 'init' in v:
                    self.gcache[q] = self.ev(v['init'], st)
                else:
                    self.gcache[q] = raw('sym', 'global:' + q, v['t'])
            self.statics[v['id']] = ('g', q)
            return
        t = v['t']
        if t.startswith('r<') or t.startswith('rr<'):
            r = self.lv(v['init'], st)
            st.m[root] = r
            return
        if 'init' in v:
            val = self.ev(v['init'], st)
            if st.dead:
                return
        else:
            if is_num(t) or t.startswith('p<'):
                val = raw('uninit', t, raw('obj', 'local', 0), v['n'])
            else:
                val = self.defval(t)
        st.m[root] = val
        self.writes[-1].add((root, None))

    def varroot(self, v):
        return ('v', self.frames[-1].n, v['id'])

    def switch(self, s, st):
        c = self.ev(s['c'], st)
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels: list of (labels, stmts)
        groups = []
        for b in body:
            labs = []
            while b is not None and b['k'] in ('case', 'default'):
                labs.append(None if b['k'] == 'default' else b['v'])
                b = b['s']
            if labs:
                groups.append((labs, [b] if b is not None else []))
            elif groups:
                groups[-1][1].append(b)
        vals = []
        for labs, _ in groups:
            for l in labs:
                if l is not None:
                    vals.append(self.ev(l, st))
        ctx = {'breaks': []}
        self.loops.append(ctx)
        pre = st.copy()
        allc = OR(*[eq(c, v) for v in vals])
        cur = St(dict(pre.m), FALSE, pre.facts)
        for labs, ss in groups:
            g = FALSE
            for l in labs:
                g = OR(g, NOT(allc) if l is None else eq(c, self.ev(l, pre)))
            ent = pre.copy()
            ent.assume(g)
            if not ent.dead and not cur.dead:
                t = pre.copy()
                self.merge(t, ent.pc, ent, cur)
                cur = t
            elif not ent.dead:
                cur = ent
            self.block(ss, cur)
        outs = [b for b in ctx['breaks']]
        self.loops.pop()
        if not cur.dead:
            outs.append(Exit('break', None, cur.pc, cur, UNIT, ''))
        has_default = any(None in labs for labs, _ in groups)
        if not has_default:
            ent = pre.copy()
            ent.assume(NOT(allc))
            if not ent.dead:
                outs.append(Exit('break', None, ent.pc, ent, UNIT, ''))
        self.join_exits(st, pre, outs)

    def join_exits(self, st, pre, outs):
        """join of disjoint exits; value of the joined exits is returned"""
        outs = [o for o in outs if o.pc is not FALSE]
        if not outs:
            st.kill()
            return UNIT
        acc = outs[-1].st.copy()
        val = outs[-1].val
        for o in reversed(outs[:-1]):
            c = pre.facts.restrict(o.pc)
            if c is TRUE:
                acc, val = o.st.copy(), o.val
                continue
            t = pre.copy()
            o_st = o.st.copy()
            self.merge(t, c, o_st, acc)
            val = ITE(c, o.val, val)
            acc = t
        st.become(acc)
        return val

    def trystmt(self, s, st):
        pre = st.copy()
        self.handlers.append([])
        self.stmt(s['b'], st)
        ex = self.handlers.pop()
        outs = []
        for x in ex:
            done = False
            if x.kind == 'throw':
                for h in s['h']:
                    if h['t'] == '...' or self.catches(h['t'], x.ty):
                        t = x.st.copy()
                        if 'v' in h:
                            t.m[self.varroot(h['v'])] = self.tmp(raw('opaque', x.ty), t) if h['v']['t'].startswith('r<') else raw('opaque', x.ty)
                        self.curexc = x.ty
                        self.stmt(h['b'], t)
                        if not t.dead:
                            outs.append(Exit('n', None, t.pc, t, UNIT, x.where))
                        done = True
                        break
            if not done:
                self.handlers[-1].append(x)
        if not st.dead:
            outs.append(Exit('n', None, st.pc, st.copy(), UNIT, ''))
        self.join_exits(st, pre, outs)

    STDEXC = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::domain_error': 'std::logic_error',
              'std::length_error': 'std::logic_error', 'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
              'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error'}

    def catches(self, h, t):
        h = strip_ref(h)
        h = h[2:] if h.startswith('R:') else h
        t = t[2:] if t.startswith('R:') else t
        while t:
            if t == h:
                return True
            if t in self.STDEXC:
                t = self.STDEXC[t]
                continue
            b = self.p.classes.get(t)
            t = b['bases'][0][2:] if b and b['bases'] else None
        return False

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        if st.dead:
            return UNIT
        v, isref = self.x(e, st)
        if st.dead:
            return UNIT
        if isref:
            v = self.load(v, st)
            if v.op == 'uninit' and e.get('k') in ('mem', 'var', 'un'):
                self.reads_uninit.append((v, self.where(e), st.pc, len(self.loops)))
        return v

    def lv(self, e, st):
        v, isref = self.x(e, st)
        if st.dead:
            return UNIT
        if not isref:
            v = self.tmp(v, st)
        return v

    def x(self, e, st):
        """evaluate; returns (term, isref)"""
        if st.dead:
            return UNIT, False
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            return self.top('expression ' + e['k'], e.get('t', '?'), e), False
        return m(e, st)

    def x_lit(self, e, st):
        v = e['v']
        if e['t'] == 'b':
            return (TRUE if v is True or v == 'true' or v == '1' else FALSE), False
        if e['t'] == 'f':
            src = e.get('src', '').rstrip('fFlL').replace("'", '')
            try:
                return num(Fr(src)), False
            except (ValueError, ZeroDivisionError):
                pass
            try:
                return num(Fr(v)), False
            except ValueError:
                return self.top('literal', 'f'), False
        return num(int(v)), False

    def x_null(self, e, st):
        return NULL, False

    def x_str(self, e, st):
        return raw('strlit'), False

    def x_zero(self, e, st):
        return self.defval(e['t']), False

    def x_sizeof(self, e, st):
        return self.top('sizeof', 'i'), False

    def x_this(self, e, st):
        return self.frames[-1].this, False

    def x_enum(self, e, st):
        return num(int(e['v'])), False

    def x_fn(self, e, st):
        return raw('fn', e['f']), False

    def x_memfn(self, e, st):
        return self.top('member function', '?', e), False

    def x_other(self, e, st):
        if e.get('c') in ('CXXStdInitializerListExpr', 'ExprWithCleanups', 'OpaqueValueExpr') and e['ch']:
            return self.x(e['ch'][0], st)
        return self.top('expression ' + str(e.get('c')), e.get('t', '?'), e), False

    def x_var(self, e, st):
        if e.get('g'):
            return ref(('g', e['q'])), True
        if e.get('static') or e['id'] in self.statics and ('v', self.frames[-1].n, e['id']) not in st.m:
            r = self.statics.get(e['id'])
            if r:
                return ref(r), True
        for fr in reversed(self.frames):
            root = ('v', fr.n, e['id'])
            if root in st.m:
                if e.get('ref'):
                    return st.m[root], True
                return ref(root), True
            if not fr.lam:
                break
        return self.top('variable ' + e['n'], e.get('t', '?'), e), False

    def deref(self, p, st, ty):
        """pointer value -> ref"""
        if p.op == 'ite':
            v, hi, lo = p.a
            d = st.facts.decide(v)
            if d is not None:
                return self.deref(hi if d else lo, st, ty)
            return ITE(atom(v), self.deref(hi, st, ty), self.deref(lo, st, ty))
        if p.op == 'ref':
            return p
        if p.op == 'lit':
            return self.itderef(p)
        if p.op in ('mit', 'mend'):
            return self.itderef(p)
        if p.op == 'mbeg':
            from .loops import small_map
            ks = small_map(self.load(p.a[0], st)) if self.concrete else None
            if not ks:
                return self.top('first element of a map', 'p<%s>' % ty)
            k = raw('sym', 'first:%d' % len(ks), 'i')
            key = ks[-1]
            for i, x in enumerate(ks[:-1]):
                key = ITE(eq(k, num(i)), x, key)
            r = None
            for _, x in leaves(key):
                q = ref(p.a[0].a[0], p.a[0].a[1] + (('e', x),))
                r = q if r is None else ITE(eq(k, num(ks.index(x))), q, r)
            return r
        if istop(p):
            return raw('top', p.a[0], 'p<%s>' % ty)
        if p is NULL:
            return self.top('null dereference', 'p<%s>' % ty)
        return ref(('heap', ty), (('k', p),))

    def itderef(self, it):
        if it.op == 'ite':
            return ITE(atom(it.a[0]), self.itderef(it.a[1]), self.itderef(it.a[2]))
        if it.op == 'mit':
            r = it.a[0]
            return ref(r.a[0], r.a[1] + (('e', it.a[1]),))
        if it.op == 'lit':
            r = it.a[0]
            return ref(r.a[0], r.a[1] + (('i', it.a[1]),))
        if it.op == 'mend':
            return self.top('dereference of end()', 'p<?>')
        return self.top('dereference of unknown iterator', 'p<?>')

    def ext(self, r, s):
        if r.op == 'ite':
            return ITE(atom(r.a[0]), self.ext(r.a[1], s), self.ext(r.a[2], s))
        if r.op == 'ref':
            return ref(r.a[0], r.a[1] + (s,))
        if istop(r):
            return r
        return self.top('member of ' + r.op, 'p<?>')

    def x_mem(self, e, st):
        b = e['b']
        if e['arrow']:
            p = self.ev(b, st)
            if st.dead:
                return UNIT, False
            bt = b.get('t', '?')
            r = self.deref(p, st, bt[2:-1] if bt.startswith('p<') else '?')
            return self.ext(r, ('f', e['f'], e['t'])), True
        v, isref = self.x(b, st)
        if st.dead:
            return UNIT, False
        if isref:
            return self.ext(v, ('f', e['f'], e['t'])), True
        return getf(v, e['f'], e['t']), False

    def x_sub(self, e, st):
        b, isref = self.x(e['b'], st)
        i = self.ev(e['i'], st)
        if isref:
            return self.ext(b, ('i', i)), True
        return at(b, i), False

    def x_un(self, e, st):
        op = e['op']
        if op == '*':
            p = self.ev(e['e'], st)
            if st.dead:
                return UNIT, False
            return self.deref(p, st, e['t']), True
        if op == '&':
            if e['e']['k'] == 'fn':
                return raw('fn', e['e']['f']), False
            return self.lv(e['e'], st), False
        v = self.ev(e['e'], st)
        if st.dead:
            return UNIT, False
        if op == '!':
            return NOT(asbool(v)), False
        if op == '-':
            return neg(lift(tonum, v)), False
        if op == '+':
            return v, False
        return self.top('unary ' + op, e['t'], e), False

    def x_inc(self, e, st):
        r = self.lv(e['e'], st)
        old = self.load(r, st)
        if old.op == 'uninit':
            self.reads_uninit.append((old, self.where(e), st.pc, len(self.loops)))
        d = ONE if e['op'] == '+' else num(-1)
        if any(l.op == 'lit' for _, l in leaves(old)):
            new = self.itadvance(old, d)
        else:
            new = add(old, d)
        self.store(r, new, st)
        if e['pre']:
            return r, True
        return old, False

    def itadvance(self, it, d):
        def g(x):
            if x.op == 'lit':
                return raw('lit', x.a[0], add(x.a[1], d))
            if x.op == 'mit' and d is ONE:
                return raw('mnext', x)
            return self.top('advance of map iterator', 'it')
        return liftx(g, [it])

    def arith(self, op, a, b, t, e, st):
        if op in ('+', '-') and (typ(a) == 'it' or a.op == 'lit' or a.op == 'ite' and any(l.op == 'lit' for _, l in leaves(a))):
            if b.op == 'lit' or any(l.op == 'lit' for _, l in leaves(b)):
                return liftx(lambda x, y: sub(x.a[1], y.a[1]) if x.op == 'lit' and y.op == 'lit' else self.top('iterator difference', 'i'), [a, b])
            return self.itadvance(a, b if op == '+' else neg(b))
        if op == '+':
            return add(a, b)
        if op == '-':
            r = sub(a, b)
            if t == 'u':
                c = st.facts.restrict(lt(a, b))
                if c is not FALSE and not istop(c):
                    c2 = st.facts.prune(c)
                    if c2 is not FALSE:
                        return ITE(c2, add(r, num(2 ** 64)), r)
            return r
        if op == '*':
            return mul(a, b)
        if op == '/':
            if t == 'f':
                return div(a, b)
            return idiv(lift(tonum, a), lift(tonum, b))
        if op == '%':
            return imod(lift(tonum, a), lift(tonum, b))
        if op in ('&', '|', '^') and t == 'b':
            a, b = asbool(a), asbool(b)
            return AND(a, b) if op == '&' else OR(a, b) if op == '|' else ITE(a, NOT(b), b)
        if op in ('&', '|') and typ(a) == 'b' and typ(b) == 'b':
            a, b = asbool(a), asbool(b)
            return AND(a, b) if op == '&' else OR(a, b)
        if op == '<<' and cval(b) is not None:
            return mul(a, num(2 ** int(cval(b))))
        return self.top('operator ' + op, t, e)

    def compare(self, op, a, b, e, st):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return NOT(eq(a, b))
        for x in (a, b):
            for _, l in leaves(x):
                if l.op == 'lit':
                    def g(p, q):
                        if p.op == 'lit' and q.op == 'lit' and p.a[0] is q.a[0]:
                            return self.compare(op, p.a[1], q.a[1], e, st)
                        return self.top('iterator order', 'b')
                    return liftx(g, [a, b])
                if l.op in ('opaque', 'ref', 'mit', 'mend'):
                    return self.top('comparison of ' + l.op, 'b')
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return NOT(lt(b, a))
        if op == '>=':
            return NOT(lt(a, b))
        return self.top('comparison ' + op, 'b', e)

    def x_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            a = asbool(self.ev(e['a'], st))
            if st.dead:
                return UNIT, False
            if op == '&&':
                return self.choose(a, st, lambda t: asbool(self.ev(e['b'], t)), lambda t: FALSE), False
            return self.choose(a, st, lambda t: TRUE, lambda t: asbool(self.ev(e['b'], t))), False
        if op == ',':
            self.x(e['a'], st)
            return self.x(e['b'], st)
        a = self.ev(e['a'], st)
        b = self.ev(e['b'], st)
        if st.dead:
            return UNIT, False
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, e, st), False
        return self.arith(op, a, b, e['t'], e, st), False

    def x_asg(self, e, st):
        b = self.ev(e['b'], st)
        r = self.lv(e['a'], st)
        if st.dead:
            return UNIT, False
        if e['op']:
            old = self.load(r, st)
            if old.op == 'uninit':
                self.reads_uninit.append((old, self.where(e), st.pc, len(self.loops)))
            ct = e.get('ct', e['t'])
            b = self.arith(e['op'], old, b, ct, e, st)
            if ct == 'f' and is_intty(e['t']):
                b = trunc_(b)
        if e['t'] == 'b' and typ(b) != 'b':
            b = asbool(b)
        self.store(r, b, st)
        return r, True

    def x_cond(self, e, st):
        c = asbool(self.ev(e['c'], st))
        if st.dead:
            return UNIT, False
        box_ = {}

        def side(n, which):
            def f(t):
                v, isr = self.x(n, t)
                box_[which] = isr
                if isr and not box_.get('lv'):
                    v = self.load(v, t)
                return v if not t.dead else None
            return f
        v = self.choose(c, st, side(e['a'], 0), side(e['b'], 1))
        return v, False

    def x_throw(self, e, st):
        if e.get('e'):
            self.ev(e['e'], st)
            if not st.dead:
                self.exit('throw', e['et'], st, UNIT, e)
        else:
            self.exit('throw', getattr(self, 'curexc', 'R:std::exception'), st, UNIT, e)
        return UNIT, False

    def x_lambda(self, e, st):
        caps = {}
        for c in e['caps']:
            if 'id' in c and not c['ref']:
                for fr in reversed(self.frames):
                    root = ('v', fr.n, c['id'])
                    if root in st.m:
                        v = st.m[root]
                        caps[c['id']] = self.load(v, st) if v.op == 'ref' else v
                        break
                    if not fr.lam:
                        break
        n = len(self.closures) + 1
        self.closures[n] = Closure(e, self.frames[-1], caps)
        return raw('clos', n), False

    def x_init(self, e, st):
        t = e['t']
        vals = [self.ev(a, st) for a in e['a']]
        if st.dead:
            return UNIT, False
        return self.from_list(t, vals), False

    def from_list(self, t, vals):
        if is_map(t):
            m = raw('empty', t)
            for v in vals:
                k = getf(v, 'first', targs(t)[0])
                m = ITE(inm(m, k), m, mset(m, k, getf(v, 'second', targs(t)[1])))
            return m
        if is_set(t):
            m = raw('empty', t)
            for v in vals:
                m = m if inm(m, v) is TRUE else mset(m, v, UNIT)
            return m
        if is_list(t) or t.startswith('a<'):
            l = raw('empty', t if is_list(t) else 'std::vector<%s>' % t[2:-1])
            for v in vals:
                l = lpush(l, v)
            return l
        if tbase(t) == 'std::pair' and len(vals) == 2:
            return pair(vals[0], vals[1])
        if is_num(t) or t.startswith('p<'):
            return vals[0] if vals else default_value(t)
        c = self.cls(t)
        if c:
            fs = self.fields_of(t[2:])
            d = {}
            for (n, ft, f), v in zip(fs, vals):
                d[(n, ft)] = v
            return mkrec(raw('obj', t, 0), d)
        if len(vals) == 1:
            return vals[0]
        return self.top('initialiser of ' + t, t)

    def x_cast(self, e, st):
        ck = e['ck']
        t = e['t']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic', 'NoOp', 'LValueBitCast'):
            return self.x(e['e'], st)
        if ck == 'ToVoid':
            self.x(e['e'], st)
            return UNIT, False
        v = self.ev(e['e'], st)
        if st.dead:
            return UNIT, False
        if ck == 'FloatingToIntegral':
            return trunc_(v), False
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return asbool(v), False
        if ck == 'NullToPointer':
            return NULL, False
        if ck in ('IntegralCast', 'FloatingCast') and self.wide and e.get('w', 64) < self.wide.get(v, 0):
            return raw('uf', 'narrow%d' % e['w'], t, (v,)), False
        if ck == 'IntegralCast':
            if t == 'u' and e['ft'] == 'i':
                c = st.facts.restrict(lt(v, ZERO)) if not istop(v) else FALSE
                if c is not FALSE and not istop(c):
                    cv = cval(v)
                    if cv is not None and cv < 0:
                        return add(v, num(2 ** 64)), False
            return v, False
        if ck == 'FloatingCast' and t == 'f':
            return v, False
        return v, False

    def newptr(self, ty):
        self.nobj += 1
        if any(x is None for x in self.loopvars):
            raise Giveup('allocation in a general loop')
        return raw('new', self.nobj, 'p<%s>' % ty, tuple(b for x in self.loopvars for b in x))

    def x_new(self, e, st):
        p = self.newptr(e['at'])
        v = self.ev(e['e'], st) if e.get('e') else self.defval(e['at'])
        if st.dead:
            return UNIT, False
        root = ('heap', e['at'])
        st.m[root] = mset(self.rootval(st, root), p, v)
        self.writes[-1].add((root, None))
        return p, False

    def x_delete(self, e, st):
        self.ev(e['e'], st)
        return UNIT, False

    # ------------------------------------------------------------ construction
    def construct_default(self, ty, st):
        c = self.cls(ty)
        if c is None:
            return default_value(ty)
        for m in c['methods']:
            if m['kind'] == 'ctor' and not m['params']:
                if m['id'] in self.p.funcs:
                    return self.construct(m['id'], ty, [], st, {})
        return self.construct(None, ty, [], st, {})

    def construct(self, fid, ty, args, st, e):
        self.nobj += 1
        o = raw('obj', ty, self.nobj)
        r = self.tmp(o, st)
        self.run_ctor(fid, ty[2:], r, args, st, e)
        if st.dead:
            return UNIT
        return self.load(r, st)

    def init_fields(self, q, r, st, done):
        """default member initialisation of the class's own members not in done"""
        c = self.p.classes.get(q)
        for f in c['fields']:
            if f['n'] in done:
                continue
            t = f['t']
            if f.get('init'):
                v = self.ev(f['init'], st)
            elif is_num(t) or t.startswith('p<') or t == 'F':
                continue     # indeterminate
            elif self.cls(t):
                v = self.construct_default(t, st)
            else:
                v = self.defval(t)
            self.store(self.ext(r, ('f', f['n'], t)), v, st)

    def run_ctor(self, fid, q, r, args, st, e):
        c = self.p.classes.get(q)
        f = self.p.funcs.get(fid) if fid else None
        if f is None:
            for b in (c['bases'] if c else []):
                self.run_default_base(b, r, st, e)
            if c:
                self.init_fields(q, r, st, set())
            return
        self.visited.add(fid)
        self.enter(f, r, args, st)
        fr = self.frames[-1]
        done = set()
        based = set()
        inits = f.get('inits', [])
        deleg = False
        for i in inits:
            if i.get('deleg'):
                deleg = True
                ce = i['e']
                a = self.ctor_args(ce, st)
                self.run_ctor(ce['f'], q, r, a, st, ce)
            elif 'base' in i:
                b = i['base']
                based.add(b)
                ce = i['e']
                if ce and ce['k'] == 'ctor' and self.cls(b):
                    self.run_ctor(ce['f'] if ce['f'] in self.p.funcs else None, b[2:], r, self.ctor_args(ce, st), st, ce)
            else:
                done.add(i['f'])
                ft = next((x['t'] for x in c['fields'] if x['n'] == i['f']), '?')
                if i['e'] is None:
                    continue
                if not i.get('written') and i['e']['k'] == 'ctor' and self.cls(ft) is None and not i['e']['a'] and is_num(ft):
                    continue
                if ft.startswith('r<'):
                    v = self.lv(i['e'], st)
                else:
                    v = self.ev(i['e'], st)
                if st.dead:
                    break
                self.store(self.ext(r, ('f', i['f'], ft)), v, st)
        if not st.dead:
            if not deleg:
                for b in c['bases']:
                    if b not in based:
                        self.run_default_base(b, r, st, e)
                self.init_fields(q, r, st, done)
            if f.get('body'):
                self.stmt(f['body'], st)
        self.leave(st)

    def run_default_base(self, b, r, st, e):
        k = self.cls(b)
        if k is None:
            return
        fid = None
        for m in k['methods']:
            if m['kind'] == 'ctor' and not m['params'] and m['id'] in self.p.funcs:
                fid = m['id']
        self.run_ctor(fid, b[2:], r, [], st, e)

    def ctor_args(self, e, st):
        f = self.p.funcs.get(e['f'])
        return self.args(f, e['a'], st) if f else [self.ev(a, st) for a in e['a']]

    def x_ctor(self, e, st):
        t = e['t']
        if (e['copy'] or e['move']) and not (e['f'] in self.p.funcs and not self.p.funcs[e['f']].get('defaulted')):
            return self.ev(e['a'][0], st), False
        c = self.cls(t)
        if c is not None:
            f = self.p.funcs.get(e['f'])
            if f is None:
                if e['a']:
                    return self.top('constructor ' + e['f'], t, e), False
                return self.construct(None, t, [], st, e), False
            a = self.args(f, e['a'], st)
            if st.dead:
                return UNIT, False
            self.checkdepth(e['f'])
            self.stack.append(e['f'])
            try:
                v = self.construct(e['f'], t, a, st, e)
            finally:
                self.stack.pop()
            return v, False
        from . import lib
        return lib.construct(self, e, st), False

    # ------------------------------------------------------------ calls
    def args(self, f, aexprs, st):
        out = []
        for i, a in enumerate(aexprs):
            pt = f['params'][i]['t'] if i < len(f['params']) else '?'
            if pt.startswith('r<') or pt.startswith('rr<'):
                out.append(self.lv(a, st))
            else:
                out.append(self.ev(a, st))
            if st.dead:
                return out
        return out

    def enter(self, f, this, args, st, lam=None):
        self.nframe += 1
        fr = Frame(self.nframe, f, this)
        fr.lam = lam
        fr.pre = st.copy()
        self.frames.append(fr)
        self.handlers.append([])
        for p, a in zip(f['params'], args):
            st.m[('v', fr.n, p['id'])] = a
            self.vartypes[('v', fr.n, p['id'])] = strip_ref(p['t'])
        self.calls += 1
        return fr

    def leave(self, st):
        fr = self.frames.pop()
        ex = self.handlers.pop()
        outs = list(fr.returns)
        if not st.dead:
            outs.append(Exit('ret', None, st.pc, st.copy(), UNIT, ''))
        pre = fr.pre
        # merge refusals that end the same way
        self.handlers[-1].extend(ex)
        v = self.join_exits(st, pre, outs)
        for k in [k for k in st.m if k[0] == 'v' and k[1] == fr.n]:
            # keep: references to dead locals cannot legally be used
            del st.m[k]
        return v

    def checkdepth(self, fid):
        if len(self.stack) > MAXDEPTH or self.stack.count(fid) > 3:
            raise Giveup('recursion in ' + fid)

    def call(self, fid, this, args, st, e=None):
        f = self.p.funcs[fid]
        if fid in self.overrides:
            return self.overrides[fid](self, this, args, st)
        self.checkdepth(fid)
        self.visited.add(fid)
        self.stack.append(fid)
        try:
            self.enter(f, this, args, st)
            self.stmt(f['body'], st)
            v = self.leave(st)
        finally:
            self.stack.pop()
        return v

    def retref(self, f):
        return f['ret'].startswith('r<') or f['ret'].startswith('rr<')

    def apply(self, fv, args, st, e):
        """call a function value (closure, function pointer, functor) with argument values"""
        if fv.op == 'ite':
            c = atom(fv.a[0])
            return self.choose(c, st, lambda t: self.apply(fv.a[1], args, t, e), lambda t: self.apply(fv.a[2], args, t, e))
        if fv.op == 'clos':
            c = self.closures[fv.a[0]]
            n = c.node
            f = {'id': n['f'], 'params': n['params'], 'ret': n['rt'], 'body': n['body'], 'file': n.get('fi', ''), 'l': n['l'], 'q': 'lambda'}
            a2 = []
            for p, a in zip(n['params'], args):
                a2.append(self.adapt(p['t'], a, st))
            # captured by value: bind copies
            fr = self.enter(f, c.frame.this, a2, st, lam=c.frame)
            for k, v in c.caps.items():
                st.m[('v', fr.n, k)] = v
            # by-reference captures are found through the enclosing frames
            saved = self.frames
            if c.frame in self.frames:
                self.frames = self.frames[:self.frames.index(c.frame) + 1] + [fr]
            self.checkdepth(n['f'])
            self.stack.append(n['f'])
            try:
                self.stmt(n['body'], st)
            finally:
                self.stack.pop()
                self.frames = saved
            v = self.leave(st)
            if n['rt'].startswith('r<'):
                v = self.load(v, st)
            return v
        if fv.op == 'fn':
            f = self.p.funcs.get(fv.a[0])
            if f:
                return self.call(fv.a[0], None, [self.adapt(p['t'], a, st) for p, a in zip(f['params'], args)], st, e)
            from . import lib
            return lib.apply_named(self, fv.a[0], args, st, e)
        if typ(fv).startswith('R:'):
            q = typ(fv)[2:]
            for f in self.p.funcs.values():
                if f.get('cls') == q and f['n'] == 'operator()' and len(f['params']) == len(args):
                    r = self.tmp(fv, st)
                    v = self.call(f['id'], r, [self.adapt(p['t'], a, st) for p, a in zip(f['params'], args)], st, e)
                    return self.load(v, st) if self.retref(f) else v
        return self.top('call of ' + fv.op, '?', e or {})

    def adapt(self, pt, a, st):
        """argument a (value or ref) for a parameter of type pt"""
        isref = a.op == 'ref' or (a.op == 'ite' and all(l.op == 'ref' for _, l in leaves(a)))
        if pt.startswith('r<') or pt.startswith('rr<'):
            return a if isref else self.tmp(a, st)
        if isref and not pt.startswith('p<'):
            return self.load(a, st)
        return a

    def x_icall(self, e, st):
        fv = self.ev(e['fe'], st)
        if st.dead:
            return UNIT, False
        for _, l in leaves(fv):
            if l.op == 'fn' and l.a[0] in self.p.funcs:
                f = self.p.funcs[l.a[0]]
                a = self.args(f, e['a'], st)
                break
        else:
            a = [self.ev(x, st) for x in e['a']]
            if st.dead:
                return UNIT, False
            # unresolved slot: an event on the receiver
            return self.event('slot', [fv] + a, e, st), False
        if st.dead:
            return UNIT, False
        return self.apply(fv, a, st, e), False

    def event(self, name, args, e, st):
        root = ('trace',)
        tr = self.rootval(st, root)
        st.m[root] = lpush(tr, raw('ev', name, tuple(args)))
        self.writes[-1].add((root, None))
        if e['t'] == 'v':
            return UNIT
        return raw('uf', 'call:' + name, e['t'], tuple(args), tr)

    def x_call(self, e, st):
        f = self.p.funcs.get(e['f'])
        if e.get('noreturn') or e['q'] in ('__assert_fail', 'abort', 'std::abort', 'exit', 'std::exit', 'std::terminate'):
            self.exit('abort', e['q'], st, UNIT, e)
            return UNIT, False
        if f is not None and f.get('body') and not self.opaque(f):
            a = self.args(f, e['a'], st)
            if st.dead:
                return UNIT, False
            v = self.call(e['f'], None, a, st, e)
            return v, (self.retref(f) and not st.dead)
        from . import lib
        return lib.call(self, e, st)

    def x_mcall(self, e, st):
        q = e['q']
        if e.get('lambda'):
            fv = self.ev(e['o'], st)
            a = [self.x(x, st) for x in e['a']]
            if st.dead:
                return UNIT, False
            return self.apply(fv, [v for v, _ in a], st, e), False
        ot = e.get('ot', '?')
        f = self.p.funcs.get(e['f'])
        isrepo = f is not None or self.cls(ot) is not None
        if isrepo:
            if e['arrow']:
                p = self.ev(e['o'], st)
                if st.dead:
                    return UNIT, False
                r = self.deref(p, st, ot)
            else:
                r = self.lv(e['o'], st)
            if st.dead:
                return UNIT, False
            fid = e['f']
            if e.get('virt'):
                dyn = self.dyntype(r, st)
                if dyn is not None and self.cls('R:' + dyn):
                    fid = self.find_override(dyn, e['f'], q) or fid
                    f = self.p.funcs.get(fid)
                else:
                    f = None
            if r.op == 'ref' and r.a[0][0] == 'heap' and self.polymorphic(ot):
                f = None
            if f is None or (f.get('defaulted') and e.get('op') == '='):
                if e.get('op') == '=':
                    v = self.ev(e['a'][0], st)
                    if st.dead:
                        return UNIT, False
                    self.store(r, v, st)
                    return r, True
                a = [self.ev(x, st) for x in e['a']]
                if st.dead:
                    return UNIT, False
                return self.event(q, [r] + a, e, st), False
            if self.opaque(f):
                a = [self.ev(x, st) for x in e['a']]
                return self.event(q, [r] + a, e, st), False
            a = self.args(f, e['a'], st)
            if st.dead:
                return UNIT, False
            if r.op == 'ite':
                # several possible receivers
                isr = self.retref(f)
                v = self.choose(atom(r.a[0]), st, lambda t: self.call_on(fid, r.a[1], a, t, e), lambda t: self.call_on(fid, r.a[2], a, t, e))
                return v, isr and not st.dead
            if istop(r):
                raise Giveup('call on unknown object in ' + q)
            v = self.call(fid, r, a, st, e)
            return v, (self.retref(f) and not st.dead)
        from . import lib
        return lib.mcall(self, e, st)

    def call_on(self, fid, r, a, st, e):
        if r.op == 'ite':
            return self.choose(atom(r.a[0]), st, lambda t: self.call_on(fid, r.a[1], a, t, e), lambda t: self.call_on(fid, r.a[2], a, t, e))
        if istop(r):
            raise Giveup('call on unknown object')
        return self.call(fid, r, a, st, e)

    def polymorphic(self, ot):
        c = self.cls(ot)
        if not c:
            return False
        return any(m['pure'] for m in c['methods'])

    def dyntype(self, r, st):
        if r.op != 'ref':
            return None
        v = self.load(r, st)
        ts = set()
        for _, l in leaves(v):
            b = l.a[0] if l.op == 'rec' else l
            ts.add(typ(b))
        if len(ts) == 1:
            t = ts.pop()
            if t.startswith('R:'):
                if r.a[0][0] == 'heap' and self.polymorphic(t):
                    return None
                return t[2:]
        return None


def walk(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)
