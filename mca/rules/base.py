"""Obligations, sessions and reporting shared by the rules."""
import os
import pickle
import selectors
import signal
import sys
import time
import traceback
from ..terms import *
from ..containers import *
from .. import terms as tm
from .. import interp
from ..engine import Engine, St, Exit, Giveup, ref, walk

MY = 'mythical::'
SITE, CLUSTER, TF = MY + 'Site', MY + 'Cluster', MY + 'TopologyFeature'
SC, CC, RC = MY + 'Site_Container', MY + 'Cluster_Container', MY + 'Rate_Container'
QUEUE, WALKER, IDENT = MY + 'Queue', MY + 'Walker', MY + 'Identity'
CUBOID, MARCUS = MY + 'charge_transport::Cuboid', MY + 'charge_transport::Marcus'
CGS, BASIN = MY + 'CoarseGrainSystem', MY + 'BasinExplorer'


WORKERS = min(8, os.cpu_count() or 1)


class NoAnchor(Exception):
    pass


def same(a, b):
    """extensional equality of two values as a boolean term"""
    if a is b:
        return FALSE if istop(a) and False else (TRUE if not istop(a) else raw('top', a.a[0], 'b'))
    if istop(a) or istop(b):
        return raw('top', (a if istop(a) else b).a[0], 'b')
    if a.op == 'ite' or b.op == 'ite':
        if nleaves(a) * nleaves(b) <= 64:
            v = min(x.a[0] for x in (a, b) if x.op == 'ite')
            return ITE(atom(v), same(cof(a, v, 1), cof(b, v, 1)), same(cof(a, v, 0), cof(b, v, 0)))
        return atom(raw('same', *sorted((a, b))))
    ta, tb = typ(a), typ(b)
    if a.op in ('P', 'true', 'false') or b.op in ('P', 'true', 'false') or (is_num(ta) and is_num(tb)):
        return eq(a, b)
    if a.op == 'pair' and b.op == 'pair':
        return AND(same(a.a[0], b.a[0]), same(a.a[1], b.a[1]))
    ba = a.a[0] if a.op == 'rec' else a
    bb = b.a[0] if b.op == 'rec' else b
    if (a.op == 'rec' or b.op == 'rec') and ba is bb:
        fa = dict(a.a[1]) if a.op == 'rec' else {}
        fb = dict(b.a[1]) if b.op == 'rec' else {}
        r = TRUE
        for k in sorted(set(fa) | set(fb)):
            x = fa.get(k) or fld0(ba, k)
            y = fb.get(k) or fld0(bb, k)
            r = AND(r, same(x, y))
        return r
    return atom(raw('same', *sorted((a, b))))


# private names used to shape the models, found by looking at what the accessors read
NAMES = {}


def discover(prog):
    """actual names of the members behind getId, isOccupied, getVisitFrequency and getClusterId"""
    NAMES.clear()

    def flds(t, acc):
        for x in walk_terms(t):
            if x.op == 'fld' and x.a[0].op == 'sym':
                acc.append((x.a[1], typ(x)))
        return acc
    c = Check.__new__(Check)
    c.p, c.functions, c.callsites, c.missing, c.anchors = prog, set(), 0, [], 0
    for cls, meth, npar, want in ((SITE, 'getId', 0, {'i': 'id_', 'b': 'id_set_'}), (SITE, 'isOccupied', 0, {'i': 'occupied_'}),
                                  (SITE, 'getVisitFrequency', 0, {'i': 'total_visit_freq_'}), (SITE, 'getClusterId', 0, {'i': 'cluster_id_'})):
        try:
            s = Sess(c)
            o = s.obj('probe', cls)
            v = s.call(c.m(cls, meth, npar), o, [])
            got = {}
            for n, t in flds(v, []) + flds(s.pc, []):
                got.setdefault(t, n)
            for t, canon_ in want.items():
                if t in got:
                    NAMES[canon_] = got[t]
        except (NoAnchor, Giveup, Blowup):
            pass


def walk_terms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tm.T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)


def nm_(canon_):
    return NAMES.get(canon_, canon_)


def identified(base, ty, k, **more):
    """record with identity k"""
    o = {(nm_('id_'), 'i'): k, (nm_('id_set_'), 'b'): True}
    return interp.Rec(base, ty, o)


def translated(hints):
    if not hints or all(nm_(k) == k for k in NAMES):
        return hints
    out = {}
    for k, v in hints.items():
        if isinstance(k, tuple) and k[0] == 'field':
            k = ('field', nm_(k[1]))
        out[k] = v
    return out


class Found:
    def __init__(self, name, where, what, witness=''):
        self.name, self.where, self.what, self.witness = name, where, what, witness


class Deadline(BaseException):
    """the time for the whole check is used up"""


def _late(*_):
    raise Deadline()


LIMIT = {'quick': 420, 'thorough': 5400}      # seconds for a whole check; what is left is undetermined


class Check:
    """one property's run"""

    def __init__(self, pid, prog, tier='quick', seed=1):
        self.pid, self.p, self.tier, self.seed = pid, prog, tier, seed
        self.n = 40 if tier == 'quick' else 300
        self.obligations = []       # (name, status, how)
        self.found = []
        self.functions = set()
        self.callsites = 0
        self.notes = []
        self.missing = []
        self.anchors = 0
        self.end = time.time() + float(os.environ.get('MCA_LIMIT') or LIMIT.get(tier, 420))
        if not NAMES:
            discover(prog)

    # ------------------------------------------------------------ anchors
    def methods(self, cls, name, npar=None, const=None, pred=None):
        """ids of the methods called name of class cls (or inherited)"""
        out = []
        for c in [cls] + Engine(self.p).bases(cls):
            for f in self.p.funcs.values():
                if f.get('cls') == c and f['n'] == name and (npar is None or len(f['params']) == npar) and f.get('body') is not None:
                    if const is not None and bool(f.get('const')) != const:
                        continue
                    if pred is not None and not pred(f):
                        continue
                    out.append(f['id'])
            if out:
                return sorted(out)
        return out

    def m(self, cls, name, npar=None, pred=None, const=None):
        ms = self.methods(cls, name, npar, const, pred)
        if not ms:
            self.missing.append('%s::%s/%s' % (cls, name, npar))
            raise NoAnchor('%s::%s/%s' % (cls, name, npar))
        self.anchors += 1
        return ms[0]

    def ctor(self, cls, npar=0):
        for f in self.p.funcs.values():
            if f['kind'] == 'ctor' and f.get('cls') == cls and not f.get('copyctor') and len(f['params']) == npar:
                return f['id']
        raise NoAnchor('%s constructor/%d' % (cls, npar))

    def where(self, fid):
        f = self.p.funcs.get(fid)
        return '%s:%s' % (f['file'], f['l']) if f else fid

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, assume=TRUE, where='', what='', hints=None, n=None, fuel=400000):
        """goal wherever assume"""
        v = interp.decide(goal, assume, self.p, translated(hints), n or self.n, self.seed, fuel)
        self.obligations.append((name, v.status, v.why if v.status != 'proved' else '', v.models))
        if v.status == 'refuted':
            self.found.append(Found(name, where, what or name, v.why))
        return v.status

    def settled(self, name, ok, where='', what='', witness=''):
        """an obligation decided structurally"""
        self.obligations.append((name, 'proved' if ok else 'refuted', '', 0))
        if not ok:
            self.found.append(Found(name, where, what or name, witness))

    def open(self, name, why):
        self.obligations.append((name, 'open', why, 0))

    def group(self, name, fn, *a):
        """run part of a rule; analysis failures leave it undetermined"""
        tm.new_budget()
        t0 = time.time()
        if self.end - t0 < 1:
            self.open(name, 'no time left')
            return
        try:
            signal.signal(signal.SIGALRM, _late)
            signal.setitimer(signal.ITIMER_REAL, self.end - t0)
            self.depth = getattr(self, 'depth', 0) + 1
            try:
                fn(*a)
            finally:
                self.depth -= 1
                signal.setitimer(signal.ITIMER_REAL, max(0.05, self.end - time.time()) if self.depth else 0)
        except Deadline:
            self.open(name, 'no time left')
        except NoAnchor as e:
            self.open(name, 'no anchor: %s' % e)
        except (Giveup, Blowup) as e:
            self.open(name, '%s: %s' % (type(e).__name__, e))
        except RecursionError:
            self.open(name, 'recursion')
        except Exception as e:
            if os.environ.get('MCA_DEBUG'):
                raise
            self.open(name, 'internal %s: %s' % (type(e).__name__, e))
        dt = time.time() - t0
        if dt > 5:
            self.notes.append('%s took %.1fs' % (name, dt))

    def groups(self, jobs):
        """run groups (name, function, arguments...) side by side"""
        jobs = list(jobs)
        if os.environ.get('MCA_SERIAL') or len(jobs) < 2:
            for j in jobs:
                self.group(j[0], j[1], *j[2:])
            return
        out, todo, live = {}, list(enumerate(jobs)), {}
        sel_ = selectors.DefaultSelector()
        while todo or live:
            while todo and len(live) < WORKERS:
                i, j = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        os.close(r)
                        self.obligations, self.found, self.notes, self.missing = [], [], [], []
                        self.functions, self.callsites = set(), 0
                        self.group(j[0], j[1], *j[2:])
                        d = pickle.dumps((self.obligations, [vars(f) for f in self.found], self.notes, self.missing, self.functions, self.callsites))
                        with os.fdopen(w, 'wb') as fh:
                            fh.write(d)
                        rc = 0
                    except BaseException:
                        if os.environ.get('MCA_DEBUG'):
                            traceback.print_exc()
                    finally:
                        os._exit(rc)
                os.close(w)
                live[r] = (i, pid, [])
                sel_.register(r, selectors.EVENT_READ)
            for key, _ in sel_.select():
                r = key.fd
                b = os.read(r, 1 << 20)
                i, pid, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                sel_.unregister(r)
                os.close(r)
                os.waitpid(pid, 0)
                out[i] = b''.join(buf)
                del live[r]
        for i, j in enumerate(jobs):
            if not out.get(i):
                self.open(j[0], 'analysis did not finish')
                continue
            ob, fo, no, mi, fu, ca = pickle.loads(out[i])
            self.obligations += ob
            self.found += [Found(f['name'], f['where'], f['what'], f['witness']) for f in fo]
            self.notes += no
            self.missing += mi
            self.functions |= fu
            self.callsites += ca
            self.anchors += 1

    def sess(self, opaque=None):
        return Sess(self, opaque)


class Sess:
    """an analysed history: calls from a symbolic state"""

    def __init__(self, chk, opaque=None, parent=None):
        self.c = chk
        self.p = chk.p
        if parent is None:
            self.en = Engine(chk.p, opaque)
            self.st = St()
        else:
            self.en = parent.en
            self.st = parent.st.copy()
        self.exits = []

    def fork(self):
        return Sess(self.c, None, self)

    def obj(self, name, ty, value=None):
        root = ('o', name)
        if not ty.startswith('R:') and ty.startswith(MY):
            ty = 'R:' + ty
        self.st.m[root] = value if value is not None else raw('sym', name, ty)
        return ref(root)

    def sym(self, name, ty):
        return raw('sym', name, ty)

    def val(self, r):
        return self.en.load(r, self.st)

    def assume(self, c):
        self.st.assume(c)
        return self

    @property
    def pc(self):
        return self.st.pc

    @property
    def dead(self):
        return self.st.dead

    def adapt(self, f, args):
        out = []
        for p, a in zip(f['params'], args):
            pt = p['t']
            if pt.startswith('r<') or pt.startswith('rr<'):
                isref = a.op == 'ref' or (a.op == 'ite' and all(l.op == 'ref' for _, l in leaves(a)))
                out.append(a if isref else self.en.tmp(a, self.st))
            else:
                out.append(a)
        return out

    def call(self, fid, this=None, args=()):
        """returns the value (references loaded); exits of this call in self.last, accumulated in self.exits"""
        f = self.p.funcs[fid]
        a = self.adapt(f, args)
        self.en.handlers.append([])
        try:
            if f['kind'] == 'ctor':
                self.en.stack.append(fid)
                v = self.en.construct(fid, 'R:' + f['cls'], a, self.st, {'l': f['l']})
                self.en.stack.pop()
            else:
                v = self.en.call(fid, this, a, self.st)
        finally:
            ex = self.en.handlers.pop()
        self.c.functions |= self.en.visited
        self.c.callsites += self.en.calls
        self.last = ex
        self.exits += ex
        self.rawret = v
        if f['kind'] != 'ctor' and self.en.retref(f) and not self.st.dead:
            v = self.en.load(v, self.st)
        return v

    def __call__(self, o, name, *args, cls=None):
        """call the method by name on object reference o"""
        q = cls or self.clsof(o)
        fid = self.c.m(q, name, len(args))
        return self.call(fid, o, args)

    def clsof(self, o):
        v = self.val(o)
        for _, l in leaves(v):
            b = l.a[0] if l.op == 'rec' else l
            t = typ(b)
            if t.startswith('R:'):
                return t[2:]
        raise NoAnchor('class of object')

    def make(self, name, cls, *args):
        """object built by its constructor"""
        try:
            fid = self.c.ctor(cls, len(args))
        except NoAnchor:
            if args or cls not in self.p.classes or any(f['kind'] == 'ctor' and f.get('cls') == cls and not f.get('copyctor') for f in self.p.funcs.values()):
                raise
            return self.obj(name, cls, self.en.construct_default('R:' + cls, self.st))
        return self.obj(name, cls, self.call(fid, None, args))


def throws(ex, ty='std::invalid_argument'):
    return ex.kind == 'throw' and ex.ty is not None and ex.ty.endswith(ty)
