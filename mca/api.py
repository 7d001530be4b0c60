"""Entry points for rules: run a function or a sequence of member calls from a symbolic state."""
from .terms import *
from .containers import *
from .engine import Engine, St, Exit, Giveup, ref, walk
from . import terms as tm


class Outcome:
    """all exits of an analysed call sequence"""

    def __init__(self, exits, en):
        self.exits, self.en = exits, en

    def normal(self):
        return [x for x in self.exits if x.kind == 'ret']

    def refused(self):
        return [x for x in self.exits if x.kind in ('throw', 'abort')]


class Session:
    def __init__(self, prog, opaque=None):
        self.p = prog
        self.en = Engine(prog, opaque)
        self.st = St()
        self.exits = []

    def obj(self, name, ty, value=None):
        root = ('o', name)
        self.st.m[root] = value if value is not None else raw('sym', name, ty)
        return ref(root)

    def val(self, r, st=None):
        return self.en.load(r, st or self.st)

    def assume(self, c):
        self.st.assume(c)

    def arg(self, name, ty):
        """argument for a parameter of type ty"""
        if ty.startswith('r<') or ty.startswith('rr<'):
            return self.obj(name, strip_ref(ty))
        if ty.startswith('std::unique_ptr'):
            return raw('sym', name, ty)
        return raw('sym', name, ty)

    def call(self, fid, this=None, args=None, name='arg'):
        """runs; the session continues with the normal exits.  Returns the (joined) return value"""
        f = self.p.funcs[fid]
        if args is None:
            args = [self.arg(p['n'] or 'a%d' % i, p['t']) for i, p in enumerate(f['params'])]
        self.en.handlers.append([])
        if f['kind'] == 'ctor':
            self.en.stack.append(fid)
            v = self.en.construct(fid, 'R:' + f['cls'], args, self.st, {'l': f['l']})
            self.en.stack.pop()
        else:
            v = self.en.call(fid, this, args, self.st)
        ex = self.en.handlers.pop()
        self.exits += ex
        self.last = ex
        return v
